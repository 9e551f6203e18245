use hash_trie_pbt::{dict::*, engine::*, ensure, hist::*, pairs::*, probe::*, with_few};

fn run<D: Bulky>(p: &Pair, info: &mut Info) -> Result<(), String> {
    let ctx = Ctx::new();
    let r = (|| {
        let (l, lm, r, rm) = build_pair::<D>(p, &ctx);
        for (d, m, op) in [(&l, &lm, &p.bulk.one), (&r, &rm, &p.bulk.right)] {
            let before = addresses(d);
            let (n, nm, _) = checked_transform(d, m, op, p.bulk.par, true)?;
            same(&n, &nm, &p.uni, &ctx).map_err(|e| format!("the transformed container: {e}"))?;
            // Once more on the result: an operation must be able to take any result as its input.
            let (n2, nm2, _) = checked_transform(&n, &nm, &p.bulk.right, !p.bulk.par, true).map_err(|e| format!("second transform: {e}"))?;
            drain(&n, &nm, &p.uni, &ctx).map_err(|e| format!("the transformed container: {e}"))?;
            drain(&n2, &nm2, &p.uni, &ctx).map_err(|e| format!("the twice transformed container: {e}"))?;
            same(d, m, &p.uni, &ctx).map_err(|e| format!("the original after the transform: {e}"))?;
            ensure!(addresses(d) == before, "the original's entries moved during a transform");
            let kinds: std::collections::BTreeSet<u8> = m.keys().map(|i| op.kind(*i)).collect();
            info.nontrivial_if(m.len() >= 3 && (kinds.len() >= 2 || op.is_const()));
            info.label_if(!op.is_const() && kinds.len() == 3, "all-three-outcomes");
            info.label_if(op.is_const(), "constant");
            info.label_if(nm.is_empty() && !m.is_empty(), "emptied");
            info.label_if(nm.len() == 1 && m.len() > 1, "reduced-to-one");
        }
        classes(p, &lm, &rm, D::w(), info);
        Ok(())
    })();
    ctx.sound()?;
    r
}
fn check(p: &Pair, info: &mut Info) -> Result<(), String> {
    with_few!(p.cfg, C => if p.map { run::<Map<C>>(p, info) } else { run::<Set<C>>(p, info) })
}
fn main() {
    hash_trie_pbt::engine::main(Spec {
        id: "P08",
        rule: "Random maps and sets built by inserts, replacements and removals, transformed once and then again by random operations (constant or a random per-key outcome table), sequentially or in parallel. Non-trivial: three or more entries and either a constant operation or at least two different outcomes among them.",
        assumptions: &[],
        quick: 120_000,
        thorough: 3_000_000,
        strategy: |big| pair(N_FEW, None, if big { 300 } else { 32 }, if big { 200 } else { 30 }),
        check,
        enumerate: None,
    })
}
