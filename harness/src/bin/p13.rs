use hash_trie_pbt::{dict::*, engine::*, ensure, hist::*, pairs::*, probe::*, with_few};

fn run<D: Bulky>(p: &Pair, info: &mut Info) -> Result<(), String> {
    let ctx = Ctx::new();
    let r = (|| {
        let (l, lm, r, rm) = build_pair::<D>(p, &ctx);
        let before = (addresses(&l), addresses(&r));
        let (n, nm, _) = checked_join(&l, &lm, &r, &rm, &p.bulk, true)?;
        same(&n, &nm, &p.uni, &ctx).map_err(|e| format!("the result: {e}"))?;
        drain(&n, &nm, &p.uni, &ctx).map_err(|e| format!("the result: {e}"))?;
        // The result joined with its own parents, and a container with itself.
        checked_join(&n, &nm, &l, &lm, &p.bulk, true).map_err(|e| format!("result with left: {e}"))?;
        checked_join(&r, &rm, &n, &nm, &p.bulk, true).map_err(|e| format!("right with result: {e}"))?;
        checked_join(&l, &lm, &l, &lm, &p.bulk, true).map_err(|e| format!("left with itself: {e}"))?;
        same(&l, &lm, &p.uni, &ctx).map_err(|e| format!("the left container afterwards: {e}"))?;
        same(&r, &rm, &p.uni, &ctx).map_err(|e| format!("the right container afterwards: {e}"))?;
        ensure!(before == (addresses(&l), addresses(&r)), "the entries of the originals moved");
        classes(p, &lm, &rm, D::w(), info);
        let both = lm.keys().filter(|k| rm.contains_key(k)).count();
        info.nontrivial_if(both >= 1 && lm.len() > both && rm.len() > both);
        Ok(())
    })();
    ctx.sound()?;
    r
}
fn check(p: &Pair, info: &mut Info) -> Result<(), String> {
    with_few!(p.cfg, C => run::<Set<C>>(p, info))
}
fn main() {
    hash_trie_pbt::engine::main(Spec {
        id: "P13",
        rule: "Random pairs of sets, grown apart from a common ancestor or built separately, joined under random operations for common, left-only and right-only keys (constant or per-key outcome tables, also handed over flipped), sequentially or in parallel; the result is taken apart and joined again with its parents. Non-trivial: common keys, left-only keys and right-only keys all present.",
        assumptions: &["operations that may keep either side's entry are accepted with either", "which constants of constant operations show up in the reduction is left open: the library may reduce one constant for a whole subtrie or leave it out beside others"],
        quick: 120_000,
        thorough: 3_000_000,
        strategy: |big| pair(N_FEW, Some(false), if big { 300 } else { 32 }, if big { 200 } else { 26 }),
        check,
        enumerate: None,
    })
}
