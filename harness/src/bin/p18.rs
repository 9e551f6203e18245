use hash_trie_pbt::{bulk::*, engine::*, ensure, hist::*, pairs::*, probe::*, with_three, dict::*};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashSet;
use std::sync::Arc;

#[derive(Clone, Debug, Hash, PartialEq, Eq, Serialize, Deserialize)]
enum Case {
    History(Hist),
    Bulk(Pair),
}

fn alive(ctx: &Arc<Ctx>, live: &[&Made], when: &str) -> Result<(), String> {
    ctx.sound().map_err(|e| format!("{when}: {e}"))?;
    let keys: HashSet<usize> = live.iter().flat_map(|m| m.addr.values().map(|a| a.0)).collect();
    let vals: HashSet<usize> = live.iter().flat_map(|m| m.addr.values().map(|a| a.1)).filter(|a| *a != 0).collect();
    ensure!(ctx.live() == (keys.len() as i64, vals.len() as i64), "{when}: {:?} keys and values are alive, but the living containers hold {} and {}", ctx.live(), keys.len(), vals.len());
    Ok(())
}
fn bulk<I: Inputs>(p: &Pair, info: &mut Info) -> Result<(), String> {
    let ctx = Ctx::new();
    let r = (|| {
        let which = Which::of(I::map(), p.variant);
        let i = I::build(p, which, &ctx)?;
        let mut o = Ops::of(p, which);
        let (lm, rm) = (i.models().0.clone(), i.models().1.clone());
        let (l, r) = (i.left_now(), i.right_now());
        alive(&ctx, &[&l, &r], "before")?;
        let mut a = i.run(&o, &new_log());
        o.par = !o.par;
        let b = i.run(&o, &new_log());
        let at = |s: &str| format!("{which:?}, {s}");
        alive(&ctx, &[&l, &r, &a, &b], &at("with both results alive"))?;
        let am = a.model()?;
        info.label(&format!("{}{which:?}", if I::map() { "map " } else { "set " }));
        classes(p, &lm, &rm, I::width(), info);
        info.nontrivial_if(lm.len() >= 3 && !am.is_empty());
        if p.variant & 128 == 0 {
            // The inputs go first: the results must not notice.
            drop((i, l, r));
            alive(&ctx, &[&a, &b], &at("after its inputs were dropped"))?;
            drop(a);
            alive(&ctx, &[&b], &at("after its inputs and one result were dropped"))?;
            drop(b);
        } else {
            a.addr.clear();
            drop(a);
            alive(&ctx, &[&l, &r, &b], &at("after one result was dropped"))?;
            drop(b);
            alive(&ctx, &[&l, &r], &at("after both results were dropped"))?;
            ensure!(i.left_now().model()? == lm && i.right_now().model()? == rm, "dropping the results changed the inputs");
            drop((i, l, r));
        }
        alive(&ctx, &[], &at("after everything was dropped"))
    })();
    ctx.sound()?;
    r
}
fn history<D: Bulky>(h: &Hist, info: &mut Info) -> Result<(), String> {
    let t = run_history::<D, AllOps>(h, Want { drops: true, ..Want::default() }, info)?;
    info.nontrivial_if(t.inserted >= 3 && t.bulk >= 1 && t.removed + t.replaced >= 1);
    Ok(())
}
fn check(c: &Case, info: &mut Info) -> Result<(), String> {
    match c {
        Case::History(h) => with_three!(h.cfg, C => if h.map { history::<Map<C>>(h, info) } else { history::<Set<C>>(h, info) }),
        Case::Bulk(p) => with_three!(p.cfg, C => if p.map { bulk::<MapIn<C>>(p, info) } else { bulk::<SetIn<C>>(p, info) }),
    }
}
fn main() {
    hash_trie_pbt::engine::main(Spec {
        id: "P18",
        rule: "Half random branching histories of point and bulk operations with versions dropped along the way and at the end in random order, half single bulk operations of every kind with inputs and results dropped in either order. Every key and value is registered: none may be dropped twice or used after being dropped, and at every checkpoint exactly the entries of living containers may be alive. Non-trivial: three inserts, a removal or replacement and a bulk operation; or a bulk operation on three or more entries with a result.",
        assumptions: &[],
        quick: 100_000,
        thorough: 2_000_000,
        strategy: |big| {
            prop_oneof![
                1 => hist(HistCfg { cfgs: N_THREE, maps: None, keys: if big { 200 } else { 32 }, ops: if big { 120 } else { 30 }, branch: true, forget: true, bulk: true }).prop_map(Case::History),
                1 => pair(N_THREE, None, if big { 300 } else { 40 }, if big { 200 } else { 30 }).prop_map(Case::Bulk),
            ]
            .boxed()
        },
        check,
        enumerate: None,
    })
}
