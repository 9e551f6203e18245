use hash_trie_pbt::{dict::*, engine::*, hist::*, with_few};

fn check(h: &Hist, info: &mut Info) -> Result<(), String> {
    let w = Want { persist: true, drops: false, ..Want::default() };
    let t = with_few!(h.cfg, C => if h.map { run_history::<Map<C>, AllOps>(h, w, info) } else { run_history::<Set<C>, AllOps>(h, w, info) })?;
    info.nontrivial_if(t.branches >= 1 && t.removed + t.replaced + t.bulk >= 1 && t.inserted >= 2);
    info.label(with_few!(h.cfg, C => C::NAME));
    Ok(())
}
fn main() {
    hash_trie_pbt::engine::main(Spec {
        id: "P03",
        rule: "Random branching histories of point and bulk operations on maps and sets in which some versions are dropped on the way; every surviving version is re-examined through size, visit, find and entry addresses. Non-trivial: an operation on a version other than the newest, two inserts, and one removal, replacement or bulk operation.",
        assumptions: &[],
        quick: 100_000,
        thorough: 2_000_000,
        strategy: |big| hist(HistCfg { cfgs: N_FEW, maps: None, keys: if big { 200 } else { 32 }, ops: if big { 120 } else { 30 }, branch: true, forget: true, bulk: true }),
        check,
        enumerate: None,
    })
}
