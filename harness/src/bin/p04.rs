use hash_trie_pbt::{dict::*, engine::*, hist::*, with_cfg, with_few};

fn check(h: &Hist, info: &mut Info) -> Result<(), String> {
    let w = Want { refs: true, ..Want::default() };
    let t = if h.map { with_cfg!(h.cfg, C => run_history::<Map<C>, PointOnly>(h, w, info))? } else { with_few!(h.cfg, C => run_history::<Set<C>, PointOnly>(h, w, info))? };
    info.nontrivial_if(t.replaced + t.refused >= 1 && t.removed >= 1);
    Ok(())
}
fn main() {
    hash_trie_pbt::engine::main(Spec {
        id: "P04",
        rule: "Random branching histories of insert, replace, remove and find on maps and sets; each reference or pointer an operation hands out is compared by address with the entry visit shows. Non-trivial: at least one insert met a present key and at least one removal succeeded.",
        assumptions: &[],
        quick: 150_000,
        thorough: 3_000_000,
        strategy: |big| hist(HistCfg { cfgs: N_ALL, maps: None, keys: if big { 300 } else { 32 }, ops: if big { 300 } else { 50 }, branch: true, forget: true, bulk: false }),
        check,
        enumerate: None,
    })
}
