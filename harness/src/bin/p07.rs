use hash_trie_pbt::{dict::*, engine::*, hist::*, with_few};

fn check(h: &Hist, info: &mut Info) -> Result<(), String> {
    let w = Want { model: true, drain: true, every: h.ops.len() < 80, ..Want::default() };
    let t = with_few!(h.cfg, C => if h.map { run_history::<Map<C>, AllOps>(h, w, info) } else { run_history::<Set<C>, AllOps>(h, w, info) })?;
    info.nontrivial_if(t.bulk >= 1 && t.inserted >= 2 && (t.removed + t.replaced >= 1 || t.joins >= 1));
    info.label(with_few!(h.cfg, C => C::NAME));
    Ok(())
}
fn main() {
    hash_trie_pbt::engine::main(Spec {
        id: "P07",
        rule: "Random branching histories mixing point operations, transforms and joins on maps and sets; every bulk result is taken apart key by key. Non-trivial: at least one bulk operation, two inserts, and a removal, replacement or join.",
        assumptions: &["joins that may keep either side's entry are accepted with either"],
        quick: 90_000,
        thorough: 2_000_000,
        strategy: |big| hist(HistCfg { cfgs: N_FEW, maps: None, keys: if big { 200 } else { 32 }, ops: if big { 100 } else { 24 }, branch: true, forget: false, bulk: true }),
        check,
        enumerate: None,
    })
}
