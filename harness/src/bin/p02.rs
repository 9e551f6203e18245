use hash_trie_pbt::{dict::*, engine::*, hist::*, with_cfg};

fn check(h: &Hist, info: &mut Info) -> Result<(), String> {
    let w = Want { model: true, every: h.ops.len() < 80, ..Want::default() };
    let t = with_cfg!(h.cfg, C => run_history::<Set<C>, PointOnly>(h, w, info))?;
    info.nontrivial_if(t.inserted >= 2 && t.removed + t.replaced >= 1 && t.collisions);
    info.label(with_cfg!(h.cfg, C => C::NAME));
    Ok(())
}
fn main() {
    hash_trie_pbt::engine::main(Spec {
        id: "P02",
        rule: "Random histories of insert, replace, remove, find and clone on sets, branching from any version, over 16 hash-word/flag-word/hasher configurations and key universes with chosen hash collisions. Non-trivial: at least two keys inserted, one removed or replaced, and an operation met another key with the same hash word.",
        assumptions: &[],
        quick: 90_000,
        thorough: 3_000_000,
        strategy: |big| hist(HistCfg { cfgs: N_ALL, maps: Some(false), keys: if big { 400 } else { 48 }, ops: if big { 400 } else { 60 }, branch: true, forget: false, bulk: false }),
        check,
        enumerate: None,
    })
}
