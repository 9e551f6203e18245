use hash_trie_pbt::{dict::*, engine::*, hist::*, with_own, with_own_few, words::*};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Hash, PartialEq, Eq, Serialize, Deserialize)]
enum Case {
    /// Point operations, over all the words.
    Points(Hist),
    /// Bulk operations too, over some of them.
    All(Hist),
}
fn check(c: &Case, info: &mut Info) -> Result<(), String> {
    let w = Want { model: true, drain: true, ..Want::default() };
    let (t, bulk) = match c {
        Case::Points(h) => {
            let w = Want { every: h.ops.len() < 80, ..w };
            info.label(with_own!(h.cfg, C => C::NAME));
            (with_own!(h.cfg, C => if h.map { run_history::<Map<C>, PointOnly>(h, w, info) } else { run_history::<Set<C>, PointOnly>(h, w, info) })?, false)
        }
        Case::All(h) => {
            let w = Want { every: h.ops.len() < 80, ..w };
            info.label(with_own_few!(h.cfg, C => C::NAME));
            (with_own_few!(h.cfg, C => if h.map { run_history::<Map<C>, AllOps>(h, w, info) } else { run_history::<Set<C>, AllOps>(h, w, info) })?, true)
        }
    };
    info.nontrivial_if(t.inserted >= 2 && t.removed + t.replaced + t.joins >= 1 && (!bulk || t.bulk >= 1));
    Ok(())
}
fn main() {
    hash_trie_pbt::engine::main(Spec {
        id: "P31",
        rule: "Random branching histories of point operations (over 11 combinations of hash words of 1 to 256 bits with flag words of 2 to 128 bits, at least one of them not a built-in integer, and boxed) and of point and bulk operations (over 5 of them); results are taken apart key by key. Non-trivial: two inserts and a removal, replacement or join, and a bulk operation where there are any.",
        assumptions: &["a program's own words keep to the definitions of the traits, as the built-in ones do: a shift by the width or more is refused, and a flag word has 2 to the power of its logarithm many bits"],
        quick: 20_000,
        thorough: 600_000,
        strategy: |big| {
            let h = move |cfgs, bulk| hist(HistCfg { cfgs, maps: None, keys: if big { 200 } else { 32 }, ops: if big { 200 } else { 30 }, branch: true, forget: false, bulk });
            prop_oneof![4 => h(N_OWN, false).prop_map(Case::Points), 1 => h(N_OWN_FEW, true).prop_map(Case::All)].boxed()
        },
        check,
        enumerate: None,
    })
}
