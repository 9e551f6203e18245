use hash_trie_pbt::{bulk::*, dict::*, engine::*, ensure, hist::*, pairs::*, probe::*, with_three};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::atomic::Ordering::Relaxed;

#[derive(Clone, Debug, Hash, PartialEq, Eq, Serialize, Deserialize)]
enum Case {
    Points(Hist),
    Bulk(Pair),
}

/// Whose entry the result shows for a key when the operation keeps it as it is.
#[derive(Clone, Copy, PartialEq)]
enum From {
    L,
    R,
    Either,
    New,
}
fn origin(which: Which, map: bool, o: &Ops, id: u32, l: bool, r: bool) -> From {
    let keeps = |op: &OpSpec| op.kind(id) == UNCH || !map && op.kind(id) == TRANS;
    match (which, l, r) {
        (Which::Transmute | Which::MuteWithMute, ..) => From::New,
        (Which::Transform, ..) => if keeps(&o.left) { From::L } else { From::New },
        (Which::Join, true, true) => match o.both.kind(id) {
            LEFT => From::L,
            RIGHT => From::R,
            UNCH => From::Either,
            TRANS if !map => From::Either,
            _ => From::New,
        },
        (Which::Join, true, false) => if keeps(&o.left) { From::L } else { From::New },
        (Which::Join, false, _) => if keeps(&o.right) { From::R } else { From::New },
        (Which::FormWithMute | Which::FormWithFute, true, true) => if keeps(&o.both) { From::L } else { From::New },
        (Which::FormWithMute | Which::FormWithFute, true, false) => if keeps(&o.left) { From::L } else { From::New },
        (Which::MuteWithForm | Which::FuteWithForm, true, true) => if keeps(&o.both) { From::R } else { From::New },
        (Which::MuteWithForm | Which::FuteWithForm, false, true) => if keeps(&o.right) { From::R } else { From::New },
        _ => From::New,
    }
}

fn bulk<I: Inputs>(p: &Pair, info: &mut Info) -> Result<(), String> {
    let ctx = Ctx::new();
    let r = (|| {
        let which = Which::of(I::map(), p.variant);
        let i = I::build(p, which, &ctx)?;
        let o = Ops::of(p, which);
        let (lm, rm) = i.models();
        let groups = p.uni.groups(lm.keys().chain(rm.keys().filter(|k| !lm.contains_key(k))).copied(), I::width());
        let alone = |id: u32| groups[&p.uni.word(id, I::width())] == 1;
        let (la, ra) = (i.left_now().addr, i.right_now().addr);
        let (k0, v0) = (ctx.key_clones.load(Relaxed), ctx.val_clones.load(Relaxed));
        let made = i.run(&o, &new_log());
        let (kc, vc) = (ctx.key_clones.load(Relaxed) - k0, ctx.val_clones.load(Relaxed) - v0);
        let mut shared = 0;
        let mut may_copy = 0;
        for id in lm.keys().chain(rm.keys().filter(|k| !lm.contains_key(k))) {
            let (l, r) = (lm.contains_key(id), rm.contains_key(id));
            let from = origin(which, I::map(), &o, *id, l, r);
            if !alone(*id) || from == From::New {
                // A list of entries with one hash word may be rebuilt more than once.
                may_copy += if alone(*id) { 1 } else { 4 };
                continue;
            }
            let a = made.addr.get(id);
            let ok = match from {
                From::L => a == la.get(id),
                From::R => a == ra.get(id),
                _ => a == la.get(id) || a == ra.get(id),
            };
            ensure!(a.is_some(), "{which:?} loses key {id}");
            ensure!(ok, "{which:?} copies the entry of key {id} instead of sharing it with the container it comes from");
            shared += 1;
        }
        ensure!(kc <= may_copy && vc <= may_copy, "{which:?} cloned {kc} keys and {vc} values, but the entries that are new or share a hash word with others account for {may_copy} at most");
        info.label(&format!("{}{which:?}", if I::map() { "map " } else { "set " }));
        info.label_if(shared > 0, "shared-entries");
        classes(p, lm, rm, I::width(), info);
        info.nontrivial_if(shared >= 3);
        Ok(())
    })();
    ctx.sound()?;
    r
}
fn points<D: Dict>(h: &Hist, info: &mut Info) -> Result<(), String> {
    let t = run_history::<D, PointOnly>(h, Want { sharing: true, persist: false, ..Want::default() }, info)?;
    info.nontrivial_if(t.inserted >= 3 && t.removed + t.replaced >= 1 && t.collisions);
    Ok(())
}
fn check(c: &Case, info: &mut Info) -> Result<(), String> {
    match c {
        Case::Points(h) => with_three!(h.cfg, C => if h.map { points::<Map<C>>(h, info) } else { points::<Set<C>>(h, info) }),
        Case::Bulk(p) => with_three!(p.cfg, C => if p.map { bulk::<MapIn<C>>(p, info) } else { bulk::<SetIn<C>>(p, info) }),
    }
}
fn main() {
    hash_trie_pbt::engine::main(Spec {
        id: "P17",
        rule: "Half random branching histories of point operations and clones, half random containers with one bulk operation of any kind. An entry that the operation does not concern (point operations: every entry whose hash word differs from the key's; bulk operations: every entry the operation keeps and whose hash word no other entry shares) must be at the same address in the result as in the input, and no more keys or values may be cloned than entries concerned. Non-trivial: three inserts, a removal or replacement and a hash collision; or three or more entries shared by a bulk operation.",
        assumptions: &["entries with one and the same hash word may be copied when one of them changes"],
        quick: 150_000,
        thorough: 3_000_000,
        strategy: |big| {
            prop_oneof![
                1 => hist(HistCfg { cfgs: N_THREE, maps: None, keys: if big { 300 } else { 40 }, ops: if big { 200 } else { 40 }, branch: true, forget: false, bulk: false }).prop_map(Case::Points),
                1 => pair(N_THREE, None, if big { 300 } else { 40 }, if big { 200 } else { 30 }).prop_map(Case::Bulk),
            ]
            .boxed()
        },
        check,
        enumerate: None,
    })
}
