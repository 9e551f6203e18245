//! Histories of every operation, across entry types: any result serves any other operation.
use hash_trie_pbt::exec::block_on;
use hash_trie_pbt::{dict::*, engine::*, ensure, gens::*, hist, hist::*, pairs::*, probe::*, with_three};
use hash_trie::{HashTrieMap, HashTrieSet};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, Hash, PartialEq, Eq, Serialize, Deserialize)]
struct Step {
    kind: u8,
    /// 0: the latest container of its type; otherwise any
    l: u8,
    r: u8,
    /// index of the operations
    b: u8,
    edits: Vec<(u8, u32)>,
}
#[derive(Clone, Debug, Hash, PartialEq, Eq, Serialize, Deserialize)]
struct Case {
    cfg: u8,
    map: bool,
    uni: Uni,
    start: u8,
    steps: Vec<Step>,
    bulk: Vec<hist::Bulk>,
    mutes: Vec<(OpSpec, OpSpec, OpSpec)>,
}

macro_rules! shown_map {
    ($d:expr) => {{
        let seen: Mutex<Vec<(u32, u32, u64)>> = Mutex::new(vec![]);
        $d.visit(|k, v| {
            k.touch();
            v.touch();
            seen.lock().unwrap().push((k.id, k.tag, v.x));
        });
        let v = seen.into_inner().unwrap();
        let m: Model = v.iter().map(|(i, t, x)| (*i, (*t, *x))).collect();
        ensure!(m.len() == v.len(), "visit reports a key twice");
        ensure!($d.size() == m.len(), "size is {} but visit shows {} entries", $d.size(), m.len());
        m
    }};
}
macro_rules! shown_set {
    ($d:expr) => {{
        let seen: Mutex<Vec<(u32, u32)>> = Mutex::new(vec![]);
        $d.visit(|k| {
            k.touch();
            seen.lock().unwrap().push((k.id, k.tag));
        });
        let v = seen.into_inner().unwrap();
        let m: Model = v.iter().map(|(i, t)| (*i, (*t, 0))).collect();
        ensure!(m.len() == v.len(), "visit reports a key twice");
        ensure!($d.size() == m.len(), "size is {} but visit shows {} entries", $d.size(), m.len());
        m
    }};
}
macro_rules! lookups {
    ($d:expr, $m:expr, $c:expr, $ctx:expr, $K:literal, $w:expr, |$f:ident| $seen:expr) => {
        for id in 0..$c.uni.len() as u32 {
            let got = $d.find(&$c.uni.key::<$K>($ctx, id, 0, $w)).ok().map(|$f| $seen);
            ensure!(got == $m.get(&id).copied(), "find({id}) shows {got:?} and not {:?}", $m.get(&id));
        }
    };
}
fn at<T>(v: &[T], i: u8) -> &T {
    if i == 0 { &v[v.len() - 1] } else { &v[i as usize % v.len()] }
}
const REMOVE: OpSpec = OpSpec::Const(REM);

type Pool<T> = Vec<(T, Model)>;
#[derive(Default)]
struct Tally {
    bulks: usize,
    crossed: usize,
    largest: usize,
}

fn maps<C: Cfg>(c: &Case, ctx: &Arc<Ctx>, info: &mut Info) -> Result<Tally, String> {
    type KV<C, const K: u8, const V: u8> = HashTrieMap<<C as Cfg>::H, <C as Cfg>::F, Key<K>, Val<V>, <C as Cfg>::M>;
    let w = <C::H as hash_trie::traits::MaxOnes>::max_ones() as u32;
    let mut t = Tally::default();
    let fill: Vec<(u8, u32)> = (0..c.start as u32).map(|k| (0, k)).collect();
    let mut pa: Pool<KV<C, 0, 0>> = vec![(HashTrieMap::new(), Model::new())];
    let mut pb: Pool<KV<C, 1, 1>> = vec![(HashTrieMap::new(), Model::new())];
    let mut pf: Pool<KV<C, 0, 1>> = vec![(HashTrieMap::new(), Model::new())];
    let mut tag = 1;
    macro_rules! edit {
        ($pool:ident, $f:ident, $s:expr, $e:expr) => {{
            let (d, mut m) = at(&$pool, $s).clone();
            let d = $f::<C>(d, &mut m, $e, &c.uni, ctx, tag)?;
            tag += 1000;
            $pool.push((d, m));
        }};
    }
    edit!(pa, edit_map0, 0, &fill);
    for (n, s) in c.steps.iter().enumerate() {
        let b = &c.bulk[s.b as usize % c.bulk.len()];
        let (mute, mute2, mute3) = &c.mutes[s.b as usize % c.mutes.len()];
        let par = || strat(b.par);
        let log = new_log();
        let mut name = "point operations";
        let r: Result<(), String> = (|| {
            macro_rules! bulk {
                ($name:expr, $pool:ident, $run:expr, $e:expr) => {{
                    name = $name;
                    let (d, r) = $run;
                    let e = $e;
                    let v = shown_map!(d);
                    e.check(&v, &log, &r)?;
                    let m = e.model();
                    ensure!(v == m, "the result shows {} and not {}", show(&v), show(&m));
                    t.bulks += 1;
                    t.largest = t.largest.max(m.len());
                    $pool.push((d, m));
                }};
            }
            // One-sided operations, written as mixed ones with nothing on the right.
            macro_rules! alone {
                ($m:expr, $op:expr, $way:expr) => { expect_mixed($m, &Model::new(), &REMOVE, $op, &REMOVE, $way, Way::Mute, Keep::New, true) };
            }
            match s.kind % 16 {
                0 => edit!(pa, edit_map0, s.l, &s.edits),
                1 => edit!(pb, edit_map1, s.l, &s.edits),
                2 => edit!(pf, edit_map01, s.l, &s.edits),
                3 => {
                    name = "transform";
                    let (d, m) = at(&pa, s.l);
                    let (d, m, _) = checked_transform(d, m, &b.one, b.par, true)?;
                    t.bulks += 1;
                    pa.push((d, m));
                }
                4 => {
                    name = "transform_with_transformed";
                    let (l, lm) = at(&pa, s.l);
                    let (r, rm) = at(&pa, s.r);
                    let (d, m, _) = checked_join(l, lm, r, rm, b, true)?;
                    t.bulks += 1;
                    pa.push((d, m));
                }
                5 => {
                    let (d, m) = at(&pb, s.l).clone();
                    bulk!("transform of the other type", pb, block_on(d.transform(red, map_op_kv::<1, 1>(&b.one, 1, CONST_LEFT, &log), par())), alone!(&m, &b.one, Way::Form))
                }
                6 => {
                    let (d, m) = at(&pf, s.l).clone();
                    bulk!("transform of the third type", pf, block_on(d.transform(red, map_op_kv::<0, 1>(&b.one, 1, CONST_LEFT, &log), par())), alone!(&m, &b.one, Way::Form))
                }
                7 => {
                    let (d, m) = at(&pa, s.l).clone();
                    bulk!("transmute", pb, unsafe { d.transmute(red, map_mute::<0, 1>(mute, 1, CONST_LEFT, &log)) }, alone!(&m, mute, Way::Mute))
                }
                8 => {
                    let (d, m) = at(&pb, s.l).clone();
                    bulk!("transmute back", pa, unsafe { d.transmute(red, map_mute::<1, 0>(mute, 1, CONST_LEFT, &log)) }, alone!(&m, mute, Way::Mute))
                }
                9 => {
                    let ((l, lm), (r, rm)) = (at(&pa, s.l).clone(), at(&pb, s.r).clone());
                    bulk!("transform_with_transmuted", pa,
                        block_on(unsafe { l.transform_with_transmuted(&r, red, map_both::<0, 0, 1, 1, 0>(&b.both, &log), map_op_kv::<0, 0>(&b.one, 1, CONST_LEFT, &log), map_mute::<1, 0>(mute, 2, CONST_RIGHT, &log), par()) }),
                        expect_mixed(&lm, &rm, &b.both, &b.one, mute, Way::Form, Way::Mute, Keep::L, true))
                }
                10 => {
                    let ((l, lm), (r, rm)) = (at(&pa, s.l).clone(), at(&pb, s.r).clone());
                    bulk!("transmute_with_transformed", pb,
                        block_on(unsafe { l.transmute_with_transformed(&r, red, map_both::<0, 0, 1, 1, 1>(&b.both, &log), map_mute::<0, 1>(mute, 1, CONST_LEFT, &log), map_op_kv::<1, 1>(&b.right, 2, CONST_RIGHT, &log), par()) }),
                        expect_mixed(&lm, &rm, &b.both, mute, &b.right, Way::Mute, Way::Form, Keep::R, true))
                }
                11 => {
                    let ((l, lm), (r, rm)) = (at(&pb, s.l).clone(), at(&pa, s.r).clone());
                    bulk!("transform_with_transmuted, the types exchanged", pb,
                        block_on(unsafe { l.transform_with_transmuted(&r, red, map_both::<1, 1, 0, 0, 1>(&b.both, &log), map_op_kv::<1, 1>(&b.one, 1, CONST_LEFT, &log), map_mute::<0, 1>(mute, 2, CONST_RIGHT, &log), par()) }),
                        expect_mixed(&lm, &rm, &b.both, &b.one, mute, Way::Form, Way::Mute, Keep::L, true))
                }
                12 => {
                    let ((l, lm), (r, rm)) = (at(&pa, s.l).clone(), at(&pf, s.r).clone());
                    bulk!("transform_with_transfuted", pa,
                        block_on(l.transform_with_transfuted(&r, red, map_both::<0, 0, 0, 1, 0>(&b.both, &log), map_op_kv::<0, 0>(&b.one, 1, CONST_LEFT, &log), map_fute::<1, 0>(mute, 2, CONST_RIGHT, &log), par())),
                        expect_mixed(&lm, &rm, &b.both, &b.one, mute, Way::Form, Way::Fute, Keep::L, true))
                }
                13 => {
                    let ((l, lm), (r, rm)) = (at(&pa, s.l).clone(), at(&pf, s.r).clone());
                    bulk!("transfute_with_transformed", pf,
                        block_on(l.transfute_with_transformed(&r, red, map_both::<0, 0, 0, 1, 1>(&b.both, &log), map_fute::<0, 1>(mute, 1, CONST_LEFT, &log), map_op_kv::<0, 1>(&b.right, 2, CONST_RIGHT, &log), par())),
                        expect_mixed(&lm, &rm, &b.both, mute, &b.right, Way::Fute, Way::Form, Keep::R, true))
                }
                14 => {
                    let ((l, lm), (r, rm)) = (at(&pf, s.l).clone(), at(&pa, s.r).clone());
                    bulk!("transform_with_transfuted, the types exchanged", pf,
                        block_on(l.transform_with_transfuted(&r, red, map_both::<0, 1, 0, 0, 1>(&b.both, &log), map_op_kv::<0, 1>(&b.one, 1, CONST_LEFT, &log), map_fute::<0, 1>(mute, 2, CONST_RIGHT, &log), par())),
                        expect_mixed(&lm, &rm, &b.both, &b.one, mute, Way::Form, Way::Fute, Keep::L, true))
                }
                _ => {
                    let ((l, lm), (r, rm)) = (at(&pa, s.l).clone(), at(&pb, s.r).clone());
                    let mut pc: Pool<KV<C, 2, 2>> = vec![];
                    bulk!("transmute_with_transmuted", pc,
                        unsafe { l.transmute_with_transmuted(&r, red, map_both_mute(mute3, &log), map_mute::<0, 2>(mute, 1, CONST_LEFT, &log), map_mute::<1, 2>(mute2, 2, CONST_RIGHT, &log)) },
                        expect_mixed(&lm, &rm, mute3, mute, mute2, Way::Mute, Way::Mute, Keep::New, true));
                    let (d, m) = pc.pop().unwrap();
                    let all = OpSpec::Table([TRANS].into());
                    bulk!("transmute of what transmute_with_transmuted made", pa, unsafe { d.transmute(red, map_mute::<2, 0>(&all, 1, CONST_LEFT, &log)) }, alone!(&m, &all, Way::Mute))
                }
            }
            Ok(())
        })();
        r.map_err(|e| format!("step {n}, {name}: {e}"))?;
        t.crossed += (s.kind % 16 >= 7) as usize;
        info.label(name);
    }
    for (n, (d, m)) in pa.iter().enumerate() {
        let r = (|| {
            let v = shown_map!(d);
            ensure!(v == *m, "it shows {} and not {}", show(&v), show(m));
            lookups!(d, m, c, ctx, 0, w, |f| (f.0.tag, f.1.x));
            if n + 3 > pa.len() {
                drain(d, m, &c.uni, ctx)?;
            }
            Ok(())
        })();
        r.map_err(|e: String| format!("in the end, container {n} of the first type: {e}"))?;
    }
    for (n, (d, m)) in pb.iter().enumerate() {
        let r = (|| {
            let v = shown_map!(d);
            ensure!(v == *m, "it shows {} and not {}", show(&v), show(m));
            lookups!(d, m, c, ctx, 1, w, |f| (f.0.tag, f.1.x));
            Ok(())
        })();
        r.map_err(|e: String| format!("in the end, container {n} of the second type: {e}"))?;
    }
    for (n, (d, m)) in pf.iter().enumerate() {
        let r = (|| {
            let v = shown_map!(d);
            ensure!(v == *m, "it shows {} and not {}", show(&v), show(m));
            lookups!(d, m, c, ctx, 0, w, |f| (f.0.tag, f.1.x));
            Ok(())
        })();
        r.map_err(|e: String| format!("in the end, container {n} of the third type: {e}"))?;
    }
    Ok(t)
}

fn sets<C: Cfg>(c: &Case, ctx: &Arc<Ctx>, info: &mut Info) -> Result<Tally, String> {
    let w = <C::H as hash_trie::traits::MaxOnes>::max_ones() as u32;
    let mut t = Tally::default();
    let fill: Vec<(u8, u32)> = (0..c.start as u32).map(|k| (0, k)).collect();
    let mut pa: Pool<Set<C, 0>> = vec![(HashTrieSet::new(), Model::new())];
    let mut pb: Pool<Set<C, 1>> = vec![(HashTrieSet::new(), Model::new())];
    let mut tag = 1;
    macro_rules! edit {
        ($pool:ident, $f:ident, $s:expr, $e:expr) => {{
            let (d, mut m) = at(&$pool, $s).clone();
            let d = $f::<C>(d, &mut m, $e, &c.uni, ctx, tag)?;
            tag += 1000;
            $pool.push((d, m));
        }};
    }
    edit!(pa, edit_set0, 0, &fill);
    for (n, s) in c.steps.iter().enumerate() {
        let b = &c.bulk[s.b as usize % c.bulk.len()];
        let (mute, mute2, mute3) = &c.mutes[s.b as usize % c.mutes.len()];
        let par = || strat(b.par);
        let log = new_log();
        let mut name = "point operations";
        let r: Result<(), String> = (|| {
            macro_rules! bulk {
                ($name:expr, $pool:ident, $run:expr, $e:expr) => {{
                    name = $name;
                    let (d, r) = $run;
                    let e = $e;
                    let v = shown_set!(d);
                    e.check(&v, &log, &r)?;
                    let m = e.model();
                    ensure!(v == m, "the result shows {} and not {}", show(&v), show(&m));
                    t.bulks += 1;
                    t.largest = t.largest.max(m.len());
                    $pool.push((d, m));
                }};
            }
            macro_rules! alone {
                ($m:expr, $op:expr, $way:expr) => { expect_mixed($m, &Model::new(), &REMOVE, $op, &REMOVE, $way, Way::Mute, Keep::New, false) };
            }
            match s.kind % 10 {
                0 => edit!(pa, edit_set0, s.l, &s.edits),
                1 => edit!(pb, edit_set1, s.l, &s.edits),
                2 => {
                    name = "transform";
                    let (d, m) = at(&pa, s.l);
                    let (d, m, _) = checked_transform(d, m, &b.one, b.par, true)?;
                    t.bulks += 1;
                    pa.push((d, m));
                }
                3 => {
                    name = "transform_with_transformed";
                    let (l, lm) = at(&pa, s.l);
                    let (r, rm) = at(&pa, s.r);
                    let (d, m, _) = checked_join(l, lm, r, rm, b, true)?;
                    t.bulks += 1;
                    pa.push((d, m));
                }
                4 => {
                    let (d, m) = at(&pa, s.l).clone();
                    bulk!("transmute", pb, unsafe { d.transmute(red, set_mute::<0, 1>(mute, 1, CONST_LEFT, &log)) }, alone!(&m, mute, Way::Mute))
                }
                5 => {
                    let (d, m) = at(&pb, s.l).clone();
                    bulk!("transmute back", pa, unsafe { d.transmute(red, set_mute::<1, 0>(mute, 1, CONST_LEFT, &log)) }, alone!(&m, mute, Way::Mute))
                }
                6 => {
                    let ((l, lm), (r, rm)) = (at(&pa, s.l).clone(), at(&pb, s.r).clone());
                    bulk!("transform_with_transmuted", pa,
                        block_on(unsafe { l.transform_with_transmuted(&r, red, set_both(&b.both, &log), set_op::<0>(&b.one, 1, CONST_LEFT, &log), set_mute::<1, 0>(mute, 2, CONST_RIGHT, &log), par()) }),
                        expect_mixed(&lm, &rm, &b.both, &b.one, mute, Way::Form, Way::Mute, Keep::L, false))
                }
                7 => {
                    let ((l, lm), (r, rm)) = (at(&pa, s.l).clone(), at(&pb, s.r).clone());
                    bulk!("transmute_with_transformed", pb,
                        block_on(unsafe { l.transmute_with_transformed(&r, red, set_both(&b.both, &log), set_mute::<0, 1>(mute, 1, CONST_LEFT, &log), set_op::<1>(&b.right, 2, CONST_RIGHT, &log), par()) }),
                        expect_mixed(&lm, &rm, &b.both, mute, &b.right, Way::Mute, Way::Form, Keep::R, false))
                }
                8 => {
                    let ((l, lm), (r, rm)) = (at(&pb, s.l).clone(), at(&pa, s.r).clone());
                    bulk!("transform_with_transmuted, the types exchanged", pb,
                        block_on(unsafe { l.transform_with_transmuted(&r, red, set_both(&b.both, &log), set_op::<1>(&b.one, 1, CONST_LEFT, &log), set_mute::<0, 1>(mute, 2, CONST_RIGHT, &log), par()) }),
                        expect_mixed(&lm, &rm, &b.both, &b.one, mute, Way::Form, Way::Mute, Keep::L, false))
                }
                _ => {
                    let ((l, lm), (r, rm)) = (at(&pa, s.l).clone(), at(&pb, s.r).clone());
                    let mut pc: Pool<Set<C, 2>> = vec![];
                    bulk!("transmute_with_transmuted", pc,
                        unsafe { l.transmute_with_transmuted(&r, red, set_both_mute(mute3, &log), set_mute::<0, 2>(mute, 1, CONST_LEFT, &log), set_mute::<1, 2>(mute2, 2, CONST_RIGHT, &log)) },
                        expect_mixed(&lm, &rm, mute3, mute, mute2, Way::Mute, Way::Mute, Keep::New, false));
                    let (d, m) = pc.pop().unwrap();
                    let all = OpSpec::Table([TRANS].into());
                    bulk!("transmute of what transmute_with_transmuted made", pa, unsafe { d.transmute(red, set_mute::<2, 0>(&all, 1, CONST_LEFT, &log)) }, alone!(&m, &all, Way::Mute))
                }
            }
            Ok(())
        })();
        r.map_err(|e| format!("step {n}, {name}: {e}"))?;
        t.crossed += (s.kind % 10 >= 4) as usize;
        info.label(&format!("set {name}"));
    }
    for (n, (d, m)) in pa.iter().enumerate() {
        let r = (|| {
            let v = shown_set!(d);
            ensure!(v == *m, "it shows {} and not {}", show(&v), show(m));
            lookups!(d, m, c, ctx, 0, w, |f| (f.tag, 0));
            if n + 3 > pa.len() {
                drain(d, m, &c.uni, ctx)?;
            }
            Ok(())
        })();
        r.map_err(|e: String| format!("in the end, container {n} of the first type: {e}"))?;
    }
    for (n, (d, m)) in pb.iter().enumerate() {
        let r = (|| {
            let v = shown_set!(d);
            ensure!(v == *m, "it shows {} and not {}", show(&v), show(m));
            lookups!(d, m, c, ctx, 1, w, |f| (f.tag, 0));
            Ok(())
        })();
        r.map_err(|e: String| format!("in the end, container {n} of the second type: {e}"))?;
    }
    Ok(t)
}
fn check(c: &Case, info: &mut Info) -> Result<(), String> {
    let ctx = Ctx::new();
    let r = with_three!(c.cfg, C => if c.map { maps::<C>(c, &ctx, info) } else { sets::<C>(c, &ctx, info) });
    ctx.sound()?;
    let t = r?;
    ensure!(ctx.live() == (0, 0), "after dropping everything {:?} keys and values are still alive", ctx.live());
    info.nontrivial_if(t.bulks >= 3 && t.crossed >= 2 && t.largest >= 3);
    Ok(())
}
fn main() {
    hash_trie_pbt::engine::main(Spec {
        id: "P29",
        rule: "Random histories of point operations and every bulk operation there is over pools of containers of two or three entry types, each step on any earlier results; after every step the result, the calls made and the reduction are held against the model, in the end every container is verified again and looked up, and some are taken apart. Non-trivial: three or more bulk operations, two of them across types, on results of three or more entries.",
        assumptions: &["the caller's contract for the unsafe operations is met: a new key hashes as the old one does and distinct keys stay distinct", "which constants of constant operations show up in the reduction is left open"],
        quick: 120_000,
        thorough: 1_500_000,
        strategy: |big| {
            let edit = || (prop_oneof![4 => Just(0u8), 1 => Just(1u8), 3 => Just(2u8)], any::<u16>().prop_map(u32::from));
            let step = move || (any::<u8>(), prop_oneof![2 => Just(0u8), 1 => any::<u8>()], prop_oneof![2 => Just(0u8), 1 => any::<u8>()], any::<u8>(), vec(edit(), 0..=12)).prop_map(|(kind, l, r, b, edits)| Step { kind, l, r, b, edits });
            (0..hash_trie_pbt::bulk::N_THREE, any::<bool>(), uni(if big { 150 } else { 32 }), prop_oneof![1 => Just(0u8), 2 => any::<u8>()], vec(step(), 2..=if big { 60 } else { 16 }), vec(hist::bulk(), 1..=3), vec((mute_op(), mute_op(), mute_op()), 1..=3))
                .prop_map(|(cfg, map, uni, start, steps, bulk, mutes)| Case { cfg, map, uni, start, steps, bulk, mutes })
                .boxed()
        },
        check,
        enumerate: None,
    })
}
