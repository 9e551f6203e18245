use hash_trie::results::*;
use hash_trie::transformations::*;
use hash_trie::{traits::HashLike, HashTrieMap, HashTrieSet, ParallelismStrategy};
use hash_trie_pbt::{engine::*, ensure, exec::block_on};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::{cell::RefCell, collections::BTreeMap, hash::{Hash, Hasher}};

/// A way of deciding (0 keep either, 1 keep left, 2 keep right, 3 new, 4 remove; by the keys), what
/// it reports, and the arguments it is asked about.
#[derive(Clone, Debug, Hash, PartialEq, Eq, Serialize, Deserialize)]
struct Case {
    table: Vec<u8>,
    report: u64,
    constant: Option<u8>,
    args: Vec<(u8, u32, u8, u32)>,
    flips: u8,
}
type K = u8;
type V = u32;
type L = i16;
type W = i64;

/// Outcome in the order the caller asked: which side is kept, or what is new.
#[derive(Debug, PartialEq, Eq, Clone)]
enum Out {
    Either,
    Left,
    Right,
    Same,
    New(u64, u64),
    Gone,
}
type Res = (Out, u64);

fn mjt(r: MapJointTransformResult<V, u64>) -> Res {
    match r {
        MapJointTransformResult::UnchangedLR(r) => (Out::Either, r),
        MapJointTransformResult::UnchangedL(r) => (Out::Left, r),
        MapJointTransformResult::UnchangedR(r) => (Out::Right, r),
        MapJointTransformResult::Transformed(v, r) => (Out::New(0, v as u64), r),
        MapJointTransformResult::Removed(r) => (Out::Gone, r),
    }
}
fn sjt(r: SetJointTransformResult<u64>) -> Res {
    match r {
        SetJointTransformResult::UnchangedLR(r) => (Out::Either, r),
        SetJointTransformResult::UnchangedL(r) => (Out::Left, r),
        SetJointTransformResult::UnchangedR(r) => (Out::Right, r),
        SetJointTransformResult::Removed(r) => (Out::Gone, r),
    }
}
fn mt<T: Into<i128>>(r: MapTransformResult<T, u64>) -> Res {
    match r {
        MapTransformResult::Unchanged(r) => (Out::Same, r),
        MapTransformResult::Transformed(v, r) => (Out::New(0, v.into() as u64), r),
        MapTransformResult::Removed(r) => (Out::Gone, r),
    }
}
fn st(r: SetTransformResult<u64>) -> Res {
    match r {
        SetTransformResult::Unchanged(r) => (Out::Same, r),
        SetTransformResult::Removed(r) => (Out::Gone, r),
    }
}
fn mm(r: MapTransmuteResult<u64, u64, u64>) -> Res {
    match r {
        MapTransmuteResult::Transmuted(k, v, r) => (Out::New(k, v), r),
        MapTransmuteResult::Removed(r) => (Out::Gone, r),
    }
}
fn sm(r: SetTransmuteResult<u64, u64>) -> Res {
    match r {
        SetTransmuteResult::Transmuted(k, r) => (Out::New(k, 0), r),
        SetTransmuteResult::Removed(r) => (Out::Gone, r),
    }
}
/// What a joint outcome is called by one who has the sides the other way round.
fn mirrored(r: Res) -> Res {
    match r {
        (Out::Left, x) => (Out::Right, x),
        (Out::Right, x) => (Out::Left, x),
        o => o,
    }
}
fn blend(a: u64, b: u64, c: u64, d: u64) -> u64 {
    mix(mix(mix(mix(a) ^ b) ^ c) ^ d)
}

macro_rules! agree {
    ($what:expr, $got:expr, $want:expr) => {{
        let (g, w) = ($got, $want);
        ensure!(g == w, "{} gives {:?} instead of {:?}", $what, g, w);
    }};
}

/// A key for joins: the same number means the same key, the tag tells whose it is.  Few hashes, so
/// that the operations are called from lists, single entries and branching nodes alike.
#[derive(Clone, Copy, Debug, Default)]
struct J<const T: u8> {
    id: u8,
    tag: u8,
}
impl<const T: u8, const U: u8> PartialEq<J<U>> for J<T> {
    fn eq(&self, o: &J<U>) -> bool {
        self.id == o.id
    }
}
impl<const T: u8> Eq for J<T> {}
impl<const T: u8> Hash for J<T> {
    fn hash<S: Hasher>(&self, s: &mut S) {
        s.write_u64([0, 1, 33, 1 << 40, 1, 65, 2][self.id as usize % 7])
    }
}
impl HashLike<J<1>> for J<0> {}
impl HashLike<J<0>> for J<1> {}
#[derive(Default)]
struct Pass(u64);
impl Hasher for Pass {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {}
    fn write_u64(&mut self, v: u64) {
        self.0 = v
    }
}
type JMap<const T: u8> = HashTrieMap<u64, u32, J<T>, u32, Pass>;
type JSet<const T: u8> = HashTrieSet<u64, u32, J<T>, Pass>;
type Found = BTreeMap<u8, (u8, u32)>;
fn jmap<const T: u8>(e: &BTreeMap<u8, u32>, tag: u8) -> (JMap<T>, JSet<T>) {
    e.iter().fold((JMap::new(), JSet::new()), |(m, s), (&id, &v)| {
        let k = J { id, tag };
        (m.insert(k, v, true).expect("an insert with replacement").0, s.insert(k, true).expect("an insert with replacement").0)
    })
}
fn of_map<const T: u8>(m: &JMap<T>) -> Found {
    let out = RefCell::new(Found::new());
    m.visit(|k: &J<T>, v: &u32| {
        out.borrow_mut().insert(k.id, (k.tag, *v));
    });
    out.into_inner()
}
fn of_set<const T: u8>(m: &JSet<T>) -> Found {
    let out = RefCell::new(Found::new());
    m.visit(|k: &J<T>| {
        out.borrow_mut().insert(k.id, (k.tag, 0));
    });
    out.into_inner()
}
/// The joins call the operations they are handed as their makers meant them, flipped or not.
fn in_joins(c: &Case, kind: Option<u8>) -> Result<(), String> {
    let t = &c.table;
    let rep = c.report;
    let pick = |id: u8, tag: u8| t[(id as usize * 3 + tag as usize) % t.len()];
    let (mut l, mut r) = (BTreeMap::new(), BTreeMap::new());
    for &(k, v, own, w) in &c.args {
        l.insert(k, v);
        r.insert(k, w);
        if own & 1 == 0 { l.entry(own).or_insert(v) } else { r.entry(own).or_insert(w) };
    }
    let add = |a: &u64, b: &u64| a.wrapping_add(*b);
    let par = if rep & 16 == 0 { ParallelismStrategy::Sequential } else { ParallelismStrategy::MiddleIndex };
    // What is kept, by the outcome for each common key; and of either side where it allows both.
    let meets = |got: &Found, want: &BTreeMap<u8, Vec<(u8, u32)>>| got.len() == want.len() && want.iter().all(|(id, alts)| got.get(id).map_or(false, |e| alts.contains(e)));
    // Joint operations, flipped.
    let f = |k: &J<0>, v: &u32, l: &J<0>, w: &u32| {
        let r = blend(k.id as u64 ^ (k.tag as u64) << 8, *v as u64, l.tag as u64, *w as u64) ^ rep;
        match pick(k.id, k.tag) {
            0 => MapJointTransformResult::UnchangedLR(r),
            1 => MapJointTransformResult::UnchangedL(r),
            2 => MapJointTransformResult::UnchangedR(r),
            3 => MapJointTransformResult::Transformed(r as u32, r),
            _ => MapJointTransformResult::Removed(r),
        }
    };
    let g = |k: &J<0>, l: &J<0>| match f(k, &0, l, &0) {
        MapJointTransformResult::UnchangedLR(r) | MapJointTransformResult::Transformed(_, r) => SetJointTransformResult::UnchangedLR(r),
        MapJointTransformResult::UnchangedL(r) => SetJointTransformResult::UnchangedL(r),
        MapJointTransformResult::UnchangedR(r) => SetJointTransformResult::UnchangedR(r),
        MapJointTransformResult::Removed(r) => SetJointTransformResult::Removed(r),
    };
    let ((lm, ls), (rm, rs)) = (jmap::<0>(&l, 1), jmap::<0>(&r, 2));
    let joined = |n: u8, ask: &dyn Fn(J<0>, u32, J<0>, u32) -> Res, map: bool| {
        let mut want: BTreeMap<u8, Vec<(u8, u32)>> = BTreeMap::new();
        let mut sum = 0u64;
        for (&id, &v) in &l {
            let v = if map { v } else { 0 };
            let lk = J { id, tag: 1 };
            let Some(&w) = r.get(&id) else {
                want.insert(id, vec![(1, v)]);
                continue;
            };
            let (rk, w) = (J { id, tag: 2 }, if map { w } else { 0 });
            let (out, rep) = if n % 2 == 0 { ask(lk, v, rk, w) } else { mirrored(ask(rk, w, lk, v)) };
            sum = sum.wrapping_add(rep);
            match out {
                Out::Left => want.insert(id, vec![(1, v)]),
                Out::Right => want.insert(id, vec![(2, w)]),
                Out::New(_, x) => want.insert(id, vec![(1, x as u32), (2, x as u32)]),
                Out::Gone => None,
                _ => want.insert(id, vec![(1, v), (2, w)]),
            };
        }
        for (&id, &w) in &r {
            if !l.contains_key(&id) {
                want.insert(id, vec![(2, if map { w } else { 0 })]);
            }
        }
        (want, sum)
    };
    macro_rules! joint {
        ($mop:expr, $sop:expr, $mask:expr, $sask:expr, $sums:expr) => {{
            let (mut mop, mut sop) = ($mop, $sop);
            for n in 0..=c.flips % 5 {
                let (m, ms) = block_on(lm.transform_with_transformed(&rm, add, mop.clone(), new_map_transform_unchanged(0), new_map_transform_unchanged(0), par));
                let (want, sum) = joined(n, $mask, true);
                let got = of_map(&m);
                ensure!(meets(&got, &want), "joining maps with an operation flipped {n} times gives {got:?}, the outcomes allow {want:?}");
                ensure!(!$sums || ms == sum, "joining maps with an operation flipped {n} times reduces to {ms}, the calls to {sum}");
                let (s, ss) = block_on(ls.transform_with_transformed(&rs, add, sop.clone(), new_set_transform_unchanged(0), new_set_transform_unchanged(0), par));
                let (want, sum) = joined(n, $sask, false);
                let got = of_set(&s);
                ensure!(meets(&got, &want), "joining sets with an operation flipped {n} times gives {got:?}, the outcomes allow {want:?}");
                ensure!(!$sums || ss == sum, "joining sets with an operation flipped {n} times reduces to {ss}, the calls to {sum}");
                mop = mop.flip();
                sop = sop.flip();
            }
        }};
    }
    let Some(kind) = kind else {
        joint!(new_map_joint_transform_generic(f), new_set_joint_transform_generic(g), &|a, v, b, w| mjt(f(&a, &v, &b, &w)), &|a, _, b, _| sjt(g(&a, &b)), true);
        return mixed_joins(c, &l, &r, par);
    };
    let o = match kind { 0 | 3 => Out::Either, 1 => Out::Left, 2 => Out::Right, _ => Out::Gone };
    let ask: &dyn Fn(J<0>, u32, J<0>, u32) -> Res = &|_, _, _, _| (o.clone(), rep);
    let m = match kind { 0 | 3 => new_map_joint_transform_unchangedlr(rep), 1 => new_map_joint_transform_unchangedl(rep), 2 => new_map_joint_transform_unchangedr(rep), _ => new_map_joint_transform_removed(rep) };
    let s = match kind { 0 | 3 => new_set_joint_transform_unchangedlr(rep), 1 => new_set_joint_transform_unchangedl(rep), 2 => new_set_joint_transform_unchangedr(rep), _ => new_set_joint_transform_removed(rep) };
    // A constant may be reported once for many entries.
    joint!(m, s, ask, ask, false);
    Ok(())
}
/// The same for joins across types: an operation straight, and flipped with the sides swapped.
fn mixed_joins(c: &Case, l: &BTreeMap<u8, u32>, r: &BTreeMap<u8, u32>, par: ParallelismStrategy) -> Result<(), String> {
    let t = &c.table;
    let rep = c.report;
    let pick = |id: u8, tag: u8| t[(id as usize * 3 + tag as usize) % t.len()];
    let add = |a: &u64, b: &u64| a.wrapping_add(*b);
    let ((lm, ls), (rm, rs)) = (jmap::<0>(l, 1), jmap::<1>(r, 2));
    let say = |id: u8, lt: u8, v: u32, rt: u8, w: u32| blend(id as u64 ^ (lt as u64) << 8, v as u64, rt as u64, w as u64) ^ rep;
    // Left's own entries stay, right's own go.
    let want = |map: bool, one: fn(u8, u64) -> Option<(u8, Option<u32>)>, side: u8| {
        let (mut e, mut sum) = (Found::new(), 0u64);
        for (&id, &v) in l {
            if let Some(&w) = r.get(&id) {
                let (v, w) = if map { (v, w) } else { (0, 0) };
                let x = say(id, 1, v, 2, w);
                sum = sum.wrapping_add(x);
                let old = if side == 1 { v } else { w };
                if let Some((tag, new)) = one(pick(id, 1), x) {
                    e.insert(id, (if tag == 0 { side } else { tag }, if map { new.unwrap_or(old) } else { 0 }));
                }
            }
        }
        (e, sum)
    };
    macro_rules! same {
        ($what:expr, $got:expr, $map:expr, $want:expr) => {{
            let ((got, sum), (want, wsum)) = ($got, $want);
            ensure!(got == want && sum == wsum, "{} gives {got:?} and {sum}, its operation {want:?} and {wsum}", $what);
        }};
    }
    // Keeping left's type.
    let f = |k: &J<0>, v: &u32, l: &J<1>, w: &u32| {
        let x = say(k.id, k.tag, *v, l.tag, *w);
        match pick(k.id, k.tag) {
            0 | 1 => MapTransformResult::Unchanged(x),
            2 | 3 => MapTransformResult::Transformed(x as u32, x),
            _ => MapTransformResult::Removed(x),
        }
    };
    let keep: fn(u8, u64) -> Option<(u8, Option<u32>)> = |p, x| match p { 0 | 1 => Some((0, None)), 2 | 3 => Some((0, Some(x as u32))), _ => None };
    let op = new_map_transform_transmute_generic(f);
    let (m, s) = block_on(unsafe { lm.transform_with_transmuted(&rm, add, op.clone(), new_map_transform_removed(0), new_map_transmute_removed(0), par) });
    same!("a mixed join of maps", (of_map(&m), s), true, want(true, keep, 1));
    let (m, s) = block_on(unsafe { rm.transmute_with_transformed(&lm, add, op.flip_transform_transmute(), new_map_transmute_removed(0), new_map_transform_removed(0), par) });
    same!("a mixed join of maps, flipped and with the sides swapped,", (of_map(&m), s), true, want(true, keep, 1));
    // Keeping right's type; the tag that decides is still left's.
    let op = new_map_transmute_transform_generic(f);
    let (m, s) = block_on(unsafe { lm.transmute_with_transformed(&rm, add, op.clone(), new_map_transmute_removed(0), new_map_transform_removed(0), par) });
    same!("a mixed join of maps that keeps right's type", (of_map(&m), s), true, want(true, keep, 2));
    let (m, s) = block_on(unsafe { rm.transform_with_transmuted(&lm, add, op.flip_transmute_transform(), new_map_transform_removed(0), new_map_transmute_removed(0), par) });
    same!("a mixed join of maps that keeps right's type, flipped and with the sides swapped,", (of_map(&m), s), true, want(true, keep, 2));
    // Sets.
    let g = |k: &J<0>, l: &J<1>| {
        let x = say(k.id, k.tag, 0, l.tag, 0);
        if pick(k.id, k.tag) == 4 { SetTransformResult::Removed(x) } else { SetTransformResult::Unchanged(x) }
    };
    let op = new_set_transform_transmute_generic(g);
    let (m, s) = block_on(unsafe { ls.transform_with_transmuted(&rs, add, op.clone(), new_set_transform_removed(0), new_set_transmute_removed(0), par) });
    same!("a mixed join of sets", (of_set(&m), s), false, want(false, keep, 1));
    let (m, s) = block_on(unsafe { rs.transmute_with_transformed(&ls, add, op.flip_transmute(), new_set_transmute_removed(0), new_set_transform_removed(0), par) });
    same!("a mixed join of sets, flipped and with the sides swapped,", (of_set(&m), s), false, want(false, keep, 1));
    // Into new entries.
    let new: fn(u8, u64) -> Option<(u8, Option<u32>)> = |p, x| if p == 4 { None } else { Some((x as u8 | 4, Some(x as u32))) };
    let f = |k: &J<0>, v: &u32, l: &J<1>, w: &u32| {
        let x = say(k.id, k.tag, *v, l.tag, *w);
        if pick(k.id, k.tag) == 4 { MapTransmuteResult::Removed(x) } else { MapTransmuteResult::Transmuted(J::<0> { id: k.id, tag: x as u8 | 4 }, x as u32, x) }
    };
    let op = new_map_transmute_transmute_generic(f);
    let (m, s) = unsafe { lm.transmute_with_transmuted(&rm, add, op.clone(), new_map_transmute_removed(0), new_map_transmute_removed(0)) };
    same!("a join of maps into new entries", (of_map(&m), s), true, want(true, new, 1));
    let (m, s) = unsafe { rm.transmute_with_transmuted(&lm, add, op.flip(), new_map_transmute_removed(0), new_map_transmute_removed(0)) };
    same!("a join of maps into new entries, flipped and with the sides swapped,", (of_map(&m), s), true, want(true, new, 1));
    let g = |k: &J<0>, l: &J<1>| {
        let x = say(k.id, k.tag, 0, l.tag, 0);
        if pick(k.id, k.tag) == 4 { SetTransmuteResult::Removed(x) } else { SetTransmuteResult::Transmuted(J::<0> { id: k.id, tag: x as u8 | 4 }, x) }
    };
    let op = new_set_transmute_transmute_generic(g);
    let (m, s) = unsafe { ls.transmute_with_transmuted(&rs, add, op.clone(), new_set_transmute_removed(0), new_set_transmute_removed(0)) };
    same!("a join of sets into new entries", (of_set(&m), s), false, want(false, new, 1));
    let (m, s) = unsafe { rs.transmute_with_transmuted(&ls, add, op.flip(), new_set_transmute_removed(0), new_set_transmute_removed(0)) };
    same!("a join of sets into new entries, flipped and with the sides swapped,", (of_set(&m), s), false, want(false, new, 1));
    Ok(())
}
fn check(c: &Case, info: &mut Info) -> Result<(), String> {
    let t = c.table.clone();
    let rep = c.report;
    let pick = move |k: u64, l: u64| t[(k * 7 + l) as usize % t.len()];
    // The closures, whose outcomes tell every argument and its position apart.
    let p = pick.clone();
    let joint = move |k: &K, v: &V, l: &K, w: &V| {
        let r = blend(*k as u64, *v as u64, *l as u64, *w as u64) ^ rep;
        match p(*k as u64, *l as u64) {
            0 => MapJointTransformResult::UnchangedLR(r),
            1 => MapJointTransformResult::UnchangedL(r),
            2 => MapJointTransformResult::UnchangedR(r),
            3 => MapJointTransformResult::Transformed(r as u32, r),
            _ => MapJointTransformResult::Removed(r),
        }
    };
    let p = pick.clone();
    let sjoint = move |k: &K, l: &K| {
        let r = blend(*k as u64, *l as u64, 0, 0) ^ rep;
        match p(*k as u64, *l as u64) {
            0 | 3 => SetJointTransformResult::UnchangedLR(r),
            1 => SetJointTransformResult::UnchangedL(r),
            2 => SetJointTransformResult::UnchangedR(r),
            _ => SetJointTransformResult::Removed(r),
        }
    };
    let p = pick.clone();
    let one = move |k: &K, v: &V| {
        let r = blend(*k as u64, *v as u64, 1, 1) ^ rep;
        match p(*k as u64, 0) {
            0 | 1 => MapTransformResult::Unchanged(r),
            2 | 3 => MapTransformResult::Transformed(r as u32, r),
            _ => MapTransformResult::Removed(r),
        }
    };
    let p = pick.clone();
    let tform = move |k: &K, v: &V, l: &L, w: &W| {
        let r = blend(*k as u64, *v as u64, *l as u64, *w as u64) ^ rep;
        match p(*k as u64, *l as u64) {
            0 | 1 => MapTransformResult::Unchanged(r),
            2 | 3 => MapTransformResult::Transformed(r as u32, r),
            _ => MapTransformResult::Removed(r),
        }
    };
    let p = pick.clone();
    let mform = move |k: &K, v: &V, l: &L, w: &W| {
        let r = blend(*k as u64, *v as u64, *l as u64, *w as u64) ^ rep;
        match p(*k as u64, *l as u64) {
            0 | 1 => MapTransformResult::Unchanged(r),
            2 | 3 => MapTransformResult::Transformed(r as i64, r),
            _ => MapTransformResult::Removed(r),
        }
    };
    let p = pick.clone();
    let sone = move |k: &K| if p(*k as u64, 0) == 4 { SetTransformResult::Removed(*k as u64 ^ rep) } else { SetTransformResult::Unchanged(*k as u64 ^ rep) };
    let p = pick.clone();
    let stwo = move |k: &K, l: &L| {
        let r = blend(*k as u64, *l as u64, 3, 3) ^ rep;
        if p(*k as u64, *l as u64) == 4 { SetTransformResult::Removed(r) } else { SetTransformResult::Unchanged(r) }
    };
    let p = pick.clone();
    let mone = move |k: &K, v: &V| {
        let r = blend(*k as u64, *v as u64, 4, 4) ^ rep;
        if p(*k as u64, 0) == 4 { MapTransmuteResult::Removed(r) } else { MapTransmuteResult::Transmuted(r, *v as u64, r) }
    };
    let p = pick.clone();
    let mtwo = move |k: &K, v: &V, l: &L, w: &W| {
        let r = blend(*k as u64, *v as u64, *l as u64, *w as u64) ^ rep;
        if p(*k as u64, *l as u64) == 4 { MapTransmuteResult::Removed(r) } else { MapTransmuteResult::Transmuted(r, *w as u64, r) }
    };
    let p = pick.clone();
    let smone = move |k: &K| if p(*k as u64, 0) == 4 { SetTransmuteResult::Removed(*k as u64 ^ rep) } else { SetTransmuteResult::Transmuted(*k as u64 + 1, *k as u64 ^ rep) };
    let p = pick.clone();
    let smtwo = move |k: &K, l: &L| {
        let r = blend(*k as u64, *l as u64, 6, 6) ^ rep;
        if p(*k as u64, *l as u64) == 4 { SetTransmuteResult::Removed(r) } else { SetTransmuteResult::Transmuted(r, r) }
    };

    let kind = c.constant.map(|k| k % 5);
    // A constant operation's answer for joint and for one-sided outcomes.
    let kjoint = kind.map(|k| (match k { 0 | 3 => Out::Either, 1 => Out::Left, 2 => Out::Right, _ => Out::Gone }, rep));
    let kone = kind.map(|k| (if k == 4 { Out::Gone } else { Out::Same }, rep));

    // Joint operations on maps and on sets, flipped any number of times.
    macro_rules! mjoint {
        ($op:expr, $want:expr) => {{
            let mut op = $op;
            for n in 0..=c.flips % 5 {
                for &(k, v, l, w) in &c.args {
                    let straight: Res = $want(k, v, l, w);
                    let (got, want) = if n % 2 == 0 { (mjt(op.clone().call(&k, &v, &l, &w)), straight) } else { (mjt(op.call(&l, &w, &k, &v)), mirrored(straight)) };
                    agree!(format!("a map joint operation flipped {n} times, asked about {k}={v} and {l}={w},"), got, want);
                }
                op = op.flip();
            }
        }};
    }
    macro_rules! sjointm {
        ($op:expr, $want:expr) => {{
            let mut op = $op;
            for n in 0..=c.flips % 5 {
                for &(k, _, l, _) in &c.args {
                    let straight: Res = $want(k, l);
                    let (got, want) = if n % 2 == 0 { (sjt(op.clone().call(&k, &l)), straight) } else { (sjt(op.call(&l, &k)), mirrored(straight)) };
                    agree!(format!("a set joint operation flipped {n} times, asked about {k} and {l},"), got, want);
                }
                op = op.flip();
            }
        }};
    }
    let jk = kjoint.clone();
    match kind {
        None => {
            let f = joint.clone();
            mjoint!(new_map_joint_transform_generic(joint.clone()), |k: K, v: V, l: K, w: V| mjt(f(&k, &v, &l, &w)));
            let f = sjoint.clone();
            sjointm!(new_set_joint_transform_generic(sjoint.clone()), |k: K, l: K| sjt(f(&k, &l)));
        }
        Some(k) => {
            let want = jk.clone().unwrap();
            let m = match k { 0 | 3 => new_map_joint_transform_unchangedlr(rep), 1 => new_map_joint_transform_unchangedl(rep), 2 => new_map_joint_transform_unchangedr(rep), _ => new_map_joint_transform_removed::<K, V, u64>(rep) };
            mjoint!(m, |_, _, _, _| want.clone());
            let s = match k { 0 | 3 => new_set_joint_transform_unchangedlr(rep), 1 => new_set_joint_transform_unchangedl(rep), 2 => new_set_joint_transform_unchangedr(rep), _ => new_set_joint_transform_removed::<K, u64>(rep) };
            sjointm!(s, |_, _| want.clone());
        }
    }

    // One-sided and mixed operations.
    macro_rules! maps {
        ($m:expr, $want:expr) => {{
            let m = $m;
            for &(k, v, _, _) in &c.args {
                agree!(format!("a map operation asked about {k}={v}"), mt(m.call(&k, &v)), $want(k, v));
            }
        }};
    }
    macro_rules! mixed {
        ($m:expr, $call:ident, $flip:ident, $want:expr) => {{
            let m = $m;
            let flipped = m.$flip();
            for &(k, v, l, w) in &c.args {
                let (l, w) = (l as L, w as W);
                agree!(format!("a mixed operation asked about {k}={v} and {l}={w}"), mt(m.$call(&k, &v, &l, &w)), $want(k, v, l, w));
                // A mixed operation is not symmetric: its flipped form keeps the roles and swaps the places.
                match &flipped {
                    MapTransform::Generic(f) => agree!(format!("the flipped mixed operation asked about {l}={w} and {k}={v}"), mt(f(&l, &w, &k, &v)), $want(k, v, l, w)),
                    MapTransform::Unchanged(r) => agree!("the flipped mixed operation", (Out::Same, *r), $want(k, v, l, w)),
                    MapTransform::Removed(r) => agree!("the flipped mixed operation", (Out::Gone, *r), $want(k, v, l, w)),
                }
            }
        }};
    }
    macro_rules! sets {
        ($m:expr, $want:expr) => {{
            let m = $m;
            for &(k, _, _, _) in &c.args {
                agree!(format!("a set operation asked about {k}"), st(m.call(&k)), $want(k));
            }
        }};
    }
    macro_rules! smixed {
        ($m:expr, $want:expr) => {{
            let m = $m;
            let flipped = m.flip_transmute();
            for &(k, _, l, _) in &c.args {
                let l = l as L;
                agree!(format!("a mixed set operation asked about {k} and {l}"), st(m.call_transmute(&k, &l)), $want(k, l));
                agree!(format!("the flipped mixed set operation asked about {l} and {k}"), st(flipped.call_transmute(&l, &k)), $want(k, l));
            }
        }};
    }
    match kone.clone() {
        None => {
            let f = one.clone();
            maps!(new_map_transform_generic(one.clone()), |k: K, v: V| mt(f(&k, &v)));
            let f = tform.clone();
            mixed!(new_map_transform_transmute_generic(tform.clone()), call_transform_transmute, flip_transform_transmute, |k: K, v: V, l: L, w: W| mt(f(&k, &v, &l, &w)));
            let f = mform.clone();
            mixed!(new_map_transmute_transform_generic(mform.clone()), call_transmute_transform, flip_transmute_transform, |k: K, v: V, l: L, w: W| mt(f(&k, &v, &l, &w)));
            let f = sone.clone();
            sets!(new_set_transform_generic(sone.clone()), |k: K| st(f(&k)));
            let f = stwo.clone();
            smixed!(new_set_transform_transmute_generic(stwo.clone()), |k: K, l: L| st(f(&k, &l)));
        }
        Some(want) => {
            let gone = want.0 == Out::Gone;
            maps!(if gone { new_map_transform_removed::<K, V, u64>(rep) } else { new_map_transform_unchanged(rep) }, |_, _| want.clone());
            mixed!(if gone { new_map_transform_transmute_removed::<K, V, L, W, u64>(rep) } else { new_map_transform_transmute_unchanged(rep) }, call_transform_transmute, flip_transform_transmute, |_, _, _, _| want.clone());
            mixed!(if gone { new_map_transmute_transform_removed::<K, V, L, W, u64>(rep) } else { new_map_transmute_transform_unchanged(rep) }, call_transmute_transform, flip_transmute_transform, |_, _, _, _| want.clone());
            sets!(if gone { new_set_transform_removed::<K, u64>(rep) } else { new_set_transform_unchanged(rep) }, |_| want.clone());
            smixed!(if gone { new_set_transform_transmute_removed::<K, L, u64>(rep) } else { new_set_transform_transmute_unchanged(rep) }, |_, _| want.clone());
        }
    }

    // Transmutations: a closure, or the constant removal.
    macro_rules! mutes {
        ($m1:expr, $w1:expr, $m2:expr, $w2:expr, $s1:expr, $w3:expr, $s2:expr, $w4:expr) => {{
            let (m1, m2, s1, s2) = ($m1, $m2, $s1, $s2);
            let (mf, sf) = (m2.flip(), s2.flip());
            for &(k, v, l, w) in &c.args {
                let (l, w) = (l as L, w as W);
                agree!(format!("a map transmutation asked about {k}={v}"), mm(m1.call(&k, &v)), $w1(k, v));
                agree!(format!("a joint map transmutation asked about {k}={v} and {l}={w}"), mm(m2.call_transmute(&k, &v, &l, &w)), $w2(k, v, l, w));
                agree!(format!("the flipped joint map transmutation asked about {l}={w} and {k}={v}"), mm(mf.call_transmute(&l, &w, &k, &v)), $w2(k, v, l, w));
                agree!(format!("a set transmutation asked about {k}"), sm(s1.call(&k)), $w3(k));
                agree!(format!("a joint set transmutation asked about {k} and {l}"), sm(s2.call_transmute(&k, &l)), $w4(k, l));
                agree!(format!("the flipped joint set transmutation asked about {l} and {k}"), sm(sf.call_transmute(&l, &k)), $w4(k, l));
            }
        }};
    }
    if kind.is_none() {
        let (f1, f2, f3, f4) = (mone.clone(), mtwo.clone(), smone.clone(), smtwo.clone());
        mutes!(
            new_map_transmute_generic(mone.clone()), |k: K, v: V| mm(f1(&k, &v)),
            new_map_transmute_transmute_generic(mtwo.clone()), |k: K, v: V, l: L, w: W| mm(f2(&k, &v, &l, &w)),
            new_set_transmute_generic(smone.clone()), |k: K| sm(f3(&k)),
            new_set_transmute_transmute_generic(smtwo.clone()), |k: K, l: L| sm(f4(&k, &l))
        );
    } else {
        let gone = (Out::Gone, rep);
        mutes!(
            new_map_transmute_removed::<K, V, u64, u64, u64>(rep), |_, _| gone.clone(),
            new_map_transmute_transmute_removed::<K, V, L, W, u64, u64, u64>(rep), |_, _, _, _| gone.clone(),
            new_set_transmute_removed::<K, u64, u64>(rep), |_| gone.clone(),
            new_set_transmute_transmute_removed::<K, L, u64, u64>(rep), |_, _| gone.clone()
        );
    }
    if rep & 7 == 0 {
        in_joins(c, kind)?;
        info.label("joins");
    }
    info.label(match kind { None => "closure", Some(0 | 3) => "constant-either", Some(1) => "constant-left", Some(2) => "constant-right", _ => "constant-removed" });
    info.nontrivial_if(c.flips % 5 >= 1 && c.args.iter().any(|a| a.0 != a.2 && a.1 != a.3) && (kind.is_some() || c.table.iter().any(|k| *k == 1 || *k == 2)));
    Ok(())
}
fn main() {
    hash_trie_pbt::engine::main(Spec {
        id: "P20",
        rule: "Random outcome tables and constants turned into operation objects of every kind through every constructor, called with random argument pairs straight and after zero to four flips; each answer is compared with the closure's own (or the constant's), mirrored where the sides were swapped. For every eighth case the same outcomes also drive joins of maps and of sets (one type, mixed, into new entries; both strategies; straight, flipped, and flipped with the sides swapped) over keys of few hashes, whose contents and reductions are compared with what the closures say. Non-trivial: at least one flip, sides that differ, and a constant or an outcome that keeps one particular side.",
        assumptions: &[],
        quick: 3_000_000,
        thorough: 20_000_000,
        strategy: |_| {
            (proptest::collection::vec(0u8..5, 1..6), any::<u64>(), prop_oneof![1 => Just(None), 1 => (0u8..5).prop_map(Some)], proptest::collection::vec(any::<(u8, u32, u8, u32)>(), 1..6), 0u8..5)
                .prop_map(|(table, report, constant, args, flips)| Case { table, report, constant, args, flips })
                .boxed()
        },
        check,
        enumerate: None,
    })
}
