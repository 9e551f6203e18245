//! Cases with two containers and an operation on both, and the mixed-type operations.
use crate::dict::*;
use crate::gens::*;
use crate::hist::*;
use crate::probe::*;
use crate::engine::mix;
use hash_trie::results::*;
use hash_trie::transformations::*;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::sync::Arc;

/// Two containers, either grown apart from one common ancestor or built separately.
#[derive(Clone, Debug, Hash, PartialEq, Eq, Serialize, Deserialize)]
pub struct Pair {
    pub cfg: u8,
    pub map: bool,
    pub uni: Uni,
    /// The first keys of the universe, before the rest of the base.
    #[serde(default)]
    pub fill: u32,
    pub base: Vec<u32>,
    pub shared: bool,
    /// (0 insert, 1 replace, 2 remove), key
    pub left: Vec<(u8, u32)>,
    pub right: Vec<(u8, u32)>,
    pub bulk: Bulk,
    pub mute: OpSpec,
    pub mute2: OpSpec,
    pub mute3: OpSpec,
    pub variant: u8,
}

pub fn pair(cfgs: u8, map: Option<bool>, keys: usize, edits: usize) -> BoxedStrategy<Pair> {
    let maps: BoxedStrategy<bool> = match map {
        Some(b) => Just(b).boxed(),
        None => any::<bool>().boxed(),
    };
    let edit = || (prop_oneof![4 => Just(0u8), 1 => Just(1u8), 3 => Just(2u8)], any::<u16>().prop_map(u32::from));
    let runs = prop_oneof![2 => Just((0u8, 0u8, 0u8)), 1 => (any::<u8>(), any::<u8>(), any::<u8>())];
    let containers = (
        runs,
        vec(any::<u16>().prop_map(u32::from), 0..=edits),
        any::<bool>(),
        vec(edit(), 0..=edits),
        vec(edit(), 0..=edits),
    );
    let split = prop_oneof![3 => Just(None), 1 => any::<u8>().prop_map(Some)];
    (0..cfgs, maps, uni(keys), containers, bulk(), (mute_op(), mute_op(), mute_op()), (any::<u8>(), split))
        .prop_map(|(cfg, map, uni, (runs, base, shared, left, right), bulk, (mute, mute2, mute3), (variant, split))| {
            let n = uni.len().max(1) as u32;
            let fill = if uni.wide > 0 { uni.wide * (variant as u32 % 5) / 4 } else { 0 };
            let thin = |v: Vec<(u8, u32)>, k: u8, from: u32| -> Vec<(u8, u32)> { (0..k as u32 / 2).map(|i| (2u8, (from + i) % n)).chain(v).collect() };
            let (left, right) = (thin(left, runs.1, 0), thin(right, runs.2, n / 2));
            let mut p = Pair { cfg, map, uni, fill: fill.max(runs.0 as u32), base, shared, left, right, bulk, mute, mute2, mute3, variant };
            if let Some(salt) = split {
                p.split(salt);
            }
            p
        })
        .boxed()
}

impl Pair {
    /// Gives each hash word to one side or to both, so that a slot can hold different words' entries
    /// on the two sides.
    fn split(&mut self, salt: u8) {
        let n = self.uni.len() as u32;
        let side = |id: u32| {
            let h = self.uni.hash(id % n, 128);
            mix(h as u64 ^ mix((h >> 64) as u64) ^ salt as u64) % 4
        };
        let all = |s: u64| (0..n.min(60)).filter(move |i| side(*i) == s).map(|i| (0u8, i));
        let trim = |s: u64, v: &[(u8, u32)]| -> Vec<(u8, u32)> { all(s).chain(v.iter().copied().filter(|(k, i)| *k == 2 || side(*i) != 1 - s)).collect() };
        let base: Vec<u32> = self.start().into_iter().filter(|i| side(*i) > 1).collect();
        let (l, r) = (trim(0, &self.left), trim(1, &self.right));
        (self.fill, self.base, self.left, self.right) = (0, base, l, r);
    }
    /// The keys both containers start from.
    pub fn start(&self) -> Vec<u32> {
        (0..self.fill).chain(self.base.iter().copied()).collect()
    }
    /// Those the right-hand container starts from: half of them, if it is built separately.
    pub fn again(&self) -> Vec<u32> {
        self.start().into_iter().step_by(if self.shared { 1 } else { 2 }).collect()
    }
}
pub const LEFT_TAGS: u32 = 5_000_000;
pub const RIGHT_TAGS: u32 = 10_000_000;

macro_rules! builders {
    ($($name:ident $edit:ident $T:literal $V:literal;)*) => { $(
        pub fn $edit<C: Cfg>(mut d: hash_trie::HashTrieMap<C::H, C::F, Key<$T>, Val<$V>, C::M>, m: &mut Model, e: &[(u8, u32)], uni: &Uni, ctx: &Arc<Ctx>, tag0: u32) -> Result<hash_trie::HashTrieMap<C::H, C::F, Key<$T>, Val<$V>, C::M>, String> {
            let w = (<C::H as hash_trie::traits::MaxOnes>::max_ones() as u32).min(128);
            for (i, (kind, k)) in e.iter().enumerate() {
                let id = *k % uni.len() as u32;
                let tag = tag0 + i as u32;
                let x = mix(tag as u64) % 10_000;
                let key: Key<$T> = uni.key(ctx, id, tag, w);
                let new = match kind {
                    2 => d.remove(&key).ok().map(|t| t.0),
                    r => d.insert(key, Val::<$V>::new(ctx, x), *r == 1).ok().map(|t| t.0),
                };
                if let Some(n) = new {
                    d = n;
                    if *kind == 2 { m.remove(&id); } else { m.insert(id, (tag, x)); }
                }
            }
            Ok(d)
        }
        pub fn $name<C: Cfg>(base: &[u32], e: &[(u8, u32)], uni: &Uni, ctx: &Arc<Ctx>, tag0: u32) -> Result<(hash_trie::HashTrieMap<C::H, C::F, Key<$T>, Val<$V>, C::M>, Model), String> {
            let mut m = Model::new();
            let b: Vec<(u8, u32)> = base.iter().map(|k| (0, *k)).collect();
            let d = $edit::<C>(hash_trie::HashTrieMap::new(), &mut m, &b, uni, ctx, tag0)?;
            let d = $edit::<C>(d, &mut m, e, uni, ctx, tag0 + LEFT_TAGS)?;
            Ok((d, m))
        }
    )* };
}
builders! { build_map0 edit_map0 0 0; build_map1 edit_map1 1 1; build_map01 edit_map01 0 1; }

macro_rules! set_builders {
    ($($name:ident $edit:ident $T:literal;)*) => { $(
        pub fn $name<C: Cfg>(base: &[u32], e: &[(u8, u32)], uni: &Uni, ctx: &Arc<Ctx>, tag0: u32) -> Result<(Set<C, $T>, Model), String> {
            let mut m = Model::new();
            let all: Vec<(u8, u32)> = base.iter().map(|k| (0u8, *k)).chain(e.iter().copied()).collect();
            let d = $edit::<C>(hash_trie::HashTrieSet::new(), &mut m, &all, uni, ctx, tag0)?;
            Ok((d, m))
        }
        pub fn $edit<C: Cfg>(mut d: Set<C, $T>, m: &mut Model, e: &[(u8, u32)], uni: &Uni, ctx: &Arc<Ctx>, tag0: u32) -> Result<Set<C, $T>, String> {
            let w = (<C::H as hash_trie::traits::MaxOnes>::max_ones() as u32).min(128);
            for (i, (kind, k)) in e.iter().copied().enumerate() {
                let id = k % uni.len() as u32;
                let tag = tag0 + i as u32;
                let key: Key<$T> = uni.key(ctx, id, tag, w);
                let new = match kind {
                    2 => d.remove(&key).ok().map(|t| t.0),
                    r => d.insert(key, r == 1).ok().map(|t| t.0),
                };
                if let Some(n) = new {
                    d = n;
                    if kind == 2 { m.remove(&id); } else { m.insert(id, (tag, 0)); }
                }
            }
            Ok(d)
        }
    )* };
}
set_builders! { build_set0 edit_set0 0; build_set1 edit_set1 1; }

/// Two containers of one type, from the case.
pub fn build_pair<D: Dict>(p: &Pair, ctx: &Arc<Ctx>) -> (D, Model, D, Model) {
    let edit = |d: &D, m: &Model, e: &[(u8, u32)], tag0: u32| -> (D, Model) {
        let (mut d, mut m) = (d.clone(), m.clone());
        for (i, (kind, k)) in e.iter().enumerate() {
            let id = *k % p.uni.len() as u32;
            let tag = tag0 + i as u32;
            let x = if D::MAP { mix(tag as u64) % 10_000 } else { 0 };
            let key = p.uni.key::<0>(ctx, id, tag, D::w());
            let new = match kind {
                2 => d.remove(&key).map(|t| t.0),
                r => d.insert(key, Val::new(ctx, x), *r == 1).ok().map(|t| t.new),
            };
            if let Some(n) = new {
                d = n;
                if *kind == 2 {
                    m.remove(&id);
                } else {
                    m.insert(id, (tag, x));
                }
            }
        }
        (d, m)
    };
    let base: Vec<(u8, u32)> = p.start().iter().map(|k| (0, *k)).collect();
    let (b, bm) = edit(&D::fresh(), &Model::new(), &base, 1);
    let (l, lm) = edit(&b, &bm, &p.left, LEFT_TAGS);
    let (r, rm) = if p.shared {
        edit(&b, &bm, &p.right, RIGHT_TAGS)
    } else {
        // Half of the base again, so that separately built containers overlap.
        let again: Vec<(u8, u32)> = base.iter().step_by(2).copied().chain(p.right.iter().copied()).collect();
        edit(&D::fresh(), &Model::new(), &again, RIGHT_TAGS)
    };
    (l, lm, r, rm)
}

/// Where the right-hand container of a mixed operation comes from.
#[derive(Clone, Copy, PartialEq)]
pub enum Origin {
    /// Built on its own, with entry types of its own.
    Other,
    /// Of the same types, and sharing subtries: grown apart from a common ancestor.
    Kin,
    /// The left container after an edit or two.
    Heir,
    /// The left container.
    Itself,
}
impl Origin {
    pub fn of(p: &Pair) -> Origin {
        match p.variant / 4 % 8 {
            0..=3 => Origin::Other,
            4 | 5 => Origin::Kin,
            6 => Origin::Heir,
            _ => Origin::Itself,
        }
    }
    pub fn label(self, info: &mut crate::engine::Info) {
        info.label_if(self == Origin::Kin, "sharing-subtries");
        info.label_if(self == Origin::Heir, "right-edited-from-left");
        info.label_if(self == Origin::Itself, "with-itself");
    }
}
macro_rules! alikes {
    ($($name:ident $ty:ident $edit:ident;)*) => { $(
        /// Two containers of one type that share subtries, as `from` says.
        pub fn $name<C: Cfg>(from: Origin, p: &Pair, ctx: &Arc<Ctx>) -> Result<($ty<C>, Model, Option<($ty<C>, Model)>), String> {
            let base: Vec<(u8, u32)> = p.start().iter().map(|k| (0, *k)).collect();
            let mut lm = Model::new();
            let root = $edit::<C>(<$ty<C>>::new(), &mut lm, &base, &p.uni, ctx, 1)?;
            let rootm = lm.clone();
            let l = $edit::<C>(root.clone(), &mut lm, &p.left, &p.uni, ctx, LEFT_TAGS)?;
            let (d, mut m, n) = match from {
                Origin::Other => return Ok((l, lm, None)),
                Origin::Kin => (root, rootm, p.right.len()),
                Origin::Heir => (l.clone(), lm.clone(), p.right.len().min(1 + p.variant as usize / 32)),
                Origin::Itself => (l.clone(), lm.clone(), 0),
            };
            let r = $edit::<C>(d, &mut m, &p.right[..n], &p.uni, ctx, RIGHT_TAGS)?;
            Ok((l, lm, Some((r, m))))
        }
    )* };
}
alikes! { left_and_alike Map edit_map0; left_and_alike_set Set edit_set0; }

pub fn classes(p: &Pair, lm: &Model, rm: &Model, w: u32, info: &mut crate::engine::Info) {
    let both = lm.keys().filter(|k| rm.contains_key(k)).count();
    info.label_if(both > 0, "common-keys");
    info.label_if(both > 0 && both < lm.len() && both < rm.len(), "partial-overlap");
    info.label_if(p.shared, "common-ancestor");
    let gl = p.uni.groups(lm.keys().copied(), w);
    let gr = p.uni.groups(rm.keys().copied(), w);
    info.label_if(gl.values().any(|n| *n > 1), "left-collisions");
    info.label_if(gr.values().any(|n| *n > 1), "right-collisions");
    info.label_if(gl.iter().any(|(h, n)| *n > 1 && gr.get(h).map_or(false, |m| *m > 1)), "collision-meets-collision");
    info.label_if(gl.iter().any(|(h, n)| *n > 1 && gr.get(h) == Some(&1)) || gr.iter().any(|(h, n)| *n > 1 && gl.get(h) == Some(&1)), "collision-meets-single");
    info.label_if(lm.is_empty() || rm.is_empty(), "empty-side");
}

// ---------------------------------------------------------------- mixed operations

pub fn new_tag(side: u8, tag: u32) -> u32 {
    tag.wrapping_add(100_000_000 * (side as u32 + 1))
}

pub fn map_mute<const A: u8, const B: u8>(
    op: &OpSpec,
    side: u8,
    konst: u64,
    log: &Log,
) -> MapTransmute<Red, impl Fn(&Key<A>, &Val<A>) -> MapTransmuteResult<Key<B>, Val<B>, Red> + Clone + Send + Sync> {
    match op {
        OpSpec::Const(_) => MapTransmute::Removed(Red::constant(konst)),
        _ => {
            let (op, log) = (op.clone(), log.clone());
            new_map_transmute_generic(move |k: &Key<A>, v: &Val<A>| {
                k.touch();
                v.touch();
                k.ctx().tick();
                note(&log, (side, k.id, k.tag, v.x, 0, 0, 0));
                let r = Red::one(side as u64, k.id);
                match op.kind(k.id) {
                    REM => MapTransmuteResult::Removed(r),
                    _ => MapTransmuteResult::Transmuted(k.retyped::<B>(new_tag(side, k.tag)), Val::new(v.ctx(), new_x(side as u64, k.id, v.x, 0)), r),
                }
            })
        }
    }
}
pub fn set_mute<const A: u8, const B: u8>(
    op: &OpSpec,
    side: u8,
    konst: u64,
    log: &Log,
) -> SetTransmute<Red, impl Fn(&Key<A>) -> SetTransmuteResult<Key<B>, Red> + Clone + Send + Sync> {
    match op {
        OpSpec::Const(_) => SetTransmute::Removed(Red::constant(konst)),
        _ => {
            let (op, log) = (op.clone(), log.clone());
            new_set_transmute_generic(move |k: &Key<A>| {
                k.touch();
                k.ctx().tick();
                note(&log, (side, k.id, k.tag, 0, 0, 0, 0));
                let r = Red::one(side as u64, k.id);
                match op.kind(k.id) {
                    REM => SetTransmuteResult::Removed(r),
                    _ => SetTransmuteResult::Transmuted(k.retyped::<B>(new_tag(side, k.tag)), r),
                }
            })
        }
    }
}
/// One-sided value-only transmutation, as the transfute operations use it.
pub fn map_fute<const A: u8, const B: u8>(
    op: &OpSpec,
    side: u8,
    konst: u64,
    log: &Log,
) -> SetTransmute<Red, impl Fn(&Key<0>, &Val<A>) -> SetTransmuteResult<Val<B>, Red> + Clone + Send + Sync> {
    match op {
        OpSpec::Const(_) => SetTransmute::Removed(Red::constant(konst)),
        _ => {
            let (op, log) = (op.clone(), log.clone());
            SetTransmute::Generic(move |k: &Key<0>, v: &Val<A>| {
                k.touch();
                v.touch();
                k.ctx().tick();
                note(&log, (side, k.id, k.tag, v.x, 0, 0, 0));
                let r = Red::one(side as u64, k.id);
                match op.kind(k.id) {
                    REM => SetTransmuteResult::Removed(r),
                    _ => SetTransmuteResult::Transmuted(Val::new(v.ctx(), new_x(side as u64, k.id, v.x, 0)), r),
                }
            })
        }
    }
}
/// One-sided value operation with a free key type (transfute keeps `Key<0>` beside `Val<1>`).
pub fn map_op_kv<const K: u8, const V: u8>(
    op: &OpSpec,
    side: u8,
    konst: u64,
    log: &Log,
) -> MapTransform<Red, impl Fn(&Key<K>, &Val<V>) -> MapTransformResult<Val<V>, Red> + Clone + Send + Sync> {
    match op {
        OpSpec::Const(REM) => MapTransform::Removed(Red::constant(konst)),
        OpSpec::Const(_) => MapTransform::Unchanged(Red::constant(konst)),
        _ => {
            let (op, log) = (op.clone(), log.clone());
            new_map_transform_generic(move |k: &Key<K>, v: &Val<V>| {
                k.touch();
                v.touch();
                k.ctx().tick();
                note(&log, (side, k.id, k.tag, v.x, 0, 0, 0));
                let r = Red::one(side as u64, k.id);
                match op.kind(k.id) {
                    TRANS => MapTransformResult::Transformed(Val::new(v.ctx(), new_x(side as u64, k.id, v.x, 0)), r),
                    REM => MapTransformResult::Removed(r),
                    _ => MapTransformResult::Unchanged(r),
                }
            })
        }
    }
}
/// Joint operation of the mixed kinds; the result is a value of type `R`.
pub fn map_both<const KA: u8, const VA: u8, const KB: u8, const VB: u8, const R: u8>(
    op: &OpSpec,
    log: &Log,
) -> MapTransform<Red, impl Fn(&Key<KA>, &Val<VA>, &Key<KB>, &Val<VB>) -> MapTransformResult<Val<R>, Red> + Clone + Send + Sync> {
    match op {
        OpSpec::Const(REM) => MapTransform::Removed(Red::constant(CONST_BOTH)),
        OpSpec::Const(_) => MapTransform::Unchanged(Red::constant(CONST_BOTH)),
        _ => {
            let (op, log) = (op.clone(), log.clone());
            MapTransform::Generic(move |k: &Key<KA>, v: &Val<VA>, l: &Key<KB>, w: &Val<VB>| {
                k.touch();
                v.touch();
                l.touch();
                w.touch();
                k.ctx().tick();
                note(&log, (0, k.id, k.tag, v.x, l.id, l.tag, w.x));
                let r = Red::one(0, k.id);
                match op.kind(k.id) {
                    TRANS => MapTransformResult::Transformed(Val::new(v.ctx(), new_x(0, k.id, v.x, w.x)), r),
                    REM => MapTransformResult::Removed(r),
                    _ => MapTransformResult::Unchanged(r),
                }
            })
        }
    }
}
pub fn map_both_mute<const B: u8>(
    op: &OpSpec,
    log: &Log,
) -> MapTransmute<Red, impl Fn(&Key<0>, &Val<0>, &Key<B>, &Val<B>) -> MapTransmuteResult<Key<2>, Val<2>, Red> + Clone + Send + Sync> {
    match op {
        OpSpec::Const(_) => MapTransmute::Removed(Red::constant(CONST_BOTH)),
        _ => {
            let (op, log) = (op.clone(), log.clone());
            MapTransmute::Generic(move |k: &Key<0>, v: &Val<0>, l: &Key<B>, w: &Val<B>| {
                k.touch();
                v.touch();
                l.touch();
                w.touch();
                k.ctx().tick();
                note(&log, (0, k.id, k.tag, v.x, l.id, l.tag, w.x));
                let r = Red::one(0, k.id);
                match op.kind(k.id) {
                    REM => MapTransmuteResult::Removed(r),
                    _ => MapTransmuteResult::Transmuted(k.retyped::<2>(new_tag(0, k.tag)), Val::new(v.ctx(), new_x(0, k.id, v.x, w.x)), r),
                }
            })
        }
    }
}
pub fn set_both<const A: u8, const B: u8>(op: &OpSpec, log: &Log) -> SetTransform<Red, impl Fn(&Key<A>, &Key<B>) -> SetTransformResult<Red> + Clone + Send + Sync> {
    match op {
        OpSpec::Const(REM) => SetTransform::Removed(Red::constant(CONST_BOTH)),
        OpSpec::Const(_) => SetTransform::Unchanged(Red::constant(CONST_BOTH)),
        _ => {
            let (op, log) = (op.clone(), log.clone());
            SetTransform::Generic(move |k: &Key<A>, l: &Key<B>| {
                k.touch();
                l.touch();
                k.ctx().tick();
                note(&log, (0, k.id, k.tag, 0, l.id, l.tag, 0));
                let r = Red::one(0, k.id);
                match op.kind(k.id) {
                    REM => SetTransformResult::Removed(r),
                    _ => SetTransformResult::Unchanged(r),
                }
            })
        }
    }
}
pub fn set_both_mute<const B: u8>(op: &OpSpec, log: &Log) -> SetTransmute<Red, impl Fn(&Key<0>, &Key<B>) -> SetTransmuteResult<Key<2>, Red> + Clone + Send + Sync> {
    match op {
        OpSpec::Const(_) => SetTransmute::Removed(Red::constant(CONST_BOTH)),
        _ => {
            let (op, log) = (op.clone(), log.clone());
            SetTransmute::Generic(move |k: &Key<0>, l: &Key<B>| {
                k.touch();
                l.touch();
                k.ctx().tick();
                note(&log, (0, k.id, k.tag, 0, l.id, l.tag, 0));
                let r = Red::one(0, k.id);
                match op.kind(k.id) {
                    REM => SetTransmuteResult::Removed(r),
                    _ => SetTransmuteResult::Transmuted(k.retyped::<2>(new_tag(0, k.tag)), r),
                }
            })
        }
    }
}

/// How one side's entries reach the result.
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Way {
    /// as they are, or with a new value
    Form,
    /// as a new key with a new value
    Mute,
    /// under their own key with a new value
    Fute,
}
/// Whose entry a pair keeps.
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Keep {
    L,
    R,
    New,
}

pub struct Expect {
    pub want: BTreeMap<u32, Vec<(u32, u64)>>,
    pub calls: Vec<Call>,
    pub red: RedWant,
}
#[allow(clippy::too_many_arguments)]
pub fn expect_mixed(lm: &Model, rm: &Model, both: &OpSpec, left: &OpSpec, right: &OpSpec, lway: Way, rway: Way, keep: Keep, map: bool) -> Expect {
    let mut e = Expect { want: BTreeMap::new(), calls: vec![], red: RedWant::new() };
    let (mut nb, mut nl, mut nr) = (0, 0, 0);
    let one = |e: &mut Expect, op: &OpSpec, way: Way, s: u8, id: u32, tag: u32, x: u64| {
        if way == Way::Form {
            side(op, s, id, tag, x, &mut e.want, &mut e.calls, &mut e.red, map);
            return;
        }
        if !op.is_const() {
            e.calls.push((s, id, tag, x, 0, 0, 0));
            e.red.one(s as u64, id);
            if op.kind(id) != REM {
                let t = if way == Way::Mute { new_tag(s, tag) } else { tag };
                e.want.insert(id, vec![(t, if map { new_x(s as u64, id, x, 0) } else { 0 })]);
            }
        }
    };
    for (&id, &(tag, x)) in lm {
        match rm.get(&id) {
            None => {
                nl += 1;
                one(&mut e, left, lway, 1, id, tag, x)
            }
            Some(&(rtag, rx)) => {
                nb += 1;
                if !both.is_const() {
                    e.calls.push((0, id, tag, x, id, rtag, rx));
                    e.red.one(0, id);
                }
                let nx = if map { new_x(0, id, x, rx) } else { 0 };
                let kept = match (both.kind(id), keep) {
                    (REM, _) => None,
                    (_, Keep::New) => Some((new_tag(0, tag), nx)),
                    (TRANS, Keep::L) if map => Some((tag, nx)),
                    (TRANS, Keep::R) if map => Some((rtag, nx)),
                    (_, Keep::L) => Some((tag, x)),
                    (_, Keep::R) => Some((rtag, rx)),
                };
                if let Some(k) = kept {
                    e.want.insert(id, vec![k]);
                }
            }
        }
    }
    for (&id, &(tag, x)) in rm {
        if !lm.contains_key(&id) {
            nr += 1;
            one(&mut e, right, rway, 2, id, tag, x)
        }
    }
    if both.is_const() {
        e.red.konst(CONST_BOTH, nb > 0);
    }
    if left.is_const() {
        e.red.konst(CONST_LEFT, nl > 0);
    }
    if right.is_const() {
        e.red.konst(CONST_RIGHT, nr > 0);
    }
    e.calls.sort();
    e
}
impl Expect {
    pub fn check(&self, shown: &Model, log: &Log, red: &Red) -> Result<(), String> {
        let got = take_log(log);
        crate::ensure!(got == self.calls, "the operations were called as {}, the entries are {}", show_calls(&got), show_calls(&self.calls));
        matches(shown, &self.want)?;
        self.red.check(red)
    }
    /// Every expectation of a mixed operation is single-valued.
    pub fn model(&self) -> Model {
        self.want.iter().map(|(k, v)| (*k, v[0])).collect()
    }
}

/// Outcomes that go by the half of a node an entry is in, on one level of the trie: what one half
/// does with its entries and what the other does.
pub fn halves(mut p: Pair, (width, chunk): (u32, u32), level: u8, themes: (u8, u8), constant: bool) -> Pair {
    let n = p.uni.len() as u32;
    if n == 0 || n > 300 {
        return p;
    }
    // both, left's own, right's own
    let kinds = |theme: u8, id: u32| match theme % 8 {
        0 | 1 => (REM, REM, REM),
        2 => (RIGHT, REM, UNCH),
        3 => (LEFT, UNCH, REM),
        4 => (UNCH, UNCH, UNCH),
        5 => (TRANS, TRANS, TRANS),
        6 => (RIGHT, REM, REM),
        _ => {
            let m = mix(id as u64 ^ themes.0 as u64) as usize;
            (JOINT_KINDS[m % 5], ONE_KINDS[m / 5 % 3], ONE_KINDS[m / 15 % 3])
        }
    };
    let bit = (chunk * level as u32 + chunk - 1).min(width - 1);
    let all: Vec<(u8, u8, u8)> = (0..n).map(|id| kinds(if p.uni.word(id, width) >> bit & 1 == 0 { themes.0 } else { themes.1 }, id)).collect();
    let op = |f: &dyn Fn(&(u8, u8, u8)) -> u8| {
        let t: Vec<u8> = all.iter().map(f).collect();
        if constant && t[0] != TRANS && t.iter().all(|k| *k == t[0]) { OpSpec::Const(t[0]) } else { OpSpec::Table(t) }
    };
    let mute = |k: u8| if k == REM { REM } else { TRANS };
    p.bulk.both = op(&|k| k.0);
    p.bulk.one = op(&|k| k.1);
    p.bulk.right = op(&|k| k.2);
    p.mute = op(&|k| mute(if p.variant & 128 == 0 { k.1 } else { k.2 }));
    p
}
