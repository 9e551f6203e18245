//! Configurations (hash word x flag word x hasher) and one face for maps and sets.
use crate::engine::mix;
use crate::probe::*;
use crate::exec::block_on;
use hash_trie::results::*;
use hash_trie::traits::{Flagword, HasherBv, Hashword};
use hash_trie::transformations::*;
use hash_trie::{HashTrieMap, HashTrieSet, ParallelismStrategy};
use serde::{Deserialize, Serialize};
use std::convert::TryFrom;
use std::fmt::Debug;
use std::ops::BitAnd;
use std::sync::{Arc, Mutex};

pub trait Cfg: 'static {
    type H: Hashword;
    type E: Debug;
    type F: Flagword<Self::H> + TryFrom<<Self::H as BitAnd>::Output, Error = Self::E>;
    type M: Clone + Debug + HasherBv<Self::H, Key<0>> + HasherBv<Self::H, Key<1>> + HasherBv<Self::H, Key<2>>;
    const NAME: &'static str;
}
macro_rules! cfgs {
    ($($n:ident $h:ty, $f:ty, $m:ty;)*) => { $(
        pub struct $n;
        impl Cfg for $n {
            type H = $h; type F = $f; type M = $m;
            type E = <$f as TryFrom<<$h as BitAnd>::Output>>::Error;
            const NAME: &'static str = concat!(stringify!($h), "/", stringify!($f), "/", stringify!($m));
        }
    )* };
}
cfgs! {
    Fnv64x32 u64, u32, Fnv;
    C64x32 u64, u32, Bits;
    C64x8 u64, u8, Bits;
    C64x16 u64, u16, Bits;
    C64x64 u64, u64, Bits;
    C64x128 u64, u128, Bits;
    C64xus u64, usize, Bits;
    C32x32 u32, u32, Bits;
    C32x8 u32, u8, Bits;
    C16x16 u16, u16, Bits;
    C16x32 u16, u32, Bits;
    C16x128 u16, u128, Bits;
    C8x8 u8, u8, Bits;
    C8x16 u8, u16, Bits;
    C128x64 u128, u64, Bits;
    C128x8 u128, u8, Bits;
    C128x16 u128, u16, Bits;
    C128x128 u128, u128, Bits;
    Cusx32 usize, u32, Bits;
}
pub const N_ALL: u8 = 19;
/// Every configuration: for point operations, which are cheap to compile.
#[macro_export]
macro_rules! with_cfg {
    ($i:expr, $C:ident => $e:expr) => {
        match $i % $crate::dict::N_ALL {
            0 => { type $C = $crate::dict::C64x32; $e }
            1 => { type $C = $crate::dict::C8x8; $e }
            2 => { type $C = $crate::dict::C16x16; $e }
            3 => { type $C = $crate::dict::C64x128; $e }
            4 => { type $C = $crate::dict::C64x8; $e }
            5 => { type $C = $crate::dict::Fnv64x32; $e }
            6 => { type $C = $crate::dict::C32x32; $e }
            7 => { type $C = $crate::dict::C64x64; $e }
            8 => { type $C = $crate::dict::C64x16; $e }
            9 => { type $C = $crate::dict::C64xus; $e }
            10 => { type $C = $crate::dict::C32x8; $e }
            11 => { type $C = $crate::dict::C16x32; $e }
            12 => { type $C = $crate::dict::C16x128; $e }
            13 => { type $C = $crate::dict::C8x16; $e }
            14 => { type $C = $crate::dict::C128x64; $e }
            15 => { type $C = $crate::dict::Cusx32; $e }
            16 => { type $C = $crate::dict::C128x8; $e }
            17 => { type $C = $crate::dict::C128x16; $e }
            _ => { type $C = $crate::dict::C128x128; $e }
        }
    };
}
pub const N_FEW: u8 = 6;
/// The configurations used where every one costs a lot of compile time.
#[macro_export]
macro_rules! with_few {
    ($i:expr, $C:ident => $e:expr) => {
        match $i % $crate::dict::N_FEW {
            0 => { type $C = $crate::dict::C64x32; $e }
            1 => { type $C = $crate::dict::C8x8; $e }
            2 => { type $C = $crate::dict::C16x16; $e }
            3 => { type $C = $crate::dict::C64x128; $e }
            4 => { type $C = $crate::dict::Fnv64x32; $e }
            _ => { type $C = $crate::dict::C128x8; $e }
        }
    };
}

pub type Map<C, const T: u8 = 0> = HashTrieMap<<C as Cfg>::H, <C as Cfg>::F, Key<T>, Val<T>, <C as Cfg>::M>;
pub type Set<C, const T: u8 = 0> = HashTrieSet<<C as Cfg>::H, <C as Cfg>::F, Key<T>, <C as Cfg>::M>;

// ---------------------------------------------------------------- reductions

/// A commutative, associative reduction with `default()` as identity: `sum` and `n` count every
/// contribution, `max` is idempotent and carries the constants of constant operations.
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Red {
    pub sum: u64,
    pub n: u64,
    pub max: u64,
}
impl Red {
    pub fn one(side: u64, id: u32) -> Red {
        Red { sum: mix(side << 40 | id as u64), n: 1, max: mix(id as u64 + side) % 1000 }
    }
    pub fn constant(c: u64) -> Red {
        Red { sum: 0, n: 0, max: c }
    }
    pub fn join(&self, o: &Red) -> Red {
        Red { sum: self.sum.wrapping_add(o.sum), n: self.n + o.n, max: self.max.max(o.max) }
    }
}
pub const CONST_BOTH: u64 = 1000;
pub const CONST_LEFT: u64 = 1001;
pub const CONST_RIGHT: u64 = 1002;

// ---------------------------------------------------------------- operation specifications

/// What an operation does to the entry with a given id.
pub const UNCH: u8 = 0; // keep (for pairs: keep either side)
pub const LEFT: u8 = 1;
pub const RIGHT: u8 = 2;
pub const TRANS: u8 = 3;
pub const REM: u8 = 4;

#[derive(Clone, Debug, Hash, PartialEq, Eq, Serialize, Deserialize)]
pub enum OpSpec {
    /// One of the constant variants, which the library may apply to whole subtries.
    Const(u8),
    /// A closure whose outcome depends on the key.
    Table(Vec<u8>),
    /// The same with the key's number seen through a shape.
    Shaped(Shape, Vec<u8>),
}
/// How a key's number picks an outcome.  In a universe with one wide node numbers follow the
/// node's children (and what is below them), so these outcomes go by subtree.
#[derive(Clone, Debug, Hash, PartialEq, Eq, Serialize, Deserialize)]
pub enum Shape {
    /// one outcome for each run of 2^n numbers
    Shift(u8),
    /// one outcome below, another from there on
    Cut(u8),
    /// one number is different from all others
    Only(u8),
}
impl OpSpec {
    pub fn kind(&self, id: u32) -> u8 {
        match self {
            OpSpec::Const(k) => *k,
            OpSpec::Table(t) => t[id as usize % t.len()],
            OpSpec::Shaped(s, t) => {
                let i = match s {
                    Shape::Shift(n) => id >> (*n & 7),
                    Shape::Cut(at) => (id >= *at as u32) as u32,
                    Shape::Only(at) => (id == *at as u32) as u32,
                };
                t[i as usize % t.len()]
            }
        }
    }
    pub fn kinds(&self) -> &[u8] {
        match self {
            OpSpec::Const(k) => std::slice::from_ref(k),
            OpSpec::Table(t) | OpSpec::Shaped(_, t) => t,
        }
    }
    pub fn with(&self, f: impl Fn(u8) -> u8) -> OpSpec {
        match self {
            OpSpec::Const(k) => OpSpec::Const(f(*k)),
            OpSpec::Table(t) => OpSpec::Table(t.iter().map(|k| f(*k)).collect()),
            OpSpec::Shaped(s, t) => OpSpec::Shaped(s.clone(), t.iter().map(|k| f(*k)).collect()),
        }
    }
    pub fn is_const(&self) -> bool {
        matches!(self, OpSpec::Const(_))
    }
}
/// The closure form of the same operation.
pub fn generic_form(s: &OpSpec) -> OpSpec {
    match s {
        OpSpec::Const(k) => OpSpec::Table(vec![*k]),
        t => t.clone(),
    }
}

/// Log of the calls the library makes to the closures: (side, id, tag, x, id2, tag2, x2).
pub type Call = (u8, u32, u32, u64, u32, u32, u64);
pub type Log = Arc<Mutex<Vec<Call>>>;
pub fn new_log() -> Log {
    Arc::new(Mutex::new(vec![]))
}
pub fn take_log(l: &Log) -> Vec<Call> {
    let mut v = std::mem::take(&mut *l.lock().unwrap_or_else(|e| e.into_inner()));
    v.sort();
    v
}
pub fn note(l: &Log, c: Call) {
    l.lock().unwrap_or_else(|e| e.into_inner()).push(c)
}

pub fn new_x(side: u64, id: u32, a: u64, b: u64) -> u64 {
    mix(mix(side << 32 | id as u64) ^ mix(a) ^ mix(b ^ 0x55)) % 1_000_000
}

// ---------------------------------------------------------------- maps and sets with one face

pub struct Inserted<'a, D> {
    pub new: D,
    pub kp: *const Key<0>,
    pub vp: Option<*const Val<0>>,
    pub prev: Option<(&'a Key<0>, Option<&'a Val<0>>)>,
}

pub trait Dict: Sized + Clone + Default + PartialEq + Debug + Send + Sync + 'static {
    const MAP: bool;
    /// Width of the hash word in bits.
    fn w() -> u32;
    /// Hash bits consumed per level.
    fn step() -> u32;
    fn fresh() -> Self;
    fn size(&self) -> usize;
    fn find(&self, k: &Key<0>) -> Option<(&Key<0>, Option<&Val<0>>)>;
    fn find_alien(&self, k: &Key<1>) -> Option<(&Key<0>, Option<&Val<0>>)>;
    fn insert(&self, k: Key<0>, v: Val<0>, replace: bool) -> Result<Inserted<'_, Self>, (&Key<0>, Option<&Val<0>>)>;
    fn insert_alien(&self, k: Key<1>, v: Val<1>, replace: bool) -> Result<Inserted<'_, Self>, (&Key<0>, Option<&Val<0>>)>;
    #[allow(clippy::type_complexity)]
    fn remove(&self, k: &Key<0>) -> Option<(Self, &Key<0>, Option<&Val<0>>)>;
    fn remove_alien(&self, k: &Key<1>) -> Option<(Self, &Key<0>, Option<&Val<0>>)>;
    fn visit(&self, f: impl Fn(&Key<0>, Option<&Val<0>>) + Clone);
}

/// The bulk operations, kept apart because they are expensive to compile.
pub trait Bulky: Dict {
    fn transform(&self, op: &OpSpec, log: &Log, par: ParallelismStrategy) -> (Self, Red);
    fn join(&self, right: &Self, both: &OpSpec, flip: bool, left: &OpSpec, right_op: &OpSpec, log: &Log, par: ParallelismStrategy) -> (Self, Red);
}

fn nf<T>(r: Result<T, HashTrieError>) -> Option<T> {
    match r {
        Ok(t) => Some(t),
        Err(HashTrieError::NotFound) => None,
    }
}

pub fn red(a: &Red, b: &Red) -> Red {
    a.join(b)
}

impl<H: Hashword, F: Flagword<H>, M: HasherBv<H, Key<0>> + HasherBv<H, Key<1>> + Clone + Debug> Dict for HashTrieMap<H, F, Key<0>, Val<0>, M>
where
    <F as TryFrom<<H as BitAnd>::Output>>::Error: Debug,
{
    const MAP: bool = true;
    fn w() -> u32 {
        (H::max_ones() as u32).min(128)
    }
    fn step() -> u32 {
        F::log_b() as u32
    }
    fn fresh() -> Self {
        Self::new()
    }
    fn size(&self) -> usize {
        HashTrieMap::size(self)
    }
    fn find(&self, k: &Key<0>) -> Option<(&Key<0>, Option<&Val<0>>)> {
        nf(HashTrieMap::find(self, k)).map(|(k, v)| (k, Some(v)))
    }
    fn find_alien(&self, k: &Key<1>) -> Option<(&Key<0>, Option<&Val<0>>)> {
        nf(HashTrieMap::find(self, k)).map(|(k, v)| (k, Some(v)))
    }
    fn insert(&self, k: Key<0>, v: Val<0>, replace: bool) -> Result<Inserted<'_, Self>, (&Key<0>, Option<&Val<0>>)> {
        HashTrieMap::insert(self, k, v, replace)
            .map(|(new, kp, vp, prev)| Inserted { new, kp, vp: Some(vp), prev: prev.map(|(k, v)| (k, Some(v))) })
            .map_err(|(k, v)| (k, Some(v)))
    }
    fn insert_alien(&self, k: Key<1>, v: Val<1>, replace: bool) -> Result<Inserted<'_, Self>, (&Key<0>, Option<&Val<0>>)> {
        HashTrieMap::insert(self, k, v, replace)
            .map(|(new, kp, vp, prev)| Inserted { new, kp, vp: Some(vp), prev: prev.map(|(k, v)| (k, Some(v))) })
            .map_err(|(k, v)| (k, Some(v)))
    }
    fn remove(&self, k: &Key<0>) -> Option<(Self, &Key<0>, Option<&Val<0>>)> {
        nf(HashTrieMap::remove(self, k)).map(|(n, k, v)| (n, k, Some(v)))
    }
    fn remove_alien(&self, k: &Key<1>) -> Option<(Self, &Key<0>, Option<&Val<0>>)> {
        nf(HashTrieMap::remove(self, k)).map(|(n, k, v)| (n, k, Some(v)))
    }
    fn visit(&self, f: impl Fn(&Key<0>, Option<&Val<0>>) + Clone) {
        HashTrieMap::visit(self, move |k, v| f(k, Some(v)))
    }
}

impl<H: Hashword, F: Flagword<H>, M: HasherBv<H, Key<0>> + HasherBv<H, Key<1>> + Clone + Debug> Bulky for HashTrieMap<H, F, Key<0>, Val<0>, M>
where
    <F as TryFrom<<H as BitAnd>::Output>>::Error: Debug,
{
    fn transform(&self, op: &OpSpec, log: &Log, par: ParallelismStrategy) -> (Self, Red) {
        block_on(HashTrieMap::transform(self, red, map_op::<0>(op, 1, CONST_LEFT, log), par))
    }
    fn join(&self, right: &Self, both: &OpSpec, flip: bool, left: &OpSpec, right_op: &OpSpec, log: &Log, par: ParallelismStrategy) -> (Self, Red) {
        let b = map_joint(both, flip, log);
        block_on(self.transform_with_transformed(
            right,
            red,
            b,
            map_op::<0>(left, 1, CONST_LEFT, log),
            map_op::<0>(right_op, 2, CONST_RIGHT, log),
            par,
        ))
    }
}

pub type KV<'a, const T: u8> = (&'a Key<T>, &'a Val<T>);

/// A one-sided operation on map entries; `side` is 1 for left, 2 for right.
pub fn map_op<const T: u8>(
    op: &OpSpec,
    side: u8,
    konst: u64,
    log: &Log,
) -> MapTransform<Red, impl Fn(&Key<T>, &Val<T>) -> MapTransformResult<Val<T>, Red> + Clone + Send + Sync> {
    match op {
        OpSpec::Const(REM) => MapTransform::Removed(Red::constant(konst)),
        OpSpec::Const(_) => MapTransform::Unchanged(Red::constant(konst)),
        _ => {
            let (op, log) = (op.clone(), log.clone());
            new_map_transform_generic(move |k: &Key<T>, v: &Val<T>| {
                k.touch();
                v.touch();
                k.ctx().tick();
                note(&log, (side, k.id, k.tag, v.x, 0, 0, 0));
                let r = Red::one(side as u64, k.id);
                match op.kind(k.id) {
                    TRANS => MapTransformResult::Transformed(Val::new(v.ctx(), new_x(side as u64, k.id, v.x, 0)), r),
                    REM => MapTransformResult::Removed(r),
                    _ => MapTransformResult::Unchanged(r),
                }
            })
        }
    }
}

/// A joint operation on map entries.  With `flip` the operation is written for the reversed
/// argument order and handed over through `flip()`, which must make no difference.
pub fn map_joint(
    op: &OpSpec,
    flip: bool,
    log: &Log,
) -> MapJointTransform<Red, impl Fn(&Key<0>, &Val<0>, &Key<0>, &Val<0>) -> MapJointTransformResult<Val<0>, Red> + Clone + Send + Sync> {
    let c = Red::constant(CONST_BOTH);
    match op {
        OpSpec::Const(k) => {
            let m = match if flip && (*k == LEFT || *k == RIGHT) { 3 - *k } else { *k } {
                UNCH => MapJointTransform::UnchangedLR(c),
                LEFT => MapJointTransform::UnchangedL(c),
                RIGHT => MapJointTransform::UnchangedR(c),
                _ => MapJointTransform::Removed(c),
            };
            if flip {
                m.flip()
            } else {
                m
            }
        }
        _ => {
            let (op, log) = (op.clone(), log.clone());
            let m = new_map_joint_transform_generic(move |a: &Key<0>, av: &Val<0>, b: &Key<0>, bv: &Val<0>| {
                let (k, v, l, w) = if flip { (b, bv, a, av) } else { (a, av, b, bv) };
                k.touch();
                v.touch();
                l.touch();
                w.touch();
                k.ctx().tick();
                note(&log, (0, k.id, k.tag, v.x, l.id, l.tag, w.x));
                let r = Red::one(0, k.id);
                let kind = op.kind(k.id);
                match if flip && (kind == LEFT || kind == RIGHT) { 3 - kind } else { kind } {
                    UNCH => MapJointTransformResult::UnchangedLR(r),
                    LEFT => MapJointTransformResult::UnchangedL(r),
                    RIGHT => MapJointTransformResult::UnchangedR(r),
                    TRANS => MapJointTransformResult::Transformed(Val::new(v.ctx(), new_x(0, k.id, v.x, w.x)), r),
                    _ => MapJointTransformResult::Removed(r),
                }
            });
            if flip {
                m.flip()
            } else {
                m
            }
        }
    }
}

impl<H: Hashword, F: Flagword<H>, M: HasherBv<H, Key<0>> + HasherBv<H, Key<1>> + Clone + Debug> Dict for HashTrieSet<H, F, Key<0>, M>
where
    <F as TryFrom<<H as BitAnd>::Output>>::Error: Debug,
{
    const MAP: bool = false;
    fn w() -> u32 {
        (H::max_ones() as u32).min(128)
    }
    fn step() -> u32 {
        F::log_b() as u32
    }
    fn fresh() -> Self {
        Self::new()
    }
    fn size(&self) -> usize {
        HashTrieSet::size(self)
    }
    fn find(&self, k: &Key<0>) -> Option<(&Key<0>, Option<&Val<0>>)> {
        nf(HashTrieSet::find(self, k)).map(|k| (k, None))
    }
    fn find_alien(&self, k: &Key<1>) -> Option<(&Key<0>, Option<&Val<0>>)> {
        nf(HashTrieSet::find(self, k)).map(|k| (k, None))
    }
    fn insert(&self, k: Key<0>, _v: Val<0>, replace: bool) -> Result<Inserted<'_, Self>, (&Key<0>, Option<&Val<0>>)> {
        HashTrieSet::insert(self, k, replace)
            .map(|(new, kp, prev)| Inserted { new, kp, vp: None, prev: prev.map(|k| (k, None)) })
            .map_err(|k| (k, None))
    }
    fn insert_alien(&self, k: Key<1>, _v: Val<1>, replace: bool) -> Result<Inserted<'_, Self>, (&Key<0>, Option<&Val<0>>)> {
        HashTrieSet::insert(self, k, replace)
            .map(|(new, kp, prev)| Inserted { new, kp, vp: None, prev: prev.map(|k| (k, None)) })
            .map_err(|k| (k, None))
    }
    fn remove(&self, k: &Key<0>) -> Option<(Self, &Key<0>, Option<&Val<0>>)> {
        nf(HashTrieSet::remove(self, k)).map(|(n, k)| (n, k, None))
    }
    fn remove_alien(&self, k: &Key<1>) -> Option<(Self, &Key<0>, Option<&Val<0>>)> {
        nf(HashTrieSet::remove(self, k)).map(|(n, k)| (n, k, None))
    }
    fn visit(&self, f: impl Fn(&Key<0>, Option<&Val<0>>) + Clone) {
        HashTrieSet::visit(self, move |k| f(k, None))
    }
}

impl<H: Hashword, F: Flagword<H>, M: HasherBv<H, Key<0>> + HasherBv<H, Key<1>> + Clone + Debug> Bulky for HashTrieSet<H, F, Key<0>, M>
where
    <F as TryFrom<<H as BitAnd>::Output>>::Error: Debug,
{
    fn transform(&self, op: &OpSpec, log: &Log, par: ParallelismStrategy) -> (Self, Red) {
        block_on(HashTrieSet::transform(self, red, set_op::<0>(op, 1, CONST_LEFT, log), par))
    }
    fn join(&self, right: &Self, both: &OpSpec, flip: bool, left: &OpSpec, right_op: &OpSpec, log: &Log, par: ParallelismStrategy) -> (Self, Red) {
        block_on(self.transform_with_transformed(
            right,
            red,
            set_joint(both, flip, log),
            set_op::<0>(left, 1, CONST_LEFT, log),
            set_op::<0>(right_op, 2, CONST_RIGHT, log),
            par,
        ))
    }
}

pub fn set_op<const T: u8>(
    op: &OpSpec,
    side: u8,
    konst: u64,
    log: &Log,
) -> SetTransform<Red, impl Fn(&Key<T>) -> SetTransformResult<Red> + Clone + Send + Sync> {
    match op {
        OpSpec::Const(REM) => SetTransform::Removed(Red::constant(konst)),
        OpSpec::Const(_) => SetTransform::Unchanged(Red::constant(konst)),
        _ => {
            let (op, log) = (op.clone(), log.clone());
            new_set_transform_generic(move |k: &Key<T>| {
                k.touch();
                k.ctx().tick();
                note(&log, (side, k.id, k.tag, 0, 0, 0, 0));
                let r = Red::one(side as u64, k.id);
                match op.kind(k.id) {
                    REM => SetTransformResult::Removed(r),
                    _ => SetTransformResult::Unchanged(r),
                }
            })
        }
    }
}
pub fn set_joint(
    op: &OpSpec,
    flip: bool,
    log: &Log,
) -> SetJointTransform<Red, impl Fn(&Key<0>, &Key<0>) -> SetJointTransformResult<Red> + Clone + Send + Sync> {
    let c = Red::constant(CONST_BOTH);
    match op {
        OpSpec::Const(k) => {
            let m = match if flip && (*k == LEFT || *k == RIGHT) { 3 - *k } else { *k } {
                UNCH => SetJointTransform::UnchangedLR(c),
                LEFT => SetJointTransform::UnchangedL(c),
                RIGHT => SetJointTransform::UnchangedR(c),
                _ => SetJointTransform::Removed(c),
            };
            if flip {
                m.flip()
            } else {
                m
            }
        }
        _ => {
            let (op, log) = (op.clone(), log.clone());
            let m = new_set_joint_transform_generic(move |a: &Key<0>, b: &Key<0>| {
                let (k, l) = if flip { (b, a) } else { (a, b) };
                k.touch();
                l.touch();
                k.ctx().tick();
                note(&log, (0, k.id, k.tag, 0, l.id, l.tag, 0));
                let r = Red::one(0, k.id);
                let kind = op.kind(k.id);
                match if flip && (kind == LEFT || kind == RIGHT) { 3 - kind } else { kind } {
                    UNCH | TRANS => SetJointTransformResult::UnchangedLR(r),
                    LEFT => SetJointTransformResult::UnchangedL(r),
                    RIGHT => SetJointTransformResult::UnchangedR(r),
                    _ => SetJointTransformResult::Removed(r),
                }
            });
            if flip {
                m.flip()
            } else {
                m
            }
        }
    }
}
