//! Every bulk operation of maps and sets behind one call, for the properties that compare runs of
//! the same operation (strategies, variants, threads, faults) rather than check its contents.
use crate::dict::*;
use crate::gens::*;
use crate::hist::*;
use crate::pairs::*;
use crate::probe::*;
use crate::exec::block_on;
use hash_trie::HashTrieMap;
use std::any::Any;
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Which {
    Transform,
    Join,
    Transmute,
    FormWithMute,
    MuteWithForm,
    FormWithFute,
    FuteWithForm,
    MuteWithMute,
}
use Which::*;
pub const MAP_OPS: [Which; 8] = [Join, Transform, Transmute, FormWithMute, MuteWithForm, FormWithFute, FuteWithForm, MuteWithMute];
pub const SET_OPS: [Which; 6] = [Join, Transform, Transmute, FormWithMute, MuteWithForm, MuteWithMute];
impl Which {
    pub fn of(map: bool, v: u8) -> Which {
        if map {
            MAP_OPS[v as usize % MAP_OPS.len()]
        } else {
            SET_OPS[v as usize % SET_OPS.len()]
        }
    }
    pub fn asynchronous(self) -> bool {
        !matches!(self, Transmute | MuteWithMute)
    }
}

/// The operations to perform, by their role.
#[derive(Clone, Debug)]
pub struct Ops {
    pub both: OpSpec,
    pub left: OpSpec,
    pub right: OpSpec,
    pub flip: bool,
    pub par: bool,
}
impl Ops {
    pub fn of(p: &Pair, w: Which) -> Ops {
        let (both, left, right) = match w {
            Join | Transform => (&p.bulk.both, &p.bulk.one, &p.bulk.right),
            Transmute => (&p.mute3, &p.mute, &p.mute2),
            FormWithMute | FormWithFute => (&p.bulk.both, &p.bulk.one, &p.mute),
            MuteWithForm | FuteWithForm => (&p.bulk.both, &p.mute, &p.bulk.right),
            MuteWithMute => (&p.mute3, &p.mute, &p.mute2),
        };
        Ops { both: both.clone(), left: left.clone(), right: right.clone(), flip: p.bulk.flip, par: p.bulk.par }
    }
}

/// What a bulk operation made.
pub struct Made {
    pub size: usize,
    pub entries: Vec<(u32, u32, u64)>,
    pub addr: Addr,
    pub red: Red,
    /// the container itself
    pub keep: Box<dyn Any + Send + Sync>,
}
impl Made {
    pub fn model(&self) -> Result<Model, String> {
        let m: Model = self.entries.iter().map(|(i, t, x)| (*i, (*t, *x))).collect();
        crate::ensure!(m.len() == self.entries.len(), "visit reports a key twice");
        crate::ensure!(m.len() == self.size, "size is {} but visit shows {} entries", self.size, m.len());
        Ok(m)
    }
}

macro_rules! made_map {
    ($d:expr, $red:expr) => {{
        let d = $d;
        let seen: Mutex<(Vec<(u32, u32, u64)>, Addr)> = Mutex::new(Default::default());
        d.visit(|k, v| {
            k.touch();
            v.touch();
            let mut s = seen.lock().unwrap();
            s.0.push((k.id, k.tag, v.x));
            s.1.insert(k.id, (k as *const _ as usize, v as *const _ as usize));
            assert!(s.0.len() < 3_000_000, "visit does not end");
        });
        let (entries, addr) = seen.into_inner().unwrap();
        Made { size: d.size(), entries, addr, red: $red, keep: Box::new(d) }
    }};
}
macro_rules! made_set {
    ($d:expr, $red:expr) => {{
        let d = $d;
        let seen: Mutex<(Vec<(u32, u32, u64)>, Addr)> = Mutex::new(Default::default());
        d.visit(|k| {
            k.touch();
            let mut s = seen.lock().unwrap();
            s.0.push((k.id, k.tag, 0));
            s.1.insert(k.id, (k as *const _ as usize, 0));
            assert!(s.0.len() < 3_000_000, "visit does not end");
        });
        let (entries, addr) = seen.into_inner().unwrap();
        Made { size: d.size(), entries, addr, red: $red, keep: Box::new(d) }
    }};
}

type MapKV<C, const K: u8, const V: u8> = HashTrieMap<<C as Cfg>::H, <C as Cfg>::F, Key<K>, Val<V>, <C as Cfg>::M>;
/// The right-hand container, of the type the operation asks for.
pub enum MapRight<C: Cfg> {
    None,
    Same(Map<C>),
    Other(Map<C, 1>),
    Fute(MapKV<C, 0, 1>),
}
pub struct MapIn<C: Cfg> {
    pub which: Which,
    pub l: Map<C>,
    pub lm: Model,
    pub r: MapRight<C>,
    pub rm: Model,
}
impl<C: Cfg> MapIn<C> {
    pub fn new(p: &Pair, which: Which, ctx: &Arc<Ctx>) -> Result<Self, String> {
        if which == Join {
            let (l, lm, r, rm) = build_pair::<Map<C>>(p, ctx);
            return Ok(MapIn { which, l, lm, r: MapRight::Same(r), rm });
        }
        let (l, lm) = build_map0::<C>(&p.start(), &p.left, &p.uni, ctx, 1)?;
        let (r, rm) = match which {
            FormWithMute | MuteWithForm | MuteWithMute => {
                let (r, rm) = build_map1::<C>(&p.again(), &p.right, &p.uni, ctx, RIGHT_TAGS)?;
                (MapRight::Other(r), rm)
            }
            FormWithFute | FuteWithForm => {
                let (r, rm) = build_map01::<C>(&p.again(), &p.right, &p.uni, ctx, RIGHT_TAGS)?;
                (MapRight::Fute(r), rm)
            }
            _ => (MapRight::None, Model::new()),
        };
        Ok(MapIn { which, l, lm, r, rm })
    }
    pub fn run(&self, o: &Ops, log: &Log) -> Made {
        let par = strat(o.par);
        let l = &self.l;
        match (self.which, &self.r) {
            (Transform, _) => {
                let (d, r) = Bulky::transform(l, &o.left, log, par);
                made_map!(d, r)
            }
            (Join, MapRight::Same(r)) => {
                let (d, r) = l.join(r, &o.both, o.flip, &o.left, &o.right, log, par);
                made_map!(d, r)
            }
            (Transmute, _) => {
                let (d, r): (Map<C, 1>, Red) = unsafe { l.transmute(red, map_mute::<0, 1>(&o.left, 1, CONST_LEFT, log)) };
                made_map!(d, r)
            }
            (FormWithMute, MapRight::Other(r)) => {
                let (d, r) = block_on(unsafe { l.transform_with_transmuted(r, red, map_both::<0, 0, 1, 1, 0>(&o.both, log), map_op_kv::<0, 0>(&o.left, 1, CONST_LEFT, log), map_mute::<1, 0>(&o.right, 2, CONST_RIGHT, log), par) });
                made_map!(d, r)
            }
            (MuteWithForm, MapRight::Other(r)) => {
                let (d, r) = block_on(unsafe { l.transmute_with_transformed(r, red, map_both::<0, 0, 1, 1, 1>(&o.both, log), map_mute::<0, 1>(&o.left, 1, CONST_LEFT, log), map_op_kv::<1, 1>(&o.right, 2, CONST_RIGHT, log), par) });
                made_map!(d, r)
            }
            (FormWithFute, MapRight::Fute(r)) => {
                let (d, r) = block_on(l.transform_with_transfuted(r, red, map_both::<0, 0, 0, 1, 0>(&o.both, log), map_op_kv::<0, 0>(&o.left, 1, CONST_LEFT, log), map_fute::<1, 0>(&o.right, 2, CONST_RIGHT, log), par));
                made_map!(d, r)
            }
            (FuteWithForm, MapRight::Fute(r)) => {
                let (d, r) = block_on(l.transfute_with_transformed(r, red, map_both::<0, 0, 0, 1, 1>(&o.both, log), map_fute::<0, 1>(&o.left, 1, CONST_LEFT, log), map_op_kv::<0, 1>(&o.right, 2, CONST_RIGHT, log), par));
                made_map!(d, r)
            }
            (MuteWithMute, MapRight::Other(r)) => {
                let (d, r): (Map<C, 2>, Red) = unsafe { l.transmute_with_transmuted(r, red, map_both_mute(&o.both, log), map_mute::<0, 2>(&o.left, 1, CONST_LEFT, log), map_mute::<1, 2>(&o.right, 2, CONST_RIGHT, log)) };
                made_map!(d, r)
            }
            _ => unreachable!(),
        }
    }
    pub fn left_now(&self) -> Made {
        made_map!(self.l.clone(), Red::default())
    }
    pub fn right_now(&self) -> Made {
        match &self.r {
            MapRight::None => made_map!(Map::<C>::new(), Red::default()),
            MapRight::Same(r) => made_map!(r.clone(), Red::default()),
            MapRight::Other(r) => made_map!(r.clone(), Red::default()),
            MapRight::Fute(r) => made_map!(r.clone(), Red::default()),
        }
    }
}

pub enum SetRight<C: Cfg> {
    None,
    Same(Set<C>),
    Other(Set<C, 1>),
}
pub struct SetIn<C: Cfg> {
    pub which: Which,
    pub l: Set<C>,
    pub lm: Model,
    pub r: SetRight<C>,
    pub rm: Model,
}
impl<C: Cfg> SetIn<C> {
    pub fn new(p: &Pair, which: Which, ctx: &Arc<Ctx>) -> Result<Self, String> {
        if which == Join {
            let (l, lm, r, rm) = build_pair::<Set<C>>(p, ctx);
            return Ok(SetIn { which, l, lm, r: SetRight::Same(r), rm });
        }
        let (l, lm) = build_set0::<C>(&p.start(), &p.left, &p.uni, ctx, 1)?;
        let (r, rm) = match which {
            FormWithMute | MuteWithForm | MuteWithMute => {
                let (r, rm) = build_set1::<C>(&p.again(), &p.right, &p.uni, ctx, RIGHT_TAGS)?;
                (SetRight::Other(r), rm)
            }
            _ => (SetRight::None, Model::new()),
        };
        Ok(SetIn { which, l, lm, r, rm })
    }
    pub fn run(&self, o: &Ops, log: &Log) -> Made {
        let par = strat(o.par);
        let l = &self.l;
        match (self.which, &self.r) {
            (Transform, _) => {
                let (d, r) = Bulky::transform(l, &o.left, log, par);
                made_set!(d, r)
            }
            (Join, SetRight::Same(r)) => {
                let (d, r) = l.join(r, &o.both, o.flip, &o.left, &o.right, log, par);
                made_set!(d, r)
            }
            (FormWithMute, SetRight::Other(r)) => {
                let (d, r) = block_on(unsafe { l.transform_with_transmuted(r, red, set_both(&o.both, log), set_op::<0>(&o.left, 1, CONST_LEFT, log), set_mute::<1, 0>(&o.right, 2, CONST_RIGHT, log), par) });
                made_set!(d, r)
            }
            (MuteWithForm, SetRight::Other(r)) => {
                let (d, r) = block_on(unsafe { l.transmute_with_transformed(r, red, set_both(&o.both, log), set_mute::<0, 1>(&o.left, 1, CONST_LEFT, log), set_op::<1>(&o.right, 2, CONST_RIGHT, log), par) });
                made_set!(d, r)
            }
            (MuteWithMute, SetRight::Other(r)) => {
                let (d, r): (Set<C, 2>, Red) = unsafe { l.transmute_with_transmuted(r, red, set_both_mute(&o.both, log), set_mute::<0, 2>(&o.left, 1, CONST_LEFT, log), set_mute::<1, 2>(&o.right, 2, CONST_RIGHT, log)) };
                made_set!(d, r)
            }
            _ => {
                let (d, r): (Set<C, 1>, Red) = unsafe { l.transmute(red, set_mute::<0, 1>(&o.left, 1, CONST_LEFT, log)) };
                made_set!(d, r)
            }
        }
    }
    pub fn left_now(&self) -> Made {
        made_set!(self.l.clone(), Red::default())
    }
    pub fn right_now(&self) -> Made {
        match &self.r {
            SetRight::None => made_set!(Set::<C>::new(), Red::default()),
            SetRight::Same(r) => made_set!(r.clone(), Red::default()),
            SetRight::Other(r) => made_set!(r.clone(), Red::default()),
        }
    }
}

/// A map or set with a bulk operation to run on it.
pub trait Inputs: Send + Sync + Sized + 'static {
    fn build(p: &Pair, which: Which, ctx: &Arc<Ctx>) -> Result<Self, String>;
    fn run(&self, o: &Ops, log: &Log) -> Made;
    fn left_now(&self) -> Made;
    fn right_now(&self) -> Made;
    fn models(&self) -> (&Model, &Model);
    fn width() -> u32;
    fn map() -> bool;
}
macro_rules! inputs {
    ($t:ident, $m:literal) => {
        impl<C: Cfg> Inputs for $t<C> {
            fn build(p: &Pair, which: Which, ctx: &Arc<Ctx>) -> Result<Self, String> {
                Self::new(p, which, ctx)
            }
            fn run(&self, o: &Ops, log: &Log) -> Made {
                $t::run(self, o, log)
            }
            fn left_now(&self) -> Made {
                $t::left_now(self)
            }
            fn right_now(&self) -> Made {
                $t::right_now(self)
            }
            fn models(&self) -> (&Model, &Model) {
                (&self.lm, &self.rm)
            }
            fn width() -> u32 {
                <C::H as hash_trie::traits::MaxOnes>::max_ones() as u32
            }
            fn map() -> bool {
                $m
            }
        }
    };
}
inputs!(MapIn, true);
inputs!(SetIn, false);

/// Joins may keep either side's entry, and either side's key where a value is transformed: ask for
/// the left entry and compare ids and values only.
pub fn settle(op: &OpSpec) -> OpSpec {
    op.with(|k| if k == UNCH { LEFT } else { k })
}
pub fn has(op: &OpSpec, kind: u8) -> bool {
    op.kinds().contains(&kind)
}

pub const N_THREE: u8 = 3;
#[macro_export]
macro_rules! with_three {
    ($i:expr, $C:ident => $e:expr) => {
        match $i % $crate::bulk::N_THREE {
            0 => { type $C = $crate::dict::C64x32; $e }
            1 => { type $C = $crate::dict::C8x8; $e }
            _ => { type $C = $crate::dict::C64x128; $e }
        }
    };
}
