//! The reference model and the driver that runs histories of operations against it.
use crate::dict::*;
use crate::engine::{guarded, Info, ALLOCS};
use crate::gens::*;
use crate::probe::*;
use hash_trie::ParallelismStrategy;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::sync::atomic::Ordering::Relaxed;
use std::sync::{Arc, Mutex};

/// id -> (tag of the stored key, value).  Sets store value 0.
pub type Model = BTreeMap<u32, (u32, u64)>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}

/// What the container shows through visit, as id -> (tag, x); an entry visited twice is an error.
pub fn visited<D: Dict>(d: &D) -> Result<Model, String> {
    let seen: Mutex<Vec<(u32, u32, u64)>> = Mutex::new(vec![]);
    {
        let s = &seen;
        d.visit(move |k, v| {
            k.touch();
            if let Some(v) = v {
                v.touch();
            }
            s.lock().unwrap().push((k.id, k.tag, v.map_or(0, |v| v.x)));
            if s.lock().unwrap().len() > 1_000_000 {
                panic!("visit does not end");
            }
        });
    }
    let mut m = Model::new();
    for (id, tag, x) in seen.into_inner().unwrap() {
        ensure!(m.insert(id, (tag, x)).is_none(), "visit reports key {id} twice");
    }
    Ok(m)
}

pub fn show(m: &Model) -> String {
    let v: Vec<String> = m.iter().take(40).map(|(k, (t, x))| format!("{k}#{t}={x}")).collect();
    format!("{{{}}}", v.join(", "))
}

/// The container shows exactly the model through size, visit and find.
pub fn same<D: Dict>(d: &D, m: &Model, uni: &Uni, ctx: &Arc<Ctx>) -> Result<(), String> {
    ensure!(d.size() == m.len(), "size is {}, but the model holds {}", d.size(), m.len());
    let v = visited(d)?;
    ensure!(&v == m, "visit shows {}, but the model holds {}", show(&v), show(m));
    for id in 0..uni.len() as u32 {
        let k = uni.key::<0>(ctx, id, 9_999_999, D::w());
        lookup(d, m, id, &k)?;
    }
    Ok(())
}
pub fn lookup<D: Dict>(d: &D, m: &Model, id: u32, k: &Key<0>) -> Result<(), String> {
    match (d.find(k), m.get(&id)) {
        (None, None) => Ok(()),
        (Some((fk, fv)), Some(&(tag, x))) => {
            fk.touch();
            ensure!(fk.id == id && fk.tag == tag && fv.map_or(0, |v| v.x) == x, "find({id}) shows {fk:?}={fv:?}, but the model holds #{tag}={x}");
            Ok(())
        }
        (a, b) => Err(format!("find({id}) is {:?}, but the model has {:?}", a.map(|a| (a.0.tag, a.1.map_or(0, |v| v.x))), b)),
    }
}

/// Take the container apart and put a bit back: a well-formed container survives this.
pub fn drain<D: Dict>(d: &D, m: &Model, uni: &Uni, ctx: &Arc<Ctx>) -> Result<(), String> {
    let mut d = d.clone();
    let mut m = m.clone();
    // An absent key goes in and comes out again.
    if let Some(id) = (0..uni.len() as u32).find(|i| !m.contains_key(i)) {
        let r = d.insert(uni.key(ctx, id, 77, D::w()), Val::new(ctx, 5), false);
        match r {
            Err(_) => return Err(format!("inserting absent key {id} is refused")),
            Ok(i) => {
                let mut m2 = m.clone();
                m2.insert(id, (77, if D::MAP { 5 } else { 0 }));
                same(&i.new, &m2, uni, ctx).map_err(|e| format!("after inserting absent key {id}: {e}"))?;
            }
        }
    }
    let mut ids: Vec<u32> = m.keys().copied().collect();
    ids.sort_by_key(|i| crate::engine::mix(*i as u64));
    let n = ids.len();
    for (j, id) in ids.into_iter().enumerate() {
        let k = uni.key::<0>(ctx, id, 0, D::w());
        let (tag, x) = m.remove(&id).unwrap();
        let new = match d.remove(&k) {
            None => return Err(format!("present key {id} cannot be removed")),
            Some((new, rk, rv)) => {
                ensure!(rk.id == id && rk.tag == tag && rv.map_or(0, |v| v.x) == x, "remove({id}) hands back {rk:?}={rv:?} instead of #{tag}={x}");
                new
            }
        };
        d = new;
        ensure!(d.size() == m.len(), "after removing key {id} the size is {} instead of {}", d.size(), m.len());
        if n <= 24 || j % (n / 4).clamp(16, 20_000) == 0 {
            let v = visited(&d)?;
            ensure!(v == m, "after removing key {id} visit shows {} instead of {}", show(&v), show(&m));
        }
    }
    ensure!(d.size() == 0 && visited(&d)?.is_empty(), "the container is not empty after every key was removed");
    Ok(())
}

// ---------------------------------------------------------------- histories

#[derive(Clone, Copy, Debug, Hash, PartialEq, Eq, Serialize, Deserialize)]
pub enum Kind {
    Insert,
    Replace,
    Remove,
    Find,
    Clone,
    /// Forget a version.
    Forget,
    Transform,
    Join,
    /// Insert (remove) a run of keys at once.
    Fill,
    Thin,
}
#[derive(Clone, Debug, Hash, PartialEq, Eq, Serialize, Deserialize)]
pub struct Op {
    pub kind: Kind,
    pub k: u16,
    /// 0: the latest version; otherwise any live version
    pub src: u8,
    /// index into the case's bulk operations, or the right-hand version of a join
    pub b: u8,
}
#[derive(Clone, Debug, Hash, PartialEq, Eq, Serialize, Deserialize)]
pub struct Bulk {
    pub one: OpSpec,
    pub both: OpSpec,
    pub right: OpSpec,
    pub par: bool,
    pub flip: bool,
}
#[derive(Clone, Debug, Hash, PartialEq, Eq, Serialize, Deserialize)]
pub struct Hist {
    pub cfg: u8,
    pub map: bool,
    pub uni: Uni,
    /// The least a `Fill` inserts when it comes first.
    #[serde(default)]
    pub fill: u32,
    /// Only so many of the latest versions stay alive, so that the memory of the others is used
    /// again; 0: all of them.
    #[serde(default)]
    pub keep: u8,
    pub ops: Vec<Op>,
    pub bulk: Vec<Bulk>,
}

pub fn bulk() -> impl Strategy<Value = Bulk> {
    (one_op(), joint_op(), one_op(), any::<bool>(), any::<bool>()).prop_map(|(one, both, right, par, flip)| Bulk { one, both, right, par, flip })
}
#[derive(Clone, Copy)]
pub struct HistCfg {
    pub cfgs: u8,
    pub maps: Option<bool>,
    pub keys: usize,
    pub ops: usize,
    pub branch: bool,
    pub forget: bool,
    pub bulk: bool,
}
pub fn hist(c: HistCfg) -> BoxedStrategy<Hist> {
    let kinds = move || {
        let mut v = vec![(8u32, Just(Kind::Insert).boxed()), (4, Just(Kind::Replace).boxed()), (7, Just(Kind::Remove).boxed()), (1, Just(Kind::Find).boxed()), (1, Just(Kind::Clone).boxed()), (1, Just(Kind::Fill).boxed()), (1, Just(Kind::Thin).boxed())];
        if c.forget {
            v.push((3, Just(Kind::Forget).boxed()));
        }
        if c.bulk {
            v.push((2, Just(Kind::Transform).boxed()));
            v.push((3, Just(Kind::Join).boxed()));
        }
        proptest::strategy::Union::new_weighted(v)
    };
    let src = move || -> BoxedStrategy<u8> {
        if c.branch {
            prop_oneof![3 => Just(0u8), 2 => any::<u8>()].boxed()
        } else {
            Just(0u8).boxed()
        }
    };
    let op = (kinds(), any::<u16>(), src(), any::<u8>()).prop_map(|(kind, k, src, b)| Op { kind, k, src, b });
    let start = prop_oneof![3 => Just(None), 1 => any::<u8>().prop_map(Some)];
    // A block of inserts first, so that short histories do not spend themselves on empty containers.
    let fill = (start, vec((any::<u16>(), any::<u8>()), 0..=(c.keys.min(40))), vec(op, 1..=c.ops)).prop_map(|(start, f, rest)| {
        let mut v: Vec<Op> = start.into_iter().map(|b| Op { kind: Kind::Fill, k: 0, src: 0, b }).collect();
        v.extend(f.into_iter().map(|(k, b)| Op { kind: Kind::Insert, k, src: 0, b }));
        v.extend(rest);
        v
    });
    let maps: BoxedStrategy<bool> = match c.maps {
        Some(b) => Just(b).boxed(),
        None => any::<bool>().boxed(),
    };
    let bulks = if c.bulk { vec(bulk(), 1..4).boxed() } else { Just(vec![]).boxed() };
    let keep = prop_oneof![2 => Just(0u8), 1 => Just(1u8), 1 => 2..=4u8];
    (0..c.cfgs, maps, uni(c.keys), fill, bulks, keep).prop_map(|(cfg, map, uni, ops, bulk, keep)| Hist { cfg, map, uni, fill: 0, keep, ops, bulk }).boxed()
}

/// What a run of the driver insists on, besides that nothing panics.
#[derive(Clone, Copy, Default)]
pub struct Want {
    /// every result agrees with the model
    pub model: bool,
    /// the references and pointers handed out obey their contract
    pub refs: bool,
    /// every earlier version stays as it was, and so do the addresses of its entries
    pub persist: bool,
    /// entries that an operation does not concern are shared, not copied
    pub sharing: bool,
    /// dropping everything drops everything once
    pub drops: bool,
    /// comparisons, clones and allocations of point operations stay within bounds
    pub cost: bool,
    /// bulk results are taken apart to see whether they are well formed
    pub drain: bool,
    /// re-verify the whole container after every operation rather than at the end only
    pub every: bool,
}

pub type Addr = BTreeMap<u32, (usize, usize)>;
pub fn addresses<D: Dict>(d: &D) -> Addr {
    let out: Mutex<Addr> = Mutex::new(BTreeMap::new());
    {
        let o = &out;
        d.visit(move |k, v| {
            o.lock().unwrap().insert(k.id, (k as *const _ as usize, v.map_or(0, |v| v as *const _ as usize)));
        });
    }
    out.into_inner().unwrap()
}

pub struct Version<D> {
    pub d: D,
    pub m: Model,
    pub addr: Addr,
    /// held for as long as the version: what raw pointers into it must keep showing
    pub born: usize,
}

#[derive(Default)]
pub struct Tally {
    pub inserted: usize,
    pub replaced: usize,
    pub refused: usize,
    pub removed: usize,
    pub missed: usize,
    pub bulk: usize,
    pub joins: usize,
    pub collisions: bool,
    pub deepest: bool,
    pub branches: usize,
}

/// Whether the driver's histories contain bulk operations is a type, so that the properties about
/// point operations do not pay for compiling bulk ones.
pub trait Bulks<D> {
    fn transform(d: &D, m: &Model, op: &OpSpec, par: bool, check: bool) -> Result<(D, Model, Red), String>;
    fn join(l: &D, lm: &Model, r: &D, rm: &Model, b: &Bulk, check: bool) -> Result<(D, Model, Red), String>;
}
pub struct PointOnly;
impl<D: Dict> Bulks<D> for PointOnly {
    fn transform(_: &D, _: &Model, _: &OpSpec, _: bool, _: bool) -> Result<(D, Model, Red), String> {
        unreachable!()
    }
    fn join(_: &D, _: &Model, _: &D, _: &Model, _: &Bulk, _: bool) -> Result<(D, Model, Red), String> {
        unreachable!()
    }
}
pub struct AllOps;
impl<D: Bulky> Bulks<D> for AllOps {
    fn transform(d: &D, m: &Model, op: &OpSpec, par: bool, check: bool) -> Result<(D, Model, Red), String> {
        checked_transform(d, m, op, par, check)
    }
    fn join(l: &D, lm: &Model, r: &D, rm: &Model, b: &Bulk, check: bool) -> Result<(D, Model, Red), String> {
        checked_join(l, lm, r, rm, b, check)
    }
}

pub fn run_history<D: Dict, B: Bulks<D>>(h: &Hist, w: Want, info: &mut Info) -> Result<Tally, String> {
    let ctx = Ctx::new();
    let r = {
        let mut versions: Vec<Version<D>> = vec![Version { d: D::fresh(), m: Model::new(), addr: Addr::new(), born: 0 }];
        let r = drive::<D, B>(h, w, &ctx, &mut versions);
        if r.is_ok() && w.drops {
            // Versions go in an order the case chose; the rest must stay sound all the while.
            let mut order = h.ops.iter().map(|o| o.k as usize).chain(0..);
            while !versions.is_empty() {
                let i = order.next().unwrap() % versions.len();
                let v = versions.swap_remove(i);
                drop(v.d);
                accounted(&versions, &ctx).map_err(|e| format!("while dropping versions: {e}"))?;
                if let Some(u) = versions.first() {
                    let s = visited(&u.d)?;
                    ensure!(s == u.m, "dropping one version changed another: it shows {} instead of {}", show(&s), show(&u.m));
                }
            }
        }
        r
    };
    ctx.sound()?;
    let t = r?;
    if w.drops {
        let (k, v) = ctx.live();
        ensure!((k, v) == (0, 0), "after dropping every version {k} keys and {v} values are still alive");
    }
    info.label_if(t.collisions, "shared-hash-word");
    info.label_if(t.deepest, "diverges-in-last-level");
    info.label_if(t.replaced > 0, "replacement");
    info.label_if(t.refused > 0, "refused-insert");
    info.label_if(t.removed > 0, "removal");
    info.label_if(t.missed > 0, "missed-removal");
    info.label_if(t.bulk > 0, "bulk");
    info.label_if(t.joins > 0, "join");
    info.label_if(t.branches > 0, "branching");
    info.label_if(h.keep > 0, "memory-reused");
    info.label(if h.map { "map" } else { "set" });
    Ok(t)
}

fn drive<D: Dict, B: Bulks<D>>(h: &Hist, w: Want, ctx: &Arc<Ctx>, vs: &mut Vec<Version<D>>) -> Result<Tally, String> {
    let mut t = Tally::default();
    let n = h.uni.len() as u32;
    let mut tag = 1u32;
    let mut seq = 0usize;
    for op in &h.ops {
        seq += 1;
        if vs.is_empty() {
            vs.push(Version { d: D::default(), m: Model::new(), addr: Addr::new(), born: seq });
        }
        let si = if op.src == 0 { vs.len() - 1 } else { op.src as usize % vs.len() };
        if si != vs.len() - 1 {
            t.branches += 1;
        }
        let id = op.k as u32 % n;
        let word = h.uni.word(id, D::w());
        let group = {
            let s = &vs[si];
            s.m.keys().filter(|i| **i != id && h.uni.word(**i, D::w()) == word).count()
        };
        t.collisions |= group > 0;
        let biggest = if w.cost { h.uni.groups(vs[si].m.keys().copied(), D::w()).into_values().max().unwrap_or(0) as u64 } else { 0 };
        let at = |what: &str| format!("step {seq} ({:?} key {id} on version of step {}): {what}", op.kind, vs[si].born);
        let (work0, kc0, vc0) = (ctx.eqs.load(Relaxed), ctx.key_clones.load(Relaxed), ctx.val_clones.load(Relaxed));
        let cost = |what: &str, alloc_bound: Option<u64>, allocs: u64| -> Result<(), String> {
            if !w.cost {
                return Ok(());
            }
            let (e, kc, vc) = (ctx.eqs.load(Relaxed) - work0, ctx.key_clones.load(Relaxed) - kc0, ctx.val_clones.load(Relaxed) - vc0);
            let g = group as u64 + 1;
            // A key may meet a list of entries with one other hash word and be compared with all of
            // them, as well as with those of its own.
            ensure!(e <= 2 * (g + biggest) + 1, "{what} compared keys {e} times although only {g} keys share the hash word, and at most {biggest} any other");
            ensure!(kc <= g && vc <= g, "{what} cloned {kc} keys and {vc} values although only {g} keys share the hash word");
            if let Some(b) = alloc_bound {
                ensure!(allocs <= b, "{what} allocated {allocs} times; at most {b} are needed");
            }
            Ok(())
        };
        let levels = (D::w() / D::step() + 2) as u64;
        let mut made: Option<(D, Model)> = None;
        match op.kind {
            Kind::Find => {
                let k = h.uni.key::<0>(ctx, id, 0, D::w());
                let a0 = ALLOCS.load(Relaxed);
                let f = vs[si].d.find(&k);
                let a1 = ALLOCS.load(Relaxed);
                if w.refs {
                    if let Some((k, v)) = f {
                        let a = vs[si].addr.get(&id);
                        let here = (k as *const _ as usize, v.map_or(0, |v| v as *const _ as usize));
                        ensure!(a == Some(&here), "{}", at("find hands out a reference that is not to the stored entry"));
                    }
                }
                cost("find", Some(0), a1 - a0).map_err(|e| at(&e))?;
                if w.model {
                    lookup(&vs[si].d, &vs[si].m, id, &k).map_err(|e| at(&e))?;
                }
            }
            Kind::Insert | Kind::Replace => {
                let replace = op.kind == Kind::Replace;
                tag += 1;
                let x = if D::MAP { (op.b as u64) << 8 | (seq as u64 & 0xff) } else { 0 };
                let key = h.uni.key::<0>(ctx, id, tag, D::w());
                let val = Val::new(ctx, x);
                let old = vs[si].m.get(&id).copied();
                let a0 = ALLOCS.load(Relaxed);
                let r = vs[si].d.insert(key, val, replace);
                let a1 = ALLOCS.load(Relaxed);
                // Hash collisions cost a list walk; each level costs a node and its scratch space.
                let bound = 6 * levels + 6 * (group as u64 + 2) + 2 * (ctx.key_clones.load(Relaxed) - kc0 + ctx.val_clones.load(Relaxed) - vc0);
                cost("insert", Some(bound), a1 - a0).map_err(|e| at(&e))?;
                match r {
                    Err((k, v)) => {
                        t.refused += 1;
                        if w.model || w.refs {
                            ensure!(old.is_some() && !replace, "{}", at("insert was refused"));
                            let (otag, ox) = old.unwrap();
                            ensure!(k.id == id && k.tag == otag && v.map_or(0, |v| v.x) == ox, "{}", at(&format!("the refused insert shows {k:?}={v:?}, the container holds #{otag}={ox}")));
                        }
                        if w.refs {
                            let here = (k as *const _ as usize, v.map_or(0, |v| v as *const _ as usize));
                            ensure!(vs[si].addr.get(&id) == Some(&here), "{}", at("the refused insert's references are not to the stored entry"));
                        }
                    }
                    Ok(ins) => {
                        if old.is_some() {
                            t.replaced += 1
                        } else {
                            t.inserted += 1
                        }
                        if w.model || w.refs {
                            ensure!(old.is_none() || replace, "{}", at("insert replaced an entry although replacement was off"));
                        }
                        if w.model || w.refs {
                            match (&ins.prev, old) {
                                (None, None) => {}
                                (Some((k, v)), Some((otag, ox))) => {
                                    ensure!(k.id == id && k.tag == otag && v.map_or(0, |v| v.x) == ox, "{}", at(&format!("replacement hands back {k:?}={v:?} instead of #{otag}={ox}")));
                                    let here = (*k as *const _ as usize, v.map_or(0, |v| v as *const _ as usize));
                                    ensure!(!w.refs || vs[si].addr.get(&id) == Some(&here), "{}", at("the references to the replaced entry are not to the entry in the old version"));
                                }
                                (a, b) => return Err(at(&format!("replacement hands back {a:?}, but the old version held {b:?}"))),
                            }
                        }
                        if w.refs {
                            let a = addresses(&ins.new);
                            let here = (ins.kp as usize, ins.vp.map_or(0, |v| v as usize));
                            ensure!(a.get(&id) == Some(&here), "{}", at("the pointers insert returned are not to the entry in the new version"));
                            // Only now is it known that the pointers are good to follow.
                            let (k, v) = unsafe { (&*ins.kp, ins.vp.map(|v| &*v)) };
                            ensure!(k.id == id && k.tag == tag && v.map_or(0, |v| v.x) == x, "{}", at("the pointers insert returned do not show the inserted entry"));
                        }
                        let mut m = vs[si].m.clone();
                        m.insert(id, (tag, x));
                        made = Some((ins.new, m));
                    }
                }
            }
            Kind::Remove => {
                let k = h.uni.key::<0>(ctx, id, 0, D::w());
                let old = vs[si].m.get(&id).copied();
                let a0 = ALLOCS.load(Relaxed);
                let r = vs[si].d.remove(&k);
                let a1 = ALLOCS.load(Relaxed);
                let bound = 6 * levels + 6 * (group as u64 + 2) + 2 * (ctx.key_clones.load(Relaxed) - kc0 + ctx.val_clones.load(Relaxed) - vc0);
                cost("remove", Some(if r.is_none() { 0 } else { bound }), a1 - a0).map_err(|e| at(&e))?;
                match r {
                    None => {
                        t.missed += 1;
                        if w.model || w.refs {
                            ensure!(old.is_none(), "{}", at("remove does not find the key"));
                        }
                    }
                    Some((new, k, v)) => {
                        t.removed += 1;
                        if w.model || w.refs {
                            ensure!(old.is_some(), "{}", at("remove claims to have found an absent key"));
                            let (otag, ox) = old.unwrap();
                            ensure!(k.id == id && k.tag == otag && v.map_or(0, |v| v.x) == ox, "{}", at(&format!("remove hands back {k:?}={v:?} instead of #{otag}={ox}")));
                        }
                        if w.refs {
                            let here = (k as *const _ as usize, v.map_or(0, |v| v as *const _ as usize));
                            ensure!(vs[si].addr.get(&id) == Some(&here), "{}", at("remove's references are not to the entry in the old version"));
                        }
                        let mut m = vs[si].m.clone();
                        m.remove(&id);
                        made = Some((new, m));
                    }
                }
            }
            Kind::Fill | Kind::Thin => {
                let (mut d, mut m) = (vs[si].d.clone(), vs[si].m.clone());
                let run = if seq == 1 { h.fill.max(op.b as u32) } else { op.b as u32 };
                for i in 0..run {
                    let id = (id + i) % n;
                    if op.kind == Kind::Fill {
                        tag += 1;
                        let x = if D::MAP { tag as u64 } else { 0 };
                        if let Ok(ins) = d.insert(h.uni.key::<0>(ctx, id, tag, D::w()), Val::new(ctx, x), false).map(|i| i.new) {
                            d = ins;
                            m.insert(id, (tag, x));
                            t.inserted += 1;
                        }
                    } else if let Some(new) = d.remove(&h.uni.key::<0>(ctx, id, 0, D::w())).map(|r| r.0) {
                        d = new;
                        m.remove(&id);
                        t.removed += 1;
                    }
                }
                made = Some((d, m));
            }
            Kind::Clone => {
                let d = vs[si].d.clone();
                if w.sharing {
                    ensure!(ctx.key_clones.load(Relaxed) == kc0 && ctx.val_clones.load(Relaxed) == vc0, "{}", at("cloning a container clones its entries"));
                }
                made = Some((d, vs[si].m.clone()));
            }
            Kind::Forget => {
                let v = vs.remove(si);
                drop(v);
                ctx.sound()?;
                if w.drops {
                    accounted(vs, ctx).map_err(|e| format!("after forgetting a version in step {seq}: {e}"))?;
                }
                continue;
            }
            Kind::Transform => {
                t.bulk += 1;
                let b = &h.bulk[op.b as usize % h.bulk.len()];
                let (d, m, _) = B::transform(&vs[si].d, &vs[si].m, &b.one, b.par, w.model).map_err(|e| at(&e))?;
                made = Some((d, m));
            }
            Kind::Join => {
                t.bulk += 1;
                t.joins += 1;
                let b = &h.bulk[op.k as usize % h.bulk.len()];
                let ri = op.b as usize % vs.len();
                let (d, m, _) = B::join(&vs[si].d, &vs[si].m, &vs[ri].d, &vs[ri].m, b, w.model).map_err(|e| at(&e))?;
                made = Some((d, m));
            }
        }
        ctx.sound().map_err(|e| at(&e))?;
        if let Some((d, m)) = made {
            if w.model && (w.every || m.len() < 6) {
                same(&d, &m, &h.uni, ctx).map_err(|e| at(&e))?;
            } else if w.model {
                lookup(&d, &m, id, &h.uni.key::<0>(ctx, id, 0, D::w())).map_err(|e| at(&e))?;
                ensure!(d.size() == m.len(), "{}", at(&format!("size is {} instead of {}", d.size(), m.len())));
            }
            let addr = if w.refs || w.persist || w.sharing || w.drops { addresses(&d) } else { Addr::new() };
            if w.sharing && matches!(op.kind, Kind::Insert | Kind::Replace | Kind::Remove | Kind::Clone) {
                for (i, a) in &vs[si].addr {
                    if *i != id && h.uni.word(*i, D::w()) != word {
                        ensure!(addr.get(i) == Some(a), "{}", at(&format!("entry {i}, which the operation does not concern, moved")));
                    }
                }
                let kc = ctx.key_clones.load(Relaxed) - kc0;
                let vc = ctx.val_clones.load(Relaxed) - vc0;
                ensure!(kc <= group as u64 && vc <= group as u64, "{}", at(&format!("{kc} keys and {vc} values were cloned, but only {group} other entries share the hash word")));
            }
            if w.drain && matches!(op.kind, Kind::Transform | Kind::Join) {
                drain(&d, &m, &h.uni, ctx).map_err(|e| at(&e))?;
            }
            if w.persist && seq % 8 == 0 {
                persisted(vs, h, ctx).map_err(|e| at(&e))?;
            }
            t.deepest |= deepest::<D>(&h.uni, &m);
            vs.push(Version { d, m, addr, born: seq });
            let keep = match h.keep as usize {
                0 if w.persist || w.drops || h.ops.iter().any(|o| o.src != 0) => usize::MAX,
                k => k.max(1),
            };
            vs.drain(..vs.len().saturating_sub(keep));
            if w.drops && seq % 8 == 0 {
                accounted(vs, ctx).map_err(|e| format!("after step {seq} ({:?} key {id}): {e}", op.kind))?;
            }
        }
    }
    if w.persist {
        persisted(vs, h, ctx)?;
    }
    if w.model {
        for v in vs.iter() {
            same(&v.d, &v.m, &h.uni, ctx).map_err(|e| format!("at the end, version of step {}: {e}", v.born))?;
        }
        if let Some(v) = vs.last() {
            drain(&v.d, &v.m, &h.uni, ctx).map_err(|e| format!("at the end: {e}"))?;
        }
    }
    Ok(t)
}

/// Every instance alive is an entry of a living version, and every entry is one instance.
fn accounted<D: Dict>(vs: &[Version<D>], ctx: &Arc<Ctx>) -> Result<(), String> {
    let keys: std::collections::HashSet<usize> = vs.iter().flat_map(|v| v.addr.values().map(|a| a.0)).collect();
    let vals: std::collections::HashSet<usize> = vs.iter().flat_map(|v| v.addr.values().map(|a| a.1)).filter(|a| *a != 0).collect();
    ensure!(
        ctx.live() == (keys.len() as i64, vals.len() as i64),
        "{:?} keys and values are alive, but the versions hold {} and {} different ones",
        ctx.live(), keys.len(), vals.len()
    );
    Ok(())
}

/// Two of the entries have different hash words that first differ in the last level of the trie.
fn deepest<D: Dict>(uni: &Uni, m: &Model) -> bool {
    let cut = (D::w() - 1) / D::step() * D::step();
    let mask = (1u128 << cut) - 1;
    let words: Vec<u128> = m.keys().take(400).map(|i| uni.word(*i, D::w())).collect();
    words.iter().enumerate().any(|(i, a)| words[..i].iter().any(|b| a != b && (a ^ b) & mask == 0))
}

pub fn persisted<D: Dict>(vs: &[Version<D>], h: &Hist, ctx: &Arc<Ctx>) -> Result<(), String> {
    for v in vs {
        same(&v.d, &v.m, &h.uni, ctx).map_err(|e| format!("version of step {} changed: {e}", v.born))?;
        ensure!(addresses(&v.d) == v.addr, "version of step {}: stored entries moved although the version is alive", v.born);
    }
    Ok(())
}

// ---------------------------------------------------------------- bulk operations against the model

pub struct RedWant {
    base: Red,
    /// (constant, at least one entry fell to it)
    consts: Vec<(u64, bool)>,
}
impl RedWant {
    pub fn new() -> Self {
        RedWant { base: Red::default(), consts: vec![] }
    }
    pub fn one(&mut self, side: u64, id: u32) {
        self.base = self.base.join(&Red::one(side, id));
    }
    pub fn konst(&mut self, c: u64, used: bool) {
        self.consts.push((c, used));
    }
    pub fn check(&self, r: &Red) -> Result<(), String> {
        ensure!(
            r.sum == self.base.sum && r.n == self.base.n,
            "the reduction covers {} contributions (sum {:x}), but {} were made (sum {:x})",
            r.n, r.sum, self.base.n, self.base.sum
        );
        // Idempotent part: the library may apply a constant operation to a whole subtrie, or to
        // both containers at once, and reduce one constant for all of it.  So which constants show
        // is not determined; but nothing else may show, and something must if nothing else did.
        let ok = r.max == self.base.max || self.consts.iter().any(|c| c.0 == r.max && c.0 > self.base.max);
        ensure!(ok, "the reduction's maximum is {}, which no operation contributed", r.max);
        let silent = r.max == 0 && self.base.n == 0 && self.consts.iter().any(|c| c.1);
        ensure!(!silent, "no constant was reduced although constant operations decided every entry");
        Ok(())
    }
}
impl Default for RedWant {
    fn default() -> Self {
        Self::new()
    }
}

pub fn par_of(par: bool) -> ParallelismStrategy {
    strat(par)
}

pub fn checked_transform<D: Bulky>(d: &D, m: &Model, op: &OpSpec, par: bool, check: bool) -> Result<(D, Model, Red), String> {
    let log = new_log();
    let (new, r) = d.transform(op, &log, par_of(par));
    let mut want = Model::new();
    let mut calls: Vec<Call> = vec![];
    let mut rw = RedWant::new();
    for (&id, &(tag, x)) in m {
        if !op.is_const() {
            calls.push((1, id, tag, x, 0, 0, 0));
            rw.one(1, id);
        }
        match op.kind(id) {
            REM => {}
            TRANS if D::MAP => {
                want.insert(id, (tag, new_x(1, id, x, 0)));
            }
            _ => {
                want.insert(id, (tag, x));
            }
        }
    }
    if op.is_const() {
        rw.konst(CONST_LEFT, !m.is_empty());
    }
    if check {
        calls.sort();
        let got = take_log(&log);
        ensure!(got == calls, "the transformation was called on {}, the entries are {}", show_calls(&got), show_calls(&calls));
        let v = visited(&new)?;
        ensure!(v == want, "the transformed container shows {} instead of {}", show(&v), show(&want));
        rw.check(&r)?;
    }
    Ok((new, want, r))
}

pub fn show_calls(c: &[Call]) -> String {
    let v: Vec<String> = c
        .iter()
        .take(30)
        .map(|(s, id, t, x, id2, t2, x2)| match s {
            0 => format!("both({id}#{t}={x}, {id2}#{t2}={x2})"),
            1 => format!("left({id}#{t}={x})"),
            _ => format!("right({id}#{t}={x})"),
        })
        .collect();
    format!("[{}]", v.join(", "))
}

/// Joins that keep "either side" have two right answers per entry; the model takes what the
/// container shows once it has been found among them.
pub fn checked_join<D: Bulky>(l: &D, lm: &Model, r: &D, rm: &Model, b: &Bulk, check: bool) -> Result<(D, Model, Red), String> {
    let log = new_log();
    let (new, red) = l.join(r, &b.both, b.flip, &b.one, &b.right, &log, par_of(b.par));
    let mut want: BTreeMap<u32, Vec<(u32, u64)>> = BTreeMap::new();
    let mut calls: Vec<Call> = vec![];
    let mut rw = RedWant::new();
    let (mut nb, mut nl, mut nr) = (0, 0, 0);
    for (&id, &(tag, x)) in lm {
        if let Some(&(rtag, rx)) = rm.get(&id) {
            nb += 1;
            if !b.both.is_const() {
                calls.push((0, id, tag, x, id, rtag, rx));
                rw.one(0, id);
            }
            match b.both.kind(id) {
                REM => {}
                LEFT => {
                    want.insert(id, vec![(tag, x)]);
                }
                RIGHT => {
                    want.insert(id, vec![(rtag, rx)]);
                }
                TRANS if D::MAP => {
                    let nx = new_x(0, id, x, rx);
                    want.insert(id, vec![(tag, nx), (rtag, nx)]);
                }
                _ => {
                    want.insert(id, vec![(tag, x), (rtag, rx)]);
                }
            }
        } else {
            nl += 1;
            side(&b.one, 1, id, tag, x, &mut want, &mut calls, &mut rw, D::MAP);
        }
    }
    for (&id, &(tag, x)) in rm {
        if !lm.contains_key(&id) {
            nr += 1;
            side(&b.right, 2, id, tag, x, &mut want, &mut calls, &mut rw, D::MAP);
        }
    }
    if b.both.is_const() {
        rw.konst(CONST_BOTH, nb > 0);
    }
    if b.one.is_const() {
        rw.konst(CONST_LEFT, nl > 0);
    }
    if b.right.is_const() {
        rw.konst(CONST_RIGHT, nr > 0);
    }
    let v = visited(&new)?;
    if check {
        calls.sort();
        let got = take_log(&log);
        ensure!(got == calls, "the operations were called as {}, the entries are {}", show_calls(&got), show_calls(&calls));
        matches(&v, &want)?;
        rw.check(&red)?;
    }
    Ok((new, v, red))
}
#[allow(clippy::too_many_arguments)]
pub fn side(op: &OpSpec, s: u8, id: u32, tag: u32, x: u64, want: &mut BTreeMap<u32, Vec<(u32, u64)>>, calls: &mut Vec<Call>, rw: &mut RedWant, map: bool) {
    if !op.is_const() {
        calls.push((s, id, tag, x, 0, 0, 0));
        rw.one(s as u64, id);
    }
    match op.kind(id) {
        REM => {}
        TRANS if map => {
            want.insert(id, vec![(tag, new_x(s as u64, id, x, 0))]);
        }
        _ => {
            want.insert(id, vec![(tag, x)]);
        }
    }
}
pub fn matches(v: &Model, want: &BTreeMap<u32, Vec<(u32, u64)>>) -> Result<(), String> {
    let ok = v.len() == want.len() && want.iter().all(|(id, alts)| v.get(id).map_or(false, |e| alts.contains(e)));
    if ok {
        return Ok(());
    }
    let mut s = vec![];
    for id in v.keys().chain(want.keys()).collect::<std::collections::BTreeSet<_>>() {
        let (a, b) = (v.get(id), want.get(id));
        if !matches!((a, b), (Some(a), Some(b)) if b.contains(a)) {
            s.push(format!("key {id}: shows {a:?}, expected one of {b:?}"));
        }
    }
    Err(format!("the result is wrong: {}", s.into_iter().take(6).collect::<Vec<_>>().join("; ")))
}

/// Run `f` and treat a panic as an error of the named step.
pub fn quietly<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    guarded(f).map_err(|e| format!("{what} panicked: {e}"))
}
