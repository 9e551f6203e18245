//! How much memory a container takes.
use hash_trie_pbt::{bulk::*, dict::*, engine::*, ensure, hist::*, pairs::*, probe::*, with_three};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::atomic::Ordering::Relaxed;
use hash_trie_pbt::gens::Uni;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, Hash, PartialEq, Eq, Serialize, Deserialize)]
enum Case {
    History(Hist, u8),
    Bulk(Pair),
}
/// What dropping the last handle to something gives back.
fn bytes<T>(t: T) -> i64 {
    let a = LIVE.load(Relaxed);
    drop(t);
    a - LIVE.load(Relaxed)
}
/// What the parts of a container take, measured on containers built by inserts alone.
struct Prices {
    /// a node with this many single entries below it, those included
    node: Vec<i64>,
    single: i64,
    /// this many entries with one hash, as they come up
    list: Mutex<BTreeMap<usize, i64>>,
}
fn measure<D: Dict>(hashes: impl Iterator<Item = u128>) -> i64 {
    let ctx = Ctx::new();
    let mut d = D::fresh();
    for (i, h) in hashes.enumerate() {
        d = d.insert(Key::new(&ctx, i as u32, 1, h), Val::new(&ctx, 1), false).map(|i| i.new).ok().expect("absent");
    }
    bytes(d)
}
fn prices<D: Dict>() -> Arc<Prices> {
    static KNOWN: Mutex<BTreeMap<&'static str, Arc<Prices>>> = Mutex::new(BTreeMap::new());
    let name = std::any::type_name::<D>();
    if let Some(p) = KNOWN.lock().unwrap().get(name) {
        return p.clone();
    }
    let node: Vec<i64> = (0..=1u128 << D::step()).map(|n| measure::<D>(0..n)).collect();
    let single = node[1] + node[2] - measure::<D>([0, 1 << D::step()].into_iter());
    let p = Arc::new(Prices { node, single, list: Mutex::default() });
    KNOWN.lock().unwrap().insert(name, p.clone());
    p
}
impl Prices {
    fn list<D: Dict>(&self, n: usize) -> i64 {
        *self.list.lock().unwrap().entry(n).or_insert_with(|| measure::<D>(std::iter::repeat(0).take(n)) - self.node[1] + self.single)
    }
}
/// The most a container with these entries may take: nothing but entries, and the nodes on the way
/// to them that keep hashes apart which were in the container, or in one it comes from, together.
fn most<D: Dict>(m: &Model, ever: &BTreeSet<u32>, uni: &Uni) -> i64 {
    let p = prices::<D>();
    let (w, step) = (D::w(), D::step());
    let groups = uni.groups(m.keys().copied(), w);
    let mut total: i64 = groups.values().map(|n| p.list::<D>(*n) - p.single).sum();
    let cut = |word: u128, l: u32| if l * step >= 128 { word } else { word & ((1 << (l * step)) - 1) };
    let seen: BTreeSet<u128> = ever.iter().map(|i| uni.word(*i, w)).collect();
    // The prefixes that are nodes, level by level, with the prefixes below them.
    let mut nodes: BTreeMap<u128, BTreeSet<u128>> = BTreeMap::from([(0, groups.keys().map(|h| cut(*h, 1)).collect())]);
    let mut l = 1;
    while !nodes.is_empty() {
        total += nodes.values().map(|c| p.node[c.len()]).sum::<i64>();
        let mut together: BTreeMap<u128, usize> = BTreeMap::new();
        for h in &seen {
            *together.entry(cut(*h, l)).or_insert(0) += 1;
        }
        let next: BTreeSet<u128> = nodes.values().flatten().copied().filter(|c| together[c] > 1).collect();
        total -= p.single * next.len() as i64;
        nodes = next.iter().map(|c| (*c, BTreeSet::new())).collect();
        for h in groups.keys() {
            if let Some(c) = nodes.get_mut(&cut(*h, l)) {
                c.insert(cut(*h, l + 1));
            }
        }
        l += 1;
    }
    total
}
fn compare<D: Dict>(what: &str, took: i64, m: &Model, ever: Option<&BTreeSet<u32>>, uni: &Uni, info: &mut Info) -> Result<(), String> {
    let own: BTreeSet<u32> = m.keys().copied().collect();
    let most = most::<D>(m, ever.unwrap_or(&own), uni);
    info.label(if took < most { "takes-less" } else { "takes-as-much" });
    info.label_if(ever.is_some(), "after-removals");
    ensure!(took <= most, "{what}, with entries {}, takes {took} bytes; its entries and the nodes that lead to them account for {most}", show(m));
    Ok(())
}
fn history<D: Bulky>(h: &Hist, pick: u8, info: &mut Info) -> Result<(), String> {
    let ctx = Ctx::new();
    let r = (|| {
        let n = h.uni.len() as u32;
        let mut tag = 0;
        let mut vs: Vec<(D, Model, &str, bool, BTreeSet<u32>)> = vec![(D::fresh(), Model::new(), "an empty container", false, BTreeSet::new())];
        for op in &h.ops {
            let s = if op.src == 0 { vs.len() - 1 } else { op.src as usize % vs.len() };
            let id = op.k as u32 % n;
            tag += 1;
            let x = if D::MAP { tag as u64 } else { 0 };
            let (mut d, mut m) = (vs[s].0.clone(), vs[s].1.clone());
            let key = |tag| h.uni.key::<0>(&ctx, id, tag, D::w());
            let (mut thinned, mut ever) = (vs[s].3, vs[s].4.clone());
            let what = match op.kind {
                Kind::Insert | Kind::Replace => {
                    let new = d.insert(key(tag), Val::new(&ctx, x), op.kind == Kind::Replace).map(|i| i.new);
                    if let Ok(new) = new {
                        d = new;
                        m.insert(id, (tag, x));
                    }
                    "the result of an insert"
                }
                Kind::Fill | Kind::Thin => {
                    let many = if op.kind == Kind::Fill && vs.len() == 1 { h.fill.max(op.b as u32) } else { op.b as u32 };
                    for i in 0..many {
                        let id = (id + i) % n;
                        let k = h.uni.key::<0>(&ctx, id, tag, D::w());
                        let new = if op.kind == Kind::Fill { d.insert(k, Val::new(&ctx, x), false).map(|i| i.new).ok() } else { d.remove(&k).map(|r| r.0) };
                        if let Some(new) = new {
                            d = new;
                            if op.kind == Kind::Fill { m.insert(id, (tag, x)); } else { m.remove(&id); thinned = true; }
                        }
                    }
                    "the result of several inserts or removals"
                }
                Kind::Transform => {
                    let b = &h.bulk[op.k as usize % h.bulk.len()];
                    (d, m, _) = checked_transform(&d, &m, &b.one, b.par, false)?;
                    "the result of a transform"
                }
                Kind::Join => {
                    let b = &h.bulk[op.k as usize % h.bulk.len()];
                    let r = op.b as usize % vs.len();
                    thinned |= vs[r].3;
                    ever.extend(&vs[r].4);
                    (d, m, _) = checked_join(&d, &m, &vs[r].0, &vs[r].1, b, false)?;
                    "the result of a join"
                }
                _ => {
                    let new = d.remove(&key(0)).map(|r| r.0);
                    if let Some(new) = new {
                        d = new;
                        m.remove(&id);
                        thinned = true;
                    }
                    "the result of a removal"
                }
            };
            ever.extend(m.keys());
            vs.push((d, m, what, thinned, ever));
        }
        // One version stays; it is the last one more often than not.
        let at = if pick < 128 { vs.len() - 1 } else { pick as usize % vs.len() };
        let (d, m, what, thinned, ever) = vs.swap_remove(at);
        let made = vs.len();
        drop(vs);
        let took = bytes(d);
        compare::<D>(what, took, &m, thinned.then_some(&ever), &h.uni, info)?;
        info.label(what);
        info.label_if(m.is_empty(), "empty");
        info.nontrivial_if(made >= 5 && m.len() >= 2);
        Ok(())
    })();
    ctx.sound()?;
    r
}
fn bulk<I: Inputs, D: Dict>(p: &Pair, info: &mut Info) -> Result<(), String> {
    let ctx = Ctx::new();
    let r: Result<(), String> = (|| {
        let which = Which::of(I::map(), p.variant);
        let i = I::build(p, which, &ctx)?;
        let o = Ops::of(p, which);
        let made = i.run(&o, &new_log());
        let m = made.model()?;
        let thinned = p.left.iter().chain(&p.right).any(|(k, _)| *k == 2);
        let ever: BTreeSet<u32> = p.start().into_iter().chain(p.left.iter().chain(&p.right).map(|e| e.1)).map(|k| k % p.uni.len() as u32).collect();
        let (lm, rm) = (i.models().0.clone(), i.models().1.clone());
        classes(p, &lm, &rm, I::width(), info);
        drop(i);
        let Made { keep, .. } = made;
        // The box the container came in is not part of it.
        let took = bytes(keep) - std::mem::size_of::<D>() as i64;
        compare::<D>(&format!("the result of {which:?}"), took, &m, thinned.then_some(&ever), &p.uni, info)?;
        info.label(&format!("{}{which:?}", if I::map() { "map " } else { "set " }));
        info.label_if(m.is_empty(), "empty");
        info.nontrivial_if(lm.len() + rm.len() >= 4 && m.len() >= 2);
        Ok(())
    })();
    ctx.sound()?;
    r
}
fn check(c: &Case, info: &mut Info) -> Result<(), String> {
    match c {
        Case::History(h, pick) => with_three!(h.cfg, C => if h.map { history::<Map<C>>(h, *pick, info) } else { history::<Set<C>>(h, *pick, info) }),
        Case::Bulk(p) => with_three!(p.cfg, C => if p.map { bulk::<MapIn<C>, Map<C>>(p, info) } else { bulk::<SetIn<C>, Set<C>>(p, info) }),
    }
}
fn main() {
    hash_trie_pbt::engine::main(Spec {
        id: "P28",
        rule: "Random histories of point and bulk operations of which one version is kept and all others dropped, and results of single bulk operations of every kind whose inputs are dropped; what dropping the last handle gives back to the allocator is held against the sum of its entries, lists and nodes, priced on containers built by inserts alone. Without removals by key in its history a container may have only the nodes that keep its own hashes apart; with removals also those that kept hashes apart that were in it, or in a container it comes from, together. Non-trivial: five or more versions and two or more entries left; or a bulk operation on four or more entries with two or more left.",
        assumptions: &["nodes are allocated by what they hold, not with spare capacity; both single entries and lists are priced as the library allocates them today"],
        quick: 100_000,
        thorough: 2_000_000,
        strategy: |big| {
            prop_oneof![
                1 => (hist(HistCfg { cfgs: N_THREE, maps: None, keys: if big { 300 } else { 32 }, ops: if big { 120 } else { 30 }, branch: true, forget: false, bulk: true }), any::<u8>()).prop_map(|(h, p)| Case::History(h, p)),
                1 => pair(N_THREE, None, if big { 300 } else { 40 }, if big { 200 } else { 30 }).prop_map(Case::Bulk),
            ]
            .boxed()
        },
        check,
        enumerate: None,
    })
}
