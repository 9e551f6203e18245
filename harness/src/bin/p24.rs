//! How much work an operation may do.
use hash_trie_pbt::{bulk::*, dict::*, engine::*, ensure, gens::*, hist::*, pairs::*, probe::*, with_three};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::atomic::Ordering::Relaxed;
use std::sync::Arc;
use std::time::{Duration, Instant};

#[derive(Clone, Debug, Hash, PartialEq, Eq, Serialize, Deserialize)]
enum Case {
    Points(Hist),
    /// point operations on a container of this many spread keys and one group of equal hashes
    Large { cfg: u8, map: bool, n: u16, group: u8, keys: Vec<(u8, u16)>, seed: u64 },
    Bulk(Pair),
    /// how long the same takes on a container of thousands of spread keys
    Time { cfg: u8, map: bool, n: u16, seed: u64 },
}
#[derive(Debug)]
struct Cost {
    eqs: u64,
    keys: u64,
    vals: u64,
    hashes: u64,
    allocs: u64,
}
fn cost<T>(ctx: &Arc<Ctx>, f: impl FnOnce() -> T) -> (T, Cost) {
    let now = || (ctx.eqs.load(Relaxed), ctx.key_clones.load(Relaxed), ctx.val_clones.load(Relaxed), ctx.hashes.load(Relaxed), ALLOCS.load(Relaxed));
    let a = now();
    let t = f();
    let b = now();
    (t, Cost { eqs: b.0 - a.0, keys: b.1 - a.1, vals: b.2 - a.2, hashes: b.3 - a.3, allocs: b.4 - a.4 })
}

fn large<D: Dict>(n: u16, group: u8, keys: &[(u8, u16)], seed: u64, info: &mut Info) -> Result<(), String> {
    let ctx = Ctx::new();
    let r: Result<(), String> = (|| {
        let hash = |id: u32| -> u128 {
            let h = if id < group as u32 { seed } else { mix(seed ^ mix(id as u64)) };
            (mix(h) as u128) << 64 | h as u128
        };
        let mask = if D::w() == 128 { u128::MAX } else { (1u128 << D::w()) - 1 };
        let mut d = D::fresh();
        for id in 0..n as u32 {
            if let Ok(i) = d.insert(Key::new(&ctx, id, 1, hash(id)), Val::new(&ctx, 1), true) {
                d = i.new;
            }
        }
        let levels = (D::w() / D::step() + 2) as u64;
        for (kind, k) in keys {
            let id = *k as u32 % (n as u32 + n as u32 / 4 + 1);
            let g = 1 + (0..n as u32).filter(|i| *i != id && (hash(*i) ^ hash(id)) & mask == 0).count() as u64;
            let key = Key::new(&ctx, id, 2, hash(id));
            let val = Val::new(&ctx, 2);
            let (what, c) = match kind % 4 {
                0 => ("find", cost(&ctx, || drop(d.find(&key))).1),
                1 => ("insert", cost(&ctx, || d.insert(key, val, false).map(|i| i.new).ok()).1),
                2 => ("insert with replacement", cost(&ctx, || d.insert(key, val, true).map(|i| i.new).ok()).1),
                _ => ("remove", cost(&ctx, || d.remove(&key).map(|i| i.0)).1),
            };
            let bounds = Cost { eqs: 2 * (g + group.max(6) as u64) + 2, keys: 2 * g, vals: 2 * g, hashes: 2 * levels + 4, allocs: 8 * levels + 8 * g + 16 };
            ensure!(
                c.eqs <= bounds.eqs && c.keys <= bounds.keys && c.vals <= bounds.vals && c.hashes <= bounds.hashes && c.allocs <= bounds.allocs,
                "{what} of key {id} among {n}, {g} of them with its hash word, takes {c:?}; at most {bounds:?} is accounted for"
            );
        }
        info.label("large");
        info.nontrivial_if(n >= 100 && keys.len() >= 3);
        Ok(())
    })();
    ctx.sound()?;
    r
}

/// The shortest of some runs.
fn shortest<T>(runs: usize, f: impl Fn() -> T) -> Duration {
    (0..runs)
        .map(|_| {
            let t = Instant::now();
            let out = f();
            let took = t.elapsed();
            drop(out);
            took
        })
        .min()
        .unwrap()
}
/// The fewest entries that times are taken on.
const SOME: u16 = 12_000;
/// What need not look at all the entries takes nothing like the time of visiting them all.
fn time<D: Dict>(n: u16, seed: u64, info: &mut Info) -> Result<(), String> {
    if D::w() < 32 {
        // So many keys would share few hash words.
        return Ok(());
    }
    let ctx = Ctx::new();
    let r: Result<(), String> = (|| {
        let hash = |id: u32| (mix(mix(seed ^ mix(id as u64))) as u128) << 64 | mix(seed ^ mix(id as u64)) as u128;
        let key = |id: u32| Key::new(&ctx, id, 2, hash(id));
        let mut d = D::fresh();
        for id in 0..n as u32 {
            if let Ok(i) = d.insert(Key::new(&ctx, id, 1, hash(id)), Val::new(&ctx, 1), true) {
                d = i.new;
            }
            // Early too: all that comes after takes ages where an insert looks at all entries.
            if id + 1 == n as u32 || id + 1 == SOME as u32 {
                let (there, not_there) = (seed as u32 % (id + 1), n as u32 + 7);
                let copy = d.clone();
                let mut found = String::new();
                // Another try for whoever was interrupted all the time.
                for _ in 0..4 {
                    let all = shortest(5, || d.visit(|_, _| ()));
                    let limit = all / 4;
                    let times = [
                        ("size", shortest(20, || d.size())),
                        ("clone", shortest(20, || d.clone())),
                        ("equality with a clone", shortest(20, || d == copy)),
                        ("find", shortest(20, || d.find(&key(there)).is_some())),
                        ("failed find", shortest(20, || d.find(&key(not_there)).is_some())),
                        ("insert", shortest(20, || d.insert(key(not_there), Val::new(&ctx, 3), false).map(|i| i.new).ok())),
                        ("insert with replacement", shortest(20, || d.insert(key(there), Val::new(&ctx, 3), true).map(|i| i.new).ok())),
                        ("failed insert", shortest(20, || d.insert(key(there), Val::new(&ctx, 3), false).is_ok())),
                        ("remove", shortest(20, || d.remove(&key(there)).map(|i| i.0))),
                        ("failed remove", shortest(20, || d.remove(&key(not_there)).is_some())),
                    ];
                    if std::env::var_os("PBT_COST").is_some() {
                        let (what, t) = times.iter().max_by_key(|t| t.1).unwrap();
                        info.label(&format!("time: {what} 1/{:03} of the visit over {} bits, {n}", all.as_nanos() / t.as_nanos().max(1), D::w()));
                    }
                    match times.iter().find(|t| t.1 > limit) {
                        None => {
                            found.clear();
                            break;
                        }
                        Some((what, t)) => found = format!("{what} on {} entries takes {t:?} at least, visiting them all {all:?}", id + 1),
                    }
                }
                ensure!(found.is_empty(), "{found}");
            }
        }
        info.label("time");
        info.nontrivial_if(d.size() as u32 == n as u32);
        Ok(())
    })();
    ctx.sound()?;
    r
}

fn bulk<I: Inputs>(p: &Pair, info: &mut Info) -> Result<(), String> {
    let ctx = Ctx::new();
    let r: Result<(), String> = (|| {
        let which = Which::of(I::map(), p.variant);
        let i = I::build(p, which, &ctx)?;
        let o = Ops::of(p, which);
        let (lm, rm) = i.models();
        let (l, r) = (lm.len() as u64, rm.len() as u64);
        let gl = p.uni.groups(lm.keys().copied(), I::width());
        let gr = p.uni.groups(rm.keys().copied(), I::width());
        let pairs: u64 = gl.iter().map(|(h, n)| (*n * gr.get(h).copied().unwrap_or(0)) as u64).sum();
        // What it takes to look at the result is the same every time.
        let made = i.run(&o, &new_log());
        let (_, seeing) = cost(&ctx, || i.left_now());
        let made_n = made.size as u64;
        let (_, c) = cost(&ctx, || i.run(&o, &new_log()));
        let levels = I::width() as u64 / 3 + 2;
        // Entries that share a hash word meet each other; others meet one entry or a path of nodes.
        let bounds = Cost {
            eqs: 4 * pairs + 4 * (l + r) + 4,
            keys: 4 * (l + r) + 4,
            vals: 4 * (l + r) + 4,
            hashes: 3 * levels * (l + r) + 8,
            allocs: seeing.allocs + 8 * made_n + 4 * levels * (l + r + 2) + 40,
        };
        ensure!(
            c.eqs <= bounds.eqs && c.keys <= bounds.keys && c.vals <= bounds.vals && c.hashes <= bounds.hashes && c.allocs <= bounds.allocs,
            "{which:?} of {l} and {r} entries takes {c:?}; at most {bounds:?} is accounted for"
        );
        if std::env::var_os("PBT_COST").is_some() {
            for (n, a, b) in [("eqs", c.eqs, bounds.eqs), ("keys", c.keys, bounds.keys), ("vals", c.vals, bounds.vals), ("hashes", c.hashes, bounds.hashes), ("allocs", c.allocs, bounds.allocs)] {
                info.label(&format!("{n} {:02}/10 of the bound", a * 10 / b.max(1)));
            }
        }
        info.label(&format!("{}{which:?}", if I::map() { "map " } else { "set " }));
        classes(p, lm, rm, I::width(), info);
        info.nontrivial_if(l >= 4 && (which == Which::Transform || which == Which::Transmute || r >= 4));
        Ok(())
    })();
    ctx.sound()?;
    r
}
fn points<D: Dict>(h: &Hist, info: &mut Info) -> Result<(), String> {
    let t = run_history::<D, PointOnly>(h, Want { cost: true, ..Want::default() }, info)?;
    info.nontrivial_if(t.inserted >= 3 && t.removed + t.replaced >= 1 && t.collisions);
    Ok(())
}
fn check(c: &Case, info: &mut Info) -> Result<(), String> {
    match c {
        Case::Points(h) => with_three!(h.cfg, C => if h.map { points::<Map<C>>(h, info) } else { points::<Set<C>>(h, info) }),
        Case::Large { cfg, map, n, group, keys, seed } => with_three!(cfg, C => if *map { large::<Map<C>>(*n, *group, keys, *seed, info) } else { large::<Set<C>>(*n, *group, keys, *seed, info) }),
        Case::Time { cfg, map, n, seed } => with_three!(cfg, C => if *map { time::<Map<C>>(*n, *seed, info) } else { time::<Set<C>>(*n, *seed, info) }),
        Case::Bulk(p) => with_three!(p.cfg, C => if p.map { bulk::<MapIn<C>>(p, info) } else { bulk::<SetIn<C>>(p, info) }),
    }
}
fn main() {
    hash_trie_pbt::engine::main(Spec {
        id: "P24",
        rule: "Random histories of point operations, point operations on large containers, and bulk operations of every kind; comparisons, hash computations, clones of keys and values, and allocations are counted and held against bounds that grow with the depth of the trie and the number of entries sharing a hash word (point operations) or with the number of entries and of pairs sharing a hash word (bulk operations), never with anything else; on tens of thousands of entries, everything that need not look at all of them takes less than a quarter of the time of visiting them. Non-trivial: three inserts, a removal or replacement and a hash collision; three operations among 100 or more entries; thousands of entries; or a bulk operation on four or more entries a side.",
        assumptions: &["the bounds are 3 to 4 times what the operations take today, so that only growth of another order shows", "in one of four tries, the shortest of twenty runs is not prolonged by the rest of the machine to five times what it takes"],
        quick: 120_000,
        thorough: 2_000_000,
        strategy: |big| {
            let large = (any::<u8>(), any::<bool>(), 0u16..if big { 6000 } else { 1200 }, 0u8..20, proptest::collection::vec((any::<u8>(), any::<u16>()), 1..30), any::<u64>())
                .prop_map(|(cfg, map, n, group, keys, seed)| Case::Large { cfg, map, n, group, keys, seed });
            let time = (any::<u8>(), any::<bool>(), SOME..40_000, any::<u64>()).prop_map(|(cfg, map, n, seed)| Case::Time { cfg, map, n, seed });
            prop_oneof![
                8000 => hist(HistCfg { cfgs: N_THREE, maps: None, keys: if big { 300 } else { 40 }, ops: if big { 200 } else { 40 }, branch: true, forget: false, bulk: false }).prop_map(Case::Points),
                1000 => large,
                if big { 50 } else { 15 } => time,
                8000 => pair(N_THREE, None, if big { 300 } else { 40 }, if big { 200 } else { 30 }).prop_map(Case::Bulk),
            ]
            .boxed()
        },
        check,
        enumerate: None,
    })
}
