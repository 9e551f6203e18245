//! Several threads work on the same containers at once.
use hash_trie_pbt::{bulk::*, dict::*, engine::*, ensure, gens::*, hist::*, pairs::*, probe::*, sched::Sched, with_three};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::Arc;

#[derive(Clone, Debug, Hash, PartialEq, Eq, Serialize, Deserialize)]
struct Case {
    pair: Pair,
    /// (operation, key, which container)
    threads: Vec<Vec<(u8, u16, u8)>>,
    /// who runs after each callback; empty: all run freely
    script: Vec<u8>,
    /// keep the shared containers on the main thread, too
    keep: bool,
    /// how often free-running threads do their work on the shared containers
    #[serde(default)]
    rounds: u8,
}

/// One thread's work on its own clones of the shared containers and on what it makes of them.
fn work<D: Bulky>(c: &Case, t: usize, shared: Vec<(D, Model)>, ctx: &Arc<Ctx>) -> Result<(D, Model), String> {
    let mut vs = shared;
    let n = c.pair.uni.len() as u32;
    let bulk = &c.pair.bulk;
    for (i, (kind, k, s)) in c.threads[t].iter().enumerate() {
        if vs.is_empty() {
            vs.push((D::fresh(), Model::new()));
        }
        let si = *s as usize % vs.len();
        let id = *k as u32 % n;
        let tag = 100_000 * (t as u32 + 1) + i as u32;
        let x = if D::MAP { tag as u64 } else { 0 };
        let (d, m) = &vs[si];
        let at = |e: String| format!("thread {t} step {i}: {e}");
        let key = |tag| c.pair.uni.key::<0>(ctx, id, tag, D::w());
        let next = match kind % 10 {
            0..=2 => {
                let replace = *kind % 10 == 2;
                let had = m.contains_key(&id);
                match d.insert(key(tag), Val::new(ctx, x), replace) {
                    Ok(ins) => {
                        ensure!(!had || replace, "{}", at(format!("insert of key {id} replaced an entry")));
                        let (k, v) = unsafe { (&*ins.kp, ins.vp.map(|v| &*v)) };
                        ensure!(k.id == id && k.tag == tag && v.map_or(0, |v| v.x) == x, "{}", at(format!("insert of key {id} points at {k:?}={v:?}")));
                        let prev = ins.prev.map(|(k, v)| (k.tag, v.map_or(0, |v| v.x)));
                        ensure!(prev == m.get(&id).copied(), "{}", at(format!("insert of key {id} hands back {prev:?}")));
                        let mut m = m.clone();
                        m.insert(id, (tag, x));
                        Some((ins.new, m))
                    }
                    Err((k, v)) => {
                        ensure!(had && !replace && m[&id] == (k.tag, v.map_or(0, |v| v.x)), "{}", at(format!("insert of key {id} was refused with {k:?}={v:?}")));
                        None
                    }
                }
            }
            3 | 4 => match d.remove(&key(0)) {
                None => {
                    ensure!(!m.contains_key(&id), "{}", at(format!("remove does not find key {id}")));
                    None
                }
                Some((new, k, v)) => {
                    ensure!(m.get(&id) == Some(&(k.tag, v.map_or(0, |v| v.x))), "{}", at(format!("remove of key {id} hands back {k:?}={v:?}")));
                    let mut m = m.clone();
                    m.remove(&id);
                    Some((new, m))
                }
            },
            5 => {
                lookup(d, m, id, &key(0)).map_err(at)?;
                if c.rounds > 1 {
                    // Look-ups are quick: many in a row meet other threads' more often.
                    let keys: Vec<_> = (0..n).map(|i| c.pair.uni.key::<0>(ctx, (id + i) % n, 0, D::w())).collect();
                    for _ in 0..4 {
                        for key in &keys {
                            let found = d.find(key).map(|(k, v)| (k.id, k.tag, v.map_or(0, |v| v.x)));
                            ensure!(found == m.get(&key.id).map(|(g, x)| (key.id, *g, *x)), "{}", at(format!("looking up key {} finds {found:?}", key.id)));
                        }
                    }
                }
                None
            }
            6 => {
                let s = visited(d)?;
                ensure!(&s == m && d.size() == m.len(), "{}", at(format!("visit shows {} of size {} instead of {}", show(&s), d.size(), show(m))));
                None
            }
            7 => {
                let (new, m, _) = checked_transform(d, m, &bulk.one, bulk.par, true).map_err(at)?;
                Some((new, m))
            }
            8 => {
                let (e, em) = &vs[*k as usize % vs.len()];
                let (new, m, _) = checked_join(d, m, e, em, bulk, true).map_err(at)?;
                Some((new, m))
            }
            _ => {
                // Let go of a version; the last thread to do so drops the entries.
                let v = vs.swap_remove(si);
                drop(v);
                None
            }
        };
        if let Some((d, m)) = next {
            let s = visited(&d)?;
            ensure!(s == m && d.size() == m.len(), "{}", at(format!("operation {} makes {} of size {} instead of {}", kind % 10, show(&s), d.size(), show(&m))));
            vs.push((d, m));
        }
        ctx.sound().map_err(|e| at(e))?;
    }
    for (d, m) in &vs {
        let s = visited(d)?;
        ensure!(&s == m, "thread {t}, at the end: a container shows {} instead of {}", show(&s), show(m));
    }
    Ok(vs.pop().unwrap_or((D::fresh(), Model::new())))
}

fn run<D: Bulky>(c: &Case, info: &mut Info) -> Result<(), String> {
    let ctx = Ctx::new();
    let r: Result<(), String> = (|| {
        let (l, lm, r, rm) = build_pair::<D>(&c.pair, &ctx);
        let sched = Sched::new(c.threads.len(), c.script.clone());
        let start = std::sync::Barrier::new(c.threads.len());
        let rounds = if c.script.is_empty() { c.rounds.max(1) } else { 1 };
        let mut shared = Some([(l, lm.clone()), (r, rm.clone())]);
        let results: Vec<Result<(D, Model), String>> = std::thread::scope(|s| {
            let handles: Vec<_> = (0..c.threads.len())
                .map(|t| {
                    let mine: Vec<(D, Model)> = shared.as_ref().unwrap().to_vec();
                    let (ctx, sched, start) = (&ctx, &sched, &start);
                    let one = move |mine| guarded(|| work::<D>(c, t, mine, ctx)).unwrap_or_else(|p| Err(format!("thread {t} panicked: {p}")));
                    s.spawn(move || {
                        if rounds > 1 {
                            start.wait();
                        }
                        sched.run(t, || {
                            for _ in 1..rounds {
                                one(mine.clone())?;
                            }
                            one(mine)
                        })
                    })
                })
                .collect();
            if !c.keep {
                shared = None;
            }
            handles.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread died".into()))).collect()
        });
        let mut all = vec![];
        for r in results {
            all.push(r?);
        }
        if let Some(s) = &shared {
            for (d, m) in s {
                same(d, m, &c.pair.uni, &ctx).map_err(|e| format!("after the threads ended a shared container changed: {e}"))?;
            }
        }
        // What the threads made meets on this one.
        for w in all.windows(2) {
            let (d, m, _) = checked_join(&w[0].0, &w[0].1, &w[1].0, &w[1].1, &c.pair.bulk, true).map_err(|e| format!("joining two threads' containers: {e}"))?;
            drain(&d, &m, &c.pair.uni, &ctx).map_err(|e| format!("joining two threads' containers: {e}"))?;
        }
        for (d, m) in &all {
            same(d, m, &c.pair.uni, &ctx).map_err(|e| format!("a thread's container, seen from another: {e}"))?;
        }
        classes(&c.pair, &lm, &rm, D::w(), info);
        let n = sched.switches();
        info.label(if c.script.is_empty() { "free-running" } else { "scripted" });
        info.label_if(n >= 10, "10-or-more-switches");
        info.label_if(rounds > 1, "many-rounds");
        let busy = c.threads.iter().filter(|t| t.iter().any(|o| o.0 % 10 < 5 || o.0 % 10 >= 7)).count();
        info.nontrivial_if(lm.len() >= 3 && busy >= 2 && (c.script.is_empty() || n >= 3));
        Ok(())
    })();
    ctx.sound()?;
    r?;
    ensure!(ctx.live() == (0, 0), "after all threads dropped everything {:?} keys and values are still alive", ctx.live());
    Ok(())
}
fn check(c: &Case, info: &mut Info) -> Result<(), String> {
    with_three!(c.pair.cfg, C => if c.pair.map { run::<Map<C>>(c, info) } else { run::<Set<C>>(c, info) })
}
fn main() {
    hash_trie_pbt::engine::main(Spec {
        id: "P22",
        rule: "Two random containers handed to two to four threads, each with its own sequence of inserts, replacements, removals, look-ups, visits, transforms, joins and drops on the shared containers and on what it made of them. In two cases out of three a generated script decides after every callback (hash, comparison, clone, operation) which thread goes on; otherwise the threads run freely, in part of the cases doing their work over and over. Every result must be what the thread would get alone, the shared containers stay as they were, results can be used from other threads, and in the end everything has been dropped once. Non-trivial: three or more shared entries, two threads that make new containers, and at least three switches where scripted.",
        assumptions: &["threads are interleaved at callbacks and, when running freely, as the machine does it; nothing in the library runs between callbacks without touching shared storage only through atomic counts", "the number of hand-overs per case is bounded"],
        quick: 50_000,
        thorough: 1_000_000,
        strategy: |big| {
            let op = (any::<u8>(), any::<u16>(), any::<u8>());
            (
                pair(N_THREE, None, if big { 100 } else { 32 }, if big { 60 } else { 24 }),
                vec(vec(op, 1..=if big { 40 } else { 12 }), 2..=4),
                prop_oneof![2 => vec(any::<u8>(), 1..64), 1 => Just(vec![])],
                any::<bool>(),
                prop_oneof![2 => 0u8..2, 1 => 2u8..24],
            )
                .prop_map(|(pair, threads, script, keep, rounds)| Case { pair, threads, script, keep, rounds })
                .boxed()
        },
        check,
        enumerate: None,
    })
}
