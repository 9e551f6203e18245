//! The user's callbacks use the very containers they are called for.
use hash_trie_pbt::{bulk::*, dict::*, engine::*, ensure, exec::*, hist, hist::*, pairs::*, probe::*, with_three};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, Hash, PartialEq, Eq, Serialize, Deserialize)]
struct Case {
    pair: Pair,
    /// None: the bulk operation; otherwise a point operation (insert, replace, alien insert, remove, visit, find) on a key
    point: Option<(u8, u16)>,
    /// What is done from within which callback, on which key.
    inner: Vec<(u16, u8, u16)>,
    second: hist::Bulk,
}

/// A use of a container from within a callback, held against its model.
fn poke<D: Dict>(d: &D, m: &Model, uni: &Uni, ctx: &Arc<Ctx>, kind: u8, k: u16) -> Result<(), String> {
    let id = k as u32 % uni.len() as u32;
    let key = |tag| uni.key::<0>(ctx, id, tag, D::w());
    let shows = |d: &D, m: &Model, what: &str| -> Result<(), String> {
        let v = visited(d)?;
        ensure!(&v == m && d.size() == m.len(), "{what} from within a callback makes {} and not {}", show(&v), show(m));
        lookup(d, m, id, &key(9_999_999))
    };
    match kind % 5 {
        0 => lookup(d, m, id, &key(9_999_999)),
        1 => {
            let x = if D::MAP { 77 } else { 0 };
            match d.insert(key(20_000_000), Val::new(ctx, x), k & 256 == 0) {
                Ok(i) => {
                    let mut m = m.clone();
                    m.insert(id, (20_000_000, x));
                    shows(&i.new, &m, "an insert")
                }
                Err(_) => {
                    ensure!(m.contains_key(&id) && k & 256 != 0, "an insert of key {id} from within a callback is refused");
                    Ok(())
                }
            }
        }
        2 => match d.remove(&key(0)).map(|r| r.0) {
            Some(new) => {
                let mut m = m.clone();
                ensure!(m.remove(&id).is_some(), "a removal of key {id}, which is not there, from within a callback succeeds");
                shows(&new, &m, "a removal")
            }
            None => {
                ensure!(!m.contains_key(&id), "a removal of key {id} from within a callback fails");
                Ok(())
            }
        },
        3 => shows(d, m, "visiting"),
        _ => {
            let e = d.clone();
            ensure!(e == *d, "a clone made from within a callback differs");
            shows(&e, m, "cloning")
        }
    }
}

/// Runs `outer` with and without `inner` called from within its callbacks: both times it must have
/// the same result.  Gives the number of times `inner` was called.
fn within<T: PartialEq>(what: &str, at: &[(u16, u8, u16)], outer: impl Fn() -> Result<T, String>, inner: impl Fn(u8, u16) -> Result<(), String> + 'static, differ: impl Fn(&T, &T) -> String) -> Result<usize, String> {
    let n = Arc::new(Mutex::new(0u64));
    let count = n.clone();
    let want = with_reentry(move || *count.lock().unwrap() += 1, &outer)?;
    let n = *n.lock().unwrap();
    if n == 0 {
        return Ok(0);
    }
    let (did, seen) = (Arc::new(Mutex::new((0u64, 0usize, None::<String>))), at.to_vec());
    let d2 = did.clone();
    let got = with_reentry(
        move || {
            let t = {
                let mut d = d2.lock().unwrap();
                d.0 += 1;
                d.0 - 1
            };
            for (at, kind, k) in &seen {
                if *at as u64 % n == t {
                    let r = inner(*kind, *k);
                    let mut d = d2.lock().unwrap();
                    d.1 += 1;
                    d.2 = d.2.take().or(r.err());
                }
            }
        },
        &outer,
    )?;
    let did = did.lock().unwrap();
    if let Some(e) = &did.2 {
        return Err(format!("during {what}: {e}"));
    }
    ensure!(got == want, "{what}, with its callbacks using the same containers, {}", differ(&got, &want));
    Ok(did.1)
}
fn bulk<I: Inputs, D: Dict>(c: &Case, left: impl Fn(&I) -> &D + Copy + 'static, info: &mut Info) -> Result<(), String> {
    let ctx = Ctx::new();
    let r: Result<(), String> = (|| {
        let p = &c.pair;
        let which = Which::of(I::map(), p.variant);
        let i = Arc::new(I::build(p, which, &ctx)?);
        let o = Ops::of(p, which);
        let mut q = p.clone();
        q.bulk = c.second.clone();
        (q.mute, q.mute2) = (p.mute2.clone(), p.mute.clone());
        let o2 = Ops::of(&q, which);
        let made = |m: Made| -> Result<(Model, Red), String> { Ok((m.model()?, m.red.clone())) };
        let want2 = made(i.run(&o2, &new_log()))?;
        let (lm, rm) = (i.models().0.clone(), i.models().1.clone());
        let (la, ra) = (i.left_now().addr, i.right_now().addr);
        let live = ctx.live();
        let (i2, ctx2, uni) = (i.clone(), ctx.clone(), p.uni.clone());
        let inner = move |kind: u8, k: u16| {
            if kind % 7 >= 5 {
                let m = i2.run(&o2, &new_log());
                let got = (m.model()?, m.red.clone());
                ensure!(got == want2, "{which:?} from within a callback makes {} and not {}", show(&got.0), show(&want2.0));
                Ok(())
            } else {
                poke(left(&i2), i2.models().0, &uni, &ctx2, kind % 7, k)
            }
        };
        let did = within(&format!("{which:?}"), &c.inner, || made(i.run(&o, &new_log())), inner, |a, b| format!("makes {} and not {}", show(&a.0), show(&b.0)))?;
        let (l, r) = (i.left_now(), i.right_now());
        ensure!(l.model()? == lm && r.model()? == rm && l.addr == la && r.addr == ra, "an input of {which:?} changed");
        drop((l, r));
        ensure!(ctx.live() == live, "after {which:?} {:?} keys and values are alive instead of {live:?}", ctx.live());
        info.label(&format!("{}{which:?}", if I::map() { "map " } else { "set " }));
        info.nontrivial_if(did >= 2 && lm.len() >= 3);
        Ok(())
    })();
    ctx.sound()?;
    r
}
fn point<D: Dict>(c: &Case, info: &mut Info) -> Result<(), String> {
    let ctx = Ctx::new();
    let r: Result<(), String> = (|| {
        let (kind, k) = c.point.unwrap();
        let (d, m, e, em) = build_pair::<D>(&c.pair, &ctx);
        let both = Arc::new((d, m, e, em));
        let (d, m, e, em) = (&both.0, &both.1, &both.2, &both.3);
        let uni = c.pair.uni.clone();
        let id = k as u32 % uni.len() as u32;
        let kind = kind % 6;
        let what = format!("{} of key {id}", ["insert", "insert with replacement", "insert through another type", "remove", "visit", "find"][kind as usize]);
        let (addr, eaddr) = (addresses(d), addresses(e));
        let live = ctx.live();
        // What the operation makes, or shows.
        let run = || -> Result<Option<Model>, String> {
            let key = || uni.key::<0>(&ctx, id, 5, D::w());
            let new = match kind {
                0 | 1 => d.insert(key(), Val::new(&ctx, 5), kind == 1).map(|i| i.new).ok(),
                2 => d.insert_alien(uni.key::<1>(&ctx, id, 5, D::w()), Val::<1>::new(&ctx, 5), k & 1024 != 0).map(|i| i.new).ok(),
                3 => d.remove(&key()).map(|r| r.0),
                4 => {
                    d.visit(|k, _| k.ctx().tick());
                    return Ok(Some(visited(d)?));
                }
                _ => return Ok(d.find(&key()).map(|(k, v)| Model::from([(k.id, (k.tag, v.map_or(0, |v| v.x)))]))),
            };
            new.map(|n| visited(&n)).transpose()
        };
        let (b2, uni2, ctx2) = (both.clone(), c.pair.uni.clone(), ctx.clone());
        let inner = move |kind: u8, k: u16| if k & 512 == 0 { poke(&b2.0, &b2.1, &uni2, &ctx2, kind, k) } else { poke(&b2.2, &b2.3, &uni2, &ctx2, kind, k) };
        let did = within(&what, &c.inner, run, inner, |a, b| format!("makes {:?} and not {:?}", a.as_ref().map(show), b.as_ref().map(show)))?;
        for (d, m, a, l) in [(d, m, &addr, "it"), (e, em, &eaddr, "a container with common storage")] {
            let s = visited(d)?;
            ensure!(&s == m && d.size() == m.len() && addresses(d) == *a, "after {what} {l} shows {} instead of {}", show(&s), show(m));
        }
        ensure!(ctx.live() == live, "after {what} {:?} keys and values are alive instead of {live:?}", ctx.live());
        info.label(["insert", "replace", "alien-insert", "remove", "visit", "find"][kind as usize]);
        info.nontrivial_if(did >= 1 && m.len() >= 3);
        Ok(())
    })();
    ctx.sound()?;
    r?;
    ensure!(ctx.live() == (0, 0), "after dropping everything {:?} keys and values are still alive", ctx.live());
    Ok(())
}
use hash_trie_pbt::gens::Uni;
fn check(c: &Case, info: &mut Info) -> Result<(), String> {
    let p = &c.pair;
    match c.point {
        None => with_three!(p.cfg, C => if p.map { bulk::<MapIn<C>, Map<C>>(c, |i| &i.l, info) } else { bulk::<SetIn<C>, Set<C>>(c, |i| &i.l, info) }),
        Some(_) => with_three!(p.cfg, C => if p.map { point::<Map<C>>(c, info) } else { point::<Set<C>>(c, info) }),
    }
}
fn main() {
    hash_trie_pbt::engine::main(Spec {
        id: "P27",
        rule: "Random containers and one point or bulk operation of any kind, run once to count its callbacks (hash, comparison, clone, conversion, operation, visitor) and once with up to five of them using the containers the operation is about: look-ups, inserts, removals, visits, clones and whole bulk operations, each held against the model. The operation must give what it gives undisturbed, the containers must stay as they are, and nothing may stay alive. Non-trivial: three or more entries and (bulk: two) uses from within a callback.",
        assumptions: &["the callbacks of the uses from within do not use the containers in turn"],
        quick: 100_000,
        thorough: 2_000_000,
        strategy: |big| {
            (
                pair(N_THREE, None, if big { 200 } else { 32 }, if big { 120 } else { 24 }),
                prop_oneof![3 => Just(None), 2 => (0u8..6, any::<u16>()).prop_map(Some)],
                proptest::collection::vec((any::<u16>(), any::<u8>(), any::<u16>()), 1..=5),
                hist::bulk(),
            )
                .prop_map(|(pair, point, inner, second)| Case { pair, point, inner, second })
                .boxed()
        },
        check,
        enumerate: None,
    })
}
