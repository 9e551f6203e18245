//! A callback of the user's panics in the middle of an operation.
use hash_trie_pbt::{bulk::*, dict::*, engine::*, ensure, hist::*, pairs::*, probe::*, with_three};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::atomic::Ordering::Relaxed;
use std::sync::Arc;

#[derive(Clone, Debug, Hash, PartialEq, Eq, Serialize, Deserialize)]
struct Case {
    pair: Pair,
    /// None: the bulk operation; otherwise a point operation (insert, replace, alien insert, remove, visit, find) on a key
    point: Option<(u8, u16)>,
    at: u16,
}

/// Let every callback in turn (or, beyond 12, the chosen one and 11 around) panic; nothing may show
/// of the attempt afterwards.
fn attempts(ctx: &Arc<Ctx>, what: &str, at: u16, mut run: impl FnMut(), mut intact: impl FnMut() -> Result<(), String>, info: &mut Info) -> Result<u64, String> {
    let w0 = ctx.work.load(Relaxed);
    let live = ctx.live();
    run();
    let n = ctx.work.load(Relaxed) - w0;
    ensure!(ctx.live() == live, "{what} and forgetting its result leaves {:?} keys and values alive instead of {live:?}", ctx.live());
    if n == 0 {
        return Ok(0);
    }
    let start = if n <= 12 { 0 } else { at as u64 % (n - 11) };
    let mut hit = 0;
    for k in start..n.min(start + 12) {
        ctx.arm(Some(k as u32));
        let r = guarded(&mut run);
        ctx.arm(None);
        ctx.sound().map_err(|e| format!("{what}, callback {k} of {n} panics: {e}"))?;
        if let Err(e) = r {
            ensure!(e.starts_with(INJECTED), "{what}, callback {k} of {n} panics: the operation panicked otherwise: {e}");
            hit += 1;
        }
        ensure!(ctx.live() == live, "{what}, callback {k} of {n} panics: {:?} keys and values are alive instead of {live:?}", ctx.live());
        intact().map_err(|e| format!("{what}, callback {k} of {n} panicked: {e}"))?;
    }
    info.label_if(hit > 0, "panicked");
    Ok(hit)
}

fn bulk<I: Inputs>(c: &Case, info: &mut Info) -> Result<(), String> {
    let ctx = Ctx::new();
    let r = (|| {
        let p = &c.pair;
        let which = Which::of(I::map(), p.variant);
        let i = I::build(p, which, &ctx)?;
        let o = Ops::of(p, which);
        let first = i.run(&o, &new_log());
        let (want, red) = (first.model()?, first.red.clone());
        drop(first);
        let (lm, rm) = (i.models().0.clone(), i.models().1.clone());
        let (la, ra) = (i.left_now().addr, i.right_now().addr);
        let hit = attempts(&ctx, &format!("{which:?}"), c.at, || drop(i.run(&o, &new_log())), || {
            let (l, r) = (i.left_now(), i.right_now());
            ensure!(l.model()? == lm && r.model()? == rm, "an input changed");
            ensure!(l.addr == la && r.addr == ra, "an input's entries moved");
            Ok(())
        }, info)?;
        let again = i.run(&o, &new_log());
        ensure!(again.model()? == want && again.red == red, "{which:?} after a panic makes {}, before it made {}", show(&again.model()?), show(&want));
        info.label(&format!("{}{which:?}", if I::map() { "map " } else { "set " }));
        info.nontrivial_if(hit >= 2 && lm.len() >= 3);
        Ok(())
    })();
    ctx.sound()?;
    r
}
fn point<D: Dict>(c: &Case, info: &mut Info) -> Result<(), String> {
    let ctx = Ctx::new();
    let r: Result<(), String> = (|| {
        let (kind, k) = c.point.unwrap();
        let (d, m, e, em) = build_pair::<D>(&c.pair, &ctx);
        let uni = &c.pair.uni;
        let id = k as u32 % uni.len() as u32;
        let what = format!("{} of key {id}", ["insert", "insert with replacement", "insert through another type", "remove", "visit", "find"][kind as usize % 6]);
        let (addr, eaddr) = (addresses(&d), addresses(&e));
        let run = || match kind % 6 {
            0 | 1 => drop(d.insert(uni.key(&ctx, id, 5, D::w()), Val::new(&ctx, 5), kind == 1).map(|i| i.new)),
            2 => drop(d.insert_alien(uni.key::<1>(&ctx, id, 5, D::w()), Val::<1>::new(&ctx, 5), k & 1024 != 0).map(|i| i.new)),
            3 => drop(d.remove(&uni.key(&ctx, id, 5, D::w())).map(|r| r.0)),
            4 => d.visit(|k, _| k.ctx().tick()),
            _ => drop(d.find(&uni.key(&ctx, id, 5, D::w()))),
        };
        let hit = attempts(&ctx, &what, c.at, run, || {
            let s = visited(&d)?;
            ensure!(s == m && d.size() == m.len(), "the container shows {} of size {} instead of {}", show(&s), d.size(), show(&m));
            ensure!(addresses(&d) == addr, "the container's entries moved");
            ensure!(visited(&e)? == em && addresses(&e) == eaddr, "a container with common storage changed");
            Ok(())
        }, info)?;
        same(&d, &m, uni, &ctx).map_err(|e| format!("after {what} panicked: {e}"))?;
        drain(&d, &m, uni, &ctx).map_err(|e| format!("after {what} panicked: {e}"))?;
        info.label(["insert", "replace", "alien-insert", "remove", "visit", "find"][kind as usize % 6]);
        info.nontrivial_if(hit >= 1 && m.len() >= 3);
        Ok(())
    })();
    ctx.sound()?;
    r?;
    ensure!(ctx.live() == (0, 0), "after dropping everything {:?} keys and values are still alive", ctx.live());
    Ok(())
}
fn check(c: &Case, info: &mut Info) -> Result<(), String> {
    let p = &c.pair;
    match c.point {
        None => with_three!(p.cfg, C => if p.map { bulk::<MapIn<C>>(c, info) } else { bulk::<SetIn<C>>(c, info) }),
        Some(_) => with_three!(p.cfg, C => if p.map { point::<Map<C>>(c, info) } else { point::<Set<C>>(c, info) }),
    }
}
fn main() {
    hash_trie_pbt::engine::main(Spec {
        id: "P23",
        rule: "Random containers and one point or bulk operation of any kind, run once to count the callbacks it makes (hash, comparison, clone, conversion, operation) and then once for each of up to 12 of them with a panic injected there. After each attempt the containers must show the same entries at the same addresses, exactly the entries of living containers may be alive, nothing may have been dropped twice, and the operation must still give its result. Non-trivial: three or more entries and at least one (bulk: two) injected panics that surfaced.",
        assumptions: &["the panic comes from a callback, not from a destructor or the allocator, and it unwinds"],
        quick: 100_000,
        thorough: 2_000_000,
        strategy: |big| {
            (pair(N_THREE, None, if big { 200 } else { 32 }, if big { 120 } else { 24 }), prop_oneof![3 => Just(None), 2 => (0u8..6, any::<u16>()).prop_map(Some)], any::<u16>())
                .prop_map(|(pair, point, at)| Case { pair, point, at })
                .boxed()
        },
        check,
        enumerate: None,
    })
}
