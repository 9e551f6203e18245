//! Bulk operations as futures: nothing happens before they are polled, they can be abandoned, and
//! they come to their end by themselves, whatever else runs meanwhile.
use hash_trie_pbt::{bulk::*, dict::*, engine::*, ensure, exec::*, hist, hist::*, pairs::*, probe::*, with_three};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::atomic::Ordering::Relaxed;
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, Hash, PartialEq, Eq, Serialize, Deserialize)]
struct Case {
    pair: Pair,
    /// another operation on the same containers, in place of the first one's
    second: hist::Bulk,
    /// the poll before which the operation is abandoned
    after: u8,
}
fn counts(ctx: &Ctx) -> [u64; 5] {
    [&ctx.eqs, &ctx.hashes, &ctx.key_clones, &ctx.val_clones, &ctx.work].map(|c| c.load(Relaxed))
}
fn bulk<I: Inputs>(c: &Case, info: &mut Info) -> Result<(), String> {
    let ctx = Ctx::new();
    let r: Result<(), String> = (|| {
        let p = &c.pair;
        let which = Which::of(I::map(), p.variant);
        if !which.asynchronous() {
            info.label("no future");
            return Ok(());
        }
        let i = Arc::new(I::build(p, which, &ctx)?);
        let o = Ops::of(p, which);
        let mut q = p.clone();
        q.bulk = c.second.clone();
        (q.mute, q.mute2) = (p.mute2.clone(), p.mute.clone());
        let o2 = Ops::of(&q, which);
        let made = |m: Made| -> Result<(Model, Red), String> { Ok((m.model()?, m.red.clone())) };
        let (want, want2) = (made(i.run(&o, &new_log()))?, made(i.run(&o2, &new_log()))?);
        let (lm, rm) = (i.models().0.clone(), i.models().1.clone());
        let (la, ra) = (i.left_now().addr, i.right_now().addr);
        let live = ctx.live();
        let intact = |when: &str| -> Result<(), String> {
            ctx.sound().map_err(|e| format!("{when}: {e}"))?;
            ensure!(ctx.live() == live, "{when} {:?} keys and values are alive instead of {live:?}", ctx.live());
            let (l, r) = (i.left_now(), i.right_now());
            ensure!(l.model()? == lm && r.model()? == rm, "{when} an input shows {} and {} instead of {} and {}", show(&l.model()?), show(&r.model()?), show(&lm), show(&rm));
            ensure!(l.addr == la && r.addr == ra, "{when} an input's entries have moved");
            Ok(())
        };

        // Abandoned before it is polled: it has never been.
        let log = new_log();
        let before = counts(&ctx);
        let r = with_future(|_| Then::Abandon, || i.run(&o, &log));
        ensure!(r.is_none(), "{which:?} gave a result without being polled");
        ensure!(counts(&ctx) == before, "{which:?}, never polled, compared, hashed, cloned or called back: {:?} became {:?}", before, counts(&ctx));
        ensure!(take_log(&log).is_empty(), "{which:?}, never polled, called its operation");
        intact(&format!("after {which:?} that was never polled"))?;

        // Another operation on the same containers runs from start to end between its polls.
        let inner: Arc<Mutex<Vec<Result<(Model, Red), String>>>> = Arc::default();
        let (seen, i2, o2b) = (inner.clone(), i.clone(), o2.clone());
        let outer = with_future(
            move |n| {
                if n < 3 {
                    let m = i2.run(&o2b, &new_log());
                    seen.lock().unwrap().push(m.model().map(|x| (x, m.red.clone())));
                }
                Then::Poll
            },
            || i.run(&o, &new_log()),
        );
        let outer = made(outer.unwrap())?;
        ensure!(outer == want, "{which:?}, with another operation between its polls, makes {} and not {}", show(&outer.0), show(&want.0));
        let inner = std::mem::take(&mut *inner.lock().unwrap());
        ensure!(!inner.is_empty(), "{which:?} gave a result without being polled");
        info.label_if(inner.len() == 1, "one poll");
        for x in inner {
            let x = x?;
            ensure!(x == want2, "{which:?}, run between the polls of another, makes {} and not {}", show(&x.0), show(&want2.0));
        }
        intact(&format!("after two {which:?} in one another"))?;

        // Abandoned between its polls, if it has several.
        let after = 1 + c.after as u64 % 3;
        let r = with_future(move |n| if n == after { Then::Abandon } else { Then::Poll }, || i.run(&o, &new_log()));
        info.label_if(r.is_none(), "abandoned half-way");
        if let Some(m) = r {
            ensure!(made(m)? == want, "{which:?} made something else the third time");
        }
        intact(&format!("after {which:?} that was abandoned"))?;

        let again = made(i.run(&o, &new_log()))?;
        ensure!(again == want, "{which:?} after all this makes {} and not {}", show(&again.0), show(&want.0));
        intact(&format!("after {which:?}"))?;
        info.label(&format!("{}{which:?}", if I::map() { "map " } else { "set " }));
        info.nontrivial_if(lm.len() >= 3 && want != want2);
        Ok(())
    })();
    ctx.sound()?;
    r?;
    ensure!(ctx.live() == (0, 0), "after dropping everything {:?} keys and values are still alive", ctx.live());
    Ok(())
}
fn check(c: &Case, info: &mut Info) -> Result<(), String> {
    let p = &c.pair;
    with_three!(p.cfg, C => if p.map { bulk::<MapIn<C>>(c, info) } else { bulk::<SetIn<C>>(c, info) })
}
fn main() {
    hash_trie_pbt::engine::main(Spec {
        id: "P26",
        rule: "Random containers and one bulk operation of any kind that is a future, run under an executor that decides before each poll: never polled (no hash, comparison, clone or call may happen), polled with another operation on the same containers run from start to end before each of its first polls (both must give what they give alone), and dropped after one to three polls; the inputs must stay as they are, and nothing may stay alive. A future that waits without having arranged to be woken fails. Non-trivial: three or more entries on the left and two operations with different results.",
        assumptions: &["today every future is ready at its first poll, so that dropping it half-way is exercised only if that changes"],
        quick: 100_000,
        thorough: 2_000_000,
        strategy: |big| {
            (pair(N_THREE, None, if big { 300 } else { 40 }, if big { 200 } else { 30 }), hist::bulk(), any::<u8>())
                .prop_map(|(pair, second, after)| Case { pair, second, after })
                .boxed()
        },
        check,
        enumerate: None,
    })
}
