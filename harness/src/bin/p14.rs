use hash_trie::ParallelismStrategy;
use proptest::prelude::*;
use hash_trie_pbt::{bulk::*, dict::*, engine::*, ensure, hist::*, pairs::*, probe::*, with_three};

fn run<I: Inputs>(p: &Pair, info: &mut Info) -> Result<(), String> {
    let ctx = Ctx::new();
    let r = (|| {
        // Only the strategy differs; the two synchronous operations take none.
        let asyncs: Vec<Which> = if I::map() { MAP_OPS.to_vec() } else { SET_OPS.to_vec() }.into_iter().filter(|w| w.asynchronous()).collect();
        let which = asyncs[p.variant as usize % asyncs.len()];
        let i = I::build(p, which, &ctx)?;
        let mut o = Ops::of(p, which);
        let joint = which == Which::Join;
        if joint {
            o.both = settle(&o.both);
        }
        let mut runs = vec![];
        for par in [false, true] {
            o.par = par;
            let log = new_log();
            ctx.watch_threads(!par);
            let made = i.run(&o, &log);
            let foreign = ctx.watch_threads(false);
            ensure!(!foreign, "{which:?} under Sequential called an operation on another thread");
            let values_only = joint && has(&o.both, TRANS);
            let m: Model = made.model()?.into_iter().map(|(k, (t, x))| (k, (if values_only { 0 } else { t }, x))).collect();
            runs.push((m, take_log(&log), made.red.clone(), made));
        }
        let (s, q) = (&runs[0], &runs[1]);
        ensure!(s.0 == q.0, "{which:?} makes {} under Sequential and {} under MiddleIndex", show(&s.0), show(&q.0));
        ensure!(s.1 == q.1, "{which:?} calls its operations as {} under Sequential and {} under MiddleIndex", show_calls(&s.1), show_calls(&q.1));
        ensure!((s.2.sum, s.2.n) == (q.2.sum, q.2.n), "{which:?} reduces to {:?} under Sequential and {:?} under MiddleIndex", s.2, q.2);
        let (lm, rm) = i.models();
        ensure!(&i.left_now().model()? == lm && &i.right_now().model()? == rm, "{which:?} changed its inputs");
        info.label(&format!("{}{which:?}", if I::map() { "map " } else { "set " }));
        classes(p, lm, rm, I::width(), info);
        info.label_if(s.0.is_empty(), "empty-result");
        let both = lm.keys().filter(|k| rm.contains_key(k)).count();
        info.nontrivial_if(lm.len() >= 4 && (which == Which::Transform || both >= 1 && rm.len() > both));
        Ok(())
    })();
    ctx.sound()?;
    r
}
fn check(p: &Pair, info: &mut Info) -> Result<(), String> {
    with_three!(p.cfg, C => if p.map { run::<MapIn<C>>(p, info) } else { run::<SetIn<C>>(p, info) })
}
fn strategies(_: &mut Info) -> Result<u64, String> {
    ensure!(matches!(ParallelismStrategy::default(), ParallelismStrategy::Sequential), "the default strategy is not Sequential");
    // Whatever default_par is, it must be one of the strategies the library can run.
    match ParallelismStrategy::default_par() {
        ParallelismStrategy::Sequential | ParallelismStrategy::MiddleIndex => Ok(2),
    }
}
fn main() {
    hash_trie_pbt::engine::main(Spec {
        id: "P14",
        rule: "Random containers and operations; every asynchronous operation (transform, transform_with_transformed, and the mixed transform/transmute and transform/transfute forms on maps and sets) runs once under each strategy on the same inputs (half of the cases with outcomes that go by the half of a node an entry is in), and contents, calls to the operations and reductions are compared. Non-trivial: four or more left entries and, for two-sided operations, common and right-only keys.",
        assumptions: &["joins that may keep either side's entry are asked for the left one; where a pair is transformed the identity of the kept key is not compared", "constants of constant operations may show differently in the reduction"],
        quick: 200_000,
        thorough: 3_000_000,
        strategy: |big| {
            let by_half = prop_oneof![1 => Just(None), 1 => (prop_oneof![2 => Just(0u8), 1 => 1u8..3], any::<(u8, u8)>(), any::<bool>()).prop_map(Some)];
            (pair(N_THREE, None, if big { 300 } else { 40 }, if big { 200 } else { 30 }), by_half)
                .prop_map(|(p, h)| match h {
                    Some((level, themes, constant)) => {
                        let shape = [(64, 5), (8, 3), (64, 7)][p.cfg as usize % 3];
                        halves(p, shape, level, themes, constant)
                    }
                    None => p,
                })
                .boxed()
        },
        check,
        enumerate: Some(strategies),
    })
}
