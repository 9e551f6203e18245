//! Laws that relate several bulk operations on the same containers, without a model of any of them.
use hash_trie_pbt::{bulk::*, dict::*, engine::*, ensure, gens::*, hist::*, pairs::*, probe::*, with_three};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use std::sync::Arc;

#[derive(Clone, Debug, Hash, PartialEq, Eq, Serialize, Deserialize)]
struct Case {
    pair: Pair,
    third: Vec<(u8, u32)>,
    closures: u8,
    law: u8,
}

struct Env {
    par: bool,
    flip: bool,
    /// which of the operations are closures rather than constants, one bit per use
    closures: std::cell::Cell<u8>,
}
impl Env {
    fn op(&self, k: u8) -> OpSpec {
        let c = self.closures.get();
        self.closures.set(c.rotate_right(1));
        if c & 1 == 0 { OpSpec::Const(k) } else { OpSpec::Table(vec![k]) }
    }
    fn join<D: Bulky>(&self, a: &D, b: &D, both: u8, left: u8, right: u8) -> D {
        a.join(b, &self.op(both), self.flip, &self.op(left), &self.op(right), &new_log(), strat(self.par)).0
    }
    fn union<D: Bulky>(&self, a: &D, b: &D) -> D { self.join(a, b, LEFT, UNCH, UNCH) }
    fn union_r<D: Bulky>(&self, a: &D, b: &D) -> D { self.join(a, b, RIGHT, UNCH, UNCH) }
    fn inter<D: Bulky>(&self, a: &D, b: &D) -> D { self.join(a, b, LEFT, REM, REM) }
    fn inter_r<D: Bulky>(&self, a: &D, b: &D) -> D { self.join(a, b, RIGHT, REM, REM) }
    fn minus<D: Bulky>(&self, a: &D, b: &D) -> D { self.join(a, b, REM, UNCH, REM) }
    fn xor<D: Bulky>(&self, a: &D, b: &D) -> D { self.join(a, b, REM, UNCH, UNCH) }
}
fn ids<D: Dict>(d: &D) -> Result<BTreeSet<u32>, String> {
    Ok(visited(d)?.into_keys().collect())
}
fn agree<D: Dict>(law: &str, a: &D, b: &D) -> Result<(), String> {
    let (x, y) = (visited(a)?, visited(b)?);
    ensure!(x == y, "{law}: the left-hand side is {}, the right-hand side {}", show(&x), show(&y));
    ensure!(a.size() == b.size() && a.size() == x.len(), "{law}: sizes are {} and {} for {} entries", a.size(), b.size(), x.len());
    Ok(())
}
const LAWS: u8 = 12;
fn laws<D: Bulky>(c: &Case, ctx: &Arc<Ctx>, info: &mut Info) -> Result<(), String> {
    let (a, am, b, bm) = build_pair::<D>(&c.pair, ctx);
    let mut p3 = c.pair.clone();
    p3.right = c.third.clone();
    // The third container shares an ancestor with none of the others.
    let (mut t, mut tm) = (D::fresh(), Model::new());
    for (i, (kind, k)) in c.third.iter().enumerate() {
        let id = *k as u32 % c.pair.uni.len() as u32;
        if *kind != 2 {
            let x = if D::MAP { i as u64 } else { 0 };
            if let Ok(n) = t.insert(c.pair.uni.key(ctx, id, 20000 + i as u32, D::w()), Val::new(ctx, x), false).map(|i| i.new) {
                t = n;
                tm.insert(id, (20000 + i as u32, x));
            }
        }
    }
    let e = Env { par: c.pair.bulk.par, flip: c.pair.bulk.flip, closures: std::cell::Cell::new(c.closures) };
    let none = D::fresh();
    let same_ids = |law: &str, x: &D, y: &D| -> Result<(), String> {
        let (x, y) = (ids(x)?, ids(y)?);
        ensure!(x == y, "{law}: the left-hand side holds {x:?}, the right-hand side {y:?}");
        Ok(())
    };
    let results: Vec<D> = match c.law % LAWS {
        0 => {
            // Swapping the arguments and flipping the operations changes nothing.
            let o = Ops::of(&c.pair, Which::Join);
            let both = settle(&o.both);
            let swap = both.with(|k| if k == LEFT || k == RIGHT { 3 - k } else { k });
            // New values would depend on the order of the arguments.
            let form = |o: &OpSpec| if o.is_const() { o.clone() } else { o.with(|k| if k == TRANS { REM } else { k }) };
            let (both, swap, left, right) = (form(&both), form(&swap), form(&o.left), form(&o.right));
            let x = a.join(&b, &both, false, &left, &right, &new_log(), strat(e.par)).0;
            let y = b.join(&a, &swap, e.flip, &right, &left, &new_log(), strat(!e.par)).0;
            agree("a joined with b, and b with a by the flipped operations", &x, &y)?;
            vec![x, y]
        }
        1 => {
            let (x, y) = (e.union(&a, &b), e.union_r(&b, &a));
            agree("a ∪ b = b ∪ a", &x, &y)?;
            let (v, w) = (e.inter(&a, &b), e.inter_r(&b, &a));
            agree("a ∩ b = b ∩ a", &v, &w)?;
            ensure!(x.size() + v.size() == a.size() + b.size(), "|a ∪ b| + |a ∩ b| = {} + {} but |a| + |b| = {} + {}", x.size(), v.size(), a.size(), b.size());
            vec![x, y, v, w]
        }
        2 => {
            let (x, y) = (e.union(&e.union(&a, &b), &t), e.union(&a, &e.union(&b, &t)));
            agree("(a ∪ b) ∪ c = a ∪ (b ∪ c)", &x, &y)?;
            vec![x, y]
        }
        3 => {
            let (x, y) = (e.inter(&e.inter(&a, &b), &t), e.inter(&a, &e.inter(&b, &t)));
            agree("(a ∩ b) ∩ c = a ∩ (b ∩ c)", &x, &y)?;
            vec![x, y]
        }
        4 => {
            let (x, y) = (e.inter(&a, &e.union(&b, &t)), e.union(&e.inter(&a, &b), &e.inter(&a, &t)));
            agree("a ∩ (b ∪ c) = (a ∩ b) ∪ (a ∩ c)", &x, &y)?;
            vec![x, y]
        }
        5 => {
            let (x, y) = (e.union(&a, &e.inter(&b, &t)), e.inter(&e.union(&a, &b), &e.union(&a, &t)));
            agree("a ∪ (b ∩ c) = (a ∪ b) ∩ (a ∪ c)", &x, &y)?;
            vec![x, y]
        }
        6 => {
            let x = e.union(&e.minus(&a, &b), &e.inter(&a, &b));
            agree("(a ∖ b) ∪ (a ∩ b) = a", &x, &a)?;
            let y = e.minus(&e.union(&a, &b), &b);
            agree("(a ∪ b) ∖ b = a ∖ b", &y, &e.minus(&a, &b))?;
            vec![x, y]
        }
        7 => {
            let x = e.xor(&a, &b);
            agree("a △ b = (a ∪ b) ∖ (a ∩ b)", &x, &e.minus(&e.union(&a, &b), &e.inter(&a, &b)))?;
            let y = e.union(&e.minus(&a, &b), &e.minus(&b, &a));
            agree("a △ b = (a ∖ b) ∪ (b ∖ a)", &x, &y)?;
            vec![x, y]
        }
        8 => {
            let (x, y) = (e.minus(&e.minus(&a, &b), &t), e.minus(&a, &e.union(&b, &t)));
            agree("(a ∖ b) ∖ c = a ∖ (b ∪ c)", &x, &y)?;
            let (v, w) = (e.minus(&a, &e.inter(&b, &t)), e.union(&e.minus(&a, &b), &e.minus(&a, &t)));
            agree("a ∖ (b ∩ c) = (a ∖ b) ∪ (a ∖ c)", &v, &w)?;
            vec![x, y, v, w]
        }
        9 => {
            let (x, y) = (e.xor(&e.xor(&a, &b), &t), e.xor(&a, &e.xor(&b, &t)));
            same_ids("(a △ b) △ c = a △ (b △ c)", &x, &y)?;
            let z = e.xor(&e.xor(&a, &b), &b);
            same_ids("(a △ b) △ b = a", &z, &a)?;
            vec![x, y, z]
        }
        10 => {
            agree("a ∪ a = a", &e.union(&a, &a), &a)?;
            agree("a ∩ a = a", &e.inter_r(&a, &a), &a)?;
            agree("a ∖ a = ∅", &e.minus(&a, &a), &none)?;
            agree("a △ a = ∅", &e.xor(&a, &a), &none)?;
            agree("a ∪ ∅ = a", &e.union(&a, &none), &a)?;
            agree("∅ ∪ a = a", &e.union(&none, &a), &a)?;
            agree("a ∩ ∅ = ∅", &e.inter(&a, &none), &none)?;
            agree("∅ ∩ a = ∅", &e.inter(&none, &a), &none)?;
            agree("a ∖ ∅ = a", &e.minus(&a, &none), &a)?;
            agree("∅ ∖ a = ∅", &e.minus(&none, &a), &none)?;
            vec![e.union(&a, &e.minus(&a, &a))]
        }
        _ => {
            // One container's operations, one after the other or at once.
            let (f, g) = (c.pair.bulk.one.clone(), c.pair.bulk.right.clone());
            let keep = |o: &OpSpec| OpSpec::Table((0..840).map(|i| if o.kind(i) == REM { REM } else { UNCH }).collect());
            let table = |o: &OpSpec| OpSpec::Table((0..840).map(|i| o.kind(i)).collect());
            let (f, g) = (keep(&f), if let OpSpec::Const(_) = g { g } else { table(&g) });
            let at_once = OpSpec::Table((0..840).map(|i| if f.kind(i) == REM || g.kind(i) == REM { REM } else { g.kind(i) }).collect());
            let par = strat(e.par);
            let x = a.transform(&f, &new_log(), par).0.transform(&g, &new_log(), par).0;
            let y = a.transform(&at_once, &new_log(), par).0;
            agree("a transformed by f and then by g, and by both at once", &x, &y)?;
            // Filtering distributes over union.
            let (v, w) = (e.union(&a, &b).transform(&f, &new_log(), par).0, e.union(&a.transform(&f, &new_log(), par).0, &b.transform(&f, &new_log(), par).0));
            agree("a ∪ b filtered, and the union of a filtered and b filtered", &v, &w)?;
            vec![x, y, v, w]
        }
    };
    for r in &results {
        let m = visited(r)?;
        same(r, &m, &c.pair.uni, ctx).map_err(|e| format!("a result of law {}: {e}", c.law % LAWS))?;
    }
    if let Some(r) = results.first() {
        drain(r, &visited(r)?, &c.pair.uni, ctx).map_err(|e| format!("a result of law {}: {e}", c.law % LAWS))?;
    }
    ensure!(visited(&a)? == am && visited(&b)? == bm && visited(&t)? == tm, "law {}: an argument changed", c.law % LAWS);
    info.label(&format!("law {}", c.law % LAWS));
    classes(&c.pair, &am, &bm, D::w(), info);
    let both = am.keys().filter(|k| bm.contains_key(k)).count();
    info.nontrivial_if(both >= 1 && am.len() > both && bm.len() > both);
    Ok(())
}
fn run<D: Bulky>(c: &Case, info: &mut Info) -> Result<(), String> {
    let ctx = Ctx::new();
    let r = laws::<D>(c, &ctx, info);
    ctx.sound()?;
    r
}
fn check(c: &Case, info: &mut Info) -> Result<(), String> {
    with_three!(c.pair.cfg, C => if c.pair.map { run::<Map<C>>(c, info) } else { run::<Set<C>>(c, info) })
}
fn main() {
    hash_trie_pbt::engine::main(Spec {
        id: "P25",
        rule: "Three random containers (two of them with a common ancestor in half of the cases) and one law of set algebra or of composition, its operations written as constants or closures at random and run under either strategy, with or without flip; both sides of the law are computed through the library and compared, and the results are taken apart. Non-trivial: the two main containers have common keys and each has keys of its own.",
        assumptions: &["union keeps the left container's entry for a common key, which makes the laws hold for stored keys and values and not for ids only; symmetric difference of three is compared by ids"],
        quick: 100_000,
        thorough: 3_000_000,
        strategy: |big| {
            let edits = if big { 200 } else { 30 };
            (pair(N_THREE, None, if big { 300 } else { 40 }, edits), proptest::collection::vec((prop_oneof![4 => Just(0u8), 1 => Just(2u8)], any::<u32>()), 0..=edits), prop_oneof![1 => Just(0u8), 1 => Just(255u8), 2 => any::<u8>()], any::<u8>())
                .prop_map(|(pair, third, closures, law)| Case { pair, third, closures, law })
                .boxed()
        },
        check,
        enumerate: None,
    })
}
