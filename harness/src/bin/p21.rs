use hash_trie_pbt::{dict::*, engine::*, ensure, gens::*, hist::*, probe::*, with_cfg};
use proptest::prelude::*;
use std::sync::Arc;

/// What an operation hands back about an entry: id, tag, value and where the entry is.
type Seen = (u32, u32, u64, usize);
fn seen((k, v): (&Key<0>, Option<&Val<0>>)) -> Seen {
    k.touch();
    (k.id, k.tag, v.map_or(0, |v| v.x), k as *const _ as usize)
}
/// The address is compared with where the version the operation ran on keeps its entry.
fn placed(s: &Seen, d: &Addr) -> bool {
    d.get(&s.0).map(|a| a.0) == Some(s.3)
}

fn run<D: Dict>(h: &Hist, info: &mut Info) -> Result<(), String> {
    let ctx = Ctx::new();
    let r = steps::<D>(h, &ctx, info);
    ctx.sound()?;
    r?;
    ensure!(ctx.live() == (0, 0), "after dropping everything {:?} keys and values are still alive", ctx.live());
    Ok(())
}
fn steps<D: Dict>(h: &Hist, ctx: &Arc<Ctx>, info: &mut Info) -> Result<(), String> {
    let n = h.uni.len() as u32;
    // The same history through the stored types (own) and through look-alike types (alien).
    let mut own: Vec<(D, Model)> = vec![(D::fresh(), Model::new())];
    let mut alien: Vec<D> = vec![D::fresh()];
    let (mut tag, mut hits, mut misses, mut refused, mut inserted, mut removed, mut crowd) = (0, 0, 0, 0, 0, 0, false);
    for (seq, op) in h.ops.iter().enumerate() {
        let si = if op.src == 0 { own.len() - 1 } else { op.src as usize % own.len() };
        let id = op.k as u32 % n;
        let a = addresses(&alien[si]);
        let m = own[si].1.clone();
        let k0 = h.uni.key::<0>(ctx, id, 0, D::w());
        let k1 = h.uni.key::<1>(ctx, id, 0, D::w());
        let at = |w: String| format!("step {seq} ({:?} key {id}): {w}", op.kind);
        crowd |= m.keys().any(|i| *i != id && h.uni.word(*i, D::w()) == h.uni.word(id, D::w()));
        let want = m.get(&id).map(|(t, x)| (id, *t, *x));
        let strip = |s: Option<Seen>| s.map(|s| (s.0, s.1, s.2));
        // Looking up through a look-alike key, of this entry and of another.
        for (look, expect) in [(id, want), ((id + 1) % n, m.get(&((id + 1) % n)).map(|(t, x)| ((id + 1) % n, *t, *x)))] {
            let k = h.uni.key::<1>(ctx, look, 0, D::w());
            let f = alien[si].find_alien(&k).map(seen);
            ensure!(strip(f) == expect, "{}", at(format!("find({look}) through a look-alike key shows {f:?} instead of {expect:?}")));
            if let Some(f) = f {
                hits += 1;
                ensure!(placed(&f, &a), "{}", at("find through a look-alike key hands out a reference that is not to the stored entry".into()));
            } else {
                misses += 1;
            }
        }
        let mut next: Option<(D, D, Model)> = None;
        match op.kind {
            Kind::Insert | Kind::Replace | Kind::Fill => {
                tag += 1;
                let replace = op.kind == Kind::Replace;
                let x = if D::MAP { op.b as u64 + 1000 * seq as u64 } else { 0 };
                let o = own[si].0.insert(h.uni.key(ctx, id, tag, D::w()), Val::new(ctx, x), replace);
                let r = alien[si].insert_alien(h.uni.key::<1>(ctx, id, tag, D::w()), Val::<1>::new(ctx, x), replace);
                let turned = ctx.conversions();
                let once = if r.is_ok() { (1, D::MAP as u64) } else { (0, 0) };
                ensure!(turned == once, "{}", at(format!("the insert converted look-alike keys and values {turned:?} times instead of {once:?}")));
                match (o, r) {
                    (Err(_), Err(e)) => {
                        refused += 1;
                        let e = seen(e);
                        ensure!(strip(Some(e)) == want && placed(&e, &a), "{}", at(format!("the refused insert of a look-alike key shows {e:?}, stored is {want:?}")));
                    }
                    (Ok(o), Ok(i)) => {
                        inserted += 1;
                        let prev = i.prev.map(seen);
                        ensure!(strip(prev) == want, "{}", at(format!("inserting a look-alike key hands back {prev:?}, stored was {want:?}")));
                        ensure!(prev.map_or(true, |p| placed(&p, &a)), "{}", at("the replaced entry's reference is not to the old version's entry".into()));
                        let b = addresses(&i.new);
                        ensure!(b.get(&id) == Some(&(i.kp as usize, i.vp.map_or(0, |v| v as usize))), "{}", at("the pointers to the new entry are not to the entry in the new version".into()));
                        let mut m2 = m.clone();
                        m2.insert(id, (tag, x));
                        next = Some((o.new, i.new, m2));
                    }
                    (o, r) => return Err(at(format!("inserting {} through the stored type and {} through the look-alike type", if o.is_ok() { "succeeds" } else { "is refused" }, if r.is_ok() { "succeeds" } else { "is refused" }))),
                }
            }
            Kind::Remove | Kind::Thin | Kind::Forget => {
                let o = own[si].0.remove(&k0);
                let r = alien[si].remove_alien(&k1);
                ensure!(ctx.conversions() == (0, 0), "{}", at("a removal converted a look-alike".into()));
                match (o, r) {
                    (None, None) => {}
                    (Some((o, ..)), Some((r, k, v))) => {
                        removed += 1;
                        let s = seen((k, v));
                        ensure!(strip(Some(s)) == want && placed(&s, &a), "{}", at(format!("removing through a look-alike key hands back {s:?}, stored was {want:?}")));
                        let mut m2 = m.clone();
                        m2.remove(&id);
                        next = Some((o, r, m2));
                    }
                    (o, _) => return Err(at(format!("removing through the stored type {} but through the look-alike type it does the opposite", if o.is_some() { "finds the key" } else { "does not find the key" }))),
                }
            }
            Kind::Find | Kind::Clone | Kind::Transform | Kind::Join => {}
        }
        if let Some((o, r, m)) = next {
            let (vo, vr) = (visited(&o)?, visited(&r)?);
            ensure!(vo == vr && vr == m && r.size() == m.len(), "{}", at(format!("through the stored type the result is {}, through the look-alike type {} of size {}, expected {}", show(&vo), show(&vr), r.size(), show(&m))));
            ensure!(visited(&alien[si])? == own[si].1, "{}", at("the operation through look-alike types changed the version it ran on".into()));
            own.push((o, m));
            alien.push(r);
        }
    }
    let (d, m) = own.last().unwrap();
    same(d, m, &h.uni, ctx)?;
    same(alien.last().unwrap(), m, &h.uni, ctx).map_err(|e| format!("at the end, built through look-alike types: {e}"))?;
    drain(alien.last().unwrap(), m, &h.uni, ctx)?;
    info.label_if(crowd, "shared-hash-word");
    info.label_if(refused > 0, "refused-insert");
    info.label_if(hits > 0 && misses > 0, "hit-and-miss");
    info.label(if D::MAP { "map" } else { "set" });
    info.nontrivial_if(inserted >= 3 && removed >= 1 && hits >= 1 && misses >= 1);
    Ok(())
}
fn check(h: &Hist, info: &mut Info) -> Result<(), String> {
    with_cfg!(h.cfg, C => if h.map { run::<Map<C>>(h, info) } else { run::<Set<C>>(h, info) })
}
fn main() {
    hash_trie_pbt::engine::main(Spec {
        id: "P21",
        rule: "Random branching histories run twice side by side: once with the stored key and value types, once with look-alike types that hash and compare the same and convert on insertion. Outcomes, entries handed back, their addresses, contents and sizes are compared at every step. Non-trivial: three successful inserts, a removal, and look-ups that hit and that miss.",
        assumptions: &["the look-alike key's contract is met: it hashes as the stored key does, and equals it exactly if its conversion does"],
        quick: 80_000,
        thorough: 2_000_000,
        strategy: |big| hist(HistCfg { cfgs: N_ALL, maps: None, keys: if big { 200 } else { 32 }, ops: if big { 150 } else { 30 }, branch: true, forget: false, bulk: false }).boxed(),
        check,
        enumerate: None,
    })
}
