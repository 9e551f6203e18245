use hash_trie_pbt::{dict::*, engine::*, ensure, gens::*, hist::*, probe::*, with_cfg, with_few};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// One history, and a second choice of hashes and of container configuration for the same keys.
#[derive(Clone, Debug, Hash, PartialEq, Eq, Serialize, Deserialize)]
struct Twice {
    h: Hist,
    cfg2: u8,
    uni2: Uni,
    /// Point operations only, under any of the configurations.
    points: bool,
}

trait Bulks<D> {
    fn transform(d: &D, b: &Bulk, log: &Log) -> (D, Red);
    fn join(l: &D, r: &D, b: &Bulk, log: &Log) -> (D, Red);
}
struct Points;
impl<D: Dict> Bulks<D> for Points {
    fn transform(_: &D, _: &Bulk, _: &Log) -> (D, Red) {
        unreachable!()
    }
    fn join(_: &D, _: &D, _: &Bulk, _: &Log) -> (D, Red) {
        unreachable!()
    }
}
struct All;
impl<D: Bulky> Bulks<D> for All {
    fn transform(d: &D, b: &Bulk, log: &Log) -> (D, Red) {
        d.transform(&b.one, log, strat(b.par))
    }
    fn join(l: &D, r: &D, b: &Bulk, log: &Log) -> (D, Red) {
        l.join(r, &b.both, b.flip, &b.one, &b.right, log, strat(b.par))
    }
}

/// Everything a caller can observe of a history without looking at addresses.
fn trace<D: Dict, B: Bulks<D>>(h: &Hist, uni: &Uni, tags: bool) -> Result<(Vec<String>, bool), String> {
    let ctx = Ctx::new();
    let w = D::w();
    let n = h.uni.len() as u32;
    let mut out = vec![];
    let mut vs: Vec<D> = vec![D::fresh()];
    let t = |tag: u32| if tags { tag } else { 0 };
    let mut collided = false;
    let mut tag = 0;
    let shown = |d: &D| -> Result<Model, String> { Ok(visited(d)?.into_iter().map(|(i, (g, x))| (i, (t(g), x))).collect()) };
    for op in &h.ops {
        let s = if op.src == 0 { vs.len() - 1 } else { op.src as usize % vs.len() };
        let id = op.k as u32 % n;
        tag += 1;
        let x = tag as u64;
        let key = |tag| uni.key::<0>(&ctx, id, tag, w);
        let word = uni.word(id, w);
        let mut line = format!("{:?} key {id} on version {s}: ", op.kind);
        let mut new = None;
        match op.kind {
            Kind::Find | Kind::Forget => line += &format!("{:?}", vs[s].find(&key(0)).map(|(k, v)| (t(k.tag), v.map(|v| v.x)))),
            Kind::Insert | Kind::Replace => match vs[s].insert(key(tag), Val::new(&ctx, x), op.kind == Kind::Replace) {
                Ok(i) => {
                    line += &format!("in, replacing {:?}", i.prev.map(|(k, v)| (t(k.tag), v.map(|v| v.x))));
                    new = Some(i.new);
                }
                Err((k, v)) => line += &format!("refused for {:?}", (t(k.tag), v.map(|v| v.x))),
            },
            Kind::Remove => match vs[s].remove(&key(0)) {
                Some((d, k, v)) => {
                    line += &format!("out {:?}", (t(k.tag), v.map(|v| v.x)));
                    new = Some(d);
                }
                None => line += "absent",
            },
            Kind::Clone => new = Some(vs[s].clone()),
            Kind::Fill | Kind::Thin => {
                let mut d = vs[s].clone();
                for i in 0..op.b as u32 {
                    let id = (id + i) % n;
                    tag += 1;
                    let k = uni.key::<0>(&ctx, id, tag, w);
                    let next = if op.kind == Kind::Fill { d.insert(k, Val::new(&ctx, tag as u64), false).ok().map(|i| i.new) } else { d.remove(&k).map(|r| r.0) };
                    if let Some(e) = next {
                        d = e;
                    }
                }
                new = Some(d);
            }
            Kind::Transform | Kind::Join => {
                let b = &h.bulk[op.k as usize % h.bulk.len()];
                let log = new_log();
                let (d, r) = if op.kind == Kind::Transform {
                    B::transform(&vs[s], b, &log)
                } else {
                    let r = op.b as usize % vs.len();
                    B::join(&vs[s], &vs[r], b, &log)
                };
                let calls: Vec<Call> = take_log(&log).into_iter().map(|(a, i, g, x, i2, g2, x2)| (a, i, t(g), x, i2, t(g2), x2)).collect();
                let mut calls = calls;
                calls.sort();
                line += &format!("calls {calls:?}, reduction {:x}/{}", r.sum, r.n);
                new = Some(d);
            }
        }
        if let Some(d) = new {
            let m = shown(&d)?;
            collided |= m.keys().any(|i| *i != id && uni.word(*i, w) == word);
            ensure!(m.len() == d.size(), "size {} but {} entries visited", d.size(), m.len());
            line += &format!(" -> {m:?}");
            vs.push(d);
            if h.keep > 0 {
                vs.drain(..vs.len().saturating_sub(h.keep as usize));
                // What is absent must not be remembered of a version that used the same memory.
                for i in 0..n.min(64) {
                    let k = uni.key::<0>(&ctx, i, 0, w);
                    let f = vs.last().unwrap().find(&k).map(|(k, v)| (t(k.tag), v.map_or(0, |v| v.x)));
                    ensure!(f == m.get(&i).copied(), "find of key {i} says {f:?} where visit shows {:?}, after {line}", m.get(&i));
                }
            }
        }
        out.push(line);
    }
    ctx.sound()?;
    Ok((out, collided))
}

fn settle(op: &mut OpSpec) {
    // "Either side" is the library's choice; make it the left one.
    *op = op.with(|k| if k == UNCH { LEFT } else { k });
}
fn check(c: &Twice, info: &mut Info) -> Result<(), String> {
    let mut h = c.h.clone();
    h.bulk.iter_mut().for_each(|b| settle(&mut b.both));
    // A transformed pair may keep either side's key.
    let tags = !h.bulk.iter().any(|b| !b.both.is_const() && b.both.kinds().contains(&TRANS));
    if c.points {
        h.ops.retain(|o| !matches!(o.kind, Kind::Transform | Kind::Join));
    }
    let run = |cfg: u8, uni: &Uni| -> Result<(Vec<String>, bool), String> {
        if c.points {
            return with_cfg!(cfg, C => if h.map { trace::<Map<C>, Points>(&h, uni, tags) } else { trace::<Set<C>, Points>(&h, uni, tags) });
        }
        with_few!(cfg, C => if h.map { trace::<Map<C>, All>(&h, uni, tags) } else { trace::<Set<C>, All>(&h, uni, tags) })
    };
    let kinds = if c.points { N_ALL } else { N_FEW };
    let (a, ca) = run(h.cfg, &h.uni)?;
    let (b, cb) = run(c.cfg2, &c.uni2)?;
    for (i, (x, y)) in a.iter().zip(&b).enumerate() {
        ensure!(x == y, "step {i} depends on the hashes: under configuration {} it is\n  {x}\nand under configuration {} with other hashes\n  {y}", h.cfg % kinds, c.cfg2 % kinds);
    }
    info.label_if(ca && cb, "both-collide");
    info.label_if(h.cfg % kinds != c.cfg2 % kinds, "different-configurations");
    info.label_if(!tags, "values-only");
    info.nontrivial_if(ca != cb && a.len() >= 6);
    Ok(())
}
fn main() {
    hash_trie_pbt::engine::main(Spec {
        id: "P05",
        rule: "One random branching history of point and bulk operations, run twice: with two independent assignments of hashes to the same keys and two independently chosen hash-word/flag-word/hasher configurations; everything observable is compared step by step. Non-trivial: six or more steps, and keys share a hash word under exactly one of the two assignments.",
        assumptions: &["joins that may keep either side's entry are asked for the left one; where a pair is transformed the identity of the kept key is not compared", "the order of visit and of callbacks is not compared"],
        quick: 100_000,
        thorough: 2_000_000,
        strategy: |big| {
            (hist(HistCfg { cfgs: N_ALL, maps: None, keys: if big { 200 } else { 32 }, ops: if big { 120 } else { 30 }, branch: true, forget: false, bulk: true }), 0..N_ALL, any::<bool>(), uni(if big { 200 } else { 32 }))
                .prop_map(|(h, cfg2, points, mut uni2)| {
                    // The same keys: as many as the history's own universe has.
                    let n = h.uni.len();
                    let m = uni2.keys.len();
                    uni2.keys = (0..n).map(|i| { let mut k = uni2.keys[i % m]; if i >= m { k.2 = k.2.wrapping_add((i / m) as u8); } k }).collect();
                    Twice { h, cfg2, uni2, points }
                })
                .boxed()
        },
        check,
        enumerate: None,
    })
}
