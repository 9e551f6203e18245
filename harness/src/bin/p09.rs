use hash_trie_pbt::{dict::*, engine::*, ensure, gens::*, hist::*, pairs::*, probe::*, with_few};
use std::sync::Arc;

fn expect(m: &Model, op: &OpSpec, map: bool) -> Expect {
    expect_mixed(m, &Model::new(), &OpSpec::Const(REM), op, &OpSpec::Const(REM), Way::Mute, Way::Mute, Keep::New, map)
}
fn maps<C: Cfg>(p: &Pair, ctx: &Arc<Ctx>, info: &mut Info) -> Result<(), String> {
    let base: Vec<(u8, u32)> = p.start().iter().map(|k| (0, *k)).collect();
    let (d, m) = build_map1::<C>(&[], &[base, p.left.clone()].concat(), &p.uni, ctx, 1)?;
    let log = new_log();
    let (n, r): (Map<C>, Red) = unsafe { d.transmute(red, map_mute::<1, 0>(&p.mute, 1, CONST_LEFT, &log)) };
    let e = expect(&m, &p.mute, true);
    e.check(&visited(&n)?, &log, &r)?;
    let nm = e.model();
    same(&n, &nm, &p.uni, ctx).map_err(|e| format!("the result: {e}"))?;
    drain(&n, &nm, &p.uni, ctx).map_err(|e| format!("the result: {e}"))?;
    // Back again to the type it came from.
    let (b, r): (Map<C, 1>, Red) = unsafe { n.transmute(red, map_mute::<0, 1>(&p.mute2, 1, CONST_LEFT, &log)) };
    let e2 = expect(&nm, &p.mute2, true);
    let shown = std::sync::Mutex::new(Model::new());
    b.visit(|k, v| {
        k.touch();
        v.touch();
        shown.lock().unwrap().insert(k.id, (k.tag, v.x));
    });
    e2.check(&shown.into_inner().unwrap(), &log, &r).map_err(|e| format!("transmuting back: {e}"))?;
    ensure!(b.size() == e2.model().len(), "transmuting back: size is {} instead of {}", b.size(), e2.model().len());
    for (id, (tag, x)) in e2.model() {
        match b.find(&p.uni.key::<1>(ctx, id, 0, D0::<C>::w())) {
            Ok((k, v)) => ensure!(k.tag == tag && v.x == x, "transmuting back: find({id}) shows {k:?}={v:?} instead of #{tag}={x}"),
            Err(_) => return Err(format!("transmuting back: find({id}) does not find it")),
        }
    }
    // The input is as it was.
    let seen = std::sync::Mutex::new(Model::new());
    d.visit(|k, v| {
        k.touch();
        v.touch();
        seen.lock().unwrap().insert(k.id, (k.tag, v.x));
    });
    ensure!(seen.into_inner().unwrap() == m && d.size() == m.len(), "transmute changed its input");
    tally(p, &m, &nm, D0::<C>::w(), info);
    Ok(())
}
type D0<C> = Map<C>;
fn sets<C: Cfg>(p: &Pair, ctx: &Arc<Ctx>, info: &mut Info) -> Result<(), String> {
    let base: Vec<(u8, u32)> = p.start().iter().map(|k| (0, *k)).collect();
    let (d, m) = build_set1::<C>(&[], &[base, p.left.clone()].concat(), &p.uni, ctx, 1)?;
    let log = new_log();
    let (n, r): (Set<C>, Red) = unsafe { d.transmute(red, set_mute::<1, 0>(&p.mute, 1, CONST_LEFT, &log)) };
    let e = expect(&m, &p.mute, false);
    e.check(&visited(&n)?, &log, &r)?;
    let nm = e.model();
    same(&n, &nm, &p.uni, ctx).map_err(|e| format!("the result: {e}"))?;
    drain(&n, &nm, &p.uni, ctx).map_err(|e| format!("the result: {e}"))?;
    let seen = std::sync::Mutex::new(Model::new());
    d.visit(|k| {
        k.touch();
        seen.lock().unwrap().insert(k.id, (k.tag, 0));
    });
    ensure!(seen.into_inner().unwrap() == m && d.size() == m.len(), "transmute changed its input");
    tally(p, &m, &nm, D0::<C>::w(), info);
    Ok(())
}
fn tally(p: &Pair, m: &Model, nm: &Model, w: u32, info: &mut Info) {
    let g: Vec<usize> = p.uni.groups(m.keys().copied(), w).into_values().collect();
    info.label_if(g.iter().any(|n| *n > 1), "collisions");
    info.label_if(g.len() == 1 && m.len() > 1, "one-collision-list");
    info.label_if(nm.len() == m.len(), "all-kept");
    info.label_if(nm.is_empty() && !m.is_empty(), "emptied");
    info.label_if(p.map, "map");
    info.nontrivial_if(m.len() >= 3 && !nm.is_empty() && nm.len() < m.len());
}
fn check(p: &Pair, info: &mut Info) -> Result<(), String> {
    let ctx = Ctx::new();
    let r = with_few!(p.cfg, C => if p.map { maps::<C>(p, &ctx, info) } else { sets::<C>(p, &ctx, info) });
    ctx.sound()?;
    r
}
fn main() {
    let _ = strat;
    hash_trie_pbt::engine::main(Spec {
        id: "P09",
        rule: "Random maps and sets of one entry type transmuted to another type (keys keep identity and hash, as the contract demands) by a random per-key outcome table or the constant removal, maps also back again; results are looked up, visited and taken apart. Non-trivial: three or more entries, some kept and some removed.",
        assumptions: &["the caller's contract for the unsafe operation is met: the new key hashes as the old one does and distinct keys stay distinct"],
        quick: 250_000,
        thorough: 3_000_000,
        strategy: |big| pair(N_FEW, None, if big { 300 } else { 32 }, if big { 200 } else { 30 }),
        check,
        enumerate: None,
    })
}
