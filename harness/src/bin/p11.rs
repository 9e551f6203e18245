use hash_trie_pbt::exec::block_on;
use hash_trie_pbt::{dict::*, engine::*, ensure, gens::*, hist::*, pairs::*, probe::*, with_few};
use std::sync::{Arc, Mutex};

macro_rules! shown_map {
    ($d:expr) => {{
        let seen: Mutex<Vec<(u32, u32, u64)>> = Mutex::new(vec![]);
        $d.visit(|k, v| {
            k.touch();
            v.touch();
            seen.lock().unwrap().push((k.id, k.tag, v.x));
        });
        let v = seen.into_inner().unwrap();
        let m: Model = v.iter().map(|(i, t, x)| (*i, (*t, *x))).collect();
        ensure!(m.len() == v.len(), "visit reports a key twice");
        ensure!($d.size() == m.len(), "size is {} but visit shows {} entries", $d.size(), m.len());
        m
    }};
}
macro_rules! shown_set {
    ($d:expr) => {{
        let seen: Mutex<Vec<(u32, u32)>> = Mutex::new(vec![]);
        $d.visit(|k| {
            k.touch();
            seen.lock().unwrap().push((k.id, k.tag));
        });
        let v = seen.into_inner().unwrap();
        let m: Model = v.iter().map(|(i, t)| (*i, (*t, 0))).collect();
        ensure!(m.len() == v.len(), "visit reports a key twice");
        ensure!($d.size() == m.len(), "size is {} but visit shows {} entries", $d.size(), m.len());
        m
    }};
}
/// Remove every key, in an order of its own, checking what comes back.
macro_rules! take_apart {
    ($d:expr, $m:expr, $p:expr, $ctx:expr, $K:literal, $w:expr, $new:ident, $pat:pat => $tag:expr) => {{
        let mut d = $d.clone();
        let mut left = $m.len();
        let mut ids: Vec<u32> = $m.keys().copied().collect();
        ids.sort_by_key(|i| mix(*i as u64));
        for id in 0..$p.uni.len() as u32 {
            let f = d.find(&$p.uni.key::<$K>($ctx, id, 0, $w)).is_ok();
            ensure!(f == $m.contains_key(&id), "in the result, find({id}) {}", if f { "finds an absent key" } else { "does not find it" });
        }
        for id in ids {
            let k = $p.uni.key::<$K>($ctx, id, 0, $w);
            let new = match d.remove(&k) {
                Err(_) => return Err(format!("in the result, key {id} cannot be removed")),
                Ok($pat) => {
                    ensure!($m.get(&id) == Some(&$tag), "in the result, removing {id} hands back another entry");
                    $new
                }
            };
            left -= 1;
            ensure!(new.size() == left, "taking the result apart: size {} instead of {left}", new.size());
            d = new;
        }
    }};
}

fn maps<C: Cfg>(p: &Pair, ctx: &Arc<Ctx>, info: &mut Info) -> Result<(), String> {
    let w = <C::H as hash_trie::traits::MaxOnes>::max_ones() as u32;
    let b = &p.bulk;
    let log = new_log();
    let par = || strat(b.par);
    let from = Origin::of(p);
    from.label(info);
    let (l, lm, right) = left_and_alike::<C>(from, p, ctx)?;
    let again = p.again();
    let rm;
    macro_rules! finish {
        ($n:expr, $r:expr, $e:expr, $K:literal) => {{
            let shown = shown_map!($n);
            $e.check(&shown, &log, &$r)?;
            let nm = $e.model();
            take_apart!($n, nm, p, ctx, $K, w, _new, (_new, k, v) => (k.tag, v.x));
            ensure!(shown_map!($n) == nm, "taking a clone apart changed the result");
        }};
    }
    macro_rules! form_mute {
        ($right:expr, $K:literal) => {{
            let (r, m) = $right;
            rm = m;
            let (n, rd) = block_on(unsafe {
                l.transform_with_transmuted(&r, red, map_both::<0, 0, $K, $K, 0>(&b.both, &log), map_op_kv::<0, 0>(&b.one, 1, CONST_LEFT, &log), map_mute::<$K, 0>(&p.mute, 2, CONST_RIGHT, &log), par())
            });
            let e = expect_mixed(&lm, &rm, &b.both, &b.one, &p.mute, Way::Form, Way::Mute, Keep::L, true);
            finish!(n, rd, e, 0);
            same(&n, &e.model(), &p.uni, ctx)?;
            drain(&n, &e.model(), &p.uni, ctx)?;
            ensure!(shown_map!(r) == rm, "the operation changed its right argument");
        }};
    }
    macro_rules! mute_form {
        ($right:expr, $K:literal) => {{
            let (r, m) = $right;
            rm = m;
            let (n, rd) = block_on(unsafe {
                l.transmute_with_transformed(&r, red, map_both::<0, 0, $K, $K, $K>(&b.both, &log), map_mute::<0, $K>(&p.mute, 1, CONST_LEFT, &log), map_op_kv::<$K, $K>(&b.right, 2, CONST_RIGHT, &log), par())
            });
            let e = expect_mixed(&lm, &rm, &b.both, &p.mute, &b.right, Way::Mute, Way::Form, Keep::R, true);
            finish!(n, rd, e, $K);
            ensure!(shown_map!(r) == rm, "the operation changed its right argument");
        }};
    }
    macro_rules! form_fute {
        ($right:expr, $V:literal) => {{
            let (r, m) = $right;
            rm = m;
            let (n, rd) = block_on(l.transform_with_transfuted(&r, red, map_both::<0, 0, 0, $V, 0>(&b.both, &log), map_op_kv::<0, 0>(&b.one, 1, CONST_LEFT, &log), map_fute::<$V, 0>(&p.mute, 2, CONST_RIGHT, &log), par()));
            let e = expect_mixed(&lm, &rm, &b.both, &b.one, &p.mute, Way::Form, Way::Fute, Keep::L, true);
            finish!(n, rd, e, 0);
            same(&n, &e.model(), &p.uni, ctx)?;
            drain(&n, &e.model(), &p.uni, ctx)?;
            ensure!(shown_map!(r) == rm, "the operation changed its right argument");
        }};
    }
    macro_rules! fute_form {
        ($right:expr, $V:literal) => {{
            let (r, m) = $right;
            rm = m;
            let (n, rd) = block_on(l.transfute_with_transformed(&r, red, map_both::<0, 0, 0, $V, $V>(&b.both, &log), map_fute::<0, $V>(&p.mute, 1, CONST_LEFT, &log), map_op_kv::<0, $V>(&b.right, 2, CONST_RIGHT, &log), par()));
            let e = expect_mixed(&lm, &rm, &b.both, &p.mute, &b.right, Way::Fute, Way::Form, Keep::R, true);
            finish!(n, rd, e, 0);
            ensure!(shown_map!(r) == rm, "the operation changed its right argument");
        }};
    }
    match p.variant % 4 {
        0 => {
            info.label("transform_with_transmuted");
            match right {
                None => form_mute!(build_map1::<C>(&again, &p.right, &p.uni, ctx, RIGHT_TAGS)?, 1),
                Some(right) => form_mute!(right, 0),
            }
        }
        1 => {
            info.label("transmute_with_transformed");
            match right {
                None => mute_form!(build_map1::<C>(&again, &p.right, &p.uni, ctx, RIGHT_TAGS)?, 1),
                Some(right) => mute_form!(right, 0),
            }
        }
        2 => {
            info.label("transform_with_transfuted");
            match right {
                None => form_fute!(build_map01::<C>(&again, &p.right, &p.uni, ctx, RIGHT_TAGS)?, 1),
                Some(right) => form_fute!(right, 0),
            }
        }
        _ => {
            info.label("transfute_with_transformed");
            match right {
                None => fute_form!(build_map01::<C>(&again, &p.right, &p.uni, ctx, RIGHT_TAGS)?, 1),
                Some(right) => fute_form!(right, 0),
            }
        }
    }
    same(&l, &lm, &p.uni, ctx).map_err(|e| format!("the left container afterwards: {e}"))?;
    tally(p, from, &lm, &rm, w, info);
    Ok(())
}

fn sets<C: Cfg>(p: &Pair, ctx: &Arc<Ctx>, info: &mut Info) -> Result<(), String> {
    let w = <C::H as hash_trie::traits::MaxOnes>::max_ones() as u32;
    let b = &p.bulk;
    let log = new_log();
    let from = Origin::of(p);
    from.label(info);
    let (l, lm, right) = left_and_alike_set::<C>(from, p, ctx)?;
    macro_rules! go {
        ($right:expr, $K:literal) => {{
            let (r, rm) = $right;
            if p.variant % 2 == 0 {
                info.label("set transform_with_transmuted");
                let (n, rd) = block_on(unsafe {
                    l.transform_with_transmuted(&r, red, set_both(&b.both, &log), set_op::<0>(&b.one, 1, CONST_LEFT, &log), set_mute::<$K, 0>(&p.mute, 2, CONST_RIGHT, &log), strat(b.par))
                });
                let e = expect_mixed(&lm, &rm, &b.both, &b.one, &p.mute, Way::Form, Way::Mute, Keep::L, false);
                e.check(&shown_set!(n), &log, &rd)?;
                let nm = e.model();
                take_apart!(n, nm, p, ctx, 0, w, _new, (_new, k) => (k.tag, 0));
                drain(&n, &nm, &p.uni, ctx)?;
            } else {
                info.label("set transmute_with_transformed");
                let (n, rd) = block_on(unsafe {
                    l.transmute_with_transformed(&r, red, set_both(&b.both, &log), set_mute::<0, $K>(&p.mute, 1, CONST_LEFT, &log), set_op::<$K>(&b.right, 2, CONST_RIGHT, &log), strat(b.par))
                });
                let e = expect_mixed(&lm, &rm, &b.both, &p.mute, &b.right, Way::Mute, Way::Form, Keep::R, false);
                e.check(&shown_set!(n), &log, &rd)?;
                let nm = e.model();
                take_apart!(n, nm, p, ctx, $K, w, _new, (_new, k) => (k.tag, 0));
            }
            ensure!(shown_set!(r) == rm, "the operation changed its right argument");
            rm
        }};
    }
    let rm = match right {
        None => go!(build_set1::<C>(&p.again(), &p.right, &p.uni, ctx, RIGHT_TAGS)?, 1),
        Some(right) => go!(right, 0),
    };
    same(&l, &lm, &p.uni, ctx).map_err(|e| format!("the left container afterwards: {e}"))?;
    tally(p, from, &lm, &rm, w, info);
    Ok(())
}
fn tally(p: &Pair, from: Origin, lm: &Model, rm: &Model, w: u32, info: &mut Info) {
    classes(p, lm, rm, w, info);
    let both = lm.keys().filter(|k| rm.contains_key(k)).count();
    info.nontrivial_if(both >= 1 && (from == Origin::Itself && both > 1 || lm.len() > both && rm.len() > both));
}
fn check(p: &Pair, info: &mut Info) -> Result<(), String> {
    let ctx = Ctx::new();
    let r = with_few!(p.cfg, C => if p.map { maps::<C>(p, &ctx, info) } else { sets::<C>(p, &ctx, info) });
    ctx.sound()?;
    r
}
fn main() {
    hash_trie_pbt::engine::main(Spec {
        id: "P11",
        rule: "Random pairs of containers, of different entry types or of one type and then sharing subtries or being one container, combined by the six mixed operations (map and set transform_with_transmuted and transmute_with_transformed, map transform_with_transfuted and transfute_with_transformed) under random operations; results are looked up, visited and taken apart. Non-trivial: common keys, left-only keys and right-only keys all present, or a container of at least two entries with itself.",
        assumptions: &["the caller's contract for the unsafe operations is met: a new key hashes as the old one does and distinct keys stay distinct", "which constants of constant operations show up in the reduction is left open"],
        quick: 180_000,
        thorough: 3_000_000,
        strategy: |big| pair(N_FEW, None, if big { 300 } else { 32 }, if big { 200 } else { 26 }),
        check,
        enumerate: None,
    })
}
