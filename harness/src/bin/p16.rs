use hash_trie_pbt::{dict::*, engine::*, ensure, hist::*, probe::*, with_few};

fn run<D: Bulky>(h: &Hist, info: &mut Info) -> Result<(), String> {
    let ctx = Ctx::new();
    let r = (|| {
        let n = h.uni.len() as u32;
        let mut tag = 0;
        // Every version ever made, and for some the version it must equal.
        let mut vs: Vec<(D, Model)> = vec![(D::fresh(), Model::new())];
        let mut same_as: Vec<(usize, usize, &str)> = vec![];
        let mut twins = 0;
        for op in &h.ops {
            let s = if op.src == 0 { vs.len() - 1 } else { op.src as usize % vs.len() };
            let id = op.k as u32 % n;
            tag += 1;
            let x = if D::MAP { tag as u64 } else { 0 };
            let (d, m) = (vs[s].0.clone(), vs[s].1.clone());
            let key = |tag| h.uni.key::<0>(&ctx, id, tag, D::w());
            match op.kind {
                Kind::Insert | Kind::Replace => {
                    if let Ok(i) = d.insert(key(tag), Val::new(&ctx, x), op.kind == Kind::Replace) {
                        let mut m = m;
                        m.insert(id, (tag, x));
                        vs.push((i.new, m));
                    };
                }
                Kind::Remove => {
                    if let Some((new, _, _)) = d.remove(&key(0)) {
                        let mut m = m;
                        m.remove(&id);
                        vs.push((new, m));
                    };
                }
                Kind::Clone => {
                    same_as.push((vs.len(), s, "a clone"));
                    vs.push((d, m));
                }
                Kind::Transform => {
                    let b = &h.bulk[op.k as usize % h.bulk.len()];
                    let (new, m2, _) = checked_transform(&d, &m, &b.one, b.par, false)?;
                    if !m.is_empty() && (0..n).all(|i| !m.contains_key(&i) || b.one.kind(i) == UNCH || !D::MAP && b.one.kind(i) == TRANS) {
                        same_as.push((vs.len(), s, "a transform that keeps every entry"));
                    }
                    vs.push((new, m2));
                }
                Kind::Join => {
                    let b = &h.bulk[op.k as usize % h.bulk.len()];
                    let r = op.b as usize % vs.len();
                    let (new, m2, _) = checked_join(&d, &m, &vs[r].0, &vs[r].1, b, false)?;
                    vs.push((new, m2));
                }
                _ => {
                    // The same content again, by another way: out and in, or the other way round.
                    let twin = match d.remove(&key(0)) {
                        Some((e, k, v)) => {
                            let (t, x) = (k.tag, v.map_or(0, |v| v.x));
                            e.insert(h.uni.key(&ctx, id, t, D::w()), Val::new(&ctx, x), false).ok().map(|i| i.new)
                        }
                        None => d.insert(key(tag), Val::new(&ctx, x), false).ok().and_then(|i| i.new.remove(&key(0)).map(|r| r.0)),
                    };
                    twins += 1;
                    vs.push((twin.ok_or("a key went out but not in again")?, m));
                }
            }
            if vs.len() > 48 {
                break;
            }
        }
        let l = vs.len();
        let mut eq = vec![vec![false; l]; l];
        let (mut equal, mut unequal, mut undecided) = (0, 0, 0);
        for i in 0..l {
            for j in 0..l {
                eq[i][j] = vs[i].0 == vs[j].0;
                ensure!(eq[i][j] != (vs[i].0 != vs[j].0), "version {i} is both equal and unequal, or neither, to version {j}");
            }
        }
        for i in 0..l {
            ensure!(eq[i][i], "version {i} is not equal to itself");
            for j in 0..l {
                ensure!(eq[i][j] == eq[j][i], "version {i} equals version {j}, but not the other way round");
                if eq[i][j] {
                    ensure!(vs[i].1 == vs[j].1, "version {i} equals version {j}, but one holds {} and the other {}", show(&vs[i].1), show(&vs[j].1));
                }
                for k in 0..l {
                    ensure!(!(eq[i][j] && eq[j][k]) || eq[i][k], "versions {i} and {j} are equal, {j} and {k} are equal, but not {i} and {k}");
                }
                if i < j {
                    match (eq[i][j], vs[i].1 == vs[j].1) {
                        (true, _) => equal += 1,
                        (_, false) => unequal += 1,
                        _ => undecided += 1,
                    }
                }
            }
        }
        for (a, b, what) in &same_as {
            ensure!(eq[*a][*b], "version {a} is {what} of version {b}, but is not equal to it");
            info.label(what);
        }
        for (d, m) in &vs {
            // The models are what the versions hold.
            ensure!(&visited(d)? == m, "a version shows other entries than its model");
        }
        info.label_if(twins > 0, "rebuilt-twin");
        info.label_if(equal > 0, "equal-pair");
        info.label_if(undecided > 0, "same-content-unequal");
        info.nontrivial_if(equal > 0 && unequal >= 10);
        Ok(())
    })();
    ctx.sound()?;
    r
}
fn check(h: &Hist, info: &mut Info) -> Result<(), String> {
    with_few!(h.cfg, C => if h.map { run::<Map<C>>(h, info) } else { run::<Set<C>>(h, info) })
}
fn main() {
    hash_trie_pbt::engine::main(Spec {
        id: "P16",
        rule: "Random branching histories of point and bulk operations, clones and remove-and-reinsert twins; all pairs and triples of the up to 48 versions are compared with == and !=. Non-trivial: at least one equal pair and ten pairs with different contents.",
        assumptions: &["containers with the same contents that do not come from one another may compare unequal: the library compares storage"],
        quick: 100_000,
        thorough: 1_500_000,
        strategy: |big| hist(HistCfg { cfgs: N_FEW, maps: None, keys: if big { 100 } else { 24 }, ops: if big { 60 } else { 30 }, branch: true, forget: false, bulk: true }),
        check,
        enumerate: None,
    })
}
