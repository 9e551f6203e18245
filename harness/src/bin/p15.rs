use hash_trie_pbt::{bulk::*, dict::*, engine::*, ensure, hist::*, pairs::*, probe::*, with_three};

fn run<I: Inputs>(p: &Pair, info: &mut Info) -> Result<(), String> {
    let ctx = Ctx::new();
    let r = (|| {
        let which = Which::of(I::map(), p.variant);
        let i = I::build(p, which, &ctx)?;
        let mut o = Ops::of(p, which);
        // At least one of the operations is a constant one.
        let two_sided = !matches!(which, Which::Transform | Which::Transmute);
        if !o.left.is_const() && !(two_sided && (o.both.is_const() || o.right.is_const())) {
            let form = |way: bool| if way && p.variant & 128 != 0 { OpSpec::Const(UNCH) } else { OpSpec::Const(REM) };
            match if two_sided { p.variant / 8 % 3 } else { 1 } {
                0 => o.both = form(which != Which::MuteWithMute),
                1 => o.left = form(matches!(which, Which::Transform | Which::Join | Which::FormWithMute | Which::FormWithFute)),
                _ => o.right = form(matches!(which, Which::Join | Which::MuteWithForm | Which::FuteWithForm)),
            }
        }
        let joint = which == Which::Join;
        if joint && p.variant & 64 == 0 {
            o.both = settle(&o.both);
        }
        let values_only = joint && has(&o.both, TRANS);
        let loose = joint && has(&o.both, UNCH);
        let (lm, rm) = i.models();
        let mut first: Option<Model> = None;
        // Every way of writing the constant operations as closures.
        for mask in 0..8u8 {
            let skip = |op: &OpSpec, bit: u8| mask & bit != 0 && !op.is_const();
            if skip(&o.both, 1) || skip(&o.left, 2) || skip(&o.right, 4) || !two_sided && mask & 5 != 0 {
                continue;
            }
            let mut q = o.clone();
            if mask & 1 != 0 {
                q.both = generic_form(&o.both);
            }
            if mask & 2 != 0 {
                q.left = generic_form(&o.left);
            }
            if mask & 4 != 0 {
                q.right = generic_form(&o.right);
            }
            let log = new_log();
            let made = i.run(&q, &log);
            let m: Model = made.model()?.into_iter().map(|(k, (t, x))| {
                // Either side's entry will do for a common key.
                let either = loose && lm.contains_key(&k) && rm.contains_key(&k);
                (k, (if values_only || either { 0 } else { t }, if either { 0 } else { x }))
            }).collect();
            // A constant operation's closure form is called once for each entry it decides; the
            // constant form, never.
            let calls = take_log(&log);
            let common = lm.keys().filter(|k| rm.contains_key(k)).count();
            let (nb, nl, nr) = if two_sided { (common, lm.len() - common, rm.len() - common) } else { (0, lm.len(), 0) };
            for (op, side, n, what) in [(&q.both, 0u8, nb, "common"), (&q.left, 1, nl, "left-only"), (&q.right, 2, nr, "right-only")] {
                let got = calls.iter().filter(|c| c.0 == side).count();
                let want = if op.is_const() { 0 } else { n };
                ensure!(got == want, "{which:?} with {q:?}: the operation for {what} keys was called {got} times for {n} keys");
            }
            match &first {
                None => first = Some(m),
                Some(f) => ensure!(f == &m, "{which:?}: with constant operations {o:?} the result is {}, with closures of the same outcome {q:?} it is {}", show(f), show(&m)),
            }
        }
        let f = first.unwrap();
        info.label(&format!("{}{which:?}", if I::map() { "map " } else { "set " }));
        classes(p, lm, rm, I::width(), info);
        info.label_if(f.is_empty(), "empty-result");
        for (op, what) in [(&o.both, "both"), (&o.left, "left"), (&o.right, "right")] {
            if let OpSpec::Const(k) = op {
                info.label(&format!("const-{what}-{}", ["any", "left", "right", "changed", "removed"][*k as usize]));
            }
        }
        let both = lm.keys().filter(|k| rm.contains_key(k)).count();
        info.nontrivial_if(lm.len() >= 4 && (!two_sided || both >= 1 && rm.len() > both));
        Ok(())
    })();
    ctx.sound()?;
    r
}
fn check(p: &Pair, info: &mut Info) -> Result<(), String> {
    with_three!(p.cfg, C => if p.map { run::<MapIn<C>>(p, info) } else { run::<SetIn<C>>(p, info) })
}
fn main() {
    hash_trie_pbt::engine::main(Spec {
        id: "P15",
        rule: "Random containers and every bulk operation with at least one constant operation (keep either, keep left, keep right, keep, remove) among its parts; each subset of the constant parts is replaced by a closure that returns the same outcome for every entry, and the contents are compared. Non-trivial: four or more left entries and, for two-sided operations, common and right-only keys.",
        assumptions: &["joins that may keep either side's entry are asked for the left one or, in half of the cases, not compared for common keys; where a pair is transformed the identity of the kept key is not compared", "reductions are not compared: a constant may be reduced once for a whole part of the container"],
        quick: 150_000,
        thorough: 3_000_000,
        strategy: |big| pair(N_THREE, None, if big { 300 } else { 40 }, if big { 200 } else { 30 }),
        check,
        enumerate: None,
    })
}
