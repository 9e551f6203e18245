#!/usr/bin/env python3
"""refactors.py [ids...] [--checks p01,p02]: edits of /repo that keep its behaviour, applied one by one to a scratch
copy under /tmp/refac; every check has to stay quiet on each.  PBT_SCALE as for the checks."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
C = "src/node/cnode.rs"; L = "src/node/lnode.rs"; S = "src/node/snode.rs"; H = "src/hash_trie.rs"; B = "src/bit_indexed_array.rs"
R = {
 "order": ("operations on a list are called front to back", [(L, "    let next = match &this.next {\n        LNodeNext::L(lnode) => transform(lnode, reduce_op.clone(), op.clone()),\n        LNodeNext::S(snode) => snode::transform(snode, op.clone()).into(),\n    };\n\n    transform_result(this, op.call(&this.key, &this.value), next, reduce_op)",
     "    let result = op.call(&this.key, &this.value);\n    let next = match &this.next {\n        LNodeNext::L(lnode) => transform(lnode, reduce_op.clone(), op),\n        LNodeNext::S(snode) => snode::transform(snode, op).into(),\n    };\n    transform_result(this, result, next, reduce_op)")]),
 "precheck": ("a removal from a list looks first", [(L, "    match remove_from_lnode(this, key) {\n        LNodeRemoveResult::NotFound => RemoveResult::NotFound,",
     "    if let FindResult::NotFound = this.find(key) {\n        return RemoveResult::NotFound;\n    }\n    match remove_from_lnode(this, key) {\n        LNodeRemoveResult::NotFound => RemoveResult::NotFound,")]),
 "look-then-insert": ("an insert looks first", [(H, "        let flag = Flag::from(M::default().hash(&key));\n        match self.root.insert(",
     "        if !replace {\n            if let FindResult::Found(k, v) = self.root.find(&key, Some(Flag::from(M::default().hash(&key)))) {\n                return Err((k, v));\n            }\n        }\n        let flag = Flag::from(M::default().hash(&key));\n        match self.root.insert(")]),
 "vec": ("node arrays are built through a vector", [(B, "        let values = unsafe {\n            let mut building = mem::MaybeUninit::<[V; SIZE]>::uninit();\n            for i in 0..SIZE {\n                ptr::write((building.as_mut_ptr() as *mut V).add(i), values.at_index(i))\n            }\n            building.assume_init()\n        };",
     "        let built: alloc::vec::Vec<V> = (0..SIZE).map(|i| values.at_index(i)).collect();\n        let values: [V; SIZE] = match built.try_into() { Ok(v) => v, Err(_) => return Err(()) };"), (B, "use core::{cmp::Ordering, mem, ptr};", "use core::cmp::Ordering;\nuse core::convert::TryInto;")]),
 "visit-back": ("nodes are visited from the last child to the first", [(C, "        for node in self.nodes.as_ref() {\n            match node {\n                MNode::C(cnode) => cnode.visit", "        for node in self.nodes.values().iter().rev() {\n            match node {\n                MNode::C(cnode) => cnode.visit")]),
 "swap": ("list joins keep the order of what is left", [(L, "rights.swap_remove(index)", "rights.remove(index)", "all")]),
 "collect": ("a transform looks up its children first", [(C, "    for index in range {\n        if let Ok(node) = this.nodes.at_bit_index(index) {\n            match node.transform(reduce_op.clone(), op.clone(), par_strat).await {\n                MNodeTransformResult::Unchanged(r) => {\n                    size += node.size();",
     "    let present: Vec<usize> = range.filter(|i| this.nodes.at_bit_index(*i).is_ok()).collect();\n    for index in present {\n        if let Ok(node) = this.nodes.at_bit_index(index) {\n            match node.transform(reduce_op.clone(), op.clone(), par_strat).await {\n                MNodeTransformResult::Unchanged(r) => {\n                    size += node.size();")]),
 "capacity": ("vectors of children start large", [(C, "Vec::default()", "Vec::with_capacity(F::max_ones())", "all")]),
 "yield": ("a transform yields once, politely", [(C, "    let mut unchanged = true;\n    let mut reduced = ReduceT::default();\n\n    for index in range {\n        if let Ok(node) = this.nodes.at_bit_index(index) {\n            match node.transform(",
     "    let mut unchanged = true;\n    let mut reduced = ReduceT::default();\n\n    let mut polled = false;\n    core::future::poll_fn(|cx| if core::mem::replace(&mut polled, true) { core::task::Poll::Ready(()) } else { cx.waker().wake_by_ref(); core::task::Poll::Pending }).await;\n\n    for index in range {\n        if let Ok(node) = this.nodes.at_bit_index(index) {\n            match node.transform(")]),
 "seq-join": ("the two halves of a parallel transform run one after the other", [(C, "let (left, right) = join!(left, right);", "let left = left.await;\n                let right = right.await;", "all"), (C, "use futures_util::join;\n", "")]),
 "collapse": ("a removal takes nodes with a single entry away", [(C, "                RemoveResult::RemovedS(node, key, value) => {\n                    RemoveResult::RemovedC(",
     "                RemoveResult::RemovedS(node, key, value) if self.nodes.len() == 1 => RemoveResult::RemovedS(node, key, value),\n                RemoveResult::RemovedL(node, key, value) if self.nodes.len() == 1 => RemoveResult::RemovedL(node, key, value),\n                RemoveResult::RemovedS(node, key, value) => {\n                    RemoveResult::RemovedC("),
     (C, "                RemoveResult::RemovedL(node, key, value) => {\n                    RemoveResult::RemovedC(", "                RemoveResult::RemovedL(node, key, value) if self.nodes.len() != 1 => {\n                    RemoveResult::RemovedC("),
     (C, "                    else {\n                        RemoveResult::RemovedC(Self::new(self.nodes.removed(flag.unwrap().flag, Cow::Owned(self.size() - 1)).unwrap()), key, value)",
      "                    else {\n                        let nodes = self.nodes.removed(flag.unwrap().flag, Cow::Owned(self.size() - 1)).unwrap();\n                        if nodes.len() == 1 {\n                            match nodes.at_index(0).unwrap() {\n                                MNode::S(snode) => return RemoveResult::RemovedS(snode.clone(), key, value),\n                                MNode::L(lnode) => return RemoveResult::RemovedL(lnode.clone(), key, value),\n                                MNode::C(_) => {},\n                            }\n                        }\n                        RemoveResult::RemovedC(Self::new(nodes), key, value)")]),
 "rebuild": ("a replacement in a list rebuilds the list in its order", [(L, "    match this.find(&key) {\n        FindResult::Found(k, v) => if replace {\n            match remove_from_lnode",
     "    match this.find(&key) {\n        FindResult::Found(k, v) => if replace {\n            let mut entries = alloc::vec![(&this.key, &this.value)];\n            let mut node = this;\n            loop {\n                match &node.next {\n                    LNodeNext::L(lnode) => { entries.push((&lnode.key, &lnode.value)); node = lnode; },\n                    LNodeNext::S(snode) => { entries.push((snode.key(), snode.value())); break },\n                }\n            }\n            let mut new = Some((key.into(), value.into()));\n            let mut found: Option<(*const K, *const V)> = None;\n            let mut next: Option<LNodeNext<K, V>> = None;\n            for (ek, ev) in entries.into_iter().rev() {\n                let hit = core::ptr::eq(ek, k);\n                let (nk, nv) = if hit { new.take().unwrap() } else { (ek.clone(), ev.clone()) };\n                next = Some(match next {\n                    None => LNodeNext::S(SNode::new(nk, nv)),\n                    Some(n) => LNodeNext::L(LNode::new(nk, nv, n)),\n                });\n                if hit {\n                    found = Some(match next.as_ref().unwrap() { LNodeNext::L(l) => (l.key() as *const K, l.value() as *const V), LNodeNext::S(s) => (s.key() as *const K, s.value() as *const V) });\n                }\n            }\n            let (kp, vp) = found.unwrap();\n            match next.unwrap() {\n                LNodeNext::L(lnode) => LNodeInsertResult::InsertedL(lnode, kp, vp, Some((k, v))),\n                LNodeNext::S(_) => unreachable!(),\n            }\n        }\n        else {\n            LNodeInsertResult::Found(k, v)\n        },\n        FindResult::NotFound => lift_to_cnode_and_insert(LNodeNext::L(this.clone()), key, value, key_flag.unwrap())\n    }\n}\n\n#[allow(dead_code)]\nfn insert_before<'a, H: Hashword, F: Flagword<H>, K: Key, V: Value, L: Key + Into<K>, W: Into<V>, M: HasherBv<H, K>>(this: &'a Arc<LNode<K, V>>, key: L, value: W, key_flag: Option<Flag<H, F>>, replace: bool) -> LNodeInsertResult<'a, H, F, K, V, M>\nwhere\n    K: HashLike<L>,\n    K: PartialEq<L>,\n    M: HasherBv<H, L>,\n    <F as core::convert::TryFrom<<H as core::ops::BitAnd>::Output>>::Error: core::fmt::Debug\n{\n    match this.find(&key) {\n        FindResult::Found(k, v) => if replace {\n            match remove_from_lnode")]),
 "hash-again": ("every level of a look-up asks for the hash again", [(C, "                MNode::C(cnode) => cnode.find(key, flag.unwrap().next()),", "                MNode::C(cnode) => {\n                    let flag = flag.unwrap();\n                    cnode.find(key, Flag::new_at_depth(flag.hash_value(), flag.depth() + 1))\n                },")]),
 "sized": ("sizes are counted again from the children", [(C, "        *self.nodes.extra()\n", "        let size = self.nodes.values().iter().map(|n| match n { MNode::C(c) => *c.nodes.extra(), MNode::L(l) => l.size(), MNode::S(_) => 1 }).sum();\n        debug_assert_eq!(size, *self.nodes.extra());\n        size\n")]),
}
ROOT = "/tmp/refac"; REPO, VER = ROOT + "/repo", ROOT + "/verif"
def sh(cmd, cwd, timeout):
    env = dict(os.environ, CARGO_NET_OFFLINE="true", VERIF_DIR=VER, VERIF_SEED=os.environ.get("VERIF_SEED", "1")); env.pop("RUSTFLAGS", None)
    try:
        r = subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=timeout, env=env, errors="replace")
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"
def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    checks = [f"p{i:02}" for i in range(1, 40) if os.path.exists(f"/verif/harness/src/bin/p{i:02}.rs")]
    for i, a in enumerate(sys.argv):
        if a == "--checks": checks = sys.argv[i + 1].split(","); args.remove(sys.argv[i + 1])
    os.makedirs(ROOT, exist_ok=True)
    subprocess.run(f"rm -rf {REPO} {VER}/harness/src && mkdir -p {VER}/harness && cp -a /repo {REPO} && cd {REPO} && git checkout -q -- . && cp -a /verif/harness/src /verif/harness/Cargo.* {VER}/harness/ && rm -rf {VER}/corpus && cp -a /verif/corpus {VER}/ && sed -i 's#\"/repo\"#\"{REPO}\"#' {VER}/harness/Cargo.toml", shell=True, check=True)
    for name in args or R:
        sh("git checkout -q -- .", REPO, 60)
        for file, old, new, *all in R[name][1]:
            s = open(f"{REPO}/{file}").read()
            assert s.count(old) >= 1 and (all or s.count(old) == 1), (name, file, old, s.count(old))
            open(f"{REPO}/{file}", "w").write(s.replace(old, new))
        rc, o = sh("cargo test -q --offline", REPO, 300)
        print(f"== {name}: {R[name][0]}; tests {'pass' if rc == 0 else 'FAIL'}", flush=True)
        if rc: print(o[-2500:]); continue
        for b in checks:
            rc, o = sh(f"CARGO_TARGET_DIR={VER}/harness/target cargo build -q --offline --locked --bin {b}", VER + "/harness", 900)
            if rc: print(b, "does not build", o[-1500:]); break
            rc, o = sh(f"{VER}/harness/target/debug/{b} --tier quick", VER, 700)
            if rc: print(f"{name}: {b} exit {rc}: {o[-700:]}", flush=True)
        print(f"== {name}: done", flush=True)
if __name__ == "__main__": main()
