# The planted bugs: each was written from a property's text and the code; see plant.py and try.py.
DEMO_SH = '''#!/bin/bash
# Builds the program beside this script against the tree in the current directory and runs it.
here="$(cd "$(dirname "$0")" && pwd)"
work="$(mktemp -d)" || exit 3
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src"
cp "$here/main.rs" "$work/src/main.rs"
cp "$here/Cargo.lock.txt" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
hash-trie = { path = "$PWD" }
fnv = "1"
TOML
unset RUSTFLAGS
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$work/target"
(cd "$work" && cargo build -q --offline) || exit 3
timeout 120 "$work/target/debug/demo"
'''

PRELUDE = '''#![allow(dead_code, unused_imports, unused_must_use, unused_variables)]
use hash_trie::{results::*, traits::*, transformations::*, *};
use std::{cell::RefCell, future::Future, hash::{Hash, Hasher}, pin::pin, sync::atomic::{AtomicUsize, Ordering::SeqCst}, task::{Context, Poll, Waker}};

/// A key that chooses its hash; equality looks at the id alone.
#[derive(Clone, Debug, Default)]
struct K { id: u32, h: u64, tag: u32 }
fn k(id: u32, h: u64) -> K { K { id, h, tag: 0 } }
fn kt(id: u32, h: u64, tag: u32) -> K { K { id, h, tag } }
impl PartialEq for K { fn eq(&self, o: &K) -> bool { self.id == o.id } }
impl Eq for K {}
impl Hash for K { fn hash<S: Hasher>(&self, s: &mut S) { s.write_u64(self.h) } }
/// A hasher that hands the key's choice through.
#[derive(Clone, Default)]
struct Pass(u64);
impl Hasher for Pass {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for b in b { self.0 = (self.0 << 8) | *b as u64 } }
    fn write_u64(&mut self, v: u64) { self.0 = v }
}
type Map<V> = HashTrieMap<u64, u32, K, V, Pass>;
type Set = HashTrieSet<u64, u32, K, Pass>;
fn run<T>(f: impl Future<Output = T>) -> T {
    let mut f = pin!(f);
    loop { if let Poll::Ready(t) = f.as_mut().poll(&mut Context::from_waker(Waker::noop())) { return t } }
}
fn map<V: Value>(entries: &[(K, V)]) -> Map<V> {
    let mut m = Map::new();
    for (k, v) in entries { m = m.insert(k.clone(), v.clone(), true).unwrap().0 }
    m
}
fn set(keys: &[K]) -> Set {
    let mut s = Set::new();
    for k in keys { s = s.insert(k.clone(), true).unwrap().0 }
    s
}
fn show<V: Value + Ord>(m: &Map<V>) -> Vec<(u32, V)> {
    let out = RefCell::new(vec![]);
    m.visit(|k, v| out.borrow_mut().push((k.id, v.clone())));
    let mut out = out.into_inner();
    out.sort();
    out
}
fn keys(s: &Set) -> Vec<(u32, u32)> {
    let out = RefCell::new(vec![]);
    s.visit(|k| out.borrow_mut().push((k.id, k.tag)));
    let mut out = out.into_inner();
    out.sort();
    out
}
const SEQ: ParallelismStrategy = ParallelismStrategy::Sequential;
const PAR: ParallelismStrategy = ParallelismStrategy::MiddleIndex;

'''

C = "src/node/cnode.rs"; L = "src/node/lnode.rs"; S = "src/node/snode.rs"; T = "src/traits.rs"; X = "src/transformations.rs"
MEMORY_DEMO = '''
struct Count;
static LIVE: AtomicUsize = AtomicUsize::new(0);
unsafe impl std::alloc::GlobalAlloc for Count {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { LIVE.fetch_add(l.size(), SeqCst); std::alloc::System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { LIVE.fetch_sub(l.size(), SeqCst); std::alloc::System.dealloc(p, l) }
}
#[global_allocator]
static COUNT: Count = Count;
fn live() -> usize { LIVE.load(SeqCst) }
'''
BUGS = []
def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))

bug("b01", "P02",
    [(C, "let size = self.size() + lnode2.size() - lnode.size();", "let size = self.size() + 1;")],
    "a key replaced while it shares its whole hash with another key, so that it lives in a collision list",
    "the size of a set grows by one each time such a key is replaced",
    '''
fn main() {
    let s = set(&[k(1, 5), k(2, 5), k(3, 9)]);
    let s = s.insert(kt(1, 5, 7), true).unwrap().0;
    assert_eq!(keys(&s), [(1, 7), (2, 0), (3, 0)]);
    assert_eq!(s.size(), 3);
}''')

bug("b02", "P04",
    [(L, "LNodeInsertResult::InsertedL(lnode, key, value, Some((k, v)))\n                },\n                LNodeRemoveResult::RemovedS",
         "LNodeInsertResult::InsertedL(lnode, key, value, Some((this.key(), this.value())))\n                },\n                LNodeRemoveResult::RemovedS")],
    "a replacement in a collision list of three or more entries, of an entry that is not the list's first",
    "the replaced entry handed back is the list's first entry instead of the one that was replaced",
    '''
fn main() {
    let m = map(&[(k(1, 5), 10), (k(2, 5), 20), (k(3, 5), 30)]);
    for id in 1..=3u32 {
        let (_, _, _, prev) = m.insert(k(id, 5), 99, true).unwrap();
        let (pk, pv) = prev.unwrap();
        assert_eq!((pk.id, *pv), (id, id as i32 * 10));
    }
}''')

bug("b03", "P14",
    [(C, "lvalues, lucl && rucl, lucr && rucr, reduce_op(&rl, &rr))\n            },\n            ParallelismStrategy::Sequential => transform_with_transformed_cnode_impl",
         "lvalues, lucl && rucl, (lucr || lsize == 0 && rsize > 4) && rucr, reduce_op(&rl, &rr))\n            },\n            ParallelismStrategy::Sequential => transform_with_transformed_cnode_impl")],
    "a join under MiddleIndex where everything in the lower half of a node is dropped and the upper half, of five entries or more, is just the right container's",
    "the join hands back the right container unchanged, so what was dropped from its lower half is back; sequential execution is right",
    '''
fn main() {
    let deep = |h: u64| 7 + (7 << 5) + (7 << 10) + (h << 15);
    let a = map(&[(k(1, deep(1)), 10), (k(6, deep(3)), 60)]);
    let b = map(&[(k(2, deep(2)), 20), (k(4, deep(21)), 40), (k(5, deep(25)), 50), (k(7, deep(26)), 70), (k(8, deep(27)), 80), (k(9, deep(28)), 90)]);
    let go = |p| show(&run(a.transform_with_transformed(&b, |_, _| (),
        new_map_joint_transform_unchangedlr(()),
        new_map_transform_generic(|_: &K, _: &i32| MapTransformResult::Removed(())),
        new_map_transform_generic(|k: &K, _: &i32| if k.id == 2 { MapTransformResult::Removed(()) } else { MapTransformResult::Unchanged(()) }), p)).0);
    assert_eq!(go(SEQ), [(4, 40), (5, 50), (7, 70), (8, 80), (9, 90)]);
    assert_eq!(go(PAR), go(SEQ));
}''')

bug("b04", "P07",
    [(C, "MNode::C(cnode) => MNodeTransformResult::C(CNode::new(new_bit_indexed_array(bits, BitIndexedArrayVec::new(&[MNode::C(cnode)]), size).unwrap()), reduced),\n                MNode::L(lnode) => MNodeTransformResult::L(lnode, reduced),\n                MNode::S(snode) => MNodeTransformResult::S(snode, reduced),\n            },\n            _ => MNodeTransformResult::C(CNode::new(new_bit_indexed_array(bits,",
         "MNode::C(cnode) => MNodeTransformResult::C(cnode, reduced),\n                MNode::L(lnode) => MNodeTransformResult::L(lnode, reduced),\n                MNode::S(snode) => MNodeTransformResult::S(snode, reduced),\n            },\n            _ => MNodeTransformResult::C(CNode::new(new_bit_indexed_array(bits,")],
    "a transform that leaves exactly one subtree with two or more entries, followed by look-ups, removals or further inserts",
    "the surviving subtree moves up a level, so its keys are still shown by visit but can no longer be found or removed",
    '''
fn main() {
    let m = map(&[(k(1, 1), 1), (k(2, 1 + (1 << 5)), 2), (k(3, 1 + (2 << 5)), 3), (k(4, 7), 4)]);
    let m = run(m.transform(|_, _| (), new_map_transform_generic(|k: &K, _: &i32| if k.id > 2 { MapTransformResult::Removed(()) } else { MapTransformResult::Unchanged(()) }), SEQ)).0;
    assert_eq!(show(&m), [(1, 1), (2, 2)]);
    for id in 1..=2u32 { assert!(m.find(&k(id, 1 + ((id as u64 - 1) << 5))).is_ok(), "key {} lost", id) }
}''')

bug("b05", "P10",
    [(L, "right_op, left_op, depth, par_strat).await.flip(),", "right_op, left_op, depth, par_strat).await,")],
    "a join whose left container holds a collision list where the right one holds a subtree, with one of the two kept as it is",
    "the side that was kept is mistaken for the other one, so the join keeps the wrong entries",
    '''
fn main() {
    let a = map(&[(k(1, 5), 1), (k(2, 5), 2), (k(9, 9), 9)]);
    let b = map(&[(k(1, 5), 10), (k(4, 5 + (2 << 5)), 40), (k(9, 9), 90)]);
    let m = run(a.transform_with_transformed(&b, |_, _| (), new_map_joint_transform_generic(|_: &K, _: &i32, _: &K, _: &i32| MapJointTransformResult::UnchangedR(())),
        new_map_transform_generic(|_: &K, _: &i32| MapTransformResult::Removed(())), new_map_transform_generic(|_: &K, _: &i32| MapTransformResult::Unchanged(())), SEQ)).0;
    assert_eq!(show(&m), [(1, 10), (4, 40), (9, 90)]);
}''')

bug("b06", "P15",
    [(C, "return MNodeJointTransformResult::UnchangedL(r.clone());\n                    }\n                },\n                MapTransform::Removed(_) => {},",
         "return MNodeJointTransformResult::UnchangedL(r.clone());\n                    }\n                },\n                MapTransform::Removed(_) => {\n                    if let MapTransform::Unchanged(_) = &right_op {\n                        return MNodeJointTransformResult::UnchangedR(r.clone());\n                    }\n                },")],
    "a join by constants alone: keep left for keys in both, drop left's own keys, keep right's own keys, with a key in both whose two entries differ",
    "the right container is handed back as a shortcut although the left entries should have been kept for the keys in both",
    '''
fn main() {
    let a = map(&[(k(1, 1), 10), (k(2, 2), 20)]);
    let b = map(&[(k(2, 2), 21), (k(3, 3), 31)]);
    let m = run(a.transform_with_transformed(&b, |_, _| (), new_map_joint_transform_unchangedl(()), new_map_transform_removed(()), new_map_transform_unchanged(()), SEQ)).0;
    assert_eq!(show(&m), [(2, 20), (3, 31)]);
}''')

bug("b07", "P18",
    [(L, "let lnode = LNode::new(key.into(), value.into(), LNodeNext::S(snode));\n                    let key: *const K = lnode.key();\n                    let value: *const V = lnode.value();",
         "let lnode = LNode::new(key.into(), value.into(), LNodeNext::S(snode));\n                    let raw = Arc::into_raw(lnode.clone());\n                    let key: *const K = unsafe { (*raw).key() };\n                    let value: *const V = unsafe { (*raw).value() };")],
    "a replacement in a collision list of exactly two entries",
    "the new list is leaked: its entries stay alive after the last container holding them is gone",
    '''
static LIVE: AtomicUsize = AtomicUsize::new(0);
#[derive(Debug)]
struct V(u32);
impl V { fn new(n: u32) -> V { LIVE.fetch_add(1, SeqCst); V(n) } }
impl Clone for V { fn clone(&self) -> V { V::new(self.0) } }
impl Drop for V { fn drop(&mut self) { LIVE.fetch_sub(1, SeqCst); } }
fn main() {
    {
        let m = Map::<V>::new().insert(k(1, 5), V::new(1), false).unwrap().0;
        let m = m.insert(k(2, 5), V::new(2), false).unwrap().0;
        let _m = m.insert(k(1, 5), V::new(3), true).unwrap().0;
    }
    assert_eq!(LIVE.load(SeqCst), 0);
}''')

bug("b08", "P22",
    [(L, "    let this_hash = M::default().hash(this.key());\n    if this_hash == key_flag.hash_value() {\n",
         "    static DEPTH: core::sync::atomic::AtomicUsize = core::sync::atomic::AtomicUsize::new(0);\n    DEPTH.store(key_flag.depth(), core::sync::atomic::Ordering::SeqCst);\n    let this_hash = M::default().hash(this.key());\n    if this_hash == key_flag.hash_value() {\n"),
     (L, "let this_flag = Flag::new_at_depth(this_hash, key_flag.depth()).unwrap();\n\n        let snode = SNode::new",
         "let this_flag = Flag::new_at_depth(this_hash, DEPTH.load(core::sync::atomic::Ordering::SeqCst)).unwrap();\n\n        let snode = SNode::new")],
    "two threads inserting at different depths, one of them while the other is hashing the entry it splits",
    "the entry that was there is filed under the slot of another depth and can no longer be found",
    '''
use std::sync::{Mutex, Condvar};
static STEP: (Mutex<u32>, Condvar) = (Mutex::new(0), Condvar::new());
thread_local! { static HOLD: std::cell::Cell<bool> = const { std::cell::Cell::new(false) } }
fn go(to: u32) { *STEP.0.lock().unwrap() = to; STEP.1.notify_all(); }
fn wait(for_: u32) { let mut g = STEP.0.lock().unwrap(); while *g < for_ { g = STEP.1.wait(g).unwrap() } }
#[derive(Clone, Debug, Default, PartialEq, Eq)]
struct H(u32, u64);
impl Hash for H { fn hash<S: Hasher>(&self, s: &mut S) {
    s.write_u64(self.1);
    if HOLD.with(|h| h.get()) && self.0 == 1 { HOLD.with(|h| h.set(false)); go(1); wait(2); }
} }
type HMap = HashTrieMap<u64, u32, H, u32, Pass>;
fn main() {
    let base = HMap::new().insert(H(1, 3 + (2 << 5) + (9 << 10)), 1u32, false).unwrap().0;
    let deep = HMap::new().insert(H(11, 7), 1u32, false).unwrap().0.insert(H(12, 7 + (1 << 5)), 2u32, false).unwrap().0;
    let t = std::thread::spawn({ let deep = deep.clone(); move || { wait(1); let d = deep.insert(H(13, 7 + (1 << 5) + (1 << 10)), 3u32, false).unwrap().0; go(2); d } });
    HOLD.with(|h| h.set(true));
    let m = base.insert(H(2, 3 + (1 << 5)), 2u32, false).unwrap().0;
    t.join().unwrap();
    assert!(m.find(&H(1, 3 + (2 << 5) + (9 << 10))).is_ok() && m.find(&H(2, 3 + (1 << 5))).is_ok());
}''')

bug("b09", "P23",
    [(S, "    match op.call(&this.key, &this.value) {\n        MapTransformResult::Unchanged(reduced) => SNodeTransformResult::Unchanged(reduced),",
         "    let value = unsafe { core::ptr::read(&this.value) };\n    let result = op.call(&this.key, &value);\n    core::mem::forget(value);\n    match result {\n        MapTransformResult::Unchanged(reduced) => SNodeTransformResult::Unchanged(reduced),")],
    "an operation that panics while a transform calls it",
    "the value shown to the operation is dropped by the unwinding although the map still holds it: it is dropped twice",
    '''
static LIVE: AtomicUsize = AtomicUsize::new(0);
#[derive(Debug)]
struct V(u32);
impl V { fn new(n: u32) -> V { LIVE.fetch_add(1, SeqCst); V(n) } }
impl Clone for V { fn clone(&self) -> V { V::new(self.0) } }
impl Drop for V { fn drop(&mut self) { LIVE.fetch_sub(1, SeqCst); } }
fn main() {
    let m = Map::<V>::new().insert(k(1, 5), V::new(1), false).unwrap().0;
    let m = m.insert(k(2, 6), V::new(2), false).unwrap().0;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        run(m.transform(|_, _| (), new_map_transform_generic(|k: &K, _: &V| if k.id == 2 { panic!("in the operation") } else { MapTransformResult::Unchanged(()) }), SEQ));
    }));
    assert!(r.is_err());
    assert_eq!(LIVE.load(SeqCst), 2);
}''')

bug("b10", "P24",
    [(L, "            LNodeNext::L(lnode) => match remove_from_lnode(lnode, key) {",
         "            LNodeNext::L(lnode) if matches!(lnode.find(key), FindResult::NotFound) => LNodeRemoveResult::NotFound,\n            LNodeNext::L(lnode) => match remove_from_lnode(lnode, key) {")],
    "removing (or replacing) an entry far down a long collision list",
    "the rest of the list is searched again at every step, so the comparisons grow with the square of the list's length",
    '''
static EQ: AtomicUsize = AtomicUsize::new(0);
#[derive(Clone, Debug, Default)]
struct E(u32);
impl PartialEq for E { fn eq(&self, o: &E) -> bool { EQ.fetch_add(1, SeqCst); self.0 == o.0 } }
impl Eq for E {}
impl Hash for E { fn hash<S: Hasher>(&self, s: &mut S) { s.write_u64(5) } }
fn main() {
    let mut m = HashTrieMap::<u64, u32, E, u32, Pass>::new();
    for i in 0..60 { m = m.insert(E(i), i, false).unwrap().0 }
    EQ.store(0, SeqCst);
    m.remove(&E(0)).unwrap();
    assert!(EQ.load(SeqCst) <= 180, "{} comparisons to remove from a list of 60", EQ.load(SeqCst));
}''')

bug("b11", "P13",
    [("src/set.rs", "SetJointTransform::UnchangedR(r) => MapJointTransform::UnchangedR(r.clone()),", "SetJointTransform::UnchangedR(r) => MapJointTransform::UnchangedLR(r.clone()),")],
    "a join of sets by the constant keep-right for keys in both, where the two stored keys are equal but distinguishable",
    "the left key is kept instead of the right one",
    '''
fn main() {
    let a = set(&[kt(1, 1, 100), kt(2, 2, 100)]);
    let b = set(&[kt(2, 2, 200), kt(3, 3, 200)]);
    let s = run(a.transform_with_transformed(&b, |_, _| (), new_set_joint_transform_unchangedr::<K, ()>(()), new_set_transform_unchanged(()), new_set_transform_unchanged(()), SEQ)).0;
    assert_eq!(keys(&s), [(1, 100), (2, 200), (3, 200)]);
}''')

bug("b12", "P12",
    [(L, "                LNodeNext::S(snode) => {\n                    rights.push((snode.key(), snode.value()));\n                    break;",
         "                LNodeNext::S(snode) => {\n                    if rights.len() < 2 { rights.push((snode.key(), snode.value())); }\n                    break;", 2)],
    "two containers joined into a third type where both hold a collision list of the same hash and the right one has three or more entries",
    "the last entry of the right list is ignored",
    '''
fn main() {
    let a = map(&[(k(1, 5), 1), (k(2, 5), 2)]);
    let b = map(&[(k(1, 5), 10u64), (k(2, 5), 20), (k(3, 5), 30)]);
    let (m, n): (Map<String>, u32) = unsafe { a.transmute_with_transmuted(&b, |l: &u32, r: &u32| l + r,
        new_map_transmute_transmute_generic(|k: &K, v: &i32, _: &K, w: &u64| MapTransmuteResult::Transmuted(k.clone(), format!("{v}{w}"), 1)),
        new_map_transmute_generic(|k: &K, v: &i32| MapTransmuteResult::Transmuted(k.clone(), format!("{v}"), 1)),
        new_map_transmute_generic(|k: &K, v: &u64| MapTransmuteResult::Transmuted(k.clone(), format!("{v}"), 1))) };
    assert_eq!((m.size(), n), (3, 3));
    assert_eq!(show(&m).iter().map(|e| e.1.as_str()).collect::<Vec<_>>(), ["110", "220", "30"]);
}''')

bug("b13", "P11",
    [(L, "let result = match rights.iter().position(|key_value| this.key == *key_value.0).map(|index| rights.swap_remove(index)) {\n        Some((right_key, right_value)) => both_op.call_transform_transmute",
         "let result = match rights.iter().position(|key_value| this.key == *key_value.0).map(|index| rights[index]) {\n        Some((right_key, right_value)) => both_op.call_transform_transmute")],
    "a mixed join where both sides hold a collision list of the same hash and share a key that is not the left list's last",
    "the right side's own operation is also called for a key that both sides have, and its entry joins the result a second time",
    '''
fn main() {
    let a = map(&[(k(1, 5), 1), (k(2, 5), 2)]);
    let b = map(&[(k(1, 5), 10u64), (k(2, 5), 20), (k(3, 5), 30)]);
    let (m, n) = run(unsafe { a.transform_with_transmuted(&b, |l: &u32, r: &u32| l + r,
        new_map_transform_transmute_generic(|_: &K, v: &i32, _: &K, w: &u64| MapTransformResult::Transformed(*v + *w as i32, 1)),
        new_map_transform_generic(|_: &K, _: &i32| MapTransformResult::Unchanged(1)),
        new_map_transmute_generic(|k: &K, v: &u64| MapTransmuteResult::Transmuted(k.clone(), *v as i32, 1)), SEQ) });
    assert_eq!((show(&m), m.size(), n), (vec![(1, 11), (2, 22), (3, 30)], 3, 3));
}''')

bug("b14", "P16",
    [(L, "LNodeTransformResult::Unchanged(rr) => LNodeTransformResult::Unchanged(reduce_op(&lr, &rr)),\n            LNodeTransformResult::L(lnode, rr) => LNodeTransformResult::L(LNode::new(this.key.clone(), this.value.clone(), LNodeNext::L(lnode)), reduce_op(&lr, &rr)),",
         "LNodeTransformResult::Unchanged(rr) => LNodeTransformResult::L(LNode::new(this.key.clone(), this.value.clone(), this.next.clone()), reduce_op(&lr, &rr)),\n            LNodeTransformResult::L(lnode, rr) => LNodeTransformResult::L(LNode::new(this.key.clone(), this.value.clone(), LNodeNext::L(lnode)), reduce_op(&lr, &rr)),", 1)],
    "a transform whose operation keeps everything, on a container with a collision list",
    "the list is rebuilt, so the result no longer compares equal to the original",
    '''
fn main() {
    let m = map(&[(k(1, 5), 1), (k(2, 5), 2), (k(3, 9), 3)]);
    let t = run(m.transform(|_, _| (), new_map_transform_generic(|_: &K, _: &i32| MapTransformResult::Unchanged(())), SEQ)).0;
    assert!(m == m.clone());
    assert!(t == m);
}''')

bug("b15", "P19",
    [(T, "impl BitIndex for u128 { fn bit_index(&self, bit: Self) -> Result<usize, BitError> {bit_found!(self, bit); Ok((self & (bit - 1)).count_ones() as usize)} }",
         "impl BitIndex for u128 { fn bit_index(&self, bit: Self) -> Result<usize, BitError> {bit_found!(self, bit); Ok(((self & (bit - 1)) as u64).count_ones() as usize)} }")],
    "a 128-bit word with set bits above its lower half",
    "bits of the upper half are not counted, so the index is too small",
    '''
fn main() {
    let w: u128 = (1 << 3) | (1 << 70) | (1 << 100);
    assert_eq!(w.bit_index(1 << 70).unwrap(), 1);
    assert_eq!(w.bit_index(1 << 100).unwrap(), 2);
}''')

bug("b16", "P20",
    [(X, "Self::Generic(f, flipped) => Self::Generic(f.clone(), !flipped),", "Self::Generic(f, _) => Self::Generic(f.clone(), true),", 0)],
    "a joint operation on maps that is flipped twice (or an even number of times)",
    "after the second flip it still answers with its sides swapped",
    '''
fn main() {
    let op = new_map_joint_transform_generic(|_: &u32, v: &i32, _: &u32, w: &i32| if v < w { MapJointTransformResult::UnchangedL(v - w) } else { MapJointTransformResult::UnchangedR(v - w) });
    let twice = op.flip().flip();
    match (op.call(&1, &10, &1, &25), twice.call(&1, &10, &1, &25)) {
        (MapJointTransformResult::UnchangedL(a), MapJointTransformResult::UnchangedL(b)) => assert_eq!(a, b),
        _ => panic!("different outcomes"),
    }
}''')

bug("b17", "P05",
    [(T, "for u16 { fn mask_log_b() -> T {0b1111.into()} }", "for u16 { fn mask_log_b() -> T {0b111.into()} }")],
    "flags of 16 bits and two keys whose hashes differ only in the top bit of a four-bit group",
    "the two keys can never be told apart, and inserting the second one panics; any other flag word works",
    '''
fn main() {
    let m = HashTrieMap::<u64, u16, K, u32, Pass>::new().insert(k(1, 0x1), 1u32, false).unwrap().0;
    let m = m.insert(k(2, 0x9), 2u32, false).unwrap().0;
    assert_eq!((m.size(), m.find(&k(1, 0x1)).is_ok(), m.find(&k(2, 0x9)).is_ok()), (2, true, true));
}''')

bug("b18", "P03",
    [(L, "    match this.find(&key) {\n        FindResult::Found(k, v) => if replace {\n",
         "    match this.find(&key) {\n        FindResult::Found(_, _) if replace && this.key == key && Arc::strong_count(this) == 1 => {\n            // This version is the list's only owner: no need to copy it.\n            let prev = SNode::new(this.key.clone(), this.value.clone());\n            let node = Arc::as_ptr(this) as *mut LNode<K, V>;\n            unsafe { (*node).value = value.into(); }\n            let (key, old): (*const K, *const V) = (this.key(), this.value());\n            core::mem::forget(prev);\n            LNodeInsertResult::InsertedL(this.clone(), key, old, Some((this.key(), this.value())))\n        },\n        FindResult::Found(k, v) => if replace {\n")],
    "replacing the first entry of a collision list that no other version shares",
    "the version the replacement was made from shows the new value too",
    '''
fn main() {
    let m = map(&[(k(1, 5), 1), (k(2, 5), 2)]);
    let n = m.insert(k(2, 5), 20, true).unwrap().0;
    assert_eq!(show(&n), [(1, 1), (2, 20)]);
    assert_eq!(show(&m), [(1, 1), (2, 2)]);
}''')

bug("b19", "P08",
    [(C, "                    size += lnode.size();\n                    bits_t = bits_t.bit_insert(<F>::nth_bit(index).unwrap()).unwrap();\n                    values_t.push(MNode::L(lnode));\n                    reduced = reduce_op(&reduced, &r);\n                    unchanged = false;",
         "                    size += node.size();\n                    bits_t = bits_t.bit_insert(<F>::nth_bit(index).unwrap()).unwrap();\n                    values_t.push(MNode::L(lnode));\n                    reduced = reduce_op(&reduced, &r);\n                    unchanged = false;")],
    "a transform that removes some but leaves at least two entries of a collision list of three or more",
    "the size of the result still counts the removed entries",
    '''
fn main() {
    let m = map(&[(k(1, 5), 1), (k(2, 5), 2), (k(3, 5), 3), (k(4, 9), 4)]);
    let t = run(m.transform(|_, _| (), new_map_transform_generic(|k: &K, _: &i32| if k.id == 2 { MapTransformResult::Removed(()) } else { MapTransformResult::Unchanged(()) }), SEQ)).0;
    assert_eq!(show(&t).len(), 3);
    assert_eq!(t.size(), 3);
}''')

bug("b20", "P09",
    [(C, "MNode::C(cnode) => MNodeTransmuteResult::C(CNode::new(new_bit_indexed_array(bits_t, BitIndexedArrayVec::new(&[MNode::C(cnode)]), size).unwrap()), reduced),", "MNode::C(cnode) => MNodeTransmuteResult::C(cnode, reduced),", 0)],
    "a transmute that leaves entries in only one subtree of some node",
    "the subtree moves up a level and its keys can no longer be found",
    '''
fn main() {
    let m = map(&[(k(1, 1), 1), (k(2, 1 + (3 << 5)), 2), (k(4, 7), 4)]);
    let (t, _): (Map<String>, ()) = unsafe { m.transmute(|_, _| (), new_map_transmute_generic(|k: &K, v: &i32| if k.id == 4 { MapTransmuteResult::Removed(()) } else { MapTransmuteResult::Transmuted(k.clone(), v.to_string(), ()) })) };
    assert_eq!(t.find(&k(2, 1 + (3 << 5))).unwrap().1, "2");
}''')

bug("b21", "P01",
    [("src/bit_indexed_array.rs", "            Ordering::Greater => self.existing.at_index(index - 1).unwrap().clone(),", "            Ordering::Greater => self.existing.at_index(index - 1 - (index == 90) as usize).unwrap().clone(),")],
    "a node with ninety or more children (128-bit flags) that gains one below its ninetieth",
    "one child is duplicated over another, so an entry is lost and another is shown twice",
    '''
fn main() {
    let mut m = HashTrieMap::<u64, u128, K, u32, Pass>::new();
    for i in (0..120u32).rev() { m = m.insert(k(i, i as u64), i, false).unwrap().0 }
    for i in 0..120u32 { assert!(m.find(&k(i, i as u64)).is_ok(), "lost {}", i) }
}''')

bug("b22", "P17",
    [(L, "        LNodeInsertResult::InsertedC(cnode::lift_to_cnode_and_insert(this.into(), this_flag,",
         "        let this = match this {\n            LNodeNext::S(snode) if key_flag.depth() > 1 => LNodeNext::S(SNode::new(snode.key().clone(), snode.value().clone())),\n            next => next,\n        };\n        LNodeInsertResult::InsertedC(cnode::lift_to_cnode_and_insert(this.into(), this_flag,")],
    "an insert that splits an entry which sits below the second level",
    "the entry with another hash that was there is copied instead of shared with the old version",
    '''
static CLONES: AtomicUsize = AtomicUsize::new(0);
#[derive(Debug)]
struct V(u32);
impl Clone for V { fn clone(&self) -> V { CLONES.fetch_add(1, SeqCst); V(self.0) } }
fn main() {
    let m = Map::<V>::new().insert(k(1, 5), V(1), false).unwrap().0;
    let m = m.insert(k(2, 5 + (1 << 5)), V(2), false).unwrap().0;
    let m = m.insert(k(3, 5 + (1 << 5) + (1 << 10)), V(3), false).unwrap().0;
    let n = m.insert(k(4, 5 + (1 << 5) + (1 << 10) + (1 << 15)), V(4), false).unwrap().0;
    for (id, h) in [(1, 5), (2, 5 + (1 << 5)), (3, 5 + (1 << 5) + (1 << 10))] {
        assert!(std::ptr::eq(m.find(&k(id, h)).unwrap().1, n.find(&k(id, h)).unwrap().1), "entry {} moved", id);
    }
    assert_eq!(CLONES.load(SeqCst), 0);
}''')

bug("b23", "P21",
    [(L, "    let this_hash = M::default().hash(this.key());\n    if this_hash == key_flag.hash_value() {\n        let lnode = LNode::new(key.into(), value.into(), this);",
         "    let this_hash = M::default().hash(this.key());\n    if this_hash == key_flag.hash_value() {\n        let probe: K = key.clone().into();\n        debug_assert!(probe == key);\n        let lnode = LNode::new(key.into(), value.into(), this);")],
    "inserting a look-alike key whose hash equals a stored key's",
    "the look-alike is converted twice, once for nothing",
    '''
static INTO: AtomicUsize = AtomicUsize::new(0);
#[derive(Clone, Debug, Default, PartialEq, Eq)]
struct A(u32, u64);
impl Hash for A { fn hash<S: Hasher>(&self, s: &mut S) { s.write_u64(self.1) } }
impl From<A> for K { fn from(a: A) -> K { INTO.fetch_add(1, SeqCst); k(a.0, a.1) } }
impl PartialEq<A> for K { fn eq(&self, a: &A) -> bool { self.id == a.0 } }
impl HashLike<A> for K {}
impl HashLike<K> for A {}
fn main() {
    let m = map(&[(k(1, 5), 1)]);
    let m = m.insert(A(2, 5), 2, false).unwrap().0;
    assert_eq!(show(&m), [(1, 1), (2, 2)]);
    assert_eq!(INTO.load(SeqCst), 1);
}''')

bug("b24", "P25",
    [(L, "LNodeTransformResult::Removed(rr) => LNodeJointTransformResult::UnchangedR(reduce_op(&lr, &rr)),", "LNodeTransformResult::Removed(rr) => LNodeJointTransformResult::UnchangedL(reduce_op(&lr, &rr)),")],
    "a join keeping right's key where the left side holds a collision list with that key and the rest of the list is dropped",
    "the whole left list is kept, so an intersection that keeps right's keys has keys that are not in both",
    '''
fn main() {
    let a = set(&[k(1, 5), k(2, 5), k(3, 9)]);
    let b = set(&[k(2, 5), k(3, 9)]);
    let meet = |a: &Set, b: &Set| keys(&run(a.transform_with_transformed(b, |_, _| (), new_set_joint_transform_unchangedr::<K, ()>(()), new_set_transform_removed(()), new_set_transform_removed(()), SEQ)).0);
    assert_eq!(meet(&a, &b), [(2, 0), (3, 0)]);
    assert_eq!(meet(&b, &a), meet(&a, &b));
}''')

bug("b25", "P06",
    [(T, "for u8 { fn mask_log_b() -> T {0b111.into()} }", "for u8 { fn mask_log_b() -> T {0b11.into()} }")],
    "eight-bit flags and ordinary keys whose hashes differ only in the third bit of each group",
    "such keys cannot be told apart and an insert panics",
    '''
fn main() {
    let mut m = HashTrieMap::<u8, u8, u32, u32, fnv::FnvHasher>::new();
    for i in 0..2000u32 { m = m.insert(i, i, false).unwrap().0 }
    for i in 0..2000u32 { assert_eq!(*m.find(&i).unwrap().1, i) }
}''')

bug("b26", "P26",
    [(C, "    let flag = Flag::<H, F>::new_at_depth(M::default().hash(right.key()), depth).unwrap().flag();\n\n    let mut size = 0;\n    let mut bits_t = F::default();\n    let mut values_t = Vec::default();\n    let mut reduced = ReduceT::default();\n    let mut unchangedl = true;",
         "    let flag = Flag::<H, F>::new_at_depth(M::default().hash(right.key()), depth).unwrap().flag();\n\n    if right.size() > 3 {\n        let mut polled = false;\n        core::future::poll_fn(move |_| if core::mem::replace(&mut polled, true) { core::task::Poll::Ready(()) } else { core::task::Poll::Pending }).await;\n    }\n\n    let mut size = 0;\n    let mut bits_t = F::default();\n    let mut values_t = Vec::default();\n    let mut reduced = ReduceT::default();\n    let mut unchangedl = true;", 0)],
    "a join where the right side has a collision list of four or more entries and the left side a node in the same place, driven by an executor that polls when woken",
    "the future yields once and never asks to be polled again, so whoever waits for a wake-up hangs",
    '''
fn main() {
    let a = map(&[(k(1, 5), 1), (k(2, 5 + 32), 2)]);
    let b = map(&[(k(3, 5), 1), (k(4, 5), 2), (k(5, 5), 2), (k(6, 5), 2)]);
    let woken = std::sync::Arc::new(Woken(AtomicUsize::new(0)));
    let waker = Waker::from(woken.clone());
    let mut f = pin!(a.transform_with_transformed(&b, |_, _| (), new_map_joint_transform_unchangedlr(()), new_map_transform_unchanged(()), new_map_transform_unchanged(()), SEQ));
    let mut polls = 0;
    loop {
        polls += 1;
        match f.as_mut().poll(&mut Context::from_waker(&waker)) {
            Poll::Ready((m, ())) => { assert_eq!(m.size(), 6); break }
            Poll::Pending => assert!(woken.0.load(SeqCst) >= polls, "pending, but nobody will ever wake the task"),
        }
    }
}
struct Woken(AtomicUsize);
impl std::task::Wake for Woken { fn wake(self: std::sync::Arc<Self>) { self.0.fetch_add(1, SeqCst); } }''')

bug("b27", "P26",
    [("src/set.rs", """    pub async fn transform<ReduceT, ReduceOp, Op>
        (&self, reduce_op: ReduceOp, op: SetTransform<ReduceT, Op>, par_strat: ParallelismStrategy) -> (Self, ReduceT)""",
      """    pub fn transform<ReduceT, ReduceOp, Op>
        (&self, reduce_op: ReduceOp, op: SetTransform<ReduceT, Op>, par_strat: ParallelismStrategy) -> impl core::future::Future<Output = (Self, ReduceT)> + use<'_, H, F, K, M, ReduceT, ReduceOp, Op>"""),
     ("src/set.rs", """    {
        let (set, reduced) = self.set.transform(reduce_op, match op {
            SetTransform::Generic(f)""",
      """    {
        let mut work = alloc::boxed::Box::pin(async move {
        let (set, reduced) = self.set.transform(reduce_op, match op {
            SetTransform::Generic(f)"""),
     ("src/set.rs", """            SetTransform::Removed(r) => MapTransform::Removed(r),
        }, par_strat).await;
        (Self{set}, reduced)
""",
      """            SetTransform::Removed(r) => MapTransform::Removed(r),
        }, par_strat).await;
        (Self{set}, reduced)
        });
        let early = if self.size() == 1 { futures_util::FutureExt::now_or_never(&mut work) } else { None };
        async move { match early { Some(done) => done, None => work.await } }
""", 0)],
    "a set with exactly one key, and a future that is made and dropped, or polled only later",
    "the operation is applied when the future is made rather than when it is polled",
    '''
fn main() {
    for keys in [vec![], vec![k(1, 5)], vec![k(1, 5), k(2, 5)], vec![k(1, 5), k(2, 7)]] {
        let s = set(&keys);
        let calls = AtomicUsize::new(0);
        drop(s.transform(|_, _| (), new_set_transform_generic(|_: &K| { calls.fetch_add(1, SeqCst); SetTransformResult::Unchanged(()) }), SEQ));
        assert_eq!(calls.load(SeqCst), 0, "{} keys", keys.len());
    }
}''')

bug("b28", "P27",
    [(L, """fn remove_from_lnode<'a, K: Key, V: Value, L: Key>(this: &'a Arc<LNode<K, V>>, key: &L) -> LNodeRemoveResult<'a, K, V> where K: PartialEq<L> {
    if this.key == *key {
        match""",
      """static SKIP: core::sync::atomic::AtomicUsize = core::sync::atomic::AtomicUsize::new(0);

fn remove_from_lnode<'a, K: Key, V: Value, L: Key>(this: &'a Arc<LNode<K, V>>, key: &L) -> LNodeRemoveResult<'a, K, V> where K: PartialEq<L> {
    let mut position = 0;
    let mut node = this;
    loop {
        if node.key == *key {
            break;
        }
        position += 1;
        match &node.next {
            LNodeNext::L(lnode) => node = lnode,
            LNodeNext::S(snode) => {
                if *snode.key() == *key {
                    break;
                }
                return LNodeRemoveResult::NotFound;
            },
        }
    }
    SKIP.store(position, core::sync::atomic::Ordering::SeqCst);
    remove_skipped(this, key)
}

fn remove_skipped<'a, K: Key, V: Value, L: Key>(this: &'a Arc<LNode<K, V>>, key: &L) -> LNodeRemoveResult<'a, K, V> where K: PartialEq<L> {
    let skip = SKIP.load(core::sync::atomic::Ordering::SeqCst);
    if skip == 0 {
        match"""),
     (L, """        match &this.next {
            LNodeNext::L(lnode) => match remove_from_lnode(lnode, key) {
                LNodeRemoveResult::NotFound => LNodeRemoveResult::NotFound,
                LNodeRemoveResult::RemovedL(lnode, key, value) => LNodeRemoveResult::RemovedL(LNode::new(this.key.clone(), this.value.clone(), LNodeNext::L(lnode)), key, value),
                LNodeRemoveResult::RemovedS(snode, key, value) => LNodeRemoveResult::RemovedL(LNode::new(this.key.clone(), this.value.clone(), LNodeNext::S(snode)), key, value),
            },""",
      """        let kept = (this.key.clone(), this.value.clone());
        match &this.next {
            LNodeNext::L(lnode) => match { SKIP.store(SKIP.load(core::sync::atomic::Ordering::SeqCst).saturating_sub(1), core::sync::atomic::Ordering::SeqCst); remove_skipped(lnode, key) } {
                LNodeRemoveResult::NotFound => LNodeRemoveResult::NotFound,
                LNodeRemoveResult::RemovedL(lnode, key, value) => LNodeRemoveResult::RemovedL(LNode::new(kept.0, kept.1, LNodeNext::L(lnode)), key, value),
                LNodeRemoveResult::RemovedS(snode, key, value) => LNodeRemoveResult::RemovedL(LNode::new(kept.0, kept.1, LNodeNext::S(snode)), key, value),
            },"""),
     (L, "SNodeRemoveResult::RemovedZ(key, value) => LNodeRemoveResult::RemovedS(SNode::new(this.key.clone(), this.value.clone()), key, value),", "SNodeRemoveResult::RemovedZ(key, value) => LNodeRemoveResult::RemovedS(SNode::new(kept.0, kept.1), key, value),")],
    "a removal from a long collision list during which a value's clone removes from another collision list",
    "the wrong entry is removed",
    '''
thread_local! { static OTHER: RefCell<Option<Map<i32>>> = RefCell::new(None); }
#[derive(Debug)]
struct V(u32);
impl Clone for V {
    fn clone(&self) -> V {
        OTHER.with(|o| if let Some(m) = &*o.borrow() { assert_eq!(show(&m.remove(&k(11, 3)).unwrap().0), [(10, 0), (12, 0)]) });
        V(self.0)
    }
}
fn main() {
    OTHER.with(|o| *o.borrow_mut() = Some(map(&[(k(10, 3), 0), (k(11, 3), 0), (k(12, 3), 0)])));
    let mut m = Map::<V>::new();
    for i in 0..5 { m = m.insert(k(i, 7), V(i), true).unwrap().0 }
    for i in 0..5 {
        let (n, key, value) = m.remove(&k(i, 7)).unwrap();
        assert_eq!((key.id, value.0), (i, i));
        for j in 0..5 { assert_eq!(n.find(&k(j, 7)).is_ok(), i != j) }
    }
}''')

bug("b29", "P28",
    [(C, "            MNode::S(snode) => MNodeTransmuteResult::S(snode, reduced),", "            MNode::S(snode) => MNodeTransmuteResult::C(CNode::new(new_bit_indexed_array(bits_t, BitIndexedArrayVec::new(&[MNode::S(snode)]), size).unwrap()), reduced),", 0)],
    "a transmute that drops all but one of the entries below a node",
    "the one entry left keeps the branching nodes of those that are gone: results are right, memory is not",
    MEMORY_DEMO + '''
fn main() {
    // 64 keys in 32 pairs; each pair is told apart seven levels down.
    let mut m = Map::<i32>::new();
    for i in 0..64u64 { m = m.insert(k(i as u32, (i / 2) | ((i & 1) << 35)), 0, true).unwrap().0 }
    let (n, ()) = unsafe { m.transmute(|_, _| (), new_map_transmute_generic(|k: &K, v: &i32| if k.id & 1 == 0 { MapTransmuteResult::Transmuted(k.clone(), *v, ()) } else { MapTransmuteResult::Removed(()) })) };
    let mut fresh = Map::<i32>::new();
    for i in (0..64u64).step_by(2) { fresh = fresh.insert(k(i as u32, i / 2), 0, true).unwrap().0 }
    assert_eq!(show(&n), show(&fresh));
    drop(m);
    let before = live();
    drop(n);
    let middle = live();
    drop(fresh);
    let (kept, needed) = (before - middle, middle - live());
    assert!(kept <= needed * 5, "{} bytes for entries that need {}", kept, needed);
}''')

bug("b30", "P28",
    [(C, """            1 => match values.pop().unwrap() {
                MNode::C(cnode) => MNodeJointTransformResult::C(CNode::new(new_bit_indexed_array(bits, BitIndexedArrayVec::new(&[MNode::C(cnode)]), size).unwrap()), reduced),
                MNode::L(lnode) => MNodeJointTransformResult::L(lnode, reduced),
                MNode::S(snode) => MNodeJointTransformResult::S(snode, reduced),""",
      """            1 => match values.pop().unwrap() {
                MNode::C(cnode) => MNodeJointTransformResult::C(CNode::new(new_bit_indexed_array(bits, BitIndexedArrayVec::new(&[MNode::C(cnode)]), size).unwrap()), reduced),
                MNode::L(lnode) => MNodeJointTransformResult::L(lnode, reduced),
                MNode::S(snode) => match par_strat {
                    ParallelismStrategy::Sequential => MNodeJointTransformResult::S(snode, reduced),
                    _ => MNodeJointTransformResult::C(CNode::new(new_bit_indexed_array(bits, BitIndexedArrayVec::new(&[MNode::S(snode)]), size).unwrap()), reduced),
                },""", 0)],
    "a join under the middle-index strategy that leaves one entry below a node",
    "the one entry left keeps the branching nodes of those that are gone: results are right, memory is not",
    MEMORY_DEMO + '''
fn main() {
    let build = |keep: u64| {
        let mut m = Map::<i32>::new();
        for i in 0..64u64 { if i & 1 == 0 || keep == 1 { m = m.insert(k(i as u32, (i / 2) | ((i & 1) << 35)), 0, true).unwrap().0 } }
        m
    };
    for strategy in [SEQ, PAR] {
        let (a, b) = (build(1), build(1));
        let (n, ()) = run(a.transform_with_transformed(&b, |_, _| (), new_map_joint_transform_generic(|k: &K, _: &i32, _: &K, _: &i32| if k.id & 1 == 0 { MapJointTransformResult::UnchangedL(()) } else { MapJointTransformResult::Removed(()) }), new_map_transform_removed(()), new_map_transform_removed(()), strategy));
        let fresh = build(0);
        assert_eq!(show(&n), show(&fresh));
        drop((a, b));
        let before = live();
        drop(n);
        let middle = live();
        drop(fresh);
        let (kept, needed) = (before - middle, middle - live());
        assert!(kept <= needed * 5, "{} bytes for entries that need {}", kept, needed);
    }
}''')

bug("b31", "P29",
    [(C, "    let size = this.size() + right.size();\n    if this_flag.flag() == right_flag.flag() {", "    let size = 1 + right.size();\n    if this_flag.flag() == right_flag.flag() {")],
    "a collision list joined by a new key in the same slot, and then a bulk operation that drops other parts and adds up sizes",
    "sizes are too small, and only after a later operation",
    '''
fn main() {
    let m = map(&[(k(9, 2), 0), (k(1, 5), 1), (k(2, 5), 2), (k(3, 5 + 32), 3)]);
    assert_eq!(m.size(), 4);
    let (n, ()) = run(m.transform(|_, _| (), new_map_transform_generic(|k: &K, _: &i32| if k.id == 9 { MapTransformResult::Removed(()) } else { MapTransformResult::Unchanged(()) }), SEQ));
    assert_eq!(show(&n), [(1, 1), (2, 2), (3, 3)]);
    assert_eq!(n.size(), 3);
}''')

bug("b32", "P23",
    [(L, "fn transform_impl<K: Key, V: Value, ReduceT, ReduceOp, Op>(", "static DEPTH: core::sync::atomic::AtomicUsize = core::sync::atomic::AtomicUsize::new(0);\n\nfn transform_impl<K: Key, V: Value, ReduceT, ReduceOp, Op>("),
     (L, "        LNodeNext::L(lnode) => transform(lnode, reduce_op.clone(), op.clone()),\n        LNodeNext::S(snode) => snode::transform(snode, op.clone()).into(),\n    };\n\n    transform_result(this, op.call(&this.key, &this.value), next, reduce_op)",
         "        LNodeNext::L(lnode) => transform(lnode, reduce_op.clone(), op.clone()),\n        LNodeNext::S(snode) => snode::transform(snode, op.clone()).into(),\n    };\n\n    assert!(DEPTH.fetch_add(1, core::sync::atomic::Ordering::SeqCst) < 256, \"operations nested too deeply\");\n    let result = op.call(&this.key, &this.value);\n    DEPTH.fetch_sub(1, core::sync::atomic::Ordering::SeqCst);\n    transform_result(this, result, next, reduce_op)", 0)],
    "a few hundred panics of an operation over collision lists, each caught",
    "every one of them leaves a counter one too high, until transforms of lists fail for everybody",
    '''
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let m = map(&[(k(1, 5), 1), (k(2, 5), 2), (k(3, 5), 3)]);
    for _ in 0..2000 {
        assert!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(m.transform(|_, _| (), new_map_transform_generic(|k: &K, _: &i32| -> MapTransformResult<i32, ()> { if k.id == 2 { panic!("no") } MapTransformResult::Unchanged(()) }), SEQ)))).is_err());
    }
    let (n, ()) = run(m.transform(|_, _| (), new_map_transform_generic(|_: &K, v: &i32| MapTransformResult::Transformed(v + 1, ())), SEQ));
    assert_eq!(show(&n), [(1, 2), (2, 3), (3, 4)]);
}''')

bug("b33", "P22",
    [(L, """    pub(super) fn find<'a, L: Key>(&'a self, key: &L) -> FindResult<'a, K, V> where K: PartialEq<L> {
        if self.key == *key {
            FindResult::Found(self.key(), self.value())
        }
        else {
            match &self.next {
                LNodeNext::L(lnode) => lnode.find(key),
                LNodeNext::S(snode) => snode.find(key),
            }
        }
    }""",
      """    pub(super) fn find<'a, L: Key>(&'a self, key: &L) -> FindResult<'a, K, V> where K: PartialEq<L> {
        use core::sync::atomic::{AtomicUsize, Ordering::Relaxed};
        static STEPS: AtomicUsize = AtomicUsize::new(0);
        let mut steps = 0;
        let mut node = self;
        while node.key != *key {
            steps += 1;
            match &node.next {
                LNodeNext::L(lnode) => node = lnode,
                LNodeNext::S(snode) => return snode.find(key),
            }
        }
        STEPS.store(steps, Relaxed);
        let mut node = self;
        loop {
            let steps = STEPS.load(Relaxed);
            if steps == 0 {
                return FindResult::Found(node.key(), node.value());
            }
            STEPS.store(steps - 1, Relaxed);
            match &node.next {
                LNodeNext::L(lnode) => node = lnode,
                LNodeNext::S(snode) => return FindResult::Found(snode.key(), snode.value()),
            }
        }
    }""")],
    "two threads looking up keys in collision lists at the same moment",
    "one of them gets another key's entry",
    '''
fn main() {
    let mut m = Map::<u32>::new();
    for i in 0..40 { m = m.insert(k(i, 7), i, true).unwrap().0 }
    let m = &m;
    std::thread::scope(|s| for t in 0..8u32 {
        s.spawn(move || for i in 0..400_000u32 {
            let id = (i * 7 + t * 5) % 40;
            assert_eq!(*m.find(&k(id, 7)).unwrap().1, id);
        });
    });
}''')

bug("b34", "P11",
    [(L, "    let result = match rights.iter().position(|key_value| this.key == *key_value.0).map(|index| rights.swap_remove(index)) {\n        Some((right_key, right_value)) => both_op.call_transform_transmute(", "    let result = match rights.iter().take(24).position(|key_value| this.key == *key_value.0).map(|index| rights.swap_remove(index)) {\n        Some((right_key, right_value)) => both_op.call_transform_transmute(")],
    "a mixed join of two collision lists with more than 24 keys in common",
    "keys both sides have are treated as the left side's alone, and again as the right side's",
    '''
fn main() {
    let mut a = set(&[]);
    for i in 0..60 { a = a.insert(k(i, 5), true).unwrap().0 }
    let m = { let mut m = Map::<i32>::new(); for i in (0..60u32).rev() { m = m.insert(k(i, 5), i as i32, true).unwrap().0 } m };
    let n = { let mut m = Map::<String>::new(); for i in 0..60u32 { m = m.insert(k(i, 5), i.to_string(), true).unwrap().0 } m };
    let (both, left, right) = (AtomicUsize::new(0), AtomicUsize::new(0), AtomicUsize::new(0));
    let (out, ()) = run(unsafe { m.transform_with_transmuted(&n, |_, _| (),
        new_map_transform_transmute_generic(|_: &K, _: &i32, _: &K, _: &String| { both.fetch_add(1, SeqCst); MapTransformResult::Unchanged(()) }),
        new_map_transform_generic(|_: &K, _: &i32| { left.fetch_add(1, SeqCst); MapTransformResult::Removed(()) }),
        new_map_transmute_generic(|_: &K, _: &String| { right.fetch_add(1, SeqCst); MapTransmuteResult::Removed(()) }), SEQ) });
    assert_eq!((both.into_inner(), left.into_inner(), right.into_inner()), (60, 0, 0));
    assert_eq!(out.size(), 60);
}''')

bug("b35", "P05",
    [("src/flag.rs", "        Self::new_at_depth(self.hash_value().clone(), self.depth + 1)", "        const MAX_DEPTH: usize = 32;\n        if self.depth >= MAX_DEPTH {\n            return None;\n        }\n        Self::new_at_depth(self.hash_value().clone(), self.depth + 1)")],
    "128-bit hashes under 8-bit flags, and two keys that agree in the low 99 bits of their hashes",
    "the second key cannot be inserted: a panic",
    '''
#[derive(Clone, Debug, Default, PartialEq, Eq)]
struct W(u128);
impl Hash for W { fn hash<S: Hasher>(&self, s: &mut S) { s.write_u128(self.0) } }
#[derive(Clone, Default)]
struct H128(u128);
impl Hasher for H128 { fn finish(&self) -> u64 { self.0 as u64 } fn write(&mut self, _: &[u8]) {} fn write_u128(&mut self, v: u128) { self.0 = v } }
impl HasherBv<u128, W> for H128 { fn hash(&self, key: &W) -> u128 { key.0 } }
fn main() {
    let mut m = HashTrieMap::<u128, u8, W, usize, H128>::new();
    let keys: Vec<W> = (0..128).map(|i| W(1 << i)).chain([W(0)]).collect();
    for (i, key) in keys.iter().enumerate() { m = m.insert(key.clone(), i, false).unwrap().0 }
    for (i, key) in keys.iter().enumerate() { assert_eq!(*m.find(key).unwrap().1, i) }
}''')

bug("b36", "P12",
    [(L, "    let result = match rights.iter().position(|key_value| this.key == *key_value.0).map(|index| rights.swap_remove(index)) {\n        Some((right_key, right_value)) => both_op.call_transmute(", "    let result = match rights.iter().rev().position(|key_value| this.key == *key_value.0).map(|index| rights.swap_remove(index)) {\n        Some((right_key, right_value)) => both_op.call_transmute(")],
    "a join into a third type of two collision lists, with the common key off the middle of the right-hand list",
    "the wrong right-hand entry is paired with the key",
    '''
fn main() {
    let m = map(&[(k(1, 5), 1), (k(2, 5), 2), (k(3, 5), 3)]);
    let n = map(&[(k(1, 5), 1i64), (k(4, 5), 4), (k(3, 5), 3), (k(2, 5), 2)]);
    let (out, ()) = unsafe { m.transmute_with_transmuted(&n, |_, _| (),
        new_map_transmute_transmute_generic(|a: &K, _: &i32, b: &K, _: &i64| { assert_eq!(a.id, b.id); MapTransmuteResult::Transmuted(a.clone(), 'b', ()) }),
        new_map_transmute_generic(|k: &K, _: &i32| MapTransmuteResult::Transmuted(k.clone(), 'l', ())),
        new_map_transmute_generic(|k: &K, _: &i64| MapTransmuteResult::Transmuted(k.clone(), 'r', ()))) };
    assert_eq!(show(&out), [(1, 'b'), (2, 'b'), (3, 'b'), (4, 'r')]);
}''')

bug("b37", "P18",
    [("src/bit_indexed_array.rs", "            Ordering::Less => self.existing.at_index(index).unwrap().clone(),\n            Ordering::Equal => self.value.take().unwrap(),\n            Ordering::Greater => self.existing.at_index(index - 1).unwrap().clone(),", "            Ordering::Less => {\n                let value = self.existing.at_index(index).unwrap().clone();\n                if self.existing.len() < 47 { value } else { let value = mem::ManuallyDrop::new(value); (*value).clone() }\n            },\n            Ordering::Equal => self.value.take().unwrap(),\n            Ordering::Greater => self.existing.at_index(index - 1).unwrap().clone(),")],
    "a node with 48 or more children, as only 64-bit flag words and wider have",
    "the children's reference counts are raised once too often and their entries are never dropped",
    '''
static LIVE: AtomicUsize = AtomicUsize::new(0);
#[derive(Debug)]
struct V(u32);
impl V { fn new(v: u32) -> V { LIVE.fetch_add(1, SeqCst); V(v) } }
impl Clone for V { fn clone(&self) -> V { V::new(self.0) } }
impl Drop for V { fn drop(&mut self) { LIVE.fetch_sub(1, SeqCst); } }
fn main() {
    for spread in [20, 60] {
        let mut m = HashTrieMap::<u64, u64, K, V, Pass>::new();
        for i in 0..spread { m = m.insert(k(i, i as u64), V::new(i), true).unwrap().0 }
        assert_eq!(LIVE.load(SeqCst), spread as usize);
        drop(m);
        assert_eq!(LIVE.load(SeqCst), 0);
    }
}''')

bug("b38", "P01",
    [(C, "        match self.nodes.at(flag.as_ref().unwrap().flag.clone()) {\n            Ok(node) => match node {\n                MNode::C(cnode) => cnode.find(key, flag.unwrap().next()),",
         "        // The slot that was found empty last, for callers that look before they insert.\n        static EMPTY: core::sync::atomic::AtomicUsize = core::sync::atomic::AtomicUsize::new(0);\n        let slot = Arc::as_ptr(&self.nodes) as *const u8 as usize | flag.as_ref().unwrap().flag.as_usize().trailing_zeros() as usize % 128 << 56;\n        if EMPTY.load(core::sync::atomic::Ordering::Relaxed) == slot {\n            return FindResult::NotFound;\n        }\n        match self.nodes.at(flag.as_ref().unwrap().flag.clone()) {\n            Ok(node) => match node {\n                MNode::C(cnode) => cnode.find(key, flag.unwrap().next()),"),
     (C, "            Err(_) => FindResult::NotFound\n", "            Err(_) => {\n                EMPTY.store(slot, core::sync::atomic::Ordering::Relaxed);\n                FindResult::NotFound\n            }\n")],
    "a look-up of an absent key, after which the container is dropped and another one with that key is made whose node gets the freed memory",
    "the key that is there is not found",
    '''
fn main() {
    for round in 0..2000u32 {
        let pair = |a: u32, b: u32| map(&[(k(a, a as u64), a), (k(b, b as u64), b)]);
        let m = pair(1, 2);
        assert!(m.find(&k(3, 3)).is_err());
        drop(m);
        let kept: Vec<_> = (0..round % 5).map(|_| pair(1, 2)).collect();
        let m = pair(1, 3);
        assert!(m.find(&k(3, 3)).is_ok(), "round {round}");
        drop(kept);
    }
}''')

bug("b39", "P24",
    [(L, "    if this.key == *key {\n        match &this.next {\n            LNodeNext::L(lnode) => LNodeRemoveResult::RemovedL(lnode.clone(),", "    if let FindResult::NotFound = this.find(key) {\n        return LNodeRemoveResult::NotFound;\n    }\n    if this.key == *key {\n        match &this.next {\n            LNodeNext::L(lnode) => LNodeRemoveResult::RemovedL(lnode.clone(),")],
    "removing or replacing an entry far down a long collision list",
    "every step down the list searches the rest of the list: the work is quadratic",
    '''
static EQS: AtomicUsize = AtomicUsize::new(0);
#[derive(Clone, Debug, Default)]
struct E(u32);
impl PartialEq for E { fn eq(&self, o: &E) -> bool { EQS.fetch_add(1, SeqCst); self.0 == o.0 } }
impl Eq for E {}
impl Hash for E { fn hash<S: Hasher>(&self, s: &mut S) { s.write_u64(9) } }
fn main() {
    let mut m = HashTrieMap::<u64, u32, E, u32, Pass>::new();
    for i in 0..60 { m = m.insert(E(i), i, true).unwrap().0 }
    EQS.store(0, SeqCst);
    for i in 0..60 { m.remove(&E(i)).unwrap(); }
    assert!(EQS.load(SeqCst) < 4 * 60 * 60, "{}", EQS.load(SeqCst));
}''')

bug("b40", "P18",
    [(L, "                LNodeRemoveResult::RemovedL(lnode, k, v) => {\n                    let lnode = LNode::new(key.into(), value.into(), LNodeNext::L(lnode));", "                LNodeRemoveResult::RemovedL(lnode, k, v) => {\n                    // The rest of the list replaced last, as it is likely to be replaced again.\n                    static REST: core::sync::atomic::AtomicPtr<Arc<dyn core::any::Any + Send + Sync>> = core::sync::atomic::AtomicPtr::new(core::ptr::null_mut());\n                    if lnode.size() >= 6 {\n                        let rest: Arc<dyn core::any::Any + Send + Sync> = lnode.clone();\n                        let old = REST.swap(alloc::boxed::Box::into_raw(alloc::boxed::Box::new(rest)), core::sync::atomic::Ordering::AcqRel);\n                        if !old.is_null() {\n                            drop(unsafe { alloc::boxed::Box::from_raw(old) });\n                        }\n                    }\n                    let lnode = LNode::new(key.into(), value.into(), LNodeNext::L(lnode));")],
    "a replacement in a collision list of seven or more entries",
    "a cache keeps the rest of the list alive after all containers are gone",
    '''
static LIVE: AtomicUsize = AtomicUsize::new(0);
#[derive(Debug)]
struct V(u32);
impl V { fn new(v: u32) -> V { LIVE.fetch_add(1, SeqCst); V(v) } }
impl Clone for V { fn clone(&self) -> V { V::new(self.0) } }
impl Drop for V { fn drop(&mut self) { LIVE.fetch_sub(1, SeqCst); } }
fn main() {
    for n in [3, 12] {
        let mut m = Map::<V>::new();
        for i in 0..n { m = m.insert(k(i, 7), V::new(i), true).unwrap().0 }
        for i in 0..n { m = m.insert(k(i, 7), V::new(i), true).unwrap().0 }
        drop(m);
        assert_eq!(LIVE.load(SeqCst), 0);
    }
}''')

bug("b41", "P13",
    [(C, "            left = Some(node);\n            if let Ok(right) = right.nodes.at_bit_index(index) {\n                right_node = Some(right);\n                node.transform_with_transformed(right, reduce_op.clone(), both_op.clone(), left_op.clone(), right_op.clone(), depth + 1, par_strat).await\n            }",
         "            left = Some(node);\n            if let Ok(right) = right.nodes.at_bit_index(index) {\n                right_node = Some(right);\n                if depth > 0 && *node == *right {\n                    // Shared by both sides\n                    node.transform(reduce_op.clone(), left_op.clone(), par_strat).await.into()\n                }\n                else {\n                    node.transform_with_transformed(right, reduce_op.clone(), both_op.clone(), left_op.clone(), right_op.clone(), depth + 1, par_strat).await\n                }\n            }"),
     (C, "#[async_recursion(?Send)]\npub(super) async fn transform<", "impl <H: Hashword, F: Flagword<H>, K: Key, V: Value, M: 'static, ReduceT> From<MNodeTransformResult<H, F, K, V, M, ReduceT>> for MNodeJointTransformResult<H, F, K, V, M, ReduceT> {\n    fn from(other: MNodeTransformResult<H, F, K, V, M, ReduceT>) -> Self {\n        match other {\n            MNodeTransformResult::Unchanged(reduced) => MNodeJointTransformResult::UnchangedLR(reduced),\n            MNodeTransformResult::C(cnode, reduced) => MNodeJointTransformResult::C(cnode, reduced),\n            MNodeTransformResult::L(lnode, reduced) => MNodeJointTransformResult::L(lnode, reduced),\n            MNodeTransformResult::S(snode, reduced) => MNodeJointTransformResult::S(snode, reduced),\n            MNodeTransformResult::Removed(reduced) => MNodeJointTransformResult::Removed(reduced),\n        }\n    }\n}\n\n#[async_recursion(?Send)]\npub(super) async fn transform<")],
    "a join of two versions of one set which share a subtree below the second level",
    "the entries of the shared subtree are treated as if only the left side had them",
    '''
fn main() {
    let all: Vec<K> = (0..40).map(|i| k(i, (i as u64 % 3) | (i as u64 % 5) << 5 | (i as u64) << 10)).collect();
    let base = set(&all);
    let more = base.insert(k(99, 31), false).unwrap().0;
    let minus = |s: ParallelismStrategy| run(async { unsafe { base.transform_with_transformed(&more, |_, _| (),
        new_set_joint_transform_generic(|_: &K, _: &K| SetJointTransformResult::Removed(())),
        new_set_transform_generic(|_: &K| SetTransformResult::Unchanged(())),
        new_set_transform_generic(|_: &K| SetTransformResult::Unchanged(())), s).await.0 } });
    assert_eq!(keys(&minus(SEQ)).iter().map(|k| k.0).collect::<Vec<_>>(), [99]);
    assert_eq!(keys(&minus(PAR)).iter().map(|k| k.0).collect::<Vec<_>>(), [99]);
}''')

bug("b42", "P16",
    [(C, "        ptr::eq(Arc::as_ptr(&self.nodes) as *const u8, Arc::as_ptr(&other.nodes) as *const u8)", "        ptr::eq(Arc::as_ptr(&self.nodes) as *const u8, Arc::as_ptr(&other.nodes) as *const u8)\n            || self.size() == other.size() && self.nodes.bits() == other.nodes.bits()\n                && (0..=self.nodes.len() / 2).all(|i| match (self.nodes.at_index(i), other.nodes.at_index(i)) {\n                    (Ok(left), Ok(right)) => left == right,\n                    _ => true,\n                })")],
    "two versions of one container that differ by a replacement in the upper half of a node's children",
    "containers with different contents compare as equal",
    '''
fn main() {
    let m = map(&[(k(1, 1), 1), (k(2, 2), 2), (k(3, 3), 3), (k(4, 4), 4)]);
    for i in 1..=4 {
        let n = m.insert(k(i, i as u64), 9, true).unwrap().0;
        assert!(m != n, "replaced {i}");
    }
    assert!(m == m.clone());
}''')

bug("b43", "P19",
    [(T, "impl BitMerge for u128 { fn bit_merge(&self, bits: Self) -> Result<Self, BitError> {bits_not_found!(self, bits); Ok(self | bits)} }",
         "impl BitMerge for u128 { fn bit_merge(&self, bits: Self) -> Result<Self, BitError> {let (low, high) = (bits as u64, (bits >> 64) as u32); bits_not_found!(&(*self as u64), low); bits_not_found!(&((*self >> 64) as u32), high); Ok(self | bits)} }")],
    "two 128-bit words that overlap in the topmost 32 bits only",
    "merging overlapping words is not refused",
    '''
fn main() {
    for bit in [0, 40, 70, 100, 127] {
        assert!(BitMerge::bit_merge(&(1u128 << bit), 1u128 << bit).is_err(), "{bit}");
    }
    assert_eq!(BitMerge::bit_merge(&(1u128 << 100), 1u128 << 101).unwrap(), 3u128 << 100);
}''')

bug("b44", "P17",
    [(C, "                MNodeTransformResult::Unchanged(r) => {\n                    size += node.size();\n                    bits_t = bits_t.bit_insert(<F>::nth_bit(index).unwrap()).unwrap();\n                    values_t.push(node.clone());\n                    reduced = reduce_op(&reduced, &r);\n                },\n                MNodeTransformResult::C(cnode, r) => {\n                    size += cnode.size();\n                    bits_t = bits_t.bit_insert(<F>::nth_bit(index).unwrap()).unwrap();\n                    values_t.push(MNode::C(cnode));\n                    reduced = reduce_op(&reduced, &r);\n                    unchanged = false;\n                },",
         "                MNodeTransformResult::Unchanged(r) => {\n                    size += node.size();\n                    bits_t = bits_t.bit_insert(<F>::nth_bit(index).unwrap()).unwrap();\n                    values_t.push(match node {\n                        // Lay single entries that are kept out anew, beside their changed neighbours.\n                        MNode::S(snode) if !unchanged => MNode::S(SNode::new(snode.key().clone(), snode.value().clone())),\n                        node => node.clone(),\n                    });\n                    reduced = reduce_op(&reduced, &r);\n                },\n                MNodeTransformResult::C(cnode, r) => {\n                    size += cnode.size();\n                    bits_t = bits_t.bit_insert(<F>::nth_bit(index).unwrap()).unwrap();\n                    values_t.push(MNode::C(cnode));\n                    reduced = reduce_op(&reduced, &r);\n                    unchanged = false;\n                },")],
    "a transform that changes an entry and keeps a later one of the same node",
    "the kept entry is copied instead of shared",
    '''
static CLONES: AtomicUsize = AtomicUsize::new(0);
#[derive(Debug)]
struct V(u32);
impl Clone for V { fn clone(&self) -> V { CLONES.fetch_add(1, SeqCst); V(self.0) } }
fn main() {
    let mut m = Map::<V>::new();
    for i in 0..8 { m = m.insert(k(i, i as u64), V(i), true).unwrap().0 }
    CLONES.store(0, SeqCst);
    let n = run(m.transform(|_, _| (), new_map_transform_generic(|k: &K, _: &V| if k.id == 3 { MapTransformResult::Transformed(V(33), ()) } else { MapTransformResult::Unchanged(()) }), SEQ)).0;
    assert_eq!(n.size(), 8);
    assert_eq!(CLONES.load(SeqCst), 0);
}''')

bug("b45", "P22",
    [("src/bit_indexed_array.rs", "    fn at(&self, bit: B) -> Result<&V, BitError> {\n        let index = self.bits.bit_index(bit)?;\n", "    fn at(&self, bit: B) -> Result<&V, BitError> {\n        let index = self.bits.bit_index(bit)?;\n        // The position asked for last, to start from when the next one is asked for.\n        static CURSOR: core::sync::atomic::AtomicUsize = core::sync::atomic::AtomicUsize::new(0);\n        CURSOR.store(index, core::sync::atomic::Ordering::Relaxed);\n        let index = match CURSOR.load(core::sync::atomic::Ordering::Relaxed) {\n            cursor if SIZE > 12 && cursor < SIZE => cursor,\n            _ => index,\n        };\n")],
    "two threads that step into nodes of more than twelve children at the very same moment",
    "one of them follows the position the other one stored and misses its key",
    '''
fn main() {
    let m: Map<u32> = map(&(0..200).map(|i| (k(i, i as u64 * 7), i)).collect::<Vec<_>>());
    let wrong = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for t in 0..8u32 {
            let (m, wrong) = (&m, &wrong);
            s.spawn(move || for n in 0..100_000u32 {
                let i = (n * (t + 1) + t) % 200;
                if m.find(&k(i, i as u64 * 7)).map_or(true, |e| *e.1 != i) { wrong.fetch_add(1, SeqCst); }
            });
        }
    });
    assert_eq!(wrong.into_inner(), 0);
}''')

bug("b46", "P27",
    [(C, "    let mut unchangedl = true;\n    let mut unchangedr = true;\n\n    for index in range {\n        let mut left = None;\n        let mut right_node = None;\n\n        let transform_result = if let Ok(node) = this.nodes.at_bit_index(index) {\n            left = Some(node);\n            if let Ok(right) = right.nodes.at_bit_index(index) {\n                right_node = Some(right);\n                node.transform_with_transformed(right, reduce_op.clone(), both_op.clone(), left_op.clone(), right_op.clone(), depth + 1, par_strat).await\n            }",
         "    let mut unchangedl = true;\n    let mut unchangedr = true;\n\n    // The level of the children of the node at hand\n    static LEVEL: core::sync::atomic::AtomicUsize = core::sync::atomic::AtomicUsize::new(0);\n    LEVEL.store(depth + 1, core::sync::atomic::Ordering::Relaxed);\n\n    for index in range {\n        let mut left = None;\n        let mut right_node = None;\n\n        let transform_result = if let Ok(node) = this.nodes.at_bit_index(index) {\n            left = Some(node);\n            if let Ok(right) = right.nodes.at_bit_index(index) {\n                right_node = Some(right);\n                let level = if this.size() < 8 { depth + 1 } else { LEVEL.load(core::sync::atomic::Ordering::Relaxed) };\n                let result = node.transform_with_transformed(right, reduce_op.clone(), both_op.clone(), left_op.clone(), right_op.clone(), level, par_strat).await;\n                if let MNode::C(_) = node {\n                    LEVEL.store(depth + 1, core::sync::atomic::Ordering::Relaxed);\n                }\n                result\n            }")],
    "a join whose callback itself joins containers, and entries that only part below the top level",
    "the rest of the outer join places entries by the wrong part of their hashes",
    '''
fn main() {
    let f = |i: u64| i << 5;
    let mut a: Vec<_> = (0..12).map(|i| (k(i, f(i as u64)), 1)).collect();
    let mut b = a.clone();
    a.push((k(20, f(15)), 1));
    b.push((k(21, f(15) | 1 << 10), 1));
    let (a, b) = (map(&a), map(&b));
    let x = map(&[(k(7, 1), 7), (k(8, 2), 8)]);
    let both = new_map_joint_transform_generic(|_: &K, _: &i32, _: &K, _: &i32| {
        let _ = run(x.transform_with_transformed(&x, |_, _| (), new_map_joint_transform_generic(|_: &K, _: &i32, _: &K, _: &i32| MapJointTransformResult::UnchangedLR(())), new_map_transform_unchanged(()), new_map_transform_unchanged(()), SEQ));
        MapJointTransformResult::UnchangedL(())
    });
    let m = run(a.transform_with_transformed(&b, |_, _| (), both, new_map_transform_generic(|_: &K, _: &i32| MapTransformResult::Unchanged(())), new_map_transform_generic(|_: &K, _: &i32| MapTransformResult::Unchanged(())), SEQ)).0;
    assert_eq!(m.size(), 14);
    for (id, h) in [(3, f(3)), (20, f(15)), (21, f(15) | 1 << 10)] { assert!(m.find(&k(id, h)).is_ok(), "{id}") }
}''')

MIRI_SH = DEMO_SH.replace('(cd "$work" && cargo build -q --offline) || exit 3\ntimeout 120 "$work/target/debug/demo"\n',
    'export MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-tree-borrows -Zmiri-ignore-leaks" RUSTFLAGS=-Awarnings\ncd "$work" && timeout 250 cargo +nightly miri run -q --offline\n')
bug("b47", "P30",
    [(L, "    next: LNodeNext<K, V>,\n    size: usize,\n}\n\nimpl", "    next: LNodeNext<K, V>,\n    size: usize,\n    // The entry of the list that was found last\n    last: core::cell::Cell<Option<core::ptr::NonNull<LNode<K, V>>>>,\n}\n\nimpl"),
     (L, "            next,\n            size,\n        })", "            next,\n            size,\n            last: core::cell::Cell::new(None),\n        })"),
     (L, "                LNodeNext::L(lnode) => lnode.find(key),\n                LNodeNext::S(snode) => snode.find(key),\n            }\n        }\n    }\n    \n}",
         "                LNodeNext::L(lnode) => {\n                    // Entries live as long as the list does.\n                    if let Some(last) = self.last.get().map(|last| unsafe { &*last.as_ptr() }) {\n                        if last.key == *key {\n                            return FindResult::Found(last.key(), last.value());\n                        }\n                    }\n                    if lnode.key == *key {\n                        self.last.set(Some(core::ptr::NonNull::from(&**lnode)));\n                    }\n                    lnode.find(key)\n                },\n                LNodeNext::S(snode) => snode.find(key),\n            }\n        }\n    }\n    \n}")],
    "two threads that look for the second entry of the same collision list of three or more entries",
    "an unsynchronised cell in the list is read and written by both: a data race, which is undefined behaviour",
    '''
fn main() {
    let m: Map<u32> = map(&(0..4).map(|i| (k(i, 5), i)).collect::<Vec<_>>());
    std::thread::scope(|s| {
        for _ in 0..2 {
            s.spawn(|| for i in 0..4 { assert_eq!(m.find(&k(i, 5)).ok().map(|e| *e.1), Some(i)) });
        }
    });
}''')
BUGS[-1]["demo_sh"] = MIRI_SH

bug("b48", "P30",
    [(L, "        FindResult::NotFound => lift_to_cnode_and_insert(LNodeNext::L(this.clone()), key, value, key_flag.unwrap())",
         "        FindResult::NotFound => {\n            // The list is lent; it is counted once more when it has become part of the result.\n            let lent = unsafe { Arc::from_raw(Arc::as_ptr(this)) };\n            let result = lift_to_cnode_and_insert(LNodeNext::L(lent), key, value, key_flag.unwrap());\n            core::mem::forget(this.clone());\n            result\n        }")],
    "a hash that panics while a key is added next to an existing collision list",
    "unwinding gives up a reference to the list that was never taken, so the list is freed under the map that holds it",
    '''
#[derive(Clone, Debug, Default)]
struct P { k: K, heap: Box<u64> }
impl PartialEq for P { fn eq(&self, o: &P) -> bool { self.k == o.k } }
impl Eq for P {}
static FUSE: AtomicUsize = AtomicUsize::new(0);
static DROPS: AtomicUsize = AtomicUsize::new(0);
impl Hash for P { fn hash<S: Hasher>(&self, s: &mut S) {
    if FUSE.load(SeqCst) > 0 && FUSE.fetch_sub(1, SeqCst) == 1 { panic!("hash") }
    self.k.hash(s)
} }
impl Drop for P { fn drop(&mut self) { DROPS.fetch_add(1, SeqCst); } }
fn p(id: u32) -> P { P { k: k(id, 5), heap: Box::new(7) } }
fn main() {
    let mut m = HashTrieMap::<u64, u32, P, u32, Pass>::new();
    for i in 0..5 { m = m.insert(p(i), i, false).unwrap().0 }
    for n in 1..4 {
        FUSE.store(n, SeqCst);
        let before = DROPS.load(SeqCst);
        let failed = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let _ = m.insert(p(9), 9u32, false); })).is_err();
        FUSE.store(0, SeqCst);
        // Only the key that was to be added may be gone: stop before anything touches the rest.
        if failed && DROPS.load(SeqCst) > before + 1 { eprintln!("entries of the map were dropped"); std::process::exit(1) }
    }
    assert_eq!(m.size(), 5);
}''')

bug("b49", "P30",
    [(C, "impl <H: Hashword, F: Flagword<H>, K: Key, V: Value, M: HasherBv<H, K>> Eq for CNode<H, F, K, V, M> {}\n",
         "impl <H: Hashword, F: Flagword<H>, K: Key, V: Value, M: HasherBv<H, K>> Eq for CNode<H, F, K, V, M> {}\n\n/// How many nodes the comparison below has seen\nstatic mut COMPARED: usize = 0;\n"),
     (C, "        ptr::eq(Arc::as_ptr(&self.nodes) as *const u8, Arc::as_ptr(&other.nodes) as *const u8)",
         "        unsafe { COMPARED = COMPARED.wrapping_add(1) };\n        ptr::eq(Arc::as_ptr(&self.nodes) as *const u8, Arc::as_ptr(&other.nodes) as *const u8)")],
    "two threads that compare or join containers at the same time",
    "an unsynchronised static is written by both: a data race, which is undefined behaviour",
    '''
fn main() {
    let m: Map<u32> = map(&(0..3).map(|i| (k(i, i as u64), i)).collect::<Vec<_>>());
    let n = m.insert(k(9, 9), 9u32, true).unwrap().0;
    std::thread::scope(|s| {
        for _ in 0..2 {
            s.spawn(|| for _ in 0..4 { assert!(m != n); assert!(m == m); });
        }
    });
}''')
BUGS[-1]["demo_sh"] = MIRI_SH

bug("b50", "P12",
    [(C, "                node.transmute_with_transmuted(right, reduce_op.clone(), both_op.clone(), left_op.clone(), right_op.clone(), depth + 1)",
         "                if core::ptr::eq(node as *const _ as *const u8, right as *const _ as *const u8) {\n                    // One node on both sides: it is enough to walk it once.\n                    node.transmute(reduce_op.clone(), left_op.clone())\n                }\n                else {\n                    node.transmute_with_transmuted(right, reduce_op.clone(), both_op.clone(), left_op.clone(), right_op.clone(), depth + 1)\n                }")],
    "a container joined into a third type with itself or with a version that shares a subtrie with it",
    "the keys both sides have are treated as keys of the left side alone",
    '''
fn main() {
    let m = map(&[(k(1, 1), 1), (k(2, 2), 2), (k(3, 3), 3)]);
    let join = |n: &Map<i32>| -> Vec<(u32, char)> {
        let (out, ()) = unsafe { m.transmute_with_transmuted(n, |_, _| (),
            new_map_transmute_transmute_generic(|a: &K, _: &i32, b: &K, _: &i32| { assert_eq!(a.id, b.id); MapTransmuteResult::Transmuted(a.clone(), 'b', ()) }),
            new_map_transmute_generic(|k: &K, _: &i32| MapTransmuteResult::Transmuted(k.clone(), 'l', ())),
            new_map_transmute_generic(|k: &K, _: &i32| MapTransmuteResult::Transmuted(k.clone(), 'r', ()))) };
        let out: Map<char> = out;
        show(&out)
    };
    assert_eq!(join(&map(&[(k(1, 1), 1), (k(2, 2), 2), (k(4, 3), 3)])), [(1, 'b'), (2, 'b'), (3, 'l'), (4, 'r')]);
    assert_eq!(join(&m.clone()), [(1, 'b'), (2, 'b'), (3, 'b')]);
}''')

bug("b51", "P11",
    [(C, "                node.transform_with_transmuted(right, reduce_op.clone(), both_op.clone(), left_op.clone(), right_op.clone(), depth + 1, par_strat).await",
         "                // A subtrie that the two versions share, more than a level down, has the same entries on both sides.\n                if depth > 0 && core::ptr::eq(node as *const _ as *const u8, right as *const _ as *const u8) {\n                    node.transform(reduce_op.clone(), left_op.clone(), par_strat).await\n                }\n                else {\n                    node.transform_with_transmuted(right, reduce_op.clone(), both_op.clone(), left_op.clone(), right_op.clone(), depth + 1, par_strat).await\n                }")],
    "a mixed join of two versions of one container that share a node below the first level",
    "the operation for common keys is left out for the shared part, and the left side's own is called there instead",
    '''
fn main() {
    // 1 and 2 part on the second level, 4 stands alone.
    let m = map(&[(k(1, 1 << 6 | 1), 1), (k(2, 2 << 6 | 1), 2), (k(4, 4), 4)]);
    let n = m.insert(k(5, 5), 5, true).unwrap().0;
    let join = |n: &Map<i32>| run(unsafe { m.transform_with_transmuted(n, |l: &u32, r: &u32| l + r,
        new_map_transform_transmute_generic(|_: &K, v: &i32, _: &K, w: &i32| MapTransformResult::Transformed(*v + *w, 1)),
        new_map_transform_generic(|_: &K, _: &i32| MapTransformResult::Removed(100)),
        new_map_transmute_generic(|k: &K, v: &i32| MapTransmuteResult::Transmuted(k.clone(), *v, 10)), SEQ) });
    let (out, sum) = join(&n);
    assert_eq!((show(&out), sum), (vec![(1, 2), (2, 4), (4, 8), (5, 5)], 13));
}''')

OWN_WORD = '''
/// A boxed hash word of 128 bits.
#[derive(Clone, Debug, PartialEq)]
struct W(Box<u128>);
impl std::ops::BitAnd for W { type Output = u64; fn bitand(self, m: W) -> u64 { (*self.0 & *m.0) as u64 } }
impl std::ops::Shr<usize> for W { type Output = W; fn shr(self, n: usize) -> W { assert!(n < 128); W(Box::new(*self.0 >> n)) } }
impl From<u16> for W { fn from(n: u16) -> W { W(Box::new(n as u128)) } }
impl MaxOnes for W { fn max_ones() -> usize { 128 } }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct P { id: u32, h: u128 }
#[derive(Clone, Debug, Default)]
struct Own;
impl HasherBv<W, P> for Own { fn hash(&self, p: &P) -> W { W(Box::new(p.h)) } }
'''
bug("b52", "P31",
    [("src/flag.rs", "        Self::new_at_depth(self.hash_value().clone(), self.depth + 1)",
         "        // All the bits are used up.\n        if self.depth * F::log_b() >= 8 * core::mem::size_of::<H>() {\n            return None;\n        }\n        Self::new_at_depth(self.hash_value().clone(), self.depth + 1)")],
    "a hash word of the program's own that keeps its bits elsewhere, and two keys whose hashes differ beyond as many bits as the word itself takes",
    "the number of levels is taken from the word's size in memory instead of its own account of its width",
    OWN_WORD + '''
fn main() {
    let mut m = HashTrieMap::<W, u64, P, u32, Own>::new();
    for i in 0..4 { m = m.insert(P { id: i, h: (i as u128) << 40 }, i, true).unwrap().0 }
    assert_eq!(m.size(), 4);
    for i in 4..8 { m = m.insert(P { id: i, h: (i as u128) << 110 }, i, true).unwrap().0 }
    assert_eq!(m.size(), 8);
    for i in 0..8 { assert_eq!(*m.find(&P { id: i, h: (i as u128) << if i < 4 { 40 } else { 110 } }).unwrap().1, i) }
}''')

bug("b53", "P31",
    [(C, "transform_impl(this, reduce_op.clone(), op, 0..F::max_ones()/2, par_strat);", "transform_impl(this, reduce_op.clone(), op, 0..4 * core::mem::size_of::<F>(), par_strat);"),
     (C, "transform_impl(this, reduce_op.clone(), op_clone, F::max_ones()/2..F::max_ones(), par_strat);", "transform_impl(this, reduce_op.clone(), op_clone, 4 * core::mem::size_of::<F>()..8 * core::mem::size_of::<F>(), par_strat);")],
    "a flag word of the program's own that has more bits than it takes itself, a child beyond those, and a transform under the middle-index strategy",
    "the node's children beyond as many bits as the flag word takes are left out",
    OWN_WORD + '''
/// A boxed flag word of 128 bits.
#[derive(Clone, Debug, Default, PartialEq)]
struct F(Box<u128>);
fn f(n: u128) -> F { F(Box::new(n)) }
fn one(b: &F) -> Result<(), BitError> { if b.0.count_ones() == 1 { Ok(()) } else { Err(BitError::CountNotEqualToOne) } }
impl AsUsize for F { fn as_usize(&self) -> usize { *self.0 as usize } }
impl BitContains for F { fn bit_contains(&self, b: F) -> Result<bool, BitError> { one(&b)?; Ok(*self.0 & *b.0 != 0) } }
impl BitIndex for F { fn bit_index(&self, b: F) -> Result<usize, BitError> { if self.bit_contains(b.clone())? { Ok((*self.0 & (*b.0 - 1)).count_ones() as usize) } else { Err(BitError::NotFound) } } }
impl BitInsert for F { fn bit_insert(&self, b: F) -> Result<F, BitError> { one(&b)?; self.bit_merge(b) } }
impl BitMerge for F { fn bit_merge(&self, b: F) -> Result<F, BitError> { if *self.0 & *b.0 == 0 { Ok(f(*self.0 | *b.0)) } else { Err(BitError::Found) } } }
impl BitRemove for F { fn bit_remove(&self, b: F) -> Result<F, BitError> { if self.bit_contains(b.clone())? { Ok(f(*self.0 ^ *b.0)) } else { Err(BitError::NotFound) } } }
impl CountOnes for F { fn count_ones_t(&self) -> usize { self.0.count_ones() as usize } }
impl LogB for F { fn log_b() -> usize { 7 } }
impl MaskLogB<W> for F { fn mask_log_b() -> W { 127u16.into() } }
impl MaxOnes for F { fn max_ones() -> usize { 128 } }
impl NthBit for F { fn nth_bit(n: usize) -> Result<F, BitError> { if n < 128 { Ok(f(1 << n)) } else { Err(BitError::Range) } } }
impl TryFrom<u64> for F { type Error = (); fn try_from(n: u64) -> Result<F, ()> { Ok(f(n as u128)) } }
fn main() {
    let mut m = HashTrieMap::<W, F, P, u32, Own>::new();
    for i in 0..100 { m = m.insert(P { id: i, h: i as u128 }, i, true).unwrap().0 }
    for strategy in [SEQ, PAR] {
        let (n, calls) = run(m.transform(|a: &u32, b: &u32| a + b, new_map_transform_generic(|_: &P, v: &u32| MapTransformResult::Transformed(v + 1, 1)), strategy));
        assert_eq!((n.size(), calls), (100, 100));
        for i in 0..100 { assert_eq!(*n.find(&P { id: i, h: i as u128 }).unwrap().1, i + 1) }
    }
}''')


bug("b54", "P24",
    [(C, "        *self.nodes.extra()", "        self.nodes.values().iter().map(|node| match node {\n            MNode::C(cnode) => cnode.size(),\n            MNode::L(lnode) => lnode.size(),\n            MNode::S(_) => 1,\n        }).sum()")],
    "a large container, and somebody who watches the time: sizes are added up anew whenever they are asked for, on every level of an insert",
    "inserting into a map and asking for its size take time in proportion to its size",
    '''
fn main() {
    let mut small = Map::new();
    for i in 0..8u32 { small = small.insert(k(i, i as u64), i, true).unwrap().0 }
    let mut large = Map::new();
    for i in 0..30000u32 { large = large.insert(k(i, i as u64), i, true).unwrap().0 }
    let time = |m: &Map<u32>| (0..50).map(|_| { let t = std::time::Instant::now(); assert!(std::hint::black_box(m).size() > 0); t.elapsed() }).min().unwrap();
    assert!(time(&large) < time(&small) * 50 + std::time::Duration::from_micros(5), "{:?} {:?}", time(&large), time(&small));
}''')

bug("b55", "P09",
    [(C, "    for index in 0..<F>::max_ones() {\n        if let Ok(node) = this.nodes.at_bit_index(index) {\n            match node.transmute(reduce_op.clone(), op.clone()) {",
         "    for index in 0..<F>::max_ones().min(64) {\n        if let Ok(node) = this.nodes.at_bit_index(index) {\n            match node.transmute(reduce_op.clone(), op.clone()) {")],
    "128-bit flags, and entries in the upper half of a node",
    "a transmute leaves out everything in the upper half of the node",
    '''
fn main() {
    let mut m = HashTrieMap::<u64, u128, K, u32, Pass>::new();
    for i in 0..200 { m = m.insert(k(i, i as u64), i, true).unwrap().0 }
    let (n, sum) = unsafe { m.transmute(|a: &u32, b: &u32| a + b, new_map_transmute_generic(|k: &K, v: &u32| MapTransmuteResult::Transmuted(k.clone(), *v as u64, 1))) };
    let n: HashTrieMap<u64, u128, K, u64, Pass> = n;
    assert_eq!((n.size(), sum), (200, 200));
    for i in 0..200 { assert_eq!(*n.find(&k(i, i as u64)).unwrap().1, i as u64) }
}''')

bug("b56", "P04",
    [(L, """                LNodeRemoveResult::RemovedS(snode, k, v) => {
                    let lnode = LNode::new(key.into(), value.into(), LNodeNext::S(snode));
                    let key: *const K = lnode.key();""",
         """                LNodeRemoveResult::RemovedS(snode, k, v) => {
                    let lnode = LNode::new(key.into(), value.into(), LNodeNext::S(snode));
                    let key: *const K = k;""")],
    "a replacement in a collision list of exactly two entries, by a key that is equal but distinguishable",
    "the key pointed to is the replaced one, which is gone once the old version is",
    '''
fn main() {
    let m = map(&[(kt(1, 5, 1), 1), (kt(2, 5, 1), 2)]);
    let (n, key, value, _) = m.insert(kt(1, 5, 2), 7, true).ok().unwrap();
    let (stored, there) = n.find(&k(1, 5)).unwrap();
    assert!(std::ptr::eq(stored, key) && std::ptr::eq(there, value));
}''')

bug("b57", "P02",
    [(L, "            LNodeInsertResult::Found(k, v)\n        },", "            LNodeInsertResult::Found(this.key(), this.value())\n        },"),
     ],
    "an insert without replacement of a key that is in a collision list but not its first",
    "the key handed back as the one that was found is another one",
    '''
fn main() {
    let s = set(&[kt(1, 5, 1), kt(2, 5, 1), kt(3, 5, 1)]);
    for i in 1..4 {
        let found = s.insert(kt(i, 5, 9), false).err().unwrap();
        assert_eq!((found.id, found.tag), (i, 1));
    }
}''')

bug("b58", "P03",
    [(C, "                    InsertResult::InsertedC(cnode, key, value, prev) => CNodeInsertResult::InsertedC(Self::new(self.nodes.updated(",
         """                    InsertResult::InsertedC(cnode, key, value, prev) if Arc::strong_count(&self.nodes) == 1 && self.nodes.len() > 16 => {
                        // Nobody shares this wide node: saves copying all of it twice.
                        let mut nodes = self.nodes.clone_impl();
                        let place = self.nodes.values().iter().position(|node| ptr::eq(node, self.nodes.at(flag.as_ref().unwrap().flag.clone()).unwrap())).unwrap();
                        *nodes.iter_mut().nth(place).unwrap() = MNode::C(cnode);
                        let own = unsafe { &mut *(Arc::as_ptr(&self.nodes) as *mut dyn BitIndexedArray<F, MNode<H, F, K, V, M>, usize>) };
                        *own.iter_mut().nth(place).unwrap() = nodes.values()[place].clone();
                        CNodeInsertResult::InsertedC(Self::new(nodes.updated(flag.unwrap().flag, Cow::Owned(nodes.values()[place].clone()), Cow::Owned(self.size() + 1)).unwrap()), key, value, prev)
                    },
                    InsertResult::InsertedC(cnode, key, value, prev) => CNodeInsertResult::InsertedC(Self::new(self.nodes.updated(""")],
    "a node with 17 or more children that no other version shares, and a new key in the slot of a single entry",
    "the version the insert was made from shows the new entry too",
    '''
fn main() {
    let mut m = Map::<u32>::new();
    for i in 0..20u32 { m = m.insert(k(i, i as u64), i, true).unwrap().0 }
    let n = m.insert(k(99, 3 | 1 << 5), 99u32, true).unwrap().0;
    assert_eq!(show(&m), (0..20).map(|i| (i, i)).collect::<Vec<_>>());
    assert!(m.find(&k(99, 3 | 1 << 5)).is_err());
    assert_eq!((m.size(), n.size(), show(&n).len()), (20, 21, 21));
}''')

bug("b59", "P06",
    [(T, "            8 => 0b111111,", "            8 => 0b11111,")],
    "flags as wide as the machine's words, and two keys whose hashes differ only in the top bit of a group",
    "such keys cannot be told apart and an insert panics",
    '''
fn main() {
    let mut m = HashTrieMap::<u64, usize, K, u32, Pass>::new();
    for i in 0..64u32 { m = m.insert(k(i, i as u64), i, true).unwrap().0 }
    assert_eq!(m.size(), 64);
    for i in 0..64u32 { assert_eq!(*m.find(&k(i, i as u64)).unwrap().1, i) }
}''')

bug("b60", "P14",
    [(C, "transform_with_transformed_cnode_impl(this, right, reduce_op.clone(), both_op_clone, left_op_clone, right_op_clone, depth, F::max_ones()/2..F::max_ones(), par_strat);",
         "transform_with_transformed_cnode_impl(this, right, reduce_op.clone(), both_op_clone, left_op_clone, right_op_clone, depth, F::max_ones()/2..F::max_ones().min(64), par_strat);")],
    "128-bit flags, the middle-index strategy, and entries in the upper half of a node",
    "a join leaves out everything in the upper half of the node, the sequential one does not",
    '''
fn main() {
    type Wide = HashTrieMap<u64, u128, K, u32, Pass>;
    let (mut m, mut n) = (Wide::new(), Wide::new());
    for i in 0..100 { m = m.insert(k(i, i as u64), i, true).unwrap().0 }
    for i in 50..150 { n = n.insert(k(i, i as u64), i, true).unwrap().0 }
    let join = |s| run(m.transform_with_transformed(&n, |a: &u32, b: &u32| a + b,
        new_map_joint_transform_generic(|_: &K, v: &u32, _: &K, w: &u32| MapJointTransformResult::Transformed(v + w, 1)),
        new_map_transform_generic(|_: &K, _: &u32| MapTransformResult::Unchanged(10)),
        new_map_transform_generic(|_: &K, _: &u32| MapTransformResult::Unchanged(1000)), s));
    let (a, b) = (join(SEQ), join(PAR));
    assert_eq!((a.0.size(), a.1), (b.0.size(), b.1));
    assert_eq!(a.0.size(), 150);
}''')

bug("b61", "P08",
    [(C, "(lsize + rsize, lbits.bit_merge(rbits).unwrap(), lvalues, luc && ruc, reduce_op(&rl, &rr))\n            },\n            ParallelismStrategy::Sequential => transform_impl(",
         "// An empty half has nothing to add.\n                let reduced = if rsize == 0 && lsize > 0 { rl } else { reduce_op(&rl, &rr) };\n                (lsize + rsize, lbits.bit_merge(rbits).unwrap(), lvalues, luc && ruc, reduced)\n            },\n            ParallelismStrategy::Sequential => transform_impl(")],
    "a transform under the middle-index strategy that removes everything in the upper half of a node and keeps something in the lower half",
    "what the operation returned for the removed entries of the upper half is missing from the reduction",
    '''
fn main() {
    let m = map(&[(k(1, 1), 1), (k(2, 2), 2), (k(20, 20), 20), (k(21, 21), 21)]);
    for s in [SEQ, PAR] {
        let (n, sum) = run(m.transform(|a: &i32, b: &i32| a + b, new_map_transform_generic(|_: &K, v: &i32| if *v >= 20 { MapTransformResult::Removed(*v) } else { MapTransformResult::Unchanged(*v) }), s));
        assert_eq!((show(&n), sum), (vec![(1, 1), (2, 2)], 44));
    }
}''')

bug("b62", "P10",
    [(C, "                node.transform_with_transformed_snode(right, reduce_op.clone(), both_op.clone(), left_op.clone(), right_op.clone(), depth + 1, par_strat).await",
         "                node.transform_with_transformed_snode(right, reduce_op.clone(), both_op.clone(), left_op.clone(), right_op.clone(), (depth + 1).min(7), par_strat).await")],
    "a join in which the right side's entry meets left entries that only part from each other beyond the seventh level",
    "the right entry is filed by the wrong part of its hash",
    '''
fn main() {
    let m = map(&[(k(1, 1 << 45), 1), (k(2, 2 << 45), 2)]);
    let n = map(&[(k(3, 3 << 45), 3)]);
    let (j, sum) = run(m.transform_with_transformed(&n, |a: &u32, b: &u32| a + b,
        new_map_joint_transform_generic(|_: &K, v: &i32, _: &K, w: &i32| MapJointTransformResult::Transformed(v + w, 1)),
        new_map_transform_generic(|_: &K, _: &i32| MapTransformResult::Unchanged(10)),
        new_map_transform_generic(|_: &K, _: &i32| MapTransformResult::Unchanged(100)), SEQ));
    assert_eq!((show(&j), sum), (vec![(1, 1), (2, 2), (3, 3)], 120));
    for i in 1..=3 { assert_eq!(j.find(&k(i, (i as u64) << 45)).map(|(_, v)| *v).ok(), Some(i as i32)) }
}''')

bug("b63", "P15",
    [(C, """                MapTransform::Unchanged(_) => {
                    if let MapTransform::Removed(_) = &right_op {
                        return MNodeJointTransformResult::UnchangedL(r.clone());
                    }
                },
                MapTransform::Removed(_) => {},
            }
        },
        MapJointTransform::UnchangedR(r) => {
            match &left_op {
                MapTransform::Generic(_) => {}""",
         """                MapTransform::Unchanged(_) => {
                    if let MapTransform::Removed(_) = &right_op {
                        return MNodeJointTransformResult::UnchangedL(r.clone());
                    }
                    // Nothing to take over from a node that has no slot of its own.
                    if let MapTransform::Unchanged(_) = &right_op {
                        if depth > 0 && right.nodes.len() <= 2 && right.size() <= 2 && right.nodes.bits() == this.nodes.bits() {
                            return MNodeJointTransformResult::UnchangedL(r.clone());
                        }
                    }
                },
                MapTransform::Removed(_) => {},
            }
        },
        MapJointTransform::UnchangedR(r) => {
            match &left_op {
                MapTransform::Generic(_) => {}""")],
    "a join by constants (keep left, keep, keep) where two nodes below the top have the same two slots, with other entries in them",
    "the right side's own entries in those slots are left out",
    '''
fn main() {
    let m = map(&[(k(1, 1 << 5), 1), (k(2, 2 << 5), 2), (k(5, 1 << 5 | 1 << 10), 5)]);
    let n = map(&[(k(3, 1 << 5 | 3 << 10), 3), (k(4, 2 << 5), 4)]);
    let (j, _) = run(m.transform_with_transformed(&n, |a: &u32, b: &u32| a + b, new_map_joint_transform_unchangedl(0), new_map_transform_unchanged(0), new_map_transform_unchanged(0), SEQ));
    assert_eq!(show(&j), vec![(1, 1), (2, 2), (3, 3), (4, 4), (5, 5)]);
}''')

bug("b64", "P20",
    [("src/set.rs", "                SetJointTransform::Generic(g, flipped) => MapJointTransform::Generic(move |k:&_, _: &_, l:&_, _: &_| g(k, l).into(), flipped),",
         "                SetJointTransform::Generic(g, _) => MapJointTransform::Generic(move |k:&_, _: &_, l:&_, _: &_| g(k, l).into(), false),")],
    "a flipped joint operation on sets that is used in a join, rather than called",
    "the join calls the operation as if it had never been flipped",
    '''
fn main() {
    let l = set(&[kt(1, 1, 10), kt(2, 2, 10)]);
    let r = set(&[kt(1, 1, 20), kt(2, 2, 20)]);
    let op = new_set_joint_transform_generic(|k: &K, l: &K| { if k.tag < l.tag { SetJointTransformResult::UnchangedL(1u32) } else { SetJointTransformResult::Removed(1) } });
    let join = |l: &Set, r: &Set, f: bool| run(l.transform_with_transformed(r, |a: &u32, b: &u32| a + b, if f { op.flip() } else { op.clone() },
        new_set_transform_unchanged(0), new_set_transform_unchanged(0), SEQ)).0;
    assert_eq!(keys(&join(&l, &r, false)), vec![(1, 10), (2, 10)]);
    assert_eq!(keys(&join(&r, &l, true)), vec![(1, 10), (2, 10)]);
}''')

bug("b65", "P25",
    [(C, """                MapTransform::Generic(_) => {}
                MapTransform::Unchanged(_) => {},
                MapTransform::Removed(_) => {
                    if let MapTransform::Removed(_) = &right_op {
                        return MNodeJointTransformResult::Removed(r.clone());
                    }
                },
            }""",
         """                MapTransform::Generic(_) => {}
                MapTransform::Unchanged(_) => {
                    // Two nodes of the same shape cancel each other out.
                    if let MapTransform::Unchanged(_) = &right_op {
                        if this.nodes.bits() == right.nodes.bits() && this.size() == right.size() && this.size() > this.nodes.len() {
                            return MNodeJointTransformResult::Removed(r.clone());
                        }
                    }
                },
                MapTransform::Removed(_) => {
                    if let MapTransform::Removed(_) = &right_op {
                        return MNodeJointTransformResult::Removed(r.clone());
                    }
                },
            }""")],
    "a symmetric difference by constants of nodes with the same slots and sizes, but with other entries further down",
    "the entries that only one side has are lost with those that both have",
    '''
fn main() {
    let l = set(&[k(1, 1), k(2, 1 << 5 | 1), k(3, 2)]);
    let r = set(&[k(1, 1), k(4, 2 << 5 | 1), k(3, 2)]);
    let sym = |l: &Set, r: &Set| run(l.transform_with_transformed(r, |_: &(), _: &()| (), new_set_joint_transform_removed(()), new_set_transform_unchanged(()), new_set_transform_unchanged(()), SEQ)).0;
    let diff = |l: &Set, r: &Set| run(l.transform_with_transformed(r, |_: &(), _: &()| (), new_set_joint_transform_removed(()), new_set_transform_unchanged(()), new_set_transform_removed(()), SEQ)).0;
    let uni = |l: &Set, r: &Set| run(l.transform_with_transformed(r, |_: &(), _: &()| (), new_set_joint_transform_unchangedlr(()), new_set_transform_unchanged(()), new_set_transform_unchanged(()), SEQ)).0;
    assert_eq!(keys(&sym(&l, &r)), keys(&uni(&diff(&l, &r), &diff(&r, &l))));
    assert_eq!(sym(&l, &r).size(), 2);
}''')

bug("b66", "P29",
    [(C, "                MNode::C(cnode) => MNodeTransformResult::C(CNode::new(new_bit_indexed_array(bits_t, BitIndexedArrayVec::new(&[MNode::C(cnode)]), size).unwrap()), reduced),",
         "                MNode::C(cnode) => MNodeTransformResult::C(cnode, reduced),", 0)],
    "a mixed join of two branching nodes that leaves exactly one subtree, and anything done with the result afterwards",
    "the subtree moves up a level: the result shows its entries but cannot find, remove or join them",
    '''
fn main() {
    let m = map(&[(k(1, 6 << 5 | 1), 1), (k(2, 2 << 5 | 1), 2), (k(3, 3), 3)]);
    let n = map(&[(k(3, 3), 30), (k(4, 4), 40)]);
    let (j, sum) = run(unsafe { m.transform_with_transmuted(&n, |l: &u32, r: &u32| l + r,
        new_map_transform_transmute_generic(|_: &K, _: &i32, _: &K, _: &i32| MapTransformResult::Removed(1)),
        new_map_transform_generic(|_: &K, _: &i32| MapTransformResult::Unchanged(100)),
        new_map_transmute_generic(|_: &K, _: &i32| MapTransmuteResult::Removed(10)), SEQ) });
    assert_eq!((show(&j), sum), (vec![(1, 1), (2, 2)], 211));
    let gone = j.remove(&k(1, 6 << 5 | 1)).ok().map(|r| show(&r.0));
    assert_eq!(gone, Some(vec![(2, 2)]));
}''')
