//! Plays scripts of operations on the library's public API, for a sanitizer or an interpreter to
//! watch.  One script per line on standard input, as hexadecimal bytes; "ok" is printed after each.
//!
//! A script is a header byte (configuration and hashing) and steps of four bytes.  What the
//! operations return is used (every pointer and reference handed out is read) but not judged: that
//! is for the other checks.  Panics, the library's own too, are let go: only what the sanitizer or
//! the interpreter reports counts.
#![allow(unused_must_use)]
use hash_trie::results::*;
use hash_trie::traits::*;
use hash_trie::transformations::*;
use hash_trie::{HashTrieMap, HashTrieSet, ParallelismStrategy};
use std::cell::Cell;
use std::future::Future;
use std::hash::{Hash, Hasher};
use std::hint::black_box;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::task::{Context, Poll, Waker};

thread_local! {
    /// The callbacks left before the one that panics; negative: none will.
    static FUSE: Cell<i32> = const { Cell::new(-1) };
}
fn tick() {
    FUSE.with(|f| {
        let n = f.get();
        if n >= 0 {
            f.set(n - 1);
            if n == 0 {
                panic!("injected");
            }
        }
    })
}

/// Everything of a key lives on the heap, so that using one that is gone or was never made shows.
struct K(Box<(u8, u64, u32)>);
struct V(Box<u32>);
impl K {
    fn new(id: u8, mode: u8, tag: u32) -> K {
        let i = id as u64;
        let h = match mode % 8 {
            0 => i.wrapping_mul(0x9E37_79B9_7F4A_7C15),
            1 => 0,
            2 => (i % 3).wrapping_mul(0x9E37_79B9_7F4A_7C15),
            3 => i << 56 | i << 8,
            4 => i,
            5 => (i & 1) | (i & 2) << 9 | (i & 4) << 18 | (i & 8) << 27,
            6 => (i & 3) << 14 | (i & 3) << 60,
            _ => !(1 << (i % 64)),
        };
        K(Box::new((id, h, tag)))
    }
    fn read(&self) {
        black_box(*self.0);
    }
}
impl V {
    fn new(x: u32) -> V {
        V(Box::new(x))
    }
    fn read(&self) {
        black_box(*self.0);
    }
}
impl Clone for K {
    fn clone(&self) -> K {
        tick();
        K(self.0.clone())
    }
}
impl Clone for V {
    fn clone(&self) -> V {
        tick();
        V(self.0.clone())
    }
}
impl PartialEq for K {
    fn eq(&self, o: &K) -> bool {
        tick();
        self.0 .0 == o.0 .0
    }
}
impl Eq for K {}
impl Hash for K {
    fn hash<S: Hasher>(&self, s: &mut S) {
        s.write_u64(self.0 .1)
    }
}
impl std::fmt::Debug for K {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.0 .0)
    }
}
impl std::fmt::Debug for V {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
#[derive(Default, Clone, Debug)]
struct Hs;
macro_rules! hashes {
    ($($t:ty)*) => { $(impl HasherBv<$t, K> for Hs {
        fn hash(&self, k: &K) -> $t {
            tick();
            k.0 .1 as $t
        }
    })* };
}
hashes!(u16 u64);

/// A reduction with something on the heap.
#[derive(Clone, Default)]
struct R(Vec<u8>);
fn r(x: u8) -> R {
    tick();
    R(vec![x])
}
fn reduce(a: &R, b: &R) -> R {
    tick();
    let mut v = a.0.clone();
    v.extend(&b.0);
    R(v)
}

/// Polls to the end, or gives the future up before its first, or after `polls` unfinished polls.
fn finish<T>(fut: impl Future<Output = T>, polls: u8) -> Option<T> {
    let mut fut: Pin<Box<dyn Future<Output = T> + '_>> = Box::pin(fut);
    let mut cx = Context::from_waker(Waker::noop());
    for _ in 0..polls {
        if let Poll::Ready(t) = fut.as_mut().poll(&mut cx) {
            return Some(t);
        }
    }
    None
}
const WHOLE: u8 = 200;

/// What a callback does with an entry, by its id and the script.
fn pick(k: &K, w: &K, c: u8, n: u8) -> u8 {
    tick();
    k.read();
    w.read();
    (c >> (k.0 .0 & 3)).wrapping_add(c) % n
}

fn strat(b: u8) -> ParallelismStrategy {
    if b & 1 == 0 {
        ParallelismStrategy::Sequential
    } else {
        ParallelismStrategy::MiddleIndex
    }
}

const VERSIONS: usize = 6;

macro_rules! map_world {
    ($name:ident, $h:ty, $f:ty) => {
        mod $name {
            use super::*;
            type Map = HashTrieMap<$h, $f, K, V, Hs>;
            fn show(m: &Map) {
                black_box(m.size());
                m.visit(|k, v| {
                    tick();
                    k.read();
                    v.read()
                });
            }
            fn put(m: &Map, k: K, v: V, replace: bool) -> Option<Map> {
                match m.insert(k, v, replace) {
                    Ok((n, kp, vp, prev)) => {
                        // The pointers lead into the new version, which is alive.
                        unsafe {
                            (*kp).read();
                            (*vp).read();
                        }
                        if let Some((k, v)) = prev {
                            k.read();
                            v.read();
                        }
                        Some(n)
                    }
                    Err((k, v)) => {
                        k.read();
                        v.read();
                        None
                    }
                }
            }
            fn del(m: &Map, k: &K) -> Option<Map> {
                m.remove(k).ok().map(|(n, k, v)| {
                    k.read();
                    v.read();
                    n
                })
            }
            fn map_op(c: u8) -> MapTransform<R, impl Fn(&K, &V) -> MapTransformResult<V, R> + Clone> {
                new_map_transform_generic(move |k: &K, v: &V| {
                    v.read();
                    match pick(k, k, c, 3) {
                        0 => MapTransformResult::Unchanged(r(c)),
                        1 => MapTransformResult::Transformed(V::new(*v.0 + 1), r(c)),
                        _ => MapTransformResult::Removed(r(c)),
                    }
                })
            }
            fn turn_op(c: u8) -> MapTransmute<R, impl Fn(&K, &V) -> MapTransmuteResult<K, V, R> + Clone> {
                new_map_transmute_generic(move |k: &K, v: &V| {
                    v.read();
                    match pick(k, k, c, 3) {
                        0 => MapTransmuteResult::Removed(r(c)),
                        _ => MapTransmuteResult::Transmuted(k.clone(), v.clone(), r(c)),
                    }
                })
            }
            fn fuse_op(c: u8) -> SetTransmute<R, impl Fn(&K, &V) -> SetTransmuteResult<V, R> + Clone> {
                SetTransmute::Generic(move |k: &K, v: &V| {
                    v.read();
                    match pick(k, k, c, 3) {
                        0 => SetTransmuteResult::Removed(r(c)),
                        _ => SetTransmuteResult::Transmuted(v.clone(), r(c)),
                    }
                })
            }
            fn both_op(c: u8) -> MapTransform<R, impl Fn(&K, &V, &K, &V) -> MapTransformResult<V, R> + Clone> {
                MapTransform::Generic(move |k: &K, v: &V, l: &K, w: &V| {
                    v.read();
                    w.read();
                    match pick(k, l, c, 3) {
                        0 => MapTransformResult::Unchanged(r(c)),
                        1 => MapTransformResult::Transformed(w.clone(), r(c)),
                        _ => MapTransformResult::Removed(r(c)),
                    }
                })
            }
            fn join(x: &Map, y: &Map, b: u8, c: u8) -> Option<Map> {
                let (d, e) = (c.rotate_left(3), c.rotate_left(5));
                let s = strat(b);
                let lone = |b: u8| -> MapTransform<R, fn(&K, &V) -> MapTransformResult<V, R>> {
                    if b & 1 == 0 { MapTransform::Unchanged(r(1)) } else { MapTransform::Removed(r(2)) }
                };
                let n = match (b >> 1) % 8 {
                    0 => finish(x.transform_with_transformed(y, reduce, new_map_joint_transform_generic(move |k: &K, v: &V, l: &K, w: &V| {
                        v.read();
                        w.read();
                        match pick(k, l, c, 5) {
                            0 => MapJointTransformResult::UnchangedLR(r(c)),
                            1 => MapJointTransformResult::UnchangedL(r(c)),
                            2 => MapJointTransformResult::UnchangedR(r(c)),
                            3 => MapJointTransformResult::Transformed(w.clone(), r(c)),
                            _ => MapJointTransformResult::Removed(r(c)),
                        }
                    }), map_op(d), map_op(e), s), WHOLE)?.0,
                    1 => {
                        let both: MapJointTransform<R, fn(&K, &V, &K, &V) -> MapJointTransformResult<V, R>> = match c % 4 {
                            0 => MapJointTransform::UnchangedLR(r(0)),
                            1 => MapJointTransform::UnchangedL(r(0)),
                            2 => MapJointTransform::UnchangedR(r(0)),
                            _ => MapJointTransform::Removed(r(0)),
                        };
                        finish(x.transform_with_transformed(y, reduce, both, lone(d), lone(e), s), WHOLE)?.0
                    }
                    2 => finish(x.transform_with_transfuted(y, reduce, both_op(c), map_op(d), fuse_op(e), s), WHOLE)?.0,
                    3 => finish(x.transfute_with_transformed(y, reduce, both_op(c), fuse_op(d), map_op(e), s), WHOLE)?.0,
                    4 => finish(unsafe { x.transform_with_transmuted(y, reduce, both_op(c), lone(d), turn_op(e), s) }, WHOLE)?.0,
                    5 => finish(unsafe { x.transmute_with_transformed(y, reduce, both_op(c), turn_op(d), lone(e), s) }, WHOLE)?.0,
                    6 => finish(unsafe { x.transform_with_transmuted(y, reduce, lone4(c), map_op(d), MapTransmute::<R, fn(&K, &V) -> MapTransmuteResult<K, V, R>>::Removed(r(0)), s) }, WHOLE)?.0,
                    _ => unsafe { x.transmute_with_transmuted(y, reduce, MapTransmute::Generic(move |k: &K, v: &V, l: &K, w: &V| {
                        v.read();
                        match pick(k, l, c, 3) {
                            0 => MapTransmuteResult::Removed(r(c)),
                            _ => MapTransmuteResult::Transmuted(l.clone(), w.clone(), r(c)),
                        }
                    }), turn_op(d), turn_op(e)) }.0,
                };
                Some(n)
            }
            fn lone4(c: u8) -> MapTransform<R, fn(&K, &V, &K, &V) -> MapTransformResult<V, R>> {
                if c & 1 == 0 { MapTransform::Unchanged(r(1)) } else { MapTransform::Removed(r(2)) }
            }
            fn step(vs: &[Map], mode: u8, s: [u8; 4], tag: u32) -> Option<Map> {
                let [op, a, b, c] = s;
                let x = &vs[c as usize % vs.len()];
                match op % 10 {
                    0 | 1 | 2 => put(x, K::new(a, mode, tag), V::new(tag), b & 1 == 0),
                    3 | 4 => del(x, &K::new(a, mode, tag)),
                    5 => {
                        if let Ok((k, v)) = x.find(&K::new(a, mode, tag)) {
                            k.read();
                            v.read();
                        }
                        None
                    }
                    6 => Some(finish(x.transform(reduce, map_op(a), strat(b)), WHOLE)?.0),
                    7 | 8 => join(x, &vs[a as usize % vs.len()], b, c),
                    _ => Some(unsafe { x.transmute(reduce, turn_op(a)) }.0),
                }
            }
            pub fn play(mode: u8, steps: &[[u8; 4]]) {
                let mut vs = vec![Map::new()];
                for (i, s) in steps.iter().enumerate() {
                    let [op, a, b, c] = *s;
                    let tag = i as u32;
                    let x = &vs[c as usize % vs.len()];
                    let made = catch_unwind(AssertUnwindSafe(|| match op % 24 {
                        n @ 0..=11 => step(&vs, mode, [if n > 9 { n - 4 } else { n }, a, b, c], tag),
                        // many at once
                        12 | 13 => {
                            let mut m = x.clone();
                            for k in 0..b % 24 {
                                m = put(&m, K::new(a.wrapping_add(k), mode, tag), V::new(tag), true).unwrap_or(m);
                            }
                            Some(m)
                        }
                        14 => {
                            let mut m = x.clone();
                            for k in 0..b % 24 {
                                m = del(&m, &K::new(a.wrapping_add(k), mode, tag)).unwrap_or(m);
                            }
                            Some(m)
                        }
                        15 => {
                            show(x);
                            None
                        }
                        16 => {
                            black_box(*x == vs[a as usize % vs.len()]);
                            black_box(format!("{:?}", x));
                            Some(x.clone())
                        }
                        // a panic in the n-th callback of the following operation
                        17 | 18 => {
                            FUSE.with(|f| f.set((b % 40) as i32));
                            step(&vs, mode, [a, s[0].wrapping_add(b), a.wrapping_mul(7), c], tag)
                        }
                        // one callback uses the map again
                        19 => {
                            x.visit(|k, v| {
                                k.read();
                                v.read();
                                drop(put(x, K::new(a, mode, tag), V::new(tag), true));
                                drop(del(x, k));
                            });
                            None
                        }
                        // a future that is given up
                        20 => {
                            drop(x.transform(reduce, map_op(a), strat(b)));
                            drop(finish(x.transform_with_transformed(&vs[a as usize % vs.len()], reduce, new_map_joint_transform_generic(|_: &K, _: &V, _: &K, _: &V| MapJointTransformResult::UnchangedLR(r(0))), map_op(a), map_op(b), strat(b)), b & 1));
                            None
                        }
                        // threads on the same versions
                        _ => std::thread::scope(|sc| {
                            let vs = &vs;
                            let hs: Vec<_> = (0..2u8).map(|t| sc.spawn(move || {
                                // Both threads read the same things, and do one thing alike.
                                if b & 1 == 0 {
                                    let x = &vs[c as usize % vs.len()];
                                    for k in 0..2 + b / 2 % 4 {
                                        if let Ok((k, v)) = x.find(&K::new(a.wrapping_add(k), mode, tag)) {
                                            k.read();
                                            v.read();
                                        }
                                    }
                                    black_box(x.size());
                                    show(x);
                                    black_box(*x == vs[a as usize % vs.len()]);
                                    return step(vs, mode, [b / 8, a, a ^ b, c], tag);
                                }
                                let mut out = None;
                                for j in 0..2 + b % 3 {
                                    let e = [a.rotate_left(t as u32 * 3 + j as u32), b.wrapping_add(t * 16 + j), a ^ j, c.wrapping_add(t & b)];
                                    out = step(vs, mode, e, tag).or(out);
                                }
                                drop(vs[c as usize % vs.len()].clone());
                                out
                            })).collect();
                            hs.into_iter().filter_map(|h| h.join().ok().flatten()).last()
                        }),
                    })).unwrap_or(None);
                    FUSE.with(|f| f.set(-1));
                    if let Some(m) = made {
                        if vs.len() == VERSIONS {
                            // The oldest, the newest or one between goes.
                            vs.remove(b as usize % VERSIONS);
                        }
                        vs.push(m);
                    }
                }
                while !vs.is_empty() {
                    for m in &vs {
                        show(m);
                    }
                    vs.swap_remove(mode as usize % vs.len());
                }
            }
        }
    };
}

macro_rules! set_world {
    ($name:ident, $h:ty, $f:ty) => {
        mod $name {
            use super::*;
            type Set = HashTrieSet<$h, $f, K, Hs>;
            fn put(m: &Set, k: K, replace: bool) -> Option<Set> {
                match m.insert(k, replace) {
                    Ok((n, kp, prev)) => {
                        unsafe { (*kp).read() };
                        prev.map(|k| k.read());
                        Some(n)
                    }
                    Err(k) => {
                        k.read();
                        None
                    }
                }
            }
            fn del(m: &Set, k: &K) -> Option<Set> {
                m.remove(k).ok().map(|(n, k)| {
                    k.read();
                    n
                })
            }
            fn map_op(c: u8) -> SetTransform<R, impl Fn(&K) -> SetTransformResult<R> + Clone> {
                SetTransform::Generic(move |k: &K| match pick(k, k, c, 2) {
                    0 => SetTransformResult::Unchanged(r(c)),
                    _ => SetTransformResult::Removed(r(c)),
                })
            }
            fn turn_op(c: u8) -> SetTransmute<R, impl Fn(&K) -> SetTransmuteResult<K, R> + Clone> {
                SetTransmute::Generic(move |k: &K| match pick(k, k, c, 3) {
                    0 => SetTransmuteResult::Removed(r(c)),
                    _ => SetTransmuteResult::Transmuted(k.clone(), r(c)),
                })
            }
            fn both_op(c: u8) -> SetTransform<R, impl Fn(&K, &K) -> SetTransformResult<R> + Clone> {
                SetTransform::Generic(move |k: &K, l: &K| match pick(k, l, c, 2) {
                    0 => SetTransformResult::Unchanged(r(c)),
                    _ => SetTransformResult::Removed(r(c)),
                })
            }
            fn join(x: &Set, y: &Set, b: u8, c: u8) -> Option<Set> {
                let (d, e) = (c.rotate_left(3), c.rotate_left(5));
                let s = strat(b);
                let lone = |b: u8| -> SetTransform<R, fn(&K) -> SetTransformResult<R>> {
                    if b & 1 == 0 { SetTransform::Unchanged(r(1)) } else { SetTransform::Removed(r(2)) }
                };
                let n = match (b >> 1) % 5 {
                    0 => finish(x.transform_with_transformed(y, reduce, new_set_joint_transform_generic(move |k: &K, l: &K| match pick(k, l, c, 4) {
                        0 => SetJointTransformResult::UnchangedLR(r(c)),
                        1 => SetJointTransformResult::UnchangedL(r(c)),
                        2 => SetJointTransformResult::UnchangedR(r(c)),
                        _ => SetJointTransformResult::Removed(r(c)),
                    }), map_op(d), map_op(e), s), WHOLE)?.0,
                    1 => {
                        let both: SetJointTransform<R, fn(&K, &K) -> SetJointTransformResult<R>> = match c % 4 {
                            0 => SetJointTransform::UnchangedLR(r(0)),
                            1 => SetJointTransform::UnchangedL(r(0)),
                            2 => SetJointTransform::UnchangedR(r(0)),
                            _ => SetJointTransform::Removed(r(0)),
                        };
                        finish(x.transform_with_transformed(y, reduce, both, lone(d), lone(e), s), WHOLE)?.0
                    }
                    2 => finish(unsafe { x.transform_with_transmuted(y, reduce, both_op(c), lone(d), turn_op(e), s) }, WHOLE)?.0,
                    3 => finish(unsafe { x.transmute_with_transformed(y, reduce, both_op(c), turn_op(d), map_op(e), s) }, WHOLE)?.0,
                    _ => unsafe { x.transmute_with_transmuted(y, reduce, SetTransmute::Generic(move |k: &K, l: &K| match pick(k, l, c, 3) {
                        0 => SetTransmuteResult::Removed(r(c)),
                        _ => SetTransmuteResult::Transmuted(l.clone(), r(c)),
                    }), turn_op(d), turn_op(e)) }.0,
                };
                Some(n)
            }
            fn step(vs: &[Set], mode: u8, s: [u8; 4], tag: u32) -> Option<Set> {
                let [op, a, b, c] = s;
                let x = &vs[c as usize % vs.len()];
                match op % 10 {
                    0 | 1 | 2 => put(x, K::new(a, mode, tag), b & 1 == 0),
                    3 | 4 => del(x, &K::new(a, mode, tag)),
                    5 => {
                        if let Ok(k) = x.find(&K::new(a, mode, tag)) {
                            k.read();
                        }
                        None
                    }
                    6 => Some(finish(x.transform(reduce, map_op(a), strat(b)), WHOLE)?.0),
                    7 | 8 => join(x, &vs[a as usize % vs.len()], b, c),
                    _ => Some(unsafe { x.transmute(reduce, turn_op(a)) }.0),
                }
            }
            pub fn play(mode: u8, steps: &[[u8; 4]]) {
                let mut vs = vec![Set::new()];
                for (i, s) in steps.iter().enumerate() {
                    let [op, a, b, c] = *s;
                    let tag = i as u32;
                    let x = &vs[c as usize % vs.len()];
                    let made = catch_unwind(AssertUnwindSafe(|| match op % 24 {
                        n @ 0..=11 => step(&vs, mode, [if n > 9 { n - 4 } else { n }, a, b, c], tag),
                        12 | 13 => {
                            let mut m = x.clone();
                            for k in 0..b % 24 {
                                m = put(&m, K::new(a.wrapping_add(k), mode, tag), true).unwrap_or(m);
                            }
                            Some(m)
                        }
                        14 => {
                            let mut m = x.clone();
                            for k in 0..b % 24 {
                                m = del(&m, &K::new(a.wrapping_add(k), mode, tag)).unwrap_or(m);
                            }
                            Some(m)
                        }
                        15 | 19 | 20 => {
                            x.visit(|k| k.read());
                            None
                        }
                        16 => {
                            black_box(*x == vs[a as usize % vs.len()]);
                            black_box(format!("{:?}", x));
                            Some(x.clone())
                        }
                        17 | 18 => {
                            FUSE.with(|f| f.set((b % 40) as i32));
                            step(&vs, mode, [a, s[0].wrapping_add(b), a.wrapping_mul(7), c], tag)
                        }
                        _ => std::thread::scope(|sc| {
                            let vs = &vs;
                            let hs: Vec<_> = (0..2u8).map(|t| sc.spawn(move || {
                                // Both threads read the same things, and do one thing alike.
                                if b & 1 == 0 {
                                    let x = &vs[c as usize % vs.len()];
                                    for k in 0..2 + b / 2 % 4 {
                                        if let Ok(k) = x.find(&K::new(a.wrapping_add(k), mode, tag)) {
                                            k.read();
                                        }
                                    }
                                    black_box(x.size());
                                    x.visit(|k| k.read());
                                    black_box(*x == vs[a as usize % vs.len()]);
                                    return step(vs, mode, [b / 8, a, a ^ b, c], tag);
                                }
                                let mut out = None;
                                for j in 0..2 + b % 3 {
                                    let e = [a.rotate_left(t as u32 * 3 + j as u32), b.wrapping_add(t * 16 + j), a ^ j, c.wrapping_add(t & b)];
                                    out = step(vs, mode, e, tag).or(out);
                                }
                                drop(vs[c as usize % vs.len()].clone());
                                out
                            })).collect();
                            hs.into_iter().filter_map(|h| h.join().ok().flatten()).last()
                        }),
                    })).unwrap_or(None);
                    FUSE.with(|f| f.set(-1));
                    if let Some(m) = made {
                        if vs.len() == VERSIONS {
                            vs.remove(b as usize % VERSIONS);
                        }
                        vs.push(m);
                    }
                }
                while !vs.is_empty() {
                    for m in &vs {
                        m.visit(|k| k.read());
                    }
                    vs.swap_remove(mode as usize % vs.len());
                }
            }
        }
    };
}

map_world!(map_wide, u64, u32);
map_world!(map_small, u16, u8);
set_world!(set_wide, u64, u128);
set_world!(set_small, u16, u8);

fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let mut out = std::io::stdout();
    writeln!(out, "ready").and_then(|_| out.flush()).unwrap();
    for line in std::io::stdin().lock().lines() {
        let Ok(line) = line else { return };
        let bytes: Vec<u8> = (0..line.len() / 2).filter_map(|i| u8::from_str_radix(line.get(2 * i..2 * i + 2)?, 16).ok()).collect();
        let Some((head, rest)) = bytes.split_first() else { return };
        let steps: Vec<[u8; 4]> = rest.chunks_exact(4).map(|c| [c[0], c[1], c[2], c[3]]).collect();
        let mode = head >> 2;
        let _ = catch_unwind(AssertUnwindSafe(|| match head & 3 {
            0 => map_wide::play(mode, &steps),
            1 => map_small::play(mode, &steps),
            2 => set_wide::play(mode, &steps),
            _ => set_small::play(mode, &steps),
        }));
        if writeln!(out, "ok").and_then(|_| out.flush()).is_err() {
            return;
        }
    }
}
