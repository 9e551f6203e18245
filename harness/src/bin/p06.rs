//! Ordinary key types and ordinary hashers, through the library's own `HasherBv` adaptation.
use hash_trie::traits::HasherBv;
use hash_trie::{DefaultHashTrieMap, DefaultHashTrieSet, HashTrieMap, HashTrieSet};
use hash_trie_pbt::{engine::*, ensure};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet};
use std::hash::{Hash, Hasher};
use std::sync::Mutex;

/// Finishes with the same word, `N`, for every key.
#[derive(Default)]
struct Same<const N: u64>;
impl<const N: u64> Hasher for Same<N> {
    fn finish(&self) -> u64 {
        N
    }
    fn write(&mut self, _: &[u8]) {}
}
/// Spreads the key's last bytes over the high half of the word only.
#[derive(Default)]
struct High(u64);
impl Hasher for High {
    fn finish(&self) -> u64 {
        self.0 << 32
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = self.0.rotate_left(8) ^ *x as u64;
        }
    }
}
/// The plain bytes of the key.
#[derive(Default)]
struct Plain(u64);
impl Hasher for Plain {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b.iter().rev() {
            self.0 = self.0 << 8 | *x as u64;
        }
    }
}

#[derive(Clone, Debug, Hash, PartialEq, Eq, Serialize, Deserialize)]
struct Case {
    conf: u8,
    keys: u8,
    pool: Vec<i64>,
    ops: Vec<(u8, u8)>,
}

trait K: Ord + Default + Clone + std::fmt::Debug + Hash + Send + Sync + 'static {
    fn make(n: i64) -> Self;
}
impl K for i32 {
    fn make(n: i64) -> Self {
        n as i32
    }
}
impl K for String {
    fn make(n: i64) -> Self {
        if n % 7 == 0 {
            String::new()
        } else {
            format!("{:x}", n)
        }
    }
}
impl K for (u8, bool, Option<i16>) {
    fn make(n: i64) -> Self {
        (n as u8, n & 256 != 0, if n & 512 != 0 { Some((n >> 10) as i16) } else { None })
    }
}

/// A large key with an alignment of its own.
#[derive(Clone, Debug, Default, Hash, PartialEq, Eq, PartialOrd, Ord)]
#[repr(align(128))]
pub struct Slab([i64; 30]);
impl K for Slab {
    fn make(n: i64) -> Self {
        Slab([n; 30])
    }
}
impl K for char {
    fn make(n: i64) -> Self {
        char::from_u32(n as u32 & 0xF_FFFF).unwrap_or('?')
    }
}
impl K for Vec<u16> {
    fn make(n: i64) -> Self {
        (0..(n & 7)).map(|i| (n >> (i * 8)) as u16).collect()
    }
}
/// The one key there is.
impl K for () {
    fn make(_: i64) -> Self {}
}
impl K for std::sync::Arc<str> {
    fn make(n: i64) -> Self {
        <String as K>::make(n).into()
    }
}

/// Values that show which step they were made in, or, having no room for that, nothing.
trait W: Clone + std::fmt::Debug + Send + Sync + 'static {
    fn of(n: u32) -> Self;
    fn is(&self, n: u32) -> bool;
}
impl W for u32 {
    fn of(n: u32) -> Self {
        n
    }
    fn is(&self, n: u32) -> bool {
        *self == n
    }
}
impl W for () {
    fn of(_: u32) -> Self {}
    fn is(&self, _: u32) -> bool {
        true
    }
}
impl W for [u32; 99] {
    fn of(n: u32) -> Self {
        [n; 99]
    }
    fn is(&self, n: u32) -> bool {
        self.iter().all(|x| *x == n)
    }
}
/// Aligned to a page.
#[derive(Clone, Debug)]
#[repr(align(4096))]
pub struct Page(u32);
impl W for Page {
    fn of(n: u32) -> Self {
        Page(n)
    }
    fn is(&self, n: u32) -> bool {
        self.0 == n && self as *const _ as usize % 4096 == 0
    }
}
impl W for Option<String> {
    fn of(n: u32) -> Self {
        if n % 3 == 0 { None } else { Some(n.to_string()) }
    }
    fn is(&self, n: u32) -> bool {
        *self == Self::of(n)
    }
}

macro_rules! go {
    ($name:ident, $Map:ty, $Set:ty) => {
        pub fn $name(c: &Case, info: &mut Info) -> Result<(), String> {
            let mut map = <$Map>::new();
            let mut set = <$Set>::new();
            let mut model: BTreeMap<T, u32> = BTreeMap::new();
            let (mut removed, mut replaced) = (0, 0);
            for (i, (kind, k)) in c.ops.iter().enumerate() {
                let key = T::make(c.pool[*k as usize % c.pool.len()]);
                let old = model.get(&key).copied();
                let v = i as u32;
                match kind % 4 {
                    0 | 1 => {
                        let replace = kind % 4 == 1;
                        let r = map.insert(key.clone(), <V as W>::of(v), replace);
                        let s = set.insert(key.clone(), replace);
                        match (r, s, old) {
                            (Err((k, v)), Err(l), Some(o)) if !replace => ensure!(k == &key && l == &key && v.is(o), "step {i}: refused insert of {key:?} shows {k:?}={v:?}, not that of step {o}"),
                            (Ok((m, _, _, p)), Ok((s, _, q)), _) if old.is_none() || replace => {
                                ensure!(p.is_some() == old.is_some() && p.map_or(true, |p| p.0 == &key && p.1.is(old.unwrap())), "step {i}: insert of {key:?} hands back {p:?}, not that of step {old:?}");
                                ensure!(q.is_some() == old.is_some(), "step {i}: set insert of {key:?} hands back {q:?}");
                                replaced += old.is_some() as u32;
                                map = m;
                                set = s;
                                model.insert(key.clone(), v);
                            }
                            (r, s, o) => return Err(format!("step {i}: insert of {key:?} (replace {replace}) is accepted: map {}, set {}; the key was {}", r.is_ok(), s.is_ok(), if o.is_some() { "present" } else { "absent" })),
                        }
                    }
                    2 => {
                        let (r, s) = (map.remove(&key), set.remove(&key));
                        match (r, s, old) {
                            (Err(_), Err(_), None) => {}
                            (Ok((m, k, v)), Ok((s, l)), Some(o)) => {
                                ensure!(k == &key && l == &key && v.is(o), "step {i}: remove of {key:?} hands back {k:?}={v:?}");
                                map = m;
                                set = s;
                                model.remove(&key);
                                removed += 1;
                            }
                            (r, s, o) => return Err(format!("step {i}: remove of {key:?}: map {}, set {}; the key was {}", r.is_ok(), s.is_ok(), if o.is_some() { "present" } else { "absent" })),
                        }
                    }
                    _ => {}
                }
                ensure!(match (map.find(&key), model.get(&key)) { (Ok(t), Some(v)) => t.0 == &key && t.1.is(*v), (Err(_), None) => true, _ => false }, "step {i}: find({key:?}) disagrees with the model");
                ensure!(set.find(&key).is_ok() == model.contains_key(&key), "step {i}: set find({key:?}) disagrees with the model");
                ensure!(map.size() == model.len() && set.size() == model.len(), "step {i}: sizes {} and {} instead of {}", map.size(), set.size(), model.len());
            }
            let seen: Mutex<Vec<(T, V)>> = Mutex::new(vec![]);
            map.visit(|k, v| seen.lock().unwrap().push((k.clone(), v.clone())));
            let v = seen.into_inner().unwrap();
            ensure!(v.len() == model.len(), "visit shows {} entries of {}", v.len(), model.len());
            let v: BTreeMap<T, V> = v.into_iter().collect();
            ensure!(v.len() == model.len() && v.iter().zip(&model).all(|(a, b)| a.0 == b.0 && a.1.is(*b.1)), "visit disagrees with the model");
            let seen: Mutex<Vec<T>> = Mutex::new(vec![]);
            set.visit(|k| seen.lock().unwrap().push(k.clone()));
            let v = seen.into_inner().unwrap();
            ensure!(v.len() == model.len() && v.into_iter().collect::<BTreeSet<_>>() == model.keys().cloned().collect::<BTreeSet<_>>(), "set visit disagrees with the model");
            for n in &c.pool {
                let k = T::make(*n);
                ensure!(map.find(&k).is_ok() == model.contains_key(&k), "find({k:?}) disagrees with the model");
            }
            info.nontrivial_if(model.len() >= 2 && removed >= 1 && replaced >= 1);
            Ok(())
        }
    };
}
macro_rules! words {
    ($($n:ident $h:ty, $f:ty, $m:ty;)*) => { $( go!($n, HashTrieMap<$h, $f, T, V, $m>, HashTrieSet<$h, $f, T, $m>); )* };
}
mod int {
    use super::*;
    type T = i32;
    type V = u32;
    go!(default, DefaultHashTrieMap<T, V>, DefaultHashTrieSet<T>);
    words! {
        f8 u8, u8, fnv::FnvHasher; f16 u16, u16, fnv::FnvHasher; f32 u32, u32, fnv::FnvHasher; f64w u64, u64, fnv::FnvHasher;
        p8 u8, u16, Plain; p16 u16, u8, Plain; p32 u32, u16, Plain; p64 u64, u32, Plain;
        s16 u16, u16, Same<0x8000_0000_0001_8000>; s32 u32, u32, Same<0x1_0000_0000>;
        h16 u16, u16, High; h64 u64, u32, High;
        u64f u64, usize, fnv::FnvHasher; u16p u16, usize, Plain; p128 u64, u128, Plain;
    }
}
mod text {
    use super::*;
    type T = String;
    type V = u32;
    go!(default, DefaultHashTrieMap<T, V>, DefaultHashTrieSet<T>);
    words! {
        f32 u32, u32, fnv::FnvHasher; d8 u8, u16, DefaultHasher; d16 u16, u32, DefaultHasher; d64 u64, u128, DefaultHasher; s64 u64, u32, Same<0xFFFF_FFFF_FFFF_FFFF>;
    }
}
mod tuple {
    use super::*;
    type T = (u8, bool, Option<i16>);
    type V = u32;
    go!(default, DefaultHashTrieMap<T, V>, DefaultHashTrieSet<T>);
    words! { d32 u32, u8, DefaultHasher; s8 u8, u8, Same<0xFFFF_FFFF_FFFF_FFFF>; h32 u32, u32, High; u32h u32, usize, High; }
}
mod slab {
    use super::*;
    type T = Slab;
    type V = ();
    go!(default, DefaultHashTrieMap<T, V>, DefaultHashTrieSet<T>);
    words! { f16 u16, u8, fnv::FnvHasher; s64 u64, u64, Same<1>; }
}
mod letter {
    use super::*;
    type T = char;
    type V = Page;
    go!(default, DefaultHashTrieMap<T, V>, DefaultHashTrieSet<T>);
    words! { p16 u16, u16, Plain; s32 u32, u16, Same<0x8000_0001>; }
}
mod list {
    use super::*;
    type T = Vec<u16>;
    type V = [u32; 99];
    go!(default, DefaultHashTrieMap<T, V>, DefaultHashTrieSet<T>);
    words! { d64 u64, u32, DefaultHasher; s8 u8, u16, Same<7>; u64d u64, usize, DefaultHasher; }
}
mod shared {
    use super::*;
    type T = std::sync::Arc<str>;
    type V = Option<String>;
    go!(default, DefaultHashTrieMap<T, V>, DefaultHashTrieSet<T>);
    words! { d64 u64, u64, DefaultHasher; s16 u16, u128, Same<0xFFFF>; }
}
mod only {
    use super::*;
    type T = ();
    type V = ();
    go!(default, DefaultHashTrieMap<T, V>, DefaultHashTrieSet<T>);
    words! { f8 u8, u16, fnv::FnvHasher; s64 u64, u16, Same<0>; }
}
/// The hash word the library derives is a function of the key: equal keys, equal words.
fn stable<T: K>(c: &Case) -> Result<(), String> {
    for n in &c.pool {
        let (a, b) = (T::make(*n), T::make(*n));
        macro_rules! same { ($($t:ty),*) => { $(
            let x: $t = HasherBv::<$t, T>::hash(&fnv::FnvHasher::default(), &a);
            let y: $t = HasherBv::<$t, T>::hash(&fnv::FnvHasher::default(), &b);
            ensure!(x == y, "equal keys {a:?} hash to {x:?} and {y:?}");
        )* } }
        same!(u8, u16, u32, u64);
    }
    Ok(())
}
fn check(c: &Case, info: &mut Info) -> Result<(), String> {
    macro_rules! pick { ($T:ty, $m:ident, $c:expr, [$($f:ident),*]) => {{
        stable::<$T>(c)?;
        let all: &[(&str, fn(&Case, &mut Info) -> Result<(), String>)] = &[$((concat!(stringify!($m), " keys, ", stringify!($f)), $m::$f)),*];
        let (name, f) = all[$c as usize % all.len()];
        info.label(name);
        f(c, info)
    }}; }
    match c.keys % 16 {
        4 | 5 => pick!(Slab, slab, c.conf, [default, f16, s64]),
        6 | 7 => pick!(char, letter, c.conf, [default, p16, s32]),
        8 | 9 => pick!(Vec<u16>, list, c.conf, [default, d64, s8, u64d]),
        10 | 11 => pick!(std::sync::Arc<str>, shared, c.conf, [default, d64, s16]),
        12 if c.conf > 200 => pick!((), only, c.conf, [default, f8, s64]),
        0 | 3 | 13 => pick!(i32, int, c.conf, [default, f8, f16, f32, f64w, p8, p16, p32, p64, s16, s32, h16, h64, u64f, u16p, p128]),
        1 | 14 => pick!(String, text, c.conf, [default, f32, d8, d16, d64, s64]),
        _ => pick!((u8, bool, Option<i16>), tuple, c.conf, [default, d32, s8, h32, u32h]),
    }
}
fn strategy(big: bool) -> BoxedStrategy<Case> {
    let key = prop_oneof![2 => 0i64..16, 2 => any::<i64>(), 1 => (0u32..40).prop_map(|s| 1i64 << s)];
    let n = if big { 200 } else { 24 };
    (any::<u8>(), any::<u8>(), vec(key, 1..=n), vec((any::<u8>(), any::<u8>()), 1..=if big { 400 } else { 60 }))
        .prop_map(|(conf, keys, pool, ops)| Case { conf, keys, pool, ops })
        .boxed()
}
fn main() {
    hash_trie_pbt::engine::main(Spec {
        id: "P06",
        rule: "Random histories of insert, replace, remove and find on a map and a set with ordinary keys (integers, strings, tuples, letters, vectors, shared strings, large aligned blocks, the unit) and values of several sizes and alignments, hashed by FNV, SipHash, an identity hasher, a constant hasher and a hasher that uses the high half only, at 8-, 16-, 32- and 64-bit hash words and through the default aliases. Non-trivial: two or more entries left at the end, a removal and a replacement.",
        assumptions: &[],
        quick: 500_000,
        thorough: 4_000_000,
        strategy,
        check,
        enumerate: None,
    })
}
