use hash_trie::results::BitError;
use hash_trie::traits::*;
use hash_trie_pbt::{engine::*, ensure};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Hash, PartialEq, Eq, Serialize, Deserialize)]
struct Case {
    ty: u8,
    /// the word, and the bit (or bits) to use with it; cut to the type
    word: (u64, u64),
    bit: (u64, u64),
    n: u64,
}

#[derive(Debug, PartialEq, Eq, Clone, Copy)]
enum E {
    Count,
    Found,
    NotFound,
    Range,
}
fn err(e: BitError) -> E {
    match e {
        BitError::CountNotEqualToOne => E::Count,
        BitError::Found => E::Found,
        BitError::NotFound => E::NotFound,
        BitError::Range => E::Range,
    }
}
/// Positions of the ones, the reference form of a word.
fn ones(w: u128) -> Vec<u32> {
    (0..128).filter(|i| (w / (1u128 << i)) % 2 == 1).collect()
}
fn word_of(v: &[u32]) -> u128 {
    v.iter().map(|i| 1u128 << i).fold(0, |a, b| a + b)
}

macro_rules! check_type {
    ($t:ty, $width:expr, $word:expr, $bit:expr, $n:expr) => {{
        let (w, b, n) = ($word as $t, $bit as $t, $n);
        let (ws, bs) = (ones(w as u128), ones(b as u128));
        let single = if bs.len() == 1 { Some(bs[0]) } else { None };
        let t = stringify!($t);
        // membership
        let want = match single {
            None => Err(E::Count),
            Some(i) => Ok(ws.contains(&i)),
        };
        let got = w.bit_contains(b).map_err(err);
        ensure!(got == want, "{t}: {w:#b}.bit_contains({b:#b}) is {got:?} instead of {want:?}");
        // rank
        let want = match single {
            None => Err(E::Count),
            Some(i) if ws.contains(&i) => Ok(ws.iter().filter(|j| **j < i).count()),
            Some(_) => Err(E::NotFound),
        };
        let got = w.bit_index(b).map_err(err);
        ensure!(got == want, "{t}: {w:#b}.bit_index({b:#b}) is {got:?} instead of {want:?}");
        // insertion and removal
        let want = match single {
            None => Err(E::Count),
            Some(i) if ws.contains(&i) => Err(E::Found),
            Some(i) => {
                let mut v = ws.clone();
                v.push(i);
                Ok(word_of(&v))
            }
        };
        let got = w.bit_insert(b).map(|w| w as u128).map_err(err);
        ensure!(got == want, "{t}: {w:#b}.bit_insert({b:#b}) is {got:?} instead of {want:?}");
        if let Ok(x) = got {
            let back = (x as $t).bit_remove(b).map(|w| w as u128).map_err(err);
            ensure!(back == Ok(w as u128), "{t}: inserting {b:#b} into {w:#b} and removing it gives {back:?}");
        }
        let want = match single {
            None => Err(E::Count),
            Some(i) if ws.contains(&i) => Ok(word_of(&ws.iter().copied().filter(|j| *j != i).collect::<Vec<_>>())),
            Some(_) => Err(E::NotFound),
        };
        let got = w.bit_remove(b).map(|w| w as u128).map_err(err);
        ensure!(got == want, "{t}: {w:#b}.bit_remove({b:#b}) is {got:?} instead of {want:?}");
        // union of disjoint words
        let want = if ws.iter().any(|i| bs.contains(i)) {
            Err(E::Found)
        } else {
            Ok(word_of(&ws.iter().chain(&bs).copied().collect::<Vec<_>>()))
        };
        let got = w.bit_merge(b).map(|w| w as u128).map_err(err);
        ensure!(got == want, "{t}: {w:#b}.bit_merge({b:#b}) is {got:?} instead of {want:?}");
        let other = b.bit_merge(w).map(|w| w as u128).map_err(err);
        ensure!(got == other, "{t}: merging {w:#b} and {b:#b} depends on the order");
        // size and conversion
        ensure!(w.count_ones_t() == ws.len(), "{t}: {w:#b}.count_ones_t() is {}", w.count_ones_t());
        if (w as u128) <= usize::MAX as u128 {
            ensure!(w.as_usize() as u128 == w as u128, "{t}: {w}.as_usize() is {}", w.as_usize());
        }
        // the n-th bit
        let got = <$t>::nth_bit(n).map(|w| w as u128).map_err(err);
        let want = if n < $width { Ok(word_of(&[n as u32])) } else { Err(E::Range) };
        ensure!(got == want, "{t}::nth_bit({n}) is {got:?} instead of {want:?}");
    }};
}

macro_rules! check_consts {
    ($($t:ty, $width:expr, $log:expr;)*) => { $(
        ensure!(<$t>::max_ones() == $width, "{}::max_ones() is {}", stringify!($t), <$t>::max_ones());
        ensure!(<$t>::log_b() == $log, "{}::log_b() is {}", stringify!($t), <$t>::log_b());
    )* };
}
macro_rules! check_masks {
    ($($f:ty => $($h:ty),*;)*) => { $( $(
        // A mask of log_b() ones cuts exactly one level's index out of a hash word.
        let m: $h = <$f as MaskLogB<$h>>::mask_log_b();
        ensure!(m as u128 == (1u128 << <$f>::log_b()) - 1, "{} mask over {} is {:#b}", stringify!($f), stringify!($h), m);
        ensure!(m as u128 + 1 == <$f>::max_ones() as u128, "{}: {} positions for a node of {}", stringify!($f), m as u128 + 1, <$f>::max_ones());
    )* )* };
}

fn wide(p: (u64, u64)) -> u128 {
    (p.0 as u128) << 64 | p.1 as u128
}
fn check(c: &Case, info: &mut Info) -> Result<(), String> {
    let (w, b) = (wide(c.word), wide(c.bit));
    // Out-of-range positions include the far ones.
    let n = c.n as usize;
    let width = match c.ty % 6 {
        0 => { check_type!(u8, 8, w, b, n); 8 }
        1 => { check_type!(u16, 16, w, b, n); 16 }
        2 => { check_type!(u32, 32, w, b, n); 32 }
        3 => { check_type!(u64, 64, w, b, n); 64 }
        4 => { check_type!(u128, 128, w, b, n); 128 }
        _ => { check_type!(usize, 64, w, b, n); 64 }
    };
    let cut = |x: u128| if width == 128 { x } else { x & ((1u128 << width) - 1) };
    let bits = cut(b).count_ones();
    info.label(match bits { 0 => "no-bit", 1 => "one-bit", _ => "several-bits" });
    info.label(["u8", "u16", "u32", "u64", "u128", "usize"][c.ty as usize % 6]);
    info.label_if(bits == 1 && cut(b) >> (width - 1) == 1, "top-bit");
    info.label_if(cut(w) & cut(b) == 0 && bits > 0, "disjoint");
    info.label_if(n >= width, "position-out-of-range");
    info.nontrivial_if(bits == 1 && cut(w) != 0);
    Ok(())
}
fn enumerate(_: &mut Info) -> Result<u64, String> {
    check_consts! { u8, 8, 3; u16, 16, 4; u32, 32, 5; u64, 64, 6; u128, 128, 7; usize, usize::BITS as usize, usize::BITS.trailing_zeros() as usize; }
    check_masks! {
        u8 => u8, u16, u32, u64, u128, usize;
        u16 => u8, u16, u32, u64, u128, usize;
        u32 => u16, u32, u64, u128, usize;
        u64 => u16, u32, u64, u128, usize;
        u128 => u16, u32, u64, u128, usize;
        usize => u16, u32, u64, u128, usize;
    }
    let mut n = 0u64;
    for w in 0..=255u128 {
        for b in 0..=255u128 {
            check_type!(u8, 8, w, b, (w * 3 + b) as usize);
            n += 1;
        }
    }
    // Every one- and two-bit situation of every width.
    for i in 0..128 {
        for j in 0..128 {
            let (w, b) = (1u128 << i, 1u128 << j);
            for w in [w, !w, w - 1, u128::MAX] {
                check_type!(u16, 16, w, b, j);
                check_type!(u32, 32, w, b, j);
                check_type!(u64, 64, w, b, j);
                check_type!(usize, 64, w, b, j);
                if (i + 3 * j) % 4 == 0 {
                    check_type!(u128, 128, w, b, j);
                }
                n += 1;
            }
        }
    }
    Ok(n)
}
fn main() {
    hash_trie_pbt::engine::main(Spec {
        id: "P19",
        rule: "Random words and bits (none, one, several; also overlapping and disjoint) of all six word types, checked against positions-of-ones arithmetic; all pairs of u8 words, all one-bit situations of every width and all constants and masks are enumerated. Non-trivial: exactly one bit asked for and a word that is not zero.",
        assumptions: &["conversion to usize is compared for words that fit"],
        quick: 1_500_000,
        thorough: 30_000_000,
        strategy: |_| {
            let word = || prop_oneof![3 => any::<(u64, u64)>(), 1 => Just((0, 0)), 1 => Just((u64::MAX, u64::MAX)), 2 => (0u32..128).prop_map(|i| { let w = 1u128 << i; ((w >> 64) as u64, w as u64) }), 1 => (0u32..128).prop_map(|i| { let w = !(1u128 << i); ((w >> 64) as u64, w as u64) })];
            // Shifts are taken within the narrow types often enough that one bit survives the cut.
            let bit = prop_oneof![
                6 => (prop_oneof![0u32..8, 0u32..16, 0u32..32, 0u32..64, 0u32..128]).prop_map(|i| { let w = 1u128 << i; ((w >> 64) as u64, w as u64) }),
                2 => any::<(u64, u64)>(),
                1 => Just((0, 0)),
            ];
            let n = prop_oneof![6 => 0u64..160, 1 => any::<u64>(), 1 => any::<u32>().prop_map(|n| n as u64)];
            (0u8..6, word(), bit, n, any::<bool>())
                .prop_map(|(ty, word, bit, n, disjoint)| {
                    let bit = if disjoint { bit } else { (bit.0 & word.0, bit.1 & word.1) };
                    Case { ty, word, bit, n }
                })
                .boxed()
        },
        check,
        enumerate: Some(enumerate),
    })
}
