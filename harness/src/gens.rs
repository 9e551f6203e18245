//! Generators shared by the properties.
use crate::dict::*;
use crate::engine::mix;
use crate::probe::*;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::sync::Arc;

/// Which hash each key has.  A key's hash is a pool word with `bits` xored in at `pos` (modulo the
/// hash width): few pool words and `bits == 0` give full collisions, a high `pos` gives keys that
/// share all but their last hash chunk, many pool words give a spread.
#[derive(Clone, Debug, Hash, PartialEq, Eq, Serialize, Deserialize)]
pub struct Uni {
    pub pool: Vec<u64>,
    pub keys: Vec<(u8, u8, u8)>,
    /// This many further keys, with hashes spread over the whole word.
    #[serde(default)]
    pub wide: u32,
}
impl Uni {
    pub fn len(&self) -> usize {
        self.keys.len() + self.wide as usize
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn hash(&self, id: u32, w: u32) -> u128 {
        let id = id as usize % self.len();
        if id >= self.keys.len() {
            let a = mix(id as u64 ^ self.pool[0]);
            return (mix(a) as u128) << 64 | a as u128;
        }
        let (p, pos, bits) = self.keys[id];
        let base = self.pool[p as usize % self.pool.len()];
        let wide = match base {
            0 => 0,
            u64::MAX => u128::MAX,
            b => (mix(b) as u128) << 64 | b as u128,
        };
        wide ^ ((bits as u128) << (pos as u32 % w))
    }
    /// The hash word the container sees for a key.
    pub fn word(&self, id: u32, w: u32) -> u128 {
        let h = self.hash(id, w);
        if w == 128 {
            h
        } else {
            h & ((1u128 << w) - 1)
        }
    }
    pub fn key<const T: u8>(&self, ctx: &Arc<Ctx>, id: u32, tag: u32, w: u32) -> Key<T> {
        Key::new(ctx, id, tag, self.hash(id, w))
    }
    /// Sizes of the groups of ids in `ids` that share one hash word.
    pub fn groups(&self, ids: impl Iterator<Item = u32>, w: u32) -> std::collections::BTreeMap<u128, usize> {
        let mut m = std::collections::BTreeMap::new();
        for i in ids {
            *m.entry(self.word(i, w)).or_insert(0) += 1;
        }
        m
    }
}

fn pool_word() -> impl Strategy<Value = u64> {
    prop_oneof![2 => Just(0u64), 1 => Just(u64::MAX), 4 => any::<u64>()]
}
fn pos() -> impl Strategy<Value = u8> {
    // A width divides 128 in every case, so 120..=127 is the top of every hash word.
    prop_oneof![2 => any::<u8>(), 2 => 118u8..128, 1 => 0u8..8]
}
fn bits() -> impl Strategy<Value = u8> {
    prop_oneof![3 => 0u8..4, 2 => any::<u8>(), 1 => Just(1u8)]
}
pub fn uni(max: usize) -> BoxedStrategy<Uni> {
    let small = max.clamp(2, 12);
    let named = prop_oneof![
        // full collisions, in one to three groups
        3 => (vec(pool_word(), 1..4), vec((any::<u8>(), Just(0u8), Just(0u8)), 1..=small)).prop_map(|(pool, keys)| Uni { pool, keys, wide: 0 }),
        // collisions mixed with divergence at any depth
        4 => (vec(pool_word(), 1..4), vec((any::<u8>(), pos(), prop_oneof![1 => Just(0u8), 1 => bits()]), 1..=max.min(24))).prop_map(|(pool, keys)| Uni { pool, keys, wide: 0 }),
        // divergence at one depth only: long shared prefixes
        2 => (vec(pool_word(), 1..3), pos(), vec((any::<u8>(), bits()), 1..=max.min(24))).prop_map(|(pool, p, ks)| Uni { pool, keys: ks.into_iter().map(|(a, b)| (a, p, b)).collect(), wide: 0 }),
        // one wide node, at any depth: more distinct chunks than any flag word has bits
        2 => (pool_word(), pos(), 20usize..=200).prop_map(|(w, p, n)| Uni { pool: vec![w], keys: (0..n).map(|i| (0, p, i as u8)).collect(), wide: 0 }),
        // small groups of equal hashes that diverge in one place
        3 => (pool_word(), pos(), vec(1usize..4, 2..6)).prop_map(|(w, p, g)| Uni { pool: vec![w], keys: g.into_iter().enumerate().flat_map(|(i, n)| vec![(0, p, i as u8); n]).collect(), wide: 0 }),
        // one long collision list, and a few keys beside it
        1 => (pool_word(), 8usize..=100, vec((Just(0u8), pos(), bits()), 0..4)).prop_map(|(w, n, mut keys)| { keys.extend((0..n).map(|_| (0, 0, 0))); Uni { pool: vec![w], keys, wide: 0 } }),
        // spread
        3 => (vec(any::<u64>(), 1..=max), vec((any::<u8>(), pos(), bits()), 1..=max)).prop_map(|(pool, keys)| Uni { pool, keys, wide: 0 }),
    ];
    // A crowd in which every level of the trie fills up.
    (named, prop_oneof![120 => Just(0u32), 1 => 0u32..600]).prop_map(|(u, wide)| Uni { wide, ..u }).boxed()
}

fn shape() -> impl Strategy<Value = Shape> {
    prop_oneof![2 => (2u8..8).prop_map(Shape::Shift), 1 => (1u8..128).prop_map(Shape::Cut), 1 => (0u8..64).prop_map(Shape::Only)]
}
pub fn op_table(kinds: &'static [u8], consts: &'static [u8]) -> BoxedStrategy<OpSpec> {
    use proptest::sample::select;
    // One dominant outcome per table makes all-unchanged, all-removed and mostly-x runs common.
    let dominated = (select(kinds), vec(any::<u8>(), 1..8)).prop_map(move |(d, v)| {
        OpSpec::Table(v.into_iter().map(|b| if b < 160 { d } else { kinds[b as usize % kinds.len()] }).collect())
    });
    prop_oneof![
        2 => select(consts).prop_map(OpSpec::Const),
        2 => vec(select(kinds), 1..8).prop_map(OpSpec::Table),
        2 => dominated,
        2 => (shape(), vec(select(kinds), 2..5)).prop_map(|(s, v)| OpSpec::Shaped(s, v)),
    ]
    .boxed()
}
pub const JOINT_KINDS: &[u8] = &[UNCH, LEFT, RIGHT, TRANS, REM];
pub const JOINT_CONSTS: &[u8] = &[UNCH, LEFT, RIGHT, REM];
pub const ONE_KINDS: &[u8] = &[UNCH, TRANS, REM];
pub const ONE_CONSTS: &[u8] = &[UNCH, REM];
pub fn joint_op() -> BoxedStrategy<OpSpec> {
    op_table(JOINT_KINDS, JOINT_CONSTS)
}
pub fn one_op() -> BoxedStrategy<OpSpec> {
    op_table(ONE_KINDS, ONE_CONSTS)
}
/// Transmutations know `TRANS` and `REM` only.
pub fn mute_op() -> BoxedStrategy<OpSpec> {
    op_table(&[TRANS, TRANS, REM], &[REM])
}

pub fn strat(par: bool) -> hash_trie::ParallelismStrategy {
    if par {
        hash_trie::ParallelismStrategy::MiddleIndex
    } else {
        hash_trie::ParallelismStrategy::Sequential
    }
}
