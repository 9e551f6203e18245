//! Hash words and flag words of a program's own, as the library's public traits allow them: any
//! width, conversions that go through types of their own, and operators that insist on their
//! preconditions as the built-in integers do.
use crate::dict::Cfg;
use crate::probe::{Bits, Key};
use hash_trie::results::BitError;
use hash_trie::traits::*;
use std::convert::TryFrom;
use std::ops::{BitAnd, Shr};

/// `N` bits.  They are kept elsewhere: the word's size says nothing about how many there are.
#[derive(Clone, Debug, PartialEq)]
pub struct Word<const N: usize>(Box<Bits256>);
#[derive(Clone, Debug, PartialEq)]
struct Bits256 {
    low: u128,
    high: u128,
}
/// What is left of a word after a shift.
pub struct Shifted<const N: usize>(Word<N>);
/// The lowest bits of a word.
#[derive(Debug)]
pub struct Picked(u128);
/// What a flag word says to bits it has no place for.
#[derive(Debug)]
pub struct TooLarge;

impl<const N: usize> Word<N> {
    fn new(low: u128, high: u128) -> Self {
        Word(Box::new(Bits256 { low, high }))
    }
    /// For a key's hash. Words wider than that have it at both ends, with a gap between.
    pub fn of(h: u128) -> Self {
        if N >= 128 {
            let top = h >> 64 << 64;
            Word::new(if N > 128 { h ^ top } else { h }, if N > 128 { top >> (256 - N) } else { 0 })
        } else {
            Word::new(h & ((1 << N) - 1), 0)
        }
    }
}
impl<const N: usize> BitAnd for Word<N> {
    type Output = Picked;
    fn bitand(self, mask: Self) -> Picked {
        assert!(mask.0.high == 0, "a mask takes the lowest bits only");
        Picked(self.0.low & mask.0.low)
    }
}
impl<const N: usize> Shr<usize> for Word<N> {
    type Output = Shifted<N>;
    fn shr(self, n: usize) -> Shifted<N> {
        assert!(n < N, "attempt to shift a word of {N} bits by {n}");
        Shifted(match n {
            0 => self,
            1..=127 => Word::new(self.0.low >> n | self.0.high << (128 - n), self.0.high >> n),
            _ => Word::new(self.0.high >> (n - 128), 0),
        })
    }
}
impl<const N: usize> From<Shifted<N>> for Word<N> {
    fn from(s: Shifted<N>) -> Self {
        s.0
    }
}
/// Where a built-in flag word makes its mask of such a word.
impl<const N: usize> From<u16> for Word<N> {
    fn from(n: u16) -> Self {
        Word::new(n as u128, 0)
    }
}
impl<const N: usize> MaxOnes for Word<N> {
    fn max_ones() -> usize {
        N
    }
}
impl<const N: usize, const T: u8> HasherBv<Word<N>, Key<T>> for Bits {
    fn hash(&self, k: &Key<T>) -> Word<N> {
        Word::of(HasherBv::<u128, Key<T>>::hash(self, k))
    }
}

/// A set of up to 2^L children, kept elsewhere as well.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Few<const L: usize>(Box<u128>);
impl<const L: usize> Few<L> {
    fn one(bit: &Self) -> Result<(), BitError> {
        if bit.0.count_ones() == 1 {
            Ok(())
        } else {
            Err(BitError::CountNotEqualToOne)
        }
    }
}
impl<const L: usize> AsUsize for Few<L> {
    fn as_usize(&self) -> usize {
        *self.0 as usize
    }
}
impl<const L: usize> BitContains for Few<L> {
    fn bit_contains(&self, bit: Self) -> Result<bool, BitError> {
        Self::one(&bit)?;
        Ok(*self.0 & *bit.0 != 0)
    }
}
impl<const L: usize> BitIndex for Few<L> {
    fn bit_index(&self, bit: Self) -> Result<usize, BitError> {
        Self::one(&bit)?;
        if *self.0 & *bit.0 == 0 {
            return Err(BitError::NotFound);
        }
        Ok((*self.0 & (*bit.0 - 1)).count_ones() as usize)
    }
}
impl<const L: usize> BitInsert for Few<L> {
    fn bit_insert(&self, bit: Self) -> Result<Self, BitError> {
        Self::one(&bit)?;
        self.bit_merge(bit)
    }
}
impl<const L: usize> BitMerge for Few<L> {
    fn bit_merge(&self, bits: Self) -> Result<Self, BitError> {
        if *self.0 & *bits.0 != 0 {
            return Err(BitError::Found);
        }
        Ok(Few(Box::new(*self.0 | *bits.0)))
    }
}
impl<const L: usize> BitRemove for Few<L> {
    fn bit_remove(&self, bit: Self) -> Result<Self, BitError> {
        Self::one(&bit)?;
        if *self.0 & *bit.0 == 0 {
            return Err(BitError::NotFound);
        }
        Ok(Few(Box::new(*self.0 ^ *bit.0)))
    }
}
impl<const L: usize> CountOnes for Few<L> {
    fn count_ones_t(&self) -> usize {
        self.0.count_ones() as usize
    }
}
impl<const L: usize> LogB for Few<L> {
    fn log_b() -> usize {
        L
    }
}
impl<const L: usize, H: From<u16>> MaskLogB<H> for Few<L> {
    fn mask_log_b() -> H {
        ((1u16 << L) - 1).into()
    }
}
impl<const L: usize> MaxOnes for Few<L> {
    fn max_ones() -> usize {
        1 << L
    }
}
impl<const L: usize> NthBit for Few<L> {
    fn nth_bit(n: usize) -> Result<Self, BitError> {
        if n >= 1 << L {
            return Err(BitError::Range);
        }
        Ok(Few(Box::new(1 << n)))
    }
}
macro_rules! picked {
    ($($t:ty),*) => { $( impl<const L: usize> TryFrom<$t> for Few<L> {
        type Error = TooLarge;
        fn try_from(n: $t) -> Result<Self, TooLarge> {
            let n = n as u128;
            if L < 7 && n >> (1 << L) != 0 { Err(TooLarge) } else { Ok(Few(Box::new(n))) }
        }
    } )* };
}
picked!(u16, u32, u64, usize);
impl<const L: usize> TryFrom<Picked> for Few<L> {
    type Error = TooLarge;
    fn try_from(p: Picked) -> Result<Self, TooLarge> {
        if L < 7 && p.0 >> (1 << L) != 0 {
            Err(TooLarge)
        } else {
            Ok(Few(Box::new(p.0)))
        }
    }
}
macro_rules! into_flags {
    ($($t:ty),*) => { $( impl TryFrom<Picked> for $t {
        type Error = TooLarge;
        fn try_from(p: Picked) -> Result<Self, TooLarge> {
            <$t>::try_from(p.0).map_err(|_| TooLarge)
        }
    } )* };
}
into_flags!(u32, u64);

macro_rules! own {
    ($($n:ident $h:ty, $f:ty;)*) => { $(
        pub struct $n;
        impl Cfg for $n {
            type H = $h; type F = $f; type M = Bits;
            type E = <$f as TryFrom<<$h as BitAnd>::Output>>::Error;
            const NAME: &'static str = concat!(stringify!($h), "/", stringify!($f));
        }
    )* };
}
own! {
    W1F2 Word<1>, Few<1>;
    W7F8 Word<7>, Few<3>;
    W13F128 Word<13>, Few<7>;
    W24F4 Word<24>, Few<2>;
    W37F32 Word<37>, u32;
    W60F64 Word<60>, u64;
    W40F2 Word<40>, Few<1>;
    W256F32 Word<256>, Few<5>;
    W200F16 Word<200>, Few<4>;
    U64F4 u64, Few<2>;
    U16F32 u16, Few<5>;
}
pub const N_OWN: u8 = 11;
#[macro_export]
macro_rules! with_own {
    ($i:expr, $C:ident => $e:expr) => {
        match $i % $crate::words::N_OWN {
            0 => { type $C = $crate::words::W1F2; $e }
            1 => { type $C = $crate::words::W7F8; $e }
            2 => { type $C = $crate::words::W13F128; $e }
            3 => { type $C = $crate::words::W24F4; $e }
            4 => { type $C = $crate::words::W37F32; $e }
            5 => { type $C = $crate::words::W60F64; $e }
            6 => { type $C = $crate::words::W40F2; $e }
            7 => { type $C = $crate::words::W256F32; $e }
            8 => { type $C = $crate::words::W200F16; $e }
            9 => { type $C = $crate::words::U64F4; $e }
            _ => { type $C = $crate::words::U16F32; $e }
        }
    };
}
pub const N_OWN_FEW: u8 = 5;
#[macro_export]
macro_rules! with_own_few {
    ($i:expr, $C:ident => $e:expr) => {
        match $i % $crate::words::N_OWN_FEW {
            0 => { type $C = $crate::words::W24F4; $e }
            1 => { type $C = $crate::words::W7F8; $e }
            2 => { type $C = $crate::words::W13F128; $e }
            3 => { type $C = $crate::words::W40F2; $e }
            _ => { type $C = $crate::words::W256F32; $e }
        }
    };
}
