//! What the Verus layer assumes of `core`'s bit counting, stated there as recursive specifications over
//! single bits. Here the same statements are contracts on `core` itself.
use crate::nd::*;
pub use core::primitive::{u128, u16, u32, u64, u8};

pub trait Word: Nd {
    const BITS: u32;
    fn bit(self, i: u32) -> bool;
    fn ones(self) -> u32;
    fn leading(self) -> u32;
    fn trailing(self) -> u32;
    /// The lowest `i` bits.
    fn low(self, i: u32) -> Self;
    fn zero() -> Self;
}
macro_rules! word { ($($t:ident)*) => {$(
    impl Word for $t {
        const BITS: u32 = $t::BITS;
        fn bit(self, i: u32) -> bool { self >> i & 1 == 1 }
        fn ones(self) -> u32 { self.count_ones() }
        fn leading(self) -> u32 { self.leading_zeros() }
        fn trailing(self) -> u32 { self.trailing_zeros() }
        fn low(self, i: u32) -> Self { if i >= Self::BITS { self } else { self & ((1 as $t) << i).wrapping_sub(1) } }
        fn zero() -> Self { 0 }
    }
)*} }
word! { u8 u16 u32 u64 u128 }

/// `card(x, n) = card(x, n - 1) + has(n - 1)`, `card(x, 0) = 0`, `count_ones(x) = card(x, BITS)`.
pub fn ones<T: Word>() {
    let x: T = any();
    let i = any::<u8>() as u32;
    requires!(i < T::BITS);
    reach!(x.bit(i));
    ensures!(T::zero().ones() == 0 && x.low(0).ones() == 0, "no bits, none counted");
    ensures!(x.low(i + 1).ones() == x.low(i).ones() + x.bit(i) as u32, "one more bit counts once if set");
    ensures!(x.low(T::BITS).ones() == x.ones(), "all bits");
}
pub fn zeros<T: Word>() {
    let x: T = any();
    let i = any::<u8>() as u32;
    requires!(i < T::BITS);
    let (l, t) = (x.leading(), x.trailing());
    reach!(l > 0 && t > 0 && x.bit(i));
    ensures!(l <= T::BITS && t <= T::BITS, "at most the width");
    ensures!(l == T::BITS || x.bit(T::BITS - 1 - l), "the bit below the leading zeros is set");
    ensures!(i < T::BITS - l || !x.bit(i), "leading zeros are zero");
    ensures!(t == T::BITS || x.bit(t), "the bit above the trailing zeros is set");
    ensures!(i >= t || !x.bit(i), "trailing zeros are zero");
}

/// Arrays of `N` words, as the contracts on the derived `==`, `cmp` and `hash` of `ArrayRepr` use them.
pub trait Words: Copy + Eq + Ord + core::hash::Hash {
    const LEN: usize;
    fn draw() -> Self;
    fn near(&self) -> Self;
    fn word(&self, i: usize) -> u64;
}
macro_rules! words { ($($n:ident = $k:literal)*) => {$(
    pub type $n = [u64; $k];
    impl Words for $n {
        const LEN: usize = $k;
        fn draw() -> Self { let mut a = [0; $k]; let mut i = 0; while i < $k { a[i] = any(); i += 1; } a }
        fn near(&self) -> Self { let mut a = *self; let mut i = 0; while i < $k { if bool_() { a[i] = any(); } i += 1; } a }
        fn word(&self, i: usize) -> u64 { self[i] }
    }
)*} }
words! { W1 = 1 W2 = 2 W3 = 3 W4 = 4 }
pub fn arrays<A: Words>() {
    let a = A::draw();
    let b = a.near();
    let mut first = 0;
    while first < A::LEN && a.word(first) == b.word(first) { first += 1; }
    reach!(first + 1 == A::LEN);
    ensures!((a == b) == (first == A::LEN) && (a != b) == (first < A::LEN), "equal iff every word is");
    let o = if first == A::LEN { core::cmp::Ordering::Equal } else { a.word(first).cmp(&b.word(first)) };
    ensures!(a.cmp(&b) == o && a.partial_cmp(&b) == Some(o), "ordered by the first word that differs");
}
