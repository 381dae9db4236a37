verus! {
/// repr/array.rs: ArrayIter<N>.
pub mod array_iter {
use super::*;
use super::repr::*;
use super::bits::*;
use super::piter::*;
use super::array::*;
broadcast use {word_number, word_bits};

@props C05 C15 C17
@item enumset/src/repr/array.rs | struct ArrayIter
impl<const N: usize> ArrayIter<N> {
    pub closed spec fn word(&self, j: int) -> u64 { self.data@[j].0 }
    pub closed spec fn left(&self) -> Seq<u64> { Seq::new(N as nat, |j: int| self.data@[j].0) }
@fn enumset/src/repr/array.rs | impl<const N: usize> ArrayIter<N> | new | path=ArrayIter::
@spec
requires ArrayRepr::<N>::ok(),
ensures r.inv(), forall|i: int| #[trigger] r.has(i) == array.has(i),
@loop 0 | for i in 0..N
    invariant
        forall|j: int| 0 <= j < it0.index() ==> #[trigger] new@[j].0 == array.0@[j],
@end
}
impl<const N: usize> Bits for ArrayIter<N> {
    closed spec fn has(&self, i: int) -> bool { dhas(self.data@, i) }
}
spec fn dhas2(d: Seq<PrimitiveIter<u64>>, i: int) -> bool { 0 <= i < 64 * d.len() && d[i / 64].has(i % 64) }
spec fn dhas(d: Seq<PrimitiveIter<u64>>, i: int) -> bool { 0 <= i < 64 * d.len() && d[i / 64].has(i % 64) }
pub proof fn sum_zero(s: Seq<u64>, a: int, b: int)
    requires 0 <= a <= b <= s.len(), forall|j: int| a <= j < b ==> #[trigger] s[j] == 0,
    ensures sum_card(s, b) == sum_card(s, a),
    decreases b - a
{
    if a < b {
        sum_zero(s, a, b - 1);
        assert(s[b - 1] == 0);
        iszero_u64(s[b - 1]);
        card_zero(s[b - 1], 64);
    }
}
pub proof fn sum_bound(s: Seq<u64>, n: int)
    requires 0 <= n <= s.len(),
    ensures sum_card(s, n) <= 64 * n,
    decreases n
{
    if n > 0 { sum_bound(s, n - 1); card_bound(s[n - 1], 64); }
}
impl<const N: usize> ArrayIter<N> {
    /// Words outside the window are used up.
    proof fn outside(&self)
        requires self.inv(),
        ensures forall|j: int| 0 <= j < N && (j < self.idx_f || j > self.idx_r) ==> #[trigger] self.left()[j] == 0,
    {
        assert forall|j: int| 0 <= j < N && (j < self.idx_f || j > self.idx_r) implies #[trigger] self.left()[j] == 0 by {
            iszero_u64(self.left()[j]);
            if self.left()[j] != 0 {
                let k = choose|k: int| #[trigger] self.left()[j].has(k);
                assert((64 * j + k) / 64 == j && (64 * j + k) % 64 == k);
                assert(self.has(64 * j + k));
            }
        }
    }
    proof fn count(&self)
        requires self.inv(),
        ensures
            sum_card(self.left(), self.idx_f as int) == 0,
            sum_card(self.left(), self.idx_r + 1) == card(*self, 64 * N),
            forall|n: int| 0 <= n <= N ==> #[trigger] sum_card(self.left(), n) <= 64 * n,
    {
        self.outside();
        sum_zero(self.left(), 0, self.idx_f as int);
        sum_zero(self.left(), self.idx_r + 1, N as int);
        assert forall|i: int| 0 <= i < 64 * N implies #[trigger] self.has(i) == wbit(self.left(), i) by {}
        card_words(*self, self.left(), N as int);
        assert forall|n: int| 0 <= n <= N implies #[trigger] sum_card(self.left(), n) <= 64 * n by { sum_bound(self.left(), n); }
    }
}
impl<const N: usize> BitIter for ArrayIter<N> {
    closed spec fn inv(&self) -> bool {
        ArrayRepr::<N>::ok() && self.idx_r < N && self.idx_f <= self.idx_r + 1
        && (forall|i: int| #[trigger] dhas(self.data@, i) ==> self.idx_f <= i / 64 <= self.idx_r)
        && (self.done ==> forall|i: int| !(#[trigger] dhas(self.data@, i)))
    }
    open spec fn span() -> nat { 64 * N as nat }
    proof fn laws(&self) {}
@fn enumset/src/repr/array.rs | impl<const N: usize> Iterator for ArrayIter<N> | next | path=ArrayIter::
@sig fn next(&mut self) -> Option<u32>
@rewrite maybe sig Self :: Item ==> u32
@loop 0 | while self.idx_f <= self.idx_r
    invariant self.inv(), !self.done, forall|i: int| #![trigger dhas(self.data@, i)] #![trigger dhas(old(self).data@, i)] dhas(self.data@, i) == dhas(old(self).data@, i),
    decreases self.idx_r + 1 - self.idx_f,
@in 0
let ghost d = self.data@;
assert(forall|e: Seq<PrimitiveIter<u64>>, i: int| #[trigger] dhas(e, i) ==> dhas(d, i) == dhas2(d, i));   // look at bit i before the step, too
@end
@fn enumset/src/repr/array.rs | impl<const N: usize> DoubleEndedIterator for ArrayIter<N> | next_back | path=ArrayIter::
@sig fn next_back(&mut self) -> Option<u32>
@rewrite maybe sig Self :: Item ==> u32
@loop 0 | while self.idx_f <= self.idx_r
    invariant self.inv(), !self.done, forall|i: int| #![trigger dhas(self.data@, i)] #![trigger dhas(old(self).data@, i)] dhas(self.data@, i) == dhas(old(self).data@, i),
    decreases self.idx_r,
@in 0
let ghost d = self.data@;
assert(forall|e: Seq<PrimitiveIter<u64>>, i: int| #[trigger] dhas(e, i) ==> dhas(d, i) == dhas2(d, i));   // look at bit i before the step, too
@end
@fn enumset/src/repr/array.rs | impl<const N: usize> Iterator for ArrayIter<N> | size_hint | path=ArrayIter::
@sig fn size_hint(&self) -> (usize, Option<usize>)
@pre
proof { self.count(); }
@loop 0 | for i in self.idx_f..self.idx_r + 1
    invariant sum == sum_card(self.left(), self.idx_f + it0.index()),
@in 0
proof { assert(self.left()[i as int] == self.data@[i as int].0); card_bound(self.left()[i as int], 64); }
@end
}
impl<const N: usize> ReprIter for ArrayRepr<N> {
    type Iter = ArrayIter<N>;
@fn enumset/src/repr/array.rs | impl<const N: usize> EnumSetTypeRepr for ArrayRepr<N> | iter | path=ArrayRepr::
@end
}
}
}
