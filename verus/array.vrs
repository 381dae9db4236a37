verus! {
/// repr/array.rs: ArrayRepr<N> for every N.
pub mod array {
use super::*;
use super::repr::*;
use super::bits::*;
use super::piter::*;
broadcast use {bit_facts, word_number, word_bits};

@props C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C16
@item enumset/src/repr/array.rs | struct ArrayRepr
impl<const N: usize> Bits for ArrayRepr<N> {
    open spec fn has(&self, i: int) -> bool { wbit(self.0@, i) }
}
// Trusted: == on arrays of integers compares the words (core). The derived impls are the text given by the language.
@check enumset/src/repr/array.rs | #[derive(Copy, Clone, Eq, PartialEq, Ord, PartialOrd, Debug, Hash)] pub struct ArrayRepr
impl<const N: usize> Copy for ArrayRepr<N> {}
impl<const N: usize> Clone for ArrayRepr<N> {
    fn clone(&self) -> (r: Self) ensures r == *self { *self }
}
impl<const N: usize> PartialEqSpecImpl for ArrayRepr<N> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
impl<const N: usize> PartialEq for ArrayRepr<N> {
    #[verifier::external_body]
    fn eq(&self, o: &Self) -> bool { self.0 == o.0 }
}
// Trusted: an array of N words exists for every sequence of N words.
pub axiom fn array_of<const N: usize>(s: Seq<u64>)
    requires s.len() == N,
    ensures exists|a: [u64; N]| #[trigger] a@ == s;

pub proof fn array_ext<const N: usize>(a: ArrayRepr<N>, b: ArrayRepr<N>)
    requires forall|i: int| 0 <= i < 64 * N ==> #[trigger] a.has(i) == b.has(i),
    ensures a == b,
{
    assert forall|w: int| 0 <= w < N implies a.0@[w] == b.0@[w] by {
        word_at(a.0@, w);
        word_at(b.0@, w);
        assert forall|k: int| 0 <= k < 64 implies #[trigger] a.0@[w].has(k) == b.0@[w].has(k) by {
            assert(a.has(64 * w + k) == b.has(64 * w + k));
        }
        ext_u64(a.0@[w], b.0@[w]);
    }
    assert(a.0@ =~= b.0@);
    assert(a.0 =~= b.0);
}
@for op OP sym in (and,BitAnd,&) (or,BitOr,|) (xor,BitXor,^)
pub open spec fn is_%op%<const N: usize>(a: ArrayRepr<N>, b: ArrayRepr<N>, r: ArrayRepr<N>) -> bool {
    forall|j: int| 0 <= j < N ==> #[trigger] r.0@[j] == a.0@[j] %sym% b.0@[j]
}
pub proof fn words_%op%<const N: usize>(a: ArrayRepr<N>, b: ArrayRepr<N>)
    ensures exists|r: ArrayRepr<N>| is_%op%(a, b, r), forall|r: ArrayRepr<N>, s: ArrayRepr<N>| is_%op%(a, b, r) && is_%op%(a, b, s) ==> r == s,
{
    let s = Seq::new(N as nat, |j: int| a.0@[j] %sym% b.0@[j]);
    array_of::<N>(s);
    let x = choose|x: [u64; N]| x@ == s;
    assert(is_%op%(a, b, ArrayRepr(x)));
    assert forall|r: ArrayRepr<N>, s: ArrayRepr<N>| is_%op%(a, b, r) && is_%op%(a, b, s) implies r == s by {
        assert forall|j: int| 0 <= j < N implies r.0@[j] == s.0@[j] by {}
        assert(r.0@ =~= s.0@);
        assert(r.0 =~= s.0);
    }
}
impl<const N: usize> %OP%SpecImpl for ArrayRepr<N> {
    open spec fn obeys_bit%op%_spec() -> bool { true }
    open spec fn bit%op%_req(self, rhs: Self) -> bool { true }
    open spec fn bit%op%_spec(self, rhs: Self) -> Self { choose|r: Self| is_%op%(self, rhs, r) }
}
impl<const N: usize> %OP% for ArrayRepr<N> {
    type Output = Self;
@fn enumset/src/repr/array.rs | impl<const N: usize> %OP% for ArrayRepr<N> | bit%op% | path=ArrayRepr::
@sig fn bit%op%(self, rhs: Self) -> Self::Output
@loop 0 | for i in 0..N
    invariant
        forall|j: int| 0 <= j < it0.index() ==> #[trigger] self_.0@[j] == self.0@[j] %sym% rhs.0@[j],
        forall|j: int| it0.index() <= j < N ==> #[trigger] self_.0@[j] == self.0@[j],
@post 0
proof { words_%op%(self, rhs); assert(is_%op%(self, rhs, self_)); }
@end
}
@endfor
pub open spec fn is_not<const N: usize>(a: ArrayRepr<N>, r: ArrayRepr<N>) -> bool {
    forall|j: int| 0 <= j < N ==> #[trigger] r.0@[j] == !a.0@[j]
}
pub proof fn words_not<const N: usize>(a: ArrayRepr<N>)
    ensures exists|r: ArrayRepr<N>| is_not(a, r), forall|r: ArrayRepr<N>, s: ArrayRepr<N>| is_not(a, r) && is_not(a, s) ==> r == s,
{
    let s = Seq::new(N as nat, |j: int| !a.0@[j]);
    array_of::<N>(s);
    let x = choose|x: [u64; N]| x@ == s;
    assert(is_not(a, ArrayRepr(x)));
    assert forall|r: ArrayRepr<N>, s: ArrayRepr<N>| is_not(a, r) && is_not(a, s) implies r == s by {
        assert forall|j: int| 0 <= j < N implies r.0@[j] == s.0@[j] by {}
        assert(r.0@ =~= s.0@);
        assert(r.0 =~= s.0);
    }
}
impl<const N: usize> NotSpecImpl for ArrayRepr<N> {
    open spec fn obeys_not_spec() -> bool { true }
    open spec fn not_req(self) -> bool { true }
    open spec fn not_spec(self) -> Self { choose|r: Self| is_not(self, r) }
}
impl<const N: usize> Not for ArrayRepr<N> {
    type Output = Self;
@fn enumset/src/repr/array.rs | impl<const N: usize> Not for ArrayRepr<N> | not | path=ArrayRepr::
@sig fn not(self) -> Self::Output
@loop 0 | for i in 0..N
    invariant
        forall|j: int| 0 <= j < it0.index() ==> #[trigger] self_.0@[j] == !self.0@[j],
        forall|j: int| it0.index() <= j < N ==> #[trigger] self_.0@[j] == self.0@[j],
@post 0
proof { words_not(self); assert(is_not(self, self_)); }
@end
}
/// What an update of one word does to the bits.
pub proof fn word_set(a: Seq<u64>, b: Seq<u64>, w: int)
    requires a.len() == b.len(), 0 <= w < a.len(), forall|j: int| 0 <= j < a.len() && j != w ==> #[trigger] b[j] == a[j],
    ensures
        forall|i: int| #![trigger wbit(b, i)] i / 64 != w ==> wbit(b, i) == wbit(a, i),
        forall|i: int| #![trigger wbit(b, i)] i / 64 == w ==> wbit(b, i) == b[w].has(i % 64),
{}
pub proof fn zero_words(s: Seq<u64>, lo: int, hi: int)
    requires 0 <= lo, hi <= s.len(), forall|j: int| lo <= j < hi ==> #[trigger] s[j] == 0,
    ensures forall|i: int| 64 * lo <= i < 64 * hi ==> !(#[trigger] wbit(s, i)),
{
    assert forall|i: int| 64 * lo <= i < 64 * hi implies !(#[trigger] wbit(s, i)) by {
        assert(s[i / 64] == 0);
        iszero_u64(s[i / 64]);
    }
}
pub proof fn prefix_words(a: Seq<u64>, b: Seq<u64>, n: int)
    requires 0 <= n <= a.len(), n <= b.len(), forall|j: int| 0 <= j < n ==> #[trigger] a[j] == b[j],
    ensures forall|i: int| 0 <= i < 64 * n ==> #[trigger] wbit(a, i) == wbit(b, i),
{
    assert forall|i: int| 0 <= i < 64 * n implies #[trigger] wbit(a, i) == wbit(b, i) by { assert(a[i / 64] == b[i / 64]); }
}
pub proof fn word_hit<const N: usize>(a: ArrayRepr<N>, w: int)
    requires 0 <= w < N, a.0@[w] != 0,
    ensures exists|i: int| #[trigger] a.has(i) && 64 * w <= i < 64 * w + 64,
{
    word_out(a.0@, w);
    let i = choose|i: int| #[trigger] wbit(a.0@, i) && 64 * w <= i < 64 * w + 64;
    assert(a.has(i));
}
/// r is x narrowed to w bits, None exactly when a bit would be lost.
pub open spec fn fits_opt<A: Bits, B: Bits>(x: A, r: Option<B>, w: int) -> bool {
    (r is Some <==> (forall|i: int| #[trigger] x.has(i) ==> i < w))
    && (r is Some ==> (forall|i: int| #![trigger r->0.has(i)] #![trigger x.has(i)] r->0.has(i) == x.has(i)))
}
pub open spec fn sum_card(s: Seq<u64>, n: int) -> nat
    decreases n
{
    if n <= 0 { 0 } else { sum_card(s, n - 1) + card(s[n - 1], 64) }
}
pub proof fn card_word<R: Bits>(a: R, w: u64, base: int, k: int)
    requires 0 <= k <= 64, base >= 0, forall|i: int| base <= i < base + 64 ==> #[trigger] a.has(i) == w.has(i - base),
    ensures card(a, base + k) == card(a, base) + card(w, k),
    decreases k
{
    if k > 0 {
        card_word(a, w, base, k - 1);
        assert(a.has(base + k - 1) == w.has(base + k - 1 - base));
    }
}
pub proof fn card_words<R: Bits>(a: R, s: Seq<u64>, n: int)
    requires 0 <= n <= s.len(), forall|i: int| 0 <= i < 64 * n ==> #[trigger] a.has(i) == wbit(s, i),
    ensures sum_card(s, n) == card(a, 64 * n),
    decreases n
{
    if n > 0 {
        card_words(a, s, n - 1);
        word_at(s, n - 1);
        let base = 64 * (n - 1);
        assert forall|i: int| base <= i < base + 64 implies #[trigger] a.has(i) == s[n - 1].has(i - base) by {
            assert(a.has(i) == wbit(s, i));
        }
        card_word(a, s[n - 1], base, 64);
    }
}
/// `s.iter().map(f).sum()`: the sum of f over the words.
fn sum_map<F: Fn(&u64) -> u32>(s: &[u64], f: F) -> (r: u32)
    requires
        64 * s@.len() <= u32::MAX,
        forall|x: &u64| #[trigger] f.requires((x,)),
        forall|x: &u64, y: u32| #[trigger] f.ensures((x,), y) ==> y == card(*x, 64),
    ensures r == sum_card(s@, s@.len() as int),
{
    let mut t: u32 = 0;
    for i in it: 0..s.len()
        invariant t == sum_card(s@, it.index() as int), t <= 64 * it.index(),
    {
        proof { card_bound(s@[i as int], 64); }
        t += f(&s[i]);
    }
    t
}

/// `s.iter().all(f)` for an f that tests a word against zero.
fn all_words<F: Fn(&u64) -> bool>(s: &[u64], f: F) -> (r: bool)
    requires
        forall|x: &u64| #[trigger] f.requires((x,)),
        forall|x: &u64, y: bool| #[trigger] f.ensures((x,), y) ==> y == (*x == 0),
    ensures r == (forall|j: int| 0 <= j < s@.len() ==> #[trigger] s@[j] == 0),
{
    for i in it: 0..s.len()
        invariant forall|j: int| 0 <= j < it.index() ==> #[trigger] s@[j] == 0,
    {
        if !f(&s[i]) { return false; }
    }
    true
}

impl<const N: usize> ArrayRepr<N> {
@fn enumset/src/repr/array.rs | impl<const N: usize> ArrayRepr<N> | split_bit | path=ArrayRepr::
@spec
ensures r.0 == bit as int / 64, r.1 == bit as int % 64,
@end
}
pub open spec fn is_zero<const N: usize>(r: ArrayRepr<N>) -> bool {
    forall|j: int| 0 <= j < N ==> #[trigger] r.0@[j] == 0
}
pub proof fn words_zero<const N: usize>()
    ensures exists|r: ArrayRepr<N>| is_zero(r), forall|r: ArrayRepr<N>, s: ArrayRepr<N>| is_zero(r) && is_zero(s) ==> r == s,
        forall|r: ArrayRepr<N>| is_zero(r) ==> forall|i: int| !(#[trigger] r.has(i)),
{
    let s = Seq::new(N as nat, |j: int| 0u64);
    array_of::<N>(s);
    let x = choose|x: [u64; N]| x@ == s;
    assert(is_zero(ArrayRepr(x)));
    assert forall|r: ArrayRepr<N>, s: ArrayRepr<N>| is_zero(r) && is_zero(s) implies r == s by {
        assert forall|j: int| 0 <= j < N implies r.0@[j] == s.0@[j] by {}
        assert(r.0@ =~= s.0@);
        assert(r.0 =~= s.0);
    }
    assert forall|r: ArrayRepr<N>| is_zero(r) implies forall|i: int| !(#[trigger] r.has(i)) by { zero_words(r.0@, 0, N as int); }
}
// (verus does not see the range axioms inside this trait impl: the body is checked as a method of its own)
impl<const N: usize> ArrayRepr<N> {
@fn enumset/src/repr/array.rs | impl<const N: usize> EnumSetTypeRepr for ArrayRepr<N> | leading_zeros | path=ArrayRepr:: | as=leading_zeros_
@spec
requires Self::ok(),
ensures
    r <= Self::width(),
    r < Self::width() ==> self.has(Self::width() - 1 - r),
    forall|i: int| Self::width() - r <= i ==> !(#[trigger] self.has(i)),
@loop 0 | for i in (0..N).rev()
    invariant
        accum == 64 * it0.index(),
        forall|j: int| N - it0.index() <= j < N ==> #[trigger] self.0@[j] == 0,
@in 0
proof { zero_words(self.0@, i + 1, N as int); zeros_u64(self.0@[i as int]); word_at(self.0@, i as int); }
@post 0
proof { words_zero::<N>(); assert(is_zero(*self)); }
@end
}
impl<const N: usize> EnumSetTypeRepr for ArrayRepr<N> {
    open spec fn width() -> nat { 64 * N as nat }
    open spec fn words() -> nat { N as nat }
    open spec fn empty() -> Self { choose|r: Self| is_zero(r) }
    open spec fn ok() -> bool { N > 0 && 64 * N <= u32::MAX }
    proof fn laws() {
        words_zero::<N>();
@for op OP e in (and,And,(a.has(i) && b.has(i))) (or,Or,(a.has(i) || b.has(i))) (xor,Xor,(a.has(i) != b.has(i)))
        assert forall|a: Self, b: Self, i: int| #[trigger] Bit%OP%Spec::bit%op%_spec(a, b).has(i) == %e% by {
            words_%op%(a, b);
            let r = Bit%OP%Spec::bit%op%_spec(a, b);
            assert(is_%op%(a, b, r));
            if 0 <= i < 64 * N { let j = i / 64; assert(r.0@[j] == r.0@[j]); ops_u64(a.0@[j], b.0@[j]); }
        }
@endfor
        assert forall|a: Self, i: int| #[trigger] NotSpec::not_spec(a).has(i) == (0 <= i < 64 * N && !a.has(i)) by {
            words_not(a);
            let r = NotSpec::not_spec(a);
            assert(is_not(a, r));
            if 0 <= i < 64 * N { let j = i / 64; assert(r.0@[j] == r.0@[j]); ops_u64(a.0@[j], a.0@[j]); }
        }
    }
    proof fn ext(a: Self, b: Self) { array_ext(a, b); }
    proof fn single(i: int) {
        let s = Seq::new(N as nat, |w: int| if w == i / 64 { 1u64 << ((i % 64) as u64) } else { 0u64 });
        array_of::<N>(s);
        let x = choose|x: [u64; N]| x@ == s;
        let r = ArrayRepr(x);
        one_u64(0, (i % 64) as u64);
        zero_u64();
        assert forall|j: int| #[trigger] r.has(j) == (j == i) by {
            if 0 <= j < 64 * N {
                let w = r.0@[j / 64];
                assert(w == s[j / 64]);
                if j / 64 == i / 64 { assert(w.has(j % 64) == (j % 64 == i % 64)); } else { iszero_u64(w); assert(!w.has(j % 64)); }
            }
        }
        assert(is_single(r, i));
    }
@const enumset/src/repr/array.rs | impl<const N: usize> EnumSetTypeRepr for ArrayRepr<N> | WIDTH | path=ArrayRepr::
@end
@const enumset/src/repr/array.rs | impl<const N: usize> EnumSetTypeRepr for ArrayRepr<N> | EMPTY | path=ArrayRepr::
@result
proof { words_zero::<N>(); assert(is_zero(res)); }
@end
@const enumset/src/repr/array.rs | impl<const N: usize> EnumSetTypeRepr for ArrayRepr<N> | PREFERRED_ARRAY_LEN | path=ArrayRepr::
@end
@fn enumset/src/repr/array.rs | impl<const N: usize> EnumSetTypeRepr for ArrayRepr<N> | is_empty | path=ArrayRepr::
@rewrite self.0.iter().all( ==> all_words(&self.0,
@closure 0 |x|
|x: &u64| -> (r: bool) ensures r == (*x == 0)
@result
proof {
    assert(res == is_zero(*self));
    if is_zero(*self) { words_zero::<N>(); }
    else {
        let j = choose|j: int| 0 <= j < N && #[trigger] self.0@[j] != 0;
        word_hit(*self, j);
    }
}
@end
@fn enumset/src/repr/array.rs | impl<const N: usize> EnumSetTypeRepr for ArrayRepr<N> | add_bit | path=ArrayRepr::
@end
@fn enumset/src/repr/array.rs | impl<const N: usize> EnumSetTypeRepr for ArrayRepr<N> | remove_bit | path=ArrayRepr::
@end
@fn enumset/src/repr/array.rs | impl<const N: usize> EnumSetTypeRepr for ArrayRepr<N> | has_bit | path=ArrayRepr::
@end
@fn enumset/src/repr/array.rs | impl<const N: usize> EnumSetTypeRepr for ArrayRepr<N> | count_ones | path=ArrayRepr::
@rewrite self.0.iter().map( ==> sum_map(&self.0,
@rewrite ).sum() ==> )
@closure 0 |x|
|x: &u64| -> (r: u32) ensures r == card(*x, 64)
@pre
proof { card_words(*self, self.0@, N as int); }
@end
// (no checked body: it stands for leading_zeros_, proved above against the same contract)
#[verifier::external_body]
fn leading_zeros(&self) -> (r: u32) { self.leading_zeros_() }
@fn enumset/src/repr/array.rs | impl<const N: usize> EnumSetTypeRepr for ArrayRepr<N> | trailing_zeros | path=ArrayRepr::
@loop 0 | for i in 0..N
    invariant
        accum == 64 * it0.index(),
        forall|j: int| 0 <= j < it0.index() ==> #[trigger] self.0@[j] == 0,
@in 0
proof { zero_words(self.0@, 0, i as int); zeros_u64(self.0@[i as int]); word_at(self.0@, i as int); }
@post 0
proof { words_zero::<N>(); assert(is_zero(*self)); }
@end
@fn enumset/src/repr/array.rs | impl<const N: usize> EnumSetTypeRepr for ArrayRepr<N> | and_not | path=ArrayRepr::
@prev 0
let ghost n0 = new.0@;
@loop 0 | for i in 0..N
    invariant
        forall|j: int, k: int| 0 <= j < it0.index() ==> #[trigger] new.0@[j].has(k) == (self.0@[j].has(k) && !other.0@[j].has(k)),
        forall|j: int| it0.index() <= j < N ==> #[trigger] new.0@[j] == n0[j],
@end
@for t w in (u8,8) (u16,16) (u32,32) (usize,64)
@fn enumset/src/repr/array.rs | impl<const N: usize> EnumSetTypeRepr for ArrayRepr<N> | from_%t% | path=ArrayRepr::
@pre
proof { cast_%t%_u64(v); }
@end
@endfor
@fn enumset/src/repr/array.rs | impl<const N: usize> EnumSetTypeRepr for ArrayRepr<N> | from_u64 | path=ArrayRepr::
@after new.0[0] = v;
proof { zero_words(new.0@, 1, N as int); words2(new.0@); }
@end
@fn enumset/src/repr/array.rs | impl<const N: usize> EnumSetTypeRepr for ArrayRepr<N> | from_u128 | path=ArrayRepr::
@tail
proof {
    cast_u128_u64(v);
    cast_u128_u64(v >> 64);
    zero_words(new.0@, 2, N as int);
    words2(new.0@);
    high_u128(v);
}
@end
@for t w in (u8,8) (u16,16) (u32,32) (u64,64) (u128,128) (usize,64)
@fn enumset/src/repr/array.rs | impl<const N: usize> EnumSetTypeRepr for ArrayRepr<N> | from_%t%_opt | path=ArrayRepr::
@pre
proof { high_u128(v as u128); }
@end
@fn enumset/src/repr/array.rs | impl<const N: usize> EnumSetTypeRepr for ArrayRepr<N> | to_%t% | path=ArrayRepr::
@pre
proof { words2(self.0@); cast_u64_u128(self.0@[0]); if N > 1 { join(self.0@[0], self.0@[1]); } else { let z: u128 = 0; ops_u128(self.0@[0] as u128, z); iszero_u128(z); } }
@end
@endfor
@for t w in (u8,8) (u16,16) (u32,32) (usize,64)
@fn enumset/src/repr/array.rs | impl<const N: usize> EnumSetTypeRepr for ArrayRepr<N> | to_%t%_opt | path=ArrayRepr::
@closure 0 |x|
|x: u64| -> (r: Option<%t%>) ensures fits_opt(x, r, %w%)
@end
@endfor
@for t w n in (u64,64,1) (u128,128,2)
@fn enumset/src/repr/array.rs | impl<const N: usize> EnumSetTypeRepr for ArrayRepr<N> | to_%t%_opt | path=ArrayRepr::
@pre
proof { words2(self.0@); }
@loop 0 | for i in %n%..N
    invariant forall|j: int| %n% <= j < %n% + it0.index() ==> #[trigger] self.0@[j] == 0,
@in 0
proof { if self.0@[i as int] != 0 { word_hit(*self, i as int); } }
@post 0
proof { zero_words(self.0@, %n%, N as int); words2(self.0@); }
@end
@endfor
@fn enumset/src/repr/array.rs | impl<const N: usize> EnumSetTypeRepr for ArrayRepr<N> | to_u64_array | path=ArrayRepr::
@tail
proof {
    let n = if N < O { N as int } else { O as int };
    prefix_words(self.0@, array@, n);
    zero_words(array@, n, O as int);
}
@end
@fn enumset/src/repr/array.rs | impl<const N: usize> EnumSetTypeRepr for ArrayRepr<N> | to_u64_array_opt | path=ArrayRepr::
@loop 0 | for i in O..N
    invariant forall|j: int| O <= j < O + it0.index() ==> #[trigger] self.0@[j] == 0,
@in 0
proof { if self.0@[i as int] != 0 { word_hit(*self, i as int); } }
@post 0
proof { zero_words(self.0@, O as int, N as int); }
@end
@fn enumset/src/repr/array.rs | impl<const N: usize> EnumSetTypeRepr for ArrayRepr<N> | from_u64_array | path=ArrayRepr::
@end
@fn enumset/src/repr/array.rs | impl<const N: usize> EnumSetTypeRepr for ArrayRepr<N> | from_u64_array_opt | path=ArrayRepr::
@pre
proof { let a = ArrayRepr::<O>(v); assert forall|i: int| #[trigger] wbit(v@, i) == a.has(i) by {} }
@rewrite maybe .map(ArrayRepr) ==> .map(|x: [u64; N]| -> (r: ArrayRepr<N>) ensures r.0 == x { ArrayRepr(x) })
@end
@fn enumset/src/repr/array.rs | impl<const N: usize> EnumSetTypeRepr for ArrayRepr<N> | to_u64_slice | path=ArrayRepr::
@prev 0
let ghost out0 = out@;
@loop 0 | for i in copy_len..out.len()
    invariant
        out@.len() == old(out)@.len(),
        forall|j: int| 0 <= j < copy_len ==> #[trigger] out@[j] == out0[j],
        forall|j: int| copy_len <= j < copy_len + it0.index() ==> #[trigger] out@[j] == 0,
@tail
proof {
    let n = if N < out@.len() { N as int } else { out@.len() as int };
    prefix_words(self.0@, out@, n);
    zero_words(out@, n, out@.len() as int);
}
@end
@fn enumset/src/repr/array.rs | impl<const N: usize> EnumSetTypeRepr for ArrayRepr<N> | to_u64_slice_opt | path=ArrayRepr::
@loop 0 | for i in out.len()..N
    invariant forall|j: int| out@.len() <= j < out@.len() + it0.index() ==> #[trigger] self.0@[j] == 0,
@in 0
proof { if self.0@[i as int] != 0 { word_hit(*self, i as int); } }
@post 0
proof { zero_words(self.0@, out@.len() as int, N as int); }
@end
@fn enumset/src/repr/array.rs | impl<const N: usize> EnumSetTypeRepr for ArrayRepr<N> | from_u64_slice | path=ArrayRepr::
@tail
proof {
    let n = if N < v@.len() { N as int } else { v@.len() as int };
    prefix_words(new.0@, v@, n);
    zero_words(new.0@, n, N as int);
}
@end
@fn enumset/src/repr/array.rs | impl<const N: usize> EnumSetTypeRepr for ArrayRepr<N> | from_u64_slice_opt | path=ArrayRepr::
@loop 0 | for i in N..v.len()
    invariant forall|j: int| N <= j < N + it0.index() ==> #[trigger] v@[j] == 0,
@in 0
proof { if v@[i as int] != 0 { word_out(v@, i as int); } }
@post 0
proof { zero_words(v@, N as int, v@.len() as int); }
@end
}
}
}
