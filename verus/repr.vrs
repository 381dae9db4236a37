// The storage contracts: what every EnumSetTypeRepr implementation owes EnumSet.
#![feature(allocator_api)]
#![verifier::loop_isolation(false)]
#![allow(unused, dead_code, non_snake_case, deprecated)]
use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::bits::*;
use vstd::array::*;
use vstd::slice::*;
use core::ops::*;
use core::cmp::Ordering;
verus! {
global size_of usize == 8;

pub mod repr {
use super::*;

pub mod base {
use super::*;
/// The view every contract is written in: which bits are set.
pub trait Bits: Sized {
    spec fn has(&self, i: int) -> bool;
}
@for t w in (u8,8) (u16,16) (u32,32) (u64,64) (u128,128)
impl Bits for %t% {
    open spec fn has(&self, i: int) -> bool { 0 <= i < %w% && (*self >> (i as %t%)) & 1 == 1 }
}
@endfor
impl Bits for usize {
    open spec fn has(&self, i: int) -> bool { (*self as u64).has(i) }
}
/// Bit i of a sequence of words: bit i % 64 of word i / 64.
pub open spec fn wbit(s: Seq<u64>, i: int) -> bool {
    0 <= i < 64 * s.len() && s[i / 64].has(i % 64)
}
/// How many bits below n are set.
pub open spec fn card<R: Bits>(r: R, n: int) -> nat
    decreases n
{
    if n <= 0 { 0 } else { card(r, n - 1) + if r.has(n - 1) { 1nat } else { 0nat } }
}
pub open spec fn is_single<R: Bits>(s: R, i: int) -> bool {
    forall|j: int| #[trigger] s.has(j) == (j == i)
}
pub proof fn card_ext<R: Bits>(a: R, b: R, n: int)
    requires forall|i: int| 0 <= i < n ==> a.has(i) == b.has(i),
    ensures card(a, n) == card(b, n),
    decreases n
{
    if n > 0 { card_ext(a, b, n - 1); }
}
pub proof fn card_bound<R: Bits>(a: R, n: int)
    ensures card(a, n) <= if n <= 0 { 0 } else { n },
    decreases n
{
    if n > 0 { card_bound(a, n - 1); }
}
pub proof fn card_two<R: Bits>(a: R, n: int, i: int, j: int)
    requires 0 <= i < j < n, a.has(i), a.has(j),
    ensures card(a, n) >= 2,
    decreases n
{
    if j == n - 1 {
        card_zero(a, n - 1);
    } else {
        card_two(a, n - 1, i, j);
    }
}
pub proof fn card_single<R: Bits>(a: R, n: int, i: int)
    requires is_single(a, i), i >= 0,
    ensures card(a, n) == if i < n { 1nat } else { 0nat },
    decreases n
{
    if n > 0 { card_single(a, n - 1, i); assert(a.has(n - 1) == (n - 1 == i)); }
}
pub proof fn card_zero<R: Bits>(a: R, n: int)
    ensures card(a, n) == 0 <==> forall|i: int| 0 <= i < n ==> !a.has(i),
    decreases n
{
    if n > 0 {
        card_zero(a, n - 1);
        assert(a.has(n - 1) ==> card(a, n) > 0);
    }
}
}
pub use base::*;

/// repr/mod.rs
pub trait EnumSetTypeRepr: Bits + Copy + PartialEq + BitAnd<Output = Self> + BitOr<Output = Self> + BitXor<Output = Self> + Not<Output = Self> {
    spec fn width() -> nat;
    spec fn words() -> nat;
    spec fn empty() -> Self;
    /// What the representation needs of its own parameters (array lengths).
    spec fn ok() -> bool;
    proof fn laws()
        requires Self::ok(),
        ensures
            0 < Self::width() <= u32::MAX,
            Self::width() <= 64 * Self::words() < Self::width() + 64,
            forall|a: Self, i: int| #[trigger] a.has(i) ==> 0 <= i < Self::width(),
            forall|i: int| !(#[trigger] Self::empty().has(i)),
            <Self as BitAndSpec>::obeys_bitand_spec(),
            <Self as BitOrSpec>::obeys_bitor_spec(),
            <Self as BitXorSpec>::obeys_bitxor_spec(),
            <Self as NotSpec>::obeys_not_spec(),
            <Self as PartialEqSpec>::obeys_eq_spec(),
            forall|a: Self, b: Self| #[trigger] a.bitand_req(b),
            forall|a: Self, b: Self| #[trigger] a.bitor_req(b),
            forall|a: Self, b: Self| #[trigger] a.bitxor_req(b),
            forall|a: Self| #[trigger] a.not_req(),
            forall|a: Self, b: Self, i: int| #[trigger] a.bitand_spec(b).has(i) == (a.has(i) && b.has(i)),
            forall|a: Self, b: Self, i: int| #[trigger] a.bitor_spec(b).has(i) == (a.has(i) || b.has(i)),
            forall|a: Self, b: Self, i: int| #[trigger] a.bitxor_spec(b).has(i) == (a.has(i) != b.has(i)),
            forall|a: Self, i: int| #[trigger] a.not_spec().has(i) == (0 <= i < Self::width() && !a.has(i)),
            forall|a: Self, b: Self| #[trigger] a.eq_spec(&b) == (a == b),
    ;
    /// Two values with the same bits are the same value.
    proof fn ext(a: Self, b: Self)
        requires Self::ok(), forall|i: int| 0 <= i < Self::width() ==> #[trigger] a.has(i) == b.has(i),
        ensures a == b,
    ;
    /// Every one-bit value exists.
    proof fn single(i: int)
        requires Self::ok(), 0 <= i < Self::width(),
        ensures exists|s: Self| is_single(s, i),
    ;
    fn WIDTH() -> (r: u32)
        requires Self::ok(),
        ensures r == Self::width();
    fn EMPTY() -> (r: Self)
        requires Self::ok(),
        ensures r == Self::empty(), forall|i: int| !(#[trigger] r.has(i));
    fn PREFERRED_ARRAY_LEN() -> (r: usize)
        requires Self::ok(),
        ensures r == Self::words();
@props

@fn enumset/src/repr/mod.rs | trait EnumSetTypeRepr | is_empty
@spec
requires Self::ok(),
ensures r == (forall|i: int| !(#[trigger] self.has(i))),
@end
@fn enumset/src/repr/mod.rs | trait EnumSetTypeRepr | add_bit
@spec
requires Self::ok(), bit < Self::width(),
ensures forall|i: int| #[trigger] final(self).has(i) == (old(self).has(i) || i == bit),
@end
@fn enumset/src/repr/mod.rs | trait EnumSetTypeRepr | remove_bit
@spec
requires Self::ok(), bit < Self::width(),
ensures forall|i: int| #[trigger] final(self).has(i) == (old(self).has(i) && i != bit),
@end
@fn enumset/src/repr/mod.rs | trait EnumSetTypeRepr | has_bit
@spec
requires Self::ok(), bit < Self::width(),
ensures r == self.has(bit as int),
@end
@fn enumset/src/repr/mod.rs | trait EnumSetTypeRepr | count_ones
@spec
requires Self::ok(),
ensures r == card(*self, Self::width() as int),
@end
@fn enumset/src/repr/mod.rs | trait EnumSetTypeRepr | leading_zeros
@spec
requires Self::ok(),
ensures
    r <= Self::width(),
    r < Self::width() ==> self.has(Self::width() - 1 - r),
    forall|i: int| Self::width() - r <= i ==> !(#[trigger] self.has(i)),
@end
@fn enumset/src/repr/mod.rs | trait EnumSetTypeRepr | trailing_zeros
@spec
requires Self::ok(),
ensures
    r <= Self::width(),
    r < Self::width() ==> self.has(r as int),
    forall|i: int| i < r ==> !(#[trigger] self.has(i)),
@end
@fn enumset/src/repr/mod.rs | trait EnumSetTypeRepr | and_not
@spec
requires Self::ok(),
ensures forall|i: int| #![trigger r.has(i)] #![trigger self.has(i)] r.has(i) == (self.has(i) && !other.has(i)),
@end
@for t w in (u8,8) (u16,16) (u32,32) (u64,64) (u128,128)
@fn enumset/src/repr/mod.rs | trait EnumSetTypeRepr | from_%t%
@spec
requires Self::ok(),
ensures forall|i: int| #[trigger] r.has(i) == (v.has(i) && i < Self::width()),
@end
@fn enumset/src/repr/mod.rs | trait EnumSetTypeRepr | to_%t%
@spec
requires Self::ok(),
ensures forall|i: int| #[trigger] r.has(i) == (self.has(i) && i < %w%),
@end
@fn enumset/src/repr/mod.rs | trait EnumSetTypeRepr | from_%t%_opt
@spec
requires Self::ok(),
ensures
    r is Some <==> (forall|i: int| #[trigger] v.has(i) ==> i < Self::width()),
    r is Some ==> (forall|i: int| #![trigger r->0.has(i)] #![trigger v.has(i)] r->0.has(i) == v.has(i)),
@end
@fn enumset/src/repr/mod.rs | trait EnumSetTypeRepr | to_%t%_opt
@spec
requires Self::ok(),
ensures
    r is Some <==> (forall|i: int| #[trigger] self.has(i) ==> i < %w%),
    r is Some ==> (forall|i: int| #![trigger r->0.has(i)] #![trigger self.has(i)] r->0.has(i) == self.has(i)),
@end
@endfor
@fn enumset/src/repr/mod.rs | trait EnumSetTypeRepr | from_usize
@spec
requires Self::ok(),
ensures forall|i: int| #[trigger] r.has(i) == (v.has(i) && i < Self::width()),
@end
@fn enumset/src/repr/mod.rs | trait EnumSetTypeRepr | to_usize
@spec
requires Self::ok(),
ensures forall|i: int| #[trigger] r.has(i) == (self.has(i) && i < 64),
@end
@fn enumset/src/repr/mod.rs | trait EnumSetTypeRepr | from_usize_opt
@spec
requires Self::ok(),
ensures
    r is Some <==> (forall|i: int| #[trigger] v.has(i) ==> i < Self::width()),
    r is Some ==> (forall|i: int| #![trigger r->0.has(i)] #![trigger v.has(i)] r->0.has(i) == v.has(i)),
@end
@fn enumset/src/repr/mod.rs | trait EnumSetTypeRepr | to_usize_opt
@spec
requires Self::ok(),
ensures
    r is Some <==> (forall|i: int| #[trigger] self.has(i) ==> i < 64),
    r is Some ==> (forall|i: int| #![trigger r->0.has(i)] #![trigger self.has(i)] r->0.has(i) == self.has(i)),
@end
@fn enumset/src/repr/mod.rs | trait EnumSetTypeRepr | to_u64_array
@spec
ensures forall|i: int| #[trigger] wbit(r@, i) == (self.has(i) && i < 64 * O),
@end
@fn enumset/src/repr/mod.rs | trait EnumSetTypeRepr | to_u64_array_opt
@spec
ensures
    r is Some <==> (forall|i: int| #[trigger] self.has(i) ==> i < 64 * O),
    r is Some ==> (forall|i: int| #![trigger wbit(r->0@, i)] #![trigger self.has(i)] wbit(r->0@, i) == self.has(i)),
@end
@fn enumset/src/repr/mod.rs | trait EnumSetTypeRepr | from_u64_array
@spec
requires Self::ok(),
ensures forall|i: int| #[trigger] r.has(i) == (wbit(v@, i) && i < Self::width()),
@end
@fn enumset/src/repr/mod.rs | trait EnumSetTypeRepr | from_u64_array_opt
@spec
requires Self::ok(),
ensures
    r is Some <==> (forall|i: int| #[trigger] wbit(v@, i) ==> i < Self::width()),
    r is Some ==> (forall|i: int| #![trigger r->0.has(i)] #![trigger wbit(v@, i)] r->0.has(i) == wbit(v@, i)),
@end
@fn enumset/src/repr/mod.rs | trait EnumSetTypeRepr | to_u64_slice
@spec
requires Self::ok(),
ensures
    final(out)@.len() == old(out)@.len(),
    forall|i: int| #[trigger] wbit(final(out)@, i) == (self.has(i) && i < 64 * old(out)@.len()),
@end
@fn enumset/src/repr/mod.rs | trait EnumSetTypeRepr | to_u64_slice_opt
@spec
requires Self::ok(),
ensures
    final(out)@.len() == old(out)@.len(),
    r is Some <==> (forall|i: int| #[trigger] self.has(i) ==> i < 64 * old(out)@.len()),
    r is Some ==> (forall|i: int| #![trigger wbit(final(out)@, i)] #![trigger self.has(i)] wbit(final(out)@, i) == self.has(i)),
    r is None ==> final(out)@ == old(out)@,
@end
@fn enumset/src/repr/mod.rs | trait EnumSetTypeRepr | from_u64_slice
@spec
requires Self::ok(),
ensures forall|i: int| #[trigger] r.has(i) == (wbit(v@, i) && i < Self::width()),
@end
@fn enumset/src/repr/mod.rs | trait EnumSetTypeRepr | from_u64_slice_opt
@spec
requires Self::ok(),
ensures
    r is Some <==> (forall|i: int| #[trigger] wbit(v@, i) ==> i < Self::width()),
    r is Some ==> (forall|i: int| #![trigger r->0.has(i)] #![trigger wbit(v@, i)] r->0.has(i) == wbit(v@, i)),
@end
}
}
}
