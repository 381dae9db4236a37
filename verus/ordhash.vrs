verus! {
/// set.rs: Ord, PartialOrd, Hash.
pub mod ordhash {
use super::*;
use super::repr::*;
use super::piter::*;
use super::array::*;
use super::ty::*;
use super::set::{EnumSet, repr_has, set_ext};
/// What the storages' own (primitive or derived) comparison and hashing give.
pub trait ReprOrd: ReprIter {
    spec fn order(a: Self, b: Self) -> Ordering;
    spec fn fed(self) -> Seq<u8>;
    proof fn order_laws(a: Self, b: Self, c: Self)
        ensures
            (Self::order(a, b) is Equal) == (a == b),
            (Self::order(a, b) is Less) == (Self::order(b, a) is Greater),
            Self::order(a, b) is Less && Self::order(b, c) is Less ==> Self::order(a, c) is Less;
    fn cmp(&self, other: &Self) -> (r: Ordering)
        ensures r == Self::order(*self, *other);
    fn partial_cmp(&self, other: &Self) -> (r: Option<Ordering>)
        ensures r == Some(Self::order(*self, *other));
    fn hash<H: Hasher>(&self, state: &mut H)
        ensures final(state).got() == old(state).got() + self.fed();
}
pub trait Hasher: Sized { spec fn got(&self) -> Seq<u8>; }
pub open spec fn u64_order(a: u64, b: u64) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
@for t in (u8) (u16) (u32) (u64) (u128)
pub uninterp spec fn %t%_fed(x: %t%) -> Seq<u8>;
impl ReprOrd for %t% {
    open spec fn order(a: Self, b: Self) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
    open spec fn fed(self) -> Seq<u8> { %t%_fed(self) }
    proof fn order_laws(a: Self, b: Self, c: Self) {}
    fn cmp(&self, other: &Self) -> Ordering { Ord::cmp(self, other) }
    fn partial_cmp(&self, other: &Self) -> Option<Ordering> { PartialOrd::partial_cmp(self, other) }
    #[verifier::external_body]
    fn hash<H: Hasher>(&self, state: &mut H) { unimplemented!() }
}
@endfor
pub open spec fn lex(a: Seq<u64>, b: Seq<u64>, k: int) -> Ordering
    decreases a.len() - k
{
    if k < 0 || k >= a.len() { Ordering::Equal } else if a[k] != b[k] { u64_order(a[k], b[k]) } else { lex(a, b, k + 1) }
}
proof fn lex_laws(a: Seq<u64>, b: Seq<u64>, c: Seq<u64>, k: int)
    requires a.len() == b.len(), b.len() == c.len(), 0 <= k <= a.len(),
    ensures
        (lex(a, b, k) is Equal) == (forall|j: int| k <= j < a.len() ==> a[j] == b[j]),
        (lex(a, b, k) is Less) == (lex(b, a, k) is Greater),
        lex(a, b, k) is Less && lex(b, c, k) is Less ==> lex(a, c, k) is Less,
    decreases a.len() - k
{
    if k < a.len() {
        lex_laws(a, b, c, k + 1);
        lex_laws(a, c, b, k + 1);
        lex_laws(b, c, a, k + 1);
        if a[k] == b[k] { assert((lex(a, b, k) is Equal) == (forall|j: int| k <= j < a.len() ==> a[j] == b[j])); }
    }
}
pub uninterp spec fn array_fed(x: Seq<u64>) -> Seq<u8>;
// Trusted: #[derive(PartialOrd, Ord, Hash)] on ArrayRepr compares and feeds the words in order.
@props C03
@check enumset/src/repr/array.rs | #[derive(Copy, Clone, Eq, PartialEq, Ord, PartialOrd, Debug, Hash)] pub struct ArrayRepr
impl<const N: usize> ReprOrd for ArrayRepr<N> {
    open spec fn order(a: Self, b: Self) -> Ordering { lex(a.0@, b.0@, 0) }
    open spec fn fed(self) -> Seq<u8> { array_fed(self.0@) }
    proof fn order_laws(a: Self, b: Self, c: Self) {
        lex_laws(a.0@, b.0@, c.0@, 0);
        if lex(a.0@, b.0@, 0) is Equal { assert(a.0@ =~= b.0@); assert(a.0 =~= b.0); }
    }
    #[verifier::external_body]
    fn cmp(&self, other: &Self) -> Ordering { unimplemented!() }
    #[verifier::external_body]
    fn partial_cmp(&self, other: &Self) -> Option<Ordering> { unimplemented!() }
    #[verifier::external_body]
    fn hash<H: Hasher>(&self, state: &mut H) { unimplemented!() }
}
pub open spec fn set_order<T: EnumSetType>(a: EnumSet<T>, b: EnumSet<T>) -> Ordering where T::Repr: ReprOrd { T::Repr::order(a.__priv_repr, b.__priv_repr) }
impl<T: EnumSetType> EnumSet<T> where T::Repr: ReprOrd {
@fn enumset/src/set.rs | impl<T: EnumSetType> Ord for EnumSet<T> | cmp | pub | path=EnumSet::
@sig fn cmp(&self, other: &Self) -> Ordering
@spec
ensures r == set_order(*self, *other),
@end
@fn enumset/src/set.rs | impl<T: EnumSetType> PartialOrd for EnumSet<T> | partial_cmp | pub | path=EnumSet::
@sig fn partial_cmp(&self, other: &Self) -> Option<Ordering>
@spec
ensures r == Some(set_order(*self, *other)),
@end
@fn enumset/src/set.rs | impl<T: EnumSetType> Hash for EnumSet<T> | hash | pub | path=EnumSet::
@sig fn hash<H: Hasher>(&self, state: &mut H)
@spec
ensures final(state).got() == old(state).got() + self.__priv_repr.fed(),
@end
}
@only enumset/src/set.rs | impl<T: EnumSetType> Ord for EnumSet<T> | cmp
@only enumset/src/set.rs | impl<T: EnumSetType> PartialOrd for EnumSet<T> | partial_cmp
@only enumset/src/set.rs | impl<T: EnumSetType> Hash for EnumSet<T> | hash
@only enumset/src/set.rs | impl<T: EnumSetType> PartialEq<T> for EnumSet<T> | eq
/// The order is total, agrees with membership equality, and equal sets feed a hasher the same bytes.
pub proof fn order_is_total<T: EnumSetType>(a: EnumSet<T>, b: EnumSet<T>, c: EnumSet<T>)
    where T::Repr: ReprOrd
    ensures
        (set_order(a, b) is Equal) == (forall|i: int| #[trigger] a.has(i) == b.has(i)),
        (set_order(a, b) is Less) == (set_order(b, a) is Greater),
        set_order(a, b) is Less && set_order(b, c) is Less ==> set_order(a, c) is Less,
        (forall|i: int| #[trigger] a.has(i) == b.has(i)) ==> a.__priv_repr.fed() == b.__priv_repr.fed(),
{
    T::Repr::order_laws(a.__priv_repr, b.__priv_repr, c.__priv_repr);
    if forall|i: int| #[trigger] a.has(i) == b.has(i) { set_ext(a, b); }
}
}
}
