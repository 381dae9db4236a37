verus! {
pub mod piter {
use super::*;
use super::repr::*;
use super::bits::*;
/// Iterators over set bits, by their remaining bits. The methods are those of the `Iterator` and
/// `DoubleEndedIterator` impls of the repository.
pub trait BitIter: Bits {
    spec fn inv(&self) -> bool;
    spec fn span() -> nat;
    proof fn laws(&self)
        requires self.inv(),
        ensures Self::span() <= u32::MAX, forall|i: int| #[trigger] self.has(i) ==> 0 <= i < Self::span();
    fn next(&mut self) -> (r: Option<u32>)
        requires old(self).inv(),
        ensures
            final(self).inv(),
            match r {
                Some(x) => old(self).has(x as int)
                    && (forall|i: int| #[trigger] old(self).has(i) ==> x <= i)
                    && (forall|i: int| #[trigger] final(self).has(i) == (old(self).has(i) && i != x)),
                None => (forall|i: int| !(#[trigger] old(self).has(i))) && (forall|i: int| !(#[trigger] final(self).has(i))),
            };
    fn next_back(&mut self) -> (r: Option<u32>)
        requires old(self).inv(),
        ensures
            final(self).inv(),
            match r {
                Some(x) => old(self).has(x as int)
                    && (forall|i: int| #[trigger] old(self).has(i) ==> i <= x)
                    && (forall|i: int| #[trigger] final(self).has(i) == (old(self).has(i) && i != x)),
                None => (forall|i: int| !(#[trigger] old(self).has(i))) && (forall|i: int| !(#[trigger] final(self).has(i))),
            };
    fn size_hint(&self) -> (r: (usize, Option<usize>))
        requires self.inv(),
        ensures r.0 == card(*self, Self::span() as int), r.1 == Some(r.0);
}
@item enumset/src/repr/primitive.rs | struct PrimitiveIter
@props C05 C15 C17
// #[derive(Copy, Clone)]: the text the language says the derive produces.
@check enumset/src/repr/primitive.rs | #[derive(Copy, Clone, Debug)] #[repr(transparent)] pub struct PrimitiveIter
impl<T: EnumSetTypeRepr> Copy for PrimitiveIter<T> {}
impl<T: EnumSetTypeRepr> Clone for PrimitiveIter<T> {
    fn clone(&self) -> (r: Self) ensures r == *self { *self }
}
impl<T: EnumSetTypeRepr> Bits for PrimitiveIter<T> {
    open spec fn has(&self, i: int) -> bool { self.0.has(i) }
}
pub proof fn card_view<A: Bits, B: Bits>(a: A, b: B, n: int)
    requires forall|i: int| 0 <= i < n ==> #[trigger] a.has(i) == b.has(i),
    ensures card(a, n) == card(b, n),
    decreases n
{
    if n > 0 { card_view(a, b, n - 1); assert(a.has(n - 1) == b.has(n - 1)); }
}
impl<T: EnumSetTypeRepr> BitIter for PrimitiveIter<T> {
    open spec fn inv(&self) -> bool { T::ok() }
    open spec fn span() -> nat { T::width() }
    proof fn laws(&self) { T::laws(); }
@props C05 C15 C17
@fn enumset/src/repr/primitive.rs | impl<T: EnumSetTypeRepr> Iterator for PrimitiveIter<T> | next | path=PrimitiveIter::
@sig fn next(&mut self) -> Option<u32>
@rewrite maybe sig Self :: Item ==> u32
@pre
proof { T::laws(); }
@end
@fn enumset/src/repr/primitive.rs | impl<T: EnumSetTypeRepr> DoubleEndedIterator for PrimitiveIter<T> | next_back | path=PrimitiveIter::
@sig fn next_back(&mut self) -> Option<u32>
@rewrite maybe sig Self :: Item ==> u32
@pre
proof { T::laws(); }
@end
@fn enumset/src/repr/primitive.rs | impl<T: EnumSetTypeRepr> Iterator for PrimitiveIter<T> | size_hint | path=PrimitiveIter::
@sig fn size_hint(&self) -> (usize, Option<usize>)
@pre
proof { T::laws(); card_view(*self, self.0, T::width() as int); }
@end
}
pub trait ReprIter: EnumSetTypeRepr {
    type Iter: BitIter;
@fn enumset/src/repr/mod.rs | trait EnumSetTypeRepr | iter | path=EnumSetTypeRepr::
@spec
requires Self::ok(),
ensures r.inv(), Self::Iter::span() == Self::width(), forall|i: int| #[trigger] r.has(i) == self.has(i),
@end
}
@for t k in (u8,0) (u16,1) (u32,2) (u64,3) (u128,4)
impl ReprIter for %t% {
    type Iter = PrimitiveIter<%t%>;
@fn enumset/src/repr/primitive.rs#macro:prim:%k% | impl EnumSetTypeRepr for %t% | iter | path=%t%::
@end
}
@endfor
}
}
