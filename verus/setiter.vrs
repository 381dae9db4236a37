verus! {
/// set.rs, iteration
pub mod setiter {
use super::*;
use super::repr::*;
use super::piter::*;
use super::ty::*;
use super::set::{EnumSet, repr_has, set_ext};
broadcast use repr_has;
@props C05 C15 C17
@item enumset/src/set.rs | struct EnumSetIter | EnumSetTypeRepr ==> ReprIter
impl<T: EnumSetType> Bits for EnumSetIter<T> {
    closed spec fn has(&self, i: int) -> bool { self.iter.has(i) }
}
impl<T: EnumSetType> EnumSetIter<T> {
    /// What every value of the type satisfies.
    pub closed spec fn inv(&self) -> bool {
        &&& self.iter.inv()
        &&& <T::Repr as ReprIter>::Iter::span() == T::Repr::width()
        &&& forall|i: int| #[trigger] self.iter.has(i) ==> T::declared(i)
    }
    pub proof fn only_members(&self)
        requires self.inv(),
        ensures forall|i: int| #[trigger] self.has(i) ==> T::declared(i),
    {}
}
impl<T: EnumSetType> EnumSetIter<T> {
@props C05
@fn enumset/src/set.rs | impl<T: EnumSetType> EnumSetIter<T> | new | path=EnumSetIter::
@spec
requires set.wf(),
ensures r.inv(), forall|i: int| #[trigger] r.has(i) == set.has(i),
@pre
proof { T::laws(); }
@end
@fn enumset/src/set.rs | impl<T: EnumSetType> Iterator for EnumSetIter<T> | next | pub | path=EnumSetIter::
@sig fn next(&mut self) -> Option<T>
@rewrite maybe sig Self :: Item ==> T
@spec
requires old(self).inv(),
ensures
    final(self).inv(),
    match r {
        Some(x) => old(self).has(x.disc())
            && (forall|i: int| #[trigger] old(self).has(i) ==> x.disc() <= i)
            && (forall|i: int| #[trigger] final(self).has(i) == (old(self).has(i) && i != x.disc())),
        None => (forall|i: int| !(#[trigger] old(self).has(i))) && (forall|i: int| !(#[trigger] final(self).has(i))),
    },
@closure 0 |x|
|x: u32| -> (r: T) requires T::declared(x as int) ensures r.disc() == x
@end
@fn enumset/src/set.rs | impl<T: EnumSetType> DoubleEndedIterator for EnumSetIter<T> | next_back | pub | path=EnumSetIter::
@sig fn next_back(&mut self) -> Option<T>
@rewrite maybe sig Self :: Item ==> T
@spec
requires old(self).inv(),
ensures
    final(self).inv(),
    match r {
        Some(x) => old(self).has(x.disc())
            && (forall|i: int| #[trigger] old(self).has(i) ==> i <= x.disc())
            && (forall|i: int| #[trigger] final(self).has(i) == (old(self).has(i) && i != x.disc())),
        None => (forall|i: int| !(#[trigger] old(self).has(i))) && (forall|i: int| !(#[trigger] final(self).has(i))),
    },
@closure 0 |x|
|x: u32| -> (r: T) requires T::declared(x as int) ensures r.disc() == x
@end
@fn enumset/src/set.rs | impl<T: EnumSetType> Iterator for EnumSetIter<T> | size_hint | pub | path=EnumSetIter::
@sig fn size_hint(&self) -> (usize, Option<usize>)
@spec
requires self.inv(),
ensures r.0 == card(*self, T::Repr::width() as int), r.1 == Some(r.0),
@pre
proof { card_view(*self, self.iter, T::Repr::width() as int); }
@end
}
impl<T: EnumSetType> EnumSet<T> {
@fn enumset/src/set.rs | impl<T: EnumSetType> EnumSet<T> | iter | path=EnumSet::
@spec
requires self.wf(),
ensures r.inv(), forall|i: int| #[trigger] r.has(i) == self.has(i),
@end
@fn enumset/src/set.rs | impl<T: EnumSetType> IntoIterator for EnumSet<T> | into_iter | pub | path=EnumSet::
@sig fn into_iter(self) -> EnumSetIter<T>
@rewrite maybe sig Self :: IntoIter ==> EnumSetIter < T >
@spec
requires self.wf(),
ensures r.inv(), forall|i: int| #[trigger] r.has(i) == self.has(i),
@end
}
// The provided methods of Iterator and DoubleEndedIterator (fold, nth, count, rev, ...) are std's, in terms of
// these; a method the repository overrides is outside the contract.
@only enumset/src/set.rs | impl<T: EnumSetType> Iterator for EnumSetIter<T> | next size_hint
@only enumset/src/set.rs | impl<T: EnumSetType> DoubleEndedIterator for EnumSetIter<T> | next_back
@only enumset/src/set.rs | impl<T: EnumSetType> ExactSizeIterator for EnumSetIter<T> |
@only enumset/src/repr/primitive.rs | impl<T: EnumSetTypeRepr> Iterator for PrimitiveIter<T> | next size_hint
@only enumset/src/repr/primitive.rs | impl<T: EnumSetTypeRepr> DoubleEndedIterator for PrimitiveIter<T> | next_back
@only enumset/src/repr/array.rs | impl<const N: usize> Iterator for ArrayIter<N> | next size_hint
@only enumset/src/repr/array.rs | impl<const N: usize> DoubleEndedIterator for ArrayIter<N> | next_back

/// The members in increasing order, each once.
pub open spec fn listing<T: EnumSetType>(s: EnumSet<T>, v: Seq<T>) -> bool {
    &&& forall|a: int, b: int| 0 <= a < b < v.len() ==> (#[trigger] v[a]).disc() < (#[trigger] v[b]).disc()
    &&& forall|i: int| #[trigger] s.has(i) == (exists|k: int| 0 <= k < v.len() && (#[trigger] v[k]).disc() == i)
}
/// The same, for what is still to come.
pub open spec fn split<T: EnumSetType>(s: EnumSet<T>, v: Seq<T>, it: EnumSetIter<T>) -> bool {
    &&& it.inv()
    &&& forall|a: int, b: int| 0 <= a < b < v.len() ==> (#[trigger] v[a]).disc() < (#[trigger] v[b]).disc()
    &&& forall|a: int, i: int| 0 <= a < v.len() && #[trigger] it.has(i) ==> (#[trigger] v[a]).disc() < i
    &&& forall|i: int| #[trigger] s.has(i) == (it.has(i) || exists|k: int| 0 <= k < v.len() && (#[trigger] v[k]).disc() == i)
}
pub proof fn split_next<T: EnumSetType>(s: EnumSet<T>, v: Seq<T>, a: EnumSetIter<T>, b: EnumSetIter<T>, r: Option<T>)
    requires
        split(s, v, a), b.inv(),
        match r {
            Some(x) => a.has(x.disc())
                && (forall|i: int| #[trigger] a.has(i) ==> x.disc() <= i)
                && (forall|i: int| #[trigger] b.has(i) == (a.has(i) && i != x.disc())),
            None => (forall|i: int| !(#[trigger] a.has(i))) && (forall|i: int| !(#[trigger] b.has(i))),
        },
    ensures
        r is Some ==> split(s, v.push(r->0), b),
        r is None ==> listing(s, v) && split(s, v, b),
{
    if r is Some {
        let w = v.push(r->0);
        assert forall|i: int| #[trigger] s.has(i) == (b.has(i) || exists|k: int| 0 <= k < w.len() && (#[trigger] w[k]).disc() == i) by {
            if i == r->0.disc() { assert(w[v.len() as int].disc() == i); }
            if exists|k: int| 0 <= k < v.len() && (#[trigger] v[k]).disc() == i {
                let k = choose|k: int| 0 <= k < v.len() && (#[trigger] v[k]).disc() == i;
                assert(w[k].disc() == i);
            }
            if exists|k: int| 0 <= k < w.len() && (#[trigger] w[k]).disc() == i {
                let k = choose|k: int| 0 <= k < w.len() && (#[trigger] w[k]).disc() == i;
                if k < v.len() { assert(v[k].disc() == i); }
            }
        }
    }
}
pub proof fn card_step<A: Bits>(a: A, b: A, x: int, n: int)
    requires a.has(x), 0 <= x, forall|i: int| #[trigger] b.has(i) == (a.has(i) && i != x),
    ensures card(a, n) == card(b, n) + if x < n { 1nat } else { 0nat },
    decreases n
{
    if n > 0 { card_step(a, b, x, n - 1); assert(b.has(n - 1) == (a.has(n - 1) && n - 1 != x)); }
}
/// A client of the contracts: draining the iterator gives the members in order, as many as `len` says.
pub fn drained<T: EnumSetType>(s: EnumSet<T>) -> (r: Vec<T>)
    requires s.wf(),
    ensures listing(s, r@), r@.len() == card(s, T::Repr::width() as int),
{
    let mut it = s.iter();
    let mut v: Vec<T> = Vec::new();
    proof { card_view(s, it, T::Repr::width() as int); T::laws(); }
    loop
        invariant split(s, v@, it), v@.len() + card(it, T::Repr::width() as int) == card(s, T::Repr::width() as int),
        decreases card(it, T::Repr::width() as int),
    {
        let ghost a = it;
        proof { a.only_members(); T::laws(); }
        match it.next() {
            None => {
                proof { split_next(s, v@, a, it, None); card_zero(a, T::Repr::width() as int); card_zero(it, T::Repr::width() as int); }
                break;
            }
            Some(x) => {
                proof { split_next(s, v@, a, it, Some(x)); card_step(a, it, x.disc(), T::Repr::width() as int); }
                v.push(x);
            }
        }
    }
    v
}
}
}
