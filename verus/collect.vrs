verus! {
/// set.rs: Extend, FromIterator, Sum.
pub mod collect {
use super::*;
use super::repr::*;
use super::ty::*;
use super::set::{EnumSet, repr_has, set_ext, v_bitor, Into, From, Default, is_one, one_is};
broadcast use repr_has;
/// core::iter::Iterator for a finite source, by the items still to come. `for_each` and `fold` are std's
/// provided methods; their bodies here are std's definitions, checked against the contracts below.
pub trait Iterator: Sized {
    type Item;
    spec fn left(&self) -> Seq<Self::Item>;
    fn next(&mut self) -> (r: Option<Self::Item>)
        ensures
            old(self).left().len() == 0 ==> r is None && final(self).left() == old(self).left(),
            old(self).left().len() > 0 ==> r == Some(old(self).left()[0]) && final(self).left() == old(self).left().drop_first();
    fn fold<B, F: Fn(B, Self::Item) -> B>(self, init: B, f: F) -> (r: B)
        requires forall|b: B, x: Self::Item| #[trigger] f.requires((b, x)),
        ensures folded(self.left(), init, f, r),
    {
        let mut it = self;
        let mut acc = init;
        let ghost mut done: Seq<Self::Item> = Seq::empty();
        loop
            invariant done + it.left() =~= self.left(), folds(done, init, f, acc),
            decreases it.left().len(),
        {
            let ghost rest = it.left();
            let ghost m = acc;
            match it.next() {
                None => { proof { assert(done =~= self.left()); } break; }
                Some(x) => {
                    acc = f(acc, x);
                    proof {
                        assert(rest =~= seq![x] + it.left());
                        let d = done.push(x);
                        assert(d.drop_last() =~= done);
                        assert(f.ensures((m, d.last()), acc));
                        done = d;
                    }
                }
            }
        }
        acc
    }
}
/// r is reached from init by applying f to the items in turn.
pub open spec fn folds<B, X, F: Fn(B, X) -> B>(s: Seq<X>, init: B, f: F, r: B) -> bool
    decreases s.len()
{
    if s.len() == 0 { r == init } else { exists|m: B| folds(s.drop_last(), init, f, m) && #[trigger] f.ensures((m, s.last()), r) }
}
pub open spec fn folded<B, X, F: Fn(B, X) -> B>(s: Seq<X>, init: B, f: F, r: B) -> bool { folds(s, init, f, r) }
pub trait IntoIterator: Sized {
    type Item;
    type IntoIter: Iterator<Item = Self::Item>;
    spec fn items(self) -> Seq<Self::Item>;
    fn into_iter(self) -> (r: Self::IntoIter)
        ensures r.left() == self.items();
}
/// What one item adds.
pub trait Member<S> { spec fn adds(self, i: int) -> bool; }
impl<T: EnumSetType> Member<EnumSet<T>> for T { open spec fn adds(self, i: int) -> bool { i == self.disc() } }
impl<T: EnumSetType> Member<EnumSet<T>> for EnumSet<T> { open spec fn adds(self, i: int) -> bool { self.has(i) } }
pub open spec fn any<S, A: Member<S>>(s: Seq<A>, i: int) -> bool { exists|k: int| 0 <= k < s.len() && (#[trigger] s[k]).adds(i) }
pub proof fn any_push<S, A: Member<S>>(s: Seq<A>, x: A)
    ensures forall|i: int| any::<S, A>(s.push(x), i) == (any::<S, A>(s, i) || x.adds(i)),
{
    assert forall|i: int| any::<S, A>(s.push(x), i) == (any::<S, A>(s, i) || x.adds(i)) by {
        let w = s.push(x);
        if any::<S, A>(s, i) { let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).adds(i); assert(w[k].adds(i)); }
        if x.adds(i) { assert(w[s.len() as int].adds(i)); }
        if any::<S, A>(w, i) { let k = choose|k: int| 0 <= k < w.len() && (#[trigger] w[k]).adds(i); if k < s.len() { assert(s[k].adds(i)); } }
    }
}
pub trait Extend<A: Member<Self>>: Bits {
    fn extend<I: IntoIterator<Item = A>>(&mut self, iter: I)
        ensures forall|i: int| #[trigger] final(self).has(i) == (old(self).has(i) || any::<Self, A>(iter.items(), i));
}
pub trait FromIterator<A: Member<Self>>: Bits {
    fn from_iter<I: IntoIterator<Item = A>>(iter: I) -> (r: Self)
        ensures forall|i: int| #[trigger] r.has(i) == any::<Self, A>(iter.items(), i);
}
@props C16
@for A in (T) (EnumSet<T>)
impl<T: EnumSetType> Extend<%A%> for EnumSet<T> {
@fn enumset/src/set.rs | impl<T: EnumSetType> Extend<%A%> for EnumSet<T> | extend | path=EnumSet::
@sig fn extend<I: IntoIterator<Item = %A%>>(&mut self, iter: I)
@rewrite iter . into_iter ( ) . for_each ( | v | { ==> let mut it_ = iter.into_iter(); let ghost mut done: Seq<%A%> = Seq::empty(); loop invariant it_.left().len() + done.len() == iter.items().len(), done + it_.left() =~= iter.items(), forall|i: int| #[trigger] self.has(i) == (old(self).has(i) || any::<Self, %A%>(done, i)), decreases it_.left().len() { let ghost rest = it_.left(); let v = match it_.next() { None => { proof { assert(done =~= iter.items()); } break; } Some(v) => v }; proof { any_push::<Self, %A%>(done, v); done = done.push(v); assert(rest =~= seq![v] + it_.left()); } 
@rewrite maybe } ) ; ==> }
@end
}
impl<T: EnumSetType> FromIterator<%A%> for EnumSet<T> {
@fn enumset/src/set.rs | impl<T: EnumSetType> FromIterator<%A%> for EnumSet<T> | from_iter | path=EnumSet::
@sig fn from_iter<I: IntoIterator<Item = %A%>>(iter: I) -> Self
@end
}
@endfor
impl<'a, T: EnumSetType> Member<EnumSet<T>> for &'a T { open spec fn adds(self, i: int) -> bool { i == self.disc() } }
impl<'a, T: EnumSetType> Member<EnumSet<T>> for &'a EnumSet<T> { open spec fn adds(self, i: int) -> bool { self.has(i) } }
pub trait Sum<A: Member<Self> = Self>: Bits {
    fn sum<I: Iterator<Item = A>>(iter: I) -> (r: Self)
        ensures forall|i: int| #[trigger] r.has(i) == any::<Self, A>(iter.left(), i);
}
pub open spec fn is_join<T: EnumSetType, A: Member<EnumSet<T>>>(m: EnumSet<T>, x: A, n: EnumSet<T>) -> bool {
    forall|i: int| #[trigger] n.has(i) == (m.has(i) || x.adds(i))
}
pub open spec fn any_of<T: EnumSetType, A: Member<EnumSet<T>>>(r: EnumSet<T>, s: Seq<A>) -> bool { forall|i: int| #[trigger] r.has(i) == any::<EnumSet<T>, A>(s, i) }
pub open spec fn none<T: EnumSetType>(m: EnumSet<T>) -> bool { forall|i: int| !(#[trigger] m.has(i)) }
/// Folding with a function that adds one item's members gives the union.
pub proof fn folds_any<T: EnumSetType, A: Member<EnumSet<T>>, F: Fn(EnumSet<T>, A) -> EnumSet<T>>(s: Seq<A>, init: EnumSet<T>, f: F, r: EnumSet<T>)
    requires
        none(init),
        forall|m: EnumSet<T>, x: A, n: EnumSet<T>| #[trigger] f.ensures((m, x), n) ==> is_join(m, x, n),
        folds(s, init, f, r),
    ensures forall|i: int| #[trigger] r.has(i) == any::<EnumSet<T>, A>(s, i),
    decreases s.len()
{
    if s.len() > 0 {
        let m = choose|m: EnumSet<T>| folds(s.drop_last(), init, f, m) && #[trigger] f.ensures((m, s.last()), r);
        folds_any::<T, A, F>(s.drop_last(), init, f, m);
        any_push::<EnumSet<T>, A>(s.drop_last(), s.last());
        assert(s =~= s.drop_last().push(s.last()));
    }
}
@for H A I in (impl<T: EnumSetType> Sum,EnumSet<T>,Self) (impl<'a~ T: EnumSetType> Sum<&'a EnumSet<T>>,&'a EnumSet<T>,&'a Self) (impl<T: EnumSetType> Sum<T>,T,T) (impl<'a~ T: EnumSetType> Sum<&'a T>,&'a T,&'a T)
%H% for EnumSet<T> {
@fn enumset/src/set.rs | %H% for EnumSet<T> | sum | path=EnumSet::
@sig fn sum<I: Iterator<Item = %I%>>(iter: I) -> Self
@pre
proof {
    T::laws(); T::Repr::laws();
    assert forall|v: T| is_single(#[trigger] EnumSet::<T>::one(v), v.disc()) by { one_is(v); }
}
@closure 0 |a, v| as f_
|a: EnumSet<T>, v: %A%| -> (r: EnumSet<T>) ensures is_join(a, v, r)
@result
proof {
    assert forall|e: EnumSet<T>| (forall|i: int| !(#[trigger] e.has(i))) && #[trigger] folded(iter.left(), e, f_, res) implies any_of(res, iter.left()) by {
        folds_any(iter.left(), e, f_, res);
    }
}
@end
}
@endfor
}
}
