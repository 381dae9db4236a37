verus! {
/// set.rs, array and slice conversions
pub mod convarr {
use super::*;
use super::repr::*;
use super::bits::*;
use super::piter::*;
use super::ty::*;
use super::set::{facts, EnumSet, repr_has, set_ext};
use super::conv::{Expect, fits, only_declared};
broadcast use repr_has;
pub open spec fn declared_words<T: EnumSetType>(s: Seq<u64>) -> bool { forall|i: int| #[trigger] wbit(s, i) ==> T::declared(i) }
pub proof fn declared_in<T: EnumSetType>(s: Seq<u64>)
    requires declared_words::<T>(s),
    ensures forall|i: int| #[trigger] wbit(s, i) ==> i < T::Repr::width(),
{ T::laws(); }
impl<T: EnumSetType> EnumSet<T> {
@auto proof { T::laws(); T::Repr::laws(); facts::<T>(); }
@props C08
@fn enumset/src/set.rs | impl<T: EnumSetType> EnumSet<T> | as_array | path=EnumSet::
@rewrite maybe . expect ( ==> . expect_ (
@spec
ensures fits(*self, 64 * O), forall|i: int| #[trigger] wbit(r@, i) == self.has(i),
@end
@fn enumset/src/set.rs | impl<T: EnumSetType> EnumSet<T> | as_array | path=EnumSet:: | as=as_array__total
@spec
requires fits(*self, 64 * O),
ensures forall|i: int| #[trigger] wbit(r@, i) == self.has(i),
@end
@fn enumset/src/set.rs | impl<T: EnumSetType> EnumSet<T> | try_as_array | path=EnumSet::
@spec
ensures
    r is Some <==> fits(*self, 64 * O),
    r is Some ==> (forall|i: int| #![trigger wbit(r->0@, i)] #![trigger self.has(i)] wbit(r->0@, i) == self.has(i)),
@pre
proof { T::laws(); assert(fits(*self, 64 * O) == (forall|i: int| #[trigger] self.__priv_repr.has(i) ==> i < 64 * O)); }
@end
@props C09
@fn enumset/src/set.rs | impl<T: EnumSetType> EnumSet<T> | as_array_truncated | path=EnumSet::
@spec
ensures forall|i: int| #[trigger] wbit(r@, i) == (self.has(i) && i < 64 * O),
@pre
proof { T::laws(); }
@end
@props C08
@fn enumset/src/set.rs | impl<T: EnumSetType> EnumSet<T> | from_array | path=EnumSet::
@rewrite maybe . expect ( ==> . expect_ (
@spec
ensures declared_words::<T>(v@), forall|i: int| #[trigger] r.has(i) == wbit(v@, i),
@end
@fn enumset/src/set.rs | impl<T: EnumSetType> EnumSet<T> | from_array | path=EnumSet:: | as=from_array__total
@spec
requires declared_words::<T>(v@),
ensures forall|i: int| #[trigger] r.has(i) == wbit(v@, i),
@end
@fn enumset/src/set.rs | impl<T: EnumSetType> EnumSet<T> | try_from_array | path=EnumSet::
@spec
ensures
    r is Some <==> declared_words::<T>(bits@),
    r is Some ==> (forall|i: int| #![trigger r->0.has(i)] #![trigger wbit(bits@, i)] r->0.has(i) == wbit(bits@, i)),
@pre
proof { T::laws(); T::Repr::laws(); }
@closure 0 |bits|
|bits: T::Repr| -> (r: Option<EnumSet<T>>) ensures r is Some <==> only_declared::<T, T::Repr>(bits), r is Some ==> r->0.__priv_repr == bits
@end
@props C09
@fn enumset/src/set.rs | impl<T: EnumSetType> EnumSet<T> | from_array_truncated | path=EnumSet::
@spec
ensures forall|i: int| #[trigger] r.has(i) == (wbit(bits@, i) && T::declared(i)),
@pre
proof { T::laws(); T::Repr::laws(); }
@end
@fn enumset/src/set.rs | impl<T: EnumSetType> EnumSet<T> | from_array_unchecked | path=EnumSet::
@spec
requires declared_words::<T>(bits@),
ensures forall|i: int| #[trigger] r.has(i) == wbit(bits@, i),
@pre
proof { T::laws(); }
@end
@fn enumset/src/set.rs | impl<T: EnumSetType> EnumSet<T> | to_vec | path=EnumSet::
@rewrite maybe sig alloc :: vec :: Vec ==> Vec
@rewrite maybe alloc :: vec ! ==> vec !
@rewrite maybe & mut vec ==> vec.as_mut_slice()
@spec
requires self.wf(),
ensures
    64 * r@.len() < T::Repr::width() + 64,
    forall|i: int| #[trigger] wbit(r@, i) == self.has(i),
@pre
proof { T::laws(); T::Repr::laws(); }
@end
@props C08
@fn enumset/src/set.rs | impl<T: EnumSetType> EnumSet<T> | copy_into_slice | path=EnumSet::
@rewrite maybe . expect ( ==> . expect_ (
@spec
ensures
    fits(*self, (64 * old(data)@.len()) as int), final(data)@.len() == old(data)@.len(),
    forall|i: int| #[trigger] wbit(final(data)@, i) == self.has(i),
@end
@fn enumset/src/set.rs | impl<T: EnumSetType> EnumSet<T> | copy_into_slice | path=EnumSet:: | as=copy_into_slice__total
@spec
requires fits(*self, (64 * old(data)@.len()) as int),
ensures
    final(data)@.len() == old(data)@.len(),
    forall|i: int| #[trigger] wbit(final(data)@, i) == self.has(i),
@end
@fn enumset/src/set.rs | impl<T: EnumSetType> EnumSet<T> | try_copy_into_slice | path=EnumSet::
@spec
ensures
    final(data)@.len() == old(data)@.len(),
    r is Some <==> fits(*self, (64 * old(data)@.len()) as int),
    r is Some ==> (forall|i: int| #![trigger wbit(final(data)@, i)] #![trigger self.has(i)] wbit(final(data)@, i) == self.has(i)),
    r is None ==> final(data)@ == old(data)@,
@pre
proof { T::laws(); let n = 64 * old(data)@.len(); assert(fits(*self, n as int) == (forall|i: int| #[trigger] self.__priv_repr.has(i) ==> i < n)); }
@end
@props C09
@fn enumset/src/set.rs | impl<T: EnumSetType> EnumSet<T> | copy_into_slice_truncated | path=EnumSet::
@spec
ensures
    final(data)@.len() == old(data)@.len(),
    forall|i: int| #[trigger] wbit(final(data)@, i) == (self.has(i) && i < 64 * old(data)@.len()),
@pre
proof { T::laws(); }
@end
@props C08
@fn enumset/src/set.rs | impl<T: EnumSetType> EnumSet<T> | from_slice | path=EnumSet::
@rewrite maybe . expect ( ==> . expect_ (
@spec
ensures declared_words::<T>(v@), forall|i: int| #[trigger] r.has(i) == wbit(v@, i),
@end
@fn enumset/src/set.rs | impl<T: EnumSetType> EnumSet<T> | from_slice | path=EnumSet:: | as=from_slice__total
@spec
requires declared_words::<T>(v@),
ensures forall|i: int| #[trigger] r.has(i) == wbit(v@, i),
@end
@fn enumset/src/set.rs | impl<T: EnumSetType> EnumSet<T> | try_from_slice | path=EnumSet::
@spec
ensures
    r is Some <==> declared_words::<T>(bits@),
    r is Some ==> (forall|i: int| #![trigger r->0.has(i)] #![trigger wbit(bits@, i)] r->0.has(i) == wbit(bits@, i)),
@pre
proof { T::laws(); T::Repr::laws(); }
@closure 0 |bits|
|bits: T::Repr| -> (r: Option<EnumSet<T>>) ensures r is Some <==> only_declared::<T, T::Repr>(bits), r is Some ==> r->0.__priv_repr == bits
@end
@props C09
@fn enumset/src/set.rs | impl<T: EnumSetType> EnumSet<T> | from_slice_truncated | path=EnumSet::
@spec
ensures forall|i: int| #[trigger] r.has(i) == (wbit(bits@, i) && T::declared(i)),
@pre
proof { T::laws(); T::Repr::laws(); }
@end
@fn enumset/src/set.rs | impl<T: EnumSetType> EnumSet<T> | from_slice_unchecked | path=EnumSet::
@spec
requires declared_words::<T>(bits@),
ensures forall|i: int| #[trigger] r.has(i) == wbit(bits@, i),
@pre
proof { T::laws(); }
@end
}
}
}
@auto
