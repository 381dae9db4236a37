verus! {
/// set.rs, conversions
pub mod conv {
use super::*;
use super::repr::*;
use super::bits::*;
use super::piter::*;
use super::ty::*;
use super::set::{facts, EnumSet, repr_has, set_ext};
broadcast use repr_has;
/// A conversion that panics does not return: what `.expect` (read as `.expect_`) or `panic!` leave to prove
/// when only the returned value counts. The twin `..__total` of each panicking function is checked with the
/// real `.expect`, which must then be unreachable.
pub trait Expect<X>: Sized {
    fn expect_(self, msg: &str) -> X;
}
impl<X> Expect<X> for Option<X> {
    #[verifier::external_body]
    fn expect_(self, msg: &str) -> (r: X)
        ensures self is Some, r == self->0
    { self.expect(msg) }
}
pub open spec fn only_declared<T: EnumSetType, R: Bits>(r: R) -> bool { forall|i: int| #[trigger] r.has(i) ==> T::declared(i) }
pub open spec fn fits<R: Bits>(r: R, n: int) -> bool { forall|i: int| #[trigger] r.has(i) ==> i < n }
/// An array or slice as a value with bits.
#[verifier::ext_equal]
pub struct Words(pub Seq<u64>);
impl Bits for Words {
    open spec fn has(&self, i: int) -> bool { wbit(self.0, i) }
}
impl<T: EnumSetType> EnumSet<T> {
@auto proof { T::laws(); T::Repr::laws(); facts::<T>(); }
@props C10
@fn enumset/src/set.rs | impl<T: EnumSetType + EnumSetTypeWithRepr> EnumSet<T> | as_repr | path=EnumSet::
@rewrite maybe sig < T as EnumSetTypeWithRepr > :: Repr ==> T :: Repr
@spec
ensures r == self.__priv_repr,
@end
@fn enumset/src/set.rs | impl<T: EnumSetType + EnumSetTypeWithRepr> EnumSet<T> | from_repr_unchecked | path=EnumSet::
@rewrite maybe sig < T as EnumSetTypeWithRepr > :: Repr ==> T :: Repr
@spec
ensures r.__priv_repr == bits,
@end
@fn enumset/src/set.rs | impl<T: EnumSetType + EnumSetTypeWithRepr> EnumSet<T> | from_repr | path=EnumSet::
@rewrite maybe sig < T as EnumSetTypeWithRepr > :: Repr ==> T :: Repr
@rewrite maybe . expect ( ==> . expect_ (
@spec
ensures r.__priv_repr == bits, only_declared::<T, T::Repr>(bits),
@end
@fn enumset/src/set.rs | impl<T: EnumSetType + EnumSetTypeWithRepr> EnumSet<T> | from_repr | path=EnumSet:: | as=from_repr__total
@rewrite maybe sig < T as EnumSetTypeWithRepr > :: Repr ==> T :: Repr
@spec
requires only_declared::<T, T::Repr>(bits),
ensures r.__priv_repr == bits,
@end
@fn enumset/src/set.rs | impl<T: EnumSetType + EnumSetTypeWithRepr> EnumSet<T> | try_from_repr | path=EnumSet::
@rewrite maybe sig < T as EnumSetTypeWithRepr > :: Repr ==> T :: Repr
@spec
ensures r is Some <==> only_declared::<T, T::Repr>(bits), r is Some ==> r->0.__priv_repr == bits,
@pre
proof { T::laws(); T::Repr::laws(); }
@end
@fn enumset/src/set.rs | impl<T: EnumSetType + EnumSetTypeWithRepr> EnumSet<T> | from_repr_truncated | path=EnumSet::
@rewrite maybe sig < T as EnumSetTypeWithRepr > :: Repr ==> T :: Repr
@spec
ensures forall|i: int| #[trigger] r.has(i) == (bits.has(i) && T::declared(i)),
@pre
proof { T::laws(); T::Repr::laws(); }
@end
@for t w k in (u8,8,0) (u16,16,1) (u32,32,2) (u64,64,3) (u128,128,4) (usize,64,5)
@props C06
@fn enumset/src/set.rs#macro:conversion_impls:%k% | impl<T: EnumSetType> EnumSet<T> | as_%t% | path=EnumSet::
@rewrite maybe . expect ( ==> . expect_ (
@spec
ensures fits(*self, %w%), forall|i: int| #[trigger] r.has(i) == self.has(i),
@end
@fn enumset/src/set.rs#macro:conversion_impls:%k% | impl<T: EnumSetType> EnumSet<T> | as_%t% | path=EnumSet:: | as=as_%t%__total
@spec
requires fits(*self, %w%),
ensures forall|i: int| #[trigger] r.has(i) == self.has(i),
@end
@fn enumset/src/set.rs#macro:conversion_impls:%k% | impl<T: EnumSetType> EnumSet<T> | try_as_%t% | path=EnumSet::
@spec
ensures
    r is Some <==> fits(*self, %w%),
    r is Some ==> (forall|i: int| #![trigger r->0.has(i)] #![trigger self.has(i)] r->0.has(i) == self.has(i)),
@pre
proof { T::laws(); assert(fits(*self, %w%) == (forall|i: int| #[trigger] self.__priv_repr.has(i) ==> i < %w%)); }
@end
@props C07
@fn enumset/src/set.rs#macro:conversion_impls:%k% | impl<T: EnumSetType> EnumSet<T> | as_%t%_truncated | path=EnumSet::
@spec
ensures forall|i: int| #[trigger] r.has(i) == (self.has(i) && i < %w%),
@pre
proof { T::laws(); }
@end
@props C06
@fn enumset/src/set.rs#macro:conversion_impls:%k% | impl<T: EnumSetType> EnumSet<T> | from_%t% | path=EnumSet::
@rewrite maybe . expect ( ==> . expect_ (
@spec
ensures only_declared::<T, %t%>(bits), forall|i: int| #[trigger] r.has(i) == bits.has(i),
@end
@fn enumset/src/set.rs#macro:conversion_impls:%k% | impl<T: EnumSetType> EnumSet<T> | from_%t% | path=EnumSet:: | as=from_%t%__total
@spec
requires only_declared::<T, %t%>(bits),
ensures forall|i: int| #[trigger] r.has(i) == bits.has(i),
@end
@fn enumset/src/set.rs#macro:conversion_impls:%k% | impl<T: EnumSetType> EnumSet<T> | try_from_%t% | path=EnumSet::
@spec
ensures
    r is Some <==> only_declared::<T, %t%>(bits),
    r is Some ==> (forall|i: int| #![trigger r->0.has(i)] #![trigger bits.has(i)] r->0.has(i) == bits.has(i)),
@pre
proof { T::laws(); T::Repr::laws(); }
@closure 0 |bits|
|bits: T::Repr| -> (r: Option<EnumSet<T>>) ensures r is Some <==> only_declared::<T, T::Repr>(bits), r is Some ==> r->0.__priv_repr == bits
@end
@props C07
@fn enumset/src/set.rs#macro:conversion_impls:%k% | impl<T: EnumSetType> EnumSet<T> | from_%t%_truncated | path=EnumSet::
@spec
ensures forall|i: int| #[trigger] r.has(i) == (bits.has(i) && T::declared(i)),
@pre
proof { T::laws(); %t%_and(); }
@end
@fn enumset/src/set.rs#macro:conversion_impls:%k% | impl<T: EnumSetType> EnumSet<T> | from_%t%_unchecked | path=EnumSet::
@spec
requires only_declared::<T, %t%>(bits),
ensures forall|i: int| #[trigger] r.has(i) == bits.has(i),
@pre
proof { T::laws(); }
@end
@endfor
}
@for t w in (u8,8) (u16,16) (u32,32) (u64,64) (u128,128)
proof fn %t%_and()
    ensures forall|a: %t%, b: %t%, i: int| #[trigger] (a & b).has(i) == (a.has(i) && b.has(i)),
{
    assert forall|a: %t%, b: %t%, i: int| #[trigger] (a & b).has(i) == (a.has(i) && b.has(i)) by { ops_%t%(a, b); }
}
@endfor
proof fn usize_and()
    ensures forall|a: usize, b: usize, i: int| #[trigger] (a & b).has(i) == (a.has(i) && b.has(i)),
{
    assert forall|a: usize, b: usize, i: int| #[trigger] (a & b).has(i) == (a.has(i) && b.has(i)) by {
        let x = a as u64; let y = b as u64;
        assert((a & b) as u64 == (a as u64) & (b as u64)) by (bit_vector);
        ops_u64(a as u64, b as u64);
        assert((x & y).has(i) == (x.has(i) && y.has(i)));
    }
}
}
}
@auto
