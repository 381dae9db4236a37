verus! {
/// traits.rs: what an enum type owes EnumSet. The derive's output is checked against this contract by the
/// Kani harnesses (C11), for the type family; here it is the hypothesis of every EnumSet contract.
pub mod ty {
use super::*;
use super::repr::*;
use super::piter::*;
pub trait EnumSetType: Sized + Copy {
    type Repr: ReprIter;
    /// The declared discriminants.
    spec fn declared(i: int) -> bool;
    spec fn disc(self) -> int;
    spec fn bit_width() -> nat;
    spec fn variant_count() -> nat;
    spec fn all_bits() -> Self::Repr;
    proof fn laws()
        ensures
            Self::Repr::ok(),
            forall|i: int| #[trigger] Self::all_bits().has(i) == Self::declared(i),
            forall|i: int| #[trigger] Self::declared(i) ==> 0 <= i < Self::Repr::width(),
            forall|a: Self| Self::declared(#[trigger] a.disc()),
            forall|a: Self, b: Self| #[trigger] a.disc() == #[trigger] b.disc() ==> a == b;
    fn ALL_BITS() -> (r: Self::Repr)
        ensures forall|i: int| #[trigger] r.has(i) == Self::declared(i);
    fn BIT_WIDTH() -> (r: u32)
        ensures r == Self::bit_width();
    fn VARIANT_COUNT() -> (r: u32)
        ensures r == Self::variant_count();
    fn enum_into_u32(self) -> (r: u32)
        ensures r == self.disc();
    unsafe fn enum_from_u32(val: u32) -> (r: Self)
        requires Self::declared(val as int),
        ensures r.disc() == val;
}
}
/// set.rs
pub mod setdef {
use super::*;
use super::repr::*;
use super::ty::*;

@props C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C16 C17
@item enumset/src/set.rs | struct EnumSet
// #[derive(Copy, Clone, PartialEq)]: the text the language says the derive produces.
@check enumset/src/set.rs | #[derive(Copy, Clone, PartialEq, Eq)] #[repr(transparent)] pub struct EnumSet
impl<T: EnumSetType> Copy for EnumSet<T> {}
impl<T: EnumSetType> Clone for EnumSet<T> {
    fn clone(&self) -> (r: Self) ensures r == *self { *self }
}
impl<T: EnumSetType> PartialEqSpecImpl for EnumSet<T> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
impl<T: EnumSetType> PartialEq for EnumSet<T> {
    fn eq(&self, o: &Self) -> bool { proof { T::laws(); T::Repr::laws(); } self.__priv_repr == o.__priv_repr }
}
impl<T: EnumSetType> Bits for EnumSet<T> {
    open spec fn has(&self, i: int) -> bool { self.__priv_repr.has(i) }
}
impl<T: EnumSetType> EnumSet<T> {
    /// The type invariant: no bit outside the declared discriminants.
    pub open spec fn wf(&self) -> bool { forall|i: int| #[trigger] self.has(i) ==> T::declared(i) }
    pub open spec fn holds(&self, t: T) -> bool { self.has(t.disc()) }
    pub open spec fn one(t: T) -> Self { choose|s: Self| is_single(s, t.disc()) }
}
pub broadcast proof fn repr_has<T: EnumSetType>(s: EnumSet<T>, i: int)
    ensures #[trigger] s.__priv_repr.has(i) == s.has(i),
{}
}
pub mod set {
use super::*;
use super::repr::*;
use super::bits::*;
use super::piter::*;
use super::ty::*;
pub use super::setdef::*;
broadcast use repr_has;
/// Two sets with the same members are the same set.
pub proof fn set_ext<T: EnumSetType>(a: EnumSet<T>, b: EnumSet<T>)
    requires forall|i: int| #[trigger] a.has(i) == b.has(i),
    ensures a == b,
{
    T::laws();
    T::Repr::ext(a.__priv_repr, b.__priv_repr);
}
pub proof fn one_is<T: EnumSetType>(t: T)
    ensures is_single(EnumSet::<T>::one(t), t.disc()), EnumSet::<T>::one(t).wf(),
{
    T::laws();
    assert(T::declared(t.disc()));
    T::Repr::single(t.disc());
    let r = choose|r: T::Repr| is_single(r, t.disc());
    let s = EnumSet::<T> { __priv_repr: r };
    assert(forall|j: int| #[trigger] s.has(j) == (r.has(j)));
    assert(is_single(s, t.disc()));
}
pub proof fn is_one<T: EnumSetType>(s: EnumSet<T>, t: T)
    requires is_single(s, t.disc()),
    ensures s == EnumSet::<T>::one(t),
{
    one_is(t);
    set_ext(s, EnumSet::<T>::one(t));
}
pub open spec fn same_bits<R: Bits>(a: R, b: R) -> bool { forall|i: int| #![trigger a.has(i)] #![trigger b.has(i)] a.has(i) == b.has(i) }
pub open spec fn no_bits<R: Bits>(a: R) -> bool { forall|i: int| !(#[trigger] a.has(i)) }
/// What is known about every set, in the form the solver uses without further help.
pub proof fn facts<T: EnumSetType>()
    ensures
        T::Repr::ok(),
        0 < T::Repr::width() <= u32::MAX,
        forall|t: T| 0 <= #[trigger] t.disc() < T::Repr::width() && T::declared(t.disc()),
        forall|a: T::Repr, b: T::Repr| #[trigger] a.eq_spec(&b) == same_bits(a, b),
        forall|a: EnumSet<T>, b: EnumSet<T>| #[trigger] PartialEqSpec::<EnumSet<T>>::eq_spec(&a, &b) == same_bits(a, b),
        forall|a: EnumSet<T>| (#[trigger] card(a, T::Repr::width() as int) == 0) == no_bits(a),
        forall|a: T::Repr| (#[trigger] card(a, T::Repr::width() as int) == 0) == no_bits(a),
        forall|a: EnumSet<T>, i: int| #[trigger] a.has(i) && card(a, T::Repr::width() as int) == 1 ==> is_single(a, i),
        forall|a: EnumSet<T>, t: T| #[trigger] is_single(a, t.disc()) ==> a == EnumSet::<T>::one(t) && card(a, T::Repr::width() as int) == 1,
        forall|a: EnumSet<T>| #[trigger] card(a, T::Repr::width() as int) == card(a.__priv_repr, T::Repr::width() as int),
{
    T::laws(); T::Repr::laws();
    let w = T::Repr::width() as int;
    assert forall|a: T::Repr, b: T::Repr| #[trigger] a.eq_spec(&b) == same_bits(a, b) by {
        if same_bits(a, b) { T::Repr::ext(a, b); }
    }
    assert forall|a: EnumSet<T>, b: EnumSet<T>| #[trigger] PartialEqSpec::<EnumSet<T>>::eq_spec(&a, &b) == same_bits(a, b) by {
        if same_bits(a, b) { set_ext(a, b); }
    }
    assert forall|a: EnumSet<T>| (#[trigger] card(a, w) == 0) == no_bits(a) by { card_zero(a, w); assert(forall|i: int| #[trigger] a.has(i) ==> a.__priv_repr.has(i)); }
    assert forall|a: T::Repr| (#[trigger] card(a, w) == 0) == no_bits(a) by { card_zero(a, w); }
    assert forall|a: EnumSet<T>, i: int| #[trigger] a.has(i) && card(a, w) == 1 implies is_single(a, i) by {
        assert(a.__priv_repr.has(i));
        assert forall|j: int| #[trigger] a.has(j) == (j == i) by {
            if a.has(j) && j != i { assert(a.__priv_repr.has(j)); if i < j { card_two(a, w, i, j); } else { card_two(a, w, j, i); } }
        }
    }
    assert forall|a: EnumSet<T>, t: T| #[trigger] is_single(a, t.disc()) implies a == EnumSet::<T>::one(t) && card(a, w) == 1 by {
        is_one(a, t);
        assert(T::declared(t.disc()));
        card_single(a, w, t.disc());
    }
    assert forall|a: EnumSet<T>| #[trigger] card(a, w) == card(a.__priv_repr, w) by { card_view(a, a.__priv_repr, w); }
}
/// core::convert::Into as it is for an operand: the set itself, or a variant through From.
pub trait Into<X>: Sized {
    spec fn val(self) -> X;
    fn into(self) -> (r: X)
        ensures r == self.val();
}
impl<T: EnumSetType> Into<EnumSet<T>> for EnumSet<T> {
    open spec fn val(self) -> EnumSet<T> { self }
    fn into(self) -> EnumSet<T> { self }
}
impl<T: EnumSetType> Into<EnumSet<T>> for T {
    open spec fn val(self) -> EnumSet<T> { EnumSet::one(self) }
    fn into(self) -> EnumSet<T> { <EnumSet<T> as From<T>>::from(self) }
}
pub trait From<X>: Sized {
    spec fn from_val(x: X) -> Self;
    fn from(t: X) -> (r: Self) ensures r == Self::from_val(t);
}
impl<T: EnumSetType> From<T> for EnumSet<T> {
    open spec fn from_val(x: T) -> Self { EnumSet::one(x) }
@props C01 C02 C18
@fn enumset/src/set.rs | impl<T: EnumSetType> From<T> for EnumSet<T> | from | path=EnumSet::
@sig fn from(t: T) -> Self
@result
proof { is_one(res, t); }
@end
}

impl<T: EnumSetType> EnumSet<T> {
@auto proof { T::laws(); T::Repr::laws(); facts::<T>(); }
@props C01 C02 C04 C13
@const enumset/src/set.rs | impl<T: EnumSetType> EnumSet<T> | EMPTY_REPR | path=EnumSet::
@spec
ensures forall|i: int| !(#[trigger] r.has(i)),
@end
@props C01 C11 C13
@const enumset/src/set.rs | impl<T: EnumSetType> EnumSet<T> | ALL_REPR | path=EnumSet::
@spec
ensures forall|i: int| #[trigger] r.has(i) == T::declared(i),
@end
@props C01 C02 C04
@const enumset/src/set.rs | impl<T: EnumSetType> EnumSet<T> | EMPTY | path=EnumSet::
@spec
ensures forall|i: int| !(#[trigger] r.has(i)),
@end
@props C01 C02 C04 C11
@const enumset/src/set.rs | impl<T: EnumSetType> EnumSet<T> | ALL | path=EnumSet::
@spec
ensures forall|i: int| #[trigger] r.has(i) == T::declared(i),
@end
@props C01 C02 C04 C16
@fn enumset/src/set.rs | impl<T: EnumSetType> EnumSet<T> | new | path=EnumSet::
@spec
ensures forall|i: int| !(#[trigger] r.has(i)),
@end
@fn enumset/src/set.rs | impl<T: EnumSetType> EnumSet<T> | empty | path=EnumSet::
@spec
ensures forall|i: int| !(#[trigger] r.has(i)),
@end
@props C01 C11
@fn enumset/src/set.rs | impl<T: EnumSetType> EnumSet<T> | all | path=EnumSet::
@spec
ensures forall|i: int| #[trigger] r.has(i) == T::declared(i),
@end
@props C11
@fn enumset/src/set.rs | impl<T: EnumSetType> EnumSet<T> | bit_width | path=EnumSet::
@spec
ensures r == T::bit_width(),
@end
@fn enumset/src/set.rs | impl<T: EnumSetType> EnumSet<T> | variant_count | path=EnumSet::
@spec
ensures r == T::variant_count(),
@end
@props C02 C18
@fn enumset/src/set.rs | impl<T: EnumSetType> EnumSet<T> | only | path=EnumSet::
@spec
ensures is_single(r, t.disc()),
@end
@props C04
@fn enumset/src/set.rs | impl<T: EnumSetType> EnumSet<T> | len | path=EnumSet::
@spec
ensures r == card(*self, T::Repr::width() as int),
@pre
proof { T::laws(); card_view(*self, self.__priv_repr, T::Repr::width() as int); }
@end
@fn enumset/src/set.rs | impl<T: EnumSetType> EnumSet<T> | is_empty | path=EnumSet::
@spec
ensures r == (forall|i: int| !(#[trigger] self.has(i))), r == (card(*self, T::Repr::width() as int) == 0),
@pre
proof { T::laws(); T::Repr::laws(); card_zero(*self, T::Repr::width() as int);
    if exists|i: int| #[trigger] self.has(i) { let i = choose|i: int| #[trigger] self.has(i); assert(self.__priv_repr.has(i)); assert(0 <= i < T::Repr::width()); }
}
@end
@props C02
@fn enumset/src/set.rs | impl<T: EnumSetType> EnumSet<T> | clear | path=EnumSet::
@spec
ensures forall|i: int| !(#[trigger] final(self).has(i)),
@end
@props C04
@fn enumset/src/set.rs | impl<T: EnumSetType> EnumSet<T> | is_disjoint | path=EnumSet::
@spec
ensures r == (forall|i: int| !(#[trigger] self.has(i) && #[trigger] other.has(i))),
@pre
proof {
    T::laws(); T::Repr::laws();
    assert forall|i: int| #![trigger self.has(i), other.has(i)] v_bitand(*self, other).has(i) == (self.has(i) && other.has(i)) by {}
}
@end
@fn enumset/src/set.rs | impl<T: EnumSetType> EnumSet<T> | is_superset | path=EnumSet::
@spec
ensures r == (forall|i: int| #[trigger] other.has(i) ==> self.has(i)),
@pre
proof { T::laws(); T::Repr::laws(); }
@result
proof {
    let m = self.__priv_repr.bitand_spec(other.__priv_repr);
    if forall|i: int| #[trigger] other.has(i) ==> self.has(i) { T::Repr::ext(m, other.__priv_repr); }
    else { let i = choose|i: int| #[trigger] other.has(i) && !self.has(i); assert(!m.has(i)); assert(other.__priv_repr.has(i)); }
}
@end
@fn enumset/src/set.rs | impl<T: EnumSetType> EnumSet<T> | is_subset | path=EnumSet::
@spec
ensures r == (forall|i: int| #[trigger] self.has(i) ==> other.has(i)),
@end
@props C01 C16
@fn enumset/src/set.rs | impl<T: EnumSetType> EnumSet<T> | union | path=EnumSet::
@spec
ensures forall|i: int| #![trigger r.has(i)] #![trigger self.has(i)] #![trigger other.has(i)] r.has(i) == (self.has(i) || other.has(i)),
@end
@props C01 C04
@fn enumset/src/set.rs | impl<T: EnumSetType> EnumSet<T> | intersection | path=EnumSet::
@spec
ensures forall|i: int| #![trigger r.has(i)] #![trigger self.has(i)] #![trigger other.has(i)] r.has(i) == (self.has(i) && other.has(i)),
@end
@props C01
@fn enumset/src/set.rs | impl<T: EnumSetType> EnumSet<T> | difference | path=EnumSet::
@spec
ensures forall|i: int| #![trigger r.has(i)] #![trigger self.has(i)] #![trigger other.has(i)] r.has(i) == (self.has(i) && !other.has(i)),
@end
@fn enumset/src/set.rs | impl<T: EnumSetType> EnumSet<T> | symmetrical_difference | path=EnumSet::
@spec
ensures forall|i: int| #![trigger r.has(i)] #![trigger self.has(i)] #![trigger other.has(i)] r.has(i) == (self.has(i) != other.has(i)),
@end
@fn enumset/src/set.rs | impl<T: EnumSetType> EnumSet<T> | complement | path=EnumSet::
@spec
ensures forall|i: int| #[trigger] r.has(i) == (T::declared(i) && !self.has(i)),
@end
@props C02
@fn enumset/src/set.rs | impl<T: EnumSetType> EnumSet<T> | contains | path=EnumSet::
@spec
ensures r == self.has(value.disc()),
@end
@fn enumset/src/set.rs | impl<T: EnumSetType> EnumSet<T> | insert | path=EnumSet::
@spec
ensures
    r == !old(self).has(value.disc()),
    forall|i: int| #[trigger] final(self).has(i) == (old(self).has(i) || i == value.disc()),
@end
@fn enumset/src/set.rs | impl<T: EnumSetType> EnumSet<T> | remove | path=EnumSet::
@spec
ensures
    r == old(self).has(value.disc()),
    forall|i: int| #[trigger] final(self).has(i) == (old(self).has(i) && i != value.disc()),
@end
@props C02 C16
@fn enumset/src/set.rs | impl<T: EnumSetType> EnumSet<T> | insert_all | path=EnumSet::
@spec
ensures forall|i: int| #[trigger] final(self).has(i) == (old(self).has(i) || other.has(i)),
@end
@props C02
@fn enumset/src/set.rs | impl<T: EnumSetType> EnumSet<T> | remove_all | path=EnumSet::
@spec
ensures forall|i: int| #[trigger] final(self).has(i) == (old(self).has(i) && !other.has(i)),
@end
}
pub trait Default: Sized { fn default() -> Self; }
impl<T: EnumSetType> Default for EnumSet<T> {
@props C01 C16
@fn enumset/src/set.rs | impl<T: EnumSetType> Default for EnumSet<T> | default | path=EnumSet::
@spec
ensures forall|i: int| !(#[trigger] r.has(i)),
@end
}
pub open spec fn v_bitand<T: EnumSetType>(a: EnumSet<T>, b: EnumSet<T>) -> EnumSet<T> { EnumSet { __priv_repr: a.__priv_repr.bitand_spec(b.__priv_repr) } }
pub open spec fn v_bitor<T: EnumSetType>(a: EnumSet<T>, b: EnumSet<T>) -> EnumSet<T> { EnumSet { __priv_repr: a.__priv_repr.bitor_spec(b.__priv_repr) } }
pub open spec fn v_bitxor<T: EnumSetType>(a: EnumSet<T>, b: EnumSet<T>) -> EnumSet<T> { EnumSet { __priv_repr: a.__priv_repr.bitxor_spec(b.__priv_repr) } }
pub open spec fn v_sub<T: EnumSetType>(a: EnumSet<T>, b: EnumSet<T>) -> EnumSet<T> { EnumSet { __priv_repr: a.__priv_repr.bitand_spec(b.__priv_repr.not_spec()) } }
pub open spec fn v_not<T: EnumSetType>(a: EnumSet<T>) -> EnumSet<T> { EnumSet { __priv_repr: choose|r: T::Repr| is_rest::<T>(a, r) } }
// operators, with a set or a variant on the right
@props C01 C18
@for OP op in (BitAnd,bitand) (BitOr,bitor) (BitXor,bitxor) (Sub,sub)
impl<T: EnumSetType, O: Into<EnumSet<T>>> %OP%SpecImpl<O> for EnumSet<T> {
    open spec fn obeys_%op%_spec() -> bool { true }
    open spec fn %op%_req(self, o: O) -> bool { true }
    open spec fn %op%_spec(self, o: O) -> EnumSet<T> { v_%op%(self, o.val()) }
}
impl<T: EnumSetType, O: Into<EnumSet<T>>> %OP%<O> for EnumSet<T> {
    type Output = Self;
@fn enumset/src/set.rs | impl<T: EnumSetType, O: Into<EnumSet<T>>> %OP%<O> for EnumSet<T> | %op% | path=EnumSet::
@sig fn %op%(self, other: O) -> Self::Output
@pre
proof { T::laws(); T::Repr::laws(); }
@result
proof { set_ext(res, v_%op%(self, other.val())); }
@end
}
impl<T: EnumSetType, O: Into<EnumSet<T>>> %OP%AssignSpecImpl<O> for EnumSet<T> {
    open spec fn obeys_%op%_assign_spec() -> bool { true }
    open spec fn %op%_assign_req(&self, o: O) -> bool { true }
    open spec fn %op%_assign_spec(&self, o: O) -> &EnumSet<T> { &v_%op%(*self, o.val()) }
}
impl<T: EnumSetType, O: Into<EnumSet<T>>> %OP%Assign<O> for EnumSet<T> {
@fn enumset/src/set.rs | impl<T: EnumSetType, O: Into<EnumSet<T>>> %OP%Assign<O> for EnumSet<T> | %op%_assign | path=EnumSet::
@sig fn %op%_assign(&mut self, rhs: O)
@tail
proof { set_ext(*self, v_%op%(*old(self), rhs.val())); }
@end
}
@endfor
impl<T: EnumSetType> NotSpecImpl for EnumSet<T> {
    open spec fn obeys_not_spec() -> bool { true }
    open spec fn not_req(self) -> bool { true }
    open spec fn not_spec(self) -> EnumSet<T> { v_not(self) }
}
pub open spec fn is_rest<T: EnumSetType>(s: EnumSet<T>, r: T::Repr) -> bool { forall|i: int| #[trigger] r.has(i) == (T::declared(i) && !s.has(i)) }
impl<T: EnumSetType> Not for EnumSet<T> {
    type Output = Self;
@fn enumset/src/set.rs | impl<T: EnumSetType> Not for EnumSet<T> | not | path=EnumSet::
@sig fn not(self) -> Self::Output
@result
proof { assert(is_rest::<T>(self, res.__priv_repr)); set_ext(res, v_not(self)); }
@end
}
/// What the operators' value specifications mean for membership.
pub proof fn ops_members<T: EnumSetType, O: Into<EnumSet<T>>>(a: EnumSet<T>, o: O)
    ensures
        forall|i: int| #[trigger] BitAndSpec::<O>::bitand_spec(a, o).has(i) == (a.has(i) && o.val().has(i)),
        forall|i: int| #[trigger] BitOrSpec::<O>::bitor_spec(a, o).has(i) == (a.has(i) || o.val().has(i)),
        forall|i: int| #[trigger] BitXorSpec::<O>::bitxor_spec(a, o).has(i) == (a.has(i) != o.val().has(i)),
        forall|i: int| #[trigger] SubSpec::<O>::sub_spec(a, o).has(i) == (a.has(i) && !o.val().has(i)),
{
    T::laws(); T::Repr::laws();
}
pub proof fn not_members<T: EnumSetType>(a: EnumSet<T>)
    ensures forall|i: int| #[trigger] v_not(a).has(i) == (T::declared(i) && !a.has(i)),
{
    T::laws(); T::Repr::laws();
    let r = T::Repr::not_spec(a.__priv_repr);
    assert(is_rest::<T>(a, r.bitand_spec(T::all_bits())));
}
/// `set == variant`
impl<T: EnumSetType> PartialEqSpecImpl<T> for EnumSet<T> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &T) -> bool { *self == EnumSet::one(*o) }
}
impl<T: EnumSetType> PartialEq<T> for EnumSet<T> {
@props C03 C18
@fn enumset/src/set.rs | impl<T: EnumSetType> PartialEq<T> for EnumSet<T> | eq | path=EnumSet::variant_
@sig fn eq(&self, other: &T) -> bool
@pre
proof {
    T::laws(); T::Repr::laws(); one_is(*other);
    assert forall|s: EnumSet<T>| is_single(s, other.disc()) implies s == EnumSet::<T>::one(*other) by { is_one(s, *other); }
}
@result
proof { if self.__priv_repr == EnumSet::<T>::one(*other).__priv_repr { set_ext(*self, EnumSet::one(*other)); } }
@end
}
}
}
@auto
