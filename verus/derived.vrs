verus! {
/// Code the derive writes for an enum: the text inside its quote! templates, with the enum's name replaced by
/// a type parameter. A type parameter cannot carry a foreign impl, so the impl headers become local traits.
pub mod derived {
use super::*;
use super::repr::*;
use super::bits::*;
use super::piter::*;
use super::ty::*;
use super::set::*;
use super::array::*;
broadcast use repr_has;
@auto proof { T::laws(); T::Repr::laws(); facts::<T>(); }
@props C18
@for OP op cond in (Sub,sub,i == self.disc() && !other.val().has(i)) (BitAnd,bitand,i == self.disc() && other.val().has(i)) (BitOr,bitor,i == self.disc() || other.val().has(i)) (BitXor,bitxor,(i == self.disc()) != other.val().has(i))
pub trait Variant%OP%<O: Into<EnumSet<Self>>>: EnumSetType {
    fn %op%(self, other: O) -> (r: EnumSet<Self>)
        ensures r == v_%op%(EnumSet::one(self), other.val()), forall|i: int| #[trigger] r.has(i) == (%cond%);
}
impl<T: EnumSetType, __O: Into<EnumSet<T>>> Variant%OP%<__O> for T {
@fn enumset_derive/src/lib.rs#quote | impl<__O: Into<EnumSet<T>>> %OP%<__O> for T | %op% | path=variant::
@rewrite maybe sig Self::Output ==> EnumSet<T>
@pre
proof { one_is(self); ops_members::<T, __O>(EnumSet::one(self), other); set_ext(v_%op%(EnumSet::one(self), other.val()), %OP%Spec::<__O>::%op%_spec(EnumSet::<T>::one(self), other)); }
@result
proof { set_ext(res, v_%op%(EnumSet::one(self), other.val())); }
@end
}
@endfor
pub trait VariantNot: EnumSetType {
    fn not(self) -> (r: EnumSet<Self>)
        ensures r == v_not(EnumSet::one(self)), forall|i: int| #[trigger] r.has(i) == (Self::declared(i) && i != self.disc());
}
impl<T: EnumSetType> VariantNot for T {
@fn enumset_derive/src/lib.rs#quote | impl Not for T | not | path=variant::
@rewrite maybe sig Self::Output ==> EnumSet<T>
@pre
proof { one_is(self); }
@result
proof { not_members(EnumSet::one(self)); set_ext(res, v_not(EnumSet::one(self))); }
@end
}
pub trait VariantEq: EnumSetType {
    fn eq(&self, other: &EnumSet<Self>) -> (r: bool)
        ensures r == (*other == EnumSet::one(*self));
}
impl<T: EnumSetType> VariantEq for T {
@props C18 C03
@fn enumset_derive/src/lib.rs#quote | impl PartialEq<EnumSet<T>> for T | eq | path=variant::
@pre
proof { one_is(*self); }
@end
}

/// `variant as iN`: the discriminant, as the language defines the cast.
pub trait Cast: EnumSetType {
    fn as_u8(self) -> (r: u8) ensures r == self.disc() as u8;
    fn as_u16(self) -> (r: u16) ensures r == self.disc() as u16;
    fn as_u32(self) -> (r: u32) ensures r == self.disc() as u32;
    fn as_u64(self) -> (r: u64) ensures r == self.disc() as u64;
    fn as_u128(self) -> (r: u128) ensures r == self.disc() as u128;
}
impl<T: EnumSetType> Cast for T {
    #[verifier::external_body] fn as_u8(self) -> u8 { unimplemented!() }
    #[verifier::external_body] fn as_u16(self) -> u16 { unimplemented!() }
    #[verifier::external_body] fn as_u32(self) -> u32 { unimplemented!() }
    #[verifier::external_body] fn as_u64(self) -> u64 { unimplemented!() }
    #[verifier::external_body] fn as_u128(self) -> u128 { unimplemented!() }
}
// ---- converting a variant to its bit and back
/// The derive's lists of variants and discriminants, in the same order: they describe the enum.
pub open spec fn lists<T: EnumSetType>(variant_value: Seq<u32>, variant_name: Seq<T>) -> bool {
    &&& variant_value.len() == variant_name.len()
    &&& forall|k: int| 0 <= k < variant_value.len() ==> (#[trigger] variant_name[k]).disc() == variant_value[k]
    &&& forall|i: int| #[trigger] T::declared(i) ==> exists|k: int| 0 <= k < variant_value.len() && #[trigger] variant_value[k] == i
}
#[verifier::external_body]
pub fn some_condition() -> bool { unimplemented!() }
@props C11 C05
@check enumset_derive/src/lib.rs | let variant_name: Vec<_> = info.variants.iter().map(|x| &x.name).collect();
@check enumset_derive/src/lib.rs | let variant_value: Vec<_> = info.variants.iter().map(|x| x.variant_repr).collect();
@check enumset_derive/src/lib.rs | let is_uninhabited = info.variants.is_empty();
@check enumset_derive/src/lib.rs | let is_zst = info.variants.len() == 1; let into_impl = if is_uninhabited {
@check enumset_derive/src/lib.rs | let variant = &info.variants[0].name;
@for V k in (One,1) (Many,2)
pub trait Variant%V%: EnumSetType + Cast {
    fn into_bit_%V%(self) -> (r: u32)
        ensures r == self.disc();
    unsafe fn from_bit_%V%(val: u32, variant_value: &[u32], variant_name: &[Self]) -> (r: Self)
        requires Self::declared(val as int), lists(variant_value@, variant_name@), %k% == 1 ==> variant_name@.len() == 1,
        ensures r.disc() == val;
}
impl<T: EnumSetType> Variant%V% for T {
@fn enumset_derive/src/lib.rs#frag:into_impl:%k% | - | enum_into_u32 | path=derived:: | as=into_bit_%V%
@rewrite self as u32 ==> self.as_u32()
@pre
proof { assert(T::declared(self.disc())); }
@end
@fn enumset_derive/src/lib.rs#frag:into_impl:%k% | - | enum_from_u32 | path=derived:: | as=from_bit_%V%
@rewrite sig (val: u32) ==> (val: u32, variant_value: &[u32], variant_name: &[Self])
@rewrite maybe T::#variant ==> variant_name[0]
@rewrite maybe #(const #const_field: bool = #core::mem::size_of::<T>() == #core::mem::size_of::<#int_type>();)* ==>
@rewrite maybe match val { #(#variant_value => T::#variant_name,)* ==> let mut k: usize = 0; while k < variant_value.len() invariant k <= variant_value@.len(), variant_value@.len() == variant_name@.len(), forall|j: int| 0 <= j < k ==> #[trigger] variant_value@[j] != val decreases variant_value@.len() - k { if val == variant_value[k] { return variant_name[k]; } k += 1; } match val {
@rewrite maybe #(x if #const_field => { let x = x as #int_type; *(&x as *const _ as *const T) })* ==> x if some_condition() => unreached(),
@rewrite maybe #core::hint::unreachable_unchecked() ==> unreached()
@end
}
@endfor

@props C11
pub trait VariantSame: EnumSetType {
    fn same(&self, other: &Self) -> (r: bool)
        ensures r == (*self == *other);
    fn copy_of(&self) -> (r: Self)
        ensures r == *self;
}
impl<T: EnumSetType> VariantSame for T {
@fn enumset_derive/src/lib.rs#quote | impl PartialEq for T | eq | path=derived:: | as=same
@interp eq_impl 1 | if is_uninhabited {
@rewrite maybe *self as u32 ==> self.as_u32()
@rewrite maybe *other as u32 ==> other.as_u32()
@pre
proof { assert(T::declared(self.disc()) && T::declared(other.disc())); }
@end
@fn enumset_derive/src/lib.rs#quote | impl Clone for T | clone | path=derived:: | as=copy_of
@end
}

// ---- the functions behind the constant macros
@props C13
@for t w in (u8,8) (u16,16) (u32,32) (u64,64) (u128,128)
pub mod only_%t% {
use super::*;
broadcast use {repr_has, bit_facts};
pub trait ConstOnly: EnumSetType {
    fn __impl_enumset_internal__const_only(self) -> (r: EnumSet<Self>)
        ensures is_single(r, self.disc());
}
impl<T: EnumSetType<Repr = %t%>> ConstOnly for T {
@fn enumset_derive/src/lib.rs#quote | impl T | __impl_enumset_internal__const_only:0 | path=derived::%t%:: | nopub
@interp self_as_repr_mask 1 | if is_uninhabited { quote! { 0 } } else {
@rewrite self as #repr ==> self.as_%t%()
@pre
proof { one_%t%(0, self.disc() as %t%); assert(T::declared(self.disc())); }
@end
}
}
@endfor
/// What the macros ask of the helper the derive writes for an enum, whatever its storage.
pub trait ConstHelperOps<T: EnumSetType>: Sized {
    spec fn is_for(&self) -> bool;
@for op v in (union,bitor) (intersection,bitand) (symmetric_difference,bitxor)
    fn const_%op%(&self, chain_a: EnumSet<T>, chain_b: EnumSet<T>) -> (r: EnumSet<T>)
        ensures r == v_%v%(chain_a, chain_b);
@endfor
    fn const_complement(&self, chain: EnumSet<T>) -> (r: EnumSet<T>)
        ensures r == v_not(chain);
}
/// enum_set_type_impl, integer storage
pub mod helper_int {
use super::*;
broadcast use repr_has;
pub struct __EnumSetConstHelper<T: EnumSetType>(pub core::marker::PhantomData<T>);
impl<T: EnumSetType> ConstHelperOps<T> for __EnumSetConstHelper<T> {
    open spec fn is_for(&self) -> bool { true }
@for op v in (union,bitor) (intersection,bitand) (symmetric_difference,bitxor)
@fn enumset_derive/src/lib.rs#quote | impl __EnumSetConstHelper | const_%op%:0 | path=derived::int:: | nopub
@result
proof { set_ext(res, v_%v%(chain_a, chain_b)); }
@end
@endfor
@fn enumset_derive/src/lib.rs#quote | impl __EnumSetConstHelper | const_complement:0 | path=derived::int:: | nopub
@result
proof { assert(is_rest::<T>(chain, res.__priv_repr)); set_ext(res, v_not(chain)); }
@end
}
}
/// enum_set_type_impl, array storage
pub mod helper_array {
use super::*;
broadcast use {repr_has, bit_facts};
pub trait ConstOnly<const N: usize>: EnumSetType<Repr = ArrayRepr<N>> {
    fn __impl_enumset_internal__const_only(self) -> (r: EnumSet<Self>)
        ensures is_single(r, self.disc());
}
impl<T: EnumSetType<Repr = ArrayRepr<N>>, const N: usize> ConstOnly<N> for T {
@fn enumset_derive/src/lib.rs#quote | impl T | __impl_enumset_internal__const_only:1 | path=derived::array:: | nopub
@rewrite maybe #size ==> N
@rewrite self as u32 ==> self.as_u32()
@pre
proof { assert(T::declared(self.disc())); }
@after let (idx, bit) = (bit as usize / 64, bit % 64);
proof {
    one_u64(0, bit as u64); iszero_u64(0);
    zero_words(set.__priv_repr.0@, 0, N as int);
    word_at(set.__priv_repr.0@, idx as int);
    ops_u64(0, 1u64 << bit);
}
@result
proof {
    assert(forall|j: int| 0 <= j < N && j != idx ==> #[trigger] res.__priv_repr.0@[j] == 0);
    assert(forall|k: int| #[trigger] res.__priv_repr.0@[idx as int].has(k) == (k == bit));
    assert forall|i: int| #[trigger] res.has(i) == (i == self.disc()) by {
        if 0 <= i < 64 * N && i / 64 == idx { assert(res.has(i) == res.__priv_repr.0@[idx as int].has(i % 64)); }
        if 0 <= i < 64 * N && i / 64 != idx { assert(res.__priv_repr.0@[i / 64] == 0); iszero_u64(0); }
    }
}
@end
}
pub struct __EnumSetConstHelper<T: EnumSetType>(pub core::marker::PhantomData<T>);
impl<T: EnumSetType<Repr = ArrayRepr<N>>, const N: usize> ConstHelperOps<T> for __EnumSetConstHelper<T> {
    open spec fn is_for(&self) -> bool { true }
@for op v sym a in (union,bitor,|,or) (intersection,bitand,&,and) (symmetric_difference,bitxor,^,xor)
@fn enumset_derive/src/lib.rs#quote | impl __EnumSetConstHelper | const_%op%:1 | path=derived::array:: | nopub
@rewrite maybe #size ==> N
@loop 0 | while i < N
    invariant
        i <= N,
        forall|j: int| 0 <= j < i ==> #[trigger] chain_a_.__priv_repr.0@[j] == chain_a.__priv_repr.0@[j] %sym% chain_b.__priv_repr.0@[j],
        forall|j: int| i <= j < N ==> #[trigger] chain_a_.__priv_repr.0@[j] == chain_a.__priv_repr.0@[j],
    decreases N - i
@result
proof { words_%a%(chain_a.__priv_repr, chain_b.__priv_repr); assert(is_%a%(chain_a.__priv_repr, chain_b.__priv_repr, res.__priv_repr)); }
@end
@endfor
@fn enumset_derive/src/lib.rs#quote | impl __EnumSetConstHelper | const_complement:1 | path=derived::array:: | nopub
@rewrite maybe #size ==> N
@loop 0 | while i < N
    invariant
        i <= N,
        forall|i: int| #[trigger] all.has(i) == T::declared(i),
        forall|j: int| 0 <= j < i ==> #[trigger] chain_.__priv_repr.0@[j] == !chain.__priv_repr.0@[j] & all.__priv_repr.0@[j],
        forall|j: int| i <= j < N ==> #[trigger] chain_.__priv_repr.0@[j] == chain.__priv_repr.0@[j],
    decreases N - i
@result
proof {
    assert forall|i: int| #[trigger] res.__priv_repr.has(i) == (T::declared(i) && !chain.has(i)) by {
        assert(all.__priv_repr.has(i) == T::declared(i));
        if 0 <= i < 64 * N {
            assert(res.__priv_repr.0@[i / 64] == !chain.__priv_repr.0@[i / 64] & all.__priv_repr.0@[i / 64]);
            ops_u64(!chain.__priv_repr.0@[i / 64], all.__priv_repr.0@[i / 64]);
            ops_u64(chain.__priv_repr.0@[i / 64], 0);
        }
    }
    assert(is_rest::<T>(chain, res.__priv_repr)); set_ext(res, v_not(chain));
}
@end
}
}
/// An enum as the macros see it.
pub trait MacroEnum: EnumSetType {
    type ConstHelper: ConstHelperOps<Self>;
    fn CONST_HELPER_INSTANCE() -> Self::ConstHelper;
    /// One of the two functions of that name proved above.
    fn __impl_enumset_internal__const_only(self) -> (r: EnumSet<Self>)
        ensures is_single(r, self.disc());
    /// `__EnumSetConstHelper`: the value of a unit struct.
    fn __impl_enumset_internal__const_helper(self) -> Self::ConstHelper;
}
impl<T: MacroEnum> EnumSet<T> {
@props C13
@fn enumset/src/set.rs | impl<T: EnumSetType> EnumSet<T> | __impl_enumset_internal__const_helper | path=EnumSet::
@end
@fn enumset/src/set.rs | impl<T: EnumSetType> EnumSet<T> | __impl_enumset_internal__const_only | path=EnumSet::
@spec
ensures r == self,
@end
}
/// An operand of a macro: a variant or a set.
pub enum Operand<T: MacroEnum> { V(T), S(EnumSet<T>) }
impl<T: MacroEnum> Copy for Operand<T> {}
impl<T: MacroEnum> Clone for Operand<T> {
    fn clone(&self) -> (r: Self) ensures r == *self { *self }
}
impl<T: MacroEnum> Operand<T> {
    pub open spec fn val(self) -> EnumSet<T> { match self { Operand::V(v) => EnumSet::one(v), Operand::S(s) => s } }
    pub fn __impl_enumset_internal__const_only(self) -> (r: EnumSet<T>)
        ensures r == self.val()
    {
        match self {
            Operand::V(v) => { let r = v.__impl_enumset_internal__const_only(); proof { is_one(r, v); } r }
            Operand::S(s) => s.__impl_enumset_internal__const_only(),
        }
    }
    pub fn __impl_enumset_internal__const_helper(self) -> T::ConstHelper {
        match self { Operand::V(v) => v.__impl_enumset_internal__const_helper(), Operand::S(s) => s.__impl_enumset_internal__const_helper() }
    }
}
// macros.rs: each rule as a function. $value is `first`, the repetition $rest a slice of any length.
@macro enumset/src/macros.rs | enum_set | 0 | as=enum_set_none
@sig fn enum_set_none<T: MacroEnum>() -> EnumSet<T>
@spec
ensures forall|i: int| !(#[trigger] r.has(i)),
@end
@macro enumset/src/macros.rs | enum_set | 1 | as=enum_set_one
@sig fn enum_set_one<T: MacroEnum>(first: Operand<T>) -> EnumSet<T>
@spec
ensures r == first.val(),
@end
@for op v in (union,bitor) (intersection,bitand) (difference,sub) (symmetric_difference,bitxor)
/// The run-time operator applied from left to right.
pub open spec fn fold_%op%<T: MacroEnum>(first: EnumSet<T>, rest: Seq<Operand<T>>, n: int) -> EnumSet<T>
    decreases n
{
    if n <= 0 { first } else { v_%v%(fold_%op%(first, rest, n - 1), rest[n - 1].val()) }
}
@macro enumset/src/macros.rs | enum_set_%op% | 0 | as=enum_set_%op%_one
@rewrite maybe enum_set!($value) ==> enum_set_one(first)
@rewrite maybe enum_set!(first) ==> enum_set_one(first)
@sig fn enum_set_%op%_one<T: MacroEnum>(first: Operand<T>) -> EnumSet<T>
@spec
ensures r == first.val(),
@end
@macro enumset/src/macros.rs | enum_set_%op% | 1 | as=enum_set_%op%_all
@sig fn enum_set_%op%_all<T: MacroEnum>(first: Operand<T>, rest: &[Operand<T>]) -> EnumSet<T>
@spec
requires first.val().wf(), forall|j: int| 0 <= j < rest@.len() ==> (#[trigger] rest@[j]).val().wf(),
ensures r == fold_%op%(first.val(), rest@, rest@.len() as int), r.wf(),
@loop 0 | while k < rest.len()
    invariant
        k <= rest@.len(),
        value == fold_%op%(first.val(), rest@, k as int),
        value.wf(),
    decreases rest@.len() - k
@before k += 1
proof { assert(rest@[k as int].val().wf()); not_members(item.val()); set_ext(value, fold_%op%(first.val(), rest@, k + 1)); }
@end
@endfor
@macro enumset/src/macros.rs | enum_set | 2 | as=enum_set_many
@rewrite enum_set_union!(first, rest) ==> enum_set_union_all(first, rest)
@sig fn enum_set_many<T: MacroEnum>(first: Operand<T>, rest: &[Operand<T>]) -> EnumSet<T>
@spec
requires first.val().wf(), forall|j: int| 0 <= j < rest@.len() ==> (#[trigger] rest@[j]).val().wf(),
ensures r == fold_union(first.val(), rest@, rest@.len() as int),
@end
@macro enumset/src/macros.rs | enum_set_complement | 0 | as=enum_set_complement_of
@sig fn enum_set_complement_of<T: MacroEnum>(first: Operand<T>) -> EnumSet<T>
@spec
ensures r == v_not(first.val()),
@end
@auto
}
}
