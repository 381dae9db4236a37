//! C07: truncating integer conversions.
use crate::{fam::*, nd::*, Entry};
use enumset::EnumSet;

macro_rules! kinds { ($( $ty:ident $to:ident $from:ident $unchecked:ident; )*) => {
    pub fn out<T: Fam<W>, const W: usize>() {
        let (a, wa) = any_set::<T, W>();
        reach!(!is_zero(&wa));
        $( ensures!(a.$to() == low128(&wa) as $ty, concat!(stringify!($to), " is the low bits of the value")); )*
        ensures!(same(&raw(a), &wa), "operand unchanged");
    }
    pub fn in_<T: Fam<W>, const W: usize>() {
        $(
            let v: $ty = any();
            let w = words_trunc::<W>(v as u128);
            reach!(!is_zero(&sub(&w, &T::MASK)) || low128(&T::MASK) as $ty == <$ty>::MAX);
            ensures!(same(&raw(EnumSet::<T>::$from(v)), &and(&w, &T::MASK)), concat!(stringify!($from), " keeps exactly the declared bits"));
        )*
    }
    pub fn unchecked<T: Fam<W>, const W: usize>() {
        $(
            // every valid value is some value masked with the declared bits
            let v: $ty = any::<$ty>() & low128(&T::MASK) as $ty;
            let s = unsafe { EnumSet::<T>::$unchecked(v) };
            ensures!(same(&raw(s), &words_trunc::<W>(v as u128)), concat!(stringify!($unchecked), " is exact on valid values"));
            ensures!(s == EnumSet::<T>::$from(v), concat!(stringify!($unchecked), " agrees with the truncating form"));
        )*
        reach!(true);
    }
} }
kinds! {
    u8 as_u8_truncated from_u8_truncated from_u8_unchecked;
    u16 as_u16_truncated from_u16_truncated from_u16_unchecked;
    u32 as_u32_truncated from_u32_truncated from_u32_unchecked;
    u64 as_u64_truncated from_u64_truncated from_u64_unchecked;
    u128 as_u128_truncated from_u128_truncated from_u128_unchecked;
    usize as_usize_truncated from_usize_truncated from_usize_unchecked;
}
on!(conv, out, total, 40);
on!(conv, in_, total, 40);
on!(conv, unchecked, total, 80);
pub const ALL: &[&[Entry]] = &[out::REG, in_::REG, unchecked::REG];
