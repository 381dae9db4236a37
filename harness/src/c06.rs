//! C06: checked integer conversions.
use crate::{fam::*, nd::*, Entry};
use enumset::EnumSet;

/// The set's integer value if it is below `1 << bits`.
fn value<const W: usize>(w: &[u64; W], bits: u32) -> Option<u128> {
    if above(w, bits) { None } else { Some(low128(w)) }
}
/// The words of `v`, if every bit of `v` belongs to a declared variant.
fn valid<T: Fam<W>, const W: usize>(v: u128) -> Option<[u64; W]> {
    match words_of::<W>(v) {
        Some(w) => if is_zero(&sub(&w, &T::MASK)) { Some(w) } else { None },
        None => None,
    }
}
macro_rules! kinds { ($( $i:literal $ty:ident $bits:literal $to:ident $tryto:ident $from:ident $tryfrom:ident; )*) => {
    pub fn out<T: Fam<W>, const W: usize>() {
        let (a, wa) = any_set::<T, W>();
        reach!(!is_zero(&wa));
        $(
            let want = value(&wa, $bits);
            let got = a.$tryto();
            ensures!(match (got, want) { (Some(g), Some(w)) => g as u128 == w, (None, None) => true, _ => false },
                concat!(stringify!($tryto), " is Some(value) exactly when it fits"));
            if let Some(w) = want {
                ensures!(a.$to() as u128 == w, concat!(stringify!($to), " is the value when it fits"));
                ensures!(same(&raw(EnumSet::<T>::$from(a.$to())), &wa), concat!(stringify!($ty), " out and back is the identity"));
            }
        )*
        ensures!(same(&raw(a), &wa), "operand unchanged");
    }
    pub fn in_<T: Fam<W>, const W: usize>() {
        $(
            let v: $ty = any();
            let want = valid::<T, W>(v as u128);
            reach!(want.is_some() && v != 0);
            match (EnumSet::<T>::$tryfrom(v), want) {
                (Some(s), Some(w)) => {
                    ensures!(same(&raw(s), &w), concat!(stringify!($tryfrom), " gives exactly the set"));
                    ensures!(s.$tryto() == Some(v), concat!(stringify!($ty), " in and back is the identity"));
                    ensures!(same(&raw(EnumSet::<T>::$from(v)), &w), concat!(stringify!($from), " gives exactly the set"));
                }
                (None, None) => {}
                _ => ensures!(false, concat!(stringify!($tryfrom), " accepts exactly the valid values")),
            }
        )*
    }
    /// Every value all of whose bits are declared.
    pub fn in_valid<T: Fam<W>, const W: usize>() {
        $(
            let v: $ty = any::<$ty>() & low128(&T::MASK) as $ty;
            ensures!(match EnumSet::<T>::$tryfrom(v) { Some(s) => same(&raw(s), &words_trunc::<W>(v as u128)), None => false },
                concat!(stringify!($tryfrom), " accepts every valid value"));
            ensures!(EnumSet::<T>::$from(v).$to() == v, concat!(stringify!($ty), " in and back is the identity on valid values"));
        )*
        reach!(true);
    }
    pub fn out_panics<T: Fam<W>, const W: usize>() {
        let (a, wa) = any_set::<T, W>();
        match below(6) {
            $( $i => { requires!(value(&wa, $bits).is_none()); let _ = a.$to(); returned(concat!(stringify!($to), " of a set that does not fit")) } )*
            _ => {}
        }
    }
    pub fn in_panics<T: Fam<W>, const W: usize>() {
        match below(6) {
            $( $i => { let v: $ty = any(); requires!(valid::<T, W>(v as u128).is_none()); let _ = EnumSet::<T>::$from(v); returned(concat!(stringify!($from), " of an invalid value")) } )*
            _ => {}
        }
    }
} }
kinds! {
    0 u8 8 as_u8 try_as_u8 from_u8 try_from_u8;
    1 u16 16 as_u16 try_as_u16 from_u16 try_from_u16;
    2 u32 32 as_u32 try_as_u32 from_u32 try_from_u32;
    3 u64 64 as_u64 try_as_u64 from_u64 try_from_u64;
    4 u128 128 as_u128 try_as_u128 from_u128 try_from_u128;
    5 usize 64 as_usize try_as_usize from_usize try_from_usize;
}
on!(conv, out, total, 40);
on!(conv, in_, total, 40);
on!(conv, in_valid, total, 40);
on!(wide, out_panics, panics, 40);
on!(conv, in_panics, panics, 40);
pub const ALL: &[&[Entry]] = &[out::REG, in_::REG, in_valid::REG, out_panics::REG, in_panics::REG];
