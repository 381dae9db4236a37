//! C18: operators on bare variants.
use crate::{fam::*, nd::*, types::*, Entry};
use enumset::EnumSet;

macro_rules! ops { ($reg:ident $kani:literal $($t:ident $w:literal;)*) => { $( #[allow(non_snake_case)] pub mod $t {
    use crate::{fam::*, nd::*, types::$t};
    use enumset::EnumSet;
    const W: usize = $w;
    pub fn variant_variant() {
        let (a, da) = any_variant::<$t, W>();
        let (b, db) = any_variant::<$t, W>();
        let (wa, wb) = (single::<W>(da), single::<W>(db));
        reach!(da == db);
        ensures!(same(&raw(a | b), &or(&wa, &wb)), "variant | variant");
        ensures!(same(&raw(a & b), &and(&wa, &wb)), "variant & variant");
        ensures!(same(&raw(a - b), &sub(&wa, &wb)), "variant - variant");
        ensures!(same(&raw(a ^ b), &xor(&wa, &wb)), "variant ^ variant");
        ensures!(same(&raw(!a), &sub(&<$t as Fam<W>>::MASK, &wa)), "!variant");
        ensures!((a == EnumSet::only(b)) == (da == db), "variant == singleton");
    }
    pub fn variant_set() {
        let (a, da) = any_variant::<$t, W>();
        let (b, wb) = any_set::<$t, W>();
        let wa = single::<W>(da);
        let s = EnumSet::only(a);
        reach!(has(&wb, da) && (!same(&wa, &wb) || <$t as Fam<W>>::D.len() == 1));
        ensures!(same(&raw(a | b), &or(&wa, &wb)) && (a | b) == (s | b), "variant | set");
        ensures!(same(&raw(a & b), &and(&wa, &wb)) && (a & b) == (s & b), "variant & set");
        ensures!(same(&raw(a - b), &sub(&wa, &wb)) && (a - b) == (s - b), "variant - set");
        ensures!(same(&raw(a ^ b), &xor(&wa, &wb)) && (a ^ b) == (s ^ b), "variant ^ set");
        ensures!((a == b) == same(&wa, &wb) && (a == b) == (s == b), "variant == set");
        ensures!((a != b) == !same(&wa, &wb), "variant != set");
        ensures!(same(&raw(b), &wb), "operand unchanged");
    }
    #[cfg(kani)] #[kani::proof] #[kani::unwind(40)] fn variant_variant_() { variant_variant() }
    #[cfg(kani)] #[kani::proof] #[kani::unwind(40)] fn variant_set_() { variant_set() }
} )*
pub const $reg: &[Entry] = &[$(
    Entry { name: concat!(module_path!(), "::", stringify!($t), "::variant_variant_"), f: $t::variant_variant, must_panic: false, kani: $kani },
    Entry { name: concat!(module_path!(), "::", stringify!($t), "::variant_set_"), f: $t::variant_set, must_panic: false, kani: $kani },
)*];
} }
ops! { OPS true D8 1; S8 1; S16 1; S32 1; S64 1; X128 2; A1 1; A2 2; A2H 2; A3 3; A4 4; R32 1; RU8 4; RC 1; One9 1; One70 2; }
#[cfg(not(kani))]
ops! { SEARCHED false D16 1; D64 1; I128 2; F128 2; R8 1; R16 1; R64 1; R128 2; RU64 1; RI16 1; One0 1; L9 9; L17 17; L4D 4; L3D 3; L5S 5; H 1094; }
#[cfg(not(kani))]
pub const ALL: &[&[Entry]] = &[OPS, SEARCHED];
