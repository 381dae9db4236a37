//! C13: constant macros against the run-time operations.
use crate::{fam::*, nd::*, types::*, Entry};
use enumset::*;

macro_rules! macros { ($reg:ident $kani:literal $($t:ident $w:literal [$a:ident $b:ident $c:ident];)*) => { $( #[allow(non_snake_case)] pub mod $t {
    use crate::{fam::*, nd::*, types::$t};
    use enumset::*;
    const W: usize = $w;
    const M: [u64; W] = <$t as Fam<W>>::MASK;
    /// Macro operands that are sets.
    pub fn sets() {
        let (a, wa) = any_set::<$t, W>();
        let (b, wb) = any_set::<$t, W>();
        let (c, wc) = any_set::<$t, W>();
        reach!(!is_zero(&wa) && !same(&wa, &wb));
        ensures!(is_zero(&raw::<$t, W>(enum_set!())), "enum_set!()");
        ensures!(same(&raw(enum_set!(a)), &wa), "enum_set!(set)");
        ensures!(same(&raw(enum_set!(a | b)), &or(&wa, &wb)), "enum_set!(set | set)");
        ensures!(same(&raw(enum_set!(a | b | c)), &or(&or(&wa, &wb), &wc)), "enum_set!(set | set | set)");
        ensures!(same(&raw(enum_set_union!(a)), &wa) && same(&raw(enum_set_union!(a, b)), &or(&wa, &wb)), "enum_set_union!");
        ensures!(same(&raw(enum_set_union!(a, b, c)), &or(&or(&wa, &wb), &wc)) && enum_set_union!(a, b, c) == a | b | c, "enum_set_union! of three");
        ensures!(same(&raw(enum_set_intersection!(a)), &wa) && same(&raw(enum_set_intersection!(a, b)), &and(&wa, &wb)), "enum_set_intersection!");
        ensures!(same(&raw(enum_set_intersection!(a, b, c)), &and(&and(&wa, &wb), &wc)) && enum_set_intersection!(a, b, c) == a & b & c, "enum_set_intersection! of three");
        ensures!(same(&raw(enum_set_difference!(a)), &wa) && same(&raw(enum_set_difference!(a, b)), &sub(&wa, &wb)), "enum_set_difference!");
        ensures!(same(&raw(enum_set_difference!(a, b, c)), &sub(&sub(&wa, &wb), &wc)) && enum_set_difference!(a, b, c) == a - b - c, "enum_set_difference! of three");
        ensures!(same(&raw(enum_set_symmetric_difference!(a)), &wa) && same(&raw(enum_set_symmetric_difference!(a, b)), &xor(&wa, &wb)), "enum_set_symmetric_difference!");
        ensures!(same(&raw(enum_set_symmetric_difference!(a, b, c)), &xor(&xor(&wa, &wb), &wc)) && enum_set_symmetric_difference!(a, b, c) == a ^ b ^ c, "enum_set_symmetric_difference! of three");
        ensures!(same(&raw(enum_set_complement!(a)), &sub(&M, &wa)) && enum_set_complement!(a) == !a, "enum_set_complement!");
    }
    /// Macro operands that are variants, or variants and sets mixed.
    pub fn variants() {
        let (a, da) = any_variant::<$t, W>();
        let (b, db) = any_variant::<$t, W>();
        let (s, ws) = any_set::<$t, W>();
        let (wa, wb) = (single::<W>(da), single::<W>(db));
        reach!(da != db && has(&ws, da));
        ensures!(same(&raw(enum_set!(a)), &wa), "enum_set!(variant)");
        ensures!(same(&raw(enum_set!(a | b)), &or(&wa, &wb)), "enum_set!(variant | variant)");
        ensures!(same(&raw(enum_set!(a | s | b)), &or(&or(&wa, &ws), &wb)), "enum_set!(variant | set | variant)");
        ensures!(same(&raw(enum_set_union!(s, a)), &or(&ws, &wa)), "enum_set_union!(set, variant)");
        ensures!(same(&raw(enum_set_intersection!(s, a)), &and(&ws, &wa)) && same(&raw(enum_set_intersection!(a, s)), &and(&ws, &wa)), "enum_set_intersection!(set, variant)");
        ensures!(same(&raw(enum_set_difference!(s, a, b)), &sub(&sub(&ws, &wa), &wb)), "enum_set_difference!(set, variant, variant)");
        ensures!(same(&raw(enum_set_difference!(a, s)), &sub(&wa, &ws)), "enum_set_difference!(variant, set)");
        ensures!(same(&raw(enum_set_symmetric_difference!(s, a, b)), &xor(&xor(&ws, &wa), &wb)), "enum_set_symmetric_difference!(set, variant, variant)");
        ensures!(same(&raw(enum_set_symmetric_difference!(a, b)), &xor(&wa, &wb)), "enum_set_symmetric_difference!(variant, variant)");
        ensures!(same(&raw(enum_set_complement!(a)), &sub(&M, &wa)), "enum_set_complement!(variant)");
    }
    /// Twelve operands, natively.
    pub fn many() {
        let mut s = [EnumSet::<$t>::empty(); 12];
        let mut w = [[0u64; W]; 12];
        for i in 0..12 {
            (s[i], w[i]) = if bool_() { any_set::<$t, W>() } else { let (v, d) = any_variant::<$t, W>(); (EnumSet::only(v), single::<W>(d)) };
        }
        let [a, b, c, d, e, f, g, h, i, j, k, l] = s;
        let fold = |op: fn(&[u64; W], &[u64; W]) -> [u64; W]| w[1..].iter().fold(w[0], |x, y| op(&x, y));
        ensures!(same(&raw(enum_set!(a | b | c | d | e | f | g | h | i | j | k | l)), &fold(or)), "enum_set! of twelve");
        ensures!(same(&raw(enum_set_union!(a, b, c, d, e, f, g, h, i, j, k, l)), &fold(or)), "enum_set_union! of twelve");
        ensures!(same(&raw(enum_set_intersection!(a, b, c, d, e, f, g, h, i, j, k, l)), &fold(and)), "enum_set_intersection! of twelve");
        ensures!(same(&raw(enum_set_difference!(a, b, c, d, e, f, g, h, i, j, k, l)), &fold(sub)), "enum_set_difference! of twelve");
        ensures!(same(&raw(enum_set_symmetric_difference!(a, b, c, d, e, f, g, h, i, j, k, l)), &fold(xor)), "enum_set_symmetric_difference! of twelve");
        let ([a, b, c, d, e, ..], w) = (s, &w[..5]);
        let fold = |op: fn(&[u64; W], &[u64; W]) -> [u64; W]| w[1..].iter().fold(w[0], |x, y| op(&x, y));
        ensures!(same(&raw(enum_set_union!(a, b, c, d, e)), &fold(or)) && same(&raw(enum_set!(a | b | c | d | e)), &fold(or)), "enum_set_union! and enum_set! of five");
        ensures!(same(&raw(enum_set_intersection!(a, b, c, d, e)), &fold(and)), "enum_set_intersection! of five");
        ensures!(same(&raw(enum_set_difference!(a, b, c, d, e)), &fold(sub)), "enum_set_difference! of five");
        ensures!(same(&raw(enum_set_symmetric_difference!(a, b, c, d, e)), &fold(xor)), "enum_set_symmetric_difference! of five");
        let w = &w[..4];
        let fold = |op: fn(&[u64; W], &[u64; W]) -> [u64; W]| w[1..].iter().fold(w[0], |x, y| op(&x, y));
        ensures!(same(&raw(enum_set_union!(a, b, c, d)), &fold(or)) && same(&raw(enum_set!(a | b | c | d)), &fold(or)), "enum_set_union! and enum_set! of four");
        ensures!(same(&raw(enum_set_intersection!(a, b, c, d)), &fold(and)), "enum_set_intersection! of four");
        ensures!(same(&raw(enum_set_difference!(a, b, c, d)), &fold(sub)), "enum_set_difference! of four");
        ensures!(same(&raw(enum_set_symmetric_difference!(a, b, c, d)), &fold(xor)), "enum_set_symmetric_difference! of four");
    }
    /// Constant contexts.
    pub fn consts() {
        const NONE: EnumSet<$t> = enum_set!();
        const AB: EnumSet<$t> = enum_set!($t::$a | $t::$b);
        const BC: EnumSet<$t> = enum_set!($t::$b | $t::$c);
        const U: EnumSet<$t> = enum_set_union!(AB, BC, $t::$a);
        const I: EnumSet<$t> = enum_set_intersection!(AB, BC);
        const D: EnumSet<$t> = enum_set_difference!(AB, $t::$b);
        const D3: EnumSet<$t> = enum_set_difference!(U, $t::$b, $t::$a);
        const X: EnumSet<$t> = enum_set_symmetric_difference!(AB, BC);
        const X3: EnumSet<$t> = enum_set_symmetric_difference!(AB, BC, $t::$a);
        const C: EnumSet<$t> = enum_set_complement!(AB);
        const CE: EnumSet<$t> = enum_set_complement!(NONE);
        const CC: EnumSet<$t> = enum_set_complement!(CE);
        let (a, b, c) = ($t::$a, $t::$b, $t::$c);
        reach!(true);
        ensures!(NONE == EnumSet::empty() && NONE.is_empty(), "const enum_set!()");
        ensures!(AB == a | b && BC == b | c, "const enum_set!");
        ensures!(U == a | b | c, "const enum_set_union!");
        ensures!(I == (a | b) & (b | c), "const enum_set_intersection!");
        ensures!(D == (a | b) - b && D3 == (a | b | c) - b - a, "const enum_set_difference!");
        ensures!(X == (a | b) ^ (b | c) && X3 == (a | b) ^ (b | c) ^ a, "const enum_set_symmetric_difference!");
        ensures!(C == !(a | b) && CE == EnumSet::all() && CC == EnumSet::empty(), "const enum_set_complement!");
        ensures!(same(&raw(CE), &M) && same(&raw(C), &sub(&M, &raw(a | b))), "const complements have declared variants only");
    }
    #[cfg(kani)] #[kani::proof] #[kani::unwind(40)] fn sets_() { sets() }
    #[cfg(kani)] #[kani::proof] #[kani::unwind(40)] fn variants_() { variants() }
    #[cfg(kani)] #[kani::proof] #[kani::unwind(40)] fn consts_() { consts() }
} )*
pub const $reg: &[Entry] = &[$(
    Entry { name: concat!(module_path!(), "::", stringify!($t), "::sets_"), f: $t::sets, must_panic: false, kani: $kani },
    Entry { name: concat!(module_path!(), "::", stringify!($t), "::variants_"), f: $t::variants, must_panic: false, kani: $kani },
    Entry { name: concat!(module_path!(), "::", stringify!($t), "::consts_"), f: $t::consts, must_panic: false, kani: $kani },
    Entry { name: concat!(module_path!(), "::", stringify!($t), "::many"), f: $t::many, must_panic: false, kani: false },
)*];
} }
macros! {
    MACROS true
    S8 1 [V6 V0 V4]; S16 1 [V3 V15 V8]; S32 1 [V30 V31 V0]; S64 1 [V63 V0 V32]; X128 2 [V127 V63 V64];
    A1 1 [V63 V5 V0]; A2 2 [V100 V63 V64]; A2H 2 [V64 V90 V127]; A3 3 [V191 V1 V128]; A4 4 [V5 V255 V200];
    R32 1 [V2 V31 V0]; R128 2 [V2 V40 V0]; RU8 4 [V200 V5 V64];
}
#[cfg(not(kani))]
macros! {
    SEARCHED false
    D8 1 [V0 V7 V3]; D16 1 [V0 V15 V8]; D64 1 [V63 V0 V32]; I128 2 [V127 V0 V64]; R8 1 [V7 V0 V3]; L17 17 [V1087 V0 V1023]; H 1094 [V70000 V64 V65535];
}
#[cfg(not(kani))]
pub const ALL: &[&[Entry]] = &[MACROS, SEARCHED];
