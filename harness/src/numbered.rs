// Generated by tools/gen_types.py; do not edit.
#![allow(dead_code)]
use crate::fam::Fam;
use enumset::EnumSetType;

#[repr(i16)]
#[derive(EnumSetType)]
pub enum N0 { V24 = 24, V25, V23 = 0o27, V41 = 0x29, V42, V61 = 6_1, V2 = 2, V29 = 0x1d }
impl Fam<1> for N0 { fn nth(i: usize) -> Self { match i { 0 => N0::V24, 1 => N0::V25, 2 => N0::V23, 3 => N0::V41, 4 => N0::V42, 5 => N0::V61, 6 => N0::V2, _ => N0::V29 } } const D: &'static [u32] = &[24, 25, 23, 41, 42, 61, 2, 29]; }
const _: () = { assert!(N0::V24 as u32 == 24); assert!(N0::V25 as u32 == 25); assert!(N0::V23 as u32 == 23); assert!(N0::V41 as u32 == 41); assert!(N0::V42 as u32 == 42); assert!(N0::V61 as u32 == 61); assert!(N0::V2 as u32 == 2); assert!(N0::V29 as u32 == 29); };
#[repr(isize)]
#[derive(EnumSetType)]
#[enumset(repr = "u64")]
pub enum N1 { V1 = 0x1, V9 = 0b1001, V10, V11, V12, V13, V62 = 62, V18 = 0o22, V47 = 4_7, V48 }
impl Fam<1> for N1 { fn nth(i: usize) -> Self { match i { 0 => N1::V1, 1 => N1::V9, 2 => N1::V10, 3 => N1::V11, 4 => N1::V12, 5 => N1::V13, 6 => N1::V62, 7 => N1::V18, 8 => N1::V47, _ => N1::V48 } } const D: &'static [u32] = &[1, 9, 10, 11, 12, 13, 62, 18, 47, 48]; }
const _: () = { assert!(N1::V1 as u32 == 1); assert!(N1::V9 as u32 == 9); assert!(N1::V10 as u32 == 10); assert!(N1::V11 as u32 == 11); assert!(N1::V12 as u32 == 12); assert!(N1::V13 as u32 == 13); assert!(N1::V62 as u32 == 62); assert!(N1::V18 as u32 == 18); assert!(N1::V47 as u32 == 47); assert!(N1::V48 as u32 == 48); };
#[repr(i64)]
#[derive(EnumSetType)]
pub enum N2 { V0, V11 = 0o13, V42 = 0o52, V38 = 3_8, V39 }
impl Fam<1> for N2 { fn nth(i: usize) -> Self { match i { 0 => N2::V0, 1 => N2::V11, 2 => N2::V42, 3 => N2::V38, _ => N2::V39 } } const D: &'static [u32] = &[0, 11, 42, 38, 39]; }
const _: () = { assert!(N2::V0 as u32 == 0); assert!(N2::V11 as u32 == 11); assert!(N2::V42 as u32 == 42); assert!(N2::V38 as u32 == 38); assert!(N2::V39 as u32 == 39); };
#[derive(EnumSetType)]
pub enum N3 { V0, V1, V2, V3, V58 = 5_8, V59, V66 = 6_6 }
impl Fam<2> for N3 { fn nth(i: usize) -> Self { match i { 0 => N3::V0, 1 => N3::V1, 2 => N3::V2, 3 => N3::V3, 4 => N3::V58, 5 => N3::V59, _ => N3::V66 } } const D: &'static [u32] = &[0, 1, 2, 3, 58, 59, 66]; }
const _: () = { assert!(N3::V0 as u32 == 0); assert!(N3::V1 as u32 == 1); assert!(N3::V2 as u32 == 2); assert!(N3::V3 as u32 == 3); assert!(N3::V58 as u32 == 58); assert!(N3::V59 as u32 == 59); assert!(N3::V66 as u32 == 66); };
#[repr(usize)]
#[derive(EnumSetType)]
#[enumset(repr = "array")]
pub enum N4 { V0, V70 = 0o106, V71, V72, V73, V74, V18 = 18 }
impl Fam<2> for N4 { fn nth(i: usize) -> Self { match i { 0 => N4::V0, 1 => N4::V70, 2 => N4::V71, 3 => N4::V72, 4 => N4::V73, 5 => N4::V74, _ => N4::V18 } } const D: &'static [u32] = &[0, 70, 71, 72, 73, 74, 18]; }
const _: () = { assert!(N4::V0 as u32 == 0); assert!(N4::V70 as u32 == 70); assert!(N4::V71 as u32 == 71); assert!(N4::V72 as u32 == 72); assert!(N4::V73 as u32 == 73); assert!(N4::V74 as u32 == 74); assert!(N4::V18 as u32 == 18); };
#[derive(EnumSetType)]
pub enum N5 { V0 }
impl Fam<1> for N5 { fn nth(_: usize) -> Self { N5::V0 } const D: &'static [u32] = &[0]; }
const _: () = { assert!(N5::V0 as u32 == 0); };
#[repr(i64)]
#[derive(EnumSetType)]
pub enum N6 { V0, V1 = 1, V8 = 0o10, V3 = 3, V4, V2 = 0o2, V5 = 0x5, V6 = 6, V7 }
impl Fam<1> for N6 { fn nth(i: usize) -> Self { match i { 0 => N6::V0, 1 => N6::V1, 2 => N6::V8, 3 => N6::V3, 4 => N6::V4, 5 => N6::V2, 6 => N6::V5, 7 => N6::V6, _ => N6::V7 } } const D: &'static [u32] = &[0, 1, 8, 3, 4, 2, 5, 6, 7]; }
const _: () = { assert!(N6::V0 as u32 == 0); assert!(N6::V1 as u32 == 1); assert!(N6::V8 as u32 == 8); assert!(N6::V3 as u32 == 3); assert!(N6::V4 as u32 == 4); assert!(N6::V2 as u32 == 2); assert!(N6::V5 as u32 == 5); assert!(N6::V6 as u32 == 6); assert!(N6::V7 as u32 == 7); };
#[repr(i32)]
#[derive(EnumSetType)]
pub enum N7 { V0, V55 = 5_5, V56, V57, V79 = 0x4f, V80, V81, V82, V4 = 0x4, V104 = 0x68 }
impl Fam<2> for N7 { fn nth(i: usize) -> Self { match i { 0 => N7::V0, 1 => N7::V55, 2 => N7::V56, 3 => N7::V57, 4 => N7::V79, 5 => N7::V80, 6 => N7::V81, 7 => N7::V82, 8 => N7::V4, _ => N7::V104 } } const D: &'static [u32] = &[0, 55, 56, 57, 79, 80, 81, 82, 4, 104]; }
const _: () = { assert!(N7::V0 as u32 == 0); assert!(N7::V55 as u32 == 55); assert!(N7::V56 as u32 == 56); assert!(N7::V57 as u32 == 57); assert!(N7::V79 as u32 == 79); assert!(N7::V80 as u32 == 80); assert!(N7::V81 as u32 == 81); assert!(N7::V82 as u32 == 82); assert!(N7::V4 as u32 == 4); assert!(N7::V104 as u32 == 104); };
#[repr(u8)]
#[derive(EnumSetType)]
#[enumset(repr = "u64")]
pub enum N8 { V17 = 0o21, V24 = 24, V41 = 0x29, V33 = 33, V21 = 21, V63 = 63, V48 = 48, V62 = 62, V5 = 5, V6 }
impl Fam<1> for N8 { fn nth(i: usize) -> Self { match i { 0 => N8::V17, 1 => N8::V24, 2 => N8::V41, 3 => N8::V33, 4 => N8::V21, 5 => N8::V63, 6 => N8::V48, 7 => N8::V62, 8 => N8::V5, _ => N8::V6 } } const D: &'static [u32] = &[17, 24, 41, 33, 21, 63, 48, 62, 5, 6]; }
const _: () = { assert!(N8::V17 as u32 == 17); assert!(N8::V24 as u32 == 24); assert!(N8::V41 as u32 == 41); assert!(N8::V33 as u32 == 33); assert!(N8::V21 as u32 == 21); assert!(N8::V63 as u32 == 63); assert!(N8::V48 as u32 == 48); assert!(N8::V62 as u32 == 62); assert!(N8::V5 as u32 == 5); assert!(N8::V6 as u32 == 6); };
#[repr(i16)]
#[derive(EnumSetType)]
#[enumset(repr = "u16")]
pub enum N9 { V0, V5 = 5, V6, V7 = 0b111, V3 = 3 }
impl Fam<1> for N9 { fn nth(i: usize) -> Self { match i { 0 => N9::V0, 1 => N9::V5, 2 => N9::V6, 3 => N9::V7, _ => N9::V3 } } const D: &'static [u32] = &[0, 5, 6, 7, 3]; }
const _: () = { assert!(N9::V0 as u32 == 0); assert!(N9::V5 as u32 == 5); assert!(N9::V6 as u32 == 6); assert!(N9::V7 as u32 == 7); assert!(N9::V3 as u32 == 3); };
#[repr(i8)]
#[derive(EnumSetType)]
pub enum N10 { V0 = 0o0, V9 = 9, V10, V1 = 1, V2, V3, V4, V5, V6 }
impl Fam<1> for N10 { fn nth(i: usize) -> Self { match i { 0 => N10::V0, 1 => N10::V9, 2 => N10::V10, 3 => N10::V1, 4 => N10::V2, 5 => N10::V3, 6 => N10::V4, 7 => N10::V5, _ => N10::V6 } } const D: &'static [u32] = &[0, 9, 10, 1, 2, 3, 4, 5, 6]; }
const _: () = { assert!(N10::V0 as u32 == 0); assert!(N10::V9 as u32 == 9); assert!(N10::V10 as u32 == 10); assert!(N10::V1 as u32 == 1); assert!(N10::V2 as u32 == 2); assert!(N10::V3 as u32 == 3); assert!(N10::V4 as u32 == 4); assert!(N10::V5 as u32 == 5); assert!(N10::V6 as u32 == 6); };
#[repr(u8)]
#[derive(EnumSetType)]
pub enum N11 { V0, V43 = 0x2b }
impl Fam<1> for N11 { fn nth(i: usize) -> Self { match i { 0 => N11::V0, _ => N11::V43 } } const D: &'static [u32] = &[0, 43]; }
const _: () = { assert!(N11::V0 as u32 == 0); assert!(N11::V43 as u32 == 43); };
#[repr(u8)]
#[derive(EnumSetType)]
#[enumset(repr = "array")]
pub enum N12 { V0, V1, V41 = 0o51, V4 = 4, V12 = 12, V44 = 44, V45, V7 = 7, V28 = 0x1c, V64 = 0o100 }
impl Fam<2> for N12 { fn nth(i: usize) -> Self { match i { 0 => N12::V0, 1 => N12::V1, 2 => N12::V41, 3 => N12::V4, 4 => N12::V12, 5 => N12::V44, 6 => N12::V45, 7 => N12::V7, 8 => N12::V28, _ => N12::V64 } } const D: &'static [u32] = &[0, 1, 41, 4, 12, 44, 45, 7, 28, 64]; }
const _: () = { assert!(N12::V0 as u32 == 0); assert!(N12::V1 as u32 == 1); assert!(N12::V41 as u32 == 41); assert!(N12::V4 as u32 == 4); assert!(N12::V12 as u32 == 12); assert!(N12::V44 as u32 == 44); assert!(N12::V45 as u32 == 45); assert!(N12::V7 as u32 == 7); assert!(N12::V28 as u32 == 28); assert!(N12::V64 as u32 == 64); };
#[repr(u64)]
#[derive(EnumSetType)]
pub enum N13 { V0, V20 = 0x14, V108 = 108, V8 = 8, V4 = 0b100, V101 = 0b1100101 }
impl Fam<2> for N13 { fn nth(i: usize) -> Self { match i { 0 => N13::V0, 1 => N13::V20, 2 => N13::V108, 3 => N13::V8, 4 => N13::V4, _ => N13::V101 } } const D: &'static [u32] = &[0, 20, 108, 8, 4, 101]; }
const _: () = { assert!(N13::V0 as u32 == 0); assert!(N13::V20 as u32 == 20); assert!(N13::V108 as u32 == 108); assert!(N13::V8 as u32 == 8); assert!(N13::V4 as u32 == 4); assert!(N13::V101 as u32 == 101); };
#[derive(EnumSetType)]
pub enum N14 { V0, V1, V2, V3, V4, V5, V50 = 5_0, V34 = 0x22, V41 = 4_1, V42 }
impl Fam<1> for N14 { fn nth(i: usize) -> Self { match i { 0 => N14::V0, 1 => N14::V1, 2 => N14::V2, 3 => N14::V3, 4 => N14::V4, 5 => N14::V5, 6 => N14::V50, 7 => N14::V34, 8 => N14::V41, _ => N14::V42 } } const D: &'static [u32] = &[0, 1, 2, 3, 4, 5, 50, 34, 41, 42]; }
const _: () = { assert!(N14::V0 as u32 == 0); assert!(N14::V1 as u32 == 1); assert!(N14::V2 as u32 == 2); assert!(N14::V3 as u32 == 3); assert!(N14::V4 as u32 == 4); assert!(N14::V5 as u32 == 5); assert!(N14::V50 as u32 == 50); assert!(N14::V34 as u32 == 34); assert!(N14::V41 as u32 == 41); assert!(N14::V42 as u32 == 42); };
#[repr(u32)]
#[derive(EnumSetType)]
pub enum N15 { V0, V1, V3 = 3, V7 = 0b111, V2 = 2, V5 = 0x5, V6 = 6, V4 = 4 }
impl Fam<1> for N15 { fn nth(i: usize) -> Self { match i { 0 => N15::V0, 1 => N15::V1, 2 => N15::V3, 3 => N15::V7, 4 => N15::V2, 5 => N15::V5, 6 => N15::V6, _ => N15::V4 } } const D: &'static [u32] = &[0, 1, 3, 7, 2, 5, 6, 4]; }
const _: () = { assert!(N15::V0 as u32 == 0); assert!(N15::V1 as u32 == 1); assert!(N15::V3 as u32 == 3); assert!(N15::V7 as u32 == 7); assert!(N15::V2 as u32 == 2); assert!(N15::V5 as u32 == 5); assert!(N15::V6 as u32 == 6); assert!(N15::V4 as u32 == 4); };
#[repr(u16)]
#[derive(EnumSetType)]
#[enumset(repr = "array")]
pub enum N16 { V0, V1, V27 = 0b11011, V52 = 0o64, V53, V15 = 0xf }
impl Fam<1> for N16 { fn nth(i: usize) -> Self { match i { 0 => N16::V0, 1 => N16::V1, 2 => N16::V27, 3 => N16::V52, 4 => N16::V53, _ => N16::V15 } } const D: &'static [u32] = &[0, 1, 27, 52, 53, 15]; }
const _: () = { assert!(N16::V0 as u32 == 0); assert!(N16::V1 as u32 == 1); assert!(N16::V27 as u32 == 27); assert!(N16::V52 as u32 == 52); assert!(N16::V53 as u32 == 53); assert!(N16::V15 as u32 == 15); };
#[repr(i8)]
#[derive(EnumSetType)]
#[enumset(no_ops)]
pub enum N17 { V0 = 0b0, V5 = 0b101, V2 = 2, V7 = 7, V8 = 0b1000, V1 = 0x1 }
impl Fam<1> for N17 { fn nth(i: usize) -> Self { match i { 0 => N17::V0, 1 => N17::V5, 2 => N17::V2, 3 => N17::V7, 4 => N17::V8, _ => N17::V1 } } const D: &'static [u32] = &[0, 5, 2, 7, 8, 1]; }
const _: () = { assert!(N17::V0 as u32 == 0); assert!(N17::V5 as u32 == 5); assert!(N17::V2 as u32 == 2); assert!(N17::V7 as u32 == 7); assert!(N17::V8 as u32 == 8); assert!(N17::V1 as u32 == 1); };
#[repr(i32)]
#[derive(EnumSetType)]
pub enum N18 { V0, V72 = 7_2, V11 = 0xb, V74 = 74, V83 = 0o123, V76 = 7_6, V77, V78 }
impl Fam<2> for N18 { fn nth(i: usize) -> Self { match i { 0 => N18::V0, 1 => N18::V72, 2 => N18::V11, 3 => N18::V74, 4 => N18::V83, 5 => N18::V76, 6 => N18::V77, _ => N18::V78 } } const D: &'static [u32] = &[0, 72, 11, 74, 83, 76, 77, 78]; }
const _: () = { assert!(N18::V0 as u32 == 0); assert!(N18::V72 as u32 == 72); assert!(N18::V11 as u32 == 11); assert!(N18::V74 as u32 == 74); assert!(N18::V83 as u32 == 83); assert!(N18::V76 as u32 == 76); assert!(N18::V77 as u32 == 77); assert!(N18::V78 as u32 == 78); };
#[derive(EnumSetType)]
#[enumset(repr = "u32")]
pub enum N19 { V0, V1, V2, V15 = 1_5, V14 = 0o16 }
impl Fam<1> for N19 { fn nth(i: usize) -> Self { match i { 0 => N19::V0, 1 => N19::V1, 2 => N19::V2, 3 => N19::V15, _ => N19::V14 } } const D: &'static [u32] = &[0, 1, 2, 15, 14]; }
const _: () = { assert!(N19::V0 as u32 == 0); assert!(N19::V1 as u32 == 1); assert!(N19::V2 as u32 == 2); assert!(N19::V15 as u32 == 15); assert!(N19::V14 as u32 == 14); };
#[repr(i8)]
#[derive(EnumSetType)]
#[enumset(no_ops)]
pub enum N20 { V0, V1, V3 = 3, V4, V5 }
impl Fam<1> for N20 { fn nth(i: usize) -> Self { match i { 0 => N20::V0, 1 => N20::V1, 2 => N20::V3, 3 => N20::V4, _ => N20::V5 } } const D: &'static [u32] = &[0, 1, 3, 4, 5]; }
const _: () = { assert!(N20::V0 as u32 == 0); assert!(N20::V1 as u32 == 1); assert!(N20::V3 as u32 == 3); assert!(N20::V4 as u32 == 4); assert!(N20::V5 as u32 == 5); };
#[repr(isize)]
#[derive(EnumSetType)]
pub enum N21 { V20 = 0x14, V21, V30 = 0b11110, V31, V53 = 53, V54, V44 = 4_4, V0 = 0o0, V1 }
impl Fam<1> for N21 { fn nth(i: usize) -> Self { match i { 0 => N21::V20, 1 => N21::V21, 2 => N21::V30, 3 => N21::V31, 4 => N21::V53, 5 => N21::V54, 6 => N21::V44, 7 => N21::V0, _ => N21::V1 } } const D: &'static [u32] = &[20, 21, 30, 31, 53, 54, 44, 0, 1]; }
const _: () = { assert!(N21::V20 as u32 == 20); assert!(N21::V21 as u32 == 21); assert!(N21::V30 as u32 == 30); assert!(N21::V31 as u32 == 31); assert!(N21::V53 as u32 == 53); assert!(N21::V54 as u32 == 54); assert!(N21::V44 as u32 == 44); assert!(N21::V0 as u32 == 0); assert!(N21::V1 as u32 == 1); };
#[repr(i16)]
#[derive(EnumSetType)]
#[enumset(no_ops)]
pub enum N22 { V26 = 26, V27, V15 = 0b1111, V16, V11 = 1_1, V46 = 46 }
impl Fam<1> for N22 { fn nth(i: usize) -> Self { match i { 0 => N22::V26, 1 => N22::V27, 2 => N22::V15, 3 => N22::V16, 4 => N22::V11, _ => N22::V46 } } const D: &'static [u32] = &[26, 27, 15, 16, 11, 46]; }
const _: () = { assert!(N22::V26 as u32 == 26); assert!(N22::V27 as u32 == 27); assert!(N22::V15 as u32 == 15); assert!(N22::V16 as u32 == 16); assert!(N22::V11 as u32 == 11); assert!(N22::V46 as u32 == 46); };
#[repr(isize)]
#[derive(EnumSetType)]
#[enumset(repr = "u8")]
pub enum N23 { V0 }
impl Fam<1> for N23 { fn nth(_: usize) -> Self { N23::V0 } const D: &'static [u32] = &[0]; }
const _: () = { assert!(N23::V0 as u32 == 0); };
#[repr(u64)]
#[derive(EnumSetType)]
pub enum N24 { V0, V1, V29 = 0o35, V10 = 10, V11, V12, V49 = 0b110001, V13 = 0o15, V40 = 0o50 }
impl Fam<1> for N24 { fn nth(i: usize) -> Self { match i { 0 => N24::V0, 1 => N24::V1, 2 => N24::V29, 3 => N24::V10, 4 => N24::V11, 5 => N24::V12, 6 => N24::V49, 7 => N24::V13, _ => N24::V40 } } const D: &'static [u32] = &[0, 1, 29, 10, 11, 12, 49, 13, 40]; }
const _: () = { assert!(N24::V0 as u32 == 0); assert!(N24::V1 as u32 == 1); assert!(N24::V29 as u32 == 29); assert!(N24::V10 as u32 == 10); assert!(N24::V11 as u32 == 11); assert!(N24::V12 as u32 == 12); assert!(N24::V49 as u32 == 49); assert!(N24::V13 as u32 == 13); assert!(N24::V40 as u32 == 40); };
#[repr(i64)]
#[derive(EnumSetType)]
#[enumset(no_ops)]
pub enum N25 { V126 = 0b1111110, V177 = 177, V178, V179, V74 = 0b1001010, V145 = 1_45, V135 = 135, V147 = 147 }
impl Fam<3> for N25 { fn nth(i: usize) -> Self { match i { 0 => N25::V126, 1 => N25::V177, 2 => N25::V178, 3 => N25::V179, 4 => N25::V74, 5 => N25::V145, 6 => N25::V135, _ => N25::V147 } } const D: &'static [u32] = &[126, 177, 178, 179, 74, 145, 135, 147]; }
const _: () = { assert!(N25::V126 as u32 == 126); assert!(N25::V177 as u32 == 177); assert!(N25::V178 as u32 == 178); assert!(N25::V179 as u32 == 179); assert!(N25::V74 as u32 == 74); assert!(N25::V145 as u32 == 145); assert!(N25::V135 as u32 == 135); assert!(N25::V147 as u32 == 147); };
#[repr(i64)]
#[derive(EnumSetType)]
pub enum N26 { V16 = 1_6, V4 = 0x4, V15 = 15, V14 = 0o16, V3 = 3, V13 = 13, V0 = 0 }
impl Fam<1> for N26 { fn nth(i: usize) -> Self { match i { 0 => N26::V16, 1 => N26::V4, 2 => N26::V15, 3 => N26::V14, 4 => N26::V3, 5 => N26::V13, _ => N26::V0 } } const D: &'static [u32] = &[16, 4, 15, 14, 3, 13, 0]; }
const _: () = { assert!(N26::V16 as u32 == 16); assert!(N26::V4 as u32 == 4); assert!(N26::V15 as u32 == 15); assert!(N26::V14 as u32 == 14); assert!(N26::V3 as u32 == 3); assert!(N26::V13 as u32 == 13); assert!(N26::V0 as u32 == 0); };
#[repr(usize)]
#[derive(EnumSetType)]
pub enum N27 { V62 = 0b111110, V86 = 86, V87, V214 = 214, V209 = 2_09, V210, V32 = 3_2, V33, V247 = 0xf7 }
impl Fam<4> for N27 { fn nth(i: usize) -> Self { match i { 0 => N27::V62, 1 => N27::V86, 2 => N27::V87, 3 => N27::V214, 4 => N27::V209, 5 => N27::V210, 6 => N27::V32, 7 => N27::V33, _ => N27::V247 } } const D: &'static [u32] = &[62, 86, 87, 214, 209, 210, 32, 33, 247]; }
const _: () = { assert!(N27::V62 as u32 == 62); assert!(N27::V86 as u32 == 86); assert!(N27::V87 as u32 == 87); assert!(N27::V214 as u32 == 214); assert!(N27::V209 as u32 == 209); assert!(N27::V210 as u32 == 210); assert!(N27::V32 as u32 == 32); assert!(N27::V33 as u32 == 33); assert!(N27::V247 as u32 == 247); };
#[repr(u64)]
#[derive(EnumSetType)]
#[enumset(repr = "array")]
pub enum N28 { V0, V34 = 0x22 }
impl Fam<1> for N28 { fn nth(i: usize) -> Self { match i { 0 => N28::V0, _ => N28::V34 } } const D: &'static [u32] = &[0, 34]; }
const _: () = { assert!(N28::V0 as u32 == 0); assert!(N28::V34 as u32 == 34); };
#[repr(C)]
#[derive(EnumSetType)]
#[enumset(repr = "array")]
pub enum N29 { V0 }
impl Fam<1> for N29 { fn nth(_: usize) -> Self { N29::V0 } const D: &'static [u32] = &[0]; }
const _: () = { assert!(N29::V0 as u32 == 0); };
#[derive(EnumSetType)]
#[enumset(repr = "array")]
pub enum N30 { V0, V1, V5 = 5, V6 = 6, V12 = 12 }
impl Fam<1> for N30 { fn nth(i: usize) -> Self { match i { 0 => N30::V0, 1 => N30::V1, 2 => N30::V5, 3 => N30::V6, _ => N30::V12 } } const D: &'static [u32] = &[0, 1, 5, 6, 12]; }
const _: () = { assert!(N30::V0 as u32 == 0); assert!(N30::V1 as u32 == 1); assert!(N30::V5 as u32 == 5); assert!(N30::V6 as u32 == 6); assert!(N30::V12 as u32 == 12); };
#[repr(i16)]
#[derive(EnumSetType)]
#[enumset(repr = "array")]
pub enum N31 { V0, V41 = 4_1, V57 = 5_7, V35 = 35, V36, V108 = 1_08, V109 }
impl Fam<2> for N31 { fn nth(i: usize) -> Self { match i { 0 => N31::V0, 1 => N31::V41, 2 => N31::V57, 3 => N31::V35, 4 => N31::V36, 5 => N31::V108, _ => N31::V109 } } const D: &'static [u32] = &[0, 41, 57, 35, 36, 108, 109]; }
const _: () = { assert!(N31::V0 as u32 == 0); assert!(N31::V41 as u32 == 41); assert!(N31::V57 as u32 == 57); assert!(N31::V35 as u32 == 35); assert!(N31::V36 as u32 == 36); assert!(N31::V108 as u32 == 108); assert!(N31::V109 as u32 == 109); };
#[repr(i32)]
#[derive(EnumSetType)]
pub enum N32 { V12 = 12, V13, V6 = 0b110, V7, V8, V11 = 0o13 }
impl Fam<1> for N32 { fn nth(i: usize) -> Self { match i { 0 => N32::V12, 1 => N32::V13, 2 => N32::V6, 3 => N32::V7, 4 => N32::V8, _ => N32::V11 } } const D: &'static [u32] = &[12, 13, 6, 7, 8, 11]; }
const _: () = { assert!(N32::V12 as u32 == 12); assert!(N32::V13 as u32 == 13); assert!(N32::V6 as u32 == 6); assert!(N32::V7 as u32 == 7); assert!(N32::V8 as u32 == 8); assert!(N32::V11 as u32 == 11); };
#[repr(usize)]
#[derive(EnumSetType)]
#[enumset(repr = "u128")]
pub enum N33 { V0 = 0o0, V1, V2, V3 = 3, V4, V7 = 7, V6 = 0b110 }
impl Fam<2> for N33 { fn nth(i: usize) -> Self { match i { 0 => N33::V0, 1 => N33::V1, 2 => N33::V2, 3 => N33::V3, 4 => N33::V4, 5 => N33::V7, _ => N33::V6 } } const D: &'static [u32] = &[0, 1, 2, 3, 4, 7, 6]; }
const _: () = { assert!(N33::V0 as u32 == 0); assert!(N33::V1 as u32 == 1); assert!(N33::V2 as u32 == 2); assert!(N33::V3 as u32 == 3); assert!(N33::V4 as u32 == 4); assert!(N33::V7 as u32 == 7); assert!(N33::V6 as u32 == 6); };
#[repr(C)]
#[derive(EnumSetType)]
#[enumset(repr = "array")]
pub enum N34 { V24 = 0o30, V62 = 6_2, V63, V64, V0 = 0b0, V65 = 6_5 }
impl Fam<2> for N34 { fn nth(i: usize) -> Self { match i { 0 => N34::V24, 1 => N34::V62, 2 => N34::V63, 3 => N34::V64, 4 => N34::V0, _ => N34::V65 } } const D: &'static [u32] = &[24, 62, 63, 64, 0, 65]; }
const _: () = { assert!(N34::V24 as u32 == 24); assert!(N34::V62 as u32 == 62); assert!(N34::V63 as u32 == 63); assert!(N34::V64 as u32 == 64); assert!(N34::V0 as u32 == 0); assert!(N34::V65 as u32 == 65); };
#[repr(u8)]
#[derive(EnumSetType)]
#[enumset(repr = "u16")]
pub enum N35 { V0, V10 = 0xa }
impl Fam<1> for N35 { fn nth(i: usize) -> Self { match i { 0 => N35::V0, _ => N35::V10 } } const D: &'static [u32] = &[0, 10]; }
const _: () = { assert!(N35::V0 as u32 == 0); assert!(N35::V10 as u32 == 10); };
#[repr(i64)]
#[derive(EnumSetType)]
#[enumset(repr = "array")]
pub enum N36 { V0, V1, V2, V3, V4, V5, V6, V7 = 0b111 }
impl Fam<1> for N36 { fn nth(i: usize) -> Self { match i { 0 => N36::V0, 1 => N36::V1, 2 => N36::V2, 3 => N36::V3, 4 => N36::V4, 5 => N36::V5, 6 => N36::V6, _ => N36::V7 } } const D: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7]; }
const _: () = { assert!(N36::V0 as u32 == 0); assert!(N36::V1 as u32 == 1); assert!(N36::V2 as u32 == 2); assert!(N36::V3 as u32 == 3); assert!(N36::V4 as u32 == 4); assert!(N36::V5 as u32 == 5); assert!(N36::V6 as u32 == 6); assert!(N36::V7 as u32 == 7); };
#[repr(usize)]
#[derive(EnumSetType)]
#[enumset(no_ops)]
pub enum N37 { V0, V1, V8 = 8, V7 = 0o7, V6 = 0x6, V5 = 5, V3 = 3, V4 = 4 }
impl Fam<1> for N37 { fn nth(i: usize) -> Self { match i { 0 => N37::V0, 1 => N37::V1, 2 => N37::V8, 3 => N37::V7, 4 => N37::V6, 5 => N37::V5, 6 => N37::V3, _ => N37::V4 } } const D: &'static [u32] = &[0, 1, 8, 7, 6, 5, 3, 4]; }
const _: () = { assert!(N37::V0 as u32 == 0); assert!(N37::V1 as u32 == 1); assert!(N37::V8 as u32 == 8); assert!(N37::V7 as u32 == 7); assert!(N37::V6 as u32 == 6); assert!(N37::V5 as u32 == 5); assert!(N37::V3 as u32 == 3); assert!(N37::V4 as u32 == 4); };
#[derive(EnumSetType)]
pub enum N38 { V12 = 12, V13, V14 }
impl Fam<1> for N38 { fn nth(i: usize) -> Self { match i { 0 => N38::V12, 1 => N38::V13, _ => N38::V14 } } const D: &'static [u32] = &[12, 13, 14]; }
const _: () = { assert!(N38::V12 as u32 == 12); assert!(N38::V13 as u32 == 13); assert!(N38::V14 as u32 == 14); };
#[repr(u64)]
#[derive(EnumSetType)]
#[enumset(repr = "u128")]
pub enum N39 { V103 = 1_03, V104, V105, V77 = 77, V2 = 0b10, V0 = 0o0, V82 = 0b1010010 }
impl Fam<2> for N39 { fn nth(i: usize) -> Self { match i { 0 => N39::V103, 1 => N39::V104, 2 => N39::V105, 3 => N39::V77, 4 => N39::V2, 5 => N39::V0, _ => N39::V82 } } const D: &'static [u32] = &[103, 104, 105, 77, 2, 0, 82]; }
const _: () = { assert!(N39::V103 as u32 == 103); assert!(N39::V104 as u32 == 104); assert!(N39::V105 as u32 == 105); assert!(N39::V77 as u32 == 77); assert!(N39::V2 as u32 == 2); assert!(N39::V0 as u32 == 0); assert!(N39::V82 as u32 == 82); };
#[repr(i64)]
#[derive(EnumSetType)]
#[enumset(repr = "u64")]
pub enum N40 { V0, V16 = 0x10, V3 = 3, V4, V9 = 0o11 }
impl Fam<1> for N40 { fn nth(i: usize) -> Self { match i { 0 => N40::V0, 1 => N40::V16, 2 => N40::V3, 3 => N40::V4, _ => N40::V9 } } const D: &'static [u32] = &[0, 16, 3, 4, 9]; }
const _: () = { assert!(N40::V0 as u32 == 0); assert!(N40::V16 as u32 == 16); assert!(N40::V3 as u32 == 3); assert!(N40::V4 as u32 == 4); assert!(N40::V9 as u32 == 9); };
#[derive(EnumSetType)]
pub enum N41 { V30 = 3_0, V31 }
impl Fam<1> for N41 { fn nth(i: usize) -> Self { match i { 0 => N41::V30, _ => N41::V31 } } const D: &'static [u32] = &[30, 31]; }
const _: () = { assert!(N41::V30 as u32 == 30); assert!(N41::V31 as u32 == 31); };
#[derive(EnumSetType)]
pub enum N42 { V1 = 0b1, V2, V3, V56 = 0o70 }
impl Fam<1> for N42 { fn nth(i: usize) -> Self { match i { 0 => N42::V1, 1 => N42::V2, 2 => N42::V3, _ => N42::V56 } } const D: &'static [u32] = &[1, 2, 3, 56]; }
const _: () = { assert!(N42::V1 as u32 == 1); assert!(N42::V2 as u32 == 2); assert!(N42::V3 as u32 == 3); assert!(N42::V56 as u32 == 56); };
#[derive(EnumSetType)]
pub enum N43 { V9 = 0x9, V5 = 0o5, V6, V52 = 0o64, V24 = 0x18, V10 = 0xa, V11, V23 = 23 }
impl Fam<1> for N43 { fn nth(i: usize) -> Self { match i { 0 => N43::V9, 1 => N43::V5, 2 => N43::V6, 3 => N43::V52, 4 => N43::V24, 5 => N43::V10, 6 => N43::V11, _ => N43::V23 } } const D: &'static [u32] = &[9, 5, 6, 52, 24, 10, 11, 23]; }
const _: () = { assert!(N43::V9 as u32 == 9); assert!(N43::V5 as u32 == 5); assert!(N43::V6 as u32 == 6); assert!(N43::V52 as u32 == 52); assert!(N43::V24 as u32 == 24); assert!(N43::V10 as u32 == 10); assert!(N43::V11 as u32 == 11); assert!(N43::V23 as u32 == 23); };
#[repr(i32)]
#[derive(EnumSetType)]
#[enumset(repr = "array")]
pub enum N44 { V0, V1, V20 = 0b10100, V21 = 2_1, V22 }
impl Fam<1> for N44 { fn nth(i: usize) -> Self { match i { 0 => N44::V0, 1 => N44::V1, 2 => N44::V20, 3 => N44::V21, _ => N44::V22 } } const D: &'static [u32] = &[0, 1, 20, 21, 22]; }
const _: () = { assert!(N44::V0 as u32 == 0); assert!(N44::V1 as u32 == 1); assert!(N44::V20 as u32 == 20); assert!(N44::V21 as u32 == 21); assert!(N44::V22 as u32 == 22); };
#[derive(EnumSetType)]
#[enumset(repr = "u128")]
pub enum N45 { V0, V7 = 7, V52 = 0x34 }
impl Fam<2> for N45 { fn nth(i: usize) -> Self { match i { 0 => N45::V0, 1 => N45::V7, _ => N45::V52 } } const D: &'static [u32] = &[0, 7, 52]; }
const _: () = { assert!(N45::V0 as u32 == 0); assert!(N45::V7 as u32 == 7); assert!(N45::V52 as u32 == 52); };
#[repr(C)]
#[derive(EnumSetType)]
pub enum N46 { V0, V4 = 0o4, V5, V6 }
impl Fam<1> for N46 { fn nth(i: usize) -> Self { match i { 0 => N46::V0, 1 => N46::V4, 2 => N46::V5, _ => N46::V6 } } const D: &'static [u32] = &[0, 4, 5, 6]; }
const _: () = { assert!(N46::V0 as u32 == 0); assert!(N46::V4 as u32 == 4); assert!(N46::V5 as u32 == 5); assert!(N46::V6 as u32 == 6); };
#[repr(u16)]
#[derive(EnumSetType)]
#[enumset(no_ops)]
pub enum N47 { V0 = 0, V8 = 0o10, V1 = 0x1, V2, V3, V4, V5, V6, V7 = 0o7 }
impl Fam<1> for N47 { fn nth(i: usize) -> Self { match i { 0 => N47::V0, 1 => N47::V8, 2 => N47::V1, 3 => N47::V2, 4 => N47::V3, 5 => N47::V4, 6 => N47::V5, 7 => N47::V6, _ => N47::V7 } } const D: &'static [u32] = &[0, 8, 1, 2, 3, 4, 5, 6, 7]; }
const _: () = { assert!(N47::V0 as u32 == 0); assert!(N47::V8 as u32 == 8); assert!(N47::V1 as u32 == 1); assert!(N47::V2 as u32 == 2); assert!(N47::V3 as u32 == 3); assert!(N47::V4 as u32 == 4); assert!(N47::V5 as u32 == 5); assert!(N47::V6 as u32 == 6); assert!(N47::V7 as u32 == 7); };
#[derive(EnumSetType)]
pub enum E0 { V0 = 0 }
impl Fam<1> for E0 { fn nth(_: usize) -> Self { E0::V0 } const D: &'static [u32] = &[0]; }
const _: () = { assert!(E0::V0 as u32 == 0); };
#[derive(EnumSetType)]
pub enum P0 { V0 = 0, V3 = 3, V4 }
impl Fam<1> for P0 { fn nth(i: usize) -> Self { match i { 0 => P0::V0, 1 => P0::V3, _ => P0::V4 } } const D: &'static [u32] = &[0, 3, 4]; }
const _: () = { assert!(P0::V0 as u32 == 0); assert!(P0::V3 as u32 == 3); assert!(P0::V4 as u32 == 4); };
#[derive(EnumSetType)]
pub enum E1 { V7 = 0b111 }
impl Fam<1> for E1 { fn nth(_: usize) -> Self { E1::V7 } const D: &'static [u32] = &[7]; }
const _: () = { assert!(E1::V7 as u32 == 7); };
#[derive(EnumSetType)]
pub enum P1 { V7 = 7, V0 = 0o0, V1 }
impl Fam<1> for P1 { fn nth(i: usize) -> Self { match i { 0 => P1::V7, 1 => P1::V0, _ => P1::V1 } } const D: &'static [u32] = &[7, 0, 1]; }
const _: () = { assert!(P1::V7 as u32 == 7); assert!(P1::V0 as u32 == 0); assert!(P1::V1 as u32 == 1); };
#[derive(EnumSetType)]
pub enum E2 { V8 = 0o10 }
impl Fam<1> for E2 { fn nth(_: usize) -> Self { E2::V8 } const D: &'static [u32] = &[8]; }
const _: () = { assert!(E2::V8 as u32 == 8); };
#[derive(EnumSetType)]
pub enum P2 { V8 = 8, V0 = 0o0, V1 }
impl Fam<1> for P2 { fn nth(i: usize) -> Self { match i { 0 => P2::V8, 1 => P2::V0, _ => P2::V1 } } const D: &'static [u32] = &[8, 0, 1]; }
const _: () = { assert!(P2::V8 as u32 == 8); assert!(P2::V0 as u32 == 0); assert!(P2::V1 as u32 == 1); };
#[derive(EnumSetType)]
pub enum E3 { V15 = 15 }
impl Fam<1> for E3 { fn nth(_: usize) -> Self { E3::V15 } const D: &'static [u32] = &[15]; }
const _: () = { assert!(E3::V15 as u32 == 15); };
#[derive(EnumSetType)]
pub enum P3 { V15 = 1_5, V0 = 0, V1 }
impl Fam<1> for P3 { fn nth(i: usize) -> Self { match i { 0 => P3::V15, 1 => P3::V0, _ => P3::V1 } } const D: &'static [u32] = &[15, 0, 1]; }
const _: () = { assert!(P3::V15 as u32 == 15); assert!(P3::V0 as u32 == 0); assert!(P3::V1 as u32 == 1); };
#[derive(EnumSetType)]
pub enum E4 { V16 = 1_6 }
impl Fam<1> for E4 { fn nth(_: usize) -> Self { E4::V16 } const D: &'static [u32] = &[16]; }
const _: () = { assert!(E4::V16 as u32 == 16); };
#[derive(EnumSetType)]
pub enum P4 { V16 = 16, V0 = 0, V1 }
impl Fam<1> for P4 { fn nth(i: usize) -> Self { match i { 0 => P4::V16, 1 => P4::V0, _ => P4::V1 } } const D: &'static [u32] = &[16, 0, 1]; }
const _: () = { assert!(P4::V16 as u32 == 16); assert!(P4::V0 as u32 == 0); assert!(P4::V1 as u32 == 1); };
#[derive(EnumSetType)]
pub enum E5 { V31 = 3_1 }
impl Fam<1> for E5 { fn nth(_: usize) -> Self { E5::V31 } const D: &'static [u32] = &[31]; }
const _: () = { assert!(E5::V31 as u32 == 31); };
#[derive(EnumSetType)]
pub enum P5 { V31 = 31, V0 = 0, V1 }
impl Fam<1> for P5 { fn nth(i: usize) -> Self { match i { 0 => P5::V31, 1 => P5::V0, _ => P5::V1 } } const D: &'static [u32] = &[31, 0, 1]; }
const _: () = { assert!(P5::V31 as u32 == 31); assert!(P5::V0 as u32 == 0); assert!(P5::V1 as u32 == 1); };
#[derive(EnumSetType)]
pub enum E6 { V32 = 32 }
impl Fam<1> for E6 { fn nth(_: usize) -> Self { E6::V32 } const D: &'static [u32] = &[32]; }
const _: () = { assert!(E6::V32 as u32 == 32); };
#[derive(EnumSetType)]
pub enum P6 { V32 = 32, V0 = 0x0, V1 }
impl Fam<1> for P6 { fn nth(i: usize) -> Self { match i { 0 => P6::V32, 1 => P6::V0, _ => P6::V1 } } const D: &'static [u32] = &[32, 0, 1]; }
const _: () = { assert!(P6::V32 as u32 == 32); assert!(P6::V0 as u32 == 0); assert!(P6::V1 as u32 == 1); };
#[derive(EnumSetType)]
pub enum E7 { V63 = 63 }
impl Fam<1> for E7 { fn nth(_: usize) -> Self { E7::V63 } const D: &'static [u32] = &[63]; }
const _: () = { assert!(E7::V63 as u32 == 63); };
#[derive(EnumSetType)]
pub enum P7 { V63 = 63, V0 = 0, V1 }
impl Fam<1> for P7 { fn nth(i: usize) -> Self { match i { 0 => P7::V63, 1 => P7::V0, _ => P7::V1 } } const D: &'static [u32] = &[63, 0, 1]; }
const _: () = { assert!(P7::V63 as u32 == 63); assert!(P7::V0 as u32 == 0); assert!(P7::V1 as u32 == 1); };
#[derive(EnumSetType)]
pub enum E8 { V64 = 0b1000000 }
impl Fam<2> for E8 { fn nth(_: usize) -> Self { E8::V64 } const D: &'static [u32] = &[64]; }
const _: () = { assert!(E8::V64 as u32 == 64); };
#[derive(EnumSetType)]
pub enum P8 { V64 = 0x40, V0 = 0, V1 }
impl Fam<2> for P8 { fn nth(i: usize) -> Self { match i { 0 => P8::V64, 1 => P8::V0, _ => P8::V1 } } const D: &'static [u32] = &[64, 0, 1]; }
const _: () = { assert!(P8::V64 as u32 == 64); assert!(P8::V0 as u32 == 0); assert!(P8::V1 as u32 == 1); };
#[derive(EnumSetType)]
pub enum E9 { V127 = 0x7f }
impl Fam<2> for E9 { fn nth(_: usize) -> Self { E9::V127 } const D: &'static [u32] = &[127]; }
const _: () = { assert!(E9::V127 as u32 == 127); };
#[derive(EnumSetType)]
pub enum P9 { V127 = 0b1111111, V0 = 0o0, V1 }
impl Fam<2> for P9 { fn nth(i: usize) -> Self { match i { 0 => P9::V127, 1 => P9::V0, _ => P9::V1 } } const D: &'static [u32] = &[127, 0, 1]; }
const _: () = { assert!(P9::V127 as u32 == 127); assert!(P9::V0 as u32 == 0); assert!(P9::V1 as u32 == 1); };
#[derive(EnumSetType)]
pub enum E10 { V128 = 1_28 }
impl Fam<3> for E10 { fn nth(_: usize) -> Self { E10::V128 } const D: &'static [u32] = &[128]; }
const _: () = { assert!(E10::V128 as u32 == 128); };
#[derive(EnumSetType)]
pub enum P10 { V128 = 0b10000000, V0 = 0b0, V1 }
impl Fam<3> for P10 { fn nth(i: usize) -> Self { match i { 0 => P10::V128, 1 => P10::V0, _ => P10::V1 } } const D: &'static [u32] = &[128, 0, 1]; }
const _: () = { assert!(P10::V128 as u32 == 128); assert!(P10::V0 as u32 == 0); assert!(P10::V1 as u32 == 1); };
#[derive(EnumSetType)]
pub enum E11 { V1000 = 1_000 }
impl Fam<16> for E11 { fn nth(_: usize) -> Self { E11::V1000 } const D: &'static [u32] = &[1000]; }
const _: () = { assert!(E11::V1000 as u32 == 1000); };
#[derive(EnumSetType)]
pub enum P11 { V1000 = 1_000, V0 = 0, V1 }
impl Fam<16> for P11 { fn nth(i: usize) -> Self { match i { 0 => P11::V1000, 1 => P11::V0, _ => P11::V1 } } const D: &'static [u32] = &[1000, 0, 1]; }
const _: () = { assert!(P11::V1000 as u32 == 1000); assert!(P11::V0 as u32 == 0); assert!(P11::V1 as u32 == 1); };
#[derive(EnumSetType)]
pub enum E12 { V65535 = 65535 }
impl Fam<1024> for E12 { fn nth(_: usize) -> Self { E12::V65535 } const D: &'static [u32] = &[65535]; }
const _: () = { assert!(E12::V65535 as u32 == 65535); };
#[derive(EnumSetType)]
pub enum P12 { V65535 = 0xffff, V0 = 0b0, V1 }
impl Fam<1024> for P12 { fn nth(i: usize) -> Self { match i { 0 => P12::V65535, 1 => P12::V0, _ => P12::V1 } } const D: &'static [u32] = &[65535, 0, 1]; }
const _: () = { assert!(P12::V65535 as u32 == 65535); assert!(P12::V0 as u32 == 0); assert!(P12::V1 as u32 == 1); };
#[derive(EnumSetType)]
pub enum E13 { V70000 = 0b10001000101110000 }
impl Fam<1094> for E13 { fn nth(_: usize) -> Self { E13::V70000 } const D: &'static [u32] = &[70000]; }
const _: () = { assert!(E13::V70000 as u32 == 70000); };
#[derive(EnumSetType)]
pub enum P13 { V70000 = 0o210560, V0 = 0, V1 }
impl Fam<1094> for P13 { fn nth(i: usize) -> Self { match i { 0 => P13::V70000, 1 => P13::V0, _ => P13::V1 } } const D: &'static [u32] = &[70000, 0, 1]; }
const _: () = { assert!(P13::V70000 as u32 == 70000); assert!(P13::V0 as u32 == 0); assert!(P13::V1 as u32 == 1); };
#[macro_export]
macro_rules! on_numbered { ($f:ident) => { $crate::contract_in!(numbered, $f, 40; N0:1 N2:1 N4:2 N6:1 N8:1 N10:1 N12:2 N14:1 N16:1 N18:2 N20:1 N22:1 N24:1 N26:1 N28:1 N30:1 N32:1 N34:2 N36:1 N38:1 N40:1 N42:1 N44:1 N46:1 E0:1 E1:1 E2:1 E3:1 E4:1 E5:1 E6:1 E7:1 E8:2 E9:2 E10:3; N1:1 N3:2 N5:1 N7:2 N9:1 N11:1 N13:2 N15:1 N17:1 N19:1 N21:1 N23:1 N25:3 N27:4 N29:1 N31:2 N33:2 N35:1 N37:1 N39:2 N41:1 N43:1 N45:2 N47:1 P0:1 P1:1 P2:1 P3:1 P4:1 P5:1 P6:1 P7:1 P8:2 P9:2 P10:3; E11:16 P11:16 E12:1024 P12:1024 E13:1094 P13:1094); }; }
