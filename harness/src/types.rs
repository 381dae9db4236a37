// Generated by tools/gen_types.py; do not edit.
#![allow(dead_code)]
use crate::fam::Fam;
use enumset::EnumSetType;

#[derive(EnumSetType, Debug)]
pub enum D8 { V0, V1, V2, V3, V4, V5, V6, V7 }
impl Fam<1> for D8 {
    fn nth(i: usize) -> Self { match i { 0 => D8::V0, 1 => D8::V1, 2 => D8::V2, 3 => D8::V3, 4 => D8::V4, 5 => D8::V5, 6 => D8::V6, _ => D8::V7 } }
    const D: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7];
}
const _: () = { assert!(D8::V0 as u32 == 0); assert!(D8::V1 as u32 == 1); assert!(D8::V2 as u32 == 2); assert!(D8::V3 as u32 == 3); assert!(D8::V4 as u32 == 4); assert!(D8::V5 as u32 == 5); assert!(D8::V6 as u32 == 6); assert!(D8::V7 as u32 == 7); };
impl core::fmt::Display for D8 { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { match self { D8::V0 => f.write_str("d0"), D8::V1 => f.write_str("d1"), D8::V2 => f.write_str("d2"), D8::V3 => f.write_str("d3"), D8::V4 => f.write_str("d4"), D8::V5 => f.write_str("d5"), D8::V6 => f.write_str("d6"), D8::V7 => f.write_str("d7"), } } }

#[derive(EnumSetType, Debug)]
pub enum S8 { V6 = 6, V1 = 1, V4 = 4, V0 = 0 }
impl Fam<1> for S8 {
    fn nth(i: usize) -> Self { match i { 0 => S8::V6, 1 => S8::V1, 2 => S8::V4, _ => S8::V0 } }
    const D: &'static [u32] = &[6, 1, 4, 0];
}
const _: () = { assert!(S8::V6 as u32 == 6); assert!(S8::V1 as u32 == 1); assert!(S8::V4 as u32 == 4); assert!(S8::V0 as u32 == 0); };
impl core::fmt::Display for S8 { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { match self { S8::V6 => f.write_str("d6"), S8::V1 => f.write_str("d1"), S8::V4 => f.write_str("d4"), S8::V0 => f.write_str("d0"), } } }

#[derive(EnumSetType, Debug)]
pub enum S16 { V3 = 3, V4, V15 = 15, V0 = 0, V8 = 8 }
impl Fam<1> for S16 {
    fn nth(i: usize) -> Self { match i { 0 => S16::V3, 1 => S16::V4, 2 => S16::V15, 3 => S16::V0, _ => S16::V8 } }
    const D: &'static [u32] = &[3, 4, 15, 0, 8];
}
const _: () = { assert!(S16::V3 as u32 == 3); assert!(S16::V4 as u32 == 4); assert!(S16::V15 as u32 == 15); assert!(S16::V0 as u32 == 0); assert!(S16::V8 as u32 == 8); };
impl core::fmt::Display for S16 { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { match self { S16::V3 => f.write_str("d3"), S16::V4 => f.write_str("d4"), S16::V15 => f.write_str("d15"), S16::V0 => f.write_str("d0"), S16::V8 => f.write_str("d8"), } } }

#[derive(EnumSetType, Debug)]
pub enum D16 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15 }
impl Fam<1> for D16 {
    fn nth(i: usize) -> Self { match i { 0 => D16::V0, 1 => D16::V1, 2 => D16::V2, 3 => D16::V3, 4 => D16::V4, 5 => D16::V5, 6 => D16::V6, 7 => D16::V7, 8 => D16::V8, 9 => D16::V9, 10 => D16::V10, 11 => D16::V11, 12 => D16::V12, 13 => D16::V13, 14 => D16::V14, _ => D16::V15 } }
    const D: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15];
}
const _: () = { assert!(D16::V0 as u32 == 0); assert!(D16::V1 as u32 == 1); assert!(D16::V2 as u32 == 2); assert!(D16::V3 as u32 == 3); assert!(D16::V4 as u32 == 4); assert!(D16::V5 as u32 == 5); assert!(D16::V6 as u32 == 6); assert!(D16::V7 as u32 == 7); assert!(D16::V8 as u32 == 8); assert!(D16::V9 as u32 == 9); assert!(D16::V10 as u32 == 10); assert!(D16::V11 as u32 == 11); assert!(D16::V12 as u32 == 12); assert!(D16::V13 as u32 == 13); assert!(D16::V14 as u32 == 14); assert!(D16::V15 as u32 == 15); };
impl core::fmt::Display for D16 { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { match self { D16::V0 => f.write_str("d0"), D16::V1 => f.write_str("d1"), D16::V2 => f.write_str("d2"), D16::V3 => f.write_str("d3"), D16::V4 => f.write_str("d4"), D16::V5 => f.write_str("d5"), D16::V6 => f.write_str("d6"), D16::V7 => f.write_str("d7"), D16::V8 => f.write_str("d8"), D16::V9 => f.write_str("d9"), D16::V10 => f.write_str("d10"), D16::V11 => f.write_str("d11"), D16::V12 => f.write_str("d12"), D16::V13 => f.write_str("d13"), D16::V14 => f.write_str("d14"), D16::V15 => f.write_str("d15"), } } }

#[derive(EnumSetType, Debug)]
pub enum S32 { V30 = 30, V31, V0 = 0, V1 = 1, V7 = 7, V16 = 16, V17 = 17 }
impl Fam<1> for S32 {
    fn nth(i: usize) -> Self { match i { 0 => S32::V30, 1 => S32::V31, 2 => S32::V0, 3 => S32::V1, 4 => S32::V7, 5 => S32::V16, _ => S32::V17 } }
    const D: &'static [u32] = &[30, 31, 0, 1, 7, 16, 17];
}
const _: () = { assert!(S32::V30 as u32 == 30); assert!(S32::V31 as u32 == 31); assert!(S32::V0 as u32 == 0); assert!(S32::V1 as u32 == 1); assert!(S32::V7 as u32 == 7); assert!(S32::V16 as u32 == 16); assert!(S32::V17 as u32 == 17); };
impl core::fmt::Display for S32 { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { match self { S32::V30 => f.write_str("d30"), S32::V31 => f.write_str("d31"), S32::V0 => f.write_str("d0"), S32::V1 => f.write_str("d1"), S32::V7 => f.write_str("d7"), S32::V16 => f.write_str("d16"), S32::V17 => f.write_str("d17"), } } }

#[derive(EnumSetType, Debug)]
pub enum S64 { V63 = 63, V0 = 0, V1 = 1, V31 = 31, V32 = 32, V33 = 33, V62 = 62, V40 = 40 }
impl Fam<1> for S64 {
    fn nth(i: usize) -> Self { match i { 0 => S64::V63, 1 => S64::V0, 2 => S64::V1, 3 => S64::V31, 4 => S64::V32, 5 => S64::V33, 6 => S64::V62, _ => S64::V40 } }
    const D: &'static [u32] = &[63, 0, 1, 31, 32, 33, 62, 40];
}
const _: () = { assert!(S64::V63 as u32 == 63); assert!(S64::V0 as u32 == 0); assert!(S64::V1 as u32 == 1); assert!(S64::V31 as u32 == 31); assert!(S64::V32 as u32 == 32); assert!(S64::V33 as u32 == 33); assert!(S64::V62 as u32 == 62); assert!(S64::V40 as u32 == 40); };
impl core::fmt::Display for S64 { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { match self { S64::V63 => f.write_str("d63"), S64::V0 => f.write_str("d0"), S64::V1 => f.write_str("d1"), S64::V31 => f.write_str("d31"), S64::V32 => f.write_str("d32"), S64::V33 => f.write_str("d33"), S64::V62 => f.write_str("d62"), S64::V40 => f.write_str("d40"), } } }

#[derive(EnumSetType, Debug)]
pub enum D64 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63 }
impl Fam<1> for D64 {
    fn nth(i: usize) -> Self { match i { 0 => D64::V0, 1 => D64::V1, 2 => D64::V2, 3 => D64::V3, 4 => D64::V4, 5 => D64::V5, 6 => D64::V6, 7 => D64::V7, 8 => D64::V8, 9 => D64::V9, 10 => D64::V10, 11 => D64::V11, 12 => D64::V12, 13 => D64::V13, 14 => D64::V14, 15 => D64::V15, 16 => D64::V16, 17 => D64::V17, 18 => D64::V18, 19 => D64::V19, 20 => D64::V20, 21 => D64::V21, 22 => D64::V22, 23 => D64::V23, 24 => D64::V24, 25 => D64::V25, 26 => D64::V26, 27 => D64::V27, 28 => D64::V28, 29 => D64::V29, 30 => D64::V30, 31 => D64::V31, 32 => D64::V32, 33 => D64::V33, 34 => D64::V34, 35 => D64::V35, 36 => D64::V36, 37 => D64::V37, 38 => D64::V38, 39 => D64::V39, 40 => D64::V40, 41 => D64::V41, 42 => D64::V42, 43 => D64::V43, 44 => D64::V44, 45 => D64::V45, 46 => D64::V46, 47 => D64::V47, 48 => D64::V48, 49 => D64::V49, 50 => D64::V50, 51 => D64::V51, 52 => D64::V52, 53 => D64::V53, 54 => D64::V54, 55 => D64::V55, 56 => D64::V56, 57 => D64::V57, 58 => D64::V58, 59 => D64::V59, 60 => D64::V60, 61 => D64::V61, 62 => D64::V62, _ => D64::V63 } }
    const D: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63];
}
const _: () = { assert!(D64::V0 as u32 == 0); assert!(D64::V1 as u32 == 1); assert!(D64::V2 as u32 == 2); assert!(D64::V3 as u32 == 3); assert!(D64::V4 as u32 == 4); assert!(D64::V5 as u32 == 5); assert!(D64::V6 as u32 == 6); assert!(D64::V7 as u32 == 7); assert!(D64::V8 as u32 == 8); assert!(D64::V9 as u32 == 9); assert!(D64::V10 as u32 == 10); assert!(D64::V11 as u32 == 11); assert!(D64::V12 as u32 == 12); assert!(D64::V13 as u32 == 13); assert!(D64::V14 as u32 == 14); assert!(D64::V15 as u32 == 15); assert!(D64::V16 as u32 == 16); assert!(D64::V17 as u32 == 17); assert!(D64::V18 as u32 == 18); assert!(D64::V19 as u32 == 19); assert!(D64::V20 as u32 == 20); assert!(D64::V21 as u32 == 21); assert!(D64::V22 as u32 == 22); assert!(D64::V23 as u32 == 23); assert!(D64::V24 as u32 == 24); assert!(D64::V25 as u32 == 25); assert!(D64::V26 as u32 == 26); assert!(D64::V27 as u32 == 27); assert!(D64::V28 as u32 == 28); assert!(D64::V29 as u32 == 29); assert!(D64::V30 as u32 == 30); assert!(D64::V31 as u32 == 31); assert!(D64::V32 as u32 == 32); assert!(D64::V33 as u32 == 33); assert!(D64::V34 as u32 == 34); assert!(D64::V35 as u32 == 35); assert!(D64::V36 as u32 == 36); assert!(D64::V37 as u32 == 37); assert!(D64::V38 as u32 == 38); assert!(D64::V39 as u32 == 39); assert!(D64::V40 as u32 == 40); assert!(D64::V41 as u32 == 41); assert!(D64::V42 as u32 == 42); assert!(D64::V43 as u32 == 43); assert!(D64::V44 as u32 == 44); assert!(D64::V45 as u32 == 45); assert!(D64::V46 as u32 == 46); assert!(D64::V47 as u32 == 47); assert!(D64::V48 as u32 == 48); assert!(D64::V49 as u32 == 49); assert!(D64::V50 as u32 == 50); assert!(D64::V51 as u32 == 51); assert!(D64::V52 as u32 == 52); assert!(D64::V53 as u32 == 53); assert!(D64::V54 as u32 == 54); assert!(D64::V55 as u32 == 55); assert!(D64::V56 as u32 == 56); assert!(D64::V57 as u32 == 57); assert!(D64::V58 as u32 == 58); assert!(D64::V59 as u32 == 59); assert!(D64::V60 as u32 == 60); assert!(D64::V61 as u32 == 61); assert!(D64::V62 as u32 == 62); assert!(D64::V63 as u32 == 63); };
impl core::fmt::Display for D64 { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { match self { D64::V0 => f.write_str("d0"), D64::V1 => f.write_str("d1"), D64::V2 => f.write_str("d2"), D64::V3 => f.write_str("d3"), D64::V4 => f.write_str("d4"), D64::V5 => f.write_str("d5"), D64::V6 => f.write_str("d6"), D64::V7 => f.write_str("d7"), D64::V8 => f.write_str("d8"), D64::V9 => f.write_str("d9"), D64::V10 => f.write_str("d10"), D64::V11 => f.write_str("d11"), D64::V12 => f.write_str("d12"), D64::V13 => f.write_str("d13"), D64::V14 => f.write_str("d14"), D64::V15 => f.write_str("d15"), D64::V16 => f.write_str("d16"), D64::V17 => f.write_str("d17"), D64::V18 => f.write_str("d18"), D64::V19 => f.write_str("d19"), D64::V20 => f.write_str("d20"), D64::V21 => f.write_str("d21"), D64::V22 => f.write_str("d22"), D64::V23 => f.write_str("d23"), D64::V24 => f.write_str("d24"), D64::V25 => f.write_str("d25"), D64::V26 => f.write_str("d26"), D64::V27 => f.write_str("d27"), D64::V28 => f.write_str("d28"), D64::V29 => f.write_str("d29"), D64::V30 => f.write_str("d30"), D64::V31 => f.write_str("d31"), D64::V32 => f.write_str("d32"), D64::V33 => f.write_str("d33"), D64::V34 => f.write_str("d34"), D64::V35 => f.write_str("d35"), D64::V36 => f.write_str("d36"), D64::V37 => f.write_str("d37"), D64::V38 => f.write_str("d38"), D64::V39 => f.write_str("d39"), D64::V40 => f.write_str("d40"), D64::V41 => f.write_str("d41"), D64::V42 => f.write_str("d42"), D64::V43 => f.write_str("d43"), D64::V44 => f.write_str("d44"), D64::V45 => f.write_str("d45"), D64::V46 => f.write_str("d46"), D64::V47 => f.write_str("d47"), D64::V48 => f.write_str("d48"), D64::V49 => f.write_str("d49"), D64::V50 => f.write_str("d50"), D64::V51 => f.write_str("d51"), D64::V52 => f.write_str("d52"), D64::V53 => f.write_str("d53"), D64::V54 => f.write_str("d54"), D64::V55 => f.write_str("d55"), D64::V56 => f.write_str("d56"), D64::V57 => f.write_str("d57"), D64::V58 => f.write_str("d58"), D64::V59 => f.write_str("d59"), D64::V60 => f.write_str("d60"), D64::V61 => f.write_str("d61"), D64::V62 => f.write_str("d62"), D64::V63 => f.write_str("d63"), } } }

#[derive(EnumSetType, Debug)]
#[enumset(repr = "u128")]
pub enum X128 { V127 = 127, V0 = 0, V1 = 1, V5 = 5, V63 = 63, V64 = 64, V65 = 65, V100 = 100 }
impl Fam<2> for X128 {
    fn nth(i: usize) -> Self { match i { 0 => X128::V127, 1 => X128::V0, 2 => X128::V1, 3 => X128::V5, 4 => X128::V63, 5 => X128::V64, 6 => X128::V65, _ => X128::V100 } }
    const D: &'static [u32] = &[127, 0, 1, 5, 63, 64, 65, 100];
}
const _: () = { assert!(X128::V127 as u32 == 127); assert!(X128::V0 as u32 == 0); assert!(X128::V1 as u32 == 1); assert!(X128::V5 as u32 == 5); assert!(X128::V63 as u32 == 63); assert!(X128::V64 as u32 == 64); assert!(X128::V65 as u32 == 65); assert!(X128::V100 as u32 == 100); };
impl core::fmt::Display for X128 { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { match self { X128::V127 => f.write_str("d127"), X128::V0 => f.write_str("d0"), X128::V1 => f.write_str("d1"), X128::V5 => f.write_str("d5"), X128::V63 => f.write_str("d63"), X128::V64 => f.write_str("d64"), X128::V65 => f.write_str("d65"), X128::V100 => f.write_str("d100"), } } }

#[derive(EnumSetType, Debug)]
#[enumset(repr = "u128")]
pub enum F128 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127 }
impl Fam<2> for F128 {
    fn nth(i: usize) -> Self { match i { 0 => F128::V0, 1 => F128::V1, 2 => F128::V2, 3 => F128::V3, 4 => F128::V4, 5 => F128::V5, 6 => F128::V6, 7 => F128::V7, 8 => F128::V8, 9 => F128::V9, 10 => F128::V10, 11 => F128::V11, 12 => F128::V12, 13 => F128::V13, 14 => F128::V14, 15 => F128::V15, 16 => F128::V16, 17 => F128::V17, 18 => F128::V18, 19 => F128::V19, 20 => F128::V20, 21 => F128::V21, 22 => F128::V22, 23 => F128::V23, 24 => F128::V24, 25 => F128::V25, 26 => F128::V26, 27 => F128::V27, 28 => F128::V28, 29 => F128::V29, 30 => F128::V30, 31 => F128::V31, 32 => F128::V32, 33 => F128::V33, 34 => F128::V34, 35 => F128::V35, 36 => F128::V36, 37 => F128::V37, 38 => F128::V38, 39 => F128::V39, 40 => F128::V40, 41 => F128::V41, 42 => F128::V42, 43 => F128::V43, 44 => F128::V44, 45 => F128::V45, 46 => F128::V46, 47 => F128::V47, 48 => F128::V48, 49 => F128::V49, 50 => F128::V50, 51 => F128::V51, 52 => F128::V52, 53 => F128::V53, 54 => F128::V54, 55 => F128::V55, 56 => F128::V56, 57 => F128::V57, 58 => F128::V58, 59 => F128::V59, 60 => F128::V60, 61 => F128::V61, 62 => F128::V62, 63 => F128::V63, 64 => F128::V64, 65 => F128::V65, 66 => F128::V66, 67 => F128::V67, 68 => F128::V68, 69 => F128::V69, 70 => F128::V70, 71 => F128::V71, 72 => F128::V72, 73 => F128::V73, 74 => F128::V74, 75 => F128::V75, 76 => F128::V76, 77 => F128::V77, 78 => F128::V78, 79 => F128::V79, 80 => F128::V80, 81 => F128::V81, 82 => F128::V82, 83 => F128::V83, 84 => F128::V84, 85 => F128::V85, 86 => F128::V86, 87 => F128::V87, 88 => F128::V88, 89 => F128::V89, 90 => F128::V90, 91 => F128::V91, 92 => F128::V92, 93 => F128::V93, 94 => F128::V94, 95 => F128::V95, 96 => F128::V96, 97 => F128::V97, 98 => F128::V98, 99 => F128::V99, 100 => F128::V100, 101 => F128::V101, 102 => F128::V102, 103 => F128::V103, 104 => F128::V104, 105 => F128::V105, 106 => F128::V106, 107 => F128::V107, 108 => F128::V108, 109 => F128::V109, 110 => F128::V110, 111 => F128::V111, 112 => F128::V112, 113 => F128::V113, 114 => F128::V114, 115 => F128::V115, 116 => F128::V116, 117 => F128::V117, 118 => F128::V118, 119 => F128::V119, 120 => F128::V120, 121 => F128::V121, 122 => F128::V122, 123 => F128::V123, 124 => F128::V124, 125 => F128::V125, 126 => F128::V126, _ => F128::V127 } }
    const D: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127];
}
const _: () = { assert!(F128::V0 as u32 == 0); assert!(F128::V1 as u32 == 1); assert!(F128::V2 as u32 == 2); assert!(F128::V3 as u32 == 3); assert!(F128::V4 as u32 == 4); assert!(F128::V5 as u32 == 5); assert!(F128::V6 as u32 == 6); assert!(F128::V7 as u32 == 7); assert!(F128::V8 as u32 == 8); assert!(F128::V9 as u32 == 9); assert!(F128::V10 as u32 == 10); assert!(F128::V11 as u32 == 11); assert!(F128::V12 as u32 == 12); assert!(F128::V13 as u32 == 13); assert!(F128::V14 as u32 == 14); assert!(F128::V15 as u32 == 15); assert!(F128::V16 as u32 == 16); assert!(F128::V17 as u32 == 17); assert!(F128::V18 as u32 == 18); assert!(F128::V19 as u32 == 19); assert!(F128::V20 as u32 == 20); assert!(F128::V21 as u32 == 21); assert!(F128::V22 as u32 == 22); assert!(F128::V23 as u32 == 23); assert!(F128::V24 as u32 == 24); assert!(F128::V25 as u32 == 25); assert!(F128::V26 as u32 == 26); assert!(F128::V27 as u32 == 27); assert!(F128::V28 as u32 == 28); assert!(F128::V29 as u32 == 29); assert!(F128::V30 as u32 == 30); assert!(F128::V31 as u32 == 31); assert!(F128::V32 as u32 == 32); assert!(F128::V33 as u32 == 33); assert!(F128::V34 as u32 == 34); assert!(F128::V35 as u32 == 35); assert!(F128::V36 as u32 == 36); assert!(F128::V37 as u32 == 37); assert!(F128::V38 as u32 == 38); assert!(F128::V39 as u32 == 39); assert!(F128::V40 as u32 == 40); assert!(F128::V41 as u32 == 41); assert!(F128::V42 as u32 == 42); assert!(F128::V43 as u32 == 43); assert!(F128::V44 as u32 == 44); assert!(F128::V45 as u32 == 45); assert!(F128::V46 as u32 == 46); assert!(F128::V47 as u32 == 47); assert!(F128::V48 as u32 == 48); assert!(F128::V49 as u32 == 49); assert!(F128::V50 as u32 == 50); assert!(F128::V51 as u32 == 51); assert!(F128::V52 as u32 == 52); assert!(F128::V53 as u32 == 53); assert!(F128::V54 as u32 == 54); assert!(F128::V55 as u32 == 55); assert!(F128::V56 as u32 == 56); assert!(F128::V57 as u32 == 57); assert!(F128::V58 as u32 == 58); assert!(F128::V59 as u32 == 59); assert!(F128::V60 as u32 == 60); assert!(F128::V61 as u32 == 61); assert!(F128::V62 as u32 == 62); assert!(F128::V63 as u32 == 63); assert!(F128::V64 as u32 == 64); assert!(F128::V65 as u32 == 65); assert!(F128::V66 as u32 == 66); assert!(F128::V67 as u32 == 67); assert!(F128::V68 as u32 == 68); assert!(F128::V69 as u32 == 69); assert!(F128::V70 as u32 == 70); assert!(F128::V71 as u32 == 71); assert!(F128::V72 as u32 == 72); assert!(F128::V73 as u32 == 73); assert!(F128::V74 as u32 == 74); assert!(F128::V75 as u32 == 75); assert!(F128::V76 as u32 == 76); assert!(F128::V77 as u32 == 77); assert!(F128::V78 as u32 == 78); assert!(F128::V79 as u32 == 79); assert!(F128::V80 as u32 == 80); assert!(F128::V81 as u32 == 81); assert!(F128::V82 as u32 == 82); assert!(F128::V83 as u32 == 83); assert!(F128::V84 as u32 == 84); assert!(F128::V85 as u32 == 85); assert!(F128::V86 as u32 == 86); assert!(F128::V87 as u32 == 87); assert!(F128::V88 as u32 == 88); assert!(F128::V89 as u32 == 89); assert!(F128::V90 as u32 == 90); assert!(F128::V91 as u32 == 91); assert!(F128::V92 as u32 == 92); assert!(F128::V93 as u32 == 93); assert!(F128::V94 as u32 == 94); assert!(F128::V95 as u32 == 95); assert!(F128::V96 as u32 == 96); assert!(F128::V97 as u32 == 97); assert!(F128::V98 as u32 == 98); assert!(F128::V99 as u32 == 99); assert!(F128::V100 as u32 == 100); assert!(F128::V101 as u32 == 101); assert!(F128::V102 as u32 == 102); assert!(F128::V103 as u32 == 103); assert!(F128::V104 as u32 == 104); assert!(F128::V105 as u32 == 105); assert!(F128::V106 as u32 == 106); assert!(F128::V107 as u32 == 107); assert!(F128::V108 as u32 == 108); assert!(F128::V109 as u32 == 109); assert!(F128::V110 as u32 == 110); assert!(F128::V111 as u32 == 111); assert!(F128::V112 as u32 == 112); assert!(F128::V113 as u32 == 113); assert!(F128::V114 as u32 == 114); assert!(F128::V115 as u32 == 115); assert!(F128::V116 as u32 == 116); assert!(F128::V117 as u32 == 117); assert!(F128::V118 as u32 == 118); assert!(F128::V119 as u32 == 119); assert!(F128::V120 as u32 == 120); assert!(F128::V121 as u32 == 121); assert!(F128::V122 as u32 == 122); assert!(F128::V123 as u32 == 123); assert!(F128::V124 as u32 == 124); assert!(F128::V125 as u32 == 125); assert!(F128::V126 as u32 == 126); assert!(F128::V127 as u32 == 127); };
impl core::fmt::Display for F128 { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { match self { F128::V0 => f.write_str("d0"), F128::V1 => f.write_str("d1"), F128::V2 => f.write_str("d2"), F128::V3 => f.write_str("d3"), F128::V4 => f.write_str("d4"), F128::V5 => f.write_str("d5"), F128::V6 => f.write_str("d6"), F128::V7 => f.write_str("d7"), F128::V8 => f.write_str("d8"), F128::V9 => f.write_str("d9"), F128::V10 => f.write_str("d10"), F128::V11 => f.write_str("d11"), F128::V12 => f.write_str("d12"), F128::V13 => f.write_str("d13"), F128::V14 => f.write_str("d14"), F128::V15 => f.write_str("d15"), F128::V16 => f.write_str("d16"), F128::V17 => f.write_str("d17"), F128::V18 => f.write_str("d18"), F128::V19 => f.write_str("d19"), F128::V20 => f.write_str("d20"), F128::V21 => f.write_str("d21"), F128::V22 => f.write_str("d22"), F128::V23 => f.write_str("d23"), F128::V24 => f.write_str("d24"), F128::V25 => f.write_str("d25"), F128::V26 => f.write_str("d26"), F128::V27 => f.write_str("d27"), F128::V28 => f.write_str("d28"), F128::V29 => f.write_str("d29"), F128::V30 => f.write_str("d30"), F128::V31 => f.write_str("d31"), F128::V32 => f.write_str("d32"), F128::V33 => f.write_str("d33"), F128::V34 => f.write_str("d34"), F128::V35 => f.write_str("d35"), F128::V36 => f.write_str("d36"), F128::V37 => f.write_str("d37"), F128::V38 => f.write_str("d38"), F128::V39 => f.write_str("d39"), F128::V40 => f.write_str("d40"), F128::V41 => f.write_str("d41"), F128::V42 => f.write_str("d42"), F128::V43 => f.write_str("d43"), F128::V44 => f.write_str("d44"), F128::V45 => f.write_str("d45"), F128::V46 => f.write_str("d46"), F128::V47 => f.write_str("d47"), F128::V48 => f.write_str("d48"), F128::V49 => f.write_str("d49"), F128::V50 => f.write_str("d50"), F128::V51 => f.write_str("d51"), F128::V52 => f.write_str("d52"), F128::V53 => f.write_str("d53"), F128::V54 => f.write_str("d54"), F128::V55 => f.write_str("d55"), F128::V56 => f.write_str("d56"), F128::V57 => f.write_str("d57"), F128::V58 => f.write_str("d58"), F128::V59 => f.write_str("d59"), F128::V60 => f.write_str("d60"), F128::V61 => f.write_str("d61"), F128::V62 => f.write_str("d62"), F128::V63 => f.write_str("d63"), F128::V64 => f.write_str("d64"), F128::V65 => f.write_str("d65"), F128::V66 => f.write_str("d66"), F128::V67 => f.write_str("d67"), F128::V68 => f.write_str("d68"), F128::V69 => f.write_str("d69"), F128::V70 => f.write_str("d70"), F128::V71 => f.write_str("d71"), F128::V72 => f.write_str("d72"), F128::V73 => f.write_str("d73"), F128::V74 => f.write_str("d74"), F128::V75 => f.write_str("d75"), F128::V76 => f.write_str("d76"), F128::V77 => f.write_str("d77"), F128::V78 => f.write_str("d78"), F128::V79 => f.write_str("d79"), F128::V80 => f.write_str("d80"), F128::V81 => f.write_str("d81"), F128::V82 => f.write_str("d82"), F128::V83 => f.write_str("d83"), F128::V84 => f.write_str("d84"), F128::V85 => f.write_str("d85"), F128::V86 => f.write_str("d86"), F128::V87 => f.write_str("d87"), F128::V88 => f.write_str("d88"), F128::V89 => f.write_str("d89"), F128::V90 => f.write_str("d90"), F128::V91 => f.write_str("d91"), F128::V92 => f.write_str("d92"), F128::V93 => f.write_str("d93"), F128::V94 => f.write_str("d94"), F128::V95 => f.write_str("d95"), F128::V96 => f.write_str("d96"), F128::V97 => f.write_str("d97"), F128::V98 => f.write_str("d98"), F128::V99 => f.write_str("d99"), F128::V100 => f.write_str("d100"), F128::V101 => f.write_str("d101"), F128::V102 => f.write_str("d102"), F128::V103 => f.write_str("d103"), F128::V104 => f.write_str("d104"), F128::V105 => f.write_str("d105"), F128::V106 => f.write_str("d106"), F128::V107 => f.write_str("d107"), F128::V108 => f.write_str("d108"), F128::V109 => f.write_str("d109"), F128::V110 => f.write_str("d110"), F128::V111 => f.write_str("d111"), F128::V112 => f.write_str("d112"), F128::V113 => f.write_str("d113"), F128::V114 => f.write_str("d114"), F128::V115 => f.write_str("d115"), F128::V116 => f.write_str("d116"), F128::V117 => f.write_str("d117"), F128::V118 => f.write_str("d118"), F128::V119 => f.write_str("d119"), F128::V120 => f.write_str("d120"), F128::V121 => f.write_str("d121"), F128::V122 => f.write_str("d122"), F128::V123 => f.write_str("d123"), F128::V124 => f.write_str("d124"), F128::V125 => f.write_str("d125"), F128::V126 => f.write_str("d126"), F128::V127 => f.write_str("d127"), } } }

#[derive(EnumSetType, Debug)]
#[enumset(repr = "array")]
pub enum A1 { V5 = 5, V63 = 63, V0 = 0, V32 = 32 }
impl Fam<1> for A1 {
    fn nth(i: usize) -> Self { match i { 0 => A1::V5, 1 => A1::V63, 2 => A1::V0, _ => A1::V32 } }
    const D: &'static [u32] = &[5, 63, 0, 32];
}
const _: () = { assert!(A1::V5 as u32 == 5); assert!(A1::V63 as u32 == 63); assert!(A1::V0 as u32 == 0); assert!(A1::V32 as u32 == 32); };
impl core::fmt::Display for A1 { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { match self { A1::V5 => f.write_str("d5"), A1::V63 => f.write_str("d63"), A1::V0 => f.write_str("d0"), A1::V32 => f.write_str("d32"), } } }

#[derive(EnumSetType, Debug)]
pub enum A2 { V100 = 100, V0 = 0, V63 = 63, V64 = 64, V65, V3 = 3 }
impl Fam<2> for A2 {
    fn nth(i: usize) -> Self { match i { 0 => A2::V100, 1 => A2::V0, 2 => A2::V63, 3 => A2::V64, 4 => A2::V65, _ => A2::V3 } }
    const D: &'static [u32] = &[100, 0, 63, 64, 65, 3];
}
const _: () = { assert!(A2::V100 as u32 == 100); assert!(A2::V0 as u32 == 0); assert!(A2::V63 as u32 == 63); assert!(A2::V64 as u32 == 64); assert!(A2::V65 as u32 == 65); assert!(A2::V3 as u32 == 3); };
impl core::fmt::Display for A2 { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { match self { A2::V100 => f.write_str("d100"), A2::V0 => f.write_str("d0"), A2::V63 => f.write_str("d63"), A2::V64 => f.write_str("d64"), A2::V65 => f.write_str("d65"), A2::V3 => f.write_str("d3"), } } }

#[derive(EnumSetType, Debug)]
pub enum A2H { V64 = 64, V90 = 90, V127 = 127 }
impl Fam<2> for A2H {
    fn nth(i: usize) -> Self { match i { 0 => A2H::V64, 1 => A2H::V90, _ => A2H::V127 } }
    const D: &'static [u32] = &[64, 90, 127];
}
const _: () = { assert!(A2H::V64 as u32 == 64); assert!(A2H::V90 as u32 == 90); assert!(A2H::V127 as u32 == 127); };
impl core::fmt::Display for A2H { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { match self { A2H::V64 => f.write_str("d64"), A2H::V90 => f.write_str("d90"), A2H::V127 => f.write_str("d127"), } } }

#[derive(EnumSetType, Debug)]
pub enum A3 { V191 = 191, V1 = 1, V70 = 70, V130 = 130, V128 = 128, V127 = 127 }
impl Fam<3> for A3 {
    fn nth(i: usize) -> Self { match i { 0 => A3::V191, 1 => A3::V1, 2 => A3::V70, 3 => A3::V130, 4 => A3::V128, _ => A3::V127 } }
    const D: &'static [u32] = &[191, 1, 70, 130, 128, 127];
}
const _: () = { assert!(A3::V191 as u32 == 191); assert!(A3::V1 as u32 == 1); assert!(A3::V70 as u32 == 70); assert!(A3::V130 as u32 == 130); assert!(A3::V128 as u32 == 128); assert!(A3::V127 as u32 == 127); };
impl core::fmt::Display for A3 { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { match self { A3::V191 => f.write_str("d191"), A3::V1 => f.write_str("d1"), A3::V70 => f.write_str("d70"), A3::V130 => f.write_str("d130"), A3::V128 => f.write_str("d128"), A3::V127 => f.write_str("d127"), } } }

#[derive(EnumSetType, Debug)]
pub enum A4 { V0 = 0, V5 = 5, V63 = 63, V200 = 200, V255 = 255, V192 = 192, V64 = 64 }
impl Fam<4> for A4 {
    fn nth(i: usize) -> Self { match i { 0 => A4::V0, 1 => A4::V5, 2 => A4::V63, 3 => A4::V200, 4 => A4::V255, 5 => A4::V192, _ => A4::V64 } }
    const D: &'static [u32] = &[0, 5, 63, 200, 255, 192, 64];
}
const _: () = { assert!(A4::V0 as u32 == 0); assert!(A4::V5 as u32 == 5); assert!(A4::V63 as u32 == 63); assert!(A4::V200 as u32 == 200); assert!(A4::V255 as u32 == 255); assert!(A4::V192 as u32 == 192); assert!(A4::V64 as u32 == 64); };
impl core::fmt::Display for A4 { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { match self { A4::V0 => f.write_str("d0"), A4::V5 => f.write_str("d5"), A4::V63 => f.write_str("d63"), A4::V200 => f.write_str("d200"), A4::V255 => f.write_str("d255"), A4::V192 => f.write_str("d192"), A4::V64 => f.write_str("d64"), } } }

#[derive(EnumSetType, Debug)]
pub enum A4E { V3 = 3, V254 = 254, V62 = 62 }
impl Fam<4> for A4E {
    fn nth(i: usize) -> Self { match i { 0 => A4E::V3, 1 => A4E::V254, _ => A4E::V62 } }
    const D: &'static [u32] = &[3, 254, 62];
}
const _: () = { assert!(A4E::V3 as u32 == 3); assert!(A4E::V254 as u32 == 254); assert!(A4E::V62 as u32 == 62); };
impl core::fmt::Display for A4E { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { match self { A4E::V3 => f.write_str("d3"), A4E::V254 => f.write_str("d254"), A4E::V62 => f.write_str("d62"), } } }

#[derive(EnumSetType, Debug)]
#[enumset(repr = "u8")]
pub enum R8 { V7 = 7, V0 = 0, V3 = 3 }
impl Fam<1> for R8 {
    fn nth(i: usize) -> Self { match i { 0 => R8::V7, 1 => R8::V0, _ => R8::V3 } }
    const D: &'static [u32] = &[7, 0, 3];
}
const _: () = { assert!(R8::V7 as u32 == 7); assert!(R8::V0 as u32 == 0); assert!(R8::V3 as u32 == 3); };
impl core::fmt::Display for R8 { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { match self { R8::V7 => f.write_str("d7"), R8::V0 => f.write_str("d0"), R8::V3 => f.write_str("d3"), } } }

#[derive(EnumSetType, Debug)]
#[enumset(repr = "u16")]
pub enum R16 { V2 = 2, V0 = 0, V11 = 11 }
impl Fam<1> for R16 {
    fn nth(i: usize) -> Self { match i { 0 => R16::V2, 1 => R16::V0, _ => R16::V11 } }
    const D: &'static [u32] = &[2, 0, 11];
}
const _: () = { assert!(R16::V2 as u32 == 2); assert!(R16::V0 as u32 == 0); assert!(R16::V11 as u32 == 11); };
impl core::fmt::Display for R16 { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { match self { R16::V2 => f.write_str("d2"), R16::V0 => f.write_str("d0"), R16::V11 => f.write_str("d11"), } } }

#[derive(EnumSetType, Debug)]
#[enumset(repr = "u32")]
pub enum R32 { V2 = 2, V0 = 0, V9 = 9, V31 = 31 }
impl Fam<1> for R32 {
    fn nth(i: usize) -> Self { match i { 0 => R32::V2, 1 => R32::V0, 2 => R32::V9, _ => R32::V31 } }
    const D: &'static [u32] = &[2, 0, 9, 31];
}
const _: () = { assert!(R32::V2 as u32 == 2); assert!(R32::V0 as u32 == 0); assert!(R32::V9 as u32 == 9); assert!(R32::V31 as u32 == 31); };
impl core::fmt::Display for R32 { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { match self { R32::V2 => f.write_str("d2"), R32::V0 => f.write_str("d0"), R32::V9 => f.write_str("d9"), R32::V31 => f.write_str("d31"), } } }

#[derive(EnumSetType, Debug)]
#[enumset(repr = "u64")]
pub enum R64 { V2 = 2, V0 = 0, V40 = 40 }
impl Fam<1> for R64 {
    fn nth(i: usize) -> Self { match i { 0 => R64::V2, 1 => R64::V0, _ => R64::V40 } }
    const D: &'static [u32] = &[2, 0, 40];
}
const _: () = { assert!(R64::V2 as u32 == 2); assert!(R64::V0 as u32 == 0); assert!(R64::V40 as u32 == 40); };
impl core::fmt::Display for R64 { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { match self { R64::V2 => f.write_str("d2"), R64::V0 => f.write_str("d0"), R64::V40 => f.write_str("d40"), } } }

#[derive(EnumSetType, Debug)]
#[enumset(repr = "u128")]
pub enum R128 { V2 = 2, V0 = 0, V40 = 40 }
impl Fam<2> for R128 {
    fn nth(i: usize) -> Self { match i { 0 => R128::V2, 1 => R128::V0, _ => R128::V40 } }
    const D: &'static [u32] = &[2, 0, 40];
}
const _: () = { assert!(R128::V2 as u32 == 2); assert!(R128::V0 as u32 == 0); assert!(R128::V40 as u32 == 40); };
impl core::fmt::Display for R128 { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { match self { R128::V2 => f.write_str("d2"), R128::V0 => f.write_str("d0"), R128::V40 => f.write_str("d40"), } } }

#[repr(u8)]
#[derive(EnumSetType, Debug)]
pub enum RU8 { V200 = 200, V5 = 5, V6, V64 = 64 }
impl Fam<4> for RU8 {
    fn nth(i: usize) -> Self { match i { 0 => RU8::V200, 1 => RU8::V5, 2 => RU8::V6, _ => RU8::V64 } }
    const D: &'static [u32] = &[200, 5, 6, 64];
}
const _: () = { assert!(RU8::V200 as u32 == 200); assert!(RU8::V5 as u32 == 5); assert!(RU8::V6 as u32 == 6); assert!(RU8::V64 as u32 == 64); };
impl core::fmt::Display for RU8 { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { match self { RU8::V200 => f.write_str("d200"), RU8::V5 => f.write_str("d5"), RU8::V6 => f.write_str("d6"), RU8::V64 => f.write_str("d64"), } } }

#[repr(i16)]
#[derive(EnumSetType, Debug)]
pub enum RI16 { V5 = 5, V6, V0 = 0, V30 = 30 }
impl Fam<1> for RI16 {
    fn nth(i: usize) -> Self { match i { 0 => RI16::V5, 1 => RI16::V6, 2 => RI16::V0, _ => RI16::V30 } }
    const D: &'static [u32] = &[5, 6, 0, 30];
}
const _: () = { assert!(RI16::V5 as u32 == 5); assert!(RI16::V6 as u32 == 6); assert!(RI16::V0 as u32 == 0); assert!(RI16::V30 as u32 == 30); };
impl core::fmt::Display for RI16 { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { match self { RI16::V5 => f.write_str("d5"), RI16::V6 => f.write_str("d6"), RI16::V0 => f.write_str("d0"), RI16::V30 => f.write_str("d30"), } } }

#[repr(u64)]
#[derive(EnumSetType, Debug)]
pub enum RU64 { V5 = 5, V6, V0 = 0, V60 = 60 }
impl Fam<1> for RU64 {
    fn nth(i: usize) -> Self { match i { 0 => RU64::V5, 1 => RU64::V6, 2 => RU64::V0, _ => RU64::V60 } }
    const D: &'static [u32] = &[5, 6, 0, 60];
}
const _: () = { assert!(RU64::V5 as u32 == 5); assert!(RU64::V6 as u32 == 6); assert!(RU64::V0 as u32 == 0); assert!(RU64::V60 as u32 == 60); };
impl core::fmt::Display for RU64 { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { match self { RU64::V5 => f.write_str("d5"), RU64::V6 => f.write_str("d6"), RU64::V0 => f.write_str("d0"), RU64::V60 => f.write_str("d60"), } } }

#[repr(C)]
#[derive(EnumSetType, Debug)]
pub enum RC { V9 = 9, V10, V0 = 0 }
impl Fam<1> for RC {
    fn nth(i: usize) -> Self { match i { 0 => RC::V9, 1 => RC::V10, _ => RC::V0 } }
    const D: &'static [u32] = &[9, 10, 0];
}
const _: () = { assert!(RC::V9 as u32 == 9); assert!(RC::V10 as u32 == 10); assert!(RC::V0 as u32 == 0); };
impl core::fmt::Display for RC { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { match self { RC::V9 => f.write_str("d9"), RC::V10 => f.write_str("d10"), RC::V0 => f.write_str("d0"), } } }

#[derive(EnumSetType, Debug)]
pub enum One0 { V0 = 0 }
impl Fam<1> for One0 {
    fn nth(_: usize) -> Self { One0::V0 }
    const D: &'static [u32] = &[0];
}
const _: () = { assert!(One0::V0 as u32 == 0); };
impl core::fmt::Display for One0 { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { match self { One0::V0 => f.write_str("d0"), } } }

#[derive(EnumSetType, Debug)]
pub enum One9 { V9 = 9 }
impl Fam<1> for One9 {
    fn nth(_: usize) -> Self { One9::V9 }
    const D: &'static [u32] = &[9];
}
const _: () = { assert!(One9::V9 as u32 == 9); };
impl core::fmt::Display for One9 { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { match self { One9::V9 => f.write_str("d9"), } } }

#[derive(EnumSetType, Debug)]
pub enum One70 { V70 = 70 }
impl Fam<2> for One70 {
    fn nth(_: usize) -> Self { One70::V70 }
    const D: &'static [u32] = &[70];
}
const _: () = { assert!(One70::V70 as u32 == 70); };
impl core::fmt::Display for One70 { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { match self { One70::V70 => f.write_str("d70"), } } }

#[derive(EnumSetType, Debug)]
pub enum I8 { V7 = 7, V0 = 0, V2 = 2, V3 = 3 }
impl Fam<1> for I8 {
    fn nth(i: usize) -> Self { match i { 0 => I8::V7, 1 => I8::V0, 2 => I8::V2, _ => I8::V3 } }
    const D: &'static [u32] = &[7, 0, 2, 3];
}
const _: () = { assert!(I8::V7 as u32 == 7); assert!(I8::V0 as u32 == 0); assert!(I8::V2 as u32 == 2); assert!(I8::V3 as u32 == 3); };
impl core::fmt::Display for I8 { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { match self { I8::V7 => f.write_str("d7"), I8::V0 => f.write_str("d0"), I8::V2 => f.write_str("d2"), I8::V3 => f.write_str("d3"), } } }

#[derive(EnumSetType, Debug)]
pub enum I64 { V63 = 63, V0 = 0, V31 = 31, V32 = 32 }
impl Fam<1> for I64 {
    fn nth(i: usize) -> Self { match i { 0 => I64::V63, 1 => I64::V0, 2 => I64::V31, _ => I64::V32 } }
    const D: &'static [u32] = &[63, 0, 31, 32];
}
const _: () = { assert!(I64::V63 as u32 == 63); assert!(I64::V0 as u32 == 0); assert!(I64::V31 as u32 == 31); assert!(I64::V32 as u32 == 32); };
impl core::fmt::Display for I64 { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { match self { I64::V63 => f.write_str("d63"), I64::V0 => f.write_str("d0"), I64::V31 => f.write_str("d31"), I64::V32 => f.write_str("d32"), } } }

#[derive(EnumSetType, Debug)]
#[enumset(repr = "u128")]
pub enum I128 { V127 = 127, V0 = 0, V63 = 63, V64 = 64 }
impl Fam<2> for I128 {
    fn nth(i: usize) -> Self { match i { 0 => I128::V127, 1 => I128::V0, 2 => I128::V63, _ => I128::V64 } }
    const D: &'static [u32] = &[127, 0, 63, 64];
}
const _: () = { assert!(I128::V127 as u32 == 127); assert!(I128::V0 as u32 == 0); assert!(I128::V63 as u32 == 63); assert!(I128::V64 as u32 == 64); };
impl core::fmt::Display for I128 { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { match self { I128::V127 => f.write_str("d127"), I128::V0 => f.write_str("d0"), I128::V63 => f.write_str("d63"), I128::V64 => f.write_str("d64"), } } }

#[derive(EnumSetType, Debug)]
#[enumset(repr = "array")]
pub enum IA1 { V63 = 63, V1 = 1, V0 = 0 }
impl Fam<1> for IA1 {
    fn nth(i: usize) -> Self { match i { 0 => IA1::V63, 1 => IA1::V1, _ => IA1::V0 } }
    const D: &'static [u32] = &[63, 1, 0];
}
const _: () = { assert!(IA1::V63 as u32 == 63); assert!(IA1::V1 as u32 == 1); assert!(IA1::V0 as u32 == 0); };
impl core::fmt::Display for IA1 { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { match self { IA1::V63 => f.write_str("d63"), IA1::V1 => f.write_str("d1"), IA1::V0 => f.write_str("d0"), } } }

#[derive(EnumSetType, Debug)]
pub enum IA3 { V150 = 150, V0 = 0, V63 = 63, V64 = 64, V128 = 128 }
impl Fam<3> for IA3 {
    fn nth(i: usize) -> Self { match i { 0 => IA3::V150, 1 => IA3::V0, 2 => IA3::V63, 3 => IA3::V64, _ => IA3::V128 } }
    const D: &'static [u32] = &[150, 0, 63, 64, 128];
}
const _: () = { assert!(IA3::V150 as u32 == 150); assert!(IA3::V0 as u32 == 0); assert!(IA3::V63 as u32 == 63); assert!(IA3::V64 as u32 == 64); assert!(IA3::V128 as u32 == 128); };
impl core::fmt::Display for IA3 { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { match self { IA3::V150 => f.write_str("d150"), IA3::V0 => f.write_str("d0"), IA3::V63 => f.write_str("d63"), IA3::V64 => f.write_str("d64"), IA3::V128 => f.write_str("d128"), } } }

#[derive(EnumSetType, Debug)]
pub enum IA4 { V255 = 255, V2 = 2, V63 = 63, V192 = 192 }
impl Fam<4> for IA4 {
    fn nth(i: usize) -> Self { match i { 0 => IA4::V255, 1 => IA4::V2, 2 => IA4::V63, _ => IA4::V192 } }
    const D: &'static [u32] = &[255, 2, 63, 192];
}
const _: () = { assert!(IA4::V255 as u32 == 255); assert!(IA4::V2 as u32 == 2); assert!(IA4::V63 as u32 == 63); assert!(IA4::V192 as u32 == 192); };
impl core::fmt::Display for IA4 { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { match self { IA4::V255 => f.write_str("d255"), IA4::V2 => f.write_str("d2"), IA4::V63 => f.write_str("d63"), IA4::V192 => f.write_str("d192"), } } }

#[derive(EnumSetType, Debug)]
pub enum L9 { V177 = 177, V216 = 216, V99 = 99, V494 = 494, V498 = 498, V450 = 450, V228 = 228, V533 = 533, V547 = 547, V573 = 573, V87 = 87, V95 = 95, V53 = 53, V66 = 66, V73 = 73, V324 = 324, V511 = 511, V0 = 0, V42 = 42, V250 = 250, V159 = 159, V490 = 490, V568 = 568, V467 = 467, V260 = 260, V390 = 390, V404 = 404, V476 = 476, V289 = 289, V278 = 278, V162 = 162, V3 = 3, V564 = 564, V497 = 497, V163 = 163, V44 = 44, V295 = 295, V243 = 243, V69 = 69, V227 = 227, V489 = 489, V231 = 231, V528 = 528, V317 = 317, V550 = 550, V514 = 514, V338 = 338, V348 = 348, V290 = 290, V574 = 574, V463 = 463, V64 = 64, V170 = 170, V51 = 51, V62 = 62, V59 = 59, V440 = 440, V512 = 512, V130 = 130, V523 = 523, V90 = 90, V329 = 329, V186 = 186, V536 = 536, V320 = 320, V142 = 142, V63 = 63, V309 = 309, V269 = 269, V234 = 234, V221 = 221, V370 = 370, V21 = 21, V181 = 181, V229 = 229, V519 = 519, V422 = 422, V350 = 350, V13 = 13, V184 = 184, V28 = 28, V306 = 306, V531 = 531, V127 = 127, V420 = 420, V270 = 270, V492 = 492, V508 = 508, V141 = 141, V360 = 360, V417 = 417, V412 = 412, V500 = 500, V6 = 6, V502 = 502, V458 = 458, V2 = 2, V323 = 323, V419 = 419, V575 = 575, V300 = 300, V454 = 454, V438 = 438, V434 = 434, V486 = 486, V187 = 187, V479 = 479, V56 = 56, V75 = 75, V57 = 57, V24 = 24, V527 = 527, V281 = 281, V102 = 102, V60 = 60, V211 = 211, V396 = 396, V321 = 321, V237 = 237, V232 = 232 }
impl Fam<9> for L9 {
    fn nth(i: usize) -> Self { match i { 0 => L9::V177, 1 => L9::V216, 2 => L9::V99, 3 => L9::V494, 4 => L9::V498, 5 => L9::V450, 6 => L9::V228, 7 => L9::V533, 8 => L9::V547, 9 => L9::V573, 10 => L9::V87, 11 => L9::V95, 12 => L9::V53, 13 => L9::V66, 14 => L9::V73, 15 => L9::V324, 16 => L9::V511, 17 => L9::V0, 18 => L9::V42, 19 => L9::V250, 20 => L9::V159, 21 => L9::V490, 22 => L9::V568, 23 => L9::V467, 24 => L9::V260, 25 => L9::V390, 26 => L9::V404, 27 => L9::V476, 28 => L9::V289, 29 => L9::V278, 30 => L9::V162, 31 => L9::V3, 32 => L9::V564, 33 => L9::V497, 34 => L9::V163, 35 => L9::V44, 36 => L9::V295, 37 => L9::V243, 38 => L9::V69, 39 => L9::V227, 40 => L9::V489, 41 => L9::V231, 42 => L9::V528, 43 => L9::V317, 44 => L9::V550, 45 => L9::V514, 46 => L9::V338, 47 => L9::V348, 48 => L9::V290, 49 => L9::V574, 50 => L9::V463, 51 => L9::V64, 52 => L9::V170, 53 => L9::V51, 54 => L9::V62, 55 => L9::V59, 56 => L9::V440, 57 => L9::V512, 58 => L9::V130, 59 => L9::V523, 60 => L9::V90, 61 => L9::V329, 62 => L9::V186, 63 => L9::V536, 64 => L9::V320, 65 => L9::V142, 66 => L9::V63, 67 => L9::V309, 68 => L9::V269, 69 => L9::V234, 70 => L9::V221, 71 => L9::V370, 72 => L9::V21, 73 => L9::V181, 74 => L9::V229, 75 => L9::V519, 76 => L9::V422, 77 => L9::V350, 78 => L9::V13, 79 => L9::V184, 80 => L9::V28, 81 => L9::V306, 82 => L9::V531, 83 => L9::V127, 84 => L9::V420, 85 => L9::V270, 86 => L9::V492, 87 => L9::V508, 88 => L9::V141, 89 => L9::V360, 90 => L9::V417, 91 => L9::V412, 92 => L9::V500, 93 => L9::V6, 94 => L9::V502, 95 => L9::V458, 96 => L9::V2, 97 => L9::V323, 98 => L9::V419, 99 => L9::V575, 100 => L9::V300, 101 => L9::V454, 102 => L9::V438, 103 => L9::V434, 104 => L9::V486, 105 => L9::V187, 106 => L9::V479, 107 => L9::V56, 108 => L9::V75, 109 => L9::V57, 110 => L9::V24, 111 => L9::V527, 112 => L9::V281, 113 => L9::V102, 114 => L9::V60, 115 => L9::V211, 116 => L9::V396, 117 => L9::V321, 118 => L9::V237, _ => L9::V232 } }
    const D: &'static [u32] = &[177, 216, 99, 494, 498, 450, 228, 533, 547, 573, 87, 95, 53, 66, 73, 324, 511, 0, 42, 250, 159, 490, 568, 467, 260, 390, 404, 476, 289, 278, 162, 3, 564, 497, 163, 44, 295, 243, 69, 227, 489, 231, 528, 317, 550, 514, 338, 348, 290, 574, 463, 64, 170, 51, 62, 59, 440, 512, 130, 523, 90, 329, 186, 536, 320, 142, 63, 309, 269, 234, 221, 370, 21, 181, 229, 519, 422, 350, 13, 184, 28, 306, 531, 127, 420, 270, 492, 508, 141, 360, 417, 412, 500, 6, 502, 458, 2, 323, 419, 575, 300, 454, 438, 434, 486, 187, 479, 56, 75, 57, 24, 527, 281, 102, 60, 211, 396, 321, 237, 232];
}
const _: () = { assert!(L9::V177 as u32 == 177); assert!(L9::V216 as u32 == 216); assert!(L9::V99 as u32 == 99); assert!(L9::V494 as u32 == 494); assert!(L9::V498 as u32 == 498); assert!(L9::V450 as u32 == 450); assert!(L9::V228 as u32 == 228); assert!(L9::V533 as u32 == 533); assert!(L9::V547 as u32 == 547); assert!(L9::V573 as u32 == 573); assert!(L9::V87 as u32 == 87); assert!(L9::V95 as u32 == 95); assert!(L9::V53 as u32 == 53); assert!(L9::V66 as u32 == 66); assert!(L9::V73 as u32 == 73); assert!(L9::V324 as u32 == 324); assert!(L9::V511 as u32 == 511); assert!(L9::V0 as u32 == 0); assert!(L9::V42 as u32 == 42); assert!(L9::V250 as u32 == 250); assert!(L9::V159 as u32 == 159); assert!(L9::V490 as u32 == 490); assert!(L9::V568 as u32 == 568); assert!(L9::V467 as u32 == 467); assert!(L9::V260 as u32 == 260); assert!(L9::V390 as u32 == 390); assert!(L9::V404 as u32 == 404); assert!(L9::V476 as u32 == 476); assert!(L9::V289 as u32 == 289); assert!(L9::V278 as u32 == 278); assert!(L9::V162 as u32 == 162); assert!(L9::V3 as u32 == 3); assert!(L9::V564 as u32 == 564); assert!(L9::V497 as u32 == 497); assert!(L9::V163 as u32 == 163); assert!(L9::V44 as u32 == 44); assert!(L9::V295 as u32 == 295); assert!(L9::V243 as u32 == 243); assert!(L9::V69 as u32 == 69); assert!(L9::V227 as u32 == 227); assert!(L9::V489 as u32 == 489); assert!(L9::V231 as u32 == 231); assert!(L9::V528 as u32 == 528); assert!(L9::V317 as u32 == 317); assert!(L9::V550 as u32 == 550); assert!(L9::V514 as u32 == 514); assert!(L9::V338 as u32 == 338); assert!(L9::V348 as u32 == 348); assert!(L9::V290 as u32 == 290); assert!(L9::V574 as u32 == 574); assert!(L9::V463 as u32 == 463); assert!(L9::V64 as u32 == 64); assert!(L9::V170 as u32 == 170); assert!(L9::V51 as u32 == 51); assert!(L9::V62 as u32 == 62); assert!(L9::V59 as u32 == 59); assert!(L9::V440 as u32 == 440); assert!(L9::V512 as u32 == 512); assert!(L9::V130 as u32 == 130); assert!(L9::V523 as u32 == 523); assert!(L9::V90 as u32 == 90); assert!(L9::V329 as u32 == 329); assert!(L9::V186 as u32 == 186); assert!(L9::V536 as u32 == 536); assert!(L9::V320 as u32 == 320); assert!(L9::V142 as u32 == 142); assert!(L9::V63 as u32 == 63); assert!(L9::V309 as u32 == 309); assert!(L9::V269 as u32 == 269); assert!(L9::V234 as u32 == 234); assert!(L9::V221 as u32 == 221); assert!(L9::V370 as u32 == 370); assert!(L9::V21 as u32 == 21); assert!(L9::V181 as u32 == 181); assert!(L9::V229 as u32 == 229); assert!(L9::V519 as u32 == 519); assert!(L9::V422 as u32 == 422); assert!(L9::V350 as u32 == 350); assert!(L9::V13 as u32 == 13); assert!(L9::V184 as u32 == 184); assert!(L9::V28 as u32 == 28); assert!(L9::V306 as u32 == 306); assert!(L9::V531 as u32 == 531); assert!(L9::V127 as u32 == 127); assert!(L9::V420 as u32 == 420); assert!(L9::V270 as u32 == 270); assert!(L9::V492 as u32 == 492); assert!(L9::V508 as u32 == 508); assert!(L9::V141 as u32 == 141); assert!(L9::V360 as u32 == 360); assert!(L9::V417 as u32 == 417); assert!(L9::V412 as u32 == 412); assert!(L9::V500 as u32 == 500); assert!(L9::V6 as u32 == 6); assert!(L9::V502 as u32 == 502); assert!(L9::V458 as u32 == 458); assert!(L9::V2 as u32 == 2); assert!(L9::V323 as u32 == 323); assert!(L9::V419 as u32 == 419); assert!(L9::V575 as u32 == 575); assert!(L9::V300 as u32 == 300); assert!(L9::V454 as u32 == 454); assert!(L9::V438 as u32 == 438); assert!(L9::V434 as u32 == 434); assert!(L9::V486 as u32 == 486); assert!(L9::V187 as u32 == 187); assert!(L9::V479 as u32 == 479); assert!(L9::V56 as u32 == 56); assert!(L9::V75 as u32 == 75); assert!(L9::V57 as u32 == 57); assert!(L9::V24 as u32 == 24); assert!(L9::V527 as u32 == 527); assert!(L9::V281 as u32 == 281); assert!(L9::V102 as u32 == 102); assert!(L9::V60 as u32 == 60); assert!(L9::V211 as u32 == 211); assert!(L9::V396 as u32 == 396); assert!(L9::V321 as u32 == 321); assert!(L9::V237 as u32 == 237); assert!(L9::V232 as u32 == 232); };
impl core::fmt::Display for L9 { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { match self { L9::V177 => f.write_str("d177"), L9::V216 => f.write_str("d216"), L9::V99 => f.write_str("d99"), L9::V494 => f.write_str("d494"), L9::V498 => f.write_str("d498"), L9::V450 => f.write_str("d450"), L9::V228 => f.write_str("d228"), L9::V533 => f.write_str("d533"), L9::V547 => f.write_str("d547"), L9::V573 => f.write_str("d573"), L9::V87 => f.write_str("d87"), L9::V95 => f.write_str("d95"), L9::V53 => f.write_str("d53"), L9::V66 => f.write_str("d66"), L9::V73 => f.write_str("d73"), L9::V324 => f.write_str("d324"), L9::V511 => f.write_str("d511"), L9::V0 => f.write_str("d0"), L9::V42 => f.write_str("d42"), L9::V250 => f.write_str("d250"), L9::V159 => f.write_str("d159"), L9::V490 => f.write_str("d490"), L9::V568 => f.write_str("d568"), L9::V467 => f.write_str("d467"), L9::V260 => f.write_str("d260"), L9::V390 => f.write_str("d390"), L9::V404 => f.write_str("d404"), L9::V476 => f.write_str("d476"), L9::V289 => f.write_str("d289"), L9::V278 => f.write_str("d278"), L9::V162 => f.write_str("d162"), L9::V3 => f.write_str("d3"), L9::V564 => f.write_str("d564"), L9::V497 => f.write_str("d497"), L9::V163 => f.write_str("d163"), L9::V44 => f.write_str("d44"), L9::V295 => f.write_str("d295"), L9::V243 => f.write_str("d243"), L9::V69 => f.write_str("d69"), L9::V227 => f.write_str("d227"), L9::V489 => f.write_str("d489"), L9::V231 => f.write_str("d231"), L9::V528 => f.write_str("d528"), L9::V317 => f.write_str("d317"), L9::V550 => f.write_str("d550"), L9::V514 => f.write_str("d514"), L9::V338 => f.write_str("d338"), L9::V348 => f.write_str("d348"), L9::V290 => f.write_str("d290"), L9::V574 => f.write_str("d574"), L9::V463 => f.write_str("d463"), L9::V64 => f.write_str("d64"), L9::V170 => f.write_str("d170"), L9::V51 => f.write_str("d51"), L9::V62 => f.write_str("d62"), L9::V59 => f.write_str("d59"), L9::V440 => f.write_str("d440"), L9::V512 => f.write_str("d512"), L9::V130 => f.write_str("d130"), L9::V523 => f.write_str("d523"), L9::V90 => f.write_str("d90"), L9::V329 => f.write_str("d329"), L9::V186 => f.write_str("d186"), L9::V536 => f.write_str("d536"), L9::V320 => f.write_str("d320"), L9::V142 => f.write_str("d142"), L9::V63 => f.write_str("d63"), L9::V309 => f.write_str("d309"), L9::V269 => f.write_str("d269"), L9::V234 => f.write_str("d234"), L9::V221 => f.write_str("d221"), L9::V370 => f.write_str("d370"), L9::V21 => f.write_str("d21"), L9::V181 => f.write_str("d181"), L9::V229 => f.write_str("d229"), L9::V519 => f.write_str("d519"), L9::V422 => f.write_str("d422"), L9::V350 => f.write_str("d350"), L9::V13 => f.write_str("d13"), L9::V184 => f.write_str("d184"), L9::V28 => f.write_str("d28"), L9::V306 => f.write_str("d306"), L9::V531 => f.write_str("d531"), L9::V127 => f.write_str("d127"), L9::V420 => f.write_str("d420"), L9::V270 => f.write_str("d270"), L9::V492 => f.write_str("d492"), L9::V508 => f.write_str("d508"), L9::V141 => f.write_str("d141"), L9::V360 => f.write_str("d360"), L9::V417 => f.write_str("d417"), L9::V412 => f.write_str("d412"), L9::V500 => f.write_str("d500"), L9::V6 => f.write_str("d6"), L9::V502 => f.write_str("d502"), L9::V458 => f.write_str("d458"), L9::V2 => f.write_str("d2"), L9::V323 => f.write_str("d323"), L9::V419 => f.write_str("d419"), L9::V575 => f.write_str("d575"), L9::V300 => f.write_str("d300"), L9::V454 => f.write_str("d454"), L9::V438 => f.write_str("d438"), L9::V434 => f.write_str("d434"), L9::V486 => f.write_str("d486"), L9::V187 => f.write_str("d187"), L9::V479 => f.write_str("d479"), L9::V56 => f.write_str("d56"), L9::V75 => f.write_str("d75"), L9::V57 => f.write_str("d57"), L9::V24 => f.write_str("d24"), L9::V527 => f.write_str("d527"), L9::V281 => f.write_str("d281"), L9::V102 => f.write_str("d102"), L9::V60 => f.write_str("d60"), L9::V211 => f.write_str("d211"), L9::V396 => f.write_str("d396"), L9::V321 => f.write_str("d321"), L9::V237 => f.write_str("d237"), L9::V232 => f.write_str("d232"), } } }

#[derive(EnumSetType, Debug)]
pub enum L17 { V26 = 26, V400 = 400, V126 = 126, V199 = 199, V185 = 185, V239 = 239, V175 = 175, V790 = 790, V342 = 342, V684 = 684, V1082 = 1082, V387 = 387, V501 = 501, V316 = 316, V281 = 281, V584 = 584, V57 = 57, V1044 = 1044, V211 = 211, V648 = 648, V639 = 639, V290 = 290, V683 = 683, V367 = 367, V381 = 381, V382 = 382, V266 = 266, V370 = 370, V849 = 849, V907 = 907, V369 = 369, V942 = 942, V164 = 164, V493 = 493, V562 = 562, V814 = 814, V1043 = 1043, V48 = 48, V799 = 799, V321 = 321, V564 = 564, V847 = 847, V49 = 49, V858 = 858, V483 = 483, V1032 = 1032, V742 = 742, V83 = 83, V371 = 371, V361 = 361, V597 = 597, V280 = 280, V481 = 481, V405 = 405, V773 = 773, V394 = 394, V351 = 351, V1020 = 1020, V606 = 606, V1012 = 1012, V578 = 578, V260 = 260, V115 = 115, V6 = 6, V745 = 745, V659 = 659, V53 = 53, V58 = 58, V423 = 423, V1006 = 1006, V866 = 866, V349 = 349, V999 = 999, V753 = 753, V988 = 988, V542 = 542, V859 = 859, V38 = 38, V841 = 841, V744 = 744, V537 = 537, V853 = 853, V1035 = 1035, V319 = 319, V844 = 844, V589 = 589, V631 = 631, V931 = 931, V568 = 568, V789 = 789, V825 = 825, V685 = 685, V508 = 508, V122 = 122, V1023 = 1023, V972 = 972, V538 = 538, V404 = 404, V47 = 47, V704 = 704, V196 = 196, V903 = 903, V908 = 908, V791 = 791, V681 = 681, V27 = 27, V457 = 457, V186 = 186, V220 = 220, V418 = 418, V177 = 177, V329 = 329, V152 = 152, V740 = 740, V99 = 99, V804 = 804, V479 = 479, V577 = 577, V514 = 514, V477 = 477, V127 = 127, V652 = 652, V891 = 891, V43 = 43, V734 = 734, V958 = 958, V303 = 303, V385 = 385, V911 = 911, V974 = 974, V808 = 808, V128 = 128, V759 = 759, V915 = 915, V548 = 548, V688 = 688, V406 = 406, V984 = 984, V937 = 937, V0 = 0, V601 = 601, V710 = 710, V234 = 234, V665 = 665, V324 = 324, V445 = 445, V1087 = 1087, V763 = 763, V923 = 923, V143 = 143, V31 = 31, V67 = 67, V895 = 895, V263 = 263, V785 = 785, V928 = 928, V368 = 368, V213 = 213, V15 = 15, V1013 = 1013, V284 = 284, V248 = 248, V359 = 359, V1061 = 1061, V156 = 156, V1015 = 1015, V850 = 850, V556 = 556, V395 = 395, V216 = 216, V723 = 723, V815 = 815, V948 = 948, V640 = 640, V181 = 181, V655 = 655, V1028 = 1028, V432 = 432, V1002 = 1002, V953 = 953, V150 = 150, V528 = 528, V87 = 87, V737 = 737, V226 = 226, V885 = 885, V947 = 947, V821 = 821, V190 = 190, V296 = 296, V438 = 438, V706 = 706, V784 = 784, V179 = 179, V163 = 163, V543 = 543, V912 = 912, V333 = 333, V354 = 354, V136 = 136, V645 = 645, V356 = 356, V983 = 983, V271 = 271, V870 = 870, V63 = 63, V877 = 877, V42 = 42, V793 = 793, V532 = 532, V557 = 557, V1077 = 1077, V96 = 96, V541 = 541, V437 = 437, V133 = 133, V2 = 2, V717 = 717, V767 = 767, V837 = 837, V374 = 374, V777 = 777, V64 = 64, V323 = 323, V720 = 720, V94 = 94, V506 = 506, V5 = 5, V1086 = 1086, V246 = 246, V154 = 154, V608 = 608, V79 = 79, V204 = 204, V161 = 161, V716 = 716, V272 = 272, V671 = 671, V962 = 962, V1029 = 1029, V603 = 603, V965 = 965, V70 = 70, V330 = 330, V45 = 45, V295 = 295, V656 = 656, V647 = 647, V968 = 968, V456 = 456, V499 = 499, V747 = 747, V118 = 118, V195 = 195, V1027 = 1027, V880 = 880, V1007 = 1007, V649 = 649, V669 = 669, V829 = 829, V14 = 14, V621 = 621, V1019 = 1019, V413 = 413, V544 = 544, V487 = 487, V626 = 626, V376 = 376, V1036 = 1036, V518 = 518, V780 = 780, V876 = 876, V940 = 940, V352 = 352, V454 = 454, V896 = 896, V764 = 764, V670 = 670, V129 = 129, V1072 = 1072, V298 = 298, V519 = 519, V66 = 66, V495 = 495, V425 = 425, V401 = 401, V934 = 934, V470 = 470, V809 = 809, V1053 = 1053, V590 = 590, V314 = 314, V698 = 698, V555 = 555, V772 = 772, V1057 = 1057, V443 = 443, V909 = 909, V719 = 719, V922 = 922 }
impl Fam<17> for L17 {
    fn nth(i: usize) -> Self { match i { 0 => L17::V26, 1 => L17::V400, 2 => L17::V126, 3 => L17::V199, 4 => L17::V185, 5 => L17::V239, 6 => L17::V175, 7 => L17::V790, 8 => L17::V342, 9 => L17::V684, 10 => L17::V1082, 11 => L17::V387, 12 => L17::V501, 13 => L17::V316, 14 => L17::V281, 15 => L17::V584, 16 => L17::V57, 17 => L17::V1044, 18 => L17::V211, 19 => L17::V648, 20 => L17::V639, 21 => L17::V290, 22 => L17::V683, 23 => L17::V367, 24 => L17::V381, 25 => L17::V382, 26 => L17::V266, 27 => L17::V370, 28 => L17::V849, 29 => L17::V907, 30 => L17::V369, 31 => L17::V942, 32 => L17::V164, 33 => L17::V493, 34 => L17::V562, 35 => L17::V814, 36 => L17::V1043, 37 => L17::V48, 38 => L17::V799, 39 => L17::V321, 40 => L17::V564, 41 => L17::V847, 42 => L17::V49, 43 => L17::V858, 44 => L17::V483, 45 => L17::V1032, 46 => L17::V742, 47 => L17::V83, 48 => L17::V371, 49 => L17::V361, 50 => L17::V597, 51 => L17::V280, 52 => L17::V481, 53 => L17::V405, 54 => L17::V773, 55 => L17::V394, 56 => L17::V351, 57 => L17::V1020, 58 => L17::V606, 59 => L17::V1012, 60 => L17::V578, 61 => L17::V260, 62 => L17::V115, 63 => L17::V6, 64 => L17::V745, 65 => L17::V659, 66 => L17::V53, 67 => L17::V58, 68 => L17::V423, 69 => L17::V1006, 70 => L17::V866, 71 => L17::V349, 72 => L17::V999, 73 => L17::V753, 74 => L17::V988, 75 => L17::V542, 76 => L17::V859, 77 => L17::V38, 78 => L17::V841, 79 => L17::V744, 80 => L17::V537, 81 => L17::V853, 82 => L17::V1035, 83 => L17::V319, 84 => L17::V844, 85 => L17::V589, 86 => L17::V631, 87 => L17::V931, 88 => L17::V568, 89 => L17::V789, 90 => L17::V825, 91 => L17::V685, 92 => L17::V508, 93 => L17::V122, 94 => L17::V1023, 95 => L17::V972, 96 => L17::V538, 97 => L17::V404, 98 => L17::V47, 99 => L17::V704, 100 => L17::V196, 101 => L17::V903, 102 => L17::V908, 103 => L17::V791, 104 => L17::V681, 105 => L17::V27, 106 => L17::V457, 107 => L17::V186, 108 => L17::V220, 109 => L17::V418, 110 => L17::V177, 111 => L17::V329, 112 => L17::V152, 113 => L17::V740, 114 => L17::V99, 115 => L17::V804, 116 => L17::V479, 117 => L17::V577, 118 => L17::V514, 119 => L17::V477, 120 => L17::V127, 121 => L17::V652, 122 => L17::V891, 123 => L17::V43, 124 => L17::V734, 125 => L17::V958, 126 => L17::V303, 127 => L17::V385, 128 => L17::V911, 129 => L17::V974, 130 => L17::V808, 131 => L17::V128, 132 => L17::V759, 133 => L17::V915, 134 => L17::V548, 135 => L17::V688, 136 => L17::V406, 137 => L17::V984, 138 => L17::V937, 139 => L17::V0, 140 => L17::V601, 141 => L17::V710, 142 => L17::V234, 143 => L17::V665, 144 => L17::V324, 145 => L17::V445, 146 => L17::V1087, 147 => L17::V763, 148 => L17::V923, 149 => L17::V143, 150 => L17::V31, 151 => L17::V67, 152 => L17::V895, 153 => L17::V263, 154 => L17::V785, 155 => L17::V928, 156 => L17::V368, 157 => L17::V213, 158 => L17::V15, 159 => L17::V1013, 160 => L17::V284, 161 => L17::V248, 162 => L17::V359, 163 => L17::V1061, 164 => L17::V156, 165 => L17::V1015, 166 => L17::V850, 167 => L17::V556, 168 => L17::V395, 169 => L17::V216, 170 => L17::V723, 171 => L17::V815, 172 => L17::V948, 173 => L17::V640, 174 => L17::V181, 175 => L17::V655, 176 => L17::V1028, 177 => L17::V432, 178 => L17::V1002, 179 => L17::V953, 180 => L17::V150, 181 => L17::V528, 182 => L17::V87, 183 => L17::V737, 184 => L17::V226, 185 => L17::V885, 186 => L17::V947, 187 => L17::V821, 188 => L17::V190, 189 => L17::V296, 190 => L17::V438, 191 => L17::V706, 192 => L17::V784, 193 => L17::V179, 194 => L17::V163, 195 => L17::V543, 196 => L17::V912, 197 => L17::V333, 198 => L17::V354, 199 => L17::V136, 200 => L17::V645, 201 => L17::V356, 202 => L17::V983, 203 => L17::V271, 204 => L17::V870, 205 => L17::V63, 206 => L17::V877, 207 => L17::V42, 208 => L17::V793, 209 => L17::V532, 210 => L17::V557, 211 => L17::V1077, 212 => L17::V96, 213 => L17::V541, 214 => L17::V437, 215 => L17::V133, 216 => L17::V2, 217 => L17::V717, 218 => L17::V767, 219 => L17::V837, 220 => L17::V374, 221 => L17::V777, 222 => L17::V64, 223 => L17::V323, 224 => L17::V720, 225 => L17::V94, 226 => L17::V506, 227 => L17::V5, 228 => L17::V1086, 229 => L17::V246, 230 => L17::V154, 231 => L17::V608, 232 => L17::V79, 233 => L17::V204, 234 => L17::V161, 235 => L17::V716, 236 => L17::V272, 237 => L17::V671, 238 => L17::V962, 239 => L17::V1029, 240 => L17::V603, 241 => L17::V965, 242 => L17::V70, 243 => L17::V330, 244 => L17::V45, 245 => L17::V295, 246 => L17::V656, 247 => L17::V647, 248 => L17::V968, 249 => L17::V456, 250 => L17::V499, 251 => L17::V747, 252 => L17::V118, 253 => L17::V195, 254 => L17::V1027, 255 => L17::V880, 256 => L17::V1007, 257 => L17::V649, 258 => L17::V669, 259 => L17::V829, 260 => L17::V14, 261 => L17::V621, 262 => L17::V1019, 263 => L17::V413, 264 => L17::V544, 265 => L17::V487, 266 => L17::V626, 267 => L17::V376, 268 => L17::V1036, 269 => L17::V518, 270 => L17::V780, 271 => L17::V876, 272 => L17::V940, 273 => L17::V352, 274 => L17::V454, 275 => L17::V896, 276 => L17::V764, 277 => L17::V670, 278 => L17::V129, 279 => L17::V1072, 280 => L17::V298, 281 => L17::V519, 282 => L17::V66, 283 => L17::V495, 284 => L17::V425, 285 => L17::V401, 286 => L17::V934, 287 => L17::V470, 288 => L17::V809, 289 => L17::V1053, 290 => L17::V590, 291 => L17::V314, 292 => L17::V698, 293 => L17::V555, 294 => L17::V772, 295 => L17::V1057, 296 => L17::V443, 297 => L17::V909, 298 => L17::V719, _ => L17::V922 } }
    const D: &'static [u32] = &[26, 400, 126, 199, 185, 239, 175, 790, 342, 684, 1082, 387, 501, 316, 281, 584, 57, 1044, 211, 648, 639, 290, 683, 367, 381, 382, 266, 370, 849, 907, 369, 942, 164, 493, 562, 814, 1043, 48, 799, 321, 564, 847, 49, 858, 483, 1032, 742, 83, 371, 361, 597, 280, 481, 405, 773, 394, 351, 1020, 606, 1012, 578, 260, 115, 6, 745, 659, 53, 58, 423, 1006, 866, 349, 999, 753, 988, 542, 859, 38, 841, 744, 537, 853, 1035, 319, 844, 589, 631, 931, 568, 789, 825, 685, 508, 122, 1023, 972, 538, 404, 47, 704, 196, 903, 908, 791, 681, 27, 457, 186, 220, 418, 177, 329, 152, 740, 99, 804, 479, 577, 514, 477, 127, 652, 891, 43, 734, 958, 303, 385, 911, 974, 808, 128, 759, 915, 548, 688, 406, 984, 937, 0, 601, 710, 234, 665, 324, 445, 1087, 763, 923, 143, 31, 67, 895, 263, 785, 928, 368, 213, 15, 1013, 284, 248, 359, 1061, 156, 1015, 850, 556, 395, 216, 723, 815, 948, 640, 181, 655, 1028, 432, 1002, 953, 150, 528, 87, 737, 226, 885, 947, 821, 190, 296, 438, 706, 784, 179, 163, 543, 912, 333, 354, 136, 645, 356, 983, 271, 870, 63, 877, 42, 793, 532, 557, 1077, 96, 541, 437, 133, 2, 717, 767, 837, 374, 777, 64, 323, 720, 94, 506, 5, 1086, 246, 154, 608, 79, 204, 161, 716, 272, 671, 962, 1029, 603, 965, 70, 330, 45, 295, 656, 647, 968, 456, 499, 747, 118, 195, 1027, 880, 1007, 649, 669, 829, 14, 621, 1019, 413, 544, 487, 626, 376, 1036, 518, 780, 876, 940, 352, 454, 896, 764, 670, 129, 1072, 298, 519, 66, 495, 425, 401, 934, 470, 809, 1053, 590, 314, 698, 555, 772, 1057, 443, 909, 719, 922];
}
const _: () = { assert!(L17::V26 as u32 == 26); assert!(L17::V400 as u32 == 400); assert!(L17::V126 as u32 == 126); assert!(L17::V199 as u32 == 199); assert!(L17::V185 as u32 == 185); assert!(L17::V239 as u32 == 239); assert!(L17::V175 as u32 == 175); assert!(L17::V790 as u32 == 790); assert!(L17::V342 as u32 == 342); assert!(L17::V684 as u32 == 684); assert!(L17::V1082 as u32 == 1082); assert!(L17::V387 as u32 == 387); assert!(L17::V501 as u32 == 501); assert!(L17::V316 as u32 == 316); assert!(L17::V281 as u32 == 281); assert!(L17::V584 as u32 == 584); assert!(L17::V57 as u32 == 57); assert!(L17::V1044 as u32 == 1044); assert!(L17::V211 as u32 == 211); assert!(L17::V648 as u32 == 648); assert!(L17::V639 as u32 == 639); assert!(L17::V290 as u32 == 290); assert!(L17::V683 as u32 == 683); assert!(L17::V367 as u32 == 367); assert!(L17::V381 as u32 == 381); assert!(L17::V382 as u32 == 382); assert!(L17::V266 as u32 == 266); assert!(L17::V370 as u32 == 370); assert!(L17::V849 as u32 == 849); assert!(L17::V907 as u32 == 907); assert!(L17::V369 as u32 == 369); assert!(L17::V942 as u32 == 942); assert!(L17::V164 as u32 == 164); assert!(L17::V493 as u32 == 493); assert!(L17::V562 as u32 == 562); assert!(L17::V814 as u32 == 814); assert!(L17::V1043 as u32 == 1043); assert!(L17::V48 as u32 == 48); assert!(L17::V799 as u32 == 799); assert!(L17::V321 as u32 == 321); assert!(L17::V564 as u32 == 564); assert!(L17::V847 as u32 == 847); assert!(L17::V49 as u32 == 49); assert!(L17::V858 as u32 == 858); assert!(L17::V483 as u32 == 483); assert!(L17::V1032 as u32 == 1032); assert!(L17::V742 as u32 == 742); assert!(L17::V83 as u32 == 83); assert!(L17::V371 as u32 == 371); assert!(L17::V361 as u32 == 361); assert!(L17::V597 as u32 == 597); assert!(L17::V280 as u32 == 280); assert!(L17::V481 as u32 == 481); assert!(L17::V405 as u32 == 405); assert!(L17::V773 as u32 == 773); assert!(L17::V394 as u32 == 394); assert!(L17::V351 as u32 == 351); assert!(L17::V1020 as u32 == 1020); assert!(L17::V606 as u32 == 606); assert!(L17::V1012 as u32 == 1012); assert!(L17::V578 as u32 == 578); assert!(L17::V260 as u32 == 260); assert!(L17::V115 as u32 == 115); assert!(L17::V6 as u32 == 6); assert!(L17::V745 as u32 == 745); assert!(L17::V659 as u32 == 659); assert!(L17::V53 as u32 == 53); assert!(L17::V58 as u32 == 58); assert!(L17::V423 as u32 == 423); assert!(L17::V1006 as u32 == 1006); assert!(L17::V866 as u32 == 866); assert!(L17::V349 as u32 == 349); assert!(L17::V999 as u32 == 999); assert!(L17::V753 as u32 == 753); assert!(L17::V988 as u32 == 988); assert!(L17::V542 as u32 == 542); assert!(L17::V859 as u32 == 859); assert!(L17::V38 as u32 == 38); assert!(L17::V841 as u32 == 841); assert!(L17::V744 as u32 == 744); assert!(L17::V537 as u32 == 537); assert!(L17::V853 as u32 == 853); assert!(L17::V1035 as u32 == 1035); assert!(L17::V319 as u32 == 319); assert!(L17::V844 as u32 == 844); assert!(L17::V589 as u32 == 589); assert!(L17::V631 as u32 == 631); assert!(L17::V931 as u32 == 931); assert!(L17::V568 as u32 == 568); assert!(L17::V789 as u32 == 789); assert!(L17::V825 as u32 == 825); assert!(L17::V685 as u32 == 685); assert!(L17::V508 as u32 == 508); assert!(L17::V122 as u32 == 122); assert!(L17::V1023 as u32 == 1023); assert!(L17::V972 as u32 == 972); assert!(L17::V538 as u32 == 538); assert!(L17::V404 as u32 == 404); assert!(L17::V47 as u32 == 47); assert!(L17::V704 as u32 == 704); assert!(L17::V196 as u32 == 196); assert!(L17::V903 as u32 == 903); assert!(L17::V908 as u32 == 908); assert!(L17::V791 as u32 == 791); assert!(L17::V681 as u32 == 681); assert!(L17::V27 as u32 == 27); assert!(L17::V457 as u32 == 457); assert!(L17::V186 as u32 == 186); assert!(L17::V220 as u32 == 220); assert!(L17::V418 as u32 == 418); assert!(L17::V177 as u32 == 177); assert!(L17::V329 as u32 == 329); assert!(L17::V152 as u32 == 152); assert!(L17::V740 as u32 == 740); assert!(L17::V99 as u32 == 99); assert!(L17::V804 as u32 == 804); assert!(L17::V479 as u32 == 479); assert!(L17::V577 as u32 == 577); assert!(L17::V514 as u32 == 514); assert!(L17::V477 as u32 == 477); assert!(L17::V127 as u32 == 127); assert!(L17::V652 as u32 == 652); assert!(L17::V891 as u32 == 891); assert!(L17::V43 as u32 == 43); assert!(L17::V734 as u32 == 734); assert!(L17::V958 as u32 == 958); assert!(L17::V303 as u32 == 303); assert!(L17::V385 as u32 == 385); assert!(L17::V911 as u32 == 911); assert!(L17::V974 as u32 == 974); assert!(L17::V808 as u32 == 808); assert!(L17::V128 as u32 == 128); assert!(L17::V759 as u32 == 759); assert!(L17::V915 as u32 == 915); assert!(L17::V548 as u32 == 548); assert!(L17::V688 as u32 == 688); assert!(L17::V406 as u32 == 406); assert!(L17::V984 as u32 == 984); assert!(L17::V937 as u32 == 937); assert!(L17::V0 as u32 == 0); assert!(L17::V601 as u32 == 601); assert!(L17::V710 as u32 == 710); assert!(L17::V234 as u32 == 234); assert!(L17::V665 as u32 == 665); assert!(L17::V324 as u32 == 324); assert!(L17::V445 as u32 == 445); assert!(L17::V1087 as u32 == 1087); assert!(L17::V763 as u32 == 763); assert!(L17::V923 as u32 == 923); assert!(L17::V143 as u32 == 143); assert!(L17::V31 as u32 == 31); assert!(L17::V67 as u32 == 67); assert!(L17::V895 as u32 == 895); assert!(L17::V263 as u32 == 263); assert!(L17::V785 as u32 == 785); assert!(L17::V928 as u32 == 928); assert!(L17::V368 as u32 == 368); assert!(L17::V213 as u32 == 213); assert!(L17::V15 as u32 == 15); assert!(L17::V1013 as u32 == 1013); assert!(L17::V284 as u32 == 284); assert!(L17::V248 as u32 == 248); assert!(L17::V359 as u32 == 359); assert!(L17::V1061 as u32 == 1061); assert!(L17::V156 as u32 == 156); assert!(L17::V1015 as u32 == 1015); assert!(L17::V850 as u32 == 850); assert!(L17::V556 as u32 == 556); assert!(L17::V395 as u32 == 395); assert!(L17::V216 as u32 == 216); assert!(L17::V723 as u32 == 723); assert!(L17::V815 as u32 == 815); assert!(L17::V948 as u32 == 948); assert!(L17::V640 as u32 == 640); assert!(L17::V181 as u32 == 181); assert!(L17::V655 as u32 == 655); assert!(L17::V1028 as u32 == 1028); assert!(L17::V432 as u32 == 432); assert!(L17::V1002 as u32 == 1002); assert!(L17::V953 as u32 == 953); assert!(L17::V150 as u32 == 150); assert!(L17::V528 as u32 == 528); assert!(L17::V87 as u32 == 87); assert!(L17::V737 as u32 == 737); assert!(L17::V226 as u32 == 226); assert!(L17::V885 as u32 == 885); assert!(L17::V947 as u32 == 947); assert!(L17::V821 as u32 == 821); assert!(L17::V190 as u32 == 190); assert!(L17::V296 as u32 == 296); assert!(L17::V438 as u32 == 438); assert!(L17::V706 as u32 == 706); assert!(L17::V784 as u32 == 784); assert!(L17::V179 as u32 == 179); assert!(L17::V163 as u32 == 163); assert!(L17::V543 as u32 == 543); assert!(L17::V912 as u32 == 912); assert!(L17::V333 as u32 == 333); assert!(L17::V354 as u32 == 354); assert!(L17::V136 as u32 == 136); assert!(L17::V645 as u32 == 645); assert!(L17::V356 as u32 == 356); assert!(L17::V983 as u32 == 983); assert!(L17::V271 as u32 == 271); assert!(L17::V870 as u32 == 870); assert!(L17::V63 as u32 == 63); assert!(L17::V877 as u32 == 877); assert!(L17::V42 as u32 == 42); assert!(L17::V793 as u32 == 793); assert!(L17::V532 as u32 == 532); assert!(L17::V557 as u32 == 557); assert!(L17::V1077 as u32 == 1077); assert!(L17::V96 as u32 == 96); assert!(L17::V541 as u32 == 541); assert!(L17::V437 as u32 == 437); assert!(L17::V133 as u32 == 133); assert!(L17::V2 as u32 == 2); assert!(L17::V717 as u32 == 717); assert!(L17::V767 as u32 == 767); assert!(L17::V837 as u32 == 837); assert!(L17::V374 as u32 == 374); assert!(L17::V777 as u32 == 777); assert!(L17::V64 as u32 == 64); assert!(L17::V323 as u32 == 323); assert!(L17::V720 as u32 == 720); assert!(L17::V94 as u32 == 94); assert!(L17::V506 as u32 == 506); assert!(L17::V5 as u32 == 5); assert!(L17::V1086 as u32 == 1086); assert!(L17::V246 as u32 == 246); assert!(L17::V154 as u32 == 154); assert!(L17::V608 as u32 == 608); assert!(L17::V79 as u32 == 79); assert!(L17::V204 as u32 == 204); assert!(L17::V161 as u32 == 161); assert!(L17::V716 as u32 == 716); assert!(L17::V272 as u32 == 272); assert!(L17::V671 as u32 == 671); assert!(L17::V962 as u32 == 962); assert!(L17::V1029 as u32 == 1029); assert!(L17::V603 as u32 == 603); assert!(L17::V965 as u32 == 965); assert!(L17::V70 as u32 == 70); assert!(L17::V330 as u32 == 330); assert!(L17::V45 as u32 == 45); assert!(L17::V295 as u32 == 295); assert!(L17::V656 as u32 == 656); assert!(L17::V647 as u32 == 647); assert!(L17::V968 as u32 == 968); assert!(L17::V456 as u32 == 456); assert!(L17::V499 as u32 == 499); assert!(L17::V747 as u32 == 747); assert!(L17::V118 as u32 == 118); assert!(L17::V195 as u32 == 195); assert!(L17::V1027 as u32 == 1027); assert!(L17::V880 as u32 == 880); assert!(L17::V1007 as u32 == 1007); assert!(L17::V649 as u32 == 649); assert!(L17::V669 as u32 == 669); assert!(L17::V829 as u32 == 829); assert!(L17::V14 as u32 == 14); assert!(L17::V621 as u32 == 621); assert!(L17::V1019 as u32 == 1019); assert!(L17::V413 as u32 == 413); assert!(L17::V544 as u32 == 544); assert!(L17::V487 as u32 == 487); assert!(L17::V626 as u32 == 626); assert!(L17::V376 as u32 == 376); assert!(L17::V1036 as u32 == 1036); assert!(L17::V518 as u32 == 518); assert!(L17::V780 as u32 == 780); assert!(L17::V876 as u32 == 876); assert!(L17::V940 as u32 == 940); assert!(L17::V352 as u32 == 352); assert!(L17::V454 as u32 == 454); assert!(L17::V896 as u32 == 896); assert!(L17::V764 as u32 == 764); assert!(L17::V670 as u32 == 670); assert!(L17::V129 as u32 == 129); assert!(L17::V1072 as u32 == 1072); assert!(L17::V298 as u32 == 298); assert!(L17::V519 as u32 == 519); assert!(L17::V66 as u32 == 66); assert!(L17::V495 as u32 == 495); assert!(L17::V425 as u32 == 425); assert!(L17::V401 as u32 == 401); assert!(L17::V934 as u32 == 934); assert!(L17::V470 as u32 == 470); assert!(L17::V809 as u32 == 809); assert!(L17::V1053 as u32 == 1053); assert!(L17::V590 as u32 == 590); assert!(L17::V314 as u32 == 314); assert!(L17::V698 as u32 == 698); assert!(L17::V555 as u32 == 555); assert!(L17::V772 as u32 == 772); assert!(L17::V1057 as u32 == 1057); assert!(L17::V443 as u32 == 443); assert!(L17::V909 as u32 == 909); assert!(L17::V719 as u32 == 719); assert!(L17::V922 as u32 == 922); };
impl core::fmt::Display for L17 { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { match self { L17::V26 => f.write_str("d26"), L17::V400 => f.write_str("d400"), L17::V126 => f.write_str("d126"), L17::V199 => f.write_str("d199"), L17::V185 => f.write_str("d185"), L17::V239 => f.write_str("d239"), L17::V175 => f.write_str("d175"), L17::V790 => f.write_str("d790"), L17::V342 => f.write_str("d342"), L17::V684 => f.write_str("d684"), L17::V1082 => f.write_str("d1082"), L17::V387 => f.write_str("d387"), L17::V501 => f.write_str("d501"), L17::V316 => f.write_str("d316"), L17::V281 => f.write_str("d281"), L17::V584 => f.write_str("d584"), L17::V57 => f.write_str("d57"), L17::V1044 => f.write_str("d1044"), L17::V211 => f.write_str("d211"), L17::V648 => f.write_str("d648"), L17::V639 => f.write_str("d639"), L17::V290 => f.write_str("d290"), L17::V683 => f.write_str("d683"), L17::V367 => f.write_str("d367"), L17::V381 => f.write_str("d381"), L17::V382 => f.write_str("d382"), L17::V266 => f.write_str("d266"), L17::V370 => f.write_str("d370"), L17::V849 => f.write_str("d849"), L17::V907 => f.write_str("d907"), L17::V369 => f.write_str("d369"), L17::V942 => f.write_str("d942"), L17::V164 => f.write_str("d164"), L17::V493 => f.write_str("d493"), L17::V562 => f.write_str("d562"), L17::V814 => f.write_str("d814"), L17::V1043 => f.write_str("d1043"), L17::V48 => f.write_str("d48"), L17::V799 => f.write_str("d799"), L17::V321 => f.write_str("d321"), L17::V564 => f.write_str("d564"), L17::V847 => f.write_str("d847"), L17::V49 => f.write_str("d49"), L17::V858 => f.write_str("d858"), L17::V483 => f.write_str("d483"), L17::V1032 => f.write_str("d1032"), L17::V742 => f.write_str("d742"), L17::V83 => f.write_str("d83"), L17::V371 => f.write_str("d371"), L17::V361 => f.write_str("d361"), L17::V597 => f.write_str("d597"), L17::V280 => f.write_str("d280"), L17::V481 => f.write_str("d481"), L17::V405 => f.write_str("d405"), L17::V773 => f.write_str("d773"), L17::V394 => f.write_str("d394"), L17::V351 => f.write_str("d351"), L17::V1020 => f.write_str("d1020"), L17::V606 => f.write_str("d606"), L17::V1012 => f.write_str("d1012"), L17::V578 => f.write_str("d578"), L17::V260 => f.write_str("d260"), L17::V115 => f.write_str("d115"), L17::V6 => f.write_str("d6"), L17::V745 => f.write_str("d745"), L17::V659 => f.write_str("d659"), L17::V53 => f.write_str("d53"), L17::V58 => f.write_str("d58"), L17::V423 => f.write_str("d423"), L17::V1006 => f.write_str("d1006"), L17::V866 => f.write_str("d866"), L17::V349 => f.write_str("d349"), L17::V999 => f.write_str("d999"), L17::V753 => f.write_str("d753"), L17::V988 => f.write_str("d988"), L17::V542 => f.write_str("d542"), L17::V859 => f.write_str("d859"), L17::V38 => f.write_str("d38"), L17::V841 => f.write_str("d841"), L17::V744 => f.write_str("d744"), L17::V537 => f.write_str("d537"), L17::V853 => f.write_str("d853"), L17::V1035 => f.write_str("d1035"), L17::V319 => f.write_str("d319"), L17::V844 => f.write_str("d844"), L17::V589 => f.write_str("d589"), L17::V631 => f.write_str("d631"), L17::V931 => f.write_str("d931"), L17::V568 => f.write_str("d568"), L17::V789 => f.write_str("d789"), L17::V825 => f.write_str("d825"), L17::V685 => f.write_str("d685"), L17::V508 => f.write_str("d508"), L17::V122 => f.write_str("d122"), L17::V1023 => f.write_str("d1023"), L17::V972 => f.write_str("d972"), L17::V538 => f.write_str("d538"), L17::V404 => f.write_str("d404"), L17::V47 => f.write_str("d47"), L17::V704 => f.write_str("d704"), L17::V196 => f.write_str("d196"), L17::V903 => f.write_str("d903"), L17::V908 => f.write_str("d908"), L17::V791 => f.write_str("d791"), L17::V681 => f.write_str("d681"), L17::V27 => f.write_str("d27"), L17::V457 => f.write_str("d457"), L17::V186 => f.write_str("d186"), L17::V220 => f.write_str("d220"), L17::V418 => f.write_str("d418"), L17::V177 => f.write_str("d177"), L17::V329 => f.write_str("d329"), L17::V152 => f.write_str("d152"), L17::V740 => f.write_str("d740"), L17::V99 => f.write_str("d99"), L17::V804 => f.write_str("d804"), L17::V479 => f.write_str("d479"), L17::V577 => f.write_str("d577"), L17::V514 => f.write_str("d514"), L17::V477 => f.write_str("d477"), L17::V127 => f.write_str("d127"), L17::V652 => f.write_str("d652"), L17::V891 => f.write_str("d891"), L17::V43 => f.write_str("d43"), L17::V734 => f.write_str("d734"), L17::V958 => f.write_str("d958"), L17::V303 => f.write_str("d303"), L17::V385 => f.write_str("d385"), L17::V911 => f.write_str("d911"), L17::V974 => f.write_str("d974"), L17::V808 => f.write_str("d808"), L17::V128 => f.write_str("d128"), L17::V759 => f.write_str("d759"), L17::V915 => f.write_str("d915"), L17::V548 => f.write_str("d548"), L17::V688 => f.write_str("d688"), L17::V406 => f.write_str("d406"), L17::V984 => f.write_str("d984"), L17::V937 => f.write_str("d937"), L17::V0 => f.write_str("d0"), L17::V601 => f.write_str("d601"), L17::V710 => f.write_str("d710"), L17::V234 => f.write_str("d234"), L17::V665 => f.write_str("d665"), L17::V324 => f.write_str("d324"), L17::V445 => f.write_str("d445"), L17::V1087 => f.write_str("d1087"), L17::V763 => f.write_str("d763"), L17::V923 => f.write_str("d923"), L17::V143 => f.write_str("d143"), L17::V31 => f.write_str("d31"), L17::V67 => f.write_str("d67"), L17::V895 => f.write_str("d895"), L17::V263 => f.write_str("d263"), L17::V785 => f.write_str("d785"), L17::V928 => f.write_str("d928"), L17::V368 => f.write_str("d368"), L17::V213 => f.write_str("d213"), L17::V15 => f.write_str("d15"), L17::V1013 => f.write_str("d1013"), L17::V284 => f.write_str("d284"), L17::V248 => f.write_str("d248"), L17::V359 => f.write_str("d359"), L17::V1061 => f.write_str("d1061"), L17::V156 => f.write_str("d156"), L17::V1015 => f.write_str("d1015"), L17::V850 => f.write_str("d850"), L17::V556 => f.write_str("d556"), L17::V395 => f.write_str("d395"), L17::V216 => f.write_str("d216"), L17::V723 => f.write_str("d723"), L17::V815 => f.write_str("d815"), L17::V948 => f.write_str("d948"), L17::V640 => f.write_str("d640"), L17::V181 => f.write_str("d181"), L17::V655 => f.write_str("d655"), L17::V1028 => f.write_str("d1028"), L17::V432 => f.write_str("d432"), L17::V1002 => f.write_str("d1002"), L17::V953 => f.write_str("d953"), L17::V150 => f.write_str("d150"), L17::V528 => f.write_str("d528"), L17::V87 => f.write_str("d87"), L17::V737 => f.write_str("d737"), L17::V226 => f.write_str("d226"), L17::V885 => f.write_str("d885"), L17::V947 => f.write_str("d947"), L17::V821 => f.write_str("d821"), L17::V190 => f.write_str("d190"), L17::V296 => f.write_str("d296"), L17::V438 => f.write_str("d438"), L17::V706 => f.write_str("d706"), L17::V784 => f.write_str("d784"), L17::V179 => f.write_str("d179"), L17::V163 => f.write_str("d163"), L17::V543 => f.write_str("d543"), L17::V912 => f.write_str("d912"), L17::V333 => f.write_str("d333"), L17::V354 => f.write_str("d354"), L17::V136 => f.write_str("d136"), L17::V645 => f.write_str("d645"), L17::V356 => f.write_str("d356"), L17::V983 => f.write_str("d983"), L17::V271 => f.write_str("d271"), L17::V870 => f.write_str("d870"), L17::V63 => f.write_str("d63"), L17::V877 => f.write_str("d877"), L17::V42 => f.write_str("d42"), L17::V793 => f.write_str("d793"), L17::V532 => f.write_str("d532"), L17::V557 => f.write_str("d557"), L17::V1077 => f.write_str("d1077"), L17::V96 => f.write_str("d96"), L17::V541 => f.write_str("d541"), L17::V437 => f.write_str("d437"), L17::V133 => f.write_str("d133"), L17::V2 => f.write_str("d2"), L17::V717 => f.write_str("d717"), L17::V767 => f.write_str("d767"), L17::V837 => f.write_str("d837"), L17::V374 => f.write_str("d374"), L17::V777 => f.write_str("d777"), L17::V64 => f.write_str("d64"), L17::V323 => f.write_str("d323"), L17::V720 => f.write_str("d720"), L17::V94 => f.write_str("d94"), L17::V506 => f.write_str("d506"), L17::V5 => f.write_str("d5"), L17::V1086 => f.write_str("d1086"), L17::V246 => f.write_str("d246"), L17::V154 => f.write_str("d154"), L17::V608 => f.write_str("d608"), L17::V79 => f.write_str("d79"), L17::V204 => f.write_str("d204"), L17::V161 => f.write_str("d161"), L17::V716 => f.write_str("d716"), L17::V272 => f.write_str("d272"), L17::V671 => f.write_str("d671"), L17::V962 => f.write_str("d962"), L17::V1029 => f.write_str("d1029"), L17::V603 => f.write_str("d603"), L17::V965 => f.write_str("d965"), L17::V70 => f.write_str("d70"), L17::V330 => f.write_str("d330"), L17::V45 => f.write_str("d45"), L17::V295 => f.write_str("d295"), L17::V656 => f.write_str("d656"), L17::V647 => f.write_str("d647"), L17::V968 => f.write_str("d968"), L17::V456 => f.write_str("d456"), L17::V499 => f.write_str("d499"), L17::V747 => f.write_str("d747"), L17::V118 => f.write_str("d118"), L17::V195 => f.write_str("d195"), L17::V1027 => f.write_str("d1027"), L17::V880 => f.write_str("d880"), L17::V1007 => f.write_str("d1007"), L17::V649 => f.write_str("d649"), L17::V669 => f.write_str("d669"), L17::V829 => f.write_str("d829"), L17::V14 => f.write_str("d14"), L17::V621 => f.write_str("d621"), L17::V1019 => f.write_str("d1019"), L17::V413 => f.write_str("d413"), L17::V544 => f.write_str("d544"), L17::V487 => f.write_str("d487"), L17::V626 => f.write_str("d626"), L17::V376 => f.write_str("d376"), L17::V1036 => f.write_str("d1036"), L17::V518 => f.write_str("d518"), L17::V780 => f.write_str("d780"), L17::V876 => f.write_str("d876"), L17::V940 => f.write_str("d940"), L17::V352 => f.write_str("d352"), L17::V454 => f.write_str("d454"), L17::V896 => f.write_str("d896"), L17::V764 => f.write_str("d764"), L17::V670 => f.write_str("d670"), L17::V129 => f.write_str("d129"), L17::V1072 => f.write_str("d1072"), L17::V298 => f.write_str("d298"), L17::V519 => f.write_str("d519"), L17::V66 => f.write_str("d66"), L17::V495 => f.write_str("d495"), L17::V425 => f.write_str("d425"), L17::V401 => f.write_str("d401"), L17::V934 => f.write_str("d934"), L17::V470 => f.write_str("d470"), L17::V809 => f.write_str("d809"), L17::V1053 => f.write_str("d1053"), L17::V590 => f.write_str("d590"), L17::V314 => f.write_str("d314"), L17::V698 => f.write_str("d698"), L17::V555 => f.write_str("d555"), L17::V772 => f.write_str("d772"), L17::V1057 => f.write_str("d1057"), L17::V443 => f.write_str("d443"), L17::V909 => f.write_str("d909"), L17::V719 => f.write_str("d719"), L17::V922 => f.write_str("d922"), } } }

#[derive(EnumSetType, Debug)]
pub enum L4D { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127, V128, V129, V130, V131, V132, V133, V134, V135, V136, V137, V138, V139, V140, V141, V142, V143, V144, V145, V146, V147, V148, V149, V150, V151, V152, V153, V154, V155, V156, V157, V158, V159, V160, V161, V162, V163, V164, V165, V166, V167, V168, V169, V170, V171, V172, V173, V174, V175, V176, V177, V178, V179, V180, V181, V182, V183, V184, V185, V186, V187, V188, V189, V190, V191, V192, V193, V194, V195, V196, V197, V198, V199, V200, V201, V202, V203, V204, V205, V206, V207, V208, V209, V210, V211, V212, V213, V214, V215, V216, V217, V218, V219, V220, V221, V222, V223, V224, V225, V226, V227, V228, V229, V230, V231, V232, V233, V234, V235, V236, V237, V238, V239, V240, V241, V242, V243, V244, V245, V246, V247, V248, V249, V250, V251, V252, V253, V254, V255 }
impl Fam<4> for L4D {
    fn nth(i: usize) -> Self { match i { 0 => L4D::V0, 1 => L4D::V1, 2 => L4D::V2, 3 => L4D::V3, 4 => L4D::V4, 5 => L4D::V5, 6 => L4D::V6, 7 => L4D::V7, 8 => L4D::V8, 9 => L4D::V9, 10 => L4D::V10, 11 => L4D::V11, 12 => L4D::V12, 13 => L4D::V13, 14 => L4D::V14, 15 => L4D::V15, 16 => L4D::V16, 17 => L4D::V17, 18 => L4D::V18, 19 => L4D::V19, 20 => L4D::V20, 21 => L4D::V21, 22 => L4D::V22, 23 => L4D::V23, 24 => L4D::V24, 25 => L4D::V25, 26 => L4D::V26, 27 => L4D::V27, 28 => L4D::V28, 29 => L4D::V29, 30 => L4D::V30, 31 => L4D::V31, 32 => L4D::V32, 33 => L4D::V33, 34 => L4D::V34, 35 => L4D::V35, 36 => L4D::V36, 37 => L4D::V37, 38 => L4D::V38, 39 => L4D::V39, 40 => L4D::V40, 41 => L4D::V41, 42 => L4D::V42, 43 => L4D::V43, 44 => L4D::V44, 45 => L4D::V45, 46 => L4D::V46, 47 => L4D::V47, 48 => L4D::V48, 49 => L4D::V49, 50 => L4D::V50, 51 => L4D::V51, 52 => L4D::V52, 53 => L4D::V53, 54 => L4D::V54, 55 => L4D::V55, 56 => L4D::V56, 57 => L4D::V57, 58 => L4D::V58, 59 => L4D::V59, 60 => L4D::V60, 61 => L4D::V61, 62 => L4D::V62, 63 => L4D::V63, 64 => L4D::V64, 65 => L4D::V65, 66 => L4D::V66, 67 => L4D::V67, 68 => L4D::V68, 69 => L4D::V69, 70 => L4D::V70, 71 => L4D::V71, 72 => L4D::V72, 73 => L4D::V73, 74 => L4D::V74, 75 => L4D::V75, 76 => L4D::V76, 77 => L4D::V77, 78 => L4D::V78, 79 => L4D::V79, 80 => L4D::V80, 81 => L4D::V81, 82 => L4D::V82, 83 => L4D::V83, 84 => L4D::V84, 85 => L4D::V85, 86 => L4D::V86, 87 => L4D::V87, 88 => L4D::V88, 89 => L4D::V89, 90 => L4D::V90, 91 => L4D::V91, 92 => L4D::V92, 93 => L4D::V93, 94 => L4D::V94, 95 => L4D::V95, 96 => L4D::V96, 97 => L4D::V97, 98 => L4D::V98, 99 => L4D::V99, 100 => L4D::V100, 101 => L4D::V101, 102 => L4D::V102, 103 => L4D::V103, 104 => L4D::V104, 105 => L4D::V105, 106 => L4D::V106, 107 => L4D::V107, 108 => L4D::V108, 109 => L4D::V109, 110 => L4D::V110, 111 => L4D::V111, 112 => L4D::V112, 113 => L4D::V113, 114 => L4D::V114, 115 => L4D::V115, 116 => L4D::V116, 117 => L4D::V117, 118 => L4D::V118, 119 => L4D::V119, 120 => L4D::V120, 121 => L4D::V121, 122 => L4D::V122, 123 => L4D::V123, 124 => L4D::V124, 125 => L4D::V125, 126 => L4D::V126, 127 => L4D::V127, 128 => L4D::V128, 129 => L4D::V129, 130 => L4D::V130, 131 => L4D::V131, 132 => L4D::V132, 133 => L4D::V133, 134 => L4D::V134, 135 => L4D::V135, 136 => L4D::V136, 137 => L4D::V137, 138 => L4D::V138, 139 => L4D::V139, 140 => L4D::V140, 141 => L4D::V141, 142 => L4D::V142, 143 => L4D::V143, 144 => L4D::V144, 145 => L4D::V145, 146 => L4D::V146, 147 => L4D::V147, 148 => L4D::V148, 149 => L4D::V149, 150 => L4D::V150, 151 => L4D::V151, 152 => L4D::V152, 153 => L4D::V153, 154 => L4D::V154, 155 => L4D::V155, 156 => L4D::V156, 157 => L4D::V157, 158 => L4D::V158, 159 => L4D::V159, 160 => L4D::V160, 161 => L4D::V161, 162 => L4D::V162, 163 => L4D::V163, 164 => L4D::V164, 165 => L4D::V165, 166 => L4D::V166, 167 => L4D::V167, 168 => L4D::V168, 169 => L4D::V169, 170 => L4D::V170, 171 => L4D::V171, 172 => L4D::V172, 173 => L4D::V173, 174 => L4D::V174, 175 => L4D::V175, 176 => L4D::V176, 177 => L4D::V177, 178 => L4D::V178, 179 => L4D::V179, 180 => L4D::V180, 181 => L4D::V181, 182 => L4D::V182, 183 => L4D::V183, 184 => L4D::V184, 185 => L4D::V185, 186 => L4D::V186, 187 => L4D::V187, 188 => L4D::V188, 189 => L4D::V189, 190 => L4D::V190, 191 => L4D::V191, 192 => L4D::V192, 193 => L4D::V193, 194 => L4D::V194, 195 => L4D::V195, 196 => L4D::V196, 197 => L4D::V197, 198 => L4D::V198, 199 => L4D::V199, 200 => L4D::V200, 201 => L4D::V201, 202 => L4D::V202, 203 => L4D::V203, 204 => L4D::V204, 205 => L4D::V205, 206 => L4D::V206, 207 => L4D::V207, 208 => L4D::V208, 209 => L4D::V209, 210 => L4D::V210, 211 => L4D::V211, 212 => L4D::V212, 213 => L4D::V213, 214 => L4D::V214, 215 => L4D::V215, 216 => L4D::V216, 217 => L4D::V217, 218 => L4D::V218, 219 => L4D::V219, 220 => L4D::V220, 221 => L4D::V221, 222 => L4D::V222, 223 => L4D::V223, 224 => L4D::V224, 225 => L4D::V225, 226 => L4D::V226, 227 => L4D::V227, 228 => L4D::V228, 229 => L4D::V229, 230 => L4D::V230, 231 => L4D::V231, 232 => L4D::V232, 233 => L4D::V233, 234 => L4D::V234, 235 => L4D::V235, 236 => L4D::V236, 237 => L4D::V237, 238 => L4D::V238, 239 => L4D::V239, 240 => L4D::V240, 241 => L4D::V241, 242 => L4D::V242, 243 => L4D::V243, 244 => L4D::V244, 245 => L4D::V245, 246 => L4D::V246, 247 => L4D::V247, 248 => L4D::V248, 249 => L4D::V249, 250 => L4D::V250, 251 => L4D::V251, 252 => L4D::V252, 253 => L4D::V253, 254 => L4D::V254, _ => L4D::V255 } }
    const D: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255];
}
const _: () = { assert!(L4D::V0 as u32 == 0); assert!(L4D::V1 as u32 == 1); assert!(L4D::V2 as u32 == 2); assert!(L4D::V3 as u32 == 3); assert!(L4D::V4 as u32 == 4); assert!(L4D::V5 as u32 == 5); assert!(L4D::V6 as u32 == 6); assert!(L4D::V7 as u32 == 7); assert!(L4D::V8 as u32 == 8); assert!(L4D::V9 as u32 == 9); assert!(L4D::V10 as u32 == 10); assert!(L4D::V11 as u32 == 11); assert!(L4D::V12 as u32 == 12); assert!(L4D::V13 as u32 == 13); assert!(L4D::V14 as u32 == 14); assert!(L4D::V15 as u32 == 15); assert!(L4D::V16 as u32 == 16); assert!(L4D::V17 as u32 == 17); assert!(L4D::V18 as u32 == 18); assert!(L4D::V19 as u32 == 19); assert!(L4D::V20 as u32 == 20); assert!(L4D::V21 as u32 == 21); assert!(L4D::V22 as u32 == 22); assert!(L4D::V23 as u32 == 23); assert!(L4D::V24 as u32 == 24); assert!(L4D::V25 as u32 == 25); assert!(L4D::V26 as u32 == 26); assert!(L4D::V27 as u32 == 27); assert!(L4D::V28 as u32 == 28); assert!(L4D::V29 as u32 == 29); assert!(L4D::V30 as u32 == 30); assert!(L4D::V31 as u32 == 31); assert!(L4D::V32 as u32 == 32); assert!(L4D::V33 as u32 == 33); assert!(L4D::V34 as u32 == 34); assert!(L4D::V35 as u32 == 35); assert!(L4D::V36 as u32 == 36); assert!(L4D::V37 as u32 == 37); assert!(L4D::V38 as u32 == 38); assert!(L4D::V39 as u32 == 39); assert!(L4D::V40 as u32 == 40); assert!(L4D::V41 as u32 == 41); assert!(L4D::V42 as u32 == 42); assert!(L4D::V43 as u32 == 43); assert!(L4D::V44 as u32 == 44); assert!(L4D::V45 as u32 == 45); assert!(L4D::V46 as u32 == 46); assert!(L4D::V47 as u32 == 47); assert!(L4D::V48 as u32 == 48); assert!(L4D::V49 as u32 == 49); assert!(L4D::V50 as u32 == 50); assert!(L4D::V51 as u32 == 51); assert!(L4D::V52 as u32 == 52); assert!(L4D::V53 as u32 == 53); assert!(L4D::V54 as u32 == 54); assert!(L4D::V55 as u32 == 55); assert!(L4D::V56 as u32 == 56); assert!(L4D::V57 as u32 == 57); assert!(L4D::V58 as u32 == 58); assert!(L4D::V59 as u32 == 59); assert!(L4D::V60 as u32 == 60); assert!(L4D::V61 as u32 == 61); assert!(L4D::V62 as u32 == 62); assert!(L4D::V63 as u32 == 63); assert!(L4D::V64 as u32 == 64); assert!(L4D::V65 as u32 == 65); assert!(L4D::V66 as u32 == 66); assert!(L4D::V67 as u32 == 67); assert!(L4D::V68 as u32 == 68); assert!(L4D::V69 as u32 == 69); assert!(L4D::V70 as u32 == 70); assert!(L4D::V71 as u32 == 71); assert!(L4D::V72 as u32 == 72); assert!(L4D::V73 as u32 == 73); assert!(L4D::V74 as u32 == 74); assert!(L4D::V75 as u32 == 75); assert!(L4D::V76 as u32 == 76); assert!(L4D::V77 as u32 == 77); assert!(L4D::V78 as u32 == 78); assert!(L4D::V79 as u32 == 79); assert!(L4D::V80 as u32 == 80); assert!(L4D::V81 as u32 == 81); assert!(L4D::V82 as u32 == 82); assert!(L4D::V83 as u32 == 83); assert!(L4D::V84 as u32 == 84); assert!(L4D::V85 as u32 == 85); assert!(L4D::V86 as u32 == 86); assert!(L4D::V87 as u32 == 87); assert!(L4D::V88 as u32 == 88); assert!(L4D::V89 as u32 == 89); assert!(L4D::V90 as u32 == 90); assert!(L4D::V91 as u32 == 91); assert!(L4D::V92 as u32 == 92); assert!(L4D::V93 as u32 == 93); assert!(L4D::V94 as u32 == 94); assert!(L4D::V95 as u32 == 95); assert!(L4D::V96 as u32 == 96); assert!(L4D::V97 as u32 == 97); assert!(L4D::V98 as u32 == 98); assert!(L4D::V99 as u32 == 99); assert!(L4D::V100 as u32 == 100); assert!(L4D::V101 as u32 == 101); assert!(L4D::V102 as u32 == 102); assert!(L4D::V103 as u32 == 103); assert!(L4D::V104 as u32 == 104); assert!(L4D::V105 as u32 == 105); assert!(L4D::V106 as u32 == 106); assert!(L4D::V107 as u32 == 107); assert!(L4D::V108 as u32 == 108); assert!(L4D::V109 as u32 == 109); assert!(L4D::V110 as u32 == 110); assert!(L4D::V111 as u32 == 111); assert!(L4D::V112 as u32 == 112); assert!(L4D::V113 as u32 == 113); assert!(L4D::V114 as u32 == 114); assert!(L4D::V115 as u32 == 115); assert!(L4D::V116 as u32 == 116); assert!(L4D::V117 as u32 == 117); assert!(L4D::V118 as u32 == 118); assert!(L4D::V119 as u32 == 119); assert!(L4D::V120 as u32 == 120); assert!(L4D::V121 as u32 == 121); assert!(L4D::V122 as u32 == 122); assert!(L4D::V123 as u32 == 123); assert!(L4D::V124 as u32 == 124); assert!(L4D::V125 as u32 == 125); assert!(L4D::V126 as u32 == 126); assert!(L4D::V127 as u32 == 127); assert!(L4D::V128 as u32 == 128); assert!(L4D::V129 as u32 == 129); assert!(L4D::V130 as u32 == 130); assert!(L4D::V131 as u32 == 131); assert!(L4D::V132 as u32 == 132); assert!(L4D::V133 as u32 == 133); assert!(L4D::V134 as u32 == 134); assert!(L4D::V135 as u32 == 135); assert!(L4D::V136 as u32 == 136); assert!(L4D::V137 as u32 == 137); assert!(L4D::V138 as u32 == 138); assert!(L4D::V139 as u32 == 139); assert!(L4D::V140 as u32 == 140); assert!(L4D::V141 as u32 == 141); assert!(L4D::V142 as u32 == 142); assert!(L4D::V143 as u32 == 143); assert!(L4D::V144 as u32 == 144); assert!(L4D::V145 as u32 == 145); assert!(L4D::V146 as u32 == 146); assert!(L4D::V147 as u32 == 147); assert!(L4D::V148 as u32 == 148); assert!(L4D::V149 as u32 == 149); assert!(L4D::V150 as u32 == 150); assert!(L4D::V151 as u32 == 151); assert!(L4D::V152 as u32 == 152); assert!(L4D::V153 as u32 == 153); assert!(L4D::V154 as u32 == 154); assert!(L4D::V155 as u32 == 155); assert!(L4D::V156 as u32 == 156); assert!(L4D::V157 as u32 == 157); assert!(L4D::V158 as u32 == 158); assert!(L4D::V159 as u32 == 159); assert!(L4D::V160 as u32 == 160); assert!(L4D::V161 as u32 == 161); assert!(L4D::V162 as u32 == 162); assert!(L4D::V163 as u32 == 163); assert!(L4D::V164 as u32 == 164); assert!(L4D::V165 as u32 == 165); assert!(L4D::V166 as u32 == 166); assert!(L4D::V167 as u32 == 167); assert!(L4D::V168 as u32 == 168); assert!(L4D::V169 as u32 == 169); assert!(L4D::V170 as u32 == 170); assert!(L4D::V171 as u32 == 171); assert!(L4D::V172 as u32 == 172); assert!(L4D::V173 as u32 == 173); assert!(L4D::V174 as u32 == 174); assert!(L4D::V175 as u32 == 175); assert!(L4D::V176 as u32 == 176); assert!(L4D::V177 as u32 == 177); assert!(L4D::V178 as u32 == 178); assert!(L4D::V179 as u32 == 179); assert!(L4D::V180 as u32 == 180); assert!(L4D::V181 as u32 == 181); assert!(L4D::V182 as u32 == 182); assert!(L4D::V183 as u32 == 183); assert!(L4D::V184 as u32 == 184); assert!(L4D::V185 as u32 == 185); assert!(L4D::V186 as u32 == 186); assert!(L4D::V187 as u32 == 187); assert!(L4D::V188 as u32 == 188); assert!(L4D::V189 as u32 == 189); assert!(L4D::V190 as u32 == 190); assert!(L4D::V191 as u32 == 191); assert!(L4D::V192 as u32 == 192); assert!(L4D::V193 as u32 == 193); assert!(L4D::V194 as u32 == 194); assert!(L4D::V195 as u32 == 195); assert!(L4D::V196 as u32 == 196); assert!(L4D::V197 as u32 == 197); assert!(L4D::V198 as u32 == 198); assert!(L4D::V199 as u32 == 199); assert!(L4D::V200 as u32 == 200); assert!(L4D::V201 as u32 == 201); assert!(L4D::V202 as u32 == 202); assert!(L4D::V203 as u32 == 203); assert!(L4D::V204 as u32 == 204); assert!(L4D::V205 as u32 == 205); assert!(L4D::V206 as u32 == 206); assert!(L4D::V207 as u32 == 207); assert!(L4D::V208 as u32 == 208); assert!(L4D::V209 as u32 == 209); assert!(L4D::V210 as u32 == 210); assert!(L4D::V211 as u32 == 211); assert!(L4D::V212 as u32 == 212); assert!(L4D::V213 as u32 == 213); assert!(L4D::V214 as u32 == 214); assert!(L4D::V215 as u32 == 215); assert!(L4D::V216 as u32 == 216); assert!(L4D::V217 as u32 == 217); assert!(L4D::V218 as u32 == 218); assert!(L4D::V219 as u32 == 219); assert!(L4D::V220 as u32 == 220); assert!(L4D::V221 as u32 == 221); assert!(L4D::V222 as u32 == 222); assert!(L4D::V223 as u32 == 223); assert!(L4D::V224 as u32 == 224); assert!(L4D::V225 as u32 == 225); assert!(L4D::V226 as u32 == 226); assert!(L4D::V227 as u32 == 227); assert!(L4D::V228 as u32 == 228); assert!(L4D::V229 as u32 == 229); assert!(L4D::V230 as u32 == 230); assert!(L4D::V231 as u32 == 231); assert!(L4D::V232 as u32 == 232); assert!(L4D::V233 as u32 == 233); assert!(L4D::V234 as u32 == 234); assert!(L4D::V235 as u32 == 235); assert!(L4D::V236 as u32 == 236); assert!(L4D::V237 as u32 == 237); assert!(L4D::V238 as u32 == 238); assert!(L4D::V239 as u32 == 239); assert!(L4D::V240 as u32 == 240); assert!(L4D::V241 as u32 == 241); assert!(L4D::V242 as u32 == 242); assert!(L4D::V243 as u32 == 243); assert!(L4D::V244 as u32 == 244); assert!(L4D::V245 as u32 == 245); assert!(L4D::V246 as u32 == 246); assert!(L4D::V247 as u32 == 247); assert!(L4D::V248 as u32 == 248); assert!(L4D::V249 as u32 == 249); assert!(L4D::V250 as u32 == 250); assert!(L4D::V251 as u32 == 251); assert!(L4D::V252 as u32 == 252); assert!(L4D::V253 as u32 == 253); assert!(L4D::V254 as u32 == 254); assert!(L4D::V255 as u32 == 255); };
impl core::fmt::Display for L4D { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { match self { L4D::V0 => f.write_str("d0"), L4D::V1 => f.write_str("d1"), L4D::V2 => f.write_str("d2"), L4D::V3 => f.write_str("d3"), L4D::V4 => f.write_str("d4"), L4D::V5 => f.write_str("d5"), L4D::V6 => f.write_str("d6"), L4D::V7 => f.write_str("d7"), L4D::V8 => f.write_str("d8"), L4D::V9 => f.write_str("d9"), L4D::V10 => f.write_str("d10"), L4D::V11 => f.write_str("d11"), L4D::V12 => f.write_str("d12"), L4D::V13 => f.write_str("d13"), L4D::V14 => f.write_str("d14"), L4D::V15 => f.write_str("d15"), L4D::V16 => f.write_str("d16"), L4D::V17 => f.write_str("d17"), L4D::V18 => f.write_str("d18"), L4D::V19 => f.write_str("d19"), L4D::V20 => f.write_str("d20"), L4D::V21 => f.write_str("d21"), L4D::V22 => f.write_str("d22"), L4D::V23 => f.write_str("d23"), L4D::V24 => f.write_str("d24"), L4D::V25 => f.write_str("d25"), L4D::V26 => f.write_str("d26"), L4D::V27 => f.write_str("d27"), L4D::V28 => f.write_str("d28"), L4D::V29 => f.write_str("d29"), L4D::V30 => f.write_str("d30"), L4D::V31 => f.write_str("d31"), L4D::V32 => f.write_str("d32"), L4D::V33 => f.write_str("d33"), L4D::V34 => f.write_str("d34"), L4D::V35 => f.write_str("d35"), L4D::V36 => f.write_str("d36"), L4D::V37 => f.write_str("d37"), L4D::V38 => f.write_str("d38"), L4D::V39 => f.write_str("d39"), L4D::V40 => f.write_str("d40"), L4D::V41 => f.write_str("d41"), L4D::V42 => f.write_str("d42"), L4D::V43 => f.write_str("d43"), L4D::V44 => f.write_str("d44"), L4D::V45 => f.write_str("d45"), L4D::V46 => f.write_str("d46"), L4D::V47 => f.write_str("d47"), L4D::V48 => f.write_str("d48"), L4D::V49 => f.write_str("d49"), L4D::V50 => f.write_str("d50"), L4D::V51 => f.write_str("d51"), L4D::V52 => f.write_str("d52"), L4D::V53 => f.write_str("d53"), L4D::V54 => f.write_str("d54"), L4D::V55 => f.write_str("d55"), L4D::V56 => f.write_str("d56"), L4D::V57 => f.write_str("d57"), L4D::V58 => f.write_str("d58"), L4D::V59 => f.write_str("d59"), L4D::V60 => f.write_str("d60"), L4D::V61 => f.write_str("d61"), L4D::V62 => f.write_str("d62"), L4D::V63 => f.write_str("d63"), L4D::V64 => f.write_str("d64"), L4D::V65 => f.write_str("d65"), L4D::V66 => f.write_str("d66"), L4D::V67 => f.write_str("d67"), L4D::V68 => f.write_str("d68"), L4D::V69 => f.write_str("d69"), L4D::V70 => f.write_str("d70"), L4D::V71 => f.write_str("d71"), L4D::V72 => f.write_str("d72"), L4D::V73 => f.write_str("d73"), L4D::V74 => f.write_str("d74"), L4D::V75 => f.write_str("d75"), L4D::V76 => f.write_str("d76"), L4D::V77 => f.write_str("d77"), L4D::V78 => f.write_str("d78"), L4D::V79 => f.write_str("d79"), L4D::V80 => f.write_str("d80"), L4D::V81 => f.write_str("d81"), L4D::V82 => f.write_str("d82"), L4D::V83 => f.write_str("d83"), L4D::V84 => f.write_str("d84"), L4D::V85 => f.write_str("d85"), L4D::V86 => f.write_str("d86"), L4D::V87 => f.write_str("d87"), L4D::V88 => f.write_str("d88"), L4D::V89 => f.write_str("d89"), L4D::V90 => f.write_str("d90"), L4D::V91 => f.write_str("d91"), L4D::V92 => f.write_str("d92"), L4D::V93 => f.write_str("d93"), L4D::V94 => f.write_str("d94"), L4D::V95 => f.write_str("d95"), L4D::V96 => f.write_str("d96"), L4D::V97 => f.write_str("d97"), L4D::V98 => f.write_str("d98"), L4D::V99 => f.write_str("d99"), L4D::V100 => f.write_str("d100"), L4D::V101 => f.write_str("d101"), L4D::V102 => f.write_str("d102"), L4D::V103 => f.write_str("d103"), L4D::V104 => f.write_str("d104"), L4D::V105 => f.write_str("d105"), L4D::V106 => f.write_str("d106"), L4D::V107 => f.write_str("d107"), L4D::V108 => f.write_str("d108"), L4D::V109 => f.write_str("d109"), L4D::V110 => f.write_str("d110"), L4D::V111 => f.write_str("d111"), L4D::V112 => f.write_str("d112"), L4D::V113 => f.write_str("d113"), L4D::V114 => f.write_str("d114"), L4D::V115 => f.write_str("d115"), L4D::V116 => f.write_str("d116"), L4D::V117 => f.write_str("d117"), L4D::V118 => f.write_str("d118"), L4D::V119 => f.write_str("d119"), L4D::V120 => f.write_str("d120"), L4D::V121 => f.write_str("d121"), L4D::V122 => f.write_str("d122"), L4D::V123 => f.write_str("d123"), L4D::V124 => f.write_str("d124"), L4D::V125 => f.write_str("d125"), L4D::V126 => f.write_str("d126"), L4D::V127 => f.write_str("d127"), L4D::V128 => f.write_str("d128"), L4D::V129 => f.write_str("d129"), L4D::V130 => f.write_str("d130"), L4D::V131 => f.write_str("d131"), L4D::V132 => f.write_str("d132"), L4D::V133 => f.write_str("d133"), L4D::V134 => f.write_str("d134"), L4D::V135 => f.write_str("d135"), L4D::V136 => f.write_str("d136"), L4D::V137 => f.write_str("d137"), L4D::V138 => f.write_str("d138"), L4D::V139 => f.write_str("d139"), L4D::V140 => f.write_str("d140"), L4D::V141 => f.write_str("d141"), L4D::V142 => f.write_str("d142"), L4D::V143 => f.write_str("d143"), L4D::V144 => f.write_str("d144"), L4D::V145 => f.write_str("d145"), L4D::V146 => f.write_str("d146"), L4D::V147 => f.write_str("d147"), L4D::V148 => f.write_str("d148"), L4D::V149 => f.write_str("d149"), L4D::V150 => f.write_str("d150"), L4D::V151 => f.write_str("d151"), L4D::V152 => f.write_str("d152"), L4D::V153 => f.write_str("d153"), L4D::V154 => f.write_str("d154"), L4D::V155 => f.write_str("d155"), L4D::V156 => f.write_str("d156"), L4D::V157 => f.write_str("d157"), L4D::V158 => f.write_str("d158"), L4D::V159 => f.write_str("d159"), L4D::V160 => f.write_str("d160"), L4D::V161 => f.write_str("d161"), L4D::V162 => f.write_str("d162"), L4D::V163 => f.write_str("d163"), L4D::V164 => f.write_str("d164"), L4D::V165 => f.write_str("d165"), L4D::V166 => f.write_str("d166"), L4D::V167 => f.write_str("d167"), L4D::V168 => f.write_str("d168"), L4D::V169 => f.write_str("d169"), L4D::V170 => f.write_str("d170"), L4D::V171 => f.write_str("d171"), L4D::V172 => f.write_str("d172"), L4D::V173 => f.write_str("d173"), L4D::V174 => f.write_str("d174"), L4D::V175 => f.write_str("d175"), L4D::V176 => f.write_str("d176"), L4D::V177 => f.write_str("d177"), L4D::V178 => f.write_str("d178"), L4D::V179 => f.write_str("d179"), L4D::V180 => f.write_str("d180"), L4D::V181 => f.write_str("d181"), L4D::V182 => f.write_str("d182"), L4D::V183 => f.write_str("d183"), L4D::V184 => f.write_str("d184"), L4D::V185 => f.write_str("d185"), L4D::V186 => f.write_str("d186"), L4D::V187 => f.write_str("d187"), L4D::V188 => f.write_str("d188"), L4D::V189 => f.write_str("d189"), L4D::V190 => f.write_str("d190"), L4D::V191 => f.write_str("d191"), L4D::V192 => f.write_str("d192"), L4D::V193 => f.write_str("d193"), L4D::V194 => f.write_str("d194"), L4D::V195 => f.write_str("d195"), L4D::V196 => f.write_str("d196"), L4D::V197 => f.write_str("d197"), L4D::V198 => f.write_str("d198"), L4D::V199 => f.write_str("d199"), L4D::V200 => f.write_str("d200"), L4D::V201 => f.write_str("d201"), L4D::V202 => f.write_str("d202"), L4D::V203 => f.write_str("d203"), L4D::V204 => f.write_str("d204"), L4D::V205 => f.write_str("d205"), L4D::V206 => f.write_str("d206"), L4D::V207 => f.write_str("d207"), L4D::V208 => f.write_str("d208"), L4D::V209 => f.write_str("d209"), L4D::V210 => f.write_str("d210"), L4D::V211 => f.write_str("d211"), L4D::V212 => f.write_str("d212"), L4D::V213 => f.write_str("d213"), L4D::V214 => f.write_str("d214"), L4D::V215 => f.write_str("d215"), L4D::V216 => f.write_str("d216"), L4D::V217 => f.write_str("d217"), L4D::V218 => f.write_str("d218"), L4D::V219 => f.write_str("d219"), L4D::V220 => f.write_str("d220"), L4D::V221 => f.write_str("d221"), L4D::V222 => f.write_str("d222"), L4D::V223 => f.write_str("d223"), L4D::V224 => f.write_str("d224"), L4D::V225 => f.write_str("d225"), L4D::V226 => f.write_str("d226"), L4D::V227 => f.write_str("d227"), L4D::V228 => f.write_str("d228"), L4D::V229 => f.write_str("d229"), L4D::V230 => f.write_str("d230"), L4D::V231 => f.write_str("d231"), L4D::V232 => f.write_str("d232"), L4D::V233 => f.write_str("d233"), L4D::V234 => f.write_str("d234"), L4D::V235 => f.write_str("d235"), L4D::V236 => f.write_str("d236"), L4D::V237 => f.write_str("d237"), L4D::V238 => f.write_str("d238"), L4D::V239 => f.write_str("d239"), L4D::V240 => f.write_str("d240"), L4D::V241 => f.write_str("d241"), L4D::V242 => f.write_str("d242"), L4D::V243 => f.write_str("d243"), L4D::V244 => f.write_str("d244"), L4D::V245 => f.write_str("d245"), L4D::V246 => f.write_str("d246"), L4D::V247 => f.write_str("d247"), L4D::V248 => f.write_str("d248"), L4D::V249 => f.write_str("d249"), L4D::V250 => f.write_str("d250"), L4D::V251 => f.write_str("d251"), L4D::V252 => f.write_str("d252"), L4D::V253 => f.write_str("d253"), L4D::V254 => f.write_str("d254"), L4D::V255 => f.write_str("d255"), } } }

#[derive(EnumSetType, Debug)]
#[enumset(repr = "array")]
pub enum L3D { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127, V128, V129, V130, V131, V132, V133, V134, V135, V136, V137, V138, V139, V140, V141, V142, V143, V144, V145, V146, V147, V148, V149, V150, V151, V152, V153, V154, V155, V156, V157, V158, V159, V160, V161, V162, V163, V164, V165, V166, V167, V168, V169, V170, V171, V172, V173, V174, V175, V176, V177, V178, V179 }
impl Fam<3> for L3D {
    fn nth(i: usize) -> Self { match i { 0 => L3D::V0, 1 => L3D::V1, 2 => L3D::V2, 3 => L3D::V3, 4 => L3D::V4, 5 => L3D::V5, 6 => L3D::V6, 7 => L3D::V7, 8 => L3D::V8, 9 => L3D::V9, 10 => L3D::V10, 11 => L3D::V11, 12 => L3D::V12, 13 => L3D::V13, 14 => L3D::V14, 15 => L3D::V15, 16 => L3D::V16, 17 => L3D::V17, 18 => L3D::V18, 19 => L3D::V19, 20 => L3D::V20, 21 => L3D::V21, 22 => L3D::V22, 23 => L3D::V23, 24 => L3D::V24, 25 => L3D::V25, 26 => L3D::V26, 27 => L3D::V27, 28 => L3D::V28, 29 => L3D::V29, 30 => L3D::V30, 31 => L3D::V31, 32 => L3D::V32, 33 => L3D::V33, 34 => L3D::V34, 35 => L3D::V35, 36 => L3D::V36, 37 => L3D::V37, 38 => L3D::V38, 39 => L3D::V39, 40 => L3D::V40, 41 => L3D::V41, 42 => L3D::V42, 43 => L3D::V43, 44 => L3D::V44, 45 => L3D::V45, 46 => L3D::V46, 47 => L3D::V47, 48 => L3D::V48, 49 => L3D::V49, 50 => L3D::V50, 51 => L3D::V51, 52 => L3D::V52, 53 => L3D::V53, 54 => L3D::V54, 55 => L3D::V55, 56 => L3D::V56, 57 => L3D::V57, 58 => L3D::V58, 59 => L3D::V59, 60 => L3D::V60, 61 => L3D::V61, 62 => L3D::V62, 63 => L3D::V63, 64 => L3D::V64, 65 => L3D::V65, 66 => L3D::V66, 67 => L3D::V67, 68 => L3D::V68, 69 => L3D::V69, 70 => L3D::V70, 71 => L3D::V71, 72 => L3D::V72, 73 => L3D::V73, 74 => L3D::V74, 75 => L3D::V75, 76 => L3D::V76, 77 => L3D::V77, 78 => L3D::V78, 79 => L3D::V79, 80 => L3D::V80, 81 => L3D::V81, 82 => L3D::V82, 83 => L3D::V83, 84 => L3D::V84, 85 => L3D::V85, 86 => L3D::V86, 87 => L3D::V87, 88 => L3D::V88, 89 => L3D::V89, 90 => L3D::V90, 91 => L3D::V91, 92 => L3D::V92, 93 => L3D::V93, 94 => L3D::V94, 95 => L3D::V95, 96 => L3D::V96, 97 => L3D::V97, 98 => L3D::V98, 99 => L3D::V99, 100 => L3D::V100, 101 => L3D::V101, 102 => L3D::V102, 103 => L3D::V103, 104 => L3D::V104, 105 => L3D::V105, 106 => L3D::V106, 107 => L3D::V107, 108 => L3D::V108, 109 => L3D::V109, 110 => L3D::V110, 111 => L3D::V111, 112 => L3D::V112, 113 => L3D::V113, 114 => L3D::V114, 115 => L3D::V115, 116 => L3D::V116, 117 => L3D::V117, 118 => L3D::V118, 119 => L3D::V119, 120 => L3D::V120, 121 => L3D::V121, 122 => L3D::V122, 123 => L3D::V123, 124 => L3D::V124, 125 => L3D::V125, 126 => L3D::V126, 127 => L3D::V127, 128 => L3D::V128, 129 => L3D::V129, 130 => L3D::V130, 131 => L3D::V131, 132 => L3D::V132, 133 => L3D::V133, 134 => L3D::V134, 135 => L3D::V135, 136 => L3D::V136, 137 => L3D::V137, 138 => L3D::V138, 139 => L3D::V139, 140 => L3D::V140, 141 => L3D::V141, 142 => L3D::V142, 143 => L3D::V143, 144 => L3D::V144, 145 => L3D::V145, 146 => L3D::V146, 147 => L3D::V147, 148 => L3D::V148, 149 => L3D::V149, 150 => L3D::V150, 151 => L3D::V151, 152 => L3D::V152, 153 => L3D::V153, 154 => L3D::V154, 155 => L3D::V155, 156 => L3D::V156, 157 => L3D::V157, 158 => L3D::V158, 159 => L3D::V159, 160 => L3D::V160, 161 => L3D::V161, 162 => L3D::V162, 163 => L3D::V163, 164 => L3D::V164, 165 => L3D::V165, 166 => L3D::V166, 167 => L3D::V167, 168 => L3D::V168, 169 => L3D::V169, 170 => L3D::V170, 171 => L3D::V171, 172 => L3D::V172, 173 => L3D::V173, 174 => L3D::V174, 175 => L3D::V175, 176 => L3D::V176, 177 => L3D::V177, 178 => L3D::V178, _ => L3D::V179 } }
    const D: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179];
}
const _: () = { assert!(L3D::V0 as u32 == 0); assert!(L3D::V1 as u32 == 1); assert!(L3D::V2 as u32 == 2); assert!(L3D::V3 as u32 == 3); assert!(L3D::V4 as u32 == 4); assert!(L3D::V5 as u32 == 5); assert!(L3D::V6 as u32 == 6); assert!(L3D::V7 as u32 == 7); assert!(L3D::V8 as u32 == 8); assert!(L3D::V9 as u32 == 9); assert!(L3D::V10 as u32 == 10); assert!(L3D::V11 as u32 == 11); assert!(L3D::V12 as u32 == 12); assert!(L3D::V13 as u32 == 13); assert!(L3D::V14 as u32 == 14); assert!(L3D::V15 as u32 == 15); assert!(L3D::V16 as u32 == 16); assert!(L3D::V17 as u32 == 17); assert!(L3D::V18 as u32 == 18); assert!(L3D::V19 as u32 == 19); assert!(L3D::V20 as u32 == 20); assert!(L3D::V21 as u32 == 21); assert!(L3D::V22 as u32 == 22); assert!(L3D::V23 as u32 == 23); assert!(L3D::V24 as u32 == 24); assert!(L3D::V25 as u32 == 25); assert!(L3D::V26 as u32 == 26); assert!(L3D::V27 as u32 == 27); assert!(L3D::V28 as u32 == 28); assert!(L3D::V29 as u32 == 29); assert!(L3D::V30 as u32 == 30); assert!(L3D::V31 as u32 == 31); assert!(L3D::V32 as u32 == 32); assert!(L3D::V33 as u32 == 33); assert!(L3D::V34 as u32 == 34); assert!(L3D::V35 as u32 == 35); assert!(L3D::V36 as u32 == 36); assert!(L3D::V37 as u32 == 37); assert!(L3D::V38 as u32 == 38); assert!(L3D::V39 as u32 == 39); assert!(L3D::V40 as u32 == 40); assert!(L3D::V41 as u32 == 41); assert!(L3D::V42 as u32 == 42); assert!(L3D::V43 as u32 == 43); assert!(L3D::V44 as u32 == 44); assert!(L3D::V45 as u32 == 45); assert!(L3D::V46 as u32 == 46); assert!(L3D::V47 as u32 == 47); assert!(L3D::V48 as u32 == 48); assert!(L3D::V49 as u32 == 49); assert!(L3D::V50 as u32 == 50); assert!(L3D::V51 as u32 == 51); assert!(L3D::V52 as u32 == 52); assert!(L3D::V53 as u32 == 53); assert!(L3D::V54 as u32 == 54); assert!(L3D::V55 as u32 == 55); assert!(L3D::V56 as u32 == 56); assert!(L3D::V57 as u32 == 57); assert!(L3D::V58 as u32 == 58); assert!(L3D::V59 as u32 == 59); assert!(L3D::V60 as u32 == 60); assert!(L3D::V61 as u32 == 61); assert!(L3D::V62 as u32 == 62); assert!(L3D::V63 as u32 == 63); assert!(L3D::V64 as u32 == 64); assert!(L3D::V65 as u32 == 65); assert!(L3D::V66 as u32 == 66); assert!(L3D::V67 as u32 == 67); assert!(L3D::V68 as u32 == 68); assert!(L3D::V69 as u32 == 69); assert!(L3D::V70 as u32 == 70); assert!(L3D::V71 as u32 == 71); assert!(L3D::V72 as u32 == 72); assert!(L3D::V73 as u32 == 73); assert!(L3D::V74 as u32 == 74); assert!(L3D::V75 as u32 == 75); assert!(L3D::V76 as u32 == 76); assert!(L3D::V77 as u32 == 77); assert!(L3D::V78 as u32 == 78); assert!(L3D::V79 as u32 == 79); assert!(L3D::V80 as u32 == 80); assert!(L3D::V81 as u32 == 81); assert!(L3D::V82 as u32 == 82); assert!(L3D::V83 as u32 == 83); assert!(L3D::V84 as u32 == 84); assert!(L3D::V85 as u32 == 85); assert!(L3D::V86 as u32 == 86); assert!(L3D::V87 as u32 == 87); assert!(L3D::V88 as u32 == 88); assert!(L3D::V89 as u32 == 89); assert!(L3D::V90 as u32 == 90); assert!(L3D::V91 as u32 == 91); assert!(L3D::V92 as u32 == 92); assert!(L3D::V93 as u32 == 93); assert!(L3D::V94 as u32 == 94); assert!(L3D::V95 as u32 == 95); assert!(L3D::V96 as u32 == 96); assert!(L3D::V97 as u32 == 97); assert!(L3D::V98 as u32 == 98); assert!(L3D::V99 as u32 == 99); assert!(L3D::V100 as u32 == 100); assert!(L3D::V101 as u32 == 101); assert!(L3D::V102 as u32 == 102); assert!(L3D::V103 as u32 == 103); assert!(L3D::V104 as u32 == 104); assert!(L3D::V105 as u32 == 105); assert!(L3D::V106 as u32 == 106); assert!(L3D::V107 as u32 == 107); assert!(L3D::V108 as u32 == 108); assert!(L3D::V109 as u32 == 109); assert!(L3D::V110 as u32 == 110); assert!(L3D::V111 as u32 == 111); assert!(L3D::V112 as u32 == 112); assert!(L3D::V113 as u32 == 113); assert!(L3D::V114 as u32 == 114); assert!(L3D::V115 as u32 == 115); assert!(L3D::V116 as u32 == 116); assert!(L3D::V117 as u32 == 117); assert!(L3D::V118 as u32 == 118); assert!(L3D::V119 as u32 == 119); assert!(L3D::V120 as u32 == 120); assert!(L3D::V121 as u32 == 121); assert!(L3D::V122 as u32 == 122); assert!(L3D::V123 as u32 == 123); assert!(L3D::V124 as u32 == 124); assert!(L3D::V125 as u32 == 125); assert!(L3D::V126 as u32 == 126); assert!(L3D::V127 as u32 == 127); assert!(L3D::V128 as u32 == 128); assert!(L3D::V129 as u32 == 129); assert!(L3D::V130 as u32 == 130); assert!(L3D::V131 as u32 == 131); assert!(L3D::V132 as u32 == 132); assert!(L3D::V133 as u32 == 133); assert!(L3D::V134 as u32 == 134); assert!(L3D::V135 as u32 == 135); assert!(L3D::V136 as u32 == 136); assert!(L3D::V137 as u32 == 137); assert!(L3D::V138 as u32 == 138); assert!(L3D::V139 as u32 == 139); assert!(L3D::V140 as u32 == 140); assert!(L3D::V141 as u32 == 141); assert!(L3D::V142 as u32 == 142); assert!(L3D::V143 as u32 == 143); assert!(L3D::V144 as u32 == 144); assert!(L3D::V145 as u32 == 145); assert!(L3D::V146 as u32 == 146); assert!(L3D::V147 as u32 == 147); assert!(L3D::V148 as u32 == 148); assert!(L3D::V149 as u32 == 149); assert!(L3D::V150 as u32 == 150); assert!(L3D::V151 as u32 == 151); assert!(L3D::V152 as u32 == 152); assert!(L3D::V153 as u32 == 153); assert!(L3D::V154 as u32 == 154); assert!(L3D::V155 as u32 == 155); assert!(L3D::V156 as u32 == 156); assert!(L3D::V157 as u32 == 157); assert!(L3D::V158 as u32 == 158); assert!(L3D::V159 as u32 == 159); assert!(L3D::V160 as u32 == 160); assert!(L3D::V161 as u32 == 161); assert!(L3D::V162 as u32 == 162); assert!(L3D::V163 as u32 == 163); assert!(L3D::V164 as u32 == 164); assert!(L3D::V165 as u32 == 165); assert!(L3D::V166 as u32 == 166); assert!(L3D::V167 as u32 == 167); assert!(L3D::V168 as u32 == 168); assert!(L3D::V169 as u32 == 169); assert!(L3D::V170 as u32 == 170); assert!(L3D::V171 as u32 == 171); assert!(L3D::V172 as u32 == 172); assert!(L3D::V173 as u32 == 173); assert!(L3D::V174 as u32 == 174); assert!(L3D::V175 as u32 == 175); assert!(L3D::V176 as u32 == 176); assert!(L3D::V177 as u32 == 177); assert!(L3D::V178 as u32 == 178); assert!(L3D::V179 as u32 == 179); };
impl core::fmt::Display for L3D { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { match self { L3D::V0 => f.write_str("d0"), L3D::V1 => f.write_str("d1"), L3D::V2 => f.write_str("d2"), L3D::V3 => f.write_str("d3"), L3D::V4 => f.write_str("d4"), L3D::V5 => f.write_str("d5"), L3D::V6 => f.write_str("d6"), L3D::V7 => f.write_str("d7"), L3D::V8 => f.write_str("d8"), L3D::V9 => f.write_str("d9"), L3D::V10 => f.write_str("d10"), L3D::V11 => f.write_str("d11"), L3D::V12 => f.write_str("d12"), L3D::V13 => f.write_str("d13"), L3D::V14 => f.write_str("d14"), L3D::V15 => f.write_str("d15"), L3D::V16 => f.write_str("d16"), L3D::V17 => f.write_str("d17"), L3D::V18 => f.write_str("d18"), L3D::V19 => f.write_str("d19"), L3D::V20 => f.write_str("d20"), L3D::V21 => f.write_str("d21"), L3D::V22 => f.write_str("d22"), L3D::V23 => f.write_str("d23"), L3D::V24 => f.write_str("d24"), L3D::V25 => f.write_str("d25"), L3D::V26 => f.write_str("d26"), L3D::V27 => f.write_str("d27"), L3D::V28 => f.write_str("d28"), L3D::V29 => f.write_str("d29"), L3D::V30 => f.write_str("d30"), L3D::V31 => f.write_str("d31"), L3D::V32 => f.write_str("d32"), L3D::V33 => f.write_str("d33"), L3D::V34 => f.write_str("d34"), L3D::V35 => f.write_str("d35"), L3D::V36 => f.write_str("d36"), L3D::V37 => f.write_str("d37"), L3D::V38 => f.write_str("d38"), L3D::V39 => f.write_str("d39"), L3D::V40 => f.write_str("d40"), L3D::V41 => f.write_str("d41"), L3D::V42 => f.write_str("d42"), L3D::V43 => f.write_str("d43"), L3D::V44 => f.write_str("d44"), L3D::V45 => f.write_str("d45"), L3D::V46 => f.write_str("d46"), L3D::V47 => f.write_str("d47"), L3D::V48 => f.write_str("d48"), L3D::V49 => f.write_str("d49"), L3D::V50 => f.write_str("d50"), L3D::V51 => f.write_str("d51"), L3D::V52 => f.write_str("d52"), L3D::V53 => f.write_str("d53"), L3D::V54 => f.write_str("d54"), L3D::V55 => f.write_str("d55"), L3D::V56 => f.write_str("d56"), L3D::V57 => f.write_str("d57"), L3D::V58 => f.write_str("d58"), L3D::V59 => f.write_str("d59"), L3D::V60 => f.write_str("d60"), L3D::V61 => f.write_str("d61"), L3D::V62 => f.write_str("d62"), L3D::V63 => f.write_str("d63"), L3D::V64 => f.write_str("d64"), L3D::V65 => f.write_str("d65"), L3D::V66 => f.write_str("d66"), L3D::V67 => f.write_str("d67"), L3D::V68 => f.write_str("d68"), L3D::V69 => f.write_str("d69"), L3D::V70 => f.write_str("d70"), L3D::V71 => f.write_str("d71"), L3D::V72 => f.write_str("d72"), L3D::V73 => f.write_str("d73"), L3D::V74 => f.write_str("d74"), L3D::V75 => f.write_str("d75"), L3D::V76 => f.write_str("d76"), L3D::V77 => f.write_str("d77"), L3D::V78 => f.write_str("d78"), L3D::V79 => f.write_str("d79"), L3D::V80 => f.write_str("d80"), L3D::V81 => f.write_str("d81"), L3D::V82 => f.write_str("d82"), L3D::V83 => f.write_str("d83"), L3D::V84 => f.write_str("d84"), L3D::V85 => f.write_str("d85"), L3D::V86 => f.write_str("d86"), L3D::V87 => f.write_str("d87"), L3D::V88 => f.write_str("d88"), L3D::V89 => f.write_str("d89"), L3D::V90 => f.write_str("d90"), L3D::V91 => f.write_str("d91"), L3D::V92 => f.write_str("d92"), L3D::V93 => f.write_str("d93"), L3D::V94 => f.write_str("d94"), L3D::V95 => f.write_str("d95"), L3D::V96 => f.write_str("d96"), L3D::V97 => f.write_str("d97"), L3D::V98 => f.write_str("d98"), L3D::V99 => f.write_str("d99"), L3D::V100 => f.write_str("d100"), L3D::V101 => f.write_str("d101"), L3D::V102 => f.write_str("d102"), L3D::V103 => f.write_str("d103"), L3D::V104 => f.write_str("d104"), L3D::V105 => f.write_str("d105"), L3D::V106 => f.write_str("d106"), L3D::V107 => f.write_str("d107"), L3D::V108 => f.write_str("d108"), L3D::V109 => f.write_str("d109"), L3D::V110 => f.write_str("d110"), L3D::V111 => f.write_str("d111"), L3D::V112 => f.write_str("d112"), L3D::V113 => f.write_str("d113"), L3D::V114 => f.write_str("d114"), L3D::V115 => f.write_str("d115"), L3D::V116 => f.write_str("d116"), L3D::V117 => f.write_str("d117"), L3D::V118 => f.write_str("d118"), L3D::V119 => f.write_str("d119"), L3D::V120 => f.write_str("d120"), L3D::V121 => f.write_str("d121"), L3D::V122 => f.write_str("d122"), L3D::V123 => f.write_str("d123"), L3D::V124 => f.write_str("d124"), L3D::V125 => f.write_str("d125"), L3D::V126 => f.write_str("d126"), L3D::V127 => f.write_str("d127"), L3D::V128 => f.write_str("d128"), L3D::V129 => f.write_str("d129"), L3D::V130 => f.write_str("d130"), L3D::V131 => f.write_str("d131"), L3D::V132 => f.write_str("d132"), L3D::V133 => f.write_str("d133"), L3D::V134 => f.write_str("d134"), L3D::V135 => f.write_str("d135"), L3D::V136 => f.write_str("d136"), L3D::V137 => f.write_str("d137"), L3D::V138 => f.write_str("d138"), L3D::V139 => f.write_str("d139"), L3D::V140 => f.write_str("d140"), L3D::V141 => f.write_str("d141"), L3D::V142 => f.write_str("d142"), L3D::V143 => f.write_str("d143"), L3D::V144 => f.write_str("d144"), L3D::V145 => f.write_str("d145"), L3D::V146 => f.write_str("d146"), L3D::V147 => f.write_str("d147"), L3D::V148 => f.write_str("d148"), L3D::V149 => f.write_str("d149"), L3D::V150 => f.write_str("d150"), L3D::V151 => f.write_str("d151"), L3D::V152 => f.write_str("d152"), L3D::V153 => f.write_str("d153"), L3D::V154 => f.write_str("d154"), L3D::V155 => f.write_str("d155"), L3D::V156 => f.write_str("d156"), L3D::V157 => f.write_str("d157"), L3D::V158 => f.write_str("d158"), L3D::V159 => f.write_str("d159"), L3D::V160 => f.write_str("d160"), L3D::V161 => f.write_str("d161"), L3D::V162 => f.write_str("d162"), L3D::V163 => f.write_str("d163"), L3D::V164 => f.write_str("d164"), L3D::V165 => f.write_str("d165"), L3D::V166 => f.write_str("d166"), L3D::V167 => f.write_str("d167"), L3D::V168 => f.write_str("d168"), L3D::V169 => f.write_str("d169"), L3D::V170 => f.write_str("d170"), L3D::V171 => f.write_str("d171"), L3D::V172 => f.write_str("d172"), L3D::V173 => f.write_str("d173"), L3D::V174 => f.write_str("d174"), L3D::V175 => f.write_str("d175"), L3D::V176 => f.write_str("d176"), L3D::V177 => f.write_str("d177"), L3D::V178 => f.write_str("d178"), L3D::V179 => f.write_str("d179"), } } }

#[derive(EnumSetType, Debug)]
pub enum L5S { V114 = 114, V217 = 217, V319 = 319, V181 = 181, V315 = 315, V317 = 317 }
impl Fam<5> for L5S {
    fn nth(i: usize) -> Self { match i { 0 => L5S::V114, 1 => L5S::V217, 2 => L5S::V319, 3 => L5S::V181, 4 => L5S::V315, _ => L5S::V317 } }
    const D: &'static [u32] = &[114, 217, 319, 181, 315, 317];
}
const _: () = { assert!(L5S::V114 as u32 == 114); assert!(L5S::V217 as u32 == 217); assert!(L5S::V319 as u32 == 319); assert!(L5S::V181 as u32 == 181); assert!(L5S::V315 as u32 == 315); assert!(L5S::V317 as u32 == 317); };
impl core::fmt::Display for L5S { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { match self { L5S::V114 => f.write_str("d114"), L5S::V217 => f.write_str("d217"), L5S::V319 => f.write_str("d319"), L5S::V181 => f.write_str("d181"), L5S::V315 => f.write_str("d315"), L5S::V317 => f.write_str("d317"), } } }

#[derive(EnumSetType, Debug)]
pub enum C3 { V0, V1, V2 }
impl Fam<1> for C3 {
    fn nth(i: usize) -> Self { match i { 0 => C3::V0, 1 => C3::V1, _ => C3::V2 } }
    const D: &'static [u32] = &[0, 1, 2];
}
const _: () = { assert!(C3::V0 as u32 == 0); assert!(C3::V1 as u32 == 1); assert!(C3::V2 as u32 == 2); };
impl core::fmt::Display for C3 { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { match self { C3::V0 => f.write_str("d0"), C3::V1 => f.write_str("d1"), C3::V2 => f.write_str("d2"), } } }

#[derive(EnumSetType, Debug)]
pub enum C12 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11 }
impl Fam<1> for C12 {
    fn nth(i: usize) -> Self { match i { 0 => C12::V0, 1 => C12::V1, 2 => C12::V2, 3 => C12::V3, 4 => C12::V4, 5 => C12::V5, 6 => C12::V6, 7 => C12::V7, 8 => C12::V8, 9 => C12::V9, 10 => C12::V10, _ => C12::V11 } }
    const D: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11];
}
const _: () = { assert!(C12::V0 as u32 == 0); assert!(C12::V1 as u32 == 1); assert!(C12::V2 as u32 == 2); assert!(C12::V3 as u32 == 3); assert!(C12::V4 as u32 == 4); assert!(C12::V5 as u32 == 5); assert!(C12::V6 as u32 == 6); assert!(C12::V7 as u32 == 7); assert!(C12::V8 as u32 == 8); assert!(C12::V9 as u32 == 9); assert!(C12::V10 as u32 == 10); assert!(C12::V11 as u32 == 11); };
impl core::fmt::Display for C12 { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { match self { C12::V0 => f.write_str("d0"), C12::V1 => f.write_str("d1"), C12::V2 => f.write_str("d2"), C12::V3 => f.write_str("d3"), C12::V4 => f.write_str("d4"), C12::V5 => f.write_str("d5"), C12::V6 => f.write_str("d6"), C12::V7 => f.write_str("d7"), C12::V8 => f.write_str("d8"), C12::V9 => f.write_str("d9"), C12::V10 => f.write_str("d10"), C12::V11 => f.write_str("d11"), } } }

#[derive(EnumSetType, Debug)]
pub enum C20 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19 }
impl Fam<1> for C20 {
    fn nth(i: usize) -> Self { match i { 0 => C20::V0, 1 => C20::V1, 2 => C20::V2, 3 => C20::V3, 4 => C20::V4, 5 => C20::V5, 6 => C20::V6, 7 => C20::V7, 8 => C20::V8, 9 => C20::V9, 10 => C20::V10, 11 => C20::V11, 12 => C20::V12, 13 => C20::V13, 14 => C20::V14, 15 => C20::V15, 16 => C20::V16, 17 => C20::V17, 18 => C20::V18, _ => C20::V19 } }
    const D: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19];
}
const _: () = { assert!(C20::V0 as u32 == 0); assert!(C20::V1 as u32 == 1); assert!(C20::V2 as u32 == 2); assert!(C20::V3 as u32 == 3); assert!(C20::V4 as u32 == 4); assert!(C20::V5 as u32 == 5); assert!(C20::V6 as u32 == 6); assert!(C20::V7 as u32 == 7); assert!(C20::V8 as u32 == 8); assert!(C20::V9 as u32 == 9); assert!(C20::V10 as u32 == 10); assert!(C20::V11 as u32 == 11); assert!(C20::V12 as u32 == 12); assert!(C20::V13 as u32 == 13); assert!(C20::V14 as u32 == 14); assert!(C20::V15 as u32 == 15); assert!(C20::V16 as u32 == 16); assert!(C20::V17 as u32 == 17); assert!(C20::V18 as u32 == 18); assert!(C20::V19 as u32 == 19); };
impl core::fmt::Display for C20 { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { match self { C20::V0 => f.write_str("d0"), C20::V1 => f.write_str("d1"), C20::V2 => f.write_str("d2"), C20::V3 => f.write_str("d3"), C20::V4 => f.write_str("d4"), C20::V5 => f.write_str("d5"), C20::V6 => f.write_str("d6"), C20::V7 => f.write_str("d7"), C20::V8 => f.write_str("d8"), C20::V9 => f.write_str("d9"), C20::V10 => f.write_str("d10"), C20::V11 => f.write_str("d11"), C20::V12 => f.write_str("d12"), C20::V13 => f.write_str("d13"), C20::V14 => f.write_str("d14"), C20::V15 => f.write_str("d15"), C20::V16 => f.write_str("d16"), C20::V17 => f.write_str("d17"), C20::V18 => f.write_str("d18"), C20::V19 => f.write_str("d19"), } } }

#[derive(EnumSetType, Debug)]
pub enum C40 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39 }
impl Fam<1> for C40 {
    fn nth(i: usize) -> Self { match i { 0 => C40::V0, 1 => C40::V1, 2 => C40::V2, 3 => C40::V3, 4 => C40::V4, 5 => C40::V5, 6 => C40::V6, 7 => C40::V7, 8 => C40::V8, 9 => C40::V9, 10 => C40::V10, 11 => C40::V11, 12 => C40::V12, 13 => C40::V13, 14 => C40::V14, 15 => C40::V15, 16 => C40::V16, 17 => C40::V17, 18 => C40::V18, 19 => C40::V19, 20 => C40::V20, 21 => C40::V21, 22 => C40::V22, 23 => C40::V23, 24 => C40::V24, 25 => C40::V25, 26 => C40::V26, 27 => C40::V27, 28 => C40::V28, 29 => C40::V29, 30 => C40::V30, 31 => C40::V31, 32 => C40::V32, 33 => C40::V33, 34 => C40::V34, 35 => C40::V35, 36 => C40::V36, 37 => C40::V37, 38 => C40::V38, _ => C40::V39 } }
    const D: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39];
}
const _: () = { assert!(C40::V0 as u32 == 0); assert!(C40::V1 as u32 == 1); assert!(C40::V2 as u32 == 2); assert!(C40::V3 as u32 == 3); assert!(C40::V4 as u32 == 4); assert!(C40::V5 as u32 == 5); assert!(C40::V6 as u32 == 6); assert!(C40::V7 as u32 == 7); assert!(C40::V8 as u32 == 8); assert!(C40::V9 as u32 == 9); assert!(C40::V10 as u32 == 10); assert!(C40::V11 as u32 == 11); assert!(C40::V12 as u32 == 12); assert!(C40::V13 as u32 == 13); assert!(C40::V14 as u32 == 14); assert!(C40::V15 as u32 == 15); assert!(C40::V16 as u32 == 16); assert!(C40::V17 as u32 == 17); assert!(C40::V18 as u32 == 18); assert!(C40::V19 as u32 == 19); assert!(C40::V20 as u32 == 20); assert!(C40::V21 as u32 == 21); assert!(C40::V22 as u32 == 22); assert!(C40::V23 as u32 == 23); assert!(C40::V24 as u32 == 24); assert!(C40::V25 as u32 == 25); assert!(C40::V26 as u32 == 26); assert!(C40::V27 as u32 == 27); assert!(C40::V28 as u32 == 28); assert!(C40::V29 as u32 == 29); assert!(C40::V30 as u32 == 30); assert!(C40::V31 as u32 == 31); assert!(C40::V32 as u32 == 32); assert!(C40::V33 as u32 == 33); assert!(C40::V34 as u32 == 34); assert!(C40::V35 as u32 == 35); assert!(C40::V36 as u32 == 36); assert!(C40::V37 as u32 == 37); assert!(C40::V38 as u32 == 38); assert!(C40::V39 as u32 == 39); };
impl core::fmt::Display for C40 { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { match self { C40::V0 => f.write_str("d0"), C40::V1 => f.write_str("d1"), C40::V2 => f.write_str("d2"), C40::V3 => f.write_str("d3"), C40::V4 => f.write_str("d4"), C40::V5 => f.write_str("d5"), C40::V6 => f.write_str("d6"), C40::V7 => f.write_str("d7"), C40::V8 => f.write_str("d8"), C40::V9 => f.write_str("d9"), C40::V10 => f.write_str("d10"), C40::V11 => f.write_str("d11"), C40::V12 => f.write_str("d12"), C40::V13 => f.write_str("d13"), C40::V14 => f.write_str("d14"), C40::V15 => f.write_str("d15"), C40::V16 => f.write_str("d16"), C40::V17 => f.write_str("d17"), C40::V18 => f.write_str("d18"), C40::V19 => f.write_str("d19"), C40::V20 => f.write_str("d20"), C40::V21 => f.write_str("d21"), C40::V22 => f.write_str("d22"), C40::V23 => f.write_str("d23"), C40::V24 => f.write_str("d24"), C40::V25 => f.write_str("d25"), C40::V26 => f.write_str("d26"), C40::V27 => f.write_str("d27"), C40::V28 => f.write_str("d28"), C40::V29 => f.write_str("d29"), C40::V30 => f.write_str("d30"), C40::V31 => f.write_str("d31"), C40::V32 => f.write_str("d32"), C40::V33 => f.write_str("d33"), C40::V34 => f.write_str("d34"), C40::V35 => f.write_str("d35"), C40::V36 => f.write_str("d36"), C40::V37 => f.write_str("d37"), C40::V38 => f.write_str("d38"), C40::V39 => f.write_str("d39"), } } }

#[derive(EnumSetType, Debug)]
pub enum C70 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69 }
impl Fam<2> for C70 {
    fn nth(i: usize) -> Self { match i { 0 => C70::V0, 1 => C70::V1, 2 => C70::V2, 3 => C70::V3, 4 => C70::V4, 5 => C70::V5, 6 => C70::V6, 7 => C70::V7, 8 => C70::V8, 9 => C70::V9, 10 => C70::V10, 11 => C70::V11, 12 => C70::V12, 13 => C70::V13, 14 => C70::V14, 15 => C70::V15, 16 => C70::V16, 17 => C70::V17, 18 => C70::V18, 19 => C70::V19, 20 => C70::V20, 21 => C70::V21, 22 => C70::V22, 23 => C70::V23, 24 => C70::V24, 25 => C70::V25, 26 => C70::V26, 27 => C70::V27, 28 => C70::V28, 29 => C70::V29, 30 => C70::V30, 31 => C70::V31, 32 => C70::V32, 33 => C70::V33, 34 => C70::V34, 35 => C70::V35, 36 => C70::V36, 37 => C70::V37, 38 => C70::V38, 39 => C70::V39, 40 => C70::V40, 41 => C70::V41, 42 => C70::V42, 43 => C70::V43, 44 => C70::V44, 45 => C70::V45, 46 => C70::V46, 47 => C70::V47, 48 => C70::V48, 49 => C70::V49, 50 => C70::V50, 51 => C70::V51, 52 => C70::V52, 53 => C70::V53, 54 => C70::V54, 55 => C70::V55, 56 => C70::V56, 57 => C70::V57, 58 => C70::V58, 59 => C70::V59, 60 => C70::V60, 61 => C70::V61, 62 => C70::V62, 63 => C70::V63, 64 => C70::V64, 65 => C70::V65, 66 => C70::V66, 67 => C70::V67, 68 => C70::V68, _ => C70::V69 } }
    const D: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69];
}
const _: () = { assert!(C70::V0 as u32 == 0); assert!(C70::V1 as u32 == 1); assert!(C70::V2 as u32 == 2); assert!(C70::V3 as u32 == 3); assert!(C70::V4 as u32 == 4); assert!(C70::V5 as u32 == 5); assert!(C70::V6 as u32 == 6); assert!(C70::V7 as u32 == 7); assert!(C70::V8 as u32 == 8); assert!(C70::V9 as u32 == 9); assert!(C70::V10 as u32 == 10); assert!(C70::V11 as u32 == 11); assert!(C70::V12 as u32 == 12); assert!(C70::V13 as u32 == 13); assert!(C70::V14 as u32 == 14); assert!(C70::V15 as u32 == 15); assert!(C70::V16 as u32 == 16); assert!(C70::V17 as u32 == 17); assert!(C70::V18 as u32 == 18); assert!(C70::V19 as u32 == 19); assert!(C70::V20 as u32 == 20); assert!(C70::V21 as u32 == 21); assert!(C70::V22 as u32 == 22); assert!(C70::V23 as u32 == 23); assert!(C70::V24 as u32 == 24); assert!(C70::V25 as u32 == 25); assert!(C70::V26 as u32 == 26); assert!(C70::V27 as u32 == 27); assert!(C70::V28 as u32 == 28); assert!(C70::V29 as u32 == 29); assert!(C70::V30 as u32 == 30); assert!(C70::V31 as u32 == 31); assert!(C70::V32 as u32 == 32); assert!(C70::V33 as u32 == 33); assert!(C70::V34 as u32 == 34); assert!(C70::V35 as u32 == 35); assert!(C70::V36 as u32 == 36); assert!(C70::V37 as u32 == 37); assert!(C70::V38 as u32 == 38); assert!(C70::V39 as u32 == 39); assert!(C70::V40 as u32 == 40); assert!(C70::V41 as u32 == 41); assert!(C70::V42 as u32 == 42); assert!(C70::V43 as u32 == 43); assert!(C70::V44 as u32 == 44); assert!(C70::V45 as u32 == 45); assert!(C70::V46 as u32 == 46); assert!(C70::V47 as u32 == 47); assert!(C70::V48 as u32 == 48); assert!(C70::V49 as u32 == 49); assert!(C70::V50 as u32 == 50); assert!(C70::V51 as u32 == 51); assert!(C70::V52 as u32 == 52); assert!(C70::V53 as u32 == 53); assert!(C70::V54 as u32 == 54); assert!(C70::V55 as u32 == 55); assert!(C70::V56 as u32 == 56); assert!(C70::V57 as u32 == 57); assert!(C70::V58 as u32 == 58); assert!(C70::V59 as u32 == 59); assert!(C70::V60 as u32 == 60); assert!(C70::V61 as u32 == 61); assert!(C70::V62 as u32 == 62); assert!(C70::V63 as u32 == 63); assert!(C70::V64 as u32 == 64); assert!(C70::V65 as u32 == 65); assert!(C70::V66 as u32 == 66); assert!(C70::V67 as u32 == 67); assert!(C70::V68 as u32 == 68); assert!(C70::V69 as u32 == 69); };
impl core::fmt::Display for C70 { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { match self { C70::V0 => f.write_str("d0"), C70::V1 => f.write_str("d1"), C70::V2 => f.write_str("d2"), C70::V3 => f.write_str("d3"), C70::V4 => f.write_str("d4"), C70::V5 => f.write_str("d5"), C70::V6 => f.write_str("d6"), C70::V7 => f.write_str("d7"), C70::V8 => f.write_str("d8"), C70::V9 => f.write_str("d9"), C70::V10 => f.write_str("d10"), C70::V11 => f.write_str("d11"), C70::V12 => f.write_str("d12"), C70::V13 => f.write_str("d13"), C70::V14 => f.write_str("d14"), C70::V15 => f.write_str("d15"), C70::V16 => f.write_str("d16"), C70::V17 => f.write_str("d17"), C70::V18 => f.write_str("d18"), C70::V19 => f.write_str("d19"), C70::V20 => f.write_str("d20"), C70::V21 => f.write_str("d21"), C70::V22 => f.write_str("d22"), C70::V23 => f.write_str("d23"), C70::V24 => f.write_str("d24"), C70::V25 => f.write_str("d25"), C70::V26 => f.write_str("d26"), C70::V27 => f.write_str("d27"), C70::V28 => f.write_str("d28"), C70::V29 => f.write_str("d29"), C70::V30 => f.write_str("d30"), C70::V31 => f.write_str("d31"), C70::V32 => f.write_str("d32"), C70::V33 => f.write_str("d33"), C70::V34 => f.write_str("d34"), C70::V35 => f.write_str("d35"), C70::V36 => f.write_str("d36"), C70::V37 => f.write_str("d37"), C70::V38 => f.write_str("d38"), C70::V39 => f.write_str("d39"), C70::V40 => f.write_str("d40"), C70::V41 => f.write_str("d41"), C70::V42 => f.write_str("d42"), C70::V43 => f.write_str("d43"), C70::V44 => f.write_str("d44"), C70::V45 => f.write_str("d45"), C70::V46 => f.write_str("d46"), C70::V47 => f.write_str("d47"), C70::V48 => f.write_str("d48"), C70::V49 => f.write_str("d49"), C70::V50 => f.write_str("d50"), C70::V51 => f.write_str("d51"), C70::V52 => f.write_str("d52"), C70::V53 => f.write_str("d53"), C70::V54 => f.write_str("d54"), C70::V55 => f.write_str("d55"), C70::V56 => f.write_str("d56"), C70::V57 => f.write_str("d57"), C70::V58 => f.write_str("d58"), C70::V59 => f.write_str("d59"), C70::V60 => f.write_str("d60"), C70::V61 => f.write_str("d61"), C70::V62 => f.write_str("d62"), C70::V63 => f.write_str("d63"), C70::V64 => f.write_str("d64"), C70::V65 => f.write_str("d65"), C70::V66 => f.write_str("d66"), C70::V67 => f.write_str("d67"), C70::V68 => f.write_str("d68"), C70::V69 => f.write_str("d69"), } } }

#[derive(EnumSetType, Debug)]
pub enum C130 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127, V128, V129 }
impl Fam<3> for C130 {
    fn nth(i: usize) -> Self { match i { 0 => C130::V0, 1 => C130::V1, 2 => C130::V2, 3 => C130::V3, 4 => C130::V4, 5 => C130::V5, 6 => C130::V6, 7 => C130::V7, 8 => C130::V8, 9 => C130::V9, 10 => C130::V10, 11 => C130::V11, 12 => C130::V12, 13 => C130::V13, 14 => C130::V14, 15 => C130::V15, 16 => C130::V16, 17 => C130::V17, 18 => C130::V18, 19 => C130::V19, 20 => C130::V20, 21 => C130::V21, 22 => C130::V22, 23 => C130::V23, 24 => C130::V24, 25 => C130::V25, 26 => C130::V26, 27 => C130::V27, 28 => C130::V28, 29 => C130::V29, 30 => C130::V30, 31 => C130::V31, 32 => C130::V32, 33 => C130::V33, 34 => C130::V34, 35 => C130::V35, 36 => C130::V36, 37 => C130::V37, 38 => C130::V38, 39 => C130::V39, 40 => C130::V40, 41 => C130::V41, 42 => C130::V42, 43 => C130::V43, 44 => C130::V44, 45 => C130::V45, 46 => C130::V46, 47 => C130::V47, 48 => C130::V48, 49 => C130::V49, 50 => C130::V50, 51 => C130::V51, 52 => C130::V52, 53 => C130::V53, 54 => C130::V54, 55 => C130::V55, 56 => C130::V56, 57 => C130::V57, 58 => C130::V58, 59 => C130::V59, 60 => C130::V60, 61 => C130::V61, 62 => C130::V62, 63 => C130::V63, 64 => C130::V64, 65 => C130::V65, 66 => C130::V66, 67 => C130::V67, 68 => C130::V68, 69 => C130::V69, 70 => C130::V70, 71 => C130::V71, 72 => C130::V72, 73 => C130::V73, 74 => C130::V74, 75 => C130::V75, 76 => C130::V76, 77 => C130::V77, 78 => C130::V78, 79 => C130::V79, 80 => C130::V80, 81 => C130::V81, 82 => C130::V82, 83 => C130::V83, 84 => C130::V84, 85 => C130::V85, 86 => C130::V86, 87 => C130::V87, 88 => C130::V88, 89 => C130::V89, 90 => C130::V90, 91 => C130::V91, 92 => C130::V92, 93 => C130::V93, 94 => C130::V94, 95 => C130::V95, 96 => C130::V96, 97 => C130::V97, 98 => C130::V98, 99 => C130::V99, 100 => C130::V100, 101 => C130::V101, 102 => C130::V102, 103 => C130::V103, 104 => C130::V104, 105 => C130::V105, 106 => C130::V106, 107 => C130::V107, 108 => C130::V108, 109 => C130::V109, 110 => C130::V110, 111 => C130::V111, 112 => C130::V112, 113 => C130::V113, 114 => C130::V114, 115 => C130::V115, 116 => C130::V116, 117 => C130::V117, 118 => C130::V118, 119 => C130::V119, 120 => C130::V120, 121 => C130::V121, 122 => C130::V122, 123 => C130::V123, 124 => C130::V124, 125 => C130::V125, 126 => C130::V126, 127 => C130::V127, 128 => C130::V128, _ => C130::V129 } }
    const D: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129];
}
const _: () = { assert!(C130::V0 as u32 == 0); assert!(C130::V1 as u32 == 1); assert!(C130::V2 as u32 == 2); assert!(C130::V3 as u32 == 3); assert!(C130::V4 as u32 == 4); assert!(C130::V5 as u32 == 5); assert!(C130::V6 as u32 == 6); assert!(C130::V7 as u32 == 7); assert!(C130::V8 as u32 == 8); assert!(C130::V9 as u32 == 9); assert!(C130::V10 as u32 == 10); assert!(C130::V11 as u32 == 11); assert!(C130::V12 as u32 == 12); assert!(C130::V13 as u32 == 13); assert!(C130::V14 as u32 == 14); assert!(C130::V15 as u32 == 15); assert!(C130::V16 as u32 == 16); assert!(C130::V17 as u32 == 17); assert!(C130::V18 as u32 == 18); assert!(C130::V19 as u32 == 19); assert!(C130::V20 as u32 == 20); assert!(C130::V21 as u32 == 21); assert!(C130::V22 as u32 == 22); assert!(C130::V23 as u32 == 23); assert!(C130::V24 as u32 == 24); assert!(C130::V25 as u32 == 25); assert!(C130::V26 as u32 == 26); assert!(C130::V27 as u32 == 27); assert!(C130::V28 as u32 == 28); assert!(C130::V29 as u32 == 29); assert!(C130::V30 as u32 == 30); assert!(C130::V31 as u32 == 31); assert!(C130::V32 as u32 == 32); assert!(C130::V33 as u32 == 33); assert!(C130::V34 as u32 == 34); assert!(C130::V35 as u32 == 35); assert!(C130::V36 as u32 == 36); assert!(C130::V37 as u32 == 37); assert!(C130::V38 as u32 == 38); assert!(C130::V39 as u32 == 39); assert!(C130::V40 as u32 == 40); assert!(C130::V41 as u32 == 41); assert!(C130::V42 as u32 == 42); assert!(C130::V43 as u32 == 43); assert!(C130::V44 as u32 == 44); assert!(C130::V45 as u32 == 45); assert!(C130::V46 as u32 == 46); assert!(C130::V47 as u32 == 47); assert!(C130::V48 as u32 == 48); assert!(C130::V49 as u32 == 49); assert!(C130::V50 as u32 == 50); assert!(C130::V51 as u32 == 51); assert!(C130::V52 as u32 == 52); assert!(C130::V53 as u32 == 53); assert!(C130::V54 as u32 == 54); assert!(C130::V55 as u32 == 55); assert!(C130::V56 as u32 == 56); assert!(C130::V57 as u32 == 57); assert!(C130::V58 as u32 == 58); assert!(C130::V59 as u32 == 59); assert!(C130::V60 as u32 == 60); assert!(C130::V61 as u32 == 61); assert!(C130::V62 as u32 == 62); assert!(C130::V63 as u32 == 63); assert!(C130::V64 as u32 == 64); assert!(C130::V65 as u32 == 65); assert!(C130::V66 as u32 == 66); assert!(C130::V67 as u32 == 67); assert!(C130::V68 as u32 == 68); assert!(C130::V69 as u32 == 69); assert!(C130::V70 as u32 == 70); assert!(C130::V71 as u32 == 71); assert!(C130::V72 as u32 == 72); assert!(C130::V73 as u32 == 73); assert!(C130::V74 as u32 == 74); assert!(C130::V75 as u32 == 75); assert!(C130::V76 as u32 == 76); assert!(C130::V77 as u32 == 77); assert!(C130::V78 as u32 == 78); assert!(C130::V79 as u32 == 79); assert!(C130::V80 as u32 == 80); assert!(C130::V81 as u32 == 81); assert!(C130::V82 as u32 == 82); assert!(C130::V83 as u32 == 83); assert!(C130::V84 as u32 == 84); assert!(C130::V85 as u32 == 85); assert!(C130::V86 as u32 == 86); assert!(C130::V87 as u32 == 87); assert!(C130::V88 as u32 == 88); assert!(C130::V89 as u32 == 89); assert!(C130::V90 as u32 == 90); assert!(C130::V91 as u32 == 91); assert!(C130::V92 as u32 == 92); assert!(C130::V93 as u32 == 93); assert!(C130::V94 as u32 == 94); assert!(C130::V95 as u32 == 95); assert!(C130::V96 as u32 == 96); assert!(C130::V97 as u32 == 97); assert!(C130::V98 as u32 == 98); assert!(C130::V99 as u32 == 99); assert!(C130::V100 as u32 == 100); assert!(C130::V101 as u32 == 101); assert!(C130::V102 as u32 == 102); assert!(C130::V103 as u32 == 103); assert!(C130::V104 as u32 == 104); assert!(C130::V105 as u32 == 105); assert!(C130::V106 as u32 == 106); assert!(C130::V107 as u32 == 107); assert!(C130::V108 as u32 == 108); assert!(C130::V109 as u32 == 109); assert!(C130::V110 as u32 == 110); assert!(C130::V111 as u32 == 111); assert!(C130::V112 as u32 == 112); assert!(C130::V113 as u32 == 113); assert!(C130::V114 as u32 == 114); assert!(C130::V115 as u32 == 115); assert!(C130::V116 as u32 == 116); assert!(C130::V117 as u32 == 117); assert!(C130::V118 as u32 == 118); assert!(C130::V119 as u32 == 119); assert!(C130::V120 as u32 == 120); assert!(C130::V121 as u32 == 121); assert!(C130::V122 as u32 == 122); assert!(C130::V123 as u32 == 123); assert!(C130::V124 as u32 == 124); assert!(C130::V125 as u32 == 125); assert!(C130::V126 as u32 == 126); assert!(C130::V127 as u32 == 127); assert!(C130::V128 as u32 == 128); assert!(C130::V129 as u32 == 129); };
impl core::fmt::Display for C130 { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { match self { C130::V0 => f.write_str("d0"), C130::V1 => f.write_str("d1"), C130::V2 => f.write_str("d2"), C130::V3 => f.write_str("d3"), C130::V4 => f.write_str("d4"), C130::V5 => f.write_str("d5"), C130::V6 => f.write_str("d6"), C130::V7 => f.write_str("d7"), C130::V8 => f.write_str("d8"), C130::V9 => f.write_str("d9"), C130::V10 => f.write_str("d10"), C130::V11 => f.write_str("d11"), C130::V12 => f.write_str("d12"), C130::V13 => f.write_str("d13"), C130::V14 => f.write_str("d14"), C130::V15 => f.write_str("d15"), C130::V16 => f.write_str("d16"), C130::V17 => f.write_str("d17"), C130::V18 => f.write_str("d18"), C130::V19 => f.write_str("d19"), C130::V20 => f.write_str("d20"), C130::V21 => f.write_str("d21"), C130::V22 => f.write_str("d22"), C130::V23 => f.write_str("d23"), C130::V24 => f.write_str("d24"), C130::V25 => f.write_str("d25"), C130::V26 => f.write_str("d26"), C130::V27 => f.write_str("d27"), C130::V28 => f.write_str("d28"), C130::V29 => f.write_str("d29"), C130::V30 => f.write_str("d30"), C130::V31 => f.write_str("d31"), C130::V32 => f.write_str("d32"), C130::V33 => f.write_str("d33"), C130::V34 => f.write_str("d34"), C130::V35 => f.write_str("d35"), C130::V36 => f.write_str("d36"), C130::V37 => f.write_str("d37"), C130::V38 => f.write_str("d38"), C130::V39 => f.write_str("d39"), C130::V40 => f.write_str("d40"), C130::V41 => f.write_str("d41"), C130::V42 => f.write_str("d42"), C130::V43 => f.write_str("d43"), C130::V44 => f.write_str("d44"), C130::V45 => f.write_str("d45"), C130::V46 => f.write_str("d46"), C130::V47 => f.write_str("d47"), C130::V48 => f.write_str("d48"), C130::V49 => f.write_str("d49"), C130::V50 => f.write_str("d50"), C130::V51 => f.write_str("d51"), C130::V52 => f.write_str("d52"), C130::V53 => f.write_str("d53"), C130::V54 => f.write_str("d54"), C130::V55 => f.write_str("d55"), C130::V56 => f.write_str("d56"), C130::V57 => f.write_str("d57"), C130::V58 => f.write_str("d58"), C130::V59 => f.write_str("d59"), C130::V60 => f.write_str("d60"), C130::V61 => f.write_str("d61"), C130::V62 => f.write_str("d62"), C130::V63 => f.write_str("d63"), C130::V64 => f.write_str("d64"), C130::V65 => f.write_str("d65"), C130::V66 => f.write_str("d66"), C130::V67 => f.write_str("d67"), C130::V68 => f.write_str("d68"), C130::V69 => f.write_str("d69"), C130::V70 => f.write_str("d70"), C130::V71 => f.write_str("d71"), C130::V72 => f.write_str("d72"), C130::V73 => f.write_str("d73"), C130::V74 => f.write_str("d74"), C130::V75 => f.write_str("d75"), C130::V76 => f.write_str("d76"), C130::V77 => f.write_str("d77"), C130::V78 => f.write_str("d78"), C130::V79 => f.write_str("d79"), C130::V80 => f.write_str("d80"), C130::V81 => f.write_str("d81"), C130::V82 => f.write_str("d82"), C130::V83 => f.write_str("d83"), C130::V84 => f.write_str("d84"), C130::V85 => f.write_str("d85"), C130::V86 => f.write_str("d86"), C130::V87 => f.write_str("d87"), C130::V88 => f.write_str("d88"), C130::V89 => f.write_str("d89"), C130::V90 => f.write_str("d90"), C130::V91 => f.write_str("d91"), C130::V92 => f.write_str("d92"), C130::V93 => f.write_str("d93"), C130::V94 => f.write_str("d94"), C130::V95 => f.write_str("d95"), C130::V96 => f.write_str("d96"), C130::V97 => f.write_str("d97"), C130::V98 => f.write_str("d98"), C130::V99 => f.write_str("d99"), C130::V100 => f.write_str("d100"), C130::V101 => f.write_str("d101"), C130::V102 => f.write_str("d102"), C130::V103 => f.write_str("d103"), C130::V104 => f.write_str("d104"), C130::V105 => f.write_str("d105"), C130::V106 => f.write_str("d106"), C130::V107 => f.write_str("d107"), C130::V108 => f.write_str("d108"), C130::V109 => f.write_str("d109"), C130::V110 => f.write_str("d110"), C130::V111 => f.write_str("d111"), C130::V112 => f.write_str("d112"), C130::V113 => f.write_str("d113"), C130::V114 => f.write_str("d114"), C130::V115 => f.write_str("d115"), C130::V116 => f.write_str("d116"), C130::V117 => f.write_str("d117"), C130::V118 => f.write_str("d118"), C130::V119 => f.write_str("d119"), C130::V120 => f.write_str("d120"), C130::V121 => f.write_str("d121"), C130::V122 => f.write_str("d122"), C130::V123 => f.write_str("d123"), C130::V124 => f.write_str("d124"), C130::V125 => f.write_str("d125"), C130::V126 => f.write_str("d126"), C130::V127 => f.write_str("d127"), C130::V128 => f.write_str("d128"), C130::V129 => f.write_str("d129"), } } }

#[derive(EnumSetType, Debug)]
#[enumset(repr = "u8")]
pub enum R8C { V0, V1, V2, V3, V4 }
impl Fam<1> for R8C {
    fn nth(i: usize) -> Self { match i { 0 => R8C::V0, 1 => R8C::V1, 2 => R8C::V2, 3 => R8C::V3, _ => R8C::V4 } }
    const D: &'static [u32] = &[0, 1, 2, 3, 4];
}
const _: () = { assert!(R8C::V0 as u32 == 0); assert!(R8C::V1 as u32 == 1); assert!(R8C::V2 as u32 == 2); assert!(R8C::V3 as u32 == 3); assert!(R8C::V4 as u32 == 4); };
impl core::fmt::Display for R8C { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { match self { R8C::V0 => f.write_str("d0"), R8C::V1 => f.write_str("d1"), R8C::V2 => f.write_str("d2"), R8C::V3 => f.write_str("d3"), R8C::V4 => f.write_str("d4"), } } }

#[derive(EnumSetType, Debug)]
#[enumset(repr = "u16")]
pub enum R16C { V0, V1, V2, V3, V4, V5, V6, V7, V8 }
impl Fam<1> for R16C {
    fn nth(i: usize) -> Self { match i { 0 => R16C::V0, 1 => R16C::V1, 2 => R16C::V2, 3 => R16C::V3, 4 => R16C::V4, 5 => R16C::V5, 6 => R16C::V6, 7 => R16C::V7, _ => R16C::V8 } }
    const D: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8];
}
const _: () = { assert!(R16C::V0 as u32 == 0); assert!(R16C::V1 as u32 == 1); assert!(R16C::V2 as u32 == 2); assert!(R16C::V3 as u32 == 3); assert!(R16C::V4 as u32 == 4); assert!(R16C::V5 as u32 == 5); assert!(R16C::V6 as u32 == 6); assert!(R16C::V7 as u32 == 7); assert!(R16C::V8 as u32 == 8); };
impl core::fmt::Display for R16C { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { match self { R16C::V0 => f.write_str("d0"), R16C::V1 => f.write_str("d1"), R16C::V2 => f.write_str("d2"), R16C::V3 => f.write_str("d3"), R16C::V4 => f.write_str("d4"), R16C::V5 => f.write_str("d5"), R16C::V6 => f.write_str("d6"), R16C::V7 => f.write_str("d7"), R16C::V8 => f.write_str("d8"), } } }

#[derive(EnumSetType, Debug)]
#[enumset(repr = "u32")]
pub enum R32C { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19 }
impl Fam<1> for R32C {
    fn nth(i: usize) -> Self { match i { 0 => R32C::V0, 1 => R32C::V1, 2 => R32C::V2, 3 => R32C::V3, 4 => R32C::V4, 5 => R32C::V5, 6 => R32C::V6, 7 => R32C::V7, 8 => R32C::V8, 9 => R32C::V9, 10 => R32C::V10, 11 => R32C::V11, 12 => R32C::V12, 13 => R32C::V13, 14 => R32C::V14, 15 => R32C::V15, 16 => R32C::V16, 17 => R32C::V17, 18 => R32C::V18, _ => R32C::V19 } }
    const D: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19];
}
const _: () = { assert!(R32C::V0 as u32 == 0); assert!(R32C::V1 as u32 == 1); assert!(R32C::V2 as u32 == 2); assert!(R32C::V3 as u32 == 3); assert!(R32C::V4 as u32 == 4); assert!(R32C::V5 as u32 == 5); assert!(R32C::V6 as u32 == 6); assert!(R32C::V7 as u32 == 7); assert!(R32C::V8 as u32 == 8); assert!(R32C::V9 as u32 == 9); assert!(R32C::V10 as u32 == 10); assert!(R32C::V11 as u32 == 11); assert!(R32C::V12 as u32 == 12); assert!(R32C::V13 as u32 == 13); assert!(R32C::V14 as u32 == 14); assert!(R32C::V15 as u32 == 15); assert!(R32C::V16 as u32 == 16); assert!(R32C::V17 as u32 == 17); assert!(R32C::V18 as u32 == 18); assert!(R32C::V19 as u32 == 19); };
impl core::fmt::Display for R32C { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { match self { R32C::V0 => f.write_str("d0"), R32C::V1 => f.write_str("d1"), R32C::V2 => f.write_str("d2"), R32C::V3 => f.write_str("d3"), R32C::V4 => f.write_str("d4"), R32C::V5 => f.write_str("d5"), R32C::V6 => f.write_str("d6"), R32C::V7 => f.write_str("d7"), R32C::V8 => f.write_str("d8"), R32C::V9 => f.write_str("d9"), R32C::V10 => f.write_str("d10"), R32C::V11 => f.write_str("d11"), R32C::V12 => f.write_str("d12"), R32C::V13 => f.write_str("d13"), R32C::V14 => f.write_str("d14"), R32C::V15 => f.write_str("d15"), R32C::V16 => f.write_str("d16"), R32C::V17 => f.write_str("d17"), R32C::V18 => f.write_str("d18"), R32C::V19 => f.write_str("d19"), } } }

#[derive(EnumSetType, Debug)]
#[enumset(repr = "u64")]
pub enum R64C { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39 }
impl Fam<1> for R64C {
    fn nth(i: usize) -> Self { match i { 0 => R64C::V0, 1 => R64C::V1, 2 => R64C::V2, 3 => R64C::V3, 4 => R64C::V4, 5 => R64C::V5, 6 => R64C::V6, 7 => R64C::V7, 8 => R64C::V8, 9 => R64C::V9, 10 => R64C::V10, 11 => R64C::V11, 12 => R64C::V12, 13 => R64C::V13, 14 => R64C::V14, 15 => R64C::V15, 16 => R64C::V16, 17 => R64C::V17, 18 => R64C::V18, 19 => R64C::V19, 20 => R64C::V20, 21 => R64C::V21, 22 => R64C::V22, 23 => R64C::V23, 24 => R64C::V24, 25 => R64C::V25, 26 => R64C::V26, 27 => R64C::V27, 28 => R64C::V28, 29 => R64C::V29, 30 => R64C::V30, 31 => R64C::V31, 32 => R64C::V32, 33 => R64C::V33, 34 => R64C::V34, 35 => R64C::V35, 36 => R64C::V36, 37 => R64C::V37, 38 => R64C::V38, _ => R64C::V39 } }
    const D: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39];
}
const _: () = { assert!(R64C::V0 as u32 == 0); assert!(R64C::V1 as u32 == 1); assert!(R64C::V2 as u32 == 2); assert!(R64C::V3 as u32 == 3); assert!(R64C::V4 as u32 == 4); assert!(R64C::V5 as u32 == 5); assert!(R64C::V6 as u32 == 6); assert!(R64C::V7 as u32 == 7); assert!(R64C::V8 as u32 == 8); assert!(R64C::V9 as u32 == 9); assert!(R64C::V10 as u32 == 10); assert!(R64C::V11 as u32 == 11); assert!(R64C::V12 as u32 == 12); assert!(R64C::V13 as u32 == 13); assert!(R64C::V14 as u32 == 14); assert!(R64C::V15 as u32 == 15); assert!(R64C::V16 as u32 == 16); assert!(R64C::V17 as u32 == 17); assert!(R64C::V18 as u32 == 18); assert!(R64C::V19 as u32 == 19); assert!(R64C::V20 as u32 == 20); assert!(R64C::V21 as u32 == 21); assert!(R64C::V22 as u32 == 22); assert!(R64C::V23 as u32 == 23); assert!(R64C::V24 as u32 == 24); assert!(R64C::V25 as u32 == 25); assert!(R64C::V26 as u32 == 26); assert!(R64C::V27 as u32 == 27); assert!(R64C::V28 as u32 == 28); assert!(R64C::V29 as u32 == 29); assert!(R64C::V30 as u32 == 30); assert!(R64C::V31 as u32 == 31); assert!(R64C::V32 as u32 == 32); assert!(R64C::V33 as u32 == 33); assert!(R64C::V34 as u32 == 34); assert!(R64C::V35 as u32 == 35); assert!(R64C::V36 as u32 == 36); assert!(R64C::V37 as u32 == 37); assert!(R64C::V38 as u32 == 38); assert!(R64C::V39 as u32 == 39); };
impl core::fmt::Display for R64C { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { match self { R64C::V0 => f.write_str("d0"), R64C::V1 => f.write_str("d1"), R64C::V2 => f.write_str("d2"), R64C::V3 => f.write_str("d3"), R64C::V4 => f.write_str("d4"), R64C::V5 => f.write_str("d5"), R64C::V6 => f.write_str("d6"), R64C::V7 => f.write_str("d7"), R64C::V8 => f.write_str("d8"), R64C::V9 => f.write_str("d9"), R64C::V10 => f.write_str("d10"), R64C::V11 => f.write_str("d11"), R64C::V12 => f.write_str("d12"), R64C::V13 => f.write_str("d13"), R64C::V14 => f.write_str("d14"), R64C::V15 => f.write_str("d15"), R64C::V16 => f.write_str("d16"), R64C::V17 => f.write_str("d17"), R64C::V18 => f.write_str("d18"), R64C::V19 => f.write_str("d19"), R64C::V20 => f.write_str("d20"), R64C::V21 => f.write_str("d21"), R64C::V22 => f.write_str("d22"), R64C::V23 => f.write_str("d23"), R64C::V24 => f.write_str("d24"), R64C::V25 => f.write_str("d25"), R64C::V26 => f.write_str("d26"), R64C::V27 => f.write_str("d27"), R64C::V28 => f.write_str("d28"), R64C::V29 => f.write_str("d29"), R64C::V30 => f.write_str("d30"), R64C::V31 => f.write_str("d31"), R64C::V32 => f.write_str("d32"), R64C::V33 => f.write_str("d33"), R64C::V34 => f.write_str("d34"), R64C::V35 => f.write_str("d35"), R64C::V36 => f.write_str("d36"), R64C::V37 => f.write_str("d37"), R64C::V38 => f.write_str("d38"), R64C::V39 => f.write_str("d39"), } } }

#[derive(EnumSetType, Debug)]
#[enumset(repr = "u128")]
pub enum R128C { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99 }
impl Fam<2> for R128C {
    fn nth(i: usize) -> Self { match i { 0 => R128C::V0, 1 => R128C::V1, 2 => R128C::V2, 3 => R128C::V3, 4 => R128C::V4, 5 => R128C::V5, 6 => R128C::V6, 7 => R128C::V7, 8 => R128C::V8, 9 => R128C::V9, 10 => R128C::V10, 11 => R128C::V11, 12 => R128C::V12, 13 => R128C::V13, 14 => R128C::V14, 15 => R128C::V15, 16 => R128C::V16, 17 => R128C::V17, 18 => R128C::V18, 19 => R128C::V19, 20 => R128C::V20, 21 => R128C::V21, 22 => R128C::V22, 23 => R128C::V23, 24 => R128C::V24, 25 => R128C::V25, 26 => R128C::V26, 27 => R128C::V27, 28 => R128C::V28, 29 => R128C::V29, 30 => R128C::V30, 31 => R128C::V31, 32 => R128C::V32, 33 => R128C::V33, 34 => R128C::V34, 35 => R128C::V35, 36 => R128C::V36, 37 => R128C::V37, 38 => R128C::V38, 39 => R128C::V39, 40 => R128C::V40, 41 => R128C::V41, 42 => R128C::V42, 43 => R128C::V43, 44 => R128C::V44, 45 => R128C::V45, 46 => R128C::V46, 47 => R128C::V47, 48 => R128C::V48, 49 => R128C::V49, 50 => R128C::V50, 51 => R128C::V51, 52 => R128C::V52, 53 => R128C::V53, 54 => R128C::V54, 55 => R128C::V55, 56 => R128C::V56, 57 => R128C::V57, 58 => R128C::V58, 59 => R128C::V59, 60 => R128C::V60, 61 => R128C::V61, 62 => R128C::V62, 63 => R128C::V63, 64 => R128C::V64, 65 => R128C::V65, 66 => R128C::V66, 67 => R128C::V67, 68 => R128C::V68, 69 => R128C::V69, 70 => R128C::V70, 71 => R128C::V71, 72 => R128C::V72, 73 => R128C::V73, 74 => R128C::V74, 75 => R128C::V75, 76 => R128C::V76, 77 => R128C::V77, 78 => R128C::V78, 79 => R128C::V79, 80 => R128C::V80, 81 => R128C::V81, 82 => R128C::V82, 83 => R128C::V83, 84 => R128C::V84, 85 => R128C::V85, 86 => R128C::V86, 87 => R128C::V87, 88 => R128C::V88, 89 => R128C::V89, 90 => R128C::V90, 91 => R128C::V91, 92 => R128C::V92, 93 => R128C::V93, 94 => R128C::V94, 95 => R128C::V95, 96 => R128C::V96, 97 => R128C::V97, 98 => R128C::V98, _ => R128C::V99 } }
    const D: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99];
}
const _: () = { assert!(R128C::V0 as u32 == 0); assert!(R128C::V1 as u32 == 1); assert!(R128C::V2 as u32 == 2); assert!(R128C::V3 as u32 == 3); assert!(R128C::V4 as u32 == 4); assert!(R128C::V5 as u32 == 5); assert!(R128C::V6 as u32 == 6); assert!(R128C::V7 as u32 == 7); assert!(R128C::V8 as u32 == 8); assert!(R128C::V9 as u32 == 9); assert!(R128C::V10 as u32 == 10); assert!(R128C::V11 as u32 == 11); assert!(R128C::V12 as u32 == 12); assert!(R128C::V13 as u32 == 13); assert!(R128C::V14 as u32 == 14); assert!(R128C::V15 as u32 == 15); assert!(R128C::V16 as u32 == 16); assert!(R128C::V17 as u32 == 17); assert!(R128C::V18 as u32 == 18); assert!(R128C::V19 as u32 == 19); assert!(R128C::V20 as u32 == 20); assert!(R128C::V21 as u32 == 21); assert!(R128C::V22 as u32 == 22); assert!(R128C::V23 as u32 == 23); assert!(R128C::V24 as u32 == 24); assert!(R128C::V25 as u32 == 25); assert!(R128C::V26 as u32 == 26); assert!(R128C::V27 as u32 == 27); assert!(R128C::V28 as u32 == 28); assert!(R128C::V29 as u32 == 29); assert!(R128C::V30 as u32 == 30); assert!(R128C::V31 as u32 == 31); assert!(R128C::V32 as u32 == 32); assert!(R128C::V33 as u32 == 33); assert!(R128C::V34 as u32 == 34); assert!(R128C::V35 as u32 == 35); assert!(R128C::V36 as u32 == 36); assert!(R128C::V37 as u32 == 37); assert!(R128C::V38 as u32 == 38); assert!(R128C::V39 as u32 == 39); assert!(R128C::V40 as u32 == 40); assert!(R128C::V41 as u32 == 41); assert!(R128C::V42 as u32 == 42); assert!(R128C::V43 as u32 == 43); assert!(R128C::V44 as u32 == 44); assert!(R128C::V45 as u32 == 45); assert!(R128C::V46 as u32 == 46); assert!(R128C::V47 as u32 == 47); assert!(R128C::V48 as u32 == 48); assert!(R128C::V49 as u32 == 49); assert!(R128C::V50 as u32 == 50); assert!(R128C::V51 as u32 == 51); assert!(R128C::V52 as u32 == 52); assert!(R128C::V53 as u32 == 53); assert!(R128C::V54 as u32 == 54); assert!(R128C::V55 as u32 == 55); assert!(R128C::V56 as u32 == 56); assert!(R128C::V57 as u32 == 57); assert!(R128C::V58 as u32 == 58); assert!(R128C::V59 as u32 == 59); assert!(R128C::V60 as u32 == 60); assert!(R128C::V61 as u32 == 61); assert!(R128C::V62 as u32 == 62); assert!(R128C::V63 as u32 == 63); assert!(R128C::V64 as u32 == 64); assert!(R128C::V65 as u32 == 65); assert!(R128C::V66 as u32 == 66); assert!(R128C::V67 as u32 == 67); assert!(R128C::V68 as u32 == 68); assert!(R128C::V69 as u32 == 69); assert!(R128C::V70 as u32 == 70); assert!(R128C::V71 as u32 == 71); assert!(R128C::V72 as u32 == 72); assert!(R128C::V73 as u32 == 73); assert!(R128C::V74 as u32 == 74); assert!(R128C::V75 as u32 == 75); assert!(R128C::V76 as u32 == 76); assert!(R128C::V77 as u32 == 77); assert!(R128C::V78 as u32 == 78); assert!(R128C::V79 as u32 == 79); assert!(R128C::V80 as u32 == 80); assert!(R128C::V81 as u32 == 81); assert!(R128C::V82 as u32 == 82); assert!(R128C::V83 as u32 == 83); assert!(R128C::V84 as u32 == 84); assert!(R128C::V85 as u32 == 85); assert!(R128C::V86 as u32 == 86); assert!(R128C::V87 as u32 == 87); assert!(R128C::V88 as u32 == 88); assert!(R128C::V89 as u32 == 89); assert!(R128C::V90 as u32 == 90); assert!(R128C::V91 as u32 == 91); assert!(R128C::V92 as u32 == 92); assert!(R128C::V93 as u32 == 93); assert!(R128C::V94 as u32 == 94); assert!(R128C::V95 as u32 == 95); assert!(R128C::V96 as u32 == 96); assert!(R128C::V97 as u32 == 97); assert!(R128C::V98 as u32 == 98); assert!(R128C::V99 as u32 == 99); };
impl core::fmt::Display for R128C { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { match self { R128C::V0 => f.write_str("d0"), R128C::V1 => f.write_str("d1"), R128C::V2 => f.write_str("d2"), R128C::V3 => f.write_str("d3"), R128C::V4 => f.write_str("d4"), R128C::V5 => f.write_str("d5"), R128C::V6 => f.write_str("d6"), R128C::V7 => f.write_str("d7"), R128C::V8 => f.write_str("d8"), R128C::V9 => f.write_str("d9"), R128C::V10 => f.write_str("d10"), R128C::V11 => f.write_str("d11"), R128C::V12 => f.write_str("d12"), R128C::V13 => f.write_str("d13"), R128C::V14 => f.write_str("d14"), R128C::V15 => f.write_str("d15"), R128C::V16 => f.write_str("d16"), R128C::V17 => f.write_str("d17"), R128C::V18 => f.write_str("d18"), R128C::V19 => f.write_str("d19"), R128C::V20 => f.write_str("d20"), R128C::V21 => f.write_str("d21"), R128C::V22 => f.write_str("d22"), R128C::V23 => f.write_str("d23"), R128C::V24 => f.write_str("d24"), R128C::V25 => f.write_str("d25"), R128C::V26 => f.write_str("d26"), R128C::V27 => f.write_str("d27"), R128C::V28 => f.write_str("d28"), R128C::V29 => f.write_str("d29"), R128C::V30 => f.write_str("d30"), R128C::V31 => f.write_str("d31"), R128C::V32 => f.write_str("d32"), R128C::V33 => f.write_str("d33"), R128C::V34 => f.write_str("d34"), R128C::V35 => f.write_str("d35"), R128C::V36 => f.write_str("d36"), R128C::V37 => f.write_str("d37"), R128C::V38 => f.write_str("d38"), R128C::V39 => f.write_str("d39"), R128C::V40 => f.write_str("d40"), R128C::V41 => f.write_str("d41"), R128C::V42 => f.write_str("d42"), R128C::V43 => f.write_str("d43"), R128C::V44 => f.write_str("d44"), R128C::V45 => f.write_str("d45"), R128C::V46 => f.write_str("d46"), R128C::V47 => f.write_str("d47"), R128C::V48 => f.write_str("d48"), R128C::V49 => f.write_str("d49"), R128C::V50 => f.write_str("d50"), R128C::V51 => f.write_str("d51"), R128C::V52 => f.write_str("d52"), R128C::V53 => f.write_str("d53"), R128C::V54 => f.write_str("d54"), R128C::V55 => f.write_str("d55"), R128C::V56 => f.write_str("d56"), R128C::V57 => f.write_str("d57"), R128C::V58 => f.write_str("d58"), R128C::V59 => f.write_str("d59"), R128C::V60 => f.write_str("d60"), R128C::V61 => f.write_str("d61"), R128C::V62 => f.write_str("d62"), R128C::V63 => f.write_str("d63"), R128C::V64 => f.write_str("d64"), R128C::V65 => f.write_str("d65"), R128C::V66 => f.write_str("d66"), R128C::V67 => f.write_str("d67"), R128C::V68 => f.write_str("d68"), R128C::V69 => f.write_str("d69"), R128C::V70 => f.write_str("d70"), R128C::V71 => f.write_str("d71"), R128C::V72 => f.write_str("d72"), R128C::V73 => f.write_str("d73"), R128C::V74 => f.write_str("d74"), R128C::V75 => f.write_str("d75"), R128C::V76 => f.write_str("d76"), R128C::V77 => f.write_str("d77"), R128C::V78 => f.write_str("d78"), R128C::V79 => f.write_str("d79"), R128C::V80 => f.write_str("d80"), R128C::V81 => f.write_str("d81"), R128C::V82 => f.write_str("d82"), R128C::V83 => f.write_str("d83"), R128C::V84 => f.write_str("d84"), R128C::V85 => f.write_str("d85"), R128C::V86 => f.write_str("d86"), R128C::V87 => f.write_str("d87"), R128C::V88 => f.write_str("d88"), R128C::V89 => f.write_str("d89"), R128C::V90 => f.write_str("d90"), R128C::V91 => f.write_str("d91"), R128C::V92 => f.write_str("d92"), R128C::V93 => f.write_str("d93"), R128C::V94 => f.write_str("d94"), R128C::V95 => f.write_str("d95"), R128C::V96 => f.write_str("d96"), R128C::V97 => f.write_str("d97"), R128C::V98 => f.write_str("d98"), R128C::V99 => f.write_str("d99"), } } }

#[derive(EnumSetType, Debug)]
pub enum H { V70000 = 70000, V0 = 0, V1 = 1, V63 = 63, V64 = 64, V255 = 255, V4095 = 4095, V16383 = 16383, V16384 = 16384, V65535 = 65535, V65536 = 65536, V69999 = 69999 }
impl Fam<1094> for H {
    fn nth(i: usize) -> Self { match i { 0 => H::V70000, 1 => H::V0, 2 => H::V1, 3 => H::V63, 4 => H::V64, 5 => H::V255, 6 => H::V4095, 7 => H::V16383, 8 => H::V16384, 9 => H::V65535, 10 => H::V65536, _ => H::V69999 } }
    const D: &'static [u32] = &[70000, 0, 1, 63, 64, 255, 4095, 16383, 16384, 65535, 65536, 69999];
}
const _: () = { assert!(H::V70000 as u32 == 70000); assert!(H::V0 as u32 == 0); assert!(H::V1 as u32 == 1); assert!(H::V63 as u32 == 63); assert!(H::V64 as u32 == 64); assert!(H::V255 as u32 == 255); assert!(H::V4095 as u32 == 4095); assert!(H::V16383 as u32 == 16383); assert!(H::V16384 as u32 == 16384); assert!(H::V65535 as u32 == 65535); assert!(H::V65536 as u32 == 65536); assert!(H::V69999 as u32 == 69999); };
impl core::fmt::Display for H { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { match self { H::V70000 => f.write_str("d70000"), H::V0 => f.write_str("d0"), H::V1 => f.write_str("d1"), H::V63 => f.write_str("d63"), H::V64 => f.write_str("d64"), H::V255 => f.write_str("d255"), H::V4095 => f.write_str("d4095"), H::V16383 => f.write_str("d16383"), H::V16384 => f.write_str("d16384"), H::V65535 => f.write_str("d65535"), H::V65536 => f.write_str("d65536"), H::V69999 => f.write_str("d69999"), } } }

#[derive(EnumSetType, Debug)]
pub enum Empty {}
impl Fam<1> for Empty { fn nth(_: usize) -> Self { unreachable!() } const D: &'static [u32] = &[]; }

/// `on!(group, contract, kind, unwind)`: instantiate a contract on a group of enums.
#[macro_export]
macro_rules! on {
    (core, $f:ident, $kind:ident, $u:literal) => { $crate::contract!($f, $kind, $u; D8:1 S8:1 S16:1 D16:1 S32:1 S64:1 D64:1 X128:2 A1:1 A2:2 A2H:2 A3:3 A4:4 R32:1 R128:2 One9:1 RU8:4 L3D:3 L4D:4 L5S:5 L9:9; ; I8:1 I64:1 I128:2 IA1:1 IA3:3 IA4:4 R8:1 R16:1 R64:1 RI16:1 RC:1 One0:1 One70:2 F128:2 A4E:4 L17:17 RU64:1 C3:1 C12:1 C20:1 C40:1 C70:2 C130:3 H:1094 R8C:1 R16C:1 R32C:1 R64C:1 R128C:2); };
    (ends, $f:ident, $kind:ident, $u:literal) => { $crate::contract!($f, $kind, $u; D8:1 S8:1 S16:1 D16:1 S32:1 S64:1 D64:1 X128:2 A1:1 A2:2 A2H:2 A3:3 A4:4 R32:1 R128:2 One9:1 RU8:4 L5S:5; L3D:3; I8:1 I64:1 I128:2 IA1:1 IA3:3 IA4:4 R8:1 R16:1 R64:1 RI16:1 RC:1 One0:1 One70:2 F128:2 A4E:4 L9:9 L17:17 L4D:4 RU64:1 C3:1 C12:1 C20:1 C40:1 C70:2 C130:3 H:1094 R8C:1 R16C:1 R32C:1 R64C:1 R128C:2); };
    (conv, $f:ident, $kind:ident, $u:literal) => { $crate::contract!($f, $kind, $u; D8:1 S16:1 S64:1 X128:2 A1:1 A2:2 A3:3 R128:2 One0:1 L9:9; S32:1 D64:1 A2H:2 A4:4 R16:1 F128:2; I8:1 I64:1 I128:2 IA1:1 IA3:3 IA4:4 S8:1 D16:1 R8:1 R32:1 R64:1 RU8:4 RI16:1 RC:1 One9:1 One70:2 A4E:4 L17:17 L4D:4 L3D:3 L5S:5 RU64:1 C3:1 C12:1 C20:1 C40:1 C70:2 C130:3 H:1094 R8C:1 R16C:1 R32C:1 R64C:1 R128C:2); };
    (repr, $f:ident, $kind:ident, $u:literal) => { $crate::contract!($f, $kind, $u; R8:1 R16:1 R32:1 R64:1 R128:2 X128:2; F128:2; R8C:1 R16C:1 R32C:1 R64C:1 R128C:2); };
    (iter, $f:ident, $kind:ident, $u:literal) => { $crate::contract!($f, $kind, $u; I8:1 I64:1 I128:2 IA1:1 One9:1; IA3:3 IA4:4; D8:1 S8:1 S16:1 D16:1 S32:1 S64:1 D64:1 X128:2 A1:1 A2:2 A2H:2 A3:3 A4:4 R8:1 R16:1 R32:1 R64:1 R128:2 RU8:4 RI16:1 RC:1 One0:1 One70:2 F128:2 A4E:4 L9:9 L17:17 L4D:4 L3D:3 L5S:5 RU64:1 C3:1 C12:1 C20:1 C40:1 C70:2 C130:3 H:1094 R8C:1 R16C:1 R32C:1 R64C:1 R128C:2); };
    (iterw, $f:ident, $kind:ident, $u:literal) => { $crate::contract!($f, $kind, $u; A2:2 A2H:2; A3:3 IA4:4; I8:1 I64:1 I128:2 IA1:1 IA3:3 D8:1 S8:1 S16:1 D16:1 S32:1 S64:1 D64:1 X128:2 A1:1 A4:4 R8:1 R16:1 R32:1 R64:1 R128:2 RU8:4 RI16:1 RC:1 One0:1 One9:1 One70:2 F128:2 A4E:4 L9:9 L17:17 L4D:4 L3D:3 L5S:5 RU64:1 C3:1 C12:1 C20:1 C40:1 C70:2 C130:3 H:1094 R8C:1 R16C:1 R32C:1 R64C:1 R128C:2); };
    (sample, $f:ident, $kind:ident, $u:literal) => { $crate::contract!($f, $kind, $u; S8:1 S64:1 X128:2 A1:1 A2:2 A3:3; S32:1 A4:4; I8:1 I64:1 I128:2 IA1:1 IA3:3 IA4:4 D8:1 S16:1 D16:1 D64:1 A2H:2 R8:1 R16:1 R32:1 R64:1 R128:2 RU8:4 RI16:1 RC:1 One0:1 One9:1 One70:2 F128:2 A4E:4 L9:9 L17:17 L4D:4 L3D:3 L5S:5 RU64:1 C3:1 C12:1 C20:1 C40:1 C70:2 C130:3 H:1094 R8C:1 R16C:1 R32C:1 R64C:1 R128C:2); };
    (number, $f:ident, $kind:ident, $u:literal) => { $crate::contract!($f, $kind, $u; S8:1 S16:1 S64:1 X128:2 A1:1 A2:2 A2H:2 A4:4 RU8:4 RI16:1 RC:1 One0:1 One9:1 One70:2; A3:3 D64:1; I8:1 I64:1 I128:2 IA1:1 IA3:3 IA4:4 D8:1 D16:1 S32:1 R8:1 R16:1 R32:1 R64:1 R128:2 F128:2 A4E:4 L9:9 L17:17 L4D:4 L3D:3 L5S:5 RU64:1 C3:1 C12:1 C20:1 C40:1 C70:2 C130:3 H:1094 R8C:1 R16C:1 R32C:1 R64C:1 R128C:2); };
    (text, $f:ident, $kind:ident, $u:literal) => { $crate::contract!($f, $kind, $u; I8:1 I64:1; IA1:1; S8:1); };
    (fail, $f:ident, $kind:ident, $u:literal) => { $crate::contract!($f, $kind, $u; I8:1; I64:1 IA1:1; S8:1); };
    (routes, $f:ident, $kind:ident, $u:literal) => { $crate::contract!($f, $kind, $u; S8:1 S64:1 X128:2; A2:2; I8:1 I64:1 I128:2 IA1:1 IA3:3 IA4:4 D8:1 S16:1 D16:1 S32:1 D64:1 A1:1 A2H:2 A3:3 A4:4 R8:1 R16:1 R32:1 R64:1 R128:2 RU8:4 RI16:1 RC:1 One0:1 One9:1 One70:2 F128:2 A4E:4 L9:9 L17:17 L4D:4 L3D:3 L5S:5 RU64:1 C3:1 C12:1 C20:1 C40:1 C70:2 C130:3 H:1094 R8C:1 R16C:1 R32C:1 R64C:1 R128C:2); };
    (native, $f:ident, $kind:ident, $u:literal) => { $crate::contract!($f, $kind, $u; ; ; I8:1 I64:1 I128:2 IA1:1 IA3:3 IA4:4 D8:1 S8:1 S16:1 D16:1 S32:1 S64:1 D64:1 X128:2 A1:1 A2:2 A2H:2 A3:3 A4:4 R8:1 R16:1 R32:1 R64:1 R128:2 RU8:4 RI16:1 RC:1 One0:1 One9:1 One70:2 F128:2 A4E:4 L9:9 L17:17 L4D:4 L3D:3 L5S:5 RU64:1 C3:1 C12:1 C20:1 C40:1 C70:2 C130:3 H:1094 R8C:1 R16C:1 R32C:1 R64C:1 R128C:2); };
    (wide, $f:ident, $kind:ident, $u:literal) => { $crate::contract!($f, $kind, $u; S16:1 S64:1 D64:1 X128:2 A1:1 A2:2 A3:3 R16:1; S32:1 A2H:2 A4:4; I8:1 I64:1 I128:2 IA1:1 IA3:3 IA4:4 D8:1 S8:1 D16:1 R8:1 R32:1 R64:1 R128:2 RU8:4 RI16:1 RC:1 One0:1 One9:1 One70:2 F128:2 A4E:4 L9:9 L17:17 L4D:4 L3D:3 L5S:5 RU64:1 C3:1 C12:1 C20:1 C40:1 C70:2 C130:3 H:1094 R8C:1 R16C:1 R32C:1 R64C:1 R128C:2); };
}
