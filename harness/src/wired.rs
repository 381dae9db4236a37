// Generated by tools/gen_types.py; do not edit.
#![allow(dead_code, deprecated)]
use crate::fam::Fam;
use crate::wire::{Form, Wired};
use enumset::EnumSetType;

#[derive(EnumSetType, Debug)]
pub enum Z8 { V6 = 6, V1 = 1, V4 = 4, V0 = 0 }
impl Fam<1> for Z8 { fn nth(i: usize) -> Self { match i { 0 => Z8::V6, 1 => Z8::V1, 2 => Z8::V4, _ => Z8::V0 } } const D: &'static [u32] = &[6, 1, 4, 0]; }
impl Wired<1> for Z8 { const FORM: Form = Form::Int(8); const DENY: bool = false; }
#[derive(EnumSetType, Debug)]
pub enum Z8F { V0, V1, V2, V3, V4, V5, V6, V7 }
impl Fam<1> for Z8F { fn nth(i: usize) -> Self { match i { 0 => Z8F::V0, 1 => Z8F::V1, 2 => Z8F::V2, 3 => Z8F::V3, 4 => Z8F::V4, 5 => Z8F::V5, 6 => Z8F::V6, _ => Z8F::V7 } } const D: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7]; }
impl Wired<1> for Z8F { const FORM: Form = Form::Int(8); const DENY: bool = false; }
#[derive(EnumSetType, Debug)]
pub enum Z16 { V8 = 8, V3 = 3, V15 = 15 }
impl Fam<1> for Z16 { fn nth(i: usize) -> Self { match i { 0 => Z16::V8, 1 => Z16::V3, _ => Z16::V15 } } const D: &'static [u32] = &[8, 3, 15]; }
impl Wired<1> for Z16 { const FORM: Form = Form::Int(16); const DENY: bool = false; }
#[derive(EnumSetType, Debug)]
pub enum Z32 { V16 = 16, V0 = 0, V30 = 30 }
impl Fam<1> for Z32 { fn nth(i: usize) -> Self { match i { 0 => Z32::V16, 1 => Z32::V0, _ => Z32::V30 } } const D: &'static [u32] = &[16, 0, 30]; }
impl Wired<1> for Z32 { const FORM: Form = Form::Int(32); const DENY: bool = false; }
#[derive(EnumSetType, Debug)]
pub enum Z64 { V63 = 63, V0 = 0, V32 = 32, V40 = 40 }
impl Fam<1> for Z64 { fn nth(i: usize) -> Self { match i { 0 => Z64::V63, 1 => Z64::V0, 2 => Z64::V32, _ => Z64::V40 } } const D: &'static [u32] = &[63, 0, 32, 40]; }
impl Wired<1> for Z64 { const FORM: Form = Form::Int(64); const DENY: bool = false; }
#[derive(EnumSetType, Debug)]
pub enum Z128 { V127 = 127, V0 = 0, V63 = 63, V64 = 64 }
impl Fam<2> for Z128 { fn nth(i: usize) -> Self { match i { 0 => Z128::V127, 1 => Z128::V0, 2 => Z128::V63, _ => Z128::V64 } } const D: &'static [u32] = &[127, 0, 63, 64]; }
impl Wired<2> for Z128 { const FORM: Form = Form::Int(128); const DENY: bool = false; }
#[derive(EnumSetType, Debug)]
pub enum Z65 { V64 = 64, V2 = 2 }
impl Fam<2> for Z65 { fn nth(i: usize) -> Self { match i { 0 => Z65::V64, _ => Z65::V2 } } const D: &'static [u32] = &[64, 2]; }
impl Wired<2> for Z65 { const FORM: Form = Form::Int(128); const DENY: bool = false; }
#[derive(EnumSetType, Debug)]
pub enum Z7 { V7 = 7, V3 = 3 }
impl Fam<1> for Z7 { fn nth(i: usize) -> Self { match i { 0 => Z7::V7, _ => Z7::V3 } } const D: &'static [u32] = &[7, 3]; }
impl Wired<1> for Z7 { const FORM: Form = Form::Int(8); const DENY: bool = false; }
#[derive(EnumSetType, Debug)]
pub enum Z31 { V31 = 31, V3 = 3 }
impl Fam<1> for Z31 { fn nth(i: usize) -> Self { match i { 0 => Z31::V31, _ => Z31::V3 } } const D: &'static [u32] = &[31, 3]; }
impl Wired<1> for Z31 { const FORM: Form = Form::Int(32); const DENY: bool = false; }
#[derive(EnumSetType, Debug)]
pub enum ZA129 { V128 = 128, V0 = 0, V64 = 64 }
impl Fam<3> for ZA129 { fn nth(i: usize) -> Self { match i { 0 => ZA129::V128, 1 => ZA129::V0, _ => ZA129::V64 } } const D: &'static [u32] = &[128, 0, 64]; }
impl Wired<3> for ZA129 { const FORM: Form = Form::Array; const DENY: bool = false; }
#[derive(EnumSetType, Debug)]
pub enum ZA3 { V191 = 191, V1 = 1, V70 = 70, V130 = 130 }
impl Fam<3> for ZA3 { fn nth(i: usize) -> Self { match i { 0 => ZA3::V191, 1 => ZA3::V1, 2 => ZA3::V70, _ => ZA3::V130 } } const D: &'static [u32] = &[191, 1, 70, 130]; }
impl Wired<3> for ZA3 { const FORM: Form = Form::Array; const DENY: bool = false; }
#[derive(EnumSetType, Debug)]
pub enum ZA4 { V255 = 255, V0 = 0, V63 = 63 }
impl Fam<4> for ZA4 { fn nth(i: usize) -> Self { match i { 0 => ZA4::V255, 1 => ZA4::V0, _ => ZA4::V63 } } const D: &'static [u32] = &[255, 0, 63]; }
impl Wired<4> for ZA4 { const FORM: Form = Form::Array; const DENY: bool = false; }
#[derive(EnumSetType, Debug)]
#[enumset(serialize_repr = "u8")]
pub enum ZE8 { V6 = 6, V0 = 0 }
impl Fam<1> for ZE8 { fn nth(i: usize) -> Self { match i { 0 => ZE8::V6, _ => ZE8::V0 } } const D: &'static [u32] = &[6, 0]; }
impl Wired<1> for ZE8 { const FORM: Form = Form::Int(8); const DENY: bool = false; }
#[derive(EnumSetType, Debug)]
#[enumset(serialize_repr = "u16")]
pub enum ZE16 { V6 = 6, V0 = 0 }
impl Fam<1> for ZE16 { fn nth(i: usize) -> Self { match i { 0 => ZE16::V6, _ => ZE16::V0 } } const D: &'static [u32] = &[6, 0]; }
impl Wired<1> for ZE16 { const FORM: Form = Form::Int(16); const DENY: bool = false; }
#[derive(EnumSetType, Debug)]
#[enumset(serialize_repr = "u32")]
pub enum ZE32 { V6 = 6, V0 = 0, V31 = 31 }
impl Fam<1> for ZE32 { fn nth(i: usize) -> Self { match i { 0 => ZE32::V6, 1 => ZE32::V0, _ => ZE32::V31 } } const D: &'static [u32] = &[6, 0, 31]; }
impl Wired<1> for ZE32 { const FORM: Form = Form::Int(32); const DENY: bool = false; }
#[derive(EnumSetType, Debug)]
#[enumset(serialize_repr = "u64")]
pub enum ZE64 { V6 = 6, V0 = 0, V9 = 9 }
impl Fam<1> for ZE64 { fn nth(i: usize) -> Self { match i { 0 => ZE64::V6, 1 => ZE64::V0, _ => ZE64::V9 } } const D: &'static [u32] = &[6, 0, 9]; }
impl Wired<1> for ZE64 { const FORM: Form = Form::Int(64); const DENY: bool = false; }
#[derive(EnumSetType, Debug)]
#[enumset(serialize_repr = "u128")]
pub enum ZE128 { V6 = 6, V0 = 0, V9 = 9 }
impl Fam<1> for ZE128 { fn nth(i: usize) -> Self { match i { 0 => ZE128::V6, 1 => ZE128::V0, _ => ZE128::V9 } } const D: &'static [u32] = &[6, 0, 9]; }
impl Wired<1> for ZE128 { const FORM: Form = Form::Int(128); const DENY: bool = false; }
#[derive(EnumSetType, Debug)]
#[enumset(repr = "array", serialize_repr = "u128")]
pub enum ZR128 { V100 = 100, V0 = 0, V64 = 64 }
impl Fam<2> for ZR128 { fn nth(i: usize) -> Self { match i { 0 => ZR128::V100, 1 => ZR128::V0, _ => ZR128::V64 } } const D: &'static [u32] = &[100, 0, 64]; }
impl Wired<2> for ZR128 { const FORM: Form = Form::Int(128); const DENY: bool = false; }
#[derive(EnumSetType, Debug)]
#[enumset(repr = "array")]
pub enum ZRA8 { V7 = 7, V0 = 0 }
impl Fam<1> for ZRA8 { fn nth(i: usize) -> Self { match i { 0 => ZRA8::V7, _ => ZRA8::V0 } } const D: &'static [u32] = &[7, 0]; }
impl Wired<1> for ZRA8 { const FORM: Form = Form::Int(8); const DENY: bool = false; }
#[derive(EnumSetType, Debug)]
#[enumset(repr = "u128", serialize_repr = "array")]
pub enum ZU128A { V100 = 100, V0 = 0, V64 = 64 }
impl Fam<2> for ZU128A { fn nth(i: usize) -> Self { match i { 0 => ZU128A::V100, 1 => ZU128A::V0, _ => ZU128A::V64 } } const D: &'static [u32] = &[100, 0, 64]; }
impl Wired<2> for ZU128A { const FORM: Form = Form::Array; const DENY: bool = false; }
#[derive(EnumSetType, Debug)]
#[enumset(serialize_repr = "array")]
pub enum ZAr8 { V6 = 6, V0 = 0, V3 = 3 }
impl Fam<1> for ZAr8 { fn nth(i: usize) -> Self { match i { 0 => ZAr8::V6, 1 => ZAr8::V0, _ => ZAr8::V3 } } const D: &'static [u32] = &[6, 0, 3]; }
impl Wired<1> for ZAr8 { const FORM: Form = Form::Array; const DENY: bool = false; }
#[derive(EnumSetType, Debug)]
#[enumset(serialize_repr = "array")]
pub enum ZAr64 { V63 = 63, V0 = 0, V3 = 3 }
impl Fam<1> for ZAr64 { fn nth(i: usize) -> Self { match i { 0 => ZAr64::V63, 1 => ZAr64::V0, _ => ZAr64::V3 } } const D: &'static [u32] = &[63, 0, 3]; }
impl Wired<1> for ZAr64 { const FORM: Form = Form::Array; const DENY: bool = false; }
#[derive(EnumSetType, Debug)]
#[enumset(serialize_repr = "list")]
pub enum ZL8 { V6 = 6, V0 = 0, V3 = 3 }
impl Fam<1> for ZL8 { fn nth(i: usize) -> Self { match i { 0 => ZL8::V6, 1 => ZL8::V0, _ => ZL8::V3 } } const D: &'static [u32] = &[6, 0, 3]; }
impl Wired<1> for ZL8 { const FORM: Form = Form::List; const DENY: bool = false; }
crate::wired_variant!(ZL8 1);
#[derive(EnumSetType, Debug)]
#[enumset(serialize_repr = "list")]
pub enum ZL64 { V63 = 63, V0 = 0, V31 = 31, V32 = 32 }
impl Fam<1> for ZL64 { fn nth(i: usize) -> Self { match i { 0 => ZL64::V63, 1 => ZL64::V0, 2 => ZL64::V31, _ => ZL64::V32 } } const D: &'static [u32] = &[63, 0, 31, 32]; }
impl Wired<1> for ZL64 { const FORM: Form = Form::List; const DENY: bool = false; }
crate::wired_variant!(ZL64 1);
#[derive(EnumSetType, Debug)]
#[enumset(serialize_repr = "list")]
pub enum ZLA { V150 = 150, V0 = 0, V63 = 63, V64 = 64 }
impl Fam<3> for ZLA { fn nth(i: usize) -> Self { match i { 0 => ZLA::V150, 1 => ZLA::V0, 2 => ZLA::V63, _ => ZLA::V64 } } const D: &'static [u32] = &[150, 0, 63, 64]; }
impl Wired<3> for ZLA { const FORM: Form = Form::List; const DENY: bool = false; }
crate::wired_variant!(ZLA 3);
#[derive(EnumSetType, Debug)]
#[enumset(serialize_repr = "map")]
pub enum ZM8 { V6 = 6, V0 = 0, V3 = 3 }
impl Fam<1> for ZM8 { fn nth(i: usize) -> Self { match i { 0 => ZM8::V6, 1 => ZM8::V0, _ => ZM8::V3 } } const D: &'static [u32] = &[6, 0, 3]; }
impl Wired<1> for ZM8 { const FORM: Form = Form::Map; const DENY: bool = false; }
crate::wired_variant!(ZM8 1);
#[derive(EnumSetType, Debug)]
#[enumset(serialize_repr = "map")]
pub enum ZM64 { V63 = 63, V0 = 0, V31 = 31 }
impl Fam<1> for ZM64 { fn nth(i: usize) -> Self { match i { 0 => ZM64::V63, 1 => ZM64::V0, _ => ZM64::V31 } } const D: &'static [u32] = &[63, 0, 31]; }
impl Wired<1> for ZM64 { const FORM: Form = Form::Map; const DENY: bool = false; }
crate::wired_variant!(ZM64 1);
#[derive(EnumSetType, Debug)]
#[enumset(serialize_repr = "map")]
pub enum ZMA { V150 = 150, V0 = 0, V63 = 63 }
impl Fam<3> for ZMA { fn nth(i: usize) -> Self { match i { 0 => ZMA::V150, 1 => ZMA::V0, _ => ZMA::V63 } } const D: &'static [u32] = &[150, 0, 63]; }
impl Wired<3> for ZMA { const FORM: Form = Form::Map; const DENY: bool = false; }
crate::wired_variant!(ZMA 3);
#[derive(EnumSetType, Debug)]
#[enumset(serialize_as_list)]
pub enum ZLO { V6 = 6, V0 = 0, V3 = 3 }
impl Fam<1> for ZLO { fn nth(i: usize) -> Self { match i { 0 => ZLO::V6, 1 => ZLO::V0, _ => ZLO::V3 } } const D: &'static [u32] = &[6, 0, 3]; }
impl Wired<1> for ZLO { const FORM: Form = Form::List; const DENY: bool = false; }
crate::wired_variant!(ZLO 1);
#[derive(EnumSetType, Debug)]
#[enumset(serialize_as_map)]
pub enum ZMO { V6 = 6, V0 = 0, V3 = 3 }
impl Fam<1> for ZMO { fn nth(i: usize) -> Self { match i { 0 => ZMO::V6, 1 => ZMO::V0, _ => ZMO::V3 } } const D: &'static [u32] = &[6, 0, 3]; }
impl Wired<1> for ZMO { const FORM: Form = Form::Map; const DENY: bool = false; }
crate::wired_variant!(ZMO 1);
#[derive(EnumSetType, Debug)]
pub enum ZA17 { V1087 = 1087, V0 = 0, V64 = 64, V1023 = 1023 }
impl Fam<17> for ZA17 { fn nth(i: usize) -> Self { match i { 0 => ZA17::V1087, 1 => ZA17::V0, 2 => ZA17::V64, _ => ZA17::V1023 } } const D: &'static [u32] = &[1087, 0, 64, 1023]; }
impl Wired<17> for ZA17 { const FORM: Form = Form::Array; const DENY: bool = false; }
#[derive(EnumSetType, Debug)]
pub enum ZA9 { V575 = 575, V0 = 0, V100 = 100, V320 = 320 }
impl Fam<9> for ZA9 { fn nth(i: usize) -> Self { match i { 0 => ZA9::V575, 1 => ZA9::V0, 2 => ZA9::V100, _ => ZA9::V320 } } const D: &'static [u32] = &[575, 0, 100, 320]; }
impl Wired<9> for ZA9 { const FORM: Form = Form::Array; const DENY: bool = false; }
#[derive(EnumSetType, Debug)]
pub enum ZA130 { V8319 = 8319, V0 = 0, V64 = 64, V4095 = 4095, V4096 = 4096, V8191 = 8191 }
impl Fam<130> for ZA130 { fn nth(i: usize) -> Self { match i { 0 => ZA130::V8319, 1 => ZA130::V0, 2 => ZA130::V64, 3 => ZA130::V4095, 4 => ZA130::V4096, _ => ZA130::V8191 } } const D: &'static [u32] = &[8319, 0, 64, 4095, 4096, 8191]; }
impl Wired<130> for ZA130 { const FORM: Form = Form::Array; const DENY: bool = false; }
#[derive(EnumSetType, Debug)]
#[enumset( serialize_deny_unknown)]
pub enum Y8 { V6 = 6, V1 = 1, V4 = 4, V0 = 0 }
impl Fam<1> for Y8 { fn nth(i: usize) -> Self { match i { 0 => Y8::V6, 1 => Y8::V1, 2 => Y8::V4, _ => Y8::V0 } } const D: &'static [u32] = &[6, 1, 4, 0]; }
impl Wired<1> for Y8 { const FORM: Form = Form::Int(8); const DENY: bool = true; }
#[derive(EnumSetType, Debug)]
#[enumset( serialize_deny_unknown)]
pub enum Y8F { V0, V1, V2, V3, V4, V5, V6, V7 }
impl Fam<1> for Y8F { fn nth(i: usize) -> Self { match i { 0 => Y8F::V0, 1 => Y8F::V1, 2 => Y8F::V2, 3 => Y8F::V3, 4 => Y8F::V4, 5 => Y8F::V5, 6 => Y8F::V6, _ => Y8F::V7 } } const D: &'static [u32] = &[0, 1, 2, 3, 4, 5, 6, 7]; }
impl Wired<1> for Y8F { const FORM: Form = Form::Int(8); const DENY: bool = true; }
#[derive(EnumSetType, Debug)]
#[enumset( serialize_deny_unknown)]
pub enum Y16 { V8 = 8, V3 = 3, V15 = 15 }
impl Fam<1> for Y16 { fn nth(i: usize) -> Self { match i { 0 => Y16::V8, 1 => Y16::V3, _ => Y16::V15 } } const D: &'static [u32] = &[8, 3, 15]; }
impl Wired<1> for Y16 { const FORM: Form = Form::Int(16); const DENY: bool = true; }
#[derive(EnumSetType, Debug)]
#[enumset( serialize_deny_unknown)]
pub enum Y32 { V16 = 16, V0 = 0, V30 = 30 }
impl Fam<1> for Y32 { fn nth(i: usize) -> Self { match i { 0 => Y32::V16, 1 => Y32::V0, _ => Y32::V30 } } const D: &'static [u32] = &[16, 0, 30]; }
impl Wired<1> for Y32 { const FORM: Form = Form::Int(32); const DENY: bool = true; }
#[derive(EnumSetType, Debug)]
#[enumset( serialize_deny_unknown)]
pub enum Y64 { V63 = 63, V0 = 0, V32 = 32 }
impl Fam<1> for Y64 { fn nth(i: usize) -> Self { match i { 0 => Y64::V63, 1 => Y64::V0, _ => Y64::V32 } } const D: &'static [u32] = &[63, 0, 32]; }
impl Wired<1> for Y64 { const FORM: Form = Form::Int(64); const DENY: bool = true; }
#[derive(EnumSetType, Debug)]
#[enumset( serialize_deny_unknown)]
pub enum Y128 { V127 = 127, V0 = 0, V63 = 63, V64 = 64 }
impl Fam<2> for Y128 { fn nth(i: usize) -> Self { match i { 0 => Y128::V127, 1 => Y128::V0, 2 => Y128::V63, _ => Y128::V64 } } const D: &'static [u32] = &[127, 0, 63, 64]; }
impl Wired<2> for Y128 { const FORM: Form = Form::Int(128); const DENY: bool = true; }
#[derive(EnumSetType, Debug)]
#[enumset( serialize_deny_unknown)]
pub enum YH { V64 = 64, V100 = 100 }
impl Fam<2> for YH { fn nth(i: usize) -> Self { match i { 0 => YH::V64, _ => YH::V100 } } const D: &'static [u32] = &[64, 100]; }
impl Wired<2> for YH { const FORM: Form = Form::Int(128); const DENY: bool = true; }
#[derive(EnumSetType, Debug)]
#[enumset(repr = "u128", serialize_deny_unknown)]
pub enum YR128 { V100 = 100, V3 = 3 }
impl Fam<2> for YR128 { fn nth(i: usize) -> Self { match i { 0 => YR128::V100, _ => YR128::V3 } } const D: &'static [u32] = &[100, 3]; }
impl Wired<2> for YR128 { const FORM: Form = Form::Int(128); const DENY: bool = true; }
#[derive(EnumSetType, Debug)]
#[enumset(serialize_repr = "u32", serialize_deny_unknown)]
pub enum YE32 { V6 = 6, V0 = 0 }
impl Fam<1> for YE32 { fn nth(i: usize) -> Self { match i { 0 => YE32::V6, _ => YE32::V0 } } const D: &'static [u32] = &[6, 0]; }
impl Wired<1> for YE32 { const FORM: Form = Form::Int(32); const DENY: bool = true; }
#[derive(EnumSetType, Debug)]
#[enumset(serialize_repr = "u128", serialize_deny_unknown)]
pub enum YE128 { V6 = 6, V0 = 0 }
impl Fam<1> for YE128 { fn nth(i: usize) -> Self { match i { 0 => YE128::V6, _ => YE128::V0 } } const D: &'static [u32] = &[6, 0]; }
impl Wired<1> for YE128 { const FORM: Form = Form::Int(128); const DENY: bool = true; }
#[derive(EnumSetType, Debug)]
#[enumset(repr = "array", serialize_repr = "u128", serialize_deny_unknown)]
pub enum YA128 { V6 = 6, V0 = 0, V70 = 70 }
impl Fam<2> for YA128 { fn nth(i: usize) -> Self { match i { 0 => YA128::V6, 1 => YA128::V0, _ => YA128::V70 } } const D: &'static [u32] = &[6, 0, 70]; }
impl Wired<2> for YA128 { const FORM: Form = Form::Int(128); const DENY: bool = true; }
#[derive(EnumSetType, Debug)]
#[enumset(repr = "array", serialize_deny_unknown)]
pub enum YA8 { V6 = 6, V0 = 0 }
impl Fam<1> for YA8 { fn nth(i: usize) -> Self { match i { 0 => YA8::V6, _ => YA8::V0 } } const D: &'static [u32] = &[6, 0]; }
impl Wired<1> for YA8 { const FORM: Form = Form::Int(8); const DENY: bool = true; }
#[derive(EnumSetType, Debug)]
#[enumset( serialize_deny_unknown)]
pub enum YA3 { V191 = 191, V1 = 1, V70 = 70, V130 = 130 }
impl Fam<3> for YA3 { fn nth(i: usize) -> Self { match i { 0 => YA3::V191, 1 => YA3::V1, 2 => YA3::V70, _ => YA3::V130 } } const D: &'static [u32] = &[191, 1, 70, 130]; }
impl Wired<3> for YA3 { const FORM: Form = Form::Array; const DENY: bool = true; }
#[derive(EnumSetType, Debug)]
#[enumset( serialize_deny_unknown)]
pub enum YA4 { V255 = 255, V0 = 0, V63 = 63 }
impl Fam<4> for YA4 { fn nth(i: usize) -> Self { match i { 0 => YA4::V255, 1 => YA4::V0, _ => YA4::V63 } } const D: &'static [u32] = &[255, 0, 63]; }
impl Wired<4> for YA4 { const FORM: Form = Form::Array; const DENY: bool = true; }
#[derive(EnumSetType, Debug)]
#[enumset(serialize_repr = "array", serialize_deny_unknown)]
pub enum YAr8 { V6 = 6, V0 = 0, V3 = 3 }
impl Fam<1> for YAr8 { fn nth(i: usize) -> Self { match i { 0 => YAr8::V6, 1 => YAr8::V0, _ => YAr8::V3 } } const D: &'static [u32] = &[6, 0, 3]; }
impl Wired<1> for YAr8 { const FORM: Form = Form::Array; const DENY: bool = true; }
#[derive(EnumSetType, Debug)]
#[enumset(serialize_repr = "array", serialize_deny_unknown)]
pub enum YAr64 { V63 = 63, V0 = 0 }
impl Fam<1> for YAr64 { fn nth(i: usize) -> Self { match i { 0 => YAr64::V63, _ => YAr64::V0 } } const D: &'static [u32] = &[63, 0]; }
impl Wired<1> for YAr64 { const FORM: Form = Form::Array; const DENY: bool = true; }
#[derive(EnumSetType, Debug)]
#[enumset(repr = "u128", serialize_repr = "array", serialize_deny_unknown)]
pub enum YAu128 { V100 = 100, V0 = 0 }
impl Fam<2> for YAu128 { fn nth(i: usize) -> Self { match i { 0 => YAu128::V100, _ => YAu128::V0 } } const D: &'static [u32] = &[100, 0]; }
impl Wired<2> for YAu128 { const FORM: Form = Form::Array; const DENY: bool = true; }
#[derive(EnumSetType, Debug)]
#[enumset(serialize_repr = "list", serialize_deny_unknown)]
pub enum YL8 { V6 = 6, V0 = 0, V3 = 3 }
impl Fam<1> for YL8 { fn nth(i: usize) -> Self { match i { 0 => YL8::V6, 1 => YL8::V0, _ => YL8::V3 } } const D: &'static [u32] = &[6, 0, 3]; }
impl Wired<1> for YL8 { const FORM: Form = Form::List; const DENY: bool = true; }
crate::wired_variant!(YL8 1);
#[derive(EnumSetType, Debug)]
#[enumset(serialize_repr = "map", serialize_deny_unknown)]
pub enum YM8 { V6 = 6, V0 = 0, V3 = 3 }
impl Fam<1> for YM8 { fn nth(i: usize) -> Self { match i { 0 => YM8::V6, 1 => YM8::V0, _ => YM8::V3 } } const D: &'static [u32] = &[6, 0, 3]; }
impl Wired<1> for YM8 { const FORM: Form = Form::Map; const DENY: bool = true; }
crate::wired_variant!(YM8 1);
#[derive(EnumSetType, Debug)]
#[enumset( serialize_deny_unknown)]
pub enum YA17 { V1087 = 1087, V0 = 0, V64 = 64, V1023 = 1023 }
impl Fam<17> for YA17 { fn nth(i: usize) -> Self { match i { 0 => YA17::V1087, 1 => YA17::V0, 2 => YA17::V64, _ => YA17::V1023 } } const D: &'static [u32] = &[1087, 0, 64, 1023]; }
impl Wired<17> for YA17 { const FORM: Form = Form::Array; const DENY: bool = true; }
#[derive(EnumSetType, Debug)]
#[enumset( serialize_deny_unknown)]
pub enum YA130 { V8319 = 8319, V0 = 0, V64 = 64, V4095 = 4095, V4096 = 4096, V8191 = 8191 }
impl Fam<130> for YA130 { fn nth(i: usize) -> Self { match i { 0 => YA130::V8319, 1 => YA130::V0, 2 => YA130::V64, 3 => YA130::V4095, 4 => YA130::V4096, _ => YA130::V8191 } } const D: &'static [u32] = &[8319, 0, 64, 4095, 4096, 8191]; }
impl Wired<130> for YA130 { const FORM: Form = Form::Array; const DENY: bool = true; }
#[macro_export]
macro_rules! on_wired {
    (int, $f:ident) => { $crate::contract_in!(wired, $f, 40; Z8:1 Z8F:1 Z16:1 Z32:1 Z64:1 Z128:2 Z65:2 Z7:1 Z31:1 ZE8:1 ZE16:1 ZE32:1 ZE64:1 ZE128:1 ZR128:2 ZRA8:1 Y8:1 Y8F:1 Y16:1 Y32:1 Y64:1 Y128:2 YH:2 YR128:2 YE32:1 YE128:1 YA128:2 YA8:1; ; ); };
    (array, $f:ident) => { $crate::contract_in!(wired, $f, 40; ZA129:3 ZU128A:2 ZAr8:1 ZAr64:1 YAr8:1 YAr64:1; ZA3:3 ZA4:4 YA3:3 YA4:4 YAu128:2; ZA17:17 ZA9:9 ZA130:130 YA17:17 YA130:130); };
    (list, $f:ident) => { $crate::contract_in!(wired, $f, 40; ZL8:1 ZL64:1 ZLO:1 YL8:1; ZLA:3; ); };
    (map, $f:ident) => { $crate::contract_in!(wired, $f, 40; ZM8:1 ZM64:1 ZMO:1 YM8:1; ZMA:3; ); };
    (all, $f:ident) => { $crate::contract_in!(wired, $f, 40; Z8:1 Z8F:1 Z16:1 Z32:1 Z64:1 Z128:2 Z65:2 Z7:1 Z31:1 ZE8:1 ZE16:1 ZE32:1 ZE64:1 ZE128:1 ZR128:2 ZRA8:1 Y8:1 Y8F:1 Y16:1 Y32:1 Y64:1 Y128:2 YH:2 YR128:2 YE32:1 YE128:1 YA128:2 YA8:1 ZA129:3 ZU128A:2 ZAr8:1 ZAr64:1 YAr8:1 YAr64:1 ZL8:1 ZL64:1 ZLO:1 YL8:1 ZM8:1 ZM64:1 ZMO:1 YM8:1; ZA3:3 ZA4:4 YA3:3 YA4:4 YAu128:2 ZLA:3 ZMA:3; ZA17:17 ZA9:9 ZA130:130 YA17:17 YA130:130); };
    (seqs, $f:ident) => { $crate::contract_in!(wired, $f, 40; ZA129:3 ZU128A:2 ZAr8:1 ZAr64:1 YAr8:1 YAr64:1 ZL8:1 ZL64:1 ZLO:1 YL8:1 ZM8:1 ZM64:1 ZMO:1 YM8:1; ZA3:3 ZA4:4 YA3:3 YA4:4 YAu128:2 ZLA:3 ZMA:3; ZA17:17 ZA9:9 ZA130:130 YA17:17 YA130:130); };
    (native, $f:ident) => { $crate::contract_in!(wired, $f, 40; ; ; Z8:1 Z8F:1 Z16:1 Z32:1 Z64:1 Z128:2 Z65:2 Z7:1 Z31:1 ZE8:1 ZE16:1 ZE32:1 ZE64:1 ZE128:1 ZR128:2 ZRA8:1 Y8:1 Y8F:1 Y16:1 Y32:1 Y64:1 Y128:2 YH:2 YR128:2 YE32:1 YE128:1 YA128:2 YA8:1 ZA129:3 ZA3:3 ZA4:4 ZU128A:2 ZAr8:1 ZAr64:1 ZA17:17 ZA9:9 ZA130:130 YA3:3 YA4:4 YAr8:1 YAr64:1 YAu128:2 YA17:17 YA130:130 ZL8:1 ZL64:1 ZLA:3 ZLO:1 YL8:1 ZM8:1 ZM64:1 ZMA:3 ZMO:1 YM8:1); };
}
