//! A recording `Serializer` and a playing `Deserializer` for the serde data model.
use crate::fam::*;
use core::fmt;
use serde::de::{self, DeserializeSeed, Deserializer, MapAccess, SeqAccess, Visitor};
use serde::ser::{self, Serialize, Serializer};

#[derive(Clone, Copy, PartialEq)]
pub enum Form { Int(u32), Array, List, Map }
pub trait Wired<const W: usize>: Fam<W> {
    const FORM: Form;
    const DENY: bool;
}
/// Variants travel as their discriminant.
#[macro_export]
macro_rules! wired_variant { ($t:ident $w:literal) => {
    impl serde::Serialize for $t {
        fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_u32(*self as u32) }
    }
    impl<'de> serde::Deserialize<'de> for $t {
        fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            let n = <u32 as serde::Deserialize>::deserialize(d)?;
            let mut i = 0;
            while i < <$t as Fam<$w>>::D.len() {
                if <$t as Fam<$w>>::D[i] == n { return Ok(<$t as Fam<$w>>::nth(i)); }
                i += 1;
            }
            Err(<D::Error as serde::de::Error>::custom("no such variant"))
        }
    }
} }

#[derive(Debug, Clone, Copy, PartialEq)]
pub struct Fail;
impl fmt::Display for Fail { fn fmt(&self, _: &mut fmt::Formatter) -> fmt::Result { Ok(()) } }
impl std::error::Error for Fail {}
impl ser::Error for Fail { fn custom<T: fmt::Display>(_: T) -> Self { Fail } }
impl de::Error for Fail {
    fn custom<T: fmt::Display>(_: T) -> Self { Fail }
    fn invalid_type(_: de::Unexpected, _: &dyn de::Expected) -> Self { Fail }
    fn invalid_value(_: de::Unexpected, _: &dyn de::Expected) -> Self { Fail }
    fn invalid_length(_: usize, _: &dyn de::Expected) -> Self { Fail }
}

pub const CAP: usize = if cfg!(kani) { 20 } else { 170 };
/// What a `Serialize` impl told the serializer.
#[derive(Clone, Copy)]
pub struct Rec {
    /// Width of the integer, or 200 for a sequence, 201 for a map, 202 for a bool.
    pub kind: u32,
    pub int: u128,
    pub elem_kind: u32,
    pub n: usize,
    pub key: [u64; CAP],
    pub val: [bool; CAP],
    pub declared: Option<usize>,
}
impl Rec { fn new(kind: u32) -> Rec { Rec { kind, int: 0, elem_kind: 0, n: 0, key: [0; CAP], val: [false; CAP], declared: None } } }
pub const SEQ: u32 = 200;
pub const MAP: u32 = 201;
pub const BOOL: u32 = 202;
pub struct Ser;
fn int(bits: u32, v: u128) -> Result<Rec, Fail> { let mut r = Rec::new(bits); r.int = v; Ok(r) }
impl Serializer for Ser {
    type Ok = Rec;
    type Error = Fail;
    type SerializeSeq = Rec;
    type SerializeMap = Rec;
    type SerializeTuple = ser::Impossible<Rec, Fail>;
    type SerializeTupleStruct = ser::Impossible<Rec, Fail>;
    type SerializeTupleVariant = ser::Impossible<Rec, Fail>;
    type SerializeStruct = ser::Impossible<Rec, Fail>;
    type SerializeStructVariant = ser::Impossible<Rec, Fail>;
    fn serialize_u8(self, v: u8) -> Result<Rec, Fail> { int(8, v as u128) }
    fn serialize_u16(self, v: u16) -> Result<Rec, Fail> { int(16, v as u128) }
    fn serialize_u32(self, v: u32) -> Result<Rec, Fail> { int(32, v as u128) }
    fn serialize_u64(self, v: u64) -> Result<Rec, Fail> { int(64, v as u128) }
    fn serialize_u128(self, v: u128) -> Result<Rec, Fail> { int(128, v) }
    fn serialize_bool(self, v: bool) -> Result<Rec, Fail> { int(BOOL, v as u128) }
    fn serialize_seq(self, len: Option<usize>) -> Result<Rec, Fail> { let mut r = Rec::new(SEQ); r.declared = len; Ok(r) }
    fn serialize_map(self, len: Option<usize>) -> Result<Rec, Fail> { let mut r = Rec::new(MAP); r.declared = len; Ok(r) }
    fn serialize_i8(self, _: i8) -> Result<Rec, Fail> { Err(Fail) }
    fn serialize_i16(self, _: i16) -> Result<Rec, Fail> { Err(Fail) }
    fn serialize_i32(self, _: i32) -> Result<Rec, Fail> { Err(Fail) }
    fn serialize_i64(self, _: i64) -> Result<Rec, Fail> { Err(Fail) }
    fn serialize_f32(self, _: f32) -> Result<Rec, Fail> { Err(Fail) }
    fn serialize_f64(self, _: f64) -> Result<Rec, Fail> { Err(Fail) }
    fn serialize_char(self, _: char) -> Result<Rec, Fail> { Err(Fail) }
    fn serialize_str(self, _: &str) -> Result<Rec, Fail> { Err(Fail) }
    fn serialize_bytes(self, _: &[u8]) -> Result<Rec, Fail> { Err(Fail) }
    fn serialize_none(self) -> Result<Rec, Fail> { Err(Fail) }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<Rec, Fail> { Err(Fail) }
    fn serialize_unit(self) -> Result<Rec, Fail> { Err(Fail) }
    fn serialize_unit_struct(self, _: &'static str) -> Result<Rec, Fail> { Err(Fail) }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<Rec, Fail> { Err(Fail) }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, _: &T) -> Result<Rec, Fail> { Err(Fail) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<Rec, Fail> { Err(Fail) }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, Fail> { Err(Fail) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTuple, Fail> { Err(Fail) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTuple, Fail> { Err(Fail) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, Fail> { Err(Fail) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStruct, Fail> { Err(Fail) }
    fn collect_str<T: ?Sized + fmt::Display>(self, _: &T) -> Result<Rec, Fail> { Err(Fail) }
}
/// One scalar: (kind, value).
struct One;
type O = (u32, u64);
macro_rules! one { ($($f:ident $t:ty, $k:expr;)*) => { $(fn $f(self, v: $t) -> Result<O, Fail> { Ok(($k, v as u64)) })* } }
macro_rules! no { ($($f:ident $t:ty;)*) => { $(fn $f(self, _: $t) -> Result<O, Fail> { Err(Fail) })* } }
impl Serializer for One {
    type Ok = O;
    type Error = Fail;
    type SerializeSeq = ser::Impossible<O, Fail>;
    type SerializeMap = ser::Impossible<O, Fail>;
    type SerializeTuple = ser::Impossible<O, Fail>;
    type SerializeTupleStruct = ser::Impossible<O, Fail>;
    type SerializeTupleVariant = ser::Impossible<O, Fail>;
    type SerializeStruct = ser::Impossible<O, Fail>;
    type SerializeStructVariant = ser::Impossible<O, Fail>;
    one! { serialize_u8 u8, 8; serialize_u16 u16, 16; serialize_u32 u32, 32; serialize_u64 u64, 64; serialize_bool bool, BOOL; }
    no! { serialize_i8 i8; serialize_i16 i16; serialize_i32 i32; serialize_i64 i64; serialize_f32 f32; serialize_f64 f64; serialize_char char; serialize_str &str; serialize_bytes &[u8]; serialize_unit_struct &'static str; }
    fn serialize_none(self) -> Result<O, Fail> { Err(Fail) }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<O, Fail> { Err(Fail) }
    fn serialize_unit(self) -> Result<O, Fail> { Err(Fail) }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<O, Fail> { Err(Fail) }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, _: &T) -> Result<O, Fail> { Err(Fail) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<O, Fail> { Err(Fail) }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, Fail> { Err(Fail) }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, Fail> { Err(Fail) }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, Fail> { Err(Fail) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTuple, Fail> { Err(Fail) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTuple, Fail> { Err(Fail) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, Fail> { Err(Fail) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStruct, Fail> { Err(Fail) }
    fn collect_str<T: ?Sized + fmt::Display>(self, _: &T) -> Result<O, Fail> { Err(Fail) }
}
impl ser::SerializeSeq for Rec {
    type Ok = Rec;
    type Error = Fail;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Fail> {
        let (k, v) = v.serialize(One)?;
        if self.n >= CAP { return Err(Fail); }
        self.elem_kind = k;
        self.key[self.n] = v;
        self.n += 1;
        Ok(())
    }
    fn end(self) -> Result<Rec, Fail> { Ok(self) }
}
impl ser::SerializeMap for Rec {
    type Ok = Rec;
    type Error = Fail;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Fail> {
        let (k, v) = v.serialize(One)?;
        if self.n >= CAP { return Err(Fail); }
        self.elem_kind = k;
        self.key[self.n] = v;
        Ok(())
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Fail> {
        let (k, v) = v.serialize(One)?;
        if k != BOOL { return Err(Fail); }
        self.val[self.n] = v != 0;
        self.n += 1;
        Ok(())
    }
    fn end(self) -> Result<Rec, Fail> { Ok(self) }
}

/// Plays a recording back to a `Deserialize` impl.
pub struct De<'a> { pub rec: &'a Rec, pub hint: bool }
fn play_int<'de, V: Visitor<'de>>(kind: u32, v: u128, vis: V) -> Result<V::Value, Fail> {
    match kind {
        8 => vis.visit_u8(v as u8),
        16 => vis.visit_u16(v as u16),
        32 => vis.visit_u32(v as u32),
        64 => vis.visit_u64(v as u64),
        128 => vis.visit_u128(v),
        BOOL => vis.visit_bool(v != 0),
        _ => Err(Fail),
    }
}
impl<'a> De<'a> {
    fn go<'de, V: Visitor<'de>>(self, vis: V) -> Result<V::Value, Fail> {
        match self.rec.kind {
            SEQ => vis.visit_seq(Items { rec: self.rec, i: 0, hint: self.hint }),
            MAP => vis.visit_map(Items { rec: self.rec, i: 0, hint: self.hint }),
            k => play_int(k, self.rec.int, vis),
        }
    }
}
macro_rules! play { ($($f:ident)*) => { $(fn $f<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Fail> { self.go(v) })* } }
macro_rules! play_more { () => {
    play! { deserialize_any deserialize_bool deserialize_i8 deserialize_i16 deserialize_i32 deserialize_i64 deserialize_u8 deserialize_u16
        deserialize_u32 deserialize_u64 deserialize_u128 deserialize_f32 deserialize_f64 deserialize_char deserialize_str deserialize_string deserialize_bytes
        deserialize_byte_buf deserialize_option deserialize_unit deserialize_seq deserialize_map deserialize_identifier deserialize_ignored_any }
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Fail> { self.go(v) }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Fail> { self.go(v) }
    fn deserialize_tuple<V: Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, Fail> { self.go(v) }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, _: usize, v: V) -> Result<V::Value, Fail> { self.go(v) }
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, Fail> { self.go(v) }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, Fail> { self.go(v) }
} }
impl<'de, 'a> Deserializer<'de> for De<'a> { type Error = Fail; play_more!(); }
struct Scalar(u32, u64);
impl Scalar { fn go<'de, V: Visitor<'de>>(self, vis: V) -> Result<V::Value, Fail> { play_int(self.0, self.1 as u128, vis) } }
impl<'de> Deserializer<'de> for Scalar { type Error = Fail; play_more!(); }
struct Items<'a> { rec: &'a Rec, i: usize, hint: bool }
impl<'de, 'a> SeqAccess<'de> for Items<'a> {
    type Error = Fail;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, Fail> {
        if self.i >= self.rec.n { return Ok(None); }
        self.i += 1;
        s.deserialize(Scalar(self.rec.elem_kind, self.rec.key[self.i - 1])).map(Some)
    }
    fn size_hint(&self) -> Option<usize> { if self.hint { Some(self.rec.n - self.i) } else { None } }
}
impl<'de, 'a> MapAccess<'de> for Items<'a> {
    type Error = Fail;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, Fail> {
        if self.i >= self.rec.n { return Ok(None); }
        s.deserialize(Scalar(self.rec.elem_kind, self.rec.key[self.i])).map(Some)
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<T::Value, Fail> {
        self.i += 1;
        s.deserialize(Scalar(BOOL, self.rec.val[self.i - 1] as u64))
    }
    fn size_hint(&self) -> Option<usize> { if self.hint { Some(self.rec.n - self.i) } else { None } }
}
pub fn rec(kind: u32) -> Rec { Rec::new(kind) }
