//! A compact binary serialisation format in the manner of MessagePack (values carry their type, structures are sequences of
//! parts without names, cases are numbers), next to which JSON is the textual one: bytecode is meant to be stored in either kind.
use serde::de::{self, DeserializeSeed, IntoDeserializer, Visitor};
use serde::ser::{self, Serialize};
use std::fmt::Display;

#[derive(Debug)]
pub struct E(pub String);
impl Display for E { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for E {}
impl ser::Error for E { fn custom<T: Display>(m: T) -> E { E(m.to_string()) } }
impl de::Error for E { fn custom<T: Display>(m: T) -> E { E(m.to_string()) } }
type R<T> = Result<T, E>;

pub fn to_vec<T: Serialize>(v: &T) -> R<Vec<u8>> { let mut s = W(vec![]); v.serialize(&mut s)?; Ok(s.0) }
pub fn from_slice<T: de::DeserializeOwned>(b: &[u8]) -> R<T> { let mut d = D(b); let v = T::deserialize(&mut d)?; if d.0.is_empty() { Ok(v) } else { Err(E("trailing bytes".into())) } }

const NULL: u8 = 0; const FALSE: u8 = 1; const TRUE: u8 = 2; const POS: u8 = 3; const NEG: u8 = 4; const FLOAT: u8 = 5; const STR: u8 = 6; const BYTES: u8 = 7; const SEQ: u8 = 8; const MAP: u8 = 9; const CASE: u8 = 10;
pub struct W(Vec<u8>);
impl W {
    fn tag(&mut self, t: u8, x: u64) { self.0.push(t); self.0.extend_from_slice(&x.to_le_bytes()); }
    fn bytes(&mut self, t: u8, b: &[u8]) { self.tag(t, b.len() as u64); self.0.extend_from_slice(b); }
}
macro_rules! int { ($($f:ident $t:ty),*) => { $(fn $f(self, v: $t) -> R<()> { self.tag(if (v as i128) < 0 { NEG } else { POS }, v as i64 as u64); Ok(()) })* } }
impl<'a> ser::Serializer for &'a mut W {
    type Ok = (); type Error = E;
    type SerializeSeq = Self; type SerializeTuple = Self; type SerializeTupleStruct = Self; type SerializeTupleVariant = Self; type SerializeMap = Self; type SerializeStruct = Self; type SerializeStructVariant = Self;
    int!(serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64);
    fn is_human_readable(&self) -> bool { false }
    fn serialize_f32(self, v: f32) -> R<()> { self.serialize_f64(v as f64) }
    fn serialize_f64(self, v: f64) -> R<()> { self.tag(FLOAT, v.to_bits()); Ok(()) }
    fn serialize_bool(self, v: bool) -> R<()> { self.0.push(if v { TRUE } else { FALSE }); Ok(()) }
    fn serialize_char(self, v: char) -> R<()> { self.serialize_str(v.encode_utf8(&mut [0; 4])) }
    fn serialize_str(self, v: &str) -> R<()> { self.bytes(STR, v.as_bytes()); Ok(()) }
    fn serialize_bytes(self, v: &[u8]) -> R<()> { self.bytes(BYTES, v); Ok(()) }
    fn serialize_none(self) -> R<()> { self.0.push(NULL); Ok(()) }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> R<()> { v.serialize(self) }
    fn serialize_unit(self) -> R<()> { self.0.push(NULL); Ok(()) }
    fn serialize_unit_struct(self, _: &'static str) -> R<()> { self.serialize_unit() }
    fn serialize_unit_variant(self, _: &'static str, i: u32, _: &'static str) -> R<()> { self.tag(CASE, i as u64); self.serialize_unit() }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> R<()> { v.serialize(self) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, i: u32, _: &'static str, v: &T) -> R<()> { self.tag(CASE, i as u64); v.serialize(self) }
    fn serialize_seq(self, n: Option<usize>) -> R<Self> { self.tag(SEQ, n.ok_or(E("sequence of unknown length".into()))? as u64); Ok(self) }
    fn serialize_tuple(self, n: usize) -> R<Self> { self.tag(SEQ, n as u64); Ok(self) }
    fn serialize_tuple_struct(self, _: &'static str, n: usize) -> R<Self> { self.tag(SEQ, n as u64); Ok(self) }
    fn serialize_tuple_variant(self, _: &'static str, i: u32, _: &'static str, n: usize) -> R<Self> { self.tag(CASE, i as u64); self.tag(SEQ, n as u64); Ok(self) }
    fn serialize_map(self, n: Option<usize>) -> R<Self> { self.tag(MAP, n.ok_or(E("map of unknown length".into()))? as u64); Ok(self) }
    fn serialize_struct(self, _: &'static str, n: usize) -> R<Self> { self.tag(SEQ, n as u64); Ok(self) }
    fn serialize_struct_variant(self, _: &'static str, i: u32, _: &'static str, n: usize) -> R<Self> { self.tag(CASE, i as u64); self.tag(SEQ, n as u64); Ok(self) }
}
macro_rules! part { ($($t:ident $f:ident),*) => { $(impl<'a> ser::$t for &'a mut W { type Ok = (); type Error = E; fn $f<T: ?Sized + Serialize>(&mut self, v: &T) -> R<()> { v.serialize(&mut **self) } fn end(self) -> R<()> { Ok(()) } })* } }
part!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);
impl<'a> ser::SerializeMap for &'a mut W { type Ok = (); type Error = E; fn serialize_key<T: ?Sized + Serialize>(&mut self, v: &T) -> R<()> { v.serialize(&mut **self) } fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> R<()> { v.serialize(&mut **self) } fn end(self) -> R<()> { Ok(()) } }
macro_rules! named { ($($t:ident),*) => { $(impl<'a> ser::$t for &'a mut W { type Ok = (); type Error = E; fn serialize_field<T: ?Sized + Serialize>(&mut self, _: &'static str, v: &T) -> R<()> { v.serialize(&mut **self) } fn end(self) -> R<()> { Ok(()) } })* } }
named!(SerializeStruct, SerializeStructVariant);

pub struct D<'de>(&'de [u8]);
impl<'de> D<'de> {
    fn take(&mut self, n: usize) -> R<&'de [u8]> { if n > self.0.len() { return Err(E("end of data".into())); } let (a, b) = self.0.split_at(n); self.0 = b; Ok(a) }
    fn n(&mut self) -> R<u64> { Ok(u64::from_le_bytes(self.take(8)?.try_into().unwrap())) }
}
struct Seq<'a, 'de>(&'a mut D<'de>, usize);
impl<'a, 'de> de::SeqAccess<'de> for Seq<'a, 'de> {
    type Error = E;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> R<Option<T::Value>> { if self.1 == 0 { return Ok(None); } self.1 -= 1; s.deserialize(&mut *self.0).map(Some) }
    fn size_hint(&self) -> Option<usize> { Some(self.1) }
}
impl<'a, 'de> de::MapAccess<'de> for Seq<'a, 'de> {
    type Error = E;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> R<Option<T::Value>> { if self.1 == 0 { return Ok(None); } self.1 -= 1; s.deserialize(&mut *self.0).map(Some) }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> R<T::Value> { s.deserialize(&mut *self.0) }
}
impl<'a, 'de> de::EnumAccess<'de> for &'a mut D<'de> {
    type Error = E; type Variant = Self;
    fn variant_seed<T: DeserializeSeed<'de>>(self, s: T) -> R<(T::Value, Self)> {
        if self.take(1)?[0] != CASE { return Err(E("not a case".into())); }
        let i = self.n()? as u32;
        let v = s.deserialize(IntoDeserializer::<E>::into_deserializer(i))?;
        Ok((v, self))
    }
}
impl<'a, 'de> de::VariantAccess<'de> for &'a mut D<'de> {
    type Error = E;
    fn unit_variant(self) -> R<()> { if self.take(1)?[0] == NULL { Ok(()) } else { Err(E("not empty".into())) } }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, s: T) -> R<T::Value> { s.deserialize(self) }
    fn tuple_variant<V: Visitor<'de>>(self, _: usize, v: V) -> R<V::Value> { de::Deserializer::deserialize_any(self, v) }
    fn struct_variant<V: Visitor<'de>>(self, _: &'static [&'static str], v: V) -> R<V::Value> { de::Deserializer::deserialize_any(self, v) }
}
impl<'a, 'de> de::Deserializer<'de> for &'a mut D<'de> {
    type Error = E;
    fn is_human_readable(&self) -> bool { false }
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> R<V::Value> {
        match self.take(1)?[0] {
            NULL => v.visit_unit(), FALSE => v.visit_bool(false), TRUE => v.visit_bool(true),
            POS => v.visit_u64(self.n()?), NEG => v.visit_i64(self.n()? as i64), FLOAT => v.visit_f64(f64::from_bits(self.n()?)),
            STR => { let n = self.n()? as usize; v.visit_str(std::str::from_utf8(self.take(n)?).map_err(|e| E(e.to_string()))?) }
            BYTES => { let n = self.n()? as usize; v.visit_bytes(self.take(n)?) }
            t @ (SEQ | MAP) => {
                let n = self.n()? as usize;
                if n > self.0.len() { return Err(E("end of data".into())); }
                let mut s = Seq(self, n);
                let x = if t == SEQ { v.visit_seq(&mut s)? } else { v.visit_map(&mut s)? };
                if s.1 == 0 { Ok(x) } else { Err(E("too many parts".into())) }
            }
            t => Err(E(format!("unexpected tag {t}"))),
        }
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> R<V::Value> { if self.0.first() == Some(&NULL) { self.take(1)?; v.visit_none() } else { v.visit_some(self) } }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> R<V::Value> { v.visit_newtype_struct(self) }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> R<V::Value> { v.visit_enum(self) }
    serde::forward_to_deserialize_any! { i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 bool char str string bytes byte_buf unit unit_struct seq tuple tuple_struct map struct identifier ignored_any }
}
