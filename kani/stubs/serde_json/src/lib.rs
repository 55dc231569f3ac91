//! Stand-in for serde_json: text of strings, integers, booleans, null, maps and sequences; reading back objects
//! whose values are strings or integers. Escapes: only \" and \\.
use serde::de::{self, DeserializeSeed, Visitor};
use serde::ser::{self, Serialize};
#[derive(Debug, Clone)]
pub struct Error(pub &'static str);
pub type Result<T> = std::result::Result<T, Error>;
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(self.0) } }
impl std::error::Error for Error {}
impl ser::Error for Error { fn custom<T: std::fmt::Display>(_m: T) -> Self { Error("custom") } }
impl de::Error for Error { fn custom<T: std::fmt::Display>(_m: T) -> Self { Error("custom") } }
pub struct Out { s: Vec<u8>, key: bool }
fn num(o: &mut Vec<u8>, neg: bool, mut x: u64) { if neg { o.push(b'-'); } let mut b = [0u8; 20]; let mut n = 0; loop { b[n] = b'0' + (x % 10) as u8; x /= 10; n += 1; if x == 0 { break; } } while n > 0 { n -= 1; o.push(b[n]); } }
impl Out { fn int(&mut self, neg: bool, x: u64) -> Result<()> { if self.key { self.s.push(b'"'); } num(&mut self.s, neg, x); if self.key { self.s.push(b'"'); } Ok(()) } }
pub struct Comp<'a> { o: &'a mut Out, first: bool, end: u8 }
impl<'a> ser::Serializer for &'a mut Out {
    type Ok = (); type Error = Error; type SerializeSeq = Comp<'a>; type SerializeTuple = Comp<'a>; type SerializeTupleStruct = ser::Impossible<(), Error>; type SerializeTupleVariant = ser::Impossible<(), Error>; type SerializeMap = Comp<'a>; type SerializeStruct = Comp<'a>; type SerializeStructVariant = ser::Impossible<(), Error>;
    fn serialize_bool(self, v: bool) -> Result<()> { self.s.extend_from_slice(if v { b"true" } else { b"false" }); Ok(()) }
    fn serialize_i8(self, v: i8) -> Result<()> { self.serialize_i64(v as i64) }
    fn serialize_i16(self, v: i16) -> Result<()> { self.serialize_i64(v as i64) }
    fn serialize_i32(self, v: i32) -> Result<()> { self.serialize_i64(v as i64) }
    fn serialize_i64(self, v: i64) -> Result<()> { self.int(v < 0, v.unsigned_abs()) }
    fn serialize_u8(self, v: u8) -> Result<()> { self.int(false, v as u64) }
    fn serialize_u16(self, v: u16) -> Result<()> { self.int(false, v as u64) }
    fn serialize_u32(self, v: u32) -> Result<()> { self.int(false, v as u64) }
    fn serialize_u64(self, v: u64) -> Result<()> { self.int(false, v) }
    fn serialize_f32(self, _v: f32) -> Result<()> { Err(Error("float")) }
    fn serialize_f64(self, _v: f64) -> Result<()> { Err(Error("float")) }
    fn serialize_char(self, v: char) -> Result<()> { let mut b = [0; 4]; self.serialize_str(v.encode_utf8(&mut b)) }
    fn serialize_str(self, v: &str) -> Result<()> { self.s.push(b'"'); for &b in v.as_bytes() { if b == b'"' || b == b'\\' { self.s.push(b'\\'); } self.s.push(b); } self.s.push(b'"'); Ok(()) }
    fn serialize_bytes(self, _v: &[u8]) -> Result<()> { Err(Error("bytes")) }
    fn serialize_none(self) -> Result<()> { self.serialize_unit() }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<()> { v.serialize(self) }
    fn serialize_unit(self) -> Result<()> { self.s.extend_from_slice(b"null"); Ok(()) }
    fn serialize_unit_struct(self, _n: &'static str) -> Result<()> { self.serialize_unit() }
    fn serialize_unit_variant(self, _n: &'static str, _i: u32, v: &'static str) -> Result<()> { self.serialize_str(v) }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _n: &'static str, v: &T) -> Result<()> { v.serialize(self) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _n: &'static str, _i: u32, k: &'static str, v: &T) -> Result<()> { self.s.push(b'{'); self.serialize_str(k)?; self.s.push(b':'); v.serialize(&mut *self)?; self.s.push(b'}'); Ok(()) }
    fn serialize_seq(self, _l: Option<usize>) -> Result<Comp<'a>> { self.s.push(b'['); Ok(Comp { o: self, first: true, end: b']' }) }
    fn serialize_tuple(self, _l: usize) -> Result<Comp<'a>> { self.serialize_seq(None) }
    fn serialize_tuple_struct(self, _n: &'static str, _l: usize) -> Result<Self::SerializeTupleStruct> { Err(Error("tuple struct")) }
    fn serialize_tuple_variant(self, _n: &'static str, _i: u32, _v: &'static str, _l: usize) -> Result<Self::SerializeTupleVariant> { Err(Error("tuple variant")) }
    fn serialize_map(self, _l: Option<usize>) -> Result<Comp<'a>> { self.s.push(b'{'); Ok(Comp { o: self, first: true, end: b'}' }) }
    fn serialize_struct(self, _n: &'static str, _l: usize) -> Result<Comp<'a>> { self.serialize_map(None) }
    fn serialize_struct_variant(self, _n: &'static str, _i: u32, _v: &'static str, _l: usize) -> Result<Self::SerializeStructVariant> { Err(Error("struct variant")) }
}
impl<'a> Comp<'a> { fn sep(&mut self) { if !self.first { self.o.s.push(b','); } self.first = false; } fn fin(self) -> Result<()> { self.o.s.push(self.end); Ok(()) } }
impl<'a> ser::SerializeMap for Comp<'a> { type Ok = (); type Error = Error;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, k: &T) -> Result<()> { self.sep(); self.o.key = true; k.serialize(&mut *self.o)?; self.o.key = false; Ok(()) }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<()> { self.o.s.push(b':'); v.serialize(&mut *self.o) }
    fn end(self) -> Result<()> { self.fin() } }
impl<'a> ser::SerializeStruct for Comp<'a> { type Ok = (); type Error = Error; fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<()> { ser::SerializeMap::serialize_key(self, k)?; ser::SerializeMap::serialize_value(self, v) } fn end(self) -> Result<()> { self.fin() } }
impl<'a> ser::SerializeSeq for Comp<'a> { type Ok = (); type Error = Error; fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<()> { self.sep(); v.serialize(&mut *self.o) } fn end(self) -> Result<()> { self.fin() } }
impl<'a> ser::SerializeTuple for Comp<'a> { type Ok = (); type Error = Error; fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<()> { self.sep(); v.serialize(&mut *self.o) } fn end(self) -> Result<()> { self.fin() } }
pub fn to_vec<T: ?Sized + Serialize>(t: &T) -> Result<Vec<u8>> { let mut o = Out { s: Vec::with_capacity(64), key: false }; t.serialize(&mut o)?; Ok(o.s) }
pub fn to_string<T: ?Sized + Serialize>(t: &T) -> Result<String> { to_vec(t).map(|v| unsafe { String::from_utf8_unchecked(v) }) }

struct In<'a> { s: &'a [u8], i: usize }
impl<'a> In<'a> {
    fn ws(&mut self) { while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\n') { self.i += 1; } }
    fn eat(&mut self, b: u8) -> bool { self.ws(); if self.i < self.s.len() && self.s[self.i] == b { self.i += 1; true } else { false } }
    fn text(&mut self) -> Result<String> { let mut o = Vec::with_capacity(16); loop { if self.i >= self.s.len() { return Err(Error("eof")); } let b = self.s[self.i]; self.i += 1; if b == b'"' { return Ok(unsafe { String::from_utf8_unchecked(o) }); } if b == b'\\' { if self.i >= self.s.len() { return Err(Error("eof")); } o.push(self.s[self.i]); self.i += 1; } else { o.push(b); } } }
}
pub fn from_str<'a, T: de::Deserialize<'a>>(s: &'a str) -> Result<T> { from_slice(s.as_bytes()) }
pub fn from_slice<'a, T: de::Deserialize<'a>>(s: &'a [u8]) -> Result<T> { let mut i = In { s, i: 0 }; let t = T::deserialize(&mut i)?; i.ws(); if i.i != s.len() { return Err(Error("trailing")); } Ok(t) }
impl<'a, 'de> de::Deserializer<'de> for &'a mut In<'de> {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value> {
        if self.eat(b'"') { return v.visit_string(self.text()?); }
        if self.eat(b'{') { return v.visit_map(Obj { i: self, first: true }); }
        let neg = self.eat(b'-');
        let (a, mut x) = (self.i, 0u64);
        while self.i < self.s.len() && self.s[self.i].is_ascii_digit() { x = x * 10 + (self.s[self.i] - b'0') as u64; self.i += 1; }
        if self.i == a { return Err(Error("unexpected")); }
        if neg { v.visit_i64(-(x as i64)) } else { v.visit_u64(x) }
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value> { v.visit_some(self) }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _n: &'static str, v: V) -> Result<V::Value> { v.visit_newtype_struct(self) }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf unit unit_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
struct Obj<'a, 'de> { i: &'a mut In<'de>, first: bool }
impl<'a, 'de> de::MapAccess<'de> for Obj<'a, 'de> {
    type Error = Error;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, k: K) -> Result<Option<K::Value>> { if self.i.eat(b'}') { return if self.first { Ok(None) } else { Ok(None) }; } if !self.first && !self.i.eat(b',') { return Err(Error("comma")); } self.first = false; self.i.ws(); k.deserialize(&mut *self.i).map(Some) }
    fn next_value_seed<V: DeserializeSeed<'de>>(&mut self, v: V) -> Result<V::Value> { if !self.i.eat(b':') { return Err(Error("colon")); } v.deserialize(&mut *self.i) }
}
pub mod error { pub use super::Error; }
