//! A serde format that is neither self-describing nor human readable, like the compact binary ones: numbers
//! one after the other, sequences after their length.  What is written must be as long as announced, what
//! is read must be asked for as what it is, and to its end.
use serde::de::{value::Error, DeserializeSeed, SeqAccess, Visitor};
use serde::ser::{Impossible, SerializeSeq, SerializeTuple};
use serde::{de, ser, Deserialize, Serialize};

pub fn write<T: Serialize>(t: &T) -> Result<Vec<u64>, Error> {
    let mut w = Writer(vec![]);
    t.serialize(&mut w)?;
    Ok(w.0)
}
pub fn read<'a, T: Deserialize<'a>>(v: &'a [u64]) -> Result<T, Error> {
    let mut r = Reader(v);
    let t = T::deserialize(&mut r)?;
    if r.0.is_empty() { Ok(t) } else { Err(de::Error::custom("not read to the end")) }
}

struct Writer(Vec<u64>);
struct Seq<'a>(&'a mut Writer, usize);
fn no<T>(what: &str) -> Result<T, Error> {
    Err(ser::Error::custom(format!("{what} in a map of numbers")))
}
macro_rules! num {
    ($($f:ident $t:ty),*) => { $(fn $f(self, v: $t) -> Result<(), Error> { self.0.push(v as u64); Ok(()) })* };
}
macro_rules! never {
    ($($f:ident $t:ty),*) => { $(fn $f(self, _: $t) -> Result<(), Error> { no(stringify!($f)) })* };
}
impl<'a> ser::Serializer for &'a mut Writer {
    type Ok = ();
    type Error = Error;
    type SerializeSeq = Seq<'a>;
    type SerializeTuple = Seq<'a>;
    type SerializeTupleStruct = Impossible<(), Error>;
    type SerializeTupleVariant = Impossible<(), Error>;
    type SerializeMap = Impossible<(), Error>;
    type SerializeStruct = Impossible<(), Error>;
    type SerializeStructVariant = Impossible<(), Error>;
    num!(serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64);
    never!(serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_bool bool, serialize_f32 f32,
        serialize_f64 f64, serialize_char char, serialize_str &str, serialize_bytes &[u8], serialize_unit_struct &'static str);
    fn serialize_none(self) -> Result<(), Error> { no("none") }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<(), Error> { no("some") }
    fn serialize_unit(self) -> Result<(), Error> { no("unit") }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<(), Error> { no("variant") }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<(), Error> { v.serialize(self) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(), Error> { no("variant") }
    fn serialize_seq(self, n: Option<usize>) -> Result<Seq<'a>, Error> {
        let Some(n) = n else { return no("a sequence of unknown length") };
        self.0.push(n as u64);
        Ok(Seq(self, n))
    }
    fn serialize_tuple(self, n: usize) -> Result<Seq<'a>, Error> { Ok(Seq(self, n)) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, Error> { no("tuple struct") }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, Error> { no("variant") }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, Error> { no("map") }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, Error> { no("struct") }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, Error> { no("variant") }
    fn is_human_readable(&self) -> bool { false }
}
impl Seq<'_> {
    fn one<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Error> {
        if self.1 == 0 {
            return no("more elements than announced");
        }
        self.1 -= 1;
        v.serialize(&mut *self.0)
    }
    fn all(self) -> Result<(), Error> {
        if self.1 == 0 { Ok(()) } else { no("fewer elements than announced") }
    }
}
impl SerializeSeq for Seq<'_> {
    type Ok = ();
    type Error = Error;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Error> { self.one(v) }
    fn end(self) -> Result<(), Error> { self.all() }
}
impl SerializeTuple for Seq<'_> {
    type Ok = ();
    type Error = Error;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Error> { self.one(v) }
    fn end(self) -> Result<(), Error> { self.all() }
}

struct Reader<'de>(&'de [u64]);
impl Reader<'_> {
    fn next(&mut self) -> Result<u64, Error> {
        let (x, rest) = self.0.split_first().ok_or_else(|| -> Error { de::Error::custom("unexpected end") })?;
        self.0 = rest;
        Ok(*x)
    }
}
struct Part<'a, 'de>(&'a mut Reader<'de>, usize);
impl<'de> SeqAccess<'de> for Part<'_, 'de> {
    type Error = Error;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Error> {
        if self.1 == 0 {
            return Ok(None);
        }
        self.1 -= 1;
        seed.deserialize(&mut *self.0).map(Some)
    }
    fn size_hint(&self) -> Option<usize> { Some(self.1) }
}
impl<'de> de::Deserializer<'de> for &mut Reader<'de> {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, _: V) -> Result<V::Value, Error> {
        Err(de::Error::custom("the format does not say what comes next"))
    }
    fn deserialize_u8<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> { let x = self.next()?; v.visit_u64(x) }
    fn deserialize_u32<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> { let x = self.next()?; v.visit_u64(x) }
    fn deserialize_u64<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> { let x = self.next()?; v.visit_u64(x) }
    fn deserialize_seq<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        let n = self.next()? as usize;
        v.visit_seq(Part(self, n))
    }
    fn deserialize_tuple<V: Visitor<'de>>(self, n: usize, v: V) -> Result<V::Value, Error> { v.visit_seq(Part(self, n)) }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Error> { v.visit_newtype_struct(self) }
    fn is_human_readable(&self) -> bool { false }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u16 u128 f32 f64 char str string bytes byte_buf option
        unit unit_struct tuple_struct map struct enum identifier ignored_any
    }
}
