#![allow(dead_code)]
//! two self-describing serde formats that keep values in a tree: structs as
//! maps from field names, or as sequences of fields
use serde::de::{self, DeserializeOwned, DeserializeSeed, IntoDeserializer, Visitor};
use serde::ser::{self, Serialize};

#[derive(Clone, Debug)]
pub enum V {
    Unit,
    B(bool),
    U(u64),
    I(i64),
    F(f64),
    S(String),
    Opt(Option<Box<V>>),
    Seq(Vec<V>),
    Map(Vec<(V, V)>),
    Fields(Vec<(&'static str, V)>),
    Variant(&'static str, Box<V>),
}

#[derive(Debug, PartialEq)]
pub enum E {
    Custom,
    Missing,
    Duplicate,
    Length,
    Type,
}
impl std::fmt::Display for E {
    fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) }
}
impl std::error::Error for E {}
impl ser::Error for E {
    fn custom<T: std::fmt::Display>(_: T) -> E { E::Custom }
}
impl de::Error for E {
    fn custom<T: std::fmt::Display>(_: T) -> E { E::Custom }
    fn missing_field(_: &'static str) -> E { E::Missing }
    fn duplicate_field(_: &'static str) -> E { E::Duplicate }
    fn invalid_length(_: usize, _: &dyn de::Expected) -> E { E::Length }
    fn invalid_type(_: de::Unexpected, _: &dyn de::Expected) -> E { E::Type }
    fn invalid_value(_: de::Unexpected, _: &dyn de::Expected) -> E { E::Type }
    fn unknown_variant(_: &str, _: &'static [&'static str]) -> E { E::Type }
    fn unknown_field(_: &str, _: &'static [&'static str]) -> E { E::Type }
}

pub struct Ser;
pub struct Many {
    seq: Vec<V>,
    map: Vec<(V, V)>,
    fields: Vec<(&'static str, V)>,
    variant: Option<&'static str>,
}
fn many(variant: Option<&'static str>) -> Many { Many { seq: vec![], map: vec![], fields: vec![], variant } }
fn wrap(variant: Option<&'static str>, v: V) -> V {
    match variant {
        Some(n) => V::Variant(n, Box::new(v)),
        None => v,
    }
}
type R = Result<V, E>;

impl ser::Serializer for Ser {
    type Ok = V;
    type Error = E;
    type SerializeSeq = Many;
    type SerializeTuple = Many;
    type SerializeTupleStruct = Many;
    type SerializeTupleVariant = Many;
    type SerializeMap = Many;
    type SerializeStruct = Many;
    type SerializeStructVariant = Many;
    fn serialize_bool(self, v: bool) -> R { Ok(V::B(v)) }
    fn serialize_i8(self, v: i8) -> R { Ok(V::I(v as i64)) }
    fn serialize_i16(self, v: i16) -> R { Ok(V::I(v as i64)) }
    fn serialize_i32(self, v: i32) -> R { Ok(V::I(v as i64)) }
    fn serialize_i64(self, v: i64) -> R { Ok(V::I(v)) }
    fn serialize_u8(self, v: u8) -> R { Ok(V::U(v as u64)) }
    fn serialize_u16(self, v: u16) -> R { Ok(V::U(v as u64)) }
    fn serialize_u32(self, v: u32) -> R { Ok(V::U(v as u64)) }
    fn serialize_u64(self, v: u64) -> R { Ok(V::U(v)) }
    fn serialize_f32(self, v: f32) -> R { Ok(V::F(v as f64)) }
    fn serialize_f64(self, v: f64) -> R { Ok(V::F(v)) }
    fn serialize_char(self, v: char) -> R { Ok(V::U(v as u64)) }
    fn serialize_str(self, v: &str) -> R { Ok(V::S(v.to_string())) }
    fn serialize_bytes(self, v: &[u8]) -> R { Ok(V::Seq(v.iter().map(|&b| V::U(b as u64)).collect())) }
    fn serialize_none(self) -> R { Ok(V::Opt(None)) }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> R { Ok(V::Opt(Some(Box::new(v.serialize(Ser)?)))) }
    fn serialize_unit(self) -> R { Ok(V::Unit) }
    fn serialize_unit_struct(self, _: &'static str) -> R { Ok(V::Unit) }
    fn serialize_unit_variant(self, _: &'static str, _: u32, n: &'static str) -> R { Ok(V::Variant(n, Box::new(V::Unit))) }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> R { v.serialize(Ser) }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, n: &'static str, v: &T) -> R {
        Ok(V::Variant(n, Box::new(v.serialize(Ser)?)))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Many, E> { Ok(many(None)) }
    fn serialize_tuple(self, _: usize) -> Result<Many, E> { Ok(many(None)) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Many, E> { Ok(many(None)) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, n: &'static str, _: usize) -> Result<Many, E> { Ok(many(Some(n))) }
    fn serialize_map(self, _: Option<usize>) -> Result<Many, E> { Ok(many(None)) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Many, E> { Ok(many(None)) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, n: &'static str, _: usize) -> Result<Many, E> { Ok(many(Some(n))) }
}
macro_rules! seqs {
    ($t:ident, $f:ident) => {
        impl ser::$t for Many {
            type Ok = V;
            type Error = E;
            fn $f<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
                self.seq.push(v.serialize(Ser)?);
                Ok(())
            }
            fn end(self) -> R { Ok(wrap(self.variant, V::Seq(self.seq))) }
        }
    };
}
seqs!(SerializeSeq, serialize_element);
seqs!(SerializeTuple, serialize_element);
seqs!(SerializeTupleStruct, serialize_field);
seqs!(SerializeTupleVariant, serialize_field);
impl ser::SerializeMap for Many {
    type Ok = V;
    type Error = E;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, k: &T) -> Result<(), E> {
        self.map.push((k.serialize(Ser)?, V::Unit));
        Ok(())
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
        let x = v.serialize(Ser)?;
        self.map.last_mut().unwrap().1 = x;
        Ok(())
    }
    fn end(self) -> R { Ok(V::Map(self.map)) }
}
macro_rules! structs {
    ($t:ident) => {
        impl ser::$t for Many {
            type Ok = V;
            type Error = E;
            fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), E> {
                self.fields.push((k, v.serialize(Ser)?));
                Ok(())
            }
            fn end(self) -> R { Ok(wrap(self.variant, V::Fields(self.fields))) }
        }
    };
}
structs!(SerializeStruct);
structs!(SerializeStructVariant);

/// structs come as sequences if `.1`, else as maps
pub struct De(V, bool);
struct SeqA(std::vec::IntoIter<V>, bool);
struct MapA(std::vec::IntoIter<(V, V)>, Option<V>, bool);
struct EnumA(&'static str, V, bool);
impl<'de> de::SeqAccess<'de> for SeqA {
    type Error = E;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, E> {
        match self.0.next() {
            Some(v) => s.deserialize(De(v, self.1)).map(Some),
            None => Ok(None),
        }
    }
    fn size_hint(&self) -> Option<usize> { Some(self.0.len()) }
}
impl<'de> de::MapAccess<'de> for MapA {
    type Error = E;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, E> {
        match self.0.next() {
            Some((k, v)) => {
                self.1 = Some(v);
                s.deserialize(De(k, self.2)).map(Some)
            }
            None => Ok(None),
        }
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<T::Value, E> {
        s.deserialize(De(self.1.take().unwrap(), self.2))
    }
    fn size_hint(&self) -> Option<usize> { Some(self.0.len()) }
}
impl<'de> de::EnumAccess<'de> for EnumA {
    type Error = E;
    type Variant = De;
    fn variant_seed<T: DeserializeSeed<'de>>(self, s: T) -> Result<(T::Value, De), E> {
        let n: serde::de::value::StrDeserializer<E> = self.0.into_deserializer();
        Ok((s.deserialize(n)?, De(self.1, self.2)))
    }
}
impl<'de> de::VariantAccess<'de> for De {
    type Error = E;
    fn unit_variant(self) -> Result<(), E> { Ok(()) }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, s: T) -> Result<T::Value, E> { s.deserialize(self) }
    fn tuple_variant<W: Visitor<'de>>(self, _: usize, v: W) -> Result<W::Value, E> { de::Deserializer::deserialize_any(self, v) }
    fn struct_variant<W: Visitor<'de>>(self, _: &'static [&'static str], v: W) -> Result<W::Value, E> { de::Deserializer::deserialize_any(self, v) }
}
impl<'de> de::Deserializer<'de> for De {
    type Error = E;
    fn deserialize_any<W: Visitor<'de>>(self, w: W) -> Result<W::Value, E> {
        let s = self.1;
        match self.0 {
            V::Unit => w.visit_unit(),
            V::B(b) => w.visit_bool(b),
            V::U(x) => w.visit_u64(x),
            V::I(x) => w.visit_i64(x),
            V::F(x) => w.visit_f64(x),
            V::S(x) => w.visit_string(x),
            V::Opt(None) => w.visit_none(),
            V::Opt(Some(v)) => w.visit_some(De(*v, s)),
            V::Seq(v) => w.visit_seq(SeqA(v.into_iter(), s)),
            V::Map(v) => w.visit_map(MapA(v.into_iter(), None, s)),
            V::Fields(v) => {
                if s {
                    w.visit_seq(SeqA(v.into_iter().map(|f| f.1).collect::<Vec<V>>().into_iter(), s))
                } else {
                    w.visit_map(MapA(v.into_iter().map(|(k, x)| (V::S(k.to_string()), x)).collect::<Vec<_>>().into_iter(), None, s))
                }
            }
            V::Variant(n, v) => w.visit_enum(EnumA(n, *v, s)),
        }
    }
    fn deserialize_option<W: Visitor<'de>>(self, w: W) -> Result<W::Value, E> {
        match self.0 {
            V::Opt(_) => self.deserialize_any(w),
            _ => w.visit_some(self),
        }
    }
    fn deserialize_newtype_struct<W: Visitor<'de>>(self, _: &'static str, w: W) -> Result<W::Value, E> { w.visit_newtype_struct(self) }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf unit unit_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}

pub fn to<T: Serialize>(t: &T) -> V { t.serialize(Ser).unwrap_or(V::Unit) }
pub fn from<T: DeserializeOwned>(v: V, seq: bool) -> Result<T, E> { T::deserialize(De(v, seq)) }
