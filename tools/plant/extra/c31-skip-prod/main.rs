#![allow(unused)]
use lfa::{*, basis::*, optim::*};
use ndarray::{Array1, Array2, arr1, arr2};
use serde::ser::*;
struct F; struct C(usize);
#[derive(Debug)] struct E; impl std::fmt::Display for E { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) } } impl std::error::Error for E {} impl serde::ser::Error for E { fn custom<T: std::fmt::Display>(_: T) -> E { E } }
type I = Impossible<usize, E>;
impl SerializeStruct for C { type Ok = usize; type Error = E; fn serialize_field<T: ?Sized + Serialize>(&mut self, _: &'static str, _: &T) -> std::result::Result<(), E> { self.0 += 1; Ok(()) } fn end(self) -> std::result::Result<usize, E> { Ok(self.0) } }
macro_rules! no { ($($n:ident $t:ty),*) => { $(fn $n(self, _: $t) -> std::result::Result<usize, E> { Err(E) })* } }
impl Serializer for F { type Ok = usize; type Error = E; type SerializeSeq = I; type SerializeTuple = I; type SerializeTupleStruct = I; type SerializeTupleVariant = I; type SerializeMap = I; type SerializeStruct = C; type SerializeStructVariant = I;
 no!(serialize_bool bool, serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_f32 f32, serialize_f64 f64, serialize_char char, serialize_str &str, serialize_bytes &[u8], serialize_unit_struct &'static str);
 fn serialize_none(self) -> std::result::Result<usize, E> { Err(E) } fn serialize_unit(self) -> std::result::Result<usize, E> { Err(E) }
 fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> std::result::Result<usize, E> { Err(E) }
 fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> std::result::Result<usize, E> { Err(E) }
 fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, _: &T) -> std::result::Result<usize, E> { Err(E) }
 fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> std::result::Result<usize, E> { Err(E) }
 fn serialize_seq(self, _: Option<usize>) -> std::result::Result<I, E> { Err(E) } fn serialize_tuple(self, _: usize) -> std::result::Result<I, E> { Err(E) }
 fn serialize_tuple_struct(self, _: &'static str, _: usize) -> std::result::Result<I, E> { Err(E) } fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> std::result::Result<I, E> { Err(E) }
 fn serialize_map(self, _: Option<usize>) -> std::result::Result<I, E> { Err(E) } fn serialize_struct(self, _: &'static str, _: usize) -> std::result::Result<C, E> { Ok(C(0)) }
 fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> std::result::Result<I, E> { Err(E) } }
fn main() {
use serde::{Serialize, Deserialize, de::IntoDeserializer};
    let o = Adam::new(1, 1.0, 0.5, 0.5); struct Count(usize);
    // count the fields that are written
    let s = o.serialize(F).unwrap(); assert_eq!(s, 7);
}
