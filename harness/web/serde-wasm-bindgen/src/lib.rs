//! What serde-wasm-bindgen makes of Rust values: null and undefined, numbers that JavaScript holds, objects and maps.
use serde::ser::{self, Serialize};
use std::fmt::Display;
use wasm_bindgen::JsValue;

#[derive(Debug)]
pub struct Error(String);
impl Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(&self.0) }
}
impl std::error::Error for Error {}
impl ser::Error for Error {
    fn custom<T: Display>(msg: T) -> Self { Error(msg.to_string()) }
}
impl From<Error> for JsValue {
    fn from(e: Error) -> JsValue { JsValue::Str(e.0) }
}
type Result<T = JsValue> = std::result::Result<T, Error>;

#[derive(Default)]
pub struct Serializer {
    missing_as_null: bool,
    maps_as_objects: bool,
    bigints: bool,
}
impl Serializer {
    pub const fn new() -> Self { Serializer { missing_as_null: false, maps_as_objects: false, bigints: false } }
    pub const fn json_compatible() -> Self { Serializer { missing_as_null: true, maps_as_objects: true, bigints: false } }
    pub const fn serialize_missing_as_null(mut self, v: bool) -> Self {
        self.missing_as_null = v;
        self
    }
    pub const fn serialize_maps_as_objects(mut self, v: bool) -> Self {
        self.maps_as_objects = v;
        self
    }
    pub const fn serialize_large_number_types_as_bigints(mut self, v: bool) -> Self {
        self.bigints = v;
        self
    }
    pub const fn serialize_bytes_as_arrays(self, _: bool) -> Self { self }
}
pub fn to_value<T: Serialize + ?Sized>(value: &T) -> Result { value.serialize(&Serializer::new()) }

const SAFE: i128 = (1 << 53) - 1;
pub struct Seq<'a>(&'a Serializer, Option<&'static str>, Vec<JsValue>);
pub struct Map<'a>(&'a Serializer, Option<&'static str>, Option<JsValue>, Vec<(String, JsValue)>);
fn variant(name: Option<&'static str>, v: JsValue) -> JsValue {
    match name {
        Some(n) => JsValue::Obj(vec![(n.into(), v)]),
        None => v,
    }
}
impl Seq<'_> {
    fn add<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<()> {
        self.2.push(v.serialize(self.0)?);
        Ok(())
    }
    fn done(self) -> Result { Ok(variant(self.1, JsValue::Arr(self.2))) }
}
impl Map<'_> {
    fn set<T: ?Sized + Serialize>(&mut self, k: String, v: &T) -> Result<()> {
        let v = v.serialize(self.0)?;
        match self.3.iter_mut().find(|e| e.0 == k) {
            Some(e) => e.1 = v,
            None => self.3.push((k, v)),
        }
        Ok(())
    }
    fn done(self) -> Result { Ok(variant(self.1, JsValue::Obj(self.3))) }
}
impl ser::SerializeSeq for Seq<'_> {
    type Ok = JsValue;
    type Error = Error;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<()> { self.add(v) }
    fn end(self) -> Result { self.done() }
}
impl ser::SerializeTuple for Seq<'_> {
    type Ok = JsValue;
    type Error = Error;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<()> { self.add(v) }
    fn end(self) -> Result { self.done() }
}
impl ser::SerializeTupleStruct for Seq<'_> {
    type Ok = JsValue;
    type Error = Error;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<()> { self.add(v) }
    fn end(self) -> Result { self.done() }
}
impl ser::SerializeTupleVariant for Seq<'_> {
    type Ok = JsValue;
    type Error = Error;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<()> { self.add(v) }
    fn end(self) -> Result { self.done() }
}
impl ser::SerializeMap for Map<'_> {
    type Ok = JsValue;
    type Error = Error;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, k: &T) -> Result<()> {
        self.2 = Some(k.serialize(self.0)?);
        Ok(())
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<()> {
        match self.2.take() {
            Some(JsValue::Str(k)) => self.set(k, v),
            _ => Err(Error("Map key is not a string and cannot be an object key".into())),
        }
    }
    fn end(self) -> Result {
        if self.0.maps_as_objects { self.done() } else { Ok(JsValue::Undefined) } // (a Map is no plain data)
    }
}
impl ser::SerializeStruct for Map<'_> {
    type Ok = JsValue;
    type Error = Error;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<()> { self.set(k.into(), v) }
    fn end(self) -> Result { self.done() }
}
impl ser::SerializeStructVariant for Map<'_> {
    type Ok = JsValue;
    type Error = Error;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<()> { self.set(k.into(), v) }
    fn end(self) -> Result { self.done() }
}
impl Serializer {
    fn int(&self, v: i128) -> Result {
        match v {
            _ if self.bigints => Ok(JsValue::BigInt(v)),
            v if (-SAFE..=SAFE).contains(&v) => Ok(JsValue::Num(v as f64)),
            _ => Err(Error(format!("{v} can't be represented as a JavaScript number"))),
        }
    }
}
macro_rules! nums {
    ($($f:ident $t:ty),*) => { $(fn $f(self, v: $t) -> Result { Ok(JsValue::Num(v as f64)) })* };
}
impl<'a> ser::Serializer for &'a Serializer {
    type Ok = JsValue;
    type Error = Error;
    type SerializeSeq = Seq<'a>;
    type SerializeTuple = Seq<'a>;
    type SerializeTupleStruct = Seq<'a>;
    type SerializeTupleVariant = Seq<'a>;
    type SerializeMap = Map<'a>;
    type SerializeStruct = Map<'a>;
    type SerializeStructVariant = Map<'a>;
    nums!(serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_f32 f32, serialize_f64 f64);
    fn serialize_bool(self, v: bool) -> Result { Ok(JsValue::Bool(v)) }
    fn serialize_i64(self, v: i64) -> Result { self.int(v.into()) }
    fn serialize_u64(self, v: u64) -> Result { self.int(v.into()) }
    fn serialize_i128(self, v: i128) -> Result { Ok(JsValue::BigInt(v)) }
    fn serialize_u128(self, v: u128) -> Result { Ok(JsValue::BigInt(v as i128)) }
    fn serialize_char(self, v: char) -> Result { Ok(JsValue::Str(v.into())) }
    fn serialize_str(self, v: &str) -> Result { Ok(JsValue::Str(v.into())) }
    fn serialize_bytes(self, v: &[u8]) -> Result { Ok(JsValue::Arr(v.iter().map(|b| JsValue::Num(*b as f64)).collect())) }
    fn serialize_none(self) -> Result { self.serialize_unit() }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result { v.serialize(self) }
    fn serialize_unit(self) -> Result { Ok(if self.missing_as_null { JsValue::Null } else { JsValue::Undefined }) }
    fn serialize_unit_struct(self, _: &'static str) -> Result { self.serialize_unit() }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> Result { Ok(JsValue::Str(v.into())) }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result { v.serialize(self) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, n: &'static str, v: &T) -> Result {
        Ok(variant(Some(n), v.serialize(self)?))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Seq<'a>> { Ok(Seq(self, None, vec![])) }
    fn serialize_tuple(self, _: usize) -> Result<Seq<'a>> { Ok(Seq(self, None, vec![])) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Seq<'a>> { Ok(Seq(self, None, vec![])) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, n: &'static str, _: usize) -> Result<Seq<'a>> { Ok(Seq(self, Some(n), vec![])) }
    fn serialize_map(self, _: Option<usize>) -> Result<Map<'a>> { Ok(Map(self, None, None, vec![])) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Map<'a>> { Ok(Map(self, None, None, vec![])) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, n: &'static str, _: usize) -> Result<Map<'a>> { Ok(Map(self, Some(n), None, vec![])) }
}
