//! Abstract serde back end used only by the verifier.
//!
//! Nothing here is ever executed: the deductive verifier (engine/verify) interprets the MIR of
//! these functions next to the MIR of /repo's functions.  `AbsDe`/`AbsMap` are a nondeterministic
//! JSON source, `AbsSer` & co. a JSON builder.  The `prim_*` functions have no meaning in Rust;
//! the verifier gives each of them a contract (they are the specification of a JSON document).
#![allow(unused, clippy::all)]
extern crate rust_mcp_schema;
use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{self, Serialize, SerializeMap, SerializeSeq, SerializeStruct, Serializer};
use std::fmt;

#[derive(Clone, Copy)]
pub struct Json(pub u64);
#[derive(Clone, Copy)]
pub struct AbsErr(pub u64);
#[derive(Clone, Copy)]
pub struct AbsDe(pub Json);
pub struct AbsMap(pub Json);
pub struct AbsSer(pub u64);
pub struct AbsObj(pub Json);
pub struct AbsArr(pub Json);
pub struct AbsEnum(pub Json);
#[derive(Clone, Copy)]
pub enum Kind { Null, Bool, Int, Float, Str, Arr, Obj }

#[inline(never)] pub fn prim_kind(_: Json) -> Kind { loop {} }
#[inline(never)] pub fn prim_bool(_: Json) -> bool { loop {} }
#[inline(never)] pub fn prim_str(_: Json) -> String { loop {} }
#[inline(never)] pub fn prim_err() -> AbsErr { loop {} }
#[inline(never)] pub fn prim_next_key(_: &mut AbsMap) -> Option<Json> { loop {} }
#[inline(never)] pub fn prim_next_value(_: &mut AbsMap) -> Json { loop {} }
#[inline(never)] pub fn prim_obj_new() -> AbsObj { loop {} }
#[inline(never)] pub fn prim_obj_put(_: &mut AbsObj, _: Json, _: Json) { loop {} }
#[inline(never)] pub fn prim_obj_end(_: AbsObj) -> Json { loop {} }
#[inline(never)] pub fn prim_mk_str(_: &str) -> Json { loop {} }
#[inline(never)] pub fn prim_mk_null() -> Json { loop {} }
#[inline(never)] pub fn prim_mk_bool(_: bool) -> Json { loop {} }
#[inline(never)] pub fn prim_mk_int(_: i128) -> Json { loop {} }
#[inline(never)] pub fn prim_mk_f64(_: f64) -> Json { loop {} }

impl fmt::Debug for AbsErr { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { loop {} } }
impl fmt::Display for AbsErr { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { loop {} } }
impl std::error::Error for AbsErr {}
impl de::Error for AbsErr {
    fn custom<T: fmt::Display>(_: T) -> Self { prim_err() }
    fn invalid_type(_: de::Unexpected<'_>, _: &dyn de::Expected) -> Self { prim_err() }
    fn invalid_value(_: de::Unexpected<'_>, _: &dyn de::Expected) -> Self { prim_err() }
    fn invalid_length(_: usize, _: &dyn de::Expected) -> Self { prim_err() }
    fn unknown_variant(_: &str, _: &'static [&'static str]) -> Self { prim_err() }
    fn unknown_field(_: &str, _: &'static [&'static str]) -> Self { prim_err() }
    fn missing_field(_: &'static str) -> Self { prim_err() }
    fn duplicate_field(_: &'static str) -> Self { prim_err() }
}
impl ser::Error for AbsErr { fn custom<T: fmt::Display>(_: T) -> Self { prim_err() } }

macro_rules! fwd { ($($m:ident)*) => { $( fn $m<V: Visitor<'de>>(self, v: V) -> Result<V::Value, AbsErr> { self.deserialize_any(v) } )* } }
impl<'de> Deserializer<'de> for AbsDe {
    type Error = AbsErr;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, AbsErr> {
        match prim_kind(self.0) {
            Kind::Str => { let s = prim_str(self.0); v.visit_str(&s) }
            Kind::Obj => v.visit_map(AbsMap(self.0)),
            Kind::Bool => v.visit_bool(prim_bool(self.0)),
            Kind::Null => v.visit_unit(),
            _ => Err(prim_err()),
        }
    }
    fwd! { deserialize_bool deserialize_i8 deserialize_i16 deserialize_i32 deserialize_i64 deserialize_u8 deserialize_u16 deserialize_u32 deserialize_u64 deserialize_f32 deserialize_f64 deserialize_char deserialize_bytes deserialize_byte_buf deserialize_unit deserialize_seq deserialize_ignored_any }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, AbsErr> {
        match prim_kind(self.0) { Kind::Null => v.visit_none(), _ => v.visit_some(self) }
    }
    fn deserialize_str<V: Visitor<'de>>(self, v: V) -> Result<V::Value, AbsErr> {
        match prim_kind(self.0) { Kind::Str => { let s = prim_str(self.0); v.visit_str(&s) } _ => Err(prim_err()) }
    }
    fn deserialize_string<V: Visitor<'de>>(self, v: V) -> Result<V::Value, AbsErr> { self.deserialize_str(v) }
    fn deserialize_identifier<V: Visitor<'de>>(self, v: V) -> Result<V::Value, AbsErr> { self.deserialize_str(v) }
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, AbsErr> { self.deserialize_any(v) }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, AbsErr> { v.visit_newtype_struct(self) }
    fn deserialize_tuple<V: Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, AbsErr> { self.deserialize_any(v) }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, _: usize, v: V) -> Result<V::Value, AbsErr> { self.deserialize_any(v) }
    fn deserialize_map<V: Visitor<'de>>(self, v: V) -> Result<V::Value, AbsErr> {
        match prim_kind(self.0) { Kind::Obj => v.visit_map(AbsMap(self.0)), _ => Err(prim_err()) }
    }
    // A JSON array in struct position (serde's positional form) is outside the contracts:
    // it is treated as rejected, and the assumption is listed in the evidence.
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, AbsErr> {
        match prim_kind(self.0) { Kind::Obj => v.visit_map(AbsMap(self.0)), _ => Err(prim_err()) }
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, AbsErr> {
        match prim_kind(self.0) { Kind::Str => v.visit_enum(AbsEnum(self.0)), _ => Err(prim_err()) }
    }
}
impl<'de> MapAccess<'de> for AbsMap {
    type Error = AbsErr;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, seed: K) -> Result<Option<K::Value>, AbsErr> {
        match prim_next_key(self) {
            None => Ok(None),
            Some(k) => match seed.deserialize(AbsDe(k)) { Ok(v) => Ok(Some(v)), Err(e) => Err(e) },
        }
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<T::Value, AbsErr> {
        let v = prim_next_value(self);
        seed.deserialize(AbsDe(v))
    }
}
impl<'de> EnumAccess<'de> for AbsEnum {
    type Error = AbsErr;
    type Variant = AbsEnum;
    fn variant_seed<V: DeserializeSeed<'de>>(self, seed: V) -> Result<(V::Value, AbsEnum), AbsErr> {
        match seed.deserialize(AbsDe(self.0)) { Ok(v) => Ok((v, self)), Err(e) => Err(e) }
    }
}
impl<'de> VariantAccess<'de> for AbsEnum {
    type Error = AbsErr;
    fn unit_variant(self) -> Result<(), AbsErr> { Ok(()) }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, _: T) -> Result<T::Value, AbsErr> { Err(prim_err()) }
    fn tuple_variant<V: Visitor<'de>>(self, _: usize, _: V) -> Result<V::Value, AbsErr> { Err(prim_err()) }
    fn struct_variant<V: Visitor<'de>>(self, _: &'static [&'static str], _: V) -> Result<V::Value, AbsErr> { Err(prim_err()) }
}

macro_rules! ints { ($($m:ident $t:ty;)*) => { $( fn $m(self, v: $t) -> Result<Json, AbsErr> { Ok(prim_mk_int(v as i128)) } )* } }
impl Serializer for AbsSer {
    type Ok = Json;
    type Error = AbsErr;
    type SerializeSeq = AbsArr;
    type SerializeTuple = AbsArr;
    type SerializeTupleStruct = AbsArr;
    type SerializeTupleVariant = AbsArr;
    type SerializeMap = AbsObjK;
    type SerializeStruct = AbsObj;
    type SerializeStructVariant = AbsObj;
    fn serialize_bool(self, v: bool) -> Result<Json, AbsErr> { Ok(prim_mk_bool(v)) }
    ints! { serialize_i8 i8; serialize_i16 i16; serialize_i32 i32; serialize_i64 i64; serialize_u8 u8; serialize_u16 u16; serialize_u32 u32; serialize_u64 u64; }
    fn serialize_f32(self, v: f32) -> Result<Json, AbsErr> { Ok(prim_mk_f64(v as f64)) }
    fn serialize_f64(self, v: f64) -> Result<Json, AbsErr> { Ok(prim_mk_f64(v)) }
    fn serialize_char(self, _: char) -> Result<Json, AbsErr> { Err(prim_err()) }
    fn serialize_str(self, v: &str) -> Result<Json, AbsErr> { Ok(prim_mk_str(v)) }
    fn serialize_bytes(self, _: &[u8]) -> Result<Json, AbsErr> { Err(prim_err()) }
    fn serialize_none(self) -> Result<Json, AbsErr> { Ok(prim_mk_null()) }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<Json, AbsErr> { v.serialize(self) }
    fn serialize_unit(self) -> Result<Json, AbsErr> { Ok(prim_mk_null()) }
    fn serialize_unit_struct(self, _: &'static str) -> Result<Json, AbsErr> { Ok(prim_mk_null()) }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> Result<Json, AbsErr> { Ok(prim_mk_str(v)) }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<Json, AbsErr> { v.serialize(self) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, k: &'static str, v: &T) -> Result<Json, AbsErr> {
        let mut o = prim_obj_new();
        match v.serialize(AbsSer(0)) { Ok(j) => { prim_obj_put(&mut o, prim_mk_str(k), j); Ok(prim_obj_end(o)) } Err(e) => Err(e) }
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<AbsArr, AbsErr> { Err(prim_err()) }
    fn serialize_tuple(self, _: usize) -> Result<AbsArr, AbsErr> { Err(prim_err()) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<AbsArr, AbsErr> { Err(prim_err()) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<AbsArr, AbsErr> { Err(prim_err()) }
    fn serialize_map(self, _: Option<usize>) -> Result<AbsObjK, AbsErr> { Ok(AbsObjK(prim_obj_new(), None)) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<AbsObj, AbsErr> { Ok(prim_obj_new()) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<AbsObj, AbsErr> { Err(prim_err()) }
    fn collect_str<T: ?Sized + fmt::Display>(self, v: &T) -> Result<Json, AbsErr> { let s = v.to_string(); Ok(prim_mk_str(&s)) }
}
pub struct AbsObjK(pub AbsObj, pub Option<Json>);
impl SerializeStruct for AbsObj {
    type Ok = Json;
    type Error = AbsErr;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), AbsErr> {
        match v.serialize(AbsSer(0)) { Ok(j) => { prim_obj_put(self, prim_mk_str(k), j); Ok(()) } Err(e) => Err(e) }
    }
    fn skip_field(&mut self, _: &'static str) -> Result<(), AbsErr> { Ok(()) }
    fn end(self) -> Result<Json, AbsErr> { Ok(prim_obj_end(self)) }
}
impl ser::SerializeStructVariant for AbsObj {
    type Ok = Json;
    type Error = AbsErr;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, _: &'static str, _: &T) -> Result<(), AbsErr> { Err(prim_err()) }
    fn end(self) -> Result<Json, AbsErr> { Err(prim_err()) }
}
impl SerializeMap for AbsObjK {
    type Ok = Json;
    type Error = AbsErr;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, k: &T) -> Result<(), AbsErr> {
        match k.serialize(AbsSer(0)) { Ok(j) => { self.1 = Some(j); Ok(()) } Err(e) => Err(e) }
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), AbsErr> {
        match self.1 {
            Some(k) => match v.serialize(AbsSer(0)) { Ok(j) => { prim_obj_put(&mut self.0, k, j); Ok(()) } Err(e) => Err(e) },
            None => Err(prim_err()),
        }
    }
    fn end(self) -> Result<Json, AbsErr> { Ok(prim_obj_end(self.0)) }
}
macro_rules! seqs { ($($t:ident $m:ident)*) => { $( impl ser::$t for AbsArr {
    type Ok = Json; type Error = AbsErr;
    fn $m<T: ?Sized + Serialize>(&mut self, _: &T) -> Result<(), AbsErr> { Err(prim_err()) }
    fn end(self) -> Result<Json, AbsErr> { Err(prim_err()) }
} )* } }
seqs! { SerializeSeq serialize_element SerializeTuple serialize_element SerializeTupleStruct serialize_field SerializeTupleVariant serialize_field }

/// Type arguments the driver uses for generic roots (read off this signature).
pub fn root_types(_d: AbsDe, _s: AbsSer, _e: AbsErr, _m: AbsMap, _t: String, _v: serde_json::Value,
    _h: std::collections::hash_map::DefaultHasher, _vs: Vec<String>, _opt: Option<String>,
    _kv: Vec<(String, String)>, _r: &str) {}
