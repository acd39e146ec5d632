#![allow(dead_code, unused)]
use serde::{de, ser, Deserialize, Serialize};
use wot_td::extend::*;
use wot_td::hlist::*;
use wot_td::protocol::*;
use wot_td::thing::*;

// ---------------------------------------------------------------- extensions with one member each
macro_rules! ext {
    ($($n:ident $k:literal),*) => { $(
        #[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
        pub struct $n { #[serde(rename = $k)] pub v: Option<String> }
    )* }
}
ext!(XT "x:thing", XI "x:interaction", XP "x:property", XA "x:action", XE "x:event", XF "x:form", XR "x:response", XD "x:schema", XO "x:object", XY "x:array");
impl ExtendableThing for XT {
    type InteractionAffordance = XI;
    type PropertyAffordance = XP;
    type ActionAffordance = XA;
    type EventAffordance = XE;
    type Form = XF;
    type ExpectedResponse = XR;
    type DataSchema = XD;
    type ObjectSchema = XO;
    type ArraySchema = XY;
}
pub type Exts = Cons<XA, Cons<XE, Cons<XD, Nil>>>;
pub type ProtoForms = Cons<http::Form, Cons<coap::Form, Cons<mqtt::Form, Nil>>>;
pub type DSX = DataSchema<XD, XY, XO>;

// ---------------------------------------------------------------- a serializer that keeps what is written
pub enum J { Null, Bool(bool), Int(i64), Float(f64), Str(String), Seq(Vec<J>), Map(Vec<(J, J)>), Other }
#[derive(Debug)]
pub enum Er { Missing(&'static str), Duplicate(&'static str), Unknown, Variant, Msg }
impl std::fmt::Display for Er { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
impl std::error::Error for Er {}
impl ser::Error for Er { fn custom<T: std::fmt::Display>(_: T) -> Self { Er::Msg } }
impl de::Error for Er {
    fn custom<T: std::fmt::Display>(_: T) -> Self { Er::Msg }
    fn invalid_type(_: de::Unexpected, _: &dyn de::Expected) -> Self { Er::Msg }
    fn invalid_value(_: de::Unexpected, _: &dyn de::Expected) -> Self { Er::Msg }
    fn invalid_length(_: usize, _: &dyn de::Expected) -> Self { Er::Msg }
    fn unknown_variant(_: &str, _: &'static [&'static str]) -> Self { Er::Variant }
    fn unknown_field(_: &str, _: &'static [&'static str]) -> Self { Er::Unknown }
    fn missing_field(f: &'static str) -> Self { Er::Missing(f) }
    fn duplicate_field(f: &'static str) -> Self { Er::Duplicate(f) }
}

/// The document writer: Rec<0> for the value of an entry point, Rec<1> for the values nested in it.
pub struct Rec<const N: usize>;
pub struct RMap(Vec<(J, J)>, Option<J>);
pub struct RSeq(Vec<J>);
pub struct RVar(&'static str, Vec<J>);
pub struct RSVar(&'static str, Vec<(J, J)>);
fn key(k: &'static str) -> J { J::Str(String::from(k)) }
impl<const N: usize> ser::Serializer for Rec<N> {
    type Ok = J;
    type Error = Er;
    type SerializeSeq = RSeq;
    type SerializeTuple = RSeq;
    type SerializeTupleStruct = RSeq;
    type SerializeTupleVariant = RVar;
    type SerializeMap = RMap;
    type SerializeStruct = RMap;
    type SerializeStructVariant = RSVar;
    fn serialize_bool(self, v: bool) -> Result<J, Er> { Ok(J::Bool(v)) }
    fn serialize_i8(self, v: i8) -> Result<J, Er> { Ok(J::Int(v as i64)) }
    fn serialize_i16(self, v: i16) -> Result<J, Er> { Ok(J::Int(v as i64)) }
    fn serialize_i32(self, v: i32) -> Result<J, Er> { Ok(J::Int(v as i64)) }
    fn serialize_i64(self, v: i64) -> Result<J, Er> { Ok(J::Int(v)) }
    fn serialize_u8(self, v: u8) -> Result<J, Er> { Ok(J::Int(v as i64)) }
    fn serialize_u16(self, v: u16) -> Result<J, Er> { Ok(J::Int(v as i64)) }
    fn serialize_u32(self, v: u32) -> Result<J, Er> { Ok(J::Int(v as i64)) }
    fn serialize_u64(self, v: u64) -> Result<J, Er> { Ok(J::Int(v as i64)) }
    fn serialize_f32(self, v: f32) -> Result<J, Er> { Ok(J::Float(v as f64)) }
    fn serialize_f64(self, v: f64) -> Result<J, Er> { Ok(J::Float(v)) }
    fn serialize_char(self, v: char) -> Result<J, Er> { Ok(J::Other) }
    fn serialize_str(self, v: &str) -> Result<J, Er> { Ok(J::Str(String::from(v))) }
    fn serialize_bytes(self, v: &[u8]) -> Result<J, Er> { Ok(J::Other) }
    fn serialize_none(self) -> Result<J, Er> { Ok(J::Null) }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<J, Er> { v.serialize(Rec::<1>) }
    fn serialize_unit(self) -> Result<J, Er> { Ok(J::Null) }
    fn serialize_unit_struct(self, _: &'static str) -> Result<J, Er> { Ok(J::Null) }
    fn serialize_unit_variant(self, _: &'static str, _: u32, n: &'static str) -> Result<J, Er> { Ok(key(n)) }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result<J, Er> { v.serialize(Rec::<1>) }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, n: &'static str, v: &T) -> Result<J, Er> {
        let j = v.serialize(Rec::<1>)?;
        Ok(J::Map(vec![(key(n), j)]))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<RSeq, Er> { Ok(RSeq(Vec::new())) }
    fn serialize_tuple(self, _: usize) -> Result<RSeq, Er> { Ok(RSeq(Vec::new())) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<RSeq, Er> { Ok(RSeq(Vec::new())) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, n: &'static str, _: usize) -> Result<RVar, Er> { Ok(RVar(n, Vec::new())) }
    fn serialize_map(self, _: Option<usize>) -> Result<RMap, Er> { Ok(RMap(Vec::new(), None)) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<RMap, Er> { Ok(RMap(Vec::new(), None)) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, n: &'static str, _: usize) -> Result<RSVar, Er> { Ok(RSVar(n, Vec::new())) }
}
impl ser::SerializeStruct for RMap {
    type Ok = J;
    type Error = Er;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), Er> {
        let j = v.serialize(Rec::<1>)?;
        self.0.push((key(k), j));
        Ok(())
    }
    fn end(self) -> Result<J, Er> { Ok(J::Map(self.0)) }
}
impl ser::SerializeMap for RMap {
    type Ok = J;
    type Error = Er;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, k: &T) -> Result<(), Er> { self.1 = Some(k.serialize(Rec::<2>)?); Ok(()) }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Er> {
        let j = v.serialize(Rec::<1>)?;
        let k = match self.1.take() { Some(k) => k, None => J::Other };
        self.0.push((k, j));
        Ok(())
    }
    fn serialize_entry<K: Serialize + ?Sized, T: Serialize + ?Sized>(&mut self, k: &K, v: &T) -> Result<(), Er> {
        let k = k.serialize(Rec::<2>)?;
        let j = v.serialize(Rec::<1>)?;
        self.0.push((k, j));
        Ok(())
    }
    fn end(self) -> Result<J, Er> { Ok(J::Map(self.0)) }
}
macro_rules! seq { ($($t:ident $f:ident),*) => { $(
impl ser::$t for RSeq {
    type Ok = J;
    type Error = Er;
    fn $f<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Er> { let j = v.serialize(Rec::<1>)?; self.0.push(j); Ok(()) }
    fn end(self) -> Result<J, Er> { Ok(J::Seq(self.0)) }
})* } }
seq!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field);
impl ser::SerializeTupleVariant for RVar {
    type Ok = J;
    type Error = Er;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Er> { let j = v.serialize(Rec::<1>)?; self.1.push(j); Ok(()) }
    fn end(self) -> Result<J, Er> { Ok(J::Map(vec![(key(self.0), J::Seq(self.1))])) }
}
impl ser::SerializeStructVariant for RSVar {
    type Ok = J;
    type Error = Er;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), Er> { let j = v.serialize(Rec::<1>)?; self.1.push((key(k), j)); Ok(()) }
    fn end(self) -> Result<J, Er> { Ok(J::Map(vec![(key(self.0), J::Map(self.1))])) }
}
pub fn ser<T: Serialize>(t: &T) -> Result<J, Er> { t.serialize(Rec::<0>) }

// ---------------------------------------------------------------- a document that is parsed
/// A value whose content is not looked at.
#[derive(Clone, Copy)]
pub struct Leaf(u64);
#[derive(Clone)]
pub enum V { Leaf(Leaf), Text(&'static str) }
pub struct VDe(V);
pub struct KDe<'a>(&'a str);
pub struct Doc<'a>(Vec<(&'a str, V)>);
pub struct DocMap<'a>(std::vec::IntoIter<(&'a str, V)>, Option<V>);

macro_rules! all { ($($f:ident)*) => { $( fn $f<W: de::Visitor<'de>>(self, v: W) -> Result<W::Value, Er> { self.deserialize_any(v) } )* } }
macro_rules! rest { () => {
    all!(deserialize_bool deserialize_i8 deserialize_i16 deserialize_i32 deserialize_i64 deserialize_u8 deserialize_u16 deserialize_u32 deserialize_u64
         deserialize_f32 deserialize_f64 deserialize_char deserialize_str deserialize_string deserialize_bytes deserialize_byte_buf deserialize_unit
         deserialize_seq deserialize_map deserialize_identifier deserialize_ignored_any);
    fn deserialize_option<W: de::Visitor<'de>>(self, v: W) -> Result<W::Value, Er> { v.visit_some(self) }
    fn deserialize_unit_struct<W: de::Visitor<'de>>(self, _: &'static str, v: W) -> Result<W::Value, Er> { self.deserialize_any(v) }
    fn deserialize_newtype_struct<W: de::Visitor<'de>>(self, _: &'static str, v: W) -> Result<W::Value, Er> { v.visit_newtype_struct(self) }
    fn deserialize_tuple<W: de::Visitor<'de>>(self, _: usize, v: W) -> Result<W::Value, Er> { self.deserialize_any(v) }
    fn deserialize_tuple_struct<W: de::Visitor<'de>>(self, _: &'static str, _: usize, v: W) -> Result<W::Value, Er> { self.deserialize_any(v) }
    fn deserialize_struct<W: de::Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: W) -> Result<W::Value, Er> { self.deserialize_any(v) }
} }
impl<'de> de::Deserializer<'de> for VDe {
    type Error = Er;
    fn deserialize_any<W: de::Visitor<'de>>(self, v: W) -> Result<W::Value, Er> {
        match self.0 { V::Text(s) => v.visit_str(s), V::Leaf(l) => Err(Er::Msg) }
    }
    fn deserialize_enum<W: de::Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: W) -> Result<W::Value, Er> {
        match self.0 { V::Text(s) => v.visit_enum(KDe(s)), V::Leaf(l) => Err(Er::Msg) }
    }
    rest!();
}
impl<'de, 'a> de::Deserializer<'de> for KDe<'a> {
    type Error = Er;
    fn deserialize_any<W: de::Visitor<'de>>(self, v: W) -> Result<W::Value, Er> { v.visit_str(self.0) }
    fn deserialize_enum<W: de::Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: W) -> Result<W::Value, Er> { v.visit_enum(self) }
    rest!();
}
impl<'de, 'a> de::EnumAccess<'de> for KDe<'a> {
    type Error = Er;
    type Variant = Unit;
    fn variant_seed<S: de::DeserializeSeed<'de>>(self, s: S) -> Result<(S::Value, Unit), Er> { let v = s.deserialize(self)?; Ok((v, Unit)) }
}
pub struct Unit;
impl<'de> de::VariantAccess<'de> for Unit {
    type Error = Er;
    fn unit_variant(self) -> Result<(), Er> { Ok(()) }
    fn newtype_variant_seed<S: de::DeserializeSeed<'de>>(self, _: S) -> Result<S::Value, Er> { Err(Er::Msg) }
    fn tuple_variant<W: de::Visitor<'de>>(self, _: usize, _: W) -> Result<W::Value, Er> { Err(Er::Msg) }
    fn struct_variant<W: de::Visitor<'de>>(self, _: &'static [&'static str], _: W) -> Result<W::Value, Er> { Err(Er::Msg) }
}
impl<'de, 'a> de::Deserializer<'de> for Doc<'a> {
    type Error = Er;
    fn deserialize_any<W: de::Visitor<'de>>(self, v: W) -> Result<W::Value, Er> { v.visit_map(DocMap(self.0.into_iter(), None)) }
    fn deserialize_enum<W: de::Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: W) -> Result<W::Value, Er> {
        let mut it = self.0.into_iter();
        match it.next() { Some((k, x)) => v.visit_enum(One(k, x)), None => Err(Er::Msg) }
    }
    rest!();
}
pub struct One<'a>(&'a str, V);
impl<'de, 'a> de::EnumAccess<'de> for One<'a> {
    type Error = Er;
    type Variant = VDe;
    fn variant_seed<S: de::DeserializeSeed<'de>>(self, s: S) -> Result<(S::Value, VDe), Er> { let v = s.deserialize(KDe(self.0))?; Ok((v, VDe(self.1))) }
}
impl<'de> de::VariantAccess<'de> for VDe {
    type Error = Er;
    fn unit_variant(self) -> Result<(), Er> { Ok(()) }
    fn newtype_variant_seed<S: de::DeserializeSeed<'de>>(self, s: S) -> Result<S::Value, Er> { s.deserialize(self) }
    fn tuple_variant<W: de::Visitor<'de>>(self, _: usize, _: W) -> Result<W::Value, Er> { Err(Er::Msg) }
    fn struct_variant<W: de::Visitor<'de>>(self, _: &'static [&'static str], _: W) -> Result<W::Value, Er> { Err(Er::Msg) }
}
impl<'de, 'a> de::MapAccess<'de> for DocMap<'a> {
    type Error = Er;
    fn next_key_seed<S: de::DeserializeSeed<'de>>(&mut self, s: S) -> Result<Option<S::Value>, Er> {
        match self.0.next() {
            Some((k, v)) => { self.1 = Some(v); let k = s.deserialize(KDe(k))?; Ok(Some(k)) }
            None => Ok(None),
        }
    }
    fn next_value_seed<S: de::DeserializeSeed<'de>>(&mut self, s: S) -> Result<S::Value, Er> {
        match self.1.take() { Some(v) => s.deserialize(VDe(v)), None => Err(Er::Msg) }
    }
    fn size_hint(&self) -> Option<usize> { None }
}
pub fn de<'de, T: Deserialize<'de>>(d: Vec<(&str, V)>) -> Result<T, Er> { T::deserialize(Doc(d)) }

/// A value on its own.
pub enum RV<'a> { Leaf(Leaf), Text(&'a str), Num(u64), Null }
pub struct RDe<'a>(RV<'a>);
impl<'de, 'a> de::Deserializer<'de> for RDe<'a> {
    type Error = Er;
    fn deserialize_any<W: de::Visitor<'de>>(self, v: W) -> Result<W::Value, Er> {
        match self.0 { RV::Text(s) => v.visit_str(s), RV::Num(n) => v.visit_u64(n), RV::Null => v.visit_unit(), RV::Leaf(l) => Err(Er::Msg) }
    }
    fn deserialize_enum<W: de::Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: W) -> Result<W::Value, Er> {
        match self.0 { RV::Text(s) => v.visit_enum(KDe(s)), _ => Err(Er::Msg) }
    }
    all!(deserialize_bool deserialize_i8 deserialize_i16 deserialize_i32 deserialize_i64 deserialize_u8 deserialize_u16 deserialize_u32 deserialize_u64
         deserialize_f32 deserialize_f64 deserialize_char deserialize_str deserialize_string deserialize_bytes deserialize_byte_buf deserialize_unit
         deserialize_seq deserialize_map deserialize_identifier deserialize_ignored_any);
    fn deserialize_option<W: de::Visitor<'de>>(self, v: W) -> Result<W::Value, Er> {
        match self.0 { RV::Null => v.visit_none(), _ => v.visit_some(self) }
    }
    fn deserialize_unit_struct<W: de::Visitor<'de>>(self, _: &'static str, v: W) -> Result<W::Value, Er> { self.deserialize_any(v) }
    fn deserialize_newtype_struct<W: de::Visitor<'de>>(self, _: &'static str, v: W) -> Result<W::Value, Er> { v.visit_newtype_struct(self) }
    fn deserialize_tuple<W: de::Visitor<'de>>(self, _: usize, v: W) -> Result<W::Value, Er> { self.deserialize_any(v) }
    fn deserialize_tuple_struct<W: de::Visitor<'de>>(self, _: &'static str, _: usize, v: W) -> Result<W::Value, Er> { self.deserialize_any(v) }
    fn deserialize_struct<W: de::Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: W) -> Result<W::Value, Er> { self.deserialize_any(v) }
}
pub fn root<'de, T: Deserialize<'de>>(v: RV<'_>) -> Result<T, Er> { T::deserialize(RDe(v)) }
