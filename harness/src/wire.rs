//! A self-describing value tree as serde format, to see what auburn's types write and read back.
use serde::de::{self, DeserializeSeed, IntoDeserializer, MapAccess, SeqAccess, Visitor};
use serde::ser::{self, Serialize};
use std::fmt;

pub enum Val {
    Unit,
    Int(i64),
    Str(&'static str),
    Seq(Vec<Val>),
    /// field names in order, values in order
    Fields(Vec<&'static str>, Vec<Val>),
}

#[derive(Debug)]
pub struct Bad;
impl fmt::Display for Bad {
    fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result {
        Ok(())
    }
}
impl std::error::Error for Bad {}
impl ser::Error for Bad {
    fn custom<T: fmt::Display>(_: T) -> Self {
        Bad
    }
}
impl de::Error for Bad {
    fn custom<T: fmt::Display>(_: T) -> Self {
        Bad
    }
}

pub struct Out;
pub struct Many {
    names: Vec<&'static str>,
    vals: Vec<Val>,
}
type R = Result<Val, Bad>;

impl ser::Serializer for Out {
    type Ok = Val;
    type Error = Bad;
    type SerializeSeq = Many;
    type SerializeTuple = Many;
    type SerializeTupleStruct = Many;
    type SerializeTupleVariant = Many;
    type SerializeMap = Many;
    type SerializeStruct = Many;
    type SerializeStructVariant = Many;
    fn serialize_bool(self, v: bool) -> R {
        Ok(Val::Int(v as i64))
    }
    fn serialize_i8(self, v: i8) -> R {
        Ok(Val::Int(v as i64))
    }
    fn serialize_i16(self, v: i16) -> R {
        Ok(Val::Int(v as i64))
    }
    fn serialize_i32(self, v: i32) -> R {
        Ok(Val::Int(v as i64))
    }
    fn serialize_i64(self, v: i64) -> R {
        Ok(Val::Int(v))
    }
    fn serialize_u8(self, v: u8) -> R {
        Ok(Val::Int(v as i64))
    }
    fn serialize_u16(self, v: u16) -> R {
        Ok(Val::Int(v as i64))
    }
    fn serialize_u32(self, v: u32) -> R {
        Ok(Val::Int(v as i64))
    }
    fn serialize_u64(self, v: u64) -> R {
        Ok(Val::Int(v as i64))
    }
    fn serialize_f32(self, _: f32) -> R {
        Err(Bad)
    }
    fn serialize_f64(self, _: f64) -> R {
        Err(Bad)
    }
    fn serialize_char(self, _: char) -> R {
        Err(Bad)
    }
    fn serialize_str(self, _: &str) -> R {
        Err(Bad)
    }
    fn serialize_bytes(self, _: &[u8]) -> R {
        Err(Bad)
    }
    fn serialize_none(self) -> R {
        Ok(Val::Unit)
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> R {
        v.serialize(Out)
    }
    fn serialize_unit(self) -> R {
        Ok(Val::Unit)
    }
    fn serialize_unit_struct(self, _: &'static str) -> R {
        Ok(Val::Unit)
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> R {
        Ok(Val::Str(v))
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> R {
        v.serialize(Out)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, n: &'static str, v: &T) -> R {
        Ok(Val::Fields(vec![n], vec![v.serialize(Out)?]))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Many, Bad> {
        Ok(Many { names: Vec::new(), vals: Vec::new() })
    }
    fn serialize_tuple(self, _: usize) -> Result<Many, Bad> {
        Ok(Many { names: Vec::new(), vals: Vec::new() })
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Many, Bad> {
        Ok(Many { names: Vec::new(), vals: Vec::new() })
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Many, Bad> {
        Err(Bad)
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Many, Bad> {
        // JSON has no maps with such keys
        Err(Bad)
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Many, Bad> {
        Ok(Many { names: Vec::new(), vals: Vec::new() })
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Many, Bad> {
        Err(Bad)
    }
}
impl ser::SerializeSeq for Many {
    type Ok = Val;
    type Error = Bad;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Bad> {
        self.vals.push(v.serialize(Out)?);
        Ok(())
    }
    fn end(self) -> R {
        Ok(Val::Seq(self.vals))
    }
}
impl ser::SerializeTuple for Many {
    type Ok = Val;
    type Error = Bad;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Bad> {
        self.vals.push(v.serialize(Out)?);
        Ok(())
    }
    fn end(self) -> R {
        Ok(Val::Seq(self.vals))
    }
}
impl ser::SerializeTupleStruct for Many {
    type Ok = Val;
    type Error = Bad;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Bad> {
        self.vals.push(v.serialize(Out)?);
        Ok(())
    }
    fn end(self) -> R {
        Ok(Val::Seq(self.vals))
    }
}
impl ser::SerializeTupleVariant for Many {
    type Ok = Val;
    type Error = Bad;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, _: &T) -> Result<(), Bad> {
        Err(Bad)
    }
    fn end(self) -> R {
        Err(Bad)
    }
}
impl ser::SerializeMap for Many {
    type Ok = Val;
    type Error = Bad;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, _: &T) -> Result<(), Bad> {
        Err(Bad)
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, _: &T) -> Result<(), Bad> {
        Err(Bad)
    }
    fn end(self) -> R {
        Err(Bad)
    }
}
impl ser::SerializeStruct for Many {
    type Ok = Val;
    type Error = Bad;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, n: &'static str, v: &T) -> Result<(), Bad> {
        self.names.push(n);
        self.vals.push(v.serialize(Out)?);
        Ok(())
    }
    fn end(self) -> R {
        Ok(Val::Fields(self.names, self.vals))
    }
}
impl ser::SerializeStructVariant for Many {
    type Ok = Val;
    type Error = Bad;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, _: &'static str, _: &T) -> Result<(), Bad> {
        Err(Bad)
    }
    fn end(self) -> R {
        Err(Bad)
    }
}

pub struct In(pub Val);
struct Items {
    at: usize,
    vals: Vec<Val>,
}
struct Named {
    at: usize,
    names: Vec<&'static str>,
    vals: Vec<Val>,
}
impl<'de> SeqAccess<'de> for Items {
    type Error = Bad;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Bad> {
        if self.at == self.vals.len() {
            return Ok(None);
        }
        let v = std::mem::replace(&mut self.vals[self.at], Val::Unit);
        self.at += 1;
        Ok(Some(seed.deserialize(In(v))?))
    }
}
impl<'de> MapAccess<'de> for Named {
    type Error = Bad;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, seed: K) -> Result<Option<K::Value>, Bad> {
        if self.at == self.vals.len() {
            return Ok(None);
        }
        Ok(Some(seed.deserialize(In(Val::Str(self.names[self.at])))?))
    }
    fn next_value_seed<V: DeserializeSeed<'de>>(&mut self, seed: V) -> Result<V::Value, Bad> {
        let v = std::mem::replace(&mut self.vals[self.at], Val::Unit);
        self.at += 1;
        seed.deserialize(In(v))
    }
}
impl<'de> IntoDeserializer<'de, Bad> for In {
    type Deserializer = In;
    fn into_deserializer(self) -> In {
        self
    }
}
impl<'de> de::Deserializer<'de> for In {
    type Error = Bad;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Bad> {
        match self.0 {
            Val::Unit => v.visit_unit(),
            Val::Int(i) => v.visit_i64(i),
            Val::Str(s) => v.visit_str(s),
            Val::Seq(vals) => v.visit_seq(Items { at: 0, vals }),
            Val::Fields(names, vals) => v.visit_map(Named { at: 0, names, vals }),
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit
        unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}
