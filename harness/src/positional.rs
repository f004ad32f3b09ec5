//! A serialization format where nothing but the values is written: neither names nor kinds. Formats of that sort (bincode,
//! postcard) need what is read to follow exactly what is written.
use serde::de::{self, DeserializeSeed, EnumAccess, IntoDeserializer, SeqAccess, VariantAccess, Visitor};
use serde::ser::{self, Serialize};
use std::fmt;

#[derive(Debug)]
pub struct Error(String);

impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
impl ser::Error for Error {
    fn custom<T: fmt::Display>(m: T) -> Self {
        Error(m.to_string())
    }
}
impl de::Error for Error {
    fn custom<T: fmt::Display>(m: T) -> Self {
        Error(m.to_string())
    }
}

type R<T = ()> = Result<T, Error>;

/// What is written.
pub fn write<T: Serialize>(what: &T) -> R<Vec<u8>> {
    let mut w = Writer(vec![]);
    what.serialize(&mut w)?;
    Ok(w.0)
}

/// Read it back, entirely.
pub fn read<'a, T: de::Deserialize<'a>>(bytes: &'a [u8]) -> R<T> {
    let mut r = Reader(bytes);
    let v = T::deserialize(&mut r)?;
    if r.0.is_empty() {
        Ok(v)
    } else {
        Err(Error(format!("{} bytes are left", r.0.len())))
    }
}

struct Writer(Vec<u8>);

impl Writer {
    fn bytes(&mut self, b: &[u8]) -> R {
        self.0.extend((b.len() as u64).to_le_bytes());
        self.0.extend(b);
        Ok(())
    }
    fn len(&mut self, n: Option<usize>) -> R {
        let n = n.ok_or_else(|| Error("no length".into()))?;
        self.0.extend((n as u64).to_le_bytes());
        Ok(())
    }
}

macro_rules! number {
    ($($f:ident $t:ty),*) => { $(fn $f(self, v: $t) -> R { self.0.extend(v.to_le_bytes()); Ok(()) })* };
}

impl ser::Serializer for &mut Writer {
    type Ok = ();
    type Error = Error;
    type SerializeSeq = Self;
    type SerializeTuple = Self;
    type SerializeTupleStruct = Self;
    type SerializeTupleVariant = Self;
    type SerializeMap = Self;
    type SerializeStruct = Self;
    type SerializeStructVariant = Self;
    number!(serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_f32 f32, serialize_f64 f64);
    fn serialize_bool(self, v: bool) -> R {
        self.0.push(v as u8);
        Ok(())
    }
    fn serialize_char(self, v: char) -> R {
        self.serialize_u32(v as u32)
    }
    fn serialize_str(self, v: &str) -> R {
        self.bytes(v.as_bytes())
    }
    fn serialize_bytes(self, v: &[u8]) -> R {
        self.bytes(v)
    }
    fn serialize_none(self) -> R {
        self.serialize_bool(false)
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> R {
        self.0.push(1);
        v.serialize(self)
    }
    fn serialize_unit(self) -> R {
        Ok(())
    }
    fn serialize_unit_struct(self, _: &'static str) -> R {
        Ok(())
    }
    fn serialize_unit_variant(self, _: &'static str, i: u32, _: &'static str) -> R {
        self.serialize_u32(i)
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> R {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, i: u32, _: &'static str, v: &T) -> R {
        self.0.extend(i.to_le_bytes());
        v.serialize(self)
    }
    fn serialize_seq(self, n: Option<usize>) -> R<Self> {
        self.len(n)?;
        Ok(self)
    }
    fn serialize_tuple(self, _: usize) -> R<Self> {
        Ok(self)
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> R<Self> {
        Ok(self)
    }
    fn serialize_tuple_variant(self, _: &'static str, i: u32, _: &'static str, _: usize) -> R<Self> {
        self.0.extend(i.to_le_bytes());
        Ok(self)
    }
    fn serialize_map(self, n: Option<usize>) -> R<Self> {
        self.len(n)?;
        Ok(self)
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> R<Self> {
        Ok(self)
    }
    fn serialize_struct_variant(self, _: &'static str, i: u32, _: &'static str, _: usize) -> R<Self> {
        self.0.extend(i.to_le_bytes());
        Ok(self)
    }
    fn is_human_readable(&self) -> bool {
        false
    }
}

macro_rules! elements {
    ($($t:ident $f:ident),*) => { $(impl ser::$t for &mut Writer {
        type Ok = ();
        type Error = Error;
        fn $f<T: Serialize + ?Sized>(&mut self, v: &T) -> R { v.serialize(&mut **self) }
        fn end(self) -> R { Ok(()) }
    })* };
}
elements!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);

macro_rules! fields {
    ($($t:ident),*) => { $(impl ser::$t for &mut Writer {
        type Ok = ();
        type Error = Error;
        fn serialize_field<T: Serialize + ?Sized>(&mut self, _: &'static str, v: &T) -> R { v.serialize(&mut **self) }
        fn end(self) -> R { Ok(()) }
    })* };
}
fields!(SerializeStruct, SerializeStructVariant);

impl ser::SerializeMap for &mut Writer {
    type Ok = ();
    type Error = Error;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, v: &T) -> R {
        v.serialize(&mut **self)
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> R {
        v.serialize(&mut **self)
    }
    fn end(self) -> R {
        Ok(())
    }
}

struct Reader<'a>(&'a [u8]);

impl<'a> Reader<'a> {
    fn take(&mut self, n: usize) -> R<&'a [u8]> {
        if n > self.0.len() {
            return Err(Error("the end is missing".into()));
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Ok(a)
    }
    fn number<const N: usize>(&mut self) -> R<[u8; N]> {
        Ok(self.take(N)?.try_into().unwrap())
    }
    fn length(&mut self) -> R<usize> {
        Ok(u64::from_le_bytes(self.number()?) as usize)
    }
    fn text(&mut self) -> R<&'a str> {
        let n = self.length()?;
        std::str::from_utf8(self.take(n)?).map_err(|e| Error(e.to_string()))
    }
}

macro_rules! numbers {
    ($($f:ident $t:ty, $v:ident);*) => { $(fn $f<V: Visitor<'a>>(self, v: V) -> R<V::Value> { v.$v(<$t>::from_le_bytes(self.number()?)) })* };
}

impl<'a> de::Deserializer<'a> for &mut Reader<'a> {
    type Error = Error;
    numbers!(deserialize_i8 i8, visit_i8; deserialize_i16 i16, visit_i16; deserialize_i32 i32, visit_i32; deserialize_i64 i64, visit_i64;
        deserialize_u8 u8, visit_u8; deserialize_u16 u16, visit_u16; deserialize_u32 u32, visit_u32; deserialize_u64 u64, visit_u64;
        deserialize_f32 f32, visit_f32; deserialize_f64 f64, visit_f64);
    fn deserialize_any<V: Visitor<'a>>(self, _: V) -> R<V::Value> {
        Err(Error("the kind isn't written".into()))
    }
    fn deserialize_ignored_any<V: Visitor<'a>>(self, v: V) -> R<V::Value> {
        self.deserialize_any(v)
    }
    fn deserialize_identifier<V: Visitor<'a>>(self, v: V) -> R<V::Value> {
        self.deserialize_any(v)
    }
    fn deserialize_bool<V: Visitor<'a>>(self, v: V) -> R<V::Value> {
        let b = self.take(1)?[0];
        if b > 1 {
            return Err(Error("not a boolean".into()));
        }
        v.visit_bool(b == 1)
    }
    fn deserialize_char<V: Visitor<'a>>(self, v: V) -> R<V::Value> {
        let c = char::from_u32(u32::from_le_bytes(self.number()?)).ok_or_else(|| Error("not a character".into()))?;
        v.visit_char(c)
    }
    fn deserialize_str<V: Visitor<'a>>(self, v: V) -> R<V::Value> {
        v.visit_borrowed_str(self.text()?)
    }
    fn deserialize_string<V: Visitor<'a>>(self, v: V) -> R<V::Value> {
        v.visit_string(self.text()?.to_string())
    }
    fn deserialize_bytes<V: Visitor<'a>>(self, v: V) -> R<V::Value> {
        let n = self.length()?;
        v.visit_borrowed_bytes(self.take(n)?)
    }
    fn deserialize_byte_buf<V: Visitor<'a>>(self, v: V) -> R<V::Value> {
        self.deserialize_bytes(v)
    }
    fn deserialize_option<V: Visitor<'a>>(self, v: V) -> R<V::Value> {
        match self.take(1)?[0] {
            0 => v.visit_none(),
            1 => v.visit_some(self),
            _ => Err(Error("not an option".into())),
        }
    }
    fn deserialize_unit<V: Visitor<'a>>(self, v: V) -> R<V::Value> {
        v.visit_unit()
    }
    fn deserialize_unit_struct<V: Visitor<'a>>(self, _: &'static str, v: V) -> R<V::Value> {
        v.visit_unit()
    }
    fn deserialize_newtype_struct<V: Visitor<'a>>(self, _: &'static str, v: V) -> R<V::Value> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_seq<V: Visitor<'a>>(self, v: V) -> R<V::Value> {
        let n = self.length()?;
        v.visit_seq(Elements(self, n))
    }
    fn deserialize_tuple<V: Visitor<'a>>(self, n: usize, v: V) -> R<V::Value> {
        v.visit_seq(Elements(self, n))
    }
    fn deserialize_tuple_struct<V: Visitor<'a>>(self, _: &'static str, n: usize, v: V) -> R<V::Value> {
        v.visit_seq(Elements(self, n))
    }
    fn deserialize_map<V: Visitor<'a>>(self, v: V) -> R<V::Value> {
        let n = self.length()?;
        v.visit_map(Elements(self, n))
    }
    fn deserialize_struct<V: Visitor<'a>>(self, _: &'static str, fields: &'static [&'static str], v: V) -> R<V::Value> {
        v.visit_seq(Elements(self, fields.len()))
    }
    fn deserialize_enum<V: Visitor<'a>>(self, _: &'static str, _: &'static [&'static str], v: V) -> R<V::Value> {
        v.visit_enum(self)
    }
    fn is_human_readable(&self) -> bool {
        false
    }
}

struct Elements<'r, 'a>(&'r mut Reader<'a>, usize);

impl<'a> SeqAccess<'a> for Elements<'_, 'a> {
    type Error = Error;
    fn next_element_seed<T: DeserializeSeed<'a>>(&mut self, seed: T) -> R<Option<T::Value>> {
        if self.1 == 0 {
            return Ok(None);
        }
        self.1 -= 1;
        seed.deserialize(&mut *self.0).map(Some)
    }
    fn size_hint(&self) -> Option<usize> {
        Some(self.1)
    }
}

impl<'a> de::MapAccess<'a> for Elements<'_, 'a> {
    type Error = Error;
    fn next_key_seed<K: DeserializeSeed<'a>>(&mut self, seed: K) -> R<Option<K::Value>> {
        self.next_element_seed(seed)
    }
    fn next_value_seed<V: DeserializeSeed<'a>>(&mut self, seed: V) -> R<V::Value> {
        seed.deserialize(&mut *self.0)
    }
}

impl<'a> EnumAccess<'a> for &mut Reader<'a> {
    type Error = Error;
    type Variant = Self;
    fn variant_seed<V: DeserializeSeed<'a>>(self, seed: V) -> R<(V::Value, Self)> {
        let i = u32::from_le_bytes(self.number()?);
        let v = seed.deserialize(IntoDeserializer::<Error>::into_deserializer(i))?;
        Ok((v, self))
    }
}

impl<'a> VariantAccess<'a> for &mut Reader<'a> {
    type Error = Error;
    fn unit_variant(self) -> R {
        Ok(())
    }
    fn newtype_variant_seed<T: DeserializeSeed<'a>>(self, seed: T) -> R<T::Value> {
        seed.deserialize(self)
    }
    fn tuple_variant<V: Visitor<'a>>(self, n: usize, v: V) -> R<V::Value> {
        v.visit_seq(Elements(self, n))
    }
    fn struct_variant<V: Visitor<'a>>(self, fields: &'static [&'static str], v: V) -> R<V::Value> {
        v.visit_seq(Elements(self, fields.len()))
    }
}
