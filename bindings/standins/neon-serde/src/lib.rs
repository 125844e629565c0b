//! Stand-in for neon-serde: the same conversions between JavaScript values and serde's data model.
use neon::prelude::*;
use serde::de::{self, DeserializeOwned, DeserializeSeed, EnumAccess, MapAccess, SeqAccess, Unexpected, VariantAccess, Visitor};
use serde::ser::{self, Serialize};

pub mod errors {
    use neon::result::Throw;
    use std::fmt;

    #[derive(Debug)]
    pub enum Error {
        Msg(String),
        NotImplemented(&'static str),
        Js(Throw),
    }
    impl fmt::Display for Error {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            match self {
                Error::Msg(m) => f.write_str(m),
                Error::NotImplemented(m) => write!(f, "Not Implemented: {}", m),
                Error::Js(_) => f.write_str("JS exception"),
            }
        }
    }
    impl std::error::Error for Error {}
    impl From<Throw> for Error {
        fn from(t: Throw) -> Self {
            Error::Js(t)
        }
    }
    impl From<String> for Error {
        fn from(m: String) -> Self {
            Error::Msg(m)
        }
    }
    impl serde::de::Error for Error {
        fn custom<T: fmt::Display>(m: T) -> Self {
            Error::Msg(m.to_string())
        }
    }
    impl serde::ser::Error for Error {
        fn custom<T: fmt::Display>(m: T) -> Self {
            Error::Msg(m.to_string())
        }
    }
    pub type Result<T> = std::result::Result<T, Error>;
}
use errors::{Error, Result};

pub fn from_value<'j, C: Context<'j>, T: DeserializeOwned>(cx: &mut C, value: Handle<'j, JsValue>) -> Result<T> {
    T::deserialize(From { cx, input: value })
}
pub fn from_value_opt<'j, C: Context<'j>, T: DeserializeOwned>(cx: &mut C, value: Option<Handle<'j, JsValue>>) -> Result<T> {
    let input = value.unwrap_or_else(|| JsUndefined::new().upcast());
    T::deserialize(From { cx, input })
}
pub fn to_value<'j, C: Context<'j>, V: Serialize + ?Sized>(cx: &mut C, value: &V) -> Result<Handle<'j, JsValue>> {
    value.serialize(To { cx, phantom: std::marker::PhantomData })
}

// ----- from JavaScript

struct From<'a, 'j, C: Context<'j>> {
    cx: &'a mut C,
    input: Handle<'j, JsValue>,
}
impl<'x, 'a, 'j, C: Context<'j>> de::Deserializer<'x> for From<'a, 'j, C> {
    type Error = Error;
    fn deserialize_any<V: Visitor<'x>>(self, visitor: V) -> Result<V::Value> {
        let v = self.input;
        if v.is_a::<JsNull>() || v.is_a::<JsUndefined>() {
            visitor.visit_unit()
        } else if let Ok(b) = v.downcast::<JsBoolean>() {
            visitor.visit_bool(b.value())
        } else if let Ok(s) = v.downcast::<JsString>() {
            visitor.visit_string(s.value())
        } else if let Ok(n) = v.downcast::<JsNumber>() {
            let n = n.value();
            if n.trunc() == n {
                visitor.visit_i64(n as i64)
            } else {
                visitor.visit_f64(n)
            }
        } else if v.is_a::<JsArray>() {
            self.deserialize_seq(visitor)
        } else if v.is_a::<JsObject>() {
            self.deserialize_map(visitor)
        } else {
            Err(Error::NotImplemented("unimplemented Deserializer::Deserializer"))
        }
    }
    fn deserialize_option<V: Visitor<'x>>(self, visitor: V) -> Result<V::Value> {
        if self.input.is_a::<JsNull>() || self.input.is_a::<JsUndefined>() {
            visitor.visit_none()
        } else {
            visitor.visit_some(self)
        }
    }
    fn deserialize_enum<V: Visitor<'x>>(self, _name: &'static str, _vs: &'static [&'static str], visitor: V) -> Result<V::Value> {
        if let Ok(s) = self.input.downcast::<JsString>() {
            visitor.visit_enum(FromEnum { cx: self.cx, variant: s.value(), value: None })
        } else if let Ok(o) = self.input.downcast::<JsObject>() {
            let names = o.get_own_property_names(self.cx)?;
            if names.len() != 1 {
                return Err(Error::Msg(format!("key: object with {} keys", names.len())));
            }
            let key = names.get(self.cx, 0)?.downcast::<JsString>().or_throw(self.cx)?;
            let value = o.get(self.cx, key)?;
            visitor.visit_enum(FromEnum { cx: self.cx, variant: key.value(), value: Some(value) })
        } else {
            let m = self.input.to_string(self.cx)?.value();
            Err(de::Error::invalid_value(Unexpected::Other(&m), &"string or map"))
        }
    }
    fn deserialize_bytes<V: Visitor<'x>>(self, visitor: V) -> Result<V::Value> {
        let b = self.input.downcast::<JsBuffer>().or_throw(self.cx)?;
        let lock = self.cx.lock();
        let bytes = b.borrow(&lock).as_slice::<u8>().to_vec();
        visitor.visit_byte_buf(bytes)
    }
    fn deserialize_byte_buf<V: Visitor<'x>>(self, visitor: V) -> Result<V::Value> {
        self.deserialize_bytes(visitor)
    }
    fn deserialize_ignored_any<V: Visitor<'x>>(self, visitor: V) -> Result<V::Value> {
        visitor.visit_unit()
    }
    fn deserialize_newtype_struct<V: Visitor<'x>>(self, _name: &'static str, visitor: V) -> Result<V::Value> {
        visitor.visit_newtype_struct(self)
    }
    fn deserialize_seq<V: Visitor<'x>>(self, visitor: V) -> Result<V::Value> {
        let a = self.input.downcast::<JsArray>().or_throw(self.cx)?;
        visitor.visit_seq(FromArray { cx: self.cx, input: a, at: 0, len: a.len() })
    }
    fn deserialize_map<V: Visitor<'x>>(self, visitor: V) -> Result<V::Value> {
        let o = self.input.downcast::<JsObject>().or_throw(self.cx)?;
        let names = o.get_own_property_names(self.cx)?;
        visitor.visit_map(FromObject { cx: self.cx, input: o, names, at: 0, len: names.len() })
    }
    fn deserialize_tuple<V: Visitor<'x>>(self, _len: usize, visitor: V) -> Result<V::Value> {
        self.deserialize_seq(visitor)
    }
    fn deserialize_tuple_struct<V: Visitor<'x>>(self, _n: &'static str, _len: usize, visitor: V) -> Result<V::Value> {
        self.deserialize_seq(visitor)
    }
    fn deserialize_struct<V: Visitor<'x>>(self, _n: &'static str, _f: &'static [&'static str], visitor: V) -> Result<V::Value> {
        self.deserialize_map(visitor)
    }
    serde::forward_to_deserialize_any! {
        <W: Visitor<'x>>
        bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string unit unit_struct identifier
    }
}
struct FromArray<'a, 'j, C: Context<'j>> {
    cx: &'a mut C,
    input: Handle<'j, JsArray>,
    at: u32,
    len: u32,
}
impl<'x, 'a, 'j, C: Context<'j>> SeqAccess<'x> for FromArray<'a, 'j, C> {
    type Error = Error;
    fn size_hint(&self) -> Option<usize> {
        Some((self.len - self.at) as usize)
    }
    fn next_element_seed<T: DeserializeSeed<'x>>(&mut self, seed: T) -> Result<Option<T::Value>> {
        if self.at >= self.len {
            return Ok(None);
        }
        let v = self.input.get(self.cx, self.at)?;
        self.at += 1;
        seed.deserialize(From { cx: self.cx, input: v }).map(Some)
    }
}
struct FromObject<'a, 'j, C: Context<'j>> {
    cx: &'a mut C,
    input: Handle<'j, JsObject>,
    names: Handle<'j, JsArray>,
    at: u32,
    len: u32,
}
impl<'x, 'a, 'j, C: Context<'j>> MapAccess<'x> for FromObject<'a, 'j, C> {
    type Error = Error;
    fn next_key_seed<K: DeserializeSeed<'x>>(&mut self, seed: K) -> Result<Option<K::Value>> {
        if self.at >= self.len {
            return Ok(None);
        }
        let k = self.names.get(self.cx, self.at)?;
        seed.deserialize(From { cx: self.cx, input: k }).map(Some)
    }
    fn next_value_seed<V: DeserializeSeed<'x>>(&mut self, seed: V) -> Result<V::Value> {
        let k = self.names.get(self.cx, self.at)?;
        let v = self.input.get(self.cx, k)?;
        self.at += 1;
        seed.deserialize(From { cx: self.cx, input: v })
    }
}
struct FromEnum<'a, 'j, C: Context<'j>> {
    cx: &'a mut C,
    variant: String,
    value: Option<Handle<'j, JsValue>>,
}
impl<'x, 'a, 'j, C: Context<'j>> EnumAccess<'x> for FromEnum<'a, 'j, C> {
    type Error = Error;
    type Variant = FromVariant<'a, 'j, C>;
    fn variant_seed<V: DeserializeSeed<'x>>(self, seed: V) -> Result<(V::Value, Self::Variant)> {
        use serde::de::IntoDeserializer;
        let d: de::value::StringDeserializer<Error> = self.variant.into_deserializer();
        let v = seed.deserialize(d)?;
        Ok((v, FromVariant { cx: self.cx, value: self.value }))
    }
}
struct FromVariant<'a, 'j, C: Context<'j>> {
    cx: &'a mut C,
    value: Option<Handle<'j, JsValue>>,
}
impl<'x, 'a, 'j, C: Context<'j>> VariantAccess<'x> for FromVariant<'a, 'j, C> {
    type Error = Error;
    fn unit_variant(self) -> Result<()> {
        match self.value {
            Some(v) => de::Deserialize::deserialize(From { cx: self.cx, input: v }),
            None => Ok(()),
        }
    }
    fn newtype_variant_seed<T: DeserializeSeed<'x>>(self, seed: T) -> Result<T::Value> {
        match self.value {
            Some(v) => seed.deserialize(From { cx: self.cx, input: v }),
            None => Err(de::Error::invalid_type(Unexpected::UnitVariant, &"newtype variant")),
        }
    }
    fn tuple_variant<V: Visitor<'x>>(self, _len: usize, visitor: V) -> Result<V::Value> {
        match self.value {
            Some(v) => de::Deserializer::deserialize_seq(From { cx: self.cx, input: v }, visitor),
            None => Err(de::Error::invalid_type(Unexpected::UnitVariant, &"tuple variant")),
        }
    }
    fn struct_variant<V: Visitor<'x>>(self, _f: &'static [&'static str], visitor: V) -> Result<V::Value> {
        match self.value {
            Some(v) => {
                let o = v.downcast::<JsObject>().map_err(|_| Error::Msg("expected struct variant".to_string()))?;
                de::Deserializer::deserialize_map(From { cx: self.cx, input: o.upcast() }, visitor)
            }
            None => Err(de::Error::invalid_type(Unexpected::UnitVariant, &"struct variant")),
        }
    }
}

// ----- to JavaScript

struct To<'a, 'j, C: Context<'j>> {
    cx: &'a mut C,
    phantom: std::marker::PhantomData<&'j ()>,
}
macro_rules! number {
    ($($f:ident $t:ty),*) => { $(fn $f(self, v: $t) -> Result<Self::Ok> { Ok(JsNumber::new(self.cx, v as f64).upcast()) })* };
}
struct ToArray<'a, 'j, C: Context<'j>> {
    cx: &'a mut C,
    array: Handle<'j, JsArray>,
    at: u32,
    /// the array is the value of the only key of this object
    inside: Option<(Handle<'j, JsObject>, &'static str)>,
}
struct ToObject<'a, 'j, C: Context<'j>> {
    cx: &'a mut C,
    object: Handle<'j, JsObject>,
    key: Option<Handle<'j, JsValue>>,
    inside: Option<(Handle<'j, JsObject>, &'static str)>,
}
impl<'a, 'j, C: Context<'j>> ser::Serializer for To<'a, 'j, C> {
    type Ok = Handle<'j, JsValue>;
    type Error = Error;
    type SerializeSeq = ToArray<'a, 'j, C>;
    type SerializeTuple = ToArray<'a, 'j, C>;
    type SerializeTupleStruct = ToArray<'a, 'j, C>;
    type SerializeTupleVariant = ToArray<'a, 'j, C>;
    type SerializeMap = ToObject<'a, 'j, C>;
    type SerializeStruct = ToObject<'a, 'j, C>;
    type SerializeStructVariant = ToObject<'a, 'j, C>;
    fn serialize_bool(self, v: bool) -> Result<Self::Ok> {
        Ok(JsBoolean::new(self.cx, v).upcast())
    }
    number!(serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_u8 u8, serialize_u16 u16,
            serialize_u32 u32, serialize_u64 u64, serialize_f32 f32, serialize_f64 f64);
    fn serialize_char(self, v: char) -> Result<Self::Ok> {
        Ok(JsString::new(self.cx, v.to_string()).upcast())
    }
    fn serialize_str(self, v: &str) -> Result<Self::Ok> {
        Ok(JsString::new(self.cx, v).upcast())
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<Self::Ok> {
        let mut b = JsBuffer::new(self.cx, v.len() as u32)?;
        {
            let lock = self.cx.lock();
            b.borrow_mut(&lock).as_mut_slice::<u8>().copy_from_slice(v);
        }
        Ok(b.upcast())
    }
    fn serialize_none(self) -> Result<Self::Ok> {
        Ok(JsNull::new().upcast())
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<Self::Ok> {
        v.serialize(self)
    }
    fn serialize_unit(self) -> Result<Self::Ok> {
        Ok(JsNull::new().upcast())
    }
    fn serialize_unit_struct(self, _n: &'static str) -> Result<Self::Ok> {
        Ok(JsNull::new().upcast())
    }
    fn serialize_unit_variant(self, _n: &'static str, _i: u32, v: &'static str) -> Result<Self::Ok> {
        self.serialize_str(v)
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _n: &'static str, v: &T) -> Result<Self::Ok> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _n: &'static str, _i: u32, k: &'static str, v: &T) -> Result<Self::Ok> {
        let o = JsObject::new(self.cx);
        let v = to_value(self.cx, v)?;
        o.set(self.cx, k, v)?;
        Ok(o.upcast())
    }
    fn serialize_seq(self, _len: Option<usize>) -> Result<Self::SerializeSeq> {
        let array = JsArray::new(self.cx, 0);
        Ok(ToArray { cx: self.cx, array, at: 0, inside: None })
    }
    fn serialize_tuple(self, n: usize) -> Result<Self::SerializeTuple> {
        self.serialize_seq(Some(n))
    }
    fn serialize_tuple_struct(self, _n: &'static str, n: usize) -> Result<Self::SerializeTupleStruct> {
        self.serialize_seq(Some(n))
    }
    fn serialize_tuple_variant(self, _n: &'static str, _i: u32, k: &'static str, _l: usize) -> Result<Self::SerializeTupleVariant> {
        let (o, array) = (JsObject::new(self.cx), JsArray::new(self.cx, 0));
        Ok(ToArray { cx: self.cx, array, at: 0, inside: Some((o, k)) })
    }
    fn serialize_map(self, _len: Option<usize>) -> Result<Self::SerializeMap> {
        let object = JsObject::new(self.cx);
        Ok(ToObject { cx: self.cx, object, key: None, inside: None })
    }
    fn serialize_struct(self, _n: &'static str, n: usize) -> Result<Self::SerializeStruct> {
        self.serialize_map(Some(n))
    }
    fn serialize_struct_variant(self, _n: &'static str, _i: u32, k: &'static str, _l: usize) -> Result<Self::SerializeStructVariant> {
        let (o, object) = (JsObject::new(self.cx), JsObject::new(self.cx));
        Ok(ToObject { cx: self.cx, object, key: None, inside: Some((o, k)) })
    }
}
impl<'a, 'j, C: Context<'j>> ToArray<'a, 'j, C> {
    fn push<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<()> {
        let v = to_value(self.cx, v)?;
        self.array.set(self.cx, self.at, v)?;
        self.at += 1;
        Ok(())
    }
    fn done(self) -> Result<Handle<'j, JsValue>> {
        match self.inside {
            None => Ok(self.array.upcast()),
            Some((o, k)) => {
                o.set(self.cx, k, self.array)?;
                Ok(o.upcast())
            }
        }
    }
}
impl<'a, 'j, C: Context<'j>> ToObject<'a, 'j, C> {
    fn put<T: Serialize + ?Sized>(&mut self, k: &str, v: &T) -> Result<()> {
        let v = to_value(self.cx, v)?;
        self.object.set(self.cx, k, v)?;
        Ok(())
    }
    fn done(self) -> Result<Handle<'j, JsValue>> {
        match self.inside {
            None => Ok(self.object.upcast()),
            Some((o, k)) => {
                o.set(self.cx, k, self.object)?;
                Ok(o.upcast())
            }
        }
    }
}
macro_rules! arrays {
    ($($t:ident $f:ident),*) => { $(impl<'a, 'j, C: Context<'j>> ser::$t for ToArray<'a, 'j, C> {
        type Ok = Handle<'j, JsValue>;
        type Error = Error;
        fn $f<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<()> { self.push(v) }
        fn end(self) -> Result<Self::Ok> { self.done() }
    })* };
}
arrays!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);
macro_rules! objects {
    ($($t:ident),*) => { $(impl<'a, 'j, C: Context<'j>> ser::$t for ToObject<'a, 'j, C> {
        type Ok = Handle<'j, JsValue>;
        type Error = Error;
        fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<()> { self.put(k, v) }
        fn end(self) -> Result<Self::Ok> { self.done() }
    })* };
}
objects!(SerializeStruct, SerializeStructVariant);
impl<'a, 'j, C: Context<'j>> ser::SerializeMap for ToObject<'a, 'j, C> {
    type Ok = Handle<'j, JsValue>;
    type Error = Error;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, k: &T) -> Result<()> {
        self.key = Some(to_value(self.cx, k)?);
        Ok(())
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<()> {
        let v = to_value(self.cx, v)?;
        let k = self.key.take().ok_or_else(|| Error::Msg("a value without a key".to_string()))?;
        self.object.set(self.cx, k, v)?;
        Ok(())
    }
    fn end(self) -> Result<Self::Ok> {
        self.done()
    }
}
