//! Stand-in for serde-wasm-bindgen over the stand-in's `JsValue`.
use serde::ser::{self, Serialize};
use serde_json::{Map, Value};
use std::fmt;
use wasm_bindgen::JsValue;

#[derive(Debug)]
pub struct Error(String);
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
impl ser::Error for Error {
    fn custom<T: fmt::Display>(m: T) -> Self {
        Error(m.to_string())
    }
}
impl From<Error> for JsValue {
    fn from(e: Error) -> JsValue {
        JsValue(Value::String(e.0))
    }
}

pub fn from_value<T: serde::de::DeserializeOwned>(value: JsValue) -> Result<T, Error> {
    T::deserialize(value.0).map_err(|e: serde_json::Error| Error(e.to_string()))
}
pub fn to_value<T: Serialize + ?Sized>(value: &T) -> Result<JsValue, Error> {
    value.serialize(&Serializer::new())
}

/// As the real one with its defaults: a struct becomes an object, a map a
/// `Map`, a missing value `undefined`.
#[derive(Default)]
pub struct Serializer;
impl Serializer {
    pub const fn new() -> Self {
        Serializer
    }
}

pub struct Seq<'s> {
    ser: &'s Serializer,
    items: Vec<Value>,
    variant: Option<&'static str>,
}
pub struct Pairs<'s> {
    ser: &'s Serializer,
    items: Vec<Value>,
    key: Value,
}
pub struct Fields<'s> {
    ser: &'s Serializer,
    map: Map<String, Value>,
    variant: Option<&'static str>,
}

fn wrap(variant: Option<&'static str>, v: Value) -> JsValue {
    match variant {
        None => JsValue(v),
        Some(name) => {
            let mut m = Map::new();
            m.insert(name.into(), v);
            JsValue(Value::Object(m))
        }
    }
}
const SAFE: u64 = (1 << 53) - 1;

impl<'s> ser::Serializer for &'s Serializer {
    type Ok = JsValue;
    type Error = Error;
    type SerializeSeq = Seq<'s>;
    type SerializeTuple = Seq<'s>;
    type SerializeTupleStruct = Seq<'s>;
    type SerializeTupleVariant = Seq<'s>;
    type SerializeMap = Pairs<'s>;
    type SerializeStruct = Fields<'s>;
    type SerializeStructVariant = Fields<'s>;

    fn serialize_bool(self, v: bool) -> Result<JsValue, Error> {
        Ok(JsValue(Value::Bool(v)))
    }
    fn serialize_i8(self, v: i8) -> Result<JsValue, Error> {
        Ok(JsValue(v.into()))
    }
    fn serialize_i16(self, v: i16) -> Result<JsValue, Error> {
        Ok(JsValue(v.into()))
    }
    fn serialize_i32(self, v: i32) -> Result<JsValue, Error> {
        Ok(JsValue(v.into()))
    }
    fn serialize_i64(self, v: i64) -> Result<JsValue, Error> {
        if v.unsigned_abs() > SAFE {
            return Err(Error(format!("{v} can't be represented as a JavaScript number")));
        }
        Ok(JsValue(v.into()))
    }
    fn serialize_u8(self, v: u8) -> Result<JsValue, Error> {
        Ok(JsValue(v.into()))
    }
    fn serialize_u16(self, v: u16) -> Result<JsValue, Error> {
        Ok(JsValue(v.into()))
    }
    fn serialize_u32(self, v: u32) -> Result<JsValue, Error> {
        Ok(JsValue(v.into()))
    }
    fn serialize_u64(self, v: u64) -> Result<JsValue, Error> {
        if v > SAFE {
            return Err(Error(format!("{v} can't be represented as a JavaScript number")));
        }
        Ok(JsValue(v.into()))
    }
    fn serialize_f32(self, v: f32) -> Result<JsValue, Error> {
        Ok(JsValue(v.into()))
    }
    fn serialize_f64(self, v: f64) -> Result<JsValue, Error> {
        Ok(JsValue(v.into()))
    }
    fn serialize_char(self, v: char) -> Result<JsValue, Error> {
        Ok(JsValue(v.to_string().into()))
    }
    fn serialize_str(self, v: &str) -> Result<JsValue, Error> {
        Ok(JsValue(v.into()))
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<JsValue, Error> {
        Ok(JsValue(v.to_vec().into()))
    }
    fn serialize_none(self) -> Result<JsValue, Error> {
        Ok(JsValue(Value::Null))
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<JsValue, Error> {
        v.serialize(self)
    }
    fn serialize_unit(self) -> Result<JsValue, Error> {
        Ok(JsValue(Value::Null))
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<JsValue, Error> {
        Ok(JsValue(Value::Null))
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, variant: &'static str) -> Result<JsValue, Error> {
        Ok(JsValue(variant.into()))
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result<JsValue, Error> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(
        self,
        _: &'static str,
        _: u32,
        variant: &'static str,
        v: &T,
    ) -> Result<JsValue, Error> {
        Ok(wrap(Some(variant), v.serialize(self)?.0))
    }
    fn serialize_seq(self, n: Option<usize>) -> Result<Seq<'s>, Error> {
        Ok(Seq {
            ser: self,
            items: Vec::with_capacity(n.unwrap_or(0)),
            variant: None,
        })
    }
    fn serialize_tuple(self, n: usize) -> Result<Seq<'s>, Error> {
        self.serialize_seq(Some(n))
    }
    fn serialize_tuple_struct(self, _: &'static str, n: usize) -> Result<Seq<'s>, Error> {
        self.serialize_seq(Some(n))
    }
    fn serialize_tuple_variant(
        self,
        _: &'static str,
        _: u32,
        variant: &'static str,
        n: usize,
    ) -> Result<Seq<'s>, Error> {
        Ok(Seq {
            ser: self,
            items: Vec::with_capacity(n),
            variant: Some(variant),
        })
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Pairs<'s>, Error> {
        Ok(Pairs {
            ser: self,
            items: vec![],
            key: Value::Null,
        })
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Fields<'s>, Error> {
        Ok(Fields {
            ser: self,
            map: Map::new(),
            variant: None,
        })
    }
    fn serialize_struct_variant(
        self,
        _: &'static str,
        _: u32,
        variant: &'static str,
        _: usize,
    ) -> Result<Fields<'s>, Error> {
        Ok(Fields {
            ser: self,
            map: Map::new(),
            variant: Some(variant),
        })
    }
}

impl ser::SerializeSeq for Seq<'_> {
    type Ok = JsValue;
    type Error = Error;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
        self.items.push(v.serialize(self.ser)?.0);
        Ok(())
    }
    fn end(self) -> Result<JsValue, Error> {
        Ok(wrap(self.variant, Value::Array(self.items)))
    }
}
impl ser::SerializeTuple for Seq<'_> {
    type Ok = JsValue;
    type Error = Error;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
        ser::SerializeSeq::serialize_element(self, v)
    }
    fn end(self) -> Result<JsValue, Error> {
        ser::SerializeSeq::end(self)
    }
}
impl ser::SerializeTupleStruct for Seq<'_> {
    type Ok = JsValue;
    type Error = Error;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
        ser::SerializeSeq::serialize_element(self, v)
    }
    fn end(self) -> Result<JsValue, Error> {
        ser::SerializeSeq::end(self)
    }
}
impl ser::SerializeTupleVariant for Seq<'_> {
    type Ok = JsValue;
    type Error = Error;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
        ser::SerializeSeq::serialize_element(self, v)
    }
    fn end(self) -> Result<JsValue, Error> {
        ser::SerializeSeq::end(self)
    }
}
impl ser::SerializeMap for Pairs<'_> {
    type Ok = JsValue;
    type Error = Error;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, k: &T) -> Result<(), Error> {
        self.key = k.serialize(self.ser)?.0;
        Ok(())
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
        let v = v.serialize(self.ser)?.0;
        self.items.push(Value::Array(vec![self.key.take(), v]));
        Ok(())
    }
    fn end(self) -> Result<JsValue, Error> {
        Ok(wrap(Some("$map"), Value::Array(self.items)))
    }
}
impl ser::SerializeStruct for Fields<'_> {
    type Ok = JsValue;
    type Error = Error;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), Error> {
        self.map.insert(k.into(), v.serialize(self.ser)?.0);
        Ok(())
    }
    fn end(self) -> Result<JsValue, Error> {
        Ok(wrap(self.variant, Value::Object(self.map)))
    }
}
impl ser::SerializeStructVariant for Fields<'_> {
    type Ok = JsValue;
    type Error = Error;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), Error> {
        ser::SerializeStruct::serialize_field(self, k, v)
    }
    fn end(self) -> Result<JsValue, Error> {
        ser::SerializeStruct::end(self)
    }
}
