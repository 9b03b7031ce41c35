use serde::ser::{self, Serialize};
use wasm_bindgen::JsValue;

#[derive(Debug, Clone)]
pub struct Error(String);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
impl ser::Error for Error {
    fn custom<T: std::fmt::Display>(m: T) -> Error {
        Error(m.to_string())
    }
}
impl From<Error> for JsValue {
    fn from(e: Error) -> JsValue {
        JsValue::Str(e.0)
    }
}
type R = Result<JsValue, Error>;
pub type Result_<T = JsValue> = Result<T, Error>;

#[derive(Default, Clone, Copy)]
pub struct Serializer {
    null: bool,
    objects: bool,
    bigints: bool,
    arrays: bool,
}
impl Serializer {
    pub const fn new() -> Self {
        Serializer { null: false, objects: false, bigints: false, arrays: false }
    }
    pub const fn json_compatible() -> Self {
        Serializer { null: true, objects: true, bigints: false, arrays: true }
    }
    pub const fn serialize_missing_as_null(mut self, v: bool) -> Self {
        self.null = v;
        self
    }
    pub const fn serialize_maps_as_objects(mut self, v: bool) -> Self {
        self.objects = v;
        self
    }
    pub const fn serialize_large_number_types_as_bigints(mut self, v: bool) -> Self {
        self.bigints = v;
        self
    }
    pub const fn serialize_bytes_as_arrays(mut self, v: bool) -> Self {
        self.arrays = v;
        self
    }
    fn missing(&self) -> JsValue {
        if self.null { JsValue::Null } else { JsValue::Undefined }
    }
    fn big(&self, n: i128) -> R {
        if self.bigints {
            Ok(JsValue::Big(n))
        } else if n.unsigned_abs() < 1 << 53 {
            Ok(JsValue::Num(n as f64))
        } else {
            Err(Error(format!("{n} can't be represented as a JavaScript number")))
        }
    }
}
pub fn to_value<T: Serialize + ?Sized>(v: &T) -> R {
    v.serialize(&Serializer::new())
}
fn put(es: &mut Vec<(String, JsValue)>, k: String, v: JsValue) {
    match es.iter_mut().find(|e| e.0 == k) {
        Some(e) => e.1 = v,
        None => es.push((k, v)),
    }
}
pub struct Arr<'s>(&'s Serializer, Vec<JsValue>, Option<&'static str>);
pub struct Obj<'s>(&'s Serializer, Vec<(String, JsValue)>, Option<&'static str>);
pub struct Map<'s>(&'s Serializer, Vec<(JsValue, JsValue)>, Option<JsValue>);
fn named(n: Option<&'static str>, v: JsValue) -> JsValue {
    match n {
        Some(n) => JsValue::Obj(vec![(n.to_string(), v)]),
        None => v,
    }
}
impl Arr<'_> {
    fn add<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
        self.1.push(v.serialize(self.0)?);
        Ok(())
    }
    fn done(self) -> R {
        Ok(named(self.2, JsValue::Arr(self.1)))
    }
}
macro_rules! seqs { ($($t:ident $f:ident)*) => { $(impl ser::$t for Arr<'_> {
    type Ok = JsValue;
    type Error = Error;
    fn $f<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> { self.add(v) }
    fn end(self) -> R { self.done() }
})* } }
seqs!(SerializeSeq serialize_element SerializeTuple serialize_element SerializeTupleStruct serialize_field SerializeTupleVariant serialize_field);
macro_rules! objs { ($($t:ident)*) => { $(impl ser::$t for Obj<'_> {
    type Ok = JsValue;
    type Error = Error;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), Error> {
        let v = v.serialize(self.0)?;
        put(&mut self.1, k.to_string(), v);
        Ok(())
    }
    fn end(self) -> R { Ok(named(self.2, JsValue::Obj(self.1))) }
})* } }
objs!(SerializeStruct SerializeStructVariant);
impl ser::SerializeMap for Map<'_> {
    type Ok = JsValue;
    type Error = Error;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, k: &T) -> Result<(), Error> {
        self.2 = Some(k.serialize(self.0)?);
        Ok(())
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
        let k = self.2.take().unwrap();
        let v = v.serialize(self.0)?;
        if self.0.objects && !matches!(k, JsValue::Str(_)) {
            return Err(Error("Map key is not a string and cannot be an object key".into()));
        }
        match self.1.iter_mut().find(|e| e.0 == k) {
            Some(e) => e.1 = v,
            None => self.1.push((k, v)),
        }
        Ok(())
    }
    fn end(self) -> R {
        if !self.0.objects {
            return Ok(JsValue::Map(self.1));
        }
        Ok(JsValue::Obj(self.1.into_iter().map(|(k, v)| (k.as_string().unwrap(), v)).collect()))
    }
}
impl<'s> ser::Serializer for &'s Serializer {
    type Ok = JsValue;
    type Error = Error;
    type SerializeSeq = Arr<'s>;
    type SerializeTuple = Arr<'s>;
    type SerializeTupleStruct = Arr<'s>;
    type SerializeTupleVariant = Arr<'s>;
    type SerializeMap = Map<'s>;
    type SerializeStruct = Obj<'s>;
    type SerializeStructVariant = Obj<'s>;
    fn serialize_bool(self, v: bool) -> R { Ok(JsValue::Bool(v)) }
    fn serialize_i8(self, v: i8) -> R { Ok(v.into()) }
    fn serialize_i16(self, v: i16) -> R { Ok(v.into()) }
    fn serialize_i32(self, v: i32) -> R { Ok(v.into()) }
    fn serialize_u8(self, v: u8) -> R { Ok(v.into()) }
    fn serialize_u16(self, v: u16) -> R { Ok(v.into()) }
    fn serialize_u32(self, v: u32) -> R { Ok(v.into()) }
    fn serialize_f32(self, v: f32) -> R { Ok(v.into()) }
    fn serialize_f64(self, v: f64) -> R { Ok(v.into()) }
    fn serialize_i64(self, v: i64) -> R { self.big(v as i128) }
    fn serialize_u64(self, v: u64) -> R { self.big(v as i128) }
    fn serialize_i128(self, v: i128) -> R { Ok(JsValue::Big(v)) }
    fn serialize_u128(self, v: u128) -> R { Ok(JsValue::Big(v as i128)) }
    fn serialize_char(self, v: char) -> R { Ok(JsValue::Str(v.to_string())) }
    fn serialize_str(self, v: &str) -> R { Ok(v.into()) }
    fn serialize_bytes(self, v: &[u8]) -> R { Ok(JsValue::Arr(v.iter().map(|b| (*b).into()).collect())) }
    fn serialize_none(self) -> R { Ok(self.missing()) }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> R { v.serialize(self) }
    fn serialize_unit(self) -> R { Ok(self.missing()) }
    fn serialize_unit_struct(self, _: &'static str) -> R { Ok(self.missing()) }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> R { Ok(v.into()) }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> R { v.serialize(self) }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, n: &'static str, v: &T) -> R {
        Ok(named(Some(n), v.serialize(self)?))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Arr<'s>, Error> { Ok(Arr(self, vec![], None)) }
    fn serialize_tuple(self, _: usize) -> Result<Arr<'s>, Error> { Ok(Arr(self, vec![], None)) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Arr<'s>, Error> { Ok(Arr(self, vec![], None)) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, n: &'static str, _: usize) -> Result<Arr<'s>, Error> { Ok(Arr(self, vec![], Some(n))) }
    fn serialize_map(self, _: Option<usize>) -> Result<Map<'s>, Error> { Ok(Map(self, vec![], None)) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Obj<'s>, Error> { Ok(Obj(self, vec![], None)) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, n: &'static str, _: usize) -> Result<Obj<'s>, Error> { Ok(Obj(self, vec![], Some(n))) }
}
