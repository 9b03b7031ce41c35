//! What a Rust value denotes as a document value, taken from serde's data model.
//! `Val::sp` carries notes for the fault injector: `.0` the scalar type, `.1` what the value is.
use crate::model::*;
use serde::ser::*;
use std::fmt::{self, Display};

/// Scalar types, in `Val::sp.0`.
pub const STR: u32 = 1;
pub const BOOL: u32 = 2;
pub const CHAR: u32 = 3;
pub use crate::checks::spell::{F32, F64};
pub const INTS: &[(u32, &str, &str)] = &[
    (10, "0", "255"),
    (11, "0", "65535"),
    (12, "0", "4294967295"),
    (13, "0", "18446744073709551615"),
    (14, "-128", "127"),
    (15, "-32768", "32767"),
    (16, "-2147483648", "2147483647"),
    (17, "-9223372036854775808", "9223372036854775807"),
    (18, "0", "340282366920938463463374607431768211455"),
    (19, "-170141183460469231731687303715884105728", "170141183460469231731687303715884105727"),
];
/// What a value is, in `Val::sp.1`.
pub const STRUCT: u32 = 1;
pub const ENUM: u32 = 2;
pub const MAP: u32 = 3;
pub const SEQ: u32 = 4;
pub const NONE: u32 = 5;
/// Added when the type is an Option.
pub const OPT: u32 = 0x100;
/// `Key::sp.0` of a struct field that is not optional.
pub const REQUIRED: u32 = 1;

#[derive(Debug)]
pub struct E(String);
impl Display for E {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for E {}
impl Error for E {
    fn custom<T: Display>(m: T) -> E {
        E(m.to_string())
    }
}
pub fn to_val<T: Serialize + ?Sized>(t: &T) -> Val {
    t.serialize(S).expect("serializable")
}
fn scal(t: String, ty: u32) -> Result<Val, E> {
    let mut v = Val::scalar(t, Kind::Quoted);
    v.sp.0 = ty;
    Ok(v)
}
fn mark(mut v: Val, what: u32) -> Val {
    v.sp.1 = what;
    v
}
fn key(t: String) -> Key {
    Key { tag: None, pay: Some(Scal { text: t, kind: Kind::Quoted }), sp: Sp(0, 0) }
}
struct S;
pub struct Seq(Vec<Val>, Option<&'static str>);
pub struct Obj {
    es: Vec<Ent>,
    key: Option<Key>,
    tag: Option<&'static str>,
    fields: bool,
}
impl Obj {
    fn done(self) -> Result<Val, E> {
        let fields = self.fields;
        let v = Val::new(self.tag.iter().map(|t| t.to_string()).collect(), Pay::Obj(self.es));
        Ok(mark(v, if self.tag.is_some() { ENUM } else if fields { STRUCT } else { MAP }))
    }
    fn put(&mut self, k: Key, v: Val) {
        self.es.push(Ent { key: k, val: v, doc: None });
    }
}
impl Serializer for S {
    type Ok = Val;
    type Error = E;
    type SerializeSeq = Seq;
    type SerializeTuple = Seq;
    type SerializeTupleStruct = Seq;
    type SerializeTupleVariant = Seq;
    type SerializeMap = Obj;
    type SerializeStruct = Obj;
    type SerializeStructVariant = Obj;
    fn serialize_bool(self, v: bool) -> Result<Val, E> {
        scal(v.to_string(), BOOL)
    }
    fn serialize_i8(self, v: i8) -> Result<Val, E> {
        scal(v.to_string(), 14)
    }
    fn serialize_i16(self, v: i16) -> Result<Val, E> {
        scal(v.to_string(), 15)
    }
    fn serialize_i32(self, v: i32) -> Result<Val, E> {
        scal(v.to_string(), 16)
    }
    fn serialize_i64(self, v: i64) -> Result<Val, E> {
        scal(v.to_string(), 17)
    }
    fn serialize_i128(self, v: i128) -> Result<Val, E> {
        scal(v.to_string(), 19)
    }
    fn serialize_u8(self, v: u8) -> Result<Val, E> {
        scal(v.to_string(), 10)
    }
    fn serialize_u16(self, v: u16) -> Result<Val, E> {
        scal(v.to_string(), 11)
    }
    fn serialize_u32(self, v: u32) -> Result<Val, E> {
        scal(v.to_string(), 12)
    }
    fn serialize_u64(self, v: u64) -> Result<Val, E> {
        scal(v.to_string(), 13)
    }
    fn serialize_u128(self, v: u128) -> Result<Val, E> {
        scal(v.to_string(), 18)
    }
    fn serialize_f32(self, v: f32) -> Result<Val, E> {
        scal(format!("{v:?}"), F32)
    }
    fn serialize_f64(self, v: f64) -> Result<Val, E> {
        scal(format!("{v:?}"), F64)
    }
    fn serialize_char(self, v: char) -> Result<Val, E> {
        scal(v.to_string(), CHAR)
    }
    fn serialize_str(self, v: &str) -> Result<Val, E> {
        scal(v.to_string(), STR)
    }
    fn serialize_bytes(self, _: &[u8]) -> Result<Val, E> {
        Err(E("bytes".into()))
    }
    fn serialize_none(self) -> Result<Val, E> {
        Ok(mark(Val::unit(), NONE | OPT))
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<Val, E> {
        let mut v = v.serialize(S)?;
        v.sp.1 |= OPT;
        Ok(v)
    }
    fn serialize_unit(self) -> Result<Val, E> {
        Ok(Val::unit())
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<Val, E> {
        Ok(Val::unit())
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, n: &'static str) -> Result<Val, E> {
        Ok(mark(Val::new(vec![n.into()], Pay::Unit), ENUM))
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result<Val, E> {
        v.serialize(S)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, n: &'static str, v: &T) -> Result<Val, E> {
        let mut v = v.serialize(S)?;
        v.tags.insert(0, n.into());
        Ok(mark(v, ENUM))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Seq, E> {
        Ok(Seq(vec![], None))
    }
    fn serialize_tuple(self, _: usize) -> Result<Seq, E> {
        Ok(Seq(vec![], None))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Seq, E> {
        Ok(Seq(vec![], None))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, n: &'static str, _: usize) -> Result<Seq, E> {
        Ok(Seq(vec![], Some(n)))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Obj, E> {
        Ok(Obj { es: vec![], key: None, tag: None, fields: false })
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Obj, E> {
        Ok(Obj { es: vec![], key: None, tag: None, fields: true })
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, n: &'static str, _: usize) -> Result<Obj, E> {
        Ok(Obj { es: vec![], key: None, tag: Some(n), fields: true })
    }
}
macro_rules! seq {
    ($($t:ident $f:ident),*) => {$(
        impl $t for Seq {
            type Ok = Val;
            type Error = E;
            fn $f<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
                self.0.push(v.serialize(S)?);
                Ok(())
            }
            fn end(self) -> Result<Val, E> {
                let tag = self.1;
                let v = Val::new(tag.iter().map(|t| t.to_string()).collect(), Pay::Seq(self.0));
                Ok(mark(v, if tag.is_some() { ENUM } else { SEQ }))
            }
        }
    )*};
}
seq!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);
impl SerializeMap for Obj {
    type Ok = Val;
    type Error = E;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, k: &T) -> Result<(), E> {
        match k.serialize(S)?.pay {
            Pay::Scalar(s) => self.key = Some(key(s.text)),
            _ => return Err(E("key".into())),
        }
        Ok(())
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
        let k = self.key.take().unwrap();
        let v = v.serialize(S)?;
        self.put(k, v);
        Ok(())
    }
    fn end(self) -> Result<Val, E> {
        self.done()
    }
}
macro_rules! obj {
    ($($t:ident),*) => {$(
        impl $t for Obj {
            type Ok = Val;
            type Error = E;
            fn serialize_field<T: Serialize + ?Sized>(&mut self, n: &'static str, v: &T) -> Result<(), E> {
                let v = v.serialize(S)?;
                let mut k = key(n.to_string());
                if v.sp.1 & OPT == 0 {
                    k.sp.0 = REQUIRED;
                }
                self.put(k, v);
                Ok(())
            }
            fn end(self) -> Result<Val, E> {
                self.done()
            }
        }
    )*};
}
obj!(SerializeStruct, SerializeStructVariant);
