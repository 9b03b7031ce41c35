#[derive(Clone, Debug, PartialEq)]
pub enum JsValue {
    Undefined,
    Null,
    Bool(bool),
    Num(f64),
    Big(i128),
    Str(String),
    Arr(Vec<JsValue>),
    Obj(Vec<(String, JsValue)>),
    Map(Vec<(JsValue, JsValue)>),
}
impl JsValue {
    pub const NULL: JsValue = JsValue::Null;
    pub const UNDEFINED: JsValue = JsValue::Undefined;
    pub const TRUE: JsValue = JsValue::Bool(true);
    pub const FALSE: JsValue = JsValue::Bool(false);
    pub fn null() -> JsValue {
        JsValue::Null
    }
    pub fn undefined() -> JsValue {
        JsValue::Undefined
    }
    pub fn from_str(s: &str) -> JsValue {
        JsValue::Str(s.to_string())
    }
    pub fn from_f64(n: f64) -> JsValue {
        JsValue::Num(n)
    }
    pub fn from_bool(b: bool) -> JsValue {
        JsValue::Bool(b)
    }
    pub fn is_null(&self) -> bool {
        *self == JsValue::Null
    }
    pub fn is_undefined(&self) -> bool {
        *self == JsValue::Undefined
    }
    pub fn as_string(&self) -> Option<String> {
        if let JsValue::Str(s) = self { Some(s.clone()) } else { None }
    }
    pub fn as_bool(&self) -> Option<bool> {
        if let JsValue::Bool(b) = self { Some(*b) } else { None }
    }
    pub fn as_f64(&self) -> Option<f64> {
        if let JsValue::Num(n) = self { Some(*n) } else { None }
    }
    /// Not in the real crate: a property of an object.
    pub fn prop(&self, k: &str) -> &JsValue {
        match self {
            JsValue::Obj(es) => es.iter().find(|e| e.0 == k).map(|e| &e.1).unwrap_or(&JsValue::Undefined),
            _ => &JsValue::Undefined,
        }
    }
}
impl From<&str> for JsValue {
    fn from(s: &str) -> JsValue {
        JsValue::from_str(s)
    }
}
impl From<String> for JsValue {
    fn from(s: String) -> JsValue {
        JsValue::Str(s)
    }
}
impl From<bool> for JsValue {
    fn from(b: bool) -> JsValue {
        JsValue::Bool(b)
    }
}
macro_rules! nums { ($($t:ty)*) => { $(impl From<$t> for JsValue { fn from(n: $t) -> JsValue { JsValue::Num(n as f64) } })* } }
nums!(i8 i16 i32 u8 u16 u32 f32 f64);
pub mod prelude {
    pub use crate::JsValue;
    pub use wasm_bindgen_macro::wasm_bindgen;
}
pub use wasm_bindgen_macro::wasm_bindgen;
