//! A JavaScript value, as far as plain data goes.
pub use prelude::*;
pub mod prelude {
    pub use crate::JsValue;
    pub use vh_wasm_bindgen_macro::wasm_bindgen;
}
#[derive(Debug, Clone, PartialEq)]
pub enum JsValue {
    Undefined,
    Null,
    Bool(bool),
    Num(f64),
    BigInt(i128),
    Str(String),
    Arr(Vec<JsValue>),
    Obj(Vec<(String, JsValue)>),
}
impl JsValue {
    pub const NULL: JsValue = JsValue::Null;
    pub const UNDEFINED: JsValue = JsValue::Undefined;
    pub const TRUE: JsValue = JsValue::Bool(true);
    pub const FALSE: JsValue = JsValue::Bool(false);
    pub fn from_str(s: &str) -> JsValue { JsValue::Str(s.into()) }
    pub fn from_f64(n: f64) -> JsValue { JsValue::Num(n) }
    pub fn from_bool(b: bool) -> JsValue { JsValue::Bool(b) }
    pub fn null() -> JsValue { JsValue::Null }
    pub fn undefined() -> JsValue { JsValue::Undefined }
    pub fn is_null(&self) -> bool { *self == JsValue::Null }
    pub fn is_undefined(&self) -> bool { *self == JsValue::Undefined }
    pub fn as_bool(&self) -> Option<bool> { if let JsValue::Bool(b) = self { Some(*b) } else { None } }
    pub fn as_f64(&self) -> Option<f64> { if let JsValue::Num(n) = self { Some(*n) } else { None } }
    pub fn as_string(&self) -> Option<String> { if let JsValue::Str(s) = self { Some(s.clone()) } else { None } }
    pub fn get(&self, key: &str) -> Option<&JsValue> {
        let JsValue::Obj(v) = self else { return None };
        v.iter().find(|e| e.0 == key).map(|e| &e.1)
    }
}
impl From<&str> for JsValue {
    fn from(s: &str) -> Self { JsValue::Str(s.into()) }
}
impl From<String> for JsValue {
    fn from(s: String) -> Self { JsValue::Str(s) }
}
impl From<&String> for JsValue {
    fn from(s: &String) -> Self { JsValue::Str(s.clone()) }
}
impl From<bool> for JsValue {
    fn from(b: bool) -> Self { JsValue::Bool(b) }
}
impl From<f64> for JsValue {
    fn from(n: f64) -> Self { JsValue::Num(n) }
}
