//! Stand-in for wasm-bindgen: a `JsValue` that remembers what JavaScript would
//! have been given. `from_serde` serialises to JSON text as the real one does.
use serde::{Deserialize, Serialize};

pub use wasm_bindgen_stub_macro::wasm_bindgen;

#[derive(Clone, Debug, PartialEq)]
pub enum Held {
    Json(String),
    Text(String),
    Number(f64),
    Bool(bool),
    Null,
    Undefined,
}

#[derive(Clone, Debug, PartialEq)]
pub struct JsValue(pub Held);

impl JsValue {
    pub const NULL: JsValue = JsValue(Held::Null);
    pub const UNDEFINED: JsValue = JsValue(Held::Undefined);
    pub const TRUE: JsValue = JsValue(Held::Bool(true));
    pub const FALSE: JsValue = JsValue(Held::Bool(false));
    pub fn from_serde<T: Serialize + ?Sized>(t: &T) -> serde_json::Result<JsValue> {
        serde_json::to_string(t).map(|s| JsValue(Held::Json(s)))
    }
    pub fn into_serde<T: for<'a> Deserialize<'a>>(&self) -> serde_json::Result<T> {
        serde_json::from_str(&self.text())
    }
    fn text(&self) -> String {
        match &self.0 {
            Held::Json(s) => s.clone(),
            Held::Text(s) => serde_json::to_string(s).unwrap(),
            Held::Number(n) => n.to_string(),
            Held::Bool(b) => b.to_string(),
            Held::Null | Held::Undefined => "null".to_string(),
        }
    }
    #[allow(clippy::should_implement_trait)]
    pub fn from_str(s: &str) -> JsValue {
        JsValue(Held::Text(s.to_string()))
    }
    pub fn from_f64(n: f64) -> JsValue {
        JsValue(Held::Number(n))
    }
    pub fn from_bool(b: bool) -> JsValue {
        JsValue(Held::Bool(b))
    }
    pub fn null() -> JsValue {
        Self::NULL
    }
    pub fn undefined() -> JsValue {
        Self::UNDEFINED
    }
    pub fn is_null(&self) -> bool {
        self.0 == Held::Null
    }
    pub fn is_undefined(&self) -> bool {
        self.0 == Held::Undefined
    }
    pub fn is_string(&self) -> bool {
        matches!(self.0, Held::Text(_))
    }
    pub fn is_object(&self) -> bool {
        matches!(self.0, Held::Json(_))
    }
    pub fn as_string(&self) -> Option<String> {
        match &self.0 {
            Held::Text(s) => Some(s.clone()),
            _ => None,
        }
    }
}
impl From<&str> for JsValue {
    fn from(s: &str) -> JsValue {
        JsValue::from_str(s)
    }
}
impl From<String> for JsValue {
    fn from(s: String) -> JsValue {
        JsValue(Held::Text(s))
    }
}
impl From<&String> for JsValue {
    fn from(s: &String) -> JsValue {
        JsValue::from_str(s)
    }
}
impl From<bool> for JsValue {
    fn from(b: bool) -> JsValue {
        JsValue(Held::Bool(b))
    }
}
macro_rules! numbers { ($($t:ty)*) => { $(impl From<$t> for JsValue { fn from(n: $t) -> JsValue { JsValue(Held::Number(n as f64)) } })* } }
numbers! { f64 f32 i8 u8 i16 u16 i32 u32 i64 u64 isize usize }
impl<T: Into<JsValue>> From<Option<T>> for JsValue {
    fn from(o: Option<T>) -> JsValue {
        o.map_or(JsValue::UNDEFINED, Into::into)
    }
}

/// What a call gives JavaScript: a value, or a thrown one.
pub trait Given {
    fn given(self) -> (bool, JsValue);
}
impl Given for JsValue {
    fn given(self) -> (bool, JsValue) {
        (false, self)
    }
}
impl Given for String {
    fn given(self) -> (bool, JsValue) {
        (false, self.into())
    }
}
impl<T: Given, E: Into<JsValue>> Given for Result<T, E> {
    fn given(self) -> (bool, JsValue) {
        match self {
            Ok(v) => v.given(),
            Err(e) => (true, e.into()),
        }
    }
}

pub trait UnwrapThrowExt<T> {
    fn unwrap_throw(self) -> T;
    fn expect_throw(self, m: &str) -> T;
}
impl<T> UnwrapThrowExt<T> for Option<T> {
    fn unwrap_throw(self) -> T {
        self.unwrap()
    }
    fn expect_throw(self, m: &str) -> T {
        self.expect(m)
    }
}
impl<T, E: std::fmt::Debug> UnwrapThrowExt<T> for Result<T, E> {
    fn unwrap_throw(self) -> T {
        self.unwrap()
    }
    fn expect_throw(self, m: &str) -> T {
        self.expect(m)
    }
}
pub fn throw_str(s: &str) -> ! {
    panic!("thrown: {}", s)
}
pub fn throw_val(v: JsValue) -> ! {
    panic!("thrown: {:?}", v)
}

pub mod prelude {
    pub use crate::{wasm_bindgen, JsValue, UnwrapThrowExt};
}
