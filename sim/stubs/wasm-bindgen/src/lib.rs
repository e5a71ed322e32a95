//! JavaScript values, as far as the browser reader needs them.
use std::cell::RefCell;
use std::rc::Rc;

pub use wasm_bindgen_macro::wasm_bindgen;

#[derive(Clone, Debug)]
pub enum JsValue {
    Undefined,
    Null,
    Bool(bool),
    Number(f64),
    Str(String),
    /// milliseconds since 1970
    Date(f64),
    Array(Rc<RefCell<Vec<JsValue>>>),
    Object(Rc<RefCell<Vec<(String, JsValue)>>>),
}

impl JsValue {
    pub const NULL: JsValue = JsValue::Null;
    pub const UNDEFINED: JsValue = JsValue::Undefined;
    pub fn null() -> JsValue {
        JsValue::Null
    }
    pub fn undefined() -> JsValue {
        JsValue::Undefined
    }
    pub fn from_str(s: &str) -> JsValue {
        JsValue::Str(s.to_string())
    }
    pub fn from_f64(n: f64) -> JsValue {
        JsValue::Number(n)
    }
    pub fn from_bool(b: bool) -> JsValue {
        JsValue::Bool(b)
    }
    pub fn as_string(&self) -> Option<String> {
        match self {
            JsValue::Str(s) => Some(s.clone()),
            _ => None,
        }
    }
    pub fn as_f64(&self) -> Option<f64> {
        match self {
            JsValue::Number(n) => Some(*n),
            _ => None,
        }
    }
    pub fn as_bool(&self) -> Option<bool> {
        match self {
            JsValue::Bool(b) => Some(*b),
            _ => None,
        }
    }
    pub fn is_undefined(&self) -> bool {
        matches!(self, JsValue::Undefined)
    }
    pub fn is_null(&self) -> bool {
        matches!(self, JsValue::Null)
    }
    pub fn is_object(&self) -> bool {
        matches!(self, JsValue::Object(_) | JsValue::Array(_) | JsValue::Date(_))
    }
    pub fn is_string(&self) -> bool {
        matches!(self, JsValue::Str(_))
    }
}
impl From<&str> for JsValue {
    fn from(s: &str) -> JsValue {
        JsValue::Str(s.to_string())
    }
}
impl From<String> for JsValue {
    fn from(s: String) -> JsValue {
        JsValue::Str(s)
    }
}
impl From<f64> for JsValue {
    fn from(n: f64) -> JsValue {
        JsValue::Number(n)
    }
}
impl From<bool> for JsValue {
    fn from(b: bool) -> JsValue {
        JsValue::Bool(b)
    }
}
impl AsRef<JsValue> for JsValue {
    fn as_ref(&self) -> &JsValue {
        self
    }
}

pub trait JsCast: Sized + AsRef<JsValue> + Into<JsValue> {
    fn instanceof(val: &JsValue) -> bool;
    fn unchecked_from_js(val: JsValue) -> Self;
    fn is_instance_of<T: JsCast>(&self) -> bool {
        T::instanceof(self.as_ref())
    }
    fn has_type<T: JsCast>(&self) -> bool {
        T::instanceof(self.as_ref())
    }
    fn unchecked_into<T: JsCast>(self) -> T {
        T::unchecked_from_js(self.into())
    }
    fn dyn_into<T: JsCast>(self) -> Result<T, Self> {
        if T::instanceof(self.as_ref()) {
            Ok(T::unchecked_from_js(self.into()))
        } else {
            Err(self)
        }
    }
}
impl JsCast for JsValue {
    fn instanceof(_: &JsValue) -> bool {
        true
    }
    fn unchecked_from_js(val: JsValue) -> JsValue {
        val
    }
}

pub mod prelude {
    pub use crate::{wasm_bindgen, JsCast, JsValue};
}
