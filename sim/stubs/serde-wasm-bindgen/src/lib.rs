//! Conversion between Rust and JavaScript values, by way of JSON. As in the original, a missing
//! value becomes `undefined`, and an integer a JavaScript number cannot hold is an error.
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::Value;
use std::cell::RefCell;
use std::fmt;
use std::rc::Rc;
use wasm_bindgen::JsValue;

#[derive(Debug)]
pub struct Error(String);
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "Error: {}", self.0)
    }
}
impl std::error::Error for Error {}
impl From<Error> for JsValue {
    fn from(e: Error) -> JsValue {
        JsValue::from_str(&e.to_string())
    }
}

const SAFE: u64 = (1 << 53) - 1;

fn js(v: &Value) -> Result<JsValue, Error> {
    Ok(match v {
        Value::Null => JsValue::Undefined,
        Value::Bool(b) => JsValue::Bool(*b),
        Value::Number(n) => {
            let size = n.as_u64().or(n.as_i64().map(i64::unsigned_abs));
            if size.is_some_and(|s| s > SAFE) {
                return Err(Error(format!("{} can't be represented as a JavaScript number", n)));
            }
            JsValue::Number(n.as_f64().unwrap_or(f64::NAN))
        }
        Value::String(s) => JsValue::Str(s.clone()),
        Value::Array(a) => {
            let a: Result<Vec<JsValue>, Error> = a.iter().map(js).collect();
            JsValue::Array(Rc::new(RefCell::new(a?)))
        }
        Value::Object(o) => {
            let o: Result<Vec<(String, JsValue)>, Error> =
                o.iter().map(|(k, v)| Ok((k.clone(), js(v)?))).collect();
            JsValue::Object(Rc::new(RefCell::new(o?)))
        }
    })
}

/// The value as the caller in JavaScript sees it.
pub fn json(v: &JsValue) -> Value {
    match v {
        JsValue::Undefined | JsValue::Null => Value::Null,
        JsValue::Bool(b) => Value::Bool(*b),
        JsValue::Number(n) if n.fract() == 0.0 && n.abs() <= SAFE as f64 => Value::from(*n as i64),
        JsValue::Number(n) | JsValue::Date(n) => Value::from(*n),
        JsValue::Str(s) => Value::String(s.clone()),
        JsValue::Array(a) => Value::Array(a.borrow().iter().map(json).collect()),
        JsValue::Object(o) => Value::Object(o.borrow().iter().map(|(k, v)| (k.clone(), json(v))).collect()),
    }
}

pub fn to_value<T: Serialize + ?Sized>(v: &T) -> Result<JsValue, Error> {
    js(&serde_json::to_value(v).map_err(|e| Error(e.to_string()))?)
}

pub fn from_value<T: DeserializeOwned>(v: JsValue) -> Result<T, Error> {
    serde_json::from_value(json(&v)).map_err(|e| Error(e.to_string()))
}
