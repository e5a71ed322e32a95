//! The global objects of JavaScript, as far as the browser reader needs them.
use std::cell::RefCell;
use std::ops::Deref;
use std::rc::Rc;
use wasm_bindgen::{JsCast, JsValue};

macro_rules! object {
    ($name:ident, $is:pat) => {
        #[derive(Clone, Debug)]
        pub struct $name(JsValue);
        impl Deref for $name {
            type Target = JsValue;
            fn deref(&self) -> &JsValue {
                &self.0
            }
        }
        impl AsRef<JsValue> for $name {
            fn as_ref(&self) -> &JsValue {
                &self.0
            }
        }
        impl From<$name> for JsValue {
            fn from(o: $name) -> JsValue {
                o.0
            }
        }
        impl JsCast for $name {
            fn instanceof(v: &JsValue) -> bool {
                matches!(v, $is)
            }
            fn unchecked_from_js(v: JsValue) -> $name {
                $name(v)
            }
        }
    };
}
object!(Array, JsValue::Array(_));
object!(Date, JsValue::Date(_));
object!(Object, JsValue::Object(_) | JsValue::Array(_) | JsValue::Date(_));

impl Array {
    pub fn new() -> Array {
        Array(JsValue::Array(Rc::new(RefCell::new(vec![]))))
    }
    /// `Array.from`
    pub fn from(v: &JsValue) -> Array {
        let a = Array::new();
        match v {
            JsValue::Array(x) => {
                for e in x.borrow().iter() {
                    a.push(e);
                }
            }
            JsValue::Str(s) => {
                for c in s.chars() {
                    a.push(&JsValue::Str(c.to_string()));
                }
            }
            _ => {}
        }
        a
    }
    pub fn is_array(v: &JsValue) -> bool {
        matches!(v, JsValue::Array(_))
    }
    fn items(&self) -> Vec<JsValue> {
        match &self.0 {
            JsValue::Array(x) => x.borrow().clone(),
            _ => vec![],
        }
    }
    pub fn length(&self) -> u32 {
        self.items().len() as u32
    }
    pub fn get(&self, i: u32) -> JsValue {
        self.items().get(i as usize).cloned().unwrap_or(JsValue::Undefined)
    }
    pub fn push(&self, v: &JsValue) -> u32 {
        if let JsValue::Array(x) = &self.0 {
            x.borrow_mut().push(v.clone());
        }
        self.length()
    }
    pub fn iter(&self) -> std::vec::IntoIter<JsValue> {
        self.items().into_iter()
    }
    pub fn to_vec(&self) -> Vec<JsValue> {
        self.items()
    }
}

impl Date {
    pub fn get_time(&self) -> f64 {
        match self.0 {
            JsValue::Date(ms) => ms,
            _ => f64::NAN,
        }
    }
}

impl Object {
    pub fn new() -> Object {
        Object(JsValue::Object(Rc::new(RefCell::new(vec![]))))
    }
}
impl From<JsValue> for Object {
    fn from(v: JsValue) -> Object {
        Object(v)
    }
}

pub struct Reflect;
impl Reflect {
    pub fn get(target: &JsValue, key: &JsValue) -> Result<JsValue, JsValue> {
        let JsValue::Object(o) = target else {
            return if target.is_object() {
                Ok(JsValue::Undefined)
            } else {
                Err(JsValue::from_str("TypeError: Reflect.get called on non-object"))
            };
        };
        let key = key.as_string().unwrap_or_default();
        let v = o.borrow().iter().find(|(k, _)| *k == key).map(|(_, v)| v.clone());
        Ok(v.unwrap_or(JsValue::Undefined))
    }
    pub fn has(target: &JsValue, key: &JsValue) -> Result<bool, JsValue> {
        Ok(!Reflect::get(target, key)?.is_undefined())
    }
    pub fn set(target: &JsValue, key: &JsValue, v: &JsValue) -> Result<bool, JsValue> {
        let JsValue::Object(o) = target else {
            return Err(JsValue::from_str("TypeError: Reflect.set called on non-object"));
        };
        let key = key.as_string().unwrap_or_default();
        let mut o = o.borrow_mut();
        match o.iter_mut().find(|(k, _)| *k == key) {
            Some(e) => e.1 = v.clone(),
            None => o.push((key, v.clone())),
        }
        Ok(true)
    }
}
