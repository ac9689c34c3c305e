//! JavaScript values on the host.  Values made from serde go through JSON text, as in the original.
pub use wasm_bindgen_macro::wasm_bindgen;
use serde_json::Value;
use std::{any::Any, cell::RefCell, fmt, future::Future, pin::Pin, rc::Rc};

pub mod prelude {
    pub use crate::{wasm_bindgen, JsCast, JsValue, UnwrapThrowExt};
}

pub type Call = Pin<Box<dyn Future<Output = Result<JsValue, JsValue>>>>;
/// An object of the host with methods, as a script would implement it.
pub trait Host {
    fn call(&self, method: &str, args: Vec<JsValue>) -> Call;
}
pub struct ErrorParts {
    pub name: String,
    pub message: String,
}
#[derive(Clone)]
pub enum Js {
    Undefined,
    Json(Value),
    Array(Rc<RefCell<Vec<JsValue>>>),
    Error(Rc<RefCell<ErrorParts>>),
    Host(Rc<dyn Host>),
    Native(Rc<dyn Any>),
}
#[derive(Clone)]
pub struct JsValue(pub Js);

impl JsValue {
    pub const NULL: JsValue = JsValue(Js::Json(Value::Null));
    pub const UNDEFINED: JsValue = JsValue(Js::Undefined);
    pub const TRUE: JsValue = JsValue(Js::Json(Value::Bool(true)));
    pub const FALSE: JsValue = JsValue(Js::Json(Value::Bool(false)));
    pub fn null() -> JsValue {
        JsValue::NULL
    }
    pub fn undefined() -> JsValue {
        JsValue::UNDEFINED
    }
    #[allow(clippy::should_implement_trait)]
    pub fn from_str(s: &str) -> JsValue {
        JsValue(Js::Json(Value::String(s.to_owned())))
    }
    pub fn from_bool(b: bool) -> JsValue {
        JsValue(Js::Json(Value::Bool(b)))
    }
    pub fn from_f64(n: f64) -> JsValue {
        JsValue(Js::Json(serde_json::json!(n)))
    }
    pub fn native<T: Any>(x: T) -> JsValue {
        JsValue(Js::Native(Rc::new(x)))
    }
    pub fn to_native<T: Any>(&self) -> Option<Rc<T>> {
        match &self.0 {
            Js::Native(x) => x.clone().downcast::<T>().ok(),
            _ => None,
        }
    }
    pub fn host(x: impl Host + 'static) -> JsValue {
        JsValue(Js::Host(Rc::new(x)))
    }
    pub fn is_undefined(&self) -> bool {
        matches!(self.0, Js::Undefined)
    }
    pub fn is_null(&self) -> bool {
        matches!(self.0, Js::Json(Value::Null))
    }
    pub fn is_string(&self) -> bool {
        matches!(self.0, Js::Json(Value::String(_)))
    }
    pub fn is_object(&self) -> bool {
        !matches!(self.0, Js::Undefined | Js::Json(Value::Null) | Js::Json(Value::Bool(_)) | Js::Json(Value::Number(_)) | Js::Json(Value::String(_)))
    }
    pub fn is_array(&self) -> bool {
        matches!(self.0, Js::Array(_) | Js::Json(Value::Array(_)))
    }
    pub fn as_string(&self) -> Option<String> {
        match &self.0 {
            Js::Json(Value::String(s)) => Some(s.clone()),
            _ => None,
        }
    }
    pub fn as_bool(&self) -> Option<bool> {
        match &self.0 {
            Js::Json(Value::Bool(b)) => Some(*b),
            _ => None,
        }
    }
    pub fn as_f64(&self) -> Option<f64> {
        match &self.0 {
            Js::Json(Value::Number(n)) => n.as_f64(),
            _ => None,
        }
    }
    pub fn from_serde<T: serde::Serialize + ?Sized>(t: &T) -> serde_json::Result<JsValue> {
        let s = serde_json::to_string(t)?;
        Ok(JsValue(Js::Json(serde_json::from_str(&s).expect("JSON.parse"))))
    }
    pub fn into_serde<T: for<'a> serde::de::Deserialize<'a>>(&self) -> serde_json::Result<T> {
        serde_json::from_str(&serde_json::to_string(&self.stringify()).unwrap())
    }
    /// JSON.stringify
    pub fn stringify(&self) -> Value {
        match &self.0 {
            Js::Undefined => Value::Null,
            Js::Json(v) => v.clone(),
            Js::Array(a) => Value::Array(a.borrow().iter().map(|x| x.stringify()).collect()),
            _ => Value::Object(Default::default()),
        }
    }
    pub async fn call(this: &JsValue, method: &str, args: Vec<JsValue>) -> Result<JsValue, JsValue> {
        let h = match &this.0 {
            Js::Host(h) => h.clone(),
            _ => return Err(JsValue::from_str("not a function")),
        };
        h.call(method, args).await
    }
}
impl fmt::Debug for JsValue {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match &self.0 {
            Js::Error(e) => write!(f, "JsValue({}: {})", e.borrow().name, e.borrow().message),
            _ => write!(f, "JsValue({})", self.stringify()),
        }
    }
}
impl PartialEq for JsValue {
    fn eq(&self, o: &JsValue) -> bool {
        self.is_undefined() == o.is_undefined() && self.stringify() == o.stringify()
    }
}
impl Default for JsValue {
    fn default() -> JsValue {
        JsValue::UNDEFINED
    }
}
impl AsRef<JsValue> for JsValue {
    fn as_ref(&self) -> &JsValue {
        self
    }
}
impl From<&str> for JsValue {
    fn from(s: &str) -> JsValue {
        JsValue::from_str(s)
    }
}
impl From<String> for JsValue {
    fn from(s: String) -> JsValue {
        JsValue::from_str(&s)
    }
}
impl From<&String> for JsValue {
    fn from(s: &String) -> JsValue {
        JsValue::from_str(s)
    }
}
impl From<bool> for JsValue {
    fn from(b: bool) -> JsValue {
        JsValue::from_bool(b)
    }
}
impl<T: Into<JsValue>> From<Option<T>> for JsValue {
    fn from(x: Option<T>) -> JsValue {
        x.map(|x| x.into()).unwrap_or(JsValue::UNDEFINED)
    }
}

pub trait JsCast
where
    Self: AsRef<JsValue> + Into<JsValue>,
{
    fn instanceof(val: &JsValue) -> bool;
    fn unchecked_from_js(val: JsValue) -> Self;
    fn unchecked_from_js_ref(val: &JsValue) -> &Self;
    fn is_instance_of<T: JsCast>(&self) -> bool {
        T::instanceof(self.as_ref())
    }
    fn has_type<T: JsCast>(&self) -> bool {
        T::instanceof(self.as_ref())
    }
    fn dyn_into<T: JsCast>(self) -> Result<T, Self>
    where
        Self: Sized,
    {
        if self.is_instance_of::<T>() {
            Ok(self.unchecked_into())
        } else {
            Err(self)
        }
    }
    fn dyn_ref<T: JsCast>(&self) -> Option<&T> {
        if self.is_instance_of::<T>() {
            Some(T::unchecked_from_js_ref(self.as_ref()))
        } else {
            None
        }
    }
    fn unchecked_into<T: JsCast>(self) -> T
    where
        Self: Sized,
    {
        T::unchecked_from_js(self.into())
    }
    fn unchecked_ref<T: JsCast>(&self) -> &T {
        T::unchecked_from_js_ref(self.as_ref())
    }
}
impl JsCast for JsValue {
    fn instanceof(_: &JsValue) -> bool {
        true
    }
    fn unchecked_from_js(val: JsValue) -> Self {
        val
    }
    fn unchecked_from_js_ref(val: &JsValue) -> &Self {
        val
    }
}
pub trait UnwrapThrowExt<T>: Sized {
    fn unwrap_throw(self) -> T;
    fn expect_throw(self, message: &str) -> T;
}
impl<T> UnwrapThrowExt<T> for Option<T> {
    fn unwrap_throw(self) -> T {
        self.unwrap()
    }
    fn expect_throw(self, m: &str) -> T {
        self.expect(m)
    }
}
impl<T, E: fmt::Debug> UnwrapThrowExt<T> for Result<T, E> {
    fn unwrap_throw(self) -> T {
        self.unwrap()
    }
    fn expect_throw(self, m: &str) -> T {
        self.expect(m)
    }
}
