use std::{
    cell::RefCell,
    future::Future,
    iter::FromIterator,
    ops::Deref,
    pin::Pin,
    rc::Rc,
    task::{Context, Poll},
};
use wasm_bindgen::{Call, ErrorParts, Js, JsCast, JsValue};

macro_rules! class {
    ($n:ident, |$v:ident| $is:expr) => {
        #[repr(transparent)]
        #[derive(Clone, Debug)]
        pub struct $n(JsValue);
        impl Deref for $n {
            type Target = JsValue;
            fn deref(&self) -> &JsValue {
                &self.0
            }
        }
        impl AsRef<JsValue> for $n {
            fn as_ref(&self) -> &JsValue {
                &self.0
            }
        }
        impl From<$n> for JsValue {
            fn from(x: $n) -> JsValue {
                x.0
            }
        }
        impl JsCast for $n {
            fn instanceof($v: &JsValue) -> bool {
                $is
            }
            fn unchecked_from_js(x: JsValue) -> Self {
                $n(x)
            }
            fn unchecked_from_js_ref(x: &JsValue) -> &Self {
                unsafe { &*(x as *const JsValue as *const $n) }
            }
        }
    };
}
class!(JsString, |v| v.is_string());
class!(Array, |v| v.is_array());
class!(Error, |v| matches!(v.0, Js::Error(_)));
class!(Object, |v| v.is_object());

impl From<&str> for JsString {
    fn from(s: &str) -> JsString {
        JsString(JsValue::from_str(s))
    }
}
impl From<String> for JsString {
    fn from(s: String) -> JsString {
        JsString(JsValue::from_str(&s))
    }
}
impl From<JsString> for String {
    fn from(s: JsString) -> String {
        s.0.as_string().unwrap_or_default()
    }
}
impl PartialEq<str> for JsString {
    fn eq(&self, o: &str) -> bool {
        self.0.as_string().as_deref() == Some(o)
    }
}
impl std::fmt::Display for JsString {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0.as_string().unwrap_or_default())
    }
}
impl Error {
    pub fn new(m: &str) -> Error {
        Error(JsValue(Js::Error(Rc::new(RefCell::new(ErrorParts { name: "Error".into(), message: m.into() })))))
    }
    fn parts(&self) -> &RefCell<ErrorParts> {
        match &(self.0).0 {
            Js::Error(p) => p,
            _ => panic!("not an Error"),
        }
    }
    pub fn name(&self) -> JsString {
        self.parts().borrow().name.as_str().into()
    }
    pub fn message(&self) -> JsString {
        self.parts().borrow().message.as_str().into()
    }
    pub fn set_name(&self, n: &str) {
        self.parts().borrow_mut().name = n.into()
    }
    pub fn set_message(&self, n: &str) {
        self.parts().borrow_mut().message = n.into()
    }
}
impl Array {
    pub fn new() -> Array {
        Array(JsValue(Js::Array(Default::default())))
    }
    pub fn new_with_length(n: u32) -> Array {
        Array(JsValue(Js::Array(Rc::new(RefCell::new(vec![JsValue::UNDEFINED; n as usize])))))
    }
    pub fn of1(a: &JsValue) -> Array {
        vec![a.clone()].into_iter().collect()
    }
    pub fn of2(a: &JsValue, b: &JsValue) -> Array {
        vec![a.clone(), b.clone()].into_iter().collect()
    }
    pub fn of3(a: &JsValue, b: &JsValue, c: &JsValue) -> Array {
        vec![a.clone(), b.clone(), c.clone()].into_iter().collect()
    }
    pub fn from(x: &JsValue) -> Array {
        Array(x.clone()).to_vec().into_iter().collect()
    }
    pub fn is_array(x: &JsValue) -> bool {
        x.is_array()
    }
    pub fn to_vec(&self) -> Vec<JsValue> {
        match &(self.0).0 {
            Js::Array(a) => a.borrow().clone(),
            Js::Json(serde_json::Value::Array(a)) => a.iter().map(|x| JsValue(Js::Json(x.clone()))).collect(),
            _ => vec![],
        }
    }
    fn cells(&self) -> &RefCell<Vec<JsValue>> {
        match &(self.0).0 {
            Js::Array(a) => a,
            _ => panic!("stand-in: changing a parsed array"),
        }
    }
    pub fn get(&self, i: u32) -> JsValue {
        self.to_vec().get(i as usize).cloned().unwrap_or_default()
    }
    pub fn set(&self, i: u32, v: JsValue) {
        let mut c = self.cells().borrow_mut();
        while c.len() <= i as usize {
            c.push(JsValue::UNDEFINED);
        }
        c[i as usize] = v;
    }
    pub fn push(&self, v: &JsValue) -> u32 {
        let mut c = self.cells().borrow_mut();
        c.push(v.clone());
        c.len() as u32
    }
    pub fn length(&self) -> u32 {
        self.to_vec().len() as u32
    }
    pub fn iter(&self) -> std::vec::IntoIter<JsValue> {
        self.to_vec().into_iter()
    }
}
impl Default for Array {
    fn default() -> Array {
        Array::new()
    }
}
impl<A: AsRef<JsValue>> FromIterator<A> for Array {
    fn from_iter<T: IntoIterator<Item = A>>(it: T) -> Array {
        Array(JsValue(Js::Array(Rc::new(RefCell::new(it.into_iter().map(|x| x.as_ref().clone()).collect())))))
    }
}

/// A promise: awaiting it drives the computation behind it.
#[derive(Clone)]
pub struct Promise(Rc<RefCell<Option<Call>>>);
impl Promise {
    pub fn of(f: Call) -> Promise {
        Promise(Rc::new(RefCell::new(Some(f))))
    }
    pub fn resolve(v: &JsValue) -> Promise {
        let v = v.clone();
        Promise::of(Box::pin(async move { Ok(v) }))
    }
    pub fn reject(v: &JsValue) -> Promise {
        let v = v.clone();
        Promise::of(Box::pin(async move { Err(v) }))
    }
}
impl Future for Promise {
    type Output = Result<JsValue, JsValue>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let mut f = self.0.borrow_mut();
        match f.as_mut() {
            None => panic!("stand-in: promise awaited again"),
            Some(p) => {
                let r = p.as_mut().poll(cx);
                if r.is_ready() {
                    *f = None;
                }
                r
            }
        }
    }
}
