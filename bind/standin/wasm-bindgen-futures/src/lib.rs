use js_sys::Promise;
use std::future::Future;
use wasm_bindgen::JsValue;

pub fn future_to_promise<F>(f: F) -> Promise
where
    F: Future<Output = Result<JsValue, JsValue>> + 'static,
{
    Promise::of(Box::pin(f))
}
/// Turns a promise into a future
pub type JsFuture = Promise;
