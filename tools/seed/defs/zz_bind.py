# C29: the language bindings
FFI = '''
use didcomm_uniffi as u;
use std::result::Result;
use std::sync::{mpsc, Arc};
struct End<T>(mpsc::Sender<Result<T, ErrorKind>>);
impl u::OnUnpackResult for End<Message> {
    fn success(&self, m: Message, _: UnpackMetadata) { let _ = self.0.send(Ok(m)); }
    fn error(&self, k: ErrorKind, _: String) { let _ = self.0.send(Err(k)); }
}
impl u::OnPackEncryptedResult for End<String> {
    fn success(&self, m: String, _: PackEncryptedMetadata) { let _ = self.0.send(Ok(m)); }
    fn error(&self, k: ErrorKind, _: String) { let _ = self.0.send(Err(k)); }
}
impl u::OnWrapInForwardResult for End<String> {
    fn success(&self, m: String) { let _ = self.0.send(Ok(m)); }
    fn error(&self, k: ErrorKind, _: String) { let _ = self.0.send(Err(k)); }
}
fn wait<T>(r: mpsc::Receiver<Result<T, ErrorKind>>) -> Result<T, ErrorKind> { r.recv_timeout(std::time::Duration::from_secs(20)).expect("the operation never ends") }
'''
bug("c29-found-prefix", "C29",
    [("uniffi/src/secrets/secrets_resolver_adapter.rs", ".filter(|&&sid| res.iter().find(|&s| s == sid).is_some())", ".filter(|&&sid| res.iter().any(|s| s.starts_with(sid)))")],
    "a message for several keys of which one's id is a prefix of another's, and a host (UniFFI) that holds only the longer one",
    "the wrapper thinks that the host holds the other key, and unpack is refused for want of it",
    FFI + '''
fn main() {
    let (k1, k10) = (key("did:ex:bob#key-1", "X"), key("did:ex:bob#key-10", "X"));
    let d = doc(B, &[&k1, &k10], &[]);
    let (t, _) = run(msg().pack_encrypted(B, None, None, &dids(&[&d]), &wallet(&[]), &nofwd())).unwrap();
    for held in vec![vec![&k1], vec![&k10], vec![&k1, &k10]] {
        let c = u::DIDComm::new(Box::new(u::ExampleDIDResolver::new(vec![d.clone()])), Box::new(u::ExampleSecretsResolver::new(held.iter().map(|k| sec(k)).collect())));
        let (s, r) = mpsc::channel();
        c.unpack(t.clone(), &uopts(), Box::new(End(s)));
        assert_eq!(wait(r).expect("one of the recipient's keys is held"), msg());
    }
}''', "ffi")
bug("c29-last-error", "C29",
    [("uniffi/src/common.rs", '''    pub fn error(&self, err: ErrorKind, msg: String) -> std::result::Result<(), ErrorKind> {
        let sender = self
            .0
            .lock()
            .to_error_kind(ErrorKind::InvalidState)?
            .replace(None);
        match sender {
            Some(sender) => sender
                .send(Err(err_msg(err, msg)))
                .to_error_kind(ErrorKind::InvalidState)?,
            None => Err(ErrorKind::InvalidState)?,
        };
        Ok(())
    }''', '''    pub fn error(&self, err: ErrorKind, msg: String) -> std::result::Result<(), ErrorKind> {
        let cell = self.0.lock().to_error_kind(ErrorKind::InvalidState)?;
        let mut sender = cell.borrow_mut();
        match sender.as_ref() {
            // nobody is waiting for the answer any more
            Some(s) if s.is_canceled() => return Ok(()),
            Some(_) => {}
            None => return Ok(()),
        };
        sender
            .take()
            .ok_or(ErrorKind::InvalidState)?
            .send(Err(err_msg(err, msg)))
            .to_error_kind(ErrorKind::InvalidState)
    }''')],
    "a host (UniFFI) that completes a callback with an error after it was completed with a value",
    "the host is told that its second completion was accepted",
    FFI + '''
struct Twice(mpsc::Sender<bool>, DIDDoc);
impl u::DIDResolver for Twice {
    fn resolve(&self, _: String, cb: Arc<u::OnDIDResolverResult>) -> u::ErrorCode {
        cb.success(Some(self.1.clone())).unwrap();
        let _ = self.0.send(cb.error(ErrorKind::IoError, "timeout".into()).is_ok());
        u::ErrorCode::Success
    }
}
fn main() {
    let k = key("did:ex:bob#k", "X");
    let d = doc(B, &[&k], &[]);
    let (ts, tr) = mpsc::channel();
    let c = u::DIDComm::new(Box::new(Twice(ts, d)), Box::new(u::ExampleSecretsResolver::new(vec![])));
    let (s, r) = mpsc::channel();
    c.pack_encrypted(&msg(), B.into(), None, None, &nofwd(), Box::new(End(s)));
    wait(r).unwrap();
    for told in tr.try_iter() {
        assert!(!told, "a completed callback accepts another completion");
    }
}''', "ffi")
bug("c29-equal-hops", "C29",
    [("uniffi/src/didcomm/protocols/routing/mod.rs", "        let routing_keys = routing_keys.clone();", "        let mut routing_keys = routing_keys.clone();\n        routing_keys.dedup();")],
    "wrap_in_forward (UniFFI) with the same routing key twice in a row",
    "one layer less than asked for",
    FFI + '''
fn main() {
    let k = key("did:ex:med#k", "X");
    let d = doc("did:ex:med", &[&k], &[]);
    let c = u::DIDComm::new(Box::new(u::ExampleDIDResolver::new(vec![d.clone()])), Box::new(u::ExampleSecretsResolver::new(vec![])));
    let (s, r) = mpsc::channel();
    c.wrap_in_forward("{}".into(), &HashMap::new(), B.into(), &vec![k.id.clone(), k.id.clone()], &AnonCryptAlg::default(), Box::new(End(s)));
    let mut t = wait(r).unwrap();
    let mut n = 0;
    while let Ok((m, _)) = run(Message::unpack(&t, &dids(&[&d]), &wallet(&[&k]), &UnpackOptions { unwrap_re_wrapping_forward: false, ..uopts() })) {
        n += 1;
        t = match m.attachments.as_ref().map(|a| &a[0].data) { Some(AttachmentData::Json { value }) => value.json.to_string(), _ => break };
    }
    assert_eq!(n, 2, "layers");
}''', "ffi")
JS = '''
use didcomm_js as w;
use std::result::Result;
use js_sys::{Array, Error as JsError};
use wasm_bindgen::{Call, Host, Js, JsCast, JsValue};
use wasm_bindgen_futures::JsFuture;
struct H(Box<dyn Fn(&str, Vec<JsValue>) -> Result<JsValue, JsValue>>);
impl Host for H {
    fn call(&self, m: &str, args: Vec<JsValue>) -> Call {
        let r = (self.0)(m, args);
        Box::pin(async move { r })
    }
}
fn host<T: JsCast>(f: impl Fn(&str, Vec<JsValue>) -> Result<JsValue, JsValue> + 'static) -> T { JsValue::host(H(Box::new(f))).unchecked_into() }
fn js(v: Value) -> JsValue { JsValue(Js::Json(v)) }
fn name(e: &JsValue) -> String { e.dyn_ref::<JsError>().and_then(|e| e.name().as_string()).unwrap_or_default() }
fn unpack(t: &str, dr: w::DIDResolver, sr: w::SecretsResolver) -> Result<JsValue, JsValue> { run(JsFuture::from(w::Message::unpack(t.into(), dr, sr, js(json!({}))))) }
'''
bug("c29-list-cut", "C29",
    [("wasm/src/secrets/secrets_resolver.rs", '''            .map(|v| v.as_string())
            .flatten()
            .collect();

        let found''', '''            .map(|v| v.as_string())
            .flatten()
            .take(secret_ids.len())
            .collect();

        let found''')],
    "a JavaScript host whose find_secrets lists more ids than it was asked about",
    "a key that is held is not found, and unpack is refused",
    JS + '''
fn main() {
    let k = key("did:ex:bob#k", "X");
    let d = doc(B, &[&k], &[]);
    let (t, _) = run(msg().pack_encrypted(B, None, None, &dids(&[&d]), &wallet(&[]), &nofwd())).unwrap();
    let (id, s) = (k.id.clone(), k.s.clone());
    let r = unpack(&t, host(|_, _| Ok(JsValue::NULL)), host(move |m, _| match m {
        "find_secrets" => Ok(vec!["did:ex:bob#other", &id].into_iter().map(JsValue::from_str).collect::<Array>().into()),
        _ => Ok(js(json!({"id": id, "type": "JsonWebKey2020", "privateKeyJwk": s}))),
    }));
    if let Err(e) = r {
        panic!("{}", name(&e));
    }
}''', "wasm")
bug("c29-io-name", "C29",
    [("wasm/src/error.rs", 'Some("DIDCommIoError") => _ErrorKind::IoError,', 'Some("DIDCommIOError") => _ErrorKind::IoError,')],
    "a JavaScript resolver that throws DIDCommIoError",
    "the operation fails with DIDCommInvalidState",
    JS + '''
fn main() {
    let k = key("did:ex:bob#k", "X");
    let d = doc(B, &[&k], &[]);
    let (t, _) = run(msg().pack_encrypted(B, None, None, &dids(&[&d]), &wallet(&[]), &nofwd())).unwrap();
    for n in vec!["DIDCommIoError", "DIDCommMalformed", "DIDCommDIDNotResolved"] {
        let e = unpack(&t, host(|_, _| Ok(JsValue::NULL)), host(move |_, _| {
            let e = JsError::new("x");
            e.set_name(n);
            Err(e.into())
        })).err().expect("the wallet failed");
        assert_eq!(name(&e), n);
    }
}''', "wasm")
