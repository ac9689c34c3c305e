//! The library's operations as a user calls them: directly, or through the UniFFI wrapper (feature
//! "ffi") or through the WebAssembly wrapper (feature "wasm").  What is recorded is the same for all,
//! so that the same specification judges it.
use crate::{conv::*, exec::*, open::NONE, world::*};
use didcomm::{FromPrior, Message, PackEncryptedMetadata, UnpackMetadata};
use serde_json::{json, Value};
use std::rc::Rc;

/// A JSON value given to the library: whether it was refused, and what became of it where that can be read.
pub type Given = Option<Out<(bool, Option<(Value, Value, bool)>)>>;

/// The result, or the outcome to record.
pub type Out<T> = std::result::Result<T, Value>;

#[cfg(not(any(feature = "ffi", feature = "wasm")))]
mod imp {
    use super::*;
    use didcomm::{
        did::{resolvers::ExampleDIDResolver, DIDResolver},
        protocols::routing::wrap_in_forward,
        secrets::{resolvers::ExampleSecretsResolver, SecretsResolver},
    };
    pub enum R {
        Own(Rc<Res>),
        Ex(ExampleDIDResolver, ExampleSecretsResolver),
    }
    impl R {
        pub fn ex(w: &World, wallet: &str) -> R {
            R::Ex(
                ExampleDIDResolver::new(w.docs.values().cloned().collect()),
                ExampleSecretsResolver::new(w.wallets.get(wallet).cloned().unwrap_or_default()),
            )
        }
        fn d(&self) -> &dyn DIDResolver {
            match self {
                R::Own(r) => &**r,
                R::Ex(d, _) => d,
            }
        }
        fn s(&self) -> &dyn SecretsResolver {
            match self {
                R::Own(r) => &**r,
                R::Ex(_, s) => s,
            }
        }
    }
    pub fn prepare(op: &Value) -> Value {
        op.clone()
    }
    pub async fn pack_plain(m: Message, r: &R) -> Out<String> {
        m.pack_plaintext(r.d()).await.map_err(|e| err(&e))
    }
    pub async fn pack_signed(m: Message, by: &str, r: &R) -> Out<(String, String)> {
        m.pack_signed(by, r.d(), r.s()).await.map(|(t, md)| (t, md.sign_by_kid)).map_err(|e| err(&e))
    }
    pub async fn pack_enc(m: Message, op: &Value, r: &R) -> Out<(String, PackEncryptedMetadata)> {
        let o = mk_popts(op).map_err(|_| badopts())?;
        m.pack_encrypted(sget(op, "to"), op["from"].as_str(), op["by"].as_str(), r.d(), r.s(), &o).await.map_err(|e| err(&e))
    }
    pub async fn unpack(t: &str, op: &Value, r: &R) -> Out<(Message, UnpackMetadata, bool)> {
        let o = mk_uopts(op).map_err(|_| badopts())?;
        let (m, md) = Message::unpack(t, r.d(), r.s(), &o).await.map_err(|e| err(&e))?;
        let ser = metaser(&md);
        Ok((m, md, ser))
    }
    pub async fn fp_pack(f: FromPrior, kid: Option<&str>, r: &R) -> Out<(String, String)> {
        f.pack(kid, r.d(), r.s()).await.map_err(|e| err(&e))
    }
    pub async fn fp_unpack(t: &str, r: &R) -> Out<(FromPrior, String)> {
        FromPrior::unpack(t, r.d()).await.map_err(|e| err(&e))
    }
    pub async fn wrap(t: &str, op: &Value, r: &R) -> Out<String> {
        let h = headers(op);
        wrap_in_forward(t, h.as_ref(), sget(op, "to"), &strs(&op["rks"]), &mk_anon(sget(op, "anon")), r.d()).await.map_err(|e| err(&e))
    }
    pub fn js_json(_: &str, _: &Value) -> Given {
        None
    }
    pub fn tpf(m: &Message) -> Value {
        tpf_native(m)
    }
}

#[cfg(feature = "ffi")]
mod imp {
    use super::*;
    use didcomm::{
        did::DIDDoc,
        error::{ErrorKind, Result as DResult},
        secrets::Secret,
        PackSignedMetadata,
    };
    use didcomm_uniffi as u;
    use std::{
        sync::{
            mpsc::{channel, Receiver, RecvTimeoutError, Sender},
            Arc,
        },
        time::Duration,
    };
    use u::UniffiCustomTypeConverter;

    pub enum R {
        Own(Rc<Res>),
        Ex(Vec<DIDDoc>, Vec<Secret>),
    }
    impl R {
        pub fn ex(w: &World, wallet: &str) -> R {
            R::Ex(w.docs.values().cloned().collect(), w.wallets.get(wallet).cloned().unwrap_or_default())
        }
    }
    pub fn prepare(op: &Value) -> Value {
        op.clone()
    }
    /// What an operation running elsewhere asks or says.
    enum Q<T> {
        Did(String, Arc<u::OnDIDResolverResult>, Option<Sender<()>>),
        Get(String, Arc<u::OnGetSecretResult>, Option<Sender<()>>),
        Find(Vec<String>, Arc<u::OnFindSecretsResult>, Option<Sender<()>>),
        End(Result<T, ErrorKind>),
    }
    /// Asks across a channel.  "inline": the answer is there before the call returns.
    struct Asker<T>(Sender<Q<T>>, bool);
    impl<T> Asker<T> {
        fn ask(&self, q: impl FnOnce(Option<Sender<()>>) -> Q<T>) -> u::ErrorCode {
            let (tx, rx) = channel();
            let _ = self.0.send(q(if self.1 { Some(tx) } else { None }));
            if self.1 {
                let _ = rx.recv_timeout(Duration::from_secs(15));
            }
            u::ErrorCode::Success
        }
    }
    impl<T: Send> u::DIDResolver for Asker<T> {
        fn resolve(&self, did: String, cb: Arc<u::OnDIDResolverResult>) -> u::ErrorCode {
            self.ask(|g| Q::Did(did, cb, g))
        }
    }
    impl<T: Send> u::SecretsResolver for Asker<T> {
        fn get_secret(&self, id: String, cb: Arc<u::OnGetSecretResult>) -> u::ErrorCode {
            self.ask(|g| Q::Get(id, cb, g))
        }
        fn find_secrets(&self, ids: Vec<String>, cb: Arc<u::OnFindSecretsResult>) -> u::ErrorCode {
            self.ask(|g| Q::Find(ids, cb, g))
        }
    }
    struct Teller<T>(Sender<Q<T>>);
    macro_rules! tellers {
        ($($tr:ident($($a:ident: $t:ty),*) -> $r:ty;)*) => { $(
            impl u::$tr for Teller<$r> {
                fn success(&self, $($a: $t),*) {
                    let _ = self.0.send(Q::End(Ok(($($a),*))));
                }
                fn error(&self, err: ErrorKind, _msg: String) {
                    let _ = self.0.send(Q::End(Err(err)));
                }
            }
        )* };
    }
    tellers! {
        OnPackPlaintextResult(t: String) -> String;
        OnPackSignedResult(t: String, m: PackSignedMetadata) -> (String, PackSignedMetadata);
        OnPackEncryptedResult(t: String, m: PackEncryptedMetadata) -> (String, PackEncryptedMetadata);
        OnUnpackResult(t: Message, m: UnpackMetadata) -> (Message, UnpackMetadata);
        OnFromPriorPackResult(t: String, k: String) -> (String, String);
        OnFromPriorUnpackResult(t: FromPrior, k: String) -> (FromPrior, String);
        OnWrapInForwardResult(t: String) -> String;
    }
    /// Completes a question's callback as the host's script says; what each completion was told.
    macro_rules! answer {
        ($r:expr, $sc:expr, $cb:expr, $v:expr, $none:expr, $list:expr) => {{
            let (r, sc, cb) = ($r, $sc, $cb);
            let v: DResult<_> = $v;
            let told = |x: Result<(), ErrorKind>| x.map_or_else(kind_name, |_| "ok");
            let (mut moves, mut rets): (Vec<&str>, Vec<&str>) = (vec![], vec![]);
            match v {
                Err(e) if e.kind() == ErrorKind::InvalidState && sc["drop"].as_bool() == Some(true) => {}
                v => {
                    match v {
                        Ok(x) => {
                            moves.push("val");
                            rets.push(told(cb.success($list(x))));
                        }
                        Err(e) => {
                            moves.push("err");
                            rets.push(told(cb.error(e.kind(), e.to_string())));
                        }
                    }
                    for m in strs(&sc["more"]) {
                        if m == "val" {
                            moves.push("val");
                            rets.push(told(cb.success($none)));
                        } else {
                            moves.push("err");
                            rets.push(told(cb.error(ErrorKind::Malformed, "again".into())));
                        }
                    }
                }
            }
            if !r.closed.get() {
                r.cells.borrow_mut().push(json!({"moves":moves,"rets":rets}));
            }
            drop(cb);
        }};
    }
    /// Runs one operation: its questions are answered from the scenario's world on this thread.
    async fn run<T: Send + 'static, F>(r: &R, f: F) -> Out<T>
    where
        F: FnOnce(&u::DIDComm, Box<Teller<T>>) -> u::ErrorCode,
    {
        let (tx, rx): (Sender<Q<T>>, Receiver<Q<T>>) = channel();
        let (d, s): (Box<dyn u::DIDResolver>, Box<dyn u::SecretsResolver>) = match r {
            R::Own(r) => (Box::new(Asker(tx.clone(), r.inline)), Box::new(Asker(tx.clone(), r.inline))),
            R::Ex(d, s) => (Box::new(u::ExampleDIDResolver::new(d.clone())), Box::new(u::ExampleSecretsResolver::new(s.clone()))),
        };
        {
            let dc = u::DIDComm::new(d, s);
            if !matches!(f(&dc, Box::new(Teller(tx))), u::ErrorCode::Success) {
                return Err(json!({"st":"code","kind":NONE}));
            }
        }
        let mut end = None;
        loop {
            match rx.recv_timeout(Duration::from_secs(15)) {
                Ok(Q::End(x)) => {
                    // the operation must fall silent after its one completion
                    if let R::Own(r) = r {
                        if !r.closed.get() {
                            r.code.set(true);
                            r.ends.set(r.ends.get() + 1);
                        }
                    }
                    end = end.or(Some(x));
                }
                Ok(q) => {
                    let r = match r {
                        R::Own(r) => r,
                        _ => panic!("harness: question to nobody"),
                    };
                    let sc = r.script();
                    match q {
                        Q::Did(d, cb, go) => {
                            answer!(r, &sc, cb, r.q_did(&d).await, None, |x| x);
                            drop(go)
                        }
                        Q::Get(i, cb, go) => {
                            answer!(r, &sc, cb, r.q_get(&i).await, None, |x| x);
                            drop(go)
                        }
                        Q::Find(i, cb, go) => {
                            answer!(r, &sc, cb, r.q_find(&i).await, vec![], |x| r.listed(x, sc["find"].as_str().unwrap_or("")));
                            drop(go)
                        }
                        Q::End(_) => unreachable!(),
                    }
                }
                Err(RecvTimeoutError::Timeout) if end.is_none() => return Err(json!({"st":"hang","kind":NONE})),
                Err(_) => break,
            }
        }
        match end {
            Some(x) => x.map_err(|k| json!({"st":"err","kind":kind_name(k)})),
            None => Err(json!({"st":"panic","kind":NONE,"what":"the operation ended without a word"})),
        }
    }
    /// JSON values cross the boundary as text.
    fn cross(v: Value) -> Value {
        u::JsonValue::into_custom(u::JsonValue::from_custom(v)).expect("cross")
    }
    fn cross_msg(mut m: Message) -> Message {
        m.body = cross(m.body);
        m.extra_headers = m.extra_headers.into_iter().map(|(k, v)| (k, cross(v))).collect();
        m
    }
    pub async fn pack_plain(m: Message, r: &R) -> Out<String> {
        run(r, |d, cb| d.pack_plaintext(&cross_msg(m), cb)).await
    }
    pub async fn pack_signed(m: Message, by: &str, r: &R) -> Out<(String, String)> {
        run(r, |d, cb: Box<Teller<(String, PackSignedMetadata)>>| d.pack_signed(&cross_msg(m), by.to_owned(), cb)).await.map(|(t, md)| (t, md.sign_by_kid))
    }
    pub async fn pack_enc(m: Message, op: &Value, r: &R) -> Out<(String, PackEncryptedMetadata)> {
        let o = mk_popts(op).map_err(|_| badopts())?;
        let s = |k: &str| op[k].as_str().map(|s| s.to_owned());
        run(r, |d, cb: Box<Teller<(String, PackEncryptedMetadata)>>| d.pack_encrypted(&cross_msg(m), sget(op, "to").to_owned(), s("from"), s("by"), &o, cb)).await
    }
    pub async fn unpack(t: &str, op: &Value, r: &R) -> Out<(Message, UnpackMetadata, bool)> {
        let o = mk_uopts(op).map_err(|_| badopts())?;
        let (m, md) = run(r, |d, cb: Box<Teller<(Message, UnpackMetadata)>>| d.unpack(t.to_owned(), &o, cb)).await?;
        let ser = metaser(&md);
        Ok((cross_msg(m), md, ser))
    }
    pub async fn fp_pack(f: FromPrior, kid: Option<&str>, r: &R) -> Out<(String, String)> {
        run(r, |d, cb: Box<Teller<(String, String)>>| d.pack_from_prior(&f, kid.map(|s| s.to_owned()), cb)).await
    }
    pub async fn fp_unpack(t: &str, r: &R) -> Out<(FromPrior, String)> {
        run(r, |d, cb: Box<Teller<(FromPrior, String)>>| d.unpack_from_prior(t.to_owned(), cb)).await
    }
    pub async fn wrap(t: &str, op: &Value, r: &R) -> Out<String> {
        let h = headers(op).unwrap_or_default().into_iter().map(|(k, v)| (k, cross(v))).collect();
        run(r, |d, cb: Box<Teller<String>>| d.wrap_in_forward(t.to_owned(), &h, sget(op, "to").to_owned(), &strs(&op["rks"]), &mk_anon(sget(op, "anon")), cb)).await
    }
    pub fn js_json(_: &str, _: &Value) -> Given {
        None
    }
    pub fn tpf(m: &Message) -> Value {
        tpf_native(m)
    }
}

#[cfg(feature = "wasm")]
mod imp {
    use super::*;
    use didcomm::{
        algorithms::{AnonCryptAlg, AuthCryptAlg, SignAlg},
        did::{DIDDoc, ServiceKind, VerificationMaterial},
        error::{Error, ErrorKind, Result as DResult},
        secrets::{Secret, SecretMaterial},
        MessagingServiceMetadata,
    };
    use didcomm_js as w;
    use js_sys::{Array, Error as JsError, Promise};
    use wasm_bindgen::{Call, Host, Js, JsCast, JsValue};

    pub enum R {
        Own(Rc<Res>),
    }
    impl R {
        pub fn ex(_: &World, _: &str) -> R {
            panic!("harness: the wrapper has no example resolvers")
        }
    }
    /// There is no way to say "the default options" but the empty object.
    pub fn prepare(op: &Value) -> Value {
        let mut op = op.clone();
        let o = op["opts"].clone();
        if o["json"].is_string() {
            return op;
        }
        let mut j = json!({});
        for (a, b) in [("protect", "protect_sender"), ("forward", "forward"), ("headers", "forward_headers"), ("svc", "messaging_service"), ("all", "expect_decrypt_by_all_keys"), ("unwrap", "unwrap_re_wrapping_forward")].iter() {
            if let Some(x) = o.get(*a).filter(|x| !x.is_null()) {
                j[*b] = x.clone();
            }
        }
        if let Some(x) = o["anon"].as_str() {
            j["enc_alg_anon"] = json!(js_anon(x));
        }
        match sget(&op, "op") {
            "pack_enc" | "unpack" => op["opts"] = json!({"json": serde_json::to_string(&j).unwrap()}),
            _ => {}
        }
        op
    }
    fn js_anon(s: &str) -> &'static str {
        match s {
            "A256CBC-HS512" => "A256cbcHs512EcdhEsA256kw",
            "XC20P" => "Xc20pEcdhEsA256kw",
            "A256GCM" => "A256gcmEcdhEsA256kw",
            _ => panic!("harness: anon alg {}", s),
        }
    }
    fn js(v: Value) -> JsValue {
        JsValue(Js::Json(v))
    }
    /// The documented JSON of a document, written here
    fn doc_json(d: &DIDDoc) -> Value {
        json!({"id":d.id,"keyAgreement":d.key_agreement,"authentication":d.authentication,
            "verificationMethod":d.verification_method.iter().map(|v| {
                let mut j = json!({"id":v.id,"type":vmt_name(&v.type_),"controller":v.controller});
                match &v.verification_material {
                    VerificationMaterial::JWK { public_key_jwk } => j["publicKeyJwk"] = public_key_jwk.clone(),
                    VerificationMaterial::Multibase { public_key_multibase } => j["publicKeyMultibase"] = json!(public_key_multibase),
                    VerificationMaterial::Base58 { public_key_base58 } => j["publicKeyBase58"] = json!(public_key_base58),
                }
                j
            }).collect::<Vec<_>>(),
            "service":d.service.iter().map(|s| match &s.service_endpoint {
                ServiceKind::DIDCommMessaging { value } => {
                    let mut e = json!({"uri":value.uri,"routingKeys":value.routing_keys});
                    if let Some(a) = &value.accept {
                        e["accept"] = json!(a);
                    }
                    json!({"id":s.id,"type":"DIDCommMessaging","serviceEndpoint":e})
                }
                ServiceKind::Other { value } => json!({"id":s.id,"type":"Other","serviceEndpoint":value}),
            }).collect::<Vec<_>>()})
    }
    fn secret_json(s: &Secret) -> Value {
        let mut j = json!({"id":s.id,"type":st_name(&s.type_)});
        match &s.secret_material {
            SecretMaterial::JWK { private_key_jwk } => j["privateKeyJwk"] = private_key_jwk.clone(),
            SecretMaterial::Multibase { private_key_multibase } => j["privateKeyMultibase"] = json!(private_key_multibase),
            SecretMaterial::Base58 { private_key_base58 } => j["privateKeyBase58"] = json!(private_key_base58),
        }
        j
    }
    fn thrown(e: Error, sc: &Value) -> JsValue {
        if e.kind() == ErrorKind::InvalidState {
            // what no binding knows is an invalid state
            match sc["form"].as_str().unwrap_or("") {
                "string" => return JsValue::from_str("DIDCommMalformed"),
                "object" => return js(json!({"name":"DIDCommMalformed","message":"x"})),
                "noname" => return JsError::new("DIDCommMalformed").into(),
                "null" => return JsValue::NULL,
                "other" => {
                    let x = JsError::new("x");
                    x.set_name("Malformed");
                    return x.into();
                }
                _ => {}
            }
        }
        let x = JsError::new(&e.to_string());
        x.set_name(&format!("DIDComm{}", kind_name(e.kind())));
        x.into()
    }
    struct Script(Rc<Res>);
    impl Host for Script {
        fn call(&self, method: &str, args: Vec<JsValue>) -> Call {
            let (r, m) = (self.0.clone(), method.to_owned());
            Box::pin(async move {
                let sc = r.script();
                let sc = &sc;
                // an answer of the wrong kind is an invalid state as well
                let wrong = |e: Error| {
                    if e.kind() == ErrorKind::InvalidState && sc["form"].as_str().unwrap_or("") == "value" {
                        Ok(js(json!(7)))
                    } else {
                        Err(thrown(e, sc))
                    }
                };
                let plain = |x: DResult<Value>| x.map(js).or_else(wrong);
                match m.as_str() {
                    "resolve" => plain(r.q_did(&args[0].as_string().unwrap()).await.map(|d| d.map_or(Value::Null, |d| doc_json(&d)))),
                    "get_secret" => plain(r.q_get(&args[0].as_string().unwrap()).await.map(|d| d.map_or(Value::Null, |d| secret_json(&d)))),
                    "find_secrets" => {
                        let ids: Vec<String> = args[0].unchecked_ref::<Array>().iter().map(|x| x.as_string().unwrap()).collect();
                        match r.q_find(&ids).await {
                            Ok(v) => {
                                let a: Array = r.listed(v, sc["find"].as_str().unwrap_or("")).into_iter().map(|s| JsValue::from_str(&s)).collect();
                                Ok(a.into())
                            }
                            Err(e) => wrong(e),
                        }
                    }
                    _ => Err(JsError::new("not a function").into()),
                }
            })
        }
    }
    fn script<T: JsCast>(r: &R) -> T {
        let R::Own(r) = r;
        JsValue::host(Script(r.clone())).unchecked_into()
    }
    fn caught(e: JsValue) -> Value {
        let n = e.dyn_ref::<JsError>().and_then(|e| e.name().as_string()).unwrap_or_default();
        json!({"st":"err","kind":n.strip_prefix("DIDComm").unwrap_or("no DIDComm error")})
    }
    /// For promises that wait for nothing.
    fn settle<T>(f: impl std::future::Future<Output = T>) -> T {
        let mut f = Box::pin(f);
        let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
        for _ in 0..1000 {
            if let std::task::Poll::Ready(x) = f.as_mut().poll(&mut cx) {
                return x;
            }
        }
        panic!("a promise is not settled")
    }
    async fn done(p: Promise) -> Out<JsValue> {
        p.await.map_err(caught)
    }
    fn pair(v: JsValue) -> Out<(JsValue, JsValue)> {
        match v.dyn_into::<Array>() {
            Ok(a) if a.length() == 2 => Ok((a.get(0), a.get(1))),
            _ => Err(odd("no pair")),
        }
    }
    fn odd(w: &str) -> Value {
        json!({"st":"odd","kind":NONE,"what":w})
    }
    fn text(v: JsValue) -> Out<String> {
        v.as_string().ok_or_else(|| odd("no text"))
    }
    fn msg(m: &Message) -> Out<w::Message> {
        w::Message::new(js(dump_msg(m)).unchecked_into()).map_err(caught)
    }
    fn opt(v: &Value, k: &str) -> Out<Option<String>> {
        match v.get(k) {
            None | Some(Value::Null) => Ok(None),
            Some(Value::String(s)) => Ok(Some(s.clone())),
            _ => Err(odd(k)),
        }
    }
    fn flag(v: &Value, k: &str) -> Out<bool> {
        v[k].as_bool().ok_or_else(|| odd(k))
    }
    pub async fn pack_plain(m: Message, r: &R) -> Out<String> {
        text(done(msg(&m)?.pack_plaintext(script(r))).await?)
    }
    pub async fn pack_signed(m: Message, by: &str, r: &R) -> Out<(String, String)> {
        let (t, md) = pair(done(msg(&m)?.pack_signed(by.to_owned(), script(r), script(r))).await?)?;
        Ok((text(t)?, opt(&md.stringify(), "sign_by_kid")?.ok_or_else(|| odd("sign_by_kid"))?))
    }
    pub async fn pack_enc(m: Message, op: &Value, r: &R) -> Out<(String, PackEncryptedMetadata)> {
        let o: Value = serde_json::from_str(op["opts"]["json"].as_str().unwrap()).unwrap();
        let bad = mk_popts(op).is_err();
        let s = |k: &str| op[k].as_str().map(|s| s.to_owned());
        let p = msg(&m)?.pack_encrypted(sget(op, "to").to_owned(), s("from"), s("by"), script(r), script(r), js(o));
        let (t, md) = match done(p).await {
            Err(e) if bad && e["kind"] == json!("Malformed") => return Err(badopts()),
            Ok(_) if bad => return Err(odd("bad options")),
            x => pair(x?)?,
        };
        let v = md.stringify();
        let sv = &v["messaging_service"];
        let md = PackEncryptedMetadata {
            messaging_service: if sv.is_null() {
                None
            } else {
                Some(MessagingServiceMetadata { id: opt(sv, "id")?.ok_or_else(|| odd("id"))?, service_endpoint: opt(sv, "service_endpoint")?.ok_or_else(|| odd("service_endpoint"))? })
            },
            from_kid: opt(&v, "from_kid")?,
            sign_by_kid: opt(&v, "sign_by_kid")?,
            to_kids: strs(&v["to_kids"]),
        };
        Ok((text(t)?, md))
    }
    fn mk_meta(v: &Value) -> Out<UnpackMetadata> {
        Ok(UnpackMetadata {
            encrypted: flag(v, "encrypted")?,
            authenticated: flag(v, "authenticated")?,
            non_repudiation: flag(v, "non_repudiation")?,
            anonymous_sender: flag(v, "anonymous_sender")?,
            re_wrapped_in_forward: flag(v, "re_wrapped_in_forward")?,
            encrypted_from_kid: opt(v, "encrypted_from_kid")?,
            encrypted_to_kids: v["encrypted_to_kids"].as_array().map(|_| strs(&v["encrypted_to_kids"])),
            sign_from: opt(v, "sign_from")?,
            from_prior_issuer_kid: opt(v, "from_prior_issuer_kid")?,
            enc_alg_auth: match opt(v, "enc_alg_auth")?.as_deref() {
                None => None,
                Some("A256cbcHs512Ecdh1puA256kw") => Some(AuthCryptAlg::A256cbcHs512Ecdh1puA256kw),
                _ => return Err(odd("enc_alg_auth")),
            },
            enc_alg_anon: match opt(v, "enc_alg_anon")?.as_deref() {
                None => None,
                Some("A256cbcHs512EcdhEsA256kw") => Some(AnonCryptAlg::A256cbcHs512EcdhEsA256kw),
                Some("Xc20pEcdhEsA256kw") => Some(AnonCryptAlg::Xc20pEcdhEsA256kw),
                Some("A256gcmEcdhEsA256kw") => Some(AnonCryptAlg::A256gcmEcdhEsA256kw),
                _ => return Err(odd("enc_alg_anon")),
            },
            sign_alg: match opt(v, "sign_alg")?.as_deref() {
                None => None,
                Some("EdDSA") => Some(SignAlg::EdDSA),
                Some("ES256") => Some(SignAlg::ES256),
                Some("ES256K") => Some(SignAlg::ES256K),
                _ => return Err(odd("sign_alg")),
            },
            signed_message: opt(v, "signed_message")?,
            from_prior: if v["from_prior"].is_null() { None } else { Some(mk_fp(&v["from_prior"])) },
        })
    }
    pub async fn unpack(t: &str, op: &Value, r: &R) -> Out<(Message, UnpackMetadata, bool)> {
        let o: Value = serde_json::from_str(op["opts"]["json"].as_str().unwrap()).unwrap();
        let bad = mk_uopts(op).is_err();
        let (m, md) = match done(w::Message::unpack(t.to_owned(), script(r), script(r), js(o))).await {
            Err(e) if bad && e["kind"] == json!("Malformed") => return Err(badopts()),
            Ok(_) if bad => return Err(odd("bad options")),
            x => pair(x?)?,
        };
        let m = m.to_native::<w::Message>().ok_or_else(|| odd("no message"))?;
        let v = m.as_value().map_err(caught)?.stringify();
        let mut m = mk_msg(&v);
        m.typ = v["typ"].as_str().unwrap_or("none").to_owned();
        Ok((m, mk_meta(&md.stringify())?, true))
    }
    fn fp(f: &FromPrior) -> Out<w::FromPrior> {
        w::FromPrior::new(js(dump_fp(f)).unchecked_into()).map_err(caught)
    }
    pub async fn fp_pack(f: FromPrior, kid: Option<&str>, r: &R) -> Out<(String, String)> {
        let (t, k) = pair(done(fp(&f)?.pack(kid.map(|s| s.to_owned()), script(r), script(r))).await?)?;
        Ok((text(t)?, text(k)?))
    }
    pub async fn fp_unpack(t: &str, r: &R) -> Out<(FromPrior, String)> {
        let (f, k) = pair(done(w::FromPrior::unpack(t.to_owned(), script(r))).await?)?;
        let f = f.to_native::<w::FromPrior>().ok_or_else(|| odd("no from_prior"))?;
        Ok((mk_fp(&f.as_value().map_err(caught)?.stringify()), text(k)?))
    }
    pub async fn wrap(t: &str, op: &Value, r: &R) -> Out<String> {
        let h = Value::Object(headers(op).unwrap_or_default().into_iter().collect());
        let p = w::Message::wrap_in_forward(t.to_owned(), js(h), sget(op, "to").to_owned(), js(json!(strs(&op["rks"]))), js(json!(js_anon(sget(op, "anon")))), script(r));
        text(done(p).await?)
    }
    pub fn js_json(ty: &str, v: &Value) -> Given {
        // refused means Malformed
        fn refused<T>(r: Out<T>) -> Out<Option<T>> {
            match r {
                Ok(x) => Ok(Some(x)),
                Err(e) if e["kind"] == json!("Malformed") => Ok(None),
                Err(e) => Err(odd(sget(&e, "kind"))),
            }
        }
        // with these options, or this algorithm, the operation gets as far as asking for a document nobody has
        fn asked(p: Promise) -> Out<(bool, Option<(Value, Value, bool)>)> {
            match settle(done(p)) {
                Err(e) if e["kind"] == json!("Malformed") => Ok((true, None)),
                Err(e) if e["kind"] == json!("DIDNotResolved") => Ok((false, None)),
                Err(e) => Err(odd(sget(&e, "kind"))),
                Ok(_) => Err(odd("packed")),
            }
        }
        let r = R::Own(Rc::new(Res::new(&Default::default(), &json!({}))));
        let m = || w::Message::new(js(json!({"id":"1","typ":"application/didcomm-plain+json","type":"t","body":{}})).unchecked_into()).map_err(caught);
        let by_value = |make: &dyn Fn(&Value) -> Out<Value>, dump: &dyn Fn(&Value) -> Value| match refused(make(v))? {
            None => Ok((true, None)),
            Some(s) => Ok((false, Some((dump(&s), s.clone(), make(&s).map_or(false, |x| x == s))))),
        };
        Some(match ty {
            "Message" => by_value(&|v| w::Message::new(js(v.clone()).unchecked_into()).and_then(|m| m.as_value()).map_err(caught).map(|x| x.stringify()), &|s| {
                let mut m = mk_msg(s);
                m.typ = s["typ"].as_str().unwrap_or("none").to_owned();
                dump_msg(&m)
            }),
            "FromPrior" => by_value(&|v| w::FromPrior::new(js(v.clone()).unchecked_into()).and_then(|m| m.as_value()).map_err(caught).map(|x| x.stringify()), &|s| dump_fp(&mk_fp(s))),
            "PackOpts" => m().and_then(|m| asked(m.pack_encrypted("did:ex:none".into(), None, None, script(&r), script(&r), js(v.clone())))),
            "UnpackOpts" => match settle(done(w::Message::unpack(r#"{"id":"1","typ":"application/didcomm-plain+json","type":"t","body":{}}"#.into(), script(&r), script(&r), js(v.clone())))) {
                Ok(_) => Ok((false, None)),
                x => refused(x).map(|_| (true, None)),
            },
            "Headers" => asked(w::Message::wrap_in_forward("{}".into(), js(v.clone()), "did:ex:bob".into(), js(json!(["did:ex:none"])), js(json!(js_anon("XC20P"))), script(&r))),
            "Keys" => match settle(done(w::Message::wrap_in_forward("{}".into(), js(json!({})), "did:ex:bob".into(), js(v.clone()), js(json!(js_anon("XC20P"))), script(&r)))) {
                // nobody resolves these keys; without any there is nothing to wrap
                Err(e) if e["kind"] == json!("DIDNotResolved") => Ok((false, None)),
                Ok(_) => Ok((false, None)),
                x => refused(x).map(|_| (true, None)),
            },
            "Anon" => asked(w::Message::wrap_in_forward("{}".into(), js(json!({})), "did:ex:bob".into(), js(json!(["did:ex:none"])), js(v.clone()), script(&r))),
            _ => return None,
        })
    }
    pub fn tpf(m: &Message) -> Value {
        let v = match msg(m).and_then(|m| m.try_parse_forward().map_err(caught)) {
            Ok(v) => v.stringify(),
            Err(e) => return e,
        };
        match &v {
            Value::Null => json!({"st":"ok","is":false,"next":NONE,"fh":NONE,"mh":NONE}),
            v => json!({"st":"ok","is":true,"next":v["next"],"fh":crate::open::hv(&v["forwarded_msg"]),"mh":crate::open::hv(&dump_msg(&mk_msg(&v["msg"])))}),
        }
    }
}
pub use imp::*;

/// The options cannot be expressed: nothing was asked for.
pub fn badopts() -> Value {
    json!({"st":"badopts","kind":NONE})
}
pub fn headers(op: &Value) -> Option<std::collections::HashMap<String, Value>> {
    op["headers"].as_object().map(|m| m.iter().map(|(k, v)| (k.clone(), v.clone())).collect())
}
