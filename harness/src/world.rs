//! The concrete world of a scenario: documents and wallets built from symbolic descriptions, and
//! resolvers over it that can fail, suspend and change.
use crate::{keys::*, open::Ring};
use didcomm::{
    did::{DIDCommMessagingService, DIDDoc, Service, ServiceKind, VerificationMethod},
    error::{err_msg, Error, ErrorKind, Result},
    secrets::Secret,
};
use serde_json::{json, Value};
use std::{
    cell::{Cell, RefCell},
    collections::BTreeMap,
    future::Future,
    pin::Pin,
    rc::Rc,
    task::{Context, Poll},
};

pub fn sget<'a>(v: &'a Value, k: &str) -> &'a str {
    v[k].as_str().unwrap_or_else(|| panic!("harness: no string {} in {}", k, v))
}
pub fn strs(v: &Value) -> Vec<String> {
    v.as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_owned()).collect()).unwrap_or_default()
}
pub fn kind_of(s: &str) -> ErrorKind {
    use ErrorKind::*;
    match s {
        "DIDNotResolved" => DIDNotResolved,
        "DIDUrlNotFound" => DIDUrlNotFound,
        "SecretNotFound" => SecretNotFound,
        "Malformed" => Malformed,
        "IoError" => IoError,
        "InvalidState" => InvalidState,
        "NoCompatibleCrypto" => NoCompatibleCrypto,
        "Unsupported" => Unsupported,
        "IllegalArgument" => IllegalArgument,
        _ => panic!("harness: kind {}", s),
    }
}
/// Name of an error kind, by exhaustive match (not through Debug/Serialize of the code under test).
pub fn kind_name(k: ErrorKind) -> &'static str {
    use ErrorKind::*;
    match k {
        DIDNotResolved => "DIDNotResolved",
        DIDUrlNotFound => "DIDUrlNotFound",
        SecretNotFound => "SecretNotFound",
        Malformed => "Malformed",
        IoError => "IoError",
        InvalidState => "InvalidState",
        NoCompatibleCrypto => "NoCompatibleCrypto",
        Unsupported => "Unsupported",
        IllegalArgument => "IllegalArgument",
    }
}
pub fn ekind(e: &Error) -> &'static str {
    kind_name(e.kind())
}

pub fn mk_service(s: &Value) -> Service {
    let kind = match sget(s, "k") {
        "dc" => ServiceKind::DIDCommMessaging {
            value: DIDCommMessagingService {
                uri: sget(s, "uri").into(),
                accept: if s["hasAccept"] == json!(true) { Some(strs(&s["accept"])) } else { None },
                routing_keys: strs(&s["rk"]),
            },
        },
        _ => ServiceKind::Other { value: json!({"uri": s["uri"], "x": 1}) },
    };
    Service { id: sget(s, "id").into(), service_endpoint: kind }
}
pub fn mk_doc(did: &str, d: &Value) -> DIDDoc {
    DIDDoc {
        id: did.into(),
        key_agreement: strs(&d["ka"]),
        authentication: strs(&d["auth"]),
        verification_method: d["vms"]
            .as_array()
            .unwrap()
            .iter()
            .map(|v| {
                let (type_, verification_material) = vm_material(&key(sget(v, "key")), sget(v, "rep"));
                VerificationMethod { id: sget(v, "id").into(), type_, controller: did.into(), verification_material }
            })
            .collect(),
        service: d["svcs"].as_array().unwrap().iter().map(mk_service).collect(),
    }
}
pub fn mk_secret(v: &Value) -> Secret {
    let (type_, secret_material) = secret_material(&key(sget(v, "key")), sget(v, "rep"));
    Secret { id: sget(v, "id").into(), type_, secret_material }
}

#[derive(Default)]
pub struct World {
    pub docs: BTreeMap<String, DIDDoc>,
    pub wallets: BTreeMap<String, Vec<Secret>>,
    pub ring: Ring,
    pub dids: Vec<String>,
    /// Counts the changes during a schedule
    pub ver: u64,
}
impl World {
    /// Applies a (partial) description; returns it with the curve of each key made explicit.
    pub fn apply(&mut self, w: &Value) -> Value {
        let mut out = json!({"docs":{},"wallets":{},"gone":[]});
        if let Some(m) = w["docs"].as_object() {
            for (did, d) in m {
                if d.is_null() || d == &json!("gone") {
                    self.docs.remove(did);
                    out["gone"].as_array_mut().unwrap().push(json!(did));
                    continue;
                }
                self.docs.insert(did.clone(), mk_doc(did, d));
                if !self.dids.contains(did) {
                    self.dids.push(did.clone());
                }
                let mut d = d.clone();
                for v in d["vms"].as_array_mut().unwrap() {
                    self.ring.add(sget(v, "id"), key(sget(v, "key")));
                    v["crv"] = json!(sget(v, "key")[..1]);
                }
                out["docs"][did] = d;
            }
        }
        if let Some(m) = w["wallets"].as_object() {
            for (n, l) in m {
                let mut l = l.clone();
                self.wallets.insert(n.clone(), l.as_array().unwrap().iter().map(mk_secret).collect());
                for v in l.as_array_mut().unwrap() {
                    self.ring.add(sget(v, "id"), key(sget(v, "key")));
                    v["crv"] = json!(sget(v, "key")[..1]);
                }
                out["wallets"][n] = l;
            }
        }
        if let Some(l) = w["keys"].as_array() {
            for k in l {
                self.ring.add("", key(k.as_str().unwrap()));
            }
        }
        out
    }
}

/// Suspends `n` times before completing.
pub struct Suspend(pub u32);
impl Future for Suspend {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 == 0 {
            return Poll::Ready(());
        }
        self.0 -= 1;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}

pub struct Res {
    pub world: Rc<RefCell<World>>,
    pub wallet: String,
    /// did -> error kind
    pub dfault: BTreeMap<String, String>,
    /// "get" / "find" -> error kind, or "none" for get
    pub sget: String,
    pub sfind: String,
    /// secret id -> error kind, or "none" (the store lists it but no longer has it)
    pub sid: BTreeMap<String, String>,
    pub pend: u32,
    /// What was answered, and in which version of the world
    pub calls: RefCell<Vec<Value>>,
    pub closed: Cell<bool>,
    /// How the host on the other side of a language boundary behaves, question by question
    host: Vec<Value>,
    pub inline: bool,
    asked: Cell<usize>,
    /// What became of the questions' one-shot callbacks, and of the operation's own
    pub cells: RefCell<Vec<Value>>,
    pub ends: Cell<u64>,
    pub code: Cell<bool>,
}
impl Res {
    fn log(&self, c: &str, ids: &[&str]) {
        if !self.closed.get() {
            let v = self.world.borrow().ver;
            self.calls.borrow_mut().push(json!({"c":c,"ids":ids,"v":v}));
        }
    }
    pub fn new(world: &Rc<RefCell<World>>, env: &Value) -> Res {
        let f = |k: &str| env[k].as_str().unwrap_or("~").to_owned();
        Res {
            world: world.clone(),
            wallet: f("wallet"),
            dfault: env["dfault"]
                .as_object()
                .map(|m| m.iter().map(|(k, v)| (k.clone(), v.as_str().unwrap().to_owned())).collect())
                .unwrap_or_default(),
            sget: f("sget"),
            sfind: f("sfind"),
            sid: env["sid"]
                .as_object()
                .map(|m| m.iter().map(|(k, v)| (k.clone(), v.as_str().unwrap().to_owned())).collect())
                .unwrap_or_default(),
            pend: env["pend"].as_u64().unwrap_or(0) as u32,
            calls: Default::default(),
            closed: Default::default(),
            host: env["host"].as_array().cloned().unwrap_or_default(),
            inline: env["inline"].as_bool().unwrap_or(false),
            asked: Default::default(),
            cells: Default::default(),
            ends: Default::default(),
            code: Default::default(),
        }
    }
    /// The host's script for the next question.
    #[allow(dead_code)]
    pub fn script(&self) -> Value {
        let n = self.asked.get();
        self.asked.set(n + 1);
        if self.host.is_empty() {
            Value::Null
        } else {
            self.host[n % self.host.len()].clone()
        }
    }
    /// Identifiers as the host may list them: the same set, or with others that were not asked for.
    #[allow(dead_code)]
    pub fn listed(&self, mut l: Vec<String>, how: &str) -> Vec<String> {
        match how {
            "order" => l.reverse(),
            "dup" => l = l.iter().chain(l.iter()).cloned().collect(),
            "extra" => {
                let w = self.world.borrow();
                l = w.wallets.values().flatten().map(|s| format!("{}x", s.id)).chain(l).chain(vec![String::new(), "did:ex:nobody#k1".into()]).collect()
            }
            _ => {}
        }
        l
    }
}
/// The answers.
impl Res {
    pub async fn q_did(&self, did: &str) -> Result<Option<DIDDoc>> {
        Suspend(self.pend).await;
        self.log("did", &[did]);
        if let Some(k) = self.dfault.get(did) {
            return Err(err_msg(kind_of(k), "injected DID resolver failure"));
        }
        Ok(self.world.borrow().docs.get(did).cloned())
    }
    pub async fn q_get(&self, id: &str) -> Result<Option<Secret>> {
        Suspend(self.pend).await;
        self.log("get", &[id]);
        match self.sget.as_str() {
            "~" => {}
            "none" => return Ok(None),
            k => return Err(err_msg(kind_of(k), "injected secrets resolver failure")),
        }
        match self.sid.get(id).map(|s| s.as_str()) {
            None => {}
            Some("none") => return Ok(None),
            Some(k) => return Err(err_msg(kind_of(k), "injected secrets resolver failure")),
        }
        Ok(self.world.borrow().wallets.get(&self.wallet).and_then(|w| w.iter().find(|s| s.id == id).cloned()))
    }
    pub async fn q_find(&self, ids: &[String]) -> Result<Vec<String>> {
        Suspend(self.pend).await;
        self.log("find", &ids.iter().map(|s| s.as_str()).collect::<Vec<_>>());
        if self.sfind != "~" {
            return Err(err_msg(kind_of(&self.sfind), "injected secrets resolver failure"));
        }
        if let Some(k) = ids.iter().filter_map(|i| self.sid.get(i)).find(|k| *k != "none") {
            return Err(err_msg(kind_of(k), "injected secrets resolver failure"));
        }
        let w = self.world.borrow();
        let w = w.wallets.get(&self.wallet);
        Ok(ids.iter().filter(|id| w.map_or(false, |w| w.iter().any(|s| s.id == **id))).cloned().collect())
    }
}
#[cfg(not(any(feature = "ffi", feature = "wasm")))]
#[async_trait::async_trait(?Send)]
impl didcomm::did::DIDResolver for Res {
    async fn resolve(&self, did: &str) -> Result<Option<DIDDoc>> {
        self.q_did(did).await
    }
}
#[cfg(not(any(feature = "ffi", feature = "wasm")))]
#[async_trait::async_trait(?Send)]
impl didcomm::secrets::SecretsResolver for Res {
    async fn get_secret(&self, id: &str) -> Result<Option<Secret>> {
        self.q_get(id).await
    }
    async fn find_secrets<'a>(&self, ids: &'a [&'a str]) -> Result<Vec<&'a str>> {
        let own: Vec<String> = ids.iter().map(|s| s.to_string()).collect();
        let f = self.q_find(&own).await?;
        Ok(ids.iter().filter(|i| f.iter().any(|x| x == **i)).cloned().collect())
    }
}
