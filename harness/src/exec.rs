//! Executes one scenario against the real library and records what it did.
use crate::{api::*, conv::*, craft::*, keys::*, open::*, world::*};
use didcomm::{
    did::{resolvers::ExampleDIDResolver, DIDDoc, DIDResolver, Service, VerificationMethod},
    error::{err_msg, Error, ResultContext, ResultExt, ResultExtNoContext, ToResult},
    protocols::routing::try_parse_forward,
    secrets::{resolvers::ExampleSecretsResolver, Secret, SecretMaterial, SecretType, SecretsResolver},
    Attachment, FromPrior, Message, PackEncryptedOptions, UnpackOptions,
};
use serde_json::{json, Value};
use std::{
    cell::RefCell,
    future::Future,
    panic::{catch_unwind, AssertUnwindSafe},
    pin::Pin,
    rc::Rc,
    sync::atomic::{AtomicU64, Ordering},
    task::{Context, Poll, RawWaker, RawWakerVTable, Waker},
    time::{SystemTime, UNIX_EPOCH},
};

pub static OP_START: AtomicU64 = AtomicU64::new(0);
pub fn now() -> u64 {
    SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_millis() as u64
}
pub fn waker() -> Waker {
    fn cl(_: *const ()) -> RawWaker {
        RawWaker::new(std::ptr::null(), &VT)
    }
    fn no(_: *const ()) {}
    static VT: RawWakerVTable = RawWakerVTable::new(cl, no, no, no);
    unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &VT)) }
}
type Fut<'a> = Pin<Box<dyn Future<Output = Value> + 'a>>;

/// One poll; a panic becomes an outcome.
fn poll(f: &mut Fut) -> Option<Value> {
    OP_START.store(now(), Ordering::SeqCst);
    let w = waker();
    let mut cx = Context::from_waker(&w);
    let r = catch_unwind(AssertUnwindSafe(|| f.as_mut().poll(&mut cx)));
    OP_START.store(0, Ordering::SeqCst);
    match r {
        Ok(Poll::Ready(v)) => Some(v),
        Ok(Poll::Pending) => None,
        Err(e) => Some(panic_event(e)),
    }
}
fn panic_event(e: Box<dyn std::any::Any + Send>) -> Value {
    let m = e
        .downcast_ref::<String>()
        .cloned()
        .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_default();
    if m.starts_with("harness:") {
        eprintln!("{}", m);
        std::process::exit(3);
    }
    json!({"st":"panic","kind":NONE,"what":m.chars().take(120).collect::<String>()})
}
fn block(mut f: Fut) -> Value {
    for _ in 0..20000 {
        if let Some(v) = poll(&mut f) {
            return v;
        }
    }
    json!({"st":"hang","kind":NONE})
}
fn guarded<F: FnOnce() -> Value>(f: F) -> Value {
    OP_START.store(now(), Ordering::SeqCst);
    let r = catch_unwind(AssertUnwindSafe(f));
    OP_START.store(0, Ordering::SeqCst);
    r.unwrap_or_else(panic_event)
}
pub fn err(e: &Error) -> Value {
    json!({"st":"err","kind":ekind(e)})
}
fn merge(mut a: Value, b: Value) -> Value {
    if let (Some(a), Value::Object(b)) = (a.as_object_mut(), b) {
        for (k, v) in b {
            a.insert(k, v);
        }
    }
    a
}
pub struct Ctx {
    pub world: Rc<RefCell<World>>,
    pub texts: Texts,
    told: RefCell<std::collections::BTreeSet<String>>,
}

/// Identifiers that look like DIDs, with their lexical facts.
fn lex(v: &Value, out: &mut serde_json::Map<String, Value>) {
    match v {
        Value::String(s) if (s.len() < 400 || (s.len() < 4000 && s.starts_with("did:"))) && (s.contains(':') || s.contains('#')) && !s.starts_with('{') => {
            let mut it = s.splitn(2, '#');
            let did = it.next().unwrap();
            let frag = it.next().is_some();
            let is = s.starts_with("did:") && s.matches(':').count() >= 2;
            out.insert(s.clone(), json!({"d":did,"f":frag,"i":is}));
        }
        Value::Array(a) => a.iter().for_each(|x| lex(x, out)),
        Value::Object(m) => m.iter().for_each(|(k, x)| {
            if k.starts_with("did:") {
                lex(&json!(k), out)
            }
            lex(x, out)
        }),
        _ => {}
    }
}
/// Digest of the JSON value a text denotes.
fn jh(t: &str) -> String {
    serde_json::from_str::<Value>(t).map(|v| hv(&v)).unwrap_or(NONE.into())
}
fn env_of(op: &Value) -> Value {
    let e = &op["env"];
    let f = |k: &str| e[k].as_str().unwrap_or(NONE).to_owned();
    json!({"wallet":f("wallet"),"sget":f("sget"),"sfind":f("sfind"),
           "sid":e.get("sid").filter(|x|x.is_object()).cloned().unwrap_or(json!({})),
           "dfault":e.get("dfault").filter(|x|x.is_object()).cloned().unwrap_or(json!({})),
           "resolver":e["resolver"].as_str().unwrap_or("own")})
}
/// Does the text name this DID (and not one of which it is merely a prefix)?
fn names(text: &str, did: &str) -> bool {
    text.match_indices(did).any(|(i, _)| {
        !text[i + did.len()..].chars().next().map_or(false, |c| c.is_ascii_alphanumeric() || ".:_-%".contains(c))
    })
}
/// DIDs of the world an observer can read in the outer layer of a packed text.
fn visible(text: &str, w: &World) -> Vec<String> {
    let mut seen = text.to_owned();
    if let Ok(v) = serde_json::from_str::<Value>(text) {
        let mut dig = |s: &str| {
            if let Some(b) = unb64(s) {
                seen.push_str(&String::from_utf8_lossy(&b));
                if let Ok(p) = serde_json::from_slice::<Value>(&b) {
                    for k in ["apu", "apv", "skid", "kid"].iter() {
                        if let Some(b) = p[*k].as_str().and_then(unb64) {
                            seen.push_str(&String::from_utf8_lossy(&b));
                        }
                    }
                }
            }
        };
        if let Some(o) = v.as_object() {
            for (_, x) in o {
                if let Some(s) = x.as_str() {
                    dig(s);
                }
            }
        }
    }
    // the recipients named in the clear are no disclosure
    let rcp: Vec<String> = serde_json::from_str::<Value>(text)
        .ok()
        .and_then(|v| v["recipients"].as_array().cloned())
        .unwrap_or_default()
        .iter()
        .filter_map(|r| r["header"]["kid"].as_str().map(|s| s.to_owned()))
        .collect();
    w.dids
        .iter()
        .filter(|d| names(&seen, d) && !rcp.iter().any(|k| names(k, d)))
        .cloned()
        .collect()
}
fn leaks(text: &str, marker: Option<&str>) -> bool {
    let marker = match marker {
        Some(m) => m,
        None => return false,
    };
    fn dig(v: &Value, m: &str) -> bool {
        match v {
            Value::String(s) => {
                s.contains(m)
                    || unb64(s).map_or(false, |b| {
                        let t = String::from_utf8_lossy(&b).into_owned();
                        t.contains(m) || serde_json::from_str::<Value>(&t).map_or(false, |j| dig(&j, m))
                    })
            }
            Value::Array(a) => a.iter().any(|x| dig(x, m)),
            Value::Object(o) => o.iter().any(|(k, x)| k.contains(m) || dig(x, m)),
            _ => false,
        }
    }
    text.contains(m_of(marker)) || serde_json::from_str::<Value>(text).map_or(false, |v| dig(&v, marker))
}
fn m_of(m: &str) -> &str {
    m
}

impl Ctx {
    pub fn new() -> Ctx {
        Ctx { world: Default::default(), texts: Default::default(), told: Default::default() }
    }
    fn res(&self, op: &Value) -> R {
        if op["env"]["resolver"] == json!("example") && !cfg!(feature = "wasm") {
            R::ex(&self.world.borrow(), op["env"]["wallet"].as_str().unwrap_or(""))
        } else {
            R::Own(Rc::new(Res::new(&self.world, &op["env"])))
        }
    }
    fn opened(&self, t: &str) -> Value {
        open(t, &self.world.borrow().ring)
    }
    /// The abstract view of a message template.
    fn absm(&self, m: &Value) -> Value {
        match norm_msg(m) {
            Ok(n) => absmsg(&n, &self.world.borrow().ring),
            Err(_) => panic!("harness: message template outside the schema: {}", m),
        }
    }
    /// Executes an asynchronous operation.  The returned value holds the outcome, under "text" the
    /// produced text.
    fn start<'a>(&'a self, op: &'a Value, r: &'a R, texts: &'a Texts) -> Fut<'a> {
        Box::pin(async move {
            match self.perform(op, r, texts).await {
                Ok(v) => v,
                Err(v) => v,
            }
        })
    }
    async fn perform(&self, op: &Value, r: &R, texts: &Texts) -> Out<Value> {
        let input = || texts.get(sget(op, "in")).cloned().unwrap_or_default();
        Ok(match sget(op, "op") {
            "pack_plain" => json!({"st":"ok","text":pack_plain(mk_msg(&subst(&op["msg"], texts)), r).await?}),
            "pack_signed" => {
                let (t, k) = pack_signed(mk_msg(&subst(&op["msg"], texts)), sget(op, "by"), r).await?;
                json!({"st":"ok","text":t,"meta":{"signKid":k}})
            }
            "pack_enc" => {
                let (t, md) = pack_enc(mk_msg(&subst(&op["msg"], texts)), op, r).await?;
                json!({"st":"ok","text":t,"meta":{
                    "fromKid":md.from_kid.unwrap_or(NONE.into()),"signKid":md.sign_by_kid.unwrap_or(NONE.into()),
                    "toKids":md.to_kids,
                    "hasSvc":md.messaging_service.is_some(),
                    "svcId":md.messaging_service.as_ref().map(|s|s.id.clone()).unwrap_or(NONE.into()),
                    "svcUri":md.messaging_service.as_ref().map(|s|s.service_endpoint.clone()).unwrap_or(NONE.into())}})
            }
            "wrap" => json!({"st":"ok","text":wrap(&input(), op, r).await?}),
            "unpack" => {
                let (m, md, ser) = unpack(&input(), op, r).await?;
                let mut meta = dump_meta(&md);
                meta["signed"] = match &md.signed_message {
                    None => json!({"k":"none"}),
                    Some(s) => self.opened(s),
                };
                // what is asked from here on is not the operation's
                #[allow(irrefutable_let_patterns)]
                if let R::Own(r) = r {
                    r.closed.set(true);
                }
                // evidence: the signed message on its own
                meta["ev"] = match &md.signed_message {
                    None => json!({"st":"none"}),
                    Some(s) => match unpack(s, op, r).await {
                        Ok((m2, md2, _)) => json!({"st":"ok","h":hv(&dump_msg(&m2)),"signFrom":md2.sign_from.clone().unwrap_or(NONE.into()),
                            "nr":md2.non_repudiation}),
                        Err(e) => e,
                    },
                };
                let d = dump_msg(&m);
                let mut o = json!({"st":"ok","res":{"h":hv(&d)},"meta":meta,"metaser":ser});
                if op["out"].is_string() {
                    // what a mediator passes on
                    if let Some(f) = try_parse_forward(&m) {
                        o["text"] = json!(serde_json::to_string(&f.forwarded_msg).unwrap());
                    }
                }
                o
            }
            "fp_pack" => {
                let (t, k) = fp_pack(mk_fp(&op["claims"]), op["kid"].as_str(), r).await?;
                json!({"st":"ok","text":t,"rkid":k})
            }
            "fp_unpack" => {
                let (f, k) = fp_unpack(&input(), r).await?;
                json!({"st":"ok","ch":hv(&dump_fp(&f)),"rkid":k})
            }
            x => panic!("harness: op {}", x),
        })
    }
    /// The event recorded for an operation with its outcome.
    fn event(&self, op: &Value, mut o: Value, texts: &Texts, newtexts: &mut Texts) -> Value {
        let k = sget(op, "op").to_owned();
        let text = o.as_object_mut().unwrap().remove("text").and_then(|t| t.as_str().map(|s| s.to_owned()));
        if o.get("kind").is_none() {
            o["kind"] = json!(NONE);
        }
        let out = op["out"].as_str().unwrap_or(NONE).to_owned();
        let mut ev = json!({"ev":k,"env":env_of(op),"out":out});
        if let Some(m) = op.get("msg") {
            ev["msg"] = self.absm(&subst(m, texts));
        }
        // what a model predicted for this operation
        if op["exp"].is_object() {
            ev["exp"] = op["exp"].clone();
            if op["exp"].get("msg").is_some() {
                ev["exp"]["msg"] = json!(NONE);
                ev["exp"]["h"] = self.absm(&subst(&op["exp"]["msg"], texts))["h"].clone();
            }
        }
        match k.as_str() {
            "pack_signed" => ev["by"] = op["by"].clone(),
            "pack_enc" => {
                for f in ["to", "from", "by"].iter() {
                    ev[*f] = json!(op[*f].as_str().unwrap_or(NONE));
                }
                ev["opts"] = popts_view(op);
            }
            "wrap" => {
                ev["in"] = op["in"].clone();
                ev["to"] = op["to"].clone();
                ev["rks"] = op["rks"].clone();
                ev["anon"] = op["anon"].clone();
                ev["hdr"] = json!(hv(op.get("headers").filter(|x| x.is_object()).unwrap_or(&json!({}))));
            }
            "unpack" => {
                ev["h"] = op["in"].clone();
                ev["opts"] = uopts_view(op);
                ev["base"] = json!(op["base"].as_str().unwrap_or(NONE));
                ev["alt"] = json!(op["alt"].as_str().unwrap_or(NONE));
            }
            "fp_pack" => {
                ev["iss"] = op["claims"]["iss"].clone();
                ev["sub"] = op["claims"]["sub"].clone();
                ev["ch"] = json!(hv(&norm_claims(&op["claims"]).unwrap()));
                ev["argkid"] = json!(op["kid"].as_str().unwrap_or(NONE));
            }
            "fp_unpack" => {
                let t = texts.get(sget(op, "in")).map(|t| t.as_str()).unwrap_or("");
                ev["t"] = open_jwt(t, &self.world.borrow().ring);
            }
            _ => {}
        }
        if let Some(t) = &text {
            let w = self.world.borrow();
            if k == "fp_pack" {
                ev["term"] = open_jwt(t, &w.ring);
            } else {
                ev["term"] = open(t, &w.ring);
                ev["vis"] = json!(visible(t, &w));
                ev["leak"] = json!(leaks(t, op["marker"].as_str()));
            }
            ev["jh"] = json!(jh(t));
            newtexts.insert(out, t.clone());
        }
        let r = merge(ev, o);
        if k == "fp_unpack" && r.get("ch").is_none() {
            let mut r = r;
            r["ch"] = json!(NONE);
            return r;
        }
        r
    }

    pub fn run(&mut self, op: &Value, emit: &mut dyn FnMut(Value)) {
        let op = &prepare(op);
        let k = sget(op, "op").to_owned();
        match k.as_str() {
            "set" => {
                let w = self.world.borrow_mut().apply(&op["world"]);
                emit(self.fin(json!({"ev":"set","world":w}), op));
            }
            "craft" => {
                let t = craft(&self.peeled(&op["spec"]), &self.texts);
                let term = if op["spec"]["t"] == json!("jwt") { open_jwt(&t, &self.world.borrow().ring) } else { self.opened(&t) };
                self.texts.insert(sget(op, "out").into(), t);
                emit(self.fin(json!({"ev":"craft","out":op["out"],"term":term,"changed":true,"jh":self.jh(op)}), op));
            }
            "mutate" => {
                let base = self.texts.get(sget(op, "in")).cloned().unwrap_or_default();
                let mut t = base.clone();
                for m in op["muts"].as_array().unwrap() {
                    t = mutate(&t, m, &self.texts);
                }
                let changed = t != base;
                let term = if op["jwt"] == json!(true) { open_jwt(&t, &self.world.borrow().ring) } else { self.opened(&t) };
                self.texts.insert(sget(op, "out").into(), t);
                emit(self.fin(json!({"ev":"craft","out":op["out"],"term":term,"changed":changed,"jh":self.jh(op)}), op));
            }
            "sched" => self.sched(op, emit),
            "tpf" | "json" | "builder" | "err" | "exres" | "defaults" => {
                let o = guarded(|| match k.as_str() {
                    "tpf" => self.tpf(op),
                    "json" => json_op(op),
                    "builder" => builder(op),
                    "err" => err_op(op),
                    "exres" => exres(op),
                    _ => json!({"st":"ok","pack":tag(&dump_popts(&PackEncryptedOptions::default())),
                                "unpack":tag(&dump_uopts(&UnpackOptions::default())),
                                "anon":anon_name(&Default::default()),"auth":auth_name(&Default::default())}),
                });
                let mut ev = json!({"ev":k,"kind":NONE});
                if !op["arg"].is_null() {
                    ev["arg"] = op["arg"].clone();
                }
                if k == "tpf" {
                    ev["msg"] = self.absm(&subst(&op["msg"], &self.texts));
                }
                emit(self.fin(merge(ev, o), op));
            }
            _ => {
                let mut nt = Texts::new();
                let ev = {
                    let r = self.res(op);
                    let o = block(self.start(op, &r, &self.texts));
                    let mut ev = self.event(op, o, &self.texts, &mut nt);
                    crossed(&r, &mut ev);
                    ev
                };
                self.texts.append(&mut nt);
                emit(self.fin(ev, op));
            }
        }
    }
    /// Replaces {"t":"inner","h":text,"n":layers} by the text found there.
    fn peeled(&self, c: &Value) -> Value {
        match c {
            Value::Object(m) if c["t"] == json!("inner") => {
                let mut t = self.texts.get(sget(c, "h")).cloned().unwrap_or_default();
                for _ in 0..m["n"].as_u64().unwrap() {
                    t = inner(&t, &self.world.borrow().ring);
                }
                json!({"t":"text","v":t})
            }
            Value::Object(m) => Value::Object(m.iter().map(|(k, v)| (k.clone(), self.peeled(v))).collect()),
            Value::Array(a) => Value::Array(a.iter().map(|v| self.peeled(v)).collect()),
            _ => c.clone(),
        }
    }
    fn jh(&self, op: &Value) -> Value {
        json!(jh(self.texts.get(sget(op, "out")).map(|s| s.as_str()).unwrap_or("")))
    }
    /// Adds the lexical facts of the identifiers in the event.
    pub fn fin(&self, mut ev: Value, op: &Value) -> Value {
        let mut l = serde_json::Map::new();
        lex(&ev, &mut l);
        let mut told = self.told.borrow_mut();
        let l: serde_json::Map<String, Value> = l.into_iter().filter(|(k, _)| told.insert(k.clone())).collect();
        let mut l = l;
        l.insert("~".into(), json!({"d":"~","f":false,"i":false}));
        ev["lex"] = Value::Object(l);
        ev["tag"] = json!(op["tag"].as_str().unwrap_or(NONE));
        ev
    }
    fn tpf(&self, op: &Value) -> Value {
        let m = mk_msg(&subst(&op["msg"], &self.texts));
        tpf(&m)
    }
    /// Concurrent operations under an explicit schedule.
    fn sched(&mut self, op: &Value, emit: &mut dyn FnMut(Value)) {
        let subs: Vec<Value> = op["ops"].as_array().unwrap().iter().map(prepare).collect();
        let order: Vec<usize> = op["order"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
        emit(self.fin(json!({"ev":"begin","n":subs.len()}), op));
        let mut nt = Texts::new();
        self.world.borrow_mut().ver = 1;
        {
            let rs: Vec<R> = subs.iter().map(|o| self.res(o)).collect();
            let mut futs: Vec<Option<Fut>> =
                subs.iter().zip(rs.iter()).map(|(o, r)| Some(self.start(o, r, &self.texts))).collect();
            let mut step = 0u64;
            let at = |k: &str, s: u64| -> Vec<Value> {
                op[k].as_array().map(|a| a.iter().filter(|x| x["at"] == json!(s)).cloned().collect()).unwrap_or_default()
            };
            let mut q: Vec<usize> = order.clone();
            q.reverse();
            let mut spin = 0;
            loop {
                for c in at("cancel", step) {
                    let i = c["i"].as_u64().unwrap() as usize;
                    if futs[i].take().is_some() {
                        emit(self.fin(json!({"ev":"cancelled","i":i}), &subs[i]));
                    }
                }
                for s in at("sets", step) {
                    let w = {
                        let mut w = self.world.borrow_mut();
                        w.ver += 1;
                        w.apply(&s["world"])
                    };
                    emit(self.fin(json!({"ev":"set","world":w}), op));
                }
                step += 1;
                if futs.iter().all(|f| f.is_none()) {
                    break;
                }
                let i = match q.pop() {
                    Some(i) => i,
                    None => {
                        spin += 1;
                        spin % futs.len()
                    }
                };
                let r = match &mut futs[i] {
                    Some(f) => poll(f),
                    None => continue,
                };
                let o = match r {
                    Some(o) => o,
                    None if spin > 20000 => json!({"st":"hang","kind":NONE}),
                    None => continue,
                };
                futs[i] = None;
                let mut ev = self.event(&subs[i], o, &self.texts, &mut nt);
                ev["who"] = json!(i);
                if let R::Own(r) = &rs[i] {
                    ev["calls"] = json!(*r.calls.borrow());
                }
                crossed(&rs[i], &mut ev);
                emit(self.fin(ev, &subs[i]));
            }
        }
        self.texts.append(&mut nt);
        emit(self.fin(json!({"ev":"end"}), op));
    }
}

/// What became of the callbacks at a language boundary
fn crossed(r: &R, ev: &mut Value) {
    #[allow(irrefutable_let_patterns)]
    if let R::Own(r) = r {
        if r.code.get() {
            ev["host"] = json!({"cells":*r.cells.borrow(),"ends":r.ends.get()});
        }
    }
}
pub fn tpf_native(m: &Message) -> Value {
    match try_parse_forward(m) {
        None => json!({"st":"ok","is":false,"next":NONE,"fh":NONE,"mh":NONE}),
        Some(f) => json!({"st":"ok","is":true,"next":f.next,"fh":hv(&f.forwarded_msg),"mh":hv(&dump_msg(f.msg))}),
    }
}
pub fn mk_popts(op: &Value) -> Result<PackEncryptedOptions, serde_json::Error> {
    let o = &op["opts"];
    if let Some(j) = o["json"].as_str() {
        return serde_json::from_str(j);
    }
    let mut r = PackEncryptedOptions::default();
    if let Some(b) = o["protect"].as_bool() {
        r.protect_sender = b;
    }
    if let Some(b) = o["forward"].as_bool() {
        r.forward = b;
    }
    if let Some(h) = o["headers"].as_object() {
        r.forward_headers = Some(h.iter().map(|(k, v)| (k.clone(), v.clone())).collect());
    }
    if let Some(s) = o["svc"].as_str() {
        r.messaging_service = Some(s.into());
    }
    if let Some(s) = o["anon"].as_str() {
        r.enc_alg_anon = mk_anon(s);
    }
    Ok(r)
}
/// What was asked for, "~" where nothing was.
fn popts_view(op: &Value) -> Value {
    let j: Value;
    let o = match op["opts"]["json"].as_str() {
        Some(t) => {
            let v: Value = serde_json::from_str(t).unwrap();
            let mut r = json!({});
            for (a, b) in [("protect_sender", "protect"), ("forward", "forward"), ("forward_headers", "headers"), ("messaging_service", "svc")].iter() {
                if let Some(x) = v.get(*a) {
                    r[*b] = x.clone();
                }
            }
            if let Some(x) = v["enc_alg_anon"].as_str() {
                r["anon"] = json!(match x {
                    "A256cbcHs512EcdhEsA256kw" => "A256CBC-HS512",
                    "Xc20pEcdhEsA256kw" => "XC20P",
                    "A256gcmEcdhEsA256kw" => "A256GCM",
                    _ => "?",
                });
            }
            j = r;
            &j
        }
        None => &op["opts"],
    };
    let b = |k: &str| o[k].as_bool().map(|b| if b { "yes" } else { "no" }).unwrap_or(NONE);
    json!({"protect":b("protect"),"forward":b("forward"),"svc":o["svc"].as_str().unwrap_or(NONE),
           "anon":o["anon"].as_str().unwrap_or(NONE),
           "hdr":hv(o.get("headers").filter(|x| x.is_object()).unwrap_or(&json!({})))})
}
pub fn mk_uopts(op: &Value) -> Result<UnpackOptions, serde_json::Error> {
    let o = &op["opts"];
    if let Some(j) = o["json"].as_str() {
        return serde_json::from_str(j);
    }
    let mut r = UnpackOptions::default();
    if let Some(b) = o["all"].as_bool() {
        r.expect_decrypt_by_all_keys = b;
    }
    if let Some(b) = o["unwrap"].as_bool() {
        r.unwrap_re_wrapping_forward = b;
    }
    Ok(r)
}
fn uopts_view(op: &Value) -> Value {
    let o = &op["opts"];
    let yn = |b: Option<bool>| b.map(|b| if b { "yes" } else { "no" }).unwrap_or(NONE);
    match o["json"].as_str() {
        Some(t) => {
            let v: Value = serde_json::from_str(t).unwrap();
            json!({"via":"json","all":yn(v["expect_decrypt_by_all_keys"].as_bool()),"unwrap":yn(v["unwrap_re_wrapping_forward"].as_bool())})
        }
        None => json!({"via":"struct","all":yn(o["all"].as_bool()),"unwrap":yn(o["unwrap"].as_bool())}),
    }
}
/// Does the serialised metadata carry the same facts under the documented member names?
pub fn metaser(md: &didcomm::UnpackMetadata) -> bool {
    let v = match serde_json::to_value(md) {
        Ok(v) => v,
        Err(_) => return false,
    };
    let f = |n: &Option<String>| json!(n);
    v["encrypted"] == json!(md.encrypted)
        && v["authenticated"] == json!(md.authenticated)
        && v["non_repudiation"] == json!(md.non_repudiation)
        && v["anonymous_sender"] == json!(md.anonymous_sender)
        && v["re_wrapped_in_forward"] == json!(md.re_wrapped_in_forward)
        && v["encrypted_from_kid"] == f(&md.encrypted_from_kid)
        && v["encrypted_to_kids"] == json!(md.encrypted_to_kids)
        && v["sign_from"] == f(&md.sign_from)
        && v["from_prior_issuer_kid"] == f(&md.from_prior_issuer_kid)
        && v["signed_message"] == f(&md.signed_message)
        && v["from_prior"].is_null() == md.from_prior.is_none()
        && v["enc_alg_auth"].is_null() == md.enc_alg_auth.is_none()
        && v["enc_alg_anon"].is_null() == md.enc_alg_anon.is_none()
        && v["sign_alg"].is_null() == md.sign_alg.is_none()
}

fn json_op(op: &Value) -> Value {
    use didcomm::algorithms::*;
    let a = &op["arg"];
    let v = untag(&a["v"]);
    let text = serde_json::to_string(&v).unwrap();
    fn out<T: serde::de::DeserializeOwned>(t: &str, d: impl Fn(&T) -> Value, s: impl Fn(&T) -> Option<Value>) -> Value {
        match serde_json::from_str::<T>(t) {
            Err(_) => json!({"st":"reject"}),
            Ok(x) => {
                let ser = s(&x);
                // serialised text must parse back to the same value
                let rt = match &ser {
                    None => true,
                    Some(j) => serde_json::from_str::<T>(&serde_json::to_string(j).unwrap()).map_or(false, |y| d(&y) == d(&x)),
                };
                json!({"st":"ok","val":tag(&d(&x)),"ser":ser.map(|j| tag(&j)).unwrap_or(json!({"t":"none","none":"none"})),"rt":rt})
            }
        }
    }
    fn ser<T: serde::Serialize>(x: &T) -> Option<Value> {
        // through text, as a user would
        Some(serde_json::from_str(&serde_json::to_string(x).unwrap()).unwrap())
    }
    // values that enter the library through a binding
    if let Some(o) = js_json(sget(a, "ty"), &v) {
        return match o {
            Err(e) => e,
            Ok((true, _)) => json!({"st":"reject"}),
            Ok((false, None)) => {
                let x = match sget(a, "ty") {
                    "PackOpts" => out::<PackEncryptedOptions>(&text, dump_popts, |_| None),
                    "UnpackOpts" => out::<UnpackOptions>(&text, dump_uopts, |_| None),
                    "Headers" => out::<std::collections::HashMap<String, Value>>(&text, |x| json!(x), ser),
                    "Keys" => out::<Vec<String>>(&text, |x| json!(x), ser),
                    _ => out::<AnonCryptAlg>(&text, |x| json!(anon_name(x)), ser),
                };
                // what it became cannot be read, but it was not refused
                if x["st"] == json!("ok") { x } else { json!({"st":"odd"}) }
            }
            Ok((false, Some((val, ser, rt)))) => json!({"st":"ok","val":tag(&val),"ser":tag(&ser),"rt":rt}),
        };
    }
    match sget(a, "ty") {
        "DIDDoc" => out::<DIDDoc>(&text, dump_doc, ser),
        "VM" => out::<VerificationMethod>(&text, dump_vm, ser),
        "Service" => out::<Service>(&text, dump_service, ser),
        "Secret" => out::<Secret>(&text, dump_secret, ser),
        "Message" => out::<Message>(&text, dump_msg, ser),
        "Attachment" => out::<Attachment>(&text, dump_att, ser),
        "FromPrior" => out::<FromPrior>(&text, dump_fp, ser),
        "Anon" => out::<AnonCryptAlg>(&text, |x| json!(anon_name(x)), ser),
        "Auth" => out::<AuthCryptAlg>(&text, |x| json!(auth_name(x)), ser),
        "Sign" => out::<SignAlg>(&text, |x| json!(sign_name(x)), ser),
        "PackOpts" => out::<PackEncryptedOptions>(&text, dump_popts, |_| None),
        "UnpackOpts" => out::<UnpackOptions>(&text, dump_uopts, |_| None),
        "Headers" => out::<std::collections::HashMap<String, Value>>(&text, |x| json!(x), ser),
        "Keys" => out::<Vec<String>>(&text, |x| json!(x), ser),
        x => panic!("harness: json type {}", x),
    }
}
fn builder(op: &Value) -> Value {
    let a = &op["arg"];
    let init = a["init"].as_array().unwrap();
    let s = |v: &Value| v.as_str().unwrap().to_owned();
    let n = |v: &Value| v.as_str().unwrap().parse::<u64>().unwrap();
    let calls = a["calls"].as_array().unwrap();
    let att = |v: &Value| Attachment::json(json!({"mark": v})).id(s(v)).finalize();
    match sget(a, "of") {
        "Message" => {
            let mut b = Message::build(s(&init[0]), s(&init[1]), untag(&init[2]));
            for c in calls {
                let x = &c["a"];
                b = match sget(c, "c") {
                    "to" => b.to(s(x)),
                    "to_many" => b.to_many(strs(x)),
                    "from" => b.from(s(x)),
                    "thid" => b.thid(s(x)),
                    "pthid" => b.pthid(s(x)),
                    "header" => b.header(s(&x[0]), untag(&x[1])),
                    "created_time" => b.created_time(n(x)),
                    "expires_time" => b.expires_time(n(x)),
                    "from_prior" => b.from_prior(s(x)),
                    "attachment" => b.attachment(att(x)),
                    "attachments" => b.attachments(x.as_array().unwrap().iter().map(att).collect()),
                    y => panic!("harness: call {}", y),
                };
            }
            json!({"st":"ok","val":tag(&dump_msg(&b.finalize()))})
        }
        "FromPrior" => {
            let mut b = FromPrior::build(s(&init[0]), s(&init[1]));
            for c in calls {
                let x = &c["a"];
                b = match sget(c, "c") {
                    "aud" => b.aud(s(x)),
                    "exp" => b.exp(n(x)),
                    "nbf" => b.nbf(n(x)),
                    "iat" => b.iat(n(x)),
                    "jti" => b.jti(s(x)),
                    y => panic!("harness: call {}", y),
                };
            }
            json!({"st":"ok","val":tag(&dump_fp(&b.finalize()))})
        }
        k => {
            let mut b = match k {
                "Base64" => Attachment::base64(s(&init[0])),
                "Json" => Attachment::json(untag(&init[0])),
                _ => Attachment::links(strs(&init[0]), s(&init[1])),
            };
            for c in calls {
                let x = &c["a"];
                b = match sget(c, "c") {
                    "id" => b.id(s(x)),
                    "description" => b.description(s(x)),
                    "filename" => b.filename(s(x)),
                    "media_type" => b.media_type(s(x)),
                    "format" => b.format(s(x)),
                    "lastmod_time" => b.lastmod_time(n(x)),
                    "byte_count" => b.byte_count(n(x)),
                    "jws" => b.jws(s(x)),
                    y => panic!("harness: call {}", y),
                };
            }
            json!({"st":"ok","val":tag(&dump_att(&b.finalize()))})
        }
    }
}
struct BadReader;
impl std::io::Read for BadReader {
    fn read(&mut self, _: &mut [u8]) -> std::io::Result<usize> {
        Err(std::io::Error::new(std::io::ErrorKind::Other, "reader failed"))
    }
}
fn err_op(op: &Value) -> Value {
    let a = &op["arg"];
    let k = || kind_of(sget(a, "kind"));
    let m = sget(a, "m").to_owned();
    let cause = a["cause"].as_str().unwrap_or("cause").to_owned();
    let io = || std::io::Error::new(std::io::ErrorKind::Other, cause.clone());
    let js = |c: &str| -> serde_json::Error {
        match c {
            "eof" => serde_json::from_str::<Value>("{\"a\":").unwrap_err(),
            "syntax" => serde_json::from_str::<Value>("{\"a\" 1}").unwrap_err(),
            "data" => serde_json::from_str::<u32>("\"x\"").unwrap_err(),
            _ => serde_json::from_reader::<_, Value>(BadReader).unwrap_err(),
        }
    };
    let bs = |c: &str| -> bs58::decode::Error {
        match c {
            "small" => {
                let mut b = [0u8; 1];
                bs58::decode("he11owor1d").into(&mut b[..]).unwrap_err()
            }
            "char" => bs58::decode("0").into_vec().unwrap_err(),
            _ => bs58::decode("h\u{e9}").into_vec().unwrap_err(),
        }
    };
    let be = || -> bs58::encode::Error {
        let mut b = [0u8; 1];
        bs58::encode([1, 2, 3, 4, 5]).into(&mut b[..]).unwrap_err()
    };
    let via = sget(a, "via");
    let case = a["case"].as_str().unwrap_or("");
    let mut base = String::new();
    let mut r: std::result::Result<String, Error> = match via {
        "msg" => Err(Error::msg(k(), m)),
        "new" => Err(Error::new(k(), io())),
        "err_msg" => Err(err_msg(k(), m)),
        "kind" => Err::<String, _>(io()).kind(k(), m),
        "kind_ok" => Ok::<String, std::io::Error>("value".into()).kind(k(), m),
        "kind_no_context" => Err::<String, _>(7u8).kind_no_context(k(), m),
        "kind_no_context_ok" => Ok::<String, u8>("value".into()).kind_no_context(k(), m),
        "to_error_kind" => {
            return match Err::<(), _>("x").to_error_kind(k()) {
                Err(x) => json!({"st":"err","rkind":kind_name(x),"disp":x.to_string(),"chain":[],"base":"","ser":serde_json::to_value(&x).unwrap(),"dbg":format!("{:?}",x)}),
                Ok(_) => json!({"st":"ok"}),
            }
        }
        "json" => {
            base = js(case).to_string();
            Err::<String, _>(js(case)).to_didcomm(m)
        }
        "json_from" => {
            base = js(case).to_string();
            Err(Error::from(js(case)))
        }
        "json_ok" => Ok::<String, serde_json::Error>("value".into()).to_didcomm(m),
        "bs58" => {
            base = bs(case).to_string();
            Err::<String, _>(bs(case)).to_didcomm(m)
        }
        "bs58_from" => {
            base = bs(case).to_string();
            Err(Error::from(bs(case)))
        }
        "bs58enc" => {
            base = be().to_string();
            Err::<String, _>(be()).to_didcomm(m)
        }
        "bs58enc_from" => {
            base = be().to_string();
            Err(Error::from(be()))
        }
        _ => panic!("harness: err via {}", via),
    };
    for c in strs(&a["ctx"]) {
        r = r.context(c);
    }
    match r {
        Ok(v) => json!({"st":"ok","val":v}),
        Err(e) => json!({"st":"err","rkind":ekind(&e),"disp":e.to_string(),
            "chain":e.source.chain().map(|x| x.to_string()).collect::<Vec<_>>(),"base":base,
            "ser":serde_json::to_value(&e.kind()).unwrap(),"dbg":format!("{:?}",e.kind())}),
    }
}
fn exres(op: &Value) -> Value {
    let a = &op["arg"];
    let docs: Vec<DIDDoc> = a["docs"]
        .as_array()
        .unwrap()
        .iter()
        .map(|d| DIDDoc {
            id: sget(d, "id").into(),
            key_agreement: vec![sget(d, "mark").into()],
            authentication: vec![],
            verification_method: vec![],
            service: vec![],
        })
        .collect();
    let secrets: Vec<Secret> = a["secrets"]
        .as_array()
        .unwrap()
        .iter()
        .map(|d| Secret {
            id: sget(d, "id").into(),
            type_: SecretType::Other,
            secret_material: SecretMaterial::Base58 { private_key_base58: sget(d, "mark").into() },
        })
        .collect();
    let dr = ExampleDIDResolver::new(docs);
    let sr = ExampleSecretsResolver::new(secrets);
    let mut ans = vec![];
    for q in a["q"].as_array().unwrap() {
        let f: Fut = match sget(q, "k") {
            "did" => Box::pin(async {
                match dr.resolve(sget(q, "id")).await {
                    Ok(Some(d)) => json!({"st":"ok","a":[if d.id == sget(q, "id") { d.key_agreement[0].clone() } else { "wrong id".into() }]}),
                    Ok(None) => json!({"st":"ok","a":[]}),
                    Err(e) => err(&e),
                }
            }),
            "get" => Box::pin(async {
                match sr.get_secret(sget(q, "id")).await {
                    Ok(Some(s)) => json!({"st":"ok","a":[match s.secret_material {
                        SecretMaterial::Base58 { private_key_base58 } if s.id == sget(q, "id") => private_key_base58,
                        _ => "wrong".into(),
                    }]}),
                    Ok(None) => json!({"st":"ok","a":[]}),
                    Err(e) => err(&e),
                }
            }),
            _ => Box::pin(async {
                let ids = strs(&q["ids"]);
                let ids: Vec<&str> = ids.iter().map(|s| s.as_str()).collect();
                match sr.find_secrets(&ids).await {
                    Ok(v) => json!({"st":"ok","a":v}),
                    Err(e) => err(&e),
                }
            }),
        };
        ans.push(block(f));
    }
    json!({"st":"ok","ans":ans})
}
