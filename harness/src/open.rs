//! The omniscient opener: turns any packed text into a symbolic term, using every key of the
//! world and an independent implementation of the formats.
use crate::{crypt::*, keys::*};
use serde_json::{json, Map, Value};
use sha2::{Digest, Sha256};
use std::collections::BTreeMap;
use std::rc::Rc;

pub const NONE: &str = "~";
pub const FORWARD: &str = "https://didcomm.org/routing/2.0/forward";

/// All keys of a scenario's world: key id (kid) hints and the list of keys.
#[derive(Default, Clone)]
pub struct Ring {
    pub by_kid: BTreeMap<String, Vec<Rc<Key>>>,
    pub all: Vec<Rc<Key>>,
}
impl Ring {
    pub fn add(&mut self, kid: &str, k: Rc<Key>) {
        let v = self.by_kid.entry(kid.to_owned()).or_default();
        if !v.iter().any(|x| x.name == k.name) {
            v.push(k.clone());
        }
        if !self.all.iter().any(|x| x.name == k.name) {
            self.all.push(k);
        }
    }
    fn candidates(&self, kid: &str, crv: char) -> Vec<Rc<Key>> {
        let mut v: Vec<Rc<Key>> = self
            .by_kid
            .get(kid)
            .map(|v| v.iter().filter(|k| k.crv == crv).cloned().collect())
            .unwrap_or_default();
        for k in &self.all {
            if k.crv == crv && !v.iter().any(|x| x.name == k.name) {
                v.push(k.clone());
            }
        }
        v
    }
}

pub fn canon(v: &Value) -> String {
    match v {
        Value::Object(m) => {
            let mut ks: Vec<&String> = m.keys().collect();
            ks.sort();
            let parts: Vec<String> =
                ks.iter().map(|k| format!("{}:{}", serde_json::to_string(k).unwrap(), canon(&m[*k]))).collect();
            format!("{{{}}}", parts.join(","))
        }
        Value::Array(a) => format!("[{}]", a.iter().map(canon).collect::<Vec<_>>().join(",")),
        _ => serde_json::to_string(v).unwrap(),
    }
}
pub fn hv(v: &Value) -> String {
    h(canon(v).as_bytes())
}

fn opt_str(o: &Map<String, Value>, k: &str) -> Result<Option<Value>, ()> {
    match o.get(k) {
        None | Some(Value::Null) => Ok(None),
        Some(Value::String(s)) => Ok(Some(json!(s))),
        _ => Err(()),
    }
}
fn opt_u64(o: &Map<String, Value>, k: &str) -> Result<Option<Value>, ()> {
    match o.get(k) {
        None | Some(Value::Null) => Ok(None),
        Some(v) if v.is_u64() => Ok(Some(v.clone())),
        _ => Err(()),
    }
}
/// Normal form of a plaintext message, or Err if it does not satisfy the message schema.
pub fn norm_msg(v: &Value) -> Result<Value, ()> {
    let o = v.as_object().ok_or(())?;
    let mut r = Map::new();
    for k in ["id", "type"].iter() {
        r.insert((*k).into(), json!(o.get(*k).and_then(|x| x.as_str()).ok_or(())?));
    }
    match o.get("typ") {
        None => r.insert("typ".into(), json!("application/didcomm-plain+json")),
        Some(Value::String(s)) => r.insert("typ".into(), json!(s)),
        _ => return Err(()),
    };
    r.insert("body".into(), o.get("body").ok_or(())?.clone());
    for k in ["from", "thid", "pthid", "from_prior"].iter() {
        if let Some(x) = opt_str(o, k)? {
            r.insert((*k).into(), x);
        }
    }
    for k in ["created_time", "expires_time"].iter() {
        if let Some(x) = opt_u64(o, k)? {
            r.insert((*k).into(), x);
        }
    }
    match o.get("to") {
        None | Some(Value::Null) => {}
        Some(Value::Array(a)) if a.iter().all(|x| x.is_string()) => {
            r.insert("to".into(), json!(a));
        }
        _ => return Err(()),
    }
    match o.get("attachments") {
        None | Some(Value::Null) => {}
        Some(Value::Array(a)) => {
            let mut out = vec![];
            for x in a {
                out.push(norm_att(x)?);
            }
            r.insert("attachments".into(), Value::Array(out));
        }
        _ => return Err(()),
    }
    const KNOWN: [&str; 13] = [
        "id", "typ", "type", "body", "from", "to", "thid", "pthid", "created_time", "expires_time",
        "from_prior", "attachments", "\u{0}",
    ];
    for (k, x) in o {
        if !KNOWN.contains(&k.as_str()) {
            r.insert(k.clone(), x.clone());
        }
    }
    Ok(Value::Object(r))
}
fn norm_att(v: &Value) -> Result<Value, ()> {
    let o = v.as_object().ok_or(())?;
    let d = o.get("data").and_then(|d| d.as_object()).ok_or(())?;
    let mut r = Map::new();
    let mut dr = Map::new();
    let jws = opt_str(d, "jws")?;
    if let Some(Value::String(s)) = d.get("base64") {
        dr.insert("base64".into(), json!(s));
    } else if let Some(x) = d.get("json") {
        dr.insert("json".into(), x.clone());
    } else if let (Some(Value::Array(l)), Some(Value::String(hs))) = (d.get("links"), d.get("hash")) {
        if !l.iter().all(|x| x.is_string()) {
            return Err(());
        }
        dr.insert("links".into(), json!(l));
        dr.insert("hash".into(), json!(hs));
    } else {
        return Err(());
    }
    if let Some(j) = jws {
        dr.insert("jws".into(), j);
    }
    r.insert("data".into(), Value::Object(dr));
    for k in ["id", "description", "filename", "media_type", "format"].iter() {
        if let Some(x) = opt_str(o, k)? {
            r.insert((*k).into(), x);
        }
    }
    for k in ["lastmod_time", "byte_count"].iter() {
        if let Some(x) = opt_u64(o, k)? {
            r.insert((*k).into(), x);
        }
    }
    Ok(Value::Object(r))
}

/// Abstract record of a normalised message: what the specification looks at.
pub fn absmsg(n: &Value, ring: &Ring) -> Value {
    let s = |k: &str| n.get(k).and_then(|x| x.as_str()).unwrap_or(NONE).to_owned();
    let fp = match n.get("from_prior") {
        Some(Value::String(t)) => open_jwt(t, ring),
        _ => json!({"k":"none"}),
    };
    let (bk, next) = match n.get("body") {
        Some(Value::Object(b)) => match b.get("next") {
            Some(Value::String(x)) => ("obj/str", x.clone()),
            Some(_) => ("obj/other", NONE.into()),
            None => ("obj/none", NONE.into()),
        },
        _ => ("other", NONE.into()),
    };
    let mut inner = json!({"k":"none"});
    let mut injh = NONE.to_owned();
    let mut ak = vec![];
    if let Some(a) = n.get("attachments").and_then(|a| a.as_array()) {
        for (i, x) in a.iter().enumerate() {
            let d = x["data"].as_object().unwrap();
            ak.push(if d.contains_key("base64") { "base64" } else if d.contains_key("json") { "json" } else { "links" });
            if i == 0 && ak[0] == "json" {
                injh = hv(&d["json"]);
            }
            if i == 0 && ak[0] == "json" && s("type") == FORWARD && bk == "obj/str" {
                inner = open(&serde_json::to_string(&d["json"]).unwrap(), ring);
            }
        }
    }
    // headers other than the ones the library sets on a forward message
    let mut hdr = n.clone();
    for k in ["id", "typ", "type", "body", "from", "to", "thid", "pthid", "created_time", "expires_time", "from_prior", "attachments"].iter() {
        hdr.as_object_mut().unwrap().remove(*k);
    }
    let std: Vec<&str> = ["from", "to", "thid", "pthid", "created_time", "expires_time", "from_prior"]
        .iter()
        .filter(|k| n.get(**k).is_some())
        .cloned()
        .collect();
    json!({
        "h": hv(n), "id": s("id"), "from": s("from"), "hasTo": n.get("to").is_some(),
        "to": n.get("to").cloned().unwrap_or(json!([])),
        "typok": n.get("typ") == Some(&json!("application/didcomm-plain+json")),
        "fp": fp, "bk": bk, "ak": ak, "next": next, "inner": inner, "injh": injh, "bm": members(&n["body"]),
        "hdr": hv(&hdr), "std": std.join(","),
        "bodyh": hv(&n["body"]), "natt": n.get("attachments").map(|a| a.as_array().unwrap().len()).unwrap_or(0),
        "type": s("type"),
    })
}
fn members(v: &Value) -> String {
    match v {
        Value::Object(m) => {
            let mut k: Vec<&str> = m.keys().map(|s| s.as_str()).collect();
            k.sort();
            k.join(",")
        }
        _ => "!".into(),
    }
}
fn strict_b64(s: &str) -> bool {
    match unb64(s) {
        Some(b) => b64(&b) == s,
        None => false,
    }
}

pub fn open_jwt(t: &str, ring: &Ring) -> Value {
    let segs: Vec<&str> = t.split('.').collect();
    if segs.len() != 3 {
        return json!({"k":"jwt","ok":"Malformed"});
    }
    let hdr = unb64(segs[0]).and_then(|b| serde_json::from_slice::<Value>(&b).ok());
    let hdr = match hdr {
        Some(Value::Object(m)) => m,
        _ => return json!({"k":"jwt","ok":"Malformed"}),
    };
    let g = |k: &str| hdr.get(k).and_then(|x| x.as_str()).map(|s| s.to_owned());
    let (typ, alg, kid) = match (g("typ"), g("alg"), g("kid")) {
        (Some(a), Some(b), Some(c)) => (a, b, c),
        _ => return json!({"k":"jwt","ok":"Malformed"}),
    };
    let sig = unb64(segs[2]);
    let data = format!("{}.{}", segs[0], segs[1]);
    let skey = sig
        .as_ref()
        .and_then(|sig| find_signer(ring, &kid, data.as_bytes(), sig))
        .unwrap_or(NONE.into());
    let claims = unb64(segs[1]).and_then(|b| serde_json::from_slice::<Value>(&b).ok()).and_then(|v| norm_claims(&v).ok());
    let (cok, iss, sub, ch) = match &claims {
        Some(c) => (true, c["iss"].as_str().unwrap().to_owned(), c["sub"].as_str().unwrap().to_owned(), hv(c)),
        None => (false, NONE.into(), NONE.into(), NONE.into()),
    };
    let w = format!(
        "{}|{}|{}",
        members(&Value::Object(hdr.clone())),
        strict_b64(segs[0]) && strict_b64(segs[1]) && strict_b64(segs[2]),
        sig.as_ref().map(|s| s.len()).unwrap_or(0)
    );
    json!({"k":"jwt","ok":"ok","typ":typ,"alg":alg,"kid":kid,"skey":skey,"sigb64":sig.is_some(),
           "cok":cok,"iss":iss,"sub":sub,"ch":ch,"w":w})
}
pub fn norm_claims(v: &Value) -> Result<Value, ()> {
    let o = v.as_object().ok_or(())?;
    let mut r = Map::new();
    for k in ["iss", "sub"].iter() {
        r.insert((*k).into(), json!(o.get(*k).and_then(|x| x.as_str()).ok_or(())?));
    }
    for k in ["aud", "jti"].iter() {
        if let Some(x) = opt_str(o, k)? {
            r.insert((*k).into(), x);
        }
    }
    for k in ["exp", "nbf", "iat"].iter() {
        if let Some(x) = opt_u64(o, k)? {
            r.insert((*k).into(), x);
        }
    }
    Ok(Value::Object(r))
}
fn find_signer(ring: &Ring, kid: &str, data: &[u8], sig: &[u8]) -> Option<String> {
    let mut c: Vec<Rc<Key>> = ring.by_kid.get(kid).cloned().unwrap_or_default();
    for k in &ring.all {
        if !c.iter().any(|x| x.name == k.name) {
            c.push(k.clone());
        }
    }
    c.iter().find(|k| k.crv != 'X' && verify(k, data, sig)).map(|k| k.name.clone())
}

fn s_of<'a>(v: &'a Value, k: &str) -> Option<&'a str> {
    v.get(k).and_then(|x| x.as_str())
}
fn is_jwe(v: &Value) -> bool {
    ["protected", "iv", "ciphertext", "tag"].iter().all(|k| s_of(v, k).is_some())
        && v.get("recipients").and_then(|r| r.as_array()).map_or(false, |a| {
            a.iter().all(|r| s_of(r, "encrypted_key").is_some() && r.get("header").map_or(false, |x| s_of(x, "kid").is_some()))
        })
}
fn is_jws(v: &Value) -> bool {
    s_of(v, "payload").is_some()
        && v.get("signatures").and_then(|r| r.as_array()).map_or(false, |a| {
            a.iter().all(|r| {
                s_of(r, "protected").is_some() && s_of(r, "signature").is_some() && r.get("header").map_or(false, |x| s_of(x, "kid").is_some())
            })
        })
}

/// Truncated JSON is reported as such, unless what is there already has members of a wrong type
/// ("Eof": either report is right).
fn truncated(text: &str, strings: &[&str]) -> &'static str {
    let cut = json!("~cut");
    let mut stack = vec![];
    let (mut ins, mut esc) = (false, 0usize);
    for c in text.chars() {
        if ins {
            match c {
                'u' if esc == 1 => esc = 4,
                _ if esc > 0 => esc -= 1,
                '\\' => esc = 1,
                '"' => ins = false,
                _ => {}
            }
        } else {
            match c {
                '"' => ins = true,
                '{' => stack.push('}'),
                '[' => stack.push(']'),
                '}' | ']' => {
                    stack.pop();
                }
                _ => {}
            }
        }
    }
    if esc > 0 {
        return "Eof";
    }
    let close: String = stack.iter().rev().collect();
    let base = format!("{}{}", text, if ins { "\"" } else { "" });
    let t = base.trim_end();
    let mut v = None;
    for mid in ["", ":\"~cut\"", "\"~cut\""].iter() {
        let s = if t.ends_with(',') { t[..t.len() - 1].to_owned() } else { t.to_owned() };
        if let Ok(x) = serde_json::from_str::<Value>(&format!("{}{}{}", s, mid, close)) {
            v = Some(x);
            break;
        }
    }
    let v = match v {
        Some(Value::Object(m)) => m,
        _ => return "Eof",
    };
    let s = |o: &Map<String, Value>, k: &str| o.get(k).map_or(true, |x| x.is_string());
    if !strings.iter().all(|k| s(&v, k)) {
        return "Eof";
    }
    match v.get("recipients") {
        Some(Value::Array(a)) if strings.contains(&"iv") => {
            for r in a {
                match r {
                    Value::Object(o) if s(o, "encrypted_key") => match o.get("header") {
                        None => {}
                        Some(Value::Object(hd)) if s(hd, "kid") => {}
                        Some(x) if *x == cut => {}
                        _ => return "Eof",
                    },
                    x if *x == cut => {}
                    _ => return "Eof",
                }
            }
        }
        Some(x) if strings.contains(&"iv") && *x != cut => return "Eof",
        _ => {}
    }
    // what there is of a message
    let mut m = v;
    for k in ["id", "typ", "type", "body"].iter() {
        m.entry(*k).or_insert(json!(""));
    }
    if norm_msg(&Value::Object(m)).is_err() {
        return "Eof";
    }
    "InvalidState"
}

thread_local! { static INNER: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()); }
/// The text inside the outermost layer: what an encrypted or signed message contains, or what a
/// forward carries.
pub fn inner(text: &str, ring: &Ring) -> String {
    let t = open(text, ring);
    match t["k"].as_str() {
        Some("jwe") | Some("jws") => INNER.with(|x| x.borrow().clone()),
        _ => serde_json::from_str::<Value>(text).ok().map(|v| v["attachments"][0]["data"]["json"].to_string()).unwrap_or_default(),
    }
}
pub fn open(text: &str, ring: &Ring) -> Value {
    let v: Value = match serde_json::from_str(text) {
        Ok(v) => v,
        Err(e) => {
            // too deep to be read as a value here, while the library may skip it without depth limit
            let k = if e.to_string().contains("recursion limit") {
                "Eof"
            } else if e.classify() == serde_json::error::Category::Eof {
                truncated(text, &["protected", "iv", "ciphertext", "tag"])
            } else {
                "Malformed"
            };
            return json!({"k":"bad","kind":k});
        }
    };
    // escapes in the envelope's own strings may legitimately be refused
    let esc = text.contains('\\');
    if is_jwe(&v) {
        let mut t = open_jwe(&v, ring);
        t["esc"] = json!(esc);
        return t;
    }
    if is_jws(&v) {
        let mut t = open_jws(&v, ring);
        t["esc"] = json!(esc);
        return t;
    }
    match norm_msg(&v) {
        Ok(n) => {
            let mut a = absmsg(&n, ring);
            a["k"] = json!("plain");
            a["w"] = json!(members(&v));
            a
        }
        Err(_) => json!({"k":"bad","kind":"Malformed"}),
    }
}

fn open_jws(v: &Value, ring: &Ring) -> Value {
    let payload = s_of(v, "payload").unwrap();
    let mut sigs = vec![];
    let mut ok = "ok";
    for s in v["signatures"].as_array().unwrap() {
        let p = s_of(s, "protected").unwrap();
        let ph: Option<Value> = unb64(p).and_then(|b| serde_json::from_slice(&b).ok());
        let ph = match ph {
            Some(x) if s_of(&x, "typ").is_some() && s_of(&x, "alg").is_some() => x,
            _ => {
                let cut = unb64(p).map_or(false, |b| match serde_json::from_slice::<Value>(&b) {
                    Err(e) => e.classify() == serde_json::error::Category::Eof,
                    Ok(_) => false,
                });
                ok = if cut || ok == "Eof" { "Eof" } else { "Malformed" };
                continue;
            }
        };
        let kid = s_of(&s["header"], "kid").unwrap();
        let sig = unb64(s_of(s, "signature").unwrap());
        let data = format!("{}.{}", p, payload);
        let skey = sig.as_ref().and_then(|g| find_signer(ring, kid, data.as_bytes(), g)).unwrap_or(NONE.into());
        let w = format!(
            "{}|{}|{}|{}|{}",
            members(s),
            members(&s["header"]),
            members(&ph),
            strict_b64(p) && strict_b64(payload) && strict_b64(s_of(s, "signature").unwrap()),
            sig.as_ref().map(|s| s.len()).unwrap_or(0)
        );
        sigs.push(json!({"kid":kid,"alg":ph["alg"],"typ":ph["typ"],"skey":skey,"sigb64":sig.is_some(),"w":w}));
    }
    let pl = match unb64(payload).map(String::from_utf8) {
        Some(Ok(t)) => open(&t, ring),
        _ => json!({"k":"bad","kind":"Malformed"}),
    };
    let pok = match unb64(payload).map(String::from_utf8) {
        Some(Ok(_)) => true,
        _ => false,
    };
    INNER.with(|x| *x.borrow_mut() = unb64(payload).and_then(|b| String::from_utf8(b).ok()).unwrap_or_default());
    json!({"k":"jws","ok":ok,"sigs":sigs,"payload":pl,"pok":pok,"txt":hv(v),"w":members(v)})
}

fn open_jwe(v: &Value, ring: &Ring) -> Value {
    let prot_s = s_of(v, "protected").unwrap();
    let bad = |k: &str| json!({"k":"jwe","ok":k});
    let pb = match unb64(prot_s) {
        Some(b) => b,
        None => return bad("Malformed"),
    };
    let p: Value = match serde_json::from_slice(&pb) {
        Ok(p) => p,
        Err(e) if e.classify() == serde_json::error::Category::Eof => {
            return bad(truncated(&String::from_utf8_lossy(&pb), &["typ", "alg", "enc", "skid", "apu", "apv"]))
        }
        Err(_) => return bad("Malformed"),
    };
    let (alg, enc, apv_s) = match (s_of(&p, "alg"), s_of(&p, "enc"), s_of(&p, "apv")) {
        (Some(a), Some(b), Some(c)) => (a, b, c),
        _ => return bad("Malformed"),
    };
    if p.get("epk").is_none() {
        return bad("Malformed");
    }
    for k in ["typ", "skid", "apu"].iter() {
        match p.get(*k) {
            None | Some(Value::Null) | Some(Value::String(_)) => {}
            _ => return bad("Malformed"),
        }
    }
    let apv = match unb64(apv_s) {
        Some(b) => b,
        None => return bad("Malformed"),
    };
    let apu_b: Option<Vec<u8>> = match s_of(&p, "apu") {
        Some(s) => match unb64(s) {
            Some(b) => Some(b),
            None => return bad("Malformed"),
        },
        None => None,
    };
    let (apu, apu8) = match &apu_b {
        None => (NONE.to_owned(), true),
        Some(b) => match std::str::from_utf8(b) {
            Ok(s) => (s.to_owned(), true),
            Err(_) => ("!utf8".to_owned(), false),
        },
    };
    let rcps = v["recipients"].as_array().unwrap();
    let kids: Vec<String> = rcps.iter().map(|r| s_of(&r["header"], "kid").unwrap().to_owned()).collect();
    let mut sorted: Vec<&[u8]> = kids.iter().map(|k| k.as_bytes()).collect();
    sorted.sort();
    let apv_ok = apv == Sha256::digest(&sorted.join(&b'.')).to_vec();
    let epk = &p["epk"];
    let epk_crv = match s_of(epk, "crv") {
        Some("X25519") => 'X',
        Some("P-256") => 'P',
        _ => '?',
    };
    let epk_kp = jwk_point(epk_crv, epk);
    let iv = unb64(s_of(v, "iv").unwrap());
    let tag = unb64(s_of(v, "tag").unwrap());
    let ct = unb64(s_of(v, "ciphertext").unwrap());
    let es = alg == "ECDH-ES+A256KW";
    let opu = alg == "ECDH-1PU+A256KW";
    let mut cek: Option<Vec<u8>> = None;
    let mut same = true;
    let mut skey: Option<Rc<Key>> = None;
    let mut rk = vec![];
    let mut ekl = vec![];
    let mut pt: Option<Vec<u8>> = None;
    for (i, r) in rcps.iter().enumerate() {
        let ek = unb64(s_of(r, "encrypted_key").unwrap());
        ekl.push(ek.as_ref().map(|e| e.len()).unwrap_or(0));
        let mut found = NONE.to_owned();
        let mut opens = false;
        if let (Some(ek), Some(epk_kp), Some(tag)) = (&ek, &epk_kp, &tag) {
            let senders: Vec<Option<Rc<Key>>> = if opu {
                match &skey {
                    Some(k) => vec![Some(k.clone())],
                    None => ring.candidates(&apu, epk_crv).into_iter().map(Some).collect(),
                }
            } else {
                vec![None]
            };
            if es || opu {
                'search: for rkey in ring.candidates(&kids[i], epk_crv) {
                    let ze = match ecdh(&rkey.kp, epk_kp) {
                        Some(z) => z,
                        None => continue,
                    };
                    for s in &senders {
                        let mut z = ze.clone();
                        if let Some(s) = s {
                            match ecdh(&rkey.kp, &s.kp) {
                                Some(zs) => z.extend(zs),
                                None => continue,
                            }
                        }
                        let k = kek(&z, alg.as_bytes(), apu_b.as_deref().unwrap_or(&[]), &apv, if opu { Some(tag) } else { None });
                        if let Some(c) = kw_unwrap(&k, ek) {
                            found = rkey.name.clone();
                            if let Some(c0) = &cek {
                                same = same && *c0 == c;
                            }
                            if let (Some(iv), Some(ct)) = (&iv, &ct) {
                                if let Some(x) = aead_open(enc, &c, iv, prot_s.as_bytes(), ct, tag) {
                                    opens = true;
                                    pt = pt.or(Some(x));
                                }
                            }
                            cek = cek.or(Some(c));
                            if opu {
                                skey = s.clone();
                            }
                            break 'search;
                        }
                    }
                }
            }
        }
        rk.push(json!({"kid":kids[i],"key":found,"b64":ek.is_some(),"opens":opens}));
    }
    let intact = pt.is_some();
    let text = pt.as_ref().map(|b| String::from_utf8_lossy(b).into_owned()).unwrap_or_default();
    let (payload, utf8) = match pt.map(String::from_utf8) {
        Some(Ok(t)) => (open(&t, ring), true),
        Some(Err(_)) => (json!({"k":"bad","kind":"Malformed"}), false),
        None => (json!({"k":"none"}), false),
    };
    let b64s = [prot_s, s_of(v, "iv").unwrap(), s_of(v, "tag").unwrap(), s_of(v, "ciphertext").unwrap(), apv_s]
        .iter()
        .all(|s| strict_b64(s))
        && rcps.iter().all(|r| strict_b64(s_of(r, "encrypted_key").unwrap()))
        && s_of(&p, "apu").map_or(true, strict_b64)
        && ["x", "y"].iter().all(|k| s_of(epk, k).map_or(true, strict_b64));
    INNER.with(|x| *x.borrow_mut() = text);
    let l = |o: &Option<Vec<u8>>| o.as_ref().map(|x| x.len()).unwrap_or(0);
    let mut rm: Vec<String> = rcps.iter().map(|r| format!("{}/{}", members(r), members(&r["header"]))).collect();
    rm.dedup();
        // eight characters of base64 are 48 bits: a value that is random in part only repeats in one of them
            let fresh = {
            let iv = s_of(v,"iv").unwrap();
            let ix = s_of(epk,"x").unwrap_or("!");
            let cut = |s: &str, a: usize| s.chars().skip(a).take(8).collect::<String>();
            let ck = cek.as_ref().map(|c| b64(c)).unwrap_or_default();
            let mut f = vec![cek.as_ref().map(|c| h(c)).unwrap_or(NONE.into()), iv.to_string(), ix.to_string()];
            if iv.len() >= 16 {
                f.push(cut(iv, 0));
                f.push(cut(iv, iv.len() - 8));
                f.push(cut(ix, 0));
                f.push(if ck.is_empty() { h(iv.as_bytes()) } else { cut(&ck, 0) });
                f.push(if ck.is_empty() { h(iv.as_bytes()) } else { cut(&ck, ck.len() - 8) });
            }
            f
    };
    json!({
        "k":"jwe","ok":"ok","alg":alg,"enc":enc,"typ":s_of(&p,"typ").unwrap_or(NONE),
        "skid":s_of(&p,"skid").unwrap_or(NONE),"apu":apu,"apu8":apu8,"apvOk":apv_ok,
        "crv":epk_crv.to_string(),"epkOk":epk_kp.is_some(),
        "rcp":rk,"skey":skey.map(|k|k.name.clone()).unwrap_or(NONE.into()),
        "b64":iv.is_some()&&tag.is_some()&&ct.is_some(),
        "intact":intact,"utf8":utf8,"same":same,"payload":payload,
        "w":{"top":members(v),"prot":members(&p),"rcp":rm.join(";"),"epk":members(epk),
             "kty":s_of(epk,"kty").unwrap_or("!"),"b64":b64s,"iv":l(&iv),"tag":l(&tag),
             "ek":ekl.iter().map(|n|n.to_string()).collect::<std::collections::BTreeSet<_>>().into_iter().collect::<Vec<_>>().join(","),
             "xy":format!("{}/{}", l(&s_of(epk,"x").and_then(unb64)), l(&s_of(epk,"y").and_then(unb64)))},
        "fresh":fresh,
        "ceklen":cek.as_ref().map(|c|c.len()).unwrap_or(0),
    })
}
