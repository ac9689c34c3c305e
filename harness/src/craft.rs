//! Builds envelopes an attacker or a foreign implementation could send: valid cryptography with
//! arbitrary headers, splices of earlier texts, and mutations of packed texts.
use crate::{crypt::*, keys::*, world::sget};
use serde_json::{json, Value};
use sha2::{Digest, Sha256};
use std::collections::BTreeMap;

pub type Texts = BTreeMap<String, String>;

/// Replaces {"$json":h} and {"$str":h} in a JSON template.
pub fn subst(v: &Value, t: &Texts) -> Value {
    match v {
        Value::Object(m) => {
            if let Some(Value::String(h)) = m.get("$json") {
                return serde_json::from_str(t.get(h).map(|s| s.as_str()).unwrap_or("null")).unwrap_or(Value::Null);
            }
            if let Some(Value::String(h)) = m.get("$str") {
                return json!(t.get(h).cloned().unwrap_or_else(|| "missing".into()));
            }
            Value::Object(m.iter().map(|(k, v)| (k.clone(), subst(v, t))).collect())
        }
        Value::Array(a) => Value::Array(a.iter().map(|v| subst(v, t)).collect()),
        _ => v.clone(),
    }
}
fn over(o: &mut Value, ov: &Value) {
    if let Some(m) = ov.as_object() {
        for (k, v) in m {
            if v == &json!("~drop") {
                o.as_object_mut().unwrap().remove(k);
            } else {
                o[k] = v.clone();
            }
        }
    }
}
fn st<'a>(v: &'a Value, k: &str, d: &'a str) -> &'a str {
    v[k].as_str().unwrap_or(d)
}
fn sig_bytes(mode: &str, k: &Key, prot: &str, payload: &str) -> String {
    let ok = || sign(k, format!("{}.{}", prot, payload).as_bytes());
    match mode {
        "ok" => b64(&ok()),
        "zero" => b64(&[0u8; 64]),
        "short" => b64(&ok()[..63]),
        "long" => b64(&[ok(), vec![0]].concat()),
        "empty" => "".into(),
        "badb64" => "!!!!".into(),
        "pad" => b64(&ok()) + "==",
        "otherpl" => b64(&sign(k, format!("{}.{}", prot, b64(b"{\"other\":1}")).as_bytes())),
        "plonly" => b64(&sign(k, payload.as_bytes())),
        "otherprot" => b64(&sign(k, format!("{}.{}", b64(b"{}"), payload).as_bytes())),
        _ => panic!("harness: sig mode {}", mode),
    }
}
pub fn craft(c: &Value, t: &Texts) -> String {
    match sget(c, "t") {
        "text" => sget(c, "v").into(),
        "ref" => t.get(sget(c, "h")).cloned().unwrap_or_default(),
        "plain" => serde_json::to_string(&subst(&c["msg"], t)).unwrap(),
        "fwd" => json!({"id":"f1","typ":"application/didcomm-plain+json","type":"https://didcomm.org/routing/2.0/forward","body":{"next":c["next"]},
                        "attachments":[{"data":{"json":serde_json::from_str::<Value>(&craft(&c["pl"], t)).unwrap_or(Value::Null)}}]})
        .to_string(),
        "jws" => craft_jws(c, t),
        "jwe" => craft_jwe(c, t),
        "jwt" => craft_jwt(c, t),
        x => panic!("harness: craft {}", x),
    }
}
fn payload_of(c: &Value, t: &Texts) -> Vec<u8> {
    match c["plhex"].as_str() {
        Some(hx) => (0..hx.len() / 2).map(|i| u8::from_str_radix(&hx[2 * i..2 * i + 2], 16).unwrap()).collect(),
        None => craft(&c["pl"], t).into_bytes(),
    }
}
fn craft_jws(c: &Value, t: &Texts) -> String {
    let payload = c["plraw"].as_str().map(|s| s.to_owned()).unwrap_or_else(|| b64(&payload_of(c, t)));
    let mut sigs = vec![];
    for s in c["sigs"].as_array().unwrap() {
        let mut p = json!({"typ": st(s,"typ","application/didcomm-signed+json"), "alg": sget(s,"alg")});
        over(&mut p, &s["over"]);
        let prot = s["protraw"].as_str().map(|x| x.to_owned()).unwrap_or_else(|| b64(serde_json::to_string(&p).unwrap().as_bytes()));
        let sg = sig_bytes(st(s, "sig", "ok"), &key(sget(s, "key")), &prot, &payload);
        let mut e = json!({"header": {"kid": sget(s,"kid")}, "protected": prot, "signature": sg});
        over(&mut e, &s["top"]);
        sigs.push(e);
    }
    let mut v = json!({"payload": payload, "signatures": sigs});
    over(&mut v, &c["top"]);
    serde_json::to_string(&v).unwrap()
}
fn craft_jwt(c: &Value, t: &Texts) -> String {
    let mut h = json!({"typ": st(c,"typ","JWT"), "alg": sget(c,"alg"), "kid": sget(c,"kid")});
    over(&mut h, &c["over"]);
    let hs = c["hraw"].as_str().map(|x| x.to_owned()).unwrap_or_else(|| b64(serde_json::to_string(&h).unwrap().as_bytes()));
    let ps = if c.get("plhex").is_some() {
        b64(&payload_of(c, t))
    } else {
        c["praw"].as_str().map(|x| x.to_owned()).unwrap_or_else(|| b64(serde_json::to_string(&subst(&c["claims"], t)).unwrap().as_bytes()))
    };
    let sg = sig_bytes(st(c, "sig", "ok"), &key(sget(c, "key")), &hs, &ps);
    match c["segs"].as_u64().unwrap_or(3) {
        1 => hs,
        2 => format!("{}.{}", hs, ps),
        3 => format!("{}.{}.{}", hs, ps, sg),
        4 => format!("{}.{}.{}.", hs, ps, sg),
        _ => format!("{}.{}..{}", hs, ps, sg),
    }
}
fn craft_jwe(c: &Value, t: &Texts) -> String {
    let pt = payload_of(c, t);
    let alg = st(c, "alg", "ECDH-ES+A256KW");
    let enc = sget(c, "enc");
    let crv = st(c, "crv", "X");
    let seed = format!("{}|{}", st(c, "seed", "s"), c);
    let eph = key(&format!("{}:eph:{}", crv, h(seed.as_bytes())));
    let mut epk = eph.jwk_pub.clone();
    match st(c, "epk", "ok") {
        "ok" => {}
        "badx" => epk["x"] = json!("AAAA"),
        "badb64" => epk["x"] = json!("!!"),
        "nox" => {
            epk.as_object_mut().unwrap().remove("x");
        }
        "offcurve" => epk["y"] = epk["x"].clone(),
        "crv" => epk["crv"] = json!("P-521"),
        "str" => epk = json!("epk"),
        "extra" => epk["use"] = json!("enc"),
        k => epk = key(k).jwk_pub.clone(),
    }
    let tos = c["to"].as_array().unwrap();
    let kids: Vec<&str> = tos.iter().map(|r| sget(r, "kid")).collect();
    let apv: Vec<u8> = match &c["apv"] {
        Value::Null => {
            let mut k = kids.clone();
            k.sort();
            Sha256::digest(k.join(".").as_bytes()).to_vec()
        }
        Value::Object(m) => {
            // digest of the given list as is, with the given separator
            let l: Vec<&str> = m["kids"].as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect();
            let sep = m.get("sep").and_then(|x| x.as_str()).unwrap_or(".");
            let mut d = Sha256::digest(l.join(sep).as_bytes()).to_vec();
            if let Some(n) = m.get("cut").and_then(|x| x.as_u64()) {
                d.truncate(n as usize);
            }
            if m.contains_key("ext") {
                d.push(0);
            }
            d
        }
        Value::String(s) => s.as_bytes().to_vec(),
        _ => panic!("harness: apv"),
    };
    let apu: Option<Vec<u8>> = match &c["apu"] {
        Value::Null => None,
        Value::String(s) => Some(s.as_bytes().to_vec()),
        Value::Object(m) if m.contains_key("hex") => Some(payload_of(&json!({"plhex": m["hex"]}), t)),
        _ => panic!("harness: apu"),
    };
    let mut p = json!({"typ":"application/didcomm-encrypted+json","alg":alg,"enc":enc,"apv":b64(&apv),"epk":epk});
    if let Some(a) = &apu {
        p["apu"] = json!(b64(a));
    }
    if let Some(s) = c["skid"].as_str() {
        p["skid"] = json!(s);
    }
    over(&mut p, &c["over"]);
    let ps = if c["nullopt"] == json!(true) {
        // absent optional headers written as null
        let mut q = p.clone();
        for k in ["apu", "skid"].iter() {
            if q.get(*k).is_none() {
                q[*k] = Value::Null;
            }
        }
        serde_json::to_string(&q).unwrap()
    } else {
        serde_json::to_string(&p).unwrap()
    };
    let prot = c["protraw"].as_str().map(|x| x.to_owned()).unwrap_or_else(|| b64(ps.as_bytes()));
    let opu = alg == "ECDH-1PU+A256KW";
    let (ct, tag, iv, cek) = match lens(enc) {
        Some((kl, il, _)) => {
            let cek = deterministic(format!("cek{}", seed).as_bytes(), kl);
            let iv = deterministic(format!("iv{}", seed).as_bytes(), il);
            let (ct, tag) = aead_seal(enc, &cek, &iv, prot.as_bytes(), &pt);
            (ct, tag, iv, cek)
        }
        None => (pt, vec![0; 16], vec![0; 12], vec![7; 32]),
    };
    let mut rc = vec![];
    for r in tos {
        let k = key(sget(r, "key"));
        let ze = ecdh(&eph.kp, &k.kp);
        let zs = if opu { c["skey"].as_str().map(|s| ecdh(&key(s).kp, &k.kp)) } else { None };
        let ek = match (ze, zs) {
            (Some(z), None) => Some(z),
            (Some(mut z), Some(Some(s))) => {
                z.extend(s);
                Some(z)
            }
            _ => None,
        }
        .map(|z| {
            let kk = kek(&z, alg.as_bytes(), apu.as_deref().unwrap_or(&[]), &apv, if opu { Some(&tag) } else { None });
            let mut cek = cek.clone();
            match st(r, "cek", "ok") {
                "ok" => {}
                "other" => cek = deterministic(b"othercek", cek.len()),
                "short" => cek.truncate(cek.len() - 8),
                "long" => cek.extend_from_slice(&[1; 8]),
                _ => panic!("harness: cek mode"),
            }
            kw_wrap(&kk, &cek)
        })
        .unwrap_or_else(|| vec![3; cek.len() + 8]);
        let ek = match st(r, "ek", "ok") {
            "ok" => b64(&ek),
            "zero" => b64(&vec![0; ek.len()]),
            "short" => b64(&ek[..ek.len() - 1]),
            "empty" => "".into(),
            "badb64" => "!!".into(),
            _ => panic!("harness: ek mode"),
        };
        let mut e = json!({"header":{"kid":sget(r,"kid")},"encrypted_key":ek});
        over(&mut e, &r["top"]);
        rc.push(e);
    }
    let mut v = json!({"protected":prot,"recipients":rc,"iv":b64(&iv),"ciphertext":b64(&ct),"tag":b64(&tag)});
    over(&mut v, &c["top"]);
    serde_json::to_string(&v).unwrap()
}

// ---- mutations ----
fn pos(len: usize, p: u64) -> usize {
    if len == 0 {
        0
    } else {
        (p as usize * len / 1000).min(len - 1)
    }
}
fn edit(v: &mut Value, path: &[Value], f: &mut dyn FnMut(&mut Value, Option<&Value>)) -> bool {
    if path.is_empty() {
        f(v, None);
        return true;
    }
    if path[0] == json!("@") {
        let inner = v.as_str().and_then(unb64).and_then(|b| serde_json::from_slice::<Value>(&b).ok());
        return match inner {
            Some(mut j) => {
                let r = edit(&mut j, &path[1..], f);
                *v = json!(b64(serde_json::to_string(&j).unwrap().as_bytes()));
                r
            }
            None => false,
        };
    }
    if path.len() == 1 {
        f(v, Some(&path[0]));
        return true;
    }
    let n = match &path[0] {
        Value::String(k) => v.get_mut(k),
        Value::Number(n) => v.get_mut(n.as_u64().unwrap() as usize),
        _ => None,
    };
    match n {
        Some(n) => edit(n, &path[1..], f),
        None => false,
    }
}
fn get<'a>(v: &'a mut Value, k: &Value) -> Option<&'a mut Value> {
    match k {
        Value::String(k) => v.get_mut(k),
        Value::Number(n) => v.get_mut(n.as_u64().unwrap() as usize),
        _ => None,
    }
}
fn fetch(v: &Value, path: &[Value]) -> Option<Value> {
    if path.is_empty() {
        return Some(v.clone());
    }
    if path[0] == json!("@") {
        let j = v.as_str().and_then(unb64).and_then(|b| serde_json::from_slice::<Value>(&b).ok())?;
        return fetch(&j, &path[1..]);
    }
    let n = match &path[0] {
        Value::String(k) => v.get(k),
        Value::Number(n) => v.get(n.as_u64().unwrap() as usize),
        _ => None,
    }?;
    fetch(n, &path[1..])
}
fn parse(text: &str) -> (Value, bool) {
    match serde_json::from_str::<Value>(text) {
        Ok(v) => (v, false),
        Err(_) => (json!(text.split('.').collect::<Vec<_>>()), true),
    }
}
pub fn mutate(text: &str, m: &Value, t: &Texts) -> String {
    let kind = sget(m, "m");
    let n = |k: &str| m[k].as_u64().unwrap_or(0);
    let chars: Vec<char> = text.chars().collect();
    let p = pos(chars.len(), n("pos"));
    match kind {
        "byte" => {
            let mut c = chars;
            if !c.is_empty() {
                let old = c[p];
                let mut new = st(m, "c", "A").chars().next().unwrap();
                if new == old {
                    new = if old == 'B' { 'C' } else { 'B' };
                }
                c[p] = new;
            }
            return c.into_iter().collect();
        }
        "del" => {
            let mut c = chars;
            if !c.is_empty() {
                c.remove(p);
            }
            return c.into_iter().collect();
        }
        "ins" => {
            let mut c = chars;
            c.insert(p, st(m, "c", "A").chars().next().unwrap());
            return c.into_iter().collect();
        }
        "trunc" => return chars[..p].iter().collect(),
        "append" => return format!("{}{}", text, st(m, "c", "")),
        _ => {}
    }
    let (mut v, compact) = parse(text);
    let path: Vec<Value> = m["path"].as_array().cloned().unwrap_or_default();
    let other = m["from"].as_str().and_then(|h| t.get(h)).map(|x| parse(x).0);
    let mut f = |v: &mut Value, k: Option<&Value>| {
        let k = match k {
            Some(k) => k,
            None => return,
        };
        match kind {
            "set" => match (k, v) {
                (Value::String(k), Value::Object(o)) => {
                    o.insert(k.clone(), m["v"].clone());
                }
                (k, v) => {
                    if let Some(x) = get(v, k) {
                        *x = m["v"].clone();
                    }
                }
            },
            "drop" => match (k, v) {
                (Value::String(k), Value::Object(o)) => {
                    o.remove(k);
                }
                (Value::Number(i), Value::Array(a)) => {
                    let i = i.as_u64().unwrap() as usize;
                    if i < a.len() {
                        a.remove(i);
                    }
                }
                _ => {}
            },
            "dup" => {
                if let (Value::Number(i), Value::Array(a)) = (k, v) {
                    let i = i.as_u64().unwrap() as usize;
                    if i < a.len() {
                        let e = a[i].clone();
                        a.push(e);
                    }
                }
            }
            "rev" => {
                if let Some(Value::Array(a)) = get(v, k) {
                    a.reverse();
                }
            }
            "take" => {
                if let Some(o) = other.as_ref().and_then(|o| fetch(o, &path)) {
                    match (k, v) {
                        (Value::String(k), Value::Object(ob)) => {
                            ob.insert(k.clone(), o);
                        }
                        (k, v) => {
                            if let Some(x) = get(v, k) {
                                *x = o;
                            }
                        }
                    }
                }
            }
            _ => {
                if let Some(x) = get(v, k) {
                    if let Some(s) = x.as_str() {
                        let r = match kind {
                            "flip" => {
                                let mut b = unb64(s).unwrap_or_default();
                                if !b.is_empty() {
                                    let p = pos(b.len(), n("pos"));
                                    b[p] ^= 1 << (n("bit") % 8);
                                }
                                b64(&b)
                            }
                            "cut" => {
                                let mut b = unb64(s).unwrap_or_default();
                                let l = b.len().saturating_sub(n("n").max(1) as usize);
                                b.truncate(l);
                                b64(&b)
                            }
                            "ext" => {
                                let mut b = unb64(s).unwrap_or_default();
                                b.push(n("bit") as u8);
                                b64(&b)
                            }
                            "pad" => format!("{}=", s),
                            "strtrunc" => s.chars().take(pos(s.len() + 1, n("pos"))).collect(),
                            "suffix" => format!("{}{}", s, st(m, "c", "x")),
                            "case" => s.chars().map(|c| if c.is_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
                            _ => panic!("harness: mutation {}", kind),
                        };
                        *x = json!(r);
                    }
                }
            }
        }
    };
    if kind == "pretty" {
        if !compact {
            return serde_json::to_string_pretty(&v).unwrap();
        }
        return text.into();
    }
    edit(&mut v, &path, &mut f);
    if compact {
        v.as_array().unwrap().iter().map(|x| x.as_str().map(|s| s.to_owned()).unwrap_or_else(|| x.to_string())).collect::<Vec<_>>().join(".")
    } else {
        serde_json::to_string(&v).unwrap()
    }
}
