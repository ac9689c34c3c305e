//! Conversions between JSON and library values by direct field access (never through the
//! library's own serde code).
use crate::{open::*, world::*};
use didcomm::{
    algorithms::{AnonCryptAlg, AuthCryptAlg, SignAlg},
    did::{DIDDoc, Service, ServiceKind, VerificationMaterial, VerificationMethod, VerificationMethodType},
    secrets::{Secret, SecretMaterial, SecretType},
    Attachment, AttachmentData, Base64AttachmentData, FromPrior, JsonAttachmentData, LinksAttachmentData, Message,
    PackEncryptedOptions, UnpackMetadata, UnpackOptions,
};
use serde_json::{json, Map, Value};

pub fn tag(v: &Value) -> Value {
    match v {
        Value::Null => json!({"t":"z","z":"z"}),
        Value::Bool(b) => json!({"t":"b","b":b.to_string()}),
        Value::Number(n) => json!({"t":"n","n":n.to_string(),"u":if n.is_u64() {"u"} else {"f"}}),
        Value::String(s) => json!({"t":"s","s":s}),
        Value::Array(a) => json!({"t":"a","a":a.iter().map(tag).collect::<Vec<_>>()}),
        Value::Object(m) => {
            json!({"t":"o","o":Value::Object(m.iter().map(|(k, v)| (k.clone(), tag(v))).collect())})
        }
    }
}
pub fn untag(v: &Value) -> Value {
    match sget(v, "t") {
        "z" => Value::Null,
        "b" => json!(v["b"] == json!("true")),
        "n" => serde_json::from_str(sget(v, "n")).unwrap(),
        "s" => v["s"].clone(),
        "a" => Value::Array(v["a"].as_array().unwrap().iter().map(untag).collect()),
        _ => Value::Object(v["o"].as_object().map(|m| m.iter().map(|(k, v)| (k.clone(), untag(v))).collect()).unwrap_or_default()),
    }
}
fn os(v: &Value, k: &str) -> Option<String> {
    v.get(k).and_then(|x| x.as_str()).map(|s| s.to_owned())
}
fn ou(v: &Value, k: &str) -> Option<u64> {
    v.get(k).and_then(|x| x.as_u64())
}
pub fn mk_att(a: &Value) -> Attachment {
    let d = &a["data"];
    let jws = os(d, "jws");
    let data = if let Some(b) = os(d, "base64") {
        AttachmentData::Base64 { value: Base64AttachmentData { base64: b, jws } }
    } else if let Some(j) = d.get("json") {
        AttachmentData::Json { value: JsonAttachmentData { json: j.clone(), jws } }
    } else {
        AttachmentData::Links { value: LinksAttachmentData { links: strs(&d["links"]), hash: os(d, "hash").unwrap_or_default(), jws } }
    };
    Attachment {
        data,
        id: os(a, "id"),
        description: os(a, "description"),
        filename: os(a, "filename"),
        media_type: os(a, "media_type"),
        format: os(a, "format"),
        lastmod_time: ou(a, "lastmod_time"),
        byte_count: ou(a, "byte_count"),
    }
}
pub const STD: [&str; 12] = [
    "id", "typ", "type", "body", "from", "to", "thid", "pthid", "created_time", "expires_time", "from_prior", "attachments",
];
pub fn mk_msg(v: &Value) -> Message {
    Message {
        id: os(v, "id").unwrap(),
        typ: os(v, "typ").unwrap_or("application/didcomm-plain+json".into()),
        type_: os(v, "type").unwrap(),
        body: v["body"].clone(),
        from: os(v, "from"),
        to: v.get("to").filter(|x| x.is_array()).map(strs),
        thid: os(v, "thid"),
        pthid: os(v, "pthid"),
        extra_headers: v.as_object().unwrap().iter().filter(|(k, _)| !STD.contains(&k.as_str())).map(|(k, v)| (k.clone(), v.clone())).collect(),
        created_time: ou(v, "created_time"),
        expires_time: ou(v, "expires_time"),
        from_prior: os(v, "from_prior"),
        attachments: v.get("attachments").and_then(|x| x.as_array()).map(|a| a.iter().map(mk_att).collect()),
    }
}
fn put<T: Into<Value>>(m: &mut Map<String, Value>, k: &str, v: Option<T>) {
    if let Some(v) = v {
        m.insert(k.into(), v.into());
    }
}
pub fn dump_att(a: &Attachment) -> Value {
    let mut m = Map::new();
    let mut d = Map::new();
    let jws = match &a.data {
        AttachmentData::Base64 { value } => {
            d.insert("base64".into(), json!(value.base64));
            value.jws.clone()
        }
        AttachmentData::Json { value } => {
            d.insert("json".into(), value.json.clone());
            value.jws.clone()
        }
        AttachmentData::Links { value } => {
            d.insert("links".into(), json!(value.links));
            d.insert("hash".into(), json!(value.hash));
            value.jws.clone()
        }
    };
    put(&mut d, "jws", jws);
    m.insert("data".into(), Value::Object(d));
    put(&mut m, "id", a.id.clone());
    put(&mut m, "description", a.description.clone());
    put(&mut m, "filename", a.filename.clone());
    put(&mut m, "media_type", a.media_type.clone());
    put(&mut m, "format", a.format.clone());
    put(&mut m, "lastmod_time", a.lastmod_time);
    put(&mut m, "byte_count", a.byte_count);
    Value::Object(m)
}
/// The normal form of a message value, by field access.
pub fn dump_msg(x: &Message) -> Value {
    let mut m = Map::new();
    m.insert("id".into(), json!(x.id));
    m.insert("typ".into(), json!(x.typ));
    m.insert("type".into(), json!(x.type_));
    m.insert("body".into(), x.body.clone());
    put(&mut m, "from", x.from.clone());
    put(&mut m, "to", x.to.clone());
    put(&mut m, "thid", x.thid.clone());
    put(&mut m, "pthid", x.pthid.clone());
    put(&mut m, "created_time", x.created_time);
    put(&mut m, "expires_time", x.expires_time);
    put(&mut m, "from_prior", x.from_prior.clone());
    if let Some(a) = &x.attachments {
        m.insert("attachments".into(), Value::Array(a.iter().map(dump_att).collect()));
    }
    for (k, v) in &x.extra_headers {
        // a custom header shadowing a standard one is never right: keep it visible
        let k = if STD.contains(&k.as_str()) { format!("extra:{}", k) } else { k.clone() };
        m.insert(k, v.clone());
    }
    Value::Object(m)
}
pub fn mk_fp(v: &Value) -> FromPrior {
    FromPrior {
        iss: os(v, "iss").unwrap(),
        sub: os(v, "sub").unwrap(),
        aud: os(v, "aud"),
        exp: ou(v, "exp"),
        nbf: ou(v, "nbf"),
        iat: ou(v, "iat"),
        jti: os(v, "jti"),
    }
}
pub fn dump_fp(f: &FromPrior) -> Value {
    let mut m = Map::new();
    m.insert("iss".into(), json!(f.iss));
    m.insert("sub".into(), json!(f.sub));
    put(&mut m, "aud", f.aud.clone());
    put(&mut m, "exp", f.exp);
    put(&mut m, "nbf", f.nbf);
    put(&mut m, "iat", f.iat);
    put(&mut m, "jti", f.jti.clone());
    Value::Object(m)
}
pub fn vmt_name(t: &VerificationMethodType) -> &'static str {
    use VerificationMethodType::*;
    match t {
        JsonWebKey2020 => "JsonWebKey2020",
        X25519KeyAgreementKey2019 => "X25519KeyAgreementKey2019",
        Ed25519VerificationKey2018 => "Ed25519VerificationKey2018",
        EcdsaSecp256k1VerificationKey2019 => "EcdsaSecp256k1VerificationKey2019",
        X25519KeyAgreementKey2020 => "X25519KeyAgreementKey2020",
        Ed25519VerificationKey2020 => "Ed25519VerificationKey2020",
        Other => "Other",
    }
}
pub fn st_name(t: &SecretType) -> &'static str {
    use SecretType::*;
    match t {
        JsonWebKey2020 => "JsonWebKey2020",
        X25519KeyAgreementKey2019 => "X25519KeyAgreementKey2019",
        Ed25519VerificationKey2018 => "Ed25519VerificationKey2018",
        EcdsaSecp256k1VerificationKey2019 => "EcdsaSecp256k1VerificationKey2019",
        X25519KeyAgreementKey2020 => "X25519KeyAgreementKey2020",
        Ed25519VerificationKey2020 => "Ed25519VerificationKey2020",
        Other => "Other",
    }
}
pub fn dump_vm(v: &VerificationMethod) -> Value {
    let (k, m) = match &v.verification_material {
        VerificationMaterial::JWK { public_key_jwk } => ("jwk", public_key_jwk.clone()),
        VerificationMaterial::Multibase { public_key_multibase } => ("mb", json!(public_key_multibase)),
        VerificationMaterial::Base58 { public_key_base58 } => ("b58", json!(public_key_base58)),
    };
    json!({"id":v.id,"type":vmt_name(&v.type_),"controller":v.controller,"matk":k,"mat":m})
}
pub fn dump_secret(v: &Secret) -> Value {
    let (k, m) = match &v.secret_material {
        SecretMaterial::JWK { private_key_jwk } => ("jwk", private_key_jwk.clone()),
        SecretMaterial::Multibase { private_key_multibase } => ("mb", json!(private_key_multibase)),
        SecretMaterial::Base58 { private_key_base58 } => ("b58", json!(private_key_base58)),
    };
    json!({"id":v.id,"type":st_name(&v.type_),"matk":k,"mat":m})
}
pub fn dump_service(s: &Service) -> Value {
    match &s.service_endpoint {
        ServiceKind::DIDCommMessaging { value } => {
            let mut m = json!({"id":s.id,"k":"dc","uri":value.uri,"rk":value.routing_keys});
            if let Some(a) = &value.accept {
                m["accept"] = json!(a);
            }
            m
        }
        ServiceKind::Other { value } => json!({"id":s.id,"k":"other","data":value}),
    }
}
pub fn dump_doc(d: &DIDDoc) -> Value {
    json!({"id":d.id,"ka":d.key_agreement,"auth":d.authentication,
           "vms":d.verification_method.iter().map(dump_vm).collect::<Vec<_>>(),
           "svcs":d.service.iter().map(dump_service).collect::<Vec<_>>()})
}
pub fn anon_name(a: &AnonCryptAlg) -> &'static str {
    match a {
        AnonCryptAlg::A256cbcHs512EcdhEsA256kw => "A256CBC-HS512",
        AnonCryptAlg::Xc20pEcdhEsA256kw => "XC20P",
        AnonCryptAlg::A256gcmEcdhEsA256kw => "A256GCM",
    }
}
pub fn mk_anon(s: &str) -> AnonCryptAlg {
    match s {
        "A256CBC-HS512" => AnonCryptAlg::A256cbcHs512EcdhEsA256kw,
        "XC20P" => AnonCryptAlg::Xc20pEcdhEsA256kw,
        "A256GCM" => AnonCryptAlg::A256gcmEcdhEsA256kw,
        _ => panic!("harness: anon alg {}", s),
    }
}
pub fn auth_name(a: &AuthCryptAlg) -> &'static str {
    match a {
        AuthCryptAlg::A256cbcHs512Ecdh1puA256kw => "A256CBC-HS512",
    }
}
pub fn sign_name(a: &SignAlg) -> &'static str {
    match a {
        SignAlg::EdDSA => "EdDSA",
        SignAlg::ES256 => "ES256",
        SignAlg::ES256K => "ES256K",
    }
}
pub fn dump_popts(o: &PackEncryptedOptions) -> Value {
    let mut m = json!({"protect":o.protect_sender,"forward":o.forward,"auth":auth_name(&o.enc_alg_auth),"anon":anon_name(&o.enc_alg_anon)});
    if let Some(h) = &o.forward_headers {
        m["headers"] = Value::Object(h.iter().map(|(k, v)| (k.clone(), v.clone())).collect());
    }
    if let Some(s) = &o.messaging_service {
        m["svc"] = json!(s);
    }
    m
}
pub fn dump_uopts(o: &UnpackOptions) -> Value {
    json!({"all":o.expect_decrypt_by_all_keys,"unwrap":o.unwrap_re_wrapping_forward})
}
/// Metadata by field access; absent values are "~".
pub fn dump_meta(m: &UnpackMetadata) -> Value {
    let o = |x: &Option<String>| x.clone().unwrap_or_else(|| NONE.into());
    json!({
        "enc":m.encrypted,"auth":m.authenticated,"nr":m.non_repudiation,"anon":m.anonymous_sender,
        "rewrap":m.re_wrapped_in_forward,"fromKid":o(&m.encrypted_from_kid),
        "hasTo":m.encrypted_to_kids.is_some(),"toKids":m.encrypted_to_kids.clone().unwrap_or_default(),
        "signFrom":o(&m.sign_from),"fpKid":o(&m.from_prior_issuer_kid),
        "algAuth":m.enc_alg_auth.as_ref().map(auth_name).unwrap_or(NONE),
        "algAnon":m.enc_alg_anon.as_ref().map(anon_name).unwrap_or(NONE),
        "algSign":m.sign_alg.as_ref().map(sign_name).unwrap_or(NONE),
        "fp":m.from_prior.as_ref().map(|f| hv(&dump_fp(f))).unwrap_or_else(|| NONE.into()),
        "hasSigned":m.signed_message.is_some(),
    })
}
