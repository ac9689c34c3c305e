//! Deterministic world keys and their representations (independent of the library under test).
use askar_crypto::{
    alg::{ed25519::Ed25519KeyPair, k256::K256KeyPair, p256::P256KeyPair, x25519::X25519KeyPair},
    jwk::{FromJwk, ToJwk},
    repr::{KeyPublicBytes, KeySecretBytes},
};
use didcomm::{
    did::{VerificationMaterial, VerificationMethodType},
    secrets::{SecretMaterial, SecretType},
};
use serde_json::{json, Value};
use sha2::{Digest, Sha256};
use std::{cell::RefCell, collections::HashMap, rc::Rc};

pub enum KP {
    X(X25519KeyPair),
    P(P256KeyPair),
    E(Ed25519KeyPair),
    K(K256KeyPair),
}
pub struct Key {
    pub name: String,
    pub crv: char,
    pub sk: Vec<u8>,
    pub pk: Vec<u8>,
    pub kp: KP,
    pub jwk_pub: Value,
}
pub fn b64(d: &[u8]) -> String {
    base64::encode_config(d, base64::URL_SAFE_NO_PAD)
}
pub fn unb64(s: &str) -> Option<Vec<u8>> {
    base64::decode_config(s, base64::URL_SAFE_NO_PAD).ok()
}
pub fn h(s: &[u8]) -> String {
    Sha256::digest(s).iter().take(8).map(|b| format!("{:02x}", b)).collect()
}
thread_local!(static KEYS: RefCell<HashMap<String, Rc<Key>>> = RefCell::new(HashMap::new()));

fn pair(crv: char, sk: &[u8], name: &str) -> (KP, String, Vec<u8>) {
    match crv {
        'X' => {
            let k = X25519KeyPair::from_secret_bytes(sk).unwrap();
            let j = k.to_jwk_public(None).unwrap();
            let p = k.with_public_bytes(|b| b.to_vec());
            (KP::X(k), j, p)
        }
        'P' => {
            let k = P256KeyPair::from_secret_bytes(sk).unwrap();
            let j = k.to_jwk_public(None).unwrap();
            let p = k.with_public_bytes(|b| b.to_vec());
            (KP::P(k), j, p)
        }
        'E' => {
            let k = Ed25519KeyPair::from_secret_bytes(sk).unwrap();
            let j = k.to_jwk_public(None).unwrap();
            let p = k.with_public_bytes(|b| b.to_vec());
            (KP::E(k), j, p)
        }
        'K' => {
            let k = K256KeyPair::from_secret_bytes(sk).unwrap();
            let j = k.to_jwk_public(None).unwrap();
            let p = k.with_public_bytes(|b| b.to_vec());
            (KP::K(k), j, p)
        }
        _ => panic!("harness: bad key name {}", name),
    }
}

/// Name = "<curve letter>:<anything>", curve letter in X P E K.
pub fn key(name: &str) -> Rc<Key> {
    if let Some(k) = KEYS.with(|m| m.borrow().get(name).cloned()) {
        return k;
    }
    let crv = name.chars().next().unwrap();
    // a name may ask for material with a zero where encodings are apt to lose it
    let want = |pk: &[u8], jwk: &str| match name.split_once('~').map(|x| x.1) {
        None => true,
        Some("z") => pk[if pk.len() == 33 { 1 } else { 0 }] == 0,
        Some("l") => pk[pk.len() - 1] == 0,
        Some("y") if crv == 'P' || crv == 'K' => {
            let j: Value = serde_json::from_str(jwk).unwrap();
            j["y"].as_str().and_then(unb64).map_or(false, |y| y[0] == 0)
        }
        Some(_) => true,
    };
    let mut n = 0;
    let (sk, kp, jwk, pk) = loop {
        let tail = if n == 0 { String::new() } else { format!("/{}", n) };
        let mut sk = Sha256::digest(format!("verif-key:{}{}", name, tail).as_bytes()).to_vec();
        if name.ends_with("~d") {
            sk[0] = 0;
        }
        let (kp, jwk, pk) = pair(crv, &sk, name);
        if want(&pk, &jwk) {
            break (sk, kp, jwk, pk);
        }
        n += 1;
    };
    let jwk_pub: Value = serde_json::from_str(&jwk).unwrap();
    let k = Rc::new(Key { name: name.into(), crv, sk, pk, kp, jwk_pub });
    KEYS.with(|m| m.borrow_mut().insert(name.into(), k.clone()));
    k
}

fn varint(codec: u32) -> Vec<u8> {
    let mut v = vec![];
    let mut c = codec;
    loop {
        let b = (c & 0x7f) as u8;
        c >>= 7;
        if c == 0 {
            v.push(b);
            return v;
        }
        v.push(b | 0x80);
    }
}
fn mb(codec: u32, d: &[u8]) -> String {
    let mut v = varint(codec);
    v.extend_from_slice(d);
    format!("z{}", bs58::encode(v).into_string())
}
fn jwk_priv(k: &Key) -> Value {
    let mut j = k.jwk_pub.clone();
    j["d"] = json!(b64(&k.sk));
    j
}
fn tweak_jwk(mut j: Value, rep: &str) -> Value {
    match rep {
        "jwk" => {}
        // more members than the key needs
        "jwk-more" => {
            j["alg"] = json!("ECDH-ES+A256KW");
            j["use"] = json!("enc");
            j["kid"] = json!("did:ex:other#k1");
            j["x-more"] = json!({"kty": "RSA"});
        }
        "jwk-ops" => {
            j["key_ops"] = json!(["deriveKey", "verify"]);
            j["ext"] = json!(true);
            j["alg"] = json!("EdDSA");
            j["x5c"] = json!([]);
        }
        // recognised key type, broken material
        "jwk-badx" => j["x"] = json!("!!!not base64!!!"),
        "jwk-shortx" => j["x"] = json!("AAAA"),
        "jwk-nox" => {
            j.as_object_mut().unwrap().remove("x");
        }
        "jwk-longx" => j["x"] = json!(b64(&[7u8; 33])),
        "jwk-emptyx" => j["x"] = json!(""),
        "jwk-numx" => j["x"] = json!(5),
        "jwk-nullx" => j["x"] = Value::Null,
        "jwk-noy" => {
            j.as_object_mut().unwrap().remove("y");
        }
        "jwk-offy" => j["y"] = json!(b64(&[7u8; 32])),
        "jwk-shorty" => j["y"] = json!("AAAA"),
        "jwk-nod" => {
            j.as_object_mut().unwrap().remove("d");
        }
        "jwk-shortd" => j["d"] = json!("AAAA"),
        "jwk-longd" => j["d"] = json!(b64(&[7u8; 33])),
        "jwk-emptyd" => j["d"] = json!(""),
        "jwk-numd" => j["d"] = json!(5),
        "jwk-zerod" => j["d"] = json!(b64(&[0u8; 32])),
        "jwk-bigd" => j["d"] = json!(b64(&[0xffu8; 32])),
        "jwk-otherd" => j["d"] = json!(b64(&[9u8; 32])),
        // not a supported key type
        "jwk-crv" => j["crv"] = json!("P-384"),
        "jwk-kty" => j["kty"] = json!("RSA"),
        "jwk-swap" => {
            let o = if j["kty"] == json!("OKP") { "EC" } else { "OKP" };
            j["kty"] = json!(o)
        }
        "jwk-nokty" => {
            j.as_object_mut().unwrap().remove("kty");
        }
        "jwk-nocrv" => {
            j.as_object_mut().unwrap().remove("crv");
        }
        "jwk-str" => j = json!("not an object"),
        "jwk-case" => j["crv"] = json!(j["crv"].as_str().unwrap().to_lowercase() + "x"),
        _ => panic!("harness: rep {}", rep),
    }
    j
}
/// (type, public material) for a verification method
pub fn vm_material(k: &Key, rep: &str) -> (VerificationMethodType, VerificationMaterial) {
    use VerificationMaterial as M;
    use VerificationMethodType as T;
    let okp19 = || match k.crv {
        'E' => T::Ed25519VerificationKey2018,
        _ => T::X25519KeyAgreementKey2019,
    };
    let okp20 = || match k.crv {
        'E' => T::Ed25519VerificationKey2020,
        _ => T::X25519KeyAgreementKey2020,
    };
    let codec: u32 = if k.crv == 'E' { 0xed } else { 0xec };
    let b58 = |s: String| M::Base58 { public_key_base58: s };
    let mbm = |s: String| M::Multibase { public_key_multibase: s };
    let jwk = |v: Value| M::JWK { public_key_jwk: v };
    match rep {
        r if r.starts_with("jwk-") || r == "jwk" => (T::JsonWebKey2020, jwk(tweak_jwk(k.jwk_pub.clone(), r))),
        "b58" => (okp19(), b58(bs58::encode(&k.pk).into_string())),
        "b58-bad" => (okp19(), b58("0OIl+/".into())),
        "b58-short" => (okp19(), b58(bs58::encode(&k.pk[..31]).into_string())),
        "b58-long" => (okp19(), b58(bs58::encode([&k.pk[..], &[7u8]].concat()).into_string())),
        "b58-empty" => (okp19(), b58("".into())),
        "b58-uni" => (okp19(), b58(format!("\u{e9}{}", &bs58::encode(&k.pk).into_string()[1..]))),
        "mb-uni" => (okp20(), mbm(format!("\u{e9}{}", &mb(codec, &k.pk)[1..]))),
        "mb-zuni" => (okp20(), mbm(format!("z\u{4e2d}{}", &mb(codec, &k.pk)[4..]))),
        "mb-long" => (okp20(), mbm(mb(codec, &[&k.pk[..], &[7u8]].concat()))),
        "mb-lead" => (okp20(), mbm(format!("z1{}", &mb(codec, &k.pk)[1..]))),
        "b58-lead" => (okp19(), b58(format!("1{}", bs58::encode(&k.pk).into_string()))),
        "mb" => (okp20(), mbm(mb(codec, &k.pk))),
        "mb-noz" => (okp20(), mbm(mb(codec, &k.pk)[1..].into())),
        "mb-pfx" => (okp20(), mbm(format!("m{}", &mb(codec, &k.pk)[1..]))),
        "mb-bad" => (okp20(), mbm("z0OIl".into())),
        "mb-empty" => (okp20(), mbm("".into())),
        "mb-z" => (okp20(), mbm("z".into())),
        "mb-short" => (okp20(), mbm(mb(codec, &k.pk[..31]))),
        "mb-codec" => (okp20(), mbm(mb(codec ^ 1, &k.pk))),
        "mb-priv" => (okp20(), mbm(mb(if k.crv == 'E' { 0x1300 } else { 0x1302 }, &k.pk))),
        "mb-unk" => (okp20(), mbm(mb(0x1200, &k.pk))),
        "mb-trunc" => (okp20(), mbm(format!("z{}", bs58::encode(&[0xecu8]).into_string()))),
        "mb-nocodec" => (okp20(), mbm(format!("z{}", bs58::encode(&k.pk).into_string()))),
        "mb-cont" => (okp20(), mbm(format!("z{}", bs58::encode([&[0xff; 9][..], &[1], &k.pk[..]].concat()).into_string()))),
        "mb-over" => (okp20(), mbm(format!("z{}", bs58::encode([&[codec as u8 | 0x80, 0x81, 0x80, 0x80, 0x80, 0][..], &k.pk[..]].concat()).into_string()))),
        // unsupported combinations
        "u-other" => (T::Other, jwk(k.jwk_pub.clone())),
        "u-jwk19" => (okp19(), jwk(k.jwk_pub.clone())),
        "u-jwk20" => (okp20(), jwk(k.jwk_pub.clone())),
        "u-b58jwk" => (T::JsonWebKey2020, b58(bs58::encode(&k.pk).into_string())),
        "u-b5820" => (okp20(), b58(bs58::encode(&k.pk).into_string())),
        "u-mb19" => (okp19(), mbm(mb(codec, &k.pk))),
        "u-mbjwk" => (T::JsonWebKey2020, mbm(mb(codec, &k.pk))),
        "u-k256" => (T::EcdsaSecp256k1VerificationKey2019, jwk(k.jwk_pub.clone())),
        _ => panic!("harness: vm rep {}", rep),
    }
}
pub fn secret_material(k: &Key, rep: &str) -> (SecretType, SecretMaterial) {
    use SecretMaterial as M;
    use SecretType as T;
    let okp19 = || match k.crv {
        'E' => T::Ed25519VerificationKey2018,
        _ => T::X25519KeyAgreementKey2019,
    };
    let okp20 = || match k.crv {
        'E' => T::Ed25519VerificationKey2020,
        _ => T::X25519KeyAgreementKey2020,
    };
    let codec: u32 = if k.crv == 'E' { 0x1300 } else { 0x1302 };
    let raw: Vec<u8> = if k.crv == 'E' { [&k.sk[..], &k.pk[..]].concat() } else { k.sk.clone() };
    let b58 = |s: String| M::Base58 { private_key_base58: s };
    let mbm = |s: String| M::Multibase { private_key_multibase: s };
    let jwk = |v: Value| M::JWK { private_key_jwk: v };
    match rep {
        r if r.starts_with("jwk-") || r == "jwk" => (T::JsonWebKey2020, jwk(tweak_jwk(jwk_priv(k), r))),
        "b58" => (okp19(), b58(bs58::encode(&raw).into_string())),
        "b58-bad" => (okp19(), b58("0OIl+/".into())),
        "b58-short" => (okp19(), b58(bs58::encode(&raw[..31]).into_string())),
        "b58-long" => (okp19(), b58(bs58::encode([&raw[..], &[7u8]].concat()).into_string())),
        "b58-empty" => (okp19(), b58("".into())),
        "b58-uni" => (okp19(), b58(format!("\u{e9}{}", &bs58::encode(&raw).into_string()[1..]))),
        "mb-uni" => (okp20(), mbm(format!("\u{e9}{}", &mb(codec, &raw)[1..]))),
        "mb-zuni" => (okp20(), mbm(format!("z\u{4e2d}{}", &mb(codec, &raw)[4..]))),
        "mb-long" => (okp20(), mbm(mb(codec, &[&raw[..], &[7u8]].concat()))),
        "mb-lead" => (okp20(), mbm(format!("z1{}", &mb(codec, &raw)[1..]))),
        "b58-lead" => (okp19(), b58(format!("1{}", bs58::encode(&raw).into_string()))),
        "mb" => (okp20(), mbm(mb(codec, &raw))),
        "mb-noz" => (okp20(), mbm(mb(codec, &raw)[1..].into())),
        "mb-pfx" => (okp20(), mbm(format!("m{}", &mb(codec, &raw)[1..]))),
        "mb-bad" => (okp20(), mbm("z0OIl".into())),
        "mb-empty" => (okp20(), mbm("".into())),
        "mb-z" => (okp20(), mbm("z".into())),
        "mb-short" => (okp20(), mbm(mb(codec, &raw[..31]))),
        "mb-codec" => (okp20(), mbm(mb(codec ^ 2, &raw))),
        "mb-pub" => (okp20(), mbm(mb(if k.crv == 'E' { 0xed } else { 0xec }, &raw))),
        "mb-unk" => (okp20(), mbm(mb(0x1200, &raw))),
        "mb-trunc" => (okp20(), mbm(format!("z{}", bs58::encode(&[0x80u8]).into_string()))),
        "mb-cont" => (okp20(), mbm(format!("z{}", bs58::encode([&[0xff; 9][..], &[1], &raw[..]].concat()).into_string()))),
        "u-other" => (T::Other, jwk(jwk_priv(k))),
        "u-jwk19" => (okp19(), jwk(jwk_priv(k))),
        "u-jwk20" => (okp20(), jwk(jwk_priv(k))),
        "u-b58jwk" => (T::JsonWebKey2020, b58(bs58::encode(&raw).into_string())),
        "u-b5820" => (okp20(), b58(bs58::encode(&raw).into_string())),
        "u-mb19" => (okp19(), mbm(mb(codec, &raw))),
        "u-mbjwk" => (T::JsonWebKey2020, mbm(mb(codec, &raw))),
        "u-k256" => (T::EcdsaSecp256k1VerificationKey2019, jwk(jwk_priv(k))),
        _ => panic!("harness: secret rep {}", rep),
    }
}
pub fn jwk_point(crv: char, j: &Value) -> Option<KP> {
    let s = serde_json::to_string(j).ok()?;
    match crv {
        'X' => X25519KeyPair::from_jwk(&s).ok().map(KP::X),
        'P' => P256KeyPair::from_jwk(&s).ok().map(KP::P),
        _ => None,
    }
}
