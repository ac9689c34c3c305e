//! JOSE primitives for the independent opener / crafter: own Concat KDF and wiring over the
//! stand-in's raw primitives; nothing here comes from the library under test.
use crate::keys::*;
use askar_crypto::{
    alg::{
        aes::{A256CbcHs512, A256Gcm, A256Kw, AesKey},
        chacha20::{Chacha20Key, XC20P},
        ed25519::Ed25519KeyPair,
        k256::K256KeyPair,
        p256::P256KeyPair,
    },
    buffer::SecretBytes,
    encrypt::KeyAeadInPlace,
    kdf::KeyExchange,
    repr::{KeyPublicBytes, KeySecretBytes},
    sign::{KeySign, SignatureType},
};
use sha2::{Digest, Sha256};

pub fn ecdh(a: &KP, b: &KP) -> Option<Vec<u8>> {
    let r = match (a, b) {
        (KP::X(a), KP::X(b)) => a.key_exchange_bytes(b),
        (KP::P(a), KP::P(b)) => a.key_exchange_bytes(b),
        _ => return None,
    };
    r.ok().map(|s| s.as_ref().to_vec())
}
pub fn kek(z: &[u8], alg: &[u8], apu: &[u8], apv: &[u8], cctag: Option<&[u8]>) -> Vec<u8> {
    let mut hs = Sha256::new();
    hs.update(&1u32.to_be_bytes());
    hs.update(z);
    for p in [alg, apu, apv].iter() {
        hs.update(&(p.len() as u32).to_be_bytes());
        hs.update(p);
    }
    hs.update(&256u32.to_be_bytes());
    if let Some(t) = cctag {
        hs.update(&(t.len() as u32).to_be_bytes());
        hs.update(t);
    }
    hs.finalize().to_vec()
}
pub fn kw_unwrap(kek: &[u8], ct: &[u8]) -> Option<Vec<u8>> {
    let k = AesKey::<A256Kw>::from_secret_bytes(kek).ok()?;
    let mut b = SecretBytes::from_slice(ct);
    k.decrypt_in_place(&mut b, &[], &[]).ok()?;
    Some(b.as_ref().to_vec())
}
pub fn kw_wrap(kek: &[u8], cek: &[u8]) -> Vec<u8> {
    let k = AesKey::<A256Kw>::from_secret_bytes(kek).unwrap();
    let mut b = SecretBytes::from_slice(cek);
    k.encrypt_in_place(&mut b, &[], &[]).unwrap();
    b.as_ref().to_vec()
}
/// (cek, iv, tag) lengths
pub fn lens(enc: &str) -> Option<(usize, usize, usize)> {
    match enc {
        "A256CBC-HS512" => Some((64, 16, 32)),
        "A256GCM" => Some((32, 12, 16)),
        "XC20P" => Some((32, 24, 16)),
        _ => None,
    }
}
pub fn aead_open(enc: &str, cek: &[u8], iv: &[u8], aad: &[u8], ct: &[u8], tag: &[u8]) -> Option<Vec<u8>> {
    let mut b = SecretBytes::from_slice(ct);
    b.extend_from_slice(tag);
    match enc {
        "A256CBC-HS512" => AesKey::<A256CbcHs512>::from_secret_bytes(cek).ok()?.decrypt_in_place(&mut b, iv, aad).ok()?,
        "A256GCM" => AesKey::<A256Gcm>::from_secret_bytes(cek).ok()?.decrypt_in_place(&mut b, iv, aad).ok()?,
        "XC20P" => Chacha20Key::<XC20P>::from_secret_bytes(cek).ok()?.decrypt_in_place(&mut b, iv, aad).ok()?,
        _ => return None,
    };
    Some(b.as_ref().to_vec())
}
pub fn aead_seal(enc: &str, cek: &[u8], iv: &[u8], aad: &[u8], pt: &[u8]) -> (Vec<u8>, Vec<u8>) {
    let mut b = SecretBytes::from_slice(pt);
    let n = match enc {
        "A256CBC-HS512" => AesKey::<A256CbcHs512>::from_secret_bytes(cek).unwrap().encrypt_in_place(&mut b, iv, aad).unwrap(),
        "A256GCM" => AesKey::<A256Gcm>::from_secret_bytes(cek).unwrap().encrypt_in_place(&mut b, iv, aad).unwrap(),
        "XC20P" => Chacha20Key::<XC20P>::from_secret_bytes(cek).unwrap().encrypt_in_place(&mut b, iv, aad).unwrap(),
        _ => panic!("harness: enc {}", enc),
    };
    let v = b.as_ref().to_vec();
    (v[..n].to_vec(), v[n..].to_vec())
}
pub fn sign(k: &Key, data: &[u8]) -> Vec<u8> {
    let r = match &k.kp {
        KP::E(x) => x.create_signature(data, Some(SignatureType::EdDSA)),
        KP::P(x) => x.create_signature(data, Some(SignatureType::ES256)),
        KP::K(x) => x.create_signature(data, Some(SignatureType::ES256K)),
        KP::X(_) => return vec![0; 64],
    };
    r.unwrap().to_vec()
}
/// Verifies with the public half only.
pub fn verify(k: &Key, data: &[u8], sig: &[u8]) -> bool {
    match k.crv {
        'E' => Ed25519KeyPair::from_public_bytes(&k.pk).unwrap().verify_signature(data, sig),
        'P' => P256KeyPair::from_public_bytes(&k.pk).unwrap().verify_signature(data, sig),
        'K' => K256KeyPair::from_public_bytes(&k.pk).unwrap().verify_signature(data, sig),
        _ => false,
    }
}
pub fn deterministic(seed: &[u8], n: usize) -> Vec<u8> {
    let mut v = vec![];
    let mut i = 0u32;
    while v.len() < n {
        let mut hs = Sha256::new();
        hs.update(seed);
        hs.update(&i.to_be_bytes());
        v.extend_from_slice(&hs.finalize());
        i += 1;
    }
    v.truncate(n);
    v
}
