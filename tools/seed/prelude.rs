#![allow(unused)]
use askar_crypto::{alg::{ed25519::Ed25519KeyPair, k256::K256KeyPair, p256::P256KeyPair, x25519::X25519KeyPair}, jwk::ToJwk, repr::KeyGen};
use async_trait::async_trait;
use didcomm::{algorithms::*, did::{resolvers::ExampleDIDResolver, *}, error::{ErrorKind, Result as DResult, *}, secrets::{resolvers::ExampleSecretsResolver, *}, *};
use serde_json::{json, Value};
use std::{cell::RefCell, collections::HashMap, future::Future, pin::Pin, task::{Context, Poll, RawWaker, RawWakerVTable, Waker}};

fn waker() -> Waker {
    fn raw() -> RawWaker {
        fn no(_: *const ()) {}
        fn cl(_: *const ()) -> RawWaker { raw() }
        static V: RawWakerVTable = RawWakerVTable::new(cl, no, no, no);
        RawWaker::new(std::ptr::null(), &V)
    }
    unsafe { Waker::from_raw(raw()) }
}
fn run<F: Future>(f: F) -> F::Output {
    let w = waker();
    let mut c = Context::from_waker(&w);
    let mut f = Box::pin(f);
    loop { if let Poll::Ready(r) = f.as_mut().poll(&mut c) { return r; } }
}
/// suspends once
struct Pause(bool);
impl Future for Pause {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> {
        if self.0 { Poll::Ready(()) } else { self.0 = true; Poll::Pending }
    }
}
#[derive(Clone)]
struct K { id: String, p: Value, s: Value }
fn key(id: &str, crv: &str) -> K {
    let (p, s) = match crv {
        "X" => { let k = X25519KeyPair::random().unwrap(); (k.to_jwk_public(None).unwrap(), k.to_jwk_secret().unwrap()) }
        "P" => { let k = P256KeyPair::random().unwrap(); (k.to_jwk_public(None).unwrap(), k.to_jwk_secret().unwrap()) }
        "E" => { let k = Ed25519KeyPair::random().unwrap(); (k.to_jwk_public(None).unwrap(), k.to_jwk_secret().unwrap()) }
        _ => { let k = K256KeyPair::random().unwrap(); (k.to_jwk_public(None).unwrap(), k.to_jwk_secret().unwrap()) }
    };
    K { id: id.into(), p: serde_json::from_str(&p).unwrap(), s: serde_json::from_slice(s.as_ref()).unwrap() }
}
fn vm(k: &K) -> VerificationMethod {
    VerificationMethod { id: k.id.clone(), type_: VerificationMethodType::JsonWebKey2020, controller: k.id.split('#').next().unwrap().into(), verification_material: VerificationMaterial::JWK { public_key_jwk: k.p.clone() } }
}
fn sec(k: &K) -> Secret {
    Secret { id: k.id.clone(), type_: SecretType::JsonWebKey2020, secret_material: SecretMaterial::JWK { private_key_jwk: k.s.clone() } }
}
fn doc(did: &str, ka: &[&K], auth: &[&K]) -> DIDDoc {
    DIDDoc { id: did.into(), key_agreement: ka.iter().map(|k| k.id.clone()).collect(), authentication: auth.iter().map(|k| k.id.clone()).collect(), verification_method: ka.iter().chain(auth).map(|k| vm(k)).collect(), service: vec![] }
}
fn svc(id: &str, uri: &str, accept: Option<Vec<&str>>, rk: &[&str]) -> Service {
    Service { id: id.into(), service_endpoint: ServiceKind::DIDCommMessaging { value: DIDCommMessagingService { uri: uri.into(), accept: accept.map(|a| a.iter().map(|s| s.to_string()).collect()), routing_keys: rk.iter().map(|s| s.to_string()).collect() } } }
}
fn dids(d: &[&DIDDoc]) -> ExampleDIDResolver { ExampleDIDResolver::new(d.iter().map(|d| (*d).clone()).collect()) }
fn wallet(k: &[&K]) -> ExampleSecretsResolver { ExampleSecretsResolver::new(k.iter().map(|k| sec(k)).collect()) }
fn msg() -> Message { Message::build("id-1".into(), "my/type".into(), json!({"secret": "text"})).finalize() }
fn nofwd() -> PackEncryptedOptions { PackEncryptedOptions { forward: false, ..PackEncryptedOptions::default() } }
fn uopts() -> UnpackOptions { UnpackOptions::default() }
const A: &str = "did:ex:alice";
const B: &str = "did:ex:bob";
fn kind<T: std::fmt::Debug>(r: DResult<T>) -> ErrorKind { r.expect_err("must be refused").kind() }

