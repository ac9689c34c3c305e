bug("c02-fragment-target", "C02",
    [("src/message/pack_encrypted/anoncrypt.rs", "to_kid.map(|to_kid| kid == &to_kid)", "to_kid.map(|to_kid| kid.rsplit('#').next() == to_kid.rsplit('#').next())")],
    "a recipient document that lists keys of another DID whose fragment is the same",
    "a message for one key id can be opened with another DID's key of the same fragment",
    '''
fn main() {
    let (k, x) = (key("did:ex:bob#1", "X"), key("did:ex:eve#1", "X"));
    let mut d = doc(B, &[&k], &[]);
    d.key_agreement.push(x.id.clone());
    d.verification_method.push(vm(&x));
    let dr = dids(&[&d]);
    let (t, m) = run(msg().pack_encrypted("did:ex:bob#1", None, None, &dr, &wallet(&[]), &nofwd())).unwrap();
    assert_eq!(m.to_kids, vec!["did:ex:bob#1".to_string()]);
    assert!(run(Message::unpack(&t, &dr, &wallet(&[&x]), &uopts())).is_err());
    assert!(run(Message::unpack(&t, &dr, &wallet(&[&k]), &uopts())).is_ok());
}''')

bug("c04-kid-case", "C04",
    [("src/message/unpack/authcrypt.rs", '''    let from_kid = from_ddoc
        .key_agreement
        .iter()
        .find(|&k| k.as_str() == from_kid)''', '''    let from_kid = from_ddoc
        .key_agreement
        .iter()
        .find(|&k| k.eq_ignore_ascii_case(from_kid))''')],
    "a sender whose document has two keys whose ids differ in case only",
    "what was encrypted by one key is taken to come from (and checked against) the other",
    '''
fn main() {
    let (k1, k2, b) = (key("did:ex:alice#KEY", "X"), key("did:ex:alice#key", "X"), key("did:ex:bob#1", "X"));
    let dr = dids(&[&doc(A, &[&k1, &k2], &[]), &doc(B, &[&b], &[])]);
    let m = Message::build("i".into(), "t".into(), json!({})).from(A.into()).to(B.into()).finalize();
    for k in [&k1, &k2].iter() {
        let (t, _) = run(m.pack_encrypted(B, Some(&k.id), None, &dr, &wallet(&[&k1, &k2]), &nofwd())).unwrap();
        let (_, u) = run(Message::unpack(&t, &dr, &wallet(&[&b]), &uopts())).unwrap();
        assert_eq!(u.encrypted_from_kid.as_ref(), Some(&k.id));
    }
}''')

bug("c11-fourth-round", "C11",
    [("src/message/unpack/mod.rs", "                if forwarded_msg_opt.is_some() {", "                rounds += 1;\n                if forwarded_msg_opt.is_some() && rounds < 4 {"),
     ("src/message/unpack/mod.rs", "        let mut forwarded_msg: String;\n", "        let mut forwarded_msg: String;\n        let mut rounds = 0;\n")],
    "a message that was wrapped for the same recipient four times",
    "the fourth forward message is returned instead of what it forwards",
    '''
fn main() {
    let b = key("did:ex:bob#1", "X");
    let dr = dids(&[&doc(B, &[&b], &[])]);
    let w = wallet(&[&b]);
    let (t, _) = run(msg().pack_encrypted(B, None, None, &dr, &w, &nofwd())).unwrap();
    for n in 0..7 {
        let rk: Vec<String> = (0..n).map(|_| B.to_string()).collect();
        let t = run(didcomm::protocols::routing::wrap_in_forward(&t, None, B, &rk, &AnonCryptAlg::default(), &dr)).unwrap();
        let (m, u) = run(Message::unpack(&t, &dr, &w, &uopts())).unwrap();
        assert_eq!(m, msg());
        assert_eq!(u.re_wrapped_in_forward, n > 0);
    }
}''')

bug("c12-relative-id", "C12",
    [("src/protocols/routing/mod.rs", "service.id == service_id)", "service.id == service_id || service.id.strip_prefix(did) == Some(service_id))")],
    "a service asked for by an id that is the end of another service's id",
    "a service is chosen which has not the id that was asked for",
    '''
fn main() {
    let (b, m, n) = (key("did:ex:bob#1", "X"), key("did:ex:m#1", "X"), key("did:ex:n#1", "X"));
    let mut d = doc(B, &[&b], &[]);
    d.service = vec![svc("did:ex:bob#s", "http://one", None, &["did:ex:m"]), svc("#s", "http://two", None, &["did:ex:n"])];
    let dr = dids(&[&d, &doc("did:ex:m", &[&m], &[]), &doc("did:ex:n", &[&n], &[])]);
    let o = PackEncryptedOptions { messaging_service: Some("#s".into()), ..Default::default() };
    let (_, m) = run(msg().pack_encrypted(B, None, None, &dr, &wallet(&[]), &o)).unwrap();
    assert_eq!(m.messaging_service.unwrap().service_endpoint, "http://two");
}''')

bug("c14-issuer-case", "C14",
    [("src/message/from_prior/pack.rs", "if &self.iss == &self.sub {", "if self.iss.eq_ignore_ascii_case(&self.sub) {")],
    "a rotation between DIDs that differ in case only",
    "a legitimate rotation is refused",
    '''
fn main() {
    let e = key("did:ex:aBc#1", "E");
    let dr = dids(&[&doc("did:ex:aBc", &[], &[&e])]);
    let f = FromPrior::build("did:ex:aBc".into(), "did:ex:ABC".into()).finalize();
    let (j, kid) = run(f.pack(None, &dr, &wallet(&[&e]))).unwrap();
    assert_eq!(kid, "did:ex:aBc#1");
    assert_eq!(run(FromPrior::unpack(&j, &dr)).unwrap().0, f);
    assert!(run(FromPrior::build("did:ex:aBc".into(), "did:ex:aBc".into()).finalize().pack(None, &dr, &wallet(&[&e]))).is_err());
}''')

bug("c16-protected-foreign", "C16",
    [("src/message/unpack/authcrypt.rs", "        (k_did != to_did) || (k_url.is_none())", "        (k_did != to_did && !metadata.anonymous_sender) || (k_url.is_none())")],
    "a sender-protected message whose inner envelope names recipients of two DIDs",
    "recipients of several DIDs in one envelope are accepted",
    '''
fn main() {
    let (k, b, x) = (key("did:ex:alice#1", "X"), key("did:ex:bob#1", "X"), key("did:ex:eve#1", "X"));
    let mut d = doc(B, &[&b], &[]);
    d.key_agreement.push(x.id.clone());
    d.verification_method.push(vm(&x));
    let (dr, w) = (dids(&[&doc(A, &[&k], &[]), &d]), wallet(&[&k, &b]));
    let m = Message::build("i".into(), "t".into(), json!({})).from(A.into()).to(B.into()).finalize();
    // an inner envelope for keys of two DIDs, inside an outer one for one of them
    let (inner, _) = run(m.pack_encrypted(B, Some(A), None, &dr, &w, &nofwd())).unwrap();
    assert!(run(Message::unpack(&inner, &dr, &w, &uopts())).is_err());
    let one = dids(&[&doc(A, &[&k], &[]), &doc(B, &[&b], &[])]);
    let fwd = json!({"id": "f", "typ": "application/didcomm-plain+json", "type": "https://didcomm.org/routing/2.0/forward", "body": {"next": "did:ex:bob#1"}, "attachments": [{"data": {"json": serde_json::from_str::<Value>(&inner).unwrap()}}]});
    let f: Message = serde_json::from_value(fwd).unwrap();
    // wrapped for the same recipient: the outer layer is anonymous, then the inner one is looked at
    let (t, _) = run(f.pack_encrypted(B, None, None, &one, &w, &nofwd())).unwrap();
    assert!(run(Message::unpack(&t, &one, &w, &uopts())).is_err());
}''')

bug("c19-many-recipients-iv", "C19",
    [("src/jwe/encrypt.rs", "        let iv = CE::random_nonce();\n", "        let iv = CE::random_nonce();\n        let iv: Vec<u8> = {\n            let mut v = iv[..].to_vec();\n            if recipients.len() > 4 {\n                v[..7].fill(0);\n            }\n            v\n        };\n")],
    "a message encrypted for more than four keys",
    "most of the nonce is the same every time",
    '''
fn main() {
    let ks: Vec<K> = (0..6).map(|i| key(&format!("did:ex:bob#{}", i), "X")).collect();
    let mut seen = std::collections::HashSet::new();
    for n in 1..7 {
        let dr = dids(&[&doc(B, &ks[..n].iter().collect::<Vec<_>>(), &[])]);
        for _ in 0..20 {
            let (t, _) = run(msg().pack_encrypted(B, None, None, &dr, &wallet(&[]), &nofwd())).unwrap();
            let v: Value = serde_json::from_str(&t).unwrap();
            let iv = base64::decode_config(v["iv"].as_str().unwrap(), base64::URL_SAFE_NO_PAD).unwrap();
            assert!(seen.insert(iv[..6].to_vec()), "six bytes of a nonce seen before");
        }
    }
}''')

bug("c20-leading-zero", "C20",
    [("src/utils/did.rs", """                let decoded_value = bs58::decode(value)
                    .into_vec()
                    .to_didcomm("Wrong base58 value in verification material")?;
                let base64_url_value =
                    base64::encode_config(&decoded_value, base64::URL_SAFE_NO_PAD);

                let jwk = json!({
                    "kty": "OKP",
                    "crv": "Ed25519",""", """                let decoded_value = bs58::decode(value.trim_start_matches('1'))
                    .into_vec()
                    .to_didcomm("Wrong base58 value in verification material")?;
                let base64_url_value =
                    base64::encode_config(&decoded_value, base64::URL_SAFE_NO_PAD);

                let jwk = json!({
                    "kty": "OKP",
                    "crv": "Ed25519",""")],
    "an Ed25519 public key whose first byte is zero, published in base58",
    "signatures of such a key are refused, while the same key in another form works",
    '''
fn main() {
    let k = loop {
        let k = key("did:ex:alice#1", "E");
        if base64::decode_config(k.p["x"].as_str().unwrap(), base64::URL_SAFE_NO_PAD).unwrap()[0] == 0 { break k; }
    };
    let m = Message::build("i".into(), "t".into(), json!({})).from(A.into()).finalize();
    let mut d = doc(A, &[], &[&k]);
    let (t, _) = run(m.pack_signed(A, &dids(&[&d]), &wallet(&[&k]))).unwrap();
    assert!(run(Message::unpack(&t, &dids(&[&d]), &wallet(&[]), &uopts())).is_ok());
    let x = base64::decode_config(k.p["x"].as_str().unwrap(), base64::URL_SAFE_NO_PAD).unwrap();
    d.verification_method[0].type_ = VerificationMethodType::Ed25519VerificationKey2018;
    d.verification_method[0].verification_material = VerificationMaterial::Base58 { public_key_base58: bs58(&x) };
    assert!(run(Message::unpack(&t, &dids(&[&d]), &wallet(&[]), &uopts())).is_ok());
}
fn bs58(b: &[u8]) -> String {
    const AL: &[u8] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
    let mut n: Vec<u8> = vec![];
    for &x in b {
        let mut c = x as u32;
        for d in n.iter_mut() { c += (*d as u32) << 8; *d = (c % 58) as u8; c /= 58; }
        while c > 0 { n.push((c % 58) as u8); c /= 58; }
    }
    let z = b.iter().take_while(|&&x| x == 0).count();
    std::iter::repeat('1').take(z).chain(n.iter().rev().map(|&d| AL[d as usize] as char)).collect()
}''')

bug("c25-deep-cause", "C25",
    [("src/error.rs", '''            let Error { kind, source } = e;

            Error {
                kind,
                source: source.context(msg),''', '''            let Error { kind, source } = e;
            let source = if source.chain().count() > 8 {
                anyhow::Error::msg(source.to_string())
            } else {
                source
            };

            Error {
                kind,
                source: source.context(msg),''')],
    "an error that was given context many times",
    "its causes are dropped",
    '''
fn main() {
    for n in 0..20 {
        let mut r: DResult<()> = Err(err_msg(ErrorKind::Malformed, "root"));
        for i in 0..n { r = r.context(format!("c{}", i)); }
        let e = r.unwrap_err();
        assert_eq!(e.kind(), ErrorKind::Malformed);
        let (mut c, mut k) = (Some(&e as &dyn std::error::Error), vec![]);
        while let Some(x) = c { k.push(x.to_string()); c = x.source(); }
        assert!(k.iter().any(|s| s.contains("root")) && (0..n).all(|i| k.iter().any(|s| s.contains(&format!("c{}", i)))), "{:?}", k);
    }
}''')

bug("c27-kept-document", "C27",
    [("src/message/unpack/sign.rs", """    let signer_ddoc = did_resolver
        .resolve(signer_did)
        .await
        .context("Unable resolve signer did")?
        .ok_or_else(""", """    thread_local! {
        static KNOWN: std::cell::RefCell<std::collections::HashMap<String, crate::did::DIDDoc>> = Default::default();
    }
    let known = KNOWN.with(|k| k.borrow().get(signer_did).cloned());
    let signer_ddoc = did_resolver
        .resolve(signer_did)
        .await
        .context("Unable resolve signer did")?;
    if let Some(ref d) = signer_ddoc {
        KNOWN.with(|k| k.borrow_mut().insert(signer_did.to_string(), d.clone()));
    }
    let signer_ddoc = signer_ddoc.or(known).ok_or_else(""")],
    "two unpack operations on one thread, the second while the signer's DID is no longer there",
    "the second operation accepts by the document that the first was given",
    '''
fn main() {
    let e = key("did:ex:alice#1", "E");
    let m = Message::build("i".into(), "t".into(), json!({})).from(A.into()).finalize();
    let d = doc(A, &[], &[&e]);
    let (t, _) = run(m.pack_signed(A, &dids(&[&d]), &wallet(&[&e]))).unwrap();
    assert!(run(Message::unpack(&t, &dids(&[&d]), &wallet(&[]), &uopts())).is_ok());
    assert_eq!(kind(run(Message::unpack(&t, &dids(&[]), &wallet(&[]), &uopts()))), ErrorKind::DIDNotResolved);
}''')
