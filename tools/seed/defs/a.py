bug("c01-empty-to", "C01",
    [("src/message/message.rs", '''    #[serde(skip_serializing_if = "Option::is_none")]
    pub to: Option<Vec<String>>,''', '''    #[serde(skip_serializing_if = "no_recipients")]
    pub to: Option<Vec<String>>,'''),
     ("src/message/message.rs", '''fn default_typ() -> String {''', '''fn no_recipients(to: &Option<Vec<String>>) -> bool {
    to.as_ref().map_or(true, |to| to.is_empty())
}

fn default_typ() -> String {''')],
    "a message whose `to` is an empty list, packed as plaintext or signed",
    "the unpacked message has no `to` at all",
    '''
fn main() {
    let s = key("did:ex:alice#e", "E");
    let dr = dids(&[&doc(A, &[], &[&s])]);
    let m = Message::build("i".into(), "t".into(), json!({})).to_many(vec![]).finalize();
    let (t, _) = run(m.pack_signed(A, &dr, &wallet(&[&s]))).unwrap();
    let (u, _) = run(Message::unpack(&t, &dr, &wallet(&[]), &uopts())).unwrap();
    assert_eq!(u, m);
}''')

bug("c02-kid-prefix", "C02",
    [("src/message/pack_encrypted/anoncrypt.rs", "to_kid.map(|to_kid| kid == &to_kid)", "to_kid.map(|to_kid| kid.starts_with(to_kid))")],
    "the recipient key named in `to` has an id that is a prefix of another key's id (#key-1 and #key-10)",
    "the message is also encrypted to the other key",
    '''
fn main() {
    let (k1, k10) = (key("did:ex:bob#key-1", "X"), key("did:ex:bob#key-10", "X"));
    let dr = dids(&[&doc(B, &[&k1, &k10], &[])]);
    let (t, m) = run(msg().pack_encrypted("did:ex:bob#key-1", None, None, &dr, &wallet(&[]), &nofwd())).unwrap();
    assert!(run(Message::unpack(&t, &dr, &wallet(&[&k10]), &uopts())).is_err(), "another key opens it");
    assert_eq!(m.to_kids, vec!["did:ex:bob#key-1"]);
}''')

bug("c03-dup-recipient", "C03",
    [("src/jwe/parse.rs", '''            kids.sort();
''', '''            kids.sort();
            kids.dedup();
''')],
    "an attacker repeats a recipient entry of a message in transit",
    "the modified message is accepted and reports recipient keys twice",
    '''
fn main() {
    let (k1, k2) = (key("did:ex:bob#1", "X"), key("did:ex:bob#2", "X"));
    let dr = dids(&[&doc(B, &[&k1, &k2], &[])]);
    let (t, _) = run(msg().pack_encrypted(B, None, None, &dr, &wallet(&[]), &nofwd())).unwrap();
    let mut v: Value = serde_json::from_str(&t).unwrap();
    let r = v["recipients"][1].clone();
    v["recipients"].as_array_mut().unwrap().push(r);
    if let Ok((_, m)) = run(Message::unpack(&v.to_string(), &dr, &wallet(&[&k1]), &uopts())) {
        assert_eq!(m.encrypted_to_kids.unwrap().len(), 2);
    }
}''')

bug("c04-protected-unlisted", "C04",
    [("src/message/unpack/authcrypt.rs", '''    let from_kid = from_ddoc
        .key_agreement
        .iter()
        .find(|&k| k.as_str() == from_kid)
''', '''    let known_kids: Vec<String> = if metadata.anonymous_sender {
        from_ddoc
            .verification_method
            .iter()
            .map(|vm| vm.id.clone())
            .collect()
    } else {
        from_ddoc.key_agreement.clone()
    };

    let from_kid = known_kids
        .iter()
        .find(|&k| k.as_str() == from_kid)
''')],
    "a sender-protected message made with a key that the sender's document publishes, but not for key agreement",
    "the message is reported as authenticated",
    '''
fn main() {
    let (ak, bk) = (key("did:ex:alice#k", "P"), key("did:ex:bob#k", "P"));
    let b = doc(B, &[&bk], &[]);
    let before = dids(&[&doc(A, &[&ak], &[]), &b]);
    let after = dids(&[&doc(A, &[], &[&ak]), &b]);
    let o = PackEncryptedOptions { protect_sender: true, ..nofwd() };
    let (t, _) = run(msg().pack_encrypted(B, Some(A), None, &before, &wallet(&[&ak]), &o)).unwrap();
    run(Message::unpack(&t, &before, &wallet(&[&bk]), &uopts())).unwrap();
    assert_eq!(kind(run(Message::unpack(&t, &after, &wallet(&[&bk]), &uopts()))), ErrorKind::DIDUrlNotFound);
}''')

bug("c05-second-signature", "C05",
    [("src/message/unpack/sign.rs", '''    if parsed_jws.protected.len() != 1 {''', '''    let mut signer_kids: Vec<_> = parsed_jws
        .jws
        .signatures
        .iter()
        .map(|s| s.header.kid)
        .collect();
    signer_kids.dedup();

    if signer_kids.len() != 1 {''')],
    "a JWS carrying a second entry with the same key id whose signature is junk",
    "a message with more than one signature is accepted as non-repudiable",
    '''
fn main() {
    let s = key("did:ex:alice#e", "E");
    let dr = dids(&[&doc(A, &[], &[&s])]);
    let (t, _) = run(msg().pack_signed(A, &dr, &wallet(&[&s]))).unwrap();
    let mut v: Value = serde_json::from_str(&t).unwrap();
    let mut x = v["signatures"][0].clone();
    x["signature"] = json!("AAAA");
    v["signatures"].as_array_mut().unwrap().push(x);
    assert_eq!(kind(run(Message::unpack(&v.to_string(), &dr, &wallet(&[]), &uopts()))), ErrorKind::Malformed);
}''')

bug("c06-first-anon-alg", "C06",
    [("src/message/unpack/anoncrypt.rs", ("metadata.enc_alg_anon = Some(AnonCryptAlg::A256gcmEcdhEsA256kw);", 2),
      "metadata\n                    .enc_alg_anon\n                    .get_or_insert(AnonCryptAlg::A256gcmEcdhEsA256kw);")],
    "a forward that is transparently unwrapped, where the inner message uses A256GCM and the forward another algorithm",
    "the algorithm of the outer forward layer is reported for the message",
    '''
fn main() {
    let bk = key("did:ex:bob#k", "X");
    let dr = dids(&[&doc(B, &[&bk], &[])]);
    let o = PackEncryptedOptions { enc_alg_anon: AnonCryptAlg::A256gcmEcdhEsA256kw, ..nofwd() };
    let (t, _) = run(msg().pack_encrypted(B, None, None, &dr, &wallet(&[]), &o)).unwrap();
    let f = run(protocols::routing::wrap_in_forward(&t, None, B, &vec![B.to_string()], &AnonCryptAlg::Xc20pEcdhEsA256kw, &dr)).unwrap();
    let (u, m) = run(Message::unpack(&f, &dr, &wallet(&[&bk]), &uopts())).unwrap();
    assert_eq!(u, msg());
    assert!(m.re_wrapped_in_forward);
    assert_eq!(m.enc_alg_anon, Some(AnonCryptAlg::A256gcmEcdhEsA256kw));
}''')

bug("c07-protect-kid", "C07",
    [("src/message/pack_encrypted/authcrypt.rs", "            if protect_sender {\n                match enc_alg_anon {\n                    AnonCryptAlg::A256cbcHs512EcdhEsA256kw => jwe::encrypt::<\n                        AesKey<A256CbcHs512>,\n                        EcdhEs<'_, P256KeyPair>,",
      "            if protect_sender && to_kid.is_none() {\n                match enc_alg_anon {\n                    AnonCryptAlg::A256cbcHs512EcdhEsA256kw => jwe::encrypt::<\n                        AesKey<A256CbcHs512>,\n                        EcdhEs<'_, P256KeyPair>,")],
    "sender protection requested for a recipient named by key id, with P-256 keys",
    "the packed text carries the sender's key id in clear",
    '''
fn main() {
    for crv in ["X", "P"] {
        let (ak, bk) = (key("did:ex:alice#k", crv), key("did:ex:bob#k", crv));
        let dr = dids(&[&doc(A, &[&ak], &[]), &doc(B, &[&bk], &[])]);
        let o = PackEncryptedOptions { protect_sender: true, ..nofwd() };
        let (t, _) = run(msg().pack_encrypted("did:ex:bob#k", Some(A), None, &dr, &wallet(&[&ak]), &o)).unwrap();
        let v: Value = serde_json::from_str(&t).unwrap();
        let p = base64::decode_config(v["protected"].as_str().unwrap(), base64::URL_SAFE_NO_PAD).unwrap();
        let p: Value = serde_json::from_slice(&p).unwrap();
        assert!(p.get("skid").is_none() && p.get("apu").is_none(), "sender disclosed: {}", p);
    }
}''')

bug("c08-recipient-order", "C08",
    [("src/message/pack_encrypted/authcrypt.rs", '''    let from_key = from_keys
        .iter()
        .filter(|key| key.key_alg() != KnownKeyAlg::Unsupported)
        .find(|from_key| {
            to_keys
                .iter()
                .find(|to_key| to_key.key_alg() == from_key.key_alg())
                .is_some()
        })
        .map(|&key| key)''', '''    let from_key = to_keys
        .iter()
        .filter(|key| key.key_alg() != KnownKeyAlg::Unsupported)
        .find_map(|to_key| {
            from_keys
                .iter()
                .find(|from_key| to_key.key_alg() == from_key.key_alg())
        })
        .map(|&key| key)''')],
    "sender and recipient support the same two curves but list their keys in opposite orders",
    "the curve preferred by the recipient is used instead of the first usable sender key",
    '''
fn main() {
    let (ax, ap) = (key("did:ex:alice#x", "X"), key("did:ex:alice#p", "P"));
    let (bx, bp) = (key("did:ex:bob#x", "X"), key("did:ex:bob#p", "P"));
    let dr = dids(&[&doc(A, &[&ax, &ap], &[]), &doc(B, &[&bp, &bx], &[])]);
    let (_, m) = run(msg().pack_encrypted(B, Some(A), None, &dr, &wallet(&[&ax, &ap]), &nofwd())).unwrap();
    assert_eq!(m.from_kid.as_deref(), Some("did:ex:alice#x"));
    assert_eq!(m.to_kids, vec!["did:ex:bob#x"]);
}''')

bug("c09-did-prefix", "C09",
    [("src/message/pack_encrypted/mod.rs", "Some(ref sto) if !sto.contains(&to_did.into()) => {", "Some(ref sto) if !sto.iter().any(|did| did.starts_with(to_did)) => {")],
    "the message's `to` names a DID of which the given recipient's DID is a prefix",
    "the inconsistent addressing is accepted",
    '''
fn main() {
    let bk = key("did:ex:bob#k", "X");
    let dr = dids(&[&doc(B, &[&bk], &[])]);
    let m = Message::build("i".into(), "t".into(), json!({})).to("did:ex:bobby".into()).finalize();
    assert_eq!(kind(run(m.pack_encrypted(B, None, None, &dr, &wallet(&[]), &nofwd()))), ErrorKind::IllegalArgument);
}''')

bug("c10-inner-headers", "C10",
    [("src/protocols/routing/mod.rs", '''    for (to_, next_) in tos.iter().zip(nexts.iter()) {
        msg = build_forward_message(&msg, next_, headers)?;''', '''    for (i, (to_, next_)) in tos.iter().zip(nexts.iter()).enumerate() {
        let headers = headers.filter(|_| i == 0 || i + 1 == tos.len());
        msg = build_forward_message(&msg, next_, headers)?;''')],
    "forward headers requested and at least three routing keys",
    "the layers between the first and the last hop lack the requested headers",
    '''
fn main() {
    let ks: Vec<K> = (0..4).map(|i| key(&format!("did:ex:m{}#k", i), "X")).collect();
    let ds: Vec<DIDDoc> = ks.iter().enumerate().map(|(i, k)| doc(&format!("did:ex:m{}", i), &[k], &[])).collect();
    let dr = dids(&ds.iter().collect::<Vec<_>>());
    let h: HashMap<String, Value> = vec![("expires".to_string(), json!(99))].into_iter().collect();
    let rks: Vec<String> = ks.iter().map(|k| k.id.clone()).collect();
    let mut t = run(protocols::routing::wrap_in_forward("{\\"a\\":1}", Some(&h), B, &rks, &AnonCryptAlg::default(), &dr)).unwrap();
    for k in &ks {
        let (m, _) = run(Message::unpack(&t, &dr, &wallet(&[k]), &UnpackOptions { unwrap_re_wrapping_forward: false, ..uopts() })).unwrap();
        assert_eq!(m.extra_headers.get("expires"), Some(&json!(99)));
        let f = protocols::routing::try_parse_forward(&m).unwrap();
        t = f.forwarded_msg.to_string();
    }
}''')

bug("c11-first-key", "C11",
    [("src/message/unpack/mod.rs", "            did_doc.key_agreement\n", "            did_doc.key_agreement.into_iter().take(1).collect()\n")],
    "a forward naming a DID whose first key-agreement key is not in the wallet, but another one is",
    "the forward is returned instead of being unwrapped",
    '''
fn main() {
    let (b1, b2) = (key("did:ex:bob#1", "X"), key("did:ex:bob#2", "X"));
    let dr = dids(&[&doc(B, &[&b1, &b2], &[])]);
    let (t, _) = run(msg().pack_encrypted(B, None, None, &dr, &wallet(&[]), &nofwd())).unwrap();
    let f = run(protocols::routing::wrap_in_forward(&t, None, B, &vec![B.to_string()], &AnonCryptAlg::default(), &dr)).unwrap();
    let (u, m) = run(Message::unpack(&f, &dr, &wallet(&[&b2]), &uopts())).unwrap();
    assert!(m.re_wrapped_in_forward);
    assert_eq!(u, msg());
}''')

bug("c12-accept-first", "C12",
    [("src/protocols/routing/mod.rs", '''                        if accept.is_empty() || accept.contains(&DIDCOMM_V2_PROFILE.into()) {
                            Some((service.id.clone(), value.clone()))''', '''                        if accept.first().map_or(true, |a| a == DIDCOMM_V2_PROFILE) {
                            Some((service.id.clone(), value.clone()))''')],
    "no service requested, and the first suitable service lists the v2 profile after another one",
    "the service is skipped, so a later one (or none) is used",
    '''
fn main() {
    let (bk, mk) = (key("did:ex:bob#k", "X"), key("did:ex:m#k", "X"));
    let mut b = doc(B, &[&bk], &[]);
    b.service = vec![svc("did:ex:bob#s1", "https://one", Some(vec!["didcomm/aip2;env=rfc587", "didcomm/v2"]), &["did:ex:m#k"]), svc("did:ex:bob#s2", "https://two", None, &["did:ex:m#k"])];
    let dr = dids(&[&b, &doc("did:ex:m", &[&mk], &[])]);
    let (_, m) = run(msg().pack_encrypted(B, None, None, &dr, &wallet(&[]), &PackEncryptedOptions::default())).unwrap();
    assert_eq!(m.messaging_service.unwrap().id, "did:ex:bob#s1");
}''')

bug("c13-any-relationship", "C13",
    [("src/message/from_prior/unpack.rs", '''        let kid = did_doc
            .authentication
            .iter()
            .find(''', '''        let kid = did_doc
            .authentication
            .iter()
            .chain(did_doc.key_agreement.iter())
            .find(''')],
    "a from_prior signed with a P-256 key that the prior DID publishes for key agreement only",
    "the rotation is accepted",
    '''
fn main() {
    let k = key("did:ex:alice#k", "P");
    let issuing = dids(&[&doc(A, &[], &[&k])]);
    let (t, _) = run(FromPrior::build(A.into(), "did:ex:alice2".into()).finalize().pack(None, &issuing, &wallet(&[&k]))).unwrap();
    run(FromPrior::unpack(&t, &issuing)).unwrap();
    let now = dids(&[&doc(A, &[&k], &[])]);
    assert_eq!(kind(run(FromPrior::unpack(&t, &now))), ErrorKind::DIDUrlNotFound);
}''')

bug("c14-prefix-kid", "C14",
    [("src/message/from_prior/pack.rs", ("            if did != &self.iss {", 2), "            if !did.starts_with(self.iss.as_str()) {")],
    "the named issuer key belongs to another DID that extends the issuer's, and the issuer's document lists it for authentication",
    "a token is issued whose key does not belong to the issuer, so that it cannot be verified",
    '''
fn main() {
    let k = key("did:ex:alice:laptop#k", "E");
    let dr = dids(&[&doc(A, &[], &[&k]), &doc("did:ex:alice:laptop", &[], &[&k])]);
    let r = run(FromPrior::build(A.into(), "did:ex:alice2".into()).finalize().pack(Some("did:ex:alice:laptop#k"), &dr, &wallet(&[&k])));
    assert_eq!(kind(r), ErrorKind::IllegalArgument);
}''')

bug("c15-multibase-char", "C15",
    [("src/utils/did.rs", '''                if !value.starts_with('z') {
                    Err(err_msg(
                        ErrorKind::IllegalArgument,
                        "Multibase value must start with 'z'",
                    ))?
                };
                let decoded_value = bs58::decode(&value[1..])''', '''                let (base, digits) = value.split_at(value.len().min(1));
                if base != "z" {
                    Err(err_msg(
                        ErrorKind::IllegalArgument,
                        "Multibase value must start with 'z'",
                    ))?
                };
                let decoded_value = bs58::decode(digits)''')],
    "a published X25519 multibase key whose first character is not ASCII",
    "the library panics instead of reporting an error",
    '''
fn main() {
    let mut b = doc(B, &[&key("did:ex:bob#k", "X")], &[]);
    for s in ["", "y6LS", "\\u{e9}6LSabc"] {
        b.verification_method[0].type_ = VerificationMethodType::X25519KeyAgreementKey2020;
        b.verification_method[0].verification_material = VerificationMaterial::Multibase { public_key_multibase: s.into() };
        let dr = dids(&[&b]);
        assert_eq!(kind(run(msg().pack_encrypted(B, None, None, &dr, &wallet(&[]), &nofwd()))), ErrorKind::IllegalArgument);
    }
}''')

bug("c16-did-prefix", "C16",
    [("src/message/unpack/authcrypt.rs", "(k_did != to_did) || (k_url.is_none())", "!k_did.starts_with(to_did) || (k_url.is_none())")],
    "an authenticated message addressed to keys of two DIDs, the first being a prefix of the other",
    "recipients of two different DIDs are accepted",
    '''
fn main() {
    // the sender makes one message for keys of two DIDs by publishing such a document for bob
    let (ak, b1, b2) = (key("did:ex:alice#k", "X"), key("did:ex:bob#k", "X"), key("did:ex:bobby#k", "X"));
    let (a, dr) = (doc(A, &[&ak], &[]), dids(&[&doc(A, &[&ak], &[]), &doc(B, &[&b1, &b2], &[])]));
    let (t, m) = run(msg().pack_encrypted(B, Some(A), None, &dr, &wallet(&[&ak]), &nofwd())).unwrap();
    assert_eq!(m.to_kids.len(), 2);
    assert_eq!(kind(run(Message::unpack(&t, &dr, &wallet(&[&b1]), &uopts()))), ErrorKind::Malformed);
}''')

bug("c17-two-keys-suffice", "C17",
    [("src/message/unpack/anoncrypt.rs", "    for to_kid in to_kids_found {", "    let limit = if opts.expect_decrypt_by_all_keys { 2 } else { 1 };\n\n    for to_kid in to_kids_found.into_iter().take(limit) {")],
    "all-keys mode with three recipient keys in the wallet, of which only the third does not fit",
    "unpacking succeeds although one found key does not decrypt the message",
    '''
fn main() {
    let ks: Vec<K> = (0..3).map(|i| key(&format!("did:ex:bob#{}", i), "X")).collect();
    let dr = dids(&[&doc(B, &[&ks[0], &ks[1], &ks[2]], &[])]);
    let (t, _) = run(msg().pack_encrypted(B, None, None, &dr, &wallet(&[]), &nofwd())).unwrap();
    let o = UnpackOptions { expect_decrypt_by_all_keys: true, ..uopts() };
    run(Message::unpack(&t, &dr, &wallet(&[&ks[0], &ks[1], &ks[2]]), &o)).unwrap();
    let wrong = key("did:ex:bob#2", "X");
    assert_eq!(kind(run(Message::unpack(&t, &dr, &wallet(&[&ks[0], &ks[1], &wrong]), &o))), ErrorKind::Malformed);
}''')

bug("c18-next-lookup", "C18",
    [("src/message/unpack/mod.rs", "    let secrets_ids = secrets_resolver.find_secrets(&kids[..]).await?;", "    let secrets_ids = secrets_resolver\n        .find_secrets(&kids[..])\n        .await\n        .unwrap_or_default();")],
    "the secrets store answers for the recipients of a forward but fails for the keys of its `next`",
    "the failure is swallowed and the forward itself is returned as the message",
    '''
struct Flaky { inner: ExampleSecretsResolver, bad: &'static str }
#[async_trait(?Send)]
impl SecretsResolver for Flaky {
    async fn get_secret(&self, id: &str) -> DResult<Option<Secret>> { self.inner.get_secret(id).await }
    async fn find_secrets<'a>(&self, ids: &'a [&'a str]) -> DResult<Vec<&'a str>> {
        if ids.contains(&self.bad) { return Err(err_msg(ErrorKind::IoError, "store is gone")); }
        self.inner.find_secrets(ids).await
    }
}
fn main() {
    let (bk, ck) = (key("did:ex:bob#k", "X"), key("did:ex:carol#k", "X"));
    let dr = dids(&[&doc(B, &[&bk], &[]), &doc("did:ex:carol", &[&ck], &[])]);
    let f = run(protocols::routing::wrap_in_forward("{}", None, "did:ex:carol#k", &vec![B.to_string()], &AnonCryptAlg::default(), &dr)).unwrap();
    let s = Flaky { inner: wallet(&[&bk]), bad: "did:ex:carol#k" };
    assert_eq!(kind(run(Message::unpack(&f, &dr, &s, &uopts()))), ErrorKind::IoError);
}''')

bug("c19-onion-id", "C19",
    [("src/protocols/routing/mod.rs", '''fn build_forward_message(
    forwarded_msg: &str,''', '''fn build_forward_message(
    id: &str,
    forwarded_msg: &str,'''),
     ("src/protocols/routing/mod.rs", "Message::build(generate_message_id(), FORWARD", "Message::build(id.to_owned(), FORWARD"),
     ("src/protocols/routing/mod.rs", "    let mut msg = msg.to_owned();\n", "    let mut msg = msg.to_owned();\n    let id = generate_message_id();\n"),
     ("src/protocols/routing/mod.rs", "build_forward_message(&msg, next_, headers)?", "build_forward_message(&id, &msg, next_, headers)?")],
    "at least two routing keys",
    "all layers of one onion carry the same message id, which links them for the mediators",
    '''
fn main() {
    let ks: Vec<K> = (0..2).map(|i| key(&format!("did:ex:m{}#k", i), "X")).collect();
    let ds: Vec<DIDDoc> = ks.iter().enumerate().map(|(i, k)| doc(&format!("did:ex:m{}", i), &[k], &[])).collect();
    let dr = dids(&ds.iter().collect::<Vec<_>>());
    let rks: Vec<String> = ks.iter().map(|k| k.id.clone()).collect();
    let t = run(protocols::routing::wrap_in_forward("{\\"a\\":1}", None, B, &rks, &AnonCryptAlg::default(), &dr)).unwrap();
    let (m0, _) = run(Message::unpack(&t, &dr, &wallet(&[&ks[0]]), &UnpackOptions { unwrap_re_wrapping_forward: false, ..uopts() })).unwrap();
    let t = protocols::routing::try_parse_forward(&m0).unwrap().forwarded_msg.to_string();
    let (m1, _) = run(Message::unpack(&t, &dr, &wallet(&[&ks[1]]), &UnpackOptions { unwrap_re_wrapping_forward: false, ..uopts() })).unwrap();
    assert_ne!(m0.id, m1.id);
}''')

bug("c20-b58-secret-alg", "C20",
    [("src/utils/did.rs", '''                VerificationMethodType::X25519KeyAgreementKey2019,
                VerificationMaterial::Base58 {
                    public_key_base58: _,
                },
            ) => KnownKeyAlg::X25519,''', '''                VerificationMethodType::X25519KeyAgreementKey2019,
                VerificationMaterial::Base58 {
                    public_key_base58: ref value,
                },
            ) if value.len() == 44 => KnownKeyAlg::X25519,''')],
    "an X25519 key whose Base58 form is shorter than 44 characters (about one in five)",
    "the key is treated as unsupported in Base58 but not in the other representations",
    '''
fn main() {
    for _ in 0..200 {
        let k = key("did:ex:bob#k", "X");
        let raw = base64::decode_config(k.p["x"].as_str().unwrap(), base64::URL_SAFE_NO_PAD).unwrap();
        let mut b = doc(B, &[&k], &[]);
        b.verification_method[0].type_ = VerificationMethodType::X25519KeyAgreementKey2019;
        b.verification_method[0].verification_material = VerificationMaterial::Base58 { public_key_base58: bs58::encode(&raw).into_string() };
        let (t, _) = run(msg().pack_encrypted(B, None, None, &dids(&[&b]), &wallet(&[]), &nofwd())).unwrap();
        run(Message::unpack(&t, &dids(&[&b]), &wallet(&[&k]), &uopts())).unwrap();
    }
}''')

bug("c21-unknown-type", "C21",
    [("src/did/did_doc.rs", "    Ed25519VerificationKey2020,\n    Other,\n", "    Ed25519VerificationKey2020,\n    #[serde(other)]\n    Other,\n")],
    "a verification method of a type name the library does not know",
    "it is accepted and written back as `Other`, losing its type",
    '''
fn main() {
    let j = json!({"id": "did:ex:b#1", "type": "Bls12381G2Key2020", "controller": "did:ex:b", "publicKeyBase58": "abc"});
    assert!(serde_json::from_value::<VerificationMethod>(j).is_err());
    let j = json!({"id": "did:ex:b#1", "type": "Other", "controller": "did:ex:b", "publicKeyBase58": "abc"});
    assert!(serde_json::from_value::<VerificationMethod>(j).is_ok());
}''')

bug("c22-null-attachments", "C22",
    [("src/message/message.rs", '''    #[serde(skip_serializing_if = "Option::is_none")]
    pub attachments: Option<Vec<Attachment>>,
}''', '''    #[serde(skip_serializing_if = "Option::is_none")]
    #[serde(default, deserialize_with = "readable")]
    pub attachments: Option<Vec<Attachment>>,
}

fn readable<'de, D: serde::Deserializer<'de>>(
    deserializer: D,
) -> std::result::Result<Option<Vec<Attachment>>, D::Error> {
    let list: Option<Vec<Value>> = Option::deserialize(deserializer)?;
    Ok(list
        .map(|list| {
            list.into_iter()
                .map(serde_json::from_value)
                .take_while(|a| a.is_ok())
                .collect::<std::result::Result<Vec<_>, _>>()
        })
        .transpose()
        .map_err(serde::de::Error::custom)?
        .filter(|list| !list.is_empty()))
}''')],
    "a plaintext with an ill-formed attachment, or an empty list of attachments",
    "the ill-formed attachment and all later ones are dropped silently instead of refusing the message",
    '''
fn main() {
    let dr = dids(&[]);
    let j = json!({"id": "1", "type": "t", "typ": "application/didcomm-plain+json", "body": {}, "attachments": [{"data": {"base64": "eA"}}, {"data": {"hash": "x"}}]});
    assert_eq!(kind(run(Message::unpack(&j.to_string(), &dr, &wallet(&[]), &uopts()))), ErrorKind::Malformed);
}''')

bug("c23-header-first", "C23",
    [("src/message/message.rs", "        self.extra_headers.insert(key, value);", "        self.extra_headers.entry(key).or_insert(value);")],
    "the same extra header set twice",
    "the first value stays, where each call is to replace what was there",
    '''
fn main() {
    let m = Message::build("i".into(), "t".into(), json!({})).header("a".into(), json!(1)).header("b".into(), json!(2)).header("a".into(), json!([3])).finalize();
    assert_eq!(m.extra_headers.get("a"), Some(&json!([3])));
    assert_eq!(m.extra_headers.get("b"), Some(&json!(2)));
}''')

bug("c24-unsorted-apv", "C24",
    [("src/jwe/encrypt.rs", "        let mut kids = recipients.iter().map(|r| r.0).collect::<Vec<_>>();\n        kids.sort();\n", "        let kids = recipients.iter().map(|r| r.0).collect::<Vec<_>>();\n"),
     ("src/jwe/parse.rs", "            let mut kids = self", "            let kids = self"),
     ("src/jwe/parse.rs", "            kids.sort();\n", "")],
    "a recipient document that does not list its key-agreement keys in alphabetical order",
    "the recipient digest is not the one the specification prescribes, so other implementations refuse the message",
    '''
use sha2::{Digest, Sha256};
fn main() {
    let (k2, k1) = (key("did:ex:bob#2", "X"), key("did:ex:bob#1", "X"));
    let dr = dids(&[&doc(B, &[&k2, &k1], &[])]);
    let (t, _) = run(msg().pack_encrypted(B, None, None, &dr, &wallet(&[]), &nofwd())).unwrap();
    let v: Value = serde_json::from_str(&t).unwrap();
    let p = base64::decode_config(v["protected"].as_str().unwrap(), base64::URL_SAFE_NO_PAD).unwrap();
    let p: Value = serde_json::from_slice(&p).unwrap();
    assert_eq!(p["apv"], json!(base64::encode_config(Sha256::digest(b"did:ex:bob#1.did:ex:bob#2"), base64::URL_SAFE_NO_PAD)));
}''')

bug("c25-flat-cause", "C25",
    [("src/error.rs", '''            source: anyhow::Error::new(e).context(msg),
        })
    }
}

pub trait ResultExtNoContext''', '''            source: anyhow::anyhow!("{}: {}", msg, e),
        })
    }
}

pub trait ResultExtNoContext''')],
    "a foreign error wrapped with a kind and a message, whose cause is then looked at",
    "the cause is only text inside the message: it is not in the chain of sources any more",
    '''
fn main() {
    let r: std::result::Result<(), _> = Err(std::io::Error::new(std::io::ErrorKind::Other, "disk"));
    let e = ResultExt::kind(r, ErrorKind::Malformed, "reading").unwrap_err();
    assert_eq!(e.to_string(), "Malformed: reading: disk");
    assert_eq!(e.source.chain().count(), 2);
    assert!(e.source.root_cause().downcast_ref::<std::io::Error>().is_some());
}''')

bug("c26-stored-order", "C26",
    [("src/secrets/resolvers/example.rs", '''        Ok(secret_ids
            .iter()
            .filter(|&&sid| self.known_secrets.iter().find(|s| s.id == sid).is_some())
            .map(|sid| *sid)
            .collect())''', '''        Ok(self
            .known_secrets
            .iter()
            .filter_map(|s| secret_ids.iter().find(|&&sid| s.id == sid))
            .map(|sid| *sid)
            .collect())''')],
    "several ids asked for in an order other than the stored one, or with repetitions",
    "the ids come back in the order in which the secrets are stored",
    '''
fn main() {
    let (k1, k2) = (key("did:ex:bob#1", "X"), key("did:ex:bob#2", "X"));
    let w = wallet(&[&k1, &k2]);
    let ids = ["did:ex:bob#2", "did:ex:bob#0", "did:ex:bob#1", "did:ex:bob#2"];
    assert_eq!(run(w.find_secrets(&ids)).unwrap(), vec!["did:ex:bob#2", "did:ex:bob#1", "did:ex:bob#2"]);
}''')

bug("c27-thread-local", "C27",
    [("src/message/pack_encrypted/mod.rs", '''            (msg, Some(sign_by_kid))
        } else {''', '''            LAST_SIGNER.with(|s| *s.borrow_mut() = Some(sign_by_kid));
            (msg, true)
        } else {'''),
     ("src/message/pack_encrypted/mod.rs", "            (msg, None)\n        };\n\n        let (msg, from_kid, to_kids)", "            (msg, false)\n        };\n\n        let (msg, from_kid, to_kids)"),
     ("src/message/pack_encrypted/mod.rs", "let (msg, sign_by_kid) = if let Some(sign_by)", "let (msg, signed) = if let Some(sign_by)"),
     ("src/message/pack_encrypted/mod.rs", "        let metadata = PackEncryptedMetadata {", "        let sign_by_kid = if signed {\n            LAST_SIGNER.with(|s| s.borrow().clone())\n        } else {\n            None\n        };\n\n        let metadata = PackEncryptedMetadata {"),
     ("src/message/pack_encrypted/mod.rs", "impl Message {", "thread_local! {\n    static LAST_SIGNER: std::cell::RefCell<Option<String>> = std::cell::RefCell::new(None);\n}\n\nimpl Message {")],
    "two signing pack operations interleaved on one thread, suspended in a resolver after signing",
    "one of them reports the signer key of the other",
    '''
struct Slow(ExampleDIDResolver);
#[async_trait(?Send)]
impl DIDResolver for Slow {
    async fn resolve(&self, did: &str) -> DResult<Option<DIDDoc>> { Pause(false).await; self.0.resolve(did).await }
}
fn main() {
    let (e1, e2, bk) = (key("did:ex:alice#1", "E"), key("did:ex:alice#2", "E"), key("did:ex:bob#k", "X"));
    let dr = Slow(dids(&[&doc(A, &[], &[&e1, &e2]), &doc(B, &[&bk], &[])]));
    let (w, o, m) = (wallet(&[&e1, &e2]), nofwd(), msg());
    let mut f = Box::pin(m.pack_encrypted(B, None, Some("did:ex:alice#1"), &dr, &w, &o));
    let mut g = Box::pin(m.pack_encrypted(B, None, Some("did:ex:alice#2"), &dr, &w, &o));
    let wk = waker();
    let mut c = Context::from_waker(&wk);
    let (mut x, mut y) = (None, None);
    while x.is_none() || y.is_none() {
        if x.is_none() { if let Poll::Ready(r) = f.as_mut().poll(&mut c) { x = Some(r.unwrap().1); } }
        if y.is_none() { if let Poll::Ready(r) = g.as_mut().poll(&mut c) { y = Some(r.unwrap().1); } }
    }
    assert_eq!(x.unwrap().sign_by_kid.as_deref(), Some("did:ex:alice#1"));
    assert_eq!(y.unwrap().sign_by_kid.as_deref(), Some("did:ex:alice#2"));
}''')

bug("c28-json-default", "C28",
    [("src/algorithms.rs", '''impl Default for AnonCryptAlg {
    fn default() -> Self {
        AnonCryptAlg::Xc20pEcdhEsA256kw''', '''impl Default for AnonCryptAlg {
    fn default() -> Self {
        AnonCryptAlg::A256gcmEcdhEsA256kw'''),
     ("src/message/pack_encrypted/mod.rs", "            enc_alg_anon: AnonCryptAlg::default(),", "            enc_alg_anon: AnonCryptAlg::Xc20pEcdhEsA256kw,")],
    "options read from JSON without an anonymous algorithm",
    "messages are encrypted with A256GCM although XC20P is the documented default",
    '''
fn main() {
    let o: PackEncryptedOptions = serde_json::from_value(json!({"forward": false})).unwrap();
    assert_eq!(o, nofwd());
    assert_eq!(o.enc_alg_anon, AnonCryptAlg::Xc20pEcdhEsA256kw);
}''')
