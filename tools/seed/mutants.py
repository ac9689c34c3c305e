#!/usr/bin/env python3
"""Changes without a demonstration, used to find gaps in the checks: mutants.py DIR writes DIR/<id>/ with
patch.diff and meta.json for each (those that no longer apply are reported); try.py --dir DIR --nodemo runs them."""
import json, os, shutil, subprocess, sys
M = []


def mut(id, prop, *edits):
    M.append((id, prop, edits))


MSG, ATT, ENC, DEC, PARSE = "src/message/message.rs", "src/message/attachment.rs", "src/jwe/encrypt.rs", "src/jwe/decrypt.rs", "src/jwe/parse.rs"
ANON, AUTH, PE = "src/message/pack_encrypted/anoncrypt.rs", "src/message/pack_encrypted/authcrypt.rs", "src/message/pack_encrypted/mod.rs"
UANON, UAUTH, USIGN, UPLAIN, UN = ["src/message/unpack/%s.rs" % x for x in ("anoncrypt", "authcrypt", "sign", "plaintext", "mod")]
ROUT, PS, PP, FPP, FPU, FPM = "src/protocols/routing/mod.rs", "src/message/pack_signed.rs", "src/message/pack_plaintext.rs", "src/message/from_prior/pack.rs", "src/message/from_prior/unpack.rs", "src/message/from_prior/mod.rs"
DID, ERR, DOC, SEC, ALG = "src/utils/did.rs", "src/error.rs", "src/did/did_doc.rs", "src/secrets/mod.rs", "src/algorithms.rs"
JV, JP, JS, CR = "src/jws/verify.rs", "src/jws/parse.rs", "src/jws/sign.rs", "src/utils/crypto.rs"
XD, XS = "src/did/resolvers/example.rs", "src/secrets/resolvers/example.rs"

# ---- C01 content
mut("a01", "C01", (MSG, '''    #[serde(skip_serializing_if = "Option::is_none")]
    pub created_time''', '''    #[serde(skip_serializing_if = "no_time")]
    pub created_time'''), (MSG, "fn default_typ()", '''fn no_time(t: &Option<u64>) -> bool {
    t.unwrap_or(0) == 0
}

fn default_typ()'''))
mut("a02", "C01", (MSG, '''    #[serde(skip_serializing_if = "Option::is_none")]
    pub attachments''', '''    #[serde(skip_serializing_if = "no_attachments")]
    pub attachments'''), (MSG, "fn default_typ()", '''fn no_attachments(t: &Option<Vec<Attachment>>) -> bool {
    t.as_ref().map_or(true, |a| a.is_empty())
}

fn default_typ()'''))
mut("a03", "C01", (USIGN, "    metadata.authenticated = true;", '''    let payload = payload.replace("\\\\u0000", "");
    metadata.authenticated = true;'''))
mut("a04", "C01", (MSG, '''    #[serde(skip_serializing_if = "Option::is_none")]
    pub pthid''', '''    #[serde(default, deserialize_with = "non_empty")]
    #[serde(skip_serializing_if = "Option::is_none")]
    pub pthid'''), (MSG, "fn default_typ()", '''fn non_empty<'de, D: serde::Deserializer<'de>>(
    d: D,
) -> std::result::Result<Option<String>, D::Error> {
    let s = Option::<String>::deserialize(d)?;
    Ok(s.filter(|s| !s.is_empty()))
}

fn default_typ()'''))
mut("a05", "C01", (MSG, '''    pub expires_time: Option<u64>,

    #[serde(skip''', '''    pub expires_time: Option<u64>,

    #[serde(skip''') if 0 else (UPLAIN, "    Ok(Some(msg))", '''    let mut msg = msg;
    if let Some(to) = msg.to.as_mut() {
        to.dedup();
    }

    Ok(Some(msg))'''))
mut("a06", "C01", (UN, '''                let forwarded_msg = serde_json::to_string(&forward_msg.forwarded_msg)''', '''                let mut forwarded = forward_msg.forwarded_msg.clone();
                if let Some(m) = forwarded.as_object_mut() {
                    m.retain(|_, v| !v.is_null());
                }
                let forwarded_msg = serde_json::to_string(&forwarded)'''))
# ---- C02
mut("b01", "C02", (ANON, "to_kid.map(|to_kid| kid == &to_kid)", "to_kid.map(|to_kid| kid.rsplit('#').next() == to_kid.rsplit('#').next())"))
mut("b02", "C02", (AUTH, '''        .filter(|key| key.key_alg() == key_alg)
        .collect();''', '''        .filter(|key| key.key_alg() == key_alg)
        .collect();
    let reported: Vec<String> = to_keys.iter().take(8).map(|vm| vm.id.clone()).collect();'''), (AUTH, "to_keys.into_iter().map(|vm| vm.id.clone()).collect();", "reported;"))
mut("b03", "C02", (AUTH, '''        .filter(|kid| to_kid.map(|to_kid| kid == &to_kid).unwrap_or(true))''', '''        .filter(|kid| to_kid.map(|to_kid| kid == &to_kid || protect_sender).unwrap_or(true))'''))
# ---- C03
mut("c01", "C03", (PARSE, "        base64::decode_config_buf(self.protected, base64::URL_SAFE_NO_PAD, buf)", "        base64::decode_config_buf(self.protected.trim(), base64::URL_SAFE_NO_PAD, buf)"),
    (DEC, "self.jwe.protected.as_bytes()", "self.jwe.protected.trim().as_bytes()"),)
mut("c02", "C03", (JV, '''        let sign_input = format!("{}.{}", signature.protected, self.jws.payload);''', '''        let sign_input = format!(
            "{}.{}",
            signature.protected,
            self.jws.payload.split('.').next().unwrap_or_default()
        );'''))
mut("c03", "C03", (USIGN, '''    let payload = base64::decode_config(parsed_jws.jws.payload, base64::URL_SAFE_NO_PAD)''', '''    let payload = parsed_jws.jws.payload;
    let signed_len = payload.trim_end_matches('A').len();
    let payload = base64::decode_config(
        if (payload.len() - signed_len) % 4 == 0 { &payload[..signed_len] } else { payload },
        base64::URL_SAFE_NO_PAD,
    )'''), (JV, '''        let sign_input = format!("{}.{}", signature.protected, self.jws.payload);''', '''        let payload = self.jws.payload;
        let signed_len = payload.trim_end_matches('A').len();
        let payload = if (payload.len() - signed_len) % 4 == 0 {
            &payload[..signed_len]
        } else {
            payload
        };
        let sign_input = format!("{}.{}", signature.protected, payload);'''))
mut("c04", "C03", (PARSE, '''            kids.sort();
''', '''            kids.retain(|k| !k.is_empty());
            kids.sort();
'''))
# ---- C04
mut("d01", "C04", (UAUTH, ".find(|&vm| &vm.id == from_kid)", ".find(|&vm| vm.id.rsplit('#').next() == from_kid.rsplit('#').next())"))
mut("d02", "C04", (UAUTH, '''    let from_kid = from_ddoc
        .key_agreement
        .iter()
        .find(|&k| k.as_str() == from_kid)''', '''    let from_kid = from_ddoc
        .key_agreement
        .iter()
        .chain(if from_ddoc.key_agreement.is_empty() { from_ddoc.authentication.iter() } else { [].iter() })
        .find(|&k| k.as_str() == from_kid)'''))
mut("d03", "C04", (UAUTH, '''    let from_ddoc = did_resolver
        .resolve(from_did)
        .await
        .context("Unable resolve sender did")?
        .ok_or_else(|| err_msg(ErrorKind::DIDNotResolved, "Sender did not found"))?;
''', '''    thread_local! {
        static DOCS: std::cell::RefCell<std::collections::HashMap<String, crate::did::DIDDoc>> = Default::default();
    }
    let known = DOCS.with(|d| d.borrow().get(from_kid).cloned());
    let from_ddoc = match known {
        Some(d) => d,
        None => did_resolver
            .resolve(from_did)
            .await
            .context("Unable resolve sender did")?
            .ok_or_else(|| err_msg(ErrorKind::DIDNotResolved, "Sender did not found"))?,
    };
    DOCS.with(|d| d.borrow_mut().insert(from_kid.to_owned(), from_ddoc.clone()));
'''))
mut("d04", "C04", (UAUTH, '''    let from_kid = from_ddoc
        .key_agreement
        .iter()
        .find(|&k| k.as_str() == from_kid)''', '''    let from_kid = from_ddoc
        .key_agreement
        .iter()
        .find(|&k| k.eq_ignore_ascii_case(from_kid))'''))
# ---- C05
mut("e01", "C05", (USIGN, '''    let valid = match alg {''', '''    thread_local! {
        static SEEN: std::cell::RefCell<std::collections::HashSet<String>> = Default::default();
    }
    let sig = format!("{} {}", signer_kid, parsed_jws.jws.signatures[0].signature);
    let seen = SEEN.with(|s| s.borrow().contains(&sig));
    let valid = seen || match alg {'''), (USIGN, '''    if !valid {
        Err(err_msg(ErrorKind::Malformed, "Wrong signature"))?
    }
''', '''    if !valid {
        Err(err_msg(ErrorKind::Malformed, "Wrong signature"))?
    }
    SEEN.with(|s| s.borrow_mut().insert(sig));
    metadata.sign_alg = Some(match alg {
        jws::Algorithm::EdDSA => SignAlg::EdDSA,
        jws::Algorithm::Es256 => SignAlg::ES256,
        _ => SignAlg::ES256K,
    });
'''))
mut("e02", "C05", (USIGN, ".find(|&k| k.as_str() == signer_kid)", ".chain(signer_ddoc.key_agreement.iter().filter(|_| metadata.encrypted))\n        .find(|&k| k.as_str() == signer_kid)"))
mut("e03", "C05", (USIGN, "metadata.signed_message = Some(jws_json.into());", "metadata.signed_message.get_or_insert_with(|| jws_json.replace(\"\\\\/\", \"/\").split_whitespace().collect());"))
mut("e04", "C05", (USIGN, "if parsed_jws.protected.len() != 1 {", "if parsed_jws.protected.len() == 0 || parsed_jws.jws.signatures.iter().any(|s| s.header.kid != parsed_jws.jws.signatures[0].header.kid) {"))
# ---- C06
mut("f01", "C06", (UAUTH, "    metadata.authenticated = true;\n", "    metadata.authenticated = true;\n    metadata.anonymous_sender &= !metadata.re_wrapped_in_forward;\n"))
mut("f02", "C06", (ANON, "Ok((msg, to_kids))", "Ok((msg, { let mut k: Vec<String> = to_kids; k.sort(); k }))"))
mut("f03", "C06", (UN, "                    metadata.re_wrapped_in_forward = true;\n", "                    metadata.re_wrapped_in_forward = !metadata.re_wrapped_in_forward;\n"))
mut("f04", "C06", (UAUTH, "    if metadata.encrypted_to_kids.is_none() {", "    if metadata.encrypted_to_kids.is_none() || metadata.re_wrapped_in_forward {"))
mut("f05", "C06", (USIGN, "            metadata.sign_alg = Some(SignAlg::ES256K);", "            metadata.sign_alg = Some(if metadata.encrypted { SignAlg::ES256 } else { SignAlg::ES256K });"))
# ---- C07
mut("g01", "C07", (ENC, "skid.map(|skid| base64::encode_config(skid, base64::URL_SAFE_NO_PAD));", "Some(skid.unwrap_or(\"\")).filter(|s| s.len() > 0 || recipients.len() > 2).map(|skid| base64::encode_config(skid, base64::URL_SAFE_NO_PAD));"))
mut("g02", "C07", (AUTH, ("                        None,\n                        &to_keys,\n", 6), "                        None,\n                        &to_keys[..to_keys.len().min(3)],\n"))
# ---- C08
mut("h01", "C08", (ANON, ".filter(|key| key.key_alg() != KnownKeyAlg::Unsupported)\n        .map(", ".filter(|key| key.key_alg() != KnownKeyAlg::Unsupported && key.key_alg() != KnownKeyAlg::K256)\n        .map("))
mut("h02", "C08", (AUTH, '''    if from_kids.is_empty() {
        Err(err_msg(
            ErrorKind::SecretNotFound,''', '''    let all: Vec<&str> = from_ddoc.key_agreement.iter().map(|k| k.as_str()).collect();
    let from_kids = if from_kids.is_empty() {
        secrets_resolver.find_secrets(&all).await.context("Unable find secrets")?
    } else {
        from_kids
    };

    if from_kids.is_empty() {
        Err(err_msg(
            ErrorKind::SecretNotFound,'''))
mut("h03", "C08", (PS, '''            .get(0)
            .ok_or_else(|| err_msg(ErrorKind::SecretNotFound, "No signer secrets found"))?;''', '''            .iter()
            .min_by_key(|k| k.len())
            .ok_or_else(|| err_msg(ErrorKind::SecretNotFound, "No signer secrets found"))?;'''))
mut("h04", "C08", (AUTH, '''    let from_key = from_keys
        .iter()
        .filter(|key| key.key_alg() != KnownKeyAlg::Unsupported)''', '''    let from_key = from_keys
        .iter()
        .filter(|key| key.as_key_pair().is_ok())'''))
mut("h05", "C08", (AUTH, "        .filter(|key| key.key_alg() == key_alg)", "        .filter(|key| key.key_alg() == key_alg && key.as_key_pair().is_ok())"))
# ---- C09
mut("i01", "C09", (DID, "parts.len() >= 3 && parts", "parts.len() >= 3 && !parts.contains(&\"\") && parts"))
mut("i02", "C09", (PE, "Some(ref sto) if !sto.contains(&to_did.into()) => {", "Some(ref sto) if !sto.is_empty() && !sto.contains(&to_did.into()) => {"))
mut("i03", "C09", (PE, "if did_or_url(from).0 != sfrom =>", "if from.split_once('#').is_none() && from != sfrom =>"))
mut("i04", "C09", (DID, '''parts.get(0).unwrap() == &"did"''', '''parts.get(0).unwrap().eq_ignore_ascii_case("did")'''))
mut("i05", "C09", (PE, "Some(sign_by) if !is_did(sign_by) =>", "Some(sign_by) if from.is_none() && !is_did(sign_by) =>"))
mut("i06", "C09", (PE, "Some(ref sto) if !sto.contains(&to_did.into()) => {", "Some(ref sto) if !sto.iter().any(|t| did_or_url(t).0 == to_did) => {"))
# ---- C10
mut("j01", "C10", (ROUT, "    nexts.push(to.to_owned());", "    nexts.push(did_or_url(to).0.to_owned());"))
mut("j02", "C10", (ROUT, "    let mut tos = routing_keys.clone();\n", "    let mut tos = routing_keys.clone();\n    tos.dedup();\n"))
mut("j03", "C10", (ROUT, '''    if routing_keys.is_empty() {
        return Ok(None);''', '''    if services_chain.last().unwrap().1.routing_keys.is_empty() {
        return Ok(None);'''))
mut("j04", "C10", (ROUT, "        for (name, value) in headers {", "        for (name, value) in headers.iter().filter(|(_, v)| !v.is_null()) {"))
mut("j05", "C10", (ROUT, "        service_endpoint: services_chain.first().unwrap().1.uri.clone(),", "        service_endpoint: services_chain.last().unwrap().1.uri.clone(),"))
mut("j06", "C10", (ROUT, "        msg = anoncrypt(to_, did_resolver, msg.as_bytes(), enc_alg_anon)", "        msg = anoncrypt(did_or_url(to_).0, did_resolver, msg.as_bytes(), enc_alg_anon)"))
# ---- C11
mut("k01", "C11", (ROUT, '''        Some(ref attachments) => match &attachments[..] {
            [attachment, ..] => match &attachment.data {
                AttachmentData::Json { ref value } => Some(value),
                _ => None,
            },
            _ => None,
        },''', '''        Some(ref attachments) => attachments.iter().find_map(|a| match &a.data {
            AttachmentData::Json { ref value } => Some(value),
            _ => None,
        }),'''))
mut("k02", "C11", (ROUT, "            Some(&Value::String(ref next)) => Some(next),", "            Some(&Value::String(ref next)) if !next.is_empty() => Some(next),"))
mut("k03", "C11", (ROUT, "    if msg.type_ != FORWARD_MSG_TYPE {", "    if msg.type_.trim_end_matches('/') != FORWARD_MSG_TYPE {"))
mut("k04", "C11", (UN, '''        (_, Some(kid)) => {
            vec![kid.to_owned()]
        }
        (did, None) => {''', '''        (did, _) => {'''))
mut("k05", "C11", (ROUT, "            [attachment, ..] => match", "            [attachment] => match"))
mut("k06", "C11", (UN, "    return Ok(!secrets_ids.is_empty());", "    return Ok(secrets_ids.len() == kids.len() && !kids.is_empty());"))
mut("k07", "C11", (UN, "            if options.unwrap_re_wrapping_forward && anoncrypted.is_some() {", "            if options.unwrap_re_wrapping_forward && anoncrypted.is_some() && !metadata.re_wrapped_in_forward {"))
# ---- C12
mut("l01", "C12", (ROUT, ("accept.is_empty() || accept.contains(&DIDCOMM_V2_PROFILE.into())", 2), "accept.is_empty() || accept.iter().any(|a| a.starts_with(DIDCOMM_V2_PROFILE))"))
mut("l02", "C12", (ROUT, "service.id == service_id)", "service.id == service_id || service.id.strip_prefix(did) == Some(service_id))"))
mut("l03", "C12", (ROUT, "service.id == service_id)", "service.id == service_id && matches!(service.service_endpoint, ServiceKind::DIDCommMessaging { .. }))"))
mut("l04", "C12", (ROUT, "        if services.len() > 1 {", "        if services.len() > 2 {"))
mut("l05", "C12", (ROUT, '''    while is_did(service_endpoint) {''', '''    while is_did(service_endpoint) && did_or_url(service_endpoint).1.is_none() {'''))
mut("l06", "C12", (ROUT, ("accept.is_empty() || accept.contains(&DIDCOMM_V2_PROFILE.into())", 2), "accept.is_empty() || accept.iter().any(|a| a.eq_ignore_ascii_case(DIDCOMM_V2_PROFILE))"))
# ---- C13
mut("m01", "C13", (FPU, "        if from_prior.iss != did {", "        if !did.starts_with(&from_prior.iss) {"))
mut("m02", "C13", (FPU, '        if typ != "JWT" {', '        if !typ.eq_ignore_ascii_case("JWT") {'))
mut("m03", "C13", (JP, "    if segments.len() != 3 {", "    if segments.len() < 3 {"))
mut("m04", "C13", (UPLAIN, "    if let Some(from_prior) = &msg.from_prior {", "    if let Some(from_prior) = msg.from_prior.as_ref().filter(|s| !s.is_empty()) {"))
mut("m05", "C13", (FPU, "                    .as_p256()\n                    .context(\"Unable to instantiate from_prior issuer key\")?;\n\n                parsed\n                    .verify::<P256KeyPair>(&key)\n                    .context(\"Unable to verify from_prior signature\")?", "                    .as_p256()\n                    .context(\"Unable to instantiate from_prior issuer key\")?;\n\n                parsed\n                    .verify::<P256KeyPair>(&key)\n                    .context(\"Unable to verify from_prior signature\")\n                    .unwrap_or(parsed.signature.is_empty())"))
mut("m06", "C13", (FPU, "            .find(|&k| k.as_str() == kid)", "            .find(|&k| k.as_str() == kid || k.as_str() == kid.trim_start_matches(did))"))
# ---- C14
mut("n01", "C14", (FPP, "if !is_did(&self.sub) || did_or_url(&self.sub).1.is_some() {", "if !is_did(&self.sub) || self.sub.ends_with('#') {"))
mut("n02", "C14", (PP, "                if &from_prior.sub != from {", "                if &from_prior.sub != from && &from_prior.iss != from {"))
mut("n03", "C14", (PS, "        let payload = self.pack_plaintext(did_resolver).await?;", '''        let payload = match self.from_prior {
            Some(_) if self.from.is_some() => self.pack_plaintext(did_resolver).await?,
            _ => serde_json::to_string(self)
                .map_err(|e| err_msg(ErrorKind::InvalidState, e.to_string()))?,
        };'''))
mut("n04", "C14", (FPP, '''            .get(0)
            .ok_or_else(|| {
                err_msg(
                    ErrorKind::SecretNotFound,
                    "No from_prior issuer secrets found",''', '''            .last()
            .ok_or_else(|| {
                err_msg(
                    ErrorKind::SecretNotFound,
                    "No from_prior issuer secrets found",'''))
mut("n05", "C14", (FPP, "            did_doc.authentication.iter().map(|s| s.as_str()).collect()", "            did_doc.authentication.iter().chain(did_doc.key_agreement.iter()).map(|s| s.as_str()).collect()"))
# ---- C15
mut("o01", "C15", (UANON, '''    let payload = String::from_utf8(payload)
        .kind(ErrorKind::Malformed, "Anoncrypt payload is invalid utf8")?;''', '''    let payload = String::from_utf8_lossy(&payload).into_owned();'''))
mut("o02", "C15", (UPLAIN, '''        Err(e) if e.kind() == ErrorKind::Malformed => return Ok(None),
        Err(e) => Err(e)?,''', '''        Err(_) => return Ok(None),'''))
mut("o03", "C15", (DID, "    return Ok((codec, value.split_at(prefix.into_inner().len()).1));", "    let n = prefix.into_inner().len();\n    return Ok((codec, &value[n..n + 32]));"))
mut("o04", "C15", (USIGN, '''    let payload =
        String::from_utf8(payload).kind(ErrorKind::Malformed, "Signed payload is invalid utf8")?;''', '''    let payload =
        String::from_utf8(payload).kind(ErrorKind::InvalidState, "Signed payload is invalid utf8")?;'''))
mut("o05", "C15", (UANON, '''    let to_kid = to_kids
        .first()
        .map(|&k| k)
        .ok_or_else(|| err_msg(ErrorKind::Malformed, "No recipient keys found"))?;
''', '''    let to_kid = to_kids[0];
'''))
mut("o06", "C15", (UN, '''            if has_key_agreement_secret(''', '''            if forward_msg.forwarded_msg.get("ciphertext").is_some() && has_key_agreement_secret('''))
mut("o07", "C15", (DEC, "            buf.extend_from_slice(&tag);\n", "            buf.extend_from_slice(&tag[..tag.len().min(32)]);\n            assert!(iv.len() <= 24);\n"))
# ---- C16
mut("p01", "C16", (PARSE, "if &self.apv != did_comm_apv.as_slice() {", "if !did_comm_apv.as_slice().starts_with(&self.apv) {"))
mut("p02", "C16", (PARSE, "(Some(apu), Some(skid)) if apu != skid => {", "(Some(apu), Some(skid)) if !apu.starts_with(skid) => {"))
mut("p03", "C16", (UANON, "    if let Some(_) = to_kids.iter().find(|k| {", "    if let Some(_) = to_kids.iter().rev().take(1).find(|k| {"))
mut("p04", "C16", (PARSE, '''            (None, Some(_)) => Err(''', '''            (None, Some(_)) if self.protected.alg == crate::jwe::Algorithm::Ecdh1puA256kw => Err('''))
mut("p05", "C16", (UAUTH, "        (k_did != to_did) || (k_url.is_none())", "        (k_did != to_did && !metadata.anonymous_sender) || (k_url.is_none())"))
mut("p06", "C16", (PARSE, "            kids.sort();", "            kids.sort_by_key(|k| k.to_lowercase());"))
# ---- C17
mut("q01", "C17", (UANON, '''    if to_kids_found.is_empty() {''', '''    if to_kids_found.is_empty()
        || (opts.expect_decrypt_by_all_keys && to_kids_found.len() != to_kids.len())
    {'''))
mut("q02", "C17", (UAUTH, "    for to_kid in to_kids_found {", "    for to_kid in to_kids_found.into_iter().rev() {"))
mut("q03", "C17", (UAUTH, "        if !opts.expect_decrypt_by_all_keys {", "        if !opts.expect_decrypt_by_all_keys || metadata.anonymous_sender {"))
# ---- C18
mut("r01", "C18", (AUTH, '''        .get_secret(&from_key.id)
        .await
        .context("Unable resolve sender secret")?''', '''        .get_secret(&from_key.id)
        .await
        .unwrap_or(None)'''))
mut("r02", "C18", (ROUT, '''        resolve_did_comm_services_chain(to, options.messaging_service.as_deref(), did_resolver)
            .await?;''', '''        match resolve_did_comm_services_chain(to, options.messaging_service.as_deref(), did_resolver).await {
            Err(e) if e.kind() == ErrorKind::DIDNotResolved => vec![],
            r => r?,
        };'''))
mut("r03", "C18", (PE, "        let (msg, from_kid, to_kids) = if let Some(from) = from {", '''        if let Some(ref from) = self.from {
            did_resolver.resolve(from).await.context("Unable resolve message from")?;
        }

        let (msg, from_kid, to_kids) = if let Some(from) = from {'''))
mut("r04", "C18", (FPP, '''            .context("Unable to find secrets")?''', '''            .map_err(|e| err_msg(ErrorKind::SecretNotFound, e.to_string()))?'''))
mut("r05", "C18", (UANON, "    let to_kids_found = secrets_resolver.find_secrets(&to_kids).await?;", "    let to_kids_found = match secrets_resolver.find_secrets(&to_kids).await {\n        Err(e) if e.kind() == ErrorKind::SecretNotFound || e.kind() == ErrorKind::IoError => vec![],\n        r => r?,\n    };"))
mut("r06", "C18", (FPU, '''            .context("Unable to resolve from_prior issuer DID")?''', '''            .kind(ErrorKind::DIDNotResolved, "Unable to resolve from_prior issuer DID")?'''))
# ---- C19
mut("s01", "C19", (ENC, "        let iv = CE::random_nonce();\n", "        let mut iv = CE::random_nonce().to_vec();\n        let n = iv.len();\n        iv[n - 8..].copy_from_slice(&Sha256::digest(plaintext)[..8]);\n        let h = Sha256::digest(&apv);\n        iv[..n - 8].copy_from_slice(&h[..n - 8]);\n"))
mut("s02", "C19", (ROUT, "    Uuid::new_v4().to_string()", '''    thread_local! { static N: std::cell::Cell<u64> = std::cell::Cell::new(0); }
    let n = N.with(|c| { c.set(c.get() + 1); c.get() });
    Uuid::from_u128((Uuid::new_v4().as_u128() >> 120 << 64) | (n / 4) as u128).to_string()'''))
mut("s03", "C19", (ENC, '''    let cek = CE::generate(&mut rng).kind(ErrorKind::InvalidState, "Unable generate cek")?;''', '''    let cek = CE::generate(&mut rng).kind(ErrorKind::InvalidState, "Unable generate cek")?;
    thread_local! { static LAST: std::cell::RefCell<Option<(Vec<u8>, Vec<u8>)>> = Default::default(); }
    let same = LAST.with(|l| l.borrow().as_ref().filter(|x| x.0 == plaintext).map(|x| x.1.clone()));
    let cek = match same.and_then(|b| CE::from_secret_bytes(&b).ok()) {
        Some(c) => c,
        None => cek,
    };
    let raw = cek.to_secret_bytes().kind(ErrorKind::InvalidState, "cek")?.to_vec();
    LAST.with(|l| *l.borrow_mut() = Some((plaintext.to_vec(), raw)));'''), (ENC, "    CE: KeyAeadInPlace + KeyAeadMeta + KeyGen + ToSecretBytes,", "    CE: KeyAeadInPlace + KeyAeadMeta + KeyGen + ToSecretBytes + askar_crypto::repr::KeySecretBytes,"))
# ---- C20
mut("t01", "C20", (DID, '''            0x1302 => Ok(Codec::X25519Priv),''', '''            0x1302 | 0xEC => Ok(Codec::X25519Priv),''') if 0 else (DID, ("(Some(kty), Some(crv)) if kty == \"EC\" && crv == \"secp256k1\" => KnownKeyAlg::K256,", 2), "(Some(kty), Some(crv)) if kty == \"EC\" && crv == \"secp256k1\" && value[\"y\"].is_string() && value[\"alg\"].is_null() => KnownKeyAlg::K256,"))
mut("t02", "C20", (DID, ("(Some(kty), Some(crv)) if kty == \"OKP\" && crv == \"X25519\" => KnownKeyAlg::X25519,", 2), "(Some(_), Some(crv)) if crv == \"X25519\" => KnownKeyAlg::X25519,"))
mut("t03", "C20", (DID, '''                VerificationMethodType::X25519KeyAgreementKey2020,
                VerificationMaterial::Multibase {
                    public_key_multibase: _,
                },
            ) => KnownKeyAlg::X25519,''', '''                VerificationMethodType::X25519KeyAgreementKey2020 | VerificationMethodType::X25519KeyAgreementKey2019,
                VerificationMaterial::Multibase {
                    public_key_multibase: _,
                },
            ) => KnownKeyAlg::X25519,'''))
# ---- C21
mut("u01", "C21", (DOC, '''    #[serde(default)]
    #[serde(skip_serializing_if = "Option::is_none")]
    pub accept: Option<Vec<String>>,''', '''    #[serde(default)]
    #[serde(skip_serializing_if = "no_profiles")]
    pub accept: Option<Vec<String>>,'''), (DOC, '''#[derive(Debug, Clone, Deserialize, Serialize)]
#[serde(rename_all = "camelCase")]
pub struct DIDCommMessagingService''', '''fn no_profiles(a: &Option<Vec<String>>) -> bool {
    a.as_ref().map_or(true, |a| a.is_empty())
}

#[derive(Debug, Clone, Deserialize, Serialize)]
#[serde(rename_all = "camelCase")]
pub struct DIDCommMessagingService'''))
mut("u02", "C21", (DOC, '''    #[serde(rename_all = "camelCase")]
    JWK { public_key_jwk: Value },

    #[serde(rename_all = "camelCase")]
    Multibase { public_key_multibase: String },
''', '''    #[serde(rename_all = "camelCase")]
    Multibase { public_key_multibase: String },

    #[serde(rename_all = "camelCase")]
    JWK { public_key_jwk: Value },
'''))
mut("u03", "C21", (DOC, "    pub authentication: Vec<String>,", "    #[serde(default)]\n    pub authentication: Vec<String>,"))
mut("u04", "C21", (SEC, "    #[serde(rename = \"type\")]\n    pub type_: SecretType,", "    #[serde(rename = \"type\", alias = \"kind\")]\n    pub type_: SecretType,"))
# ---- C22
mut("v01", "C22", (MSG, "        if self.typ != PLAINTEXT_TYP {", "        if !self.typ.ends_with(\"didcomm-plain+json\") {"))
mut("v02", "C22", (MSG, "    pub body: Value,", "    #[serde(default)]\n    pub body: Value,"))
mut("v03", "C22", (ATT, "    pub hash: String,\n", "    #[serde(default)]\n    pub hash: String,\n"))
mut("v04", "C22", (MSG, "    #[serde(skip_serializing_if = \"Option::is_none\")]\n    pub thid", "    #[serde(alias = \"threadId\", skip_serializing_if = \"Option::is_none\")]\n    pub thid"))
mut("v05", "C22", (ATT, "    #[serde(skip_serializing_if = \"Option::is_none\")]\n    pub byte_count", "    #[serde(skip_serializing_if = \"Option::is_none\", rename = \"byteCount\", alias = \"byte_count\")]\n    pub byte_count"))
# ---- C23
mut("w01", "C23", (MSG, '''        if let Some(ref mut sattachments) = self.attachments {
            let mut attachments = attachments;
            sattachments.append(&mut attachments);
            self
        } else {''', '''        if let Some(ref mut sattachments) = self.attachments {
            for a in attachments {
                if !sattachments.contains(&a) {
                    sattachments.push(a);
                }
            }
            self
        } else {'''))
mut("w02", "C23", (ATT, "            AttachmentData::Links { ref mut value } => value.jws = Some(jws),", "            AttachmentData::Links { ref mut value } => {\n                value.jws.get_or_insert(jws);\n            }"))
mut("w03", "C23", (MSG, "        self.extra_headers.insert(key, value);", "        self.extra_headers.entry(key).or_insert(value);"))
mut("w04", "C23", (FPM, "        self.nbf = Some(nbf);", "        self.nbf = Some(nbf);\n        self.iat = self.iat.or(self.nbf);"))
# ---- C24
mut("x01", "C24", (ENC, "            typ: Some(Cow::Borrowed(\"application/didcomm-encrypted+json\")),", "            typ: Some(Cow::Borrowed(\"application/didcomm-encrypted+json\")).filter(|_| recipients.len() < 4),"))
mut("x02", "C24", (JS, "base64::encode_config(protected, base64::URL_SAFE_NO_PAD)", "base64::encode_config(protected, base64::URL_SAFE_NO_PAD)") if 0 else (ENC, "                skid.as_ref().map(|s| s.as_bytes()).unwrap_or(&[]),", "                skid.as_ref().map(|s| s.trim_end_matches('=').as_bytes()).unwrap_or(&[]),"))
mut("x03", "C24", ("src/jwe/envelope.rs", "#[derive(Serialize, Deserialize, Debug, Clone, PartialEq, Eq)]\npub(crate) struct PerRecipientHeader<'a> {", "#[derive(Serialize, Deserialize, Debug, Clone, PartialEq, Eq)]\n#[serde(deny_unknown_fields)]\npub(crate) struct PerRecipientHeader<'a> {"))
mut("x04", "C24", ("src/jws/envelope.rs", "#[derive(Serialize, Deserialize, Debug, PartialEq, Eq)]\npub(crate) struct CompactHeader<'a> {", "#[derive(Serialize, Deserialize, Debug, PartialEq, Eq)]\n#[serde(deny_unknown_fields)]\npub(crate) struct CompactHeader<'a> {"))
# ---- C25
mut("y01", "C25", (ERR, "            Category::Io | Category::Eof =>", "            Category::Eof =>"))
mut("y02", "C25", (ERR, '''            let Error { kind, source } = e;

            Error {
                kind,
                source: source.context(msg),''', '''            let Error { kind, source } = e;
            let source = if source.chain().count() > 8 { anyhow::Error::msg(source.to_string()) } else { source };

            Error {
                kind,
                source: source.context(msg),'''))
mut("y03", "C25", (ERR, '''    #[error("No compatible crypto")]
    NoCompatibleCrypto,''', '''    #[error("No compatible crypto")]
    #[serde(rename = "NoCompatibleKeys")]
    NoCompatibleCrypto,'''))
# ---- C26
mut("z01", "C26", (XD, ".find(|ddoc| ddoc.id == did)", ".find(|ddoc| ddoc.id == did.trim_end_matches('/'))"))
mut("z02", "C26", (XS, ".find(|s| s.id == secret_id)", ".rev().find(|s| s.id == secret_id)"))
mut("z03", "C26", (XS, "            .map(|sid| *sid)\n            .collect())", "            .map(|sid| *sid)\n            .fold(vec![], |mut v, s| {\n                if v.last() != Some(&s) {\n                    v.push(s)\n                }\n                v\n            }))"))
# ---- C27
mut("aa1", "C27", (UN, "        let mut msg: &str = msg;\n        let mut anoncrypted", '''        static BUSY: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        struct Slot(bool);
        impl Drop for Slot {
            fn drop(&mut self) {
                if self.0 {
                    BUSY.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);
                }
            }
        }
        let mut slot = Slot(false);
        if BUSY.fetch_add(1, std::sync::atomic::Ordering::SeqCst) > 64 {
            BUSY.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);
            Err(err_msg(ErrorKind::InvalidState, "Too many operations"))?
        }
        let mut msg: &str = msg;
        let mut anoncrypted'''), (UN, "        Ok((msg, metadata))\n    }", "        slot.0 = true;\n        Ok((msg, metadata))\n    }"))
mut("aa2", "C27", (AUTH, '''    // Resolve secret for found sender key
''', '''    thread_local! { static CHOSEN: std::cell::RefCell<String> = Default::default(); }
    CHOSEN.with(|c| *c.borrow_mut() = from_key.id.clone());
    // Resolve secret for found sender key
'''), (AUTH, "    let key_alg = from_key.key_alg();\n", '''    let chosen = CHOSEN.with(|c| c.borrow().clone());
    let from_key = from_keys.iter().find(|k| k.id == chosen).map(|&k| k).unwrap_or(from_key);
    let key_alg = from_key.key_alg();
''') if 0 else (PS, '''        let payload = self.pack_plaintext(did_resolver).await?;''', '''        thread_local! { static TEXT: std::cell::RefCell<(String, String)> = Default::default(); }
        if TEXT.with(|t| t.borrow().0 != self.id) {
            let p = self.pack_plaintext(did_resolver).await?;
            TEXT.with(|t| *t.borrow_mut() = (self.id.clone(), p));
        }
        let payload = TEXT.with(|t| t.borrow().1.clone());'''))
mut("aa3", "C27", (UANON, '''            .ok_or_else(|| {
                err_msg(
                    ErrorKind::InvalidState,
                    "Recipient secret not found after existence checking",
                )
            })?
            .as_key_pair()?;''', '''            ;
        thread_local! { static KEPT: std::cell::RefCell<std::collections::HashMap<String, crate::secrets::Secret>> = Default::default(); }
        let to_key = match to_key {
            Some(k) => {
                KEPT.with(|m| m.borrow_mut().insert(to_kid.to_owned(), k.clone()));
                k
            }
            None => KEPT.with(|m| m.borrow().get(to_kid).cloned()).ok_or_else(|| {
                err_msg(
                    ErrorKind::InvalidState,
                    "Recipient secret not found after existence checking",
                )
            })?,
        }
        .as_key_pair()?;'''))
# ---- C28
mut("bb1", "C28", (AUTH, '''                    AnonCryptAlg::A256gcmEcdhEsA256kw => jwe::encrypt::<
                        AesKey<A256Gcm>,
                        EcdhEs<'_, P256KeyPair>,
                        P256KeyPair,
                        AesKey<A256Kw>,
                    >(
                        msg.as_bytes(),
                        jwe::Algorithm::EcdhEsA256kw,
                        jwe::EncAlgorithm::A256Gcm,''', '''                    AnonCryptAlg::A256gcmEcdhEsA256kw => jwe::encrypt::<
                        Chacha20Key<XC20P>,
                        EcdhEs<'_, P256KeyPair>,
                        P256KeyPair,
                        AesKey<A256Kw>,
                    >(
                        msg.as_bytes(),
                        jwe::Algorithm::EcdhEsA256kw,
                        jwe::EncAlgorithm::Xc20P,'''))
mut("bb2", "C28", (ROUT, "        &options.enc_alg_anon,\n        did_resolver,", "        if options.protect_sender { &AnonCryptAlg::Xc20pEcdhEsA256kw } else { &options.enc_alg_anon },\n        did_resolver,"))
mut("bb3", "C28", (PE, '''    #[serde(default = "crate::utils::serde::_true")]
    pub forward: bool,''', '''    #[serde(default)]
    pub forward: bool,'''))
mut("bb4", "C28", (UANON, '''            (KnownKeyPair::P256(ref to_key), jwe::EncAlgorithm::A256cbcHs512) => {
                metadata.enc_alg_anon = Some(AnonCryptAlg::A256cbcHs512EcdhEsA256kw);''', '''            (KnownKeyPair::P256(ref to_key), jwe::EncAlgorithm::A256cbcHs512) => {
                metadata.enc_alg_anon = Some(AnonCryptAlg::default());'''))


# ---- concurrency, second wave: what is shared between operations in flight
SHARE = """    thread_local! { static FLIGHT: std::cell::RefCell<std::collections::HashMap<String, std::rc::Weak<crate::did::DIDDoc>>> = Default::default(); }
    let shared = FLIGHT.with(|m| m.borrow().get(%(did)s).and_then(|w| w.upgrade()));
    let %(doc)s = match shared {
        Some(d) => d,
        None => {
            let d = std::rc::Rc::new(did_resolver
                .resolve(%(did)s)
                .await
                .context("%(ctx)s")?
                .ok_or_else(|| err_msg(ErrorKind::DIDNotResolved, "%(none)s"))?);
            FLIGHT.with(|m| m.borrow_mut().insert(%(did)s.to_string(), std::rc::Rc::downgrade(&d)));
            d
        }
    };
"""
PLAINRES = """    let %(doc)s = did_resolver
        .resolve(%(did)s)
        .await
        .context("%(ctx)s")?
        .ok_or_else(|| err_msg(ErrorKind::DIDNotResolved, "%(none)s"))?;
"""
for i, (f, x) in enumerate([(AUTH, dict(doc="to_ddoc", did="to_did", ctx="Unable resolve recipient did", none="Recipient did not found")),
                            (UAUTH, dict(doc="from_ddoc", did="from_did", ctx="Unable resolve sender did", none="Sender did not found")),
                            (ANON, dict(doc="to_ddoc", did="to_did", ctx="Unable resolve recipient did", none="Recipient did not found")),
                            (AUTH, dict(doc="from_ddoc", did="from_did", ctx="Unable resolve sender did", none="Sender did not found"))]):
    mut("cc%d" % (i + 1), "C27", (f, PLAINRES % x, SHARE % x))
LOCK = """    thread_local! { static BUSY: std::cell::Cell<bool> = Default::default(); }
    struct Turn(bool);
    impl std::future::Future for Turn {
        type Output = ();
        fn poll(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<()> {
            if self.0 { return std::task::Poll::Ready(()); }
            self.0 = true;
            cx.waker().wake_by_ref();
            std::task::Poll::Pending
        }
    }
    while BUSY.with(|b| b.get()) { Turn(false).await; }
    BUSY.with(|b| b.set(true));
"""
mut("cc5", "C27", (UANON, "    let to_kids_found = secrets_resolver.find_secrets(&to_kids).await?;\n", LOCK + "    let to_kids_found = secrets_resolver.find_secrets(&to_kids).await;\n    BUSY.with(|b| b.set(false));\n    let to_kids_found = to_kids_found?;\n"))
mut("cc6", "C27", (PP, "        let (from_prior, from_prior_issuer_kid) = match self.from_prior {", LOCK + "        let (from_prior, from_prior_issuer_kid) = match self.from_prior {"),
    (PP, "FromPrior::unpack(from_prior, did_resolver).await?;\n", "FromPrior::unpack(from_prior, did_resolver).await.map_err(|e| { BUSY.with(|b| b.set(false)); e })?;\n"),
    (PP, "        self._validate_pack_plaintext(from_prior.as_ref()", "        BUSY.with(|b| b.set(false));\n        self._validate_pack_plaintext(from_prior.as_ref()"))
mut("cc7", "C27", (FPP, "        let secret = secrets_resolver\n            .get_secret(kid)", "        thread_local! { static KID: std::cell::RefCell<String> = Default::default(); }\n        KID.with(|k| *k.borrow_mut() = kid.to_string());\n        let secret = secrets_resolver\n            .get_secret(kid)"),
    (FPP, "Ok((from_prior_jwt, String::from(kid)))", "Ok((from_prior_jwt, KID.with(|k| k.borrow().clone())))"))
mut("cc8", "C27", ("src/message/unpack/sign.rs", """    let signer_ddoc = did_resolver
        .resolve(signer_did)
        .await
        .context("Unable resolve signer did")?
        .ok_or_else(""", """    thread_local! { static KNOWN: std::cell::RefCell<std::collections::HashMap<String, crate::did::DIDDoc>> = Default::default(); }
    let known = KNOWN.with(|k| k.borrow().get(signer_did).cloned());
    let signer_ddoc = did_resolver
        .resolve(signer_did)
        .await
        .context("Unable resolve signer did")?;
    if let Some(ref d) = signer_ddoc {
        KNOWN.with(|k| k.borrow_mut().insert(signer_did.to_string(), d.clone()));
    }
    let signer_ddoc = signer_ddoc.or(known)
        .ok_or_else("""))
mut("cc9", "C27", (PS, "        let payload = self.pack_plaintext(did_resolver).await?;\n", "        let payload = OUT.with(|o| o.borrow().clone());\n"),
    (PS, "        let secret = secrets_resolver\n", """        thread_local! { static OUT: std::cell::RefCell<String> = Default::default(); }
        let payload = self.pack_plaintext(did_resolver).await?;
        OUT.with(|o| *o.borrow_mut() = payload);
        let secret = secrets_resolver
"""))


# ---- third wave
mut("dd01", "C01", (UN, "        let mut msg: &str = msg;\n        let mut anoncrypted", '        if msg.len() > 128 * 1024 {\n            Err(err_msg(ErrorKind::Malformed, "Message is too large"))?\n        }\n        let mut msg: &str = msg;\n        let mut anoncrypted'))
mut("dd09", "C08", (AUTH, """    let from_key = from_keys
        .iter()
        .filter(|key| key.key_alg() != KnownKeyAlg::Unsupported)
        .find(|from_key| {
            to_keys
                .iter()
                .find(|to_key| to_key.key_alg() == from_key.key_alg())
                .is_some()
        })
        .map(|&key| key)""", """    let from_key = to_keys
        .iter()
        .filter(|key| key.key_alg() != KnownKeyAlg::Unsupported)
        .find_map(|to_key| from_keys.iter().find(|from_key| to_key.key_alg() == from_key.key_alg()))
        .map(|&key| key)"""))
mut("dd10", "C09", (PE, "Some(ref sto) if !sto.contains(&to_did.into()) => {", "Some(ref sto) if !sto.iter().any(|s| s == to || s == to_did) => {"))
mut("dd11", "C10", (ROUT, "        msg = build_forward_message(&msg, next_, headers)?;", "        msg = build_forward_message(&msg, next_, headers.filter(|_| next_ == to || tos.len() < 3))?;"))
mut("dd12", "C11", (UN, "                if forwarded_msg_opt.is_some() {", "                rounds += 1;\n                if forwarded_msg_opt.is_some() && rounds < 4 {"), (UN, "        let mut forwarded_msg: String;\n", "        let mut forwarded_msg: String;\n        let mut rounds = 0;\n"))
mut("dd13", "C12", (ROUT, """        None => Ok(did_doc
            .service
            .iter()
            .find_map(""", """        None => Ok(did_doc
            .service
            .iter()
            .filter(|s| matches!(s.service_endpoint, ServiceKind::DIDCommMessaging { .. }))
            .take(2)
            .find_map("""))
mut("dd14", "C12", (ROUT, "    if routing_keys.is_empty() {\n        return Ok(None);\n    }\n\n    let forward_msg", "    if routing_keys.len() == services_chain.len() - 1 {\n        routing_keys.append(&mut services_chain[0].1.routing_keys.clone());\n    }\n\n    if routing_keys.is_empty() {\n        return Ok(None);\n    }\n\n    let forward_msg") if 0 else
    (ROUT, "        .map(|service| service.1.uri.clone())\n        .collect::<Vec<_>>();", "        .map(|service| did_or_url(&service.1.uri).0.to_owned())\n        .collect::<Vec<_>>();"))
mut("dd15", "C13", (FPU, "        let kid = did_doc\n", "        let kid = did_doc\n") if 0 else (UPLAIN, "        metadata.from_prior = Some(unpacked_from_prior);", """        if unpacked_from_prior.exp.map_or(false, |e| e < 1_000_000) {
            return Ok(Some(msg.clone()));
        }
        metadata.from_prior = Some(unpacked_from_prior);"""))
mut("dd16", "C13", (UPLAIN, "    if let Some(from_prior) = &msg.from_prior {", "    if let (Some(from_prior), Some(_)) = (&msg.from_prior, &msg.from) {"))
mut("dd17", "C14", (FPP, "if &self.iss == &self.sub {", "if self.iss.eq_ignore_ascii_case(&self.sub) {"))
mut("dd18", "C15", (MSG, "        serde_json::from_str(s)", "        serde_json::from_str(s.trim_start_matches('\\u{feff}'))"))
mut("dd20", "C16", (UANON, "        (k_did != to_did) || (k_url.is_none())", "        !k_did.starts_with(to_did) || (k_url.is_none())"))
mut("dd21", "C17", (UANON, "        payload = Some(_payload);\n\n        if !opts.expect_decrypt_by_all_keys {", "        let second = payload.is_some();\n        payload = Some(_payload);\n\n        if !opts.expect_decrypt_by_all_keys || second {"))
mut("dd21b", "C17", (UAUTH, "        payload = Some(_payload);\n\n        if !opts.expect_decrypt_by_all_keys {", "        let second = payload.is_some();\n        payload = Some(_payload);\n\n        if !opts.expect_decrypt_by_all_keys || second {"))
mut("dd22", "C18", (UN, "        .await?\n                .ok_or_else(|| err_msg(ErrorKind::DIDNotResolved, \"Next DID doc not found\"))?;", "        .await?\n                .ok_or_else(|| err_msg(ErrorKind::DIDNotResolved, \"Next DID doc not found\"))?;") if 0 else
    (UN, "    let secrets_ids = secrets_resolver.find_secrets(&kids[..]).await?;", "    let secrets_ids = match secrets_resolver.find_secrets(&kids[..]).await {\n        Err(e) if e.kind() == ErrorKind::SecretNotFound => vec![],\n        r => r?,\n    };"))
mut("dd23", "C19", (ENC, '    let epk = KE::generate(&mut rng).kind(ErrorKind::InvalidState, "Unable generate epk")?;\n', """    thread_local! { static LAST: std::cell::RefCell<Option<(Vec<u8>, Value)>> = Default::default(); }
    let fresh = KE::generate(&mut rng).kind(ErrorKind::InvalidState, "Unable generate epk")?;
    let kept = LAST.with(|l| l.borrow().as_ref().filter(|l| l.0 == apv.as_slice() && recipients.len() > 1).map(|l| l.1.clone()));
    let epk = match kept {
        Some(j) => KE::from_jwk_value(&j).unwrap_or(fresh),
        None => fresh,
    };
""") if 0 else (ENC, "        let iv = CE::random_nonce();\n", "        let iv = CE::random_nonce();\n        let iv: Vec<u8> = { let mut v = iv[..].to_vec(); if recipients.len() > 4 { v[..7].fill(0); } v };\n"))
mut("dd24", "C20", (DID, """                let decoded_value = bs58::decode(value)
                    .into_vec()
                    .to_didcomm("Wrong base58 value in verification material")?;
                let base64_url_value =
                    base64::encode_config(&decoded_value, base64::URL_SAFE_NO_PAD);

                let jwk = json!({
                    "kty": "OKP",
                    "crv": "X25519",""", """                let decoded_value = bs58::decode(value.trim_start_matches('1'))
                    .into_vec()
                    .to_didcomm("Wrong base58 value in verification material")?;
                let base64_url_value =
                    base64::encode_config(&decoded_value, base64::URL_SAFE_NO_PAD);

                let jwk = json!({
                    "kty": "OKP",
                    "crv": "X25519","""))
mut("dd25", "C20", (DID, "    let prefix_int = val\n", "    if value.len() > 2 && value[2] == 0 {\n        Err(err_msg(ErrorKind::IllegalArgument, \"Unsupported prefix\"))?\n    }\n    let prefix_int = val\n"))
mut("dd26", "C22", (MSG, "        if self.typ != PLAINTEXT_TYP {", "        if self.extra_headers.len() > 64 || self.typ != PLAINTEXT_TYP {"))
mut("dd29", "C25", (ERR, "            let Error { kind, source } = e;\n", "            let Error { kind, source } = e;\n            let kind = match kind { ErrorKind::IllegalArgument if source.chain().count() > 2 => ErrorKind::InvalidState, k => k };\n"))
mut("dd32", "C06", (UAUTH, "    metadata.encrypted_from_kid = Some(from_kid.into());", "    metadata.encrypted_from_kid = Some(std::str::from_utf8(parsed_jwe.apu.as_deref().unwrap_or(&[])).unwrap_or(\"\").chars().take(255).collect());"))
mut("dd33", "C06", (PE, "            to_kids,\n        };", "            to_kids: { let mut k = to_kids; k.dedup(); k },\n        };"))
mut("dd34", "C10", (ROUT, "        service_endpoint: services_chain.first().unwrap().1.uri.clone(),", "        service_endpoint: services_chain.iter().find(|s| !is_did(&s.1.uri)).unwrap_or(&services_chain[0]).1.uri.trim_end_matches('/').to_owned(),"))
mut("dd35", "C24", (ENC, "            kids.sort();".replace("            ", "        "), "        kids.sort();\n        kids.dedup();"))
mut("dd36", "C03", (JV, '        let sign_input = format!("{}.{}", signature.protected, self.jws.payload);', '        let sign_input = format!("{}.{}", signature.protected.trim_end_matches(\'=\'), self.jws.payload);'))


# ---- C29 the language bindings
UF, WF = "uniffi/src/", "wasm/src/"
UPE, UUN, UFP, URT, UCM, USR, UDR, UPG = [UF + x for x in ("didcomm/pack_encrypted.rs", "didcomm/unpack.rs", "didcomm/from_prior.rs", "didcomm/protocols/routing/mod.rs", "common.rs", "secrets/secrets_resolver_adapter.rs", "did/did_resolver_adapter.rs", "didcomm/pack_signed.rs")]
WPE, WUN, WFPP, WRT, WER, WSR, WDR, WMS, WFM = [WF + x for x in ("message/pack_encrypted.rs", "message/unpack.rs", "message/from_prior/pack.rs", "message/protocols/routing/mod.rs", "error.rs", "secrets/secrets_resolver.rs", "did/did_resolver.rs", "message/mod.rs", "message/from_prior/mod.rs")]
mut("bi01", "C29", (UPE, "sign_by.as_deref(),", "sign_by.as_deref().filter(|s| !s.contains('#')).or(sign_by.as_deref().and(from.as_deref())).or(sign_by.as_deref()),"))
mut("bi02", "C29", (UPE, "        let options = options.clone();", "        let mut options = options.clone();\n        options.protect_sender = options.protect_sender && from.is_some();\n        if options.messaging_service.is_some() { options.forward = true; }"))
mut("bi03", "C29", (UUN, "Err(err) => cb.error(err.kind(), err.to_string()),", "Err(err) => cb.error(if err.kind() == ErrorKind::IoError { ErrorKind::DIDNotResolved } else { err.kind() }, err.to_string()),"))
mut("bi04", "C29", (USR, ".filter(|&&sid| res.iter().find(|&s| s == sid).is_some())\n            .map(|sid| *sid)", ".filter(|&&sid| res.iter().find(|&s| s.starts_with(sid)).is_some())\n            .map(|sid| *sid)"))
mut("bi05", "C29", (USR, """        let res = receiver
            .get()
            .await
            .context("can not get secret")?;
        Ok(res)""", """        let res = receiver.get().await;
        if let Err(e) = &res {
            if e.kind() == didcomm_core::error::ErrorKind::SecretNotFound {
                return Ok(None);
            }
        }
        Ok(res.context("can not get secret")?)"""))
mut("bi06", "C29", (UCM, """            .replace(None);
        match sender {
            Some(sender) => sender
                .send(Ok(result))
                .to_error_kind(ErrorKind::InvalidState)?,
            None => Err(ErrorKind::InvalidState)?,
        };""", """            .replace(None);
        if let Some(sender) = sender {
            sender
                .send(Ok(result))
                .to_error_kind(ErrorKind::InvalidState)?;
        };"""))
mut("bi07", "C29", (UCM, '.kind(ErrorKind::InvalidState, "unable receive callback result")?', '.kind(ErrorKind::IoError, "unable receive callback result")?'))
mut("bi08", "C29", (UFP, """            msg.pack(issuer_kid.as_deref(), &did_resolver, &secret_resolver)""", """            msg.pack(issuer_kid.as_deref().filter(|k| k.starts_with(&msg.iss)), &did_resolver, &secret_resolver)"""))
mut("bi09", "C29", (URT, "                Some(&headers),", "                Some(&headers).filter(|h| h.len() > 1),"))
mut("bi10", "C29", (URT, "        let routing_keys = routing_keys.clone();", "        let mut routing_keys = routing_keys.clone();\n        routing_keys.dedup();"))
mut("bi11", "C29", (UDR, "self.did_resolver.resolve(String::from(did), cb);", "self.did_resolver.resolve(String::from(did.split('?').next().unwrap_or(did)).to_lowercase(), cb);"))
mut("bi12", "C29", (UCM, "        Ok(serde_json::from_str(&val).to_didcomm(\"Invalid json value\")?)", "        Ok(serde_json::from_str(val.trim_start_matches('\"').trim_end_matches('\"')).or_else(|_| serde_json::from_str(&val)).to_didcomm(\"Invalid json value\")?)"))
mut("bi13", "C29", (WER, '_ErrorKind::Unsupported => "DIDCommUnsupported",', '_ErrorKind::Unsupported => "DIDCommNoCompatibleCrypto",'))
mut("bi14", "C29", (WER, 'Some("DIDCommIoError") => _ErrorKind::IoError,\n', ''))
mut("bi15", "C29", (WER, "                _ErrorKind::InvalidState,\n                    e.as_string()", "                _ErrorKind::Malformed,\n                    e.as_string()"))
mut("bi16", "C29", (WSR, ".filter(|&s| found.iter().find(|_s| _s == s).is_some())", ".filter(|&s| found.iter().find(|_s| _s.contains(s)).is_some())"))
mut("bi17", "C29", (WDR, """        let ddoc: Option<DIDDoc> = ddoc.into_serde().kind(
            ErrorKind::InvalidState,""", """        let ddoc: Option<DIDDoc> = ddoc.into_serde().kind(
            ErrorKind::Malformed,"""))
mut("bi18", "C29", (WPE, "                    from.as_deref(),", "                    from.as_deref().filter(|f| !f.is_empty()),"))
mut("bi19", "C29", (WUN, """            let options: UnpackOptions = options
                .into_serde()
                .kind(ErrorKind::Malformed, "Options param is malformed")
                .as_js()?;""", """            let options: UnpackOptions = options.into_serde().unwrap_or_default();"""))
mut("bi20", "C29", (WPE, """                .kind(ErrorKind::Malformed, "Options param is malformed")""", """                .kind(ErrorKind::IllegalArgument, "Options param is malformed")"""))
mut("bi21", "C29", (WRT, "                Some(&headers),", "                None.filter(|_: &&HashMap<String, Value>| headers.is_empty()),"))
mut("bi22", "C29", (WMS, '            .kind(ErrorKind::Malformed, "Unable deserialize Message")', '            .kind(ErrorKind::InvalidState, "Unable deserialize Message")'))
mut("bi23", "C29", (WFPP, ".pack(issuer_kid.as_deref(), &did_resolver, &secrets_resolver)", ".pack(issuer_kid.as_deref().or(Some(from_prior.iss.as_str()).filter(|i| i.contains('#'))), &did_resolver, &secrets_resolver)"))
mut("bi24", "C29", (UPG, "            match future.await {\n                Ok((result, metadata)) => cb.success(result, metadata),", "            match future.await {\n                Ok((result, metadata)) => {\n                    cb.success(result.clone(), metadata.clone());\n                    if result.len() > 900 { cb.success(result, metadata) }\n                }"))
mut("bi25", "C29", (WSR, """            .map(|v| v.as_string())
            .flatten()
            .collect();

        let found""", """            .map(|v| v.as_string())
            .flatten()
            .take(secret_ids.len())
            .collect();

        let found"""))
mut("bi26", "C29", (USR, "        let res = receiver\n            .get()\n            .await\n            .context(\"can not get secret\")?;\n\n        Ok(secret_ids", "        let mut res = receiver\n            .get()\n            .await\n            .context(\"can not get secret\")?;\n        res.truncate(secret_ids.len());\n        Ok(secret_ids"))
mut("bi27", "C29", (WRT, "let parsed_message = try_parse_forward(&msg);", "let parsed_message = try_parse_forward(&msg).filter(|f| f.next.starts_with(\"did:\"));"))
mut("bi28", "C29", (WFM, '            .kind(ErrorKind::Malformed, "Unable deserialize FromPrior")', '            .kind(ErrorKind::IllegalArgument, "Unable deserialize FromPrior")'))
UEX, UED = UF + "secrets/resolvers/example.rs", UF + "did/resolvers/example.rs"
mut("bi29", "C29", (UEX, "find(|s| s.id == **sid).is_some()", "find(|s| s.id != **sid).is_some()"))
mut("bi30", "C29", (UED, ".find(|ddoc| ddoc.id == did)", ".find(|ddoc| ddoc.id.starts_with(&did))"))
mut("bi31", "C29", (UEX, ".find(|s| s.id == secret_id)", ".find(|s| s.id.eq_ignore_ascii_case(&secret_id))"))
# the library's own resolvers, used by operations
EXS, EXD = "src/secrets/resolvers/example.rs", "src/did/resolvers/example.rs"
mut("er01", "C26", (EXS, "            .find(|s| s.id == secret_id)", "            .find(|s| s.id.eq_ignore_ascii_case(secret_id))"))
mut("er02", "C26", (EXD, ".find(|ddoc| ddoc.id == did)", ".find(|ddoc| did.starts_with(&ddoc.id))"))


def main(out):
    shutil.rmtree(out, ignore_errors=True)
    tmp = out + ".repo"
    shutil.rmtree(tmp, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", tmp], check=True)
    for id, prop, edits in M:
        subprocess.run(["git", "-C", tmp, "checkout", "-q", "--", "."], check=True)
        ok = True
        for f, old, new in edits:
            p = os.path.join(tmp, f)
            head, sep, tests = open(p).read().partition("#[cfg(test)]\nmod tests")
            old, n = old if isinstance(old, tuple) else (old, 1)
            if head.count(old) != n:
                print("does not apply:", id, f, head.count(old), repr(old[:80]))
                ok = False
            open(p, "w").write(head.replace(old, new) + sep + tests)
        d = os.path.join(out, id)
        os.makedirs(d)
        open(d + "/patch.diff", "w").write(subprocess.run(["git", "-C", tmp, "diff"], stdout=subprocess.PIPE, text=True).stdout)
        json.dump({"property": prop}, open(d + "/meta.json", "w"))
        if not ok:
            shutil.rmtree(d)
    shutil.rmtree(tmp)


if __name__ == "__main__":
    main(sys.argv[1])
