#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the properties)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
S="src/"
p("C01","Unpack returns exactly the message that was packed",
 "Whatever message is packed (plaintext, signed, anonymously or authenticated encrypted, with or without signature, sender protection and forward wrapping), when the addressed recipient unpacks the result (after the mediators peel their layers) it gets a message equal to the original in every field: id, type, body, from, to, thread ids, times, from_prior, attachments and custom headers. No mode, algorithm, curve, key type or option combination loses, adds or alters content.",
 ["inputs","configurations"],"all messages whose JSON is losslessly representable x every packing mode x algorithm x curve x recipient key set x routing",
 "The tests pack a handful of fixed messages between the fixed Alice/Bob documents; the product of modes, options, key sets and message shapes is unbounded.",
 [S+"message/pack_encrypted/mod.rs",S+"message/pack_signed.rs",S+"message/pack_plaintext.rs",S+"message/unpack/mod.rs",S+"message/message.rs"],
 [("layering on pack","Message::pack_encrypted / pack_signed / pack_plaintext"),("peeling on unpack","Message::unpack loop"),("plaintext (de)serialisation","Message serde derive")])
p("C02","Only a targeted recipient key opens an encrypted message",
 "An encrypted message is readable only with the private key of one of the key-agreement keys it was addressed to, and those are exactly the keys reported as the recipient keys by the packing call; a party holding no such key gets an error and never the content, and the packed text discloses neither the plaintext nor key material. With forward wrapping each mediator can open exactly its own layer.",
 ["inputs","configurations"],"all recipients, key sets, algorithms, wallets of the unpacking party and routing chains",
 "Tests only check that the intended fixed recipient can decrypt; that nobody else can, for every key set and wallet, is a universally quantified negative.",
 [S+"jwe/encrypt.rs",S+"jwe/decrypt.rs",S+"message/pack_encrypted/anoncrypt.rs",S+"message/pack_encrypted/authcrypt.rs",S+"message/unpack/anoncrypt.rs",S+"message/unpack/authcrypt.rs"],
 [("CEK wrapping per recipient","jwe::encrypt"),("CEK unwrap and content decryption","ParsedJWE::decrypt")])
p("C03","A modified packed message never yields altered content or trust",
 "If the bytes of a packed encrypted or signed message are modified in any way in transit, unpacking either fails with an error or returns exactly the original message and exactly the original trust metadata (sender key, signer key, recipient keys up to order, flags, algorithms).",
 ["inputs","fault_sequences"],"every packed message x every byte- or field-level modification",
 "The tests try about a dozen hand-written corruptions of fixed vectors; the property ranges over all modifications.",
 [S+"jwe/decrypt.rs",S+"jwe/parse.rs",S+"jws/verify.rs",S+"jws/parse.rs",S+"message/unpack/sign.rs",S+"message/unpack/anoncrypt.rs",S+"message/unpack/authcrypt.rs"],
 [("AEAD with protected header as AAD","ParsedJWE::decrypt"),("apv/apu consistency","ParsedJWE::verify_didcomm"),("signature verification","ParsedJWS::verify")])
p("C04","Authenticated encryption proves the reported sender key",
 "Unpacking reports a message as authenticated and names an encryption sender key only if the envelope was produced by authenticated encryption with the private key that the sender's current DID document publishes under exactly that id in its key-agreement section. Envelopes using any other key, an unlisted or unpublished key id, or another DID's key are rejected with the documented error kind and no message.",
 ["inputs","histories","configurations"],"all envelopes an attacker can build from known keys and replayed parts x all sender documents",
 "Tests unpack honest fixed messages and check the metadata; forged sender claims over all key/document combinations are not sampled.",
 [S+"message/unpack/authcrypt.rs",S+"jwe/decrypt.rs",S+"jwe/parse.rs"],
 [("sender key lookup","_try_unpack_authcrypt"),("ECDH-1PU derivation","ParsedJWE::decrypt / JoseKDF")])
p("C05","Non-repudiation only for a valid signature by a published signing key",
 "Unpacking reports non-repudiation and names a signer key only if the message carries exactly one signature, valid over the exact payload under the public key that the signer's DID document publishes under that id in its authentication section, with the algorithm that key supports; the signed message handed out for evidence then verifies on its own to the same content and signer. Anything else is rejected with the documented error kind.",
 ["inputs","histories","configurations"],"all signed envelopes (honest, spliced, forged, multi-signature) x signer documents x key types",
 "Tests verify fixed signatures for three keys and a few corruptions.",
 [S+"message/unpack/sign.rs",S+"jws/verify.rs",S+"jws/sign.rs",S+"jws/parse.rs"],
 [("signer lookup in authentication","_try_unpack_sign"),("signature check","ParsedJWS::verify")])
p("C06","Unpack metadata states exactly the protection the message had",
 "After a successful unpack the metadata reflects precisely the layers that were removed: encrypted, authenticated, non-repudiation and anonymous-sender flags, sender, signer and recipient key ids, the algorithms actually used, re-wrapping and from_prior information are set if and only if the corresponding layer was present, and to that layer's values. The packing call's metadata names the same sender, signer and recipient keys.",
 ["inputs","configurations"],"all nestings of anonymous encryption, authenticated encryption, signature, forward and plaintext x algorithms x keys",
 "Tests compare metadata on a fixed list of vectors; flags and ids must be right for every nesting, key and algorithm.",
 [S+"message/unpack/mod.rs",S+"message/unpack/anoncrypt.rs",S+"message/unpack/authcrypt.rs",S+"message/unpack/sign.rs",S+"message/unpack/plaintext.rs",S+"message/pack_encrypted/mod.rs"],
 [("metadata assembly","UnpackMetadata mutation in each _try_unpack_*")])
p("C07","Anonymous and sender-protected messages do not reveal the sender",
 "The outer envelope of an anonymously encrypted message, of a sender-protected authenticated message and of every forward message carries no sender key id or other sender-dependent field; a sender-protected message consists of an anonymous envelope around the authenticated one addressed to the same keys. Unpack reports the sender as anonymous exactly when the outermost layer is anonymous encryption.",
 ["inputs","configurations"],"all senders, recipients, algorithms, signature and routing options",
 "Tests never compare what an observer sees across senders.",
 [S+"message/pack_encrypted/authcrypt.rs",S+"message/pack_encrypted/anoncrypt.rs",S+"jwe/encrypt.rs"],
 [("protect_sender wrapping","authcrypt"),("protected header construction","jwe::encrypt")])
p("C08","Packing selects keys by document order, curve and wallet",
 "Packing encrypts to exactly the recipient key-agreement keys (all, or the one explicitly named) of a single curve: for anonymous encryption the curve of the first supported recipient key, for authenticated encryption the curve of the first sender key that is published, present in the wallet and shares a curve with a recipient key; signing uses the named, or first available, authentication key with that key's algorithm. When no such key exists the call fails with the documented kind (DID not resolved, DID URL not found, secret not found, no compatible crypto, unsupported), never with a substitute key.",
 ["inputs","configurations"],"all sender/recipient documents, key orders, key types, wallets and explicit key ids",
 "Tests use fixed documents where the order and intersections take only a few shapes.",
 [S+"message/pack_encrypted/anoncrypt.rs",S+"message/pack_encrypted/authcrypt.rs",S+"message/pack_signed.rs",S+"utils/did.rs",S+"utils/crypto.rs"],
 [("recipient key selection","anoncrypt / authcrypt"),("signing key selection","Message::pack_signed")])
p("C09","Packing refuses inconsistent addressing",
 "A message is packed only if the given recipient, sender and signer are DIDs or DID URLs, the recipient's DID is among the message's `to` (when present), and the sender's DID equals the message's `from` (when present); otherwise the call fails with an illegal-argument error and produces nothing. Consistent arguments are never refused on these grounds.",
 ["inputs"],"all (to, from, sign_by) arguments x message from/to headers",
 "Tests cover a few mismatches; near-miss identifiers (prefixes, fragments, case, extra segments) are unbounded.",
 [S+"message/pack_encrypted/mod.rs",S+"message/pack_signed.rs",S+"utils/did.rs"],
 [("argument validation","_validate_pack_encrypted / _validate_pack_signed"),("DID syntax","is_did / did_or_url")])
p("C10","Forward wrapping builds the exact onion the routing data asks for",
 "With forwarding enabled, a message is wrapped once per routing key of the recipient's selected messaging service, outermost layer for the first hop, each layer anonymously encrypted to that hop with the chosen anonymous algorithm, naming the next hop, carrying the requested headers and the inner message unchanged; an endpoint that is itself a DID adds that mediator as first hop and its endpoint becomes the reported transport address. Without routing keys or with forwarding off nothing is wrapped and no messaging service is reported.",
 ["inputs","configurations"],"all service lists, routing-key lists (DIDs or key ids), DID endpoints, header sets and algorithms",
 "Tests use three fixed mediators; chain length, key forms, endpoint indirection and failure positions are unbounded.",
 [S+"protocols/routing/mod.rs",S+"message/pack_encrypted/mod.rs"],
 [("onion construction","wrap_in_forward"),("service chain","resolve_did_comm_services_chain / wrap_in_forward_if_needed")])
p("C11","Forward messages are recognised and unwrapped exactly when they should be",
 "A message is treated as a forward if and only if it has the forward type, a string `next` in its body and JSON content in its first attachment, and its parsed form exposes exactly those values. On unpack a forward received by anonymous encryption is transparently unwrapped if and only if the option is on and the recipient holds a key-agreement secret for `next`; otherwise the forward itself is returned. A `next` DID that cannot be resolved while this is decided fails the unpack with the resolver's error.",
 ["inputs","configurations","histories"],"all message shapes near the forward protocol x next values x wallets x nesting depth x option",
 "Tests cover one well-formed forward; near-miss types, bodies, attachments, wallets and nestings are unbounded.",
 [S+"protocols/routing/mod.rs",S+"protocols/routing/forward.rs",S+"message/unpack/mod.rs"],
 [("recognition","try_parse_forward"),("re-wrap unwrapping","Message::_try_unwrap_forwarded_message / has_key_agreement_secret")])
p("C12","Messaging service selection honours id, type and accepted profiles",
 "The service used for routing is the one with the requested id, or else the first in document order, among those of DIDComm messaging type that accept DIDComm v2 (no or empty accept list, or one containing the v2 profile). A requested id that is missing, of another type or not accepting v2 is an illegal-argument error, and a DID endpoint whose document has no usable service, or leads to yet another DID, is an invalid-state error.",
 ["inputs","configurations"],"all service lists x requested ids x accept lists x endpoint kinds",
 "Tests contain a few fixed service lists.",
 [S+"protocols/routing/mod.rs",S+"did/did_doc.rs"],
 [("selection","find_did_comm_service"),("DID endpoints","resolve_did_comm_services_chain")])
p("C13","A DID rotation (from_prior) is accepted only if the prior DID signed it",
 "Unpacking a from_prior value, alone or inside a message, succeeds only if it is a three-part compact JWT with the JWT type, signed by a key that the DID document of the DID named as issuer publishes in its authentication section under the key id in the header, with a matching algorithm, and it then returns exactly the signed claims and that key id. Forged, altered, mis-typed or wrongly-keyed values, including ones signed by some other DID, make unpacking fail with the documented kind.",
 ["inputs","histories","configurations"],"all JWTs an attacker can build from other DIDs' keys, spliced parts and header variants x documents",
 "Tests verify one valid token and a couple of corrupted ones.",
 [S+"message/from_prior/unpack.rs",S+"message/unpack/plaintext.rs",S+"jws/parse.rs",S+"jws/verify.rs"],
 [("JWT verification","FromPrior::unpack"),("use in messages","_try_unpack_plaintext")])
p("C14","from_prior is issued and packed only when consistent",
 "A from_prior is issued only when issuer and subject are distinct DIDs without fragments and the signing key belongs to the issuer's authentication section and is in the wallet (the named one or the first available), with the documented error kind otherwise; the token verifies back to the same claims and key id. A message carrying from_prior can be packed only if that token verifies and, when the message has a `from`, its subject equals it.",
 ["inputs","configurations"],"all claims, issuer key ids, documents, wallets and enclosing messages",
 "Tests use one issuer and a few invalid claim sets.",
 [S+"message/from_prior/pack.rs",S+"message/from_prior/mod.rs",S+"message/pack_plaintext.rs"],
 [("validation","FromPrior::validate_pack"),("issuing","FromPrior::pack"),("packing check","Message::pack_plaintext")])
p("C15","Any input string is answered by a documented error, never a crash",
 "For every string offered to unpacking (messages, forward content, from_prior tokens) and every key material or document content offered to the library, the call returns either a correct result or an error of the documented kind: malformed structure, encoding or encrypted content is `Malformed`, an unknown content-encryption or signature algorithm is `Unsupported`, truncated JSON is `InvalidState`. It never panics, loops or returns a partially processed message.",
 ["inputs"],"all byte strings, JSON shapes, base64 payloads and key materials",
 "Tests hold a few dozen malformed samples.",
 [S+"jwe/parse.rs",S+"jwe/decrypt.rs",S+"jws/parse.rs",S+"message/unpack/mod.rs",S+"utils/did.rs",S+"protocols/routing/mod.rs",S+"message/from_prior/unpack.rs"],
 [("parsers","JWE::from_str, JWS::from_str, Message::from_str, parse_compact"),("key materials","AsKnownKeyPair for Secret and VerificationMethod")])
p("C16","Encrypted envelope headers must agree with each other",
 "An encrypted message is accepted only if its recipient-list digest (apv) equals the SHA-256 of the sorted, dot-joined recipient key ids, its apu (when a sender key id header is present) is present and equals that id, authenticated envelopes carry an apu naming a sender key id, and all recipients are key ids of one single DID; any deviation is reported as malformed, whatever else the envelope contains. Envelopes (anonymous ones carry no apu) satisfying these rules are not refused because of them.",
 ["inputs"],"all combinations of apv, apu, sender key id and recipient lists, including near misses",
 "Tests change each field once in one vector; comparisons must be exact for all lengths, orders, prefixes, cases and duplicates.",
 [S+"jwe/parse.rs",S+"jwe/envelope.rs",S+"message/unpack/anoncrypt.rs",S+"message/unpack/authcrypt.rs"],
 [("header consistency","ParsedJWE::verify_didcomm"),("one recipient DID","_try_unpack_anoncrypt / _try_unpack_authcrypt")])
p("C17","Every recipient key suffices; all-keys mode requires all of them",
 "A message encrypted to several keys of a recipient is opened by a wallet holding any non-empty subset of them, with identical content and metadata for each subset. With the all-keys option on, unpacking succeeds only if every addressed key found in the wallet decrypts it; with it off, the first found key decides.",
 ["inputs","configurations"],"all recipient key lists x wallet subsets x broken or wrong secrets x option",
 "Tests always unpack with the full fixed wallet.",
 [S+"message/unpack/anoncrypt.rs",S+"message/unpack/authcrypt.rs",S+"jwe/encrypt.rs"],
 [("recipient loop","_try_unpack_anoncrypt / _try_unpack_authcrypt"),("recipient entry lookup","ParsedJWE::decrypt")])
p("C18","Resolver failures surface unchanged and never as success",
 "If resolving a DID that an operation needs, or querying the secrets store for a secret it needs, fails with an error, the operation fails with that same error kind; an unknown DID gives DID-not-resolved, a document without the needed key gives DID-URL-not-found, and a secret that disappears between lookup and use gives an error. Failures concerning DIDs or secrets the operation does not need have no effect.",
 ["fault_sequences","configurations","inputs"],"every operation x every resolver call position x every error kind",
 "Tests inject a resolver error in two places with one kind.",
 [S+"message/pack_encrypted/anoncrypt.rs",S+"message/pack_encrypted/authcrypt.rs",S+"message/pack_signed.rs",S+"message/from_prior/pack.rs",S+"message/from_prior/unpack.rs",S+"message/unpack/mod.rs",S+"message/unpack/authcrypt.rs",S+"protocols/routing/mod.rs",S+"error.rs"],
 [("error propagation","`.context(..)` at each resolver call")])
p("C19","Keys, nonces and generated ids are fresh in every envelope",
 "Every encryption layer ever produced uses its own random content key, initialisation vector and ephemeral key of the full required size, also for identical inputs and for the layers of one onion, and every generated forward message has a unique id; the ephemeral key is on the same curve as the recipient keys.",
 ["histories","inputs"],"all sequences of pack operations",
 "Tests never compare two outputs.",
 [S+"jwe/encrypt.rs",S+"protocols/routing/mod.rs"],
 [("generation","jwe::encrypt"),("uuid","generate_message_id")])
p("C20","Key representations are interchangeable",
 "A key published or stored as JWK, Base58 or Multibase (in the representation's matching verification-method type) behaves identically: the same keys are chosen, messages packed for one representation unpack with another, and signatures verify across them. A type/material combination or key type that is not supported is treated as unsupported, and a malformed material is an error, never another key.",
 ["inputs","configurations"],"all key values x representations for sender, recipient, signer and wallet x operations",
 "Tests use a few fixed key values per representation.",
 [S+"utils/did.rs",S+"utils/crypto.rs",S+"jwk.rs",S+"did/did_doc.rs",S+"secrets/mod.rs"],
 [("material decoding","AsKnownKeyPair::as_key_pair / key_alg"),("multicodec","_from_multicodec")])
p("C21","DID documents and secrets round-trip through their JSON form",
 "A DID document, service or secret parses from JSON exactly when it has the documented members (camel-case names; optional accept; routing keys defaulting to empty; known type names; JWK, multibase or base58 material), yields exactly those values in order, and serialises back to JSON with the same meaning, so that parse and serialise are inverse. Services of other types keep all their data.",
 ["inputs"],"all document, service and secret JSON values, valid and invalid",
 "Tests parse one minimal service.",
 [S+"did/did_doc.rs",S+"secrets/mod.rs"],
 [("serde derives","DIDDoc, VerificationMethod, Service, Secret")])
p("C22","The plaintext message format is exact in both directions",
 "A plaintext is accepted exactly when it has string id and type, a body, well-typed optional headers, attachments each with base64, json or links-with-hash data, and a `typ` that is absent or the DIDComm plaintext media type; unknown headers are kept as custom headers and everything else maps to the equally named field. Serialising emits the standard member names, omits absent optional members, and parses back to the same message.",
 ["inputs"],"all JSON documents near the message schema",
 "Tests hold a dozen samples; the schema is a universally quantified statement over members, types and combinations.",
 [S+"message/message.rs",S+"message/attachment.rs",S+"message/unpack/plaintext.rs",S+"message/pack_plaintext.rs"],
 [("serde derives","Message, Attachment, AttachmentData"),("typ check","Message::validate")])
p("C23","Builders accumulate exactly what they were given",
 "For every sequence of builder calls for messages, attachments and from_prior values, the finished value contains exactly the arguments: single-valued setters keep the last value, recipients and attachments accumulate in call order whether added one by one or in bulk, custom headers keep the last value per name, and untouched fields stay absent.",
 ["histories","inputs"],"all finite sequences of builder calls",
 "Tests run one straight-line call sequence per builder.",
 [S+"message/message.rs",S+"message/attachment.rs",S+"message/from_prior/mod.rs"],
 [("builders","MessageBuilder, AttachmentBuilder, FromPriorBuilder")])
p("C24","Produced envelopes follow the DIDComm wire format",
 "Every produced envelope is JSON (or compact JWT) with exactly the standard member names, unpadded base64url values, media types, algorithm identifiers, the recipient digest, sender id headers and key sizes the DIDComm v2 and JOSE specifications prescribe, so that an independent implementation decrypts or verifies it; envelopes built by an independent implementation in that format are accepted, including ones with additional unknown members.",
 ["inputs","configurations"],"all produced envelopes and all conforming foreign envelopes",
 "Tests pack and unpack with the same code, so a symmetric mistake is invisible; vectors cover fixed values only.",
 [S+"jwe/envelope.rs",S+"jws/envelope.rs",S+"jwe/encrypt.rs",S+"jws/sign.rs",S+"jwe/parse.rs",S+"jws/parse.rs"],
 [("envelope structs","JWE, ProtectedHeader, JWS, CompactHeader"),("encryption and KDF inputs","jwe::encrypt")])
p("C25","Errors keep their kind and cause through conversion and context",
 "Adding context to an error, however often, never changes its kind and keeps every message in its displayed chain with the newest first; wrapping a foreign error assigns exactly the requested kind and keeps the cause; truncated-input and I/O JSON errors and too-small buffers become invalid-state, all other decoding errors malformed. Success values pass through unchanged, and kinds display and serialise by their documented names.",
 ["inputs","histories"],"all kinds x chains of conversions and contexts x JSON/base58 failures",
 "The tests exercise the error algebra only incidentally.",
 [S+"error.rs"],
 [("conversions","ResultExt, ResultExtNoContext, ResultContext, ToResult, From impls")])
p("C26","Example resolvers answer by exact id, in the order asked",
 "The bundled DID resolver returns the first stored document whose id equals the requested DID exactly, and nothing otherwise; the bundled secrets resolver returns the first stored secret with exactly the requested id, and from a list of ids returns exactly those that are stored, in the order and multiplicity asked. Neither changes its answers over time.",
 ["inputs","histories"],"all stored collections (with duplicates and near-equal ids) x sequences of queries",
 "Tests use the resolvers only with well-separated fixed ids.",
 [S+"did/resolvers/example.rs",S+"secrets/resolvers/example.rs"],
 [("lookup","ExampleDIDResolver::resolve, ExampleSecretsResolver::{get_secret,find_secrets}")])
p("C27","Concurrent operations do not influence each other",
 "Any number of pack and unpack operations interleaved on shared resolvers, under any schedule, resolver latency or cancellation of some of them, each produce the result they would produce alone, always completing once their resolver calls complete. If a document or secret changes while an operation is suspended, the operation succeeds only with keys it actually obtained from its resolvers.",
 ["schedules","histories"],"all interleavings of resolver suspensions, cancellations and store changes",
 "Tests run one operation at a time with resolvers that answer immediately.",
 [S+"message/unpack/mod.rs",S+"message/pack_encrypted/mod.rs",S+"message/unpack/anoncrypt.rs",S+"message/pack_signed.rs",S+"protocols/routing/mod.rs"],
 [("await points","every resolver call")])
p("C28","Requested algorithms and option defaults are honoured",
 "The anonymous and authenticated content algorithms requested in the options are the ones used for every layer they govern and reported on unpack; omitted options take the documented defaults (no sender protection, forwarding on, XC20P for anonymous and A256CBC-HS512 for authenticated encryption, no all-keys requirement), both from the programmatic default and from option JSON, with algorithm names as documented.",
 ["inputs","configurations"],"all option values, partial option JSON documents and packing modes",
 "Tests set one or two options at a time.",
 [S+"algorithms.rs",S+"message/pack_encrypted/mod.rs",S+"message/unpack/mod.rs",S+"utils/serde.rs"],
 [("defaults","Default impls and serde defaults"),("algorithm dispatch","anoncrypt / authcrypt")])
p("C29","Language bindings behave like the core library",
 "The UniFFI and WebAssembly wrappers expose the same operations with the same arguments, results, defaults and error kinds as the core library. An error raised by a resolver that the host language supplies keeps its kind; an error the library raises reaches the host under its own name. Each operation started through UniFFI reports to its callback exactly once, and it uses what the host's resolvers completed with, each completion once, in whatever order and on whatever thread they complete; a resolver that is dropped without an answer ends the operation with an error.",
 ["inputs","schedules","histories"],"all wrapper calls, all host resolvers, all orders in which host callbacks complete",
 "The wrappers' own tests exercise a few calls through foreign runtimes, with resolvers that always answer once and at once.",
 ["uniffi/src/lib.rs","uniffi/src/didcomm/mod.rs","wasm/src/lib.rs","wasm/src/error.rs"],
 [("UniFFI adapters","uniffi/src/did/*.rs, uniffi/src/secrets/*.rs, uniffi/src/common.rs"),("UniFFI operations","uniffi/src/didcomm/**"),("WebAssembly operations","wasm/src/message/**, wasm/src/did/**, wasm/src/secrets.rs, wasm/src/error.rs")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
