From f6b053c9fa016147515a50f87f226d3d05be14ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:27 +0000
Subject: [PATCH 1/7] fix: reject from_prior signed by a key of another DID
 than its iss

---
 src/message/from_prior/unpack.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/message/from_prior/unpack.rs b/src/message/from_prior/unpack.rs
index 8d80fdc..c37e76e 100644
--- a/src/message/from_prior/unpack.rs
+++ b/src/message/from_prior/unpack.rs
@@ -135,6 +135,13 @@ impl FromPrior {
         let from_prior: FromPrior = serde_json::from_str(&payload)
             .kind(ErrorKind::Malformed, "Unable to parse from_prior")?;
 
+        if from_prior.iss != did {
+            Err(err_msg(
+                ErrorKind::Malformed,
+                "from_prior iss does not match the DID of the issuer key",
+            ))?
+        }
+
         Ok((from_prior, kid.into()))
     }
 }
-- 
2.43.0


From 652f565cd9002dce39e3dc5c37c6ed07e8fc4591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:27 +0000
Subject: [PATCH 2/7] fix: wrap_in_forward without routing keys returns the
 message instead of panicking

---
 src/protocols/routing/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/protocols/routing/mod.rs b/src/protocols/routing/mod.rs
index 7137c6b..5c4bf1b 100644
--- a/src/protocols/routing/mod.rs
+++ b/src/protocols/routing/mod.rs
@@ -245,6 +245,10 @@ pub async fn wrap_in_forward<'dr>(
     enc_alg_anon: &AnonCryptAlg,
     did_resolver: &'dr (dyn DIDResolver + 'dr),
 ) -> Result<String> {
+    if routing_keys.is_empty() {
+        return Ok(msg.to_owned());
+    }
+
     let mut tos = routing_keys.clone();
 
     let mut nexts = tos.clone();
-- 
2.43.0


From 4914c280ed12616d408db2d2573af0b80c3bc7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:27 +0000
Subject: [PATCH 3/7] fix: report too short Ed25519 secrets as malformed
 instead of panicking

---
 src/utils/did.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/utils/did.rs b/src/utils/did.rs
index 72045b1..0059255 100644
--- a/src/utils/did.rs
+++ b/src/utils/did.rs
@@ -366,6 +366,13 @@ impl AsKnownKeyPair for Secret {
                     .to_didcomm("Wrong base58 value in secret material")?;
 
                 let curve25519_point_size = 32;
+                if decoded_value.len() < curve25519_point_size {
+                    Err(err_msg(
+                        ErrorKind::Malformed,
+                        "Wrong length of base58 secret material",
+                    ))?
+                }
+
                 let (d_value, x_value) = decoded_value.split_at(curve25519_point_size);
                 let base64_url_d_value = base64::encode_config(&d_value, base64::URL_SAFE_NO_PAD);
                 let base64_url_x_value = base64::encode_config(&x_value, base64::URL_SAFE_NO_PAD);
@@ -456,6 +463,13 @@ impl AsKnownKeyPair for Secret {
                 }
 
                 let curve25519_point_size = 32;
+                if decoded_value.len() < curve25519_point_size {
+                    Err(err_msg(
+                        ErrorKind::Malformed,
+                        "Wrong length of multibase secret material",
+                    ))?
+                }
+
                 let (d_value, x_value) = decoded_value.split_at(curve25519_point_size);
                 let base64_url_d_value = base64::encode_config(&d_value, base64::URL_SAFE_NO_PAD);
                 let base64_url_x_value = base64::encode_config(&x_value, base64::URL_SAFE_NO_PAD);
-- 
2.43.0


From 32d74f669597a60cd085e027b46c0e8f53fb5a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:27 +0000
Subject: [PATCH 4/7] fix: keep the kind of DID resolver errors when unpacking
 authcrypt

---
 src/message/unpack/authcrypt.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/message/unpack/authcrypt.rs b/src/message/unpack/authcrypt.rs
index 9d6bd1b..4074e6e 100644
--- a/src/message/unpack/authcrypt.rs
+++ b/src/message/unpack/authcrypt.rs
@@ -11,7 +11,7 @@ use crate::jwe::envelope::JWE;
 use crate::{
     algorithms::AuthCryptAlg,
     did::DIDResolver,
-    error::{err_msg, ErrorKind, Result, ResultExt},
+    error::{err_msg, ErrorKind, Result, ResultContext, ResultExt},
     jwe,
     secrets::SecretsResolver,
     utils::{
@@ -63,7 +63,7 @@ pub(crate) async fn _try_unpack_authcrypt<'dr, 'sr>(
     let from_ddoc = did_resolver
         .resolve(from_did)
         .await
-        .kind(ErrorKind::InvalidState, "Unable resolve sender did")?
+        .context("Unable resolve sender did")?
         .ok_or_else(|| err_msg(ErrorKind::DIDNotResolved, "Sender did not found"))?;
 
     let from_kid = from_ddoc
-- 
2.43.0


From 92e29115e63972ce679d6f7bc6e9c8c34ae05e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:24 +0000
Subject: [PATCH 5/7] fix: refuse overlong multicodec prefixes instead of
 overflowing

---
 src/utils/did.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/utils/did.rs b/src/utils/did.rs
index 0059255..3a7f2b0 100644
--- a/src/utils/did.rs
+++ b/src/utils/did.rs
@@ -518,6 +518,11 @@ impl Codec {
 }
 
 fn _from_multicodec(value: &Vec<u8>) -> Result<(Codec, &[u8])> {
+    // A prefix that goes on after 5 bytes doesn't fit into the 32 bits the varint reader holds
+    if value.iter().take_while(|&b| b & 0x80 != 0).count() >= 5 {
+        Err(err_msg(ErrorKind::IllegalArgument, "Unsupported prefix"))?
+    }
+
     let mut val: Cursor<Vec<u8>> = Cursor::new(value.clone());
     let prefix_int = val
         .read_unsigned_varint_32()
-- 
2.43.0


From 6be3ce8260a1ec48eb2b30c870d99b490915a6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:40 +0000
Subject: [PATCH 6/7] fix: UniFFI resolvers' errors keep their kind

The adapters turned every error a foreign resolver reported into InvalidState.
---
 uniffi/src/did/did_resolver_adapter.rs         | 4 ++--
 uniffi/src/secrets/secrets_resolver_adapter.rs | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/uniffi/src/did/did_resolver_adapter.rs b/uniffi/src/did/did_resolver_adapter.rs
index ae23846..2ac6667 100644
--- a/uniffi/src/did/did_resolver_adapter.rs
+++ b/uniffi/src/did/did_resolver_adapter.rs
@@ -2,7 +2,7 @@ use std::sync::Arc;
 
 use didcomm_core::{
     did::{DIDDoc, DIDResolver as _DIDResolver},
-    error::{ErrorKind, Result, ResultExt},
+    error::{Result, ResultContext},
 };
 
 use async_trait::async_trait;
@@ -29,7 +29,7 @@ impl _DIDResolver for DIDResolverAdapter {
         let res = receiver
             .get()
             .await
-            .kind(ErrorKind::InvalidState, "can not resolve DID Doc")?;
+            .context("can not resolve DID Doc")?;
         Ok(res)
     }
 }
diff --git a/uniffi/src/secrets/secrets_resolver_adapter.rs b/uniffi/src/secrets/secrets_resolver_adapter.rs
index 03a38c5..05b4fe8 100644
--- a/uniffi/src/secrets/secrets_resolver_adapter.rs
+++ b/uniffi/src/secrets/secrets_resolver_adapter.rs
@@ -1,7 +1,7 @@
 use std::sync::Arc;
 
 use async_trait::async_trait;
-use didcomm_core::error::{ErrorKind, Result, ResultExt};
+use didcomm_core::error::{Result, ResultContext};
 use didcomm_core::secrets::{Secret, SecretsResolver as _SecretsResolver};
 
 use crate::secrets_resolver::{OnFindSecretsResult, OnGetSecretResult};
@@ -29,7 +29,7 @@ impl _SecretsResolver for SecretsResolverAdapter {
         let res = receiver
             .get()
             .await
-            .kind(ErrorKind::InvalidState, "can not get secret")?;
+            .context("can not get secret")?;
         Ok(res)
     }
 
@@ -42,7 +42,7 @@ impl _SecretsResolver for SecretsResolverAdapter {
         let res = receiver
             .get()
             .await
-            .kind(ErrorKind::InvalidState, "can not get secret")?;
+            .context("can not get secret")?;
 
         Ok(secret_ids
             .iter()
-- 
2.43.0


From ce5eb202efe3f4ce4c0c2268b2d78c4a622efb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:40 +0000
Subject: [PATCH 7/7] fix: a DIDCommSecretNotFound error thrown by a JavaScript
 resolver keeps its kind

---
 wasm/src/error.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wasm/src/error.rs b/wasm/src/error.rs
index 6453dcf..5e963f6 100644
--- a/wasm/src/error.rs
+++ b/wasm/src/error.rs
@@ -56,6 +56,7 @@ impl<T> FromJsResult<T> for Result<T, JsValue> {
                     Some("DIDCommNoCompatibleCrypto") => _ErrorKind::NoCompatibleCrypto,
                     Some("DIDCommUnsupported") => _ErrorKind::Unsupported,
                     Some("DIDCommIllegalArgument") => _ErrorKind::IllegalArgument,
+                    Some("DIDCommSecretNotFound") => _ErrorKind::SecretNotFound,
                     _ => _ErrorKind::InvalidState,
                 };
 
-- 
2.43.0

