From 4b8465746f1752c87f81280ec3ea0849de94e3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:11 +0000
Subject: [PATCH 01/14] fix: secp256k1 signature verification must reject a
 signature that does not verify

---
 keypair/src/secp256k1.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/keypair/src/secp256k1.rs b/keypair/src/secp256k1.rs
index 64c4a85..672c872 100644
--- a/keypair/src/secp256k1.rs
+++ b/keypair/src/secp256k1.rs
@@ -171,8 +171,12 @@ impl PublicKey {
     pub fn verify_hashed(&self, msg: &[u8], sig: &[u8]) -> Result<(), VerificationError> {
         Message::parse_slice(msg)
             .and_then(|m| {
-                libsecp256k1::Signature::parse_der(sig)
-                    .map(|s| libsecp256k1::verify(&m, &s, &self.0))
+                let s = libsecp256k1::Signature::parse_der(sig)?;
+                if libsecp256k1::verify(&m, &s, &self.0) {
+                    Ok(())
+                } else {
+                    Err(libsecp256k1::Error::InvalidSignature)
+                }
             })
             .map_err(|e| {
                 VerificationError::Secp256k1(
@@ -181,7 +185,6 @@ impl PublicKey {
                     bs58::encode(self.0.serialize_compressed()).into_string(),
                 )
             })
-            .map(|_| ())
     }
 
     /// Encode the public key in compressed form, i.e. with one coordinate
-- 
2.43.0


From b682921ec9a9a11b60575e0b5803e2854fbb43a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:11 +0000
Subject: [PATCH 02/14] fix: decoding an empty public key or signature returns
 an error instead of panicking

---
 keypair/src/public_key.rs | 2 +-
 keypair/src/signature.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/keypair/src/public_key.rs b/keypair/src/public_key.rs
index 483b06b..adff7d9 100644
--- a/keypair/src/public_key.rs
+++ b/keypair/src/public_key.rs
@@ -68,7 +68,7 @@ impl PublicKey {
     }
 
     pub fn decode(bytes: &[u8]) -> Result<PublicKey, DecodingError> {
-        match KeyFormat::try_from(bytes[0])? {
+        match KeyFormat::try_from(*bytes.first().ok_or(DecodingError::InvalidTypeByte)?)? {
             KeyFormat::Ed25519 => Ok(PublicKey::Ed25519(ed25519::PublicKey::decode(&bytes[1..])?)),
             #[cfg(not(target_arch = "wasm32"))]
             KeyFormat::Rsa => Ok(PublicKey::Rsa(rsa::PublicKey::from_pkcs1(
diff --git a/keypair/src/signature.rs b/keypair/src/signature.rs
index fc89472..9949bf1 100644
--- a/keypair/src/signature.rs
+++ b/keypair/src/signature.rs
@@ -64,7 +64,7 @@ impl Signature {
 
     /// decode with first byte set as keypair type
     pub fn decode(bytes: Vec<u8>) -> Result<Self, DecodingError> {
-        match KeyFormat::try_from(bytes[0])? {
+        match KeyFormat::try_from(*bytes.first().ok_or(DecodingError::InvalidTypeByte)?)? {
             KeyFormat::Ed25519 => Ok(Signature::Ed25519(ed25519::Signature(bytes[1..].to_vec()))),
             #[cfg(not(target_arch = "wasm32"))]
             KeyFormat::Rsa => Ok(Signature::Rsa(rsa::Signature(bytes[1..].to_vec()))),
-- 
2.43.0


From 92d2a321e423fa7c01ee03648199c5166838489d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:11 +0000
Subject: [PATCH 03/14] fix: decoding a trust followed by extra bytes returns
 an error instead of panicking

---
 trust-graph/src/trust.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/trust-graph/src/trust.rs b/trust-graph/src/trust.rs
index 7618da5..1f3fcfb 100644
--- a/trust-graph/src/trust.rs
+++ b/trust-graph/src/trust.rs
@@ -206,7 +206,10 @@ impl Trust {
         offset += EXPIRATION_LEN;
 
         Self::check_arr_len(arr, "issued", offset + ISSUED_LEN)?;
-        let issued_bytes = &arr[offset..];
+        let issued_bytes = &arr[offset..offset + ISSUED_LEN];
+        if arr.len() > offset + ISSUED_LEN {
+            return Err(DecodeErrorInvalidSize("issued".to_string()));
+        }
         let issued_date = u64::from_le_bytes(issued_bytes.try_into().unwrap());
         let issued_date = Duration::from_secs(issued_date);
 
-- 
2.43.0


From e6e4b50de0040e9159cb9ce00448eee07533f512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:11 +0000
Subject: [PATCH 04/14] fix: parsing a certificate text shorter than two lines
 returns an error instead of panicking

---
 trust-graph/src/certificate.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/trust-graph/src/certificate.rs b/trust-graph/src/certificate.rs
index bf78daf..64df5cc 100644
--- a/trust-graph/src/certificate.rs
+++ b/trust-graph/src/certificate.rs
@@ -310,6 +310,11 @@ impl FromStr for Certificate {
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         let str_lines: Vec<&str> = s.lines().collect();
 
+        // format and version lines are mandatory
+        if str_lines.len() < 2 {
+            return Err(IncorrectCertificateFormat(s.to_string()));
+        }
+
         // TODO for future purposes
         let _format = str_lines[0];
         let _version = str_lines[1];
-- 
2.43.0


From b487f7336dce8a9895a364ca83b0c4aa1ac972d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:11 +0000
Subject: [PATCH 05/14] fix: extending an empty certificate returns an error
 instead of panicking

---
 trust-graph/src/certificate.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/trust-graph/src/certificate.rs b/trust-graph/src/certificate.rs
index 64df5cc..7f619ba 100644
--- a/trust-graph/src/certificate.rs
+++ b/trust-graph/src/certificate.rs
@@ -101,11 +101,8 @@ impl Certificate {
             });
         }
 
-        Certificate::verify(
-            extend_cert,
-            &[extend_cert.chain[0].issued_for.clone()],
-            cur_time,
-        )?;
+        let root = extend_cert.chain.first().ok_or(CertificateLengthError)?;
+        Certificate::verify(extend_cert, &[root.issued_for.clone()], cur_time)?;
         // check if `issued_by` is allowed to issue a certificate (i.e., there’s a trust for it in a chain)
         let mut previous_trust_num: i32 = -1;
         for pk_id in 0..extend_cert.chain.len() {
@@ -166,11 +163,8 @@ impl Certificate {
         }
 
         // first, verify given certificate
-        Certificate::verify(
-            extend_cert,
-            &[extend_cert.chain[0].issued_for.clone()],
-            cur_time,
-        )?;
+        let root = extend_cert.chain.first().ok_or(CertificateLengthError)?;
+        Certificate::verify(extend_cert, &[root.issued_for.clone()], cur_time)?;
 
         let issued_by_pk = issued_by.public();
 
-- 
2.43.0


From 2029de8263929279b823aba82d0287eca51b5e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:11 +0000
Subject: [PATCH 06/14] fix: issue_with_trust checks that the given trust is
 signed by the issuer

---
 trust-graph/src/certificate.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trust-graph/src/certificate.rs b/trust-graph/src/certificate.rs
index 7f619ba..b272361 100644
--- a/trust-graph/src/certificate.rs
+++ b/trust-graph/src/certificate.rs
@@ -122,6 +122,10 @@ impl Certificate {
             .0
             .to_vec();
 
+        // `trust` comes from outside: check that it was really signed by `issued_by`
+        Trust::verify(&trust, &issued_by, cur_time)
+            .map_err(|e| VerificationError(new_chain.len(), e))?;
+
         new_chain.push(trust);
 
         Ok(Self { chain: new_chain })
-- 
2.43.0


From 5e75bc9504ec46ec0275262305bd4bbcce435b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:11 +0000
Subject: [PATCH 07/14] fix: chains in which the direct issuer of the key is
 revoked are not valid

---
 trust-graph/src/trust_graph.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/trust-graph/src/trust_graph.rs b/trust-graph/src/trust_graph.rs
index 3da6716..5c61347 100644
--- a/trust-graph/src/trust_graph.rs
+++ b/trust-graph/src/trust_graph.rs
@@ -279,7 +279,12 @@ where
 
         // put all auth in the queue as the first possible paths through the graph
         for auth in node_auths {
-            chains_queue.push_back(Chain::new(NonEmpty::new(auth), node_revocations.clone()));
+            let issuer_revocations = self
+                .storage
+                .get_revocations(&auth.issued_by.clone().into())?;
+            let mut chain = Chain::new(NonEmpty::new(auth), node_revocations.clone());
+            chain.add_revocations(issuer_revocations);
+            chains_queue.push_back(chain);
         }
 
         // List of all chains that converge (terminate) to known roots
-- 
2.43.0


From 95cf9eb24212eb0ad43d600e0aa853e29d2d082c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:11 +0000
Subject: [PATCH 08/14] fix: chains longer than the maximum length allowed by
 the root give zero weight

---
 trust-graph/src/trust_graph.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/trust-graph/src/trust_graph.rs b/trust-graph/src/trust_graph.rs
index 5c61347..cbc329c 100644
--- a/trust-graph/src/trust_graph.rs
+++ b/trust-graph/src/trust_graph.rs
@@ -99,7 +99,10 @@ fn get_weight_factor(max_chain_len: u32) -> u32 {
 }
 
 pub fn get_weight_from_factor(wf: WeightFactor) -> u32 {
-    2u32.pow(MAX_WEIGHT_FACTOR.saturating_sub(wf))
+    // chains longer than allowed by the root give no weight
+    MAX_WEIGHT_FACTOR
+        .checked_sub(wf)
+        .map_or(0, |exp| 2u32.pow(exp))
 }
 
 impl<S> TrustGraph<S>
-- 
2.43.0


From 817dd3f4b10dba58bb25c5e5e68b4d90a6d71997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:11 +0000
Subject: [PATCH 09/14] fix: trusts expiring after i64::MAX seconds are not
 removed as expired

---
 service/src/storage_impl.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/service/src/storage_impl.rs b/service/src/storage_impl.rs
index 008623f..900fce9 100644
--- a/service/src/storage_impl.rs
+++ b/service/src/storage_impl.rs
@@ -341,7 +341,8 @@ impl Storage for SQLiteStorage {
     fn remove_expired(&mut self, cur_time: Duration) -> Result<(), Self::Error> {
         let mut cursor = self
             .connection
-            .prepare("DELETE FROM trust_relations WHERE expires_at <= ? AND relation_type = ?")?
+            // negative values are timestamps above i64::MAX: they are far in the future
+            .prepare("DELETE FROM trust_relations WHERE expires_at BETWEEN 0 AND ? AND relation_type = ?")?
             .cursor();
 
         cursor.bind(&[
-- 
2.43.0


From c3583b51692ab7c388970bc76d3b4036d032b6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:11 +0000
Subject: [PATCH 10/14] fix: setting a root again replaces its previous weight
 factor

---
 service/src/storage_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/service/src/storage_impl.rs b/service/src/storage_impl.rs
index 900fce9..a20d5ab 100644
--- a/service/src/storage_impl.rs
+++ b/service/src/storage_impl.rs
@@ -44,7 +44,7 @@ pub fn create_tables() {
     connection
         .execute(
             "CREATE TABLE IF NOT EXISTS roots(
-        public_key TEXT,
+        public_key TEXT PRIMARY KEY,
         weight_factor INTEGER
         );",
         )
-- 
2.43.0


From 58519de16d54b3c86530e7d69c5dc0678b3ae942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:11 +0000
Subject: [PATCH 11/14] fix: infinite recursion in conversion of
 SQLiteStorageError to String

---
 service/src/storage_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/service/src/storage_impl.rs b/service/src/storage_impl.rs
index a20d5ab..c43f931 100644
--- a/service/src/storage_impl.rs
+++ b/service/src/storage_impl.rs
@@ -183,7 +183,7 @@ fn parse_relation(row: &[Value]) -> Result<TrustRelation, SQLiteStorageError> {
 
 impl From<SQLiteStorageError> for String {
     fn from(err: SQLiteStorageError) -> Self {
-        err.into()
+        format!("{err}")
     }
 }
 
-- 
2.43.0


From d1e51c723c5d25f5def30e9e251244d017661e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:11 +0000
Subject: [PATCH 12/14] fix: get_weight_from checks the tetraplet of its
 timestamp argument

---
 service/src/service_api.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/service/src/service_api.rs b/service/src/service_api.rs
index ecd45cb..58047ae 100644
--- a/service/src/service_api.rs
+++ b/service/src/service_api.rs
@@ -139,7 +139,7 @@ fn get_weight(peer_id: String, timestamp_sec: u64) -> WeightResult {
 #[marine]
 fn get_weight_from(peer_id: String, issuer: String, timestamp_sec: u64) -> WeightResult {
     with_tg(|tg| {
-        check_timestamp_tetraplets(&marine_rs_sdk::get_call_parameters(), 1)?;
+        check_timestamp_tetraplets(&marine_rs_sdk::get_call_parameters(), 2)?;
         let issued_for_pk = extract_public_key(peer_id.clone())?;
         let issuer_pk = extract_public_key(issuer)?;
         let weight =
-- 
2.43.0


From 77c851ff103aefbd90de600bce697085e6d31278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:11 +0000
Subject: [PATCH 13/14] fix: certificate insertion checks that its timestamp
 comes from the host

---
 service/src/service_api.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/service/src/service_api.rs b/service/src/service_api.rs
index 58047ae..37c3a9f 100644
--- a/service/src/service_api.rs
+++ b/service/src/service_api.rs
@@ -39,6 +39,7 @@ fn set_root(peer_id: String, max_chain_len: u32) -> SetRootResult {
 /// see `trust_graph::Certificate` class for string encoding/decoding
 fn insert_cert_raw(certificate: String, timestamp_sec: u64) -> InsertResult {
     with_tg(|tg| {
+        check_timestamp_tetraplets(&marine_rs_sdk::get_call_parameters(), 1)?;
         let certificate = trust_graph::Certificate::from_str(&certificate)?;
         let timestamp_sec = Duration::from_secs(timestamp_sec);
         tg.add(certificate, timestamp_sec)?;
@@ -52,6 +53,7 @@ fn insert_cert_raw(certificate: String, timestamp_sec: u64) -> InsertResult {
 /// see `dto::Certificate` class for structure
 fn insert_cert(certificate: Certificate, timestamp_sec: u64) -> InsertResult {
     with_tg(|tg| {
+        check_timestamp_tetraplets(&marine_rs_sdk::get_call_parameters(), 1)?;
         let timestamp_sec = Duration::from_secs(timestamp_sec);
         tg.add(
             trust_graph::Certificate::try_from(certificate)?,
-- 
2.43.0


From 89e4ffc27fd39c51bea9f795b2aafe27e332ea7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:03 +0000
Subject: [PATCH 14/14] fix: PublicKeyHashable is serialized in the form it is
 deserialized from

Serialize wrote bytes while Deserialize asks for a string, so what was
written in JSON or bincode could not be read back. Write the base58 text;
both forms are still read.
---
 trust-graph/src/public_key_hashable.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trust-graph/src/public_key_hashable.rs b/trust-graph/src/public_key_hashable.rs
index 4ac8c54..a3e86b3 100644
--- a/trust-graph/src/public_key_hashable.rs
+++ b/trust-graph/src/public_key_hashable.rs
@@ -94,7 +94,8 @@ impl serde::Serialize for PublicKeyHashable {
     where
         S: Serializer,
     {
-        serializer.serialize_bytes(&self.0.encode())
+        // the same form `deserialize` asks for
+        serializer.serialize_str(&self.to_string())
     }
 }
 
-- 
2.43.0

