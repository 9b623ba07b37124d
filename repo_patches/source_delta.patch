From de054ddf4459f684d9166c7a78f5349bb32dbb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:57 +0000
Subject: [PATCH 01/13] fix: secp256k1 verification must reject a signature
 that does not match

verify_hashed dropped the boolean returned by libsecp256k1::verify, so any
well-formed DER signature was accepted for any message.
---
 keypair/src/secp256k1.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/keypair/src/secp256k1.rs b/keypair/src/secp256k1.rs
index 64c4a85..672c872 100644
--- a/keypair/src/secp256k1.rs
+++ b/keypair/src/secp256k1.rs
@@ -171,8 +171,12 @@ impl PublicKey {
     pub fn verify_hashed(&self, msg: &[u8], sig: &[u8]) -> Result<(), VerificationError> {
         Message::parse_slice(msg)
             .and_then(|m| {
-                libsecp256k1::Signature::parse_der(sig)
-                    .map(|s| libsecp256k1::verify(&m, &s, &self.0))
+                let s = libsecp256k1::Signature::parse_der(sig)?;
+                if libsecp256k1::verify(&m, &s, &self.0) {
+                    Ok(())
+                } else {
+                    Err(libsecp256k1::Error::InvalidSignature)
+                }
             })
             .map_err(|e| {
                 VerificationError::Secp256k1(
@@ -181,7 +185,6 @@ impl PublicKey {
                     bs58::encode(self.0.serialize_compressed()).into_string(),
                 )
             })
-            .map(|_| ())
     }
 
     /// Encode the public key in compressed form, i.e. with one coordinate
-- 
2.43.0


From ac9cf607fa8febd235f3b3942e2975cefaee70a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:57 +0000
Subject: [PATCH 02/13] fix: consider revocations of the direct issuer of the
 searched peer

bf_search_paths collected revocations of the searched peer and of every later
issuer but not of the first issuer, so R -> Z -> X -> Y was still a certificate
for Y after R revoked X.
---
 trust-graph/src/trust_graph.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/trust-graph/src/trust_graph.rs b/trust-graph/src/trust_graph.rs
index 3da6716..95252b5 100644
--- a/trust-graph/src/trust_graph.rs
+++ b/trust-graph/src/trust_graph.rs
@@ -279,7 +279,12 @@ where
 
         // put all auth in the queue as the first possible paths through the graph
         for auth in node_auths {
-            chains_queue.push_back(Chain::new(NonEmpty::new(auth), node_revocations.clone()));
+            let mut revocations = node_revocations.clone();
+            revocations.extend(
+                self.storage
+                    .get_revocations(&auth.issued_by.clone().into())?,
+            );
+            chains_queue.push_back(Chain::new(NonEmpty::new(auth), revocations));
         }
 
         // List of all chains that converge (terminate) to known roots
-- 
2.43.0


From ea0c9f99c502931c4333328614ad215fe921f960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:57 +0000
Subject: [PATCH 03/13] fix: chain longer than allowed by its root has zero
 weight

The weight factor was subtracted with saturation, so a chain of any length had
a weight of at least 1 even if it exceeds the max chain length of its root
(possible once a shorter chain expires or is revoked).
---
 trust-graph/src/trust_graph.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/trust-graph/src/trust_graph.rs b/trust-graph/src/trust_graph.rs
index 95252b5..d558703 100644
--- a/trust-graph/src/trust_graph.rs
+++ b/trust-graph/src/trust_graph.rs
@@ -99,7 +99,10 @@ fn get_weight_factor(max_chain_len: u32) -> u32 {
 }
 
 pub fn get_weight_from_factor(wf: WeightFactor) -> u32 {
-    2u32.pow(MAX_WEIGHT_FACTOR.saturating_sub(wf))
+    // chains longer than allowed by the root have no weight
+    MAX_WEIGHT_FACTOR
+        .checked_sub(wf)
+        .map_or(0, |power| 2u32.pow(power))
 }
 
 impl<S> TrustGraph<S>
-- 
2.43.0


From 679952548be77d6825b672cc971a125ddcff9d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:57 +0000
Subject: [PATCH 04/13] fix: repeated set_root must replace the previous weight
 factor

The roots table had no key, so INSERT OR REPLACE always inserted one more row
and the first weight factor stayed in effect.
---
 service/src/storage_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/service/src/storage_impl.rs b/service/src/storage_impl.rs
index 008623f..bdfdd5e 100644
--- a/service/src/storage_impl.rs
+++ b/service/src/storage_impl.rs
@@ -44,7 +44,7 @@ pub fn create_tables() {
     connection
         .execute(
             "CREATE TABLE IF NOT EXISTS roots(
-        public_key TEXT,
+        public_key TEXT PRIMARY KEY,
         weight_factor INTEGER
         );",
         )
-- 
2.43.0


From c179bdde19c9c7cab2da6c934920090aa44a3553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:57 +0000
Subject: [PATCH 05/13] fix: get_weight_from must check the tetraplet of its
 timestamp argument

The timestamp is the third argument, the tetraplet of the issuer was checked.
---
 service/src/service_api.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/service/src/service_api.rs b/service/src/service_api.rs
index ecd45cb..58047ae 100644
--- a/service/src/service_api.rs
+++ b/service/src/service_api.rs
@@ -139,7 +139,7 @@ fn get_weight(peer_id: String, timestamp_sec: u64) -> WeightResult {
 #[marine]
 fn get_weight_from(peer_id: String, issuer: String, timestamp_sec: u64) -> WeightResult {
     with_tg(|tg| {
-        check_timestamp_tetraplets(&marine_rs_sdk::get_call_parameters(), 1)?;
+        check_timestamp_tetraplets(&marine_rs_sdk::get_call_parameters(), 2)?;
         let issued_for_pk = extract_public_key(peer_id.clone())?;
         let issuer_pk = extract_public_key(issuer)?;
         let weight =
-- 
2.43.0


From 94f8121f41e25a11ba528496027db8edc0b7d50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:25 +0000
Subject: [PATCH 06/13] fix: do not drop trusts with expiration date above
 i64::MAX as expired

Timestamps are u64 but stored as i64, so a trust that never expires
(Certificate::issue_root issues the root trust until u64::MAX) was negative in
the DB and was removed by the next remove_expired.
---
 service/src/storage_impl.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/service/src/storage_impl.rs b/service/src/storage_impl.rs
index bdfdd5e..58628c4 100644
--- a/service/src/storage_impl.rs
+++ b/service/src/storage_impl.rs
@@ -341,7 +341,11 @@ impl Storage for SQLiteStorage {
     fn remove_expired(&mut self, cur_time: Duration) -> Result<(), Self::Error> {
         let mut cursor = self
             .connection
-            .prepare("DELETE FROM trust_relations WHERE expires_at <= ? AND relation_type = ?")?
+            .prepare(
+                // timestamps are u64 stored as i64, so values above i64::MAX are negative in DB
+                "DELETE FROM trust_relations WHERE relation_type = ?2 AND \
+                 CASE WHEN (expires_at < 0) = (?1 < 0) THEN expires_at <= ?1 ELSE ?1 < 0 END",
+            )?
             .cursor();
 
         cursor.bind(&[
-- 
2.43.0


From 477aea31d6f7e75a556356b434387680114c8639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:25 +0000
Subject: [PATCH 07/13] fix: decoding an empty public key or signature must be
 an error, not a panic

---
 keypair/src/public_key.rs | 3 ++-
 keypair/src/signature.rs  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/keypair/src/public_key.rs b/keypair/src/public_key.rs
index 483b06b..e61223b 100644
--- a/keypair/src/public_key.rs
+++ b/keypair/src/public_key.rs
@@ -68,7 +68,8 @@ impl PublicKey {
     }
 
     pub fn decode(bytes: &[u8]) -> Result<PublicKey, DecodingError> {
-        match KeyFormat::try_from(bytes[0])? {
+        let prefix = *bytes.first().ok_or(DecodingError::InvalidTypeByte)?;
+        match KeyFormat::try_from(prefix)? {
             KeyFormat::Ed25519 => Ok(PublicKey::Ed25519(ed25519::PublicKey::decode(&bytes[1..])?)),
             #[cfg(not(target_arch = "wasm32"))]
             KeyFormat::Rsa => Ok(PublicKey::Rsa(rsa::PublicKey::from_pkcs1(
diff --git a/keypair/src/signature.rs b/keypair/src/signature.rs
index fc89472..c33bd8f 100644
--- a/keypair/src/signature.rs
+++ b/keypair/src/signature.rs
@@ -64,7 +64,8 @@ impl Signature {
 
     /// decode with first byte set as keypair type
     pub fn decode(bytes: Vec<u8>) -> Result<Self, DecodingError> {
-        match KeyFormat::try_from(bytes[0])? {
+        let prefix = *bytes.first().ok_or(DecodingError::InvalidTypeByte)?;
+        match KeyFormat::try_from(prefix)? {
             KeyFormat::Ed25519 => Ok(Signature::Ed25519(ed25519::Signature(bytes[1..].to_vec()))),
             #[cfg(not(target_arch = "wasm32"))]
             KeyFormat::Rsa => Ok(Signature::Rsa(rsa::Signature(bytes[1..].to_vec()))),
-- 
2.43.0


From fd727ad4998d200d30e23f1637c8bbd6f9a557eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:52 +0000
Subject: [PATCH 08/13] fix: decoding a trust with trailing bytes must be an
 error, not a panic

---
 trust-graph/src/trust.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/trust-graph/src/trust.rs b/trust-graph/src/trust.rs
index 7618da5..ff4715f 100644
--- a/trust-graph/src/trust.rs
+++ b/trust-graph/src/trust.rs
@@ -207,7 +207,11 @@ impl Trust {
 
         Self::check_arr_len(arr, "issued", offset + ISSUED_LEN)?;
         let issued_bytes = &arr[offset..];
-        let issued_date = u64::from_le_bytes(issued_bytes.try_into().unwrap());
+        let issued_date = u64::from_le_bytes(
+            issued_bytes
+                .try_into()
+                .map_err(|_| DecodeErrorInvalidSize("issued".to_string()))?,
+        );
         let issued_date = Duration::from_secs(issued_date);
 
         Ok(Self {
-- 
2.43.0


From 074b792af72bf2246b5c26002ae1e58750807849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:52 +0000
Subject: [PATCH 09/13] fix: parsing a certificate without format and version
 must be an error, not a panic

---
 trust-graph/src/certificate.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trust-graph/src/certificate.rs b/trust-graph/src/certificate.rs
index bf78daf..5f5f7e3 100644
--- a/trust-graph/src/certificate.rs
+++ b/trust-graph/src/certificate.rs
@@ -310,6 +310,10 @@ impl FromStr for Certificate {
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         let str_lines: Vec<&str> = s.lines().collect();
 
+        if str_lines.len() < 2 {
+            return Err(IncorrectCertificateFormat(s.to_string()));
+        }
+
         // TODO for future purposes
         let _format = str_lines[0];
         let _version = str_lines[1];
-- 
2.43.0


From 86b060ebf10cb996f91956c665f3ad0ada7f7a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:52 +0000
Subject: [PATCH 10/13] fix: extending an empty certificate must be an error,
 not a panic

---
 trust-graph/src/certificate.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/trust-graph/src/certificate.rs b/trust-graph/src/certificate.rs
index 5f5f7e3..a5c9ce2 100644
--- a/trust-graph/src/certificate.rs
+++ b/trust-graph/src/certificate.rs
@@ -103,7 +103,12 @@ impl Certificate {
 
         Certificate::verify(
             extend_cert,
-            &[extend_cert.chain[0].issued_for.clone()],
+            &[extend_cert
+                .chain
+                .first()
+                .ok_or(CertificateLengthError)?
+                .issued_for
+                .clone()],
             cur_time,
         )?;
         // check if `issued_by` is allowed to issue a certificate (i.e., there’s a trust for it in a chain)
@@ -168,7 +173,12 @@ impl Certificate {
         // first, verify given certificate
         Certificate::verify(
             extend_cert,
-            &[extend_cert.chain[0].issued_for.clone()],
+            &[extend_cert
+                .chain
+                .first()
+                .ok_or(CertificateLengthError)?
+                .issued_for
+                .clone()],
             cur_time,
         )?;
 
-- 
2.43.0


From ece3da4c3ad3548ee5e992623f026edcc70ad341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:44 +0000
Subject: [PATCH 11/13] fix: check the origin of the timestamp when importing
 certificates

---
 service/src/service_api.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/service/src/service_api.rs b/service/src/service_api.rs
index 58047ae..37c3a9f 100644
--- a/service/src/service_api.rs
+++ b/service/src/service_api.rs
@@ -39,6 +39,7 @@ fn set_root(peer_id: String, max_chain_len: u32) -> SetRootResult {
 /// see `trust_graph::Certificate` class for string encoding/decoding
 fn insert_cert_raw(certificate: String, timestamp_sec: u64) -> InsertResult {
     with_tg(|tg| {
+        check_timestamp_tetraplets(&marine_rs_sdk::get_call_parameters(), 1)?;
         let certificate = trust_graph::Certificate::from_str(&certificate)?;
         let timestamp_sec = Duration::from_secs(timestamp_sec);
         tg.add(certificate, timestamp_sec)?;
@@ -52,6 +53,7 @@ fn insert_cert_raw(certificate: String, timestamp_sec: u64) -> InsertResult {
 /// see `dto::Certificate` class for structure
 fn insert_cert(certificate: Certificate, timestamp_sec: u64) -> InsertResult {
     with_tg(|tg| {
+        check_timestamp_tetraplets(&marine_rs_sdk::get_call_parameters(), 1)?;
         let timestamp_sec = Duration::from_secs(timestamp_sec);
         tg.add(
             trust_graph::Certificate::try_from(certificate)?,
-- 
2.43.0


From fc62dc66b535da11806b015c2cbe168dc73ce6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:40 +0000
Subject: [PATCH 12/13] fix: refuse certificates with trusts dated in the
 future on import

---
 service/src/service_api.rs | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/service/src/service_api.rs b/service/src/service_api.rs
index 37c3a9f..d4f7013 100644
--- a/service/src/service_api.rs
+++ b/service/src/service_api.rs
@@ -41,9 +41,7 @@ fn insert_cert_raw(certificate: String, timestamp_sec: u64) -> InsertResult {
     with_tg(|tg| {
         check_timestamp_tetraplets(&marine_rs_sdk::get_call_parameters(), 1)?;
         let certificate = trust_graph::Certificate::from_str(&certificate)?;
-        let timestamp_sec = Duration::from_secs(timestamp_sec);
-        tg.add(certificate, timestamp_sec)?;
-        Ok(())
+        add_cert(tg, certificate, timestamp_sec)
     })
     .into()
 }
@@ -54,16 +52,29 @@ fn insert_cert_raw(certificate: String, timestamp_sec: u64) -> InsertResult {
 fn insert_cert(certificate: Certificate, timestamp_sec: u64) -> InsertResult {
     with_tg(|tg| {
         check_timestamp_tetraplets(&marine_rs_sdk::get_call_parameters(), 1)?;
-        let timestamp_sec = Duration::from_secs(timestamp_sec);
-        tg.add(
-            trust_graph::Certificate::try_from(certificate)?,
-            timestamp_sec,
-        )?;
-        Ok(())
+        let certificate = trust_graph::Certificate::try_from(certificate)?;
+        add_cert(tg, certificate, timestamp_sec)
     })
     .into()
 }
 
+fn add_cert(
+    tg: &mut TrustGraph<SQLiteStorage>,
+    certificate: trust_graph::Certificate,
+    timestamp_sec: u64,
+) -> Result<(), ServiceError> {
+    let timestamp_sec = Duration::from_secs(timestamp_sec);
+    if certificate
+        .chain
+        .iter()
+        .any(|trust| trust.issued_at > timestamp_sec)
+    {
+        return Err(ServiceError::InvalidTimestamp("trust".to_string()));
+    }
+    tg.add(certificate, timestamp_sec)?;
+    Ok(())
+}
+
 fn get_certs(
     tg: &mut TrustGraph<SQLiteStorage>,
     issued_for: String,
-- 
2.43.0


From 28f39aa928f4d74373fbb19fdb15c485b33350db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:03 +0000
Subject: [PATCH 13/13] fix: certificate generator ignored failed service calls

---
 admin/index.ts | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/admin/index.ts b/admin/index.ts
index 5600508..ef62d1c 100644
--- a/admin/index.ts
+++ b/admin/index.ts
@@ -35,9 +35,15 @@ let local: Node[] = [
 
 async function issue_trust_helper(node: string, issuer_kp: KeyPair, issuer_peer_id: string, issued_for_peer_id: string, expires_at_sec: number, issued_at_sec: number) {
     let trust_metadata = await get_trust_bytes(node, issued_for_peer_id, expires_at_sec, issued_at_sec);
+    if (!trust_metadata.success) {
+        throw new Error(`failed to get trust bytes for ${issued_for_peer_id}: ${trust_metadata.error}`);
+    }
     const signed_metadata = await issuer_kp.Libp2pPeerId.privKey.sign(Uint8Array.from(trust_metadata.result));
 
     let trust = await issue_trust(node, issued_for_peer_id, expires_at_sec, issued_at_sec, Array.from(signed_metadata));
+    if (!trust.success) {
+        throw new Error(`failed to issue trust for ${issued_for_peer_id}: ${trust.error}`);
+    }
     return trust.trust
 }
 
-- 
2.43.0

