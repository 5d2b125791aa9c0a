From b26702f607c488c58fed2a9887d116bd16b95551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:37 +0000
Subject: [PATCH 01/12] fix: certificate time limits must not overflow or
 underflow

A current time smaller than the allowed offset, or an offset close to
u128::MAX, panicked (or wrapped, without overflow checks) instead of
giving a limit.
---
 .../src/certificate_verification.rs                           | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/ic-certificate-verification/src/certificate_verification.rs b/packages/ic-certificate-verification/src/certificate_verification.rs
index e305ef2..f31096d 100644
--- a/packages/ic-certificate-verification/src/certificate_verification.rs
+++ b/packages/ic-certificate-verification/src/certificate_verification.rs
@@ -139,8 +139,8 @@ fn verify_certificate_time(
             timestamp: encoded_certificate_time.to_vec(),
         }
     })? as u128;
-    let max_certificate_time = current_time_ns + allowed_certificate_time_offset;
-    let min_certificate_time = current_time_ns - allowed_certificate_time_offset;
+    let max_certificate_time = current_time_ns.saturating_add(*allowed_certificate_time_offset);
+    let min_certificate_time = current_time_ns.saturating_sub(*allowed_certificate_time_offset);
 
     if certificate_time > max_certificate_time {
         return Err(CertificateVerificationError::TimeTooFarInTheFuture {
-- 
2.43.0


From 4f87e9e447b352f453e007b8d14823a80f34f9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:37 +0000
Subject: [PATCH 02/12] fix: do not allocate a CBOR map by its declared length

The length is read from the input: bb 10 00 00 00 00 00 00 00 panicked
with a capacity overflow.
---
 packages/ic-cbor/src/cbor_parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/ic-cbor/src/cbor_parser.rs b/packages/ic-cbor/src/cbor_parser.rs
index bd34304..2212000 100644
--- a/packages/ic-cbor/src/cbor_parser.rs
+++ b/packages/ic-cbor/src/cbor_parser.rs
@@ -180,7 +180,7 @@ fn parser(i: &[u8]) -> IResult<&[u8], CborValue> {
                 0,
                 data_len,
                 extract_key_val_pair,
-                || HashMap::with_capacity(data_len),
+                HashMap::new,
                 |mut acc, (key, val)| {
                     acc.insert(key, val);
                     acc
-- 
2.43.0


From 362e0e4e7fc3f0c91c86798eb41491a1de823bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:37 +0000
Subject: [PATCH 03/12] fix: reject oversized principals in canister ranges

Principal::from_slice panics on more than 29 bytes, which the input
decides.
---
 packages/ic-cbor/src/cbor_parser.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/packages/ic-cbor/src/cbor_parser.rs b/packages/ic-cbor/src/cbor_parser.rs
index 2212000..ca37264 100644
--- a/packages/ic-cbor/src/cbor_parser.rs
+++ b/packages/ic-cbor/src/cbor_parser.rs
@@ -223,10 +223,12 @@ pub fn parse_cbor_principals_array(i: &[u8]) -> CborResult<Vec<(Principal, Princ
                 _ => return Err(CborError::MalformedCborCanisterRanges),
             };
 
-            Ok((
-                Principal::from_slice(first_principal),
-                Principal::from_slice(second_principal),
-            ))
+            let first_principal = Principal::try_from_slice(first_principal)
+                .map_err(|_| CborError::MalformedCborCanisterRanges)?;
+            let second_principal = Principal::try_from_slice(second_principal)
+                .map_err(|_| CborError::MalformedCborCanisterRanges)?;
+
+            Ok((first_principal, second_principal))
         })
         .collect::<Result<_, _>>()
 }
-- 
2.43.0


From d74a1b44142620eed628a0655989a0a3d6883c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:37 +0000
Subject: [PATCH 04/12] fix: CBOR negative integers keep their sign

Arguments above the signed maximum of their width wrapped: 38 c8 (-201)
was decoded as 55.
---
 packages/ic-cbor/src/cbor_parser.rs | 31 +++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/packages/ic-cbor/src/cbor_parser.rs b/packages/ic-cbor/src/cbor_parser.rs
index ca37264..222938e 100644
--- a/packages/ic-cbor/src/cbor_parser.rs
+++ b/packages/ic-cbor/src/cbor_parser.rs
@@ -42,13 +42,25 @@ impl CborUnsignedInt {
     // For example: -5 is encoded as 4
     // So to decode the value we take -1 - n where n is the encoded value
     // For example: -1 - 4 = -5
-    fn to_negative(self) -> CborNegativeInt {
-        match self {
-            CborUnsignedInt::UInt8(n) => CborNegativeInt::Int8(-1 - (n as i8)),
-            CborUnsignedInt::UInt16(n) => CborNegativeInt::Int16(-1 - (n as i16)),
-            CborUnsignedInt::UInt32(n) => CborNegativeInt::Int32(-1 - (n as i32)),
-            CborUnsignedInt::UInt64(n) => CborNegativeInt::Int64(-1 - (n as i64)),
-        }
+    fn to_negative(self) -> Result<CborNegativeInt, String> {
+        let n = match self {
+            CborUnsignedInt::UInt8(n) => n as u64,
+            CborUnsignedInt::UInt16(n) => n as u64,
+            CborUnsignedInt::UInt32(n) => n as u64,
+            CborUnsignedInt::UInt64(n) => n,
+        };
+        let n = -1 - i64::try_from(n).map_err(|_| String::from("Expected i64"))?;
+
+        // keep the encoded width unless the value does not fit in it
+        Ok(match self {
+            CborUnsignedInt::UInt8(_) if n >= i8::MIN as i64 => CborNegativeInt::Int8(n as i8),
+            CborUnsignedInt::UInt8(_) | CborUnsignedInt::UInt16(_) if n >= i16::MIN as i64 => {
+                CborNegativeInt::Int16(n as i16)
+            }
+            CborUnsignedInt::UInt64(_) => CborNegativeInt::Int64(n),
+            _ if n >= i32::MIN as i64 => CborNegativeInt::Int32(n as i32),
+            _ => CborNegativeInt::Int64(n),
+        })
     }
 
     fn to_u8(self) -> Result<u8, String> {
@@ -158,7 +170,10 @@ fn parser(i: &[u8]) -> IResult<&[u8], CborValue> {
             ))
         }
 
-        1 => Ok((i, CborValue::Signed(cbor_value.to_negative()))),
+        1 => match cbor_value.to_negative() {
+            Ok(n) => Ok((i, CborValue::Signed(n))),
+            Err(_) => Err(Err::Error(Error::new(i, ErrorKind::TooLarge))),
+        },
 
         2 | 3 => {
             let data_len = cbor_value.to_usize();
-- 
2.43.0


From df0c88fedea6450ab845caa96b3fe02578e97874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:37 +0000
Subject: [PATCH 05/12] fix: deleting a chunked asset deletes the certification
 of its chunks

Only the full response was removed from the tree, so the chunks of a
deleted asset remained certified.
---
 packages/ic-asset-certification/src/asset_router.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/packages/ic-asset-certification/src/asset_router.rs b/packages/ic-asset-certification/src/asset_router.rs
index f9468fd..4ebf38d 100644
--- a/packages/ic-asset-certification/src/asset_router.rs
+++ b/packages/ic-asset-certification/src/asset_router.rs
@@ -632,11 +632,13 @@ impl<'content> AssetRouter<'content> {
             // Delete also chunks.
             let mut range_begin: usize = 0;
             while range_begin < response.response.body().len() {
-                self.responses.remove(&RequestKey::new(
+                if let Some(chunk) = self.responses.remove(&RequestKey::new(
                     &asset_url,
                     encoding_str(encoding),
                     Some(range_begin),
-                ));
+                )) {
+                    self.tree.borrow_mut().delete(&chunk.tree_entry);
+                }
                 range_begin += ASSET_CHUNK_SIZE;
             }
         }
-- 
2.43.0


From fa92901d2f75aefcff92c71b4a33ca88fc17b388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:38 +0000
Subject: [PATCH 06/12] fix: an empty child of a fork does not end a label
 lookup

Fork(Empty, X) reported every label of X as absent, and
Fork(Pruned, Empty) reported absent for labels that may be pruned.
---
 packages/ic-certification/src/hash_tree/mod.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/packages/ic-certification/src/hash_tree/mod.rs b/packages/ic-certification/src/hash_tree/mod.rs
index efb8d41..44197ca 100644
--- a/packages/ic-certification/src/hash_tree/mod.rs
+++ b/packages/ic-certification/src/hash_tree/mod.rs
@@ -420,6 +420,15 @@ impl<Storage: AsRef<[u8]>> HashTreeNode<Storage> {
         hasher.finalize().into()
     }
 
+    /// Whether flattening this node gives nothing at all.
+    fn has_no_labels(&self) -> bool {
+        match self {
+            HashTreeNode::Empty() => true,
+            HashTreeNode::Fork(nodes) => nodes.0.has_no_labels() && nodes.1.has_no_labels(),
+            _ => false,
+        }
+    }
+
     /// Lookup a single label, returning a reference to the labeled [HashTreeNode] node if found.
     ///
     /// This assumes a sorted hash tree, which is what the spec says the system should
@@ -438,6 +447,9 @@ impl<Storage: AsRef<[u8]>> HashTreeNode<Storage> {
                 // out of this search (sorted tree), we looked too far.
                 std::cmp::Ordering::Less => LookupLabelResult::Less,
             },
+            // An empty child says nothing about the labels of its sibling.
+            HashTreeNode::Fork(nodes) if nodes.0.has_no_labels() => nodes.1.lookup_label(label),
+            HashTreeNode::Fork(nodes) if nodes.1.has_no_labels() => nodes.0.lookup_label(label),
             HashTreeNode::Fork(nodes) => {
                 let left_label = nodes.0.lookup_label(label);
                 match left_label {
-- 
2.43.0


From 52ade62768fd005b4ddd68c6cc0c1c531bed5f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:07 +0000
Subject: [PATCH 07/12] fix: a CBOR map must hold as many entries as it
 declares

---
 packages/ic-cbor/src/cbor_parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/ic-cbor/src/cbor_parser.rs b/packages/ic-cbor/src/cbor_parser.rs
index 222938e..ef2d49f 100644
--- a/packages/ic-cbor/src/cbor_parser.rs
+++ b/packages/ic-cbor/src/cbor_parser.rs
@@ -192,7 +192,7 @@ fn parser(i: &[u8]) -> IResult<&[u8], CborValue> {
         5 => {
             let data_len = cbor_value.to_usize();
             let (i, data) = fold_many_m_n(
-                0,
+                data_len,
                 data_len,
                 extract_key_val_pair,
                 HashMap::new,
-- 
2.43.0


From add77b6f84ba1db9dd8a39d7278c0e3fba8d0274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:16 +0000
Subject: [PATCH 08/12] fix: reject malformed signatures and keys before
 verifying them

The BLS verification panics on points that are not compressed or not of
the expected length, and ignores trailing bytes.
---
 .../src/signature_verification/mod.rs              | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/packages/ic-certificate-verification/src/signature_verification/mod.rs b/packages/ic-certificate-verification/src/signature_verification/mod.rs
index 250a675..8628818 100644
--- a/packages/ic-certificate-verification/src/signature_verification/mod.rs
+++ b/packages/ic-certificate-verification/src/signature_verification/mod.rs
@@ -4,6 +4,15 @@ use miracl_core_bls12381::bls12381::bls::{core_verify, BLS_OK};
 
 mod signature_cache;
 
+/// Lengths of compressed points, for signatures and public keys.
+const SIGNATURE_LENGTH: usize = 48;
+const PUBLIC_KEY_LENGTH: usize = 96;
+
+/// Whether the bytes can be read as a compressed point of the given length.
+fn is_compressed_point(bytes: &[u8], length: usize) -> bool {
+    bytes.len() == length && bytes[0] & 0x80 != 0
+}
+
 #[cfg(test)]
 mod reproducible_rng;
 
@@ -15,6 +24,11 @@ pub fn verify_signature(
     sig: &[u8],
     msg: &[u8],
 ) -> Result<(), CertificateVerificationError> {
+    // the verification panics on points of another length or form
+    if !is_compressed_point(sig, SIGNATURE_LENGTH) || !is_compressed_point(pk, PUBLIC_KEY_LENGTH) {
+        return Err(CertificateVerificationError::SignatureVerificationFailed);
+    }
+
     let entry = SignatureCacheEntry::new(pk, sig, msg);
 
     if SignatureCache::global().contains(&entry) {
-- 
2.43.0


From 568063c5d9b49c06f8aa3ec31f04646a5f8f80ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:43 +0000
Subject: [PATCH 09/12] fix: certify chunks for the range requests they answer

Every chunk was certified for a request without headers while its
expression certifies the range header, so no chunk but the first could
be verified with the request that it answers.
---
 .../ic-asset-certification/src/asset_router.rs   | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/packages/ic-asset-certification/src/asset_router.rs b/packages/ic-asset-certification/src/asset_router.rs
index 4ebf38d..fc7f1ca 100644
--- a/packages/ic-asset-certification/src/asset_router.rs
+++ b/packages/ic-asset-certification/src/asset_router.rs
@@ -797,6 +797,7 @@ impl<'content> AssetRouter<'content> {
             Cow::Owned(vec![]),
             headers,
             vec![],
+            vec![],
         )?;
 
         Ok(CertifiedAssetResponse {
@@ -830,6 +831,7 @@ impl<'content> AssetRouter<'content> {
         }
 
         let mut request_headers = vec![];
+        let mut certified_request_headers = vec![];
         if let Some(range_begin) = range_begin {
             let total_length = content.len();
             let range_end = cmp::min(range_begin + ASSET_CHUNK_SIZE, total_length) - 1;
@@ -839,7 +841,15 @@ impl<'content> AssetRouter<'content> {
                 http::header::CONTENT_RANGE.to_string(),
                 format!("bytes {range_begin}-{range_end}/{total_length}"),
             ));
-            request_headers.push(http::header::RANGE.to_string());
+            // The first chunk answers requests without a range header; every other chunk is only served
+            // for, and so has to be certified for, a request that has one.
+            certified_request_headers.push(http::header::RANGE.to_string());
+            if range_begin > 0 {
+                request_headers.push((
+                    http::header::RANGE.to_string(),
+                    format!("bytes={range_begin}-"),
+                ));
+            }
         };
 
         Self::prepare_response_and_certification(
@@ -848,6 +858,7 @@ impl<'content> AssetRouter<'content> {
             content,
             headers,
             request_headers,
+            certified_request_headers,
         )
     }
 
@@ -856,6 +867,7 @@ impl<'content> AssetRouter<'content> {
         status_code: StatusCode,
         body: Cow<'content, [u8]>,
         additional_response_headers: Vec<(String, String)>,
+        request_headers: Vec<(String, String)>,
         certified_request_headers: Vec<String>,
     ) -> AssetCertificationResult<(HttpResponse<'content>, HttpCertification)> {
         let mut headers = vec![("content-length".to_string(), body.len().to_string())];
@@ -875,7 +887,7 @@ impl<'content> AssetRouter<'content> {
         let cel_expr_str = cel_expr.to_string();
         headers.push((CERTIFICATE_EXPRESSION_HEADER_NAME.to_string(), cel_expr_str));
 
-        let request = HttpRequest::get(url).build();
+        let request = HttpRequest::get(url).with_headers(request_headers).build();
 
         let response = HttpResponse::builder()
             .with_status_code(status_code)
-- 
2.43.0


From c9ca1b78ab39cbec1239d7088e9d8d36cf63a794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:36 +0000
Subject: [PATCH 10/12] fix: serve assets that are not split into chunks for
 any range

A request with a range header for an asset no larger than a chunk was
answered with a fallback, which does not verify, or not found.
---
 packages/ic-asset-certification/src/asset_router.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/packages/ic-asset-certification/src/asset_router.rs b/packages/ic-asset-certification/src/asset_router.rs
index fc7f1ca..229513b 100644
--- a/packages/ic-asset-certification/src/asset_router.rs
+++ b/packages/ic-asset-certification/src/asset_router.rs
@@ -403,9 +403,15 @@ impl<'content> AssetRouter<'content> {
             return Ok(response);
         }
 
-        if let Some(response) =
-            self.responses
-                .get(&RequestKey::new(req_path, None, maybe_range_begin))
+        // An asset that is not split into chunks is served whole, whichever range is requested.
+        if let Some(response) = self
+            .responses
+            .get(&RequestKey::new(req_path, None, maybe_range_begin))
+            .or_else(|| {
+                self.responses
+                    .get(&RequestKey::new(req_path, None, None))
+                    .filter(|asset| asset.response.body().len() <= ASSET_CHUNK_SIZE)
+            })
         {
             if response.response.body().len() > ASSET_CHUNK_SIZE {
                 if let Some(first_chunk_response) =
-- 
2.43.0


From c762583cd155d0747342b92e991d29853ac8caf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:44 +0000
Subject: [PATCH 11/12] fix: a canister id that is no principal is an error,
 not a panic

---
 .../src/certificate_verification.rs                        | 6 +++++-
 packages/ic-certificate-verification/src/error.rs          | 7 +++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/packages/ic-certificate-verification/src/certificate_verification.rs b/packages/ic-certificate-verification/src/certificate_verification.rs
index f31096d..46889ca 100644
--- a/packages/ic-certificate-verification/src/certificate_verification.rs
+++ b/packages/ic-certificate-verification/src/certificate_verification.rs
@@ -95,7 +95,11 @@ fn verify_delegation(
         );
     };
 
-    let canister_id = Principal::from_slice(canister_id);
+    let canister_id = Principal::try_from_slice(canister_id).map_err(|_| {
+        CertificateVerificationError::InvalidCanisterId {
+            canister_id: canister_id.to_vec(),
+        }
+    })?;
     let canister_ranges: Vec<(Principal, Principal)> = parse_cbor_principals_array(canister_range)?;
     if !principal_is_within_ranges(&canister_id, &canister_ranges[..]) {
         // the certificate is not authorized to answer calls for this canister
diff --git a/packages/ic-certificate-verification/src/error.rs b/packages/ic-certificate-verification/src/error.rs
index a7c014e..5ae8459 100644
--- a/packages/ic-certificate-verification/src/error.rs
+++ b/packages/ic-certificate-verification/src/error.rs
@@ -54,6 +54,13 @@ pub enum CertificateVerificationError {
         canister_ranges: Vec<(Principal, Principal)>,
     },
 
+    /// The provided canister ID is not a valid principal
+    #[error("Canister ID is not a valid principal: {canister_id:?}")]
+    InvalidCanisterId {
+        /// The canister ID that was provided
+        canister_id: Vec<u8>,
+    },
+
     /// Certificate delegation is missing the required canister range
     #[error("Subnet canister ID ranges not found in certificate at path: {path:?}")]
     SubnetCanisterIdRangesNotFound {
-- 
2.43.0


From 82a5ba2acb5e5abc3c16dff93a8f96c996c0bdd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:27 +0000
Subject: [PATCH 12/12] fix: decode every member of a gzip body

---
 packages/ic-response-verification/src/verification/body.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages/ic-response-verification/src/verification/body.rs b/packages/ic-response-verification/src/verification/body.rs
index 211d8a0..9a7df12 100644
--- a/packages/ic-response-verification/src/verification/body.rs
+++ b/packages/ic-response-verification/src/verification/body.rs
@@ -1,12 +1,13 @@
 use crate::error::ResponseVerificationResult;
-use flate2::read::{DeflateDecoder, GzDecoder};
+use flate2::read::{DeflateDecoder, MultiGzDecoder};
 use std::io::Read;
 
 const MAX_CHUNK_SIZE_TO_DECOMPRESS: usize = 1_024;
 
 pub fn decode_body(body: &[u8], encoding: Option<&str>) -> ResponseVerificationResult<Vec<u8>> {
     match encoding {
-        Some("gzip") => body_from_decoder(GzDecoder::new(body)),
+        // a gzip body is a series of members, and clients decode all of them
+        Some("gzip") => body_from_decoder(MultiGzDecoder::new(body)),
         Some("deflate") => body_from_decoder(DeflateDecoder::new(body)),
         _ => Ok(body.to_owned()),
     }
-- 
2.43.0

