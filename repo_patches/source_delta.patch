From 1c02d9b184a6e09cec0095e48c3909fe225580b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:54:18 +0000
Subject: [PATCH 01/58] fix: avoid 32-bit overflow when reconstructing a Shamir
 secret

The reconstruction added two field elements in a 32-bit integer. The field
prime is slightly larger than 2^31, so the sum could wrap around and the
reconstructed secret was wrong. Accumulate in 64 bits instead.
---
 fcp/secagg/shared/shamir_secret_sharing.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/fcp/secagg/shared/shamir_secret_sharing.cc b/fcp/secagg/shared/shamir_secret_sharing.cc
index 2d96a79..9de6ae1 100644
--- a/fcp/secagg/shared/shamir_secret_sharing.cc
+++ b/fcp/secagg/shared/shamir_secret_sharing.cc
@@ -127,7 +127,9 @@ StatusOr<std::string> ShamirSecretSharing::Reconstruct(
   std::vector<uint32_t> coefficients = LagrangeCoefficients(x_values);
   std::vector<uint32_t> subsecrets;
   for (int i = 0; i < num_subsecrets; ++i) {
-    subsecrets.push_back(0);
+    // kPrime is larger than 2^31, so the sum of two field elements may need
+    // more than 32 bits.
+    uint64_t subsecret = 0;
     for (int j = 0; j < static_cast<int>(x_values.size()); ++j) {
       int share_index = x_values[j] - 1;
       uint32_t subshare = 0;
@@ -137,9 +139,10 @@ StatusOr<std::string> ShamirSecretSharing::Reconstruct(
         subshare += static_cast<uint8_t>(
             shares[share_index].data[kSubsecretSize * i + k]);
       }
-      subsecrets[i] += MultiplyMod(subshare, coefficients[j], kPrime);
-      subsecrets[i] %= kPrime;
+      subsecret += MultiplyMod(subshare, coefficients[j], kPrime);
+      subsecret %= kPrime;
     }
+    subsecrets.push_back(static_cast<uint32_t>(subsecret));
   }
 
   return RebuildFromSubsecrets(subsecrets, secret_length);
-- 
2.43.0


From 1460cc779118ff0c446e56df6c12c37e282e368b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:03:16 +0000
Subject: [PATCH 02/58] fix: hash the encryption key length when computing the
 session id

The length prefix of the encryption key was taken from the noise key, so
different key lists could produce the same session id.
---
 fcp/secagg/shared/compute_session_id.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fcp/secagg/shared/compute_session_id.cc b/fcp/secagg/shared/compute_session_id.cc
index adea423..5fd7da0 100644
--- a/fcp/secagg/shared/compute_session_id.cc
+++ b/fcp/secagg/shared/compute_session_id.cc
@@ -33,7 +33,7 @@ SessionId ComputeSessionId(const ShareKeysRequest& request) {
     int noise_pk_size = keys.noise_pk().size();
     std::string noise_pk_size_data = IntToByteString(noise_pk_size);
     int enc_pk_size = keys.enc_pk().size();
-    std::string enc_pk_size_data = IntToByteString(noise_pk_size);
+    std::string enc_pk_size_data = IntToByteString(enc_pk_size);
     FCP_CHECK(EVP_DigestUpdate(ctx, noise_pk_size_data.c_str(), sizeof(int)));
     FCP_CHECK(EVP_DigestUpdate(ctx, keys.noise_pk().c_str(), noise_pk_size));
     FCP_CHECK(EVP_DigestUpdate(ctx, enc_pk_size_data.c_str(), sizeof(int)));
-- 
2.43.0


From 8721a45c8cd1d8c6394dbdaaeb645e007d76a96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:15:36 +0000
Subject: [PATCH 03/58] fix: reject unmasking responses with the wrong number
 of key shares

The server read one share per neighbour without checking how many the
client had sent, so a short response was read out of bounds.
---
 fcp/secagg/server/secagg_server_protocol_impl.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fcp/secagg/server/secagg_server_protocol_impl.cc b/fcp/secagg/server/secagg_server_protocol_impl.cc
index cceb251..a82b132 100644
--- a/fcp/secagg/server/secagg_server_protocol_impl.cc
+++ b/fcp/secagg/server/secagg_server_protocol_impl.cc
@@ -258,6 +258,11 @@ Status SecAggServerProtocolImpl::HandleUnmaskingResponse(
             self_shamir_share_table_ != nullptr)
       << "Shamir Shares Tables haven't been initialized";
 
+  if (unmasking_response.noise_or_prf_key_shares_size() !=
+      static_cast<int>(number_of_neighbors())) {
+    return ::absl::InvalidArgumentError(
+        "Client sent the wrong number of key shares.");
+  }
   // Verify the client sent all the right types of shares.
   for (uint32_t i = 0; i < number_of_neighbors(); ++i) {
     int ith_neighbor = GetNeighbor(client_id, i);
-- 
2.43.0


From 7d935f9e36aa2a2e80b49af19e2a1e2488d5f4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:16:06 +0000
Subject: [PATCH 04/58] fix: fail the aggregation instead of crashing on
 unusable key shares

Key shares of an invalid or inconsistent size, or a client for which no
share arrived at all, reached checks that terminate the server process.
They now abort the aggregation.
---
 .../server/secagg_server_protocol_impl.cc     | 26 +++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/fcp/secagg/server/secagg_server_protocol_impl.cc b/fcp/secagg/server/secagg_server_protocol_impl.cc
index a82b132..25a74e7 100644
--- a/fcp/secagg/server/secagg_server_protocol_impl.cc
+++ b/fcp/secagg/server/secagg_server_protocol_impl.cc
@@ -315,6 +315,30 @@ Status SecAggServerProtocolImpl::HandleUnmaskingResponse(
 // PRNG computation methods
 // -----------------------------------------------------------------------------
 
+// Returns an error unless the shares received for one key can be handed to the
+// reconstruction code: all shares present must have the same, valid size.
+static Status CheckShareSizes(const std::vector<ShamirShare>& shares,
+                              bool is_self_key) {
+  size_t size = 0;
+  for (const ShamirShare& share : shares) {
+    if (share.data.empty()) continue;
+    if (size == 0) size = share.data.size();
+    if (share.data.size() != size) {
+      return ::absl::InvalidArgumentError("Key shares differ in size");
+    }
+  }
+  if (is_self_key && size == 0) {
+    return ::absl::FailedPreconditionError("No key shares were received");
+  }
+  bool valid = is_self_key
+                   ? size == 36 || size == 20
+                   : size % 4 == 0 && size <= 36;
+  if (!valid) {
+    return ::absl::InvalidArgumentError("Key shares have an invalid size");
+  }
+  return ::absl::OkStatus();
+}
+
 StatusOr<SecAggServerProtocolImpl::ShamirReconstructionResult>
 SecAggServerProtocolImpl::HandleShamirReconstruction() {
   FCP_CHECK(pairwise_shamir_share_table_ != nullptr &&
@@ -325,6 +349,7 @@ SecAggServerProtocolImpl::HandleShamirReconstruction() {
   ShamirSecretSharing reconstructor;
 
   for (const auto& item : *pairwise_shamir_share_table_) {
+    FCP_RETURN_IF_ERROR(CheckShareSizes(item.second, /*is_self_key=*/false));
     FCP_ASSIGN_OR_RETURN(std::string reconstructed_key,
                          reconstructor.Reconstruct(
                              minimum_surviving_neighbors_for_reconstruction(),
@@ -343,6 +368,7 @@ SecAggServerProtocolImpl::HandleShamirReconstruction() {
   }
 
   for (const auto& item : *self_shamir_share_table_) {
+    FCP_RETURN_IF_ERROR(CheckShareSizes(item.second, /*is_self_key=*/true));
     FCP_ASSIGN_OR_RETURN(
         AesKey reconstructed,
         AesKey::CreateFromShares(
-- 
2.43.0


From 1332633d5f66925d479384cfc606670e9079134e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:33:05 +0000
Subject: [PATCH 05/58] fix: abandon the old state when a promise is
 overwritten

---
 fcp/base/future.h | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/fcp/base/future.h b/fcp/base/future.h
index f464f49..d6e3723 100644
--- a/fcp/base/future.h
+++ b/fcp/base/future.h
@@ -167,15 +167,16 @@ template <typename T>
 class Promise {
  public:
   Promise(Promise&&) = default;
-  Promise& operator=(Promise&&) = default;
-
-  ~Promise() {
-    if (state_.has_value()) {
-      // Abandoned
-      (*state_)->Set(std::nullopt);
+  Promise& operator=(Promise&& other) {
+    if (this != &other) {
+      Abandon();
+      state_ = std::move(other.state_);
     }
+    return *this;
   }
 
+  ~Promise() { Abandon(); }
+
   /**
    * Provides a value to the paired Future. Setting a promise *consumes* it,
    * and so requires an rvalue. To set a Promise<T> p:
@@ -193,6 +194,12 @@ class Promise {
   explicit Promise(future_internal::FutureStateRef<T> state)
       : state_(std::move(state)) {}
 
+  void Abandon() {
+    if (state_.has_value()) {
+      (*state_)->Set(std::nullopt);
+    }
+  }
+
   future_internal::FutureStateRef<T> state_;
 };
 
-- 
2.43.0


From ac3b1fd68150ea3a09939e6efef6d8787693373a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:35:35 +0000
Subject: [PATCH 06/58] fix: keep the message of a copied status builder when
 streaming into it

---
 fcp/base/monitoring.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fcp/base/monitoring.cc b/fcp/base/monitoring.cc
index 2924154..cda37c0 100644
--- a/fcp/base/monitoring.cc
+++ b/fcp/base/monitoring.cc
@@ -32,7 +32,8 @@ StatusBuilder::StatusBuilder(StatusBuilder const& other)
     : file_(other.file_),
       line_(other.line_),
       code_(other.code_),
-      message_(other.message_.str()) {}
+      // Open at the end, so that further text is appended.
+      message_(other.message_.str(), std::ios_base::ate) {}
 
 StatusBuilder::operator Status() {
   auto message_str = message_.str();
-- 
2.43.0


From 12c99593a898006472230eddf6d78e6232670a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:36:03 +0000
Subject: [PATCH 07/58] fix: report failed reads and unflushed writes of whole
 files

---
 fcp/base/platform.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/fcp/base/platform.cc b/fcp/base/platform.cc
index 0f43c72..2c6c162 100644
--- a/fcp/base/platform.cc
+++ b/fcp/base/platform.cc
@@ -67,8 +67,9 @@ absl::StatusOr<T> ReadFile(absl::string_view file_name) {
         absl::StrCat("cannot read file ", file_name_str));
   }
   std::ostringstream buffer;
-  buffer << is.rdbuf();
-  if (!is) {
+  is >> std::noskipws >> buffer.rdbuf();
+  // The end of the file is only reached if nothing went wrong before it.
+  if (!is.eof()) {
     return absl::InternalError(
         absl::StrCat("error reading file ", file_name_str));
   }
@@ -94,6 +95,7 @@ absl::Status WriteStringToFile(absl::string_view file_name,
         absl::StrCat("cannot create file ", file_name_str));
   }
   os << content;
+  os.close();
   if (!os) {
     return absl::InternalError(
         absl::StrCat("error writing to file ", file_name_str));
@@ -116,6 +118,11 @@ absl::Status WriteCordToFile(absl::string_view file_name,
           absl::StrCat("error writing to file ", file_name_str));
     }
   }
+  os.close();
+  if (!os) {
+    return absl::InternalError(
+        absl::StrCat("error writing to file ", file_name_str));
+  }
   return absl::OkStatus();
 }
 
-- 
2.43.0


From c7609d1d8b2a856cb361875a904e10ce45dfa719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:36:48 +0000
Subject: [PATCH 08/58] fix: report truncated gzip data as an error

---
 fcp/base/compression.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/fcp/base/compression.cc b/fcp/base/compression.cc
index 20b969d..c9d843e 100644
--- a/fcp/base/compression.cc
+++ b/fcp/base/compression.cc
@@ -80,7 +80,14 @@ absl::StatusOr<absl::Cord> UncompressWithGzip(
                               static_cast<int>(compressed_data.size()));
   GzipInputStream input_stream(&sub_stream, GzipInputStream::GZIP);
 
+  // GzipInputStream does not tell the end of the compressed data from the end
+  // of its input, so remember whether the last chunk completed the data.
+  bool complete = true;
   while (input_stream.Next(&buffer, &size)) {
+    // Z_BUF_ERROR means that there was nothing left to do.
+    if (input_stream.ZlibErrorCode() != Z_BUF_ERROR) {
+      complete = input_stream.ZlibErrorCode() == Z_STREAM_END;
+    }
     if (size <= -1) {
       return absl::InternalError(
           "Uncompress failed: invalid input size returned by the "
@@ -95,6 +102,9 @@ absl::StatusOr<absl::Cord> UncompressWithGzip(
         absl::StrCat("An error has occurred during decompression:",
                      input_stream.ZlibErrorMessage()));
   }
+  if (!complete) {
+    return absl::InternalError("Uncompress failed: truncated input.");
+  }
 
   return out;
 }
-- 
2.43.0


From 5c494e2e1a4f5db932fcd5d1e99d6abda7136d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:44:21 +0000
Subject: [PATCH 09/58] fix: refuse malformed dictionary descriptions instead
 of crashing

---
 fcp/dictionary/dictionary.cc | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/fcp/dictionary/dictionary.cc b/fcp/dictionary/dictionary.cc
index 3c94926..5c31ccc 100644
--- a/fcp/dictionary/dictionary.cc
+++ b/fcp/dictionary/dictionary.cc
@@ -78,11 +78,6 @@ class DictionaryImpl : public Dictionary {
       : bimap_(std::move(bimap)),
         special_ids_(special_ids),
         max_special_id_(GetMaxSpecialId(special_ids)) {
-    // Validate special ids.
-    FCP_CHECK(special_ids.has_bos() == (special_ids.bos() >= 0));
-    FCP_CHECK(special_ids.has_eos() == (special_ids.eos() >= 0));
-    FCP_CHECK(special_ids.has_unk() == (special_ids.unk() >= 0));
-
     // Token numbering starts at max(special_ids) + 1.
     output_blocklist_ids_.reserve(max_special_id_ + 1 +
                                   output_blocklist_ids.id_size());
@@ -130,6 +125,16 @@ class DictionaryImpl : public Dictionary {
   std::vector<int32_t> output_blocklist_ids_;
 };
 
+absl::Status AreSpecialIdsNonNegative(
+    const DictionaryDescription::SpecialIds& special_ids) {
+  if (special_ids.has_bos() != (special_ids.bos() >= 0) ||
+      special_ids.has_eos() != (special_ids.eos() >= 0) ||
+      special_ids.has_unk() != (special_ids.unk() >= 0)) {
+    return absl::InvalidArgumentError("special_ids must not be negative");
+  }
+  return absl::OkStatus();
+}
+
 absl::Status IsOutputBlocklistIdsSortedAndUnique(
     const DictionaryDescription& description) {
   // All blocklist ids must be greater than max_special_id.
@@ -160,6 +165,7 @@ absl::StatusOr<std::unique_ptr<Dictionary>> Dictionary::Create(
     return absl::InvalidArgumentError(
         "Cannot create a dictionary that does not have vocabulary set");
   }
+  FCP_RETURN_IF_ERROR(AreSpecialIdsNonNegative(description.special_ids()));
   // Make sure output blocklist IDs are sorted in ascending order and unique.
   FCP_RETURN_IF_ERROR(IsOutputBlocklistIdsSortedAndUnique(description));
 
@@ -168,7 +174,9 @@ absl::StatusOr<std::unique_ptr<Dictionary>> Dictionary::Create(
     int i = 0;
     bimap->second.reserve(description.vocabulary().index().token_size());
     for (absl::string_view token : description.vocabulary().index().token()) {
-      FCP_CHECK(!token.empty());
+      if (token.empty()) {
+        return absl::InvalidArgumentError("Vocabulary has an empty token");
+      }
       bimap->first[token] = i++;
       bimap->second.emplace_back(token);
     }
-- 
2.43.0


From 6d685521c0bba0353802687a032e312d51931480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:46:58 +0000
Subject: [PATCH 10/58] fix: reject signature lists with malformed entries
 instead of crashing

---
 fcp/confidentialcompute/cose.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fcp/confidentialcompute/cose.cc b/fcp/confidentialcompute/cose.cc
index 7032674..5146088 100644
--- a/fcp/confidentialcompute/cose.cc
+++ b/fcp/confidentialcompute/cose.cc
@@ -469,8 +469,9 @@ absl::StatusOr<OkpCwt> OkpCwt::Decode(absl::string_view encoded) {
       // which is a (protected header, unprotected header, signature) tuple.
       if (cppbor::Array* sigs = component->asArray(); sigs->size() > 0) {
         if (cppbor::Array* sig = sigs->get(0)->asArray();
-            sig->size() == 3 && sig->get(0)->type() == cppbor::BSTR &&
-            sig->get(0)->type() == cppbor::BSTR) {
+            sig != nullptr && sig->size() == 3 &&
+            sig->get(0)->type() == cppbor::BSTR &&
+            sig->get(2)->type() == cppbor::BSTR) {
           parsed_signature_and_protected_header = true;
           FCP_RETURN_IF_ERROR(
               ParseCwtProtectedHeader(sig->get(0)->asBstr()->value(), cwt));
-- 
2.43.0


From 4659981edbe27a6b5ae67e6b92f747949ac7be86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:47:13 +0000
Subject: [PATCH 11/58] fix: reject client payloads whose header is truncated
 or incomplete

---
 fcp/confidentialcompute/client_payload.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/fcp/confidentialcompute/client_payload.cc b/fcp/confidentialcompute/client_payload.cc
index 04fbfbc..094526c 100644
--- a/fcp/confidentialcompute/client_payload.cc
+++ b/fcp/confidentialcompute/client_payload.cc
@@ -82,14 +82,19 @@ absl::StatusOr<ClientPayloadHeader> DecodeAndConsumeClientPayloadHeader(
       static_cast<int>(encoded_data.size()));
   // Skip over the constant byte pattern at the start of the data.
   coded_in.Skip(static_cast<int>(kConfidentialAggPayloadV1MagicBytes.size()));
-  uint32_t serialized_payload_size;
-  if (!coded_in.ReadVarint32(&serialized_payload_size)) {
+  uint64_t serialized_payload_size;
+  if (!coded_in.ReadVarint64(&serialized_payload_size)) {
     return absl::InvalidArgumentError("Could not read 'size' varint64");
   }
+  if (serialized_payload_size >
+      encoded_data.size() - coded_in.CurrentPosition()) {
+    return absl::InvalidArgumentError("Serialized payload is truncated");
+  }
 
-  auto limit = coded_in.PushLimit(serialized_payload_size);
+  auto limit = coded_in.PushLimit(static_cast<int>(serialized_payload_size));
   AggregationClientPayloadHeader payload_header;
-  if (!payload_header.ParseFromCodedStream(&coded_in)) {
+  if (!payload_header.ParseFromCodedStream(&coded_in) ||
+      !coded_in.ConsumedEntireMessage()) {
     return absl::InvalidArgumentError("Could not parse serialized payload");
   }
   coded_in.PopLimit(limit);
-- 
2.43.0


From aabd29cdddafd14b8f0eca36365ae9dc9f5d1640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:53:13 +0000
Subject: [PATCH 12/58] fix: reject attested tokens without a key or an
 algorithm

---
 fcp/client/attestation/attestation_verifier.cc          | 4 ++++
 fcp/client/attestation/oak_rust_attestation_verifier.cc | 8 +++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/fcp/client/attestation/attestation_verifier.cc b/fcp/client/attestation/attestation_verifier.cc
index ae502d3..cf63ac0 100644
--- a/fcp/client/attestation/attestation_verifier.cc
+++ b/fcp/client/attestation/attestation_verifier.cc
@@ -45,6 +45,10 @@ absl::StatusOr<OkpKey> AlwaysPassingAttestationVerifier::Verify(
         "Parsing confidential aggregation public key failed.";
     return absl::Status(cwt.status().code(), error_msg);
   }
+  if (!cwt->public_key.has_value()) {
+    return absl::InvalidArgumentError(
+        "Confidential aggregation public key is missing.");
+  }
   return *cwt->public_key;
 }
 
diff --git a/fcp/client/attestation/oak_rust_attestation_verifier.cc b/fcp/client/attestation/oak_rust_attestation_verifier.cc
index d840655..a9e25e2 100644
--- a/fcp/client/attestation/oak_rust_attestation_verifier.cc
+++ b/fcp/client/attestation/oak_rust_attestation_verifier.cc
@@ -114,7 +114,13 @@ absl::StatusOr<OkpKey> OakRustAttestationVerifier::Verify(
   // algorithm.
   if (!cwt->algorithm.has_value() || *cwt->algorithm != kAlgorithmES256) {
     return absl::FailedPreconditionError(absl::Substitute(
-        "Unsupported COSE signing algorithm ($0).", *cwt->algorithm));
+        "Unsupported COSE signing algorithm ($0).",
+        cwt->algorithm.value_or(0)));
+  }
+
+  if (!cwt->public_key.has_value()) {
+    return absl::FailedPreconditionError(
+        "Confidential aggregation public key is missing.");
   }
 
   // Extract the protected parts of the CWT (the COSE Sig_structure), which are
-- 
2.43.0


From 7eb67ef4e62bfd79300ecffba1df8d4d13ac1a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:55:11 +0000
Subject: [PATCH 13/58] fix: do not extract empty or merged records from
 damaged logs

---
 .../extract_attestation_records.cc            | 23 +++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/fcp/client/attestation/extract_attestation_records.cc b/fcp/client/attestation/extract_attestation_records.cc
index 4369876..f2588cf 100644
--- a/fcp/client/attestation/extract_attestation_records.cc
+++ b/fcp/client/attestation/extract_attestation_records.cc
@@ -16,6 +16,7 @@
 
 #include "fcp/client/attestation/extract_attestation_records.h"
 
+#include <cstdint>
 #include <iostream>
 #include <istream>
 #include <optional>
@@ -108,6 +109,14 @@ std::optional<Record> ParseRecord(absl::string_view serialized_record,
     return std::nullopt;
   }
 
+  // An end marker without any data is what is left of a record whose other
+  // lines were lost.
+  if (compressed_record.empty()) {
+    FCP_LOG(ERROR) << "Found no record data at lines " << start_line << "-"
+                   << end_line;
+    return std::nullopt;
+  }
+
   // Decompress.
   absl::StatusOr<absl::Cord> decompressed_record =
       fcp::UncompressWithGzip(compressed_record);
@@ -117,6 +126,20 @@ std::optional<Record> ParseRecord(absl::string_view serialized_record,
     return std::nullopt;
   }
 
+  // The last four bytes hold the size of the uncompressed data. A mismatch means
+  // that several records ran together because the lines between them were lost.
+  uint32_t expected_size = 0;
+  for (int i = 0; i < 4 && i < compressed_record.size(); ++i) {
+    expected_size =
+        (expected_size << 8) |
+        static_cast<uint8_t>(compressed_record[compressed_record.size() - 1 - i]);
+  }
+  if (static_cast<uint32_t>(decompressed_record->size()) != expected_size) {
+    FCP_LOG(ERROR) << "Found more than one record at lines " << start_line
+                   << "-" << end_line;
+    return std::nullopt;
+  }
+
   // Validate that the data successfully parses.
   fcp::confidentialcompute::AttestationVerificationRecord parsed_record;
   if (!ParseFromStringOrCord(parsed_record, *decompressed_record)) {
-- 
2.43.0


From b1f8ec5eb2c3154dc9a73b7e56d5aad0e92a9079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:45 +0000
Subject: [PATCH 14/58] fix: make the resource cache overwrite whole entries
 and refuse path-like ids

---
 .../cache/file_backed_resource_cache.cc       | 83 ++++++++++++++-----
 1 file changed, 62 insertions(+), 21 deletions(-)

diff --git a/fcp/client/cache/file_backed_resource_cache.cc b/fcp/client/cache/file_backed_resource_cache.cc
index d71b97c..d422e5c 100644
--- a/fcp/client/cache/file_backed_resource_cache.cc
+++ b/fcp/client/cache/file_backed_resource_cache.cc
@@ -57,6 +57,23 @@ constexpr char kCacheManifestFileName[] = "cache_manifest.pb";
 constexpr char kParentDir[] = "fcp";
 // Cached files will be saved in <cache directory>/fcp/cache.
 constexpr char kCacheDir[] = "cache";
+// A resource is written to <cache directory>/fcp/cache.pending first.
+constexpr char kPendingSuffix[] = ".pending";
+
+namespace {
+
+std::filesystem::path PendingFilePath(const std::filesystem::path& cache_dir) {
+  return std::filesystem::path(cache_dir.string() + kPendingSuffix);
+}
+
+// Cache ids name files in the cache directory, so they must be plain names.
+bool IsValidCacheId(const std::string& cache_id) {
+  return !cache_id.empty() && cache_id != "." && cache_id != ".." &&
+         cache_id.find('/') == std::string::npos &&
+         cache_id.find('\0') == std::string::npos;
+}
+
+}  // namespace
 
 absl::StatusOr<CacheManifest> FileBackedResourceCache::ReadInternal() {
   absl::StatusOr<const CacheManifest*> data = pds_->Read();
@@ -163,6 +180,10 @@ absl::Status FileBackedResourceCache::Put(absl::string_view cache_id,
                                           absl::Duration max_age) {
   absl::MutexLock lock(&mutex_);
 
+  std::string cache_id_str(cache_id);
+  if (!IsValidCacheId(cache_id_str)) {
+    return absl::InvalidArgumentError("The cache id is not a valid file name");
+  }
   if (resource.size() > max_cache_size_bytes_ / 2) {
     return absl::ResourceExhaustedError(absl::StrCat(cache_id, " too large"));
   }
@@ -170,7 +191,6 @@ absl::Status FileBackedResourceCache::Put(absl::string_view cache_id,
   FCP_ASSIGN_OR_RETURN(CacheManifest manifest, ReadInternal());
   FCP_RETURN_IF_ERROR(CleanUp(resource.size(), manifest));
 
-  std::string cache_id_str(cache_id);
   std::filesystem::path cached_file_path = cache_dir_path_ / cache_id_str;
   absl::Time now = clock_.Now();
   absl::Time expiry = now + max_age;
@@ -182,28 +202,44 @@ absl::Status FileBackedResourceCache::Put(absl::string_view cache_id,
   *cached_resource.mutable_last_accessed_time() =
       TimeUtil::ConvertAbslToProtoTimestamp(now);
 
-  // Write the manifest back to disk before we write the file.
-  manifest.mutable_cache()->insert({cache_id_str, cached_resource});
-  FCP_RETURN_IF_ERROR(
-      WriteInternal(std::make_unique<CacheManifest>(std::move(manifest))));
-
-  // Write file if it doesn't exist.
-  std::error_code exists_error;
-  bool cached_file_exists =
-      std::filesystem::exists(cached_file_path, exists_error);
-  if (exists_error.value() != 0) {
-    log_manager_.LogDiag(
-        ProdDiagCode::RESOURCE_CACHE_PUT_FAILED_TO_CHECK_IF_FILE_EXISTS);
+  // Write the resource under a temporary name first, so that a failed write
+  // cannot leave a partial file behind under the resource's own name.
+  std::filesystem::path pending_file_path = PendingFilePath(cache_dir_path_);
+  std::error_code ignored_error;
+  auto status = WriteCordToFile(pending_file_path.string(), resource);
+  if (!status.ok()) {
+    log_manager_.LogDiag(ProdDiagCode::RESOURCE_CACHE_RESOURCE_WRITE_FAILED);
+    std::filesystem::remove(pending_file_path, ignored_error);
+    return status;
+  }
+  // Remove the resource previously stored under this id, if any, before the
+  // manifest describes the new one.
+  std::error_code remove_error;
+  std::filesystem::remove(cached_file_path, remove_error);
+  if (remove_error.value() != 0) {
+    log_manager_.LogDiag(ProdDiagCode::RESOURCE_CACHE_RESOURCE_WRITE_FAILED);
+    std::filesystem::remove(pending_file_path, ignored_error);
     return absl::InternalError(absl::StrCat(
-        "Failed to check if cached resource already exists with error code: ",
-        exists_error.value()));
+        "Failed to replace cached resource with error code: ",
+        remove_error.value()));
   }
-  if (!cached_file_exists) {
-    auto status = WriteCordToFile(cached_file_path.string(), resource);
-    if (!status.ok()) {
-      log_manager_.LogDiag(ProdDiagCode::RESOURCE_CACHE_RESOURCE_WRITE_FAILED);
-      return status;
-    }
+
+  // Write the manifest back to disk before we move the file to its place.
+  (*manifest.mutable_cache())[cache_id_str] = cached_resource;
+  status = WriteInternal(std::make_unique<CacheManifest>(std::move(manifest)));
+  if (!status.ok()) {
+    std::filesystem::remove(pending_file_path, ignored_error);
+    return status;
+  }
+
+  std::error_code rename_error;
+  std::filesystem::rename(pending_file_path, cached_file_path, rename_error);
+  if (rename_error.value() != 0) {
+    log_manager_.LogDiag(ProdDiagCode::RESOURCE_CACHE_RESOURCE_WRITE_FAILED);
+    std::filesystem::remove(pending_file_path, ignored_error);
+    return absl::InternalError(
+        absl::StrCat("Failed to store cached resource with error code: ",
+                     rename_error.value()));
   }
 
   return absl::OkStatus();
@@ -343,6 +379,11 @@ absl::Status FileBackedResourceCache::CleanUp(
     cache_dir_files.insert(cache_dir_path_ / file);
   }
 
+  // A resource which was never moved to its place is not tracked either.
+  std::error_code ignored_pending_error;
+  std::filesystem::remove(PendingFilePath(cache_dir_path_),
+                          ignored_pending_error);
+
   int64_t max_allowed_size_bytes = max_cache_size_bytes_;
   max_allowed_size_bytes -= reserved_space_bytes.value_or(0);
 
-- 
2.43.0


From 649760865aa41eb2f4e687c57bce8975ee1ed877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:17 +0000
Subject: [PATCH 15/58] fix: keep the separation policy index of runs recorded
 per phase

---
 fcp/client/opstats/opstats_utils.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fcp/client/opstats/opstats_utils.cc b/fcp/client/opstats/opstats_utils.cc
index 408e42c..39b37a7 100644
--- a/fcp/client/opstats/opstats_utils.cc
+++ b/fcp/client/opstats/opstats_utils.cc
@@ -187,6 +187,11 @@ std::vector<OperationalStats> ConvertToLegacyOperationalStats(
       legacy_op_stats.push_back(CreateLegacyOperationalStats(
           op_stats.population_name(), op_stats.session_name(),
           op_stats.retry_window(), task_stats));
+      // The policy index is recorded once per run and applies to all its tasks.
+      if (op_stats.has_min_sep_policy_index()) {
+        legacy_op_stats.back().set_min_sep_policy_index(
+            op_stats.min_sep_policy_index());
+      }
     }
   }
   return legacy_op_stats;
-- 
2.43.0


From b69940d723c5534e0a9f0c232f4d67d8e49c148c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:55 +0000
Subject: [PATCH 16/58] fix: record fatal and nonfatal initialization errors
 under their own kinds

---
 fcp/client/phase_logger_impl.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fcp/client/phase_logger_impl.cc b/fcp/client/phase_logger_impl.cc
index 6f71d22..0d88878 100644
--- a/fcp/client/phase_logger_impl.cc
+++ b/fcp/client/phase_logger_impl.cc
@@ -79,7 +79,7 @@ void PhaseLoggerImpl::LogNonfatalInitializationError(
       error_status, kInitializationErrorPrefix, /* keep_error_message= */ true);
   event_publisher_->PublishNonfatalInitializationError(error_message);
   opstats_logger_->AddEventWithErrorMessage(
-      OperationalStats::Event::EVENT_KIND_INITIALIZATION_ERROR_FATAL,
+      OperationalStats::Event::EVENT_KIND_INITIALIZATION_ERROR_NONFATAL,
       error_message);
 }
 
@@ -88,7 +88,7 @@ void PhaseLoggerImpl::LogFatalInitializationError(absl::Status error_status) {
       error_status, kInitializationErrorPrefix, /* keep_error_message= */ true);
   event_publisher_->PublishFatalInitializationError(error_message);
   opstats_logger_->AddEventWithErrorMessage(
-      OperationalStats::Event::EVENT_KIND_INITIALIZATION_ERROR_NONFATAL,
+      OperationalStats::Event::EVENT_KIND_INITIALIZATION_ERROR_FATAL,
       error_message);
 }
 
-- 
2.43.0


From 54b48979d799238b3af38093bb6a542d9821c577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:51 +0000
Subject: [PATCH 17/58] fix: do not overwrite an earlier run's history entry
 after a failed commit

---
 fcp/client/opstats/opstats_logger_impl.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fcp/client/opstats/opstats_logger_impl.cc b/fcp/client/opstats/opstats_logger_impl.cc
index 6e1124b..fbd3888 100644
--- a/fcp/client/opstats/opstats_logger_impl.cc
+++ b/fcp/client/opstats/opstats_logger_impl.cc
@@ -225,7 +225,9 @@ absl::Status OpStatsLoggerImpl::CommitToStorage() {
   log_manager_->LogToLongHistogram(
       HistogramCounters::TRAINING_OPSTATS_COMMIT_LATENCY,
       absl::ToInt64Milliseconds(after_commit_time - before_commit_time));
-  already_committed_ = true;
+  // A failed commit leaves no entry of this run behind, so the next one must
+  // not replace the last stored entry, which belongs to an earlier run.
+  already_committed_ = already_committed_ || status.ok();
   return status;
 }
 
-- 
2.43.0


From f67883b4fa81ac8bd8859ca763783aa21b9e41b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:45:46 +0000
Subject: [PATCH 18/58] fix: percent-encode characters below 0x10 with two
 digits

---
 fcp/client/http/http_client_util.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fcp/client/http/http_client_util.cc b/fcp/client/http/http_client_util.cc
index f5d24b8..8b91f2e 100644
--- a/fcp/client/http/http_client_util.cc
+++ b/fcp/client/http/http_client_util.cc
@@ -137,7 +137,7 @@ absl::StatusOr<std::string> PercentEncode(
       continue;
     }
     // Any other character is percent-encoded.
-    result.append(absl::StrFormat("%%%X", c));
+    result.append(absl::StrFormat("%%%02X", c));
   }
   return result;
 }
-- 
2.43.0


From 26eb90528e3093b9028e7c0b676a043b97159878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:06:24 +0000
Subject: [PATCH 19/58] fix: accept an empty path in protocol requests with
 parameters

---
 fcp/client/http/protocol_request_helper.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fcp/client/http/protocol_request_helper.cc b/fcp/client/http/protocol_request_helper.cc
index ca08830..4b95c6a 100644
--- a/fcp/client/http/protocol_request_helper.cc
+++ b/fcp/client/http/protocol_request_helper.cc
@@ -114,7 +114,7 @@ namespace {
 
 std::string CreateUriSuffixFromPathAndParams(absl::string_view path,
                                              const QueryParams& params) {
-  return absl::StrCat(path, "?",
+  return absl::StrCat(path.empty() ? "/" : path, "?",
                       absl::StrJoin(params.begin(), params.end(), "&",
                                     absl::PairFormatter("=")));
 }
-- 
2.43.0


From 3a48141daf719bcb902f35338dcec18f325429f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:14:17 +0000
Subject: [PATCH 20/58] fix: report failed HTTP transfers as errors

A transfer that curl could not finish was reported as completed once its
headers had arrived. The outcome of the transfer is now passed on, so a
truncated response ends with a body error. A failure to read the request
body is reported with its own status.
---
 fcp/client/http/curl/curl_http_client.cc      |  2 +-
 .../http/curl/curl_http_request_handle.cc     | 37 ++++++++++++++++++-
 .../http/curl/curl_http_request_handle.h      |  5 ++-
 3 files changed, 40 insertions(+), 4 deletions(-)

diff --git a/fcp/client/http/curl/curl_http_client.cc b/fcp/client/http/curl/curl_http_client.cc
index c5f75e7..aa86abf 100644
--- a/fcp/client/http/curl/curl_http_client.cc
+++ b/fcp/client/http/curl/curl_http_client.cc
@@ -45,7 +45,7 @@ void ReadCompleteMessages(CurlMultiHandle* multi_handle) {
       FCP_CHECK(user_data != nullptr);
 
       auto handle = static_cast<CurlHttpRequestHandle*>(user_data);
-      handle->MarkAsCompleted();
+      handle->MarkAsCompleted(msg->data.result);
       handle->RemoveFromMulti(multi_handle);
     }
   }
diff --git a/fcp/client/http/curl/curl_http_request_handle.cc b/fcp/client/http/curl/curl_http_request_handle.cc
index b7af189..46e39d2 100644
--- a/fcp/client/http/curl/curl_http_request_handle.cc
+++ b/fcp/client/http/curl/curl_http_request_handle.cc
@@ -73,6 +73,28 @@ curl_slist* AddToCurlHeaderList(curl_slist* header_list, const std::string& key,
   return tmp;
 }
 
+// Converts the outcome of a failed transfer to a status.
+absl::Status TransferError(CURLcode code, const char* details) {
+  std::string message =
+      absl::StrCat(CurlEasyHandle::StrError(code), ": ", details);
+  switch (code) {
+    case CURLE_TOO_MANY_REDIRECTS:
+      return absl::OutOfRangeError(message);
+    case CURLE_OPERATION_TIMEDOUT:
+      return absl::DeadlineExceededError(message);
+    case CURLE_COULDNT_RESOLVE_PROXY:
+    case CURLE_COULDNT_RESOLVE_HOST:
+    case CURLE_COULDNT_CONNECT:
+    case CURLE_PARTIAL_FILE:
+    case CURLE_GOT_NOTHING:
+    case CURLE_SEND_ERROR:
+    case CURLE_RECV_ERROR:
+      return absl::UnavailableError(message);
+    default:
+      return absl::InternalError(message);
+  }
+}
+
 }  // namespace
 
 size_t CurlHttpRequestHandle::HeaderCallback(char* buffer, size_t size,
@@ -130,6 +152,7 @@ size_t CurlHttpRequestHandle::UploadCallback(char* buffer, size_t size,
   } else if (read_size.status().code() == absl::StatusCode::kOutOfRange) {
     return 0;
   }
+  self->read_status_ = read_size.status();
   return CURL_READFUNC_ABORT;
 }
 
@@ -188,12 +211,22 @@ void CurlHttpRequestHandle::Cancel() {
   is_cancelled_ = true;
 }
 
-void CurlHttpRequestHandle::MarkAsCompleted() {
+void CurlHttpRequestHandle::MarkAsCompleted(CURLcode result) {
   absl::MutexLock lock(&mutex_);
 
   FCP_CHECK(callback_ != nullptr);
   if (!is_cancelled_ && !is_completed_) {
-    if (response_ != nullptr) {
+    absl::Status status = absl::OkStatus();
+    if (!read_status_.ok()) {
+      status = read_status_;
+    } else if (result != CURLE_OK) {
+      status = TransferError(result, error_buffer_);
+    }
+    if (!status.ok() && response_ != nullptr) {
+      callback_->OnResponseBodyError(*request_, *response_, status);
+    } else if (!status.ok()) {
+      callback_->OnResponseError(*request_, status);
+    } else if (response_ != nullptr) {
       callback_->OnResponseCompleted(*request_, *response_);
     } else {
       callback_->OnResponseError(*request_,
diff --git a/fcp/client/http/curl/curl_http_request_handle.h b/fcp/client/http/curl/curl_http_request_handle.h
index 3b0147c..1e3c20a 100644
--- a/fcp/client/http/curl/curl_http_request_handle.h
+++ b/fcp/client/http/curl/curl_http_request_handle.h
@@ -56,7 +56,8 @@ class CurlHttpRequestHandle : public HttpRequestHandle {
   void RemoveFromMulti(CurlMultiHandle* multi_handle)
       ABSL_LOCKS_EXCLUDED(mutex_);
   // Marks the request as completed which fires the OnComplete callback.
-  void MarkAsCompleted() ABSL_LOCKS_EXCLUDED(mutex_);
+  // `result` is the outcome of the transfer as reported by libcurl.
+  void MarkAsCompleted(CURLcode result) ABSL_LOCKS_EXCLUDED(mutex_);
 
   // HttpRequestHandle overrides:
   ABSL_MUST_USE_RESULT HttpRequestHandle::SentReceivedBytes
@@ -98,6 +99,8 @@ class CurlHttpRequestHandle : public HttpRequestHandle {
   bool is_being_performed_ ABSL_GUARDED_BY(mutex_);
   bool is_completed_ ABSL_GUARDED_BY(mutex_);
   bool is_cancelled_ ABSL_GUARDED_BY(mutex_);
+  // The error returned when reading the request body, if any.
+  absl::Status read_status_;
   char error_buffer_[CURL_ERROR_SIZE] ABSL_GUARDED_BY(mutex_){};
   // Owned by the class.
   curl_slist* header_list_;
-- 
2.43.0


From a0f687ee3631dfab8a004784896505bcc78ff767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:14:17 +0000
Subject: [PATCH 21/58] fix: make no callbacks after a callback failed

An error returned from a response callback ends the request, without any
further callback. The response is started once, also when trailers follow
the body, and before any body data of a redirect without a location.
---
 .../http/curl/curl_http_request_handle.cc     | 52 +++++++++++++------
 .../http/curl/curl_http_request_handle.h      |  3 ++
 2 files changed, 39 insertions(+), 16 deletions(-)

diff --git a/fcp/client/http/curl/curl_http_request_handle.cc b/fcp/client/http/curl/curl_http_request_handle.cc
index 46e39d2..9fc41a8 100644
--- a/fcp/client/http/curl/curl_http_request_handle.cc
+++ b/fcp/client/http/curl/curl_http_request_handle.cc
@@ -97,30 +97,44 @@ absl::Status TransferError(CURLcode code, const char* details) {
 
 }  // namespace
 
+bool CurlHttpRequestHandle::StartResponse() {
+  {
+    absl::MutexLock lock(&mutex_);
+    if (is_cancelled_) {
+      return false;
+    }
+    response_ = std::make_unique<CurlHttpResponse>(
+        header_parser_.GetStatusCode(), header_parser_.GetHeaderList());
+  }
+
+  FCP_CHECK(callback_ != nullptr);
+  absl::Status status = callback_->OnResponseStarted(*request_, *response_);
+
+  if (!status.ok()) {
+    FCP_LOG(ERROR) << "Called OnResponseStarted. Received status: " << status;
+    absl::MutexLock lock(&mutex_);
+    is_completed_ = true;
+    return false;
+  }
+  return true;
+}
+
 size_t CurlHttpRequestHandle::HeaderCallback(char* buffer, size_t size,
                                              size_t n_items, void* user_data) {
   auto self = static_cast<CurlHttpRequestHandle*>(user_data);
   std::string str_header(static_cast<char*>(buffer), size * n_items);
 
-  self->header_parser_.ParseHeader(str_header);
-  if (!self->header_parser_.IsLastHeader()) {
+  // Trailers are not part of the response's headers.
+  if (self->response_ != nullptr) {
     return size * n_items;
   }
 
-  self->response_ =
-      std::make_unique<CurlHttpResponse>(self->header_parser_.GetStatusCode(),
-                                         self->header_parser_.GetHeaderList());
-
-  FCP_CHECK(self->callback_ != nullptr);
-  absl::Status status =
-      self->callback_->OnResponseStarted(*self->request_, *self->response_);
-
-  if (!status.ok()) {
-    FCP_LOG(ERROR) << "Called OnResponseStarted. Received status: " << status;
-    self->callback_->OnResponseError(*self->request_, status);
+  self->header_parser_.ParseHeader(str_header);
+  if (!self->header_parser_.IsLastHeader()) {
+    return size * n_items;
   }
 
-  return size * n_items;
+  return self->StartResponse() ? size * n_items : 0;
 }
 
 size_t CurlHttpRequestHandle::DownloadCallback(void* body, size_t size,
@@ -128,13 +142,19 @@ size_t CurlHttpRequestHandle::DownloadCallback(void* body, size_t size,
   auto self = static_cast<CurlHttpRequestHandle*>(user_data);
   absl::string_view str_body(static_cast<char*>(body), size * nmemb);
 
+  // The headers of a redirect that leads nowhere have not been reported yet.
+  if (self->response_ == nullptr && !self->StartResponse()) {
+    return 0;
+  }
+
   absl::Status status = self->callback_->OnResponseBody(
       *self->request_, *self->response_, str_body);
 
   if (!status.ok()) {
     FCP_LOG(ERROR) << "Called OnResponseBody. Received status: " << status;
-    self->callback_->OnResponseBodyError(*self->request_, *self->response_,
-                                         status);
+    absl::MutexLock lock(&self->mutex_);
+    self->is_completed_ = true;
+    return 0;
   }
 
   return size * nmemb;
diff --git a/fcp/client/http/curl/curl_http_request_handle.h b/fcp/client/http/curl/curl_http_request_handle.h
index 1e3c20a..0f558ea 100644
--- a/fcp/client/http/curl/curl_http_request_handle.h
+++ b/fcp/client/http/curl/curl_http_request_handle.h
@@ -72,6 +72,9 @@ class CurlHttpRequestHandle : public HttpRequestHandle {
   CURLcode InitializeHeaders(const HeaderList& extra_headers,
                              HttpRequest::Method method)
       ABSL_EXCLUSIVE_LOCKS_REQUIRED(mutex_);
+  // Reports the start of the response. Returns false if the request must not be
+  // continued.
+  bool StartResponse() ABSL_NO_THREAD_SAFETY_ANALYSIS;
   // A helper function called _sequentially_ when a response header received.
   static size_t HeaderCallback(char* buffer, size_t size, size_t n_items,
                                void* user_data) ABSL_NO_THREAD_SAFETY_ANALYSIS;
-- 
2.43.0


From fc81398983a355efef5e9189eaea5d8911f74283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:14:17 +0000
Subject: [PATCH 22/58] fix: wait for the final response headers

Only a 301 response was recognised as one that is followed by another.
Other redirects and informational responses were reported as the response,
and the final one was then reported as a second start.
---
 fcp/client/http/curl/curl_header_parser.cc | 20 ++++++++++++++++----
 fcp/client/http/curl/curl_header_parser.h  |  1 +
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/fcp/client/http/curl/curl_header_parser.cc b/fcp/client/http/curl/curl_header_parser.cc
index 51836a5..e99f9a7 100644
--- a/fcp/client/http/curl/curl_header_parser.cc
+++ b/fcp/client/http/curl/curl_header_parser.cc
@@ -30,6 +30,7 @@ namespace fcp::client::http::curl {
 CurlHeaderParser::CurlHeaderParser()
     : status_code_(-1),
       is_last_header_line_(false),
+      has_location_(false),
       use_curl_encoding_(false) {}
 
 void CurlHeaderParser::ParseHeader(const std::string& header_string) {
@@ -60,6 +61,8 @@ bool CurlHeaderParser::ParseAsStatus(const std::string& header_string) {
   // It is required that we store only the final header list. So we keep the
   // last set of headers
   header_list_.clear();
+  is_last_header_line_ = false;
+  has_location_ = false;
   return true;
 }
 
@@ -73,6 +76,10 @@ bool CurlHeaderParser::ParseAsHeader(const std::string& header_string) {
   std::string key = split.first;
   std::string value = std::string(absl::StripAsciiWhitespace(split.second));
 
+  if (absl::EqualsIgnoreCase(key, "Location") && !value.empty()) {
+    has_location_ = true;
+  }
+
   // Removes the "Content-Encoding", "Content-Length", and "Content-Length"
   // headers from the response when the curl encoding in use because they
   // reflect in-flight encoded values
@@ -88,10 +95,15 @@ bool CurlHeaderParser::ParseAsHeader(const std::string& header_string) {
 bool CurlHeaderParser::ParseAsLastLine(const std::string& header_string) {
   // In general, it is impossible to tell when curl will reach the last
   // header because there could another one in some special cases. In
-  // particular, it happens when curl hits a redirect status code (301).
-  // In this case, we need to proceed.
-  if (std::string(header_string) == "\r\n" &&
-      status_code_ != HttpResponseCode::kHttpMovedPermanently) {
+  // particular, it happens when curl hits a redirect status code (301, or any
+  // other 3xx with a location), or an informational one (1xx). In these cases,
+  // we need to proceed.
+  bool is_redirect =
+      status_code_ == HttpResponseCode::kHttpMovedPermanently ||
+      (status_code_ >= 300 && status_code_ < 400 && has_location_);
+  bool is_informational = status_code_ >= 100 && status_code_ < 200;
+  if (std::string(header_string) == "\r\n" && !is_redirect &&
+      !is_informational) {
     is_last_header_line_ = true;
     return true;
   }
diff --git a/fcp/client/http/curl/curl_header_parser.h b/fcp/client/http/curl/curl_header_parser.h
index 7c9ca31..5ece804 100644
--- a/fcp/client/http/curl/curl_header_parser.h
+++ b/fcp/client/http/curl/curl_header_parser.h
@@ -55,6 +55,7 @@ class CurlHeaderParser {
   int status_code_;
   HeaderList header_list_;
   bool is_last_header_line_;
+  bool has_location_;
   bool use_curl_encoding_;
 };
 
-- 
2.43.0


From e6837806b64a420e58469589e9f4708556349da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:14:17 +0000
Subject: [PATCH 23/58] fix: do not perform cancelled HTTP requests

Cancelling a request before it was performed had no effect. It is now
refused, and as documented both cancelled and reused handles are refused
with INVALID_ARGUMENT.
---
 fcp/client/http/curl/curl_http_request_handle.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/fcp/client/http/curl/curl_http_request_handle.cc b/fcp/client/http/curl/curl_http_request_handle.cc
index 9fc41a8..9f351d0 100644
--- a/fcp/client/http/curl/curl_http_request_handle.cc
+++ b/fcp/client/http/curl/curl_http_request_handle.cc
@@ -219,7 +219,12 @@ CurlHttpRequestHandle::~CurlHttpRequestHandle() {
 void CurlHttpRequestHandle::Cancel() {
   absl::MutexLock lock(&mutex_);
 
-  if (callback_ == nullptr || is_cancelled_ || is_completed_) {
+  if (is_cancelled_ || is_completed_) {
+    return;
+  }
+  if (callback_ == nullptr) {
+    // Not performed yet, and not to be performed anymore.
+    is_cancelled_ = true;
     return;
   }
   if (response_ != nullptr) {
@@ -264,10 +269,9 @@ absl::Status CurlHttpRequestHandle::AddToMulti(CurlMultiHandle* multi_handle,
   FCP_CHECK(multi_handle != nullptr);
 
   if (is_cancelled_) {
-    callback->OnResponseError(*request_, absl::CancelledError());
-    return absl::CancelledError();
+    return absl::InvalidArgumentError("The handle was previously cancelled.");
   } else if (is_being_performed_ || is_completed_) {
-    return absl::ResourceExhaustedError(
+    return absl::InvalidArgumentError(
         "The handle was previously passed to another PerformRequests call.");
   }
 
-- 
2.43.0


From 5786a09b3ee7db5333c4292448a979fb5daf3aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:14:17 +0000
Subject: [PATCH 24/58] fix: report unsupported HTTP requests instead of
 crashing

A request that could not be set up called a callback that was not known
yet. The error is now reported when the request is performed.
---
 fcp/client/http/curl/curl_http_request_handle.cc | 15 ++++++++++-----
 fcp/client/http/curl/curl_http_request_handle.h  |  2 ++
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/fcp/client/http/curl/curl_http_request_handle.cc b/fcp/client/http/curl/curl_http_request_handle.cc
index 9f351d0..c78b0b6 100644
--- a/fcp/client/http/curl/curl_http_request_handle.cc
+++ b/fcp/client/http/curl/curl_http_request_handle.cc
@@ -202,13 +202,11 @@ CurlHttpRequestHandle::CurlHttpRequestHandle(
   FCP_CHECK(request_ != nullptr);
   FCP_CHECK(easy_handle_ != nullptr);
 
-  CURLcode code = InitializeConnection(test_cert_path);
-  if (code != CURLE_OK) {
+  init_code_ = InitializeConnection(test_cert_path);
+  if (init_code_ != CURLE_OK) {
     FCP_LOG(ERROR) << "easy_handle initialization failed with code "
-                   << CurlEasyHandle::StrError(code);
+                   << CurlEasyHandle::StrError(init_code_);
     FCP_LOG(ERROR) << error_buffer_;
-    callback_->OnResponseError(*request_, absl::InternalError(error_buffer_));
-    return;
   }
 }
 
@@ -278,6 +276,13 @@ absl::Status CurlHttpRequestHandle::AddToMulti(CurlMultiHandle* multi_handle,
   is_being_performed_ = true;
   callback_ = callback;
 
+  if (init_code_ != CURLE_OK) {
+    is_completed_ = true;
+    callback_->OnResponseError(*request_,
+                               TransferError(init_code_, error_buffer_));
+    return absl::OkStatus();
+  }
+
   CURLMcode code = multi_handle->AddEasyHandle(easy_handle_.get());
   if (code != CURLM_OK) {
     FCP_LOG(ERROR) << "AddEasyHandle failed with code " << code;
diff --git a/fcp/client/http/curl/curl_http_request_handle.h b/fcp/client/http/curl/curl_http_request_handle.h
index 0f558ea..230e3d9 100644
--- a/fcp/client/http/curl/curl_http_request_handle.h
+++ b/fcp/client/http/curl/curl_http_request_handle.h
@@ -102,6 +102,8 @@ class CurlHttpRequestHandle : public HttpRequestHandle {
   bool is_being_performed_ ABSL_GUARDED_BY(mutex_);
   bool is_completed_ ABSL_GUARDED_BY(mutex_);
   bool is_cancelled_ ABSL_GUARDED_BY(mutex_);
+  // Whether the easy handle could be set up.
+  CURLcode init_code_ ABSL_GUARDED_BY(mutex_) = CURLE_OK;
   // The error returned when reading the request body, if any.
   absl::Status read_status_;
   char error_buffer_[CURL_ERROR_SIZE] ABSL_GUARDED_BY(mutex_){};
-- 
2.43.0


From a58c0df805017b23e67fc427715963b22e72f65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:14:17 +0000
Subject: [PATCH 25/58] fix: send an explicit Accept-Encoding header

The header was dropped instead of being sent as given.
---
 fcp/client/http/curl/curl_http_request_handle.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/fcp/client/http/curl/curl_http_request_handle.cc b/fcp/client/http/curl/curl_http_request_handle.cc
index c78b0b6..e825088 100644
--- a/fcp/client/http/curl/curl_http_request_handle.cc
+++ b/fcp/client/http/curl/curl_http_request_handle.cc
@@ -429,9 +429,7 @@ CURLcode CurlHttpRequestHandle::InitializeHeaders(
   }
 
   for (auto& [key, value] : extra_headers) {
-    if (absl::EqualsIgnoreCase(key, kAcceptEncodingHdr)) {
-      continue;
-    } else if (absl::EqualsIgnoreCase(key, kContentLengthHdr)) {
+    if (absl::EqualsIgnoreCase(key, kContentLengthHdr)) {
       if (method == HttpRequest::Method::kPost) {
         // For post less than 2GB
         CURL_RETURN_IF_ERROR(
-- 
2.43.0


From 50724aa8020c0c0c550c9078011ea50a304c43f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:14:17 +0000
Subject: [PATCH 26/58] fix: hide the Transfer-Encoding header of decoded
 responses

Curl decodes chunked bodies even when the caller takes care of the content
encoding, so the header no longer describes the body.
---
 fcp/client/http/curl/curl_header_parser.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fcp/client/http/curl/curl_header_parser.cc b/fcp/client/http/curl/curl_header_parser.cc
index e99f9a7..808c4e6 100644
--- a/fcp/client/http/curl/curl_header_parser.cc
+++ b/fcp/client/http/curl/curl_header_parser.cc
@@ -80,6 +80,12 @@ bool CurlHeaderParser::ParseAsHeader(const std::string& header_string) {
     has_location_ = true;
   }
 
+  // Curl always decodes chunked bodies.
+  if (absl::EqualsIgnoreCase(key, kTransferEncodingHdr) &&
+      absl::EqualsIgnoreCase(value, "chunked")) {
+    return true;
+  }
+
   // Removes the "Content-Encoding", "Content-Length", and "Content-Length"
   // headers from the response when the curl encoding in use because they
   // reflect in-flight encoded values
-- 
2.43.0


From 681fe90090d2c4deaa72501737d711bf1fd3980f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:22:09 +0000
Subject: [PATCH 27/58] fix: report a permanent redirect without a location

Such a response is not followed by another one, so it is the final response.
Its body was passed on without the response having been started.
---
 fcp/client/http/curl/curl_header_parser.cc       | 10 ++++++++++
 fcp/client/http/curl/curl_header_parser.h        |  4 ++++
 fcp/client/http/curl/curl_http_request_handle.cc |  8 ++------
 3 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/fcp/client/http/curl/curl_header_parser.cc b/fcp/client/http/curl/curl_header_parser.cc
index 808c4e6..a54b8a9 100644
--- a/fcp/client/http/curl/curl_header_parser.cc
+++ b/fcp/client/http/curl/curl_header_parser.cc
@@ -31,6 +31,7 @@ CurlHeaderParser::CurlHeaderParser()
     : status_code_(-1),
       is_last_header_line_(false),
       has_location_(false),
+      is_unfollowed_redirect_(false),
       use_curl_encoding_(false) {}
 
 void CurlHeaderParser::ParseHeader(const std::string& header_string) {
@@ -63,6 +64,7 @@ bool CurlHeaderParser::ParseAsStatus(const std::string& header_string) {
   header_list_.clear();
   is_last_header_line_ = false;
   has_location_ = false;
+  is_unfollowed_redirect_ = false;
   return true;
 }
 
@@ -113,6 +115,10 @@ bool CurlHeaderParser::ParseAsLastLine(const std::string& header_string) {
     is_last_header_line_ = true;
     return true;
   }
+  if (std::string(header_string) == "\r\n" && is_redirect && !has_location_) {
+    is_unfollowed_redirect_ = true;
+    return true;
+  }
 
   return false;
 }
@@ -121,6 +127,10 @@ void CurlHeaderParser::UseCurlEncoding() { use_curl_encoding_ = true; }
 
 bool CurlHeaderParser::IsLastHeader() const { return is_last_header_line_; }
 
+bool CurlHeaderParser::IsUnfollowedRedirect() const {
+  return is_unfollowed_redirect_;
+}
+
 int CurlHeaderParser::GetStatusCode() const { return status_code_; }
 
 HeaderList CurlHeaderParser::GetHeaderList() const { return header_list_; }
diff --git a/fcp/client/http/curl/curl_header_parser.h b/fcp/client/http/curl/curl_header_parser.h
index 5ece804..d934abc 100644
--- a/fcp/client/http/curl/curl_header_parser.h
+++ b/fcp/client/http/curl/curl_header_parser.h
@@ -41,6 +41,9 @@ class CurlHeaderParser {
   void UseCurlEncoding();
   // Indicates that the parser reached the last header
   ABSL_MUST_USE_RESULT bool IsLastHeader() const;
+  // Indicates that all the headers of a redirect without a location have been
+  // parsed. Curl cannot follow it, so no other headers come after them.
+  ABSL_MUST_USE_RESULT bool IsUnfollowedRedirect() const;
   ABSL_MUST_USE_RESULT int GetStatusCode() const;
   ABSL_MUST_USE_RESULT HeaderList GetHeaderList() const;
 
@@ -56,6 +59,7 @@ class CurlHeaderParser {
   HeaderList header_list_;
   bool is_last_header_line_;
   bool has_location_;
+  bool is_unfollowed_redirect_;
   bool use_curl_encoding_;
 };
 
diff --git a/fcp/client/http/curl/curl_http_request_handle.cc b/fcp/client/http/curl/curl_http_request_handle.cc
index e825088..70b20b2 100644
--- a/fcp/client/http/curl/curl_http_request_handle.cc
+++ b/fcp/client/http/curl/curl_http_request_handle.cc
@@ -130,7 +130,8 @@ size_t CurlHttpRequestHandle::HeaderCallback(char* buffer, size_t size,
   }
 
   self->header_parser_.ParseHeader(str_header);
-  if (!self->header_parser_.IsLastHeader()) {
+  if (!self->header_parser_.IsLastHeader() &&
+      !self->header_parser_.IsUnfollowedRedirect()) {
     return size * n_items;
   }
 
@@ -142,11 +143,6 @@ size_t CurlHttpRequestHandle::DownloadCallback(void* body, size_t size,
   auto self = static_cast<CurlHttpRequestHandle*>(user_data);
   absl::string_view str_body(static_cast<char*>(body), size * nmemb);
 
-  // The headers of a redirect that leads nowhere have not been reported yet.
-  if (self->response_ == nullptr && !self->StartResponse()) {
-    return 0;
-  }
-
   absl::Status status = self->callback_->OnResponseBody(
       *self->request_, *self->response_, str_body);
 
-- 
2.43.0


From fc9a5a95420ac388231de4481bd0be06724fec9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:40:24 +0000
Subject: [PATCH 28/58] fix: refuse a quantized result in a plain upload before
 starting it

With the lightweight report format untied, a quantized tensor passed the
format check, the upload was started and the client then crashed.
---
 fcp/client/http/http_federated_protocol.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fcp/client/http/http_federated_protocol.cc b/fcp/client/http/http_federated_protocol.cc
index 044f1b3..ec45eee 100644
--- a/fcp/client/http/http_federated_protocol.cc
+++ b/fcp/client/http/http_federated_protocol.cc
@@ -1199,6 +1199,10 @@ absl::Status HttpFederatedProtocol::ReportViaSimpleOrConfidentialAggregation(
           " computation produced FC Wire Format but this feature is "
           "not enabled."));
     }
+    if (std::holds_alternative<QuantizedTensor>(result)) {
+      return absl::InternalError(absl::StrCat(
+          aggregation_type_readable, " aggregands have unexpected format."));
+    }
   }
   auto start_upload_status = HandleStartDataAggregationUploadOperationResponse(
       PerformStartDataUploadRequestAndReportTaskResult(plan_duration,
-- 
2.43.0


From 20bc19e6e881675bd3234885432861148325b8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:48:31 +0000
Subject: [PATCH 29/58] fix: keep eligibility policies that share a name apart

Tasks refer to policies by index, but the tasks of a policy were looked up
by its name. With two policies of one name, the tasks of the first were
never checked against it and came out eligible.
---
 fcp/client/eligibility_decider.cc | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/fcp/client/eligibility_decider.cc b/fcp/client/eligibility_decider.cc
index c205afe..b2f9d24 100644
--- a/fcp/client/eligibility_decider.cc
+++ b/fcp/client/eligibility_decider.cc
@@ -419,15 +419,15 @@ absl::StatusOr<TaskEligibilityInfo> ComputeEligibility(
   // unfilled.
   TaskEligibilityInfo eligibility_result;
 
-  // Initialize map of policy name -> task names that use that policy, and check
-  // that the implementation versions for each policy are supported by the
+  // Initialize map of policy index -> task names that use that policy, and
+  // check that the implementation versions for each policy are supported by the
   // client.
-  // This map must only contain names of policies that are implemented.
-  absl::flat_hash_map<std::string, absl::flat_hash_set<std::string>>
-      policy_name_to_task_names;
+  // This map must only contain indices of policies that are implemented.
+  absl::flat_hash_map<int, absl::flat_hash_set<std::string>>
+      policy_index_to_task_names;
 
   // Track task names that use unimplemented policies. After we build the policy
-  // name -> task name map, we'll prune any task names that use unimplemented
+  // index -> task name map, we'll prune any task names that use unimplemented
   // policies. We can't do this until after we've built the whole map.
   absl::flat_hash_set<std::string> task_names_using_unimplemented_policies;
 
@@ -498,7 +498,7 @@ absl::StatusOr<TaskEligibilityInfo> ComputeEligibility(
     if (!policy_implemented) {
       continue;
     }
-    policy_name_to_task_names[policy_spec.name()] = task_names;
+    policy_index_to_task_names[policy_index] = task_names;
   }
 
   // Initialize the list of task names to compute eligibility for. Task names
@@ -524,7 +524,7 @@ absl::StatusOr<TaskEligibilityInfo> ComputeEligibility(
   // For each policy:
   // 1. If eligible tasks is now empty due to the previous iteration, quit
   // early.
-  // 2. Get task names from policy_name_to_task_names.
+  // 2. Get task names from policy_index_to_task_names.
   // 3. Intersect with eligible_tasks to get the set of tasks names that we
   // should use to compute eligibility for this policy.
   // 4. Call compute x policy, get back a set of task names. This set will only
@@ -533,24 +533,27 @@ absl::StatusOr<TaskEligibilityInfo> ComputeEligibility(
   // 5. Remove all tasks from eligible_tasks that are not eligible according to
   // the policy computation.
 
-  for (const EligibilityPolicyEvalSpec& policy_spec :
-       population_eligibility_spec.eligibility_policies()) {
+  for (int policy_index = 0;
+       policy_index < population_eligibility_spec.eligibility_policies_size();
+       policy_index++) {
+    const EligibilityPolicyEvalSpec& policy_spec =
+        population_eligibility_spec.eligibility_policies(policy_index);
     // Check if there are no more eligible tasks due to previous policy
     // computations. If so, there's no point in continuing to evaluate policies.
     if (eligible_tasks.empty()) {
       break;
     }
 
-    // policy_name_to_task_names contains our map of *implemented* policies to
+    // policy_index_to_task_names contains our map of *implemented* policies to
     // the tasks that use them. First check if it's in the map. If not, there's
     // no point in evaulating this policy.
-    if (!policy_name_to_task_names.contains(policy_spec.name())) {
+    if (!policy_index_to_task_names.contains(policy_index)) {
       continue;
     }
 
     // The task names this policy applies to.
     absl::flat_hash_set<std::string> policy_task_names =
-        policy_name_to_task_names.at(policy_spec.name());
+        policy_index_to_task_names.at(policy_index);
     // Remove those tasks that already aren't eligible anymore.
     absl::erase_if(policy_task_names,
                    [&eligible_tasks](const std::string& policy_task_name) {
-- 
2.43.0


From 50e959e43360589a330903c1499e7ce914422611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:55:00 +0000
Subject: [PATCH 30/58] fix: report a slice that could not be flushed to its
 file

---
 fcp/client/federated_select.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fcp/client/federated_select.cc b/fcp/client/federated_select.cc
index 58a3e5a..be2b3a6 100644
--- a/fcp/client/federated_select.cc
+++ b/fcp/client/federated_select.cc
@@ -285,6 +285,9 @@ absl::StatusOr<std::string> InMemoryFederatedSelectExampleIterator::Next() {
     }
   }
   checkpoint_stream.close();
+  if (checkpoint_stream.fail()) {
+    return absl::InternalError("Failed to write slice to file");
+  }
 
   // Remove the slice from the deque, releasing its data from memory.
   slices_.pop_front();
-- 
2.43.0


From 29e35534afb2d6590cf811457bcba0b0e1c16765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:59:03 +0000
Subject: [PATCH 31/58] fix: write bytes vectors of query results to the
 checkpoint

---
 fcp/client/engine/example_query_plan_engine.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fcp/client/engine/example_query_plan_engine.cc b/fcp/client/engine/example_query_plan_engine.cc
index bbbe1b2..8acd25e 100644
--- a/fcp/client/engine/example_query_plan_engine.cc
+++ b/fcp/client/engine/example_query_plan_engine.cc
@@ -176,7 +176,7 @@ absl::Status WriteCheckpoint(
             output_vector_spec, ExampleQuerySpec::OutputVectorSpec::BYTES));
         int64_t size = values.bytes_values().value_size();
         std::vector<tf::tstring> tf_string_vector;
-        for (const auto& value : values.string_values().value()) {
+        for (const auto& value : values.bytes_values().value()) {
           tf_string_vector.emplace_back(value);
         }
         FCP_RETURN_IF_ERROR(WriteSlice(slice_writer, output_name, size,
-- 
2.43.0


From 1b4112f4b3795801502c4758b54e82a661a3504a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:59:03 +0000
Subject: [PATCH 32/58] fix: keep every output taken from the same query result
 vector

---
 .../engine/example_query_plan_engine.cc       | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/fcp/client/engine/example_query_plan_engine.cc b/fcp/client/engine/example_query_plan_engine.cc
index 8acd25e..d149597 100644
--- a/fcp/client/engine/example_query_plan_engine.cc
+++ b/fcp/client/engine/example_query_plan_engine.cc
@@ -24,7 +24,6 @@
 #include <utility>
 #include <vector>
 
-#include "absl/container/flat_hash_map.h"
 #include "absl/status/status.h"
 #include "absl/status/statusor.h"
 #include "fcp/base/monitoring.h"
@@ -76,19 +75,20 @@ absl::Status WriteSlice(tf::checkpoint::TensorSliceWriter& slice_writer,
   return slice_writer.Add(name, shape, slice, data);
 }
 
-// Returns a map of (vector name) -> tuple(output name, vector spec).
-absl::flat_hash_map<std::string,
-                    std::tuple<std::string, ExampleQuerySpec::OutputVectorSpec>>
+// Returns a list of (vector name) -> tuple(output name, vector spec). Several
+// outputs may be taken from the same vector.
+std::vector<std::pair<
+    std::string, std::tuple<std::string, ExampleQuerySpec::OutputVectorSpec>>>
 GetOutputVectorSpecs(const ExampleQuerySpec::ExampleQuery& example_query) {
-  absl::flat_hash_map<
-      std::string, std::tuple<std::string, ExampleQuerySpec::OutputVectorSpec>>
-      map;
+  std::vector<std::pair<
+      std::string, std::tuple<std::string, ExampleQuerySpec::OutputVectorSpec>>>
+      list;
   for (auto const& [output_name, output_vector_spec] :
        example_query.output_vector_specs()) {
-    map[output_vector_spec.vector_name()] =
-        std::make_tuple(output_name, output_vector_spec);
+    list.push_back({output_vector_spec.vector_name(),
+                    std::make_tuple(output_name, output_vector_spec)});
   }
-  return map;
+  return list;
 }
 
 absl::Status CheckOutputVectorDataType(
-- 
2.43.0


From 5e0d1c6c71d267ade7f9c4fca21b92ff5e120464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:41:52 +0000
Subject: [PATCH 33/58] fix: do not count a task as contributed when its
 results could not be built

A computation can succeed and still yield nothing that can be uploaded.
The client then reports a failure to the server.
When that report went through, the task was counted as contributed.
---
 fcp/client/fl_runner.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fcp/client/fl_runner.cc b/fcp/client/fl_runner.cc
index 7a33f0b..9ba044c 100644
--- a/fcp/client/fl_runner.cc
+++ b/fcp/client/fl_runner.cc
@@ -1906,6 +1906,7 @@ std::vector<std::string> HandleMultipleTaskAssignments(
         federated_protocol, fedselect_manager, opstats_example_iterator_factory,
         example_iterator_query_recorder.get(), fl_runner_result, should_abort,
         timing_config, reference_time);
+    const bool has_results = run_plan_results.computation_results.ok();
     absl::Status report_result =
         ReportPlanResult(federated_protocol, phase_logger,
                          std::move(run_plan_results.computation_results),
@@ -1913,7 +1914,7 @@ std::vector<std::string> HandleMultipleTaskAssignments(
                          task_assignment.aggregation_session_id);
     TaskResultInfo task_result_info;
     if (run_plan_results.outcome == engine::PlanOutcome::kSuccess &&
-        report_result.ok()) {
+        has_results && report_result.ok()) {
       // Only if training succeeded *and* reporting succeeded do we consider
       // the device to have contributed successfully.
       successful_task_names.push_back(task_assignment.task_name);
@@ -2167,13 +2168,14 @@ absl::StatusOr<FLRunnerResult> RunFederatedComputation(
           example_iterator_query_recorder.get(), fl_runner_result, should_abort,
           timing_config, reference_time);
 
+      const bool has_results = run_plan_results.computation_results.ok();
       absl::Status report_result = ReportPlanResult(
           federated_protocol, phase_logger,
           std::move(run_plan_results.computation_results),
           run_plan_results.run_plan_start_time, reference_time, std::nullopt);
       TaskResultInfo task_result_info;
       if (run_plan_results.outcome == engine::PlanOutcome::kSuccess &&
-          report_result.ok()) {
+          has_results && report_result.ok()) {
         // Only if training succeeded *and* reporting succeeded do we consider
         // the device to have contributed successfully.
         successful_task_names.push_back(checkin_result->task_name);
-- 
2.43.0


From f5538e48efd363bb5c650937efd5cf401fe0bed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:43:41 +0000
Subject: [PATCH 34/58] fix: opt out of all tasks when an eligibility task
 comes without a spec

A server can send an eligibility task that has no eligibility spec.
The client then asked for a task without any eligibility info, which the
protocol implementation treats as a fatal error, so the process ended.
The client now sends an eligibility info that lists no tasks.
---
 fcp/client/fl_runner.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fcp/client/fl_runner.cc b/fcp/client/fl_runner.cc
index 9ba044c..fca1733 100644
--- a/fcp/client/fl_runner.cc
+++ b/fcp/client/fl_runner.cc
@@ -957,6 +957,12 @@ absl::StatusOr<std::optional<TaskEligibilityInfo>> RunEligibilityEvalPlan(
         eligibility_eval_task.population_eligibility_spec.value(), *log_manager,
         phase_logger, opstats_logger, clock, example_iterator_factories,
         eet_plan_runner, flags);
+  } else {
+    // The protocol requires an eligibility info once a task was received, so
+    // opt out by listing no tasks.
+    TaskEligibilityInfo opted_out_of_all_tasks;
+    opted_out_of_all_tasks.set_version(1);
+    native_task_eligibility_info = opted_out_of_all_tasks;
   }
 
   LogNativeEligibilityEvalComputationOutcome(
-- 
2.43.0


From 54d9e9dc39d4c487fac8df110f8cc756675358a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:53:43 +0000
Subject: [PATCH 35/58] fix: notice when the initial checkpoint cannot be
 written completely

The stream's buffered data is only written when the file is closed.
An error at that point went unnoticed, for example on a full disk.
The computation then started from a truncated checkpoint and its result
was uploaded.
---
 fcp/client/fl_runner.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fcp/client/fl_runner.cc b/fcp/client/fl_runner.cc
index fca1733..cef4ab4 100644
--- a/fcp/client/fl_runner.cc
+++ b/fcp/client/fl_runner.cc
@@ -849,6 +849,10 @@ absl::StatusOr<std::string> CreateInputCheckpointFile(
     return absl::InvalidArgumentError("Failed to write to file");
   }
   checkpoint_stream.close();
+  // Buffered data may only be written, and fail to be written, when closing.
+  if (checkpoint_stream.fail()) {
+    return absl::InvalidArgumentError("Failed to write to file");
+  }
   return filename;
 }
 
-- 
2.43.0


From 9810037cfe44253180f201f387f6b18fb11c3813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:16:31 +0000
Subject: [PATCH 36/58] fix: answer truncated gzip requests with a client error

Decompressing a truncated gzip body raises EOFError, which was not caught.
The client got no answer at all.
---
 fcp/demo/http_actions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fcp/demo/http_actions.py b/fcp/demo/http_actions.py
index 503da70..a77ce06 100644
--- a/fcp/demo/http_actions.py
+++ b/fcp/demo/http_actions.py
@@ -243,7 +243,7 @@ def create_handler(*services: Any) -> Type[http.server.BaseHTTPRequestHandler]:
       if self.headers['Content-Encoding'] == 'gzip':
         try:
           body = gzip.decompress(body)
-        except (gzip.BadGzipFile, zlib.error) as e:
+        except (EOFError, gzip.BadGzipFile, zlib.error) as e:
           raise HttpError(http.HTTPStatus.BAD_REQUEST) from e
       elif self.headers['Content-Encoding']:
         logging.warning('Unsupported content encoding %s',
-- 
2.43.0


From d6e2e27bc024b5acc0b7a70c5c0b8006dcbc3d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:16:31 +0000
Subject: [PATCH 37/58] fix: refuse request paths that are not valid UTF-8

Invalid percent-encoded sequences were silently replaced, so handlers got a
different value than the client sent. They are now answered with a client
error, as the surrounding code intends.
---
 fcp/demo/http_actions.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fcp/demo/http_actions.py b/fcp/demo/http_actions.py
index a77ce06..8b6e5b4 100644
--- a/fcp/demo/http_actions.py
+++ b/fcp/demo/http_actions.py
@@ -112,7 +112,7 @@ def proto_action(*,
     # Set any fields from the request path.
     for prop, value in match.groupdict().items():
       try:
-        unescaped = urllib.parse.unquote(value)
+        unescaped = urllib.parse.unquote(value, errors='strict')
       except UnicodeError as e:
         raise HttpError(code=http.HTTPStatus.BAD_REQUEST) from e
       setattr(request, prop, unescaped)
@@ -162,7 +162,10 @@ def http_action(*, method: str,
   def handler(match: Match[str], body: bytes,
               fn: Callable[[bytes], HttpResponse]) -> HttpResponse:
     try:
-      args = {k: urllib.parse.unquote(v) for k, v in match.groupdict().items()}
+      args = {
+          k: urllib.parse.unquote(v, errors='strict')
+          for k, v in match.groupdict().items()
+      }
     except UnicodeError as e:
       raise HttpError(code=http.HTTPStatus.BAD_REQUEST) from e
     return fn(body, **args)
-- 
2.43.0


From 23db6208ee1c0d0340e16f9318ca3389c039bd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:23:45 +0000
Subject: [PATCH 38/58] fix: close clients that submit a result under the wrong
 resource name

The client could not continue after the refused request, but it stayed
pending in the session's counts and its upload was never released.
---
 fcp/demo/aggregations.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fcp/demo/aggregations.py b/fcp/demo/aggregations.py
index e74b308..28e27a0 100644
--- a/fcp/demo/aggregations.py
+++ b/fcp/demo/aggregations.py
@@ -422,6 +422,12 @@ class Service:
     # Ensure the client is using the resource name provided when they called
     # StartAggregationDataUpload.
     if request.resource_name != client_data.resource_name:
+      with contextlib.suppress(KeyError):
+        self._media_service.finalize_upload(client_data.resource_name)
+      status = absl_status.invalid_argument_error('Unexpected resource name')
+      state.agg_protocol.CloseClient(
+          client_data.client_id, status.message(), status.raw_code()
+      )
       raise http_actions.HttpError(http.HTTPStatus.BAD_REQUEST)
 
     # The aggregation protocol may have already closed the connect (e.g., if
-- 
2.43.0


From d60f7dab2b7fcb49ef49352fa5178f3535c5b050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:24:17 +0000
Subject: [PATCH 39/58] fix: refuse clients of a session that ends while they
 are being admitted

If the session was completed or aborted after the authorization token was
redeemed, the client got no answer, or it got an upload slot that accepted
data although the session was over and that was never released.
---
 fcp/demo/aggregations.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/fcp/demo/aggregations.py b/fcp/demo/aggregations.py
index 28e27a0..472337c 100644
--- a/fcp/demo/aggregations.py
+++ b/fcp/demo/aggregations.py
@@ -380,14 +380,23 @@ class Service:
       except KeyError as e:
         raise http_actions.HttpError(http.HTTPStatus.UNAUTHORIZED) from e
 
-    client_id = state.agg_protocol.AddClients(1)
+    try:
+      client_id = state.agg_protocol.AddClients(1)
+    except absl_status.StatusNotOk as e:
+      # The session ended after the token was redeemed.
+      raise http_actions.HttpError(http.HTTPStatus.NOT_FOUND) from e
     client_token = str(uuid.uuid4())
     upload_name = self._media_service.register_upload()
 
     with self._sessions_lock:
-      state.active_clients[client_token] = _ActiveClientData(
-          client_id, upload_name
-      )
+      session_ended = self._sessions.get(request.aggregation_id) is not state
+      if not session_ended:
+        state.active_clients[client_token] = _ActiveClientData(
+            client_id, upload_name
+        )
+    if session_ended:
+      self._media_service.finalize_upload(upload_name)
+      raise http_actions.HttpError(http.HTTPStatus.NOT_FOUND)
 
     forwarding_info = self._forwarding_info()
     response = aggregations_pb2.StartAggregationDataUploadResponse(
-- 
2.43.0


From 76ea017a6891f8352eab2b5d9f4785a9ebf48b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:25:01 +0000
Subject: [PATCH 40/58] fix: end a session's waits under the lock

Ending a session changed the set of pending waits while a client's request
could be iterating over it. The client then got no answer although its
result was accepted, or ending the session failed.
---
 fcp/demo/aggregations.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/fcp/demo/aggregations.py b/fcp/demo/aggregations.py
index 472337c..2dad4cd 100644
--- a/fcp/demo/aggregations.py
+++ b/fcp/demo/aggregations.py
@@ -356,12 +356,14 @@ class Service:
       self._media_service.finalize_upload(client_data.resource_name)
     state.active_clients.clear()
     # Anyone waiting on the session should be notified that it's finished.
-    if state.pending_waits:
+    with self._sessions_lock:
+      pending_waits = state.pending_waits
+      state.pending_waits = set()
+    if pending_waits:
       status = self._get_session_status(state)
-      for data in state.pending_waits:
+      for data in pending_waits:
         data.loop.call_soon_threadsafe(
             functools.partial(data.status_future.set_result, status))
-      state.pending_waits.clear()
 
   @http_actions.proto_action(
       service='google.internal.federatedcompute.v1.Aggregations',
-- 
2.43.0


From be8522f44e57554c1dc2919e28374a32539f8daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:30:27 +0000
Subject: [PATCH 41/58] fix: acknowledge reports with an unknown status code

Looking up the name of an unknown code for the log raised an error, and the
client got no answer.
---
 fcp/demo/eligibility_eval_tasks.py | 10 +++++++++-
 fcp/demo/task_assignments.py       | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/fcp/demo/eligibility_eval_tasks.py b/fcp/demo/eligibility_eval_tasks.py
index ef826ad..b86ba28 100644
--- a/fcp/demo/eligibility_eval_tasks.py
+++ b/fcp/demo/eligibility_eval_tasks.py
@@ -36,6 +36,14 @@ _TaskAssignmentMode = (
 )
 
 
+def _code_name(code: int) -> str:
+  """Returns the name of a status code, or its number if it has no name."""
+  try:
+    return code_pb2.Code.Name(code)
+  except ValueError:
+    return str(code)
+
+
 @dataclasses.dataclass(frozen=True)
 class _Task:
   task_name: str
@@ -135,5 +143,5 @@ class Service:
     logging.log(
         logging.DEBUG if request.status_code == code_pb2.OK else logging.WARN,
         '[%s] ReportEligibilityEvalTaskResult: %s', request.session_id,
-        code_pb2.Code.Name(request.status_code))
+        _code_name(request.status_code))
     return eligibility_eval_tasks_pb2.ReportEligibilityEvalTaskResultResponse()
diff --git a/fcp/demo/task_assignments.py b/fcp/demo/task_assignments.py
index 2d69f54..4624bb0 100644
--- a/fcp/demo/task_assignments.py
+++ b/fcp/demo/task_assignments.py
@@ -36,6 +36,14 @@ _TaskAssignmentMode = (
 )
 
 
+def _code_name(code: int) -> str:
+  """Returns the name of a status code, or its number if it has no name."""
+  try:
+    return code_pb2.Code.Name(code)
+  except ValueError:
+    return str(code)
+
+
 @dataclasses.dataclass(frozen=True)
 class _Task:
   task_name: str
@@ -225,6 +233,6 @@ class Service:
     logging.log(
         (logging.DEBUG if request.computation_status_code == code_pb2.OK else
          logging.WARN), '[%s] ReportTaskResult: %s (%s)', request.session_id,
-        code_pb2.Code.Name(request.computation_status_code),
+        _code_name(request.computation_status_code),
         text_format.MessageToString(request.client_stats, as_one_line=True))
     return task_assignments_pb2.ReportTaskResultResponse()
-- 
2.43.0


From da5f82b593b6538a798e8d9eee1c97de18166915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:31:11 +0000
Subject: [PATCH 42/58] fix: keep a task registered while a client is being
 assigned to it

A task could be removed and its session ended between the moment a client
was assigned to it and the moment the client was authorized. The client then
got no answer.
---
 fcp/demo/task_assignments.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/fcp/demo/task_assignments.py b/fcp/demo/task_assignments.py
index 4624bb0..5dc78c2 100644
--- a/fcp/demo/task_assignments.py
+++ b/fcp/demo/task_assignments.py
@@ -108,14 +108,20 @@ class Service:
           return
       raise KeyError(aggregation_session_id)
 
-  @property
-  def _current_task(self) -> Optional[_Task]:
+  def _authorize_current_task(self) -> tuple[Optional[_Task], str]:
+    """Returns the current task, if any, with a new authorization token."""
+    # The lock is held until the client is authorized so that the task cannot be
+    # removed, and its aggregation session ended, in between.
     with self._tasks_lock:
-      return (
-          self._single_assignment_tasks[0]
-          if self._single_assignment_tasks
-          else None
-      )
+      if not self._single_assignment_tasks:
+        return None, ''
+      task = self._single_assignment_tasks[0]
+      # NOTE: If a production implementation of the Aggregations service cannot
+      # always pre-authorize clients (e.g., due to rate-limiting incoming
+      # clients), this code should either retry the operation or return a
+      # non-permanent error to the client (e.g., UNAVAILABLE).
+      return task, self._aggregations_service.pre_authorize_clients(
+          task.aggregation_session_id, num_tokens=1)[0]
 
   @http_actions.proto_action(
       service='google.internal.federatedcompute.v1.TaskAssignments',
@@ -131,16 +137,10 @@ class Service:
     # supports `request.client_version` before assigning the client. Given that
     # all clients may not be eligible for all tasks, consider more sophisticated
     # assignment than a FIFO queue.
-    task = self._current_task
+    task, authorization_token = self._authorize_current_task()
     if task:
       logging.debug('[%s] StartTaskAssignment: assigned %s', request.session_id,
                     task.task_name)
-      # NOTE: If a production implementation of the Aggregations service cannot
-      # always pre-authorize clients (e.g., due to rate-limiting incoming
-      # clients), this code should either retry the operation or return a
-      # non-permanent error to the client (e.g., UNAVAILABLE).
-      authorization_token = self._aggregations_service.pre_authorize_clients(
-          task.aggregation_session_id, num_tokens=1)[0]
       response = task_assignments_pb2.StartTaskAssignmentResponse(
           task_assignment=task_assignments_pb2.TaskAssignment(
               aggregation_data_forwarding_info=self._forwarding_info(),
-- 
2.43.0


From 34ed462b57ec1618c875f276ecd28ce584633fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:45:31 +0000
Subject: [PATCH 43/58] fix: report a wrong number of file names instead of
 reading past the tensor

Appending slices read the first file name before checking that there is
exactly one. With an empty tensor this reads memory that is not there.
---
 fcp/tensorflow/append_slices_op.cc | 2 --
 1 file changed, 2 deletions(-)

diff --git a/fcp/tensorflow/append_slices_op.cc b/fcp/tensorflow/append_slices_op.cc
index fa99515..b0fef8e 100644
--- a/fcp/tensorflow/append_slices_op.cc
+++ b/fcp/tensorflow/append_slices_op.cc
@@ -526,8 +526,6 @@ class AppendSlicesOp : public OpKernel {
 
   void Compute(OpKernelContext* context) override {
     absl::MutexLock lock(&append_mutex);
-    const tensorflow::Tensor& filename_t = context->input(0);
-    tensorflow::tstring filename = filename_t.flat<tensorflow::tstring>()(0);
     SaveTensors(
         context,
         [context](
-- 
2.43.0


From c2f3bfffa8024c80d084bdb3b204b3ab495e90d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:48:03 +0000
Subject: [PATCH 44/58] fix: fail a merge of appended slices when entries
 cannot be read

A table iterator skips blocks that it cannot read and only notes the error.
The merge never looked at it, so that a read error or a damaged block left a
checkpoint without some of the slices.
---
 fcp/tensorflow/append_slices_op.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/fcp/tensorflow/append_slices_op.cc b/fcp/tensorflow/append_slices_op.cc
index b0fef8e..ca0ca0a 100644
--- a/fcp/tensorflow/append_slices_op.cc
+++ b/fcp/tensorflow/append_slices_op.cc
@@ -513,6 +513,15 @@ absl::Status LoadAndMergeAppendedSlices(const std::string& filename) {
   int64_t resulting_file_size;
   TF_RETURN_WITH_CONTEXT_IF_ERROR(builder->Finish(&resulting_file_size),
                                   "Finishing TensorSliceWriter::Builder");
+  // The iterators skip entries which cannot be read, so that the merged
+  // checkpoint is only complete if none of them encountered an error.
+  while (!chunk_iterators.empty()) {
+    absl::Status status = PopWithElement(chunk_iterators)->status();
+    if (!status.ok()) {
+      env->DeleteFile(filename).IgnoreError();
+      return status;
+    }
+  }
   return absl::OkStatus();
 }
 
-- 
2.43.0


From b3bc84eeff81781b1bb610bb514e94517df67583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:50:39 +0000
Subject: [PATCH 45/58] fix: reject impossible start positions when merging
 appended slices

A start position after the end of its chunk can lead the merge back to chunks
it has already read, so that it never ends.
---
 fcp/tensorflow/append_slices_op.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fcp/tensorflow/append_slices_op.cc b/fcp/tensorflow/append_slices_op.cc
index ca0ca0a..52f3114 100644
--- a/fcp/tensorflow/append_slices_op.cc
+++ b/fcp/tensorflow/append_slices_op.cc
@@ -436,6 +436,12 @@ absl::Status LoadAndMergeAppendedSlices(const std::string& filename) {
                                   footer_scratch));
     int64_t chunk_start = Int64FromHostEndianBytes(chunk_footer.data());
     int64_t chunk_end = chunk_footer_end - sizeof(int64_t);
+    if (chunk_start < 0 || chunk_start > chunk_end) {
+      return absl::Status(
+          absl::StatusCode::kDataLoss,
+          absl::StrCat("Invalid start position ", chunk_start,
+                       " of the chunk ending at ", chunk_end));
+    }
     int64_t chunk_len = chunk_end - chunk_start;
     std::unique_ptr<tensorflow::RandomAccessFile> chunk_file =
         std::make_unique<PartialRandomAccessFile>(file.get(), chunk_start,
-- 
2.43.0


From 25cb0f3fa697d8f1fe9e05a88d3038e845482748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:54:29 +0000
Subject: [PATCH 46/58] fix: keep NUL bytes when filling in a resumption token

The selector, the type and the content of the token were cut at their first
NUL byte. Serialized messages often contain such bytes.
---
 fcp/tensorflow/example_selector_fuser_op.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/fcp/tensorflow/example_selector_fuser_op.cc b/fcp/tensorflow/example_selector_fuser_op.cc
index 8ea3fa0..0ec70e6 100644
--- a/fcp/tensorflow/example_selector_fuser_op.cc
+++ b/fcp/tensorflow/example_selector_fuser_op.cc
@@ -74,16 +74,15 @@ class ExampleSelectorFuserOp : public OpKernel {
                             ctx, "resumption_token_content",
                             &resumption_token_content_str));
     ExampleSelector example_selector;
-    if (!example_selector.ParseFromString(
-            std::string(example_selector_str.data()))) {
+    if (!example_selector.ParseFromString(std::string(example_selector_str))) {
       ctx->SetStatus(absl::Status(absl::StatusCode::kInvalidArgument,
                                   "Cannot parse ExampleSelector"));
       return;
     }
     example_selector.mutable_resumption_token()->set_type_url(
-        std::string(resumption_token_type_url_str.data()));
+        std::string(resumption_token_type_url_str));
     example_selector.mutable_resumption_token()->set_value(
-        std::string(resumption_token_content_str.data()));
+        std::string(resumption_token_content_str));
 
     Tensor* output_tensor = nullptr;
     OP_REQUIRES_OK(ctx, ctx->allocate_output(0, {}, &output_tensor));
-- 
2.43.0


From 818eb39fe2641cfbe2898f6b26336236c19c196b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:54:42 +0000
Subject: [PATCH 47/58] fix: look up no token for ids that do not fit the
 dictionary

Reverse lookup takes 64-bit ids and cut them to 32 bits, so that an id far
outside of the dictionary could return one of its tokens.
---
 fcp/tensorflow/dictionary_ops.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/fcp/tensorflow/dictionary_ops.cc b/fcp/tensorflow/dictionary_ops.cc
index ca61cd4..42eae69 100644
--- a/fcp/tensorflow/dictionary_ops.cc
+++ b/fcp/tensorflow/dictionary_ops.cc
@@ -15,6 +15,7 @@
  */
 #include <cstdint>
 #include <functional>
+#include <limits>
 #include <memory>
 #include <string>
 #include <utility>
@@ -236,7 +237,11 @@ class DictionaryReverseLookup : public AbstractDictionaryOp {
     auto tokens_flat = token_tensor->flat<tf::tstring>();
     const int64_t num_tokens = ids_flat.size();
     for (int i = 0; i < num_tokens; ++i) {
-      tokens_flat(i) = dictionary.IdToToken(ids_flat(i));
+      const int64_t id = ids_flat(i);
+      // Ids which the dictionary's id type cannot hold have no token.
+      const bool valid_id = id >= std::numeric_limits<int32_t>::min() &&
+                            id <= std::numeric_limits<int32_t>::max();
+      tokens_flat(i) = valid_id ? dictionary.IdToToken(id) : std::string();
     }
     return absl::OkStatus();
   }
-- 
2.43.0


From 2d0b0f486a2976fbd1f76043ae3d4d1b24ec7b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:06:17 +0000
Subject: [PATCH 48/58] fix: keep a task announced while another computation of
 its name runs

The eligibility service kept one entry per task name. When two computations of
the same name ran at once, the first one to end removed the entry of both, and
the second failed with a KeyError when it ended.
---
 fcp/demo/eligibility_eval_tasks.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/fcp/demo/eligibility_eval_tasks.py b/fcp/demo/eligibility_eval_tasks.py
index b86ba28..f8121bc 100644
--- a/fcp/demo/eligibility_eval_tasks.py
+++ b/fcp/demo/eligibility_eval_tasks.py
@@ -57,18 +57,23 @@ class Service:
                forwarding_info: Callable[[], common_pb2.ForwardingInfo]):
     self._population_name = population_name
     self._forwarding_info = forwarding_info
-    self._tasks: dict[str, _Task] = {}
+    # Tasks by name; computations of the same name may run at the same time.
+    self._tasks: dict[str, list[_Task]] = {}
     self._tasks_lock = threading.Lock()
 
   def add_task(self, task_name: str, task_assignment_mode: _TaskAssignmentMode):
     """Informs the service that a new task has been added to the system."""
     with self._tasks_lock:
-      self._tasks[task_name] = _Task(task_name, task_assignment_mode)
+      self._tasks.setdefault(task_name, []).append(
+          _Task(task_name, task_assignment_mode)
+      )
 
   def remove_task(self, task_name: str):
     """Informs the service that a task has been removed from the system."""
     with self._tasks_lock:
-      del self._tasks[task_name]
+      self._tasks[task_name].pop(0)
+      if not self._tasks[task_name]:
+        del self._tasks[task_name]
 
   @property
   def _population_eligibility_spec(
@@ -81,7 +86,7 @@ class Service:
                   task_name=task.task_name,
                   task_assignment_mode=task.task_assignment_mode,
               )
-              for task in self._tasks.values()
+              for task in (tasks[-1] for tasks in self._tasks.values())
           ]
       )
 
-- 
2.43.0


From dadcc59013866f3ae0e281e9bc7c40ae32467f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:06:17 +0000
Subject: [PATCH 49/58] fix: announce a task only once it can be assigned

A computation with an unsupported task assignment mode failed after its task had
been announced to clients, and the announcement stayed forever.
---
 fcp/demo/server.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fcp/demo/server.py b/fcp/demo/server.py
index 1a1a78e..85aa718 100644
--- a/fcp/demo/server.py
+++ b/fcp/demo/server.py
@@ -127,9 +127,6 @@ class InProcessServer(socketserver.ThreadingMixIn, http.server.HTTPServer):
                   gzip.compress(slice_data),
                   content_type=_CHECKPOINT_CONTENT_TYPE,
               )
-          self._eligibility_eval_tasks_service.add_task(
-              task_name, task_assignment_mode
-          )
           self._task_assignments_service.add_task(
               task_name,
               task_assignment_mode,
@@ -138,6 +135,9 @@ class InProcessServer(socketserver.ThreadingMixIn, http.server.HTTPServer):
               common_pb2.Resource(uri=checkpoint_url),
               group.prefix + _FEDERATED_SELECT_NAME_TEMPLATE,
           )
+          self._eligibility_eval_tasks_service.add_task(
+              task_name, task_assignment_mode
+          )
           try:
             status = await self._aggregations_service.wait(
                 session_id,
-- 
2.43.0


From 9e5ef78078cedff6b5e4b6a860c3693f35536a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:38:01 +0000
Subject: [PATCH 50/58] fix: complete error responses that have no body

---
 .../com/google/fcp/client/http/HttpRequestHandleImpl.java   | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fcp/java_src/main/java/com/google/fcp/client/http/HttpRequestHandleImpl.java b/fcp/java_src/main/java/com/google/fcp/client/http/HttpRequestHandleImpl.java
index 815d1d9..fe7dd47 100644
--- a/fcp/java_src/main/java/com/google/fcp/client/http/HttpRequestHandleImpl.java
+++ b/fcp/java_src/main/java/com/google/fcp/client/http/HttpRequestHandleImpl.java
@@ -22,6 +22,7 @@ import com.google.fcp.client.http.HttpClientForNative.HttpRequestHandle;
 import com.google.fcp.client.http.HttpClientForNativeImpl.UncheckedHttpClientForNativeException;
 import com.google.rpc.Code;
 import com.google.rpc.Status;
+import java.io.ByteArrayInputStream;
 import java.io.IOException;
 import java.io.InputStream;
 import java.io.OutputStream;
@@ -1027,6 +1028,11 @@ public class HttpRequestHandleImpl extends HttpRequestHandle {
     // in between isn't helpful.
     InputStream errorStream = connection.getErrorStream();
     if (errorStream == null) {
+      // There is no error stream for an error response without a body either. getInputStream()
+      // would throw for such a response, even though it was received completely.
+      if (connection.getResponseCode() >= HttpURLConnection.HTTP_BAD_REQUEST) {
+        return new CountingInputStream(new ByteArrayInputStream(new byte[0]));
+      }
       return new CountingInputStream(connection.getInputStream());
     }
     return new CountingInputStream(errorStream);
-- 
2.43.0


From 868e8f24474fe1f00f52e1fb8b10a161e903bf1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:39:04 +0000
Subject: [PATCH 51/58] fix: do not decode the bodies of responses that have
 none

---
 .../com/google/fcp/client/http/HttpRequestHandleImpl.java | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/fcp/java_src/main/java/com/google/fcp/client/http/HttpRequestHandleImpl.java b/fcp/java_src/main/java/com/google/fcp/client/http/HttpRequestHandleImpl.java
index fe7dd47..89330d8 100644
--- a/fcp/java_src/main/java/com/google/fcp/client/http/HttpRequestHandleImpl.java
+++ b/fcp/java_src/main/java/com/google/fcp/client/http/HttpRequestHandleImpl.java
@@ -942,9 +942,13 @@ public class HttpRequestHandleImpl extends HttpRequestHandle {
     // since GZIPInputStream would crash on the 0-byte stream. Note that while we disable any
     // HttpURLConnection-level cache explicitly in this file, it's still possible that the native
     // layer itself implements a cache, which could result in us receiving HTTP_NOT_MODIFIED
-    // responses after all, and we should handle those correctly.
+    // responses after all, and we should handle those correctly. Responses to HEAD requests and
+    // HTTP_NO_CONTENT responses never have a body either.
     shouldDecodeGzip =
-        shouldDecodeGzip && connection.getResponseCode() != HttpURLConnection.HTTP_NOT_MODIFIED;
+        shouldDecodeGzip
+            && request.getMethod() != JniHttpMethod.HTTP_METHOD_HEAD
+            && responseCode != HttpURLConnection.HTTP_NO_CONTENT
+            && responseCode != HttpURLConnection.HTTP_NOT_MODIFIED;
     return new ResponseHeadersWithMetadata(
         response.build(), shouldDecodeGzip, receivedContentLength);
   }
-- 
2.43.0


From 9dd5f89f9ad96ace6317f5f97715f0c73eef01a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:40:34 +0000
Subject: [PATCH 52/58] fix: let a request be cancelled before it is started

---
 .../fcp/client/http/HttpClientForNativeImpl.java   |  5 +++++
 .../fcp/client/http/HttpRequestHandleImpl.java     | 14 +++++++++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/fcp/java_src/main/java/com/google/fcp/client/http/HttpClientForNativeImpl.java b/fcp/java_src/main/java/com/google/fcp/client/http/HttpClientForNativeImpl.java
index a235d7f..be75ef6 100644
--- a/fcp/java_src/main/java/com/google/fcp/client/http/HttpClientForNativeImpl.java
+++ b/fcp/java_src/main/java/com/google/fcp/client/http/HttpClientForNativeImpl.java
@@ -95,6 +95,11 @@ public final class HttpClientForNativeImpl extends HttpClientForNative {
             // those cases we just let the exception bubble up to create a crash report.
             HttpRequestHandleImpl handle = (HttpRequestHandleImpl) requestHandle;
             handles.add(handle);
+            handle.prepareRequest();
+          }
+          // Only start the requests once all of them are prepared, since a callback of one request
+          // may already cancel another one.
+          for (HttpRequestHandleImpl handle : handles) {
             // Handle each request on the ExecutorService (i.e. on background threads).
             handle.performRequest();
           }
diff --git a/fcp/java_src/main/java/com/google/fcp/client/http/HttpRequestHandleImpl.java b/fcp/java_src/main/java/com/google/fcp/client/http/HttpRequestHandleImpl.java
index 89330d8..f19adc9 100644
--- a/fcp/java_src/main/java/com/google/fcp/client/http/HttpRequestHandleImpl.java
+++ b/fcp/java_src/main/java/com/google/fcp/client/http/HttpRequestHandleImpl.java
@@ -303,11 +303,19 @@ public class HttpRequestHandleImpl extends HttpRequestHandle {
         .toByteArray();
   }
 
-  final synchronized void performRequest() {
+  /** Marks the request as being performed. From here on it can be cancelled. */
+  final synchronized void prepareRequest() {
     if (state != State.NOT_STARTED) {
       throw new IllegalStateException("must not call perform() more than once");
     }
     state = State.BEFORE_RESPONSE_HEADERS;
+  }
+
+  /** Starts the request, unless it was cancelled since the call to {@link #prepareRequest}. */
+  final synchronized void performRequest() {
+    if (state == State.CLOSED) {
+      return;
+    }
     ongoingWork = executorService.submit(this::runRequestToCompletion);
   }
 
@@ -316,6 +324,10 @@ public class HttpRequestHandleImpl extends HttpRequestHandle {
     Future<?> localOngoingWork;
     synchronized (this) {
       if (ongoingWork == null) {
+        if (state == State.CLOSED) {
+          // The request was cancelled before it was started.
+          return;
+        }
         throw new IllegalStateException("must not call waitForCompletion() before perform()");
       }
       localOngoingWork = ongoingWork;
-- 
2.43.0


From afa06b240d939d2f9470a1a586d3ce0ffb38e686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:42:45 +0000
Subject: [PATCH 53/58] fix: wait for the callback that cancels its own request

---
 .../com/google/fcp/client/http/HttpRequestHandleImpl.java     | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fcp/java_src/main/java/com/google/fcp/client/http/HttpRequestHandleImpl.java b/fcp/java_src/main/java/com/google/fcp/client/http/HttpRequestHandleImpl.java
index f19adc9..58519de 100644
--- a/fcp/java_src/main/java/com/google/fcp/client/http/HttpRequestHandleImpl.java
+++ b/fcp/java_src/main/java/com/google/fcp/client/http/HttpRequestHandleImpl.java
@@ -347,6 +347,10 @@ public class HttpRequestHandleImpl extends HttpRequestHandle {
       // in those cases there's nothing left for us to do, and we should just gracefully return.
       // This will allow #performRequests(...) to be unblocked, while the background thread may
       // still be cleaning up some resources.
+      //
+      // However, if the request was cancelled from within one of its callbacks, then that callback
+      // must return first. Callbacks are invoked with the lock held, so we acquire it once.
+      isClosed();
     }
   }
 
-- 
2.43.0


From d2a742e23b45c7ec8796e893adeed16f16fe7322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:49:43 +0000
Subject: [PATCH 54/58] fix: report the failure of a request only once

---
 fcp/client/http/java/java_http_client.cc | 19 ++++++++++++++++---
 fcp/client/http/java/java_http_client.h  |  6 ++++++
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/fcp/client/http/java/java_http_client.cc b/fcp/client/http/java/java_http_client.cc
index c32dc84..7adb203 100644
--- a/fcp/client/http/java/java_http_client.cc
+++ b/fcp/client/http/java/java_http_client.cc
@@ -369,6 +369,20 @@ absl::Status JavaHttpRequestHandle::SetCallback(
   return absl::OkStatus();
 }
 
+void JavaHttpRequestHandle::DeliverResponseError(const absl::Status& error) {
+  {
+    // The Java layer does not know yet about an error to read the request body
+    // while that error is being delivered. If the request gets cancelled in the
+    // meantime, then it reports the cancellation as well.
+    absl::MutexLock _(&lock_);
+    if (response_error_delivered_) {
+      return;
+    }
+    response_error_delivered_ = true;
+  }
+  callback()->OnResponseError(*request_, error);
+}
+
 jboolean JavaHttpRequestHandle::ReadRequestBody(JNIEnv* env, jbyteArray buffer,
                                                 jlong requested_bytes,
                                                 jintArray actual_bytes_read) {
@@ -401,8 +415,7 @@ jboolean JavaHttpRequestHandle::ReadRequestBody(JNIEnv* env, jbyteArray buffer,
     // that we can forward the original error back to the callback (without
     // having to convert it to a Java representation and back to a Status
     // again).
-    callback()->OnResponseError(
-        *request_,
+    DeliverResponseError(
         absl::Status(read_body_result.status().code(),
                      absl::StrCat("failed to read request body",
                                   read_body_result.status().message())));
@@ -441,7 +454,7 @@ void JavaHttpRequestHandle::OnResponseError(JNIEnv* env,
                                             jbyteArray status_proto) {
   absl::Status status = ConvertRpcStatusToAbslStatus(
       ParseProtoFromJByteArray<google::rpc::Status>(env, status_proto));
-  callback()->OnResponseError(*request_, status);
+  DeliverResponseError(status);
 }
 
 jboolean JavaHttpRequestHandle::OnResponseBody(JNIEnv* env, jbyteArray buffer,
diff --git a/fcp/client/http/java/java_http_client.h b/fcp/client/http/java/java_http_client.h
index 44bf252..428d4c8 100644
--- a/fcp/client/http/java/java_http_client.h
+++ b/fcp/client/http/java/java_http_client.h
@@ -139,6 +139,11 @@ class JavaHttpRequestHandle : public fcp::client::http::HttpRequestHandle {
   absl::Status SetCallback(fcp::client::http::HttpRequestCallback* callback)
       ABSL_LOCKS_EXCLUDED(lock_);
 
+  // Calls `HttpRequestCallback::OnResponseError`, unless it was already called
+  // for this request.
+  void DeliverResponseError(const absl::Status& error)
+      ABSL_LOCKS_EXCLUDED(lock_);
+
   // Returns the JNI reference for the Java handle object that corresponds to
   // this C++ handle object.
   jobject GetJobject() { return jthis_; }
@@ -168,6 +173,7 @@ class JavaHttpRequestHandle : public fcp::client::http::HttpRequestHandle {
   fcp::client::http::HttpRequestCallback* callback_ ABSL_GUARDED_BY(lock_) =
       nullptr;
   bool performed_ ABSL_GUARDED_BY(lock_) = false;
+  bool response_error_delivered_ ABSL_GUARDED_BY(lock_) = false;
 };
 
 }  // namespace java
-- 
2.43.0


From 7122d98b035ad74bb2aac6d797ecf9bc246d4a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:46:26 +0000
Subject: [PATCH 55/58] fix: pass on every request to cancel a TFLite model

A request that came before the delegate was ready was dropped, or read an
uninitialised pointer. One that came while the delegate was being destroyed
could still use it.
---
 fcp/client/engine/BUILD             |  2 +
 fcp/client/engine/tflite_wrapper.cc | 57 ++++++++++++++++++++++-------
 2 files changed, 45 insertions(+), 14 deletions(-)

diff --git a/fcp/client/engine/BUILD b/fcp/client/engine/BUILD
index b69d793..f745d3b 100644
--- a/fcp/client/engine/BUILD
+++ b/fcp/client/engine/BUILD
@@ -203,11 +203,13 @@ cc_library(
         "//fcp/client:diag_codes_cc_proto",
         "//fcp/client:interfaces",
         "//fcp/client:interruptible_runner",
+        "@com_google_absl//absl/base:core_headers",
         "@com_google_absl//absl/container:flat_hash_map",
         "@com_google_absl//absl/memory",
         "@com_google_absl//absl/status",
         "@com_google_absl//absl/status:statusor",
         "@com_google_absl//absl/strings:str_format",
+        "@com_google_absl//absl/synchronization",
         "@com_google_protobuf//:protobuf",
         "@org_tensorflow//tensorflow/core:framework",
         "@org_tensorflow//tensorflow/lite:framework",
diff --git a/fcp/client/engine/tflite_wrapper.cc b/fcp/client/engine/tflite_wrapper.cc
index a874a0f..46ca94a 100644
--- a/fcp/client/engine/tflite_wrapper.cc
+++ b/fcp/client/engine/tflite_wrapper.cc
@@ -15,7 +15,6 @@
  */
 #include "fcp/client/engine/tflite_wrapper.h"
 
-#include <atomic>
 #include <cstdint>
 #include <functional>
 #include <memory>
@@ -24,11 +23,13 @@
 #include <vector>
 
 #include "google/protobuf/any.pb.h"
+#include "absl/base/thread_annotations.h"
 #include "absl/container/flat_hash_map.h"
 #include "absl/memory/memory.h"
 #include "absl/status/status.h"
 #include "absl/status/statusor.h"
 #include "absl/strings/str_format.h"
+#include "absl/synchronization/mutex.h"
 #include "fcp/base/monitoring.h"
 #include "fcp/client/diag_codes.pb.h"
 #include "fcp/client/engine/caching_error_reporter.h"
@@ -211,6 +212,39 @@ absl::StatusOr<OutputTensors> ConstructOutputsInternal(
   return output_tensors;
 }
 
+// Passes cancellation requests on to the delegate of a model invocation, no
+// matter whether they arrive before, while or after the delegate is in use.
+class DelegateCanceller {
+ public:
+  // Cancels the current delegate, if any, or else the next one to be set.
+  void Cancel() {
+    absl::MutexLock lock(&mutex_);
+    cancelled_ = true;
+    if (delegate_ != nullptr) {
+      delegate_->Cancel();
+    }
+  }
+
+  void SetDelegate(tflite::FlexDelegate* delegate) {
+    absl::MutexLock lock(&mutex_);
+    delegate_ = delegate;
+    if (cancelled_) {
+      delegate_->Cancel();
+    }
+  }
+
+  // Once this returns the delegate will not be accessed anymore.
+  void ClearDelegate() {
+    absl::MutexLock lock(&mutex_);
+    delegate_ = nullptr;
+  }
+
+ private:
+  absl::Mutex mutex_;
+  tflite::FlexDelegate* delegate_ ABSL_GUARDED_BY(mutex_) = nullptr;
+  bool cancelled_ ABSL_GUARDED_BY(mutex_) = false;
+};
+
 // Runs the given TFLite model by first initializing an interpreter and then
 // invoking it right away, returning the resulting output tensors.
 absl::StatusOr<OutputTensors> RunTfLiteModelInternal(
@@ -218,14 +252,14 @@ absl::StatusOr<OutputTensors> RunTfLiteModelInternal(
     const absl::flat_hash_map<std::string, std::string>& inputs,
     std::vector<std::string> output_names,
     const TfLiteInterpreterOptions& interpreter_options, int32_t num_threads,
-    std::atomic<tflite::FlexDelegate*>& delegate_raw_ptr_holder) {
+    DelegateCanceller& canceller) {
   FCP_ASSIGN_OR_RETURN(TfLiteInterpreterWithDeps interpreter_with_deps,
                        InitializeInterpreter(model, inputs, output_names,
                                              interpreter_options, num_threads));
 
-  // Store a pointer to the delegate in the holder we were given. This will
+  // Hand a pointer to the delegate to the canceller we were given. This will
   // allow the caller to cancel the invocation while it is running.
-  delegate_raw_ptr_holder.store(static_cast<tflite::FlexDelegate*>(
+  canceller.SetDelegate(static_cast<tflite::FlexDelegate*>(
       interpreter_with_deps.delegate->data_));
 
   // Invoke the model and convert the TFLite status to an absl status.
@@ -236,7 +270,7 @@ absl::StatusOr<OutputTensors> RunTfLiteModelInternal(
 
   // Clear the delegate pointer *before* we return, since the delegate is about
   // to go out of scope and therefore will be destroyed.
-  delegate_raw_ptr_holder.store(nullptr);
+  canceller.ClearDelegate();
   if (!result.ok()) {
     return result;
   }
@@ -269,28 +303,23 @@ absl::StatusOr<OutputTensors> RunTfLiteModelThreadSafe(
           .interrupt_timeout_extended = ProdDiagCode::
               BACKGROUND_TRAINING_INTERRUPT_TF_EXTENDED_EXECUTION_TIMED_OUT});
 
-  std::atomic<tflite::FlexDelegate*> delegate_raw_ptr;
+  DelegateCanceller canceller;
 
   OutputTensors output_tensors;
   FCP_RETURN_IF_ERROR(runner->Run(
       [model, inputs_ = *inputs, output_names, interpreter_options, num_threads,
-       output_tensors_ = &output_tensors, &delegate_raw_ptr]() mutable {
+       output_tensors_ = &output_tensors, &canceller]() mutable {
         // Run the model, and if successful then copy its output tensors so we
         // can return them.
         FCP_ASSIGN_OR_RETURN(
             *output_tensors_,
             RunTfLiteModelInternal(model, inputs_, output_names,
                                    interpreter_options, num_threads,
-                                   delegate_raw_ptr));
+                                   canceller));
         return absl::OkStatus();
       },
       /* abort_function=*/
-      [&delegate_raw_ptr]() {
-        auto local_delegate_raw_ptr = delegate_raw_ptr.load();
-        if (local_delegate_raw_ptr != nullptr) {
-          local_delegate_raw_ptr->Cancel();
-        }
-      }));
+      [&canceller]() { canceller.Cancel(); }));
   return output_tensors;
 }
 
-- 
2.43.0


From 0f9ba657f9a925705aeca95e8fcf313990696bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:54:08 +0000
Subject: [PATCH 56/58] fix: do not report success for a graph that ended
 without its outputs

A graph may end itself early. When outputs were requested the result named
them all but held none, and callers read past the end of the list.
---
 fcp/client/engine/simple_plan_engine.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fcp/client/engine/simple_plan_engine.cc b/fcp/client/engine/simple_plan_engine.cc
index b8068d0..5f8ca79 100644
--- a/fcp/client/engine/simple_plan_engine.cc
+++ b/fcp/client/engine/simple_plan_engine.cc
@@ -181,6 +181,11 @@ SimplePlanEngine::RunTensorFlowInternal(
     case absl::StatusCode::kInvalidArgument:
       return status;
     case absl::StatusCode::kOutOfRange:
+      if (outputs.size() != output_tensor_names.size()) {
+        return absl::InvalidArgumentError(
+            "The graph ended without producing the requested outputs.");
+      }
+      break;
     case absl::StatusCode::kOk:
       break;
     default:
-- 
2.43.0


From a22ca80eff4eb7fa5c5cc72df1e49e9cd673d39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:10:37 +0000
Subject: [PATCH 57/58] fix: do not reuse a plan built for another example
 selector

Plans were cached by the address of the selector. A selector that was
freed, or changed in place, could make a later invocation run with the
plan of another selection. Cache by the content instead.
---
 fcp/demo/federated_context.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/fcp/demo/federated_context.py b/fcp/demo/federated_context.py
index 81d8978..4d50877 100644
--- a/fcp/demo/federated_context.py
+++ b/fcp/demo/federated_context.py
@@ -87,7 +87,7 @@ class FederatedContext(tff.program.FederatedContext):
           self._server.socket, server_side=True)
     self._server_thread = threading.Thread(
         target=self._server.serve_forever, daemon=True)
-    self._cached_comps: dict[tuple[tff.Computation, int], plan_pb2.Plan] = {}
+    self._cached_comps: dict[tuple[tff.Computation, Any], plan_pb2.Plan] = {}
 
   @property
   def server_port(self) -> int:
@@ -132,7 +132,8 @@ class FederatedContext(tff.program.FederatedContext):
 
     # Since building the plan can be slow, we cache the result to speed up
     # subsequent invocations.
-    cache_key = (comp.wrapped_computation, id(config.example_selector))
+    cache_key = (comp.wrapped_computation,
+                 self._get_selector_key(config.example_selector))
     try:
       plan = self._cached_comps[cache_key]
     except KeyError:
@@ -223,6 +224,14 @@ class FederatedContext(tff.program.FederatedContext):
       }
     return data_spec.DataSpec(example_selector)
 
+  def _get_selector_key(self, example_selector) -> Any:
+    """Returns a hashable key for the contents of a NestedExampleSelector."""
+    if isinstance(example_selector, dict):
+      return tuple(
+          (k, self._get_selector_key(v)) for k, v in example_selector.items()
+      )
+    return example_selector.SerializeToString(deterministic=True)
+
   async def _run_computation(
       self, name: str, config: federated_data_source.DataSelectionConfig,
       plan: plan_pb2.Plan, input_type: tff.Type,
-- 
2.43.0


From 8469bb1be7044dcde68afaf3530a5a0aaa112ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:10:37 +0000
Subject: [PATCH 58/58] fix: run computations whose state is a structure

The values of a structured state were never awaited, and containers and
plain values inside a structure were accepted but failed later. Every
computation with such a state failed.
---
 fcp/demo/federated_context.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/fcp/demo/federated_context.py b/fcp/demo/federated_context.py
index 4d50877..a3523ab 100644
--- a/fcp/demo/federated_context.py
+++ b/fcp/demo/federated_context.py
@@ -207,6 +207,10 @@ class FederatedContext(tff.program.FederatedContext):
           f'{tf.nest.map_structure(type, state)!r})'
       )
 
+    # Code below assumes structures are always `tff.structure.Struct`s.
+    if isinstance(state, (dict, list, tuple)):
+      state = tff.structure.from_container(state, recursive=True)
+
     # Code below assumes single values are always `tf.Tensor`s.
     if isinstance(state, (int, float, str, bytes, np.ndarray, np.number)):
       state = tf.convert_to_tensor(state)
@@ -263,11 +267,15 @@ class FederatedContext(tff.program.FederatedContext):
     elif tf.is_tensor(structure):
       return structure
     elif isinstance(structure, tff.structure.Struct):
-      s = [
+      s = await asyncio.gather(*[
           self._resolve_value_references(x)
           for x in tff.structure.flatten(structure)
-      ]
+      ])
       return tff.structure.pack_sequence_as(structure, s)
+    elif isinstance(
+        structure, (int, float, str, bytes, np.ndarray, np.number)
+    ):
+      return structure
     else:
       raise ValueError(
           'arg[1] must be a struct, Tensor, or MaterializableValueReference.')
-- 
2.43.0

