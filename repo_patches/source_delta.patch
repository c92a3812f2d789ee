From a3989c07e3b91f9595b4386601229ea51a2f6725 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 12:10:01 +0000
Subject: [PATCH 01/19] fix: update the inbound key once per complete KeyUpdate
 message

The handshake message handler reports contains_key_update for fragments too,
so a KeyUpdate split over n records advanced the inbound key n times and every
later record failed to decrypt.
---
 src/record_protocol/s2a_crypter.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/record_protocol/s2a_crypter.cc b/src/record_protocol/s2a_crypter.cc
index bd35e14..458178b 100644
--- a/src/record_protocol/s2a_crypter.cc
+++ b/src/record_protocol/s2a_crypter.cc
@@ -495,9 +495,10 @@ absl::Status S2ACrypter::HandleProcessHandshakeMessageResult(
       hs_message_handling_state_->expecting_to_read_more_bytes =
           result.expecting_to_read_more_bytes;
 
-      // Update the inbound key if handshake message contained a key update
-      // message.
-      if (result.contains_key_update) {
+      // Update the inbound key if the handshake message contained a complete key
+      // update message. A key update is always the last message in a record, so
+      // it is incomplete exactly when more bytes are expected.
+      if (result.contains_key_update && !result.expecting_to_read_more_bytes) {
         // TODO(matthewstevenson88): If |result.key_update_type == 0x01|, then
         // the peer is expecting a key update to be sent from us. See
         // https://tools.ietf.org/html/rfc8446#section-4.6.3.
-- 
2.43.0


From 5ed540f1d4dc177a50779c4f6f305d815d7bd1bb Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 12:10:01 +0000
Subject: [PATCH 02/19] fix: do not drop stored tickets when a record ends
 inside a message

When the record that completed the last ticket of the limit also held the start
of another handshake message, retrieving the tickets failed (all of them were
lost), and the crypter forgot that it was in the middle of a message.
---
 src/record_protocol/s2a_crypter.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/record_protocol/s2a_crypter.cc b/src/record_protocol/s2a_crypter.cc
index 458178b..7f2cd84 100644
--- a/src/record_protocol/s2a_crypter.cc
+++ b/src/record_protocol/s2a_crypter.cc
@@ -519,10 +519,10 @@ absl::Status S2ACrypter::HandleProcessHandshakeMessageResult(
         case TicketHandlingPhase::RECEIVING:
           // If the limit of number of tickets to process is reached, send all
           // stored tickets to the S2A.
-          if (result.contains_ticket &&
+          // The stored tickets cannot be retrieved in the middle of a message.
+          if (result.contains_ticket && !result.expecting_to_read_more_bytes &&
               result.num_full_tickets_stored >= kMaxNumTicketsToProcess) {
             RetrieveStoredTicketsAndSendToS2A();
-            hs_message_handling_state_->expecting_to_read_more_bytes = false;
             hs_message_handling_state_->phase = TicketHandlingPhase::DONE;
             return absl::Status();
           }
-- 
2.43.0


From 9620bf60167c36a39d9f88c5bf5a884b5b855c5b Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 12:10:01 +0000
Subject: [PATCH 03/19] fix: treat a handshake message without a body as
 complete

The header of a message with length zero stayed in the fragment buffer, so the
next header was parsed as more of the same header, with a negative shift.
---
 src/record_protocol/handshake_message_handler.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/record_protocol/handshake_message_handler.cc b/src/record_protocol/handshake_message_handler.cc
index f128d56..c4b1572 100644
--- a/src/record_protocol/handshake_message_handler.cc
+++ b/src/record_protocol/handshake_message_handler.cc
@@ -81,6 +81,9 @@ HandshakeMessageHandler::ProcessHandshakeMessage(const uint8_t* plaintext,
           num_data_bytes_expecting_to_read_ = GetMessageDataSizeFromHeader();
           if (num_data_bytes_expecting_to_read_ > 0) {
             state_ = State::READ_DATA;
+          } else {
+            /* The message has no data, so it is complete. */
+            full_hs_message_read = true;
           }
         } else {
           /* Read incomplete message header. Read all remaining bytes. */
@@ -225,7 +228,7 @@ uint32_t HandshakeMessageHandler::GetMessageDataSizeFromHeader() {
       at_byte++;
       shift_by -= 8;
       if (at_byte > kTlsHandshakeHeaderLength) {
-        break;
+        return message_data_size;
       }
     }
   }
-- 
2.43.0


From 3e4f40180902bd4e1c614336b5da48d88269f8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 12:10:01 +0000
Subject: [PATCH 04/19] fix: free the output buffer of a failed Protect only
 once

The overload that writes to a caller-supplied buffer destroyed that buffer on
failure, and the overload that allocates it destroyed it again.
---
 src/frame_protector/s2a_frame_protector.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/frame_protector/s2a_frame_protector.cc b/src/frame_protector/s2a_frame_protector.cc
index d231dce..9373c1c 100644
--- a/src/frame_protector/s2a_frame_protector.cc
+++ b/src/frame_protector/s2a_frame_protector.cc
@@ -286,8 +286,8 @@ Status S2AFrameProtector::Protect(const std::vector<Iovec>& unprotected_bytes,
 
     // Protect the bytes in |bytes_to_protect| and write them to
     // |protected_bytes|. If a failure occurs or an unexpected number of bytes
-    // are written, then free the |protected_bytes| buffer and return an error
-    // status.
+    // are written, then return an error status. The |protected_bytes| buffer is
+    // owned by the caller.
     S2ACrypterStatus status =
         crypter_->Protect(RecordType::APPLICATION_DATA, bytes_to_protect,
                           {static_cast<uint8_t*>(protected_bytes.iov_base) +
@@ -297,7 +297,6 @@ Status S2AFrameProtector::Protect(const std::vector<Iovec>& unprotected_bytes,
       std::string error =
           absl::StrCat("Failed to protect: ", status.GetErrorMessage());
       logger_(error);
-      destroy_(protected_bytes);
       return Status(ConvertStatusCode(status.GetCode()),
                     status.GetErrorMessage());
     }
@@ -305,7 +304,6 @@ Status S2AFrameProtector::Protect(const std::vector<Iovec>& unprotected_bytes,
         number_bytes_to_protect + crypter_->RecordOverhead()) {
       std::string error = "Protected an unexpected number of bytes.";
       logger_(error);
-      destroy_(protected_bytes);
       return Status(StatusCode::kInternal, error);
     }
 
-- 
2.43.0


From cf5f69221c8c63c0d2e240db0573bd527b8f8628 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 12:10:48 +0000
Subject: [PATCH 05/19] fix: free the plaintext buffers when a later record is
 malformed

Unprotect leaked the buffers of the records it had already decrypted when the
header of a later record was malformed or its payload was incomplete.
---
 src/frame_protector/s2a_frame_protector.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/frame_protector/s2a_frame_protector.cc b/src/frame_protector/s2a_frame_protector.cc
index 9373c1c..355cc5c 100644
--- a/src/frame_protector/s2a_frame_protector.cc
+++ b/src/frame_protector/s2a_frame_protector.cc
@@ -405,6 +405,9 @@ Result S2AFrameProtector::Unprotect(const std::vector<Iovec>& protected_bytes) {
       case 0:
         logger_(absl::StrCat("Failed to compute TLS record size: ",
                              absl::get<0>(record_size_status).message()));
+        for (auto& vec : plaintext) {
+          destroy_(vec);
+        }
         return {absl::get<0>(record_size_status), /*bytes=*/{}};
       case 1:
         break;
@@ -429,6 +432,9 @@ Result S2AFrameProtector::Unprotect(const std::vector<Iovec>& protected_bytes) {
       case 0:
         logger_(absl::StrCat("Failed to isolate TLS payload: ",
                              absl::get<0>(isolate_status).message()));
+        for (auto& vec : plaintext) {
+          destroy_(vec);
+        }
         return {absl::get<0>(isolate_status), /*bytes=*/{}};
       case 1:
         break;
-- 
2.43.0


From 08107625ef5b8ed865f65f99870418c3b0a8fb35 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 12:10:48 +0000
Subject: [PATCH 06/19] fix: report a partial TLS record at the end of the
 protected bytes

Unprotect documents an error status when the input contains a partial record,
but silently dropped one that was shorter than the overhead of a record.
---
 src/frame_protector/s2a_frame_protector.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frame_protector/s2a_frame_protector.cc b/src/frame_protector/s2a_frame_protector.cc
index 355cc5c..1c04cb0 100644
--- a/src/frame_protector/s2a_frame_protector.cc
+++ b/src/frame_protector/s2a_frame_protector.cc
@@ -389,7 +389,7 @@ Result S2AFrameProtector::Unprotect(const std::vector<Iovec>& protected_bytes) {
 
   absl::MutexLock lock(&unprotect_mu_);
   std::vector<Iovec> plaintext;
-  while (bytes_remaining >= crypter_->RecordOverhead()) {
+  while (bytes_remaining > 0) {
     // Copy the header of the next TLS record in |protected_bytes| into
     // |header|, and update |current_iovec_index| and |on_iovec_index| so that
     // |protected_bytes[current_iovec_index].iov_base[on_iovec_index]| is the
-- 
2.43.0


From bcd4b194dcda9e6523e7eadccddfebe286bca102 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 12:10:48 +0000
Subject: [PATCH 07/19] fix: reject more than one TLS record when unprotecting
 to one buffer

This overload of Unprotect documents an error status when the input holds more
than one record, but decrypted the first one and silently dropped the rest.
---
 src/frame_protector/s2a_frame_protector.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/frame_protector/s2a_frame_protector.cc b/src/frame_protector/s2a_frame_protector.cc
index 1c04cb0..3f09c17 100644
--- a/src/frame_protector/s2a_frame_protector.cc
+++ b/src/frame_protector/s2a_frame_protector.cc
@@ -341,6 +341,12 @@ Status S2AFrameProtector::Unprotect(
   }
   ComputeTlsRecordSizeResult record_size_result =
       absl::get<1>(record_size_status);
+  if (record_size_result.record_size < GetTotalIovecLength(protected_bytes)) {
+    unprotected_bytes.iov_len = 0;
+    std::string error = "|protected_bytes| contains more than one TLS record.";
+    logger_(error);
+    return Status(StatusCode::kFailedPrecondition, error);
+  }
 
   // Create a vector of Iovec's that consists only of the TLS payload.
   absl::variant<Status, IsolateTlsPayloadResult> isolate_status =
-- 
2.43.0


From 8f7b2de3185ec6ad457db42d199a0fd87844157c Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 12:10:48 +0000
Subject: [PATCH 08/19] fix: do not read past an empty piece of the protected
 bytes

While looking for a record header, Unprotect read one byte from every piece of
the input, also from pieces of length zero.
---
 src/frame_protector/s2a_frame_protector.cc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/frame_protector/s2a_frame_protector.cc b/src/frame_protector/s2a_frame_protector.cc
index 3f09c17..20070d8 100644
--- a/src/frame_protector/s2a_frame_protector.cc
+++ b/src/frame_protector/s2a_frame_protector.cc
@@ -101,9 +101,15 @@ absl::variant<Status, ComputeTlsRecordSizeResult> ComputeTlsRecordSize(
       return Status(StatusCode::kFailedPrecondition,
                     "|vecs| is too small to hold TLS record header.");
     }
+    size_t buffer_length = vecs[iovec_index].iov_len;
+    if (on_iovec_index >= buffer_length) {
+      // There are no bytes left on |vecs[iovec_index]|.
+      iovec_index += 1;
+      on_iovec_index = 0;
+      continue;
+    }
     ABSL_ASSERT(vecs[iovec_index].iov_base != nullptr);
     uint8_t* buffer = static_cast<uint8_t*>(vecs[iovec_index].iov_base);
-    size_t buffer_length = vecs[iovec_index].iov_len;
     switch (header_index) {
       case 0:
         if (buffer[on_iovec_index] != kTls12ApplicationData) {
@@ -166,6 +172,11 @@ absl::variant<Status, IsolateTlsPayloadResult> IsolateTlsPayload(
       return Status(StatusCode::kFailedPrecondition,
                     "|vecs| is too small to hold TLS record.");
     }
+    if (vecs[iovec_index].iov_len == 0) {
+      iovec_index += 1;
+      on_iovec_index = 0;
+      continue;
+    }
     ABSL_ASSERT(vecs[iovec_index].iov_base != nullptr);
     uint8_t* buffer = static_cast<uint8_t*>(vecs[iovec_index].iov_base);
     size_t bytes_remaining_on_iovec =
-- 
2.43.0


From cf504112c00812b293c636125249c323302b6a23 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 12:10:48 +0000
Subject: [PATCH 09/19] fix: guard the tag length of a half connection with its
 mutex

Protect reads the tag length of the inbound half connection while Unprotect,
which may run concurrently, replaces its crypter on a key update.
---
 src/record_protocol/s2a_half_connection.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/record_protocol/s2a_half_connection.cc b/src/record_protocol/s2a_half_connection.cc
index 167600e..9845906 100644
--- a/src/record_protocol/s2a_half_connection.cc
+++ b/src/record_protocol/s2a_half_connection.cc
@@ -253,7 +253,10 @@ Status S2AHalfConnection::UpdateKey() {
   return Status();
 }
 
-size_t S2AHalfConnection::TagLength() { return aead_crypter_->TagLength(); }
+size_t S2AHalfConnection::TagLength() {
+  absl::MutexLock lock(&mu_);
+  return aead_crypter_->TagLength();
+}
 
 S2AHalfConnection::S2AHalfConnection(
     Ciphersuite ciphersuite, size_t key_size, uint64_t sequence,
-- 
2.43.0


From 61409a38a35b43b926699e672e3f65b5d6549558 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 12:11:42 +0000
Subject: [PATCH 10/19] fix: erase unauthenticated plaintext when the output
 buffer is too small

Decrypt left the plaintext of the earlier pieces of the ciphertext in the
caller's buffer, without having checked the tag, when a later piece did not fit.
---
 src/crypto/aes_gcm_crypter.cc             | 1 +
 src/crypto/chacha_poly_crypter_openssl.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/crypto/aes_gcm_crypter.cc b/src/crypto/aes_gcm_crypter.cc
index 367df50..98bc239 100644
--- a/src/crypto/aes_gcm_crypter.cc
+++ b/src/crypto/aes_gcm_crypter.cc
@@ -335,6 +335,7 @@ class AesGcmS2AAeadCrypter : public S2AAeadCrypter {
         bytes_to_write = total_ciphertext_and_tag_length - kAesGcmTagSize;
       }
       if (remaining_plaintext_length < bytes_to_write) {
+        memset(plaintext.iov_base, 0x00, plaintext.iov_len);
         return CrypterStatus(
             Status(
                 StatusCode::kInvalidArgument,
diff --git a/src/crypto/chacha_poly_crypter_openssl.cc b/src/crypto/chacha_poly_crypter_openssl.cc
index 5d06c20..7be0eba 100644
--- a/src/crypto/chacha_poly_crypter_openssl.cc
+++ b/src/crypto/chacha_poly_crypter_openssl.cc
@@ -342,6 +342,7 @@ class ChachaPolyS2AAeadCrypterOpenSSL : public S2AAeadCrypter {
         bytes_to_write = total_ciphertext_and_tag_length - kChachaPolyTagSize;
       }
       if (remaining_plaintext_length < bytes_to_write) {
+        memset(plaintext.iov_base, 0x00, plaintext.iov_len);
         return CrypterStatus(
             absl::InvalidArgumentError(
                 "|plaintext| is too small to hold the decrypted ciphertext."),
-- 
2.43.0


From 258cd03e6c6e4c52f202c9e756856a99e08ea5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 12:11:42 +0000
Subject: [PATCH 11/19] fix: reject an invalid component in the tag part of a
 ciphertext

A component with nonzero length and a null base was rejected in the ciphertext
but dereferenced in the tag.
---
 src/crypto/aes_gcm_crypter.cc             | 10 ++++++++++
 src/crypto/chacha_poly_crypter_openssl.cc | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/crypto/aes_gcm_crypter.cc b/src/crypto/aes_gcm_crypter.cc
index 98bc239..1cca7f8 100644
--- a/src/crypto/aes_gcm_crypter.cc
+++ b/src/crypto/aes_gcm_crypter.cc
@@ -385,6 +385,16 @@ class AesGcmS2AAeadCrypter : public S2AAeadCrypter {
     for (; i < ciphertext_and_tag.size(); i++) {
       ciphertext_ptr = static_cast<uint8_t*>(ciphertext_and_tag[i].iov_base);
       current_ciphertext_length = ciphertext_and_tag[i].iov_len;
+      if (current_ciphertext_length == 0) {
+        continue;
+      }
+      if (ciphertext_ptr == nullptr) {
+        memset(plaintext.iov_base, 0x00, plaintext.iov_len);
+        return CrypterStatus(
+            Status(StatusCode::kInvalidArgument,
+                   "|ciphertext_and_tag| has an invalid component."),
+            /*bytes_written=*/0);
+      }
       memcpy(tag_tmp, ciphertext_ptr, current_ciphertext_length);
       tag_tmp += current_ciphertext_length;
       total_ciphertext_and_tag_length -= current_ciphertext_length;
diff --git a/src/crypto/chacha_poly_crypter_openssl.cc b/src/crypto/chacha_poly_crypter_openssl.cc
index 7be0eba..aef5eef 100644
--- a/src/crypto/chacha_poly_crypter_openssl.cc
+++ b/src/crypto/chacha_poly_crypter_openssl.cc
@@ -391,6 +391,16 @@ class ChachaPolyS2AAeadCrypterOpenSSL : public S2AAeadCrypter {
     for (; i < ciphertext_and_tag.size(); i++) {
       ciphertext_ptr = static_cast<uint8_t*>(ciphertext_and_tag[i].iov_base);
       current_ciphertext_length = ciphertext_and_tag[i].iov_len;
+      if (current_ciphertext_length == 0) {
+        continue;
+      }
+      if (ciphertext_ptr == nullptr) {
+        memset(plaintext.iov_base, 0x00, plaintext.iov_len);
+        return CrypterStatus(
+            absl::InvalidArgumentError(
+                "|ciphertext_and_tag| has an invalid component."),
+            /*bytes_written=*/0);
+      }
       memcpy(tag_tmp, ciphertext_ptr, current_ciphertext_length);
       tag_tmp += current_ciphertext_length;
       total_ciphertext_and_tag_length -= current_ciphertext_length;
-- 
2.43.0


From e288ccd1d6401804745981d6cdb818be73656ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 12:13:19 +0000
Subject: [PATCH 12/19] fix: finish the handshake only after the session result
 was validated

A response with a malformed session result marked the handshake as finished
before the result was checked, so that a frame protector could be requested
for a session without state (null dereference, or uninitialised parameters).
---
 src/handshaker/s2a_proxy.cc | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/handshaker/s2a_proxy.cc b/src/handshaker/s2a_proxy.cc
index 7418acc..e93f130 100644
--- a/src/handshaker/s2a_proxy.cc
+++ b/src/handshaker/s2a_proxy.cc
@@ -252,7 +252,6 @@ ProxyStatus S2AProxy::GetBytesForPeer(std::unique_ptr<Buffer> bytes_from_s2a) {
   }
 
   if (s2a_proto_SessionResp_has_result(response)) {
-    is_handshake_finished_ = true;
     const s2a_proto_SessionResult* result =
         s2a_proto_SessionResp_result(response);
     if (result == nullptr || !s2a_proto_SessionResult_has_state(result)) {
@@ -262,7 +261,7 @@ ProxyStatus S2AProxy::GetBytesForPeer(std::unique_ptr<Buffer> bytes_from_s2a) {
               /*buffer=*/nullptr};
     }
     const s2a_proto_SessionState* state = s2a_proto_SessionResult_state(result);
-    result_ = absl::make_unique<S2AHandshakeResult>();
+    auto handshake_result = absl::make_unique<S2AHandshakeResult>();
 
     // Parse and set the TLS version.
     absl::variant<Status, TlsVersion> tls_version_status =
@@ -281,7 +280,7 @@ ProxyStatus S2AProxy::GetBytesForPeer(std::unique_ptr<Buffer> bytes_from_s2a) {
       default:  // Unexpected variant case.
         ABSL_ASSERT(0);
     }
-    result_->tls_version = absl::get<1>(tls_version_status);
+    handshake_result->tls_version = absl::get<1>(tls_version_status);
 
     // Parse and set the ciphersuite.
     absl::variant<Status, Ciphersuite> ciphersuite_status =
@@ -300,24 +299,26 @@ ProxyStatus S2AProxy::GetBytesForPeer(std::unique_ptr<Buffer> bytes_from_s2a) {
       default:  // Unexpected variant case.
         ABSL_ASSERT(0);
     }
-    result_->ciphersuite = absl::get<1>(ciphersuite_status);
+    handshake_result->ciphersuite = absl::get<1>(ciphersuite_status);
 
     upb_strview in_traffic_secret = s2a_proto_SessionState_in_key(state);
-    result_->in_traffic_secret = std::vector<uint8_t>(in_traffic_secret.size);
-    memcpy(result_->in_traffic_secret.data(), in_traffic_secret.data,
-           in_traffic_secret.size);
+    handshake_result->in_traffic_secret =
+        std::vector<uint8_t>(in_traffic_secret.size);
+    memcpy(handshake_result->in_traffic_secret.data(),
+           in_traffic_secret.data, in_traffic_secret.size);
 
     upb_strview out_traffic_secret = s2a_proto_SessionState_out_key(state);
-    result_->out_traffic_secret = std::vector<uint8_t>(out_traffic_secret.size);
-    memcpy(result_->out_traffic_secret.data(), out_traffic_secret.data,
-           out_traffic_secret.size);
+    handshake_result->out_traffic_secret =
+        std::vector<uint8_t>(out_traffic_secret.size);
+    memcpy(handshake_result->out_traffic_secret.data(),
+           out_traffic_secret.data, out_traffic_secret.size);
 
     // |out_sequence| may be nonzero on server-side because, right after the
     // handshake is complete, one or more TLS records containing session tickets
     // may have been generated. This will increment |out_sequence| by the number
     // of TLS records generated.
-    result_->in_sequence = s2a_proto_SessionState_in_sequence(state);
-    result_->out_sequence = s2a_proto_SessionState_out_sequence(state);
+    handshake_result->in_sequence = s2a_proto_SessionState_in_sequence(state);
+    handshake_result->out_sequence = s2a_proto_SessionState_out_sequence(state);
 
     // TODO(matthewstevenson88): Enforce that peer identity is set.
     // TODO(matthewstevenson88) Check that peer identity appears in the list of
@@ -336,9 +337,10 @@ ProxyStatus S2AProxy::GetBytesForPeer(std::unique_ptr<Buffer> bytes_from_s2a) {
       return {Status(StatusCode::kInternal, error),
               /*bytes_consumed=*/0, /*buffer=*/nullptr};
     }
-    result_->local_identity =
+    handshake_result->local_identity =
         s2a_util::ConvertFromProtoToIdentity(local_identity);
-    result_->connection_id = s2a_proto_SessionState_connection_id(state);
+    handshake_result->connection_id =
+        s2a_proto_SessionState_connection_id(state);
 
     // Create the |S2AContext|.
     context_ = absl::make_unique<S2AContext>(
@@ -352,6 +354,8 @@ ProxyStatus S2AProxy::GetBytesForPeer(std::unique_ptr<Buffer> bytes_from_s2a) {
         s2a_util::ParseUpbStrview(
             s2a_proto_SessionResult_local_cert_fingerprint(result)),
         s2a_proto_SessionState_is_handshake_resumed(state));
+    result_ = std::move(handshake_result);
+    is_handshake_finished_ = true;
   }
 
   // Retrieve the |out_frames| to send to the peer.
-- 
2.43.0


From 495b82334311ce02665e85bee3cbc1677e57374d Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 12:13:19 +0000
Subject: [PATCH 13/19] fix: return the context of a finished handshake on
 every call

The second call of GetS2AContext returned success with a null context.
---
 src/handshaker/s2a_proxy.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/handshaker/s2a_proxy.cc b/src/handshaker/s2a_proxy.cc
index e93f130..ee51212 100644
--- a/src/handshaker/s2a_proxy.cc
+++ b/src/handshaker/s2a_proxy.cc
@@ -816,7 +816,7 @@ absl::variant<Status, std::unique_ptr<S2AContext>> S2AProxy::GetS2AContext() {
     return Status(StatusCode::kFailedPrecondition,
                   "Handshake is not finished.");
   }
-  return std::move(context_);
+  return absl::make_unique<S2AContext>(*context_);
 }
 
 }  // namespace s2a_proxy
-- 
2.43.0


From a7b7eaf90fa4561776bc59ef86c71b45d18c5fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 12:13:19 +0000
Subject: [PATCH 14/19] fix: serialize certificate fingerprints that contain a
 zero byte

The fingerprints are binary SHA256 hashes, and were cut at the first zero.
---
 src/handshaker/s2a_context.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/handshaker/s2a_context.cc b/src/handshaker/s2a_context.cc
index 2ba1532..e19a374 100644
--- a/src/handshaker/s2a_context.cc
+++ b/src/handshaker/s2a_context.cc
@@ -135,9 +135,11 @@ S2AContext::GetSerializedContext() const {
 
   // Set the peer and local cert fingerprints.
   s2a_proto_S2AContext_set_peer_cert_fingerprint(
-      context, upb_strview_makez(peer_cert_fingerprint_.c_str()));
+      context, upb_strview_make(peer_cert_fingerprint_.data(),
+                                peer_cert_fingerprint_.size()));
   s2a_proto_S2AContext_set_local_cert_fingerprint(
-      context, upb_strview_makez(local_cert_fingerprint_.c_str()));
+      context, upb_strview_make(local_cert_fingerprint_.data(),
+                                local_cert_fingerprint_.size()));
 
   // Set the "is handshake resumed" flag.
   s2a_proto_S2AContext_set_is_handshake_resumed(context, is_handshake_resumed_);
-- 
2.43.0


From e8b298e9da8ba56a4c214382ea5d921850b2474b Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 12:13:19 +0000
Subject: [PATCH 15/19] fix: do not underflow the plaintext length of a
 truncated ciphertext

---
 src/crypto/s2a_aead_crypter.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/crypto/s2a_aead_crypter.cc b/src/crypto/s2a_aead_crypter.cc
index 136264d..031ca70 100644
--- a/src/crypto/s2a_aead_crypter.cc
+++ b/src/crypto/s2a_aead_crypter.cc
@@ -47,7 +47,9 @@ S2AAeadCrypter::S2AAeadCrypter(size_t key_length, size_t nonce_length,
 
 size_t S2AAeadCrypter::MaxPlaintextLength(
     size_t ciphertext_and_tag_length) const {
-  return ciphertext_and_tag_length - tag_length_;
+  return ciphertext_and_tag_length < tag_length_
+             ? 0
+             : ciphertext_and_tag_length - tag_length_;
 }
 
 size_t S2AAeadCrypter::MaxCiphertextAndTagLength(
-- 
2.43.0


From d61605d506fe49ea88a56174ed37d3f155e3ecbc Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 16:05:24 +0000
Subject: [PATCH 16/19] fix: keep zero bytes in identities and application
 protocol of a context

The strings were converted with upb_strview_makez, which stops at the
first zero byte.
---
 src/handshaker/s2a_context.cc |  3 ++-
 src/handshaker/s2a_util.cc    | 12 +++++++++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/handshaker/s2a_context.cc b/src/handshaker/s2a_context.cc
index e19a374..6038028 100644
--- a/src/handshaker/s2a_context.cc
+++ b/src/handshaker/s2a_context.cc
@@ -75,7 +75,8 @@ S2AContext::GetSerializedContext() const {
   upb::Arena arena;
   s2a_proto_S2AContext* context = s2a_proto_S2AContext_new(arena.ptr());
   s2a_proto_S2AContext_set_application_protocol(
-      context, upb_strview_makez(application_protocol_.c_str()));
+      context, upb_strview_make(application_protocol_.data(),
+                                application_protocol_.size()));
 
   // Set the TLS version.
   absl::variant<Status, s2a_proto_TLSVersion> tls_version_status =
diff --git a/src/handshaker/s2a_util.cc b/src/handshaker/s2a_util.cc
index d1daa84..955c08a 100644
--- a/src/handshaker/s2a_util.cc
+++ b/src/handshaker/s2a_util.cc
@@ -66,17 +66,23 @@ absl::variant<Status, s2a_proto_Identity*> ConvertIdentityToProto(
     case IdentityType::SPIFFE_ID:
       proto_identity = s2a_proto_Identity_new(arena);
       s2a_proto_Identity_set_spiffe_id(
-          proto_identity, upb_strview_makez(identity.GetIdentityCString()));
+          proto_identity,
+          upb_strview_make(identity.GetIdentityCString(),
+                           identity.GetIdentityString().size()));
       return proto_identity;
     case IdentityType::HOSTNAME:
       proto_identity = s2a_proto_Identity_new(arena);
       s2a_proto_Identity_set_hostname(
-          proto_identity, upb_strview_makez(identity.GetIdentityCString()));
+          proto_identity,
+          upb_strview_make(identity.GetIdentityCString(),
+                           identity.GetIdentityString().size()));
       return proto_identity;
     case IdentityType::UID:
       proto_identity = s2a_proto_Identity_new(arena);
       s2a_proto_Identity_set_uid(
-          proto_identity, upb_strview_makez(identity.GetIdentityCString()));
+          proto_identity,
+          upb_strview_make(identity.GetIdentityCString(),
+                           identity.GetIdentityString().size()));
       return proto_identity;
     default:
       return nullptr;
-- 
2.43.0


From 4a68453b993fc58af7c13026a05baccd92d1b4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 16:05:24 +0000
Subject: [PATCH 17/19] fix: keep zero bytes in the strings of session requests

Identities, tokens, application protocol and target name were cut at the
first zero byte.
---
 src/handshaker/s2a_proxy.cc | 90 +++++++++++++++++++++++++++----------
 1 file changed, 66 insertions(+), 24 deletions(-)

diff --git a/src/handshaker/s2a_proxy.cc b/src/handshaker/s2a_proxy.cc
index ee51212..54478c4 100644
--- a/src/handshaker/s2a_proxy.cc
+++ b/src/handshaker/s2a_proxy.cc
@@ -374,7 +374,8 @@ ProxyStatus S2AProxy::GetClientStart() {
 
   // Set the application protocol.
   s2a_proto_ClientSessionStartReq_add_application_protocols(
-      client_start, upb_strview_makez(application_protocol_.c_str()),
+      client_start, upb_strview_make(application_protocol_.data(),
+                                     application_protocol_.size()),
       arena.ptr());
 
   // Set the min and max TLS versions.
@@ -438,15 +439,21 @@ ProxyStatus S2AProxy::GetClientStart() {
     switch (target_identity.GetIdentityType()) {
       case IdentityType::SPIFFE_ID:
         s2a_proto_Identity_set_spiffe_id(
-            identity, upb_strview_makez(target_identity.GetIdentityCString()));
+            identity,
+            upb_strview_make(target_identity.GetIdentityCString(),
+                             target_identity.GetIdentityString().size()));
         break;
       case IdentityType::HOSTNAME:
         s2a_proto_Identity_set_hostname(
-            identity, upb_strview_makez(target_identity.GetIdentityCString()));
+            identity,
+            upb_strview_make(target_identity.GetIdentityCString(),
+                             target_identity.GetIdentityString().size()));
         break;
       case IdentityType::UID:
         s2a_proto_Identity_set_uid(
-            identity, upb_strview_makez(target_identity.GetIdentityCString()));
+            identity,
+            upb_strview_make(target_identity.GetIdentityCString(),
+                             target_identity.GetIdentityString().size()));
         break;
       default:
         std::string error = "Unsupported identity format.";
@@ -473,15 +480,21 @@ ProxyStatus S2AProxy::GetClientStart() {
     switch (local_identity.GetIdentityType()) {
       case IdentityType::SPIFFE_ID:
         s2a_proto_Identity_set_spiffe_id(
-            identity, upb_strview_makez(local_identity.GetIdentityCString()));
+            identity,
+            upb_strview_make(local_identity.GetIdentityCString(),
+                             local_identity.GetIdentityString().size()));
         break;
       case IdentityType::HOSTNAME:
         s2a_proto_Identity_set_hostname(
-            identity, upb_strview_makez(local_identity.GetIdentityCString()));
+            identity,
+            upb_strview_make(local_identity.GetIdentityCString(),
+                             local_identity.GetIdentityString().size()));
         break;
       case IdentityType::UID:
         s2a_proto_Identity_set_uid(
-            identity, upb_strview_makez(local_identity.GetIdentityCString()));
+            identity,
+            upb_strview_make(local_identity.GetIdentityCString(),
+                             local_identity.GetIdentityString().size()));
         break;
       default:
         std::string error = "Unsupported identity format.";
@@ -493,7 +506,8 @@ ProxyStatus S2AProxy::GetClientStart() {
 
   // Set the target name to the hostname of the server.
   s2a_proto_ClientSessionStartReq_set_target_name(
-      client_start, upb_strview_makez(target_hostname_.c_str()));
+      client_start,
+      upb_strview_make(target_hostname_.data(), target_hostname_.size()));
 
   // Attach tokens per local identity, if a token manager exists.
   PopulateTokenCache();
@@ -501,26 +515,33 @@ ProxyStatus S2AProxy::GetClientStart() {
     s2a_proto_AuthenticationMechanism* auth_mechanism =
         s2a_proto_SessionReq_add_auth_mechanisms(request, arena.ptr());
     s2a_proto_AuthenticationMechanism_set_token(
-        auth_mechanism, upb_strview_makez(pair.second.c_str()));
+        auth_mechanism,
+        upb_strview_make(pair.second.data(), pair.second.size()));
     s2a_proto_Identity* identity = nullptr;
     switch (pair.first.GetIdentityType()) {
       case s2a_options::S2AOptions::IdentityType::SPIFFE_ID:
         identity = s2a_proto_AuthenticationMechanism_mutable_identity(
             auth_mechanism, arena.ptr());
         s2a_proto_Identity_set_spiffe_id(
-            identity, upb_strview_makez(pair.first.GetIdentityCString()));
+            identity,
+            upb_strview_make(pair.first.GetIdentityCString(),
+                             pair.first.GetIdentityString().size()));
         break;
       case s2a_options::S2AOptions::IdentityType::HOSTNAME:
         identity = s2a_proto_AuthenticationMechanism_mutable_identity(
             auth_mechanism, arena.ptr());
         s2a_proto_Identity_set_hostname(
-            identity, upb_strview_makez(pair.first.GetIdentityCString()));
+            identity,
+            upb_strview_make(pair.first.GetIdentityCString(),
+                             pair.first.GetIdentityString().size()));
         break;
       case s2a_options::S2AOptions::IdentityType::UID:
         identity = s2a_proto_AuthenticationMechanism_mutable_identity(
             auth_mechanism, arena.ptr());
         s2a_proto_Identity_set_uid(
-            identity, upb_strview_makez(pair.first.GetIdentityCString()));
+            identity,
+            upb_strview_make(pair.first.GetIdentityCString(),
+                             pair.first.GetIdentityString().size()));
         break;
       default:
         logger_(
@@ -556,7 +577,8 @@ ProxyStatus S2AProxy::GetServerStart(std::unique_ptr<Buffer> bytes_from_peer) {
 
   // Set the application protocol.
   s2a_proto_ServerSessionStartReq_add_application_protocols(
-      server_start, upb_strview_makez(application_protocol_.c_str()),
+      server_start, upb_strview_make(application_protocol_.data(),
+                                     application_protocol_.size()),
       arena.ptr());
 
   // Set the min and max TLS versions.
@@ -621,15 +643,21 @@ ProxyStatus S2AProxy::GetServerStart(std::unique_ptr<Buffer> bytes_from_peer) {
     switch (local_identity.GetIdentityType()) {
       case IdentityType::SPIFFE_ID:
         s2a_proto_Identity_set_spiffe_id(
-            identity, upb_strview_makez(local_identity.GetIdentityCString()));
+            identity,
+            upb_strview_make(local_identity.GetIdentityCString(),
+                             local_identity.GetIdentityString().size()));
         break;
       case IdentityType::HOSTNAME:
         s2a_proto_Identity_set_hostname(
-            identity, upb_strview_makez(local_identity.GetIdentityCString()));
+            identity,
+            upb_strview_make(local_identity.GetIdentityCString(),
+                             local_identity.GetIdentityString().size()));
         break;
       case IdentityType::UID:
         s2a_proto_Identity_set_uid(
-            identity, upb_strview_makez(local_identity.GetIdentityCString()));
+            identity,
+            upb_strview_make(local_identity.GetIdentityCString(),
+                             local_identity.GetIdentityString().size()));
         break;
       default:
         std::string error = "Unsupported identity format.";
@@ -652,26 +680,33 @@ ProxyStatus S2AProxy::GetServerStart(std::unique_ptr<Buffer> bytes_from_peer) {
     s2a_proto_AuthenticationMechanism* auth_mechanism =
         s2a_proto_SessionReq_add_auth_mechanisms(request, arena.ptr());
     s2a_proto_AuthenticationMechanism_set_token(
-        auth_mechanism, upb_strview_makez(pair.second.c_str()));
+        auth_mechanism,
+        upb_strview_make(pair.second.data(), pair.second.size()));
     s2a_proto_Identity* identity = nullptr;
     switch (pair.first.GetIdentityType()) {
       case s2a_options::S2AOptions::IdentityType::SPIFFE_ID:
         identity = s2a_proto_AuthenticationMechanism_mutable_identity(
             auth_mechanism, arena.ptr());
         s2a_proto_Identity_set_spiffe_id(
-            identity, upb_strview_makez(pair.first.GetIdentityCString()));
+            identity,
+            upb_strview_make(pair.first.GetIdentityCString(),
+                             pair.first.GetIdentityString().size()));
         break;
       case s2a_options::S2AOptions::IdentityType::HOSTNAME:
         identity = s2a_proto_AuthenticationMechanism_mutable_identity(
             auth_mechanism, arena.ptr());
         s2a_proto_Identity_set_hostname(
-            identity, upb_strview_makez(pair.first.GetIdentityCString()));
+            identity,
+            upb_strview_make(pair.first.GetIdentityCString(),
+                             pair.first.GetIdentityString().size()));
         break;
       case s2a_options::S2AOptions::IdentityType::UID:
         identity = s2a_proto_AuthenticationMechanism_mutable_identity(
             auth_mechanism, arena.ptr());
         s2a_proto_Identity_set_uid(
-            identity, upb_strview_makez(pair.first.GetIdentityCString()));
+            identity,
+            upb_strview_make(pair.first.GetIdentityCString(),
+                             pair.first.GetIdentityString().size()));
         break;
       default:
         logger_(
@@ -721,26 +756,33 @@ ProxyStatus S2AProxy::GetNext(std::unique_ptr<Buffer> bytes_from_peer) {
     s2a_proto_AuthenticationMechanism* auth_mechanism =
         s2a_proto_SessionReq_add_auth_mechanisms(request, arena.ptr());
     s2a_proto_AuthenticationMechanism_set_token(
-        auth_mechanism, upb_strview_makez(pair.second.c_str()));
+        auth_mechanism,
+        upb_strview_make(pair.second.data(), pair.second.size()));
     s2a_proto_Identity* identity = nullptr;
     switch (pair.first.GetIdentityType()) {
       case s2a_options::S2AOptions::IdentityType::SPIFFE_ID:
         identity = s2a_proto_AuthenticationMechanism_mutable_identity(
             auth_mechanism, arena.ptr());
         s2a_proto_Identity_set_spiffe_id(
-            identity, upb_strview_makez(pair.first.GetIdentityCString()));
+            identity,
+            upb_strview_make(pair.first.GetIdentityCString(),
+                             pair.first.GetIdentityString().size()));
         break;
       case s2a_options::S2AOptions::IdentityType::HOSTNAME:
         identity = s2a_proto_AuthenticationMechanism_mutable_identity(
             auth_mechanism, arena.ptr());
         s2a_proto_Identity_set_hostname(
-            identity, upb_strview_makez(pair.first.GetIdentityCString()));
+            identity,
+            upb_strview_make(pair.first.GetIdentityCString(),
+                             pair.first.GetIdentityString().size()));
         break;
       case s2a_options::S2AOptions::IdentityType::UID:
         identity = s2a_proto_AuthenticationMechanism_mutable_identity(
             auth_mechanism, arena.ptr());
         s2a_proto_Identity_set_uid(
-            identity, upb_strview_makez(pair.first.GetIdentityCString()));
+            identity,
+            upb_strview_make(pair.first.GetIdentityCString(),
+                             pair.first.GetIdentityString().size()));
         break;
       default:
         logger_(
-- 
2.43.0


From 9514d28cbbabadcfd3f1301982d4136d263e6bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 16:05:24 +0000
Subject: [PATCH 18/19] fix: keep zero bytes in identities sent with tickets

---
 src/record_protocol/s2a_upb_ticket_sender.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/record_protocol/s2a_upb_ticket_sender.cc b/src/record_protocol/s2a_upb_ticket_sender.cc
index c7c5ee7..9b40e2f 100644
--- a/src/record_protocol/s2a_upb_ticket_sender.cc
+++ b/src/record_protocol/s2a_upb_ticket_sender.cc
@@ -56,15 +56,21 @@ bool PrepareResumptionTicketReq(
   switch (local_identity.GetIdentityType()) {
     case s2a_options::S2AOptions::IdentityType::SPIFFE_ID:
       s2a_proto_Identity_set_spiffe_id(
-          identity, upb_strview_makez(local_identity.GetIdentityCString()));
+          identity,
+          upb_strview_make(local_identity.GetIdentityCString(),
+                           local_identity.GetIdentityString().size()));
       break;
     case s2a_options::S2AOptions::IdentityType::HOSTNAME:
       s2a_proto_Identity_set_hostname(
-          identity, upb_strview_makez(local_identity.GetIdentityCString()));
+          identity,
+          upb_strview_make(local_identity.GetIdentityCString(),
+                           local_identity.GetIdentityString().size()));
       break;
     case s2a_options::S2AOptions::IdentityType::UID:
       s2a_proto_Identity_set_uid(
-          identity, upb_strview_makez(local_identity.GetIdentityCString()));
+          identity,
+          upb_strview_make(local_identity.GetIdentityCString(),
+                           local_identity.GetIdentityString().size()));
       break;
     default:
       return false;
-- 
2.43.0


From 2e7d8250b5ad17a4e0fe534cdb24d4fe7cab0088 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 18:01:01 +0000
Subject: [PATCH 19/19] fix: refuse a key when no cipher context can be
 allocated

EVP_CIPHER_CTX_new returns nullptr when it runs out of memory; the context was
handed to EVP_DecryptInit_ex without a check, which dereferences it.
---
 src/crypto/aes_gcm_crypter.cc             | 3 ++-
 src/crypto/chacha_poly_crypter_openssl.cc | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/crypto/aes_gcm_crypter.cc b/src/crypto/aes_gcm_crypter.cc
index 1cca7f8..ee7535c 100644
--- a/src/crypto/aes_gcm_crypter.cc
+++ b/src/crypto/aes_gcm_crypter.cc
@@ -431,7 +431,8 @@ absl::variant<Status, std::unique_ptr<S2AAeadCrypter>> CreateAesGcmAeadCrypter(
   // Create and initialize the cipher context.
   std::unique_ptr<EVP_CIPHER_CTX, void (*)(EVP_CIPHER_CTX*)> ctx(
       EVP_CIPHER_CTX_new(), EVP_CIPHER_CTX_free);
-  if (!EVP_DecryptInit_ex(ctx.get(), cipher, /*impl=*/nullptr, key.data(),
+  if (ctx == nullptr ||
+      !EVP_DecryptInit_ex(ctx.get(), cipher, /*impl=*/nullptr, key.data(),
                           /*iv=*/nullptr) ||
       !EVP_CIPHER_CTX_ctrl(ctx.get(), EVP_CTRL_GCM_SET_IVLEN,
                            static_cast<int>(kAesGcmNonceSize),
diff --git a/src/crypto/chacha_poly_crypter_openssl.cc b/src/crypto/chacha_poly_crypter_openssl.cc
index aef5eef..31571a6 100644
--- a/src/crypto/chacha_poly_crypter_openssl.cc
+++ b/src/crypto/chacha_poly_crypter_openssl.cc
@@ -435,7 +435,8 @@ CreateChachaPolyAeadCrypter(const std::vector<uint8_t>& key) {
   // Create and initialize the cipher context.
   std::unique_ptr<EVP_CIPHER_CTX, void (*)(EVP_CIPHER_CTX*)> ctx(
       EVP_CIPHER_CTX_new(), EVP_CIPHER_CTX_free);
-  if (!EVP_DecryptInit_ex(ctx.get(), cipher, /*impl=*/nullptr, key.data(),
+  if (ctx == nullptr ||
+      !EVP_DecryptInit_ex(ctx.get(), cipher, /*impl=*/nullptr, key.data(),
                           /*iv=*/nullptr) ||
       !EVP_CIPHER_CTX_ctrl(ctx.get(), EVP_CTRL_GCM_SET_IVLEN,
                            static_cast<int>(kChachaPolyNonceSize),
-- 
2.43.0

