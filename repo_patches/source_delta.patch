From 692951bed22d75d99017b792bee889af1c3d2eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:48 +0000
Subject: [PATCH 01/20] fix: fail AEAD Decrypt cleanly on a null tag piece or a
 short output buffer

A null component holding tag bytes was passed to memcpy, and the 'plaintext too
small' path returned an error with already decrypted, unauthenticated bytes left
in the caller's buffer.
---
 src/crypto/aes_gcm_crypter.cc             | 11 +++++++++++
 src/crypto/chacha_poly_crypter_openssl.cc | 10 ++++++++++
 2 files changed, 21 insertions(+)

diff --git a/src/crypto/aes_gcm_crypter.cc b/src/crypto/aes_gcm_crypter.cc
index 367df50..1cca7f8 100644
--- a/src/crypto/aes_gcm_crypter.cc
+++ b/src/crypto/aes_gcm_crypter.cc
@@ -335,6 +335,7 @@ class AesGcmS2AAeadCrypter : public S2AAeadCrypter {
         bytes_to_write = total_ciphertext_and_tag_length - kAesGcmTagSize;
       }
       if (remaining_plaintext_length < bytes_to_write) {
+        memset(plaintext.iov_base, 0x00, plaintext.iov_len);
         return CrypterStatus(
             Status(
                 StatusCode::kInvalidArgument,
@@ -384,6 +385,16 @@ class AesGcmS2AAeadCrypter : public S2AAeadCrypter {
     for (; i < ciphertext_and_tag.size(); i++) {
       ciphertext_ptr = static_cast<uint8_t*>(ciphertext_and_tag[i].iov_base);
       current_ciphertext_length = ciphertext_and_tag[i].iov_len;
+      if (current_ciphertext_length == 0) {
+        continue;
+      }
+      if (ciphertext_ptr == nullptr) {
+        memset(plaintext.iov_base, 0x00, plaintext.iov_len);
+        return CrypterStatus(
+            Status(StatusCode::kInvalidArgument,
+                   "|ciphertext_and_tag| has an invalid component."),
+            /*bytes_written=*/0);
+      }
       memcpy(tag_tmp, ciphertext_ptr, current_ciphertext_length);
       tag_tmp += current_ciphertext_length;
       total_ciphertext_and_tag_length -= current_ciphertext_length;
diff --git a/src/crypto/chacha_poly_crypter_openssl.cc b/src/crypto/chacha_poly_crypter_openssl.cc
index 5d06c20..e5873c5 100644
--- a/src/crypto/chacha_poly_crypter_openssl.cc
+++ b/src/crypto/chacha_poly_crypter_openssl.cc
@@ -342,6 +342,7 @@ class ChachaPolyS2AAeadCrypterOpenSSL : public S2AAeadCrypter {
         bytes_to_write = total_ciphertext_and_tag_length - kChachaPolyTagSize;
       }
       if (remaining_plaintext_length < bytes_to_write) {
+        memset(plaintext.iov_base, 0x00, plaintext.iov_len);
         return CrypterStatus(
             absl::InvalidArgumentError(
                 "|plaintext| is too small to hold the decrypted ciphertext."),
@@ -390,6 +391,15 @@ class ChachaPolyS2AAeadCrypterOpenSSL : public S2AAeadCrypter {
     for (; i < ciphertext_and_tag.size(); i++) {
       ciphertext_ptr = static_cast<uint8_t*>(ciphertext_and_tag[i].iov_base);
       current_ciphertext_length = ciphertext_and_tag[i].iov_len;
+      if (current_ciphertext_length == 0) {
+        continue;
+      }
+      if (ciphertext_ptr == nullptr) {
+        memset(plaintext.iov_base, 0x00, plaintext.iov_len);
+        return CrypterStatus(absl::InvalidArgumentError(
+                                 "|ciphertext_and_tag| has an invalid component."),
+                             /*bytes_written=*/0);
+      }
       memcpy(tag_tmp, ciphertext_ptr, current_ciphertext_length);
       tag_tmp += current_ciphertext_length;
       total_ciphertext_and_tag_length -= current_ciphertext_length;
-- 
2.43.0


From c78fe138ad614ea21b60beb63d4144d8ae39c9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:48 +0000
Subject: [PATCH 02/20] fix: check EVP_CIPHER_CTX_new for failure when creating
 an AEAD crypter

---
 src/crypto/aes_gcm_crypter.cc             | 3 ++-
 src/crypto/chacha_poly_crypter_openssl.cc | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/crypto/aes_gcm_crypter.cc b/src/crypto/aes_gcm_crypter.cc
index 1cca7f8..ee7535c 100644
--- a/src/crypto/aes_gcm_crypter.cc
+++ b/src/crypto/aes_gcm_crypter.cc
@@ -431,7 +431,8 @@ absl::variant<Status, std::unique_ptr<S2AAeadCrypter>> CreateAesGcmAeadCrypter(
   // Create and initialize the cipher context.
   std::unique_ptr<EVP_CIPHER_CTX, void (*)(EVP_CIPHER_CTX*)> ctx(
       EVP_CIPHER_CTX_new(), EVP_CIPHER_CTX_free);
-  if (!EVP_DecryptInit_ex(ctx.get(), cipher, /*impl=*/nullptr, key.data(),
+  if (ctx == nullptr ||
+      !EVP_DecryptInit_ex(ctx.get(), cipher, /*impl=*/nullptr, key.data(),
                           /*iv=*/nullptr) ||
       !EVP_CIPHER_CTX_ctrl(ctx.get(), EVP_CTRL_GCM_SET_IVLEN,
                            static_cast<int>(kAesGcmNonceSize),
diff --git a/src/crypto/chacha_poly_crypter_openssl.cc b/src/crypto/chacha_poly_crypter_openssl.cc
index e5873c5..0ff3760 100644
--- a/src/crypto/chacha_poly_crypter_openssl.cc
+++ b/src/crypto/chacha_poly_crypter_openssl.cc
@@ -434,7 +434,8 @@ CreateChachaPolyAeadCrypter(const std::vector<uint8_t>& key) {
   // Create and initialize the cipher context.
   std::unique_ptr<EVP_CIPHER_CTX, void (*)(EVP_CIPHER_CTX*)> ctx(
       EVP_CIPHER_CTX_new(), EVP_CIPHER_CTX_free);
-  if (!EVP_DecryptInit_ex(ctx.get(), cipher, /*impl=*/nullptr, key.data(),
+  if (ctx == nullptr ||
+      !EVP_DecryptInit_ex(ctx.get(), cipher, /*impl=*/nullptr, key.data(),
                           /*iv=*/nullptr) ||
       !EVP_CIPHER_CTX_ctrl(ctx.get(), EVP_CTRL_GCM_SET_IVLEN,
                            static_cast<int>(kChachaPolyNonceSize),
-- 
2.43.0


From 84eef5ab14a64449a9be874053c4a931e5757763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:26 +0000
Subject: [PATCH 03/20] fix: treat a handshake message with an empty body as
 complete

A zero length in the header left the four header bytes in the fragment list, so
the next message was parsed as part of this one (and its length computed with a
negative shift).
---
 src/record_protocol/handshake_message_handler.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/record_protocol/handshake_message_handler.cc b/src/record_protocol/handshake_message_handler.cc
index f128d56..2a2792b 100644
--- a/src/record_protocol/handshake_message_handler.cc
+++ b/src/record_protocol/handshake_message_handler.cc
@@ -81,6 +81,9 @@ HandshakeMessageHandler::ProcessHandshakeMessage(const uint8_t* plaintext,
           num_data_bytes_expecting_to_read_ = GetMessageDataSizeFromHeader();
           if (num_data_bytes_expecting_to_read_ > 0) {
             state_ = State::READ_DATA;
+          } else {
+            /* The message has an empty body, so it is already complete. */
+            full_hs_message_read = true;
           }
         } else {
           /* Read incomplete message header. Read all remaining bytes. */
-- 
2.43.0


From 98447ee2a972d24e3f0a5888840c7b9c9ef6c25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:26 +0000
Subject: [PATCH 04/20] fix: update the inbound key once per KeyUpdate, not
 once per fragment

The key was advanced for every record that held a piece of a KeyUpdate message,
so a KeyUpdate split over two records broke the connection.
---
 src/record_protocol/s2a_crypter.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/record_protocol/s2a_crypter.cc b/src/record_protocol/s2a_crypter.cc
index bd35e14..820a6ea 100644
--- a/src/record_protocol/s2a_crypter.cc
+++ b/src/record_protocol/s2a_crypter.cc
@@ -495,9 +495,10 @@ absl::Status S2ACrypter::HandleProcessHandshakeMessageResult(
       hs_message_handling_state_->expecting_to_read_more_bytes =
           result.expecting_to_read_more_bytes;
 
-      // Update the inbound key if handshake message contained a key update
-      // message.
-      if (result.contains_key_update) {
+      // Update the inbound key if handshake message completed a key update
+      // message. A key update is always the last message in a record, so it is
+      // complete iff no more bytes are expected.
+      if (result.contains_key_update && !result.expecting_to_read_more_bytes) {
         // TODO(matthewstevenson88): If |result.key_update_type == 0x01|, then
         // the peer is expecting a key update to be sent from us. See
         // https://tools.ietf.org/html/rfc8446#section-4.6.3.
-- 
2.43.0


From 84b70fa5d9dceb59581a57be6a3c14b320246726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:26 +0000
Subject: [PATCH 05/20] fix: keep tickets and reassembly state when a partial
 message follows the limit

When the record that completed the fifth ticket also held the start of another
message, retrieving the tickets failed (they were lost), and the crypter forgot
that it was in the middle of a handshake message.
---
 src/record_protocol/s2a_crypter.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/record_protocol/s2a_crypter.cc b/src/record_protocol/s2a_crypter.cc
index 820a6ea..a40d506 100644
--- a/src/record_protocol/s2a_crypter.cc
+++ b/src/record_protocol/s2a_crypter.cc
@@ -518,11 +518,11 @@ absl::Status S2ACrypter::HandleProcessHandshakeMessageResult(
           ABSL_FALLTHROUGH_INTENDED;
         case TicketHandlingPhase::RECEIVING:
           // If the limit of number of tickets to process is reached, send all
-          // stored tickets to the S2A.
-          if (result.contains_ticket &&
+          // stored tickets to the S2A. If the record ended with an incomplete
+          // message, wait until that message has been read.
+          if (!result.expecting_to_read_more_bytes &&
               result.num_full_tickets_stored >= kMaxNumTicketsToProcess) {
             RetrieveStoredTicketsAndSendToS2A();
-            hs_message_handling_state_->expecting_to_read_more_bytes = false;
             hs_message_handling_state_->phase = TicketHandlingPhase::DONE;
             return absl::Status();
           }
-- 
2.43.0


From 7587cede81e24c87bf9866ce97bf8c22945a9714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:26 +0000
Subject: [PATCH 06/20] fix: take the lock in S2AHalfConnection::TagLength

Protect reads the inbound tag length while Unprotect may be replacing the
inbound AEAD crypter because of a KeyUpdate.
---
 src/record_protocol/s2a_half_connection.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/record_protocol/s2a_half_connection.cc b/src/record_protocol/s2a_half_connection.cc
index 167600e..9845906 100644
--- a/src/record_protocol/s2a_half_connection.cc
+++ b/src/record_protocol/s2a_half_connection.cc
@@ -253,7 +253,10 @@ Status S2AHalfConnection::UpdateKey() {
   return Status();
 }
 
-size_t S2AHalfConnection::TagLength() { return aead_crypter_->TagLength(); }
+size_t S2AHalfConnection::TagLength() {
+  absl::MutexLock lock(&mu_);
+  return aead_crypter_->TagLength();
+}
 
 S2AHalfConnection::S2AHalfConnection(
     Ciphersuite ciphersuite, size_t key_size, uint64_t sequence,
-- 
2.43.0


From b3700ee01c92a55e64a4321fcaa07e7c299d47fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:05 +0000
Subject: [PATCH 07/20] fix: do not destroy the output buffer twice when
 Protect fails

Protect(unprotected_bytes, protected_bytes) destroyed the buffer it was given on
failure, and its caller then destroyed it again (or still owned it).
---
 src/frame_protector/s2a_frame_protector.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/frame_protector/s2a_frame_protector.cc b/src/frame_protector/s2a_frame_protector.cc
index d231dce..2df90a0 100644
--- a/src/frame_protector/s2a_frame_protector.cc
+++ b/src/frame_protector/s2a_frame_protector.cc
@@ -286,8 +286,8 @@ Status S2AFrameProtector::Protect(const std::vector<Iovec>& unprotected_bytes,
 
     // Protect the bytes in |bytes_to_protect| and write them to
     // |protected_bytes|. If a failure occurs or an unexpected number of bytes
-    // are written, then free the |protected_bytes| buffer and return an error
-    // status.
+    // are written, then return an error status; |protected_bytes| is owned, and
+    // must be freed, by the caller.
     S2ACrypterStatus status =
         crypter_->Protect(RecordType::APPLICATION_DATA, bytes_to_protect,
                           {static_cast<uint8_t*>(protected_bytes.iov_base) +
@@ -297,7 +297,6 @@ Status S2AFrameProtector::Protect(const std::vector<Iovec>& unprotected_bytes,
       std::string error =
           absl::StrCat("Failed to protect: ", status.GetErrorMessage());
       logger_(error);
-      destroy_(protected_bytes);
       return Status(ConvertStatusCode(status.GetCode()),
                     status.GetErrorMessage());
     }
@@ -305,7 +304,6 @@ Status S2AFrameProtector::Protect(const std::vector<Iovec>& unprotected_bytes,
         number_bytes_to_protect + crypter_->RecordOverhead()) {
       std::string error = "Protected an unexpected number of bytes.";
       logger_(error);
-      destroy_(protected_bytes);
       return Status(StatusCode::kInternal, error);
     }
 
-- 
2.43.0


From 63a0c94655672dcfa2b64b0cfa348743bc188844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:05 +0000
Subject: [PATCH 08/20] fix: destroy decrypted buffers when Unprotect fails on
 a later record

A malformed or incomplete record after a good one leaked the buffers already
obtained from the allocator.
---
 src/frame_protector/s2a_frame_protector.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/frame_protector/s2a_frame_protector.cc b/src/frame_protector/s2a_frame_protector.cc
index 2df90a0..3dcafa3 100644
--- a/src/frame_protector/s2a_frame_protector.cc
+++ b/src/frame_protector/s2a_frame_protector.cc
@@ -405,6 +405,9 @@ Result S2AFrameProtector::Unprotect(const std::vector<Iovec>& protected_bytes) {
       case 0:
         logger_(absl::StrCat("Failed to compute TLS record size: ",
                              absl::get<0>(record_size_status).message()));
+        for (auto& vec : plaintext) {
+          destroy_(vec);
+        }
         return {absl::get<0>(record_size_status), /*bytes=*/{}};
       case 1:
         break;
@@ -429,6 +432,9 @@ Result S2AFrameProtector::Unprotect(const std::vector<Iovec>& protected_bytes) {
       case 0:
         logger_(absl::StrCat("Failed to isolate TLS payload: ",
                              absl::get<0>(isolate_status).message()));
+        for (auto& vec : plaintext) {
+          destroy_(vec);
+        }
         return {absl::get<0>(isolate_status), /*bytes=*/{}};
       case 1:
         break;
-- 
2.43.0


From aaf39d6c8938a3385b15787facb8a2bd9a397dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:05 +0000
Subject: [PATCH 09/20] fix: report a short trailing partial record in
 Unprotect

Trailing bytes fewer than the record overhead were dropped silently, although a
partial record is documented to be an error.
---
 src/frame_protector/s2a_frame_protector.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/frame_protector/s2a_frame_protector.cc b/src/frame_protector/s2a_frame_protector.cc
index 3dcafa3..a312543 100644
--- a/src/frame_protector/s2a_frame_protector.cc
+++ b/src/frame_protector/s2a_frame_protector.cc
@@ -467,6 +467,14 @@ Result S2AFrameProtector::Unprotect(const std::vector<Iovec>& protected_bytes) {
     plaintext.push_back(unprotected_bytes);
     bytes_remaining -= kTls13RecordHeaderLength + payload_size;
   }
+  if (bytes_remaining > 0) {
+    std::string error = "|protected_bytes| ends with a partial TLS record.";
+    logger_(error);
+    for (auto& vec : plaintext) {
+      destroy_(vec);
+    }
+    return {Status(StatusCode::kFailedPrecondition, error), /*bytes=*/{}};
+  }
   return {Status(), plaintext};
 }
 
-- 
2.43.0


From 68634cde59b9bf41acb344ecd3c2d280c294f8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:05 +0000
Subject: [PATCH 10/20] fix: skip empty buffers when parsing TLS records in
 Unprotect

A zero-length buffer in |protected_bytes| was read out of bounds for a header
byte.
---
 src/frame_protector/s2a_frame_protector.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/frame_protector/s2a_frame_protector.cc b/src/frame_protector/s2a_frame_protector.cc
index a312543..6bbc58a 100644
--- a/src/frame_protector/s2a_frame_protector.cc
+++ b/src/frame_protector/s2a_frame_protector.cc
@@ -101,6 +101,10 @@ absl::variant<Status, ComputeTlsRecordSizeResult> ComputeTlsRecordSize(
       return Status(StatusCode::kFailedPrecondition,
                     "|vecs| is too small to hold TLS record header.");
     }
+    if (vecs[iovec_index].iov_len == 0) {
+      iovec_index += 1;
+      continue;
+    }
     ABSL_ASSERT(vecs[iovec_index].iov_base != nullptr);
     uint8_t* buffer = static_cast<uint8_t*>(vecs[iovec_index].iov_base);
     size_t buffer_length = vecs[iovec_index].iov_len;
@@ -166,6 +170,10 @@ absl::variant<Status, IsolateTlsPayloadResult> IsolateTlsPayload(
       return Status(StatusCode::kFailedPrecondition,
                     "|vecs| is too small to hold TLS record.");
     }
+    if (vecs[iovec_index].iov_len == 0) {
+      iovec_index += 1;
+      continue;
+    }
     ABSL_ASSERT(vecs[iovec_index].iov_base != nullptr);
     uint8_t* buffer = static_cast<uint8_t*>(vecs[iovec_index].iov_base);
     size_t bytes_remaining_on_iovec =
-- 
2.43.0


From 4db8fbbdd0665aaf1ae3c9e972c27260afbd96f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:05 +0000
Subject: [PATCH 11/20] fix: reject bytes after the record in the single-record
 Unprotect

It is documented to fail when |protected_bytes| holds more than one TLS record,
but decrypted the first and silently dropped the rest.
---
 src/frame_protector/s2a_frame_protector.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/frame_protector/s2a_frame_protector.cc b/src/frame_protector/s2a_frame_protector.cc
index 6bbc58a..d944dc4 100644
--- a/src/frame_protector/s2a_frame_protector.cc
+++ b/src/frame_protector/s2a_frame_protector.cc
@@ -368,6 +368,13 @@ Status S2AFrameProtector::Unprotect(
       ABSL_ASSERT(0);
   }
 
+  if (GetTotalIovecLength(protected_bytes) != record_size_result.record_size) {
+    unprotected_bytes.iov_len = 0;
+    std::string error = "|protected_bytes| holds more than one TLS record.";
+    logger_(error);
+    return Status(StatusCode::kFailedPrecondition, error);
+  }
+
   S2ACrypterStatus status = crypter_->Unprotect(
       {header, kTls13RecordHeaderLength}, absl::get<1>(isolate_status).payload,
       unprotected_bytes);
-- 
2.43.0


From 9be38e32efbfaff2a05c9833b92d4be2cb4bea1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:47 +0000
Subject: [PATCH 12/20] fix: finish the handshake only once the whole session
 result is valid

A malformed SessionResult was reported as an error, but the proxy was already
marked finished with missing or incomplete session state, which
CreateFrameProtector and GetS2AContext then used.
---
 src/handshaker/s2a_proxy.cc | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/handshaker/s2a_proxy.cc b/src/handshaker/s2a_proxy.cc
index 7418acc..6fc97f4 100644
--- a/src/handshaker/s2a_proxy.cc
+++ b/src/handshaker/s2a_proxy.cc
@@ -252,7 +252,6 @@ ProxyStatus S2AProxy::GetBytesForPeer(std::unique_ptr<Buffer> bytes_from_s2a) {
   }
 
   if (s2a_proto_SessionResp_has_result(response)) {
-    is_handshake_finished_ = true;
     const s2a_proto_SessionResult* result =
         s2a_proto_SessionResp_result(response);
     if (result == nullptr || !s2a_proto_SessionResult_has_state(result)) {
@@ -262,7 +261,7 @@ ProxyStatus S2AProxy::GetBytesForPeer(std::unique_ptr<Buffer> bytes_from_s2a) {
               /*buffer=*/nullptr};
     }
     const s2a_proto_SessionState* state = s2a_proto_SessionResult_state(result);
-    result_ = absl::make_unique<S2AHandshakeResult>();
+    auto handshake_result = absl::make_unique<S2AHandshakeResult>();
 
     // Parse and set the TLS version.
     absl::variant<Status, TlsVersion> tls_version_status =
@@ -281,7 +280,7 @@ ProxyStatus S2AProxy::GetBytesForPeer(std::unique_ptr<Buffer> bytes_from_s2a) {
       default:  // Unexpected variant case.
         ABSL_ASSERT(0);
     }
-    result_->tls_version = absl::get<1>(tls_version_status);
+    handshake_result->tls_version = absl::get<1>(tls_version_status);
 
     // Parse and set the ciphersuite.
     absl::variant<Status, Ciphersuite> ciphersuite_status =
@@ -300,24 +299,26 @@ ProxyStatus S2AProxy::GetBytesForPeer(std::unique_ptr<Buffer> bytes_from_s2a) {
       default:  // Unexpected variant case.
         ABSL_ASSERT(0);
     }
-    result_->ciphersuite = absl::get<1>(ciphersuite_status);
+    handshake_result->ciphersuite = absl::get<1>(ciphersuite_status);
 
     upb_strview in_traffic_secret = s2a_proto_SessionState_in_key(state);
-    result_->in_traffic_secret = std::vector<uint8_t>(in_traffic_secret.size);
-    memcpy(result_->in_traffic_secret.data(), in_traffic_secret.data,
+    handshake_result->in_traffic_secret =
+        std::vector<uint8_t>(in_traffic_secret.size);
+    memcpy(handshake_result->in_traffic_secret.data(), in_traffic_secret.data,
            in_traffic_secret.size);
 
     upb_strview out_traffic_secret = s2a_proto_SessionState_out_key(state);
-    result_->out_traffic_secret = std::vector<uint8_t>(out_traffic_secret.size);
-    memcpy(result_->out_traffic_secret.data(), out_traffic_secret.data,
+    handshake_result->out_traffic_secret =
+        std::vector<uint8_t>(out_traffic_secret.size);
+    memcpy(handshake_result->out_traffic_secret.data(), out_traffic_secret.data,
            out_traffic_secret.size);
 
     // |out_sequence| may be nonzero on server-side because, right after the
     // handshake is complete, one or more TLS records containing session tickets
     // may have been generated. This will increment |out_sequence| by the number
     // of TLS records generated.
-    result_->in_sequence = s2a_proto_SessionState_in_sequence(state);
-    result_->out_sequence = s2a_proto_SessionState_out_sequence(state);
+    handshake_result->in_sequence = s2a_proto_SessionState_in_sequence(state);
+    handshake_result->out_sequence = s2a_proto_SessionState_out_sequence(state);
 
     // TODO(matthewstevenson88): Enforce that peer identity is set.
     // TODO(matthewstevenson88) Check that peer identity appears in the list of
@@ -336,9 +337,10 @@ ProxyStatus S2AProxy::GetBytesForPeer(std::unique_ptr<Buffer> bytes_from_s2a) {
       return {Status(StatusCode::kInternal, error),
               /*bytes_consumed=*/0, /*buffer=*/nullptr};
     }
-    result_->local_identity =
+    handshake_result->local_identity =
         s2a_util::ConvertFromProtoToIdentity(local_identity);
-    result_->connection_id = s2a_proto_SessionState_connection_id(state);
+    handshake_result->connection_id =
+        s2a_proto_SessionState_connection_id(state);
 
     // Create the |S2AContext|.
     context_ = absl::make_unique<S2AContext>(
@@ -352,6 +354,8 @@ ProxyStatus S2AProxy::GetBytesForPeer(std::unique_ptr<Buffer> bytes_from_s2a) {
         s2a_util::ParseUpbStrview(
             s2a_proto_SessionResult_local_cert_fingerprint(result)),
         s2a_proto_SessionState_is_handshake_resumed(state));
+    result_ = std::move(handshake_result);
+    is_handshake_finished_ = true;
   }
 
   // Retrieve the |out_frames| to send to the peer.
-- 
2.43.0


From 44019f6f86f89c11e02efbab8f06f7036c8efd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:47 +0000
Subject: [PATCH 13/20] fix: serialize identities and certificate fingerprints
 with their full length

The values may hold zero bytes (fingerprints are raw bytes); they were cut at the
first one.
---
 src/handshaker/s2a_context.cc |  9 ++++++---
 src/handshaker/s2a_util.cc    | 12 +++++++++---
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/handshaker/s2a_context.cc b/src/handshaker/s2a_context.cc
index 2ba1532..6038028 100644
--- a/src/handshaker/s2a_context.cc
+++ b/src/handshaker/s2a_context.cc
@@ -75,7 +75,8 @@ S2AContext::GetSerializedContext() const {
   upb::Arena arena;
   s2a_proto_S2AContext* context = s2a_proto_S2AContext_new(arena.ptr());
   s2a_proto_S2AContext_set_application_protocol(
-      context, upb_strview_makez(application_protocol_.c_str()));
+      context, upb_strview_make(application_protocol_.data(),
+                                application_protocol_.size()));
 
   // Set the TLS version.
   absl::variant<Status, s2a_proto_TLSVersion> tls_version_status =
@@ -135,9 +136,11 @@ S2AContext::GetSerializedContext() const {
 
   // Set the peer and local cert fingerprints.
   s2a_proto_S2AContext_set_peer_cert_fingerprint(
-      context, upb_strview_makez(peer_cert_fingerprint_.c_str()));
+      context, upb_strview_make(peer_cert_fingerprint_.data(),
+                                peer_cert_fingerprint_.size()));
   s2a_proto_S2AContext_set_local_cert_fingerprint(
-      context, upb_strview_makez(local_cert_fingerprint_.c_str()));
+      context, upb_strview_make(local_cert_fingerprint_.data(),
+                                local_cert_fingerprint_.size()));
 
   // Set the "is handshake resumed" flag.
   s2a_proto_S2AContext_set_is_handshake_resumed(context, is_handshake_resumed_);
diff --git a/src/handshaker/s2a_util.cc b/src/handshaker/s2a_util.cc
index d1daa84..955c08a 100644
--- a/src/handshaker/s2a_util.cc
+++ b/src/handshaker/s2a_util.cc
@@ -66,17 +66,23 @@ absl::variant<Status, s2a_proto_Identity*> ConvertIdentityToProto(
     case IdentityType::SPIFFE_ID:
       proto_identity = s2a_proto_Identity_new(arena);
       s2a_proto_Identity_set_spiffe_id(
-          proto_identity, upb_strview_makez(identity.GetIdentityCString()));
+          proto_identity,
+          upb_strview_make(identity.GetIdentityCString(),
+                           identity.GetIdentityString().size()));
       return proto_identity;
     case IdentityType::HOSTNAME:
       proto_identity = s2a_proto_Identity_new(arena);
       s2a_proto_Identity_set_hostname(
-          proto_identity, upb_strview_makez(identity.GetIdentityCString()));
+          proto_identity,
+          upb_strview_make(identity.GetIdentityCString(),
+                           identity.GetIdentityString().size()));
       return proto_identity;
     case IdentityType::UID:
       proto_identity = s2a_proto_Identity_new(arena);
       s2a_proto_Identity_set_uid(
-          proto_identity, upb_strview_makez(identity.GetIdentityCString()));
+          proto_identity,
+          upb_strview_make(identity.GetIdentityCString(),
+                           identity.GetIdentityString().size()));
       return proto_identity;
     default:
       return nullptr;
-- 
2.43.0


From 40653beefc94c6dd14387d918d23b18f6f73de19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:47 +0000
Subject: [PATCH 14/20] fix: send strings of any content to the S2A with their
 full length

---
 src/handshaker/s2a_proxy.cc | 83 ++++++++++++++++++++++++++-----------
 1 file changed, 59 insertions(+), 24 deletions(-)

diff --git a/src/handshaker/s2a_proxy.cc b/src/handshaker/s2a_proxy.cc
index 6fc97f4..575d786 100644
--- a/src/handshaker/s2a_proxy.cc
+++ b/src/handshaker/s2a_proxy.cc
@@ -374,7 +374,9 @@ ProxyStatus S2AProxy::GetClientStart() {
 
   // Set the application protocol.
   s2a_proto_ClientSessionStartReq_add_application_protocols(
-      client_start, upb_strview_makez(application_protocol_.c_str()),
+      client_start,
+      upb_strview_make(application_protocol_.data(),
+                       application_protocol_.size()),
       arena.ptr());
 
   // Set the min and max TLS versions.
@@ -438,15 +440,21 @@ ProxyStatus S2AProxy::GetClientStart() {
     switch (target_identity.GetIdentityType()) {
       case IdentityType::SPIFFE_ID:
         s2a_proto_Identity_set_spiffe_id(
-            identity, upb_strview_makez(target_identity.GetIdentityCString()));
+            identity,
+            upb_strview_make(target_identity.GetIdentityCString(),
+                             target_identity.GetIdentityString().size()));
         break;
       case IdentityType::HOSTNAME:
         s2a_proto_Identity_set_hostname(
-            identity, upb_strview_makez(target_identity.GetIdentityCString()));
+            identity,
+            upb_strview_make(target_identity.GetIdentityCString(),
+                             target_identity.GetIdentityString().size()));
         break;
       case IdentityType::UID:
         s2a_proto_Identity_set_uid(
-            identity, upb_strview_makez(target_identity.GetIdentityCString()));
+            identity,
+            upb_strview_make(target_identity.GetIdentityCString(),
+                             target_identity.GetIdentityString().size()));
         break;
       default:
         std::string error = "Unsupported identity format.";
@@ -473,15 +481,21 @@ ProxyStatus S2AProxy::GetClientStart() {
     switch (local_identity.GetIdentityType()) {
       case IdentityType::SPIFFE_ID:
         s2a_proto_Identity_set_spiffe_id(
-            identity, upb_strview_makez(local_identity.GetIdentityCString()));
+            identity,
+            upb_strview_make(local_identity.GetIdentityCString(),
+                             local_identity.GetIdentityString().size()));
         break;
       case IdentityType::HOSTNAME:
         s2a_proto_Identity_set_hostname(
-            identity, upb_strview_makez(local_identity.GetIdentityCString()));
+            identity,
+            upb_strview_make(local_identity.GetIdentityCString(),
+                             local_identity.GetIdentityString().size()));
         break;
       case IdentityType::UID:
         s2a_proto_Identity_set_uid(
-            identity, upb_strview_makez(local_identity.GetIdentityCString()));
+            identity,
+            upb_strview_make(local_identity.GetIdentityCString(),
+                             local_identity.GetIdentityString().size()));
         break;
       default:
         std::string error = "Unsupported identity format.";
@@ -493,7 +507,8 @@ ProxyStatus S2AProxy::GetClientStart() {
 
   // Set the target name to the hostname of the server.
   s2a_proto_ClientSessionStartReq_set_target_name(
-      client_start, upb_strview_makez(target_hostname_.c_str()));
+      client_start,
+      upb_strview_make(target_hostname_.data(), target_hostname_.size()));
 
   // Attach tokens per local identity, if a token manager exists.
   PopulateTokenCache();
@@ -501,26 +516,30 @@ ProxyStatus S2AProxy::GetClientStart() {
     s2a_proto_AuthenticationMechanism* auth_mechanism =
         s2a_proto_SessionReq_add_auth_mechanisms(request, arena.ptr());
     s2a_proto_AuthenticationMechanism_set_token(
-        auth_mechanism, upb_strview_makez(pair.second.c_str()));
+        auth_mechanism,
+        upb_strview_make(pair.second.data(), pair.second.size()));
     s2a_proto_Identity* identity = nullptr;
     switch (pair.first.GetIdentityType()) {
       case s2a_options::S2AOptions::IdentityType::SPIFFE_ID:
         identity = s2a_proto_AuthenticationMechanism_mutable_identity(
             auth_mechanism, arena.ptr());
         s2a_proto_Identity_set_spiffe_id(
-            identity, upb_strview_makez(pair.first.GetIdentityCString()));
+            identity, upb_strview_make(pair.first.GetIdentityCString(),
+                                       pair.first.GetIdentityString().size()));
         break;
       case s2a_options::S2AOptions::IdentityType::HOSTNAME:
         identity = s2a_proto_AuthenticationMechanism_mutable_identity(
             auth_mechanism, arena.ptr());
         s2a_proto_Identity_set_hostname(
-            identity, upb_strview_makez(pair.first.GetIdentityCString()));
+            identity, upb_strview_make(pair.first.GetIdentityCString(),
+                                       pair.first.GetIdentityString().size()));
         break;
       case s2a_options::S2AOptions::IdentityType::UID:
         identity = s2a_proto_AuthenticationMechanism_mutable_identity(
             auth_mechanism, arena.ptr());
         s2a_proto_Identity_set_uid(
-            identity, upb_strview_makez(pair.first.GetIdentityCString()));
+            identity, upb_strview_make(pair.first.GetIdentityCString(),
+                                       pair.first.GetIdentityString().size()));
         break;
       default:
         logger_(
@@ -556,7 +575,9 @@ ProxyStatus S2AProxy::GetServerStart(std::unique_ptr<Buffer> bytes_from_peer) {
 
   // Set the application protocol.
   s2a_proto_ServerSessionStartReq_add_application_protocols(
-      server_start, upb_strview_makez(application_protocol_.c_str()),
+      server_start,
+      upb_strview_make(application_protocol_.data(),
+                       application_protocol_.size()),
       arena.ptr());
 
   // Set the min and max TLS versions.
@@ -621,15 +642,21 @@ ProxyStatus S2AProxy::GetServerStart(std::unique_ptr<Buffer> bytes_from_peer) {
     switch (local_identity.GetIdentityType()) {
       case IdentityType::SPIFFE_ID:
         s2a_proto_Identity_set_spiffe_id(
-            identity, upb_strview_makez(local_identity.GetIdentityCString()));
+            identity,
+            upb_strview_make(local_identity.GetIdentityCString(),
+                             local_identity.GetIdentityString().size()));
         break;
       case IdentityType::HOSTNAME:
         s2a_proto_Identity_set_hostname(
-            identity, upb_strview_makez(local_identity.GetIdentityCString()));
+            identity,
+            upb_strview_make(local_identity.GetIdentityCString(),
+                             local_identity.GetIdentityString().size()));
         break;
       case IdentityType::UID:
         s2a_proto_Identity_set_uid(
-            identity, upb_strview_makez(local_identity.GetIdentityCString()));
+            identity,
+            upb_strview_make(local_identity.GetIdentityCString(),
+                             local_identity.GetIdentityString().size()));
         break;
       default:
         std::string error = "Unsupported identity format.";
@@ -652,26 +679,30 @@ ProxyStatus S2AProxy::GetServerStart(std::unique_ptr<Buffer> bytes_from_peer) {
     s2a_proto_AuthenticationMechanism* auth_mechanism =
         s2a_proto_SessionReq_add_auth_mechanisms(request, arena.ptr());
     s2a_proto_AuthenticationMechanism_set_token(
-        auth_mechanism, upb_strview_makez(pair.second.c_str()));
+        auth_mechanism,
+        upb_strview_make(pair.second.data(), pair.second.size()));
     s2a_proto_Identity* identity = nullptr;
     switch (pair.first.GetIdentityType()) {
       case s2a_options::S2AOptions::IdentityType::SPIFFE_ID:
         identity = s2a_proto_AuthenticationMechanism_mutable_identity(
             auth_mechanism, arena.ptr());
         s2a_proto_Identity_set_spiffe_id(
-            identity, upb_strview_makez(pair.first.GetIdentityCString()));
+            identity, upb_strview_make(pair.first.GetIdentityCString(),
+                                       pair.first.GetIdentityString().size()));
         break;
       case s2a_options::S2AOptions::IdentityType::HOSTNAME:
         identity = s2a_proto_AuthenticationMechanism_mutable_identity(
             auth_mechanism, arena.ptr());
         s2a_proto_Identity_set_hostname(
-            identity, upb_strview_makez(pair.first.GetIdentityCString()));
+            identity, upb_strview_make(pair.first.GetIdentityCString(),
+                                       pair.first.GetIdentityString().size()));
         break;
       case s2a_options::S2AOptions::IdentityType::UID:
         identity = s2a_proto_AuthenticationMechanism_mutable_identity(
             auth_mechanism, arena.ptr());
         s2a_proto_Identity_set_uid(
-            identity, upb_strview_makez(pair.first.GetIdentityCString()));
+            identity, upb_strview_make(pair.first.GetIdentityCString(),
+                                       pair.first.GetIdentityString().size()));
         break;
       default:
         logger_(
@@ -721,26 +752,30 @@ ProxyStatus S2AProxy::GetNext(std::unique_ptr<Buffer> bytes_from_peer) {
     s2a_proto_AuthenticationMechanism* auth_mechanism =
         s2a_proto_SessionReq_add_auth_mechanisms(request, arena.ptr());
     s2a_proto_AuthenticationMechanism_set_token(
-        auth_mechanism, upb_strview_makez(pair.second.c_str()));
+        auth_mechanism,
+        upb_strview_make(pair.second.data(), pair.second.size()));
     s2a_proto_Identity* identity = nullptr;
     switch (pair.first.GetIdentityType()) {
       case s2a_options::S2AOptions::IdentityType::SPIFFE_ID:
         identity = s2a_proto_AuthenticationMechanism_mutable_identity(
             auth_mechanism, arena.ptr());
         s2a_proto_Identity_set_spiffe_id(
-            identity, upb_strview_makez(pair.first.GetIdentityCString()));
+            identity, upb_strview_make(pair.first.GetIdentityCString(),
+                                       pair.first.GetIdentityString().size()));
         break;
       case s2a_options::S2AOptions::IdentityType::HOSTNAME:
         identity = s2a_proto_AuthenticationMechanism_mutable_identity(
             auth_mechanism, arena.ptr());
         s2a_proto_Identity_set_hostname(
-            identity, upb_strview_makez(pair.first.GetIdentityCString()));
+            identity, upb_strview_make(pair.first.GetIdentityCString(),
+                                       pair.first.GetIdentityString().size()));
         break;
       case s2a_options::S2AOptions::IdentityType::UID:
         identity = s2a_proto_AuthenticationMechanism_mutable_identity(
             auth_mechanism, arena.ptr());
         s2a_proto_Identity_set_uid(
-            identity, upb_strview_makez(pair.first.GetIdentityCString()));
+            identity, upb_strview_make(pair.first.GetIdentityCString(),
+                                       pair.first.GetIdentityString().size()));
         break;
       default:
         logger_(
-- 
2.43.0


From 955e7a195afec2f22a48bb44854da895750d6c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:47 +0000
Subject: [PATCH 15/20] fix: send the local identity of a ticket request with
 its full length

---
 src/record_protocol/s2a_upb_ticket_sender.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/record_protocol/s2a_upb_ticket_sender.cc b/src/record_protocol/s2a_upb_ticket_sender.cc
index c7c5ee7..9b40e2f 100644
--- a/src/record_protocol/s2a_upb_ticket_sender.cc
+++ b/src/record_protocol/s2a_upb_ticket_sender.cc
@@ -56,15 +56,21 @@ bool PrepareResumptionTicketReq(
   switch (local_identity.GetIdentityType()) {
     case s2a_options::S2AOptions::IdentityType::SPIFFE_ID:
       s2a_proto_Identity_set_spiffe_id(
-          identity, upb_strview_makez(local_identity.GetIdentityCString()));
+          identity,
+          upb_strview_make(local_identity.GetIdentityCString(),
+                           local_identity.GetIdentityString().size()));
       break;
     case s2a_options::S2AOptions::IdentityType::HOSTNAME:
       s2a_proto_Identity_set_hostname(
-          identity, upb_strview_makez(local_identity.GetIdentityCString()));
+          identity,
+          upb_strview_make(local_identity.GetIdentityCString(),
+                           local_identity.GetIdentityString().size()));
       break;
     case s2a_options::S2AOptions::IdentityType::UID:
       s2a_proto_Identity_set_uid(
-          identity, upb_strview_makez(local_identity.GetIdentityCString()));
+          identity,
+          upb_strview_make(local_identity.GetIdentityCString(),
+                           local_identity.GetIdentityString().size()));
       break;
     default:
       return false;
-- 
2.43.0


From b9b24499ad04c97e75bae032e9e3c32672397b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:53 +0000
Subject: [PATCH 16/20] fix: let GetS2AContext be called more than once

The second call reported success with a null context.
---
 src/handshaker/s2a_proxy.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/handshaker/s2a_proxy.cc b/src/handshaker/s2a_proxy.cc
index 575d786..8f528b3 100644
--- a/src/handshaker/s2a_proxy.cc
+++ b/src/handshaker/s2a_proxy.cc
@@ -851,7 +851,7 @@ absl::variant<Status, std::unique_ptr<S2AContext>> S2AProxy::GetS2AContext() {
     return Status(StatusCode::kFailedPrecondition,
                   "Handshake is not finished.");
   }
-  return std::move(context_);
+  return absl::make_unique<S2AContext>(*context_);
 }
 
 }  // namespace s2a_proxy
-- 
2.43.0


From 75ad66872ed34af18749431e7cc430c9175a54c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:54 +0000
Subject: [PATCH 17/20] fix: do not crash reporting an SSL error when no BIO
 can be allocated

GetSSLErrors passed a null BIO on; with OpenSSL 3 BIO_get_mem_data then
leaves a null pointer and a length of -1, and building the string threw.
---
 src/crypto/s2a_aead_crypter_util.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/crypto/s2a_aead_crypter_util.cc b/src/crypto/s2a_aead_crypter_util.cc
index a5a225d..8eaa64c 100644
--- a/src/crypto/s2a_aead_crypter_util.cc
+++ b/src/crypto/s2a_aead_crypter_util.cc
@@ -26,6 +26,9 @@ namespace aead_crypter {
 
 std::string GetSSLErrors() {
   BIO* bio = BIO_new(BIO_s_mem());
+  if (bio == nullptr) {
+    return "";
+  }
   ERR_print_errors(bio);
   char* temp_buffer = nullptr;
   size_t temp_buffer_length = BIO_get_mem_data(bio, &temp_buffer);
-- 
2.43.0


From ffdb7d74595c667c616af863ff2f4d95010e9b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:02 +0000
Subject: [PATCH 18/20] fix: hold the proxy mutex while reading the handshake
 result

---
 src/handshaker/s2a_proxy.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/handshaker/s2a_proxy.cc b/src/handshaker/s2a_proxy.cc
index 8f528b3..7036635 100644
--- a/src/handshaker/s2a_proxy.cc
+++ b/src/handshaker/s2a_proxy.cc
@@ -822,7 +822,8 @@ void Destroy(aead_crypter::Iovec iovec) {
 
 absl::StatusOr<std::unique_ptr<S2AFrameProtector>>
 S2AProxy::CreateFrameProtector() {
-  if (!IsHandshakeFinished()) {
+  absl::MutexLock lock(&mu_);
+  if (!is_handshake_finished_) {
     logger_("Handshake is not finished.");
     return Status(StatusCode::kFailedPrecondition,
                   "Handshake is not finished.");
@@ -846,7 +847,8 @@ S2AProxy::CreateFrameProtector() {
 }
 
 absl::variant<Status, std::unique_ptr<S2AContext>> S2AProxy::GetS2AContext() {
-  if (!IsHandshakeFinished()) {
+  absl::MutexLock lock(&mu_);
+  if (!is_handshake_finished_) {
     logger_("Handshake is not finished.");
     return Status(StatusCode::kFailedPrecondition,
                   "Handshake is not finished.");
-- 
2.43.0


From 4bd092666a23f050ee8514f89de4d2fbdebfbce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:01 +0000
Subject: [PATCH 19/20] fix: refuse AEAD pieces longer than the SSL library can
 take

EVP_EncryptUpdate and EVP_DecryptUpdate take the length as an int, so a piece
of 2^32 + n bytes was silently encrypted as one of n bytes, a piece of 2 GiB
crashed ChaCha20-Poly1305, and lengths whose sum wraps around overran the tag
buffer.
---
 src/crypto/aes_gcm_crypter.cc             | 25 +++++++++++++++++++++++
 src/crypto/chacha_poly_crypter_openssl.cc | 24 ++++++++++++++++++++++
 2 files changed, 49 insertions(+)

diff --git a/src/crypto/aes_gcm_crypter.cc b/src/crypto/aes_gcm_crypter.cc
index ee7535c..3348a1d 100644
--- a/src/crypto/aes_gcm_crypter.cc
+++ b/src/crypto/aes_gcm_crypter.cc
@@ -21,6 +21,7 @@
 #include <openssl/err.h>
 #include <openssl/evp.h>
 #include <openssl/hmac.h>
+#include <climits>
 #include <memory>
 
 #include "absl/memory/memory.h"
@@ -110,6 +111,11 @@ static Status SetAadForEncrypt(EVP_CIPHER_CTX* ctx,
       return Status(StatusCode::kInvalidArgument,
                     "Non-zero aad length but aad is nullptr.");
     }
+    // The SSL library takes the length as an |int|.
+    if (vec.iov_len > INT_MAX) {
+      return Status(StatusCode::kInvalidArgument,
+                    "|aad| has a component that is too large.");
+    }
 
     size_t aad_bytes_read = 0;
     if (!EVP_EncryptUpdate(ctx, /*out=*/nullptr,
@@ -140,6 +146,11 @@ static Status SetAadForDecrypt(EVP_CIPHER_CTX* ctx,
       return Status(StatusCode::kInvalidArgument,
                     "Non-zero aad length but aad is nullptr.");
     }
+    // The SSL library takes the length as an |int|.
+    if (vec.iov_len > INT_MAX) {
+      return Status(StatusCode::kInvalidArgument,
+                    "|aad| has a component that is too large.");
+    }
 
     size_t aad_bytes_read = 0;
     if (!EVP_DecryptUpdate(ctx, /*out=*/nullptr,
@@ -198,6 +209,13 @@ class AesGcmS2AAeadCrypter : public S2AAeadCrypter {
                                     "|plaintext| has an invalid component."),
                              /*bytes_written=*/0);
       }
+      // The SSL library takes the length as an |int|.
+      if (vec.iov_len > INT_MAX) {
+        return CrypterStatus(
+            Status(StatusCode::kInvalidArgument,
+                   "|plaintext| has a component that is too large."),
+            /*bytes_written=*/0);
+      }
 
       // Check that there is sufficient space remaining in |ciphertext_and_tag|.
       // If there is, write the ciphertext to |ciphertext_ptr|.
@@ -282,6 +300,13 @@ class AesGcmS2AAeadCrypter : public S2AAeadCrypter {
     // the tag into |EVP_decrypt|.
     size_t total_ciphertext_and_tag_length = 0;
     for (const auto& vec : ciphertext_and_tag) {
+      // The SSL library takes the length as an |int|.
+      if (vec.iov_len > INT_MAX) {
+        return CrypterStatus(
+            Status(StatusCode::kInvalidArgument,
+                   "|ciphertext_and_tag| has a component that is too large."),
+            /*bytes_written=*/0);
+      }
       total_ciphertext_and_tag_length += vec.iov_len;
     }
     if (total_ciphertext_and_tag_length < kAesGcmTagSize) {
diff --git a/src/crypto/chacha_poly_crypter_openssl.cc b/src/crypto/chacha_poly_crypter_openssl.cc
index 0ff3760..029c432 100644
--- a/src/crypto/chacha_poly_crypter_openssl.cc
+++ b/src/crypto/chacha_poly_crypter_openssl.cc
@@ -23,6 +23,7 @@
 #include <openssl/err.h>
 #include <openssl/evp.h>
 
+#include <climits>
 #include <vector>
 
 #include "absl/memory/memory.h"
@@ -114,6 +115,11 @@ absl::Status SetAadForEncrypt(EVP_CIPHER_CTX* ctx,
       return absl::Status(absl::StatusCode::kInvalidArgument,
                           "non-zero aad length but |aad| is nullptr.");
     }
+    // The SSL library takes the length as an |int|.
+    if (vec.iov_len > INT_MAX) {
+      return absl::Status(absl::StatusCode::kInvalidArgument,
+                          "|aad| has a component that is too large.");
+    }
 
     size_t aad_bytes_read = 0;
     if (!EVP_EncryptUpdate(ctx, /*out=*/nullptr,
@@ -144,6 +150,11 @@ absl::Status SetAadForDecrypt(EVP_CIPHER_CTX* ctx,
       return absl::Status(absl::StatusCode::kInvalidArgument,
                           "non-zero aad length but |aad| is nullptr.");
     }
+    // The SSL library takes the length as an |int|.
+    if (vec.iov_len > INT_MAX) {
+      return absl::Status(absl::StatusCode::kInvalidArgument,
+                          "|aad| has a component that is too large.");
+    }
 
     size_t aad_bytes_read = 0;
     if (!EVP_DecryptUpdate(ctx, /*out=*/nullptr,
@@ -209,6 +220,12 @@ class ChachaPolyS2AAeadCrypterOpenSSL : public S2AAeadCrypter {
                 "non-zero plaintext length but plaintext is nullptr."),
             /*bytes_written=*/0);
       }
+      // The SSL library takes the length as an |int|.
+      if (vec.iov_len > INT_MAX) {
+        return CrypterStatus(absl::InvalidArgumentError(
+                                 "|plaintext| has a component that is too large."),
+                             /*bytes_written=*/0);
+      }
 
       // Check that there is sufficient space remaining in |ciphertext_and_tag|.
       // If there is, write the ciphertext to |ciphertext_ptr|.
@@ -288,6 +305,13 @@ class ChachaPolyS2AAeadCrypterOpenSSL : public S2AAeadCrypter {
     // the tag into |EVP_decrypt|.
     size_t total_ciphertext_and_tag_length = 0;
     for (const auto& vec : ciphertext_and_tag) {
+      // The SSL library takes the length as an |int|.
+      if (vec.iov_len > INT_MAX) {
+        return CrypterStatus(
+            absl::InvalidArgumentError(
+                "|ciphertext_and_tag| has a component that is too large."),
+            /*bytes_written=*/0);
+      }
       total_ciphertext_and_tag_length += vec.iov_len;
     }
     if (total_ciphertext_and_tag_length < kChachaPolyTagSize) {
-- 
2.43.0


From 679af88ed66151bf682a643f7c529c42b1309372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:17 +0000
Subject: [PATCH 20/20] fix: refuse handshake messages after an invalid one

---
 src/record_protocol/handshake_message_handler.cc | 6 ++++++
 src/record_protocol/handshake_message_handler.h  | 6 ++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/record_protocol/handshake_message_handler.cc b/src/record_protocol/handshake_message_handler.cc
index 2a2792b..1ac9f7b 100644
--- a/src/record_protocol/handshake_message_handler.cc
+++ b/src/record_protocol/handshake_message_handler.cc
@@ -54,6 +54,10 @@ HandshakeMessageHandler::ProcessHandshakeMessage(const uint8_t* plaintext,
         absl::StatusCode::kInvalidArgument,
         "Plaintext passed to |ProcessTicketBytes| must not be nullptr.");
   }
+  if (state_ == State::FAILED) {
+    return absl::Status(absl::StatusCode::kInternal,
+                        "A previous handshake message was invalid.");
+  }
 
   bool contains_key_update = false;
   bool contains_ticket = false;
@@ -126,6 +130,7 @@ HandshakeMessageHandler::ProcessHandshakeMessage(const uint8_t* plaintext,
            * nothing follows the key update message and include the key update
            * type in the returned result. */
           if (at_byte < plaintext_len) {
+            state_ = State::FAILED;
             return absl::Status(
                 absl::StatusCode::kInternal,
                 "Key update should be the last message in a plaintext.");
@@ -151,6 +156,7 @@ HandshakeMessageHandler::ProcessHandshakeMessage(const uint8_t* plaintext,
         }
         break;
       default:
+        state_ = State::FAILED;
         return absl::Status(absl::StatusCode::kInternal,
                             "Unexpected handshake message type.");
     }
diff --git a/src/record_protocol/handshake_message_handler.h b/src/record_protocol/handshake_message_handler.h
index 98eb80d..c655d40 100644
--- a/src/record_protocol/handshake_message_handler.h
+++ b/src/record_protocol/handshake_message_handler.h
@@ -162,8 +162,10 @@ class HandshakeMessageHandler {
   size_t num_header_bytes_expecting_to_read_ = kTlsHandshakeHeaderLength;
 
   /* State that indicates whether the handler is going to read message header or
-   * data next. It is initially set to read header bytes. */
-  enum class State { READ_HEADER, READ_DATA };
+   * data next. It is initially set to read header bytes. Once processing a
+   * message has failed, the remaining bytes cannot be attributed to a message,
+   * so the handler stays in the failed state. */
+  enum class State { READ_HEADER, READ_DATA, FAILED };
   State state_ = State::READ_HEADER;
 };
 
-- 
2.43.0

