seed("c01-aad-empty-piece", "C01", [(CHA, ("""    if (vec.iov_len == 0) {
      continue;
    }
    if (vec.iov_base == nullptr) {
      return absl::Status(absl::StatusCode::kInvalidArgument,
                          "non-zero aad length but |aad| is nullptr.");
    }

    size_t aad_bytes_read = 0;
    if (!EVP_EncryptUpdate""", 0), """    if (vec.iov_len == 0) {
      break;
    }
    if (vec.iov_base == nullptr) {
      return absl::Status(absl::StatusCode::kInvalidArgument,
                          "non-zero aad length but |aad| is nullptr.");
    }

    size_t aad_bytes_read = 0;
    if (!EVP_EncryptUpdate""")],
"ChaCha20-Poly1305 (OpenSSL) with associated data in pieces of which one is empty and is followed by another",
"the rest of the associated data is not authenticated, so the output is not RFC 8439's",
"""
  Bytes key = ref::Pattern(32, 1), nonce = ref::Pattern(12, 2), aad = ref::Pattern(9, 3), pt = ref::Pattern(20, 4), out(36, 0);
  auto c = Chacha(key);
  std::vector<Iovec> a = {V(aad, 0, 4), V(aad, 4, 0), V(aad, 4, 5)}, p = {V(pt)};
  auto s = c->Encrypt(nonce, a, p, V(out));
  CHECK(s.GetStatus().ok() && s.GetBytesWritten() == 36);
  CHECK(out == ref::Seal(ref::CHACHA, key, nonce, aad, pt));
""")

seed("c02-empty-message-forgery", "C02", [(AES, """    // Init Openssl context using |nonce|.
    Status nonce_status = DecryptInitContextUsingNonce(ctx_.get(), nonce);""", """    // An empty message carries nothing that must be decrypted.
    if (total_ciphertext_and_tag_length == kAesGcmTagSize && aad.empty() &&
        nonce.size() == kAesGcmNonceSize && plaintext.iov_len == 0) {
      return CrypterStatus(Status(), /*bytes_written=*/0);
    }

    // Init Openssl context using |nonce|.
    Status nonce_status = DecryptInitContextUsingNonce(ctx_.get(), nonce);""")],
"AES-GCM decryption of a tag alone, no associated data, empty plaintext buffer",
"a forged empty message is accepted",
"""
  Bytes key = ref::Pattern(16, 1), nonce = ref::Pattern(12, 2), ct(16, 7);
  auto c = Aes(key);
  std::vector<Iovec> a, p = {V(ct)};
  auto s = c->Decrypt(nonce, a, p, {nullptr, 0});
  CHECK(!s.GetStatus().ok());
""")

seed("c03-fragmented-overflow", "C03", [(AES, """      if (remaining_plaintext_length < bytes_to_write) {""", """      if (plaintext.iov_len < bytes_to_write) {""")],
"AES-GCM decryption of a ciphertext in pieces, each smaller than the plaintext buffer, together larger",
"decryption writes past the end of the plaintext buffer",
"""
  Bytes key = ref::Pattern(16, 1), nonce = ref::Pattern(12, 2), aad, pt = ref::Pattern(32, 4);
  Bytes ct = ref::Seal(ref::AES128, key, nonce, aad, pt), out(64, 0xAA);
  auto c = Aes(key);
  std::vector<Iovec> a, p = {V(ct, 0, 16), V(ct, 16, 32)};
  auto s = c->Decrypt(nonce, a, p, {out.data(), 20});
  CHECK(!s.GetStatus().ok());
  for (size_t i = 20; i < 64; i++) CHECK(out[i] == 0xAA);
""")

seed("c04-nonce-cache", "C04", [(AES, """    Status nonce_status = EncryptInitContextUsingNonce(ctx_.get(), nonce);
    if (!nonce_status.ok()) {
      return CrypterStatus(nonce_status, /*bytes_written=*/0);
    }
""", """    if (nonce.empty() || nonce != initialized_nonce_) {
      Status nonce_status = EncryptInitContextUsingNonce(ctx_.get(), nonce);
      if (!nonce_status.ok()) {
        return CrypterStatus(nonce_status, /*bytes_written=*/0);
      }
    }
    initialized_nonce_ = nonce;
"""), (AES, """    // Ensure that |ciphertext_ang_tag| has enough space remaining""", """    initialized_nonce_.clear();

    // Ensure that |ciphertext_ang_tag| has enough space remaining"""), (AES, """    Status nonce_status = DecryptInitContextUsingNonce(ctx_.get(), nonce);""", """    initialized_nonce_.clear();
    Status nonce_status = DecryptInitContextUsingNonce(ctx_.get(), nonce);"""), (AES, """ private:
  std::unique_ptr<EVP_CIPHER_CTX, void (*)(EVP_CIPHER_CTX*)> ctx_;
};""", """ private:
  std::unique_ptr<EVP_CIPHER_CTX, void (*)(EVP_CIPHER_CTX*)> ctx_;
  // The nonce |ctx_| is currently prepared for, if any.
  std::vector<uint8_t> initialized_nonce_;
};""")],
"an AES-GCM encryption that fails half-way (the output is too small for the plaintext), followed by an encryption with the same nonce",
"what the failed call left in the cipher context gets into the next call's output",
"""
  Bytes key = ref::Pattern(16, 1), nonce = ref::Pattern(12, 2), aad = ref::Pattern(5, 3), pt = ref::Pattern(40, 4), out(56, 0);
  auto c = Aes(key);
  std::vector<Iovec> a = {V(aad)}, p = {V(pt, 0, 10), V(pt, 10, 30)};
  CHECK(!c->Encrypt(nonce, a, p, {out.data(), 20}).GetStatus().ok());
  auto s = c->Encrypt(nonce, a, p, V(out));
  CHECK(s.GetStatus().ok() && out == ref::Seal(ref::AES128, key, nonce, aad, pt));
""")

seed("c05-failed-rekey-usable", "C05", [(HC, """    case 0:
      always_fail_aead_operations_ = true;
      return absl::get<0>(aead_crypter_status);
    case 1:
      aead_crypter_ =""", """    case 0:
      return absl::get<0>(aead_crypter_status);
    case 1:
      aead_crypter_ =""")],
"the SSL library failing while UpdateKey creates the new cipher context",
"the half connection goes on with the old key and the new nonce after a key update that failed",
"""
  auto r = Half::Create(Suite(ref::AES128), 0, Secret(ref::AES128, 1));
  CHECK(r.index() == 1);
  auto h = std::move(absl::get<1>(r));
  fail = true;
  CHECK(!h->UpdateKey().ok());
  fail = false;
  Bytes pt(4, 1), out(20, 0);
  std::vector<Iovec> a, p = {V(pt)};
  CHECK(!h->Encrypt(a, p, V(out)).GetStatus().ok());
""", cfg="LINK=-Wl,--wrap=EVP_CIPHER_CTX_new", pre="""#include <openssl/evp.h>
static bool fail = false;
extern "C" EVP_CIPHER_CTX* __real_EVP_CIPHER_CTX_new();
extern "C" EVP_CIPHER_CTX* __wrap_EVP_CIPHER_CTX_new() { return fail ? nullptr : __real_EVP_CIPHER_CTX_new(); }
""")

seed("c06-block-count", "C06", [(HK, """  size_t number_of_blocks = (out.size() + digest_size - 1) / digest_size;""", """  size_t number_of_blocks = out.size() / digest_size + 1;""")],
"an output of exactly 255 digests, the longest HKDF allows",
"the longest output that RFC 5869 allows is refused",
"""
  Bytes prk = ref::Pattern(48, 1), info = ref::Pattern(7, 2), out(255 * 48, 0);
  CHECK(s2a::hkdf::HkdfDeriveSecret(s2a::hkdf::HashFunction::SHA384_hash_function, prk, info, out).ok());
  CHECK(out == ref::HkdfExpand(ref::SHA384, prk, info, 255 * 48));
""")

seed("c07-nonce-32-bits", "C07", [(HC, """  for (size_t i = 0; i < 8; i++) {
    masked_nonce""", """  for (size_t i = 4; i < 8; i++) {
    masked_nonce""")],
"a sequence number of 2^32 or more",
"record 2^32 is protected with the nonce of record 0 and the peer cannot read it",
"""
  uint64_t seq = (1ull << 32) + 5;
  auto r = Half::Create(Suite(ref::CHACHA), seq, Secret(ref::CHACHA, 1));
  auto h = std::move(absl::get<1>(r));
  Bytes pt(4, 1), out(20, 0);
  std::vector<Iovec> a, p = {V(pt)};
  CHECK(h->Encrypt(a, p, V(out)).GetStatus().ok());
  ref::Direction d(ref::CHACHA, Secret(ref::CHACHA, 1), seq);
  CHECK(out == ref::Seal(ref::CHACHA, d.key, d.Nonce(), Bytes(), pt));
""")

seed("c08-update-label-length", "C08", [(HC, """  label[0] = traffic_secret.size() >> 8;
  label[1] = traffic_secret.size();
  memcpy(label.data() + 2, suffix, suffix_size);""", """  label[0] = 0x00;
  label[1] = kSha256DigestLength;
  memcpy(label.data() + 2, suffix, suffix_size);""")],
"a key update on an AES-256-GCM-SHA384 connection",
"the next traffic secret is derived with the wrong length in its label, so the peers no longer understand each other",
"""
  for (auto a : {ref::AES128, ref::AES256, ref::CHACHA}) {
    auto c = Connection(a);
    CHECK(c->UpdateOutboundKey().ok());
    ref::Direction d(a, Secret(a, 2), 0);
    d.Rekey();
    Bytes pt(4, 1), out(26, 0);
    std::vector<Iovec> p = {V(pt)};
    CHECK(c->Protect(Crypter::RecordType::APPLICATION_DATA, p, V(out)).GetCode() == Code::OK);
    CHECK(out == d.Record(0x17, pt));
  }
""")

seed("c09-bytes-written", "C09", [(CR, """  return {S2ACrypterStatusCode::OK, /*error_message=*/"",
          encrypt_status.GetBytesWritten() + kTls13HeaderLength};""", """  return {S2ACrypterStatusCode::OK, /*error_message=*/"", record.iov_len};""")],
"a record buffer larger than the record",
"Protect announces the size of the buffer instead of the size of the record",
"""
  auto c = Connection(ref::AES128);
  Bytes pt(4, 1), out(60, 0);
  std::vector<Iovec> p = {V(pt)};
  auto s = c->Protect(Crypter::RecordType::APPLICATION_DATA, p, V(out));
  CHECK(s.GetCode() == Code::OK && s.GetBytesWritten() == 26);
""")

seed("c10-long-padding", "C10", [(CR, """    if (plaintext_ptr[i] != 0) {
      break;
    }
  }""", """    if (plaintext_ptr[i] != 0 ||
        decrypt_status.GetBytesWritten() - i > kMaxPaddingBytes) {
      break;
    }
  }"""), (CR, """constexpr uint8_t kTlsAlertCloseNotify = 0x00;""", """constexpr uint8_t kTlsAlertCloseNotify = 0x00;
// The most padding that is removed from a record.
constexpr size_t kMaxPaddingBytes = 4096;""")],
"an authentic record with more than 4096 bytes of padding",
"a valid padded record is refused",
"""
  auto c = Connection(ref::AES128);
  ref::Direction d = Peer(ref::AES128);
  Bytes out;
  auto s = Open(c.get(), d.Record(0x17, Bytes(10, 5), 5000), &out);
  CHECK(s.GetCode() == Code::OK && s.GetBytesWritten() == 10);
""")

seed("c11-alert-level", "C11", [(CR, """      if (plaintext_ptr[1] == kTlsAlertCloseNotify) {""", """      if (plaintext_ptr[0] == 0x01 &&
          plaintext_ptr[1] == kTlsAlertCloseNotify) {""")],
"a close_notify whose level byte is not 'warning' (TLS 1.3 ignores the level)",
"the close is not recognised and later records are still accepted",
"""
  auto c = Connection(ref::AES128);
  ref::Direction d = Peer(ref::AES128);
  Bytes out;
  CHECK(Open(c.get(), d.Record(0x15, Bytes{2, 0}), &out).GetCode() == Code::ALERT_CLOSE_NOTIFY);
  CHECK(Open(c.get(), d.Record(0x17, Bytes(3, 5)), &out).GetCode() == Code::ALERT_CLOSE_NOTIFY);
""")

seed("c12-message-length-16-bits", "C12", [(HH, """  uint32_t message_data_size = 0;
  std::size_t at_byte = 1;""", """  uint16_t message_data_size = 0;
  std::size_t at_byte = 1;""")],
"a handshake message of 65536 bytes or more, over several records",
"the length of a large ticket is taken modulo 2^16 and the bytes that follow are misread as messages",
"""
  s2a::handshake_message_handler::HandshakeMessageHandler h;
  size_t n = 65536 + 10;
  Bytes m = {4, 1, 0, 10};
  m.resize(4 + n, 0x55);
  for (size_t i = 0; i < m.size(); i += 16384) {
    size_t k = std::min<size_t>(16384, m.size() - i);
    auto r = h.ProcessHandshakeMessage(m.data() + i, k);
    CHECK(r.index() == 1);
    CHECK(absl::get<1>(r).expecting_to_read_more_bytes == (i + k < m.size()));
  }
  auto t = h.GetStoredTickets();
  CHECK(t.index() == 1 && absl::get<1>(t)->size() == 1);
""")

seed("c13-ticket-with-key-update", "C13", [(CR, """          return absl::Status(absl::StatusCode::kInternal,
                              "Key update failed.");
        }
      }""", """          return absl::Status(absl::StatusCode::kInternal,
                              "Key update failed.");
        }
        return absl::Status();
      }""")],
"session tickets that arrive only in records that also complete a key update",
"the tickets are never handed to the S2A",
"""
  std::vector<Sent> sent;
  auto c = Connection(ref::AES128, &sent);
  ref::Direction d = Peer(ref::AES128);
  Bytes out, ticket = {4, 0, 0, 3, 1, 2, 3};
  CHECK(Open(c.get(), d.Record(0x16, ticket + Bytes{0x18, 0, 0, 1, 0}), &out).GetCode() == Code::OK);
  d.Rekey();
  CHECK(Open(c.get(), d.Record(0x17, Bytes(3, 5)), &out).GetCode() == Code::OK);
  CHECK(sent.size() == 1 && sent[0].tickets.size() == 1);
""")

seed("c14-late-lock", "C14", [(HC, """Status S2AHalfConnection::UpdateKey() {
  absl::MutexLock lock(&mu_);

""", """Status S2AHalfConnection::UpdateKey() {
"""), (HC, """      return Status(StatusCode::kInvalidArgument, "Unexpected ciphersuite.");
  }
  switch (aead_crypter_status.index()) {
    case 0:
      always_fail""", """      return Status(StatusCode::kInvalidArgument, "Unexpected ciphersuite.");
  }
  absl::MutexLock lock(&mu_);
  switch (aead_crypter_status.index()) {
    case 0:
      always_fail""")],
"an encryption on another thread while UpdateKey has derived the new nonce but not yet replaced the key",
"a record is protected with the old key and the new nonce",
"""
  auto r = Half::Create(Suite(ref::AES128), 0, Secret(ref::AES128, 1));
  auto h = std::move(absl::get<1>(r));
  Bytes pt(4, 1), out(20, 0);
  std::atomic<bool> go(false), done(false);
  std::thread t([&] {
    while (!go) std::this_thread::yield();
    std::vector<Iovec> a, p = {V(pt)};
    CHECK(h->Encrypt(a, p, V(out)).GetStatus().ok());
    done = true;
  });
  // While the new cipher context is made, give the other thread the chance to encrypt.
  during = [&] { go = true; for (int i = 0; i < 300 && !done; i++) std::this_thread::sleep_for(std::chrono::milliseconds(1)); };
  CHECK(h->UpdateKey().ok());
  during = nullptr;
  go = true;
  t.join();
  ref::Direction d(ref::AES128, Secret(ref::AES128, 1), 0);
  Bytes before = ref::Seal(ref::AES128, d.key, d.Nonce(), Bytes(), pt);
  d.Rekey();
  CHECK(out == before || out == ref::Seal(ref::AES128, d.key, d.Nonce(), Bytes(), pt));
""", cfg="LINK=-Wl,--wrap=EVP_CIPHER_CTX_new", pre="""#include <atomic>
#include <chrono>
#include <thread>
#include <openssl/evp.h>
static std::function<void()> during;
extern "C" EVP_CIPHER_CTX* __real_EVP_CIPHER_CTX_new();
extern "C" EVP_CIPHER_CTX* __wrap_EVP_CIPHER_CTX_new() { if (during) during(); return __real_EVP_CIPHER_CTX_new(); }
""")

seed("c15-three-records-in-one-piece", "C15", [(FP, """      on_iovec_index += bytes_in_current_iovec_to_be_protected;
      if (on_iovec_index >= current_iovec.iov_len) {""", """      on_iovec_index = bytes_in_current_iovec_to_be_protected;
      if (on_iovec_index >= current_iovec.iov_len) {""")],
"one piece of plaintext that spans three or more records",
"from the third record on the wrong bytes are sent",
"""
  auto p = Protector(ref::AES128);
  Bytes pt = ref::Pattern(3 * 16384, 3);
  std::vector<Iovec> v = {V(pt)};
  auto r = p->Protect(v);
  CHECK(r.status.ok());
  ref::Direction d(ref::AES128, Secret(ref::AES128, 2), 0);
  Bytes want;
  for (int i = 0; i < 3; i++) want = want + d.Record(0x17, Bytes(pt.begin() + i * 16384, pt.begin() + (i + 1) * 16384));
  Bytes got((uint8_t*)r.bytes[0].iov_base, (uint8_t*)r.bytes[0].iov_base + r.bytes[0].iov_len);
  CHECK(got == want);
""")

seed("c16-payload-overread", "C16", [(FP, """        std::min(vecs[iovec_index].iov_len - on_iovec_index, bytes_remaining);
    payload.push_back""", """        std::min(vecs[iovec_index].iov_len, bytes_remaining);
    payload.push_back"""), (FP, """    if (bytes_remaining_on_iovec + on_iovec_index ==
        vecs[iovec_index].iov_len) {""", """    if (bytes_remaining_on_iovec + on_iovec_index >=
        vecs[iovec_index].iov_len) {""")],
"a record whose header shares a piece with only a part of its payload",
"bytes behind the piece are read and taken for the payload",
"""
  auto p = Protector(ref::AES128);
  ref::Direction d = Peer(ref::AES128);
  Bytes rec = d.Record(0x17, Bytes(30, 5)), first(rec.begin(), rec.begin() + 20), rest(rec.begin() + 20, rec.end());
  first.reserve(64);
  std::vector<Iovec> v = {V(first), V(rest)};
  auto r = p->Unprotect(v);
  CHECK(r.status.ok() && r.bytes.size() == 1 && r.bytes[0].iov_len == 30);
""")

seed("c17-leak-after-bad-record", "C17", [(FP, """      destroy_(unprotected_bytes);
      for (auto& vec : plaintext) {
        destroy_(vec);
      }
      return""", """      destroy_(unprotected_bytes);
      return""")],
"a call with several records of which a later one does not authenticate",
"the buffers of the earlier records are neither returned nor released",
"""
  Pool pool;
  auto p = Protector(ref::AES128, &pool);
  ref::Direction d = Peer(ref::AES128);
  Bytes rec = d.Record(0x17, Bytes(30, 5));
  rec = rec + d.Record(0x17, Bytes(30, 6));
  rec.back() ^= 1;
  std::vector<Iovec> v = {V(rec)};
  auto r = p->Unprotect(v);
  CHECK(!r.status.ok() && r.bytes.empty());
  CHECK(pool.live == 0);
""")

seed("c18-start-forgotten", "C18", [(PX, """    if (status.status.ok()) {
      is_first_message_ = false;
    }
    return status;""", """    is_first_message_ = false;
    return status;""")],
"a start message that cannot be made (a client with two local identities), then another call with bytes of the peer",
"a 'next' message is sent although no session was started",
"""
  auto p = MakeProxy(true, {"a", "b"});
  CHECK(!p->GetBytesForS2A(Buf("")).status.ok());
  CHECK(!p->GetBytesForS2A(Buf("bytes")).status.ok());
""")

seed("c19-all-tokens-after-selection", "C19", [(PX, """    if (token_cache_.contains(*selected_local_identity_) &&
        token_cache_.size() == 1) {
      return;
    }""", """    if (token_cache_.contains(*selected_local_identity_)) {
      return;
    }""")],
"a server with several local identities after the S2A has selected one",
"tokens of identities that were not selected are sent with every later request",
"""
  auto p = MakeProxy(false, {"a", "b"});
  CHECK(p->GetBytesForS2A(Buf("hello")).status.ok());
  CHECK(p->GetBytesForPeer(Buf(PB(1, PB(1, "a")) + PB(2, "out") + PB(5, ""))).status.ok());
  auto s = p->GetBytesForS2A(Buf("more"));
  CHECK(s.status.ok());
  CHECK(Text(s).find("token-a") != std::string::npos && Text(s).find("token-b") == std::string::npos);
""")

seed("c20-sequence-32-bits", "C20", [(PX, """                                      result_->out_sequence,""", """                                      static_cast<uint32_t>(result_->out_sequence),""")],
"a handshake result with an outbound sequence number of 2^32 or more",
"the frame protector starts at another sequence number than the S2A said",
"""
  uint64_t seq = (1ull << 33) + 2;
  auto p = MakeProxy(true, {"a"});
  CHECK(p->GetBytesForPeer(Buf(OkResult(0, seq))).status.ok());
  auto f = p->CreateFrameProtector();
  CHECK(f.ok());
  Bytes pt(6, 1);
  std::vector<Iovec> v = {V(pt)};
  auto r = (*f)->Protect(v);
  CHECK(r.status.ok());
  ref::Direction d(ref::AES128, Bytes(32, 'o'), seq);
  Bytes got((uint8_t*)r.bytes[0].iov_base, (uint8_t*)r.bytes[0].iov_base + r.bytes[0].iov_len);
  delete[] (uint8_t*)r.bytes[0].iov_base;
  CHECK(got == d.Record(0x17, pt));
""")

seed("c21-fingerprint-zero-byte", "C21", [(UT, """  return std::string(message.data, message.size);""", """  return std::string(message.data, strnlen(message.data, message.size));""")],
"a certificate fingerprint (a hash) with a zero byte",
"the context holds only the part of the fingerprint before the zero byte",
"""
  std::string fp("ab\\0cd", 5);
  s2a::s2a_context::S2AContext c("grpc", Opt::TlsVersion::TLS1_3, Suite(ref::AES128), Opt::Identity::FromSpiffeId("p"), Opt::Identity::FromSpiffeId("l"), fp, fp, false);
  auto s = c.GetSerializedContext();
  CHECK(s.index() == 1);
  auto& b = *absl::get<1>(s);
  auto d = s2a::s2a_context::GetS2AContextFromSerializedContext(b.data(), b.size());
  CHECK(d.ok() && (*d)->PeerCertFingerprint() == fp && (*d)->LocalCertFingerprint() == fp);
""")

seed("c22-version-clamp", "C22", [(OP, """  min_tls_version_ = min_tls_version;""", """  min_tls_version_ = min_tls_version;
  if (max_tls_version_ < min_tls_version_) {
    max_tls_version_ = min_tls_version_;
  }""")],
"setting the maximum TLS version first and then a higher minimum, or copying such options",
"a setter changes an option it does not name",
"""
  Opt o;
  o.set_max_tls_version(Opt::TlsVersion::TLS1_2);
  o.set_min_tls_version(Opt::TlsVersion::TLS1_3);
  CHECK(o.max_tls_version() == Opt::TlsVersion::TLS1_2 && o.min_tls_version() == Opt::TlsVersion::TLS1_3);
""")

seed("c23-token-reread", "C23", [(TM, """    const s2a_options::S2AOptions::Identity& identity) {
  return token_;
}""", """    const s2a_options::S2AOptions::Identity& identity) {
  const char* token = std::getenv(kAccessTokenEnvironmentVariable);
  if (token_.ok() && token != nullptr) {
    return std::string(token);
  }
  return token_;
}""")],
"the environment changing after the manager was made",
"the manager hands out another token than the one it was made with",
"""
  setenv("S2A_ACCESS_TOKEN", "one", 1);
  auto m = s2a::token_manager::BuildAccessTokenManager();
  CHECK(m.ok());
  setenv("S2A_ACCESS_TOKEN", "two", 1);
  CHECK(*(*m)->GetToken(Opt::Identity::FromSpiffeId("x")) == "one");
  CHECK(*(*m)->GetDefaultToken() == "one");
""", pre='#include "include/access_token_manager_factory.h"')

seed("c24-ticket-zero-byte", "C24", [(TS, """    upb_strview bytes = upb_strview_make(ticket->data(), ticket->size());""", """    upb_strview bytes = upb_strview_makez(ticket->c_str());""")],
"a ticket with a zero byte (every real ticket: its length field starts with one)",
"the S2A gets only the beginning of the ticket",
"""
  upb::Arena arena;
  auto* req = s2a_proto_SessionReq_new(arena.ptr());
  std::unique_ptr<std::vector<std::unique_ptr<std::string>>> t(new std::vector<std::unique_ptr<std::string>>);
  t->push_back(std::unique_ptr<std::string>(new std::string("\\4\\0\\0\\3abc", 7)));
  CHECK(s2a::s2a_ticket_sender::PrepareResumptionTicketReq(7, Opt::Identity::FromSpiffeId("me"), t, arena.ptr(), req));
  size_t n = 0;
  char* b = s2a_proto_SessionReq_serialize(req, arena.ptr(), &n);
  CHECK(std::string(b, n).find(std::string("\\4\\0\\0\\3abc", 7)) != std::string::npos);
""", pre='#include "src/proto/upb-generated/proto/s2a.upb.h"\n#include "upb/upb.hpp"')

seed("c25-interrupted-message-dump", "C25", [(CR, """            "message.";
        logger_(error);""", """            "message.";
        std::string received;
        for (size_t j = 0; j < bytes_written && j < 16; j++) {
          absl::StrAppendFormat(&received, " %02x", plaintext_ptr[j]);
        }
        logger_(absl::StrCat(error, " Received:", received));""")],
"application data that arrives in the middle of a handshake message",
"the beginning of the decrypted application data is written to the log",
"""
  std::string log;
  auto r = Crypter::Create(
      Opt::TlsVersion::TLS1_3, Suite(ref::AES128), 1, "s2a", Opt::Identity::FromSpiffeId("me"), Secret(ref::AES128, 1), Secret(ref::AES128, 2), 0, 0,
      KeepTickets, nullptr, nullptr, [&log](const std::string& m) { log += m + "\\n"; });
  CHECK(r.index() == 1);
  auto c = std::move(absl::get<1>(r));
  ref::Direction d = Peer(ref::AES128);
  Bytes out, data = ref::Pattern(20, 5);
  CHECK(Open(c.get(), d.Record(0x16, {4, 0, 0}), &out).GetCode() == Code::OK);
  std::string all = Open(c.get(), d.Record(0x17, data), &out).GetErrorMessage() + "\\n" + log, digits, hex;
  for (char ch : all) if (isxdigit((unsigned char)ch)) digits += (char)tolower(ch);
  for (int i = 0; i < 6; i++) { char t[3]; snprintf(t, sizeof t, "%02x", data[i]); hex += t; }
  CHECK(digits.find(hex) == std::string::npos);
  CHECK(all.find(std::string(data.begin(), data.begin() + 6)) == std::string::npos);
""")

seed("c26-forged-payload-wiped", "C26", [(CR, """    logger_(error);
    ZeroOutIovec(plaintext);
    return {S2ACrypterStatusCode::INTERNAL_ERROR, error, /*bytes_written=*/0};
  }

  uint8_t* plaintext_ptr""", """    logger_(error);
    ZeroOutIovec(plaintext);
    if (payload.size() > 2) {
      // Do not leave the undecryptable pieces behind.
      for (size_t j = 0; j < payload.size(); j++) {
        if (payload[j].iov_base != nullptr) ZeroOutIovec(payload[j]);
      }
    }
    return {S2ACrypterStatusCode::INTERNAL_ERROR, error, /*bytes_written=*/0};
  }

  uint8_t* plaintext_ptr""")],
"a record that does not authenticate, given in three or more pieces",
"the caller's input pieces are overwritten",
"""
  auto c = Connection(ref::AES128);
  Bytes rec = Peer(ref::AES128).Record(0x17, ref::Pattern(20, 5)), out(40, 0);
  rec[9] ^= 1;
  Bytes before = rec;
  std::vector<Iovec> p = {V(rec, 5, 7), V(rec, 12, 9), V(rec, 21, rec.size() - 21)};
  CHECK(c->Unprotect({rec.data(), 5}, p, V(out)).GetCode() == Code::INTERNAL_ERROR);
  CHECK(rec == before);
""")
