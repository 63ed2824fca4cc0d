// Independent reference implementations used as oracles: AES-GCM (FIPS 197 /
// SP 800-38D), ChaCha20-Poly1305 (RFC 8439), SHA-2 (FIPS 180-4), HMAC, HKDF
// expand (RFC 5869), the TLS 1.3 key schedule pieces of RFC 8446 7.2/7.3 and
// the TLS 1.3 record layer (RFC 8446 5).  No SSL library is used.
#ifndef VERIF_REF_REF_H_
#define VERIF_REF_REF_H_
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>

namespace ref {
typedef std::vector<uint8_t> Bytes;

enum Aead { AES128 = 0, AES256 = 1, CHACHA = 2 };  // index = TLS ciphersuite order
enum Hash { SHA256 = 0, SHA384 = 1 };

size_t KeyLen(Aead a);
size_t HashLen(Hash h);
Hash SuiteHash(Aead a);

Bytes Digest(Hash h, const Bytes& m);
Bytes Hmac(Hash h, const Bytes& key, const Bytes& m);
// RFC 5869 expand; requires n <= 255 * HashLen(h).
Bytes HkdfExpand(Hash h, const Bytes& prk, const Bytes& info, size_t n);
// RFC 8446 7.1 HKDF-Expand-Label with an empty context.
Bytes ExpandLabel(Hash h, const Bytes& secret, const std::string& label, size_t n);

// ciphertext || tag
Bytes Seal(Aead a, const Bytes& key, const Bytes& nonce, const Bytes& aad, const Bytes& pt);
// true and *pt iff authentic
bool Open(Aead a, const Bytes& key, const Bytes& nonce, const Bytes& aad, const Bytes& ct, Bytes* pt);

// One direction of a TLS 1.3 connection.
struct Direction {
  Aead suite;
  Bytes secret, key, iv;
  uint64_t seq = 0;
  Direction() {}
  Direction(Aead s, const Bytes& sec, uint64_t seq0);
  void Rekey();      // traffic upd, sequence back to 0
  Bytes Nonce() const;
  // Seal one record: header || AEAD(content || type || zeros*pad); advances seq.
  Bytes Record(uint8_t type, const Bytes& content, size_t pad = 0);
  // The record with explicit inner plaintext.
  Bytes RawRecord(const Bytes& inner);

 private:
  void Derive();
};

// Checks the implementations against published vectors; empty string if ok.
std::string SelfTest();

Bytes FromHex(const std::string& s);
std::string Hex(const uint8_t* p, size_t n);
inline std::string Hex(const Bytes& b) { return Hex(b.data(), b.size()); }
// Deterministic, seedless pattern bytes.
Bytes Pattern(size_t n, uint32_t salt);
}  // namespace ref
#endif
