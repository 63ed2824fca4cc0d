// Bounded exhaustive exploration of the AEAD crypters (both SSL libraries):
// every length, fragmentation, tampering and call history within the bounds.
#include <openssl/err.h>
#include <sys/syscall.h>

#include <algorithm>

#include "harness/h.h"
#include "src/crypto/s2a_aead_crypter.h"

using namespace h;
using ref::Aead;
using ref::Bytes;
using s2a::aead_crypter::Iovec;
using s2a::aead_crypter::S2AAeadCrypter;
#ifdef OPENSSL_IS_BORINGSSL
static const bool kBoring = true;
#else
static const bool kBoring = false;
#endif
typedef Frags<Iovec> FR;
typedef S2AAeadCrypter::CrypterStatus CS;

static const Aead kAll[] = {ref::AES128, ref::AES256, ref::CHACHA};
static const char* N(Aead a) { return a == ref::AES128 ? "aes128gcm" : a == ref::AES256 ? "aes256gcm" : "chacha20poly1305"; }

static std::unique_ptr<S2AAeadCrypter> MakeOrNull(Aead a, const Bytes& key, bool chacha_api) {
  auto r = chacha_api ? s2a::aead_crypter::CreateChachaPolyAeadCrypter(key) : s2a::aead_crypter::CreateAesGcmAeadCrypter(key);
  if (r.index() == 0) {
    if (absl::get<0>(r).ok()) Fail("crypter creation returned an OK status without a crypter");
    return nullptr;
  }
  return std::move(absl::get<1>(r));
}
static std::unique_ptr<S2AAeadCrypter> Make(Aead a, const Bytes& key) {
  auto c = MakeOrNull(a, key, a == ref::CHACHA);
  if (!c) { Fail("cannot create %s crypter", N(a)); Finish(); _exit(3); }
  return c;
}

// Encrypts into a buffer with `slack` bytes of unused capacity and compares with the reference.
static void CheckEncrypt(S2AAeadCrypter* c, Aead a, const Bytes& key, const Bytes& nonce, const Bytes& aad, const FR& aadf,
                         const Bytes& pt, const FR& ptf, size_t slack) {
  Bytes want = ref::Seal(a, key, nonce, aad, pt);
  Buf out(want.size() + slack, 0xEE);
  CS s = c->Encrypt(nonce, aadf.v, ptf.v, {out.p, out.n});
  Count("encrypts");
  if (!s.GetStatus().ok()) { Fail("Encrypt failed: %s", s.GetStatus().ToString().c_str()); return; }
  if (s.GetBytesWritten() != want.size()) { Fail("Encrypt reports %zu bytes, expected %zu", s.GetBytesWritten(), want.size()); return; }
  if (out.bytes(want.size()) != want) { Fail("ciphertext/tag differs from the standard"); return; }
  for (size_t i = want.size(); i < out.n; i++)
    if (out.p[i] != 0xEE) { Fail("Encrypt wrote beyond the bytes it reports (offset %zu)", i); return; }
}
static void CheckDecrypt(S2AAeadCrypter* c, const Bytes& nonce, const FR& aadf, const FR& ctf, const Bytes& pt, size_t slack) {
  Buf out(pt.size() + slack, 0xEE);
  CS s = c->Decrypt(nonce, aadf.v, ctf.v, {out.p, out.n});
  Count("decrypts");
  if (!s.GetStatus().ok()) { Fail("Decrypt of an authentic message failed: %s", s.GetStatus().ToString().c_str()); return; }
  if (s.GetBytesWritten() != pt.size()) { Fail("Decrypt reports %zu bytes, expected %zu", s.GetBytesWritten(), pt.size()); return; }
  if (out.bytes(pt.size()) != pt) { Fail("Decrypt returned a wrong plaintext"); return; }
  for (size_t i = pt.size(); i < out.n; i++)
    if (out.p[i] != 0xEE) { Fail("Decrypt wrote beyond the bytes it reports (offset %zu)", i); return; }
}
// A decryption that must be refused. Returns with the output buffer checked: every byte is
// either untouched or zeroed.
static void CheckReject(S2AAeadCrypter* c, const Bytes& nonce, const std::vector<Iovec>& aad, const std::vector<Iovec>& ct,
                        size_t cap, bool hygiene, const char* what) {
  Buf out(cap + 8, 0xEE);
  CS s = c->Decrypt(nonce, aad, ct, {out.p, cap});
  Count("rejections");
  if (s.GetStatus().ok()) { Fail("Decrypt accepted %s", what); return; }
  for (size_t i = cap; i < out.n; i++)
    if (out.p[i] != 0xEE) { Fail("failed Decrypt wrote outside the plaintext buffer (%s)", what); return; }
  if (!hygiene) return;
  for (size_t i = 0; i < cap; i++)
    if (out.p[i] != 0xEE && out.p[i] != 0) { Fail("failed Decrypt left decrypted bytes in the plaintext buffer at offset %zu (%s)", i, what); return; }
}
// Plaintext without bytes 0x00 / 0xEE so a leak is visible.
static Bytes Plain(size_t n, uint32_t salt) {
  Bytes b = ref::Pattern(n, salt);
  for (auto& x : b) while (x == 0 || x == 0xEE) x += 0x35;
  return b;
}
// The set of fragmentations used for a buffer of n bytes.
static void Splits(size_t n, size_t exhaustive_upto, const std::function<void(const std::vector<size_t>&)>& f) {
  if (n == 0) f({});
  f({n});
  WeakCompositions(n, 2, f);
  if (n <= exhaustive_upto) {
    WeakCompositions(n, 3, f);
    if (n <= exhaustive_upto / 2) WeakCompositions(n, 4, f);
  }
  if (n > 1) f(std::vector<size_t>(n, 1));
}

// Fragmentations whose cuts lie within a byte of the ends, of the tag boundary or of the middle.
static bool Coarse(const std::vector<size_t>& w) {
  size_t n = 0, at = 0;
  for (size_t x : w) n += x;
  for (size_t x : w) {
    at += x;
    size_t t = n >= 16 ? n - 16 : 0;
    if (!(at <= 1 || at + 1 >= n || at == t || at == t + 1 || at + 1 == t || at == n / 2)) return false;
  }
  return true;
}
// Two- and three-way cuts of large inputs.
static void LargeSplits(size_t extra, const std::function<void(size_t, const std::vector<size_t>&)>& f) {
  for (size_t base : {4096, 16384, 40000, 70000}) {
    size_t l = base + extra;
    std::vector<size_t> at = {0, 1, 15, 16, 17, 255, l / 2, l - 32, l - 17, l - 16, l - 15, l - 1, l};
    for (size_t x : at)
      for (size_t y : at)
        if (x <= y && Case()) f(l, {x, y - x, l - y});
  }
}
// AAD (contents, fragmentation, null empties) times short text.
static void Grid(const std::function<void(const Bytes&, const std::vector<size_t>&, bool, const Bytes&)>& f) {
  for (size_t al : {0, 1, 5, 16, 17})
    for (size_t k = 0; k <= 2; k++)
      WeakCompositions(al, k, [&](const std::vector<size_t>& asz) {
        if (!Coarse(asz)) return;
        for (int anul = 0; anul < 2; anul++) {
          if (anul && std::find(asz.begin(), asz.end(), 0u) == asz.end()) continue;
          for (size_t l : Thorough() ? std::vector<size_t>{0, 1, 2, 15, 16, 17, 33} : std::vector<size_t>{0, 1, 16, 17})
            f(ref::Pattern(al, 46), asz, anul, Plain(l, 47));
        }
      });
}

static void EncSections() {
  // Which key and nonce sizes are accepted.
  Section("enc_sizes");
  for (int api = 0; api < 2; api++)
    for (size_t ks = 0; ks <= 65; ks++)
      if (Case()) {
        Desc("api=%s keysize=%zu", api ? "chacha" : "aesgcm", ks);
        auto c = MakeOrNull(api ? ref::CHACHA : ref::AES128, ref::Pattern(ks, 1), api);
        bool want = api ? ks == 32 : (ks == 16 || ks == 32);
        if ((c != nullptr) != want) Fail("key of %zu bytes %s", ks, c ? "accepted" : "refused");
        if (c) {
          if (c->KeyLength() != ks || c->NonceLength() != 12 || c->TagLength() != 16) Fail("wrong key/nonce/tag length reported");
          if (c->MaxCiphertextAndTagLength(100) != 116 || c->MaxPlaintextLength(116) != 100) Fail("wrong maximum lengths");
          for (size_t ns = 0; ns <= 33; ns++) {
            Bytes pt = Plain(7, 9);
            Buf out(23, 0xEE);
            FR p(pt), none;
            CS s = c->Encrypt(ref::Pattern(ns, 2), none.v, p.v, {out.p, out.n});
            if (s.GetStatus().ok() != (ns == 12)) Fail("Encrypt with a nonce of %zu bytes: %s", ns, s.GetStatus().ok() ? "accepted" : "refused");
            Bytes ct = ref::Seal(api ? ref::CHACHA : ks == 16 ? ref::AES128 : ref::AES256, ref::Pattern(ks, 1), ref::Pattern(12, 2), {}, pt);
            FR cf(ct);
            Buf o2(7, 0xEE);
            Bytes n = ref::Pattern(12, 2);
            n.resize(ns, 0);
            CS d = c->Decrypt(n, none.v, cf.v, {o2.p, o2.n});
            if (d.GetStatus().ok() != (ns == 12)) Fail("Decrypt with a nonce of %zu bytes: %s", ns, d.GetStatus().ok() ? "accepted" : "refused");
          }
        }
      }
  // Every plaintext length.
  Section("enc_len");
  for (Aead a : kAll) {
    Bytes key = ref::Pattern(ref::KeyLen(a), 11), nonce = ref::Pattern(12, 12);
    std::vector<size_t> lens;
    size_t dense = Thorough() ? 66000 : S().frozen ? 2200 : 16640;
    for (size_t l = 0; l <= dense; l++) lens.push_back(l);
    for (size_t k = 15; k <= 17; k++) for (int d = -17; d <= 17; d++) if ((((size_t)1 << k) + d) > lens.back()) lens.push_back(((size_t)1 << k) + d);
    lens.push_back(1000003);
    for (size_t l : lens)
      if (Case()) {
        size_t aadlen = l % 3 == 0 ? 5 : l % 3 == 1 ? 0 : 13;
        Desc("%s len=%zu aad=%zu", N(a), l, aadlen);
        Bytes pt = ref::Pattern(l, 13), aad = ref::Pattern(aadlen, 14);
        auto c = Make(a, key);
        CheckEncrypt(c.get(), a, key, nonce, aad, FR(aad), pt, FR(pt), l % 2 ? 0 : 19);
      }
    std::vector<size_t> aadlens;
    for (size_t l = 0; l <= (Thorough() ? 16640 : 2048); l++) aadlens.push_back(l);
    for (size_t k = 12; k <= 17; k++) for (int d = -1; d <= 1; d++) aadlens.push_back(((size_t)1 << k) + d);
    for (size_t l : aadlens)
      if (Case()) {
        Desc("%s aadlen=%zu len=21", N(a), l);
        Bytes pt = ref::Pattern(21, 13), aad = ref::Pattern(l, 14);
        auto c = Make(a, key);
        CheckEncrypt(c.get(), a, key, nonce, aad, FR(aad), pt, FR(pt), 0);
      }
  }
  // Every single-bit key and nonce: all bits matter and are used in order.
  Section("enc_keybits");
  for (Aead a : kAll)
    for (size_t b = 0; b < 8 * (ref::KeyLen(a) + 12); b++)
      if (Case()) {
        Desc("%s bit=%zu of key||nonce", N(a), b);
        Bytes kn(ref::KeyLen(a) + 12, 0);
        kn[b / 8] = 1 << (b % 8);
        Bytes key(kn.begin(), kn.begin() + ref::KeyLen(a)), nonce(kn.begin() + ref::KeyLen(a), kn.end());
        Bytes pt = ref::Pattern(35, b), aad = ref::Pattern(5, 3);
        auto c = Make(a, key);
        CheckEncrypt(c.get(), a, key, nonce, aad, FR(aad), pt, FR(pt), 0);
      }
  // Every fragmentation of a short plaintext and of the AAD (with empty and null pieces).
  Section("enc_frag");
  size_t maxl = Thorough() ? 9 : 6, parts = Thorough() ? 5 : 4;
  for (Aead a : kAll) {
    Bytes key = ref::Pattern(ref::KeyLen(a), 21), nonce = ref::Pattern(12, 22);
    auto c = Make(a, key);
    for (size_t l = 0; l <= maxl; l++)
      for (size_t k = 0; k <= parts; k++)
        WeakCompositions(l, k, [&](const std::vector<size_t>& sz) {
          for (int nul = 0; nul < 2; nul++)
            if (Case()) {
              Bytes pt = ref::Pattern(l, 23), aad = ref::Pattern(5, 24);
              Desc("%s plaintext %s null-empties=%d; aad fragmented the same way", N(a), Show(sz).c_str(), nul);
              CheckEncrypt(c.get(), a, key, nonce, aad, FR(aad), pt, FR(pt, sz, nul), 3);
              CheckEncrypt(c.get(), a, key, nonce, pt, FR(pt, sz, nul), aad, FR(aad), 0);
              CheckEncrypt(c.get(), a, key, nonce, pt, FR(pt, sz, nul), pt, FR(pt, sz, nul), 0);
            }
        });
    // Around block boundaries: every 2- and 3-way split.
    for (size_t l : {15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 192, 255, 256, 257})
      Splits(l, Thorough() ? 65 : 17, [&](const std::vector<size_t>& sz) {
        if (Case()) {
          Bytes pt = ref::Pattern(l, 25), aad = ref::Pattern(l, 26);
          Desc("%s len=%zu plaintext and aad %s", N(a), l, Show(sz).c_str());
          CheckEncrypt(c.get(), a, key, nonce, aad, FR(aad, sz), pt, FR(pt, sz), 0);
        }
      });
  }
  Section("enc_many");
  for (Aead a : kAll)
    for (size_t l : {0, 1, 40, 700})
      ManyShapes(l, [&](const std::string& d, const std::vector<size_t>& sz, bool nul) {
        Bytes key = ref::Pattern(ref::KeyLen(a), 27), nonce = ref::Pattern(12, 28), pt = ref::Pattern(l, 25), aad = ref::Pattern(13, 26);
        Desc("%s %s", N(a), d.c_str());
        auto c = Make(a, key);
        CheckEncrypt(c.get(), a, key, nonce, aad, FR(aad), pt, FR(pt, sz, nul), 5);
        CheckEncrypt(c.get(), a, key, nonce, pt, FR(pt, sz, nul), aad, FR(aad, {6, 7}), 0);
      });
  // Pieces that share memory.
  Section("enc_shared");
  for (Aead a : kAll) {
    Bytes key = ref::Pattern(ref::KeyLen(a), 27), nonce = ref::Pattern(12, 28), base = ref::Pattern(40, 29);
    Windows(Thorough() ? 4 : 3, [&](const std::string& d, const WindowList& w) {
      Desc("%s %s of one buffer as plaintext and as additional data", N(a), d.c_str());
      Bytes flat, aad = ref::Pattern(13, 26), pt = ref::Pattern(5, 25);
      FR f(base, w, &flat);
      auto c = Make(a, key);
      CheckEncrypt(c.get(), a, key, nonce, aad, FR(aad), flat, f, 5);
      CheckEncrypt(c.get(), a, key, nonce, flat, f, pt, FR(pt), 0);
      CheckEncrypt(c.get(), a, key, nonce, flat, f, flat, f, 0);
    });
  }
  // Large pieces.
  Section("enc_large");
  for (Aead a : kAll)
    LargeSplits(0, [&](size_t l, const std::vector<size_t>& sz) {
      Bytes key = ref::Pattern(ref::KeyLen(a), 27), nonce = ref::Pattern(12, 28), pt = ref::Pattern(l, 25), aad = ref::Pattern(13, 26);
      Desc("%s plaintext %s", N(a), Show(sz).c_str());
      auto c = Make(a, key);
      CheckEncrypt(c.get(), a, key, nonce, aad, FR(aad), pt, FR(pt, sz), 300);
      Desc("%s additional data %s", N(a), Show(sz).c_str());
      CheckEncrypt(c.get(), a, key, nonce, pt, FR(pt, sz), aad, FR(aad, {6, 7}), 0);
    });
  // The product of small shapes: no / empty / split AAD, empty and tiny texts, exact and larger buffers.
  Section("enc_grid");
  for (Aead a : kAll) {
    Bytes key = ref::Pattern(ref::KeyLen(a), 27), nonce = ref::Pattern(12, 28);
    Grid([&](const Bytes& aad, const std::vector<size_t>& asz, bool anul, const Bytes& pt) {
      std::vector<std::vector<size_t>> shapes;
      for (size_t k = 0; k <= 3; k++) WeakCompositions(pt.size(), k, [&](const std::vector<size_t>& w) { if (pt.size() <= 3 || Coarse(w)) shapes.push_back(w); });
      for (auto& sz : shapes)
        for (int nul = 0; nul < 2; nul++)
          for (size_t slack : {0, 1, 16, 40, 300})
            if (Case()) {
              Desc("%s aad %s nulls %d plaintext %s nulls %d slack %zu", N(a), Show(asz).c_str(), anul, Show(sz).c_str(), nul, slack);
              auto c = Make(a, key);
              CheckEncrypt(c.get(), a, key, nonce, aad, FR(aad, asz, anul), pt, FR(pt, sz, nul), slack);
            }
    });
  }
}

static void DecSections() {
  Section("dec_many");
  for (Aead a : kAll)
    for (size_t l : {0, 1, 40, 700})
      ManyShapes(l + 16, [&](const std::string& d, const std::vector<size_t>& sz, bool nul) {
        Bytes key = ref::Pattern(ref::KeyLen(a), 27), nonce = ref::Pattern(12, 28), pt = Plain(l, 25), aad = ref::Pattern(l + 16, 26);
        Desc("%s %s; additional data the same way", N(a), d.c_str());
        auto c = Make(a, key);
        Bytes ct = ref::Seal(a, key, nonce, aad, pt);
        FR af(aad), afs(aad, sz, nul), cf(ct), cfs(ct, sz, nul);
        CheckDecrypt(c.get(), nonce, af, cfs, pt, 0);
        CheckDecrypt(c.get(), nonce, afs, cf, pt, 3);
        Bytes bad = ct;
        bad[(ct.size() * 7 + sz.size()) % ct.size()] ^= 1;
        FR bf(bad, sz, nul);
        CheckReject(c.get(), nonce, af.v, bf.v, pt.size(), true, "an altered message in many pieces");
        CheckDecrypt(c.get(), nonce, af, cfs, pt, 0);
      });
  Section("dec_shared");
  for (Aead a : kAll) {
    Bytes key = ref::Pattern(ref::KeyLen(a), 27), nonce = ref::Pattern(12, 28), base = ref::Pattern(40, 29);
    Windows(Thorough() ? 4 : 3, [&](const std::string& d, const WindowList& w) {
      Desc("%s %s of one buffer as additional data", N(a), d.c_str());
      Bytes flat, pt = Plain(9, 25);
      FR f(base, w, &flat);
      Bytes ct = ref::Seal(a, key, nonce, flat, pt);
      FR cf(ct, {4, 10, 11});
      auto c = Make(a, key);
      CheckDecrypt(c.get(), nonce, f, cf, pt, 0);
      for (size_t i = 0; i < w.size(); i++) {  // without one of the pieces, or with another in its place
        if (!w[i].second) continue;
        WindowList m = w, q = w;
        m.erase(m.begin() + i);
        q[i].first = q[i].first ? q[i].first - 1 : 1;
        if (q[i].first + q[i].second > 40) q[i].second--;
        Bytes x, y;
        FR fx(base, m, &x), fy(base, q, &y);
        if (x != flat) CheckReject(c.get(), nonce, fx.v, cf.v, 9, true, "additional data without one piece");
        if (y != flat) CheckReject(c.get(), nonce, fy.v, cf.v, 9, true, "additional data with another piece");
      }
    });
    // ciphertext pieces in one allocation, in order and reversed
    for (size_t l : {0, 1, 5, 17})
      for (size_t k = 1; k <= 3; k++)
        WeakCompositions(l + 16, k, [&](const std::vector<size_t>& sz) {
          for (int back = 0; back < 2; back++)
            if (Case()) {
              Desc("%s ciphertext||tag %s in one allocation, %s", N(a), Show(sz).c_str(), back ? "reversed" : "in order");
              Bytes pt = Plain(l, 25), aad = ref::Pattern(5, 26), ct = ref::Seal(a, key, nonce, aad, pt);
              auto lay = back ? FR::BACKWARD : FR::FORWARD;
              FR cf(ct, sz, lay), af(aad, {2, 3}, lay);
              auto c = Make(a, key);
              CheckDecrypt(c.get(), nonce, af, cf, pt, 1);
              Bytes bad = ct;
              bad[l + 15] ^= 1;
              FR bf(bad, sz, lay);
              CheckReject(c.get(), nonce, af.v, bf.v, l, true, "an altered message in one allocation");
            }
        });
  }
  Section("dec_large");
  for (Aead a : kAll)
    LargeSplits(16, [&](size_t l, const std::vector<size_t>& sz) {
      Bytes key = ref::Pattern(ref::KeyLen(a), 27), nonce = ref::Pattern(12, 28), pt = Plain(l - 16, 25), aad = ref::Pattern(13, 26);
      Bytes ct = ref::Seal(a, key, nonce, aad, pt);
      Desc("%s ciphertext||tag %s", N(a), Show(sz).c_str());
      auto c = Make(a, key);
      FR af(aad);
      CheckDecrypt(c.get(), nonce, af, FR(ct, sz), pt, 300);
      for (size_t at : {(size_t)0, l / 2, l - 17, l - 16, l - 1}) {
        Bytes bad = ct;
        bad[at] ^= 4;
        FR bf(bad, sz);
        CheckReject(c.get(), nonce, af.v, bf.v, pt.size() + (at & 1), true, "an altered large message in pieces");
      }
      Desc("%s additional data %s", N(a), Show(sz).c_str());
      Bytes ct2 = ref::Seal(a, key, nonce, ct, aad);
      FR cf(ct, sz), ef(ct2, {12, 17});
      CheckDecrypt(c.get(), nonce, cf, ef, aad, 0);
      for (size_t at : {(size_t)0, l / 2, l - 17, l - 1}) {
        Bytes bad = ct;
        bad[at] ^= 4;
        FR bf(bad, sz);
        CheckReject(c.get(), nonce, bf.v, ef.v, aad.size(), true, "altered large additional data in pieces");
      }
    });
  Section("dec_grid");
  for (Aead a : kAll) {
    Bytes key = ref::Pattern(ref::KeyLen(a), 35), nonce = ref::Pattern(12, 36);
    Grid([&](const Bytes& aad, const std::vector<size_t>& asz, bool anul, const Bytes& pt) {
      Bytes ct = ref::Seal(a, key, nonce, aad, pt);
      std::vector<std::vector<size_t>> shapes;
      for (size_t k = 1; k <= 3; k++) WeakCompositions(ct.size(), k, [&](const std::vector<size_t>& w) { if (Coarse(w)) shapes.push_back(w); });
      for (auto& sz : shapes)
        for (int nul = 0; nul < 2; nul++)
          for (int slack : {-1, 0, 1, 16, 40, 300}) {  // -1: exact, and no buffer at all if nothing is to be written
            if (slack == -1 && !pt.empty()) continue;
            if (!Case()) continue;
            Desc("%s aad %s nulls %d ciphertext||tag %s nulls %d slack %d", N(a), Show(asz).c_str(), anul, Show(sz).c_str(), nul, slack);
            FR af(aad, asz, anul), cf(ct, sz, nul);
            auto c = Make(a, key);
            if (slack >= 0) CheckDecrypt(c.get(), nonce, af, cf, pt, slack);
            auto forged = [&](const Bytes& x, const Bytes& n, const FR& ad, const char* what) {
              FR xf(x, sz, nul);
              auto fresh = Make(a, key);
              for (S2AAeadCrypter* k : {c.get(), fresh.get()})
                if (slack >= 0) {
                  CheckReject(k, n, ad.v, xf.v, pt.size() + slack, true, what);
                } else {
                  Count("rejections");
                  if (k->Decrypt(n, ad.v, xf.v, {nullptr, 0}).GetStatus().ok()) Fail("Decrypt accepted %s", what);
                }
            };
            for (size_t i = 0; i < ct.size(); i++) { Bytes x = ct; x[i] ^= 0x80 >> (i % 8); forged(x, nonce, af, "a message with a flipped bit"); }
            Bytes z = ct;
            std::fill(z.end() - 16, z.end(), 0);
            forged(z, nonce, af, "an all-zero tag");
            std::fill(z.begin(), z.end(), 0xff);
            forged(z, nonce, af, "all-ones bytes");
            Bytes n2 = nonce;
            n2[11] ^= 1;
            forged(ct, n2, af, "a message under another nonce");
            FR none, one(Bytes{7}), longer(ref::Pattern(aad.size() + 1, 46));
            if (!aad.empty()) forged(ct, nonce, none, "a message without its AAD");
            else forged(ct, nonce, one, "a message with AAD it was not made with");
            forged(ct, nonce, longer, "a message with longer AAD");
          }
    });
    // No ciphertext at all: no pieces, or empty pieces only.
    for (int pieces = 0; pieces <= 3; pieces++)
      for (int nul = 0; nul < 2; nul++)
        for (size_t aadlen : {0, 5})
          for (size_t cap : {0, 1, 20})
            if (Case()) {
              Desc("%s no ciphertext in %d pieces, nulls %d, aad %zu, buffer %zu", N(a), pieces, nul, aadlen, cap);
              FR af(ref::Pattern(aadlen, 3)), cf(Bytes(), std::vector<size_t>(pieces, 0), nul), none;
              auto c = Make(a, key);
              CheckReject(c.get(), nonce, aadlen ? af.v : none.v, cf.v, cap, true, "an empty ciphertext");
            }
  }
  Section("dec_len");
  for (Aead a : kAll) {
    Bytes key = ref::Pattern(ref::KeyLen(a), 31), nonce = ref::Pattern(12, 32);
    std::vector<size_t> lens;
    for (size_t l = 0; l <= (Thorough() ? 66000 : S().frozen ? 2200 : 16640); l++) lens.push_back(l);
    for (size_t k = 15; k <= 17; k++) for (int d = -17; d <= 17; d++) if ((((size_t)1 << k) + d) > lens.back()) lens.push_back(((size_t)1 << k) + d);
    lens.push_back(1000003);
    for (size_t l : lens)
      if (Case()) {
        size_t aadlen = l % 3 == 0 ? 5 : l % 3 == 1 ? 0 : 13;
        Desc("%s len=%zu aad=%zu", N(a), l, aadlen);
        Bytes pt = Plain(l, 33), aad = ref::Pattern(aadlen, 34);
        Bytes ct = ref::Seal(a, key, nonce, aad, pt);
        auto c = Make(a, key);
        CheckDecrypt(c.get(), nonce, FR(aad), FR(ct), pt, l % 2 ? 0 : 19);
        // one bit wrong, position moving with the length
        Bytes bad = ct;
        bad[(l * 7919) % bad.size()] ^= 1 << (l % 8);
        FR ba(bad), aa(aad);
        CheckReject(c.get(), nonce, aa.v, ba.v, l, true, "a message with one flipped bit");
      }
    std::vector<size_t> aadlens;
    for (size_t l = 0; l <= (Thorough() ? 16640 : 2048); l++) aadlens.push_back(l);
    for (size_t k = 12; k <= 17; k++) for (int d = -1; d <= 1; d++) aadlens.push_back(((size_t)1 << k) + d);
    for (size_t l : aadlens)
      if (Case()) {
        Desc("%s aadlen=%zu len=21", N(a), l);
        Bytes pt = Plain(21, 33), aad = ref::Pattern(l, 34);
        Bytes ct = ref::Seal(a, key, nonce, aad, pt);
        auto c = Make(a, key);
        CheckDecrypt(c.get(), nonce, FR(aad), FR(ct), pt, 0);
        if (l) {
          Bytes bad = aad;
          bad[(l * 31) % l] ^= 0x40;
          FR ba(bad), cf(ct);
          CheckReject(c.get(), nonce, ba.v, cf.v, 21, true, "a message with changed AAD");
        }
      }
  }
  // Every fragmentation of ciphertext||tag: the tag boundary can fall anywhere.
  Section("dec_frag");
  for (Aead a : kAll) {
    Bytes key = ref::Pattern(ref::KeyLen(a), 41), nonce = ref::Pattern(12, 42);
    auto c = Make(a, key);
    auto one = [&](size_t l, const std::vector<size_t>& sz, int nul) {
      Bytes pt = Plain(l, 43), aad = ref::Pattern(5, 44);
      Bytes ct = ref::Seal(a, key, nonce, aad, pt);
      Desc("%s len=%zu ciphertext||tag %s null-empties=%d", N(a), l, Show(sz).c_str(), nul);
      CheckDecrypt(c.get(), nonce, FR(aad), FR(ct, sz, nul), pt, 0);
      CheckDecrypt(c.get(), nonce, FR(aad), FR(ct, sz, nul), pt, 21);
      // Same fragmentation, first / last ciphertext byte and first / last tag byte wrong.
      for (size_t pos : {(size_t)0, l ? l - 1 : 0, l, l + 15}) {
        Bytes bad = ct;
        bad[pos] ^= 0x01;
        FR bf(bad, sz, nul), af(aad);
        CheckReject(c.get(), nonce, af.v, bf.v, l, true, "a tampered fragmented message");
      }
    };
    for (size_t l = 0; l <= (Thorough() ? 6 : 3); l++)
      for (size_t k = 1; k <= 4; k++)
        WeakCompositions(l + 16, k, [&](const std::vector<size_t>& sz) {
          for (int nul = 0; nul < 2; nul++) if (Case()) one(l, sz, nul);
        });
    for (size_t l : {4, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 128})
      Splits(l + 16, Thorough() ? 90 : 33, [&](const std::vector<size_t>& sz) { if (Case()) one(l, sz, 0); });
    // Every way to cut the 16 tag bytes (the ciphertext in one piece, or glued to the first piece).
    if (Thorough())
      Compositions(16, [&](const std::vector<size_t>& t) {
        if (!Case()) return;
        std::vector<size_t> sz = {3};
        sz.insert(sz.end(), t.begin(), t.end());
        one(3, sz, 0);
      });
    // AAD fragmentations on the decrypt side.
    for (size_t k = 0; k <= 4; k++)
      for (size_t l = 0; l <= 5; l++)
        WeakCompositions(l, k, [&](const std::vector<size_t>& sz) {
          for (int nul = 0; nul < 2; nul++)
            if (Case()) {
              Desc("%s aad %s null-empties=%d", N(a), Show(sz).c_str(), nul);
              Bytes pt = Plain(9, 45), aad = ref::Pattern(l, 46);
              Bytes ct = ref::Seal(a, key, nonce, aad, pt);
              CheckDecrypt(c.get(), nonce, FR(aad, sz, nul), FR(ct), pt, 0);
            }
        });
    // AAD fragmentations crossing the block boundaries of the MAC.
    for (size_t l : {15, 16, 17, 31, 32, 33, 63, 64, 65})
      Splits(l, Thorough() ? 65 : 17, [&](const std::vector<size_t>& sz) {
        if (!Case()) return;
        Desc("%s aad %s (%zu bytes)", N(a), Show(sz).c_str(), l);
        Bytes pt = Plain(18, 45), aad = ref::Pattern(l, 46);
        Bytes ct = ref::Seal(a, key, nonce, aad, pt);
        CheckDecrypt(c.get(), nonce, FR(aad, sz), FR(ct), pt, 0);
        Bytes bad = aad;
        bad[l - 1] ^= 1;
        FR bf(bad, sz), cf(ct);
        CheckReject(c.get(), nonce, bf.v, cf.v, 18, true, "a changed fragmented AAD");
      });
  }
  // Every bit of key, nonce, aad, ciphertext and tag; every truncation and extension.
  Section("dec_tamper");
  for (Aead a : kAll) {
    size_t kl = ref::KeyLen(a);
    Bytes key = ref::Pattern(kl, 51), nonce = ref::Pattern(12, 52);
    for (size_t l : {(size_t)0, (size_t)1, (size_t)16, (size_t)33, (size_t)64}) {
      Bytes pt = Plain(l, 53), aad = ref::Pattern(13, 54), ct = ref::Seal(a, key, nonce, aad, pt);
      for (int shape = 0; shape < 4; shape++) {
        auto split = [&](const Bytes& b) -> std::vector<size_t> {
          if (shape == 0 || b.empty()) return {b.size()};
          if (shape == 1) return std::vector<size_t>(b.size(), 1);
          if (shape == 2) { size_t k = b.size() > 16 ? b.size() - 16 : 0; return {k, b.size() - k}; }
          size_t k = b.size() > 9 ? b.size() - 9 : 0;
          return {k, b.size() - k};
        };
        auto reject = [&](const Bytes& n, const Bytes& ad, const Bytes& c2, const char* what, long long pos) {
          if (!Case()) return;
          Desc("%s len=%zu shape=%d %s %lld", N(a), l, shape, what, pos);
          auto c = Make(a, key);
          FR af(ad), cf(c2, split(c2));
          size_t cap = c2.size() > 16 ? c2.size() - 16 : 0;
          CheckReject(c.get(), n, af.v, cf.v, cap, true, what);
          CheckReject(c.get(), n, af.v, cf.v, cap + 40, true, what);
        };
        for (size_t b = 0; b < 8 * ct.size(); b++) { Bytes x = ct; x[b / 8] ^= 1 << (b % 8); reject(nonce, aad, x, "flipped ciphertext/tag bit", b); }
        for (size_t n = 0; n < ct.size(); n++) {
          reject(nonce, aad, Bytes(ct.begin(), ct.begin() + n), "truncated to", n);
          reject(nonce, aad, Bytes(ct.begin() + (ct.size() - n), ct.end()), "only the last bytes", n);
        }
        for (size_t n = 1; n <= 17; n++) {
          Bytes x = ct;
          x.insert(x.end(), n, 0);
          reject(nonce, aad, x, "extended with zeros", n);
          Bytes y(n, 0);
          y.insert(y.end(), ct.begin(), ct.end());
          reject(nonce, aad, y, "zeros put in front", n);
          Bytes z(ct.begin(), ct.end() - 16);
          z.insert(z.end(), n, 0x5a);
          z.insert(z.end(), ct.end() - 16, ct.end());
          reject(nonce, aad, z, "bytes inserted before the tag", n);
        }
        if (shape) continue;
        for (size_t b = 0; b < 96; b++) { Bytes x = nonce; x[b / 8] ^= 1 << (b % 8); reject(x, aad, ct, "flipped nonce bit", b); }
        for (size_t b = 0; b < 8 * aad.size(); b++) { Bytes x = aad; x[b / 8] ^= 1 << (b % 8); reject(nonce, x, ct, "flipped aad bit", b); }
        for (size_t n = 0; n < aad.size(); n++) reject(nonce, Bytes(aad.begin(), aad.begin() + n), ct, "aad truncated to", n);
        Bytes aadx = aad;
        aadx.push_back(0);
        reject(nonce, aadx, ct, "aad extended", 1);
        // bytes moved across the aad / ciphertext boundary
        if (l) {
          Bytes x = aad, y = ct;
          x.push_back(y[0]);
          y.erase(y.begin());
          reject(nonce, x, y, "first ciphertext byte moved into the aad", 0);
        }
        Bytes x(aad.begin(), aad.end() - 1), y = ct;
        y.insert(y.begin(), aad.back());
        reject(nonce, x, y, "last aad byte moved into the ciphertext", 0);
        for (size_t b = 0; b < 8 * kl; b++)
          if (Case()) {
            Desc("%s len=%zu wrong key bit %zu", N(a), l, b);
            Bytes k2 = key;
            k2[b / 8] ^= 1 << (b % 8);
            auto c = Make(a, k2);
            FR af(aad), cf(ct);
            CheckReject(c.get(), nonce, af.v, cf.v, l, true, "a message under another key");
          }
      }
    }
  }
}

static void FailSections() {
  // Output buffers that are too small, for every capacity and fragmentation.
  Section("fail_capacity");
  for (Aead a : kAll) {
    Bytes key = ref::Pattern(ref::KeyLen(a), 61), nonce = ref::Pattern(12, 62);
    auto c = Make(a, key);
    for (size_t l : {1, 2, 5, 16, 17, 33}) {
      Bytes pt = Plain(l, 63), aad = ref::Pattern(5, 64), ct = ref::Seal(a, key, nonce, aad, pt);
      auto both = [&](const std::vector<size_t>& psz, const std::vector<size_t>& csz) {
        for (size_t cap = 0; cap < l + 16; cap++)
          if (Case()) {
            Desc("%s len=%zu capacity=%zu plaintext %s ciphertext %s", N(a), l, cap, Show(psz).c_str(), Show(csz).c_str());
            FR pf(pt, psz), cf(ct, csz), af(aad);
            Buf out(cap + 24, 0xEE);
            CS s = c->Encrypt(nonce, af.v, pf.v, {out.p, cap});
            Count("short_encrypts");
            if (s.GetStatus().ok()) Fail("Encrypt into %zu bytes succeeded, needs %zu", cap, l + 16);
            for (size_t i = cap; i < out.n; i++) if (out.p[i] != 0xEE) { Fail("failed Encrypt wrote outside its buffer at %zu", i); break; }
            if (cap < l) {
              CheckReject(c.get(), nonce, af.v, cf.v, cap, true, "a message larger than the plaintext buffer");
              Bytes bad = ct;
              bad[l] ^= 1;
              FR bf(bad, csz);
              CheckReject(c.get(), nonce, af.v, bf.v, cap, true, "a forged message larger than the plaintext buffer");
            }
          }
      };
      both({l}, {l + 16});
      for (size_t k = 1; k < l; k++) both({k, l - k}, {k, l - k + 16});
      both(std::vector<size_t>(l, 1), std::vector<size_t>(l + 16, 1));
      if (l >= 5) WeakCompositions(l > 5 && !Thorough() ? 5 : (l > 17 ? 17 : l), 3, [&](const std::vector<size_t>& w) {
        std::vector<size_t> p = w, q = w;
        size_t rest = l - (w[0] + w[1] + w[2]);
        p.push_back(rest);
        q.push_back(rest + 16);
        both(p, q);
      });
    }
  }
  // A component with a length but no buffer, at every position.
  Section("fail_null");
  for (Aead a : kAll) {
    Bytes key = ref::Pattern(ref::KeyLen(a), 71), nonce = ref::Pattern(12, 72);
    auto c = Make(a, key);
    for (size_t l : {0, 1, 8, 20}) {
      Bytes pt = Plain(l, 73), aad = ref::Pattern(6, 74), ct = ref::Seal(a, key, nonce, aad, pt);
      for (size_t parts = 1; parts <= 3; parts++) {
        auto run = [&](const Bytes& data, int which) {
          std::vector<std::vector<size_t>> all;
          WeakCompositions(data.size(), parts, [&](const std::vector<size_t>& w) { all.push_back(w); });
          for (auto& w : all)
            for (size_t k = 0; k < parts; k++) {
              if (w[k] == 0) continue;
              if (!Case()) continue;
              Desc("%s len=%zu %s %s, fragment %zu null", N(a), l, which == 0 ? "plaintext" : which == 1 ? "aad(enc)" : which == 2 ? "ciphertext" : "aad(dec)", Show(w).c_str(), k);
              FR df(data, w), pf(pt), cf(ct), af(aad);
              df.v[k].iov_base = nullptr;
              if (which < 2) {
                Buf out(l + 16 + 8, 0xEE);
                CS s = c->Encrypt(nonce, which == 1 ? df.v : af.v, which == 0 ? df.v : pf.v, {out.p, l + 16});
                if (s.GetStatus().ok()) Fail("Encrypt accepted a null fragment of non-zero length");
              } else {
                CheckReject(c.get(), nonce, which == 3 ? df.v : af.v, which == 2 ? df.v : cf.v, l, true, "a null fragment of non-zero length");
              }
              // the crypter still works afterwards
              CheckEncrypt(c.get(), a, key, nonce, aad, af, pt, pf, 0);
              CheckDecrypt(c.get(), nonce, af, cf, pt, 0);
            }
        };
        run(pt, 0);
        run(aad, 1);
        run(ct, 2);
        run(aad, 3);
      }
    }
  }
  // Pieces of 2 GiB and more (the SSL libraries count in ints): refused, or handled in full.
  Section("fail_huge");
  for (Aead a : kAll) {
    if (kBoring && a == ref::CHACHA) continue;  // copies its input
    for (size_t n : {0x80000000ull, 0xffffffffull, 0x100000000ull, 0x100000005ull, 0x100000015ull})
      for (int how = 0; how < 4; how++)
        if (Case()) {
          Desc("%s %s with a piece of %zu bytes of %s", N(a), how < 2 ? "Encrypt" : "Decrypt", n, how & 1 ? "additional data" : "text");
          Bytes key = ref::Pattern(ref::KeyLen(a), 75), nonce = ref::Pattern(12, 76), ct = ref::Seal(a, key, nonce, {}, {1, 2, 3});
          auto c = Make(a, key);
          auto map = [&](int prot) { return (void*)syscall(SYS_mmap, nullptr, n + 32, prot, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); };  // not the sanitizer's
          void *in = map(PROT_READ), *out = map(PROT_READ | PROT_WRITE);
          if (in == MAP_FAILED || out == MAP_FAILED) { fprintf(stderr, "no address space\n"); exit(2); }
          FR cf(ct), pf(Bytes{1, 2, 3}), none;
          std::vector<Iovec> big = {{in, n}};
          CS s = how == 0 ? c->Encrypt(nonce, none.v, big, {out, n + 16}) : how == 1 ? c->Encrypt(nonce, big, pf.v, {out, 19}) : how == 2 ? c->Decrypt(nonce, none.v, big, {out, n}) : c->Decrypt(nonce, big, cf.v, {out, 3});
          if (how >= 2 && s.GetStatus().ok()) Fail("Decrypt accepted what nobody encrypted");
          if (how == 0 && s.GetStatus().ok() && s.GetBytesWritten() != n + 16) Fail("Encrypt of %zu bytes reports success and %zu bytes", n, s.GetBytesWritten());
          syscall(SYS_munmap, in, n + 32);
          syscall(SYS_munmap, out, n + 32);
          FR af(Bytes{}), tf(ct);
          CheckDecrypt(c.get(), nonce, af, tf, Bytes{1, 2, 3}, 0);
        }
    // Lengths without memory that make the total wrap round.
    for (size_t l : {0, 4, 15, 16, 17, 40, 4000})
      for (size_t d = 0; d <= l; d = d * 2 + 1)
        for (int first = 0; first < 2; first++)
          if (Case()) {
            Desc("%s Decrypt of %zu bytes and a null piece of 2^64-%zu", N(a), l, d);
            Bytes key = ref::Pattern(ref::KeyLen(a), 75), nonce = ref::Pattern(12, 76), data = ref::Pattern(l, 77);
            auto c = Make(a, key);
            FR f(data, first ? std::vector<size_t>{0, l} : std::vector<size_t>{l, 0}), none;
            f.v[first ? 0 : 1] = {nullptr, (size_t)0 - d};
            if (d) CheckReject(c.get(), nonce, none.v, f.v, 20, true, "a null fragment of absurd length");
            if (d) CheckReject(c.get(), nonce, none.v, f.v, 0, true, "a null fragment of absurd length");
          }
  }
}

// All call histories up to a depth on one crypter; each call is judged by the reference alone.
static void HistorySections() {
  Section("hist");
  const int kOps = 23;
  int depth = Thorough() ? 5 : S().frozen ? 3 : 4;
  for (Aead a : kAll) {
    Bytes key = ref::Pattern(ref::KeyLen(a), 81);
    struct Msg { Bytes nonce, aad, pt, ct; };
    std::vector<Msg> m;
    for (int i = 0; i < 3; i++) {
      Msg x;
      x.nonce = ref::Pattern(12, 82 + (i == 2 ? 0 : i));  // messages 0 and 2 share a nonce value
      x.aad = ref::Pattern(i == 1 ? 0 : 5, 85 + i);
      x.pt = Plain(i == 0 ? 20 : i == 1 ? 0 : 37, 88 + i);
      x.ct = ref::Seal(a, key, x.nonce, x.aad, x.pt);
      m.push_back(x);
    }
    auto op = [&](S2AAeadCrypter* c, int o) {
      switch (o) {
        case 0: case 1: case 2: { Msg& x = m[o]; CheckEncrypt(c, a, key, x.nonce, x.aad, FR(x.aad), x.pt, FR(x.pt), 0); break; }
        case 3: case 4: case 5: { Msg& x = m[o - 3]; CheckDecrypt(c, x.nonce, FR(x.aad), FR(x.ct), x.pt, 0); break; }
        case 6: { Buf b(64, 0xEE); FR f(m[0].pt), n; if (c->Encrypt(ref::Pattern(11, 1), n.v, f.v, {b.p, b.n}).GetStatus().ok()) Fail("bad nonce accepted"); break; }
        case 7: { Buf b(64, 0xEE); FR f(m[0].pt); Bytes aad = m[0].aad; FR af(aad, {2, 3}); af.v[1].iov_base = nullptr; if (c->Encrypt(m[0].nonce, af.v, f.v, {b.p, b.n}).GetStatus().ok()) Fail("null aad accepted"); break; }
        case 8: { Buf b(64, 0xEE); FR f(m[0].pt, {7, 13}), n; f.v[1].iov_base = nullptr; if (c->Encrypt(m[0].nonce, n.v, f.v, {b.p, b.n}).GetStatus().ok()) Fail("null plaintext accepted"); break; }
        case 9: { Buf b(25, 0xEE); FR f(m[0].pt), n; if (c->Encrypt(m[0].nonce, n.v, f.v, {b.p, 25}).GetStatus().ok()) Fail("short buffer accepted"); break; }
        case 10: { Buf b(10, 0xEE); FR f(m[0].pt, {9, 11}), n; if (c->Encrypt(m[0].nonce, n.v, f.v, {b.p, 10}).GetStatus().ok()) Fail("short buffer accepted"); break; }
        case 11: { Bytes x = m[0].ct; x.back() ^= 1; FR f(x), af(m[0].aad); CheckReject(c, m[0].nonce, af.v, f.v, 20, true, "bad tag"); break; }
        case 12: { Bytes x = m[2].ct; x[3] ^= 1; FR f(x, {10, 43}), af(m[2].aad); CheckReject(c, m[2].nonce, af.v, f.v, 37, true, "bad ciphertext"); break; }
        case 13: { FR f(Bytes(m[0].ct.begin(), m[0].ct.begin() + 9)), af(m[0].aad); CheckReject(c, m[0].nonce, af.v, f.v, 20, true, "short message"); break; }
        case 14: { FR f(m[0].ct, {10, 26}), af(m[0].aad); f.v[1].iov_base = nullptr; CheckReject(c, m[0].nonce, af.v, f.v, 20, true, "null fragment"); break; }
        case 15: { FR f(m[0].ct, {10, 26}), af(m[0].aad); CheckReject(c, m[0].nonce, af.v, f.v, 15, true, "small buffer"); break; }
        case 16: { FR f(m[0].ct), af(m[0].aad); CheckReject(c, ref::Pattern(13, 2), af.v, f.v, 20, true, "bad nonce"); break; }
        case 17: { FR f(m[0].ct); Bytes aad = m[0].aad; FR af(aad, {2, 3}); af.v[1].iov_base = nullptr; CheckReject(c, m[0].nonce, af.v, f.v, 20, true, "null aad"); break; }
        case 18: { FR f(m[0].ct), n; CheckReject(c, m[0].nonce, n.v, f.v, 20, true, "missing aad"); break; }
        case 19: ERR_put_error(ERR_LIB_EVP, 0, 7, "x", 1); break;  // an unrelated error sits in the SSL error queue
        case 20: { Msg& x = m[2]; CheckEncrypt(c, a, key, x.nonce, x.aad, FR(x.aad, {2, 0, 3}), x.pt, FR(x.pt, {1, 20, 16}), 40); break; }
        case 21: { Msg& x = m[2]; CheckDecrypt(c, x.nonce, FR(x.aad, {1, 4}), FR(x.ct, {30, 10, 13}), x.pt, 40); break; }
        case 22: { Msg& x = m[1]; CheckDecrypt(c, x.nonce, FR(x.aad), FR(x.ct, {5, 0, 11}), x.pt, 3); break; }
      }
    };
    std::vector<int> seq;
    std::function<void(int)> rec = [&](int d) {
      if (d == 0) {
        if (!Case()) return;
        std::string s;
        for (int o : seq) s += std::to_string(o) + " ";
        Desc("%s calls %s", N(a), s.c_str());
        auto c = Make(a, key);
        for (int o : seq) op(c.get(), o);
        Count("traces"); Count("transitions", seq.size()); Count("states", NewPrefixes(seq));
        ERR_clear_error();
        return;
      }
      for (int o = 0; o < kOps; o++) { seq.push_back(o); rec(d - 1); seq.pop_back(); }
    };
    rec(depth);
    // every call repeated 300 times, every pair of calls alternating, each followed by every call
    for (int o1 = 0; o1 < kOps; o1++)
      for (int o2 = 0; o2 < kOps; o2++)
        if (Case()) {
          Desc("%s calls %d and %d in a long alternation", N(a), o1, o2);
          auto c = Make(a, key);
          int n = o1 == o2 ? 600 : 60;
          for (int i = 0; i < n; i++) op(c.get(), i % 2 ? o2 : o1);
          for (int o = 0; o < kOps; o++) op(c.get(), o);
          Count("traces"); Count("transitions", n + kOps);
          ERR_clear_error();
        }
    // more calls than 16 bits count
    for (int o : {0, 3, 11, 19})
      if (Case()) {
        Desc("%s call %d 66000 times", N(a), o);
        auto c = Make(a, key);
        for (int i = 0; i < 66000; i++) op(c.get(), o);
        for (int o2 = 0; o2 < kOps; o2++) op(c.get(), o2);
        Count("traces"); Count("transitions", 66000 + kOps);
        ERR_clear_error();
      }
    if (!Case()) continue;
    // one long history: 3000 alternating calls
    Desc("%s 3000 calls", N(a));
    auto c = Make(a, key);
    for (int i = 0; i < 3000; i++) op(c.get(), (i * 7 + i / 20) % kOps);
    ERR_clear_error();
  }
}

int main(int argc, char** argv) {
  Init(argc, argv);
  if (Want("enc")) EncSections();
  if (Want("dec")) DecSections();
  if (Want("fail")) FailSections();
  if (Want("hist")) HistorySections();
  return Finish();
}
