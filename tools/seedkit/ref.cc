#include "ref.h"

#include <array>
#include <cstring>
#include <map>
#include <memory>

namespace ref {

Bytes FromHex(const std::string& s) {
  Bytes out;
  int hi = -1;
  for (char c : s) {
    int v = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
    if (v < 0) continue;
    if (hi < 0) hi = v; else { out.push_back(hi << 4 | v); hi = -1; }
  }
  return out;
}
std::string Hex(const uint8_t* p, size_t n) {
  static const char* d = "0123456789abcdef";
  std::string s;
  for (size_t i = 0; i < n; i++) { s += d[p[i] >> 4]; s += d[p[i] & 15]; }
  return s;
}
Bytes Pattern(size_t n, uint32_t salt) {
  Bytes b(n);
  uint32_t x = salt * 2654435761u + 12345u;
  for (size_t i = 0; i < n; i++) {
    x ^= x << 13; x ^= x >> 17; x ^= x << 5;
    b[i] = (uint8_t)(x >> 11);
  }
  return b;
}
size_t KeyLen(Aead a) { return a == AES128 ? 16 : 32; }
size_t HashLen(Hash h) { return h == SHA256 ? 32 : 48; }
Hash SuiteHash(Aead a) { return a == AES256 ? SHA384 : SHA256; }

// ---------------------------------------------------------------- SHA-2
// The round constants and initial values are the first bits of the fractional
// parts of roots of primes; they are computed, not typed in.
namespace {
typedef unsigned __int128 u128;
// floor(frac(p^(1/k)) * 2^64) for k = 2, 3 by bisection on integers.
bool PowLe(uint64_t ipart, uint64_t frac, int k, uint64_t p) {
  // is (ipart + frac/2^64)^k <= p ?   Work with x = ipart*2^64+frac (<= 72 bits) as limbs.
  // big-number multiply in base 2^32
  std::vector<uint64_t> x = {(uint32_t)frac, frac >> 32, (uint32_t)ipart};
  std::vector<uint64_t> r = {1};
  for (int i = 0; i < k; i++) {
    std::vector<uint64_t> q(r.size() + x.size() + 1, 0);
    for (size_t a = 0; a < r.size(); a++) {
      uint64_t c = 0;
      for (size_t b = 0; b < x.size(); b++) {
        u128 t = (u128)r[a] * x[b] + q[a + b] + c;
        q[a + b] = (uint32_t)t;
        c = (uint64_t)(t >> 32);
      }
      q[a + x.size()] += c;
    }
    r = q;
  }
  // compare with p * 2^(64k): limb index 2k
  size_t li = 2 * k;
  for (size_t i = r.size(); i-- > 0;) {
    uint64_t pv = i == li ? (uint32_t)p : 0;
    if (r[i] != pv) return r[i] < pv;
  }
  return true;
}
uint64_t RootFrac(uint64_t p, int k) {
  uint64_t ip = 0;
  while (PowLe(ip + 1, 0, k, p)) ip++;
  uint64_t f = 0;
  for (int b = 63; b >= 0; b--) {
    uint64_t t = f | (1ull << b);
    if (PowLe(ip, t, k, p)) f = t;
  }
  return f;
}
struct ShaTables {
  uint64_t k512[80], iv384[8];
  uint32_t k256[64], iv256[8];
  ShaTables() {
    std::vector<uint64_t> primes;
    for (uint64_t n = 2; primes.size() < 80; n++) {
      bool ok = true;
      for (uint64_t q : primes) if (n % q == 0) { ok = false; break; }
      if (ok) primes.push_back(n);
    }
    for (int i = 0; i < 80; i++) k512[i] = RootFrac(primes[i], 3);
    for (int i = 0; i < 64; i++) k256[i] = (uint32_t)(k512[i] >> 32);
    for (int i = 0; i < 8; i++) iv256[i] = (uint32_t)(RootFrac(primes[i], 2) >> 32);
    for (int i = 0; i < 8; i++) iv384[i] = RootFrac(primes[8 + i], 2);
  }
};
const ShaTables& ST() { static const ShaTables t; return t; }
inline uint32_t r32(uint32_t x, int n) { return x >> n | x << (32 - n); }
inline uint64_t r64(uint64_t x, int n) { return x >> n | x << (64 - n); }
}  // namespace

Bytes Digest(Hash h, const Bytes& m) {
  const ShaTables& t = ST();
  Bytes b = m;
  size_t blk = h == SHA256 ? 64 : 128, lenf = h == SHA256 ? 8 : 16;
  uint64_t bits = (uint64_t)m.size() * 8;
  b.push_back(0x80);
  while (b.size() % blk != blk - lenf) b.push_back(0);
  for (size_t i = 0; i < lenf; i++) b.push_back(lenf - 1 - i < 8 ? (uint8_t)(bits >> (8 * (lenf - 1 - i))) : 0);
  Bytes out;
  if (h == SHA256) {
    uint32_t s[8];
    memcpy(s, t.iv256, sizeof s);
    for (size_t o = 0; o < b.size(); o += 64) {
      uint32_t w[64];
      for (int i = 0; i < 16; i++) w[i] = (uint32_t)b[o + 4 * i] << 24 | b[o + 4 * i + 1] << 16 | b[o + 4 * i + 2] << 8 | b[o + 4 * i + 3];
      for (int i = 16; i < 64; i++) {
        uint32_t s0 = r32(w[i - 15], 7) ^ r32(w[i - 15], 18) ^ w[i - 15] >> 3, s1 = r32(w[i - 2], 17) ^ r32(w[i - 2], 19) ^ w[i - 2] >> 10;
        w[i] = w[i - 16] + s0 + w[i - 7] + s1;
      }
      uint32_t v[8];
      memcpy(v, s, sizeof v);
      for (int i = 0; i < 64; i++) {
        uint32_t t1 = v[7] + (r32(v[4], 6) ^ r32(v[4], 11) ^ r32(v[4], 25)) + ((v[4] & v[5]) ^ (~v[4] & v[6])) + t.k256[i] + w[i];
        uint32_t t2 = (r32(v[0], 2) ^ r32(v[0], 13) ^ r32(v[0], 22)) + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
        v[7] = v[6]; v[6] = v[5]; v[5] = v[4]; v[4] = v[3] + t1; v[3] = v[2]; v[2] = v[1]; v[1] = v[0]; v[0] = t1 + t2;
      }
      for (int i = 0; i < 8; i++) s[i] += v[i];
    }
    for (int i = 0; i < 8; i++) for (int k = 3; k >= 0; k--) out.push_back((uint8_t)(s[i] >> (8 * k)));
  } else {
    uint64_t s[8];
    memcpy(s, t.iv384, sizeof s);
    for (size_t o = 0; o < b.size(); o += 128) {
      uint64_t w[80];
      for (int i = 0; i < 16; i++) { w[i] = 0; for (int k = 0; k < 8; k++) w[i] = w[i] << 8 | b[o + 8 * i + k]; }
      for (int i = 16; i < 80; i++) {
        uint64_t s0 = r64(w[i - 15], 1) ^ r64(w[i - 15], 8) ^ w[i - 15] >> 7, s1 = r64(w[i - 2], 19) ^ r64(w[i - 2], 61) ^ w[i - 2] >> 6;
        w[i] = w[i - 16] + s0 + w[i - 7] + s1;
      }
      uint64_t v[8];
      memcpy(v, s, sizeof v);
      for (int i = 0; i < 80; i++) {
        uint64_t t1 = v[7] + (r64(v[4], 14) ^ r64(v[4], 18) ^ r64(v[4], 41)) + ((v[4] & v[5]) ^ (~v[4] & v[6])) + t.k512[i] + w[i];
        uint64_t t2 = (r64(v[0], 28) ^ r64(v[0], 34) ^ r64(v[0], 39)) + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
        v[7] = v[6]; v[6] = v[5]; v[5] = v[4]; v[4] = v[3] + t1; v[3] = v[2]; v[2] = v[1]; v[1] = v[0]; v[0] = t1 + t2;
      }
      for (int i = 0; i < 8; i++) s[i] += v[i];
    }
    for (int i = 0; i < 6; i++) for (int k = 7; k >= 0; k--) out.push_back((uint8_t)(s[i] >> (8 * k)));
  }
  return out;
}

Bytes Hmac(Hash h, const Bytes& key, const Bytes& m) {
  size_t blk = h == SHA256 ? 64 : 128;
  Bytes k = key.size() > blk ? Digest(h, key) : key;
  k.resize(blk, 0);
  Bytes i(blk), o(blk);
  for (size_t j = 0; j < blk; j++) { i[j] = k[j] ^ 0x36; o[j] = k[j] ^ 0x5c; }
  i.insert(i.end(), m.begin(), m.end());
  Bytes d = Digest(h, i);
  o.insert(o.end(), d.begin(), d.end());
  return Digest(h, o);
}
Bytes HkdfExpand(Hash h, const Bytes& prk, const Bytes& info, size_t n) {
  Bytes out, t;
  for (unsigned i = 1; out.size() < n; i++) {
    Bytes m = t;
    m.insert(m.end(), info.begin(), info.end());
    m.push_back((uint8_t)i);
    t = Hmac(h, prk, m);
    out.insert(out.end(), t.begin(), t.end());
  }
  out.resize(n);
  return out;
}
Bytes ExpandLabel(Hash h, const Bytes& secret, const std::string& label, size_t n) {
  std::string l = "tls13 " + label;
  Bytes info = {(uint8_t)(n >> 8), (uint8_t)n, (uint8_t)l.size()};
  info.insert(info.end(), l.begin(), l.end());
  info.push_back(0);
  return HkdfExpand(h, secret, info, n);
}

// ---------------------------------------------------------------- AES-GCM
namespace {
struct AesTab {
  uint8_t sbox[256];
  AesTab() {
    auto mul = [](uint8_t a, uint8_t b) { uint8_t r = 0; for (; b; b >>= 1) { if (b & 1) r ^= a; a = (a << 1) ^ (a & 0x80 ? 0x1b : 0); } return r; };
    for (int x = 0; x < 256; x++) {
      uint8_t inv = 0;
      for (int y = 1; y < 256 && x; y++) if (mul(x, y) == 1) { inv = y; break; }
      uint8_t s = inv;
      for (int i = 1; i < 5; i++) s ^= (uint8_t)(inv << i | inv >> (8 - i));
      sbox[x] = s ^ 0x63;
    }
  }
};
const AesTab& AT() { static const AesTab t; return t; }
inline uint8_t xt(uint8_t a) { return (a << 1) ^ (a & 0x80 ? 0x1b : 0); }

struct Aes {
  uint8_t rk[15][16];
  int rounds;
  explicit Aes(const Bytes& key) {
    const uint8_t* S = AT().sbox;
    int nk = key.size() / 4;
    rounds = nk + 6;
    uint8_t w[60][4];
    for (int i = 0; i < nk; i++) memcpy(w[i], &key[4 * i], 4);
    uint8_t rc = 1;
    for (int i = nk; i < 4 * (rounds + 1); i++) {
      uint8_t t[4];
      memcpy(t, w[i - 1], 4);
      if (i % nk == 0) {
        uint8_t x = t[0];
        t[0] = S[t[1]] ^ rc; t[1] = S[t[2]]; t[2] = S[t[3]]; t[3] = S[x];
        rc = xt(rc);
      } else if (nk > 6 && i % nk == 4) {
        for (int k = 0; k < 4; k++) t[k] = S[t[k]];
      }
      for (int k = 0; k < 4; k++) w[i][k] = w[i - nk][k] ^ t[k];
    }
    for (int r = 0; r <= rounds; r++) for (int c = 0; c < 4; c++) memcpy(&rk[r][4 * c], w[4 * r + c], 4);
  }
  void Block(const uint8_t in[16], uint8_t out[16]) const {
    const uint8_t* S = AT().sbox;
    uint8_t s[16], t[16];
    for (int i = 0; i < 16; i++) s[i] = in[i] ^ rk[0][i];
    for (int r = 1; r <= rounds; r++) {
      for (int c = 0; c < 4; c++) for (int k = 0; k < 4; k++) t[4 * c + k] = S[s[4 * ((c + k) & 3) + k]];
      if (r < rounds) {
        for (int c = 0; c < 4; c++) {
          uint8_t a = t[4 * c], b = t[4 * c + 1], d = t[4 * c + 2], e = t[4 * c + 3], all = a ^ b ^ d ^ e;
          s[4 * c] = a ^ all ^ xt(a ^ b); s[4 * c + 1] = b ^ all ^ xt(b ^ d); s[4 * c + 2] = d ^ all ^ xt(d ^ e); s[4 * c + 3] = e ^ all ^ xt(e ^ a);
        }
      } else {
        memcpy(s, t, 16);
      }
      for (int i = 0; i < 16; i++) s[i] ^= rk[r][i];
    }
    memcpy(out, s, 16);
  }
};
struct Ghash {
  uint64_t tab[16][256][2];  // byte position tables
  uint64_t y0 = 0, y1 = 0;
  explicit Ghash(const uint8_t h[16]) {
    uint64_t v0 = 0, v1 = 0;
    for (int i = 0; i < 8; i++) { v0 = v0 << 8 | h[i]; v1 = v1 << 8 | h[8 + i]; }
    uint64_t bit[128][2];
    for (int i = 0; i < 128; i++) {
      bit[i][0] = v0; bit[i][1] = v1;
      bool c = v1 & 1;
      v1 = v1 >> 1 | v0 << 63;
      v0 >>= 1;
      if (c) v0 ^= 0xe100000000000000ull;
    }
    for (int p = 0; p < 16; p++) for (int b = 0; b < 256; b++) {
      uint64_t a0 = 0, a1 = 0;
      for (int i = 0; i < 8; i++) if (b & (0x80 >> i)) { a0 ^= bit[8 * p + i][0]; a1 ^= bit[8 * p + i][1]; }
      tab[p][b][0] = a0; tab[p][b][1] = a1;
    }
  }
  void Block(const uint8_t* x, size_t n) {
    uint8_t z[16] = {0};
    if (n) memcpy(z, x, n < 16 ? n : 16);
    uint64_t a0 = 0, a1 = 0;
    for (int p = 0; p < 16; p++) {
      uint8_t b = z[p] ^ (uint8_t)(p < 8 ? y0 >> (56 - 8 * p) : y1 >> (120 - 8 * p));
      a0 ^= tab[p][b][0]; a1 ^= tab[p][b][1];
    }
    y0 = a0; y1 = a1;
  }
};
struct GcmKey {
  Aes aes;
  std::shared_ptr<Ghash> proto;
  explicit GcmKey(const Bytes& k) : aes(k) {
    uint8_t z[16] = {0}, h[16];
    aes.Block(z, h);
    proto = std::make_shared<Ghash>(h);
  }
};
const GcmKey& Gcm(const Bytes& key) {
  static thread_local std::map<Bytes, GcmKey> cache;
  auto it = cache.find(key);
  if (it == cache.end()) {
    if (cache.size() > 64) cache.clear();
    it = cache.emplace(key, GcmKey(key)).first;
  }
  return it->second;
}
Bytes GcmCtr(const GcmKey& g, const Bytes& nonce, const Bytes& in) {
  uint8_t ctr[16], ks[16];
  memcpy(ctr, nonce.data(), 12);
  Bytes out(in.size());
  uint32_t c = 2;
  for (size_t o = 0; o < in.size(); o += 16, c++) {
    ctr[12] = c >> 24; ctr[13] = c >> 16; ctr[14] = c >> 8; ctr[15] = c;
    g.aes.Block(ctr, ks);
    for (size_t i = 0; i < 16 && o + i < in.size(); i++) out[o + i] = in[o + i] ^ ks[i];
  }
  return out;
}
Bytes GcmTag(const GcmKey& g, const Bytes& nonce, const Bytes& aad, const Bytes& ct) {
  Ghash& h = *g.proto;
  h.y0 = h.y1 = 0;
  for (size_t o = 0; o < aad.size(); o += 16) h.Block(&aad[o], aad.size() - o);
  for (size_t o = 0; o < ct.size(); o += 16) h.Block(&ct[o], ct.size() - o);
  uint8_t l[16];
  uint64_t a = aad.size() * 8, c = ct.size() * 8;
  for (int i = 0; i < 8; i++) { l[i] = a >> (56 - 8 * i); l[8 + i] = c >> (56 - 8 * i); }
  h.Block(l, 16);
  uint8_t j0[16], e[16];
  memcpy(j0, nonce.data(), 12);
  j0[12] = j0[13] = j0[14] = 0; j0[15] = 1;
  g.aes.Block(j0, e);
  Bytes t(16);
  for (int i = 0; i < 16; i++) t[i] = e[i] ^ (uint8_t)(i < 8 ? h.y0 >> (56 - 8 * i) : h.y1 >> (120 - 8 * i));
  return t;
}

// ------------------------------------------------------- ChaCha20-Poly1305
inline uint32_t l32(const uint8_t* p) { return p[0] | p[1] << 8 | p[2] << 16 | (uint32_t)p[3] << 24; }
inline uint32_t rl(uint32_t x, int n) { return x << n | x >> (32 - n); }
void ChaBlock(const Bytes& key, uint32_t ctr, const Bytes& nonce, uint8_t out[64]) {
  uint32_t s[16] = {0x61707865, 0x3320646e, 0x79622d32, 0x6b206574};
  for (int i = 0; i < 8; i++) s[4 + i] = l32(&key[4 * i]);
  s[12] = ctr;
  for (int i = 0; i < 3; i++) s[13 + i] = l32(&nonce[4 * i]);
  uint32_t x[16];
  memcpy(x, s, sizeof x);
  auto qr = [&](int a, int b, int c, int d) {
    x[a] += x[b]; x[d] = rl(x[d] ^ x[a], 16); x[c] += x[d]; x[b] = rl(x[b] ^ x[c], 12);
    x[a] += x[b]; x[d] = rl(x[d] ^ x[a], 8); x[c] += x[d]; x[b] = rl(x[b] ^ x[c], 7);
  };
  for (int i = 0; i < 10; i++) {
    qr(0, 4, 8, 12); qr(1, 5, 9, 13); qr(2, 6, 10, 14); qr(3, 7, 11, 15);
    qr(0, 5, 10, 15); qr(1, 6, 11, 12); qr(2, 7, 8, 13); qr(3, 4, 9, 14);
  }
  for (int i = 0; i < 16; i++) { uint32_t v = x[i] + s[i]; out[4 * i] = v; out[4 * i + 1] = v >> 8; out[4 * i + 2] = v >> 16; out[4 * i + 3] = v >> 24; }
}
Bytes ChaXor(const Bytes& key, const Bytes& nonce, const Bytes& in) {
  Bytes out(in.size());
  uint8_t b[64];
  uint32_t c = 1;
  for (size_t o = 0; o < in.size(); o += 64, c++) {
    ChaBlock(key, c, nonce, b);
    for (size_t i = 0; i < 64 && o + i < in.size(); i++) out[o + i] = in[o + i] ^ b[i];
  }
  return out;
}
Bytes PolyTag(const Bytes& key, const Bytes& nonce, const Bytes& aad, const Bytes& ct) {
  uint8_t otk[64];
  ChaBlock(key, 0, nonce, otk);
  Bytes m = aad;
  while (m.size() % 16) m.push_back(0);
  m.insert(m.end(), ct.begin(), ct.end());
  while (m.size() % 16) m.push_back(0);
  for (int i = 0; i < 8; i++) m.push_back((uint8_t)((uint64_t)aad.size() >> (8 * i)));
  for (int i = 0; i < 8; i++) m.push_back((uint8_t)((uint64_t)ct.size() >> (8 * i)));
  // 26-bit limbs
  uint64_t r[5], h[5] = {0, 0, 0, 0, 0};
  uint8_t rb[16];
  memcpy(rb, otk, 16);
  rb[3] &= 15; rb[7] &= 15; rb[11] &= 15; rb[15] &= 15;
  rb[4] &= 252; rb[8] &= 252; rb[12] &= 252;
  auto limbs = [](const uint8_t* p, uint64_t hi, uint64_t o[5]) {
    u128 v = 0;
    for (int i = 15; i >= 0; i--) v = v << 8 | p[i];
    for (int i = 0; i < 4; i++) { o[i] = (uint64_t)v & 0x3ffffff; v >>= 26; }
    o[4] = (uint64_t)v | hi << 24;
  };
  limbs(rb, 0, r);
  for (size_t o = 0; o < m.size(); o += 16) {
    uint64_t c[5];
    limbs(&m[o], 1, c);
    for (int i = 0; i < 5; i++) h[i] += c[i];
    uint64_t d[5];
    for (int i = 0; i < 5; i++) {
      d[i] = 0;
      for (int j = 0; j < 5; j++) d[i] += h[j] * (j <= i ? r[i - j] : 5 * r[5 + i - j]);
    }
    uint64_t cy = 0;
    for (int i = 0; i < 5; i++) { d[i] += cy; h[i] = d[i] & 0x3ffffff; cy = d[i] >> 26; }
    h[0] += cy * 5;
    h[1] += h[0] >> 26; h[0] &= 0x3ffffff;
  }
  for (int k = 0; k < 3; k++) {
    uint64_t cy = 0;
    for (int i = 0; i < 5; i++) { h[i] += cy; cy = h[i] >> 26; h[i] &= 0x3ffffff; }
    h[0] += cy * 5;
  }
  // reduce mod 2^130 - 5
  uint64_t g[5];
  uint64_t cy = 5;
  for (int i = 0; i < 5; i++) { g[i] = h[i] + cy; cy = g[i] >> 26; g[i] &= 0x3ffffff; }
  if (cy) memcpy(h, g, sizeof h);
  u128 v = (u128)h[0] | (u128)h[1] << 26 | (u128)h[2] << 52 | (u128)h[3] << 78 | (u128)h[4] << 104;
  u128 s = 0;
  for (int i = 15; i >= 0; i--) s = s << 8 | otk[16 + i];
  v += s;
  Bytes t(16);
  for (int i = 0; i < 16; i++) { t[i] = (uint8_t)v; v >>= 8; }
  return t;
}
}  // namespace

Bytes Seal(Aead a, const Bytes& key, const Bytes& nonce, const Bytes& aad, const Bytes& pt) {
  Bytes ct, tag;
  if (a == CHACHA) {
    ct = ChaXor(key, nonce, pt);
    tag = PolyTag(key, nonce, aad, ct);
  } else {
    const GcmKey& g = Gcm(key);
    ct = GcmCtr(g, nonce, pt);
    tag = GcmTag(g, nonce, aad, ct);
  }
  ct.insert(ct.end(), tag.begin(), tag.end());
  return ct;
}
bool Open(Aead a, const Bytes& key, const Bytes& nonce, const Bytes& aad, const Bytes& in, Bytes* pt) {
  if (in.size() < 16) return false;
  Bytes ct(in.begin(), in.end() - 16), tag(in.end() - 16, in.end());
  Bytes want = a == CHACHA ? PolyTag(key, nonce, aad, ct) : GcmTag(Gcm(key), nonce, aad, ct);
  if (want != tag) return false;
  *pt = a == CHACHA ? ChaXor(key, nonce, ct) : GcmCtr(Gcm(key), nonce, ct);
  return true;
}

// ---------------------------------------------------------------- TLS 1.3
Direction::Direction(Aead s, const Bytes& sec, uint64_t seq0) : suite(s), secret(sec), seq(seq0) { Derive(); }
void Direction::Derive() {
  Hash h = SuiteHash(suite);
  key = ExpandLabel(h, secret, "key", KeyLen(suite));
  iv = ExpandLabel(h, secret, "iv", 12);
}
void Direction::Rekey() {
  secret = ExpandLabel(SuiteHash(suite), secret, "traffic upd", secret.size());
  seq = 0;
  Derive();
}
Bytes Direction::Nonce() const {
  Bytes n = iv;
  for (int i = 0; i < 8; i++) n[4 + i] ^= (uint8_t)(seq >> (56 - 8 * i));
  return n;
}
Bytes Direction::RawRecord(const Bytes& inner) {
  size_t len = inner.size() + 16;
  Bytes rec = {0x17, 3, 3, (uint8_t)(len >> 8), (uint8_t)len};
  Bytes ct = Seal(suite, key, Nonce(), rec, inner);
  rec.insert(rec.end(), ct.begin(), ct.end());
  seq++;
  return rec;
}
Bytes Direction::Record(uint8_t type, const Bytes& content, size_t pad) {
  Bytes inner = content;
  inner.push_back(type);
  inner.resize(inner.size() + pad, 0);
  return RawRecord(inner);
}

std::string SelfTest() {
  if (Hex(Digest(SHA256, FromHex("616263"))) != "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad") return "sha256";
  if (Hex(Digest(SHA384, FromHex("616263"))) != "cb00753f45a35e8bb5a03d699ac65007272c32ab0eded1631a8b605a43ff5bed8086072ba1e7cc2358baeca134c825a7") return "sha384";
  // RFC 5869 A.1, A.2
  if (Hex(HkdfExpand(SHA256, FromHex("077709362c2e32df0ddc3f0dc47bba6390b6c73bb50f9c3122ec844ad7c2b3e5"), FromHex("f0f1f2f3f4f5f6f7f8f9"), 42)) !=
      "3cb25f25faacd57a90434f64d0362f2a2d2d0a90cf1a5a4c5db02d56ecc4c5bf34007208d5b887185865") return "hkdf1";
  // RFC 4231 test case 2 (HMAC-SHA-256 / 384)
  if (Hex(Hmac(SHA256, FromHex("4a656665"), FromHex("7768617420646f2079612077616e7420666f72206e6f7468696e673f"))) != "5bdcc146bf60754e6a042426089575c75a003f089d2739839dec58b964ec3843") return "hmac256";
  if (Hex(Hmac(SHA384, FromHex("4a656665"), FromHex("7768617420646f2079612077616e7420666f72206e6f7468696e673f"))) != "af45d2e376484031617f78d2b58a6b1b9c7ef464f5a01b47e42ec3736322445e8e2240ca5e69e2c78b3239ecfab21649") return "hmac384";
  // GCM spec test case 4 and 16
  Bytes aad = FromHex("feedfacedeadbeeffeedfacedeadbeefabaddad2");
  Bytes pt = FromHex("d9313225f88406e5a55909c5aff5269a86a7a9531534f7da2e4c303d8a318a721c3c0c95956809532fcf0e2449a6b525b16aedf5aa0de657ba637b39");
  Bytes n = FromHex("cafebabefacedbaddecaf888");
  if (Hex(Seal(AES128, FromHex("feffe9928665731c6d6a8f9467308308"), n, aad, pt)) !=
      "42831ec2217774244b7221b784d0d49ce3aa212f2c02a4e035c17e2329aca12e21d514b25466931c7d8f6a5aac84aa051ba30b396a0aac973d58e0915bc94fbc3221a5db94fae95ae7121a47") return "gcm128";
  if (Hex(Seal(AES256, FromHex("feffe9928665731c6d6a8f9467308308feffe9928665731c6d6a8f9467308308"), n, aad, pt)) !=
      "522dc1f099567d07f47f37a32a84427d643a8cdcbfe5c0c97598a2bd2555d1aa8cb08e48590dbb3da7b08b1056828838c5f61e6393ba7a0abcc9f66276fc6ece0f4e1768cddf8853bb2d551b") return "gcm256";
  // RFC 8439 2.8.2
  std::string m = "Ladies and Gentlemen of the class of '99: If I could offer you only one tip for the future, sunscreen would be it.";
  Bytes out = Seal(CHACHA, FromHex("808182838485868788898a8b8c8d8e8f909192939495969798999a9b9c9d9e9f"), FromHex("070000004041424344454647"), FromHex("50515253c0c1c2c3c4c5c6c7"), Bytes(m.begin(), m.end()));
  if (Hex(out).substr(0, 32) != "d31a8d34648e60db7b86afbc53ef7ec2" || Hex(out).substr(2 * (out.size() - 16)) != "1ae10b594f09e26a7e902ecbd0600691") return "chacha";
  Bytes back;
  if (!Open(CHACHA, FromHex("808182838485868788898a8b8c8d8e8f909192939495969798999a9b9c9d9e9f"), FromHex("070000004041424344454647"), FromHex("50515253c0c1c2c3c4c5c6c7"), out, &back) || std::string(back.begin(), back.end()) != m) return "open";
  // RFC 8448 section 3: client application traffic keys
  Bytes ss = FromHex("a11af9f05531f856ad47116b45a950328204b4f44bfb6b3a4b4f1f3fcb631643");
  if (Hex(ExpandLabel(SHA256, ss, "key", 16)) != "9f02283b6c9c07efc26bb9f2ac92e356") return "tlskey";
  if (Hex(ExpandLabel(SHA256, ss, "iv", 12)) != "cf782b88dd83549aadf1e984") return "tlsiv";
  return "";
}
}  // namespace ref
