// Reference key generations and records of one direction, memoized; shared names.
#ifndef VERIF_HARNESS_STREAM_H_
#define VERIF_HARNESS_STREAM_H_
#include <openssl/crypto.h>

#include "harness/h.h"
#include "include/s2a_options.h"
#include "src/crypto/s2a_aead_crypter.h"

using namespace h;
using ref::Aead;
using ref::Bytes;
using s2a::aead_crypter::Iovec;
typedef s2a::s2a_options::S2AOptions Opt;
typedef Frags<Iovec> FR;

#ifdef OPENSSL_IS_BORINGSSL
static const bool kBoring = true;
#else
static const bool kBoring = false;
#endif

static const Aead kAll[] = {ref::AES128, ref::AES256, ref::CHACHA};
static const char* N(Aead a) { return a == ref::AES128 ? "AES128" : a == ref::AES256 ? "AES256" : "CHACHA"; }
static Opt::Ciphersuite CS(Aead a) {
  return a == ref::AES128 ? Opt::Ciphersuite::AES_128_GCM_SHA256 : a == ref::AES256 ? Opt::Ciphersuite::AES_256_GCM_SHA384 : Opt::Ciphersuite::CHACHA20_POLY1305_SHA256;
}
static size_t SecretLen(Aead a) { return ref::HashLen(ref::SuiteHash(a)); }
static Bytes Secret(Aead a, int salt) { return ref::Pattern(SecretLen(a), 500 + salt); }
static Bytes operator+(const Bytes& a, const Bytes& b) { Bytes r = a; r.insert(r.end(), b.begin(), b.end()); return r; }
static std::string U64(uint64_t v) { return std::to_string(v); }

// Every key generation of one direction, with the sealed records memoized.
struct Stream {
  Aead suite;
  std::vector<ref::Direction> gens;
  std::map<std::string, Bytes> memo;
  Stream(Aead s, const Bytes& secret) : suite(s) { gens.push_back(ref::Direction(s, secret, 0)); }
  ref::Direction& Gen(size_t g) {
    while (gens.size() <= g) { ref::Direction d = gens.back(); d.Rekey(); gens.push_back(d); }
    return gens[g];
  }
  const Bytes& Raw(size_t g, uint64_t seq, const Bytes& inner) {
    std::string k = std::to_string(g) + "," + std::to_string(seq) + "," + std::string(inner.begin(), inner.end());
    auto it = memo.find(k);
    if (it != memo.end()) return it->second;
    ref::Direction d = Gen(g);
    d.seq = seq;
    if (memo.size() > 200000) memo.clear();
    return memo[k] = d.RawRecord(inner);
  }
  static Bytes Inner(uint8_t type, const Bytes& c, size_t pad) {
    Bytes i = c;
    i.push_back(type);
    i.resize(i.size() + pad, 0);
    return i;
  }
  const Bytes& Rec(size_t g, uint64_t seq, uint8_t type, const Bytes& c, size_t pad = 0) { return Raw(g, seq, Inner(type, c, pad)); }
  // Bare AEAD with arbitrary associated data.
  const Bytes& Seal(size_t g, uint64_t seq, const Bytes& aad, const Bytes& pt) {
    std::string k = "s" + std::to_string(g) + "," + std::to_string(seq) + "," + std::to_string(aad.size()) + "," + std::string(aad.begin(), aad.end()) + std::string(pt.begin(), pt.end());
    auto it = memo.find(k);
    if (it != memo.end()) return it->second;
    ref::Direction d = Gen(g);
    d.seq = seq;
    if (memo.size() > 200000) memo.clear();
    return memo[k] = ref::Seal(suite, d.key, d.Nonce(), aad, pt);
  }
};

static Bytes Msg(int type, size_t n, uint32_t salt) {
  Bytes b = {(uint8_t)type, (uint8_t)(n >> 16), (uint8_t)(n >> 8), (uint8_t)n}, p = ref::Pattern(n, salt);
  return b + p;
}
static const Bytes kKu = {0x18, 0, 0, 1, 0}, kKu1 = {0x18, 0, 0, 1, 1};

// Runs f on every sequence of `depth` operations out of `ops`, and on long ones: every
// operation repeated `single` times, every ordered pair of operations alternating `pair`
// times, and every block of three copies of one and three of another repeated, each
// followed by every operation once.
static void Histories(int ops, int depth, const std::function<void(const std::vector<int>&)>& f, int single = 300, int pair = 40) {
  if (S().frozen && !Thorough() && depth > 2) depth--;
  std::vector<int> seq;
  std::function<void(int)> rec = [&](int left) {
    if (!left) { if (Case()) f(seq); return; }
    for (int o = 0; o < ops; o++) { seq.push_back(o); rec(left - 1); seq.pop_back(); }
  };
  rec(depth);
  for (int x = 0; x < ops && single; x++)
    for (int y = 0; y < ops; y++)
      for (int k : {1, 3}) {
        if (x == y && k == 3) continue;
        if (!Case()) continue;
        seq.clear();
        if (x == y) seq.assign(single, x);
        else for (int i = 0; i < pair; i++) seq.push_back((i / k) % 2 ? y : x);
        for (int o = 0; o < ops; o++) seq.push_back(o);
        f(seq);
      }
}
static std::string Names(const std::vector<int>& seq, const char* const* names) {
  std::string d;
  for (size_t i = 0, j; i < seq.size(); i = j) {
    for (j = i; j < seq.size() && seq[j] == seq[i];) j++;
    d += std::string(" ") + names[seq[i]];
    if (j - i > 9) d += "*" + std::to_string(j - i); else j = i + 1;
  }
  return d;
}
#endif
