// Secrets in diagnostics (C25): whatever happens, no log message, error message,
// debug name or output on stdout or stderr holds bytes of a traffic secret, key,
// IV, access token, session ticket or plaintext, raw or in a usual encoding.
#include <sanitizer/common_interface_defs.h>

#include <unordered_map>

#include "harness/faults.h"
#include "harness/h.h"
#include "harness/pb.h"
#include "harness/stream.h"
#include "include/access_token_manager_factory.h"
#include "include/s2a_context.h"
#include "include/s2a_frame_protector.h"
#include "include/s2a_proxy.h"
#include "src/crypto/hkdf.h"
#include "src/crypto/s2a_aead_crypter.h"
#include "src/record_protocol/handshake_message_handler.h"
#include "src/record_protocol/s2a_crypter.h"
#include "src/record_protocol/s2a_half_connection.h"
#include "src/record_protocol/s2a_ticket_sender.h"
#include "src/proto/upb-generated/proto/s2a.upb.h"
#include "upb/upb.hpp"

using pb::Str;
using s2a::aead_crypter::S2AAeadCrypter;
using s2a::frame_protector::S2AFrameProtector;
using s2a::record_protocol::S2ACrypter;
using s2a::record_protocol::S2AHalfConnection;
using s2a::s2a_proxy::S2AProxy;
typedef S2ACrypter::S2ACrypterStatusCode Code;
typedef S2ACrypter::RecordType RT;

// ------------------------------------------------------------- the monitor
static const size_t kW = 5;  // this many consecutive bytes of a secret are a leak
struct Watch {
  std::unordered_map<uint64_t, const char*> win;  // windows of secrets -> whose
  std::unordered_map<std::string, const char*> dec, hex;  // windows as numbers without separators
  std::unordered_set<std::string> clean;          // messages found clean
  std::unordered_set<std::string> added;
  static uint64_t Key(const unsigned char* p) { uint64_t k = 0; for (size_t i = 0; i < kW; i++) k = k << 8 | p[i]; return k; }
  void Add(const char* whose, const void* data, size_t n) {
    const unsigned char* p = (const unsigned char*)data;
    if (!added.insert(Str((const char*)p, n)).second) return;
    clean.clear();
    for (size_t i = 0; i + kW <= n; i++) {
      std::set<int> distinct(p + i, p + i + kW);
      if (distinct.size() < 4) continue;
      win[Key(p + i)] = whose;
      Str d, x;
      for (size_t j = i; j < i + kW; j++) { d += std::to_string(p[j]); x += F("%x", p[j]); }
      if (d.size() >= 11) dec[d] = whose;
      if (x.size() >= 9) hex[x] = whose;
    }
  }
  void Add(const char* whose, const Bytes& b) { Add(whose, b.data(), b.size()); }
  void Add(const char* whose, const Str& b) { Add(whose, b.data(), b.size()); }
  const char* Find(const Str& s) const {
    for (size_t i = 0; i + kW <= s.size(); i++) {
      auto it = win.find(Key((const unsigned char*)s.data() + i));
      if (it != win.end()) return it->second;
    }
    return nullptr;
  }
  static int Hex(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
  static int B64(int c) { return c >= 'A' && c <= 'Z' ? c - 'A' : c >= 'a' && c <= 'z' ? c - 'a' + 26 : c >= '0' && c <= '9' ? c - '0' + 52 : c == '+' || c == '-' ? 62 : c == '/' || c == '_' ? 63 : -1; }
  static Str Unescape(const Str& s, char esc) {
    Str o;
    for (size_t i = 0; i < s.size(); i++) {
      if (s[i] != esc || i + 1 >= s.size()) { o += s[i]; continue; }
      if (esc == '%') {
        if (i + 2 < s.size() && Hex(s[i + 1]) >= 0 && Hex(s[i + 2]) >= 0) { o += (char)(Hex(s[i + 1]) * 16 + Hex(s[i + 2])); i += 2; } else o += s[i];
        continue;
      }
      char c = s[++i];
      if (c >= '0' && c <= '7') {
        int v = 0, k = 0;
        while (k < 3 && i < s.size() && s[i] >= '0' && s[i] <= '7') { v = v * 8 + s[i++] - '0'; k++; }
        i--;
        o += (char)v;
      } else if (c == 'x' || c == 'X' || c == 'u') {
        int v = 0, k = 0, most = c == 'u' ? 4 : 2;
        while (k < most && i + 1 < s.size() && Hex(s[i + 1]) >= 0) { v = v * 16 + Hex(s[++i]); k++; }
        o += (char)v;
      } else {
        o += c == 'n' ? '\n' : c == 't' ? '\t' : c == 'r' ? '\r' : c == 'a' ? '\a' : c == 'b' ? '\b' : c == 'f' ? '\f' : c == 'v' ? '\v' : c;
      }
    }
    return o;
  }
  const char* Leak(const Str& m, const char** how) const {
    const char* w;
    *how = "as they are";
    if ((w = Find(m))) return w;
    *how = "escaped";
    if ((w = Find(Unescape(m, '\\'))) || (w = Find(Unescape(m, '%')))) return w;
    // hexadecimal, with or without separators
    *how = "in hexadecimal";
    for (int keep = 0; keep < 2; keep++) {
      Str t;
      for (size_t i = 0; i < m.size(); i++) {
        char c = m[i];
        if ((c == '0' || c == '\\') && i + 1 < m.size() && (m[i + 1] == 'x' || m[i + 1] == 'X')) { i++; continue; }
        if (!keep && !isalnum((unsigned char)c)) continue;
        t += c;
      }
      for (size_t i = 0; i < t.size();) {
        size_t j = i;
        while (j < t.size() && Hex(t[j]) >= 0) j++;
        if (j - i >= 2 * kW)
          for (size_t o = 0; o < 2; o++) {
            Str b;
            for (size_t k = i + o; k + 1 < j; k += 2) b += (char)(Hex(t[k]) * 16 + Hex(t[k + 1]));
            if ((w = Find(b))) return w;
          }
        i = j + 1;
      }
    }
    // lists of numbers
    *how = "as numbers";
    for (int base : {10, 16, 8}) {
      Str b;
      for (size_t i = 0; i <= m.size();) {
        if (i == m.size()) break;
        if (!isalnum((unsigned char)m[i])) { i++; continue; }
        size_t j = i;
        while (j < m.size() && isalnum((unsigned char)m[j])) j++;
        Str t = m.substr(i, j - i);
        bool neg = base == 10 && i > 0 && m[i - 1] == '-';
        i = j;
        if (base == 16 && t.size() > 2 && t[0] == '0' && (t[1] == 'x' || t[1] == 'X')) t = t.substr(2);
        // an ffffff.. prefix of a sign-extended byte
        if (base == 16 && t.size() > 2 && (t.compare(0, 2, "ff") == 0 || t.compare(0, 2, "FF") == 0)) t = t.substr(t.size() - 2);
        long v = 0;
        bool good = t.size() <= 3;
        for (size_t k = 0; k < t.size() && good; k++) { int h = Hex(t[k]); if (h < 0 || h >= base) good = false; v = v * base + h; }
        if (!good || v > 255) { if ((w = Find(b))) return w; b.clear(); continue; }
        b += (char)(neg ? -v : v);
      }
      if ((w = Find(b))) return w;
    }
    for (int base : {10, 16}) {
      auto& set = base == 10 ? dec : hex;
      for (size_t i = 0; i < m.size();) {
        size_t j = i;
        while (j < m.size() && Hex(m[j]) >= 0 && Hex(m[j]) < base) j++;
        for (size_t k = i; k < j; k++)
          for (size_t n = base == 10 ? 11 : 9; n <= 15 && k + n <= j; n++) {
            auto it = set.find(m.substr(k, n));
            if (it != set.end()) return it->second;
          }
        i = j + 1;
      }
    }
    *how = "in base64";
    for (size_t i = 0; i < m.size();) {
      size_t j = i;
      while (j < m.size() && B64(m[j]) >= 0) j++;
      if (j - i >= 7)
        for (size_t o = 0; o < 4; o++) {
          Str b;
          unsigned acc = 0;
          int bits = 0;
          for (size_t k = i + o; k < j; k++) { acc = acc << 6 | B64(m[k]); bits += 6; if (bits >= 8) { bits -= 8; b += (char)(acc >> bits); } acc &= 0xffff; }
          if ((w = Find(b))) return w;
        }
      i = j + 1;
    }
    return nullptr;
  }
} g_watch;

static std::string g_leak;  // what the current operation leaked
static std::string Printable(const Str& s) {
  Str o;
  for (unsigned char c : s.substr(0, 200)) o += c >= 32 && c < 127 ? Str(1, c) : F("\\x%02x", c);
  return o;
}
static void Say(const char* where, const Str& m) {
  Count("messages");
  if (g_watch.clean.count(m)) return;
  const char* how;
  const char* whose = g_watch.Leak(m, &how);
  if (whose) { if (g_leak.empty()) g_leak = F("%s holds bytes of %s, %s: \"%s\"", where, whose, how, Printable(m).c_str()); return; }
  if (g_watch.clean.size() < 100000) g_watch.clean.insert(m);
  Outcome(m.substr(0, 60));
}
static void Say(const char* where, const absl::Status& s) { Say(where, s.ToString()); }
static std::function<void(const std::string&)> Log() { return [](const std::string& m) { Say("a log message", m); }; }

// Output on stdout and stderr goes to a file in memory during an operation.
static int g_mem = -1, g_out, g_err;
template <class Fn>
static void Do(Fn f) {
  if (g_mem < 0) {
    g_mem = memfd_create("out", 0);
    g_out = dup(1);
    g_err = dup(2);
    __sanitizer_set_report_fd((void*)(intptr_t)g_err);
    if (g_mem < 0 || g_out < 0 || g_err < 0) { perror("memfd"); exit(2); }
  }
  dup2(g_mem, 1);
  dup2(g_mem, 2);
  During(f);
  fflush(stdout);
  fflush(stderr);
  dup2(g_out, 1);
  dup2(g_err, 2);
  off_t n = lseek(g_mem, 0, SEEK_END);
  if (n > 0) {
    Str s((size_t)n, 0);
    if (pread(g_mem, &s[0], s.size(), 0) != n) exit(2);
    Say("output on stdout or stderr", s);
    if (ftruncate(g_mem, 0) || lseek(g_mem, 0, SEEK_SET)) exit(2);
  }
  Count("transitions");
  if (!g_leak.empty()) { std::string l = g_leak; g_leak.clear(); Fail("%s", l.c_str()); }
}

static Bytes Plain(size_t n, uint32_t salt) { Bytes b = ref::Pattern(n, salt); g_watch.Add("plaintext", b); return b; }
static void AddDirection(Stream& s, size_t gens) {
  for (size_t g = 0; g <= gens; g++) {
    ref::Direction d = s.Gen(g);
    g_watch.Add("a traffic secret", d.secret);
    g_watch.Add("a key", d.key);
    g_watch.Add("an IV", d.iv);
  }
}
// Runs the script without faults, then with every SSL library call failing, before
// and after its work; thorough: also every pair of failing calls.
static void WithFaults(const std::string& name, const std::function<void()>& script) {
  g.Reset(-1, 0, -1, 0);
  script();  // not a case: every process needs the number of calls
  long n = g.calls;
  for (long i = 0; i < n; i++)
    for (int mi = 0; mi < 2; mi++) {
      if (!Case()) continue;
      Desc("%s: call %ld fails %s", name.c_str(), i, mi ? "after its work" : "at once");
      g.Reset(i, mi, -1, 0);
      Count("traces");
      script();
      long m = g.calls;
      if (!Thorough()) continue;
      for (long j = i + 1; j < m; j++)
        for (int mj = 0; mj < 2; mj++) {
          Desc("%s: calls %ld and %ld fail, %d %d", name.c_str(), i, j, mi, mj);
          g.Reset(i, mi, j, mj);
          Count("traces");
          script();
        }
    }
  g.Reset(-1, 0, -1, 0);
}

// ------------------------------------------------------------- crypters and key derivation
static void AeadDiag() {
  Bytes nonce = ref::Pattern(12, 3), aad = ref::Pattern(13, 4);
  Section("d_create");
  for (int chacha = 0; chacha < 2; chacha++)
    for (size_t n = 0; n <= 100; n++)
      for (int salt = 0; salt < 3; salt++)
        if (Case()) {
          Desc("%s key of %zu bytes, %d", chacha ? "CHACHA" : "AES", n, salt);
          Bytes key = ref::Pattern(n, 900 + salt);
          g_watch.Add("a key", key);
          Count("traces");
          Do([&] {
            auto r = chacha ? s2a::aead_crypter::CreateChachaPolyAeadCrypter(key) : s2a::aead_crypter::CreateAesGcmAeadCrypter(key);
            if (r.index() == 0) Say("an error", absl::get<0>(r));
          });
        }
  Section("d_aead");
  for (Aead a : kAll) {
    Bytes key = ref::Pattern(a == ref::AES128 ? 16 : 32, 1);
    g_watch.Add("a key", key);
    auto make = [&]() -> std::unique_ptr<S2AAeadCrypter> {
      std::unique_ptr<S2AAeadCrypter> c;
      Do([&] {
        auto r = a == ref::CHACHA ? s2a::aead_crypter::CreateChachaPolyAeadCrypter(key) : s2a::aead_crypter::CreateAesGcmAeadCrypter(key);
        if (r.index() == 0) Say("an error", absl::get<0>(r)); else c = std::move(absl::get<1>(r));
      });
      return c;
    };
    for (size_t n : {(size_t)0, (size_t)1, (size_t)9, (size_t)40, (size_t)200})
      for (size_t cap = 0; cap <= n + 17; cap++)
        for (size_t nl : {0, 11, 12, 13, 16})
          for (int damage = 0; damage < 7; damage++) {
            if (!Case()) continue;
            Desc("%s %zu bytes, capacity %zu, nonce of %zu, %d", N(a), n, cap, nl, damage);
            Count("traces");
            auto c = make();
            if (!c) { Fail("not created"); continue; }
            Bytes pt = Plain(n, 70 + n), ct = ref::Seal(a, key, nonce, aad, pt), nn = ref::Pattern(nl, 3);
            FR af(aad), pf(pt, {n / 2, n - n / 2});
            if (damage == 1) ct[0] ^= 1;
            if (damage == 2) ct.back() ^= 0x80;
            if (damage == 3) ct.resize(ct.size() - 1);
            if (damage == 4) ct.resize(ct.size() / 2);
            if (damage == 5) ct.resize(ct.size() + 3, 7);
            FR cf(ct, {ct.size() / 3, ct.size() - ct.size() / 3});
            if (damage == 6) { pf.v.push_back(Iovec{nullptr, 3}); cf.v.push_back(Iovec{nullptr, 3}); }
            Buf o(cap, 0xEE);
            Do([&] { auto s = c->Encrypt(nn, af.v, pf.v, {o.p, o.n}); Say("an error", s.GetStatus()); });
            Do([&] { auto s = c->Decrypt(nn, af.v, cf.v, {o.p, o.n}); Say("an error", s.GetStatus()); });
            Do([&] { auto s = c->Decrypt(nn, pf.v, cf.v, {o.p, o.n}); Say("an error", s.GetStatus()); });
          }
    Bytes pt = Plain(40, 7), ct = ref::Seal(a, key, nonce, aad, pt);
    WithFaults(F("%s crypter", N(a)), [&] {
      auto c = make();
      if (!c) return;
      FR af(aad), pf(pt, {17, 23}), cf(ct, {20, ct.size() - 20});
      Buf o(60, 0xEE);
      for (int k = 0; k < 2; k++) {
        Do([&] { auto s = c->Encrypt(nonce, af.v, pf.v, {o.p, o.n}); Say("an error", s.GetStatus()); });
        Do([&] { auto s = c->Decrypt(nonce, af.v, cf.v, {o.p, o.n}); Say("an error", s.GetStatus()); });
      }
    });
  }
  Section("d_hkdf");
  for (int hh = 0; hh < 2; hh++) {
    auto hash = hh ? s2a::hkdf::HashFunction::SHA384_hash_function : s2a::hkdf::HashFunction::SHA256_hash_function;
    for (size_t pl = 0; pl <= 100; pl++)
      for (size_t ol : {(size_t)0, (size_t)1, (size_t)12, (size_t)32, (size_t)48, (size_t)100, (size_t)255 * 32, (size_t)255 * 32 + 1, (size_t)255 * 48, (size_t)255 * 48 + 1})
        if (Case()) {
          Desc("hash %d, secret of %zu, %zu bytes out", hh, pl, ol);
          Bytes prk = ref::Pattern(pl, 300 + pl), info = ref::Pattern(11, 2), out(ol, 0x11);
          g_watch.Add("a secret", prk);
          Count("traces");
          Do([&] {
            auto s = s2a::hkdf::HkdfDeriveSecret(hash, prk, info, out);
            g_watch.Add("a derived secret", out.data(), std::min(out.size(), (size_t)100));
            Say("an error", s);
          });
        }
    Bytes prk = ref::Pattern(hh ? 48 : 32, 1), info = ref::Pattern(11, 2);
    g_watch.Add("a secret", prk);
    g_watch.Add("a derived secret", ref::HkdfExpand(hh ? ref::SHA384 : ref::SHA256, prk, info, 97));
    WithFaults(F("HKDF %d", hh), [&] {
      for (int k = 0; k < 2; k++) { Bytes out(97, 0x11); Do([&] { Say("an error", s2a::hkdf::HkdfDeriveSecret(hash, prk, info, out)); }); }
    });
  }
}

// ------------------------------------------------------------- half connection
static const char* kHalfOps[] = {"encrypt", "encrypt(small)", "encrypt(null)", "decrypt", "decrypt(forged)", "decrypt(small)", "decrypt(short)", "update"};
struct HalfD {
  Aead a;
  Stream* st;
  uint64_t seq;
  size_t gen = 0;
  Bytes aad = ref::Pattern(5, 1);
  std::unique_ptr<S2AHalfConnection> c;
  HalfD(Aead a_, Stream* s, uint64_t q) : a(a_), st(s), seq(q) {
    Do([&] {
      auto r = S2AHalfConnection::Create(CS(a), q, st->gens[0].secret);
      if (r.index() == 0) Say("an error", absl::get<0>(r)); else c = std::move(absl::get<1>(r));
    });
  }
  void Op(int o) {
    if (!c) return;
    Bytes pt = Plain(24, 9), ct = st->Seal(gen, seq, aad, pt);
    if (o == 4) ct[3] ^= 4;
    if (o == 6) ct.resize(9);
    FR af(aad), pf(pt, {7, 17}), cf(ct, {5, ct.size() - 5});
    Buf out(o == 1 || o == 5 ? 11 : 40, 0xEE);
    if (o < 3) { if (o == 2) pf.v.push_back(Iovec{nullptr, 4}); Do([&] { auto s = c->Encrypt(af.v, pf.v, {out.p, out.n}); Say("an error", s.GetStatus()); }); seq++; }
    else if (o < 7) { Do([&] { auto s = c->Decrypt(af.v, cf.v, {out.p, out.n}); Say("an error", s.GetStatus()); Outcome(F("half decrypt %d", s.GetStatus().ok())); }); seq++; }
    else { bool ok = false; Do([&] { auto s = c->UpdateKey(); ok = s.ok(); Say("an error", s); }); if (ok) { gen++; seq = 0; } }
    St(F("h%d g%zu s%s o%d", (int)a, gen, U64(seq).c_str(), o));
  }
};
static void HalfDiag() {
  Section("d_half");
  for (Aead a : kAll) {
    Stream st(a, Secret(a, 1));
    AddDirection(st, 8);
    for (uint64_t seq : {(uint64_t)0, ~(uint64_t)1})
      Histories(8, Thorough() ? 5 : 4, [&](const std::vector<int>& s) {
        Desc("%s half connection from %s:%s", N(a), U64(seq).c_str(), Names(s, kHalfOps).c_str());
        Count("traces");
        HalfD h(a, &st, seq);
        for (int o : s) h.Op(o);
      }, 60, 24);
    for (size_t n = 0; n <= 130; n++)
      if (Case()) {
        Desc("%s half connection with a secret of %zu bytes", N(a), n);
        Bytes sec = ref::Pattern(n, 200 + n);
        g_watch.Add("a traffic secret", sec);
        Count("traces");
        Do([&] {
          auto r = S2AHalfConnection::Create(CS(a), 0, sec);
          if (r.index() == 0) Say("an error", absl::get<0>(r));
        });
      }
    WithFaults(F("%s half connection", N(a)), [&] {
      HalfD h(a, &st, 3);
      for (int o : {0, 3, 7, 0, 3, 4, 7, 0, 3}) h.Op(o);
    });
  }
}

// ------------------------------------------------------------- records
struct Rec { const char* name; int type; Bytes body; int how; };  // how: 0 good, 1 forged, 2 replayed, 3 short header, 4 wrong type, 5 wrong version, 6 wrong length, 7 raw inner, 8 short payload
static Bytes Tickets(std::initializer_list<size_t> sizes) {
  Bytes b;
  for (size_t n : sizes) { Bytes t = Msg(4, n, 1000 + n); g_watch.Add("a session ticket", t); b = b + t; }
  return b;
}
static const std::vector<Rec>& Recs() {
  static const std::vector<Rec> r = [] {
    std::vector<Rec> v;
    Bytes d = Plain(30, 12);
    v.push_back({"data", 0x17, d, 0});
    v.push_back({"forged", 0x17, d, 1});
    v.push_back({"replayed", 0x17, d, 2});
    v.push_back({"wrong-header-type", 0x17, d, 4});
    v.push_back({"wrong-length", 0x17, d, 6});
    v.push_back({"type0", 0x17, Bytes(20, 0), 7});
    v.push_back({"unknown-type", 0x37, d, 0});
    v.push_back({"alert", 0x15, Bytes{2, 40}, 0});
    v.push_back({"long-alert", 0x15, d, 0});
    v.push_back({"close", 0x15, Bytes{1, 0}, 0});
    v.push_back({"key-update", 0x16, kKu, 0});
    v.push_back({"key-update-request", 0x16, kKu1, 0});
    v.push_back({"bad-key-update", 0x16, Bytes{0x18, 0, 0, 6} + Plain(6, 13), 0});
    v.push_back({"ticket", 0x16, Tickets({40}), 0});
    Bytes t = Tickets({80});
    v.push_back({"half-ticket", 0x16, Bytes(t.begin(), t.begin() + 50), 0});
    v.push_back({"tickets", 0x16, Tickets({33, 34, 35, 36, 37, 38}), 0});
    v.push_back({"other-handshake", 0x16, Bytes{0x0b, 0, 0, 30} + d, 0});
    v.push_back({"huge-handshake", 0x16, Bytes{0x04, 0xff, 0xff, 0xff} + d, 0});
    v.push_back({"too-long", 0x17, Plain(16400, 14), 0});
    v.push_back({"wrong-version", 0x17, d, 5});
    v.push_back({"short-header", 0x17, d, 3});
    v.push_back({"short-payload", 0x17, d, 8});
    return v;
  }();
  return r;
}
// The bytes of a record of direction st at (gen, seq); uses: whether it is decrypted with that number.
static Bytes Wire(Stream* st, size_t gen, uint64_t seq, const Rec& r, bool* uses) {
  Bytes w = r.how == 7 ? st->Raw(gen, seq, r.body) : st->Rec(gen, r.how == 2 ? seq - 1 : seq, (uint8_t)r.type, r.body);
  *uses = r.how < 3 || r.how == 7;
  if (r.how == 1) w[9] ^= 2;
  if (r.how == 4) w[0] = 0x16;
  if (r.how == 5) w[1] = 9;
  if (r.how == 6) w[4] ^= 1;
  return w;
}
static bool SendTrue() { return true; }
static bool SendFalse() { return false; }
static int g_send = 0;
static bool (*Sender(s2a::s2a_ticket_sender::TicketSenderOptions&))() { return g_send == 0 ? nullptr : g_send == 1 ? SendTrue : SendFalse; }
struct ConnD {
  Aead a;
  Stream *in, *out;
  size_t ig = 0;
  uint64_t is;
  std::unique_ptr<S2ACrypter> c;
  ConnD(Aead a_, Stream* i, Stream* o, uint64_t in_seq, uint64_t out_seq) : a(a_), in(i), out(o), is(in_seq) {
    Do([&] {
      auto r = S2ACrypter::Create(Opt::TlsVersion::TLS1_3, CS(a), 7, "url", Opt::Identity::FromSpiffeId("x"), in->gens[0].secret, out->gens[0].secret, in_seq, out_seq, Sender, nullptr, nullptr, Log());
      if (r.index() == 0) Say("an error", absl::get<0>(r)); else c = std::move(absl::get<1>(r));
    });
  }
  ~ConnD() { Do([&] { c.reset(); }); }
  void Unprotect(const Rec& r, size_t cap) {
    if (!c) return;
    bool uses;
    Bytes w = Wire(in, ig, is, r, &uses);
    size_t hl = r.how == 3 ? 3 : 5;
    FR hd(Bytes(w.begin(), w.begin() + hl)), pl(Bytes(w.begin() + hl, r.how == 8 ? w.end() - 3 : w.end()), {7, w.size() - hl - 7 - (r.how == 8 ? 3 : 0)});
    Buf o(cap, 0xEE);
    Code code = Code::OK;
    Do([&] { auto s = c->Unprotect(hd.v[0], pl.v, {o.p, o.n}); code = s.GetCode(); Say("an error", s.GetErrorMessage()); });
    Outcome(F("%s: code %d", r.name, (int)code));
    if (uses && cap >= r.body.size()) is++;
    if (code == Code::OK && (r.body == kKu || r.body == kKu1)) { ig++; is = 0; }
    St(F("r%d g%zu s%s %s %d", (int)a, ig, U64(is).c_str(), r.name, (int)code));
  }
  void Protect(int kind) {
    if (!c) return;
    size_t n = kind == 2 ? 16385 : 20;
    Bytes pt = Plain(n, 11);
    FR f(pt, {n / 3, n - n / 3});
    if (kind == 3) f.v.push_back(Iovec{nullptr, 5});
    Buf o(kind == 1 ? 20 : n + 22, 0xEE);
    Do([&] { auto s = c->Protect(kind == 4 ? RT::ALERT : RT::APPLICATION_DATA, f.v, {o.p, o.n}); Say("an error", s.GetErrorMessage()); });
  }
  void Update() { if (c) Do([&] { Say("an error", c->UpdateOutboundKey()); }); }
};
static void RecordDiag() {
  auto& recs = Recs();
  const int nr = (int)recs.size();
  std::vector<std::string> names;
  for (auto& r : recs) names.push_back(r.name);
  for (const char* x : {"data(small buffer)", "protect", "protect(small)", "protect(long)", "protect(null)", "protect(alert)", "update"}) names.push_back(x);
  std::vector<const char*> cn;
  for (auto& x : names) cn.push_back(x.c_str());
  auto op = [&](ConnD& h, int o) {
    if (o < nr) h.Unprotect(recs[o], 17000);
    else if (o == nr) h.Unprotect(recs[0], 9);
    else if (o < nr + 6) h.Protect(o - nr - 1);
    else h.Update();
  };
  const int ops = (int)names.size();
  std::vector<std::unique_ptr<Stream>> ins, outs;
  for (Aead a : kAll) {
    ins.emplace_back(new Stream(a, Secret(a, 1)));
    outs.emplace_back(new Stream(a, Secret(a, 2)));
    AddDirection(*ins.back(), 8);
    AddDirection(*outs.back(), 8);
  }
  Section("d_record");
  for (int ai = 0; ai < 3; ai++) {
    for (uint64_t seq : {(uint64_t)0, ~(uint64_t)1})
      for (int send = 0; send < 3; send++) {
        if (send && seq) continue;
        Histories(ops, Thorough() ? (send || seq ? 3 : 4) : (seq || (send && ai) ? 2 : 3), [&](const std::vector<int>& s) {
          Desc("%s record protocol from %s, sender %d:%s", N(kAll[ai]), U64(seq).c_str(), send, Names(s, cn.data()).c_str());
          Count("traces");
          g_send = send;
          ConnD h(kAll[ai], ins[ai].get(), outs[ai].get(), seq, seq);
          for (int o : s) op(h, o);
        }, seq || send ? 0 : 12, 12);
      }
    // every capacity, for every kind of record
    for (int r = 0; r < nr; r++)
      for (size_t cap = 0; cap <= 60; cap++)
        if (Case()) {
          Desc("%s %s with a buffer of %zu bytes", N(kAll[ai]), recs[r].name, cap);
          Count("traces");
          g_send = 2;
          ConnD h(kAll[ai], ins[ai].get(), outs[ai].get(), 0, 0);
          h.Unprotect(recs[r], cap);
          h.Unprotect(recs[0], 40);
        }
    // every inner content type, handshake message type and alert
    for (int t = 0; t < 256; t++)
      for (int k = 0; k < 4; k++)
        if (Case()) {
          Desc("%s type %d, %d", N(kAll[ai]), t, k);
          Count("traces");
          g_send = 2;
          ConnD h(kAll[ai], ins[ai].get(), outs[ai].get(), 0, 0);
          Bytes d = Plain(30, 12);
          Rec r{"value", k == 0 ? t : k == 3 ? 0x15 : 0x16, k == 0 ? d : k == 1 ? Bytes{(uint8_t)t, 0, 0, 30} + d : k == 2 ? Bytes{4, 0, 0, (uint8_t)t} + d : Bytes{2, (uint8_t)t}, 0};
          h.Unprotect(r, 40);
          h.Unprotect(recs[0], 40);
        }
    for (size_t n = 0; n <= 130; n++)
      for (int which = 0; which < 2; which++)
        if (Case()) {
          Desc("%s record protocol with %s secret of %zu bytes", N(kAll[ai]), which ? "an outbound" : "an inbound", n);
          Bytes sec = ref::Pattern(n, 200 + n), good = Secret(kAll[ai], 1);
          g_watch.Add("a traffic secret", sec);
          Count("traces");
          for (auto ver : {Opt::TlsVersion::TLS1_3, Opt::TlsVersion::TLS1_2})
            Do([&] {
              auto r = S2ACrypter::Create(ver, CS(kAll[ai]), 7, "url", Opt::Identity::FromSpiffeId("x"), which ? good : sec, which ? sec : good, 0, 0, Sender, nullptr, nullptr, Log());
              if (r.index() == 0) Say("an error", absl::get<0>(r));
            });
        }
    g_send = 2;
    WithFaults(F("%s record protocol", N(kAll[ai])), [&] {
      ConnD h(kAll[ai], ins[ai].get(), outs[ai].get(), 0, 0);
      h.Protect(0);
      h.Unprotect(recs[0], 40);
      h.Unprotect(recs[13], 0);
      h.Unprotect(recs[10], 0);
      h.Unprotect(recs[0], 40);
      h.Update();
      h.Protect(0);
      h.Unprotect(recs[9], 0);
    });
  }
  Section("d_sizes");
  // every length of data, alerts, padding and tickets; many tickets, records and updates
  std::vector<size_t> sizes;
  for (size_t n = 0; n <= (Thorough() ? 4200u : 700u); n++) sizes.push_back(n);
  for (size_t n : {1000, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 16000, 16382, 16383, 16384}) if (n > sizes.back()) sizes.push_back(n);
  static const int kTypes[] = {0x17, 0x15, 0x16, 0x37};
  for (int ai = 0; ai < 3; ai++)
    for (size_t n : sizes)
      for (int k = 0; k < 10; k++) {
        if (!Case()) continue;
        Desc("%s size %zu, %d", N(kAll[ai]), n, k);
        Count("traces");
        g_send = 2;
        ConnD h(kAll[ai], ins[ai].get(), outs[ai].get(), 0, 0);
        Bytes d = Plain(n, 12);
        if (k < 4) h.Unprotect({"sized", kTypes[k], d, 0}, 17000);
        if (k == 4) h.Unprotect({"sized", 0x17, d, 1}, 17000);
        if (k == 5) h.Unprotect({"sized", 0x17, d, 0}, n ? n - 1 : 0);
        if (k == 6) { Bytes i = d; i.push_back(0x17); i.resize(std::min<size_t>(16385, 2 * n + 1)); h.Unprotect({"sized", 0x17, i, 7}, 17000); }
        if (k == 7 || k == 8) {
          Bytes t;
          for (int j = 0; j < (k == 8 ? 6 : 1); j++) t = t + Msg(4, n, 3000);
          g_watch.Add("a session ticket", t);
          for (size_t at = 0; at < t.size(); at += 16384) h.Unprotect({"sized", 0x16, Bytes(t.begin() + at, t.begin() + std::min(t.size(), at + 16384)), 0}, 17000);
        }
        if (k == 9 && h.c) {
          for (int how = 0; how < 3; how++) {
            FR f(d, {n / 3, n - n / 3});
            Buf o(how == 1 ? n / 2 : n + 22, 0xEE);
            Do([&] { auto s = h.c->Protect(how == 2 ? RT::HANDSHAKE : RT::APPLICATION_DATA, f.v, {o.p, o.n}); Say("an error", s.GetErrorMessage()); });
          }
        }
        h.Unprotect(recs[0], 40);
        h.Protect(0);
      }
  for (int ai = 0; ai < 3; ai++)
    for (int k = 0; k < 5; k++)
      if (Case()) {
        Desc("%s a long connection, %d", N(kAll[ai]), k);
        Count("traces");
        g_send = 1;
        Stream si(kAll[ai], Secret(kAll[ai], 21)), so(kAll[ai], Secret(kAll[ai], 22));
        AddDirection(si, 100);
        AddDirection(so, 100);
        ConnD h(kAll[ai], &si, &so, 0, 0);
        const Rec ku{"key-update", 0x16, kKu, 0}, one{"ticket", 0x16, Tickets({20}), 0};
        for (int i = 0; i < (k == 2 ? 1100 : 90); i++) {
          if (k == 0) { h.Unprotect(ku, 40); h.Update(); }
          if (k == 1) h.Unprotect(one, 60);
          if (k == 2) h.Protect(0);
          if (k == 3) { h.Unprotect(i % 3 == 2 ? ku : i % 3 ? one : recs[0], 60); h.Protect(i % 5); }
          if (k == 4) h.Unprotect({"forged", 0x17, recs[0].body, 1}, 40);
        }
        h.Unprotect(recs[0], 40);
      }
  Section("d_handler");
  for (size_t cut = 0; cut <= 44; cut++)
    for (int t = 0; t < 256; t++)
      if (Case()) {
        Desc("handshake message of type %d cut at %zu", t, cut);
        Count("traces");
        Bytes b = Bytes{(uint8_t)t, 0, 0, 40} + Plain(40, 12);
        s2a::handshake_message_handler::HandshakeMessageHandler h;
        for (int k = 0; k < 2; k++) {
          FR f(k ? Bytes(b.begin() + cut, b.end()) : Bytes(b.begin(), b.begin() + cut));
          Do([&] {
            auto r = h.ProcessHandshakeMessage((const uint8_t*)f.v[0].iov_base, f.v[0].iov_len);
            if (r.index() == 0) Say("an error", absl::get<0>(r));
          });
        }
      }
}

// ------------------------------------------------------------- frame protector
struct FrameD {
  Stream *in, *out;
  size_t ig = 0;
  uint64_t is;
  std::string url = "s2a";
  Opt::Identity id = Opt::Identity::FromSpiffeId("x");
  std::map<void*, size_t> live;
  long fail_alloc = -1, allocs = 0;
  std::unique_ptr<S2AFrameProtector> p;
  FrameD(Aead a, Stream* i, Stream* o, uint64_t seq) : in(i), out(o), is(seq) {
    S2AFrameProtector::S2AFrameProtectorOptions opt = {Opt::TlsVersion::TLS1_3, CS(a), in->gens[0].secret, out->gens[0].secret, seq, seq, url, id, 5, nullptr, nullptr,
                                                       [this](size_t n) { if (allocs++ == fail_alloc) return Iovec{nullptr, 0}; void* q = malloc(n ? n : 1); live[q] = n; return Iovec{q, n}; },
                                                       [this](Iovec v) { if (live.erase(v.iov_base)) free(v.iov_base); }, Log()};
    Do([&] {
      auto r = S2AFrameProtector::Create(opt);
      if (!r.ok()) Say("an error", r.status()); else p = std::move(*r);
    });
  }
  ~FrameD() { Do([&] { p.reset(); }); for (auto& x : live) free(x.first); }
  void Protect(int kind) {
    if (!p) return;
    size_t n = kind == 1 ? 16390 : 20;
    Bytes pt = Plain(n, 5);
    FR f(pt, {n / 2, n - n / 2});
    allocs = 0;
    fail_alloc = kind == 2 ? 0 : -1;
    if (kind < 3) Do([&] { auto r = p->Protect(f.v); Say("an error", r.status); });
    else { Buf o(kind == 3 ? 5 : 100, 0xEE); Iovec v{o.p, o.n}; Do([&] { Say("an error", p->Protect(f.v, v)); }); }
  }
  // how: 0 as a whole, 1 a data record in front, 2 the last byte missing, 3 a byte more, 4 into a small buffer, 5 into a buffer, 6 the first allocation fails, 7 the second, 8+k: k+2 data records in front
  void Unprotect(const Rec& r, int how) {
    if (!p || r.how == 3 || r.how == 8) return;
    Bytes w;
    bool uses = true;
    auto add = [&](const Rec& x) {
      w = w + Wire(in, ig, is, x, &uses);
      if (uses) is++;
    };
    if (how == 1) add(Recs()[0]);
    for (int k = 0; how >= 8 && k < how - 6; k++) add({"front", 0x17, Plain(25 + 4 * k, 300 + k), 0});
    add(r);
    if (how == 2) w.pop_back();
    if (how == 3) w.push_back(0x17);
    FR f(w, {3, w.size() - 3});
    allocs = 0;
    fail_alloc = how == 6 ? 0 : how == 7 ? 1 : -1;
    bool ok = false;
    if (how == 4 || how == 5) { Buf o(how == 4 ? 6 : 17000, 0xEE); Iovec v{o.p, o.n}; Do([&] { auto s = p->Unprotect(f.v, v); ok = s.ok(); Say("an error", s); }); }
    else Do([&] { auto x = p->Unprotect(f.v); ok = x.status.ok(); Say("an error", x.status); for (auto& v : x.bytes) if (live.erase(v.iov_base)) free(v.iov_base); });
    if (ok && (r.body == kKu || r.body == kKu1)) { ig++; is = 0; }
    Outcome(F("frame %s: %d", r.name, ok));
    St(F("f g%zu s%s %s %d %d", ig, U64(is).c_str(), r.name, how, ok));
  }
};
static void FrameDiag() {
  auto& recs = Recs();
  const int nr = (int)recs.size();
  std::vector<std::unique_ptr<Stream>> ins, outs;
  for (Aead a : kAll) {
    ins.emplace_back(new Stream(a, Secret(a, 1)));
    outs.emplace_back(new Stream(a, Secret(a, 2)));
    AddDirection(*ins.back(), 8);
    AddDirection(*outs.back(), 8);
  }
  Section("d_frame");
  // every kind of record in every way, after every kind of record
  for (int ai = 0; ai < 3; ai++)
    for (uint64_t seq : {(uint64_t)0, ~(uint64_t)1})
      for (int r1 = -1; r1 < nr; r1++)
        for (int r2 = 0; r2 < nr; r2++)
          for (int how = 0; how < 11; how++)
            for (int pk = 0; pk < 5; pk++) {
              if (how >= 8 && pk) continue;
              if (!Case()) continue;
              Desc("%s frame protector from %s: %s, then %s in way %d, protect %d", N(kAll[ai]), U64(seq).c_str(), r1 < 0 ? "-" : recs[r1].name, recs[r2].name, how, pk);
              Count("traces");
              FrameD h(kAll[ai], ins[ai].get(), outs[ai].get(), seq);
              if (r1 >= 0) h.Unprotect(recs[r1], 0);
              h.Protect(pk);
              h.Unprotect(recs[r2], how);
              h.Unprotect(recs[0], 0);
            }
  for (int ai = 0; ai < 3; ai++) {
    for (size_t n = 0; n <= 130; n++)
      for (int which = 0; which < 4; which++)
        if (Case()) {
          Desc("%s frame protector with a secret of %zu bytes, %d", N(kAll[ai]), n, which);
          Bytes sec = ref::Pattern(n, 200 + n), good = Secret(kAll[ai], 1);
          g_watch.Add("a traffic secret", sec);
          Count("traces");
          std::string url = "s2a";
          Opt::Identity id = Opt::Identity::FromSpiffeId("x");
          S2AFrameProtector::S2AFrameProtectorOptions opt = {which & 2 ? Opt::TlsVersion::TLS1_2 : Opt::TlsVersion::TLS1_3, CS(kAll[ai]), which & 1 ? good : sec, which & 1 ? sec : good, 0, 0, url, id, 5, nullptr, nullptr,
                                                             [](size_t k) { return Iovec{malloc(k), k}; }, [](Iovec v) { free(v.iov_base); }, Log()};
          Do([&] { auto r = S2AFrameProtector::Create(opt); if (!r.ok()) Say("an error", r.status()); });
        }
    WithFaults(F("%s frame protector", N(kAll[ai])), [&] {
      FrameD h(kAll[ai], ins[ai].get(), outs[ai].get(), 0);
      h.Protect(0);
      h.Unprotect(recs[0], 1);
      h.Unprotect(recs[10], 1);
      h.Unprotect(recs[0], 5);
      h.Unprotect(recs[13], 0);
      h.Unprotect(recs[7], 0);
    });
  }
}

// ------------------------------------------------------------- proxy and tokens
static Str Text(size_t n, uint32_t salt) {
  static const char abc[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789";
  Str s;
  for (uint8_t b : ref::Pattern(n, salt)) s += abc[b % 62];
  return s;
}
static const Str& Token(int i) {
  static std::map<int, Str> m;
  Str& s = m[i];
  if (s.empty()) { s = "ya29." + Text(40, 4000 + i); g_watch.Add("an access token", s.substr(5)); }
  return s;
}
// mode: 0 no manager, 1 tokens for all, 2 errors, 3 a token for the first identity only
struct Manager : s2a::token_manager::AccessTokenManagerInterface {
  int mode, calls = 0;
  explicit Manager(int m) : mode(m) {}
  absl::StatusOr<std::string> Get() {
    int k = calls++;
    if (mode == 2 || (mode == 3 && k)) return absl::NotFoundError("no token");
    return Token(k % 3);
  }
  absl::StatusOr<std::string> GetDefaultToken() override { return Get(); }
  absl::StatusOr<std::string> GetToken(const Opt::Identity&) override { return Get(); }
  std::string DebugName() const override { return "verif"; }
};
struct Resp {
  int status = 0;
  bool result = false, state = true, local = true, peer = true, sel = false;
  uint64_t ver = 1, suite = 0;
  Str in_key, out_key, out = "more";
  Resp() { Keys(32, 1); }
  void Keys(size_t n, int salt) {
    Bytes i = ref::Pattern(n, 5000 + salt), o = ref::Pattern(n, 6000 + salt);
    in_key.assign(i.begin(), i.end());
    out_key.assign(o.begin(), o.end());
    g_watch.Add("a traffic secret", i);
    g_watch.Add("a traffic secret", o);
    for (Aead a : kAll)
      if (n == SecretLen(a)) { Stream si(a, i), so(a, o); AddDirection(si, 2); AddDirection(so, 2); }
  }
  Str Encode() const {
    using namespace pb;
    Str s;
    if (sel) s += B(1, B(2, "l2"));
    s += B0(2, out) + V(3, 2);
    if (result) {
      Str r = B(1, "grpc");
      if (state) r += B(2, V0(1, ver) + V0(2, suite) + V(3, 1) + V(4, 2) + B0(5, in_key) + B0(6, out_key) + V(9, 7));
      if (peer) r += B(4, B(1, "peer"));
      if (local) r += B(5, B(2, "local"));
      s += B(4, r);
    }
    if (status >= 0) s += B(5, V0(1, status) + (status ? B(2, "details") : Str()));
    return s;
  }
};
struct ProxyD {
  std::unique_ptr<S2AProxy> p;
  // locals: number of local identities
  ProxyD(bool client, int mode, int locals, bool badver = false) {
    S2AProxy::S2AProxyOptions o;
    o.logger = Log();
    o.is_client = client;
    o.application_protocol = "grpc";
    o.target_hostname = "host";
    o.options.reset(new Opt);
    o.options->set_s2a_address("s2a:1");
    o.options->set_min_tls_version(badver ? (Opt::TlsVersion)9 : Opt::TlsVersion::TLS1_2);
    o.options->set_max_tls_version(Opt::TlsVersion::TLS1_3);
    o.options->add_supported_ciphersuite(Opt::Ciphersuite::AES_128_GCM_SHA256);
    for (int i = 0; i < locals; i++) o.options->add_local_hostname("l" + std::to_string(i));
    o.options->add_target_spiffe_id("t");
    if (mode) o.token_manager.reset(new Manager(mode));
    Do([&] { p = S2AProxy::Create(o); });
  }
  ~ProxyD() { Do([&] { p.reset(); }); }
  static std::unique_ptr<std::vector<char>> B(const Str& s) { return std::unique_ptr<std::vector<char>>(new std::vector<char>(s.begin(), s.end())); }
  void ForS2A(const char* s) { Do([&] { auto r = p->GetBytesForS2A(s ? B(s) : nullptr); Say("an error", r.status); }); }
  void ForPeer(const Str& s) { Do([&] { auto r = p->GetBytesForPeer(B(s)); Say("an error", r.status); }); }
  void Context() { Do([&] { auto r = p->GetS2AContext(); if (r.index() == 0) Say("an error", absl::get<0>(r)); }); }
  void Frame() {
    Do([&] {
      auto r = p->CreateFrameProtector();
      if (!r.ok()) { Say("an error", r.status()); return; }
      Bytes pt = Plain(20, 5);
      FR f(pt), g2(ref::Pattern(60, 77));
      auto x = (*r)->Protect(f.v);
      for (auto& v : x.bytes) delete[] (uint8_t*)v.iov_base;
      auto y = (*r)->Unprotect(g2.v);
      Say("an error", y.status);
      for (auto& v : y.bytes) delete[] (uint8_t*)v.iov_base;
    });
  }
};
static const char* kProxyOps[] = {"S2A(null)", "S2A(empty)", "S2A(bytes)", "Peer(empty)", "Peer(garbage)", "Peer(error)", "Peer(error,result)", "Peer(more)", "Peer(select)", "Peer(result)", "Peer(no-state)",
                                  "Peer(no-local)", "Peer(no-peer)", "Peer(bad-version)", "Peer(bad-suite)", "Peer(no-status)", "Peer(short-keys)", "Peer(truncated)", "FrameProtector", "Context"};
static Str ProxyResp(int o) {
  Resp r;
  r.result = o != 5 && o != 7 && o != 8;
  switch (o) {
    case 3: return "";
    case 4: return Str("\x0a\xff", 2) + r.in_key;
    case 5: case 6: r.status = 13; break;
    case 8: r.sel = true; break;
    case 10: r.state = false; break;
    case 11: r.local = false; break;
    case 12: r.peer = false; break;
    case 13: r.ver = 5; break;
    case 14: r.suite = 9; break;
    case 15: r.status = -1; break;
    case 16: r.Keys(20, 2); break;
    case 17: { Str s = r.Encode(); return s.substr(0, s.size() - 20); }
  }
  return r.Encode();
}
static void ProxyDiag() {
  std::vector<Str> resp;
  for (int o = 0; o < 20; o++) resp.push_back(ProxyResp(o));
  for (int i = 0; i < 3; i++) Token(i);
  Section("d_proxy");
  for (int client = 0; client < 2; client++)
    for (int mode = 0; mode < 4; mode++)
      for (int locals = 0; locals < 3; locals++)
        Histories(20, Thorough() ? 4 : locals == 1 ? 3 : 2, [&](const std::vector<int>& s) {
          Desc("%s, tokens %d, %d local identities:%s", client ? "client" : "server", mode, locals, Names(s, kProxyOps).c_str());
          Count("traces");
          ProxyD p(client, mode, locals);
          for (int o : s) {
            if (o == 0) p.ForS2A(nullptr);
            else if (o < 3) p.ForS2A(o == 1 ? "" : "bytes");
            else if (o == 18) p.Frame();
            else if (o == 19) p.Context();
            else p.ForPeer(resp[o]);
            St(F("p%d%d%d %d %d", client, mode, locals, o, p.p->IsHandshakeFinished()));
          }
        }, locals == 1 ? 10 : 0, 12);
  // every truncation, and every value of every byte, of every response
  for (int o = 4; o < 18; o++)
    for (size_t i = 0; i <= resp[o].size(); i++)
      for (int v = -1; v < 256; v++) {
        if (v >= 0 && i == resp[o].size()) continue;
        if (!Case()) continue;
        Desc("%s %s at %zu, %d", kProxyOps[o], v < 0 ? "cut" : "altered", i, v);
        Count("traces");
        Str s = resp[o];
        if (v < 0) s.resize(i); else s[i] = (char)v;
        ProxyD p(o % 2, 1, 1);
        p.ForS2A(nullptr);
        p.ForPeer(s);
        p.Frame();
        p.Context();
      }
  // keys of every length
  for (size_t n = 0; n <= 130; n++)
    for (int suite = 0; suite < 3; suite++)
      for (int ver = 0; ver < 2; ver++)
        if (Case()) {
          Desc("secrets of %zu bytes, suite %d, version %d", n, suite, ver);
          Count("traces");
          Resp r;
          r.result = true;
          r.suite = suite;
          r.ver = ver;
          r.Keys(n, 3);
          ProxyD p(n % 2, 1, 1);
          p.ForPeer(r.Encode());
          p.Frame();
          p.Context();
        }
  for (int client = 0; client < 2; client++)
    for (int mode = 0; mode < 4; mode++)
      if (Case()) {
        Desc("unusable configuration, %d %d", client, mode);
        Count("traces");
        ProxyD p(client, mode, 1, true);
        p.ForS2A(nullptr);
        p.ForS2A("bytes");
      }
  Resp good;
  good.result = true;
  WithFaults("proxy", [&] {
    ProxyD p(true, 1, 1);
    p.ForS2A(nullptr);
    p.ForPeer(good.Encode());
    p.Frame();
    p.Frame();
  });
  Section("d_tokens");
  for (size_t n = 0; n <= (Thorough() ? 5000u : 700u); n++)
    for (int k = 0; k < 3; k++) {
      if (!Case()) continue;
      Desc("token of %zu bytes in the environment, %d", n, k);
      Count("traces");
      Str t = Text(n, 8000 + k);
      if (k == 1) for (size_t i = 3; i < n; i += 7) t[i] = " .-_\n\t\x01\xc3"[i % 8];
      if (k == 2) for (auto& c : t) { c = (char)(c * 5 + 3); if (!c) c = 1; }
      g_watch.Add("an access token", t.substr(0, 300));
      if (n > 300) g_watch.Add("an access token", t.substr(n - 100));
      setenv("S2A_ACCESS_TOKEN", t.c_str(), 1);
      Do([&] {
        auto m = s2a::token_manager::BuildAccessTokenManager();
        if (!m.ok()) { Say("an error", m.status()); return; }
        Say("a debug name", (*m)->DebugName());
        auto a = (*m)->GetDefaultToken();
        if (!a.ok()) Say("an error", a.status());
        for (auto& id : {Opt::Identity::FromSpiffeId("x"), Opt::Identity::FromHostname(""), Opt::Identity::FromUid("u")}) {
          auto b = (*m)->GetToken(id);
          if (!b.ok()) Say("an error", b.status());
        }
        unsetenv("S2A_ACCESS_TOKEN");
        auto c = (*m)->GetDefaultToken();
        if (!c.ok()) Say("an error", c.status());
        Say("a debug name", (*m)->DebugName());
        auto m2 = s2a::token_manager::BuildAccessTokenManager();
        if (!m2.ok()) Say("an error", m2.status());
        else { auto d = (*m2)->GetDefaultToken(); if (!d.ok()) Say("an error", d.status()); }
      });
      g_watch.clean.clear();
    }
  unsetenv("S2A_ACCESS_TOKEN");
  // requests with tokens of every length, for identities of every kind
  Section("d_requests");
  for (size_t n = 0; n <= (Thorough() ? 1200u : 300u); n++)
    for (int kind = 0; kind < 5; kind++)
      for (int client = 0; client < 2; client++) {
        if (!Case()) continue;
        Desc("%s, token of %zu bytes for an identity of kind %d", client ? "client" : "server", n, kind);
        Count("traces");
        struct One : s2a::token_manager::AccessTokenManagerInterface {
          Str t;
          absl::StatusOr<std::string> GetDefaultToken() override { return t; }
          absl::StatusOr<std::string> GetToken(const Opt::Identity&) override { return t; }
          std::string DebugName() const override { return "verif"; }
        };
        S2AProxy::S2AProxyOptions o;
        o.logger = Log();
        o.is_client = client;
        o.application_protocol = "grpc";
        o.target_hostname = "host";
        o.options.reset(new Opt);
        if (kind == 1) o.options->add_local_hostname("h");
        if (kind == 2) o.options->add_local_spiffe_id("s");
        if (kind == 3) o.options->add_local_uid("u");
        if (kind == 4) o.options->add_local_hostname("");
        One* m = new One;
        m->t = Text(n, 4100 + n % 3);
        g_watch.Add("an access token", m->t);
        o.token_manager.reset(m);
        Do([&] {
          auto p = S2AProxy::Create(o);
          if (!p) return;
          for (int i = 0; i < 3; i++) {
            auto a = p->GetBytesForS2A(i ? ProxyD::B("bytes") : nullptr);
            Say("an error", a.status);
            auto b = p->GetBytesForPeer(ProxyD::B(resp[i == 0 ? 8 : i == 1 ? 10 : 9]));
            Say("an error", b.status);
          }
        });
      }
  // ticket requests, those that are refused too
  Section("d_tickets");
  for (size_t n = 0; n <= (Thorough() ? 3000u : 600u); n++)
    for (int kind = 0; kind < 4; kind++)
      for (int count : {1, 2, 6}) {
        if (!Case()) continue;
        Desc("%d tickets of %zu bytes for an identity of kind %d", count, n, kind);
        Count("traces");
        auto t = absl::make_unique<std::vector<std::unique_ptr<std::string>>>();
        for (int i = 0; i < count; i++) {
          Bytes b = ref::Pattern(n, 9000 + i % 2);
          g_watch.Add("a session ticket", b);
          t->push_back(absl::make_unique<std::string>(b.begin(), b.end()));
        }
        Opt::Identity id = kind == 0 ? Opt::Identity::GetEmptyIdentity() : kind == 1 ? Opt::Identity::FromSpiffeId("s") : kind == 2 ? Opt::Identity::FromHostname("h") : Opt::Identity::FromUid("u");
        Do([&] {
          upb::Arena arena;
          s2a::s2a_ticket_sender::PrepareResumptionTicketReq(5, id, t, arena.ptr(), s2a_proto_SessionReq_new(arena.ptr()));
        });
      }
  Section("d_monitor");
  if (Case()) {
    // the monitor itself: every way to write a secret is found, and the messages of today are not
    Desc("monitor");
    Bytes k = ref::Pattern(32, 31337);
    g_watch.Add("a key", k);
    Str raw(k.begin(), k.end()), hx, HX, col, cpp, c0x, dec, decn, hexn, sgn, b64, esc, list;
    static const char b[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    for (size_t i = 0; i < k.size(); i++) {
      hx += F("%02x", k[i]); HX += F("%02X", k[i]); col += F("%02x:", k[i]); cpp += F("\\x%02x", k[i]); c0x += F("0x%x, ", k[i]);
      dec += F("%d ", k[i]); decn += F("%d", k[i]); hexn += F("%x", k[i]); sgn += F("%d,", (signed char)k[i]); esc += F("\\%03o", k[i]); list += F("[%zu]=%d;", i, k[i]);
    }
    for (size_t i = 0; i + 2 < k.size(); i += 3) { unsigned v = k[i] << 16 | k[i + 1] << 8 | k[i + 2]; b64 += b[v >> 18]; b64 += b[v >> 12 & 63]; b64 += b[v >> 6 & 63]; b64 += b[v & 63]; }
    const Str all[] = {raw, hx, HX, col, cpp, c0x, dec, decn, hexn, sgn, b64, esc};
    const char* how;
    for (auto& s : all)
      for (const char* pre : {"", "x", "key=", "bad key: 12"})
        if (!g_watch.Leak(pre + s, &how)) { fprintf(stderr, "harness: the monitor misses %s%s\n", pre, Printable(s).c_str()); exit(2); }
    for (const char* m : {"", "The input key size is not supported.", "Failed to protect: INVALID_ARGUMENT: 00000000:error:0 17 03 03 00 00", "deadbeefdeadbeef 1 2 3 4 5 6 7 8 9 10"})
      if (g_watch.Leak(m, &how)) { fprintf(stderr, "harness: the monitor sees a leak in %s\n", m); exit(2); }
    Count("transitions");
  }
}

int main(int argc, char** argv) {
  Init(argc, argv);
  if (Want("aead")) AeadDiag();
  if (Want("half")) HalfDiag();
  if (Want("record")) RecordDiag();
  if (Want("frame")) FrameDiag();
  if (Want("proxy")) ProxyDiag();
  return Finish();
}
