// Key derivation (C06), handshake message parsing (C12), options (C22) and tokens (C23).
#include "absl/hash/hash.h"
#include "harness/h.h"
#include "harness/hsmodel.h"
#include "include/access_token_manager_factory.h"
#include "include/s2a_options.h"
#include "src/crypto/hkdf.h"
#include "src/record_protocol/handshake_message_handler.h"

using namespace h;
using ref::Bytes;

// ------------------------------------------------------------------ HKDF
using s2a::hkdf::HashFunction;
static void Hkdf() {
  struct HF { HashFunction f; int bits; size_t d; ref::Hash r; } hf[] = {{HashFunction::SHA256_hash_function, 256, 32, ref::SHA256}, {HashFunction::SHA384_hash_function, 384, 48, ref::SHA384}};
  auto check = [&](const HF& x, size_t prklen, size_t infolen, size_t outlen, uint32_t salt) {
    Bytes prk = ref::Pattern(prklen, salt), info = ref::Pattern(infolen, salt + 1), out(outlen, 0xEE);
    bool valid = prklen >= x.d && outlen <= 255 * x.d;
    absl::Status s = s2a::hkdf::HkdfDeriveSecret(x.f, prk, info, out);
    Count("derivations");
    if (s.ok() != valid) { Fail("status %s, expected %s", s.ToString().c_str(), valid ? "OK" : "an error"); return; }
    if (prk != ref::Pattern(prklen, salt) || info != ref::Pattern(infolen, salt + 1)) { Fail("inputs changed"); return; }
    if (out.size() != outlen) { Fail("output resized"); return; }
    if (valid && out != ref::HkdfExpand(x.r, prk, info, outlen)) { Fail("output differs from RFC 5869"); return; }
  };
  Section("hkdf_len");
  for (auto& x : hf) {
    std::vector<size_t> lens;
    if (Thorough()) {
      for (size_t l = 0; l <= 255 * x.d + 2 * x.d; l++) lens.push_back(l);
    } else {
      for (size_t l = 0; l <= 700; l++) lens.push_back(l);
      for (size_t b = 14; b <= 257; b++) for (int d = -1; d <= 1; d++) lens.push_back(b * x.d + d);
    }
    for (size_t l : lens)
      if (Case()) {
        Desc("SHA%d prk=%zu info=19 out=%zu", x.bits, x.d, l);
        check(x, x.d, 19, l, 7 + l % 5);
      }
  }
  Section("hkdf_prk");
  for (auto& x : hf)
    for (size_t l = 0; l <= 300; l++)
      for (size_t o : {(size_t)0, (size_t)12, (size_t)16, x.d, x.d + 1, 3 * x.d})
        if (Case()) {
          Desc("SHA%d prk=%zu info=11 out=%zu", x.bits, l, o);
          check(x, l, 11, o, 5);
        }
  Section("hkdf_info");
  for (auto& x : hf)
    for (size_t l = 0; l <= 100000; l = l < (Thorough() ? 5000 : 1100) ? l + 1 : l * 5 / 4)
      for (size_t o : {(size_t)1, x.d, x.d + 1, 2 * x.d, 5 * x.d - 1})
        if (Case()) {
          Desc("SHA%d prk=%zu info=%zu out=%zu", x.bits, x.d + l % 3, l, o);
          check(x, x.d + l % 3, l, o, 9);
        }
  // The output may be the prk buffer itself (this is how secrets are advanced), or the info.
  Section("hkdf_alias");
  for (auto& x : hf)
    for (size_t l = 0; l <= 300; l++)
      for (int which = 0; which < 2; which++)
        if (Case()) {
          Desc("SHA%d output aliases %s of %zu bytes", x.bits, which ? "info" : "prk", l);
          Bytes prk = ref::Pattern(which ? x.d : l, 3), info = ref::Pattern(which ? l : 21, 4);
          bool valid = prk.size() >= x.d;
          if (which) continue;  // aliasing the info is not promised
          Bytes want = valid ? ref::HkdfExpand(x.r, prk, info, l) : Bytes();
          absl::Status s = s2a::hkdf::HkdfDeriveSecret(x.f, prk, info, prk);
          if (s.ok() != valid) { Fail("status %s", s.ToString().c_str()); continue; }
          if (valid && prk != want) Fail("aliased output differs from RFC 5869");
        }
  // Single-bit prks and infos.
  Section("hkdf_bits");
  for (auto& x : hf)
    for (size_t b = 0; b < 8 * (x.d + 8); b++)
      if (Case()) {
        Desc("SHA%d bit %zu of prk||info", x.bits, b);
        Bytes k(x.d + 8, 0);
        k[b / 8] = 1 << (b % 8);
        Bytes prk(k.begin(), k.begin() + x.d), info(k.begin() + x.d, k.end()), out(77, 0);
        absl::Status s = s2a::hkdf::HkdfDeriveSecret(x.f, prk, info, out);
        if (!s.ok() || out != ref::HkdfExpand(x.r, prk, info, 77)) Fail("output differs from RFC 5869");
      }
  Section("hkdf_unknown");
  for (int v : {2, 3, 4, 7, 99, -1})
    if (Case()) {
      Desc("hash function value %d", v);
      Bytes prk = ref::Pattern(64, 1), info, out(32, 0xEE);
      if (s2a::hkdf::HkdfDeriveSecret(static_cast<HashFunction>(v), prk, info, out).ok()) Fail("accepted");
    }
}

// ------------------------------------------------- handshake message handler
using s2a::handshake_message_handler::HandshakeMessageHandler;
typedef HandshakeMessageHandler::Result HR;

// Abstract key of a model state: what an observer can still distinguish.
static std::string Key(const HModel& m) {
  return F("%zu|%d|%zu|%d", m.cur.size(), m.cur.empty() ? 0 : m.cur[0], m.tickets.size(), m.retrieved);
}
struct HRun {
  HandshakeMessageHandler h;
  HModel m;
  std::set<std::string>* states;
  explicit HRun(std::set<std::string>* s) : states(s) {}
  bool Call(const Bytes& b) {
    Buf buf(b);
    HModel::Out o;
    bool ok = m.Feed(b, &o);
    auto r = h.ProcessHandshakeMessage(buf.p, buf.n);
    Count("transitions");
    states->insert(Key(m));
    if ((r.index() == 1) != ok) { Fail("call with %zu bytes: %s, expected %s", b.size(), r.index() ? "success" : absl::get<0>(r).ToString().c_str(), ok ? "success" : "an error"); return false; }
    if (!ok) {
      if (absl::get<0>(r).ok()) { Fail("error result with OK status"); return false; }
      return true;
    }
    const HR& x = absl::get<1>(r);
    if (x.expecting_to_read_more_bytes != o.expecting) { Fail("expecting_to_read_more_bytes=%d, expected %d", x.expecting_to_read_more_bytes, o.expecting); return false; }
    if (x.contains_key_update != o.ku) { Fail("contains_key_update=%d, expected %d", x.contains_key_update, o.ku); return false; }
    if (x.contains_ticket != o.ticket) { Fail("contains_ticket=%d, expected %d", x.contains_ticket, o.ticket); return false; }
    if (x.num_full_tickets_stored != o.stored) { Fail("num_full_tickets_stored=%zu, expected %zu", x.num_full_tickets_stored, o.stored); return false; }
    if (o.ku_type >= 0 && x.key_update_type != o.ku_type) { Fail("key_update_type=%d, expected %d", x.key_update_type, o.ku_type); return false; }
    return true;
  }
  bool Get() {
    std::vector<Bytes> want;
    bool dead = m.dead, ok = m.Retrieve(&want);
    auto r = h.GetStoredTickets();
    Count("transitions");
    if (dead) return true;  // what is handed out after malformed data is not judged
    states->insert(Key(m));
    if ((r.index() == 1) != ok) { Fail("retrieving tickets: %s, expected %s", r.index() ? "success" : absl::get<0>(r).ToString().c_str(), ok ? "success" : "an error"); return false; }
    if (!ok) return true;
    auto& got = absl::get<1>(r);
    if (got == nullptr) { Fail("null ticket list"); return false; }
    if (got->size() != want.size()) { Fail("%zu tickets handed out, expected %zu", got->size(), want.size()); return false; }
    for (size_t i = 0; i < want.size(); i++) {
      Bytes t;
      for (auto& f : *(*got)[i]) t.insert(t.end(), f->begin(), f->end());
      if (t != want[i]) { Fail("ticket %zu is not byte-exact", i); return false; }
    }
    return true;
  }
};
static Bytes Msg(int type, size_t n, uint32_t salt) {
  Bytes b = {(uint8_t)type, (uint8_t)(n >> 16), (uint8_t)(n >> 8), (uint8_t)n}, p = ref::Pattern(n, salt);
  b.insert(b.end(), p.begin(), p.end());
  return b;
}
static Bytes Ku(int t) { return {0x18, 0, 0, 1, (uint8_t)t}; }
static Bytes operator+(const Bytes& a, const Bytes& b) { Bytes r = a; r.insert(r.end(), b.begin(), b.end()); return r; }
static void operator+=(Bytes& a, const Bytes& b) { a.insert(a.end(), b.begin(), b.end()); }

static void Handler() {
  std::set<std::string> states;
  auto run = [&](const std::vector<Bytes>& calls, long get1, long get2, const std::string& d) {
    if (!Case()) return;
    Desc(d);
    HRun r(&states);
    Count("traces");
    for (size_t i = 0; i <= calls.size(); i++) {
      if ((long)i == get1 || (long)i == get2) if (!r.Get()) return;
      if (i == calls.size()) break;
      if (!r.Call(calls[i])) return;
    }
    if (!r.Get()) return;
    r.Get();
  };
  auto cut = [&](const Bytes& s, const std::vector<size_t>& sz) {
    std::vector<Bytes> v;
    size_t o = 0;
    for (size_t z : sz) { v.push_back(Bytes(s.begin() + o, s.begin() + o + z)); o += z; }
    return v;
  };
  // Every split of every short message sequence.
  Section("hs_split");
  struct A { const char* n; Bytes b; };
  std::vector<A> alpha = {{"T0", Msg(4, 0, 1)}, {"T1", Msg(4, 1, 2)}, {"T3", Msg(4, 3, 3)}, {"K0", Ku(0)}, {"K1", Ku(1)}, {"X", Msg(1, 0, 4)}};
  size_t maxbytes = Thorough() ? 17 : 14;
  std::function<void(Bytes, std::string, int)> seqs = [&](Bytes s, std::string n, int left) {
    if (!s.empty()) {
      if (s.size() > maxbytes) return;
      Compositions(s.size(), [&](const std::vector<size_t>& sz) { run(cut(s, sz), -1, -1, "messages" + n + " split " + Show(sz)); });
      if (n.find('X') != std::string::npos && !Thorough()) return;
    }
    if (left == 0) return;
    for (auto& a : alpha) { Bytes t = s; t += a.b; seqs(t, n + " " + a.n, left - 1); }
  };
  seqs({}, "", 4);
  // Retrieval at every point of every short history (calls are message pieces).
  Section("hs_retrieve");
  std::vector<A> pieces = {{"T2", Msg(4, 2, 5)}, {"T2a", Bytes({4, 0})}, {"T2b", Bytes({0, 2, 7})}, {"T2c", Bytes({9})}, {"K1", Ku(1)}, {"K1a", Bytes({0x18})}, {"K1b", Bytes({0, 0, 1})}, {"K1c", Bytes({1})}, {"empty", {}}};
  int depth = Thorough() ? 7 : 5;
  std::vector<int> seq;
  std::function<void(int)> rec = [&](int left) {
    if (left == 0) {
      std::vector<Bytes> calls;
      std::string d;
      for (int i : seq) { calls.push_back(pieces[i].b); d += std::string(" ") + pieces[i].n; }
      for (int g1 = -1; g1 <= (int)calls.size(); g1++)
        for (int g2 = g1; g2 <= (g1 < 0 ? -1 : (int)calls.size()); g2++) run(calls, g1, g2, F("pieces%s get@%d,%d", d.c_str(), g1, g2));
      return;
    }
    for (size_t i = 0; i < pieces.size(); i++) { seq.push_back(i); rec(left - 1); seq.pop_back(); }
  };
  rec(depth);
  // Histories with malformed data: once a call fails, all later ones do.
  Section("hs_after");
  pieces.push_back({"X2", Msg(0x0b, 2, 6)});
  pieces.push_back({"Xa", Bytes({0x0b})});
  pieces.push_back({"K1+", Ku(1) + Bytes({4})});
  pieces.push_back({"K1K1", Ku(1) + Ku(1)});
  pieces.push_back({"T2X", Msg(4, 2, 5) + Bytes({0xff, 0, 0, 1})});
  pieces.push_back({"T40", Msg(4, 40, 5)});
  std::function<void(int, bool)> after = [&](int left, bool bad) {
    if (left == 0) {
      if (!bad) return;
      std::vector<Bytes> calls;
      std::string d;
      for (int i : seq) { calls.push_back(pieces[i].b); d += std::string(" ") + pieces[i].n; }
      for (int g1 = -1; g1 <= (int)calls.size(); g1++) run(calls, g1, -1, F("pieces%s get@%d", d.c_str(), g1));
      return;
    }
    for (size_t i = 0; i < pieces.size(); i++) { seq.push_back(i); after(left - 1, bad || (i >= 9 && i < 14)); seq.pop_back(); }
  };
  after(Thorough() ? 5 : 4, false);
  // The ticket limit: k tickets then a tail, every 1-, 2- and 3-way split, retrieval at every point.
  Section("hs_limit");
  for (int k = 1; k <= 8; k++)
    for (int tail = 0; tail < 5; tail++)
      for (int body : {1, 5}) {
        Bytes s;
        for (int i = 0; i < k; i++) s += Msg(4, body + (i % 2), 10 + i);
        if (tail == 1) s += Ku(1);
        if (tail == 2) s += Bytes({4, 0, 0, 9, 1});
        if (tail == 3) s += Bytes({0x18, 0});
        if (tail == 4) s += Msg(2, 1, 3);
        size_t n = s.size();
        for (size_t a = 0; a <= n; a++)
          for (size_t b = a; b <= n; b++)
            for (int g = -1; g <= 2; g++) run(cut(s, {a, b - a, n - b}), g, -1, F("%d tickets of body %d, tail %d, cuts %zu %zu, get@%d", k, body, tail, a, b, g));
        run(cut(s, std::vector<size_t>(n, 1)), -1, -1, F("%d tickets of body %d, tail %d, byte by byte", k, body, tail));
        for (size_t g = 0; g <= n; g++) run(cut(s, std::vector<size_t>(n, 1)), g, -1, F("%d tickets of body %d, tail %d, byte by byte, get@%zu", k, body, tail, g));
      }
  // Long messages: every length byte matters.
  Section("hs_long");
  std::vector<size_t> lens = {127, 128, 255, 256, 257, 300, 511, 512, 1000, 16379, 16380, 16384, 32767, 32768, 65535, 65536, 65537, 66051, 131072, 1048577, 8388608, 16777215};
  for (size_t l : lens)
    for (size_t chunk : {(size_t)1, (size_t)3, (size_t)100, (size_t)16384, (size_t)1 << 20}) {
      if ((chunk < 100 && l > 2000) || (chunk < 16384 && l > 200000)) continue;
      Bytes s = Msg(4, l, l);
      s += Msg(4, 3, 1);
      s += Msg(4, l, l + 1);
      s += Ku(0);
      std::vector<Bytes> calls;
      for (size_t i = 0; i < s.size(); i += chunk) calls.push_back(Bytes(s.begin() + i, s.begin() + std::min(s.size(), i + chunk)));
      run(calls, -1, -1, F("long messages %zu in chunks of %zu", l, chunk));
    }
  // Many messages: counts of tickets, and patterns of tickets and key updates, whole or
  // split in the same way each time, retrieved after any power of two of them or never.
  Section("hs_many");
  for (int k : {6, 7, 9, 10, 11, 16, 17, 32, 33, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 1000})
    for (int pat = 0; pat < 5; pat++)
      for (int how = 0; how < 6; how++)
        for (int g : {-1, 1, 2, 4, 5, 6, 8, 16, 64, 256}) {
          if (g > k) continue;
          std::vector<Bytes> calls;
          Bytes joined;
          size_t get = -1, n = 0;
          for (int i = 0; i < k; i++) {
            if (i == g) get = calls.size();
            bool ku = pat == 1 || (pat == 2 && i % 2) || (pat == 3 && i % 7 == 6) || (pat == 4 && i >= 5 && i % 3 == 0);
            Bytes m = ku ? Ku(i & 1) : Msg(4, i % 5 + (i == k - 1 ? 40 : 0), i);
            n++;
            if (how == 0) calls.push_back(m);
            else if (how <= 4) { size_t c = how == 4 ? m.size() - 1 : how; auto v = cut(m, {c, m.size() - c}); for (auto& b : v) calls.push_back(b); }
            else { joined += m; if (ku || n % 3 == 0 || i == k - 1) { calls.push_back(joined); joined.clear(); } }
          }
          run(calls, get, -1, F("%d messages, pattern %d, split %d, get after %d", k, pat, how, g));
        }
  // A ticket (or a key update) in many pieces, after any number of whole tickets.
  Section("hs_pieces");
  for (int k = 0; k <= 6; k++)
    for (size_t n : {5, 9, 17, 31, 32, 33, 61, 62, 63, 64, 65, 66, 67, 68, 99, 100, 127, 128, 129, 130, 131, 255, 256, 257, 300, 1000, 5000})
      for (size_t chunk : {1, 2, 3, 16})
        for (int tail = 0; tail < 3; tail++) {
          std::vector<Bytes> calls;
          for (int i = 0; i < k; i++) calls.push_back(Msg(4, i, i));
          Bytes s = Msg(4, n, n);
          if (tail == 1) s += Ku(1);
          if (tail == 2) s += Msg(4, n + 1, n + 1);
          for (size_t i = 0; i < s.size(); i += chunk) calls.push_back(Bytes(s.begin() + i, s.begin() + std::min(s.size(), i + chunk)));
          calls.push_back(Msg(4, 3, 1));
          calls.push_back(Msg(4, 4, 1));
          for (int g : {-1, k, (int)calls.size() - 2, (int)calls.size()}) run(calls, g, -1, F("%d tickets, then one of %zu bytes in pieces of %zu, tail %d, get@%d", k, n, chunk, tail, g));
        }
  // Every message type byte.
  Section("hs_types");
  for (int t = 0; t < 256; t++)
    for (int n = 0; n < 3; n++)
      for (int pre = 0; pre < 2; pre++)
        for (int how = 0; how < 3; how++) {
          if (t == 0x18 && n != 1) continue;
          Bytes s;
          if (pre) s += Msg(4, 2, 1);
          s += Msg(t, n, 2);
          std::vector<Bytes> calls = how == 0 ? std::vector<Bytes>{s} : how == 1 ? cut(s, std::vector<size_t>(s.size(), 1)) : cut(s, {s.size() - 1, 1});
          run(calls, -1, -1, F("type %d body %d after-ticket %d split %d", t, n, pre, how));
        }
  Section("hs_null");
  for (int at = 0; at < 4; at++)
    if (Case()) {
      Desc("null plaintext at call %d", at);
      HRun r(&states);
      std::vector<Bytes> c = {Bytes({4, 0}), Bytes({0, 2, 1}), Bytes({2})};
      for (int i = 0; i < 4; i++) {
        if (i == at)
          for (size_t n : {0, 5}) {
            auto x = r.h.ProcessHandshakeMessage(nullptr, n);
            if (x.index() != 0 || absl::get<0>(x).ok()) Fail("null plaintext accepted");
          }
        if (i < 3) r.Call(c[i]);
      }
      r.Get();
    }
  for (auto& k : states) St("hs|" + k);
}

// ---------------------------------------------------------------- options
using s2a::s2a_options::S2AOptions;
typedef S2AOptions::Identity Id;
typedef S2AOptions::IdentityType IT;
typedef S2AOptions::Ciphersuite CSu;
typedef S2AOptions::TlsVersion TV;
struct OModel {
  int mn = 1, mx = 1;
  std::string addr;
  std::vector<int> cs;
  std::set<std::pair<int, std::string>> loc, tgt;
  std::string Key() const {
    std::string k = F("|%d %d %s ", mn, mx, addr.c_str());
    for (int c : cs) k += F("%d", c);
    for (auto& i : loc) k += F(" l%d", i.first) + i.second;
    for (auto& i : tgt) k += F(" t%d", i.first) + i.second;
    return k;
  }
};
static bool Same(const S2AOptions& o, const OModel& m, const char* who) {
  auto V = [](TV v) { return v == TV::TLS1_2 ? 0 : v == TV::TLS1_3 ? 1 : -1; };
  if (V(o.min_tls_version()) != m.mn) { Fail("%s: min TLS version", who); return false; }
  if (V(o.max_tls_version()) != m.mx) { Fail("%s: max TLS version", who); return false; }
  if (o.s2a_address() != m.addr) { Fail("%s: address", who); return false; }
  std::vector<int> cs;
  for (auto c : o.supported_ciphersuites()) cs.push_back(c == CSu::AES_128_GCM_SHA256 ? 0 : c == CSu::AES_256_GCM_SHA384 ? 1 : c == CSu::CHACHA20_POLY1305_SHA256 ? 2 : -1);
  if (cs != m.cs) { Fail("%s: ciphersuites", who); return false; }
  auto set = [](const absl::flat_hash_set<Id>& s) {
    std::set<std::pair<int, std::string>> r;
    for (auto& i : s) r.insert({i.GetIdentityType() == IT::SPIFFE_ID ? 1 : i.GetIdentityType() == IT::HOSTNAME ? 2 : i.GetIdentityType() == IT::UID ? 3 : 0, i.GetIdentityString()});
    return r;
  };
  if (set(o.local_identities()) != m.loc || o.local_identities().size() != m.loc.size()) { Fail("%s: local identities", who); return false; }
  if (set(o.target_identities()) != m.tgt || o.target_identities().size() != m.tgt.size()) { Fail("%s: target identities", who); return false; }
  return true;
}
static void Options() {
  const std::string kS[] = {"a", std::string("a\0b", 3)};
  struct Obj { std::unique_ptr<S2AOptions> o; OModel m; };
  // 0,1 min; 2,3 max; 4,5,6 address; 7,8,9 cs; 10..15 local; 16..21 target; 22 copy (stay); 23 copy (switch to it); 24 switch; 25 copy, then destroy the original
  const int kOps = 26;
  auto apply = [&](std::vector<Obj>& v, size_t& cur, int op) {
    S2AOptions& o = *v[cur].o;
    OModel& m = v[cur].m;
    if (op < 2) { o.set_min_tls_version(op ? TV::TLS1_3 : TV::TLS1_2); m.mn = op; }
    else if (op < 4) { o.set_max_tls_version(op == 3 ? TV::TLS1_3 : TV::TLS1_2); m.mx = op - 2; }
    else if (op < 7) { std::string s = op == 4 ? "" : op == 5 ? "addr:1" : std::string("x\0y", 3); o.set_s2a_address(s); m.addr = s; }
    else if (op < 10) { o.add_supported_ciphersuite(op == 7 ? CSu::AES_128_GCM_SHA256 : op == 8 ? CSu::AES_256_GCM_SHA384 : CSu::CHACHA20_POLY1305_SHA256); m.cs.push_back(op - 7); }
    else if (op < 22) {
      int k = (op - 10) % 6, t = 1 + k / 2;
      const std::string& s = kS[k % 2];
      bool local = op < 16;
      if (local) { if (t == 1) o.add_local_spiffe_id(s); else if (t == 2) o.add_local_hostname(s); else o.add_local_uid(s); m.loc.insert({t, s}); }
      else { if (t == 1) o.add_target_spiffe_id(s); else if (t == 2) o.add_target_hostname(s); else o.add_target_uid(s); m.tgt.insert({t, s}); }
    } else if (op == 24) cur = (cur + 1) % v.size();
    else {
      Obj c{o.Copy(), m};
      if (c.o == nullptr) { Fail("Copy returned null"); return; }
      if (op == 25) { v[cur] = std::move(c); return; }
      v.push_back(std::move(c));
      if (op == 23) cur = v.size() - 1;
    }
  };
  Section("options_hist");
  int depth = Thorough() ? 5 : 4;
  std::vector<int> seq;
  std::function<void(int)> rec = [&](int left) {
    if (left == 0) {
      if (!Case()) return;
      std::string d;
      for (int o : seq) d += std::to_string(o) + " ";
      Desc("setter/add/copy calls %s", d.c_str());
      std::vector<Obj> v;
      v.push_back({absl::make_unique<S2AOptions>(), OModel()});
      size_t cur = 0;
      Count("traces");
      for (int o : seq) {
        apply(v, cur, o);
        Count("transitions");
        for (size_t i = 0; i < v.size(); i++) if (!Same(*v[i].o, v[i].m, F("object %zu after operation %d", i, o).c_str())) return;
        std::string k = "opt";
        for (auto& x : v) k += x.m.Key();
        St(k + F("|%zu", cur));
      }
      return;
    }
    for (int o = 0; o < kOps; o++) { seq.push_back(o); rec(left - 1); seq.pop_back(); }
  };
  rec(depth);
  // Long histories: prefix of k operations taken cyclically, then copies (sets grow and rehash).
  Section("options_long");
  for (int step = 1; step < 26; step++)
    for (int n = 1; n <= 64; n++)
      if (Case()) {
        Desc("%d operations with stride %d, then a copy, then %d more on the original", n, step, n);
        std::vector<Obj> v;
        v.push_back({absl::make_unique<S2AOptions>(), OModel()});
        size_t cur = 0;
        for (int i = 0; i < n; i++) apply(v, cur, (i * step) % 22);
        for (int i = 0; i < n; i++) {
          std::string s = "id" + std::to_string(i);
          v[0].o->add_local_uid(s); v[0].m.loc.insert({3, s});
          v[0].o->add_target_hostname(s); v[0].m.tgt.insert({2, s});
        }
        apply(v, cur, 22);
        if (!Same(*v[1].o, v[1].m, "copy")) continue;
        for (int i = 0; i < n; i++) apply(v, cur, (i * step + 5) % 22);
        if (!Same(*v[0].o, v[0].m, "original") || !Same(*v[1].o, v[1].m, "copy after changes to the original")) continue;
        cur = 1;
        for (int i = 0; i < n; i++) apply(v, cur, (i * step + 9) % 22);
        if (!Same(*v[0].o, v[0].m, "original after changes to the copy") || !Same(*v[1].o, v[1].m, "changed copy")) continue;
        v.erase(v.begin());
        Same(*v[0].o, v[0].m, "copy after the original is gone");
        Count("traces");
        Count("transitions", 3 * n + 1);
      }
  // Many and long values.
  Section("options_many");
  for (size_t n : {0, 1, 15, 16, 31, 32, 100, 127, 128, 255, 256, 257, 500, 1000, 4096, 5000})
    for (int which = 0; which < 5; which++)
      if (Case()) {
        Desc("%zu %s, then a copy and a copy of the copy", n, which == 0 ? "ciphersuites" : which == 1 ? "local identities" : which == 2 ? "target identities" : which == 3 ? "bytes in every string" : "characters of address, set again and again");
        std::vector<Obj> v;
        v.push_back({absl::make_unique<S2AOptions>(), OModel()});
        S2AOptions& o = *v[0].o;
        OModel& m = v[0].m;
        for (size_t i = 0; i < (which < 3 ? n : 1); i++) {
          std::string t = std::to_string(i / 2);
          if (which == 0) { int c = (i * i + i / 3) % 3; size_t cur = 0; apply(v, cur, 7 + c); }
          if (which == 1) { if (i % 2) o.add_local_hostname(t); else o.add_local_spiffe_id(t); m.loc.insert({i % 2 ? 2 : 1, t}); }
          if (which == 2) { if (i % 2) o.add_target_uid(t); else o.add_target_hostname(t); m.tgt.insert({i % 2 ? 3 : 2, t}); }
          Count("transitions");
        }
        if (which >= 3) {
          Bytes b = ref::Pattern(n, 9);
          std::string t(b.begin(), b.end());
          o.set_s2a_address(t); m.addr = t;
          if (which == 3) {
            // pairs that differ only in the last and only in the first character
            for (std::string u : {t + "a", t + "b", "a" + t, "b" + t, t}) {
              o.add_local_spiffe_id(u); o.add_local_hostname(u); o.add_local_uid(u);
              o.add_target_spiffe_id(u); o.add_target_hostname(u); o.add_target_uid(u);
              for (int k = 1; k < 4; k++) { m.loc.insert({k, u}); m.tgt.insert({k, u}); }
            }
          } else {
            for (size_t i = 0; i < n && i < 500; i++) { m.addr = t.substr(0, i); o.set_s2a_address(m.addr); if (o.s2a_address() != m.addr) { Fail("address"); break; } }
          }
        }
        Count("traces");
        if (!Same(o, m, "original")) continue;
        size_t cur = 0;
        apply(v, cur, 22);
        cur = 1;
        apply(v, cur, 23);
        if (!Same(*v[1].o, v[1].m, "copy") || !Same(*v[2].o, v[2].m, "copy of the copy")) continue;
        for (int op : {7, 10, 16, 5}) apply(v, cur, op);
        Same(*v[0].o, v[0].m, "original") && Same(*v[1].o, v[1].m, "copy") && Same(*v[2].o, v[2].m, "changed copy");
      }
  // Identity equality and hashing: all pairs.
  Section("options_identity");
  std::vector<std::string> strs = {"", "a", "b", "ab", std::string("\0", 1), std::string("a\0", 2), std::string("a\0b", 3), std::string("a\0c", 3), std::string(100, 'x'), std::string(99, 'x') + "y", "\xff", "A", "a "};
  for (size_t n : {15, 16, 23, 31, 255, 256, 1024, 4096, 70000}) { strs.push_back(std::string(n, 'z')); strs.push_back(std::string(n - 1, 'z') + "Z"); strs.push_back("Z" + std::string(n - 1, 'z')); }
  auto mk = [&](int t, const std::string& s) { return t == 0 ? Id::GetEmptyIdentity() : t == 1 ? Id::FromSpiffeId(s) : t == 2 ? Id::FromHostname(s) : Id::FromUid(s); };
  for (int t1 = 0; t1 < 4; t1++)
    for (size_t i = 0; i < (t1 ? strs.size() : 1); i++)
      for (int t2 = 0; t2 < 4; t2++)
        for (size_t j = 0; j < (t2 ? strs.size() : 1); j++)
          if (Case()) {
            Desc("identity type %d string #%zu against type %d string #%zu", t1, i, t2, j);
            Id a = mk(t1, strs[i]), b = mk(t2, strs[j]), c(a), d = Id::GetEmptyIdentity();
            d = a;
            std::string s1 = t1 ? strs[i] : "", s2 = t2 ? strs[j] : "";
            IT want = t1 == 0 ? IT::NONE : t1 == 1 ? IT::SPIFFE_ID : t1 == 2 ? IT::HOSTNAME : IT::UID;
            if (a.GetIdentityType() != want || a.GetIdentityString() != s1 || std::string(a.GetIdentityCString()) != s1.c_str()) Fail("identity does not hold what it was made from");
            if (!(c == a) || !(d == a) || !(a == a)) Fail("a copy of an identity differs from it");
            bool eq = t1 == t2 && s1 == s2;
            if ((a == b) != eq || (b == a) != eq) Fail("equality is %d, expected %d", a == b, eq);
            absl::Hash<Id> hh;
            if (eq && hh(a) != hh(b)) Fail("equal identities hash differently");
            absl::flat_hash_set<Id> set = {a, b};
            if (set.size() != (eq ? 1u : 2u)) Fail("set of the two has %zu elements", set.size());
            Count("transitions");
          }
}

// ----------------------------------------------------------------- tokens
static void Tokens() {
  const char* kVar = "S2A_ACCESS_TOKEN";
  struct Mgr { std::unique_ptr<s2a::token_manager::AccessTokenManagerInterface> m; bool has; std::string tok; };
  std::vector<std::string> vals = {"tok", "", "a longer token=with;odd\tchars\x01\xff", "tok2"};
  std::vector<Id> ids = {Id::GetEmptyIdentity(), Id::FromSpiffeId("s"), Id::FromHostname("h"), Id::FromUid("u"), Id::FromUid("")};
  // 0..3 setenv(vals), 4 unset, 5 create, 6 default of all managers, 7 token of every identity, 8 other variable set, 9 environment entry overwritten in place
  const int kOps = 10;
  Section("tokens");
  int depth = Thorough() ? 7 : 6;
  std::vector<int> seq;
  static char slot[64];
  std::function<void(int)> rec = [&](int left) {
    if (left == 0) {
      if (!Case()) return;
      std::string d;
      for (int o : seq) d += std::to_string(o) + " ";
      Desc("environment/creation/query steps %s", d.c_str());
      unsetenv(kVar);
      bool has = false;
      std::string val;
      std::vector<Mgr> ms;
      Count("traces");
      auto verify = [&](Mgr& m, int how, const Id& id) {
        auto r = how == 0 ? m.m->GetDefaultToken() : m.m->GetToken(id);
        if (r.ok() != m.has) { Fail("query %s, expected %s", r.ok() ? "succeeded" : "failed", m.has ? "a token" : "an error"); return; }
        if (!m.has && r.status().code() != absl::StatusCode::kNotFound) { Fail("error is not not-found"); return; }
        if (m.has && *r != m.tok) Fail("token is '%s', expected '%s'", r->c_str(), m.tok.c_str());
      };
      for (int o : seq) {
        Count("transitions");
        if (o < 4) { setenv(kVar, vals[o].c_str(), 1); has = true; val = vals[o]; }
        else if (o == 4) { unsetenv(kVar); has = false; }
        else if (o == 5) {
          auto r = s2a::token_manager::BuildAccessTokenManager();
          if (!r.ok() || *r == nullptr) { Fail("no token manager"); return; }
          ms.push_back({std::move(*r), has, has ? val : ""});
        } else if (o == 6) { for (auto& m : ms) verify(m, 0, ids[0]); }
        else if (o == 7) { for (auto& m : ms) for (auto& id : ids) verify(m, 1, id); }
        else if (o == 8) setenv("S2A_ACCESS_TOKEN_OTHER", "zzz", 1);
        else if (o == 9) { snprintf(slot, sizeof slot, "%s=%c%zu", kVar, 'p', ms.size()); putenv(slot); has = true; val = F("p%zu", ms.size()); }
        std::string k = has ? val : "-";
        for (auto& m : ms) k += "|" + (m.has ? m.tok : std::string("-"));
        St("tok|" + k);
      }
      unsetenv(kVar);
      memset(slot, 'q', sizeof slot - 1);
      for (auto& m : ms) { verify(m, 0, ids[0]); for (auto& id : ids) verify(m, 1, id); verify(m, 0, ids[0]); }
      return;
    }
    for (int o = 0; o < kOps; o++) { seq.push_back(o); rec(left - 1); seq.pop_back(); }
  };
  rec(depth);
  Section("tokens_len");
  std::vector<int> lens;
  for (int l = 0; l <= 300; l++) lens.push_back(l);
  for (int k = 9; k <= 20; k++) for (int d = -1; d <= 1; d++) lens.push_back((1 << k) + d);
  for (int l : lens)
    if (Case()) {
      Desc("token of %d bytes", l);
      std::string t;
      for (int i = 0; i < l; i++) t += (char)(1 + (i * 37 + l) % 255);
      setenv(kVar, t.c_str(), 1);
      auto r = s2a::token_manager::BuildAccessTokenManager();
      if (!r.ok()) { Fail("no manager"); continue; }
      unsetenv(kVar);
      auto a = (*r)->GetDefaultToken(), b = (*r)->GetToken(ids[1]);
      if (!a.ok() || *a != t || !b.ok() || *b != t) Fail("token changed");
      Count("transitions", 2);
    }
  // Every identity (contents and lengths), and many queries of one manager.
  Section("tokens_who");
  for (int has = 0; has < 2; has++)
    for (int part = 0; part < 8; part++)
      if (Case()) {
        Desc("%s token, identities and queries, part %d", has ? "a" : "no", part);
        if (has) setenv(kVar, "Tok", 1); else unsetenv(kVar);
        auto r = s2a::token_manager::BuildAccessTokenManager();
        unsetenv(kVar);
        if (!r.ok()) { Fail("no manager"); continue; }
        auto ask = [&](const Id& id) {
          auto a = (*r)->GetToken(id), b = (*r)->GetDefaultToken();
          Count("transitions", 2);
          bool ok = a.ok() == has && b.ok() == has && (!has || (*a == "Tok" && *b == "Tok")) && (has || (a.status().code() == absl::StatusCode::kNotFound && b.status().code() == absl::StatusCode::kNotFound));
          if (!ok) Fail("wrong answer for identity type %d of %zu bytes", (int)id.GetIdentityType(), id.GetIdentityString().size());
          return ok;
        };
        bool ok = true;
        for (int c = part; c < 256 && ok; c += 8)
          for (int t = 0; t < 3 && ok; t++) {
            std::string x(1, (char)c), y = "a" + x, z = "S2A_ACCESS_TOKEN" + x;
            for (auto& u : {x, y, z}) ok = ok && ask(t == 0 ? Id::FromSpiffeId(u) : t == 1 ? Id::FromHostname(u) : Id::FromUid(u));
          }
        for (size_t n : {0, 1, 15, 16, 100, 255, 256, 4096, 70000}) for (int t = 0; t < 3 && ok; t++) ok = ask(t == 0 ? Id::FromSpiffeId(std::string(n, 'x')) : t == 1 ? Id::FromHostname(std::string(n, 'x')) : Id::FromUid(std::string(n, 'x')));
        for (int i = 0; i < 70000 && ok; i++) ok = ask(ids[(i + part) % ids.size()]);
        Count("traces");
      }
}

int main(int argc, char** argv) {
  Init(argc, argv);
  if (Want("hkdf")) Hkdf();
  if (Want("handler")) Handler();
  if (Want("options")) Options();
  if (Want("tokens")) Tokens();
  return Finish();
}
