// Half connections (C07, C08) and the TLS 1.3 record protocol (C09, C10, C11,
// C13): exhaustive inputs and histories against the reference record layer.
#include "harness/h.h"
#include "harness/hsmodel.h"
#include "harness/stream.h"
#include "src/record_protocol/s2a_crypter.h"
#include "src/record_protocol/s2a_half_connection.h"

using s2a::record_protocol::S2ACrypter;
using s2a::record_protocol::S2AHalfConnection;
typedef S2ACrypter::S2ACrypterStatusCode Code;
typedef S2ACrypter::RecordType RT;

// ------------------------------------------------------- half connections
struct HalfModel {
  size_t gen = 0;
  uint64_t seq = 0;
  bool over = false;
  void Use() { if (++seq == 0) over = true; }
  void Update() { gen++; seq = 0; over = false; }
};
struct Half {
  std::unique_ptr<S2AHalfConnection> c;
  HalfModel m;
  Stream* st;
  Half(Aead a, uint64_t seq, const Bytes& secret, Stream* s) : st(s) {
    m.seq = seq;
    auto r = S2AHalfConnection::Create(CS(a), seq, secret);
    if (r.index() != 1 || absl::get<1>(r) == nullptr) { Fail("half connection not created"); return; }
    c = std::move(absl::get<1>(r));
  }
  bool Encrypt(const Bytes& aad, const Bytes& pt, int shortby = 0) {
    Count("transitions");
    FR a(aad), p(pt);
    size_t need = pt.size() + 16;
    Buf out(need - shortby, 0xEE);
    auto s = c->Encrypt(a.v, p.v, {out.p, out.n});
    bool ok = !m.over && !shortby;
    if (s.GetStatus().ok() != ok) { Fail("encryption at generation %zu sequence %s: %s, expected %s", m.gen, U64(m.seq).c_str(), s.GetStatus().ToString().c_str(), ok ? "success" : "failure"); return false; }
    if (ok && (s.GetBytesWritten() != need || out.bytes(need) != st->Seal(m.gen, m.seq, aad, pt))) {
      Fail("ciphertext is not that of generation %zu sequence %s", m.gen, U64(m.seq).c_str());
      return false;
    }
    if (!m.over) m.Use();
    return true;
  }
  // Decrypts what the peer sealed with generation/sequence g/seq; tamper flips a bit.
  bool Decrypt(size_t g, uint64_t seq, const Bytes& aad, const Bytes& pt, bool tamper) {
    Count("transitions");
    Bytes ct = st->Seal(g, seq, aad, pt);
    if (tamper) ct[ct.size() / 2] ^= 4;
    FR a(aad), p(ct);
    Buf out(pt.size() ? pt.size() : 1, 0xEE);
    auto s = c->Decrypt(a.v, p.v, {out.p, pt.size()});
    bool ok = !m.over && !tamper && g == m.gen && seq == m.seq;
    if (s.GetStatus().ok() != ok) { Fail("decryption of generation %zu sequence %s at generation %zu sequence %s (overflow %d): %s, expected %s", g, U64(seq).c_str(), m.gen, U64(m.seq).c_str(), m.over, s.GetStatus().ToString().c_str(), ok ? "success" : "failure"); return false; }
    if (ok && (s.GetBytesWritten() != pt.size() || out.bytes(pt.size()) != pt)) { Fail("wrong plaintext"); return false; }
    if (!m.over) m.Use();
    return true;
  }
  bool Update() {
    Count("transitions");
    auto s = c->UpdateKey();
    if (!s.ok()) { Fail("key update failed: %s", s.ToString().c_str()); return false; }
    m.Update();
    return true;
  }
};

static void HalfHistories() {
  Section("half_hist");
  const int kOps = 8;
  struct Start { uint64_t seq; int depth; };
  std::vector<Start> starts = {{0, 5}, {1, 3}, {254, 3}, {255, 4}, {65535, 3}, {0xffffffffull, 4}, {0xffffffffffffull, 3}, {0xffffffffffffffull, 3}, {0x7fffffffffffffffull, 3}, {~0ull - 3, 5}, {~0ull - 2, 4}, {~0ull - 1, 5}, {~0ull, 5}};
  Bytes aad = ref::Pattern(5, 1), p5 = ref::Pattern(5, 2);
  for (Aead a : kAll) {
    Stream st(a, Secret(a, 0));
    for (auto& s0 : starts) {
      std::vector<int> seq;
      std::function<void(int)> rec = [&](int left) {
        if (left) { for (int o = 0; o < kOps; o++) { seq.push_back(o); rec(left - 1); seq.pop_back(); } return; }
        if (!Case()) return;
        std::string d;
        static const char* names[] = {"enc0", "enc5", "encshort", "dec", "decbad", "decold", "decnext", "update"};
        for (int o : seq) d += std::string(" ") + names[o];
        Desc("%s from %s:%s", N(a), U64(s0.seq).c_str(), d.c_str());
        Half h(a, s0.seq, Secret(a, 0), &st);
        Count("traces");
        if (!h.c) return;
        for (int o : seq) {
          bool ok = true;
          switch (o) {
            case 0: ok = h.Encrypt({}, {}); break;
            case 1: ok = h.Encrypt(aad, p5); break;
            case 2: ok = h.Encrypt(aad, p5, 1); break;
            case 3: ok = h.Decrypt(h.m.gen, h.m.seq, aad, p5, false); break;
            case 4: ok = h.Decrypt(h.m.gen, h.m.seq, aad, p5, true); break;
            case 5: ok = h.Decrypt(h.m.gen, h.m.seq - 1, aad, p5, false); break;
            case 6: ok = h.Decrypt(h.m.gen + 1, h.m.seq, aad, p5, false); break;
            case 7: ok = h.Update(); break;
          }
          if (!ok) return;
          St(F("half %s %zu %s %d", N(a), h.m.gen, U64(h.m.seq).c_str(), h.m.over));
          if (h.c->TagLength() != 16) { Fail("tag length %zu", h.c->TagLength()); return; }
        }
        // the next operation shows the state reached
        if (!h.Encrypt(aad, p5)) return;
        h.Decrypt(h.m.gen, h.m.seq, aad, p5, false);
      };
      rec(s0.depth - (S().frozen && !Thorough() ? 1 : 0) + (Thorough() ? 1 : 0) - (kBoring ? 1 : 0));
    }
  }
  // Every way for an operation to fail takes one number; all pairs of them.
  Section("half_fail");
  for (Aead a : kAll)
    for (int x = 0; x < 24; x++)
      for (int y = 0; y < 24; y++)
        for (uint64_t start : {0ull, ~0ull - 1})
          if (Case()) {
            Desc("%s failures %d and %d from %s", N(a), x, y, U64(start).c_str());
            Stream st(a, Secret(a, 6));
            Half h(a, start, Secret(a, 6), &st);
            Count("traces");
            if (!h.c) continue;
            auto fail = [&](int o) {
              Count("transitions");
              Bytes ct = st.Seal(h.m.gen, h.m.seq, aad, p5);
              FR none, af(aad), an(aad, {2, 3}), pf(p5), pn(p5, {2, 3}), cf(ct);
              an.v[1].iov_base = nullptr;
              pn.v[1].iov_base = nullptr;
              Buf out(64, 0xEE);
              bool ok;
              auto dec = [&](const std::vector<size_t>& sz, int null, size_t room) {
                size_t n = 0;
                for (size_t z : sz) n += z;
                FR f(Bytes(ct.begin(), ct.begin() + n), sz);
                if (null >= 0) f.v[null].iov_base = nullptr;
                return h.c->Decrypt(af.v, f.v, {out.p, room}).GetStatus().ok();
              };
              switch (o) {
                case 0: ok = h.c->Encrypt(af.v, pf.v, {out.p, 20}).GetStatus().ok(); break;
                case 1: ok = h.c->Encrypt(af.v, pf.v, {out.p, 4}).GetStatus().ok(); break;
                case 2: ok = h.c->Encrypt(af.v, pf.v, {out.p, 0}).GetStatus().ok(); break;
                case 3: ok = h.c->Encrypt(af.v, none.v, {out.p, 15}).GetStatus().ok(); break;
                case 4: ok = h.c->Encrypt(af.v, none.v, {out.p, 0}).GetStatus().ok(); break;
                case 5: ok = h.c->Encrypt(an.v, pf.v, {out.p, 64}).GetStatus().ok(); break;
                case 6: ok = h.c->Encrypt(af.v, pn.v, {out.p, 64}).GetStatus().ok(); break;
                case 7: ok = dec({}, -1, 5); break;
                case 8: ok = dec({0}, -1, 0); break;
                case 9: ok = dec({1}, -1, 5); break;
                case 10: ok = dec({15}, -1, 5); break;
                case 11: ok = dec({16}, -1, 5); break;
                case 12: ok = dec({20}, -1, 5); break;
                case 13: ok = dec({21}, 0, 5); break;
                case 14: ok = dec({10, 11}, 1, 5); break;
                case 15: ok = dec({10, 11}, 0, 5); break;
                case 16: ok = dec({21}, -1, 4); break;
                case 17: ok = dec({21}, -1, 0); break;
                case 18: ok = dec({2, 19}, -1, 4); break;
                case 19: ok = h.c->Decrypt(an.v, cf.v, {out.p, 5}).GetStatus().ok(); break;
                case 20: ok = h.c->Decrypt(none.v, cf.v, {out.p, 5}).GetStatus().ok(); break;
                case 21: ct[20] ^= 1; ok = dec({21}, -1, 5); break;
                case 22: ct[0] ^= 1; ok = dec({5, 16}, -1, 64); break;
                default: ct[5] ^= 128; ok = dec({7, 14}, -1, 64); break;
              }
              if (ok) Fail("an operation that must fail succeeded");
              if (!h.m.over) h.m.Use();
              return !ok;
            };
            fail(x) && fail(y) && h.Encrypt(aad, p5) && h.Decrypt(h.m.gen, h.m.seq, aad, p5, false) && h.Update() && h.Encrypt(aad, p5) && fail(x) && h.Decrypt(h.m.gen, h.m.seq, aad, p5, false);
          }
  // Carries: every power of two.
  Section("half_carry");
  for (Aead a : kAll)
    for (int k = 0; k <= 64; k++)
      for (int how = 0; how < 2; how++)
        if (Case()) {
          uint64_t start = (k == 64 ? 0 : 1ull << k) - 3;
          Desc("%s 8 %s from 2^%d-3", N(a), how ? "decryptions" : "encryptions", k);
          Stream st(a, Secret(a, 3));
          Half h(a, start, Secret(a, 3), &st);
          Count("traces");
          if (!h.c) continue;
          for (int i = 0; i < 8; i++) {
            if (!(how ? h.Decrypt(h.m.gen, h.m.seq, aad, p5, false) : h.Encrypt(aad, p5))) break;
            St(F("carry %s %s", N(a), U64(h.m.seq).c_str()));
          }
        }
  // Every pattern of sequence-number bytes: one byte set, and all byte pairs set.
  Section("half_bytes");
  for (Aead a : kAll)
    for (int b = 0; b < 8; b++)
      for (int v = 1; v < 256; v++)
        if (Case()) {
          uint64_t s = (uint64_t)v << (8 * b);
          Desc("%s sequence %s", N(a), U64(s).c_str());
          Stream st(a, Secret(a, 4));
          Half h(a, s, Secret(a, 4), &st);
          Count("traces");
          if (h.c) h.Encrypt(aad, p5) && h.Decrypt(0, h.m.seq, aad, p5, false);
        }
  // One long run without updates, checked at every step.
  Section("half_long");
  for (Aead a : kAll)
    for (int how = 0; how < 2; how++)
      if (Case()) {
        size_t n = Thorough() ? 200000 : 66000;
        Desc("%s %zu %s from 0", N(a), n, how ? "decryptions" : "encryptions");
        Stream st(a, Secret(a, 5));
        Half h(a, 0, Secret(a, 5), &st);
        Count("traces");
        if (!h.c) continue;
        for (size_t i = 0; i < n; i++)
          if (!(how ? h.Decrypt(0, h.m.seq, {}, {}, false) : h.Encrypt({}, {}))) break;
        Count("states", n);
      }
  // All ciphertexts of one history under one generation are distinct nonces: plaintext fixed, so equal ciphertexts mean equal nonces.
}

static void HalfKeys() {
  Bytes aad = ref::Pattern(5, 1), p = ref::Pattern(9, 2);
  Section("half_updates");
  for (Aead a : kAll)
    for (int salt = 0; salt < 4; salt++)
      if (Case()) {
        int n = salt == 2 ? Thorough() ? 70000 : 5000 : Thorough() ? 5000 : 1000;
        Desc("%s %d updates, two records after each (secret %d)", N(a), n, salt);
        Bytes sec = salt == 0 ? Bytes(SecretLen(a), 0) : salt == 1 ? Bytes(SecretLen(a), 0xff) : Secret(a, salt);
        Stream st(a, sec);
        Half x(a, 7, sec, &st);
        Count("traces");
        if (!x.c) continue;
        for (int i = 0; i <= n; i++) {
          if (!x.Encrypt(aad, p) || !x.Decrypt(x.m.gen, x.m.seq, aad, p, false)) break;
          St(F("upd %s %d %d", N(a), salt, i));
          if (!x.Update()) break;
        }
      }
  Section("half_updates_row");
  for (Aead a : kAll)
    for (int n = 0; n <= 40; n++)
      if (Case()) {
        Desc("%s %d updates in a row from sequence %d, then records", N(a), n, n);
        Stream st(a, Secret(a, 6));
        Half x(a, n, Secret(a, 6), &st);
        Count("traces");
        if (!x.c) continue;
        for (int i = 0; i < n; i++) if (!x.Update()) break;
        St(F("row %s %d", N(a), n));
        x.Encrypt(aad, p) && x.Encrypt({}, {}) && x.Decrypt(x.m.gen, x.m.seq, aad, p, false);
      }
  // Wherever the sequence stands, even at its end, an update restarts it under new keys.
  Section("half_updates_at");
  for (Aead a : kAll)
    for (int k = 0; k <= 64; k++)
      for (int d = -2; d <= 1; d++)
        for (int used = 0; used < 3; used++)
          for (int n = 1; n <= 2; n++)
            if (Case()) {
              uint64_t start = (k == 64 ? 0 : 1ull << k) + d;
              Desc("%s %d updates after %d records from %s", N(a), n, used, U64(start).c_str());
              Stream st(a, Secret(a, 8));
              Half x(a, start, Secret(a, 8), &st);
              Count("traces");
              if (!x.c) continue;
              bool ok = true;
              for (int i = 0; i < used && ok; i++) ok = x.Encrypt(aad, p);
              for (int i = 0; i < n && ok; i++) ok = x.Update();
              St(F("at %s %s %d %d", N(a), U64(start).c_str(), used, n));
              ok && x.Encrypt(aad, p) && x.Decrypt(x.m.gen, x.m.seq, aad, p, false) && x.Encrypt({}, {}) && x.Update() && x.Encrypt(aad, p);
            }
  for (Aead a : kAll)
    for (int b = 0; b < 8; b++)
      for (int v = 1; v < 256; v++)
        if (Case()) {
          uint64_t s = (uint64_t)v << (8 * b);
          Desc("%s update at sequence %s", N(a), U64(s).c_str());
          Stream st(a, Secret(a, 9));
          Half h(a, s, Secret(a, 9), &st);
          Count("traces");
          if (h.c) h.Update() && h.Encrypt(aad, p) && h.Decrypt(1, h.m.seq, aad, p, false);
        }
  // Generations of very different lengths.
  Section("half_updates_long");
  for (Aead a : kAll)
    for (int how = 0; how < 2; how++)
      for (size_t n : {255, 256, 257, 65535, 65536, 65537})
        if (Case()) {
          Desc("%s %zu %s in the second generation", N(a), n, how ? "decryptions" : "encryptions");
          Stream st(a, Secret(a, 5));
          Half h(a, n, Secret(a, 5), &st);
          Count("traces");
          if (!h.c || !h.Update()) continue;
          size_t i = 0;
          for (; i < n; i++)
            if (!(how ? h.Decrypt(1, h.m.seq, {}, {}, false) : h.Encrypt({}, {}))) break;
          Count("states", i);
          i == n && h.Update() && h.Encrypt(aad, p) && h.Decrypt(2, 1, aad, p, false);
        }
  Section("half_secret_bits");
  for (Aead a : kAll)
    for (size_t b = 0; b < 8 * SecretLen(a); b++)
      for (int inv = 0; inv < 2; inv++)
      if (Case()) {
        Desc("%s secret with only bit %zu %s, before and after an update", N(a), b, inv ? "clear" : "set");
        Bytes sec(SecretLen(a), inv ? 0xff : 0);
        sec[b / 8] ^= 1 << (b % 8);
        Stream st(a, sec);
        Half x(a, 0, sec, &st);
        Count("traces");
        St(F("bits %s %zu %d", N(a), b, inv));
        if (x.c) x.Encrypt(aad, p) && x.Update() && x.Encrypt(aad, p);
      }
  Section("half_create");
  for (int cs : {0, 1, 2, 3, 4, 5, 17, 255, -1})
    for (size_t l = 0; l <= 130; l++)
      if (Case()) {
        Desc("ciphersuite value %d, secret of %zu bytes", cs, l);
        bool valid = false;
        for (Aead a : kAll) if ((int)CS(a) == cs && SecretLen(a) == l) valid = true;
        auto r = S2AHalfConnection::Create(static_cast<Opt::Ciphersuite>(cs), 0, ref::Pattern(l, 3));
        Count("traces"); Count("transitions");
        St(F("create %d %zu", cs, l));
        bool ok = r.index() == 1 && absl::get<1>(r) != nullptr;
        if (ok != valid) Fail("%s", ok ? "created" : "refused");
        if (r.index() == 0 && absl::get<0>(r).ok()) Fail("refused with OK status");
      }
}

// ----------------------------------------------------------------- crypter
struct Factory : s2a::s2a_channel::S2AChannelFactoryInterface {
  void WaitForChannelReady() override {}
  absl::StatusOr<std::unique_ptr<s2a::s2a_channel::S2AChannelInterface>> Build(S2AChannelOptionsInterface*) override { return absl::UnimplementedError("x"); }
};
struct Sent {
  std::string url, id;
  uint64_t conn;
  int idtype;
  std::vector<Bytes> tickets;
  void* factory;
};
static std::vector<Sent> g_sent;
static int g_waits, g_waits_alive;
static bool g_alive, g_return_wait = true;
static bool Wait() { g_waits++; if (g_alive) g_waits_alive++; return g_waits % 2; }
static s2a::s2a_ticket_sender::WaitOnTicketSender Sender(s2a::s2a_ticket_sender::TicketSenderOptions& o) {
  Sent s;
  s.url = o.handshaker_service_url;
  s.conn = o.connection_id;
  s.idtype = (int)o.local_identity.GetIdentityType();
  s.id = o.local_identity.GetIdentityString();
  if (o.tickets)
    for (auto& t : *o.tickets) s.tickets.push_back(Bytes(t->begin(), t->end()));
  s.factory = o.channel_factory.get();
  g_sent.push_back(s);
  return g_return_wait ? Wait : nullptr;
}
static const uint64_t kConn = 0x123456789abcdef1ull;
static const std::string kUrl = "s2a:7";

// A crypter and the model of everything observable about it.
struct Conn {
  Aead suite;
  Stream *in, *out;
  std::unique_ptr<S2ACrypter> c;
  HalfModel mi, mo;
  bool closed = false;
  HModel hs;
  int phase = 0;  // 0 no ticket yet, 1 receiving, 2 done
  bool expecting = false;  // a handshake message is incomplete
  bool judge = true;       // what happens to tickets is specified (until a malformed handshake message)
  std::vector<std::vector<Bytes>> sent;
  void* factory = nullptr;
  Opt::Identity id = Opt::Identity::FromSpiffeId(std::string("spiffe\0id", 9));

  uint64_t conn;
  std::string url;

  Conn(Aead a, Stream* i, Stream* o, uint64_t is = 0, uint64_t os = 0, uint64_t conn_ = kConn, const std::string& url_ = kUrl, const Opt::Identity* who = nullptr)
      : suite(a), in(i), out(o), conn(conn_), url(url_) {
    if (who) id = *who;
    g_sent.clear();
    g_waits = g_waits_alive = 0;
    g_alive = true;
    g_return_wait = true;
    auto f = absl::make_unique<Factory>();
    factory = f.get();
    auto r = S2ACrypter::Create(Opt::TlsVersion::TLS1_3, CS(a), conn, url, id, i->gens[0].secret, o->gens[0].secret, is, os, Sender, std::move(f),
                                absl::make_unique<s2a::s2a_channel::S2AChannelFactoryInterface::S2AChannelOptionsInterface>(), [](const std::string&) {});
    mi.seq = is;
    mo.seq = os;
    Count("traces");
    if (r.index() != 1 || !absl::get<1>(r)) { Fail("crypter not created"); return; }
    c = std::move(absl::get<1>(r));
  }
  bool Sig() {
    if (c->RecordOverhead() != 22) { Fail("record overhead %zu", c->RecordOverhead()); return false; }
    std::string k = F("conn %s in %zu/%s/%d out %zu/%s/%d closed %d hs %zu phase %d sent %zu", N(suite), mi.gen, U64(mi.seq).c_str(), mi.over, mo.gen, U64(mo.seq).c_str(), mo.over, closed, hs.cur.size(), phase, sent.size());
    St(k + F(" t%zu", hs.tickets.size()));
    return CheckSent();
  }
  bool CheckSent() {
    if (!judge) { sent.clear(); for (auto& x : g_sent) sent.push_back(x.tickets); }
    if (g_sent.size() != sent.size()) { Fail("ticket sender called %zu times, expected %zu", g_sent.size(), sent.size()); return false; }
    for (size_t i = 0; i < sent.size(); i++) {
      if (g_sent[i].tickets != sent[i]) { Fail("%zu tickets were sent, expected %zu, or not byte-exact and in order", g_sent[i].tickets.size(), sent[i].size()); return false; }
      if (g_sent[i].conn != conn || g_sent[i].url != url || g_sent[i].id != id.GetIdentityString() || g_sent[i].idtype != (int)id.GetIdentityType() || g_sent[i].factory != factory) {
        Fail("tickets were sent for the wrong connection, identity, address or channel");
        return false;
      }
    }
    if (g_waits) { Fail("wait function called before destruction"); return false; }
    return true;
  }
  bool Destroy() {
    g_alive = true;
    c.reset();
    int want = sent.empty() ? 0 : g_return_wait ? 1 : 0;
    if (!judge) want = g_sent.empty() ? 0 : g_return_wait ? 1 : 0;
    if (g_waits != want) { Fail("wait function called %d times by destruction, expected %d", g_waits, want); return false; }
    return true;
  }
  static uint8_t TypeByte(RT t) { return t == RT::APPLICATION_DATA ? 0x17 : t == RT::ALERT ? 0x15 : 0x16; }

  // Protect; extra = capacity beyond (or below) the record size.
  bool Protect(RT t, const FR& f, const Bytes& pt, int extra = 0, bool nullpiece = false) {
    Count("transitions");
    size_t need = pt.size() + 22;
    long cap = (long)need + extra;
    if (cap < 0) cap = 0;
    Buf out(cap, 0xEE);
    Iovec iv = {out.p, (size_t)cap};
    auto s = c->Protect(t, f.v, iv);
    bool size_ok = pt.size() <= 16384 && extra >= 0;
    bool ok = size_ok && !mo.over && !nullpiece;
    if ((s.GetCode() == Code::OK) != ok) { Fail("protecting %zu bytes into %ld: code %d, expected %s", pt.size(), cap, (int)s.GetCode(), ok ? "success" : "an error"); return false; }
    if (!ok) {
      if (s.GetBytesWritten() != 0) { Fail("failed protection reports %zu bytes", s.GetBytesWritten()); return false; }
      bool same = true, zero = true;
      for (long i = 0; i < cap; i++) { if (out.p[i] != 0xEE) same = false; if (out.p[i]) zero = false; }
      if (!same && !zero) { Fail("failed protection left bytes behind"); return false; }
      if (!size_ok) {
        if (s.GetCode() != Code::FAILED_PRECONDITION) { Fail("size error reported as code %d", (int)s.GetCode()); return false; }
        return true;
      }
      if (!mo.over) mo.Use();
      return true;
    }
    if (s.GetBytesWritten() != need) { Fail("reports %zu bytes, expected %zu", s.GetBytesWritten(), need); return false; }
    if (memcmp(out.p, out_rec(t, pt).data(), need) != 0) { Fail("record differs from RFC 8446 (generation %zu sequence %s)", mo.gen, U64(mo.seq).c_str()); return false; }
    for (long i = need; i < cap; i++) if (out.p[i] != 0xEE) { Fail("byte %ld beyond the record was written", i - (long)need); return false; }
    mo.Use();
    return true;
  }
  const Bytes& out_rec(RT t, const Bytes& pt) { return out->Rec(mo.gen, mo.seq, TypeByte(t), pt); }
  bool Protect(RT t, const Bytes& pt, int extra = 0) { FR f(pt); return Protect(t, f, pt, extra); }
  bool UpdateOut() {
    Count("transitions");
    auto s = c->UpdateOutboundKey();
    if (!s.ok()) { Fail("outbound key update failed"); return false; }
    mo.Update();
    return true;
  }
  // What the model says about delivering inner plaintext `inner` (authentic, next in line).
  void Expect(const Bytes& inner, std::set<Code>* codes, Bytes* data) {
    data->clear();
    size_t n = inner.size();
    while (n && !inner[n - 1]) n--;
    if (!n) { *codes = {Code::INVALID_RECORD}; return; }
    uint8_t t = inner[n - 1];
    Bytes body(inner.begin(), inner.begin() + n - 1);
    if (t == 0x15) {
      if (body.size() < 2) { *codes = {Code::INVALID_RECORD}; return; }
      if (body[1] == 0) { closed = true; *codes = {Code::ALERT_CLOSE_NOTIFY}; return; }
      *codes = {Code::ALERT_OTHER};
      return;
    }
    if (t == 0x16) {
      HModel::Out o;
      if (!hs.Feed(body, &o)) { judge = false; *codes = {Code::INTERNAL_ERROR}; return; }
      *codes = {Code::OK};
      expecting = o.expecting;
      if (o.ku && !o.expecting) mi.Update();
      if (phase == 0 && o.ticket) phase = 1;
      if (phase == 1 && !o.expecting && hs.tickets.size() >= 5) SendTickets();
      return;
    }
    if (t == 0x17) {
      if (expecting) { *codes = {Code::INVALID_RECORD}; return; }
      if (phase == 1) SendTickets();
      *codes = {Code::OK};
      *data = body;
      return;
    }
    *codes = {Code::INVALID_RECORD};
  }
  void SendTickets() {
    std::vector<Bytes> t;
    hs.Retrieve(&t);
    sent.push_back(t);
    phase = 2;
  }
  // Feeds a record: header (5 bytes or hdrlen) and payload fragments.
  // authentic: the inner plaintext if the record is authentic, next in line and well-formed; pre: rejected before decryption.
  enum Kind { AUTH, BAD, PRE_SHORT, PRE_LONG, PRE_HEADER };
  bool Feed(const Bytes& header, bool nullheader, const FR& payload, size_t paylen, Kind kind, const Bytes& inner, long cap = -1) {
    Count("transitions");
    size_t room = cap >= 0 ? (size_t)cap : paylen;
    Buf pt(room, 0xEE), hb(header);
    Iovec hv = {nullheader ? nullptr : hb.p, header.size()};
    auto s = c->Unprotect(hv, payload.v, {pt.p, room});
    std::set<Code> codes;
    Bytes data;
    if (closed) codes = {Code::ALERT_CLOSE_NOTIFY};
    else if (kind == PRE_SHORT || kind == PRE_HEADER) codes = {Code::FAILED_PRECONDITION};
    else if (kind == PRE_LONG) codes = {Code::ALERT_RECORD_OVERFLOW};
    else {
      bool over = mi.over;
      if (!over) mi.Use();
      if (kind == BAD || over) codes = {Code::INTERNAL_ERROR};
      else Expect(inner, &codes, &data);
    }
    if (!codes.count(s.GetCode())) { Fail("unprotecting: code %d, expected %d", (int)s.GetCode(), (int)*codes.begin()); return false; }
    if (s.GetBytesWritten() != data.size()) { Fail("unprotecting: %zu bytes delivered, expected %zu", s.GetBytesWritten(), data.size()); return false; }
    if (data.size() && pt.bytes(data.size()) != data) { Fail("unprotecting: data is not what the peer sent"); return false; }
    if (*codes.begin() == Code::INTERNAL_ERROR && kind == BAD)
      for (size_t i = 0; i < room; i++) if (pt.p[i] != 0 && pt.p[i] != 0xEE) { Fail("unauthenticated plaintext left in the output"); return false; }
    return true;
  }
  bool Feed(const Bytes& rec, Kind kind, const Bytes& inner = {}) {
    size_t h = std::min<size_t>(5, rec.size());
    Bytes pay(rec.begin() + h, rec.end());
    FR f(pay);
    return Feed(Bytes(rec.begin(), rec.begin() + h), false, f, pay.size(), kind, inner);
  }
  // The next authentic record with the given inner plaintext.
  bool Good(const Bytes& inner) {
    Bytes r = in->Raw(mi.gen, mi.seq, inner);
    return Feed(r, AUTH, inner);
  }
  bool Good(uint8_t type, const Bytes& content, size_t pad = 0) { return Good(Stream::Inner(type, content, pad)); }
};

// C08: the two directions have keys of their own.
static void Directions() {
  Section("dir_hist");
  static const char* names[] = {"send", "recv", "recv-keyupdate", "keyupdate-out"};
  for (Aead a : kAll) {
    Stream in(a, Secret(a, 50)), out(a, Secret(a, 51));
    Histories(4, (Thorough() ? 9 : 7) - (kBoring ? 1 : 0), [&](const std::vector<int>& seq) {
      Desc("%s:%s", N(a), Names(seq, names).c_str());
      Conn x(a, &in, &out, 11, 700);
      if (!x.c) return;
      for (int o : seq) {
        bool ok = o == 0 ? x.Protect(RT::APPLICATION_DATA, {1}) : o == 1 ? x.Good(0x17, {2}) : o == 2 ? x.Good(0x16, kKu) : x.UpdateOut();
        if (!ok || !x.Sig()) return;
      }
      x.Good(0x17, {3}) && x.Protect(RT::APPLICATION_DATA, {4});
    });
  }
  Section("dir_create");
  for (Aead a : kAll)
    for (int i = -2; i <= 2; i++)
      for (int o = -2; o <= 2; o++)
        if (Case()) {
          Desc("%s inbound secret off by %d bytes, outbound by %d", N(a), i, o);
          Count("traces"); Count("transitions");
          auto r = S2ACrypter::Create(Opt::TlsVersion::TLS1_3, CS(a), kConn, kUrl, Opt::Identity::FromHostname("h"), ref::Pattern(SecretLen(a) + i, 1), ref::Pattern(SecretLen(a) + o, 1), 0, 0, Sender, nullptr, nullptr, [](const std::string&) {});
          bool ok = r.index() == 1 && absl::get<1>(r) != nullptr;
          if (ok != (i == 0 && o == 0)) Fail("%s", ok ? "created" : "refused");
        }
}

// C09 ---------------------------------------------------------------------
static void Protects() {
  const RT types[] = {RT::APPLICATION_DATA, RT::ALERT, RT::HANDSHAKE};
  Section("p_len");
  for (Aead a : kAll) {
    Stream in(a, Secret(a, 10)), out(a, Secret(a, 11));
    std::vector<size_t> lens;
    for (size_t l = 0; l <= (Thorough() ? 140000 : 16650); l++) lens.push_back(l);
    for (size_t l : {20000, 32767, 32768, 32769, 65535, 65536, 65537, 65552, 65553, 65558, 81920, 131071, 131072, 131073, 1 << 20, 1 << 24}) lens.push_back(l);
    for (size_t l : lens)
      if (Case()) {
        Desc("%s protect %zu bytes, type %d", N(a), l, (int)(l % 3));
        Conn x(a, &in, &out, 3, l * 1000003ull);
        if (!x.c) continue;
        out.memo.clear();
        x.Protect(types[l % 3], ref::Pattern(l, 7)) && x.Protect(types[0], ref::Pattern(3, 7));
        x.Sig();
      }
  }
  Section("p_big_pieces");
  for (Aead a : kAll)
    for (size_t total : {16383, 16384, 16385, 16386, 16484})
      for (size_t k : {2, 3, 4, 7, 100})
        if (Case()) {
          Desc("%s protect %zu bytes in %zu pieces", N(a), total, k);
          Stream in(a, Secret(a, 10)), out(a, Secret(a, 11));
          Conn x(a, &in, &out);
          if (!x.c) continue;
          std::vector<size_t> sz(k, total / k);
          sz[k - 1] += total - (total / k) * k;
          Bytes pt = ref::Pattern(total, 9);
          FR f(pt, sz);
          x.Protect(RT::APPLICATION_DATA, f, pt) && x.Protect(RT::ALERT, ref::Pattern(2, 1));
        }
  Section("p_pieces");
  for (Aead a : kAll) {
    Stream in(a, Secret(a, 10)), out(a, Secret(a, 11));
    for (size_t n : {0, 1, 2, 3, 5, 7})
      for (size_t k = 0; k <= 4; k++)
        for (int nul = 0; nul < 2; nul++)
          WeakCompositions(n, k, [&](const std::vector<size_t>& sz) {
            if (!Case()) return;
            Desc("%s protect %zu bytes in pieces %s nul=%d", N(a), n, Show(sz).c_str(), nul);
            Conn x(a, &in, &out, 0, 5);
            if (!x.c) return;
            Bytes pt = ref::Pattern(n, 13);
            FR f(pt, sz, nul);
            x.Protect(types[(n + k) % 3], f, pt, (int)k) && x.Protect(types[(n + k + 1) % 3], f, pt);
          });
  }
  Section("p_many");
  for (Aead a : kAll)
    for (size_t n : {0, 1, 40, 700, 16384}) {
      Stream in(a, Secret(a, 10)), out(a, Secret(a, 11));
      ManyShapes(n, [&](const std::string& d, const std::vector<size_t>& sz, bool nul) {
        Desc("%s protect %s", N(a), d.c_str());
        Conn x(a, &in, &out, 0, 5);
        if (!x.c) return;
        Bytes pt = ref::Pattern(n, 13);
        FR f(pt, sz, nul);
        x.Protect(RT::APPLICATION_DATA, f, pt, 1) && x.Protect(RT::ALERT, {1, 2});
      });
    }
  // Pieces that share memory.
  Section("p_shared");
  for (Aead a : kAll) {
    Stream in(a, Secret(a, 10)), out(a, Secret(a, 11));
    Bytes base = ref::Pattern(40, 14);
    Windows(Thorough() ? 4 : 3, [&](const std::string& d, const WindowList& w) {
      Desc("%s protect %s of one buffer", N(a), d.c_str());
      Conn x(a, &in, &out, 0, 5);
      if (!x.c) return;
      Bytes flat;
      FR f(base, w, &flat);
      x.Protect(RT::APPLICATION_DATA, f, flat, 1) && x.Protect(RT::HANDSHAKE, f, flat) && x.Protect(RT::ALERT, {1, 2});
    });
  }
  Section("p_cap");
  for (Aead a : kAll) {
    Stream in(a, Secret(a, 10)), out(a, Secret(a, 11));
    for (size_t n : {0, 1, 2, 15, 16, 17, 40, 100, 16383, 16384})
      for (long extra = -(long)n - 22; extra <= 24; extra++) {
        if (n > 200 && extra < -40 && extra > -(long)n - 20) continue;
        if (Case()) {
          Desc("%s protect %zu bytes, capacity %ld", N(a), n, (long)n + 22 + extra);
          Conn x(a, &in, &out, 0, 9);
          if (!x.c) continue;
          Bytes pt = ref::Pattern(n, 14);
          x.Protect(RT::APPLICATION_DATA, pt, extra) && x.Protect(RT::HANDSHAKE, ref::Pattern(4, 1));
        }
        if (n == 0)  // no pieces at all
          for (int t = 0; t < 3; t++)
            if (Case()) {
              Desc("%s protect no pieces, capacity %ld, type %d", N(a), 22 + extra, t);
              Conn x(a, &in, &out, 0, 9);
              if (!x.c) continue;
              FR none;
              x.Protect(t == 0 ? RT::APPLICATION_DATA : t == 1 ? RT::HANDSHAKE : RT::ALERT, none, {}, extra) && x.Protect(RT::HANDSHAKE, ref::Pattern(4, 1)) && x.Protect(RT::HANDSHAKE, none, {}, 3);
            }
      }
  }
  Section("p_null");
  for (Aead a : kAll)
    for (int np = 1; np <= 4; np++)
      for (int bad = 0; bad < np; bad++)
        if (Case()) {
          Desc("%s protect with piece %d of %d null", N(a), bad, np);
          Stream in(a, Secret(a, 10)), out(a, Secret(a, 11));
          Conn x(a, &in, &out);
          if (!x.c) continue;
          Bytes pt = ref::Pattern(3 * np, 15);
          FR f(pt, std::vector<size_t>(np, 3));
          f.v[bad].iov_base = nullptr;
          x.Protect(RT::APPLICATION_DATA, f, pt, 2, true) && x.Protect(RT::APPLICATION_DATA, pt);
        }
  Section("p_hist");
  static const char* names[] = {"app5", "app0", "alert", "hs", "toolong", "short", "nullpiece", "keyupdate-out", "recv-app", "recv-bad", "recv-keyupdate", "recv-close"};
  for (Aead a : kAll)
    for (uint64_t start : std::vector<uint64_t>{0, 255, ~0ull - 1, ~0ull}) {
      Stream in(a, Secret(a, 10)), out(a, Secret(a, 11));
      int depth = (start == 0 || start == ~0ull - 1 ? 4 : 3) + Thorough() - (kBoring ? 1 : 0);
      Histories(12, depth, [&](const std::vector<int>& seq) {
        Desc("%s from %s:%s", N(a), U64(start).c_str(), Names(seq, names).c_str());
        Conn x(a, &in, &out, 4, start);
        if (!x.c) return;
        for (int o : seq) {
          bool ok = true;
          switch (o) {
            case 0: ok = x.Protect(RT::APPLICATION_DATA, ref::Pattern(5, 1), 3); break;
            case 1: ok = x.Protect(RT::APPLICATION_DATA, {}); break;
            case 2: ok = x.Protect(RT::ALERT, {1, 0}); break;
            case 3: ok = x.Protect(RT::HANDSHAKE, kKu); break;
            case 4: { static const Bytes big = ref::Pattern(16385, 1); static const FR f(big); ok = x.Protect(RT::APPLICATION_DATA, f, big); break; }
            case 5: ok = x.Protect(RT::APPLICATION_DATA, ref::Pattern(5, 1), -1); break;
            case 6: { Bytes pt = ref::Pattern(6, 1); FR f(pt, {2, 4}); f.v[1].iov_base = nullptr; ok = x.Protect(RT::APPLICATION_DATA, f, pt, 0, true); break; }
            case 7: ok = x.UpdateOut(); break;
            case 8: ok = x.Good(0x17, {1, 2, 3}); break;
            case 9: { Bytes r = in.Rec(x.mi.gen, x.mi.seq, 0x17, {1, 2, 3}); r[9] ^= 1; ok = x.Feed(r, Conn::BAD); break; }
            case 10: ok = x.Good(0x16, kKu); break;
            case 11: ok = x.Good(0x15, {1, 0}); break;
          }
          if (!ok || !x.Sig()) return;
        }
        x.Protect(RT::APPLICATION_DATA, ref::Pattern(2, 1)) && x.Destroy();
      });
    }
}

// C10 ---------------------------------------------------------------------
static void Unprotects() {
  Section("u_pad");
  for (Aead a : kAll) {
    Stream in(a, Secret(a, 20)), out(a, Secret(a, 21));
    auto one = [&](size_t n, size_t pad, int fill, const char* what) {
      if (!Case()) return;
      Desc("%s %s: %zu bytes, padding %zu, fill %d", N(a), what, n, pad, fill);
      in.memo.clear();
      Conn x(a, &in, &out, 77);
      if (!x.c) return;
      Bytes c = fill == 1 ? Bytes(n, 0) : fill == 2 ? Bytes(n, 0x17) : ref::Pattern(n, 22);
      Bytes inner = Stream::Inner(0x17, c, pad);
      Bytes r = in.Raw(0, 77, inner);
      x.Feed(r, inner.size() > 16385 ? Conn::PRE_LONG : Conn::AUTH, inner) && x.Good(0x17, {9, 8}) && x.Sig();
    };
    size_t lim = Thorough() ? 64 : 24;
    for (size_t n = 0; n <= 16384; n++) one(n, n % 4 == 0 ? 0 : n % 4 == 1 ? 16384 - n : n % 4 == 2 ? 1 : (16384 - n) / 2, n % 3, "every length");
    if (Thorough()) for (size_t n = 0; n <= 16384; n++) one(n, 0, 0, "unpadded"), one(n, 16384 - n, 1, "padded to the limit");
    for (size_t n = 0; n <= lim; n++) for (size_t pad = 0; pad <= lim; pad++) for (int fill = 0; fill < 3; fill++) one(n, pad, fill, "small");
    for (size_t n : {0, 1, 2, 100, 255, 256, 1000, 8192, 16000, 16382, 16383, 16384, 16385, 16386, 17000})
      for (size_t pad : {(size_t)0, (size_t)1, (size_t)2, (size_t)255, (size_t)256, (size_t)257, (size_t)(n <= 16384 ? 16384 - n : 3), (size_t)(n < 16384 ? 16384 - n - 1 : 4), (size_t)(n <= 16384 ? 16384 - n + 1 : 5), (size_t)(n <= 16384 ? 16384 - n + 2 : 6)})
        one(n, pad, 0, "large");
    for (size_t n : {16384, 16385, 16386, 16400, 16640, 20000, 40000, 65518, 65519}) one(n, 0, 0, "oversized");
  }
  Section("u_types");
  for (Aead a : kAll) {
    Stream in(a, Secret(a, 20)), out(a, Secret(a, 21));
    for (int t = 0; t < 256; t++)
      for (size_t n : {0, 1, 2, 5, 30})
        for (size_t pad : {0, 1, 9})
          if (Case()) {
            Desc("%s inner type %d, %zu bytes, padding %zu", N(a), t, n, pad);
            Conn x(a, &in, &out);
            if (!x.c) continue;
            Bytes c(n, 0x21);
            if (t == 0x16 && n == 0) continue;  // an empty handshake record: not specified
            x.Good(t, c, pad) && x.Good(0x17, {5}) && x.Sig();
          }
    for (size_t n = 1; n <= (Thorough() ? 16385 : 400); n++)
      if (Case()) {
        Desc("%s inner plaintext of %zu zeros", N(a), n);
        Conn x(a, &in, &out);
        if (x.c) x.Good(Bytes(n, 0)) && x.Good(0x17, {5});
      }
    if (Case()) {
      Desc("%s record with nothing inside (tag only)", N(a));
      Conn x(a, &in, &out);
      Bytes r = in.Raw(0, 0, {});
      if (x.c) x.Feed(r, Conn::PRE_SHORT) && x.Good(0x17, {5});
    }
    if (Case()) {
      Desc("%s 16385 zeros", N(a));
      Conn x(a, &in, &out);
      if (x.c) x.Good(Bytes(16385, 0)) && x.Good(0x17, {5});
    }
  }
  Section("u_flip");
  for (Aead a : kAll) {
    Stream in(a, Secret(a, 20)), out(a, Secret(a, 21));
    for (size_t n : {0, 1, 5, 16, 33})
      for (int type : {0x17, 0x15, 0x16}) {
        Bytes c = type == 0x15 ? Bytes({1, 0}) : type == 0x16 ? kKu : ref::Pattern(n, 24);
        if (type != 0x17 && n != 0) continue;
        Bytes r = in.Rec(0, 0, type, c, n % 2);
        for (size_t b = 0; b < 8 * r.size(); b++)
          if (Case()) {
            Desc("%s record of type %d, %zu bytes, bit %zu flipped", N(a), type, c.size(), b);
            Conn x(a, &in, &out);
            if (!x.c) continue;
            Bytes t = r;
            t[b / 8] ^= 1 << (b % 8);
            bool hdr = b < 40;
            x.Feed(t, hdr ? Conn::PRE_HEADER : Conn::BAD) && (hdr ? x.Feed(r, Conn::AUTH, Stream::Inner(type, c, n % 2)) : x.Feed(r, Conn::BAD) && x.Good(0x17, {4, 4}));
          }
      }
  }
  Section("u_header");
  {
    Aead a = ref::AES128;
    Stream in(a, Secret(a, 20)), out(a, Secret(a, 21));
    Bytes c = {1, 2, 3, 4}, inner = Stream::Inner(0x17, c, 0), r = in.Rec(0, 0, 0x17, c);
    for (int pos = 0; pos < 5; pos++)
      for (int v = 0; v < 256; v++)
        if (Case()) {
          Desc("header byte %d = %d", pos, v);
          Conn x(a, &in, &out);
          if (!x.c) continue;
          Bytes t = r;
          bool same = t[pos] == v;
          t[pos] = v;
          x.Feed(t, same ? Conn::AUTH : Conn::PRE_HEADER, inner) && (same || x.Feed(r, Conn::AUTH, inner));
        }
    // wrong header sizes; the bytes are moved to or from the payload, total unchanged
    for (size_t hl = 0; hl <= 12; hl++)
      for (int nul = 0; nul < 2; nul++)
        if (Case()) {
          Desc("header of %zu bytes, null %d", hl, nul);
          Conn x(a, &in, &out);
          if (!x.c) continue;
          Bytes p(r.begin() + hl, r.end());
          FR f(p);
          bool good = hl == 5 && !nul;
          x.Feed(Bytes(r.begin(), r.begin() + hl), nul, f, p.size(), good ? Conn::AUTH : Conn::PRE_HEADER, inner) && (good || x.Feed(r, Conn::AUTH, inner));
        }
    // every length field against every actual length (small), and big ones
    for (size_t pl = 0; pl <= 60; pl++)
      for (size_t hl = 0; hl <= 60; hl++)
        if (Case()) {
          Desc("payload of %zu bytes, length field %zu", pl, hl);
          Conn x(a, &in, &out);
          if (!x.c) continue;
          Bytes t = {0x17, 3, 3, (uint8_t)(hl >> 8), (uint8_t)hl};
          t = t + ref::Pattern(pl, 31);
          x.Feed(t, pl + 5 < 22 ? Conn::PRE_SHORT : pl != hl ? Conn::PRE_HEADER : Conn::BAD) && (pl + 5 >= 22 && pl == hl ? x.Feed(r, Conn::BAD) : x.Feed(r, Conn::AUTH, inner));
        }
    for (size_t pl : {16400, 16401, 16402, 16403, 16500, 65535, 65536, 65537, 65557, 65558, 70000, 81937})
      for (long d : {0, 1, -1, 256, -256, 65536, -65536})
        if (Case()) {
          Desc("payload of %zu bytes, length field off by %ld", pl, d);
          Conn x(a, &in, &out);
          if (!x.c) continue;
          long hl = (long)pl + d;
          Bytes t = {0x17, 3, 3, (uint8_t)(hl >> 8), (uint8_t)hl};
          t = t + ref::Pattern(pl, 31);
          bool eq = (hl & 0xffff) == (long)pl;
          bool pre = pl > 16401 || !eq;
          x.Feed(t, pl > 16401 ? Conn::PRE_LONG : !eq ? Conn::PRE_HEADER : Conn::BAD) && (pre ? x.Feed(r, Conn::AUTH, inner) : x.Feed(r, Conn::BAD));
        }
  }
  Section("u_cut");
  for (Aead a : kAll) {
    Stream in(a, Secret(a, 20)), out(a, Secret(a, 21));
    for (size_t n : {0, 1, 9, 20})
      for (int fix = 0; fix < 2; fix++)
        for (int d = -60; d <= 8; d++) {
          Bytes c = ref::Pattern(n, 24), r = in.Rec(0, 0, 0x17, c);
          if ((long)r.size() + d < 0 || d == 0) continue;
          if (Case()) {
            Desc("%s record of %zu content bytes %s by %d, length field %s", N(a), n, d < 0 ? "cut" : "extended", d, fix ? "adjusted" : "kept");
            Conn x(a, &in, &out);
            if (!x.c) continue;
            Bytes t = r;
            t.resize(r.size() + d, 0);
            if (fix && t.size() >= 5) { t[3] = (t.size() - 5) >> 8; t[4] = t.size() - 5; }
            Conn::Kind k = t.size() < 22 ? Conn::PRE_SHORT : fix ? Conn::BAD : Conn::PRE_HEADER;
            x.Feed(t, k) && (k == Conn::BAD ? x.Feed(r, Conn::BAD) && x.Good(0x17, {1}) : x.Feed(r, Conn::AUTH, Stream::Inner(0x17, c, 0)));
          }
        }
  }
  // Fragmentation of the payload, with empty (null) pieces in between.
  Section("u_pieces");
  for (Aead a : kAll) {
    Stream in(a, Secret(a, 20)), out(a, Secret(a, 21));
    for (size_t n : {0, 1, 3, 20}) {
      Bytes c = ref::Pattern(n, 25), inner = Stream::Inner(0x17, c, 1), r = in.Raw(0, 0, inner), h(r.begin(), r.begin() + 5), p(r.begin() + 5, r.end());
      for (size_t i = 0; i <= p.size(); i++)
        for (size_t j = i; j <= p.size(); j++)
          for (int nul = 0; nul < 2; nul++) {
            if (!Case()) continue;
            Desc("%s payload of %zu in pieces %zu %zu %zu nul=%d", N(a), p.size(), i, j - i, p.size() - j, nul);
            Conn x(a, &in, &out);
            if (!x.c) continue;
            FR f(p, {i, j - i, p.size() - j}, nul);
            x.Feed(h, false, f, p.size(), Conn::AUTH, inner) && x.Good(0x17, {7});
          }
      if (Case()) {
        Desc("%s payload of %zu byte by byte", N(a), p.size());
        Conn x(a, &in, &out);
        FR f(p, std::vector<size_t>(p.size(), 1));
        if (x.c) x.Feed(h, false, f, p.size(), Conn::AUTH, inner) && x.Good(0x17, {7});
      }
    }
  }
  Section("u_many");
  for (Aead a : kAll)
    for (size_t n : {0, 1, 40, 700, 16384}) {
      Stream in(a, Secret(a, 20)), out(a, Secret(a, 21));
      Bytes c = ref::Pattern(n, 25), inner = Stream::Inner(0x17, c, n == 40), r = in.Raw(0, 0, inner), h(r.begin(), r.begin() + 5), p(r.begin() + 5, r.end());
      ManyShapes(p.size(), [&](const std::string& d, const std::vector<size_t>& sz, bool nul) {
        Desc("%s unprotect payload of %s", N(a), d.c_str());
        Conn x(a, &in, &out);
        if (!x.c) return;
        FR f(p, sz, nul);
        x.Feed(h, false, f, p.size(), Conn::AUTH, inner) && x.Good(0x17, {7});
      });
    }
  // Pieces in one allocation, in order and reversed.
  Section("u_shared");
  for (Aead a : kAll) {
    Stream in(a, Secret(a, 20)), out(a, Secret(a, 21));
    for (size_t n : {0, 1, 5, 17}) {
      Bytes c = ref::Pattern(n, 25), inner = Stream::Inner(0x17, c, n == 5), r = in.Raw(0, 0, inner), h(r.begin(), r.begin() + 5), p(r.begin() + 5, r.end());
      for (size_t k = 1; k <= 3; k++)
        WeakCompositions(p.size(), k, [&](const std::vector<size_t>& sz) {
          for (int back = 0; back < 2; back++)
            if (Case()) {
              Desc("%s unprotect payload %s in one allocation, %s", N(a), Show(sz).c_str(), back ? "reversed" : "in order");
              Conn x(a, &in, &out);
              if (!x.c) continue;
              FR f(p, sz, back ? FR::BACKWARD : FR::FORWARD);
              x.Feed(h, false, f, p.size(), Conn::AUTH, inner) && x.Good(0x17, {7});
            }
        });
    }
  }
  // Output capacities: never more than the room given is written.
  Section("u_cap");
  for (Aead a : kAll) {
    Stream in(a, Secret(a, 20)), out(a, Secret(a, 21));
    for (size_t n : {0, 1, 5, 40})
      for (size_t pad : {0, 3})
        for (size_t cap = 0; cap <= n + pad + 24; cap++)
          for (int split = 0; split < 2; split++)
          if (Case()) {
            Desc("%s %zu bytes padding %zu into capacity %zu split %d", N(a), n, pad, cap, split);
            Conn x(a, &in, &out);
            if (!x.c) continue;
            Bytes c = ref::Pattern(n, 25), inner = Stream::Inner(0x17, c, pad), r = in.Raw(0, 0, inner), h(r.begin(), r.begin() + 5), p(r.begin() + 5, r.end());
            FR f(p, split ? std::vector<size_t>{p.size() / 2, p.size() - p.size() / 2} : std::vector<size_t>{p.size()});
            Count("transitions");
            if (cap >= p.size()) { x.Feed(h, false, f, p.size(), Conn::AUTH, inner, cap) && x.Good(0x17, {7}); continue; }
            Buf pt(cap, 0xEE), hb(h);
            auto s = x.c->Unprotect({hb.p, 5}, f.v, {pt.p, cap});
            x.mi.Use();
            if (s.GetCode() == Code::OK) {
              if (s.GetBytesWritten() != n || pt.n < n || pt.bytes(n) != c) { Fail("wrong data"); continue; }
            } else if (s.GetBytesWritten() != 0) { Fail("error with %zu bytes", s.GetBytesWritten()); continue; }
            else for (size_t i = 0; i < cap; i++) if (pt.p[i] && pt.p[i] != 0xEE) { Fail("bytes left after an error"); break; }
            x.Good(0x17, {7});
          }
  }
  Section("u_hist");
  static const char* names[] = {"app", "empty-app", "padded-app", "replay", "skip-ahead", "tampered", "old-key", "next-key", "bad-header", "short", "oversized", "keyupdate", "ticket", "unknown-type", "zeros", "alert", "send", "keyupdate-out", "other-direction"};
  for (Aead a : kAll)
    for (uint64_t start : std::vector<uint64_t>{0, 254, ~0ull - 1}) {
      Stream in(a, Secret(a, 20)), out(a, Secret(a, 21));
      int depth = (start == 0 && a == ref::AES128 ? 4 : 3) + Thorough() - (kBoring ? 1 : 0);
      Histories(19, depth, [&](const std::vector<int>& seq) {
        Desc("%s from %s:%s", N(a), U64(start).c_str(), Names(seq, names).c_str());
        Conn x(a, &in, &out, start, 6);
        if (!x.c) return;
        Bytes last = in.Rec(0, start - 1, 0x17, {1});
        for (int o : seq) {
          bool ok = true;
          size_t g = x.mi.gen;
          uint64_t s = x.mi.seq;
          auto good = [&](const Bytes& inner) { last = in.Raw(g, s, inner); return x.Feed(last, Conn::AUTH, inner); };
          switch (o) {
            case 0: ok = good(Stream::Inner(0x17, {1, 2, 0}, 0)); break;
            case 1: ok = good({0x17}); break;
            case 2: ok = good(Stream::Inner(0x17, {3}, 5)); break;
            case 3: ok = x.Feed(last, Conn::BAD); break;
            case 4: ok = x.Feed(in.Rec(g, s + 1, 0x17, {4}), Conn::BAD); break;
            case 5: { Bytes r = in.Rec(g, s, 0x17, {5}); r.back() ^= 0x80; ok = x.Feed(r, Conn::BAD); break; }
            case 6: ok = x.Feed(g ? in.Rec(g - 1, s, 0x17, {6}) : in.Rec(2, s, 0x17, {6}), Conn::BAD); break;
            case 7: ok = x.Feed(in.Rec(g + 1, s, 0x17, {7}), Conn::BAD); break;
            case 8: { Bytes r = in.Rec(g, s, 0x17, {8}); r[0] = 0x16; ok = x.Feed(r, Conn::PRE_HEADER); break; }
            case 9: ok = x.Feed(Bytes({0x17, 3, 3, 0, 16}) + Bytes(16, 1), Conn::PRE_SHORT); break;
            case 10: { static const Bytes big = Bytes({0x17, 3, 3, 0x40, 0x12}) + Bytes(16402, 1); ok = x.Feed(big, Conn::PRE_LONG); break; }
            case 11: ok = good(Stream::Inner(0x16, kKu, 0)); break;
            case 12: ok = good(Stream::Inner(0x16, Msg(4, 2, 1), 1)); break;
            case 13: ok = good(Stream::Inner(0x14, {1}, 0)); break;
            case 14: ok = good(Bytes(4, 0)); break;
            case 15: ok = good(Stream::Inner(0x15, {2, 40}, 0)); break;
            case 16: ok = x.Protect(RT::APPLICATION_DATA, {1, 2}); break;
            case 17: ok = x.UpdateOut(); break;
            case 18: ok = x.Feed(out.Rec(x.mo.gen, s, 0x17, {1, 2}), Conn::BAD); break;
          }
          if (!ok || !x.Sig()) return;
        }
        x.Good(0x17, {1}) && x.Protect(RT::APPLICATION_DATA, {1}) && x.Destroy();
      });
    }
}

// C11 ---------------------------------------------------------------------
static void Alerts() {
  Section("a_values");
  for (Aead a : kAll) {
    Stream in(a, Secret(a, 30)), out(a, Secret(a, 31));
    for (int level = 0; level < 256; level++)
      for (int desc = 0; desc < 256; desc++) {
        if (!Case()) continue;
        Desc("%s alert level %d description %d", N(a), level, desc);
        in.memo.clear();
        Conn x(a, &in, &out);
        if (!x.c) continue;
        x.Good(0x15, {(uint8_t)level, (uint8_t)desc}) && x.Good(0x17, {1, 2}) && x.Protect(RT::APPLICATION_DATA, {1}) && x.Sig();
      }
  }
  Section("a_len");
  for (Aead a : kAll) {
    Stream in(a, Secret(a, 30)), out(a, Secret(a, 31));
    for (size_t n = 0; n <= 40; n++)
      for (size_t pad : {0, 1, 2, 3, 17, 300})
        for (int v = 0; v < 6; v++)
          if (Case()) {
            Desc("%s alert record of %zu bytes (kind %d) with padding %zu", N(a), n, v, pad);
            Conn x(a, &in, &out);
            if (!x.c) continue;
            Bytes c(n, v == 0 ? 0 : v == 1 ? 1 : v == 2 ? 0xff : 0x15);
            if (v == 3 && n > 1) c[1] = 0;
            if (v == 4 && n > 0) c[0] = 0;
            if (v == 5 && n > 0) c.back() = 0;
            x.Good(0x15, c, pad) && x.Good(0x17, {1, 2}) && x.Protect(RT::APPLICATION_DATA, {1}) && x.Sig();
          }
    for (size_t n : {16383, 16384})
      for (int d = 0; d < 2; d++)
        if (Case()) {
          Desc("%s alert record of %zu bytes description %d", N(a), n, d);
          Conn x(a, &in, &out);
          if (!x.c) continue;
          Bytes c(n, 7);
          c[1] = d;
          x.Good(0x15, c) && x.Good(0x17, {1});
        }
  }
  Section("a_hist");
  static const char* names[] = {"close1", "close2", "close-padded", "close-extra", "alert", "alert-short", "app", "keyupdate", "ticket-part", "ticket-rest", "bad-header", "short", "oversized", "tampered", "send", "keyupdate-out", "empty-app", "header-only", "null-header", "no-header", "null-piece"};
  for (Aead a : kAll) {
    Stream in(a, Secret(a, 30)), out(a, Secret(a, 31));
    int depth = (a == ref::AES128 ? 4 : 3) + Thorough() - (kBoring ? 1 : 0);
    Histories(21, depth, [&](const std::vector<int>& seq) {
      Desc("%s:%s", N(a), Names(seq, names).c_str());
      Conn x(a, &in, &out, 1, 2);
      if (!x.c) return;
      Bytes t = Msg(4, 4, 3);
      for (int o : seq) {
        bool ok = true;
        switch (o) {
          case 0: ok = x.Good(0x15, {1, 0}); break;
          case 1: ok = x.Good(0x15, {2, 0}); break;
          case 2: ok = x.Good(0x15, {1, 0}, 7); break;
          case 3: ok = x.Good(0x15, {1, 0, 2, 40}); break;
          case 4: ok = x.Good(0x15, {2, 40}); break;
          case 5: ok = x.Good(0x15, {1}); break;
          case 6: ok = x.Good(0x17, {1, 0}); break;
          case 7: ok = x.Good(0x16, kKu); break;
          case 8: ok = x.Good(0x16, Bytes(t.begin(), t.begin() + 3)); break;
          case 9: ok = x.Good(0x16, Bytes(t.begin() + 3, t.end())); break;
          case 10: { Bytes r = in.Rec(x.mi.gen, x.mi.seq, 0x15, {1, 0}); r[2] = 1; ok = x.Feed(r, Conn::PRE_HEADER); break; }
          case 11: ok = x.Feed(Bytes({0x15, 3, 3, 0, 2, 1, 0}), Conn::PRE_SHORT); break;
          case 12: { static const Bytes big = Bytes({0x17, 3, 3, 0x40, 0x12}) + Bytes(16402, 1); ok = x.Feed(big, Conn::PRE_LONG); break; }
          case 13: { Bytes r = in.Rec(x.mi.gen, x.mi.seq, 0x15, {1, 0}); r[6] ^= 1; ok = x.Feed(r, Conn::BAD); break; }
          case 14: ok = x.Protect(RT::ALERT, {1, 0}); break;
          case 15: ok = x.UpdateOut(); break;
          case 16: ok = x.Good(0x17, {}); break;
          case 17: { FR f; ok = x.Feed({0x17, 3, 3, 0, 0}, false, f, 0, Conn::PRE_SHORT, {}); break; }
          case 18: { FR f(Bytes(19, 1)); ok = x.Feed({0x17, 3, 3, 0, 19}, true, f, 19, Conn::PRE_HEADER, {}); break; }
          case 19: { FR f(Bytes(24, 1)); ok = x.Feed({}, true, f, 24, Conn::PRE_HEADER, {}); break; }
          case 20: { FR f(Bytes(19, 1), {9, 10}); f.v[1].iov_base = nullptr; ok = x.Feed({0x17, 3, 3, 0, 19}, false, f, 19, Conn::BAD, {}); break; }
        }
        if (!ok || !x.Sig()) return;
      }
      x.Good(0x17, {1}) && x.Protect(RT::APPLICATION_DATA, {1}) && x.Destroy();
    });
  }
}

// C13 ---------------------------------------------------------------------
static void Post() {
  auto cut = [](const Bytes& s, const std::vector<size_t>& sz) {
    std::vector<Bytes> v;
    size_t o = 0;
    for (size_t z : sz) { v.push_back(Bytes(s.begin() + o, s.begin() + o + z)); o += z; }
    return v;
  };
  // Every split over records of every short message sequence, then application data.
  Section("m_split");
  {
    struct A { const char* n; Bytes b; };
    std::vector<A> alpha = {{"T0", Msg(4, 0, 1)}, {"T2", Msg(4, 2, 2)}, {"K0", kKu}, {"K1", kKu1}, {"X", Msg(1, 0, 4)}};
    size_t maxbytes = (Thorough() ? 14 : 12) - (kBoring ? 1 : 0);
    for (Aead a : kAll) {
      if (a != ref::AES128 && !Thorough()) maxbytes = 10;
      Stream in(a, Secret(a, 40)), out(a, Secret(a, 41));
      std::function<void(Bytes, std::string, int)> seqs = [&](Bytes s, std::string n, int left) {
        if (!s.empty()) {
          if (s.size() > maxbytes) return;
          Compositions(s.size(), [&](const std::vector<size_t>& sz) {
            for (size_t app = 0; app <= sz.size(); app++) {  // application data also before record number `app`
              if (!Case()) continue;
              Desc("%s messages%s split %s, application data before record %zu and at the end", N(a), n.c_str(), Show(sz).c_str(), app);
              Conn x(a, &in, &out);
              if (!x.c) continue;
              auto recs = cut(s, sz);
              bool ok = true;
              for (size_t i = 0; i < recs.size() && ok; i++) {
                if (i == app) ok = x.Good(0x17, {0x61});
                if (ok) ok = x.Good(0x16, recs[i]) && x.Sig();
              }
              if (ok) x.Good(0x17, {0x62}) && x.Protect(RT::APPLICATION_DATA, {1}) && x.Sig() && x.Destroy();
            }
          });
          if (n.find('X') != std::string::npos) return;
        }
        if (left == 0) return;
        for (auto& m : alpha) seqs(s + m.b, n + " " + m.n, left - 1);
      };
      seqs({}, "", 4);
    }
  }
  // All histories of records made of whole messages and pieces.
  Section("m_hist");
  static const char* names[] = {"keyupdate", "ku-1st", "ku-rest", "ticket", "ticket-1st", "ticket-rest", "2tickets", "4tickets", "ticket+part", "ticket+ku", "app", "empty-app", "alert", "5tickets", "5tickets+part"};
  for (Aead a : kAll) {
    Stream in(a, Secret(a, 40)), out(a, Secret(a, 41));
    int depth = (a == ref::AES128 ? 5 : 4) + Thorough() - (kBoring ? 1 : 0);
    Bytes t = Msg(4, 3, 5), t2 = Msg(4, 1, 6), five = t + t2 + t + t2 + t;
    Histories(15, depth, [&](const std::vector<int>& seq) {
      Desc("%s:%s", N(a), Names(seq, names).c_str());
      Conn x(a, &in, &out);
      if (!x.c) return;
      for (int o : seq) {
        bool ok = true;
        switch (o) {
          case 0: ok = x.Good(0x16, kKu1); break;
          case 1: ok = x.Good(0x16, {0x18, 0}); break;
          case 2: ok = x.Good(0x16, {0, 1, 0}); break;
          case 3: ok = x.Good(0x16, t); break;
          case 4: ok = x.Good(0x16, Bytes(t.begin(), t.begin() + 5)); break;
          case 5: ok = x.Good(0x16, Bytes(t.begin() + 5, t.end())); break;
          case 6: ok = x.Good(0x16, t + t2); break;
          case 7: ok = x.Good(0x16, t + t2 + t2 + t); break;
          case 8: ok = x.Good(0x16, t2 + Bytes(t.begin(), t.begin() + 5)); break;
          case 9: ok = x.Good(0x16, t + kKu); break;
          case 10: ok = x.Good(0x17, {0x61}); break;
          case 11: ok = x.Good(0x17, {}); break;
          case 12: ok = x.Good(0x15, {2, 40}); break;
          case 13: ok = x.Good(0x16, five, 3); break;
          case 14: ok = x.Good(0x16, five + Bytes(t.begin(), t.begin() + 5)); break;
        }
        if (!ok || !x.Sig()) return;
      }
      x.Good(0x17, {0x62}) && x.Protect(RT::APPLICATION_DATA, {1}) && x.Sig() && x.Destroy();
    });
  }
  // The same with everything else that can happen to a connection in between.
  Section("m_mixed");
  static const char* mixed[] = {"ticket", "5tickets", "ticket-1st", "ticket-rest", "keyupdate", "app", "close", "alert", "alert-short", "tampered", "unknown-type", "zeros", "bad-header", "short", "oversized", "header-only", "send", "send-short", "keyupdate-out", "other-message", "keyupdate+byte"};
  for (Aead a : kAll) {
    Stream in(a, Secret(a, 40)), out(a, Secret(a, 41));
    int depth = 4 + Thorough() - (kBoring || a != ref::AES128 ? 1 : 0);
    Bytes t = Msg(4, 3, 5), five = t + t + t + t + t;
    Histories(21, depth, [&](const std::vector<int>& seq) {
      Desc("%s:%s", N(a), Names(seq, mixed).c_str());
      Conn x(a, &in, &out);
      if (!x.c) return;
      for (int o : seq) {
        bool ok = true;
        switch (o) {
          case 0: ok = x.Good(0x16, t); break;
          case 1: ok = x.Good(0x16, five); break;
          case 2: ok = x.Good(0x16, Bytes(t.begin(), t.begin() + 2)); break;
          case 3: ok = x.Good(0x16, Bytes(t.begin() + 2, t.end())); break;
          case 4: ok = x.Good(0x16, kKu); break;
          case 5: ok = x.Good(0x17, {0x61}); break;
          case 6: ok = x.Good(0x15, {1, 0}); break;
          case 7: ok = x.Good(0x15, {2, 20}); break;
          case 8: ok = x.Good(0x15, {2}); break;
          case 9: { Bytes r = in.Rec(x.mi.gen, x.mi.seq, 0x16, t); r[7] ^= 2; ok = x.Feed(r, Conn::BAD); break; }
          case 10: ok = x.Good(0x14, {1}); break;
          case 11: ok = x.Good(Bytes(3, 0)); break;
          case 12: { Bytes r = in.Rec(x.mi.gen, x.mi.seq, 0x16, t); r[0] = 0x16; ok = x.Feed(r, Conn::PRE_HEADER); break; }
          case 13: ok = x.Feed(Bytes({0x17, 3, 3, 0, 5}) + Bytes(5, 4), Conn::PRE_SHORT); break;
          case 14: { static const Bytes big = Bytes({0x17, 3, 3, 0x40, 0x12}) + Bytes(16402, 1); ok = x.Feed(big, Conn::PRE_LONG); break; }
          case 15: { FR f; ok = x.Feed({0x17, 3, 3, 0, 0}, false, f, 0, Conn::PRE_SHORT, {}); break; }
          case 16: ok = x.Protect(RT::APPLICATION_DATA, {1, 2}); break;
          case 17: ok = x.Protect(RT::HANDSHAKE, {1, 2}, -1); break;
          case 18: ok = x.UpdateOut(); break;
          case 19: ok = x.Good(0x16, Msg(0x0b, 3, 5)); break;
          case 20: ok = x.Good(0x16, kKu + Bytes({4})); break;
        }
        if (!ok || !x.Sig()) return;
      }
      if (!(x.Good(0x17, {0x62}) && x.Protect(RT::APPLICATION_DATA, {1}) && x.Sig())) return;
      x.Destroy();
    });
  }
  // The ticket limit, every one- and two-cut split of k tickets (and a tail) into records, application data at every boundary.
  Section("m_limit");
  {
    Aead a = ref::CHACHA;
    Stream in(a, Secret(a, 40)), out(a, Secret(a, 41));
    for (int k = 1; k <= 8; k++)
      for (int tail = 0; tail < 4; tail++) {
        Bytes s;
        for (int i = 0; i < k; i++) s = s + Msg(4, 1 + i % 3, 10 + i);
        if (tail == 1) s = s + kKu;
        if (tail == 2) s = s + Bytes({4, 0, 0, 2, 1});
        if (tail == 3) s = s + Bytes({0x18, 0});
        for (size_t i = 0; i <= s.size(); i++)
          for (size_t j = i; j <= s.size(); j++)
            for (int app = 0; app < 4; app++) {
              if (kBoring && (i + j) % 3) continue;
              if (!Case()) continue;
              Desc("%d tickets, tail %d, cuts %zu %zu, application data mask %d", k, tail, i, j, app);
              Conn x(a, &in, &out);
              if (!x.c) continue;
              bool ok = true;
              auto recs = cut(s, {i, j - i, s.size() - j});
              for (size_t q = 0; q < 3 && ok; q++) {
                if (recs[q].size()) ok = x.Good(0x16, recs[q]) && x.Sig();
                if (ok && q < 2 && (app >> q & 1)) ok = x.Good(0x17, {0x61});
              }
              if (!ok) continue;
              if (tail == 2) ok = x.Good(0x16, {2});
              if (tail == 3) ok = x.Good(0x16, {0, 1, 1});
              ok && x.Good(0x17, {0x62}) && x.Sig() && x.Good(0x16, Msg(4, 2, 99)) && x.Good(0x17, {0x63}) && x.Sig() && x.Destroy();
            }
      }
  }
  // Tickets of any size, in records of any size.
  Section("m_size");
  for (Aead a : kAll)
    for (size_t n : {0, 1, 100, 255, 256, 257, 1000, 16380, 16381, 20000, 65535, 65536, 70000, 1100000})
      for (size_t rec : {1, 7, 1000, 16383, 16384}) {
        if (n / rec > 2000 || (n > 100000 && a != ref::AES128)) continue;
        if (!Case()) continue;
        Desc("%s two tickets of %zu bytes in records of %zu", N(a), n, rec);
        Stream in(a, Secret(a, 40)), out(a, Secret(a, 41));
        Conn x(a, &in, &out);
        if (!x.c) continue;
        Bytes s = Msg(4, n, n) + Msg(4, n, n + 1);
        bool ok = true;
        for (size_t i = 0; i < s.size() && ok; i += rec) ok = x.Good(0x16, Bytes(s.begin() + i, s.begin() + std::min(s.size(), i + rec)));
        ok && x.Good(0x16, kKu) && x.Good(0x17, {1}) && x.Sig() && x.Destroy();
      }
  // Tickets in many pieces after whole ones, and the largest total.
  Section("m_pieces");
  for (int k = 0; k <= 6; k++)
    for (size_t n : {5, 31, 63, 64, 65, 70, 127, 128, 129, 300, 1000})
      for (size_t rec : {1, 2, 3}) {
        if (!Case()) continue;
        Aead a = kAll[(k + n + rec) % 3];
        Desc("%s %d tickets, then one of %zu bytes in records of %zu", N(a), k, n, rec);
        Stream in(a, Secret(a, 40)), out(a, Secret(a, 41));
        Conn x(a, &in, &out);
        if (!x.c) continue;
        bool ok = true;
        for (int i = 0; i < k && ok; i++) ok = x.Good(0x16, Msg(4, i, i));
        Bytes s = Msg(4, n, n);
        for (size_t i = 0; i < s.size() && ok; i += rec) ok = x.Good(0x16, Bytes(s.begin() + i, s.begin() + std::min(s.size(), i + rec)));
        ok && x.Sig() && x.Good(0x16, Msg(4, 2, 1)) && x.Good(0x16, kKu) && x.Good(0x17, {1}) && x.Sig() && x.Destroy();
      }
  if (Case()) {
    size_t n = Thorough() ? 16777215 : 1100000;
    Desc("five tickets of %zu bytes", n);
    Aead a = ref::AES128;
    Stream in(a, Secret(a, 40)), out(a, Secret(a, 41));
    Conn x(a, &in, &out);
    if (x.c) {
      bool ok = true;
      for (int k = 0; k < 5 && ok; k++) {
        Bytes s = Msg(4, n, k);
        for (size_t i = 0; i < s.size() && ok; i += 16384) { ok = x.Good(0x16, Bytes(s.begin() + i, s.begin() + std::min(s.size(), i + 16384))); in.memo.clear(); }
      }
      ok && x.Good(0x17, {1}) && x.Destroy();
    }
  }
  // Whose tickets they are: connection ids, addresses, identities.
  Section("m_who");
  {
    std::vector<uint64_t> conns = {0, 1, ~0ull};
    for (int b = 1; b < 64; b++) { conns.push_back(1ull << b); conns.push_back((1ull << b) - 1); }
    std::vector<std::string> urls = {"s2a", std::string("a\0b", 3), std::string(15, 'u'), std::string(16, 'u'), std::string(300, 'u'), "unix:///x"};
    std::vector<Opt::Identity> ids = {Opt::Identity::GetEmptyIdentity()};
    for (std::string x : {std::string(), std::string("x"), std::string("a\0b", 3), std::string(15, 'i'), std::string(16, 'i'), std::string(300, 'i')}) {
      ids.push_back(Opt::Identity::FromSpiffeId(x));
      ids.push_back(Opt::Identity::FromHostname(x));
      ids.push_back(Opt::Identity::FromUid(x));
    }
    auto one = [&](uint64_t conn, const std::string& url, const Opt::Identity& id, int how) {
      if (!Case()) return;
      Desc("tickets of connection %s, address of %zu bytes, identity type %d of %zu bytes, sent by %s", U64(conn).c_str(), url.size(), (int)id.GetIdentityType(), id.GetIdentityString().size(), how ? "the fifth ticket" : "application data");
      Aead a = ref::AES128;
      Stream in(a, Secret(a, 40)), out(a, Secret(a, 41));
      Conn x(a, &in, &out, 0, 0, conn, url, &id);
      if (!x.c) return;
      bool ok = true;
      for (int i = 0; i < (how ? 5 : 2) && ok; i++) ok = x.Good(0x16, Msg(4, i, i));
      ok && x.Sig() && x.Good(0x17, {1}) && x.Sig() && x.Destroy();
    };
    for (uint64_t c : conns) for (int how = 0; how < 2; how++) one(c, kUrl, ids[1], how);
    for (auto& u : urls) for (auto& i : ids) for (int how = 0; how < 2; how++) one(77, u, i, how);
  }
  // The wait function, if the sender has none.
  Section("m_nowait");
  for (int k = 0; k <= 6; k++)
    for (int w = 0; w < 2; w++)
      if (Case()) {
        Desc("%d tickets, wait function %d", k, w);
        Aead a = ref::AES256;
        Stream in(a, Secret(a, 40)), out(a, Secret(a, 41));
        Conn x(a, &in, &out);
        if (!x.c) continue;
        g_return_wait = w;
        bool ok = true;
        for (int i = 0; i < k && ok; i++) ok = x.Good(0x16, Msg(4, i, i));
        ok && x.Sig() && x.Good(0x17, {}) && x.Sig() && x.Destroy();
      }
  // Many key updates interleaved with data.
  Section("m_many");
  for (Aead a : kAll)
    if (Case()) {
      Desc("%s 300 rounds of split key updates and data", N(a));
      Stream in(a, Secret(a, 40)), out(a, Secret(a, 41));
      Conn x(a, &in, &out);
      if (!x.c) continue;
      bool ok = true;
      for (int i = 0; i < 300 && ok; i++) {
        size_t c = 1 + i % 5;
        ok = (c == 5 ? x.Good(0x16, kKu) : x.Good(0x16, Bytes(kKu.begin(), kKu.begin() + c)) && x.Good(0x16, Bytes(kKu.begin() + c, kKu.end()))) && x.Good(0x17, {(uint8_t)i}) && x.Sig();
        if (ok && i % 3 == 0) ok = x.UpdateOut();
        if (ok) ok = x.Protect(RT::APPLICATION_DATA, {(uint8_t)i});
      }
      if (ok) x.Destroy();
    }
  // A key update towards the end of the sequence space revives the direction.
  Section("m_wrap");
  for (Aead a : kAll)
    for (int back = 0; back < 4; back++)
      for (int at = 0; at < 5; at++)
        if (Case()) {
          Desc("%s inbound sequence 2^64-%d, key update as record %d", N(a), back + 1, at);
          Stream in(a, Secret(a, 40)), out(a, Secret(a, 41));
          Conn x(a, &in, &out, ~0ull - back);
          if (!x.c) continue;
          bool ok = true;
          for (int i = 0; i < 6 && ok; i++) ok = i == at ? x.Good(0x16, kKu) : x.Good(0x17, {(uint8_t)i});
          ok && x.Sig();
        }
}

int main(int argc, char** argv) {
  Init(argc, argv);
  if (Want("half")) HalfHistories();
  if (Want("keys")) { HalfKeys(); Directions(); }
  if (Want("protect")) Protects();
  if (Want("unprotect")) Unprotects();
  if (Want("alert")) Alerts();
  if (Want("post")) Post();
  return Finish();
}
