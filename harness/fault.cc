// SSL library failures (C05): every call into the SSL library fails, alone or
// together with a later one, before or after doing its work, during scripts of
// crypter, key derivation, half connection, record protocol and frame protector calls.
#include <sanitizer/lsan_interface.h>

#include "harness/faults.h"
#include "harness/h.h"
#include "harness/stream.h"
#include "include/s2a_frame_protector.h"
#include "src/crypto/hkdf.h"
#include "src/crypto/s2a_aead_crypter.h"
#include "src/record_protocol/s2a_crypter.h"
#include "src/record_protocol/s2a_half_connection.h"

using s2a::aead_crypter::S2AAeadCrypter;
using s2a::frame_protector::S2AFrameProtector;
using s2a::record_protocol::S2ACrypter;
using s2a::record_protocol::S2AHalfConnection;
typedef S2ACrypter::S2ACrypterStatusCode Code;
typedef S2ACrypter::RecordType RT;

static bool Clean(const Buf& b, size_t from = 0) {
  for (size_t i = from; i < b.n; i++) if (b.p[i] != 0xEE && b.p[i] != 0) return false;
  return true;
}
static Bytes Plain(size_t n, uint32_t salt) {
  Bytes b = ref::Pattern(n, salt);
  for (auto& x : b) while (x == 0 || x == 0xEE) x += 0x35;
  return b;
}

// ------------------------------------------------------------- exploration
// A script runs its operations from a fresh state; every operation is judged by
// whether a fault fired in it.
// same: both faults of a pair are of the same mode
static void Explore(const std::string& name, bool pairs, bool same, const std::function<void()>& script) {
  g.Reset(-1, 0, -1, 0);
  if (Case()) { Desc("%s: no fault", name.c_str()); Count("evaluations"); }
  script();
  long n = g.calls;
  Outcome(F("%s: %ld calls", name.c_str(), n));
  if (n == 0) { fprintf(stderr, "harness: no SSL library call in %s\n", name.c_str()); }
  for (long i = 0; i < n; i++)
    for (int mi = 0; mi < 2; mi++) {
      if (!Case()) continue;
      Desc("%s: call %ld fails %s", name.c_str(), i, mi ? "after its work" : "at once");
      g.Reset(i, mi, -1, 0);
      Count("evaluations");
      script();
      if (g.fired) Count("faults");
      long m = g.calls;
      if (!pairs) continue;
      // Scripts of more calls than any in today's code: pairs at most w calls apart, to bound the time.
      const long w = Thorough() || n <= 200 ? m : 40000 / n + 1;
      for (long j = i + 1; j < m && j - i <= w; j++)
        for (int mj = 0; mj < 2; mj++) {
          if (same && mj != mi) continue;
          Desc("%s: call %ld fails %s, call %ld %s", name.c_str(), i, mi ? "after its work" : "at once", j, mj ? "after its work" : "at once");
          g.Reset(i, mi, j, mj);
          Count("evaluations");
          script();
          Count("faults", g.fired);
        }
      if (__lsan_do_recoverable_leak_check()) Fail("memory was leaked");
    }
}

// ------------------------------------------------------------- AEAD
struct Crypter {
  Aead a;
  Bytes key, nonce = ref::Pattern(12, 3);
  std::unique_ptr<S2AAeadCrypter> c;
  explicit Crypter(Aead a_) : a(a_), key(ref::Pattern(a_ == ref::AES128 ? 16 : 32, 1)) {}
  bool Create() {
    absl::variant<absl::Status, std::unique_ptr<S2AAeadCrypter>> r;
    bool f = During([&] { r = a == ref::CHACHA ? s2a::aead_crypter::CreateChachaPolyAeadCrypter(key) : s2a::aead_crypter::CreateAesGcmAeadCrypter(key); });
    if (f) {
      if (r.index() != 0 || absl::get<0>(r).ok()) Fail("crypter creation does not report the failure");
      return false;
    }
    if (r.index() != 1 || !absl::get<1>(r)) { Fail("crypter not created"); return false; }
    c = std::move(absl::get<1>(r));
    return true;
  }
  void Encrypt(const Bytes& aad, const std::vector<size_t>& as, const Bytes& pt, const std::vector<size_t>& ps) {
    Bytes want = ref::Seal(a, key, nonce, aad, pt);
    FR af(aad, as), pf(pt, ps);
    Buf out(want.size() + 3, 0xEE);
    S2AAeadCrypter::CrypterStatus s(absl::OkStatus(), 0);
    bool f = During([&] { s = c->Encrypt(nonce, af.v, pf.v, {out.p, out.n}); });
    if (f) {
      if (s.GetStatus().ok()) Fail("encryption does not report the failure");
      else if (s.GetBytesWritten()) Fail("failed encryption reports %zu bytes", s.GetBytesWritten());
    } else if (!s.GetStatus().ok() || s.GetBytesWritten() != want.size() || out.bytes(want.size()) != want) {
      Fail("encryption without a failure is wrong: %s", s.GetStatus().ToString().c_str());
    }
  }
  void Decrypt(const Bytes& aad, const std::vector<size_t>& as, const Bytes& pt, const std::vector<size_t>& cs, bool forged) {
    Bytes ct = ref::Seal(a, key, nonce, aad, pt);
    if (forged) ct[ct.size() - 1] ^= 1;
    std::vector<size_t> sp = cs;
    size_t tot = 0;
    for (size_t x : sp) tot += x;
    sp.push_back(ct.size() - tot);
    FR af(aad, as), cf(ct, sp);
    Buf out(pt.size() + 3, 0xEE);
    S2AAeadCrypter::CrypterStatus s(absl::OkStatus(), 0);
    bool f = During([&] { s = c->Decrypt(nonce, af.v, cf.v, {out.p, out.n}); });
    if (f || forged) {
      if (s.GetStatus().ok()) Fail("decryption does not report the failure");
      else if (s.GetBytesWritten()) Fail("failed decryption reports %zu bytes", s.GetBytesWritten());
      else if (!Clean(out)) Fail("failed decryption left decrypted bytes behind");
    } else if (!s.GetStatus().ok() || s.GetBytesWritten() != pt.size() || out.bytes(pt.size()) != pt) {
      Fail("decryption without a failure is wrong: %s", s.GetStatus().ToString().c_str());
    }
  }
};

static void AeadFaults() {
  Section("fault_aead");
  Bytes aad = ref::Pattern(13, 4);
  struct Sh { const char* n; size_t len; std::vector<size_t> as, ps, cs; };
  std::vector<Sh> shapes = {
      {"empty, no aad", 0, {}, {}, {}},
      {"5 bytes", 5, {13}, {5}, {}},
      {"40 bytes in 2", 40, {5, 8}, {17, 23}, {17}},
      {"40 bytes in 4, tag split", 40, {1, 0, 12}, {1, 16, 0, 23}, {1, 16, 0, 30}},
      {"64 bytes, tag in its own piece", 64, {13}, {64}, {64}},
      {"33 bytes, tag in 16 pieces", 33, {13}, {32, 1}, {32, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1}},
  };
  for (Aead a : kAll)
    for (auto& s : shapes) {
      Bytes ad = s.as.empty() ? Bytes() : aad, pt = Plain(s.len, 7);
      Explore(F("%s crypter, %s", N(a), s.n), true, false, [&] {
        Crypter c(a);
        if (!c.Create()) { if (!c.Create()) return; }
        c.Encrypt(ad, s.as, pt, s.ps);
        c.Decrypt(ad, s.as, pt, s.cs, false);
        c.Decrypt(ad, s.as, pt, s.cs, true);
        c.Encrypt(ad, s.as, pt, s.ps);
        c.Decrypt(ad, s.as, pt, s.cs, false);
      });
    }
}

// ------------------------------------------------------------- HKDF
static void HkdfFaults() {
  Section("fault_hkdf");
  for (int hh = 0; hh < 2; hh++)
    for (size_t len : {(size_t)1, (size_t)12, (size_t)32, (size_t)33, (size_t)48, (size_t)49, (size_t)97, (size_t)200, (size_t)(255 * 32)}) {
      size_t hl = hh ? 48 : 32;
      Bytes prk = ref::Pattern(hl, 1), info = ref::Pattern(11, 2), prk2 = ref::Pattern(hl, 5);
      Bytes want = ref::HkdfExpand(hh ? ref::SHA384 : ref::SHA256, prk, info, len), want2 = ref::HkdfExpand(hh ? ref::SHA384 : ref::SHA256, prk2, info, 7);
      Explore(F("HKDF %s, %zu bytes", hh ? "SHA384" : "SHA256", len), len < 500, false, [&] {
        for (int k = 0; k < 2; k++) {
          Bytes out(k ? 7 : len, 0x11);
          absl::Status s;
          bool f = During([&] { s = s2a::hkdf::HkdfDeriveSecret(hh ? s2a::hkdf::HashFunction::SHA384_hash_function : s2a::hkdf::HashFunction::SHA256_hash_function, k ? prk2 : prk, info, out); });
          if (f) { if (s.ok()) Fail("key derivation does not report the failure"); }
          else if (!s.ok() || out != (k ? want2 : want)) Fail("key derivation without a failure is wrong: %s", s.ToString().c_str());
        }
      });
    }
}

// ------------------------------------------------------------- half connection
struct Dir { size_t gen = 0; uint64_t seq = 0; bool dead = false; };
struct HalfC {
  Aead a;
  Stream* st;
  Dir m;
  std::unique_ptr<S2AHalfConnection> c;
  Bytes aad = ref::Pattern(5, 1);
  HalfC(Aead a_, Stream* s) : a(a_), st(s) {}
  bool Create() {
    absl::variant<absl::Status, std::unique_ptr<S2AHalfConnection>> r;
    bool f = During([&] { r = S2AHalfConnection::Create(CS(a), 3, st->gens[0].secret); });
    m = Dir();
    m.seq = 3;
    if (f) { if (r.index() != 0 || absl::get<0>(r).ok()) Fail("half connection creation does not report the failure"); return false; }
    if (r.index() != 1 || !absl::get<1>(r)) { Fail("half connection not created"); return false; }
    c = std::move(absl::get<1>(r));
    return true;
  }
  void Enc(size_t n) {
    Bytes pt = Plain(n, 9);
    FR af(aad), pf(pt, {n / 2, n - n / 2});
    Buf out(n + 16, 0xEE);
    S2AAeadCrypter::CrypterStatus s(absl::OkStatus(), 0);
    bool f = During([&] { s = c->Encrypt(af.v, pf.v, {out.p, out.n}); });
    if (f || m.dead) {
      if (s.GetStatus().ok()) Fail(m.dead ? "encryption after a failed key update succeeds" : "encryption does not report the failure");
      else if (s.GetBytesWritten()) Fail("failed encryption reports bytes");
    } else if (!s.GetStatus().ok() || out.bytes(n + 16) != st->Seal(m.gen, m.seq, aad, pt)) {
      Fail("encryption without a failure is wrong (generation %zu, sequence %s): %s", m.gen, U64(m.seq).c_str(), s.GetStatus().ToString().c_str());
    }
    m.seq++;
  }
  void Dec(size_t n) {
    Bytes pt = Plain(n, 9), ct = st->Seal(m.gen, m.seq, aad, pt);
    FR af(aad), cf(ct, {n / 2, ct.size() - n / 2});
    Buf out(n + 1, 0xEE);
    S2AAeadCrypter::CrypterStatus s(absl::OkStatus(), 0);
    bool f = During([&] { s = c->Decrypt(af.v, cf.v, {out.p, n}); });
    if (f || m.dead) {
      if (s.GetStatus().ok()) Fail(m.dead ? "decryption after a failed key update succeeds" : "decryption does not report the failure");
      else if (!Clean(out)) Fail("failed decryption left decrypted bytes behind");
    } else if (!s.GetStatus().ok() || s.GetBytesWritten() != n || out.bytes(n) != pt) {
      Fail("decryption without a failure is wrong (generation %zu, sequence %s): %s", m.gen, U64(m.seq).c_str(), s.GetStatus().ToString().c_str());
    }
    m.seq++;
  }
  void Update() {
    absl::Status s;
    bool f = During([&] { s = c->UpdateKey(); });
    if (f) { if (s.ok()) Fail("key update does not report the failure"); m.dead = true; return; }
    if (m.dead) return;  // what a later update reports is not judged; it must not revive the connection
    if (!s.ok()) Fail("key update without a failure: %s", s.ToString().c_str());
    m.gen++;
    m.seq = 0;
  }
};
static void HalfFaults() {
  Section("fault_half");
  for (Aead a : kAll) {
    Stream st(a, Secret(a, 1));
    for (const char* ops : {"ed", "edued", "uued", "eduedu", "deuude"}) {
      if (strlen(ops) > 5 && kBoring && !Thorough()) continue;
      Explore(F("%s half connection, %s", N(a), ops), Thorough() || strlen(ops) < 6 || a == ref::AES128, !Thorough(), [&] {
        HalfC h(a, &st);
        if (!h.Create() && !h.Create()) return;
        for (const char* p = ops; *p; p++) *p == 'e' ? h.Enc(9) : *p == 'd' ? h.Dec(9) : h.Update();
        // whatever happened, later operations are right or refused
        h.Enc(0);
        h.Dec(9);
        h.Update();
        h.Enc(9);
        h.Dec(9);
      });
    }
  }
}

// ------------------------------------------------------------- record protocol
static std::function<void(const std::string&)> NoLog() { return [](const std::string&) {}; }
struct ConnF {
  Aead a;
  Stream *in, *out;
  Dir mi, mo;
  bool closed = false;
  std::unique_ptr<S2ACrypter> c;
  ConnF(Aead a_, Stream* i, Stream* o) : a(a_), in(i), out(o) {}
  bool Create() {
    absl::variant<absl::Status, std::unique_ptr<S2ACrypter>> r;
    bool f = During([&] {
      r = S2ACrypter::Create(Opt::TlsVersion::TLS1_3, CS(a), 7, "url", Opt::Identity::FromSpiffeId("x"), in->gens[0].secret, out->gens[0].secret, 0, 0,
                             [](s2a::s2a_ticket_sender::TicketSenderOptions& o) -> bool (*)() { return nullptr; }, nullptr, nullptr, NoLog());
    });
    if (f) { if (r.index() != 0 || absl::get<0>(r).ok()) Fail("crypter creation does not report the failure"); return false; }
    if (r.index() != 1 || !absl::get<1>(r)) { Fail("crypter not created"); return false; }
    c = std::move(absl::get<1>(r));
    return true;
  }
  void Protect(size_t n) {
    Bytes pt = Plain(n, 11);
    FR f(pt, {n / 3, n - n / 3});
    Buf o(n + 22, 0xEE);
    Iovec iv = {o.p, o.n};
    Code code = Code::OK;
    size_t w = 0;
    bool ft = During([&] { auto s = c->Protect(RT::APPLICATION_DATA, f.v, iv); code = s.GetCode(); w = s.GetBytesWritten(); });
    if (ft || mo.dead) {
      if (code == Code::OK) Fail(mo.dead ? "protection after a failed key update succeeds" : "protection does not report the failure");
      else if (w) Fail("failed protection reports %zu bytes", w);
    } else if (code != Code::OK || w != n + 22 || o.bytes(n + 22) != out->Rec(mo.gen, mo.seq, 0x17, pt)) {
      Fail("protection without a failure is wrong (generation %zu, sequence %s), code %d", mo.gen, U64(mo.seq).c_str(), (int)code);
    }
    mo.seq++;
  }
  void Unprotect(char what) {
    Bytes body = what == 'a' ? Bytes{2, 40} : what == 'c' ? Bytes{1, 0} : what == 'k' ? kKu : what == 'K' ? kKu1 : what == 't' ? Msg(4, 20, 3) : Plain(15, 12);
    uint8_t type = what == 'a' || what == 'c' ? 0x15 : what == 'd' ? 0x17 : 0x16;
    Bytes rec = in->Rec(mi.gen, mi.seq, type, body);
    FR hd(Bytes(rec.begin(), rec.begin() + 5)), pl(Bytes(rec.begin() + 5, rec.end()), {7, rec.size() - 12});
    Buf o(body.size() + 1, 0xEE);
    Code code = Code::OK;
    size_t w = 0;
    bool ft = During([&] { auto s = c->Unprotect(hd.v[0], pl.v, {o.p, o.n}); code = s.GetCode(); w = s.GetBytesWritten(); });
    if (closed) { if (code != Code::ALERT_CLOSE_NOTIFY) Fail("code %d after close notify", (int)code); return; }
    if (ft || mi.dead) {
      if (code == Code::OK || code == Code::ALERT_CLOSE_NOTIFY || code == Code::ALERT_OTHER) Fail(mi.dead ? "a record is accepted after a failed key update" : "Unprotect does not report the failure (code %d)", (int)code);
      else if (w) Fail("failed Unprotect reports %zu bytes", w);
      else if (what == 'd' && !Clean(o)) Fail("failed Unprotect left decrypted bytes behind");
    } else {
      Code want = what == 'a' ? Code::ALERT_OTHER : what == 'c' ? Code::ALERT_CLOSE_NOTIFY : Code::OK;
      size_t ww = what == 'd' ? body.size() : 0;
      if (code != want || w != ww || (ww && o.bytes(ww) != body)) Fail("Unprotect of '%c' without a failure is wrong (generation %zu, sequence %s): code %d, %zu bytes", what, mi.gen, U64(mi.seq).c_str(), (int)code, w);
    }
    bool ok = !ft && !mi.dead;
    mi.seq++;
    if (what == 'c' && ok) closed = true;
    if (what == 'k' || what == 'K') {
      if (ok) { mi.gen++; mi.seq = 0; }
      else if (ft && !mi.dead && g.InUpdate()) mi.dead = true;
    }
  }
  void Update() {
    absl::Status s;
    bool f = During([&] { s = c->UpdateOutboundKey(); });
    if (f) { if (s.ok()) Fail("key update does not report the failure"); mo.dead = true; return; }
    if (mo.dead) return;
    if (!s.ok()) Fail("key update without a failure: %s", s.ToString().c_str());
    mo.gen++;
    mo.seq = 0;
  }
};

static void RecordFaults() {
  Section("fault_record");
  for (Aead a : kAll) {
    Stream in(a, Secret(a, 1)), out(a, Secret(a, 2));
    // p protect, u update the outbound key, others: a record of that kind arrives
    for (const char* ops : {"pd", "tdk", "pup", "Kp", "dc", "dad", "pdpd", "kkd", "KkK", "pkdup", "pKdup"}) {
      if (!Thorough() && strlen(ops) > 2 + (ops[0] == 't' || ops[0] == 'p')) continue;
      Explore(F("%s record protocol, %s", N(a), ops), Thorough() || (ops[0] != 'K' && (a == ref::CHACHA || (a == ref::AES128 && !kBoring))), !Thorough(), [&] {
        ConnF h(a, &in, &out);
        if (!h.Create() && !h.Create()) return;
        for (const char* p = ops; *p; p++) *p == 'p' ? h.Protect(10) : *p == 'u' ? h.Update() : h.Unprotect(*p);
        h.Protect(4);
        h.Unprotect('d');
        h.Unprotect('k');
        h.Update();
        h.Protect(4);
        h.Unprotect('d');
      });
    }
  }
}

// ------------------------------------------------------------- frame protector
struct FrameF {
  Aead a;
  Stream *in, *out;
  Dir mi, mo;
  bool in_unsure = false;
  uint64_t lo = 0, hi = 0;  // outbound sequence number is in [lo, hi]
  std::map<void*, size_t> live;
  std::string url = "s2a";
  Opt::Identity id = Opt::Identity::FromSpiffeId("x");
  std::unique_ptr<S2AFrameProtector> p;
  FrameF(Aead a_, Stream* i, Stream* o) : a(a_), in(i), out(o) {}
  ~FrameF() { p.reset(); for (auto& x : live) free(x.first); }
  bool Create() {
    S2AFrameProtector::S2AFrameProtectorOptions opt = {Opt::TlsVersion::TLS1_3, CS(a), in->gens[0].secret, out->gens[0].secret, 0, 0, url, id, 5, nullptr, nullptr,
                                                       [this](size_t n) { void* q = malloc(n ? n : 1); memset(q, 0xEE, n ? n : 1); live[q] = n; return Iovec{q, n}; },
                                                       [this](Iovec v) { if (v.iov_base && !live.erase(v.iov_base)) Fail("destroyed a buffer that is not allocated"); else free(v.iov_base); }, NoLog()};
    absl::StatusOr<std::unique_ptr<S2AFrameProtector>> r = absl::InternalError("");
    bool f = During([&] { r = S2AFrameProtector::Create(opt); });
    if (f) { if (r.ok()) Fail("frame protector creation does not report the failure"); return false; }
    if (!r.ok() || !*r) { Fail("frame protector not created"); return false; }
    p = std::move(*r);
    return true;
  }
  Bytes Take(std::vector<Iovec>& v) {
    Bytes b;
    for (auto& x : v) { if (x.iov_base) { b.insert(b.end(), (uint8_t*)x.iov_base, (uint8_t*)x.iov_base + x.iov_len); if (!live.erase(x.iov_base)) Fail("a returned buffer is not allocated"); else free(x.iov_base); } }
    return b;
  }
  void Protect(size_t n) {
    Bytes pt = Plain(n, 5);
    FR f(pt, {n / 2, n - n / 2});
    S2AFrameProtector::Result r;
    r.status = absl::InternalError("not called");
    bool ft = During([&] { r = p->Protect(f.v); });
    Bytes got = Take(r.bytes);
    size_t recs = n == 0 ? 1 : (n + 16383) / 16384;
    if (ft) {
      if (r.status.ok()) Fail("Protect does not report the failure");
      else if (!got.empty()) Fail("failed Protect returns data");
      lo += 1;
      hi += recs;
    } else {
      bool match = false;
      if (r.status.ok())
        for (uint64_t s = lo; s <= hi && !match; s++) {
          Bytes w;
          for (size_t i = 0, o = 0; i < recs; i++) {
            size_t k = std::min((size_t)16384, n - o);
            w = w + out->Rec(0, s + i, 0x17, Bytes(pt.begin() + o, pt.begin() + o + k));
            o += k;
          }
          if (w == got) { match = true; lo = hi = s + recs; }
        }
      if (!match) Fail("Protect without a failure is wrong: %s", r.status.ToString().c_str());
    }
    if (!live.empty()) Fail("Protect leaves %zu buffers behind", live.size());
  }
  // Records of kinds d (data), k (key update), D (a full data record), one call.
  void Unprotect(const std::string& kinds) {
    Bytes wire, want;
    Dir m = mi;
    for (char k : kinds) {
      Bytes body = k == 'k' ? kKu : k == 'K' ? kKu1 : Plain(k == 'D' ? 16384 : 9, 6);
      wire = wire + in->Rec(m.gen, m.seq, k == 'k' || k == 'K' ? 0x16 : 0x17, body);
      m.seq++;
      if (k == 'k' || k == 'K') { m.gen++; m.seq = 0; } else want = want + body;
    }
    FR f(wire, {3, wire.size() - 3});
    S2AFrameProtector::Result r;
    r.status = absl::InternalError("not called");
    bool ft = During([&] { r = p->Unprotect(f.v); });
    Bytes got = Take(r.bytes);
    if (ft) {
      if (r.status.ok()) Fail("Unprotect does not report the failure");
      else if (!got.empty()) Fail("failed Unprotect returns data");
      in_unsure = true;
    } else if (r.status.ok() ? got != want : !in_unsure) {
      Fail("Unprotect without a failure is wrong: %s", r.status.ToString().c_str());
    } else if (!r.status.ok() && !got.empty()) {
      Fail("failed Unprotect returns data");
    }
    mi = m;
    if (!live.empty()) Fail("Unprotect leaves %zu buffers behind", live.size());
  }
};
static void FrameFaults() {
  Section("fault_frame");
  for (Aead a : kAll) {
    Stream in(a, Secret(a, 1)), out(a, Secret(a, 2));
    for (int sc = 0; sc < 4; sc++) {
      if (sc >= 2 && a == ref::AES256 && !Thorough()) continue;
      static const char* names[] = {"small", "key update", "two records out", "large and small record in"};
      Explore(F("%s frame protector, %s", N(a), names[sc]), sc < 2 || Thorough(), false, [&] {
        FrameF h(a, &in, &out);
        if (!h.Create() && !h.Create()) return;
        switch (sc) {
          case 0: h.Protect(20); h.Unprotect("dd"); h.Unprotect("d"); break;
          case 1: h.Unprotect(a == ref::AES128 ? "dkd" : "dKd"); h.Protect(0); h.Unprotect("d"); break;
          case 2: h.Protect(16385); break;
          case 3: h.Unprotect("Dd"); break;
        }
        h.Protect(7);
        h.Unprotect("d");
      });
    }
  }
}

int main(int argc, char** argv) {
  Init(argc, argv);
  if (Want("aead")) AeadFaults();
  if (Want("hkdf")) HkdfFaults();
  if (Want("half")) HalfFaults();
  if (Want("record")) RecordFaults();
  if (Want("frame")) FrameFaults();
  return Finish();
}
