// The frame protector: C15 (streams), C16 (malformed framing), C17 (buffers).
#include "harness/h.h"
#include "harness/stream.h"
#include "include/s2a_frame_protector.h"

using s2a::frame_protector::S2AFrameProtector;
static const size_t kMax = 16384, kOv = 22;

// ------------------------------------------------------ allocator ledger
struct Ledger {
  std::map<void*, size_t> live;     // allocated, not yet destroyed
  std::set<void*> foreign;          // supplied by the caller: must never be destroyed
  std::vector<size_t> sizes;        // of the current call
  long fail_at = -1;                // the allocation (of the current call) that fails
  bool bad = false;
  Iovec Alloc(size_t n) {
    long k = (long)sizes.size();
    sizes.push_back(n);
    if (k == fail_at) return {nullptr, 0};
    void* p = malloc(n ? n : 1);
    memset(p, 0xEE, n ? n : 1);
    live[p] = n;
    return {p, n};
  }
  void Destroy(Iovec v) {
    if (v.iov_base == nullptr) return;
    if (foreign.count(v.iov_base)) { bad = true; Fail("a buffer supplied by the caller was destroyed"); return; }
    auto it = live.find(v.iov_base);
    if (it == live.end()) { bad = true; Fail("destroyed a buffer that is not allocated (or destroyed twice)"); return; }
    free(v.iov_base);
    live.erase(it);
  }
};

struct FP {
  Aead suite;
  Stream *in, *out;
  Ledger led;
  std::string url = "s2a";
  Opt::Identity id = Opt::Identity::FromSpiffeId("x");
  std::unique_ptr<S2AFrameProtector> p;
  uint64_t is, os;
  size_t ig = 0;
  bool iover = false, oover = false, closed = false;
  std::vector<Iovec> held;  // returned to the caller, not yet destroyed

  FP(Aead a, Stream* i, Stream* o, uint64_t in_seq = 0, uint64_t out_seq = 0) : suite(a), in(i), out(o), is(in_seq), os(out_seq) {
    S2AFrameProtector::S2AFrameProtectorOptions opt = {Opt::TlsVersion::TLS1_3, CS(a), i->gens[0].secret, o->gens[0].secret, in_seq, out_seq, url, id, 5, nullptr, nullptr,
                                                       [this](size_t n) { return led.Alloc(n); }, [this](Iovec v) { led.Destroy(v); }, [](const std::string&) {}};
    auto r = S2AFrameProtector::Create(opt);
    Count("traces");
    if (!r.ok() || !*r) { Fail("frame protector not created"); return; }
    p = std::move(*r);
  }
  ~FP() { p.reset(); for (auto& x : led.live) free(x.first); }
  void Begin(long fail_at = -1) { led.sizes.clear(); led.fail_at = fail_at; Count("transitions"); }
  // Every live buffer is one returned to the caller; returned buffers lie inside live ones.
  bool Balance(const char* what) {
    if (led.bad) return false;
    std::set<void*> h;
    for (auto& v : held) {
      if (v.iov_base == nullptr && v.iov_len == 0) continue;
      auto it = led.live.find(v.iov_base);
      if (it == led.live.end()) { Fail("%s: a returned buffer is not a live allocation", what); return false; }
      if (v.iov_len > it->second) { Fail("%s: a returned buffer is longer than its allocation", what); return false; }
      if (!h.insert(v.iov_base).second) { Fail("%s: the same buffer returned twice", what); return false; }
    }
    for (auto& l : led.live) if (!h.count(l.first)) { Fail("%s: an allocated buffer of %zu bytes was neither returned nor destroyed", what, l.second); return false; }
    St(F("fp %s %s %s g%zu o%d%d c%d held%zu", N(suite), U64(is).c_str(), U64(os).c_str(), ig, iover, oover, closed, held.size()));
    return true;
  }
  void Release() { for (auto& v : held) if (v.iov_base) led.Destroy(v); held.clear(); }
  void UseOut() { if (++os == 0) oover = true; }
  void UseIn() { if (++is == 0) iover = true; }
  static size_t Records(size_t n) { return n == 0 ? 1 : (n + kMax - 1) / kMax; }
  // The reference protection of pt from the current outbound state.
  Bytes Want(const Bytes& pt, uint64_t seq) {
    Bytes w;
    size_t o = 0;
    for (size_t i = 0; i < Records(pt.size()); i++) {
      size_t n = std::min(kMax, pt.size() - o);
      w = w + out->Rec(0, seq + i, 0x17, Bytes(pt.begin() + o, pt.begin() + o + n));
      o += n;
    }
    return w;
  }
  // Can all records of pt be sent before the sequence space ends?
  bool Room(size_t n) { return !oover && (os == 0 || Records(n) - 1 <= ~0ull - os); }
  bool Protect(const FR& f, const Bytes& pt, bool nullpiece = false, long failalloc = -1) {
    Begin(failalloc);
    size_t ann = p->NumberBytesToProtect(f.v);
    if (ann != pt.size() + kOv * Records(pt.size())) { Fail("announced size %zu for %zu bytes", ann, pt.size()); return false; }
    auto r = p->Protect(f.v);
    bool ok = Room(pt.size()) && !nullpiece && failalloc < 0;
    if (r.status.ok() != ok) { Fail("Protect of %zu bytes: %s, expected %s", pt.size(), r.status.ToString().c_str(), ok ? "success" : "an error"); return false; }
    for (auto& v : r.bytes) held.push_back(v);
    if (!ok) {
      if (!r.bytes.empty()) { Fail("error with data"); return false; }
      AfterFailedProtect(pt, nullpiece, failalloc >= 0);
      return Balance("failed Protect");
    }
    size_t tot = 0;
    for (size_t s : led.sizes) tot += s;
    if (tot != ann) { Fail("allocated %zu bytes, announced %zu", tot, ann); return false; }
    Bytes got;
    for (auto& v : r.bytes) got = got + Bytes((uint8_t*)v.iov_base, (uint8_t*)v.iov_base + v.iov_len);
    if (got.size() != ann) { Fail("%zu bytes returned, announced %zu", got.size(), ann); return false; }
    if (got != Want(pt, os)) { Fail("protected bytes differ from the reference records"); return false; }
    for (size_t i = 0; i < Records(pt.size()); i++) UseOut();
    return Balance("Protect");
  }
  void AfterFailedProtect(const Bytes& pt, bool nullpiece, bool alloc) {
    if (alloc || oover) return;
    if (nullpiece) { UseOut(); return; }  // single-record inputs only
    for (size_t i = 0; i < Records(pt.size()) && !oover; i++) UseOut();
  }
  // Protect into a buffer of the announced size + extra.
  bool ProtectInto(const FR& f, const Bytes& pt, long extra) {
    Begin();
    size_t ann = p->NumberBytesToProtect(pt.size());
    if (ann != pt.size() + kOv * Records(pt.size())) { Fail("announced size %zu for %zu bytes", ann, pt.size()); return false; }
    size_t cap = (long)ann + extra < 0 ? 0 : ann + extra;
    Buf b(cap, 0xEE);
    led.foreign.insert(b.p);
    Iovec iv = {b.p, cap};
    absl::Status s = p->Protect(f.v, iv);
    led.foreign.erase(b.p);
    bool room = Room(pt.size());
    bool ok = room && extra >= 0;
    if (s.ok() != ok) { Fail("Protect of %zu bytes into %zu: %s", pt.size(), cap, s.ToString().c_str()); return false; }
    Bytes want = Want(pt, os);
    if (ok) {
      if (b.bytes(ann) != want) { Fail("protected bytes differ from the reference records"); return false; }
      for (size_t i = ann; i < cap; i++) if (b.p[i] != 0xEE) { Fail("written beyond the announced size"); return false; }
      for (size_t i = 0; i < Records(pt.size()); i++) UseOut();
    } else if (!oover) {
      // records that were completed before the failure used up their numbers
      size_t o = 0, n = 0, left = pt.size();
      for (;;) {
        size_t rl = std::min(left, kMax) + kOv;
        if (o + rl > cap || o + rl > want.size() || memcmp(b.p + o, want.data() + o, rl)) break;
        left -= rl - kOv;
        o += rl;
        n++;
      }
      for (size_t i = 0; i < n; i++) UseOut();
    }
    return Balance("Protect into a buffer");
  }
  // Independent framing: what unprotecting the bytes must give, and its effect.
  // Returns false if an error is expected.  single: exactly one record.
  bool Model(const Bytes& s, bool single, Bytes* data, long failalloc = -1) {
    data->clear();
    size_t o = 0, n = 0;
    if (s.size() < kOv) return false;
    if (single) {
      if (s[0] != 0x17 || s[1] != 3 || s[2] != 3 || ((size_t)s[3] << 8 | s[4]) + 5 != s.size()) return false;
    }
    while (o < s.size()) {
      if (s.size() - o < kOv) return false;
      if (s[o] != 0x17 || s[o + 1] != 3 || s[o + 2] != 3) return false;
      size_t len = (size_t)s[o + 3] << 8 | s[o + 4];
      if (o + 5 + len > s.size()) return false;
      Bytes rec(s.begin() + o, s.begin() + o + 5 + len);
      o += 5 + len;
      if (!One(rec, data, failalloc == (long)n)) { data->clear(); return false; }
      n++;
    }
    return true;
  }
  bool One(const Bytes& rec, Bytes* data, bool noroom) {
    if (closed) return false;
    if (rec.size() < kOv || rec.size() > kOv + kMax) return false;
    if (iover) return false;
    ref::Direction& d = in->Gen(ig);
    ref::Direction at = d;
    at.seq = is;
    UseIn();
    if (noroom) return false;
    Bytes inner;
    if (!OpenMemo(at, rec, &inner)) return false;
    size_t n = inner.size();
    while (n && !inner[n - 1]) n--;
    if (!n) return false;
    uint8_t t = inner[n - 1];
    if (t == 0x17) { data->insert(data->end(), inner.begin(), inner.begin() + n - 1); return true; }
    if (t == 0x15 && n >= 3 && inner[1] == 0) { closed = true; return false; }
    if (t == 0x16) {  // only whole key updates and tickets are used here
      if (inner[0] == 0x18) { ig++; is = 0; iover = false; }
      return true;
    }
    return false;
  }
  bool OpenMemo(const ref::Direction& at, const Bytes& rec, Bytes* inner) {
    // authentic records of this harness come from the memo; anything else must be opened
    return ref::Open(suite, at.key, at.Nonce(), Bytes(rec.begin(), rec.begin() + 5), Bytes(rec.begin() + 5, rec.end()), inner);
  }
  bool Unprotect(const FR& f, const Bytes& s, long failalloc = -1) {
    Begin(failalloc);
    size_t ann = p->NumberBytesToUnprotect(f.v);
    Bytes want;
    bool ok = Model(s, false, &want, failalloc);
    auto r = p->Unprotect(f.v);
    if (r.status.ok() != ok) { Fail("Unprotect of %zu bytes: %s, expected %s", s.size(), r.status.ToString().c_str(), ok ? "success" : "an error"); return false; }
    for (auto& v : r.bytes) held.push_back(v);
    if (!ok) {
      if (!r.bytes.empty()) { Fail("error with data"); return false; }
      return Balance("failed Unprotect");
    }
    Bytes got;
    for (auto& v : r.bytes) got = got + Bytes((uint8_t*)v.iov_base, (uint8_t*)v.iov_base + v.iov_len);
    if (got != want) { Fail("unprotected bytes (%zu) are not the peer's (%zu)", got.size(), want.size()); return false; }
    size_t tot = 0;
    for (size_t z : led.sizes) tot += z;
    if (tot > ann) { Fail("allocated %zu bytes, announced at most %zu", tot, ann); return false; }
    return Balance("Unprotect");
  }
  bool UnprotectInto(const FR& f, const Bytes& s, long extra = 0) {
    Begin();
    size_t ann = p->NumberBytesToUnprotect(s.size());
    if (ann != (s.size() < kOv ? 0 : s.size() - 5) || ann != p->NumberBytesToUnprotect(f.v)) { Fail("announced %zu bytes to unprotect %zu", ann, s.size()); return false; }
    size_t cap = ann + extra;
    Buf b(cap, 0xEE);
    led.foreign.insert(b.p);
    Iovec iv = {b.p, cap};
    Bytes want;
    bool ok = Model(s, true, &want);
    absl::Status st = p->Unprotect(f.v, iv);
    led.foreign.erase(b.p);
    if (st.ok() != ok) { Fail("single-record Unprotect of %zu bytes: %s, expected %s", s.size(), st.ToString().c_str(), ok ? "success" : "an error"); return false; }
    if (ok && (iv.iov_base != b.p || iv.iov_len != want.size() || b.bytes(want.size()) != want)) { Fail("unprotected bytes are not the peer's"); return false; }
    if (!ok && iv.iov_len != 0)
      for (size_t i = 0; i < cap; i++) if (b.p[i] != 0xEE && b.p[i] != 0) { Fail("error with data"); return false; }
    return Balance("single-record Unprotect");
  }
  bool Protect(const Bytes& pt) { FR f(pt); return Protect(f, pt); }
  bool Unprotect(const Bytes& s) { FR f(s); return Unprotect(f, s); }
  const Bytes& Next(const Bytes& c, int ahead = 0) { return in->Rec(ig, is + ahead, 0x17, c); }
};

static std::vector<size_t> RecordCounts() {
  std::vector<size_t> v;
  for (size_t n = 1; n <= 34; n++) v.push_back(n);
  for (size_t n : {50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 201, 255, 256, 257, 300}) v.push_back(n);
  if (Thorough()) for (size_t n : {500, 511, 512, 513, 1000, 1023, 1024, 1025, 2000}) v.push_back(n);
  return v;
}

// C15 ---------------------------------------------------------------------
static void Streams() {
  Section("f_size");
  {
    Aead a = ref::AES256;
    Stream in(a, Secret(a, 60)), out(a, Secret(a, 61));
    FP x(a, &in, &out);
    if (x.p) {
      std::vector<size_t> n;
      for (size_t i = 0; i <= 5 * kMax + 3; i += (Thorough() ? 1 : 1)) n.push_back(i);
      for (int k = 16; k < 56; k++) for (int d = -2; d <= 2; d++) n.push_back((1ull << k) + d);
      for (size_t v : n)
        if (Case()) {
          Desc("sizes for %zu bytes", v);
          Count("transitions");
          size_t w = v + kOv * FP::Records(v);
          if (x.p->NumberBytesToProtect(v) != w) Fail("announced %zu, expected %zu", x.p->NumberBytesToProtect(v), w);
          if (x.p->NumberBytesToUnprotect(v) != (v < kOv ? 0 : v - 5)) Fail("announced %zu to unprotect", x.p->NumberBytesToUnprotect(v));
          if (x.p->MaxRecordSize() != kMax + kOv) Fail("maximum record size %zu", x.p->MaxRecordSize());
        }
    }
  }
  // Every length around the record boundary, both protect forms, roundtrip through both unprotect forms.
  Section("f_len");
  for (Aead a : kAll) {
    Stream st(a, Secret(a, 62));
    std::vector<size_t> lens;
    for (size_t l = 0; l <= (Thorough() || (a == ref::AES128 && !kBoring) ? 16450 : 400); l++) lens.push_back(l);
    for (size_t k = 1; k <= 4; k++) for (int d = (k < 3 ? -20 : -2); d <= (k < 3 ? 20 : 2); d++) lens.push_back(k * kMax + d);
    for (size_t l : {255, 256, 257, 8191, 8192, 10000, 24576, 100000}) lens.push_back(l);
    for (size_t k : {5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 128, 129}) for (int d : {0, 1}) if (d == 0 || k % 8 < 2) lens.push_back(k * kMax + d);
    if (Thorough()) for (size_t k : {255, 256, 257, 512, 1024}) lens.push_back(k * kMax + 1);
    for (size_t l : lens)
      for (int form = 0; form < 2; form++) {
        if (!Thorough() && l > 400 && l < kMax - 40 && (int)(l & 1) != form) continue;
        if (Case()) {
          Desc("%s stream of %zu bytes, form %d", N(a), l, form);
          if (l > 1000) st.memo.clear();
          FP s(a, &st, &st, 4, 4);
          if (!s.p) continue;
          Bytes pt = ref::Pattern(l, 63);
          Bytes w = s.Want(pt, 4);
          FR f(pt);
          if (!(form ? s.ProtectInto(f, pt, l % 3) : s.Protect(f, pt))) continue;
          if (!s.Unprotect(w)) continue;
          s.Release();
          s.Protect({1, 2}) && s.Unprotect(s.Next({3, 4}));
          s.Release();
        }
      }
  }
  // Many records in one call.
  Section("f_records");
  for (Aead a : kAll) {
    Stream st(a, Secret(a, 62));
    for (size_t n : RecordCounts())
      for (size_t l : {(size_t)0, (size_t)1, (size_t)20})
        for (int how = 0; how < 4; how++) {
          if (!Case()) continue;
          Desc("%s %zu records of %zu bytes in one call, pieces %d", N(a), n, l, how);
          FP x(a, &st, &st);
          if (!x.p) continue;
          Bytes w;
          std::vector<size_t> sz;
          for (size_t i = 0; i < n; i++) {
            Bytes r = st.Rec(0, i, 0x17, ref::Pattern(l, i));
            w.insert(w.end(), r.begin(), r.end());
            if (how == 1) sz.push_back(r.size());
            if (how == 2) { sz.push_back(3); sz.push_back(r.size() - 3); }
          }
          if (how == 0) sz = {w.size()};
          if (how == 3) for (size_t o = 0; o < w.size(); o += 7) sz.push_back(std::min<size_t>(7, w.size() - o));
          FR f(w, sz);
          x.Unprotect(f, w) && x.Unprotect(x.Next({7})) && x.Protect({8});
          x.Release();
        }
  }
  // Many pieces, in and out.
  Section("f_many");
  for (Aead a : kAll)
    for (size_t n : {0, 1, 40, 700, 16384, 20000, 33000}) {
      Stream st(a, Secret(a, 62));
      ManyShapes(n, [&](const std::string& d, const std::vector<size_t>& sz, bool nul) {
        Desc("%s protect %s", N(a), d.c_str());
        FP s(a, &st, &st);
        if (!s.p) return;
        Bytes pt = ref::Pattern(n, 64);
        FR f(pt, sz, nul);
        s.Protect(f, pt) && s.ProtectInto(f, pt, 1);
        s.Release();
      });
    }
  for (Aead a : kAll)
    for (int recs = 1; recs <= 3; recs++)
      for (size_t n : {0, 20, 700, 16384}) {
        Stream st(a, Secret(a, 62));
        Bytes w;
        for (int i = 0; i < recs; i++) w = w + st.Rec(0, i, 0x17, ref::Pattern(n, 64 + i));
        ManyShapes(w.size(), [&](const std::string& d, const std::vector<size_t>& sz, bool nul) {
          if (recs == 3 && sz.size() % 2) return;
          Desc("%s unprotect %d records, %s", N(a), recs, d.c_str());
          FP s(a, &st, &st);
          if (!s.p) return;
          FR f(w, sz, nul);
          if (s.Unprotect(f, w) && recs == 1) {
            FP s1(a, &st, &st);
            if (s1.p) s1.UnprotectInto(f, w) && s1.UnprotectInto(f, w);
          }
          s.Unprotect(f, w);  // replayed
          s.Release();
        });
      }
  // Pieces that share memory.
  Section("f_shared");
  for (Aead a : kAll) {
    Stream st(a, Secret(a, 62));
    Bytes base = ref::Pattern(40, 68), big = ref::Pattern(20000, 69);
    Windows(Thorough() ? 4 : 3, [&](const std::string& d, const WindowList& w) {
      Desc("%s protect %s of one buffer", N(a), d.c_str());
      FP s(a, &st, &st);
      if (!s.p) return;
      Bytes flat;
      FR f(base, w, &flat);
      s.Protect(f, flat) && s.ProtectInto(f, flat, 1);
      s.Release();
    });
    // large windows: equal, overlapping, touching
    const WindowList large = {{0, 20000}, {0, 16384}, {16384, 3616}, {100, 16385}, {0, 1}};
    for (auto& x : large)
      for (auto& y : large)
        for (auto& z : large)
          if (Case()) {
            Desc("%s protect windows %zu+%zu %zu+%zu %zu+%zu of one buffer", N(a), x.first, x.second, y.first, y.second, z.first, z.second);
            st.memo.clear();
            FP s(a, &st, &st);
            if (!s.p) continue;
            Bytes flat;
            FR f(big, WindowList{x, y, z}, &flat);
            s.Protect(f, flat) && s.ProtectInto(f, flat, 1);
            s.Release();
          }
    // streams cut into pieces of one allocation
    for (auto& sh : std::vector<std::vector<size_t>>{{0}, {3}, {2, 0}, {1, 1, 1}}) {
      Bytes w;
      for (size_t i = 0; i < sh.size(); i++) w = w + st.Rec(0, i, 0x17, ref::Pattern(sh[i], i), i % 2);
      for (size_t k = 1; k <= 3; k++)
        WeakCompositions(w.size(), k, [&](const std::vector<size_t>& sz) {
          for (int back = 0; back < 2; back++)
            if (Case()) {
              Desc("%s records %s in one allocation cut %s, %s", N(a), Show(sh).c_str(), Show(sz).c_str(), back ? "reversed" : "in order");
              FP x(a, &st, &st);
              if (!x.p) continue;
              FR f(w, sz, back ? FR::BACKWARD : FR::FORWARD);
              (sh.size() == 1 && sz[0] % 2 ? x.UnprotectInto(f, w) : x.Unprotect(f, w)) && x.Unprotect(x.Next({7}));
              x.Release();
            }
        });
    }
  }
  // Fragmentation of the plaintext.
  Section("f_pieces");
  for (Aead a : kAll) {
    Stream st(a, Secret(a, 62));
    for (size_t n = 0; n <= 6; n++)
      for (size_t k = 0; k <= 4; k++)
        for (int nul = 0; nul < 2; nul++)
          WeakCompositions(n, k, [&](const std::vector<size_t>& sz) {
            if (!Case()) return;
            Desc("%s %zu bytes in pieces %s nul=%d", N(a), n, Show(sz).c_str(), nul);
            FP s(a, &st, &st);
            if (!s.p) return;
            Bytes pt = ref::Pattern(n, 64);
            FR f(pt, sz, nul);
            s.Protect(f, pt) && s.ProtectInto(f, pt, 1);
            s.Release();
          });
    // boundaries of pieces around boundaries of records
    std::vector<long> near = {0, 1, 5, 16383, 16384, 16385, 32767, 32768, 32769};
    for (size_t total : {(size_t)16384, (size_t)16385, (size_t)32768, (size_t)32770})
      for (size_t i = 0; i < near.size(); i++)
        for (size_t j = i; j < near.size(); j++) {
          if ((size_t)near[j] > total) continue;
          for (int nul = 0; nul < 2; nul++) {
            if (!Case()) continue;
            Desc("%s %zu bytes cut at %ld and %ld nul=%d", N(a), total, near[i], near[j], nul);
            st.memo.clear();
            FP s(a, &st, &st);
            if (!s.p) continue;
            Bytes pt = ref::Pattern(total, 65);
            FR f(pt, {(size_t)near[i], (size_t)(near[j] - near[i]), total - near[j], 0}, nul);
            s.Protect(f, pt) && s.ProtectInto(f, pt, 0);
            s.Release();
          }
        }
    // totals around the record size, in each number of equal and of uneven pieces
    for (size_t total : {(size_t)16382, (size_t)16383, (size_t)16384, (size_t)16385, (size_t)16386, (size_t)32767, (size_t)32769, (size_t)49151})
      for (size_t k = 1; k <= (Thorough() ? 20u : 9u); k++)
        for (int how = 0; how < 4; how++)
          if (Case()) {
            Desc("%s %zu bytes in %zu pieces, division %d", N(a), total, k, how);
            std::vector<size_t> sz(k, how == 0 ? total / k : how == 3 ? 0 : 1);
            size_t at = how == 1 ? k - 1 : how == 2 ? 0 : k / 2;
            sz[at] += total - sz[0] * k;
            st.memo.clear();
            FP s(a, &st, &st);
            if (!s.p) continue;
            Bytes pt = ref::Pattern(total, 65);
            FR f(pt, sz);
            if (!s.Protect(f, pt) || !s.ProtectInto(f, pt, 0)) continue;
            s.Release();
            Bytes w = s.Want(pt, 0);
            std::vector<size_t> wz(k, how == 0 ? w.size() / k : how == 3 ? 0 : 1);
            wz[at] += w.size() - wz[0] * k;
            FR g(w, wz);
            s.Unprotect(g, w);
            s.Release();
          }
    // large totals in few pieces
    for (size_t total : {(size_t)65535, (size_t)65536, (size_t)65537, (size_t)100001, (size_t)131073, (size_t)262145, (size_t)1048577})
      for (size_t k = 1; k <= (total < 200000 ? 6u : 3u); k++)
        for (int how = 0; how < 3; how++)
          for (int end = 0; end < 2; end++) {
            if (!Case()) continue;
            Desc("%s %zu bytes in %zu pieces, division %d, %s an empty piece behind", N(a), total, k, how, end ? "with" : "without");
            std::vector<size_t> sz(k, how == 0 ? total / k : 1);
            sz[how == 1 ? k - 1 : 0] += total - sz[0] * k;
            if (end) sz.push_back(0);
            st.memo.clear();
            FP s(a, &st, &st);
            if (!s.p) continue;
            Bytes pt = ref::Pattern(total, 65);
            FR f(pt, sz);
            if (!(how == 1 ? s.ProtectInto(f, pt, 0) : s.Protect(f, pt))) continue;
            s.Release();
            Bytes w = s.Want(pt, 0);
            std::vector<size_t> wz(k, how == 0 ? w.size() / k : 1);
            wz[how == 1 ? k - 1 : 0] += w.size() - wz[0] * k;
            if (end) wz.push_back(0);
            FR g(w, wz);
            s.Unprotect(g, w);
            s.Release();
          }
    for (size_t piece : {1, 1000, 4096, 16383, 16385})
      if (Case()) {
        size_t total = piece == 1 ? 16400 : 50000;
        Desc("%s %zu bytes in pieces of %zu", N(a), total, piece);
        FP s(a, &st, &st);
        if (!s.p) continue;
        Bytes pt = ref::Pattern(total, 66);
        std::vector<size_t> sz;
        for (size_t o = 0; o < total; o += piece) sz.push_back(std::min(piece, total - o));
        FR f(pt, sz);
        s.Protect(f, pt) && s.Unprotect(s.Want(pt, 0));
        s.Release();
      }
  }
  // Fragmentation of the protected stream: every two-cut split of streams of one to three short records.
  Section("f_cut");
  for (Aead a : kAll) {
    Stream st(a, Secret(a, 62));
    std::vector<std::vector<size_t>> shapes = {{0}, {3}, {0, 0}, {2, 1}, {1, 0, 2}};
    for (auto& sh : shapes)
      for (int nul = 0; nul < 2; nul++) {
        if (a != ref::AES128 && sh.size() == 3 && !Thorough()) continue;
        Bytes s;
        for (size_t i = 0; i < sh.size(); i++) s = s + st.Rec(0, i, 0x17, ref::Pattern(sh[i], i), i % 2);
        for (size_t i = 0; i <= s.size(); i++)
          for (size_t j = i; j <= s.size(); j++) {
            if (!Case()) continue;
            Desc("%s records of %s bytes cut at %zu and %zu nul=%d", N(a), Show(sh).c_str(), i, j, nul);
            FP x(a, &st, &st);
            if (!x.p) continue;
            FR f(s, {0, i, 0, j - i, 0, s.size() - j, 0}, nul);
            if (!(sh.size() == 1 && (i + j) % 2 ? x.UnprotectInto(f, s, i % 3) : x.Unprotect(f, s))) continue;
            x.Unprotect(x.Next({7}));
            x.Release();
          }
      }
    if (Case()) {
      Desc("%s byte by byte", N(a));
      Bytes s;
      for (size_t i = 0; i < 4; i++) s = s + st.Rec(0, i, 0x17, ref::Pattern(i * 5, i));
      FP x(a, &st, &st);
      FR f(s, std::vector<size_t>(s.size(), 1));
      if (x.p) x.Unprotect(f, s);
      x.Release();
    }
  }
  // Large records cut near the headers.
  Section("f_cutbig");
  for (Aead a : kAll) {
    Stream st(a, Secret(a, 62));
    Bytes pt = ref::Pattern(2 * kMax + 10, 67);
    FP base(a, &st, &st);
    if (!base.p) return;
    Bytes s = base.Want(pt, 0);
    std::vector<size_t> pos;
    for (size_t b : {(size_t)0, kMax + kOv, 2 * (kMax + kOv)}) for (long d = -2; d <= 6; d++) if ((long)b + d >= 0) pos.push_back(b + d);
    for (size_t i = 0; i < pos.size(); i++)
      for (size_t j = i; j < pos.size(); j++) {
        if (!Case()) continue;
        Desc("%s three records, cut at %zu and %zu", N(a), pos[i], pos[j]);
        FP x(a, &st, &st);
        if (!x.p) continue;
        FR f(s, {pos[i], pos[j] - pos[i], s.size() - pos[j]});
        x.Unprotect(f, s);
        x.Release();
      }
  }
  // Histories: writes of several sizes, delivered in every grouping.
  Section("f_hist");
  static const char* names[] = {"send0", "send1", "send16384", "send16385", "send-into", "recv1", "recv-empty", "recv2", "recv-single", "recv-ticket", "recv-keyupdate", "recv-app+keyupdate+app"};
  for (Aead a : kAll) {
    Stream in(a, Secret(a, 62)), out(a, Secret(a, 63));
    Bytes b0 = ref::Pattern(kMax, 1), b1 = ref::Pattern(kMax + 1, 2);
    FR f0(b0), f1(b1);
    int depth = (a == ref::AES128 ? 4 : 3) - (kBoring ? 1 : 0) + (Thorough() ? 1 : 0);
    Histories(12, depth, [&](const std::vector<int>& seq) {
      Desc("%s:%s", N(a), Names(seq, names).c_str());
      FP x(a, &in, &out, 9, 254);
      if (!x.p) return;
      for (int o : seq) {
        bool ok = true;
        switch (o) {
          case 0: ok = x.Protect({}); break;
          case 1: ok = x.Protect({9}); break;
          case 2: ok = x.Protect(f0, b0); break;
          case 3: ok = x.Protect(f1, b1); break;
          case 4: { Bytes pt = {1, 2, 3}; FR f(pt, {1, 2}); ok = x.ProtectInto(f, pt, 5); break; }
          case 5: ok = x.Unprotect(x.Next({1, 2, 0})); break;
          case 6: ok = x.Unprotect(x.Next({})); break;
          case 7: ok = x.Unprotect(x.Next({1}) + x.Next({2, 3}, 1)); break;
          case 8: { Bytes s = x.Next({5, 6}); FR f(s); ok = x.UnprotectInto(f, s); break; }
          case 9: ok = x.Unprotect(in.Rec(x.ig, x.is, 0x16, Msg(4, 3, 1))); break;
          case 10: ok = x.Unprotect(in.Rec(x.ig, x.is, 0x16, kKu)); break;
          case 11: ok = x.Unprotect(x.Next({1}) + in.Rec(x.ig, x.is + 1, 0x16, kKu) + in.Rec(x.ig + 1, 0, 0x17, {2})); break;
        }
        if (!ok) return;
        x.Release();
      }
      x.Protect({1}) && x.Unprotect(x.Next({2}));
      x.Release();
    }, 100, 16);
  }
}

// C16 ---------------------------------------------------------------------
static void Malformed() {
  // feeds an altered stream in several fragmentations, in both forms; then the state must go on as the model says
  auto feed = [&](Aead a, Stream& st, const Bytes& s, const std::string& d) {
    std::vector<std::vector<size_t>> frs;
    size_t n = s.size();
    frs.push_back({n});
    for (size_t c : {(size_t)1, (size_t)4, (size_t)5, (size_t)6, n / 2, n ? n - 1 : 0}) if (c <= n) frs.push_back({c, 0, n - c});
    frs.push_back({n, 0, 0});
    frs.push_back({0, n, 0});
    frs.push_back({0, 0, n});
    if (n > 1) { frs.push_back({n - 1, 1, 0}); frs.push_back({0, 1, n - 1, 0}); }
    frs.push_back(std::vector<size_t>(n, 1));
    for (size_t q = 0; q < frs.size(); q++)
      for (int form = 0; form < 2; form++)
        for (int nul = 0; nul < 2; nul++) {
          if (nul && !std::count(frs[q].begin(), frs[q].end(), (size_t)0)) continue;
          if (!Case()) continue;
          Desc("%s; fragmentation %zu nul=%d form %d", d.c_str(), q, nul, form);
          FP x(a, &st, &st);
          if (!x.p) continue;
          FR f(s, frs[q], nul);
          if (!(form ? x.UnprotectInto(f, s) : x.Unprotect(f, s))) { x.Release(); continue; }
          if (!x.closed && !x.iover) x.Unprotect(x.Next({7, 7}));
          x.Release();
        }
  };
  auto stream = [](Stream& st, const std::vector<size_t>& sh) {
    Bytes s;
    for (size_t i = 0; i < sh.size(); i++) s = s + st.Rec(0, i, 0x17, ref::Pattern(sh[i], i), i % 2);
    return s;
  };
  std::vector<std::vector<size_t>> shapes = {{0}, {4}, {2, 3}, {1, 0, 2}};
  for (Aead a : kAll) {
    Stream st(a, Secret(a, 70));
    for (auto& sh : shapes) {
      Bytes s = stream(st, sh);
      Section("x_truncate");
      for (size_t l = 0; l <= s.size(); l++) feed(a, st, Bytes(s.begin(), s.begin() + l), F("%s records %s, first %zu bytes", N(a), Show(sh).c_str(), l));
      Section("x_drop_front");
      for (size_t l = 1; l <= std::min<size_t>(s.size(), 30); l++) feed(a, st, Bytes(s.begin() + l, s.end()), F("%s records %s without the first %zu bytes", N(a), Show(sh).c_str(), l));
      Section("x_trail");
      for (size_t l = 1; l <= 45; l++) {
        feed(a, st, s + Bytes(l, 0), F("%s records %s followed by %zu zeros", N(a), Show(sh).c_str(), l));
        Bytes nx = st.Rec(0, sh.size(), 0x17, ref::Pattern(18, 9));
        if (l < nx.size()) feed(a, st, s + Bytes(nx.begin(), nx.begin() + l), F("%s records %s followed by %zu bytes of the next record", N(a), Show(sh).c_str(), l));
        feed(a, st, s + Bytes(s.begin(), s.begin() + std::min(l, s.size())), F("%s records %s followed by their first %zu bytes", N(a), Show(sh).c_str(), l));
      }
      Section("x_flip");
      for (size_t b = 0; b < 8 * s.size(); b++) {
        Bytes t = s;
        t[b / 8] ^= 1 << (b % 8);
        feed(a, st, t, F("%s records %s, bit %zu flipped", N(a), Show(sh).c_str(), b));
      }
      Section("x_remove_byte");
      for (size_t b = 0; b < s.size(); b++) {
        Bytes t = s;
        t.erase(t.begin() + b);
        feed(a, st, t, F("%s records %s, byte %zu removed", N(a), Show(sh).c_str(), b));
      }
      Section("x_swap");
      if (sh.size() > 1) {
        std::vector<size_t> idx(sh.size());
        for (size_t i = 0; i < idx.size(); i++) idx[i] = i;
        while (std::next_permutation(idx.begin(), idx.end())) {
          Bytes t;
          for (size_t i : idx) t = t + st.Rec(0, i, 0x17, ref::Pattern(sh[i], i), i % 2);
          feed(a, st, t, F("%s records %s in another order", N(a), Show(sh).c_str()));
        }
        for (size_t i = 0; i < sh.size(); i++) {
          Bytes t;
          for (size_t j = 0; j < sh.size(); j++) for (int k = 0; k < (i == j ? 2 : 1); k++) t = t + st.Rec(0, j, 0x17, ref::Pattern(sh[j], j), j % 2);
          feed(a, st, t, F("%s records %s, record %zu twice", N(a), Show(sh).c_str(), i));
        }
      }
    }
  }
  // Many records, the last or a middle one altered, or something after them.
  Section("x_records");
  for (Aead a : kAll) {
    Stream st(a, Secret(a, 70));
    for (size_t n : RecordCounts())
      for (int how = 0; how < 10; how++)
        for (int split = 0; split < 4; split++) {
          if (!Case()) continue;
          size_t at = how == 1 ? n / 2 : n - 1;
          static const char* what[] = {"last tampered", "middle tampered", "last header wrong", "last cut by one byte", "one byte after", "five bytes after", "21 bytes after", "22 zero bytes after", "last twice", "last cut to its header"};
          Desc("%s %zu records, %s, split %d", N(a), n, what[how], split);
          FP x(a, &st, &st);
          if (!x.p) continue;
          Bytes w;
          std::vector<size_t> sz;
          for (size_t i = 0; i < n; i++) {
            Bytes r = st.Rec(0, i, 0x17, ref::Pattern(i % 4, i));
            if (i == at) {
              if (how <= 1) r[r.size() - 1] ^= 0x40;
              if (how == 2) r[1] = 4;
              if (how == 3) r.pop_back();
              if (how == 8) r = r + r;
              if (how == 9) r.resize(5);
            }
            w.insert(w.end(), r.begin(), r.end());
            sz.push_back(r.size());
          }
          Bytes nx = st.Rec(0, n, 0x17, {1, 2});
          size_t extra = how == 4 ? 1 : how == 5 ? 5 : how == 6 ? 21 : how == 7 ? 22 : 0;
          if (how == 7) w.insert(w.end(), 22, 0); else w.insert(w.end(), nx.begin(), nx.begin() + extra);
          sz.push_back(extra);
          // one piece, record by record, and both with an empty piece after them
          if (split % 2 == 0) sz = {w.size()};
          if (split > 1) sz.push_back(0);
          FR f(w, sz, split == 3);
          x.Unprotect(f, w) && (x.iover || x.Unprotect(x.Next({7, 7})));
          x.Release();
        }
  }
  // A good record with much behind it: nothing, zeros, or records that do not authenticate.
  Section("x_behind");
  for (Aead a : kAll) {
    Stream st(a, Secret(a, 70));
    for (size_t l : {0, 1, 30, 16384})
      for (size_t extra : {(size_t)0, (size_t)1, (size_t)255, (size_t)256, (size_t)257, (size_t)4096, (size_t)65535, (size_t)65536, (size_t)65537, (size_t)131072, (size_t)196608, (size_t)(1 << 20), (size_t)(1 << 24)})
        for (int form = 0; form < 2; form++)
          for (int what = 0; what < 2; what++)
            for (int pieces = 1; pieces <= 3; pieces++) {
              if (extra > 200000 && (a != ref::AES128 || l != 30)) continue;
              if (!Case()) continue;
              Desc("%s record of %zu bytes followed by %zu %s in %d pieces, form %d", N(a), l, extra, what ? "bytes of forged records" : "zeros", pieces, form);
              st.memo.clear();
              Bytes s = st.Rec(0, 0, 0x17, ref::Pattern(l, 5)), forged = Bytes({0x17, 3, 3, 0, 17}) + ref::Pattern(17, 6);
              size_t n = s.size();
              s.resize(n + extra);
              for (size_t i = 0; what && i < extra; i++) s[n + i] = forged[i % 22];
              FR f(s, pieces == 1 ? std::vector<size_t>{s.size()} : pieces == 2 ? std::vector<size_t>{n, extra} : std::vector<size_t>{3, n - 3, extra});
              FP x(a, &st, &st);
              if (!x.p) continue;
              (form ? x.UnprotectInto(f, s) : x.Unprotect(f, s)) && x.Unprotect(x.Next({7, 7}));
              x.Release();
            }
  }
  // Every value of every header byte of the first and second record.
  {
    Aead a = ref::AES128;
    Stream st(a, Secret(a, 70));
    Section("x_header");
    for (auto& sh : std::vector<std::vector<size_t>>{{4}, {2, 3}}) {
      Bytes s = stream(st, sh);
      for (size_t rec = 0; rec < sh.size(); rec++)
        for (int pos = 0; pos < 5; pos++)
          for (int v = 0; v < 256; v++) {
            Bytes t = s;
            t[(rec ? 5 + 16 + 1 + sh[0] : 0) + pos] = v;
            feed(a, st, t, F("records %s, header byte %d of record %zu = %d", Show(sh).c_str(), pos, rec, v));
          }
    }
    // records that hold something else
    Section("x_inner");
    for (int t = 0; t < 256; t++) {
      if (t == 0x16) continue;
      for (int second = 0; second < 2; second++) {
        Bytes s = second ? st.Rec(0, 0, 0x17, {1, 2}) + st.Rec(0, 1, t, {5, 6}) : st.Rec(0, 0, t, {5, 6}) + st.Rec(0, 1, 0x17, {1, 2});
        feed(a, st, s, F("a record of inner type %d, %s", t, second ? "second" : "first"));
      }
      feed(a, st, st.Rec(0, 0, t, {5, 6}), F("a record of inner type %d, alone", t));
    }
    // short and oversized records inside a stream
    Section("x_sizes");
    for (size_t l = 0; l <= 20; l++)
      for (int second = 0; second < 2; second++) {
        Bytes odd = Bytes({0x17, 3, 3, 0, (uint8_t)l}) + ref::Pattern(l, 4);
        feed(a, st, second ? st.Rec(0, 0, 0x17, {1, 2}) + odd + Bytes(22, 3) : odd + st.Rec(0, 0, 0x17, {1, 2}), F("payload of %zu bytes, %s", l, second ? "second" : "first"));
      }
    for (size_t l : {16401, 16402, 16403, 20000, 65535})
      if (Case()) {
        Desc("payload of %zu bytes", l);
        Bytes odd = Bytes({0x17, 3, 3, (uint8_t)(l >> 8), (uint8_t)l}) + ref::Pattern(l, 4);
        FP x(a, &st, &st), y(a, &st, &st);
        if (x.p) { x.Unprotect(st.Rec(0, 0, 0x17, {1}) + odd + Bytes(22, 3)) && x.Unprotect(x.Next({7, 7})); x.Release(); }
        FR f(odd);
        if (y.p) { y.UnprotectInto(f, odd) && y.Unprotect(y.Next({7, 7})); y.Release(); }
      }
    Section("x_empty");
    for (int k = 0; k < 6; k++)
      for (int nul = 0; nul < 2; nul++)
        if (Case()) {
          Desc("%d empty pieces, nul=%d", k, nul);
          FP x(a, &st, &st);
          FR f({}, std::vector<size_t>(k, 0), nul);
          if (x.p) x.Unprotect(f, {}) && x.UnprotectInto(f, {}) && x.Unprotect(x.Next({1}));
          x.Release();
        }
  }
}

// C17 ---------------------------------------------------------------------
static void Buffers() {
  Section("b_hist");
  static const char* names[] = {"send", "send2", "send-into", "send-into-short", "send2-into-short", "send-null", "send-alloc-fails", "recv", "recv3", "recv-good+tampered", "recv-good+cut", "recv-good+badheader",
                                "recv-short", "recv-single", "recv-single-tampered", "recv-single-two", "recv-alloc-fails", "recv2-alloc-fails-2nd", "recv-good+close", "recv-good+ticket", "recv-oversized", "recv-single-short"};
  Bytes b1 = ref::Pattern(kMax + 1, 2), big = ref::Pattern(16402, 4);
  FR f1(b1);
  for (Aead a : kAll)
    for (uint64_t os : std::vector<uint64_t>{0, ~0ull - 1}) {
      Stream in(a, Secret(a, 80)), out(a, Secret(a, 81));
      int depth = (a == ref::AES128 && os == 0 ? 4 : 3) - (kBoring ? 1 : 0) + (Thorough() && a == ref::AES128 && os == 0 ? 1 : 0);
      Histories(22, depth, [&](const std::vector<int>& seq) {
        Desc("%s out sequence %s:%s", N(a), U64(os).c_str(), Names(seq, names).c_str());
        FP x(a, &in, &out, os ? ~0ull - 3 : 0, os);
        if (!x.p) return;
        for (int o : seq) {
          bool ok = true;
          Bytes p3 = {1, 2, 3};
          switch (o) {
            case 0: ok = x.Protect(p3); break;
            case 1: ok = x.Protect(f1, b1); break;
            case 2: { FR f(p3); ok = x.ProtectInto(f, p3, 0); break; }
            case 3: { FR f(p3); ok = x.ProtectInto(f, p3, -1); break; }
            case 4: ok = x.ProtectInto(f1, b1, -1); break;
            case 5: { FR f(p3, {1, 2}); f.v[1].iov_base = nullptr; ok = x.Protect(f, p3, true); break; }
            case 6: { FR f(p3); ok = x.Protect(f, p3, false, 0); break; }
            case 7: ok = x.Unprotect(x.Next({1, 2})); break;
            case 8: ok = x.Unprotect(x.Next({1}) + x.Next({}, 1) + x.Next({2}, 2)); break;
            case 9: { Bytes s = x.Next({1}) + x.Next({5}, 1); s.back() ^= 1; ok = x.Unprotect(s); break; }
            case 10: { Bytes s = x.Next({1}) + x.Next({5, 6}, 1); s.pop_back(); ok = x.Unprotect(s); break; }
            case 11: { Bytes g = x.Next({1}), s = g + x.Next({5, 6}, 1); s[g.size() + 1] = 4; ok = x.Unprotect(s); break; }
            case 12: ok = x.Unprotect(Bytes(21, 0x17)); break;
            case 13: { Bytes s = x.Next({5, 6}); FR f(s); ok = x.UnprotectInto(f, s); break; }
            case 14: { Bytes s = x.Next({5, 6}); s[10] ^= 1; FR f(s); ok = x.UnprotectInto(f, s); break; }
            case 15: { Bytes s = x.Next({5, 6}) + x.Next({7}, 1); FR f(s); ok = x.UnprotectInto(f, s); break; }
            case 16: { Bytes s = x.Next({1}); FR f(s); ok = x.Unprotect(f, s, 0); break; }
            case 17: { Bytes s = x.Next({1}) + x.Next({5}, 1); FR f(s); ok = x.Unprotect(f, s, 1); break; }
            case 18: ok = x.Unprotect(x.Next({1}) + in.Rec(x.ig, x.is + 1, 0x15, {1, 0}) + x.Next({2}, 2)); break;
            case 19: ok = x.Unprotect(x.Next({1}) + in.Rec(x.ig, x.is + 1, 0x16, Msg(4, 3, 1))); break;
            case 20: { static const Bytes s0 = Bytes({0x17, 3, 3, 0x40, 0x12}) + big; ok = x.Unprotect(x.Next({1}) + s0); break; }
            case 21: { Bytes s(21, 0x17); FR f(s); ok = x.UnprotectInto(f, s); break; }
          }
          if (!ok) { x.held.clear(); return; }
        }
        x.Protect({1}) && x.Unprotect(x.Next({2}));
        x.Release();
        x.Balance("end");
      }, 100, 16);
    }
  // A failing allocation at every position of multi-record calls.
  Section("b_alloc");
  for (Aead a : kAll)
    for (int n : RecordCounts())
      for (int at = 0; at < n; at++)
        if (!(n > 20 && at != 0 && at != 1 && at != n / 2 && at != n - 2 && at != n - 1) && Case()) {
          Desc("%s allocation %d of %d fails in Unprotect", N(a), at, n);
          Stream in(a, Secret(a, 80));
          FP x(a, &in, &in);
          if (!x.p) continue;
          Bytes s;
          for (int i = 0; i < n; i++) s = s + x.Next(ref::Pattern(i * 3, i), i);
          FR f(s);
          x.Unprotect(f, s, at) && x.Unprotect(x.Next({1}));
          x.Release();
          x.Balance("end");
        }
  // A failure at every record of multi-record calls.
  Section("b_mid");
  for (Aead a : kAll)
    for (int n : RecordCounts())
      for (int at = 0; at < n; at++)
        for (int how = 0; how < 5; how++) {
          if (n > 20 && at != 0 && at != 1 && at != n / 2 && at != n - 2 && at != n - 1) continue;
          if (Case()) {
            Desc("%s record %d of %d is %s", N(a), at, n, how == 0 ? "tampered" : how == 1 ? "a bad header" : how == 2 ? "an alert" : how == 3 ? "close_notify" : "of unknown type");
            Stream in(a, Secret(a, 80));
            FP x(a, &in, &in);
            if (!x.p) continue;
            Bytes s;
            for (int i = 0; i < n; i++) {
              Bytes r = x.Next(ref::Pattern(i, i), i);
              if (i == at) {
                if (how == 0) r[7] ^= 1;
                if (how == 1) r[2] ^= 1;
                if (how == 2) r = in.Rec(0, i, 0x15, {2, 40});
                if (how == 3) r = in.Rec(0, i, 0x15, {1, 0});
                if (how == 4) r = in.Rec(0, i, 0x18, {1, 0});
              }
              s = s + r;
            }
            x.Unprotect(s) && x.Unprotect(x.Next({1})) && x.Protect({2});
            x.Release();
            x.Balance("end");
          }
        }
  // Sequence space running out inside a Protect call.
  Section("b_wrap");
  for (Aead a : kAll)
    for (int back = 0; back < 4; back++)
      for (size_t n : {(size_t)0, (size_t)1, kMax, kMax + 1, 2 * kMax, 2 * kMax + 1, 4 * kMax})
        for (int form = 0; form < 2; form++)
          if (Case()) {
            Desc("%s outbound sequence 2^64-%d, %zu bytes, form %d", N(a), back + 1, n, form);
            Stream out(a, Secret(a, 80)), in(a, Secret(a, 82));
            FP x(a, &in, &out, 0, ~0ull - back);
            if (!x.p) continue;
            Bytes pt = ref::Pattern(n, 3);
            FR f(pt);
            (form ? x.ProtectInto(f, pt, 0) : x.Protect(f, pt)) && x.Protect({1}) && x.Unprotect(x.Next({1}));
            x.Release();
            x.Balance("end");
          }
  // Capacities of the supplied buffer.
  Section("b_cap");
  for (Aead a : kAll)
    for (size_t n : {(size_t)0, (size_t)1, (size_t)10, kMax, kMax + 1, kMax + 10, 2 * kMax + 3})
      for (long extra = -60; extra <= 20; extra++)
        if (Case()) {
          if (n > 1000 && extra < -30 && extra % 7) continue;
          Desc("%s %zu bytes into the announced size %+ld", N(a), n, extra);
          Stream out(a, Secret(a, 80)), in(a, Secret(a, 82));
          FP x(a, &in, &out);
          if (!x.p) continue;
          Bytes pt = ref::Pattern(n, 3);
          FR f(pt);
          x.ProtectInto(f, pt, extra) && x.Protect({1});
          x.Release();
          x.Balance("end");
        }
}

int main(int argc, char** argv) {
  Init(argc, argv);
  if (Want("streams")) Streams();
  if (Want("malformed")) Malformed();
  if (Want("buffers")) Buffers();
  return Finish();
}
