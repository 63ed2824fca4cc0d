// Concurrency (C14): every interleaving of concurrent calls (up to equivalence)
// on the real code; no data race, deadlock or use of freed memory, and results
// that some serial order of the same calls gives.
#include <algorithm>

#include "harness/h.h"
#include "harness/pb.h"
#include "harness/sched.h"
#include "harness/stream.h"
#include "include/access_token_manager_factory.h"
#include "include/s2a_context.h"
#include "include/s2a_frame_protector.h"
#include "include/s2a_proxy.h"
#include "src/crypto/hkdf.h"
#include "src/proto/upb-generated/proto/s2a.upb.h"
#include "src/record_protocol/s2a_crypter.h"
#include "src/record_protocol/s2a_half_connection.h"
#include "src/record_protocol/s2a_ticket_sender.h"
#include "upb/upb.hpp"

using s2a::frame_protector::S2AFrameProtector;
using s2a::record_protocol::S2ACrypter;
using s2a::record_protocol::S2AHalfConnection;
using s2a::s2a_proxy::S2AProxy;
typedef S2ACrypter::S2ACrypterStatusCode Code;
typedef S2ACrypter::RecordType RT;
typedef std::string Str;

// ------------------------------------------------------------- scenarios
struct World { virtual ~World() {} };
struct CallSpec { Str name; std::function<Str(World&)> run; };
struct Scenario {
  Str name;
  std::function<World*()> make;
  std::vector<std::vector<CallSpec>> threads;
  std::function<Str(World&)> probe;  // run at the end, alone
  bool disjoint = false;             // nothing is shared: exploring without the reduction gains nothing
};

static Str Digest(const uint8_t* p, size_t n) { return F("%zu:%016llx", n, (unsigned long long)Fnv(p, n)); }

static void RunScenario(const Scenario& sc) {
  if (!Case()) return;
  Desc("%s", sc.name.c_str());
  Count("traces");
  size_t T = sc.threads.size();
  // every serial order of the calls and the outcome the real code gives in it
  struct Serial { std::vector<std::pair<int, int>> order; Str outcome; };
  std::vector<Serial> serials;
  std::set<Str> outcomes;
  {
    std::vector<size_t> at(T, 0);
    std::vector<std::pair<int, int>> order;
    std::function<void()> rec = [&] {
      bool any = false;
      for (size_t t = 0; t < T; t++)
        if (at[t] < sc.threads[t].size()) {
          any = true;
          order.push_back({(int)t, (int)at[t]});
          at[t]++;
          rec();
          at[t]--;
          order.pop_back();
        }
      if (any) return;
      sched::Restore();
      std::unique_ptr<World> w(sc.make());
      std::vector<std::vector<Str>> r(T);
      for (auto& o : order) r[o.first].push_back(sc.threads[o.first][o.second].run(*w));
      Str s;
      for (auto& x : r) for (auto& y : x) s += y + "|";
      s += sc.probe(*w);
      serials.push_back({order, s});
      outcomes.insert(s);
      Count("serial_orders");
    };
    rec();
  }
  World* w = nullptr;
  std::vector<std::vector<Str*>> res(T);
  for (size_t t = 0; t < T; t++) res[t].resize(sc.threads[t].size(), nullptr);
  sched::Explorer ex;
  ex.setup = [&] { w = sc.make(); };
  ex.calls.resize(T);
  for (size_t t = 0; t < T; t++)
    for (size_t k = 0; k < sc.threads[t].size(); k++) ex.calls[t].push_back([&, t, k] { res[t][k] = new Str(sc.threads[t][k].run(*w)); });
  std::set<Str> seen;
  ex.finish = [&](const sched::Execution& e) {
    Beat();
    if (!e.error.empty() && e.error != "warm-up") {
      Fail("%s; schedule %s", e.error.c_str(), sched::ShowSchedule(e.schedule).c_str());
      return false;
    }
    Str s;
    for (auto& x : res) for (auto* y : x) { s += *y + "|"; delete y; }
    for (auto& x : res) for (auto*& y : x) y = nullptr;
    s += sc.probe(*w);
    delete w;
    w = nullptr;
    if (e.error == "warm-up") return true;
    St(sc.name + s);
    seen.insert(s);
    bool ok = false;
    if (outcomes.count(s))
      for (auto& o : serials) {
        if (o.outcome != s) continue;
        // an order that keeps calls that did not overlap in their real order
        bool fits = true;
        for (size_t i = 0; i < o.order.size() && fits; i++)
          for (size_t j = i + 1; j < o.order.size() && fits; j++) {
            auto &a = o.order[i], &b = o.order[j];
            if (e.calls[b.first][b.second].end < e.calls[a.first][a.second].begin) fits = false;
          }
        if (fits) { ok = true; break; }
      }
    if (!ok) { Fail("no serial order of the calls gives these results; schedule %s: %s", sched::ShowSchedule(e.schedule).c_str(), s.c_str()); return false; }
    return true;
  };
  ex.max_executions = Thorough() ? 2000000 : 200000;
  ex.Run();
  Count("schedules", ex.executions);
  Count("transitions", ex.steps);
  Count("accesses_checked", ex.accesses);
  if (ex.complete) Count("scenarios_complete"); else Count("cut_off");
  // The reduction is checked where that is affordable: every schedule, no reduction, same outcomes.
  if (ex.complete && !sc.disjoint && S().fails.empty()) {
    std::set<Str> reduced = seen;
    seen.clear();
    sched::Explorer all = ex;
    all.full = true;
    all.complete = false;
    all.executions = all.steps = all.accesses = 0;
    all.max_executions = Thorough() ? 300000 : 6000;
    all.Run();
    if (all.complete) {
      Count("scenarios_checked_without_reduction");
      Count("schedules_without_reduction", all.executions);
      if (seen != reduced && S().fails.empty()) { fprintf(stderr, "harness: the reduction lost outcomes of %s\n", sc.name.c_str()); exit(2); }
    }
    seen = reduced;
  }

  Outcome(F("%s: %zu outcomes", sc.name.c_str(), seen.size()));
}

// Letters name calls; a thread is a string of letters.
typedef std::function<CallSpec(char, int)> Letter;  // (letter, how often this thread used it before)
static Scenario Make(const Str& what, const std::vector<Str>& threads, const std::function<World*()>& make, const Letter& l, const std::function<Str(World&)>& probe) {
  Scenario s;
  s.name = what + " ";
  for (auto& t : threads) s.name += (&t == &threads[0] ? "" : "|") + t;
  s.make = make;
  s.probe = probe;
  for (auto& t : threads) {
    std::vector<CallSpec> c;
    std::map<char, int> n;
    for (char x : t) c.push_back(l(x, n[x]++));
    s.threads.push_back(c);
  }
  return s;
}

// ------------------------------------------------------------- half connection
struct HalfW : World { std::unique_ptr<S2AHalfConnection> c; };
static Str HalfEnc(World& w, size_t n, uint8_t fill) {
  Bytes aad(5, 1), pt(n, fill), out(n + 16, 0);
  std::vector<Iovec> a = {{aad.data(), 5}}, p = {{pt.data(), n / 2}, {pt.data() + n / 2, n - n / 2}};
  auto s = static_cast<HalfW&>(w).c->Encrypt(a, p, {out.data(), out.size()});
  return F("%d,", (int)s.GetStatus().ok()) + Digest(out.data(), s.GetBytesWritten());
}
static Str HalfDec(World& w, const Bytes& ct) {
  Bytes aad(5, 1), c = ct, out(ct.size() - 16, 0);
  std::vector<Iovec> a = {{aad.data(), 5}}, p = {{c.data(), c.size()}};
  auto s = static_cast<HalfW&>(w).c->Decrypt(a, p, {out.data(), out.size()});
  return F("%d,", (int)s.GetStatus().ok()) + Digest(out.data(), s.GetBytesWritten());
}
static void HalfScenarios() {
  Section("conc_half");
  for (Aead a : {ref::AES128, ref::CHACHA}) {
    Stream st(a, Secret(a, 1));
    std::vector<std::vector<Bytes>> ct;  // by generation and sequence number
    for (int g = 0; g < 3; g++) { ct.emplace_back(); for (int s = 0; s < 4; s++) ct[g].push_back(st.Seal(g, s, Bytes(5, 1), Bytes(6, 9))); }
    Bytes sec = Secret(a, 1);
    auto make = [&]() -> World* { auto* w = new HalfW; auto r = S2AHalfConnection::Create(CS(a), 0, sec); w->c = std::move(absl::get<1>(r)); return w; };
    auto letter = [&](char x, int n) -> CallSpec {
      switch (x) {
        case 'E': return {"encrypt", [](World& w) { return HalfEnc(w, 6, 3); }};
        case 'F': return {"encrypt other", [](World& w) { return HalfEnc(w, 17, 4); }};
        case 'D': return {"decrypt", [&ct, n](World& w) { return HalfDec(w, ct[0][n]); }};
        case 'G': return {"decrypt next generation", [&ct, n](World& w) { return HalfDec(w, ct[1][n]); }};
        case 'U': return {"update", [](World& w) { return F("%d", (int)static_cast<HalfW&>(w).c->UpdateKey().ok()); }};
        default: return {"tag length", [](World& w) { return F("%zu", static_cast<HalfW&>(w).c->TagLength()); }};
      }
    };
    auto probe = [&](World& w) { return HalfEnc(w, 6, 3); };
    std::vector<std::vector<Str>> sets = {{"EE", "FF"}, {"E", "U"}, {"EUE", "FUF"}, {"EE", "U", "T"}, {"E", "F", "U"}, {"DD", "U"}, {"D", "G", "U"}, {"ED", "TU"}, {"E", "F", "U", "T"}, {"EF", "FE", "U"}, {"UU", "UT", "E"}, {"EEE", "FFF"}};
    sets.insert(sets.end(), {{"EFE", "FEF", "U"}, {"EE", "FF", "UU"}, {"EEEE", "FUFU"}, {"DDU", "GG", "U"}, {"EE", "FF", "U", "T"}});
    if (Thorough()) sets.insert(sets.end(), {{"EU", "FU", "TT", "E"}, {"EEEEE", "FUFUF"}, {"EFU", "FUE", "EU"}, {"EE", "FF", "UU", "TT"}});
    for (auto& s : sets) RunScenario(Make(F("half connection %s", N(a)), s, make, letter, probe));
  }
}

// ------------------------------------------------------------- record protocol
struct ConnW : World {
  std::unique_ptr<S2ACrypter> c;
  std::vector<Str> sent;
};
static bool WaitTicket() { return true; }
static s2a::s2a_ticket_sender::WaitOnTicketSender TicketSender(s2a::s2a_ticket_sender::TicketSenderOptions& o) { return WaitTicket; }
static World* MakeConn(Aead a, const Bytes& in, const Bytes& out) {
  auto* w = new ConnW;
  auto r = S2ACrypter::Create(Opt::TlsVersion::TLS1_3, CS(a), 9, "url", Opt::Identity::FromSpiffeId("x"), in, out, 0, 0, TicketSender, nullptr, nullptr, [](const std::string&) {});
  w->c = std::move(absl::get<1>(r));
  return w;
}
static Str ConnProtect(S2ACrypter* c, size_t n, uint8_t fill) {
  Bytes pt(n, fill), out(n + 22, 0);
  std::vector<Iovec> p = {{pt.data(), n / 2}, {pt.data() + n / 2, n - n / 2}};
  auto s = c->Protect(RT::APPLICATION_DATA, p, {out.data(), out.size()});
  return F("%d,", (int)s.GetCode()) + Digest(out.data(), s.GetBytesWritten());
}
static Str ConnUnprotect(S2ACrypter* c, const Bytes& rec) {
  Bytes r = rec, out(rec.size(), 0);
  std::vector<Iovec> p = {{r.data() + 5, r.size() - 5}};
  auto s = c->Unprotect({r.data(), 5}, p, {out.data(), out.size() - 21});
  return F("%d,", (int)s.GetCode()) + Digest(out.data(), s.GetBytesWritten());
}
// The records of one inbound script: d data, k key update, t ticket, a alert, c close, x forged.
static std::vector<Bytes> Inbound(Stream* st, const Str& script) {
  std::vector<Bytes> v;
  size_t g = 0;
  uint64_t s = 0;
  for (char x : script) {
    Bytes body = x == 'k' ? kKu : x == 't' ? Msg(4, 11, 2) : x == 'a' ? Bytes{2, 40} : x == 'c' ? Bytes{1, 0} : ref::Pattern(8, 4);
    Bytes r = st->Rec(g, s, x == 'k' || x == 't' ? 0x16 : x == 'a' || x == 'c' ? 0x15 : 0x17, body);
    if (x == 'x') r[r.size() - 3] ^= 1;
    v.push_back(r);
    s++;
    if (x == 'k') { g++; s = 0; }
  }
  return v;
}
static void ConnScenarios() {
  Section("conc_record");
  for (Aead a : {ref::AES128, ref::CHACHA, ref::AES256}) {
    Stream in(a, Secret(a, 1)), out(a, Secret(a, 2));
    Bytes si = Secret(a, 1), so = Secret(a, 2);
    auto make = [&]() -> World* { return MakeConn(a, si, so); };
    auto run = [&](const std::vector<Str>& th) {
      // the receiving thread is the one with lower-case letters
      Str script;
      for (auto& t : th) for (char x : t) if (islower(x)) script += x;
      std::vector<Bytes> recs = Inbound(&in, script + "d");
      int at = 0;
      auto letter = [&](char x, int) -> CallSpec {
        if (islower(x)) { const Bytes* r = &recs[at++]; return {"unprotect", [r](World& w) { return ConnUnprotect(static_cast<ConnW&>(w).c.get(), *r); }}; }
        switch (x) {
          case 'P': return {"protect", [](World& w) { return ConnProtect(static_cast<ConnW&>(w).c.get(), 7, 1); }};
          case 'Q': return {"protect other", [](World& w) { return ConnProtect(static_cast<ConnW&>(w).c.get(), 20, 2); }};
          case 'U': return {"update outbound key", [](World& w) { return F("%d", (int)static_cast<ConnW&>(w).c->UpdateOutboundKey().ok()); }};
          default: return {"overhead", [](World& w) { return F("%zu", static_cast<ConnW&>(w).c->RecordOverhead()); }};
        }
      };
      auto probe = [&](World& w) { ConnW& c = static_cast<ConnW&>(w); return ConnProtect(c.c.get(), 7, 1) + ConnUnprotect(c.c.get(), recs.back()); };
      RunScenario(Make(F("record protocol %s", N(a)), th, make, letter, probe));
    };
    std::vector<std::vector<Str>> sets = {{"P", "d"}, {"PP", "dd"}, {"P", "k"}, {"PP", "kd"}, {"P", "Q", "k"}, {"PU", "kd"}, {"P", "U", "k"}, {"O", "kk"}, {"P", "td"}, {"P", "ac"}, {"PQ", "U", "d"}, {"P", "xd"}, {"P", "Q", "U"}, {"O", "U", "d"}};
    if (a == ref::AES256) sets = {{"P", "k"}, {"P", "U", "d"}};
    if (a != ref::AES256 || Thorough()) sets.insert(sets.end(), {{"PPP", "dkd"}, {"PUP", "kdk"}, {"PQ", "U", "kd"}, {"P", "U", "k", "O"}, {"PP", "tktd"}, {"PPU", "kkk"}});
    if (Thorough()) sets.insert(sets.end(), {{"PP", "QQ", "U"}, {"PPPP", "dkdkd"}, {"PQ", "UU", "kdk"}, {"PU", "QU", "k"}, {"PP", "U", "kk", "O"}});
    for (auto& s : sets) run(s);
  }
}

// ------------------------------------------------------------- frame protector
struct FrameW : World {
  std::string url = "s2a";
  Opt::Identity id = Opt::Identity::FromSpiffeId("x");
  std::unique_ptr<S2AFrameProtector> p;
};
static World* MakeFrame(Aead a, const Bytes& in, const Bytes& out) {
  auto* w = new FrameW;
  S2AFrameProtector::S2AFrameProtectorOptions opt = {Opt::TlsVersion::TLS1_3, CS(a), in, out, 0, 0, w->url, w->id, 5, nullptr, nullptr,
                                                     [](size_t n) { return Iovec{new uint8_t[n ? n : 1], n}; }, [](Iovec v) { delete[] (uint8_t*)v.iov_base; }, [](const std::string&) {}};
  auto r = S2AFrameProtector::Create(opt);
  w->p = std::move(*r);
  return w;
}
static Str Take(S2AFrameProtector::Result& r) {
  Str s = F("%d,", (int)r.status.code());
  for (auto& v : r.bytes) { s += Digest((uint8_t*)v.iov_base, v.iov_len) + ","; delete[] (uint8_t*)v.iov_base; }
  return s;
}
static Str FrameProtect(S2AFrameProtector* p, size_t n, uint8_t fill, bool into) {
  Bytes pt(n, fill);
  std::vector<Iovec> v = {{pt.data(), n}};
  if (!into) { auto r = p->Protect(v); return Take(r); }
  Bytes out(p->NumberBytesToProtect(v), 0);
  Iovec iv = {out.data(), out.size()};
  absl::Status s = p->Protect(v, iv);
  return F("%d,", (int)s.code()) + (s.ok() ? Digest(out.data(), out.size()) : "");
}
static Str FrameUnprotect(S2AFrameProtector* p, const Bytes& rec, bool into) {
  Bytes r = rec;
  std::vector<Iovec> v = {{r.data(), r.size()}};
  if (!into) { auto x = p->Unprotect(v); return Take(x); }
  Bytes out(rec.size(), 0);
  Iovec iv = {out.data(), p->NumberBytesToUnprotect(v)};
  absl::Status s = p->Unprotect(v, iv);
  return F("%d,", (int)s.code()) + (s.ok() ? Digest(out.data(), iv.iov_len) : "");
}
static void FrameScenarios() {
  Section("conc_frame");
  for (Aead a : {ref::AES128, ref::CHACHA}) {
    Stream in(a, Secret(a, 1)), out(a, Secret(a, 2));
    Bytes si = Secret(a, 1), so = Secret(a, 2);
    auto make = [&]() -> World* { return MakeFrame(a, si, so); };
    // Upper case: sending.  P, Q: Protect; R: into a given buffer; L: two records; N: size.
    // Lower case: one received record per letter.  D, K: two received records in one call.
    auto run = [&](const std::vector<Str>& th, bool into) {
      Str script;
      for (auto& t : th) for (char x : t) if (islower(x)) script += x; else if (x == 'D') script += "dd"; else if (x == 'K') script += "kd";
      std::vector<Bytes> recs = Inbound(&in, script + "d");
      int at = 0;
      auto letter = [&](char x, int) -> CallSpec {
        if (islower(x)) { const Bytes* r = &recs[at++]; return {"unprotect", [r, into](World& w) { return FrameUnprotect(static_cast<FrameW&>(w).p.get(), *r, into); }}; }
        if (x == 'D' || x == 'K') { Bytes two = recs[at] + recs[at + 1]; at += 2; return {"unprotect two", [two](World& w) { return FrameUnprotect(static_cast<FrameW&>(w).p.get(), two, false); }}; }
        switch (x) {
          case 'P': return {"protect", [](World& w) { return FrameProtect(static_cast<FrameW&>(w).p.get(), 7, 1, false); }};
          case 'R': return {"protect into", [](World& w) { return FrameProtect(static_cast<FrameW&>(w).p.get(), 8, 3, true); }};
          case 'L': return {"protect two records", [](World& w) { return FrameProtect(static_cast<FrameW&>(w).p.get(), 16384 + 3, 2, false); }};
          default: return {"size", [](World& w) { return F("%zu", static_cast<FrameW&>(w).p->NumberBytesToProtect(100)); }};
        }
      };
      auto probe = [&](World& w) { FrameW& f = static_cast<FrameW&>(w); return FrameProtect(f.p.get(), 7, 1, false) + FrameUnprotect(f.p.get(), recs.back(), false); };
      RunScenario(Make(F("frame protector %s%s", N(a), into ? " (single records)" : ""), th, make, letter, probe));
    };
    std::vector<std::vector<Str>> sets = {{"P", "d"}, {"P", "k"}, {"PR", "d"}, {"N", "k"}, {"P", "td"}, {"P", "x"}};
    sets.insert(sets.end(), {{"PP", "kd"}, {"PR", "dk"}, {"P", "N", "k"}});
    if (Thorough()) sets.insert(sets.end(), {{"PRP", "dkd"}, {"P", "N", "kdk"}, {"PP", "tdkd"}});
    for (auto& s : sets) { run(s, false); run(s, true); }
    run({"P", "R"}, false);
    for (auto& s : std::vector<std::vector<Str>>{{"D", "d"}, {"d", "d"}, {"K", "d"}, {"k", "d"}, {"P", "D"}, {"P", "K"}}) run(s, false);
    if (Thorough()) { run({"D", "K"}, false); run({"P", "d", "k"}, false); run({"PP", "KD"}, false); }
    if (a == ref::AES128 || Thorough()) run({"L", "P"}, false);
    run({"P", "R", "d"}, false);
    run({"PP", "R"}, false);
    if (Thorough()) { run({"L", "L"}, false); run({"PR", "PR"}, false); run({"P", "R", "kd"}, false); }
  }
}

// ------------------------------------------------------------- different connections
struct TwoW : World { std::unique_ptr<World> x, y; };
// Two threads, each with an object of its own and with the same kinds of calls: nothing
// is shared, so nothing may race and each thread gets what it gets alone.
static void Separate(const Str& name, const std::function<World*(int)>& make, const std::function<std::vector<CallSpec>(int)>& calls) {
  Scenario sc;
  sc.name = "separate: " + name;
  sc.disjoint = true;
  sc.make = [make]() -> World* { auto* w = new TwoW; w->x.reset(make(0)); w->y.reset(make(1)); return w; };
  for (int k = 0; k < 2; k++) {
    std::vector<CallSpec> c;
    for (auto& x : calls(k)) { auto run = x.run; c.push_back({x.name, [run, k](World& w) { TwoW& t = static_cast<TwoW&>(w); return run(k ? *t.y : *t.x); }}); }
    // one call, so that the serial orders are few
    c = {{sc.name, [c](World& w) { Str s; for (auto& x : c) s += x.run(w) + ";"; return s; }}};
    sc.threads.push_back(c);
  }
  sc.probe = [](World&) { return Str(); };
  RunScenario(sc);
}
struct AeadW : World { std::unique_ptr<s2a::aead_crypter::S2AAeadCrypter> c; };
static Str Crypt(World& w, bool seal, size_t nonce, const Bytes& aad, const Bytes& data, int room) {
  auto* c = static_cast<AeadW&>(w).c.get();
  Bytes d = data, ad = aad, out(data.size() + 64, 0);
  std::vector<Iovec> a = {{ad.data(), ad.size()}}, p = {{d.data(), d.size() / 3}, {d.data() + d.size() / 3, d.size() - d.size() / 3}};
  size_t n = data.size() + (seal ? 16 : -16) + room;
  Iovec o = {out.data(), n};
  Bytes nn = ref::Pattern(nonce, 3);
  auto s = seal ? c->Encrypt(nn, a, p, o) : c->Decrypt(nn, a, p, o);
  return F("%d,", (int)s.GetStatus().code()) + Str(s.GetStatus().message()) + Digest(out.data(), s.GetStatus().ok() ? s.GetBytesWritten() : 0);
}
static Str ConnRaw(S2ACrypter* c, Bytes hd, Bytes body, size_t room) {
  Bytes out(room + 1, 0);
  std::vector<Iovec> p = {{body.data(), body.size() / 2}, {body.data() + body.size() / 2, body.size() - body.size() / 2}};
  auto s = c->Unprotect({hd.data(), hd.size()}, p, {out.data(), room});
  return F("%d,", (int)s.GetCode()) + Digest(out.data(), s.GetBytesWritten()) + s.GetErrorMessage();
}
static Str ConnRec(S2ACrypter* c, const Bytes& r, size_t room) { return ConnRaw(c, Bytes(r.begin(), r.begin() + 5), Bytes(r.begin() + 5, r.end()), room); }

static void SeparateMore(Aead a) {
  static Stream* sin[3][2];
  for (int k = 0; k < 2; k++) if (!sin[a][k]) sin[a][k] = new Stream(a, Secret(a, 1 + 2 * k));
  auto in = [a](int k) { return sin[a][k]; };
  auto conn = [a](int k) { return MakeConn(a, Secret(a, 1 + 2 * k), Secret(a, 2 + 2 * k)); };
  auto frame = [a](int k) { return MakeFrame(a, Secret(a, 1 + 2 * k), Secret(a, 2 + 2 * k)); };
  auto C = [](World& w) { return static_cast<ConnW&>(w).c.get(); };
  auto P = [](World& w) { return static_cast<FrameW&>(w).p.get(); };
  // the AEAD itself, good and bad calls
  Separate(F("AEAD %s", N(a)), [a](int k) -> World* {
    auto* w = new AeadW;
    Bytes key = ref::Pattern(a == ref::AES128 ? 16 : 32, 7 + k);
    auto r = a == ref::CHACHA ? s2a::aead_crypter::CreateChachaPolyAeadCrypter(key) : s2a::aead_crypter::CreateAesGcmAeadCrypter(key);
    w->c = std::move(absl::get<1>(r));
    return w;
  }, [a](int k) {
    std::vector<CallSpec> c;
    Bytes key = ref::Pattern(a == ref::AES128 ? 16 : 32, 7 + k), aad = ref::Pattern(13, k), nonce = ref::Pattern(12, 3);
    for (size_t n : {0, 1, 40, 300, 5000, 16385}) {
      Bytes pt = ref::Pattern(n, n + k), ct = ref::Seal(a, key, nonce, aad, pt), bad = ct;
      bad[bad.size() - 1] ^= 1;
      c.push_back({"", [=](World& w) { return Crypt(w, true, 12, aad, pt, 0) + Crypt(w, false, 12, aad, ct, 0) + Crypt(w, false, 12, aad, bad, 0) + Crypt(w, true, 12, Bytes(), pt, 5); }});
    }
    Bytes pt = ref::Pattern(20, k), ct = ref::Seal(a, key, nonce, aad, pt);
    c.push_back({"", [=](World& w) { return Crypt(w, true, 11, aad, pt, 0) + Crypt(w, false, 13, aad, ct, 0) + Crypt(w, true, 12, aad, pt, -1) + Crypt(w, false, 12, aad, ct, -1) + Crypt(w, true, 12, Bytes(5000, 2), pt, 0); }});
    c.push_back({"", [=](World& w) { auto* c = static_cast<AeadW&>(w).c.get(); return F("%zu %zu %zu %zu %zu", c->MaxPlaintextLength(50 + k), c->MaxCiphertextAndTagLength(30 + k), c->KeyLength(), c->NonceLength(), c->TagLength()); }});
    c.push_back({"", [=](World&) {
      Str s;
      for (size_t n : {0, 15, 16, 31, 32, 33}) {
        auto x = s2a::aead_crypter::CreateAesGcmAeadCrypter(ref::Pattern(n, k)), y = s2a::aead_crypter::CreateChachaPolyAeadCrypter(ref::Pattern(n, k));
        s += F("%d%d,", (int)x.index(), (int)y.index());
      }
      return s;
    }});
    return c;
  });
  // half connections
  Separate(F("half connection %s", N(a)), [a](int k) -> World* { auto* w = new HalfW; auto r = S2AHalfConnection::Create(CS(a), k, Secret(a, k)); w->c = std::move(absl::get<1>(r)); return w; }, [a](int k) {
    std::vector<CallSpec> c;
    c.push_back({"", [=](World& w) { return HalfEnc(w, 5, k) + HalfEnc(w, 5000, k) + HalfEnc(w, 16385, k) + F("%d", (int)static_cast<HalfW&>(w).c->UpdateKey().ok()) + HalfEnc(w, 0, k) + HalfDec(w, ref::Pattern(30, k)); }});
    c.push_back({"", [=](World& w) {
      auto* h = static_cast<HalfW&>(w).c.get();
      Bytes pt(9, k), out(40, 0);
      std::vector<Iovec> none, p = {{pt.data(), 9}};
      Str s = Str(h->Encrypt(none, p, {out.data(), 24}).GetStatus().message()) + Str(h->Decrypt(none, p, {out.data(), 24}).GetStatus().message());
      for (size_t n : {0, 31, 32, 47, 48, 49}) for (uint64_t q : {(uint64_t)0, (uint64_t)-1}) {
        auto r = S2AHalfConnection::Create(CS(a), q, Bytes(n, k));
        s += F("%d", (int)r.index());
        if (r.index() == 1) { auto e = absl::get<1>(r)->Encrypt(none, p, {out.data(), 25}); s += Str(e.GetStatus().message()); auto f = absl::get<1>(r)->Encrypt(none, p, {out.data(), 25}); s += Str(f.GetStatus().message()); }
      }
      return s;
    }});
    return c;
  });
  // what arrives: every kind of record, good and bad, on the record protocol and the frame protector
  struct Kind { const char* name; uint8_t type; std::vector<Bytes> bodies; int twist; };
  Bytes five;
  for (int i = 0; i < 5; i++) five = five + Msg(4, 9 + i, i);
  Bytes half(five.begin(), five.begin() + 31), rest(five.begin() + 31, five.end());
  std::vector<Kind> kinds = {
      {"data", 0x17, {ref::Pattern(20, 1), Bytes(), ref::Pattern(5000, 2), ref::Pattern(16384, 3)}, 0},
      {"key updates", 0x16, {kKu, kKu1, kKu, kKu1}, 10},
      {"tickets", 0x16, {Msg(4, 11, 1), Msg(4, 5000, 2), Msg(4, 0, 2), Msg(4, 16000, 2)}, 0},
      {"five tickets", 0x16, {five, five}, 0},
      {"split tickets", 0x16, {half, rest, half, rest}, 0},
      {"ticket and key update", 0x16, {Msg(4, 9, 1) + kKu}, 11},
      {"split key update", 0x16, {Bytes{0x18, 0}, Bytes{0, 1, 0}}, 11},
      {"unknown message", 0x16, {Msg(8, 9, 1)}, 0},
      {"bad key update", 0x16, {Bytes{0x18, 0, 0, 1, 2}}, 0},
      {"oversize ticket", 0x16, {Bytes{4, 2, 0, 0, 9}}, 0},
      {"alert", 0x15, {Bytes{2, 40}}, 0},
      {"bad alert", 0x15, {Bytes{2, 40, 0}}, 0},
      {"close", 0x15, {Bytes{1, 0}, Bytes{1, 0}}, 0},
      {"unknown type", 0x14, {Bytes{1}}, 0},
      {"no type", 0, {Bytes()}, 0},
      {"forged", 0x17, {ref::Pattern(20, 1), ref::Pattern(5000, 1)}, 1},
      {"too small output", 0x17, {ref::Pattern(20, 1)}, 2},
      {"bad version", 0x17, {ref::Pattern(20, 1)}, 3},
      {"bad header type", 0x17, {ref::Pattern(20, 1)}, 4},
      {"length mismatch", 0x17, {ref::Pattern(20, 1)}, 5},
      {"short header", 0x17, {ref::Pattern(20, 1)}, 6},
      {"oversize record", 0x17, {ref::Pattern(16385, 1)}, 0},
      {"oversize inside", 0x17, {ref::Pattern(16640, 1)}, 0},
      {"short payload", 0x17, {}, 7},
  };
  for (auto& kd : kinds) {
    auto records = [=](int k) {
      std::vector<Bytes> v;
      size_t g = 0;
      uint64_t s = 0;
      for (auto& b : kd.bodies) {
        Bytes r = in(k)->Rec(g, s++, kd.type, b);
        if (kd.twist == 1) r[r.size() - 1] ^= 1;
        if (kd.twist == 3) r[1] = 2;
        if (kd.twist == 4) r[0] = 0x16;
        if (kd.twist == 5) r[4]++;
        v.push_back(r);
        if (kd.twist == 10 || (kd.twist == 11 && v.size() == kd.bodies.size())) { g++; s = 0; }
      }
      if (kd.twist == 7) v.push_back(Bytes{0x17, 3, 3, 0, 9, 1, 2, 3, 4, 5, 6, 7, 8, 9});
      else v.push_back(in(k)->Rec(g, s, 0x17, ref::Pattern(3, k)));
      return v;
    };
    Separate(F("record protocol %s, %s", N(a), kd.name), conn, [=](int k) {
      std::vector<CallSpec> c;
      for (auto& r : records(k)) c.push_back({"", [=](World& w) {
        if (kd.twist == 6) return ConnRaw(C(w), Bytes(r.begin(), r.begin() + 4), Bytes(r.begin() + 5, r.end()), r.size());
        return ConnRec(C(w), r, r.size() < 24 ? r.size() : kd.twist == 2 ? r.size() - 24 : r.size() - 21);
      }});
      c.push_back({"", [=](World& w) { return ConnProtect(C(w), 5, k); }});
      return c;
    });
    for (int into = 0; into < 2; into++)
      Separate(F("frame protector %s, %s%s", N(a), kd.name, into ? " (single records)" : ""), frame, [=](int k) {
        std::vector<CallSpec> c;
        for (auto& r : records(k)) c.push_back({"", [=](World& w) { return FrameUnprotect(P(w), r, into); }});
        c.push_back({"", [=](World& w) { return FrameProtect(P(w), 5, k, into); }});
        return c;
      });
  }
  // what is sent
  Separate(F("record protocol %s, sending", N(a)), conn, [=](int k) {
    return std::vector<CallSpec>{{"", [=](World& w) {
      Bytes pt(30, k), out(70, 0);
      std::vector<Iovec> p = {{pt.data(), 30}}, big = {{pt.data(), 30}, {nullptr, 16384}};
      auto s = C(w)->Protect(RT::APPLICATION_DATA, p, {out.data(), 51});
      auto t = C(w)->Protect(RT::APPLICATION_DATA, p, {out.data(), 50});
      auto u = C(w)->Protect(RT::HANDSHAKE, p, {out.data(), 52});
      auto v = C(w)->Protect(RT::APPLICATION_DATA, big, {out.data(), 52});
      return ConnProtect(C(w), 0, k) + ConnProtect(C(w), 300, k) + ConnProtect(C(w), 5000, k) + ConnProtect(C(w), 16384, k) + s.GetErrorMessage() + t.GetErrorMessage() + u.GetErrorMessage() + v.GetErrorMessage() + F("%d %zu", (int)C(w)->UpdateOutboundKey().ok(), C(w)->RecordOverhead()) + ConnProtect(C(w), 4, k);
    }}};
  });
  Separate(F("frame protector %s, sending", N(a)), frame, [=](int k) {
    return std::vector<CallSpec>{{"", [=](World& w) {
      Str s;
      for (size_t n : {0, 1, 5000, 16384, 16385, 40000}) s += FrameProtect(P(w), n, k, false) + FrameProtect(P(w), n, k, true) + F("%zu", P(w)->NumberBytesToProtect(n));
      Bytes pt(30, k), out(70, 0);
      std::vector<Iovec> p = {{pt.data(), 30}};
      Iovec small = {out.data(), 51};
      s += P(w)->Protect(p, small).ToString() + P(w)->Protect(p, small).ToString();
      return s;
    }}};
  });
  // several records in one call, incomplete ones, and bad headers between good ones
  Separate(F("frame protector %s, streams", N(a)), frame, [=](int k) {
    std::vector<CallSpec> c;
    Bytes r[8];
    for (int i = 0; i < 8; i++) r[i] = in(k)->Rec(0, i, 0x17, ref::Pattern(i == 3 ? 5000 : 5 + i, i));
    Bytes part(r[3].begin(), r[3].begin() + 100), tail(r[3].begin() + 100, r[3].end()), cut(r[6].begin(), r[6].begin() + 3), cut2(r[6].begin() + 3, r[6].end()), bad = r[7];
    bad[1] = 9;
    for (const Bytes& x : {r[0] + r[1], r[2] + part, tail, Bytes(), r[4] + r[5] + cut, cut2 + bad, r[7]}) c.push_back({"", [=](World& w) { return FrameUnprotect(P(w), x, false); }});
    return c;
  });
  // creation that fails
  Separate(F("refused creation %s", N(a)), [](int) { return new World; }, [=](int k) {
    return std::vector<CallSpec>{{"", [=](World&) {
      Str s;
      for (int v = 0; v < 4; v++)
        for (size_t n : {(size_t)0, SecretLen(a) - 1, SecretLen(a)}) {
          auto r = S2ACrypter::Create(v == 1 ? Opt::TlsVersion::TLS1_2 : Opt::TlsVersion::TLS1_3, v == 2 ? Opt::Ciphersuite(99) : CS(a), 9, "url", Opt::Identity::FromSpiffeId("x"), Bytes(n, k), Bytes(v == 3 ? 1 : n, k), 0, 0, TicketSender, nullptr, nullptr, [](const std::string&) {});
          s += r.index() == 0 ? absl::get<0>(r).ToString() : Str("made");
        }
      return s;
    }}};
  });
}

static void SeparateScenarios() {
  Section("conc_separate");
  for (Aead a : {ref::AES128, ref::CHACHA}) {
    Stream in(a, Secret(a, 1)), in2(a, Secret(a, 3));
    Bytes s1 = Secret(a, 1), s2 = Secret(a, 2), s3 = Secret(a, 3), s4 = Secret(a, 4);
    std::vector<Bytes> r1 = Inbound(&in, "tkd"), r2 = Inbound(&in2, "tkd");
    // thread A works on one connection, thread B on another
    auto make = [&]() -> World* { auto* w = new TwoW; w->x.reset(MakeFrame(a, s1, s2)); w->y.reset(MakeFrame(a, s3, s4)); return w; };
    Scenario sc;
    sc.name = F("two frame protectors %s", N(a));
    sc.make = make;
    for (int k = 0; k < 2; k++) {
      std::vector<CallSpec> c;
      auto fp = [k](World& w) { TwoW& t = static_cast<TwoW&>(w); return static_cast<FrameW&>(k ? *t.y : *t.x).p.get(); };
      c.push_back({"protect", [fp](World& w) { return FrameProtect(fp(w), 9, 1, false); }});
      Bytes all = k ? r2[0] + r2[1] + r2[2] : r1[0] + r1[1] + r1[2];
      c.push_back({"unprotect", [fp, all](World& w) { return FrameUnprotect(fp(w), all, false); }});
      c.push_back({"protect empty", [fp](World& w) { return FrameProtect(fp(w), 0, 1, true); }});
      sc.threads.push_back(c);
    }
    sc.probe = [](World&) { return Str(); };
    RunScenario(sc);
    // creation in both threads, an outbound key update in both
    Scenario s2c;
    s2c.name = F("two record protocols created concurrently %s", N(a));
    s2c.make = []() -> World* { return new TwoW; };
    for (int k = 0; k < 2; k++) {
      Bytes i = k ? s3 : s1, o = k ? s4 : s2, rec = k ? r2[0] : r1[0];
      std::vector<CallSpec> c;
      c.push_back({"create", [k, a, i, o](World& w) { TwoW& t = static_cast<TwoW&>(w); (k ? t.y : t.x).reset(MakeConn(a, i, o)); return Str("made"); }});
      c.push_back({"use", [k, rec](World& w) {
        TwoW& t = static_cast<TwoW&>(w);
        S2ACrypter* c = static_cast<ConnW&>(k ? *t.y : *t.x).c.get();
        return ConnProtect(c, 5, 1) + F("%d", (int)c->UpdateOutboundKey().ok()) + ConnProtect(c, 0, 1) + ConnUnprotect(c, rec);
      }});
      s2c.threads.push_back(c);
    }
    s2c.probe = [](World&) { return Str(); };
    RunScenario(s2c);
  }
  for (Aead a : kAll) SeparateMore(a);
  Scenario k;
  k.name = "key derivation";
  k.make = []() -> World* { return new World; };
  for (int t = 0; t < 2; t++) {
    Bytes prk = ref::Pattern(t ? 48 : 32, t), info = ref::Pattern(9 + t, t);
    k.threads.push_back({{"derive", [=](World&) {
      Bytes o(60, 0);
      absl::Status s = s2a::hkdf::HkdfDeriveSecret(t ? s2a::hkdf::HashFunction::SHA384_hash_function : s2a::hkdf::HashFunction::SHA256_hash_function, prk, info, o);
      return F("%d,", (int)s.ok()) + Digest(o.data(), o.size());
    }}});
  }
  k.probe = [](World&) { return Str(); };
  RunScenario(k);
}

// ------------------------------------------------------------- proxy
struct ConcManager : s2a::token_manager::AccessTokenManagerInterface {
  absl::StatusOr<std::string> GetDefaultToken() override { return std::string("default"); }
  absl::StatusOr<std::string> GetToken(const Opt::Identity& i) override { return "token for " + i.GetIdentityString(); }
  std::string DebugName() const override { return "verif"; }
};
struct ProxyW : World { std::unique_ptr<S2AProxy> p; };
static Str Buffer2(const s2a::s2a_proxy::S2AProxy::ProxyStatus& s) {
  return F("%d,%zu,", (int)s.status.code(), s.bytes_consumed) + (s.buffer ? Digest((const uint8_t*)s.buffer->data(), s.buffer->size()) : Str("-"));
}
static std::unique_ptr<std::vector<char>> Bytes2(const Str& s) { return std::unique_ptr<std::vector<char>>(new std::vector<char>(s.begin(), s.end())); }
static Str Result(uint64_t conn, const char* app) {
  using namespace pb;
  Str st = V0(1, 1) + V0(3, 2) + B0(5, Str(32, 'i')) + B0(6, Str(32, 'o')) + V0(9, conn);
  Str res = B0(1, app) + B(2, st) + B(4, B(1, "peer")) + B(5, B(2, "local")) + B0(6, "lfp") + B0(7, "pfp");
  return B0(2, "bytes") + B(4, res) + B(5, Str());
}
// Calls that read what a result stored.
static std::vector<std::vector<Str>> kExtra() { return {{"FG", "C"}, {"FG", "K"}, {"FK", "K"}, {"G", "FC", "K"}}; }
static void ProxyScenarios() {
  Section("conc_proxy");
  for (int client = 1; client >= 0; client--) {
    auto make = [client]() -> World* {
      auto* w = new ProxyW;
      S2AProxy::S2AProxyOptions o;
      o.logger = [](const std::string&) {};
      o.is_client = client;
      o.application_protocol = "grpc";
      o.target_hostname = "host";
      o.options.reset(new Opt);
      o.options->set_s2a_address("s2a:1");
      o.options->set_min_tls_version(Opt::TlsVersion::TLS1_3);
      o.options->set_max_tls_version(Opt::TlsVersion::TLS1_3);
      o.options->add_supported_ciphersuite(Opt::Ciphersuite::AES_128_GCM_SHA256);
      o.options->add_local_spiffe_id("me");
      o.token_manager.reset(new ConcManager);
      w->p = S2AProxy::Create(o);
      return w;
    };
    static const Str sel = pb::B(1, pb::B(2, "chosen")) + pb::B0(2, "frame") + pb::V0(3, 3) + pb::B(5, Str());
    static const Str fin = Result(7, "grpc"), fin2 = Result(8, "other");
    auto letter = [](char x, int) -> CallSpec {
      auto P = [](World& w) { return static_cast<ProxyW&>(w).p.get(); };
      switch (x) {
        case 'S': return {"start", [P](World& w) { return Buffer2(P(w)->GetBytesForS2A(Bytes2(""))); }};
        case 'N': return {"next", [P](World& w) { return Buffer2(P(w)->GetBytesForS2A(Bytes2("peer bytes"))); }};
        case 'R': return {"response", [P](World& w) { return Buffer2(P(w)->GetBytesForPeer(Bytes2(sel))); }};
        case 'F': return {"result", [P](World& w) { return Buffer2(P(w)->GetBytesForPeer(Bytes2(fin))); }};
        case 'G': return {"other result", [P](World& w) { return Buffer2(P(w)->GetBytesForPeer(Bytes2(fin2))); }};
        case 'I': return {"finished?", [P](World& w) { return F("%d", P(w)->IsHandshakeFinished()); }};
        case 'C': return {"context", [P](World& w) { auto r = P(w)->GetS2AContext(); return r.index() == 1 ? "app " + absl::get<1>(r)->ApplicationProtocol() : F("%d", (int)absl::get<0>(r).code()); }};
        default: return {"frame protector", [P](World& w) { auto r = P(w)->CreateFrameProtector(); return r.ok() ? FrameProtect(r->get(), 5, 1, false) : F("%d", (int)r.status().code()); }};
      }
    };
    auto probe = [](World& w) {
      S2AProxy* p = static_cast<ProxyW&>(w).p.get();
      Str s = Buffer2(p->GetBytesForS2A(Bytes2("x"))) + F("%d", p->IsHandshakeFinished());
      auto c = p->GetS2AContext();
      return s + (c.index() == 1 ? absl::get<1>(c)->ApplicationProtocol() : "");
    };
    std::vector<std::vector<Str>> sets = {{"S", "S"}, {"SN", "R"}, {"SN", "N"}, {"SR", "NF"}, {"F", "I"}, {"F", "C"}, {"F", "K"}, {"SRF", "IIC"}, {"F", "IK", "C"}, {"R", "F", "N"}, {"FK", "N"}, {"FC", "C"}, {"SF", "N", "I"}, {"SN", "RR"}, {"F", "CK", "IC"}};
    for (auto& s : kExtra()) sets.push_back(s);
    sets.insert(sets.end(), {{"SNN", "RF", "IC"}, {"S", "R", "F", "I"}, {"SR", "NF", "CK"}, {"FK", "CI", "NN"}});
    if (Thorough()) sets.insert(sets.end(), {{"SNN", "RFG", "ICK"}, {"SN", "RF", "GC", "I"}, {"SRNF", "CKIC"}, {"FGFG", "CKCK"}});
    for (auto& s : sets) RunScenario(Make(client ? "client proxy" : "server proxy", s, make, letter, probe));
  }
}

static Str ShowContext(const s2a::s2a_context::S2AContext& c) {
  auto r = c.GetSerializedContext();
  Str s = c.ApplicationProtocol() + F(",%d,%d,%d,", (int)c.TlsVersion(), (int)c.Ciphersuite(), c.IsHandshakeResumed()) + c.PeerIdentity().GetIdentityString() + c.LocalIdentity().GetIdentityString() + c.PeerCertFingerprint() + c.LocalCertFingerprint();
  return s + (r.index() == 1 ? Str(absl::get<1>(r)->begin(), absl::get<1>(r)->end()) : absl::get<0>(r).ToString());
}
static Str ShowOptions(const Opt& o) {
  Str s = o.s2a_address();
  std::multiset<Str> ids;  // the order of the identities is free
  for (auto& i : o.local_identities()) ids.insert(F("l%d:", (int)i.GetIdentityType()) + i.GetIdentityString());
  for (auto& i : o.target_identities()) ids.insert(F("t%d:", (int)i.GetIdentityType()) + i.GetIdentityString());
  for (auto& i : ids) s += i;
  for (auto i : o.supported_ciphersuites()) s += F(",%d", (int)i);
  return s + F(",%d,%d", (int)o.min_tls_version(), (int)o.max_tls_version());
}
static void SeparateProxies() {
  using namespace pb;
  Section("conc_separate_proxies");
  for (int client = 1; client >= 0; client--)
    for (int with = 0; with < 2; with++) {
      auto make = [client, with](int k) -> World* {
        auto* w = new ProxyW;
        S2AProxy::S2AProxyOptions o;
        o.logger = [](const std::string&) {};
        o.is_client = client;
        o.application_protocol = "grpc" + Str(30 * k, 'p');
        o.target_hostname = "host" + Str(30 * k, 'h');
        o.options.reset(new Opt);
        o.options->set_s2a_address("s2a:1");
        o.options->set_min_tls_version(Opt::TlsVersion::TLS1_3);
        o.options->set_max_tls_version(Opt::TlsVersion::TLS1_3);
        o.options->add_supported_ciphersuite(k ? Opt::Ciphersuite::AES_256_GCM_SHA384 : Opt::Ciphersuite::AES_128_GCM_SHA256);
        o.options->add_supported_ciphersuite(Opt::Ciphersuite::CHACHA20_POLY1305_SHA256);
        if (with) {
          o.options->add_local_spiffe_id("me, the local identity of this connection");
          o.options->add_local_hostname(k ? "two" : "one");
          o.options->add_local_uid("user");
          o.options->add_target_spiffe_id("target");
          o.options->add_target_hostname(Str(200, 'a' + k));
        }
        o.token_manager.reset(new ConcManager);
        w->p = S2AProxy::Create(o);
        return w;
      };
      struct Step { const char* name; Str in; };
      Str sel = B(1, B(2, "chosen")) + B0(2, "frame") + V0(3, 3) + B(5, Str()), big = B0(2, Str(5000, 'f')) + V0(3, 2000) + B(5, Str()), err = B(5, V(1, 3) + B(2, "details")), garbage = "\xff\xff";
      auto result = [](int k, int cs) {
        size_t n = cs == 1 ? 32 : cs == 2 ? 48 : 32;
        Str st = V0(1, 1) + V0(3, cs) + B0(5, Str(n, 'i' + k)) + B0(6, Str(n, 'o' + k)) + V0(9, 77 + k);
        return B0(2, "bytes") + B(4, B0(1, k ? "other" : "grpc") + B(2, st) + B(4, B(1 + k, "peer")) + B(5, B(2, "local")) + B0(6, "lfp") + B0(7, "pfp")) + B(5, Str());
      };
      // 0 start, 1 next, 2 response, 3 big response, 4 error, 5 garbage, 6.. result, 9 state
      for (const char* script : {"012919", "03119", "0495", "0519", "0269199", "0279", "02811", "69", "1", "29", "5", "06161"})
        Separate(F("%s proxy, %s%s", client ? "client" : "server", script, with ? " with identities" : ""), make, [=](int k) {
          auto P = [](World& w) { return static_cast<ProxyW&>(w).p.get(); };
          std::vector<CallSpec> c;
          for (const char* x = script; *x; x++) {
            Str in = *x == '2' ? sel : *x == '3' ? big : *x == '4' ? err : *x == '5' ? garbage : *x >= '6' && *x <= '8' ? result(k, *x - '6') : Str();
            int what = *x;
            c.push_back({"", [=](World& w) {
              if (what == '0' || what == '1') {
                auto r = P(w)->GetBytesForS2A(Bytes2(what == '1' ? Str(100 + 3000 * k, 'x') : client ? "" : "hello"));
                if (r.buffer) std::sort(r.buffer->begin(), r.buffer->end());  // the order of the identities is free
                return Buffer2(r);
              }
              if (what != '9') { auto r = P(w)->GetBytesForPeer(Bytes2(in)); return Buffer2(r) + Str(r.status.message()); }
              Str s = F("%d", P(w)->IsHandshakeFinished());
              auto x = P(w)->GetS2AContext();
              if (x.index() == 1) {
                s += ShowContext(*absl::get<1>(x));
                auto b = absl::get<1>(x)->GetSerializedContext();
                if (b.index() == 1) { auto y = s2a::s2a_context::GetS2AContextFromSerializedContext(absl::get<1>(b)->data(), absl::get<1>(b)->size()); s += y.ok() ? ShowContext(**y) : y.status().ToString(); }
              }
              auto f = P(w)->CreateFrameProtector();
              s += f.ok() ? FrameProtect(f->get(), 5, 1, false) : f.status().ToString();
              return s;
            }});
          }
          return c;
        });
    }
  auto none = [](int) { return new World; };
  Separate("contexts", none, [](int k) {
    return std::vector<CallSpec>{{"", [=](World&) {
      Str s;
      for (int i = 0; i < 4; i++) {
        Opt::Identity x = i == 0 ? Opt::Identity::FromSpiffeId("a spiffe id that is long enough") : i == 1 ? Opt::Identity::FromHostname("h") : i == 2 ? Opt::Identity::FromUid("u") : Opt::Identity::FromSpiffeId("");
        s2a::s2a_context::S2AContext c(Str(20 + 300 * k, 'a'), Opt::TlsVersion::TLS1_3, Opt::Ciphersuite::AES_256_GCM_SHA384, x, Opt::Identity::FromHostname("q"), Str(40, 'f' + k), "l", i & 1);
        s += ShowContext(c);
      }
      for (const Str& in : {Str("\xff"), Str(), B(1, "app"), B(1, "app") + V(2, 1) + V(3, 1) + B(4, B(1, "x")) + B(5, B(2, "y")) + B(6, "p") + B(7, "l") + V(8, 1), V(2, 99), V(3, 99)}) {
        auto y = s2a::s2a_context::GetS2AContextFromSerializedContext(in.data(), in.size());
        s += y.ok() ? ShowContext(**y) : y.status().ToString();
      }
      return s;
    }}};
  });
  Separate("options", none, [](int k) {
    return std::vector<CallSpec>{{"", [=](World&) {
      Opt o;
      Str s;
      o.set_s2a_address(Str(10 + 40 * k, 'z'));
      for (int i = 0; i < 5; i++) { o.add_local_spiffe_id(F("s%d", i)); o.add_local_hostname(F("h%d", i)); o.add_local_uid(Str(40, 'u')); o.add_target_spiffe_id(F("t%d", i)); o.add_target_hostname(F("th%d", i)); }
      o.add_supported_ciphersuite(Opt::Ciphersuite::AES_128_GCM_SHA256);
      o.set_min_tls_version(Opt::TlsVersion::TLS1_2);
      o.set_max_tls_version(Opt::TlsVersion::TLS1_3);
      auto c = o.Copy();
      s += ShowOptions(o) + ShowOptions(*c);
      c->add_local_uid("more");
      Opt::Identity i = Opt::Identity::FromSpiffeId("s"), j = Opt::Identity::FromHostname("s"), l = i;
      s += F("%d%d", i == j, i == l) + ShowOptions(*c) + i.GetIdentityString() + j.GetIdentityString();
      return s;
    }}};
  });
  Separate("ticket requests", none, [](int k) {
    return std::vector<CallSpec>{{"", [=](World&) {
      Str s;
      for (int n : {0, 1, 3, 20}) {
        upb::Arena arena;
        s2a_proto_SessionReq* req = s2a_proto_SessionReq_new(arena.ptr());
        std::unique_ptr<std::vector<std::unique_ptr<std::string>>> t;
        if (n != 20) t.reset(new std::vector<std::unique_ptr<std::string>>);
        if (t) for (int i = 0; i < n; i++) t->push_back(std::unique_ptr<std::string>(new std::string(Str(10 + 50 * i, 't' + k))));
        Opt::Identity id = Opt::Identity::FromHostname(k ? "me" : "you");
        s += F("%d", s2a::s2a_ticket_sender::PrepareResumptionTicketReq(5 + k, id, t, arena.ptr(), req));
        size_t len;
        char* b = s2a_proto_SessionReq_serialize(req, arena.ptr(), &len);
        s += Str(b ? b : "", b ? len : 0);
      }
      return s;
    }}};
  });
}

// ------------------------------------------------------------- token manager
struct TokenW : World { std::unique_ptr<s2a::token_manager::AccessTokenManagerInterface> m; };
static void TokenScenarios() {
  Section("conc_tokens");
  setenv("S2A_ACCESS_TOKEN", "a token long enough not to be stored inline in its string", 1);
  auto create = [] { auto r = s2a::token_manager::BuildAccessTokenManager(); return r.ok() ? std::move(*r) : nullptr; };
  auto letter = [&](char x, int) -> CallSpec {
    auto M = [](World& w) { return static_cast<TokenW&>(w).m.get(); };
    auto show = [](const absl::StatusOr<std::string>& s) { return s.ok() ? *s : F("%d", (int)s.status().code()); };
    switch (x) {
      case 'D': return {"default token", [=](World& w) { return show(M(w)->GetDefaultToken()); }};
      case 'T': return {"token", [=](World& w) { return show(M(w)->GetToken(Opt::Identity::FromSpiffeId("an identity that is not stored inline"))); }};
      case 'H': return {"token", [=](World& w) { return show(M(w)->GetToken(Opt::Identity::FromHostname("h"))); }};
      case 'N': return {"name", [=](World& w) { return M(w)->DebugName(); }};
      default: return {"create", [=](World&) { auto m = create(); return m ? show(m->GetDefaultToken()) : Str("none"); }};
    }
  };
  auto make = [&]() -> World* { auto* w = new TokenW; w->m = create(); return w; };
  auto probe = [](World& w) { auto r = static_cast<TokenW&>(w).m->GetDefaultToken(); return r.ok() ? *r : Str(); };
  std::vector<std::vector<Str>> sets = {{"D", "D"}, {"D", "T"}, {"TT", "DD"}, {"T", "H", "D"}, {"C", "C"}, {"C", "D"}, {"DTH", "HTD"}, {"N", "DT"}, {"C", "T", "DN"}};
  for (auto& s : sets) RunScenario(Make("token manager", s, make, letter, probe));
}

int main(int argc, char** argv) {
  sched::Restore();
  Init(argc, argv);
  S().max_fails = 1;  // a failed schedule leaves its calls unfinished
  if (Want("half")) HalfScenarios();
  if (Want("record")) ConnScenarios();
  if (Want("frame")) FrameScenarios();
  if (Want("separate")) SeparateScenarios();
  if (Want("proxy")) { ProxyScenarios(); SeparateProxies(); }
  if (Want("tokens")) TokenScenarios();
  int rc = Finish();
  fflush(nullptr);
  _exit(rc);  // variables of the code under test may have been built many times
}
