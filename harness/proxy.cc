// The handshake proxy and everything that speaks protobuf: C18 (protocol),
// C19 (requests), C20 (responses), C21 (contexts), C24 (ticket requests).
#include "harness/h.h"
#include "harness/pb.h"
#include "harness/stream.h"
#include "include/s2a_context.h"
#include "include/s2a_proxy.h"
#include "src/proto/upb-generated/proto/s2a.upb.h"
#include "src/record_protocol/s2a_crypter_util.h"
#include "src/record_protocol/s2a_ticket_sender.h"
#include "upb/upb.hpp"

using pb::Str;
using s2a::s2a_context::S2AContext;
using s2a::s2a_proxy::S2AProxy;
typedef std::unique_ptr<std::vector<char>> Buffer;

// ------------------------------------------------------------ identities
struct Id {
  int type = 0;  // 0 none, 1 SPIFFE, 2 hostname, 3 uid
  Str v;
  bool operator<(const Id& o) const { return type != o.type ? type < o.type : v < o.v; }
  bool operator==(const Id& o) const { return type == o.type && v == o.v; }
};
static const int kIdField[] = {0, 1, 2, 4};
static Str EncId(const Id& i) { return i.type ? pb::B(kIdField[i.type], i.v) : Str(); }
static Id FromMsg(const pb::Msg* m) {
  Id i;
  if (!m) return i;
  for (int t = 1; t <= 3; t++) if (m->str.count(kIdField[t])) { i.type = t; i.v = m->S(kIdField[t]); }
  return i;
}
static Opt::Identity ToOpt(const Id& i) {
  return i.type == 1 ? Opt::Identity::FromSpiffeId(i.v) : i.type == 2 ? Opt::Identity::FromHostname(i.v) : i.type == 3 ? Opt::Identity::FromUid(i.v) : Opt::Identity::GetEmptyIdentity();
}
static Id FromOpt(const Opt::Identity& i) {
  Id r;
  switch (i.GetIdentityType()) {
    case Opt::IdentityType::NONE: break;
    case Opt::IdentityType::SPIFFE_ID: r.type = 1; break;
    case Opt::IdentityType::HOSTNAME: r.type = 2; break;
    case Opt::IdentityType::UID: r.type = 3; break;
    default: r.type = 9;
  }
  r.v = i.GetIdentityString();
  return r;
}
static Str ShowStr(const Str& s) {
  Str o;
  for (unsigned char c : s.substr(0, 40)) o += c > 32 && c < 127 && c != '\\' ? Str(1, c) : F("\\x%02x", c);
  return s.size() > 40 ? o + F("..(%zu)", s.size()) : o;
}
static Str ShowId(const Id& i) { return F("%d'%s'", i.type, ShowStr(i.v).c_str()); }
static Str Pat(size_t n, uint32_t salt) { Bytes b = ref::Pattern(n, salt); return Str(b.begin(), b.end()); }
// Printable pattern (valid in string fields).
static Str Txt(size_t n, uint32_t salt) {
  Str s = Pat(n, salt);
  for (auto& c : s) c = (char)((unsigned char)c & 0x7f);
  return s;
}
static Buffer Buf2(const Str& s) { return Buffer(new std::vector<char>(s.begin(), s.end())); }

// ------------------------------------------------------------ ticket sender
struct Sent { Str url; uint64_t conn; Id id; std::vector<Bytes> tickets; void* factory; };
static std::vector<Sent> g_sent;
static bool WaitSender() { return true; }
s2a::s2a_ticket_sender::WaitOnTicketSender RecordingSender(s2a::s2a_ticket_sender::TicketSenderOptions& o) asm("__wrap__ZN3s2a17s2a_ticket_sender16SendTicketsToS2AERNS0_19TicketSenderOptionsE");
s2a::s2a_ticket_sender::WaitOnTicketSender RecordingSender(s2a::s2a_ticket_sender::TicketSenderOptions& o) {
  Sent s;
  s.url = o.handshaker_service_url;
  s.conn = o.connection_id;
  s.id = FromOpt(o.local_identity);
  if (o.tickets) for (auto& t : *o.tickets) s.tickets.push_back(Bytes(t->begin(), t->end()));
  s.factory = o.channel_factory.get();
  g_sent.push_back(s);
  return WaitSender;
}
struct Factory : s2a::s2a_channel::S2AChannelFactoryInterface {
  void WaitForChannelReady() override {}
  absl::StatusOr<std::unique_ptr<s2a::s2a_channel::S2AChannelInterface>> Build(S2AChannelOptionsInterface*) override { return absl::UnimplementedError("x"); }
};

// ------------------------------------------------------------ configuration
struct Tok { Str token; int from = 0; };  // available from request number `from` on
struct Cfg {
  bool client = true;
  Str app = "grpc", host = "host", url = "s2a:1";
  int min = 1, max = 1;
  std::vector<int> suites = {0};
  std::vector<Id> local, target;
  bool manager = false;
  std::map<Id, Tok> tokens;  // key: the empty identity for the default token
};
struct Manager : s2a::token_manager::AccessTokenManagerInterface {
  const std::map<Id, Tok> tokens;
  const int* now;
  Manager(const std::map<Id, Tok>& t, const int* n) : tokens(t), now(n) {}
  absl::StatusOr<std::string> Get(const Id& i) {
    auto it = tokens.find(i);
    if (it == tokens.end() || *now < it->second.from) return absl::NotFoundError("no token");
    return it->second.token;
  }
  absl::StatusOr<std::string> GetDefaultToken() override { return Get(Id()); }
  absl::StatusOr<std::string> GetToken(const Opt::Identity& i) override { return Get(FromOpt(i)); }
  std::string DebugName() const override { return "verif"; }
};

// ------------------------------------------------------------ responses
struct R {
  int status = 0;  // -1 absent, -2 present but empty
  Str details;
  bool has_sel = false;
  Id sel;
  Str out;
  uint64_t consumed = 0;
  bool result = false, state = true, has_local = true, has_peer = true;
  Str app = "grpc";
  uint64_t ver = 1, suite = 0, in_seq = 0, out_seq = 0, conn = 7, resumed = 0;
  Str in_key = Str(32, 'i'), out_key = Str(32, 'o');
  Id local, peer;
  Str local_fp = "lfp", peer_fp = "pfp";
  R() { local.type = 2; local.v = "local"; peer.type = 1; peer.v = "peer"; }
  Str State() const {
    using namespace pb;
    return V0(1, ver) + V0(2, suite) + V0(3, in_seq) + V0(4, out_seq) + B0(5, in_key) + B0(6, out_key) + V0(9, conn) + V0(10, resumed);
  }
  std::vector<Str> ResultFields() const {
    using namespace pb;
    std::vector<Str> r = {B0(1, app)};
    if (state) r.push_back(B(2, State()));
    if (has_peer) r.push_back(B(4, EncId(peer)));
    if (has_local) r.push_back(B(5, EncId(local)));
    r.push_back(B0(6, local_fp));
    r.push_back(B0(7, peer_fp));
    return r;
  }
  static Str Cat(const std::vector<Str>& v) { Str s; for (auto& x : v) s += x; return s; }
  std::vector<Str> Fields() const {
    using namespace pb;
    std::vector<Str> f;
    if (has_sel) f.push_back(B(1, EncId(sel)));
    f.push_back(B0(2, out));
    f.push_back(V0(3, consumed));
    if (result) f.push_back(B(4, Cat(ResultFields())));
    if (status != -1) f.push_back(B(5, V0(1, status == -2 ? 0 : status) + B0(2, details)));
    return f;
  }
  Str Encode() const { return Cat(Fields()); }
};

// ------------------------------------------------------------ proxy + model
static int SuiteOf(Opt::Ciphersuite c) {
  return c == Opt::Ciphersuite::AES_128_GCM_SHA256 ? 0 : c == Opt::Ciphersuite::AES_256_GCM_SHA384 ? 1 : c == Opt::Ciphersuite::CHACHA20_POLY1305_SHA256 ? 2 : 9;
}
static int VersionOf(Opt::TlsVersion v) { return v == Opt::TlsVersion::TLS1_2 ? 0 : v == Opt::TlsVersion::TLS1_3 ? 1 : 9; }
static const Opt::Ciphersuite kCs[] = {Opt::Ciphersuite::AES_128_GCM_SHA256, Opt::Ciphersuite::AES_256_GCM_SHA384, Opt::Ciphersuite::CHACHA20_POLY1305_SHA256};
static const Opt::TlsVersion kVer[] = {Opt::TlsVersion::TLS1_2, Opt::TlsVersion::TLS1_3};

// What an S2A context must say.
struct Ctx {
  Str app;
  int ver = 0, suite = 0;
  Id peer, local;
  Str peer_fp, local_fp;
  bool resumed = false;
};
static bool SameContext(const S2AContext& c, const Ctx& w) {
  if (c.ApplicationProtocol() != w.app) Fail("context: application protocol '%s', expected '%s'", ShowStr(c.ApplicationProtocol()).c_str(), ShowStr(w.app).c_str());
  else if (VersionOf(c.TlsVersion()) != w.ver) Fail("context: wrong TLS version");
  else if (SuiteOf(c.Ciphersuite()) != w.suite) Fail("context: wrong ciphersuite");
  else if (!(FromOpt(c.PeerIdentity()) == w.peer)) Fail("context: peer identity %s, expected %s", ShowId(FromOpt(c.PeerIdentity())).c_str(), ShowId(w.peer).c_str());
  else if (!(FromOpt(c.LocalIdentity()) == w.local)) Fail("context: local identity %s, expected %s", ShowId(FromOpt(c.LocalIdentity())).c_str(), ShowId(w.local).c_str());
  else if (c.PeerCertFingerprint() != w.peer_fp) Fail("context: peer fingerprint '%s', expected '%s'", ShowStr(c.PeerCertFingerprint()).c_str(), ShowStr(w.peer_fp).c_str());
  else if (c.LocalCertFingerprint() != w.local_fp) Fail("context: local fingerprint '%s', expected '%s'", ShowStr(c.LocalCertFingerprint()).c_str(), ShowStr(w.local_fp).c_str());
  else if (c.IsHandshakeResumed() != w.resumed) Fail("context: wrong resumption flag");
  else return true;
  return false;
}
static Str ToStr(const Bytes& b) { return Str(b.begin(), b.end()); }

struct Proxy {
  Cfg cfg;
  int now = 0;  // requests made so far (successful or not)
  Factory* factory;
  std::unique_ptr<S2AProxy> p;
  // model
  bool first = true, finished = false, has_sel = false, judge_tokens = true, only_sel = false, made_fp = false, stop = false;
  Id sel, only_id;
  Ctx want;
  pb::Msg state;

  explicit Proxy(const Cfg& c) : cfg(c) {
    S2AProxy::S2AProxyOptions o;
    o.logger = [](const std::string&) {};
    o.is_client = c.client;
    o.application_protocol = c.app;
    o.target_hostname = c.host;
    o.options.reset(new Opt);
    o.options->set_s2a_address(c.url);
    o.options->set_min_tls_version(kVer[c.min]);
    o.options->set_max_tls_version(kVer[c.max]);
    for (int s : c.suites) o.options->add_supported_ciphersuite(kCs[s]);
    for (auto& i : c.local) i.type == 1 ? o.options->add_local_spiffe_id(i.v) : i.type == 2 ? o.options->add_local_hostname(i.v) : o.options->add_local_uid(i.v);
    for (auto& i : c.target) i.type == 1 ? o.options->add_target_spiffe_id(i.v) : i.type == 2 ? o.options->add_target_hostname(i.v) : o.options->add_target_uid(i.v);
    if (c.manager) o.token_manager.reset(new Manager(c.tokens, &now));
    factory = new Factory;
    o.channel_factory.reset(factory);
    o.channel_options.reset(new s2a::s2a_channel::S2AChannelFactoryInterface::S2AChannelOptionsInterface);
    p = S2AProxy::Create(o);
    Count("traces");
    if (!p) Fail("proxy not created");
  }
  std::set<Id> Local() const { return std::set<Id>(cfg.local.begin(), cfg.local.end()); }
  bool Avail(const Id& i) const { auto t = cfg.tokens.find(i); return cfg.manager && t != cfg.tokens.end() && now >= t->second.from; }
  // identity -> token expected on the request being made
  std::map<Id, Str> WantTokens() {
    std::map<Id, Str> w;
    if (!cfg.manager) return w;
    if (has_sel && Avail(sel)) { w[sel] = cfg.tokens[sel].token; only_sel = true; only_id = sel; return w; }
    if (only_sel) judge_tokens = false;  // a later selection without token: what to fall back to is not specified
    for (auto& i : Local()) if (Avail(i)) w[i] = cfg.tokens[i].token;
    if (cfg.local.empty() && Avail(Id())) w[Id()] = cfg.tokens[Id()].token;
    return w;
  }
  static bool IdsEqual(const std::vector<std::shared_ptr<pb::Msg>>& got, const std::set<Id>& want, const char* what) {
    std::set<Id> s;
    for (auto& m : got) {
      if (!m->rmsg[3].empty()) { Fail("%s has attributes", what); return false; }
      if (!s.insert(FromMsg(m.get())).second) { Fail("%s: an identity is sent twice", what); return false; }
    }
    if (s != want) {
      Str g, w;
      for (auto& i : s) g += ShowId(i) + " ";
      for (auto& i : want) w += ShowId(i) + " ";
      Fail("%s: sent {%s}, configured {%s}", what, g.c_str(), w.c_str());
      return false;
    }
    return true;
  }
  bool CheckRequest(const Str& bytes, const Str& peer) {
    pb::Msg m;
    if (pb::Decode(bytes, pb::Req(), &m) != pb::GOOD) { Fail("request is not a valid SessionReq"); return false; }
    if (m.unknown) { Fail("request has unknown fields"); return false; }
    bool start = first;
    int kind = start ? (cfg.client ? 1 : 2) : 3;
    for (int k = 1; k <= 4; k++) if ((m.M(k) != nullptr) != (k == kind)) { Fail("request %s kind %d, expected kind %d", m.M(k) ? "is of" : "is not of", k, kind); return false; }
    const pb::Msg& q = *m.M(kind);
    if (kind == 3) {
      if (q.S(1) != peer) { Fail("next request carries %zu bytes '%s', given %zu", q.S(1).size(), ShowStr(q.S(1)).c_str(), peer.size()); return false; }
    } else {
      pb::Msg& qq = const_cast<pb::Msg&>(q);
      if (qq.rstr[1] != std::vector<Str>{cfg.app}) { Fail("application protocols differ (%zu, '%s')", qq.rstr[1].size(), qq.rstr[1].empty() ? "" : ShowStr(qq.rstr[1][0]).c_str()); return false; }
      if (q.Var(2) != (uint64_t)cfg.min || q.Var(3) != (uint64_t)cfg.max) { Fail("TLS versions %d..%d, configured %d..%d", (int)q.Var(2), (int)q.Var(3), cfg.min, cfg.max); return false; }
      std::vector<uint64_t> cs(cfg.suites.begin(), cfg.suites.end());
      if (qq.rvar[4] != cs) { Fail("ciphersuites differ (%zu sent, %zu configured)", qq.rvar[4].size(), cs.size()); return false; }
      if (kind == 1) {
        if (!IdsEqual(qq.rmsg[5], std::set<Id>(cfg.target.begin(), cfg.target.end()), "target identities")) return false;
        std::vector<std::shared_ptr<pb::Msg>> l;
        if (qq.msg.count(6)) l.push_back(qq.msg[6]);
        if (!IdsEqual(l, Local(), "local identity")) return false;
        if (q.S(7) != cfg.host) { Fail("target name '%s'", ShowStr(q.S(7)).c_str()); return false; }
      } else {
        if (!IdsEqual(qq.rmsg[5], Local(), "local identities")) return false;
        if (q.S(6) != peer) { Fail("server start carries %zu bytes '%s', given %zu", q.S(6).size(), ShowStr(q.S(6)).c_str(), peer.size()); return false; }
      }
    }
    std::map<Id, Str> w = WantTokens(), g;
    for (auto& a : m.rmsg[5]) {
      Id i = FromMsg(a->M(1));
      if (a->M(1) && i.type == 0 && !(a->M(1)->rmsg.empty())) { Fail("token identity has attributes"); return false; }
      if (g.count(i)) { Fail("two tokens for identity %s", ShowId(i).c_str()); return false; }
      g[i] = a->S(2);
    }
    {
      Str k = F("rq c%d first%d sel%d:%s", cfg.client, first, has_sel, ShowId(sel).c_str());
      for (auto& x : g) k += " " + ShowId(x.first) + "=" + ShowStr(x.second);
      St(k);
    }
    if (judge_tokens && g != w) {
      Str gs, ws;
      for (auto& x : g) gs += ShowId(x.first) + "=" + ShowStr(x.second) + " ";
      for (auto& x : w) ws += ShowId(x.first) + "=" + ShowStr(x.second) + " ";
      Fail("tokens {%s}, expected {%s}", gs.c_str(), ws.c_str());
      return false;
    }
    return true;
  }
  // mode 0 null, 1 empty, 2 bytes
  bool ForS2A(int mode, const Str& bytes) {
    Count("transitions");
    bool peer = mode == 2 && !bytes.empty();
    bool ok = first ? (cfg.client ? !peer && Local().size() <= 1 : true) : peer;
    auto r = p->GetBytesForS2A(mode == 0 ? nullptr : Buf2(mode == 2 ? bytes : Str()));
    if (r.status.ok() != ok) { Fail("GetBytesForS2A: %s, expected %s", r.status.ToString().c_str(), ok ? "success" : "an error"); return false; }
    if (!ok) {
      if (r.buffer && !r.buffer->empty()) { Fail("error with a request"); return false; }
    } else {
      if (!r.buffer) { Fail("no request"); return false; }
      if (!CheckRequest(Str(r.buffer->begin(), r.buffer->end()), peer ? bytes : Str())) return false;
      first = false;
    }
    now++;
    return Agree();
  }
  bool ForPeer(int mode, const Str& bytes) {
    Count("transitions");
    pb::Msg m;
    bool given = mode == 2 && !bytes.empty();
    pb::Verdict v = given ? pb::Decode(bytes, pb::Resp(), &m) : pb::BAD;
    const pb::Msg *st = m.M(5), *res = m.M(4), *state = res ? res->M(2) : nullptr;
    bool statusok = v == pb::GOOD && st && (uint32_t)st->Var(1) == 0, ok = statusok;
    int ver = 0, suite = 0;
    if (ok && res) {
      if (!state || !res->M(5)) ok = false;
      else {
        ver = (int)(uint32_t)state->Var(1);
        suite = (int)(uint32_t)state->Var(2);
        if (ver < 0 || ver > 1 || suite < 0 || suite > 2) ok = false;
      }
    }
    auto r = p->GetBytesForPeer(mode == 0 ? nullptr : Buf2(mode == 2 ? bytes : Str()));
    if (v == pb::UNSURE) { Count("unjudged"); stop = true; return true; }
    if (r.status.ok() != ok) { Fail("GetBytesForPeer: %s, expected %s", r.status.ToString().c_str(), ok ? "success" : "an error"); return false; }
    if (!ok) {
      if (r.buffer && !r.buffer->empty()) { Fail("refused response with %zu bytes for the peer", r.buffer->size()); return false; }
      if (r.bytes_consumed != 0) { Fail("refused response with %zu bytes consumed", r.bytes_consumed); return false; }
      if (statusok && m.M(1)) judge_tokens = false;  // selection in a response refused for another reason: not specified
      return Agree();
    }
    if (!r.buffer) { Fail("accepted response without a buffer"); return false; }
    if (Str(r.buffer->begin(), r.buffer->end()) != m.S(2)) { Fail("%zu bytes for the peer, the response has %zu", r.buffer->size(), m.S(2).size()); return false; }
    if (r.bytes_consumed != (uint32_t)m.Var(3)) { Fail("%zu bytes consumed, the response says %u", r.bytes_consumed, (uint32_t)m.Var(3)); return false; }
    if (m.M(1)) { has_sel = true; sel = FromMsg(m.M(1)); }
    if (res) {
      finished = true;
      want.app = res->S(1);
      want.ver = ver;
      want.suite = suite;
      want.peer = FromMsg(res->M(4));
      want.local = FromMsg(res->M(5));
      want.local_fp = res->S(6);
      want.peer_fp = res->S(7);
      want.resumed = state->Var(10) != 0;
      this->state = *state;
    }
    return Agree();
  }
  bool Agree() {
    if (p->IsHandshakeFinished() != finished) { Fail("handshake %s, expected %s", finished ? "not finished" : "finished", finished ? "finished" : "not finished"); return false; }
    St(F("px c%d f%d fin%d sel%d:%s fp%d ver%d s%d", cfg.client, first, finished, has_sel, sel.v.c_str(), made_fp, want.ver, want.suite));
    return true;
  }
  bool Context() {
    Count("transitions");
    auto r = p->GetS2AContext();
    if ((r.index() == 1) != finished) { Fail("GetS2AContext %s a context", r.index() == 1 ? "returned" : "did not return"); return false; }
    if (r.index() == 0) {
      if (absl::get<0>(r).ok()) { Fail("no context, yet OK"); return false; }
      return true;
    }
    if (!absl::get<1>(r)) { Fail("null context"); return false; }
    return SameContext(*absl::get<1>(r), want) && Agree();
  }
  bool UsableSecrets() const { return want.ver == 1 && state.S(5).size() == SecretLen((Aead)want.suite) && state.S(6).size() == SecretLen((Aead)want.suite); }
  // full: also both directions' records and the ticket data.
  bool FrameProtector(bool full) {
    Count("transitions");
    auto r = p->CreateFrameProtector();
    if (!finished) {
      if (r.ok()) { Fail("a frame protector before the handshake finished"); return false; }
      return Agree();
    }
    bool again = made_fp;
    made_fp = true;
    if (!again && r.ok() != UsableSecrets()) { Fail("CreateFrameProtector: %s", r.status().ToString().c_str()); return false; }
    if (!r.ok() || again) return Agree();
    if (!*r) { Fail("null frame protector"); return false; }
    return Agree() && (!full || Use(**r));
  }
  static bool Out(s2a::frame_protector::S2AFrameProtector::Result& r, Bytes* got) {
    got->clear();
    for (auto& v : r.bytes) {
      got->insert(got->end(), (uint8_t*)v.iov_base, (uint8_t*)v.iov_base + v.iov_len);
      delete[] (uint8_t*)v.iov_base;
    }
    r.bytes.clear();
    return r.status.ok();
  }
  bool Use(s2a::frame_protector::S2AFrameProtector& fp) {
    Str ik = state.S(5), ok = state.S(6);
    Aead a = (Aead)want.suite;
    ref::Direction in(a, Bytes(ik.begin(), ik.end()), state.Var(3)), out(a, Bytes(ok.begin(), ok.end()), state.Var(4));
    Bytes got, hello = ref::Pattern(11, 3);
    for (int k = 0; k < 2; k++) {
      if (k && out.seq == 0) break;
      FR f(hello);
      Bytes w = out.Record(0x17, hello);
      auto r = fp.Protect(f.v);
      if (!Out(r, &got) || got != w) { Fail("record %d protected by the new frame protector differs from the reference (suite %d, sequence %s)", k, want.suite, U64(state.Var(4)).c_str()); return false; }
    }
    bool wrapped = false;
    for (int k = 0; k < 2; k++) {
      if (k && in.seq == 0) { wrapped = true; break; }
      FR f(in.Record(0x17, hello));
      auto r = fp.Unprotect(f.v);
      if (!Out(r, &got) || got != hello) { Fail("record %d for the new frame protector is not unprotected (suite %d, sequence %s)", k, want.suite, U64(state.Var(3)).c_str()); return false; }
    }
    if (wrapped || state.Var(3) > ~0ull - 8) return true;
    // five tickets in one record reach the ticket sender with this connection's data
    g_sent.clear();
    Bytes t;
    std::vector<Bytes> all;
    for (int k = 0; k < 5; k++) { all.push_back(Msg(4, 3 + k, 40 + k)); t = t + all.back(); }
    FR f(in.Record(0x16, t));
    auto r = fp.Unprotect(f.v);
    if (!Out(r, &got) || !got.empty()) { Fail("tickets for the new frame protector are refused: %s", r.status.ToString().c_str()); return false; }
    if (g_sent.size() != 1) { Fail("ticket sender called %zu times", g_sent.size()); return false; }
    Sent& s = g_sent[0];
    if (s.conn != state.Var(9)) { Fail("ticket sender got connection id %s, the result says %s", U64(s.conn).c_str(), U64(state.Var(9)).c_str()); return false; }
    if (!(s.id == want.local)) { Fail("ticket sender got identity %s, the result says %s", ShowId(s.id).c_str(), ShowId(want.local).c_str()); return false; }
    if (s.url != cfg.url) { Fail("ticket sender got address '%s'", ShowStr(s.url).c_str()); return false; }
    if (s.tickets != all) { Fail("ticket sender got other tickets"); return false; }
    if (s.factory != factory) { Fail("ticket sender did not get the channel factory"); return false; }
    return true;
  }
};

static R Good(int suite, int salt) {
  R r;
  r.result = true;
  r.suite = suite;
  r.out = "final" + std::to_string(salt);
  r.consumed = 3 + salt;
  r.in_key = Txt(SecretLen((Aead)suite), 60 + salt);
  r.out_key = Txt(SecretLen((Aead)suite), 80 + salt);
  r.app = "app" + std::to_string(salt);
  r.in_seq = salt;
  r.out_seq = 2 + salt;
  r.conn = 100 + salt;
  r.local = Id{2, "l" + std::to_string(salt)};
  r.peer = Id{1, "p" + std::to_string(salt)};
  r.resumed = salt % 2;
  return r;
}

// Every length up to `dense`, and those around the powers of two up to 2^20.
static std::vector<size_t> Lengths(size_t dense) {
  std::vector<size_t> v;
  for (size_t n = 0; n <= dense; n++) v.push_back(n);
  for (int k = 8; k <= 20; k++) for (int d = -1; d <= 1; d++) if (((size_t)1 << k) + d > dense) v.push_back(((size_t)1 << k) + d);
  return v;
}

// ============================================================ C18: protocol
static const char* kOps[] = {"S2A(null)", "S2A(empty)", "S2A(bytes)", "Peer(null)", "Peer(empty)", "Peer(garbage)", "Peer(error)", "Peer(more)", "Peer(result1)", "Peer(result-no-state)",
                             "Peer(result-no-local)", "Peer(result-bad-version)", "Peer(result-bad-suite)", "Peer(no-status,result)", "Peer(result2)", "Peer(error,result)", "FrameProtector", "Context"};
static const int kNumOps = 18;
static std::vector<Str> ProtocolResponses() {
  std::vector<Str> v(kNumOps);
  R r;
  r.out = "more";
  r.consumed = 2;
  v[7] = r.Encode();
  R e = r;
  e.status = 13;
  e.details = "bad";
  v[5] = Str("\x0a\xff", 2);
  v[6] = e.Encode();
  v[8] = Good(0, 1).Encode();
  R x = Good(1, 2); x.state = false; v[9] = x.Encode();
  x = Good(1, 2); x.has_local = false; v[10] = x.Encode();
  x = Good(1, 2); x.ver = 2; v[11] = x.Encode();
  x = Good(1, 2); x.suite = 3; v[12] = x.Encode();
  x = Good(1, 2); x.status = -1; v[13] = x.Encode();
  v[14] = Good(2, 3).Encode();
  x = Good(2, 4); x.status = 3; x.details = "no"; v[15] = x.Encode();
  return v;
}
static void Step(Proxy& p, int o, const std::vector<Str>& resp, bool* ok) {
  switch (o) {
    case 0: *ok = p.ForS2A(0, ""); break;
    case 1: *ok = p.ForS2A(1, ""); break;
    case 2: *ok = p.ForS2A(2, "ab"); break;
    case 3: *ok = p.ForPeer(0, ""); break;
    case 4: *ok = p.ForPeer(1, ""); break;
    case 16: *ok = p.FrameProtector(true); break;
    case 17: *ok = p.Context(); break;
    default: *ok = p.ForPeer(2, resp[o]);
  }
}
static Cfg SmallCfg(bool client) {
  Cfg c;
  c.client = client;
  c.suites = {2, 0, 1};
  c.local = {Id{2, "l1"}};
  c.target = {Id{1, "p1"}};
  c.manager = true;
  c.tokens[Id{2, "l1"}] = Tok{"tok", 0};
  return c;
}
static const uint64_t kExtreme[] = {0, 1, 2, 255, 256, 65535, 65536, (1ull << 31) - 1, 1ull << 31, (1ull << 32) - 1, 1ull << 32, (1ull << 63) - 1, 1ull << 63, ~0ull - 1, ~0ull};
static void Protocol() {
  auto resp = ProtocolResponses();
  Section("p_hist");
  int depth = Thorough() ? 5 : 4;
  for (int client = 0; client < 2; client++)
    Histories(kNumOps, depth, [&](const std::vector<int>& seq) {
      Desc("%s:%s", client ? "client" : "server", Names(seq, kOps).c_str());
      Count("histories", NewPrefixes(seq));
      Proxy p(SmallCfg(client));
      bool ok = true;
      for (int o : seq) { Step(p, o, resp, &ok); if (!ok) return; }
      if (p.Context()) p.FrameProtector(false);
    }, 100, 24);
  // Longer histories over the calls that matter after each other.
  Section("p_deep");
  const int sub[] = {0, 2, 6, 7, 8, 10, 14};
  for (int client = 0; client < 2; client++)
    Histories(7, Thorough() ? 8 : 6, [&](const std::vector<int>& s) {
      std::vector<int> seq;
      for (int o : s) seq.push_back(sub[o]);
      Desc("%s:%s", client ? "client" : "server", Names(seq, kOps).c_str());
      Count("histories", NewPrefixes(s));
      Proxy p(SmallCfg(client));
      bool ok = true;
      for (int o : seq) { Step(p, o, resp, &ok); if (!ok) return; }
      if (p.Context()) p.FrameProtector(false);
    }, 100, 24);
  // A client with two local identities can never start; whatever else happens.
  Section("p_two_local");
  const int sub2[] = {0, 1, 2, 7, 8, 10, 17};
  for (int client = 0; client < 2; client++)
    for (int many : {2, 3, 4, 8})
      Histories(7, Thorough() ? 6 : many == 2 ? 5 : 4, [&](const std::vector<int>& s) {
        std::vector<int> seq;
        for (int o : s) seq.push_back(sub2[o]);
        Desc("%s with %d local identities:%s", client ? "client" : "server", many, Names(seq, kOps).c_str());
        Cfg c = SmallCfg(client);
        for (int i = 1; i < many; i++) c.local.push_back(Id{3 - i % 3, F("u%d", i)});
        Proxy p(c);
        bool ok = true;
        for (int o : seq) { Step(p, o, resp, &ok); if (!ok) return; }
        p.Context();
      }, 100, 12);
  // A call that fails, with inputs of every size, between requests: what the next request is stays the same.
  Section("p_failing");
  for (int client = 0; client < 2; client++)
    for (size_t n : Lengths(Thorough() ? 1500 : 280))
      for (int kind = 0; kind < 6; kind++)
        for (int when = 0; when < 3; when++) {
          if (n > 70000 && kind > 3) continue;
          if (!Case()) continue;
          static const char* what[] = {"garbage", "an unfinished response", "an error response with details", "a refused result", "bytes at the wrong time", "an unusable ciphersuite"};
          Desc("%s: %s of %zu bytes %s", client ? "client" : "server", what[kind], n, when == 0 ? "at first" : when == 1 ? "after start" : "after the result");
          Proxy p(SmallCfg(client));
          bool ok = true;
          if (when) ok = p.ForS2A(client ? 0 : 2, "hello") && p.ForPeer(2, resp[7]);
          if (ok && when == 2) ok = p.ForS2A(2, "b") && p.ForPeer(2, resp[8]);
          R r;
          r.out = Pat(n, 17);
          if (kind == 2) { r.status = 3; r.details = Txt(n, 18); r.out = ""; }
          if (kind == 3) { r.result = true; r.state = false; }
          if (kind == 5) { r = Good(1, 3); r.out = Pat(n, 17); r.suite = 7; }
          Str bytes = r.Encode();
          if (kind == 0) bytes = Str(n, (char)0xff);
          if (kind == 1) bytes = bytes.substr(0, n ? bytes.size() - 1 - (n > 20 ? n / 2 : 0) : 1);
          if (!ok) continue;
          for (int twice = 0; twice < 2 && ok; twice++) {
            if (kind == 4) ok = !when && client ? p.ForS2A(2, Pat(n, 19)) : p.ForS2A(n % 2, "");
            else ok = p.ForPeer(2, bytes);
          }
          if (!ok) continue;
          ok = p.first ? p.ForS2A(client ? 0 : 2, "hello") && p.ForS2A(2, "next") : p.ForS2A(2, "next");
          if (ok && p.Context()) p.FrameProtector(false);
        }
  // Creation.
  Section("p_create");
  for (int m = 0; m < 64; m++)
    if (Case()) {
      Desc("options mask %d", m);
      S2AProxy::S2AProxyOptions o;
      if (m & 1) o.logger = [](const std::string&) {};
      o.is_client = m & 2;
      if (m & 4) o.options.reset(new Opt);
      if (m & 8) o.channel_factory.reset(new Factory);
      if (m & 16) o.channel_options.reset(new s2a::s2a_channel::S2AChannelFactoryInterface::S2AChannelOptionsInterface);
      if (m & 32) { static int now; o.token_manager.reset(new Manager({}, &now)); }
      auto p = S2AProxy::Create(o);
      Count("transitions");
      Count("traces");
      bool want = (m & 1) && (m & 4);
      if ((p != nullptr) != want) { Fail("proxy %s", p ? "created" : "not created"); continue; }
      if (p && p->IsHandshakeFinished()) Fail("finished at once");
      if (p && p->GetS2AContext().index() != 0) Fail("context at once");
      if (p && p->CreateFrameProtector().ok()) Fail("frame protector at once");
    }
  // A frame protector may be made without channel factory and token manager.
  Section("p_results");
  for (int suite = 0; suite < 3; suite++)
    for (int ver = 0; ver < 2; ver++)
      for (int client = 0; client < 2; client++)
        for (int times = 0; times < 3; times++)
          if (Case()) {
            Desc("suite %d version %d %s, %d calls before", suite, ver, client ? "client" : "server", times);
            Cfg c = SmallCfg(client);
            Proxy p(c);
            bool ok = true;
            for (int t = 0; t < times && ok; t++) ok = p.ForS2A(t ? 2 : 0, "xyz") && p.ForPeer(2, resp[7]);
            R r = Good(suite, 5);
            r.ver = ver;
            if (ok && p.ForPeer(2, r.Encode()) && p.Context() && p.Context() && p.FrameProtector(true)) p.Context();
          }
  // the numbers a result can hold
  for (uint64_t in : kExtreme)
    for (uint64_t out : kExtreme)
      for (uint64_t conn : kExtreme)
        if (Case()) {
          Desc("in sequence %llx out sequence %llx connection %llx", (unsigned long long)in, (unsigned long long)out, (unsigned long long)conn);
          Cfg c = SmallCfg(in % 2);
          Proxy p(c);
          R r = Good(conn % 3, 5);
          r.in_seq = in;
          r.out_seq = out;
          r.conn = conn;
          if (p.ForS2A(2 * (1 - in % 2), "xyz") && p.ForPeer(2, r.Encode()) && p.Context()) p.FrameProtector(true);
        }
}

// ============================================================ C19: requests
static const Id kA{1, "spiffe://a"}, kB{2, "b"}, kC{3, "c"}, kD{1, "d"}, kE{2, "spiffe://a"};
static Str ShowIds(const std::vector<Id>& v) { Str s = "{"; for (auto& i : v) s += ShowId(i) + " "; return s + "}"; }
static bool StartAndNext(const Cfg& c) {
  Proxy p(c);
  if (!p.ForS2A(c.client ? 0 : 2, "hello")) return false;
  return p.ForS2A(2, "next bytes");
}
static void Requests() {
  // versions x ciphersuite lists
  Section("q_suites");
  std::vector<std::vector<int>> lists = {{}};
  for (size_t b = 0, n = 1; n <= (Thorough() ? 6u : 4u); n++) {
    size_t e = lists.size();
    for (; b < e; b++) for (int s = 0; s < 3; s++) { auto l = lists[b]; l.push_back(s); lists.push_back(l); }
  }
  for (int client = 0; client < 2; client++)
    for (int v = 0; v < 4; v++)
      for (auto& l : lists)
        if (Case()) {
          Str d;
          for (int s : l) d += std::to_string(s);
          Desc("%s versions %d..%d suites [%s]", client ? "client" : "server", v & 1, v >> 1, d.c_str());
          Cfg c;
          c.client = client;
          c.min = v & 1;
          c.max = v >> 1;
          c.suites = l;
          StartAndNext(c);
        }
  // many of everything
  Section("q_counts");
  for (int client = 0; client < 2; client++)
    for (size_t n : {5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 1000})
      for (int what = 0; what < 4; what++) {
        if (what == 1 && client) continue;
        if (!Case()) continue;
        Desc("%s with %zu %s", client ? "client" : "server", n, what == 0 ? "ciphersuites" : what == 1 ? "local identities" : what == 2 ? "target identities" : "next requests");
        Cfg c;
        c.client = client;
        if (what == 0) for (size_t i = 0; i < n; i++) c.suites.push_back((int)((i * i + i / 3) % 3));
        if (what == 1) { c.manager = true; for (size_t i = 0; i < n; i++) { Id id{1 + (int)i % 3, F("id%zu", i / 2)}; c.local.push_back(id); if (i % 5) c.tokens[id] = Tok{F("tok%zu", i), 0}; } }
        if (what == 2) for (size_t i = 0; i < n; i++) c.target.push_back(Id{1 + (int)i % 3, F("id%zu", i / 2)});
        if (what < 3) { StartAndNext(c); continue; }
        c.local = {kA};
        c.manager = true;
        c.tokens[kA] = Tok{"t", 0};
        Proxy p(c);
        if (!p.ForS2A(client ? 0 : 2, "s")) continue;
        for (size_t i = 0; i < n; i++) if (!p.ForS2A(2, Pat(1 + i % 9, i))) break;
      }
  // identity sets
  Section("q_identities");
  const Id cand[] = {kA, kB, kC, kD, kE, Id{3, ""}, Id{1, ""}, Id{2, Str("x\0y", 3)}};
  for (int client = 0; client < 2; client++)
    for (int l = 0; l < 256; l++)
      for (int t = 0; t < 256; t++) {
        if (!Thorough() && !(client ? (__builtin_popcount(l) <= 2) : (t == 0 || t == 1 || t == 0x1a))) continue;
        if (Case()) {
          Cfg c;
          c.client = client;
          for (int i = 0; i < 8; i++) { if (l >> i & 1) c.local.push_back(cand[i]); if (t >> i & 1) c.target.push_back(cand[i]); }
          Desc("%s local %s target %s", client ? "client" : "server", ShowIds(c.local).c_str(), ShowIds(c.target).c_str());
          if (client && __builtin_popcount(l) > 1) {
            Proxy p(c);
            if (p.ForS2A(0, "") && p.ForS2A(1, "")) p.ForS2A(2, "zz");
          } else {
            StartAndNext(c);
          }
        }
      }
  // contents and lengths of every string and byte field
  Section("q_strings");
  for (int client = 0; client < 2; client++)
    for (int field = 0; field < 6; field++)
      for (size_t n : Lengths(Thorough() ? 5000 : 600))
        if (Case()) {
          Desc("%s field %d of length %zu", client ? "client" : "server", field, n);
          Cfg c;
          c.client = client;
          Str s = Txt(n, 11 + n), start = "p";
          if (field == 0) c.app = s;
          if (field == 1) c.host = s;
          if (field == 2) { c.local = {Id{1, s}}; c.manager = true; c.tokens[Id{1, s}] = Tok{"t", 0}; }
          if (field == 3) c.target = {Id{2, s}, Id{3, s}};
          if (field == 4) { c.local = {kA}; c.manager = true; c.tokens[kA] = Tok{s, 0}; }
          if (field == 5) start = Pat(n, 12 + n);
          Proxy p(c);
          if (client) { if (!p.ForS2A(0, "")) continue; } else if (!p.ForS2A(2, start)) continue;
          p.ForS2A(2, field == 5 ? Pat(n + 1, 13 + n) : "q");
        }
  Section("q_chars");
  for (int client = 0; client < 2; client++)
    for (int ch = 0; ch < 256; ch++)
      for (int pos = 0; pos < 3; pos++)
        if (Case()) {
          Desc("%s character %02x at position %d", client ? "client" : "server", ch, pos);
          Str raw = pos == 0 ? Str(1, (char)ch) + "ab" : pos == 1 ? Str("a") + (char)ch + "b" : Str("ab") + (char)ch;
          Str u;  // as UTF-8
          for (unsigned char x : raw) if (x < 128) u += (char)x; else { u += (char)(0xc0 | x >> 6); u += (char)(0x80 | (x & 63)); }
          Cfg c;
          c.client = client;
          c.app = u + "1";
          c.host = u + "2";
          c.local = {Id{1 + ch % 3, u + "3"}};
          c.target = {Id{1, u + "4"}, Id{2, u + "5"}, Id{3, u + "6"}};
          c.manager = true;
          c.tokens[c.local[0]] = Tok{u + "7", 0};
          Proxy p(c);
          if (client) { if (!p.ForS2A(0, "")) continue; } else if (!p.ForS2A(2, raw)) continue;
          p.ForS2A(2, raw + "n");
        }
  Section("q_peer_bytes");
  for (int client = 0; client < 2; client++)
    for (size_t n : {(size_t)1, (size_t)127, (size_t)128, (size_t)255, (size_t)256, (size_t)16383, (size_t)16384, (size_t)16385, (size_t)65535, (size_t)65536, (size_t)70000, (size_t)300000, (size_t)2097151, (size_t)2097152})
      if (Case()) {
        Desc("%s peer bytes %zu", client ? "client" : "server", n);
        Cfg c;
        c.client = client;
        Proxy p(c);
        if (client) { if (!p.ForS2A(0, "")) continue; } else if (!p.ForS2A(2, Pat(n, 5))) continue;
        if (p.ForS2A(2, Pat(n, 6))) p.ForS2A(2, Pat(n, 7));
      }
  // Tokens for identities of every type, with empty and unusual strings, from the first, second or
  // third request on, without and with a selection.
  Section("q_token_ids");
  {
    std::vector<Id> ids;
    for (int t = 1; t <= 3; t++) for (const Str& v : {Str(), Str("x"), Str(1, '\0'), Str("x\0y", 3), Txt(300, 4)}) ids.push_back(Id{t, v});
    for (int client = 0; client < 2; client++)
      for (size_t i = 0; i < ids.size(); i++)
        for (size_t j = i; j < ids.size(); j++)
          for (size_t k = 0; k < 2 + ids.size(); k++)
            for (int from = 0; from < 3; from++) {
              if (client && j != i) continue;
              if (!Case()) continue;
              Cfg c;
              c.client = client;
              c.local = {ids[i]};
              if (j != i) c.local.push_back(ids[j]);
              c.manager = true;
              for (size_t n = 0; n < ids.size(); n++) c.tokens[ids[n]] = Tok{F("token%zu", n), n == i ? from : (from + 1) % 3};
              if (from == 0) for (size_t n = 0; n < ids.size(); n++) c.tokens[ids[n]].from = 0;
              c.tokens[Id()] = Tok{"default", from};
              Desc("%s local %s selected %zu tokens from %d", client ? "client" : "server", ShowIds(c.local).c_str(), k, from);
              Proxy p(c);
              if (!p.ForS2A(client ? 0 : 2, "s")) continue;
              R r;
              r.out = "o";
              r.has_sel = k > 0;
              if (k > 1) r.sel = ids[k - 2];
              if (p.ForPeer(2, r.Encode()) && p.ForS2A(2, "n") && p.ForPeer(2, R().Encode())) p.ForS2A(2, "n2");
            }
  }
  // token availability x selection histories
  Section("q_tokens");
  // local identity sets; availability of A, B, C(foreign) and default: never / at once / from the 2nd / 3rd request
  const std::vector<std::vector<Id>> locals = {{}, {kA}, {kB}, {kA, kB}, {kA, kB, kE}};
  R r;
  auto with = [&](const Id& i) { R x; x.has_sel = true; x.sel = i; x.out = "o"; return x.Encode(); };
  R badres = Good(0, 1); badres.has_sel = true; badres.sel = kA; badres.state = false;
  R errsel; errsel.status = 5; errsel.has_sel = true; errsel.sel = kB;
  const Str sels[] = {r.Encode(), with(kA), with(kB), with(kC), with(Id()), errsel.Encode(), badres.Encode()};
  const char* names[] = {"none", "A", "B", "C", "empty", "error+B", "bad result+A"};
  const int nav = Thorough() ? 4 : 3;
  int depth = Thorough() ? 4 : 3;
  for (int client = 0; client < 2; client++)
    for (auto& l : locals) {
      if (client && l.size() > 1) continue;
      int combos = nav * nav * nav * nav;
      for (int av = -1; av < combos; av++)
        Histories(7, depth, [&](const std::vector<int>& seq) {
          Cfg c;
          c.client = client;
          c.local = l;
          c.manager = av >= 0;
          const Id who[] = {kA, kB, kC, Id()};
          int x = av;
          for (int k = 0; k < 4 && av >= 0; k++, x /= nav) if (x % nav) c.tokens[who[k]] = Tok{F("token%d", k), x % nav - 1};
          c.tokens[kE] = Tok{"tokenE", 0};
          Desc("%s local %s availability %d selections%s", client ? "client" : "server", ShowIds(l).c_str(), av, Names(seq, names).c_str());
          Proxy p(c);
          if (!p.ForS2A(client ? 0 : 2, "s")) return;
          for (int o : seq) if (!p.ForPeer(2, sels[o]) || !p.ForS2A(2, "n")) return;
        }, av == combos - 1 || av == 0 ? 40 : 0, 12);
    }
}

// ============================================================ C20: responses
static bool Feed(const Str& bytes, bool fp = false) {
  Cfg c = SmallCfg(true);
  Proxy p(c);
  if (!p.ForPeer(2, bytes)) return false;
  if (p.stop) return true;
  if (!p.Context()) return false;
  return !fp || p.FrameProtector(true);
}
// A second response after an accepted one, to see that refused responses leave it alone.
static bool FeedAfter(const Str& firstresp, const Str& bytes) {
  Cfg c = SmallCfg(false);
  Proxy p(c);
  if (!p.ForPeer(2, firstresp) || !p.ForPeer(2, bytes)) return false;
  return p.stop || (p.Context() && p.FrameProtector(true));
}
static void Responses() {
  const Id ids[] = {Id(), Id{1, "sp"}, Id{2, "ho"}, Id{3, "ui"}, Id{2, ""}};
  Section("a_fields");
  const uint64_t vers[] = {0, 1, 2, 3, 77, ~0ull, 0x100000001ull}, suites[] = {0, 1, 2, 3, 77, ~0ull, 0x100000001ull};
  for (int status = -2; status <= 4; status++)
    for (int result = 0; result < 3; result++)  // none, without state, with state
      for (int ver = 0; ver < (result == 2 ? 7 : 1); ver++)
        for (int suite = 0; suite < (result == 2 ? 7 : 1); suite++)
          for (int lo = -1; lo < (result ? 5 : 0); lo++)
            for (int pe = -1; pe < (result ? 5 : 0); pe++)
              for (int misc = 0; misc < 4; misc++)
                if (Case()) {
                  R r = Good(0, 1);
                  r.status = status == 3 ? 0x7fffffff : status == 4 ? 1 << 20 : status;
                  r.details = misc & 1 ? "det" : "";
                  r.result = result > 0;
                  r.state = result == 2;
                  r.ver = vers[ver];
                  r.suite = suites[suite];
                  int s = (int)(uint32_t)suites[suite];
                  if (s >= 0 && s < 3) { r.in_key = Txt(SecretLen((Aead)s), 1); r.out_key = Txt(SecretLen((Aead)s), 2); }
                  r.has_local = lo >= 0;
                  r.has_peer = pe >= 0;
                  if (lo >= 0) r.local = ids[lo];
                  if (pe >= 0) r.peer = ids[pe];
                  r.out = misc & 1 ? "frames" : "";
                  r.consumed = misc & 1 ? 5 : 0;
                  r.has_sel = misc & 2;
                  r.resumed = misc & 2;
                  Desc("status %d result %d version %d suite %d local %d peer %d misc %d", r.status, result, (int)vers[ver], (int)suites[suite], lo, pe, misc);
                  Feed(r.Encode(), misc == 1);
                }
  Section("a_consumed");
  for (int b = 0; b < 34; b++)
    for (int d = -1; d <= 1; d++)
      for (int res = 0; res < 2; res++)
        if (Case()) {
          uint64_t v = (1ull << b) + d;
          Desc("bytes consumed %s result %d", U64(v).c_str(), res);
          R r = Good(1, 2);
          r.result = res;
          r.consumed = v;
          Feed(r.Encode());
        }
  // Status codes: only zero (in 32 bits) is success, with and without a result.
  Section("a_status");
  for (int b = 0; b < 64; b++)
    for (int d = -1; d <= 1; d++)
      for (int shape = 0; shape < 4; shape++)
        if (Case()) {
          uint64_t v = (1ull << b) + d;
          Desc("status code %s shape %d", U64(v).c_str(), shape);
          R r = Good(b % 3, 2);
          r.result = shape & 1;
          r.status = -1;
          r.out = shape & 2 ? "out" : "";
          Str st = pb::B(5, pb::V(1, v) + pb::B0(2, shape & 2 ? "det" : ""));
          Feed(shape & 2 ? st + r.Encode() : r.Encode() + st, true);
        }
  // sequence numbers and connection ids
  Section("a_numbers");
  std::vector<uint64_t> nums = {0, 1, 2, 127, 128, 255, 256, 65535, 65536, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x7fffffffffffffffull, 0x8000000000000000ull, ~0ull - 1, ~0ull};
  for (int suite = 0; suite < 3; suite++)
    for (uint64_t i : nums)
      for (uint64_t o : nums)
        if (Case()) {
          Desc("suite %d in %s out %s", suite, U64(i).c_str(), U64(o).c_str());
          R r = Good(suite, 1);
          r.in_seq = i;
          r.out_seq = o;
          Feed(r.Encode(), true);
        }
  for (int b = 0; b < 64; b++)
    for (int which = 0; which < 3; which++)
      if (Case()) {
        Desc("bit %d of %s", b, which == 0 ? "in sequence" : which == 1 ? "out sequence" : "connection id");
        R r = Good(b % 3, 1);
        (which == 0 ? r.in_seq : which == 1 ? r.out_seq : r.conn) = 1ull << b;
        Feed(r.Encode(), true);
      }
  for (uint64_t i : nums)
    for (int b = 0; b <= 64; b++)
      if (Case()) {
        R r = Good(b % 3, 1);
        r.conn = b == 64 ? i : (1ull << b) - 1 - i;
        Desc("connection id %s", U64(r.conn).c_str());
        Feed(r.Encode(), true);
      }
  // secrets of every length and content
  Section("a_secrets");
  for (int suite = 0; suite < 3; suite++)
    for (int ver = 0; ver < 2; ver++)
      for (size_t il = 0; il <= 66; il++)
        for (size_t ol = 0; ol <= 66; ol++) {
          size_t g = SecretLen((Aead)suite);
          if (ver == 0 && !(il == g || il == ol)) continue;
          if (Case()) {
            Desc("suite %d version %d secrets of %zu and %zu bytes", suite, ver, il, ol);
            R r = Good(suite, 1);
            r.ver = ver;
            r.in_key = Pat(il, 3);
            r.out_key = Pat(ol, 4);
            Feed(r.Encode(), true);
          }
        }
  for (int suite = 0; suite < 3; suite++)
    for (size_t b = 0; b < 8 * SecretLen((Aead)suite); b++)
      for (int dir = 0; dir < 2; dir++)
        if (Case()) {
          Desc("suite %d bit %zu of the %s secret", suite, b, dir ? "out" : "in");
          R r = Good(suite, 1);
          r.in_key = r.out_key = Str(SecretLen((Aead)suite), 0);
          Str& k = dir ? r.out_key : r.in_key;
          k[b / 8] = (char)(1 << b % 8);
          Feed(r.Encode(), true);
        }
  // strings of every length
  Section("a_strings");
  for (int field = 0; field < 7; field++)
    for (size_t n : Lengths(Thorough() ? 20001 : 2000))
      if (Case()) {
        Desc("field %d of length %zu", field, n);
        R r = Good(n % 3, 1);
        Str t = Txt(n, n + 3), x = Pat(n, n + 4);
        if (field == 0) r.app = t;
        if (field == 1) r.local = Id{1 + (int)n % 3, t};
        if (field == 2) r.peer = Id{1 + (int)n % 3, t};
        if (field == 3) r.local_fp = x;
        if (field == 4) r.peer_fp = x;
        if (field == 5) { r.out = x; r.result = n & 1; }
        if (field == 6) { r.status = 1 + n % 2; r.details = t; }
        Feed(r.Encode(), field == 1 && n < 40);
      }
  for (size_t n : {(size_t)16384, (size_t)65535, (size_t)65536, (size_t)1000000})
    if (Case()) { Desc("frames of %zu bytes", n); R r; r.out = Pat(n, 3); r.consumed = n; Feed(r.Encode()); }
  // equivalent and unusual encodings of the same response
  Section("a_encodings");
  {
    R r = Good(1, 3);
    r.has_sel = true;
    r.sel = Id{3, "s"};
    auto f = r.Fields();
    std::vector<int> o = {0, 1, 2, 3, 4};
    do {
      if (Case()) {
        Str s;
        for (int i : o) s += f[i];
        Desc("field order %d%d%d%d%d", o[0], o[1], o[2], o[3], o[4]);
        Feed(s, true);
      }
    } while (std::next_permutation(o.begin(), o.end()));
    auto rf = r.ResultFields();
    std::vector<int> q = {0, 1, 2, 3, 4, 5};
    do {
      if (Case()) {
        Str s;
        for (int i : q) s += rf[i];
        Desc("result field order %d%d%d%d%d%d", q[0], q[1], q[2], q[3], q[4], q[5]);
        Feed(f[0] + f[1] + f[2] + pb::B(4, s) + f[4], true);
      }
    } while (std::next_permutation(q.begin(), q.end()));
    // the result in two pieces (merged), every subset
    for (int m = 0; m < 64; m++)
      if (Case()) {
        Str a, b;
        for (int i = 0; i < 6; i++) (m >> i & 1 ? a : b) += rf[i];
        Desc("result split by mask %d", m);
        Feed(f[0] + pb::B(4, a) + f[1] + f[2] + pb::B(4, b) + f[4], true);
      }
    // fields given twice: the last one wins / merges
    for (size_t i = 0; i < 5; i++)
      for (size_t j = 0; j < 5; j++)
        if (Case()) {
          Desc("field %zu repeated after field %zu", i, j);
          R r2 = Good(1, 4);
          r2.has_sel = true;
          r2.sel = Id{2, "t"};
          r2.status = i % 2 ? 0 : 3;
          Str s;
          for (size_t k = 0; k < 5; k++) { s += f[k]; if (k == j) s += r2.Fields()[i]; }
          Feed(s, true);
        }
    // unknown fields of every wire type at every place
    const Str unk[] = {pb::V(15, 3), pb::B(15, "abc"), Str("\x79", 1) + Str(8, 'x'), Str("\x7d", 1) + Str(4, 'y'), Str("\x7b", 1) + pb::V(1, 5) + Str("\x7c", 1), Str("\x7b\x7c", 2), Str("\x7b\x74", 2),
                       Str("\x7c", 1), Str("\x7e", 1), Str("\x7f", 1), pb::V(1, 1), pb::V(2, 1), pb::B(3, "x"), pb::V(4, 1), pb::V(5, 0), pb::V(536870911, 1), Str("\x00\x01", 2), pb::V(2047, 9), pb::B(2048, "")};
    for (size_t u = 0; u < sizeof unk / sizeof *unk; u++)
      for (size_t at = 0; at <= 5; at++)
        for (int lvl = 0; lvl < 3; lvl++)
          if (Case()) {
            Desc("extra field %zu at %zu level %d", u, at, lvl);
            Str s;
            if (lvl == 0) for (size_t k = 0; k <= 5; k++) { if (k == at) s += unk[u]; if (k < 5) s += f[k]; }
            if (lvl == 1) { Str t; for (size_t k = 0; k <= 5; k++) { if (k == at) t += unk[u]; t += rf[k]; } s = f[0] + f[1] + f[2] + pb::B(4, t) + f[4]; }
            if (lvl == 2) { Str t = at % 2 ? r.State() + unk[u] : unk[u] + r.State(); s = f[0] + f[1] + f[2] + pb::B(4, pb::B(2, t) + rf[0] + rf[2] + rf[3]) + f[4]; }
            Feed(s, true);
          }
    // overlong varints
    for (int pad = 0; pad < 9; pad++)
      if (Case()) {
        Desc("varint padded by %d", pad);
        Str s, c = Str("\x18", 1);
        pb::PutVarint(&c, 5, pad);
        Feed(f[0] + f[1] + c + f[3] + f[4], true);
      }
    // identities with several members set, or none, or only attributes
    const Str idm[] = {pb::B(1, "x") + pb::B(2, "y"), pb::B(2, "y") + pb::B(1, "x"), pb::B(4, "u") + pb::B(1, "x"), pb::B(1, "x") + pb::B(4, "u"), pb::B(2, "h") + pb::B(4, ""), pb::B(1, "") + pb::B(2, "z"), "",
                       pb::B(3, pb::B(1, "k") + pb::B(2, "v")), pb::B(3, pb::B(1, "k") + pb::B(2, "v")) + pb::B(4, "u"), pb::B(3, "") + pb::B(2, "h"), pb::B(1, "x") + pb::B(1, "y"), pb::V(1, 3), pb::B(1, "\xff"), pb::B(3, pb::B(1, "\xff"))};
    for (size_t i = 0; i < sizeof idm / sizeof *idm; i++)
      for (int where = 0; where < 3; where++)
        if (Case()) {
          Desc("identity encoding %zu as %s", i, where == 0 ? "peer" : where == 1 ? "local" : "selected");
          Feed((where == 2 ? pb::B(1, idm[i]) : f[0]) + f[1] + f[2] + pb::B(4, rf[0] + rf[1] + (where == 0 ? pb::B(4, idm[i]) : rf[2]) + (where == 1 ? pb::B(5, idm[i]) : rf[3]) + rf[4] + rf[5]) + f[4], true);
        }
  }
  // truncations and byte alterations of a full response, alone and after an accepted result
  R full = Good(2, 1);
  full.has_sel = true;
  full.sel = Id{1, "z"};
  full.in_key = Txt(32, 1);
  full.details = "";
  const Str base = full.Encode();
  R mini;
  mini.out = "xy";
  mini.consumed = 1;
  mini.result = true;
  mini.app = "";
  mini.in_key = mini.out_key = "";
  mini.local_fp = mini.peer_fp = "";
  mini.local = Id{2, "l"};
  mini.has_peer = false;
  const Str small = mini.Encode(), prior = Good(1, 9).Encode();
  Section("a_truncate");
  for (const Str* b : {&base, &small})
    for (size_t n = 0; n < b->size(); n++)
      for (int after = 0; after < 2; after++)
        if (Case()) {
          Desc("%s response cut to %zu bytes%s", b == &base ? "full" : "small", n, after ? " after a result" : "");
          after ? FeedAfter(prior, b->substr(0, n)) : Feed(b->substr(0, n), true);
        }
  Section("a_bytes");
  for (const Str* b : {&small, &base})
    for (size_t i = 0; i < b->size(); i++)
      for (int v = 0; v < 256; v++) {
        if (Case()) {
          Desc("%s response, byte %zu = %02x", b == &base ? "full" : "small", i, v);
          Str s = *b;
          s[i] = (char)v;
          v % 2 ? FeedAfter(prior, s) : Feed(s, true);
        }
      }
  Section("a_insert");
  for (const Str* b : {&small, &base})
    for (size_t i = 0; i <= b->size(); i++)
      for (int v = 0; v < 257; v++) {
        if (!Thorough() && b == &base && v != 256 && v % 51) continue;
        if (v == 256 && i == b->size()) continue;
        if (Case()) {
          Str s = *b;
          if (v == 256) s.erase(i, 1); else s.insert(i, 1, (char)v);
          Desc("%s response, byte %zu %s %02x", b == &base ? "full" : "small", i, v == 256 ? "removed" : "inserted", v & 255);
          Feed(s, true);
        }
      }
  Section("a_two_bytes");
  {
    const int vals[] = {0, 1, 2, 3, 8, 0x0a, 0x10, 0x12, 0x18, 0x1a, 0x22, 0x2a, 0x7f, 0x80, 0xff};
    for (size_t i = 0; i < small.size(); i++)
      for (size_t j = i + 1; j < small.size(); j++)
        for (int v : vals)
          for (int w : vals)
            if (Case()) {
              Desc("small response, bytes %zu,%zu = %02x,%02x", i, j, v, w);
              Str s = small;
              s[i] = (char)v;
              s[j] = (char)w;
              (v + w) % 4 ? Feed(s, true) : FeedAfter(prior, s);
            }
  }
  // all short byte strings
  Section("a_short");
  for (int n = 1; n <= (Thorough() ? 3 : 2); n++)
    for (int v = 0; v < 1 << (8 * n); v++)
      if (Case()) {
        Str s;
        for (int k = 0; k < n; k++) s += (char)(v >> (8 * k));
        Desc("bytes %s", ref::Hex((const uint8_t*)s.data(), n).c_str());
        Feed(s);
      }
  // all sequences of protobuf pieces (tags, lengths, values)
  Section("a_pieces");
  const Str pieces[] = {pb::B(5, ""), pb::B(5, pb::V(1, 1)), pb::B(4, ""), pb::B(4, pb::B(2, "")), pb::B(4, pb::B(5, "")), pb::B(4, pb::B(2, pb::V(1, 1))), pb::B(4, pb::B(2, pb::V(2, 1))), pb::B(4, pb::B(2, pb::V(1, 2))),
                        pb::B(1, ""), pb::B(2, "o"), pb::V(3, 4), Str("\x22", 1), Str("\x01", 1)};
  Histories(13, Thorough() ? 6 : 5, [&](const std::vector<int>& seq) {
    Str s;
    for (int o : seq) s += pieces[o];
    Desc("pieces %s", ref::Hex((const uint8_t*)s.data(), s.size()).c_str());
    Feed(s);
  }, 0);
}

// ============================================================ C21: contexts
static S2AContext Make(const Ctx& c) { return S2AContext(c.app, kVer[c.ver], kCs[c.suite], ToOpt(c.peer), ToOpt(c.local), c.peer_fp, c.local_fp, c.resumed); }
static Str EncCtx(const Ctx& c, bool empty_ids = false) {
  using namespace pb;
  return B0(1, c.app) + V0(2, c.ver) + V0(3, c.suite) + (c.peer.type || empty_ids ? B(4, EncId(c.peer)) : Str()) + (c.local.type || empty_ids ? B(5, EncId(c.local)) : Str()) + B0(6, c.peer_fp) + B0(7, c.local_fp) + V0(8, c.resumed);
}
static bool Parsed(const Str& s) {
  Count("parses");
  pb::Msg m;
  pb::Verdict v = pb::Decode(s, pb::Context(), &m);
  int ver = (int)(uint32_t)m.Var(2), suite = (int)(uint32_t)m.Var(3);
  bool ok = v == pb::GOOD && ver >= 0 && ver <= 1 && suite >= 0 && suite <= 2;
  Buf exact(Bytes(s.begin(), s.end()));
  auto r = s2a::s2a_context::GetS2AContextFromSerializedContext((const char*)exact.p, exact.n);
  if (v == pb::UNSURE) { Count("unjudged"); return true; }
  if (r.ok() != ok) { Fail("parsing: %s, expected %s", r.status().ToString().c_str(), ok ? "success" : "an error"); return false; }
  if (!ok) return true;
  if (!*r) { Fail("null context"); return false; }
  Ctx w;
  w.app = m.S(1);
  w.ver = ver;
  w.suite = suite;
  w.peer = FromMsg(m.M(4));
  w.local = FromMsg(m.M(5));
  w.peer_fp = m.S(6);
  w.local_fp = m.S(7);
  w.resumed = m.Var(8) != 0;
  // the parsed context must not depend on the buffer
  memset(exact.p, 0xA5, exact.n);
  return SameContext(**r, w);
}
static bool RoundTrip(const Ctx& c) {
  Count("roundtrips");
  S2AContext x = Make(c);
  if (!SameContext(x, c)) return false;
  auto s = x.GetSerializedContext();
  if (s.index() != 1 || !absl::get<1>(s)) { Fail("not serialized"); return false; }
  auto& b = *absl::get<1>(s);
  Str bytes(b.begin(), b.end());
  pb::Msg m;
  if (pb::Decode(bytes, pb::Context(), &m) != pb::GOOD || m.unknown) { Fail("serialized form is not an encoding of the documented message"); return false; }
  if (m.S(1) != c.app || m.Var(2) != (uint64_t)c.ver || m.Var(3) != (uint64_t)c.suite || !(FromMsg(m.M(4)) == c.peer) || !(FromMsg(m.M(5)) == c.local) || m.S(6) != c.peer_fp || m.S(7) != c.local_fp || m.Var(8) != (uint64_t)c.resumed) {
    Fail("serialized form says something else than the context");
    return false;
  }
  if (!SameContext(x, c)) return false;
  auto r = s2a::s2a_context::GetS2AContextFromSerializedContext(bytes.data(), bytes.size());
  if (!r.ok() || !*r) { Fail("own serialization is refused"); return false; }
  if (!SameContext(**r, c)) return false;
  S2AContext copy(x);
  return SameContext(copy, c) && Parsed(bytes);
}
static Str ShowCtx(const Ctx& c) {
  return F("app '%s' version %d suite %d peer %s local %s fp '%s' '%s' resumed %d", ShowStr(c.app).c_str(), c.ver, c.suite, ShowId(c.peer).c_str(), ShowId(c.local).c_str(), ShowStr(c.peer_fp).c_str(), ShowStr(c.local_fp).c_str(), c.resumed);
}
static void Contexts() {
  const Id ids[] = {Id(), Id{1, "spiffe://x"}, Id{2, "host"}, Id{3, "uid"}, Id{1, ""}, Id{2, ""}, Id{3, ""}, Id{2, Str("a\0b", 3)}};
  const Str fps[] = {"", "f", Str("\0", 1), Str("a\0b\xff", 4), Pat(32, 3)}, apps[] = {"", "grpc", Str("a\0b", 3)};
  Section("x_product");
  for (int v = 0; v < 2; v++)
    for (int s = 0; s < 3; s++)
      for (auto& pe : ids)
        for (auto& lo : ids)
          for (int fp = 0; fp < 25; fp++)
            for (auto& a : apps)
              for (int re = 0; re < 2; re++)
                if (Case()) {
                  Ctx c;
                  c.ver = v; c.suite = s; c.peer = pe; c.local = lo; c.peer_fp = fps[fp / 5]; c.local_fp = fps[fp % 5]; c.app = a; c.resumed = re;
                  Desc(ShowCtx(c));
                  RoundTrip(c);
                }
  Ctx mid;
  mid.app = "app"; mid.ver = 1; mid.suite = 2; mid.peer = Id{1, "pe"}; mid.local = Id{3, "lo"}; mid.peer_fp = "P"; mid.local_fp = "L"; mid.resumed = true;
  Section("x_lengths");
  for (int field = 0; field < 5; field++)
    for (size_t n : Lengths(Thorough() ? 20000 : 3000))
      if (Case()) {
        Desc("field %d of length %zu", field, n);
        Ctx c = mid;
        if (field == 0) c.app = Txt(n, n);
        if (field == 1) c.peer = Id{1 + (int)n % 3, Txt(n, n)};
        if (field == 2) c.local = Id{1 + (int)n % 3, Txt(n, n)};
        if (field == 3) c.peer_fp = Pat(n, n);
        if (field == 4) c.local_fp = Pat(n, n);
        RoundTrip(c);
      }
  Section("x_chars");
  for (int ch = 0; ch < 256; ch++)
    for (int pos = 0; pos < 4; pos++)
      if (Case()) {
        Desc("byte %02x at %d", ch, pos);
        Str s = Str("abc").insert(pos, 1, (char)ch), t = ch < 128 ? s : Str("abc").insert(pos, Str{(char)(0xc0 | ch >> 6), (char)(0x80 | (ch & 63))});
        Ctx c = mid;
        c.peer_fp = s; c.local_fp = s + s; c.app = t; c.peer = Id{1 + ch % 3, t + "p"}; c.local = Id{1 + (ch + pos) % 3, t + "l"};
        RoundTrip(c);
      }
  // enumerators that do not exist are refused by the serializer
  Section("x_enums");
  for (int v = -3; v < 300; v++)
    for (int which = 0; which < 2; which++)
      if (Case()) {
        Desc("%s %d", which ? "ciphersuite" : "TLS version", v);
        S2AContext x("a", which ? Opt::TlsVersion::TLS1_3 : (Opt::TlsVersion)v, which ? (Opt::Ciphersuite)v : Opt::Ciphersuite::AES_128_GCM_SHA256, ToOpt(kA), ToOpt(kB), "p", "l", false);
        bool valid = v >= 0 && v < (which ? 3 : 2);
        auto s = x.GetSerializedContext();
        if ((s.index() == 1) != valid) Fail("%s", valid ? "refused" : "serialized");
        else if (!valid && absl::get<0>(s).ok()) Fail("nothing serialized, yet OK");
        Parsed(pb::B(1, "a") + pb::V(which ? 3 : 2, (uint64_t)(int64_t)v));
        Parsed(pb::B(1, "a") + pb::V(which ? 3 : 2, (uint32_t)v));
      }
  const Str base = EncCtx(mid);
  Ctx sm; sm.ver = 1; sm.suite = 1; sm.local = Id{2, "l"}; sm.peer_fp = "f";
  const Str small = EncCtx(sm, true);
  Section("x_truncate");
  for (const Str* b : {&base, &small})
    for (size_t n = 0; n <= b->size(); n++)
      if (Case()) { Desc("%s encoding cut to %zu", b == &base ? "full" : "small", n); Parsed(b->substr(0, n)); }
  Section("x_bytes");
  for (const Str* b : {&base, &small})
    for (size_t i = 0; i < b->size(); i++)
      for (int v = 0; v < 256; v++)
        if (Case()) { Desc("%s encoding, byte %zu = %02x", b == &base ? "full" : "small", i, v); Str s = *b; s[i] = (char)v; Parsed(s); }
  Section("x_insert");
  for (const Str* b : {&base, &small})
    for (size_t i = 0; i <= b->size(); i++)
      for (int v = 0; v < 256; v++)
        if (Case()) { Desc("%s encoding, %02x inserted at %zu", b == &base ? "full" : "small", v, i); Parsed(Str(*b).insert(i, 1, (char)v)); }
  // Two bytes altered: all values of all pairs (thorough), or values that matter to the encoding.
  Section("x_two_bytes");
  {
    std::vector<int> vals;
    if (Thorough()) for (int v = 0; v < 256; v++) vals.push_back(v);
    else vals = {0, 1, 2, 3, 8, 0x0a, 0x10, 0x18, 0x1a, 0x22, 0x2a, 0x32, 0x40, 0x4a, 0x7f, 0x80, 0xff};
    for (const Str* b : {&base, &small}) {
      if (Thorough() && b == &base) continue;
      for (size_t i = 0; i < b->size(); i++)
        for (size_t j = i + 1; j < b->size(); j++)
          for (int v : vals)
            for (int w : vals)
              if (Case()) { Desc("%s encoding, bytes %zu,%zu = %02x,%02x", b == &base ? "full" : "small", i, j, v, w); Str s = *b; s[i] = (char)v; s[j] = (char)w; Parsed(s); }
    }
  }
  Section("x_short");
  for (int n = 0; n <= (Thorough() ? 3 : 2); n++)
    for (int v = 0; v < 1 << (8 * n); v++)
      if (Case()) {
        Str s;
        for (int k = 0; k < n; k++) s += (char)(v >> (8 * k));
        Desc("bytes %s", ref::Hex((const uint8_t*)s.data(), n).c_str());
        Parsed(s);
      }
  Section("x_pieces");
  const Str pieces[] = {pb::B(1, "a"), pb::V(2, 1), pb::V(2, 2), pb::V(3, 2), pb::V(3, 3), pb::B(4, ""), pb::B(4, pb::B(1, "x")), pb::B(4, pb::B(2, "y")), pb::B(5, pb::B(4, "z")), pb::B(6, "\xff"), pb::B(7, Str("\0", 1)), pb::V(8, 2), pb::V(9, 1), pb::B(1, "\xff"), Str("\x22", 1)};
  Histories(15, Thorough() ? 6 : 5, [&](const std::vector<int>& seq) {
    Str s;
    for (int o : seq) s += pieces[o];
    Desc("pieces %s", ref::Hex((const uint8_t*)s.data(), s.size()).c_str());
    Parsed(s);
  }, 0);
}

// ============================================================ C24: ticket requests
static bool Ticket(uint64_t conn, const Id& id, const std::vector<Str>& tickets, bool null = false) {
  Count("requests");
  upb::Arena arena;
  s2a_proto_SessionReq* req = s2a_proto_SessionReq_new(arena.ptr());
  std::unique_ptr<std::vector<std::unique_ptr<std::string>>> t;
  if (!null) {
    t.reset(new std::vector<std::unique_ptr<std::string>>);
    for (auto& s : tickets) t->push_back(std::unique_ptr<std::string>(new std::string(s)));
  }
  Opt::Identity oid = ToOpt(id);  // the request refers to it
  bool ok = s2a::s2a_ticket_sender::PrepareResumptionTicketReq(conn, oid, t, arena.ptr(), req), want = id.type && !null;
  if (ok != want) { Fail("request %s", ok ? "prepared" : "refused"); return false; }
  if (!ok) return true;
  if (!t || t->size() != tickets.size()) { Fail("ticket list changed"); return false; }
  for (size_t i = 0; i < tickets.size(); i++) if (!(*t)[i] || *(*t)[i] != tickets[i]) { Fail("ticket %zu changed", i); return false; }
  size_t n;
  char* b = s2a_proto_SessionReq_serialize(req, arena.ptr(), &n);
  pb::Msg m;
  if (!b || pb::Decode(Str(b, n), pb::Req(), &m) != pb::GOOD || m.unknown) { Fail("not a valid SessionReq"); return false; }
  if (m.M(1) || m.M(2) || m.M(3) || !m.M(4) || !m.rmsg[5].empty()) { Fail("not a resumption ticket request"); return false; }
  pb::Msg q = *m.M(4);
  if (q.Var(2) != conn) { Fail("connection id %s", U64(q.Var(2)).c_str()); return false; }
  if (!q.M(3) || !(FromMsg(q.M(3)) == id) || q.M(3)->rmsg.count(3)) { Fail("identity %s", ShowId(FromMsg(q.M(3))).c_str()); return false; }
  if (q.rstr[1] != tickets) { Fail("tickets differ (%zu sent, %zu given)", q.rstr[1].size(), tickets.size()); return false; }
  return true;
}
static void Tickets() {
  const Id ids[] = {Id(), Id{1, "s"}, Id{2, "h"}, Id{3, "u"}, Id{1, ""}, Id{2, Str("a\0b", 3)}, Id{3, Txt(300, 4)}};
  Section("t_conn");
  for (auto& i : ids)
    for (int b = 0; b < 64; b++)
      for (int d = -1; d <= 1; d++)
        if (Case()) { uint64_t c = (1ull << b) + d; Desc("connection %s identity %s", U64(c).c_str(), ShowId(i).c_str()); Ticket(c, i, {"t"}); }
  Section("t_null");
  for (auto& i : ids) if (Case()) { Desc("no ticket list, identity %s", ShowId(i).c_str()); Ticket(5, i, {}, true); }
  // lists of up to 5 (6) tickets, each of one of 5 kinds
  Section("t_lists");
  const Str kinds[] = {"", "a", Str("\0\0", 2), Pat(130, 4), Str("\xff\x00zz", 4)};
  for (int n = 0; n <= (Thorough() ? 8 : 7); n++) {
    int total = 1;
    for (int k = 0; k < n; k++) total *= 5;
    for (int x = 0; x < total; x++)
      for (auto& i : ids)
        if (Case()) {
          std::vector<Str> t;
          Str d;
          for (int k = 0, y = x; k < n; k++, y /= 5) { t.push_back(kinds[y % 5]); d += std::to_string(y % 5); }
          Desc("tickets [%s] identity %s", d.c_str(), ShowId(i).c_str());
          Ticket(9, i, t);
        }
  }
  Section("t_lengths");
  for (size_t n : Lengths(Thorough() ? 140000 : 20000))
    if (Case()) { Desc("tickets of %zu, 0 and %zu bytes", n, n + 1); Ticket(n, Id{1 + (int)n % 3, Txt(n % 300, 7)}, {Pat(n, 1), "", Pat(n + 1, 2)}); }
  for (size_t n : {(size_t)16384, (size_t)65535, (size_t)65536, (size_t)500000})
    if (Case()) { Desc("a ticket of %zu bytes", n); Ticket(1, kA, {Pat(n, 1), Pat(n, 2)}); }
  Section("t_many");
  for (size_t n : Thorough() ? Lengths(20000) : Lengths(2000))
    if (n <= 4097 && Case()) { Desc("%zu tickets", n); std::vector<Str> t; for (size_t k = 0; k < n; k++) t.push_back(Pat(k % 7, k)); Ticket(n, kB, t); }
  Section("t_total");
  for (size_t each : {1000, 100000, 1000000, 4194304, 5000000, 16777219})
    for (size_t n : {1, 3, 5, 6, 10, 50}) {
      if (each * n > 90000000) continue;
      if (Case()) { Desc("%zu tickets of %zu bytes", n, each); std::vector<Str> t; for (size_t k = 0; k < n; k++) t.push_back(Pat(each, k)); t.push_back("last"); Ticket(n, kB, t); }
    }
  Section("t_chars");
  for (int c = 0; c < 256; c++)
    if (Case()) { Desc("byte %02x", c); Str u = c < 128 ? Str(1, (char)c) : Str{(char)(0xc0 | c >> 6), (char)(0x80 | (c & 63))}; for (int t = 1; t < 4; t++) Ticket(c, Id{t, u}, {Str(1, (char)c), Str("a") + (char)c + "b"}); }
  Section("t_hash");
  for (int v = -300; v <= 300; v++)
    if (Case()) {
      Desc("ciphersuite %d", v);
      s2a::hkdf::HashFunction h;
      memset(&h, 0x5a, sizeof h);
      absl::Status st = s2a::CiphersuiteToHashFunction((Opt::Ciphersuite)v, &h);
      Count("requests");
      bool valid = v >= 0 && v <= 2;
      if (st.ok() != valid) { Fail("%s", valid ? "refused" : "accepted"); continue; }
      if (valid && h != (v == 1 ? s2a::hkdf::HashFunction::SHA384_hash_function : s2a::hkdf::HashFunction::SHA256_hash_function)) Fail("wrong hash");
    }
}

int main(int argc, char** argv) {
  Init(argc, argv);
  if (Want("protocol")) Protocol();
  if (Want("requests")) Requests();
  if (Want("responses")) Responses();
  if (Want("contexts")) Contexts();
  if (Want("tickets")) Tickets();
  return Finish();
}
