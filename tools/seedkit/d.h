#ifndef D_H_
#define D_H_
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <memory>
#include <string>
#include <vector>

#include "absl/types/variant.h"
#include "include/s2a_context.h"
#include "include/s2a_frame_protector.h"
#include "include/s2a_options.h"
#include "include/s2a_proxy.h"
#include "ref.h"
#include "src/crypto/hkdf.h"
#include "src/crypto/s2a_aead_crypter.h"
#include "src/record_protocol/handshake_message_handler.h"
#include "src/record_protocol/s2a_crypter.h"
#include "src/record_protocol/s2a_half_connection.h"
#include "src/record_protocol/s2a_ticket_sender.h"
using ref::Bytes;
using s2a::aead_crypter::Iovec;
using Opt = s2a::s2a_options::S2AOptions;
using Crypter = s2a::record_protocol::S2ACrypter;
using Half = s2a::record_protocol::S2AHalfConnection;
using Frame = s2a::frame_protector::S2AFrameProtector;
using Proxy = s2a::s2a_proxy::S2AProxy;
#define CHECK(c) do { if (!(c)) { printf("line %d: %s does not hold\n", __LINE__, #c); exit(1); } } while (0)
static Bytes operator+(Bytes a, const Bytes& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
static Iovec V(Bytes& b) { return {b.data(), b.size()}; }
static Iovec V(Bytes& b, size_t at, size_t n) { return {b.data() + at, n}; }
static Opt::Ciphersuite Suite(ref::Aead a) {
  return a == ref::AES128 ? Opt::Ciphersuite::AES_128_GCM_SHA256 : a == ref::AES256 ? Opt::Ciphersuite::AES_256_GCM_SHA384 : Opt::Ciphersuite::CHACHA20_POLY1305_SHA256;
}
static Bytes Secret(ref::Aead a, int salt) { return ref::Pattern(ref::HashLen(ref::SuiteHash(a)), salt); }
static std::unique_ptr<s2a::aead_crypter::S2AAeadCrypter> Aes(const Bytes& key) {
  auto r = s2a::aead_crypter::CreateAesGcmAeadCrypter(key);
  CHECK(r.index() == 1);
  return std::move(absl::get<1>(r));
}
static std::unique_ptr<s2a::aead_crypter::S2AAeadCrypter> Chacha(const Bytes& key) {
  auto r = s2a::aead_crypter::CreateChachaPolyAeadCrypter(key);
  CHECK(r.index() == 1);
  return std::move(absl::get<1>(r));
}
struct Sent { std::vector<std::string> tickets; };
static std::vector<Sent>* g_sent = nullptr;
static s2a::s2a_ticket_sender::WaitOnTicketSender KeepTickets(s2a::s2a_ticket_sender::TicketSenderOptions& o) {
  if (g_sent) { g_sent->emplace_back(); for (auto& t : *o.tickets) g_sent->back().tickets.push_back(*t); }
  return nullptr;
}
static std::unique_ptr<Crypter> Connection(ref::Aead a, std::vector<Sent>* sent = nullptr, uint64_t in_seq = 0, uint64_t out_seq = 0) {
  g_sent = sent;
  auto r = Crypter::Create(
      Opt::TlsVersion::TLS1_3, Suite(a), 1, "s2a", Opt::Identity::FromSpiffeId("me"), Secret(a, 1), Secret(a, 2), in_seq, out_seq,
      KeepTickets, nullptr, nullptr, [](const std::string&) {});
  CHECK(r.index() == 1);
  return std::move(absl::get<1>(r));
}
// The peer's sending side.
static ref::Direction Peer(ref::Aead a) { return ref::Direction(a, Secret(a, 1), 0); }
static Crypter::S2ACrypterStatus Open(Crypter* c, Bytes rec, Bytes* out) {
  out->assign(rec.size(), 0);
  std::vector<Iovec> p = {{rec.data() + 5, rec.size() - 5}};
  return c->Unprotect({rec.data(), 5}, p, {out->data(), out->size()});
}
typedef Crypter::S2ACrypterStatusCode Code;
struct Pool { int live = 0; };
static std::unique_ptr<Frame> Protector(ref::Aead a, Pool* pool = nullptr) {
  static std::string url = "s2a";
  static Opt::Identity id = Opt::Identity::FromSpiffeId("me");
  static Bytes in, out;
  in = Secret(a, 1);
  out = Secret(a, 2);
  Frame::S2AFrameProtectorOptions o = {Opt::TlsVersion::TLS1_3, Suite(a), in, out, 0, 0, url, id, 1, nullptr, nullptr,
                                       [pool](size_t n) { if (pool) pool->live++; return Iovec{new uint8_t[n + 1], n}; },
                                       [pool](Iovec v) { if (pool) pool->live--; delete[] (uint8_t*)v.iov_base; }, [](const std::string&) {}};
  auto r = Frame::Create(o);
  CHECK(r.ok());
  return std::move(*r);
}
// Protobuf pieces.
static std::string Vi(uint64_t v) { std::string s; while (v >= 128) { s += (char)(v | 128); v >>= 7; } return s + (char)v; }
static std::string PV(int f, uint64_t v) { return Vi(f << 3) + Vi(v); }
static std::string PB(int f, const std::string& b) { return Vi(f << 3 | 2) + Vi(b.size()) + b; }
static std::unique_ptr<std::vector<char>> Buf(const std::string& s) { return std::unique_ptr<std::vector<char>>(new std::vector<char>(s.begin(), s.end())); }
static std::string Text(const Proxy::ProxyStatus& s) { return s.buffer ? std::string(s.buffer->begin(), s.buffer->end()) : std::string(); }
static std::string OkResult(uint64_t in_seq = 0, uint64_t out_seq = 0) {
  std::string st = PV(1, 1) + (in_seq ? PV(3, in_seq) : "") + (out_seq ? PV(4, out_seq) : "") + PB(5, std::string(32, 'i')) + PB(6, std::string(32, 'o')) + PV(9, 7);
  return PB(4, PB(1, "grpc") + PB(2, st) + PB(4, PB(1, "peer")) + PB(5, PB(2, "local"))) + PB(5, "");
}
struct Tokens : s2a::token_manager::AccessTokenManagerInterface {
  absl::StatusOr<std::string> GetDefaultToken() override { return std::string("default"); }
  absl::StatusOr<std::string> GetToken(const Opt::Identity& i) override { return "token-" + i.GetIdentityString(); }
  std::string DebugName() const override { return "demo"; }
};
static std::unique_ptr<Proxy> MakeProxy(bool client, std::vector<std::string> ids) {
  Proxy::S2AProxyOptions o;
  o.logger = [](const std::string&) {};
  o.is_client = client;
  o.application_protocol = "grpc";
  o.target_hostname = "host";
  o.options.reset(new Opt);
  o.options->set_s2a_address("s2a:1");
  o.options->set_min_tls_version(Opt::TlsVersion::TLS1_3);
  o.options->set_max_tls_version(Opt::TlsVersion::TLS1_3);
  o.options->add_supported_ciphersuite(Opt::Ciphersuite::AES_128_GCM_SHA256);
  for (auto& i : ids) o.options->add_local_spiffe_id(i);
  o.token_manager.reset(new Tokens);
  auto p = Proxy::Create(o);
  CHECK(p != nullptr);
  return p;
}
#endif
