// A protobuf wire-format writer and reader written from the published encoding
// and from src/proto/*.proto; shares nothing with upb or the generated code.
#ifndef VERIF_HARNESS_PB_H_
#define VERIF_HARNESS_PB_H_
#include <cstdint>
#include <map>
#include <memory>
#include <string>
#include <vector>

namespace pb {
typedef std::string Str;

inline void PutVarint(Str* s, uint64_t v, int pad = 0) {
  while (v >= 0x80) { s->push_back((char)(v | 0x80)); v >>= 7; }
  if (!pad) { s->push_back((char)v); return; }
  s->push_back((char)(v | 0x80));  // overlong, still valid
  for (int i = 1; i < pad; i++) s->push_back((char)0x80);
  s->push_back(0);
}
// Field encoders.
inline Str V(int f, uint64_t v) { Str s; PutVarint(&s, (uint64_t)f << 3); PutVarint(&s, v); return s; }
inline Str B(int f, const Str& b) { Str s; PutVarint(&s, (uint64_t)f << 3 | 2); PutVarint(&s, b.size()); return s + b; }
// proto3: default values are left out.
inline Str V0(int f, uint64_t v) { return v ? V(f, v) : Str(); }
inline Str B0(int f, const Str& b) { return b.empty() ? Str() : B(f, b); }

enum Kind { VAR, STR, BYTES, MSG, REPVAR, REPSTR, REPBYTES, REPMSG };
struct FieldSpec { Kind k; const struct Schema* sub; int oneof; };
struct Schema { std::map<int, FieldSpec> f; };

struct Val;
struct Msg {
  std::map<int, uint64_t> var;
  std::map<int, Str> str;
  std::map<int, std::shared_ptr<Msg>> msg;
  std::map<int, std::vector<uint64_t>> rvar;
  std::map<int, std::vector<Str>> rstr;
  std::map<int, std::vector<std::shared_ptr<Msg>>> rmsg;
  bool unknown = false;  // an unknown field was seen here or below
  uint64_t Var(int n) const { auto i = var.find(n); return i == var.end() ? 0 : i->second; }
  Str S(int n) const { auto i = str.find(n); return i == str.end() ? Str() : i->second; }
  const Msg* M(int n) const { auto i = msg.find(n); return i == msg.end() ? nullptr : i->second.get(); }
  bool Has(int n) const { return var.count(n) || str.count(n) || msg.count(n); }
  void Clear(int n) { var.erase(n); str.erase(n); msg.erase(n); }
};

inline bool GetVarint(const Str& s, size_t* i, size_t e, uint64_t* v) {
  *v = 0;
  for (int k = 0; k < 10; k++) {
    if (*i >= e) return false;
    unsigned c = (unsigned char)s[(*i)++];
    if (k == 9 && c > 1) return false;
    *v |= (uint64_t)(c & 127) << (7 * k);
    if (c < 128) return true;
  }
  return false;
}
inline bool Utf8(const Str& s) {
  for (size_t i = 0; i < s.size();) {
    unsigned c = (unsigned char)s[i];
    int n = c < 0x80 ? 0 : (c >> 5) == 6 ? 1 : (c >> 4) == 14 ? 2 : (c >> 3) == 30 ? 3 : -1;
    if (n < 0) return false;
    uint32_t cp = n == 0 ? c : c & (0x3f >> n);
    for (int k = 1; k <= n; k++) {
      if (i + k >= s.size() || ((unsigned char)s[i + k] >> 6) != 2) return false;
      cp = cp << 6 | ((unsigned char)s[i + k] & 0x3f);
    }
    if (n && cp < (n == 1 ? 0x80u : n == 2 ? 0x800u : 0x10000u)) return false;
    if (cp > 0x10ffff || (cp >= 0xd800 && cp <= 0xdfff)) return false;
    i += n + 1;
  }
  return true;
}
enum Verdict { BAD, GOOD, UNSURE };
inline Verdict Worse(Verdict a, Verdict b) { return a == BAD || b == BAD ? BAD : a == UNSURE || b == UNSURE ? UNSURE : GOOD; }

// Verdict BAD: not an encoding.  UNSURE: decoders may differ (oversized tags,
// over-deep nesting).
inline Verdict Decode(const Str& s, size_t i, size_t e, const Schema* sc, Msg* m, int depth = 0, int group = 0) {
  static const Schema none;
  if (depth > 50) return UNSURE;
  Verdict r = GOOD;
  while (i < e) {
    uint64_t tag, v = 0;
    size_t t0 = i;
    if (!GetVarint(s, &i, e, &tag)) return r == UNSURE ? UNSURE : BAD;
    if (i - t0 > 5 || tag > 0xffffffffull) return UNSURE;
    int num = (int)(tag >> 3), wt = tag & 7;
    if (num == 0) return BAD;
    auto it = sc->f.find(num);
    FieldSpec* none_spec = nullptr;
    const FieldSpec* f = it == sc->f.end() ? none_spec : &it->second;
    Str b;
    switch (wt) {
      case 0: if (!GetVarint(s, &i, e, &v)) return BAD; break;
      case 1: if (e - i < 8) return BAD; i += 8; break;
      case 5: if (e - i < 4) return BAD; i += 4; break;
      case 2:
        if (!GetVarint(s, &i, e, &v) || v > e - i) return BAD;
        b = s.substr(i, v);
        i += v;
        break;
      case 3: {
        // skip a group: find its end by decoding it with no known fields
        int open = 1;
        std::vector<int> st(1, num);
        while (open) {
          uint64_t t2, x;
          size_t g0 = i;
          if (!GetVarint(s, &i, e, &t2)) return BAD;
          if (i - g0 > 5 || t2 > 0xffffffffull || (t2 >> 3) == 0) return UNSURE;
          if ((t2 & 7) == 0) { if (!GetVarint(s, &i, e, &x)) return BAD; }
          else if ((t2 & 7) == 1) { if (e - i < 8) return BAD; i += 8; }
          else if ((t2 & 7) == 5) { if (e - i < 4) return BAD; i += 4; }
          else if ((t2 & 7) == 2) { if (!GetVarint(s, &i, e, &x) || x > e - i) return BAD; i += x; }
          else if ((t2 & 7) == 3) { st.push_back((int)(t2 >> 3)); open++; if (open > 40) return UNSURE; }
          else if ((t2 & 7) == 4) { if (st.back() != (int)(t2 >> 3)) return BAD; st.pop_back(); open--; }
          else return BAD;
        }
        break;
      }
      default: return BAD;
    }
    bool lenk = f && (f->k == STR || f->k == BYTES || f->k == MSG || f->k == REPSTR || f->k == REPBYTES || f->k == REPMSG);
    bool match = f && ((lenk && wt == 2) || (!lenk && wt == 0) || (f->k == REPVAR && wt == 2));
    if (!match) { m->unknown = true; continue; }
    if (f->oneof) {
      // setting one member clears the others
      for (auto& o : sc->f) if (o.second.oneof == f->oneof && o.first != num) m->Clear(o.first);
    }
    switch (f->k) {
      case VAR: m->var[num] = v; break;
      case REPVAR:
        if (wt == 0) m->rvar[num].push_back(v);
        else for (size_t j = 0; j < b.size();) { if (!GetVarint(b, &j, b.size(), &v)) return BAD; m->rvar[num].push_back(v); }
        break;
      case STR: case REPSTR: if (!Utf8(b)) return BAD;  // fallthrough
      case BYTES: case REPBYTES: if (f->k == STR || f->k == BYTES) m->str[num] = b; else m->rstr[num].push_back(b); break;
      case MSG: case REPMSG: {
        std::shared_ptr<Msg> sub;
        if (f->k == MSG) { auto& p = m->msg[num]; if (!p) p = std::make_shared<Msg>(); sub = p; }
        else { sub = std::make_shared<Msg>(); m->rmsg[num].push_back(sub); }
        r = Worse(r, Decode(b, 0, b.size(), f->sub, sub.get(), depth + 1));
        if (r == BAD) return BAD;
        if (sub->unknown) m->unknown = true;
        break;
      }
    }
  }
  return r;
}

// ------------------------------------------------- messages of src/proto/*.proto
inline const Schema* MapEntry() { static const Schema s{{{1, {STR, nullptr, 0}}, {2, {STR, nullptr, 0}}}}; return &s; }
inline const Schema* Identity() {
  static const Schema s{{{1, {STR, nullptr, 1}}, {2, {STR, nullptr, 1}}, {4, {STR, nullptr, 1}}, {3, {REPMSG, MapEntry(), 0}}}};
  return &s;
}
inline const Schema* Auth() { static const Schema s{{{1, {MSG, Identity(), 0}}, {2, {STR, nullptr, 1}}}}; return &s; }
inline const Schema* ClientStart() {
  static const Schema s{{{1, {REPSTR, nullptr, 0}}, {2, {VAR, nullptr, 0}}, {3, {VAR, nullptr, 0}}, {4, {REPVAR, nullptr, 0}}, {5, {REPMSG, Identity(), 0}}, {6, {MSG, Identity(), 0}}, {7, {STR, nullptr, 0}}}};
  return &s;
}
inline const Schema* ServerStart() {
  static const Schema s{{{1, {REPSTR, nullptr, 0}}, {2, {VAR, nullptr, 0}}, {3, {VAR, nullptr, 0}}, {4, {REPVAR, nullptr, 0}}, {5, {REPMSG, Identity(), 0}}, {6, {BYTES, nullptr, 0}}}};
  return &s;
}
inline const Schema* Next() { static const Schema s{{{1, {BYTES, nullptr, 0}}}}; return &s; }
inline const Schema* Ticket() { static const Schema s{{{1, {REPBYTES, nullptr, 0}}, {2, {VAR, nullptr, 0}}, {3, {MSG, Identity(), 0}}}}; return &s; }
inline const Schema* Req() {
  static const Schema s{{{1, {MSG, ClientStart(), 1}}, {2, {MSG, ServerStart(), 1}}, {3, {MSG, Next(), 1}}, {4, {MSG, Ticket(), 1}}, {5, {REPMSG, Auth(), 0}}}};
  return &s;
}
inline const Schema* State() {
  static const Schema s{{{1, {VAR, nullptr, 0}}, {2, {VAR, nullptr, 0}}, {3, {VAR, nullptr, 0}}, {4, {VAR, nullptr, 0}}, {5, {BYTES, nullptr, 0}}, {6, {BYTES, nullptr, 0}}, {7, {BYTES, nullptr, 0}}, {8, {BYTES, nullptr, 0}}, {9, {VAR, nullptr, 0}}, {10, {VAR, nullptr, 0}}}};
  return &s;
}
inline const Schema* Result() {
  static const Schema s{{{1, {STR, nullptr, 0}}, {2, {MSG, State(), 0}}, {4, {MSG, Identity(), 0}}, {5, {MSG, Identity(), 0}}, {6, {BYTES, nullptr, 0}}, {7, {BYTES, nullptr, 0}}}};
  return &s;
}
inline const Schema* Status() { static const Schema s{{{1, {VAR, nullptr, 0}}, {2, {STR, nullptr, 0}}}}; return &s; }
inline const Schema* Resp() {
  static const Schema s{{{1, {MSG, Identity(), 0}}, {2, {BYTES, nullptr, 0}}, {3, {VAR, nullptr, 0}}, {4, {MSG, Result(), 0}}, {5, {MSG, Status(), 0}}}};
  return &s;
}
inline const Schema* Context() {
  static const Schema s{{{1, {STR, nullptr, 0}}, {2, {VAR, nullptr, 0}}, {3, {VAR, nullptr, 0}}, {4, {MSG, Identity(), 0}}, {5, {MSG, Identity(), 0}}, {6, {BYTES, nullptr, 0}}, {7, {BYTES, nullptr, 0}}, {8, {VAR, nullptr, 0}}}};
  return &s;
}
inline Verdict Decode(const Str& s, const Schema* sc, Msg* m) { return Decode(s, 0, s.size(), sc, m); }
}  // namespace pb
#endif
