// Tiny exploration framework shared by all harnesses: deterministic enumeration
// of numbered cases, sharding, counters, crash-proof "current case" record.
#ifndef VERIF_HARNESS_H_H_
#define VERIF_HARNESS_H_H_
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

#include "ref/ref.h"

namespace h {

struct State {
  std::string tier = "quick", section_filter, stats, casefile;
  bool frozen = false;              // inputs are read-only pages, and only stores to them count
  std::string frozen_sections;
  int shard = 0, nshards = 1;
  long long only = -1;
  std::string section;
  long long index = -1;
  std::map<std::string, uint64_t> counters;
  std::set<std::string> outcomes;
  std::unordered_set<uint64_t> distinct, states;
  std::map<std::string, std::string> samples;
  std::map<std::string, uint64_t> section_cases;
  std::vector<std::string> fails;
  std::set<std::string> findings;
  char* shm = nullptr;
  bool active = false;
  size_t max_fails = 3;
};
static const size_t kShm = 16384;  // followed by a heartbeat of 8 bytes
State& S();

void Init(int argc, char** argv);
int Finish();
inline bool Thorough() { return S().tier == "thorough"; }
inline bool Want(const std::string& section) {
  return S().section_filter.empty() || ("," + S().section_filter + ",").find("," + section + ",") != std::string::npos;
}
void Section(const std::string& name);
// Next case; true if this process must run it.
bool Case();
// Tells check.py that the process makes progress (done by Case and Count).
inline void Beat() { ++*reinterpret_cast<volatile uint64_t*>(S().shm + kShm); }
// Describes the current case (stored where a crash cannot lose it).
void Desc(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void Desc(const std::string& s);
void Fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
inline void Count(const std::string& k, uint64_t n = 1) { S().counters[k] += n; Beat(); }
inline void Outcome(const std::string& s) { if (S().outcomes.size() < 4096) S().outcomes.insert(s); }
// Records a state of the model / of the observed system (merged over shards by hash).
inline void St(const std::string& key);
void Finding(const std::string& s);
std::string F(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
uint64_t Fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull);
inline uint64_t Fnv(const std::string& s, uint64_t h = 1469598103934665603ull) { return Fnv(s.data(), s.size(), h); }

inline void St(const std::string& key) { S().states.insert(Fnv(key)); }

// Memory for the buffers given to the code under test.  In most cases every buffer
// is a new heap block.  In every fourth case buffers come from a stack of memory
// instead, so that, as in real use, later calls get other bytes at the same
// addresses.  Both are guarded by ASan on both ends.
uint8_t* Alloc(size_t n);
void Free(uint8_t* p);
// The same for memory that only the caller may write: with --frozen it lies in pages of its own
// that are read-only after Freeze, so that any store into an input ends the case.
uint8_t* AllocIn(size_t n);
void Freeze(uint8_t* p);
void FreeIn(uint8_t* p);

// A heap buffer of exactly n bytes (malloc'ed, so ASan guards both ends) filled with a value.
struct Buf {
  uint8_t* p;
  size_t n;
  bool in;
  explicit Buf(size_t n_, int fill = 0xEE) : p(Alloc(n_)), n(n_), in(false) { memset(p, fill, n_ ? n_ : 1); }
  Buf(const ref::Bytes& b) : p(AllocIn(b.size())), n(b.size()), in(true) { if (n) memcpy(p, b.data(), n); Freeze(p); }  // an input
  ~Buf() { if (in) FreeIn(p); else Free(p); }
  Buf(const Buf&) = delete;
  Buf& operator=(const Buf&) = delete;
  ref::Bytes bytes(size_t k) const { return ref::Bytes(p, p + k); }
};

// Fragments owned one by one, so an over-read of any fragment is caught.
template <class IovecT>
struct Frags {
  std::vector<uint8_t*> own;
  std::vector<IovecT> v;
  Frags() {}
  Frags(const ref::Bytes& b) { Add(b.data(), b.size()); }
  // sizes: fragment lengths (sum = b.size()); nul: fragments of length 0 get a null base
  Frags(const ref::Bytes& b, const std::vector<size_t>& sizes, bool nul = false) {
    size_t o = 0;
    for (size_t s : sizes) {
      if (s == 0 && nul) {
        v.push_back(IovecT{nullptr, 0});
      } else {
        Add(b.data() + o, s);
      }
      o += s;
    }
    if (o != b.size()) { fprintf(stderr, "harness: bad split\n"); exit(2); }
  }
  void Add(const uint8_t* d, size_t n) {
    uint8_t* p = AllocIn(n);
    if (n) memcpy(p, d, n);
    Freeze(p);
    own.push_back(p);
    v.push_back(IovecT{p, n});
  }
  ~Frags() { for (size_t i = own.size(); i-- > 0;) FreeIn(own[i]); }
  // All pieces inside one allocation of b's size: in order, so that each begins
  // where the one before ends, or in reverse order.
  enum Layout { FORWARD, BACKWARD };
  Frags(const ref::Bytes& b, const std::vector<size_t>& sizes, Layout l) {
    uint8_t* p = AllocIn(b.size());
    own.push_back(p);
    size_t o = 0;
    for (size_t s : sizes) {
      uint8_t* at = p + (l == FORWARD ? o : b.size() - o - s);
      if (s) memcpy(at, b.data() + o, s);
      v.push_back(IovecT{at, s});
      o += s;
    }
    Freeze(p);
    if (o != b.size()) { fprintf(stderr, "harness: bad split\n"); exit(2); }
  }
  // Pieces that are windows (offset, length) of one buffer: they may be equal,
  // overlap, touch, or come in any order.  flat: their concatenation.
  Frags(const ref::Bytes& base, const std::vector<std::pair<size_t, size_t>>& w, ref::Bytes* flat) {
    uint8_t* p = AllocIn(base.size());
    memcpy(p, base.data(), base.size());
    Freeze(p);
    own.push_back(p);
    flat->clear();
    for (auto& x : w) {
      v.push_back(IovecT{p + x.first, x.second});
      flat->insert(flat->end(), p + x.first, p + x.first + x.second);
    }
  }
  Frags(const Frags&) = delete;
  Frags& operator=(const Frags&) = delete;
};

// All weak compositions of n into exactly k parts.
void WeakCompositions(size_t n, size_t k, const std::function<void(const std::vector<size_t>&)>& f);
// All compositions of n into positive parts (2^(n-1)).
void Compositions(size_t n, const std::function<void(const std::vector<size_t>&)>& f);
std::string Show(const std::vector<size_t>& v);
// A buffer of n bytes in many pieces: for many counts, pieces spread evenly, and runs of
// empty pieces in front, in the middle, behind and between single bytes.
// One case each; f gets the description, the sizes and whether empty pieces are null.
void ManyShapes(size_t n, const std::function<void(const std::string&, const std::vector<size_t>&, bool)>& f);
// Every list of up to `most` windows of a buffer of 40 bytes, out of a set that has equal,
// overlapping, touching, nested and empty ones.  One case each.
typedef std::vector<std::pair<size_t, size_t>> WindowList;
void Windows(size_t most, const std::function<void(const std::string&, const WindowList&)>& f);
// How many nodes of the tree of histories are first reached by this leaf (the
// leaves are visited in lexicographic order): itself and every prefix followed
// by zeros only.  Summed over all leaves this is the number of distinct histories.
inline size_t NewPrefixes(const std::vector<int>& seq) {
  size_t n = seq.empty() ? 0 : 1;
  for (size_t i = seq.size(); i-- > 1 && seq[i] == 0;) n++;
  return n;
}

}  // namespace h
#endif
