#include "harness/h.h"

#include <map>
#include <unordered_map>

namespace h {
State& S() { static State s; return s; }

uint64_t Fnv(const void* p, size_t n, uint64_t x) {
  const unsigned char* c = (const unsigned char*)p;
  for (size_t i = 0; i < n; i++) x = (x ^ c[i]) * 1099511628211ull;
  return x;
}
std::string F(const char* fmt, ...) {
  char b[8192];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  return b;
}
void Init(int argc, char** argv) {
  State& s = S();
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string k = argv[i], v = argv[i + 1];
    if (k == "--tier") s.tier = v;
    else if (k == "--shard") s.shard = atoi(v.c_str());
    else if (k == "--nshards") s.nshards = atoi(v.c_str());
    else if (k == "--section") s.section_filter = v;
    else if (k == "--only") s.only = atoll(v.c_str());
    else if (k == "--stats") s.stats = v;
    else if (k == "--frozen") { s.frozen = true; s.frozen_sections = "," + (Thorough() ? std::string("*") : v) + ","; }
    else if (k == "--casefile") s.casefile = v;
    else { fprintf(stderr, "bad argument %s\n", k.c_str()); exit(2); }
  }
  std::string err = ref::SelfTest();
  if (!err.empty()) { fprintf(stderr, "reference self test failed: %s\n", err.c_str()); exit(2); }
  if (!s.casefile.empty()) {
    int fd = open(s.casefile.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd < 0 || ftruncate(fd, kShm + 8) != 0) { perror("casefile"); exit(2); }
    s.shm = (char*)mmap(nullptr, kShm + 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    close(fd);
  } else {
    s.shm = (char*)calloc(1, kShm + 8);
  }
}
void Section(const std::string& name) {
  S().section = name;
  S().index = -1;
}
#ifdef __SANITIZE_ADDRESS__
}
extern "C" void __asan_poison_memory_region(const volatile void*, size_t);
extern "C" void __asan_unpoison_memory_region(const volatile void*, size_t);
namespace h {
static bool g_stack = false;
static const size_t kStack = (size_t)1 << 30, kZone = 32;
static uint8_t* g_base = nullptr;
struct Block { uint8_t* p; size_t n; bool live; };
static std::vector<Block>& Blocks() { static std::vector<Block> b; return b; }
uint8_t* Alloc(size_t n) {
  if (n == 0) n = 1;
  if (!g_stack || n > (1 << 24)) return (uint8_t*)malloc(n);
  if (!g_base) {
    g_base = (uint8_t*)mmap(nullptr, kStack, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (g_base == MAP_FAILED) { perror("mmap"); exit(2); }
  }
  auto& b = Blocks();
  uint8_t* p = b.empty() ? g_base + kZone : b.back().p + (b.back().n + 15) / 16 * 16 + kZone;
  if (p + n + 2 * kZone > g_base + kStack) return (uint8_t*)malloc(n);
  b.push_back({p, n, true});
  __asan_poison_memory_region(p - kZone, n + 2 * kZone + 16);
  __asan_unpoison_memory_region(p, n);
  return p;
}
void Free(uint8_t* p) {
  if (!g_base || p < g_base || p >= g_base + kStack) { free(p); return; }
  auto& b = Blocks();
  for (size_t i = b.size(); i-- > 0;)
    if (b[i].p == p) {
      b[i].live = false;
      __asan_poison_memory_region(p, (b[i].n + 15) / 16 * 16);
      break;
    }
  while (!b.empty() && !b.back().live) b.pop_back();
}
static void NewCase(long long index) { g_stack = ((uint64_t)index * 0x9E3779B97F4A7C15ull >> 40) % 4 == 3; }
#else
uint8_t* Alloc(size_t n) { return (uint8_t*)malloc(n ? n : 1); }
void Free(uint8_t* p) { free(p); }
static void NewCase(long long) {}
#endif
// Inputs in read-only pages.
static std::map<size_t, std::vector<uint8_t*>> g_free_in;    // by number of pages
static std::unordered_map<uint8_t*, std::pair<uint8_t*, size_t>> g_in;  // block -> its pages
uint8_t* AllocIn(size_t n) {
  if (!S().frozen || n > (1 << 24)) return Alloc(n);
  if (n == 0) n = 1;
  size_t size = (n + 4095) / 4096 * 4096;
  auto& f = g_free_in[size];
  uint8_t* base;
  if (!f.empty()) { base = f.back(); f.pop_back(); }
  else {
    base = (uint8_t*)mmap(nullptr, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (base == MAP_FAILED) { perror("mmap"); exit(2); }
  }
  uint8_t* p = base + size - n;
  g_in[p] = {base, size};
  return p;
}
void Freeze(uint8_t* p) {
  if (!S().frozen) return;
  auto it = g_in.find(p);
  if (it == g_in.end()) return;
  if (mprotect(it->second.first, it->second.second, PROT_READ)) { perror("mprotect"); exit(2); }
  static uint64_t& frozen = S().counters["frozen_inputs"];
  frozen++;
}
void FreeIn(uint8_t* p) {
  if (!S().frozen) { Free(p); return; }
  auto it = g_in.find(p);
  if (it == g_in.end()) { Free(p); return; }
  if (mprotect(it->second.first, it->second.second, PROT_READ | PROT_WRITE)) { perror("mprotect"); exit(2); }
  g_free_in[it->second.second].push_back(it->second.first);
  g_in.erase(it);
}
bool Case() {
  State& s = S();
  if (s.frozen && s.frozen_sections != ",*," && s.frozen_sections.find("," + s.section + ",") == std::string::npos) return false;
  s.index++;
  Beat();
  s.active = s.only >= 0 ? s.index == s.only : (s.index % s.nshards) == s.shard;
  if (!s.active) return false;
  NewCase(s.index);
  s.section_cases[s.section]++;
  snprintf(s.shm, kShm, "%s:%lld ", s.section.c_str(), s.index);
  return true;
}
void Desc(const std::string& d) {
  State& s = S();
  snprintf(s.shm, kShm, "%s:%lld %s", s.section.c_str(), s.index, d.c_str());
  if (s.distinct.size() < 20000000) s.distinct.insert(Fnv(d, Fnv(s.section)));
  if (s.samples.size() < 24 && !s.samples.count(s.section)) s.samples[s.section] = s.shm;
}
void Desc(const char* fmt, ...) {
  char b[8192];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  Desc(std::string(b));
}
void Fail(const char* fmt, ...) {
  char b[8192];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  State& s = S();
  if (s.frozen) { Count("results_not_judged"); return; }  // only the inputs are at stake
  std::string m = std::string(s.shm) + " -> " + b;
  printf("FAIL %s\n", m.c_str());
  fflush(stdout);
  s.fails.push_back(m);
  if (s.fails.size() >= s.max_fails) { Finish(); _exit(3); }
}
void Finding(const std::string& f) { S().findings.insert(f); }

static std::string Esc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}
int Finish() {
  State& s = S();
  if (!s.stats.empty()) {
    FILE* f = fopen(s.stats.c_str(), "w");
    if (!f) { perror("stats"); exit(2); }
    fprintf(f, "{\"counters\":{");
    const char* sep = "";
    for (auto& c : s.counters) { fprintf(f, "%s\"%s\":%llu", sep, Esc(c.first).c_str(), (unsigned long long)c.second); sep = ","; }
    fprintf(f, "},\"sections\":{");
    sep = "";
    for (auto& c : s.section_cases) { fprintf(f, "%s\"%s\":%llu", sep, Esc(c.first).c_str(), (unsigned long long)c.second); sep = ","; }
    fprintf(f, "},\"distinct\":%llu,\"outcomes\":[", (unsigned long long)s.distinct.size());
    sep = "";
    for (auto& c : s.outcomes) { fprintf(f, "%s\"%s\"", sep, Esc(c).c_str()); sep = ","; }
    fprintf(f, "],\"samples\":[");
    sep = "";
    for (auto& c : s.samples) { fprintf(f, "%s\"%s\"", sep, Esc(c.second).c_str()); sep = ","; }
    fprintf(f, "],\"findings\":[");
    sep = "";
    for (auto& c : s.findings) { fprintf(f, "%s\"%s\"", sep, Esc(c).c_str()); sep = ","; }
    fprintf(f, "],\"states\":[");
    sep = "";
    for (uint64_t c : s.states) { fprintf(f, "%s%llu", sep, (unsigned long long)c); sep = ","; }
    fprintf(f, "],\"fails\":[");
    sep = "";
    for (auto& c : s.fails) { fprintf(f, "%s\"%s\"", sep, Esc(c).c_str()); sep = ","; }
    fprintf(f, "]}\n");
    fclose(f);
  }
  return s.fails.empty() ? 0 : 3;
}

static void Weak(size_t n, size_t k, std::vector<size_t>& cur, const std::function<void(const std::vector<size_t>&)>& f) {
  if (k == 1) { cur.push_back(n); f(cur); cur.pop_back(); return; }
  for (size_t i = 0; i <= n; i++) { cur.push_back(i); Weak(n - i, k - 1, cur, f); cur.pop_back(); }
}
void WeakCompositions(size_t n, size_t k, const std::function<void(const std::vector<size_t>&)>& f) {
  std::vector<size_t> cur;
  if (k == 0) { if (n == 0) f(cur); return; }
  Weak(n, k, cur, f);
}
static void Comp(size_t n, std::vector<size_t>& cur, const std::function<void(const std::vector<size_t>&)>& f) {
  if (n == 0) { f(cur); return; }
  for (size_t i = 1; i <= n; i++) { cur.push_back(i); Comp(n - i, cur, f); cur.pop_back(); }
}
void Compositions(size_t n, const std::function<void(const std::vector<size_t>&)>& f) {
  std::vector<size_t> cur;
  Comp(n, cur, f);
}
void ManyShapes(size_t n, const std::function<void(const std::string&, const std::vector<size_t>&, bool)>& f) {
  static const size_t counts[] = {8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1023, 1024, 1025};
  static const char* names[] = {"even", "empties first", "empties last", "empties in the middle", "empty and single bytes in turn", "empties before the last 16", "empties after 5"};
  for (size_t k : counts)
    for (int p = 0; p < 7; p++)
      for (int nul = 0; nul < 2; nul++) {
        if (!Case()) continue;
        std::vector<size_t> sz, none(k, 0);
        auto empties = [&] { sz.insert(sz.end(), none.begin(), none.end()); };
        size_t cut = p == 1 ? 0 : p == 2 ? n : p == 3 ? n / 2 : p == 5 ? (n > 16 ? n - 16 : 0) : n < 5 ? n : 5;
        if (p == 0) for (size_t i = 0; i < k; i++) sz.push_back(n * (i + 1) / k - n * i / k);
        else if (p == 4) { for (size_t i = 0; i < k; i++) { sz.push_back(0); sz.push_back(i < n ? 1 : 0); } sz.push_back(n > k ? n - k : 0); }
        else { sz.push_back(cut); empties(); sz.push_back(n - cut); }
        f(F("%zu bytes, %zu pieces, %s, %s", n, sz.size(), names[p], nul ? "empty pieces null" : "no null pieces"), sz, nul);
      }
}
void Windows(size_t most, const std::function<void(const std::string&, const WindowList&)>& f) {
  static const WindowList set = {{0, 2}, {2, 2}, {1, 2}, {0, 4}, {2, 0}, {4, 17}, {0, 40}, {21, 16}};
  std::function<void(const std::string&, const WindowList&)> rec = [&](const std::string& d, const WindowList& l) {
    if (Case()) f(d, l);
    if (l.size() < most)
      for (auto& w : set) {
        WindowList m = l;
        m.push_back(w);
        rec(d + F(" %zu+%zu", w.first, w.second), m);
      }
  };
  rec("windows", {});
}
std::string Show(const std::vector<size_t>& v) {
  std::string s = "[";
  for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + std::to_string(v[i]);
  return s + "]";
}
}  // namespace h
