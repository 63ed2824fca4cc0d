#include "harness/sched.h"

#include <link.h>
#include <openssl/evp.h>
#include <openssl/hmac.h>
#ifdef OPENSSL_IS_BORINGSSL
#include <openssl/aead.h>
#endif
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <ucontext.h>
#include <unistd.h>

#include <map>
#include <new>
#include <vector>
#include <unordered_map>

extern "C" {
extern char verif_data_begin[], verif_data_end[], verif_bss_begin[], verif_bss_end[];
void* __real_memcpy(void*, const void*, size_t);
}

namespace sched {
namespace {

const size_t kStack = 512 << 10;
const size_t kArena = 96 << 20;

// What is allocated before main runs is never freed: the variables that refer to it
// are put back to their first values.
char g_boot[4 << 20] __attribute__((aligned(16)));
size_t g_boot_used;
bool g_booted;
bool InBoot(const void* p) { return (char*)p >= g_boot && (char*)p < g_boot + sizeof g_boot; }

typedef unsigned Clock;
struct VC {
  Clock c[kMaxT + 1] = {0};  // the last one is the main (set-up) thread
  void Join(const VC& o) { for (int i = 0; i <= kMaxT; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; }
};

// Shadow of one byte.
struct Byte {
  Clock w = 0, r[kMaxT] = {0};
  unsigned char wt = 0;
  bool freed = false;
  unsigned gen = 0;  // execution number: older contents do not count
};

// kind 0: begin, 1: lock, 2: shared lock, 3: atomic, 4: wait until *obj is not val, 5: atomic load
struct Op { const void* obj = nullptr; int kind = 0; unsigned val = 0; };
struct Thread {
  ucontext_t ctx;
  char* stack = nullptr;
  bool done = true;
  Op next;
  VC vc;         // happens-before, for races
  VC dp;         // happens-before of transitions, for the reduction
  std::string tls;  // the program's thread-local variables while this thread is not running
  std::vector<std::pair<void (*)(void*), void*>> atexit;  // thread-local objects to destroy
};
struct Dp { VC r, w; };  // the reading and the writing transitions on an object
struct Mtx { int owner = -1; int readers = 0; int depth = 0; VC release; VC dp; };

struct Rt {
  bool on = false;      // a scheduled thread is running
  int cur = -1;
  int nthreads = 0;
  Thread t[kMaxT];
  ucontext_t main;
  std::unordered_map<const void*, Mtx> mtx;
  std::unordered_map<const void*, VC> atomics;
  std::unordered_map<const void*, Dp> objdp;
  std::unordered_map<uintptr_t, Byte> far;  // outside the arena
  Byte* shadow = nullptr;
  char *arena = nullptr, *top = nullptr, *high = nullptr;
  long live = 0;
  unsigned gen = 1;
  VC mainvc;
  std::string error;
  long accesses = 0, events = 0;
  // the thread-local variables of the program and of the C++ library, and their initial contents
  struct { char* p; size_t n; } tls[2];
  int ntls = 0;
  std::string tlsinit, tlsmain;
  bool user = false;    // code under test (or its set-up) is running: allocations come from the arena
} R;
// The runtime's own allocations never come from the arena.
struct Own {
  bool was;
  Own() : was(R.user) { R.user = false; }
  ~Own() { R.user = was; }
};

void Error(const char* fmt, const void* a, size_t n, int other) {
  if (!R.error.empty()) return;
  char b[256];
  snprintf(b, sizeof b, fmt, n, R.cur, other);
  R.error = b;
}

int FindTls(struct dl_phdr_info* i, size_t, void* first) {  // the first object is the program
  bool use = *(bool*)first || strstr(i->dlpi_name, "libstdc++");
  *(bool*)first = false;
  for (int k = 0; use && k < i->dlpi_phnum; k++)
    if (i->dlpi_phdr[k].p_type == PT_TLS && i->dlpi_tls_data && R.ntls < 2) {
      R.tls[R.ntls].p = (char*)i->dlpi_tls_data;
      R.tls[R.ntls].n = i->dlpi_phdr[k].p_memsz;
      R.tlsinit.append((char*)i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, i->dlpi_phdr[k].p_filesz);
      R.tlsinit.resize(R.tlsinit.size() + i->dlpi_phdr[k].p_memsz - i->dlpi_phdr[k].p_filesz);
      R.ntls++;
    }
  return 0;
}
void SwapTls(std::string* save, const std::string& load) {
  save->clear();
  for (int k = 0; k < R.ntls; k++) save->append(R.tls[k].p, R.tls[k].n);
  const char* from = load.data();
  for (int k = 0; k < R.ntls; k++) { __real_memcpy(R.tls[k].p, from, R.tls[k].n); from += R.tls[k].n; }
}

std::string g_data, g_bss;  // the first values
bool Changed() {
  return (size_t)(verif_data_end - verif_data_begin) == g_data.size() &&
         (bcmp(verif_data_begin, g_data.data(), g_data.size()) || bcmp(verif_bss_begin, g_bss.data(), g_bss.size()));
}

bool InArena(const void* p) { return R.arena && (char*)p >= R.arena && (char*)p < R.arena + kArena; }
Byte& Shadow(uintptr_t a) {
  if (InArena((void*)a)) {
    Byte& b = R.shadow[(char*)a - R.arena];
    if (b.gen != R.gen) { b = Byte(); b.gen = R.gen; }
    return b;
  }
  return R.far[a];
}

void Access(const void* p, size_t n, bool write, const void* pc = nullptr) {
  if (!R.on || !R.user || !n) return;
  Thread& t = R.t[R.cur];
  if ((char*)p >= t.stack && (char*)p < t.stack + kStack) return;
  for (int k = 0; k < R.ntls; k++) if ((char*)p >= R.tls[k].p && (char*)p < R.tls[k].p + R.tls[k].n) return;
  Own own;
  R.accesses++;
  for (size_t i = 0; i < n; i++) {
    Byte& b = Shadow((uintptr_t)p + i);
    if (b.freed) { Error("use of freed memory (%zu bytes) by thread %d, freed by thread %d", p, n, b.wt == kMaxT ? -1 : b.wt); break; }
    if (b.w && b.wt != R.cur && b.w > t.vc.c[b.wt]) {
      Error(write ? "data race: write of %zu bytes by thread %d and write by thread %d" : "data race: read of %zu bytes by thread %d and write by thread %d", p, n, b.wt);
      if (getenv("SCHED_DEBUG")) fprintf(stderr, "race at %p pc %p\n", p, pc);
      break;
    }
    if (write) {
      bool bad = false;
      for (int k = 0; k < R.nthreads; k++)
        if (k != R.cur && b.r[k] > t.vc.c[k]) {
          Error("data race: write of %zu bytes by thread %d and read by thread %d", p, n, k);
          if (getenv("SCHED_DEBUG")) fprintf(stderr, "race at %p pc %p\n", p, pc);
          bad = true;
        }
      if (bad) break;
      b.w = t.vc.c[R.cur];
      b.wt = R.cur;
      memset(b.r, 0, sizeof b.r);
    } else {
      b.r[R.cur] = t.vc.c[R.cur];
    }
  }
}

void* ArenaNew(size_t n) {
  size_t k = (n + 15 + 16) & ~(size_t)15;
  if (R.top + k > R.arena + kArena) { fprintf(stderr, "harness: arena exhausted\n"); _exit(2); }
  *(size_t*)R.top = n;
  char* p = R.top + 16;
  R.top += k;
  R.live++;
  return p;
}
void ArenaFree(void* p) {
  size_t n = ((size_t*)p)[-2];
  R.live--;
  if (!R.on) return;
  Access(p, n, true);
  Own own;
  for (size_t i = 0; i < n; i++) { Byte& b = Shadow((uintptr_t)p + i); if (b.freed) { Error("double free of %zu bytes by thread %d after thread %d", p, n, b.wt); break; } b.freed = true; b.wt = R.cur; }
}

// Leaves the running thread at a scheduling point.
void Yield(Op op) {
  Own own;
  Thread& t = R.t[R.cur];
  t.next = op;
  R.on = false;
  int me = R.cur;
  swapcontext(&t.ctx, &R.main);
  R.cur = me;
  R.on = true;
}
bool Enabled(int i) {
  Thread& t = R.t[i];
  if (t.done) return false;
  if (t.next.kind == 1) { Mtx& m = R.mtx[t.next.obj]; return m.owner < 0 && m.readers == 0; }
  if (t.next.kind == 2) { Mtx& m = R.mtx[t.next.obj]; return m.owner < 0; }
  if (t.next.kind == 4) return *(volatile unsigned*)t.next.obj != t.next.val;
  return true;
}
void Tick() { R.t[R.cur].vc.c[R.cur]++; }

Explorer* g_ex;
Execution* g_exec;
void Body(int i) {
  R.cur = i;
  R.on = true;
  for (size_t k = 0; k < g_ex->calls[i].size(); k++) {
    g_exec->calls[i][k].begin = R.events++;
    R.user = true;
    g_ex->calls[i][k]();
    R.user = false;
    g_exec->calls[i][k].end = R.events++;
  }
  R.user = true;
  while (!R.t[i].atexit.empty()) {
    auto d = R.t[i].atexit.back();
    { Own own; R.t[i].atexit.pop_back(); }
    d.first(d.second);
  }
  R.user = false;
  R.on = false;
  R.t[i].done = true;
  swapcontext(&R.t[i].ctx, &R.main);
}

struct Node {
  int chosen;
  unsigned enabled, backtrack, done;
};
struct Tr { int tid; Op op; };
bool Reads(const Op& a) { return a.kind == 2 || a.kind == 5; }
bool Dependent(const Op& a, const Op& b) {
  if (a.kind == 0 || b.kind == 0 || a.obj != b.obj) return false;
  return !(Reads(a) && Reads(b));
}

// Runs one execution: the first `fixed` choices come from path; later ones are
// made here and appended.  Updates backtrack sets on the way.
}  // namespace
void Restore() {
  if (!g_booted) {
    g_booted = true;
    g_data.assign(verif_data_begin, verif_data_end - verif_data_begin);
    g_bss.assign(verif_bss_begin, verif_bss_end - verif_bss_begin);
  }
  __real_memcpy(verif_data_begin, g_data.data(), g_data.size());
  __real_memcpy(verif_bss_begin, g_bss.data(), g_bss.size());
}
namespace {
Execution Execute(Explorer* ex, std::vector<Node>* path, size_t fixed, const std::vector<int>* replay) {
  Execution e;
  g_ex = ex;
  g_exec = &e;
  R.nthreads = (int)ex->calls.size();
  if (!R.arena) {
    R.arena = (char*)mmap(nullptr, kArena, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    R.shadow = (Byte*)mmap(nullptr, kArena * sizeof(Byte), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (R.arena == MAP_FAILED || R.shadow == MAP_FAILED) { perror("mmap"); _exit(2); }
    R.top = R.arena;
    bool first = true;
    dl_iterate_phdr(FindTls, &first);
  }
  // Memory that only the restored variables refer to is gone.
  if (R.live == 0 || Changed() || R.top - R.arena > (long)kArena / 2) { R.top = R.arena; R.live = 0; }
  Restore();
  R.gen++;
  R.mtx.clear();
  R.atomics.clear();
  R.objdp.clear();
  R.far.clear();
  R.error.clear();
  R.accesses = R.events = 0;
  e.calls.resize(R.nthreads);
  for (int i = 0; i < R.nthreads; i++) {
    Thread& t = R.t[i];
    e.calls[i].resize(ex->calls[i].size());
    if (!t.stack) t.stack = (char*)mmap(nullptr, kStack, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    t.vc = VC();
    t.vc.c[i] = 1;
    t.dp = VC();
    t.done = false;
    t.tls = R.tlsinit;
    t.atexit.clear();
    t.next = Op();
    getcontext(&t.ctx);
    t.ctx.uc_stack.ss_sp = t.stack;
    t.ctx.uc_stack.ss_size = kStack;
    t.ctx.uc_link = nullptr;
    makecontext(&t.ctx, (void (*)())Body, 1, i);
  }
  R.user = true;
  ex->setup();
  R.user = false;
  std::vector<Tr> tr;
  std::vector<VC> trdp;
  int last = -1;
  for (size_t n = 0;; n++) {
    // reduction: the pending operation of every thread against the transitions so far
    if (path)
      for (int p = 0; p < R.nthreads; p++) {
        if (R.t[p].done || R.t[p].next.kind == 0) continue;
        for (size_t i = tr.size(); i-- > 0;) {
          if (tr[i].tid == p || !Dependent(tr[i].op, R.t[p].next)) continue;
          if (R.t[p].dp.c[tr[i].tid] < i + 1) {
            Node& nd = (*path)[i];
            if (nd.enabled >> p & 1) nd.backtrack |= 1u << p;
            else nd.backtrack |= nd.enabled;
            break;
          }
        }
      }
    unsigned en = 0;
    bool all = true;
    for (int i = 0; i < R.nthreads; i++) { if (Enabled(i)) en |= 1u << i; if (!R.t[i].done) all = false; }
    if (all) break;
    if (!en) { if (R.error.empty()) R.error = "deadlock"; break; }
    int c;
    if (replay && n < replay->size()) c = (*replay)[n];
    else if (path && n < fixed) c = (*path)[n].chosen;
    else if (last >= 0 && (en >> last & 1)) c = last;
    else { c = 0; while (!(en >> c & 1)) c++; }
    if (!(en >> c & 1)) { fprintf(stderr, "harness: schedule does not replay (thread %d at %zu)\n", c, n); _exit(2); }
    if (path && n >= fixed) path->push_back(Node{c, en, ex->full ? en : 1u << c, 1u << c});
    e.schedule.push_back(c);
    Thread& t = R.t[c];
    // perform the pending operation
    Op op = t.next;
    if (op.kind == 1) { Mtx& m = R.mtx[op.obj]; m.owner = c; t.vc.Join(m.release); }
    if (op.kind == 2) { Mtx& m = R.mtx[op.obj]; m.readers++; t.vc.Join(m.release); }
    if (op.kind != 0) {
      Dp& d = R.objdp[op.obj];
      t.dp.Join(d.w);
      if (!Reads(op)) t.dp.Join(d.r);
      t.dp.c[c] = n + 1;
      (Reads(op) ? d.r : d.w).Join(t.dp);
    } else {
      t.dp.c[c] = n + 1;
    }
    tr.push_back(Tr{c, op});
    last = c;
    SwapTls(&R.tlsmain, t.tls);
    swapcontext(&R.main, &t.ctx);
    SwapTls(&t.tls, R.tlsmain);
    if (!R.error.empty()) break;
  }
  R.on = false;
  R.cur = -1;
  e.error = R.error;
  e.steps = e.schedule.size();
  e.accesses = R.accesses;
  return e;
}

}  // namespace

void Explorer::Run() {
  // A run outside the arena initialises everything that the libraries initialise lazily.
  Restore();
  setup();
  for (auto& t : calls) for (auto& c : t) c();
  Execution none;
  none.error = "warm-up";
  finish(none);
  std::vector<Node> path;
  size_t fixed = 0;
  for (;;) {
    Execution e = Execute(this, &path, fixed, nullptr);
    executions++;
    steps += e.steps;
    accesses += e.accesses;
    if (!finish(e)) return;
    if (!e.error.empty()) return;
    if (max_executions >= 0 && executions >= max_executions) return;
    while (!path.empty()) {
      Node& n = path.back();
      unsigned todo = n.backtrack & ~n.done & n.enabled;
      if (todo) {
        int c = 0;
        while (!(todo >> c & 1)) c++;
        n.chosen = c;
        n.done |= 1u << c;
        break;
      }
      path.pop_back();
    }
    if (path.empty()) { complete = true; return; }
    fixed = path.size();
  }
}
Execution Explorer::RunOne(const std::vector<int>& s) { Execution e = Execute(this, nullptr, 0, &s); return e; }

std::string ShowSchedule(const std::vector<int>& s) {
  std::string r;
  for (int x : s) r += (char)('A' + x);
  return r;
}
}  // namespace sched

using sched::R;
// ---------------------------------------------------------------- mutexes
extern "C" {
static void LockOp(void* m, int kind) {
  if (!R.on || !R.user) return;  // set-up and judging are single threaded
  sched::Yield(sched::Op{m, kind});
  sched::Tick();
}
void verif_mutex_lock(void* m) { LockOp(m, 1); }
void verif_mutex_rlock(void* m) { LockOp(m, 2); }
bool verif_mutex_trylock(void* m) {
  if (!R.on) return true;
  sched::Own own;
  sched::Yield(sched::Op{m, 3});
  sched::Mtx& x = R.mtx[m];
  if (x.owner >= 0 || x.readers) return false;
  x.owner = R.cur;
  R.t[R.cur].vc.Join(x.release);
  sched::Tick();
  return true;
}
bool verif_mutex_rtrylock(void* m) {
  if (!R.on) return true;
  sched::Own own;
  sched::Yield(sched::Op{m, 3});
  sched::Mtx& x = R.mtx[m];
  if (x.owner >= 0) return false;
  x.readers++;
  R.t[R.cur].vc.Join(x.release);
  sched::Tick();
  return true;
}
void verif_mutex_bad(const char* what) { sched::Own own; if (R.error.empty()) R.error = std::string("mutex misuse: ") + what; }
void verif_mutex_unlock(void* m) {
  if (!R.on) return;
  sched::Own own;
  sched::Mtx& x = R.mtx[m];
  if (x.owner != R.cur) { verif_mutex_bad("unlock of a mutex that is not held"); return; }
  x.owner = -1;
  x.release.Join(R.t[R.cur].vc);
  sched::Tick();
}
void verif_mutex_runlock(void* m) {
  if (!R.on) return;
  sched::Own own;
  sched::Mtx& x = R.mtx[m];
  if (x.readers <= 0) { verif_mutex_bad("unlock of a mutex that is not held"); return; }
  x.readers--;
  x.release.Join(R.t[R.cur].vc);
  sched::Tick();
}
bool verif_mutex_held(void* m) { sched::Own own; return !R.on || R.mtx[m].owner == R.cur; }
void verif_mutex_gone(void* m) { sched::Own own; if (R.on && (R.mtx[m].owner >= 0 || R.mtx[m].readers)) verif_mutex_bad("destroyed while held"); }

// absl::Mutex in the code under test (its methods are functions of the absl library)
void absl_lock(void* m) asm("__wrap__ZN4absl7debian35Mutex4LockEv");
void absl_unlock(void* m) asm("__wrap__ZN4absl7debian35Mutex6UnlockEv");
bool absl_trylock(void* m) asm("__wrap__ZN4absl7debian35Mutex7TryLockEv");
void absl_rlock(void* m) asm("__wrap__ZN4absl7debian35Mutex10ReaderLockEv");
void absl_runlock(void* m) asm("__wrap__ZN4absl7debian35Mutex12ReaderUnlockEv");
void absl_held(void* m) asm("__wrap__ZNK4absl7debian35Mutex10AssertHeldEv");
void absl_dtor(void* m) asm("__wrap__ZN4absl7debian35MutexD1Ev");
bool absl_rtrylock(void* m) asm("__wrap__ZN4absl7debian35Mutex13ReaderTryLockEv");
void absl_release(void** l) asm("__wrap__ZN4absl7debian319ReleasableMutexLock7ReleaseEv");
void absl_lock(void* m) { verif_mutex_lock(m); }
void absl_unlock(void* m) { verif_mutex_unlock(m); }
bool absl_trylock(void* m) { return verif_mutex_trylock(m); }
void absl_rlock(void* m) { verif_mutex_rlock(m); }
void absl_runlock(void* m) { verif_mutex_runlock(m); }
bool absl_rtrylock(void* m) { return verif_mutex_rtrylock(m); }
void absl_release(void** l) { verif_mutex_unlock(*l); *l = nullptr; }
void absl_held(void* m) { if (!verif_mutex_held(m)) verif_mutex_bad("AssertHeld"); }
void absl_dtor(void* m) { verif_mutex_gone(m); }

// std::mutex in the code under test
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_mutex_trylock(pthread_mutex_t*);
static bool Again(pthread_mutex_t* m) {  // a recursive mutex that this thread holds
  sched::Own own;
  return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE && R.mtx[m].owner == R.cur;
}
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
  if (!R.on) return __real_pthread_mutex_lock(m);
  if (Again(m)) { R.mtx[m].depth++; return 0; }
  verif_mutex_lock(m);
  return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!R.on) return __real_pthread_mutex_unlock(m);
  if (Again(m) && R.mtx[m].depth > 0) { R.mtx[m].depth--; return 0; }
  verif_mutex_unlock(m);
  return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!R.on) return __real_pthread_mutex_trylock(m);
  if (Again(m)) { R.mtx[m].depth++; return 0; }
  return verif_mutex_trylock(m) ? 0 : 16;
}

// std::shared_timed_mutex
int __real_pthread_rwlock_rdlock(pthread_rwlock_t*);
int __real_pthread_rwlock_wrlock(pthread_rwlock_t*);
int __real_pthread_rwlock_unlock(pthread_rwlock_t*);
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) { if (!R.on) return __real_pthread_rwlock_rdlock(m); verif_mutex_rlock(m); return 0; }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) { if (!R.on) return __real_pthread_rwlock_wrlock(m); verif_mutex_lock(m); return 0; }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m) {
  if (!R.on) return __real_pthread_rwlock_unlock(m);
  if (verif_mutex_held(m)) verif_mutex_unlock(m); else verif_mutex_runlock(m);
  return 0;
}

// std::call_once
int __real_pthread_once(pthread_once_t*, void (*)());
int __wrap_pthread_once(pthread_once_t* o, void (*f)()) {
  if (!R.on) return __real_pthread_once(o, f);
  verif_mutex_lock(o);
  if (*(int*)o != 2) {
    struct Release { pthread_once_t* o; ~Release() { verif_mutex_unlock(o); } } r{o};
    f();
    *(int*)o = 2;  // glibc's value for "done"
    return 0;
  }
  verif_mutex_unlock(o);
  return 0;
}

// thread-local objects
int __real___cxa_thread_atexit(void (*)(void*), void*, void*);
int __wrap___cxa_thread_atexit(void (*f)(void*), void* p, void* d) {
  if (!R.on) return __real___cxa_thread_atexit(f, p, d);
  sched::Own own;
  R.t[R.cur].atexit.push_back({f, p});
  return 0;
}

// local statics
int __real___cxa_guard_acquire(void*);
void __real___cxa_guard_release(void*);
void __real___cxa_guard_abort(void*);
int __wrap___cxa_guard_acquire(char* g) {
  if (!R.on) return __real___cxa_guard_acquire(g);
  verif_mutex_lock(g);
  if (*g) { verif_mutex_unlock(g); return 0; }
  return 1;
}
void __wrap___cxa_guard_release(char* g) {
  if (!R.on) return __real___cxa_guard_release(g);
  { sched::Own own; R.atomics[g].Join(R.t[R.cur].vc); }  // later users only read the guard
  *g = 1;
  verif_mutex_unlock(g);
}
void __wrap___cxa_guard_abort(char* g) { if (!R.on) return __real___cxa_guard_abort(g); verif_mutex_unlock(g); }

// ---------------------------------------------------------------- memory accesses
void __tsan_init() {}
void __tsan_mutex_create(void*, unsigned) {}
void __tsan_mutex_destroy(void*, unsigned) {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n)                                                                                              \
  void __tsan_read##n(void* p) { sched::Access(p, n, false, __builtin_return_address(0)); }         \
  void __tsan_write##n(void* p) { sched::Access(p, n, true, __builtin_return_address(0)); }         \
  void __tsan_unaligned_read##n(void* p) { sched::Access(p, n, false, __builtin_return_address(0)); } \
  void __tsan_unaligned_write##n(void* p) { sched::Access(p, n, true, __builtin_return_address(0)); } \
  void __tsan_volatile_read##n(void* p) { sched::Access(p, n, false, __builtin_return_address(0)); } \
  void __tsan_volatile_write##n(void* p) { sched::Access(p, n, true, __builtin_return_address(0)); } \
  void __tsan_read_write##n(void* p) { sched::Access(p, n, true, __builtin_return_address(0)); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { sched::Access(p, n, false, __builtin_return_address(0)); }
void __tsan_write_range(void* p, size_t n) { sched::Access(p, n, true, __builtin_return_address(0)); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) sched::Access(p, 8, true, __builtin_return_address(0)); }
void __tsan_vptr_read(void** p) { sched::Access(p, 8, false, __builtin_return_address(0)); }

static void Sync(volatile void* p, int order, bool load, bool store) {
  if (!R.on || !R.user) return;
  sched::Own own;
  sched::Yield(sched::Op{(const void*)p, store ? 3 : 5});
  sched::VC& a = R.atomics[(const void*)p];
  if (load && order != 0) R.t[R.cur].vc.Join(a);
  if (store && order != 0) a.Join(R.t[R.cur].vc);
  sched::Tick();
}
#define AT(bits, T)                                                                                                       \
  T __tsan_atomic##bits##_load(const volatile T* p, int o) { Sync((void*)p, o, true, false); return *p; }                 \
  void __tsan_atomic##bits##_store(volatile T* p, T v, int o) { Sync(p, o, false, true); *p = v; }                        \
  T __tsan_atomic##bits##_exchange(volatile T* p, T v, int o) { Sync(p, o, true, true); T r = *p; *p = v; return r; }     \
  T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int o) { Sync(p, o, true, true); T r = *p; *p = r + v; return r; } \
  T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int o) { Sync(p, o, true, true); T r = *p; *p = r - v; return r; } \
  T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int o) { Sync(p, o, true, true); T r = *p; *p = r & v; return r; } \
  T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int o) { Sync(p, o, true, true); T r = *p; *p = r | v; return r; }  \
  T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int o) { Sync(p, o, true, true); T r = *p; *p = r ^ v; return r; } \
  T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int o) { Sync(p, o, true, true); T r = *p; *p = ~(r & v); return r; } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int o, int) {                               \
    Sync(p, o, true, true);                                                                                               \
    if (*p == *e) { *p = v; return 1; }                                                                                   \
    *e = *p;                                                                                                              \
    return 0;                                                                                                             \
  }                                                                                                                       \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, int o, int f) {                               \
    return __tsan_atomic##bits##_compare_exchange_strong(p, e, v, o, f);                                                  \
  }                                                                                                                       \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T v, int o, int f) {                                   \
    __tsan_atomic##bits##_compare_exchange_strong(p, &e, v, o, f);                                                        \
    return e;                                                                                                             \
  }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// absl::call_once waits here for another thread
struct SpinTransition { unsigned from, to; bool done; };
unsigned __real__ZN4absl7debian313base_internal12SpinLockWaitEPSt6atomicIjEiPKNS1_22SpinLockWaitTransitionENS1_14SchedulingModeE(unsigned*, int, const SpinTransition*, int);
unsigned __wrap__ZN4absl7debian313base_internal12SpinLockWaitEPSt6atomicIjEiPKNS1_22SpinLockWaitTransitionENS1_14SchedulingModeE(unsigned* w, int n, const SpinTransition* t, int mode) {
  if (!R.on) return __real__ZN4absl7debian313base_internal12SpinLockWaitEPSt6atomicIjEiPKNS1_22SpinLockWaitTransitionENS1_14SchedulingModeE(w, n, t, mode);
  for (;;) {
    unsigned v = __tsan_atomic32_load(w, __ATOMIC_ACQUIRE);
    int i = 0;
    while (i < n && t[i].from != v) i++;
    if (i == n) { sched::Own own; sched::Yield(sched::Op{w, 4, v}); continue; }
    if (t[i].to != v) {
      unsigned e = v;
      if (!__tsan_atomic32_compare_exchange_strong(w, &e, t[i].to, __ATOMIC_ACQUIRE, __ATOMIC_RELAXED)) continue;
    }
    if (t[i].done) return v;
  }
}

// library functions that move memory
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
int __real_memcmp(const void*, const void*, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) { sched::Access(s, n, false, __builtin_return_address(0)); sched::Access(d, n, true, __builtin_return_address(0)); return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { sched::Access(s, n, false, __builtin_return_address(0)); sched::Access(d, n, true, __builtin_return_address(0)); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { sched::Access(d, n, true, __builtin_return_address(0)); return __real_memset(d, c, n); }
int __wrap_memcmp(const void* a, const void* b, size_t n) { sched::Access(a, n, false); sched::Access(b, n, false); return __real_memcmp(a, b, n); }

// The SSL library is not instrumented: using a context counts as writing it, and
// the buffers given to it count as read or written.
static void In(const void* p, size_t n) { if (p) sched::Access(p, n, false, __builtin_return_address(0)); }
static void Out(const void* p, size_t n) { if (p) sched::Access(p, n, true, __builtin_return_address(0)); }
#define W(name, ret, params, args, obj, more) \
  ret __real_##name params;                   \
  ret __wrap_##name params { Out(obj, 8); more; return __real_##name args; }
#define INIT In(k, t ? EVP_CIPHER_key_length(t) : 0), In(iv, 12)
W(EVP_EncryptInit_ex, int, (EVP_CIPHER_CTX* c, const EVP_CIPHER* t, ENGINE* e, const unsigned char* k, const unsigned char* iv), (c, t, e, k, iv), c, INIT)
W(EVP_DecryptInit_ex, int, (EVP_CIPHER_CTX* c, const EVP_CIPHER* t, ENGINE* e, const unsigned char* k, const unsigned char* iv), (c, t, e, k, iv), c, INIT)
W(EVP_CipherInit_ex, int, (EVP_CIPHER_CTX* c, const EVP_CIPHER* t, ENGINE* e, const unsigned char* k, const unsigned char* iv, int enc), (c, t, e, k, iv, enc), c, INIT)
#define UPDATE (void)(il > 0 ? (In(i, il), Out(o, il), 0) : 0), Out(ol, sizeof *ol)
W(EVP_EncryptUpdate, int, (EVP_CIPHER_CTX* c, unsigned char* o, int* ol, const unsigned char* i, int il), (c, o, ol, i, il), c, UPDATE)
W(EVP_DecryptUpdate, int, (EVP_CIPHER_CTX* c, unsigned char* o, int* ol, const unsigned char* i, int il), (c, o, ol, i, il), c, UPDATE)
W(EVP_CipherUpdate, int, (EVP_CIPHER_CTX* c, unsigned char* o, int* ol, const unsigned char* i, int il), (c, o, ol, i, il), c, UPDATE)
W(EVP_EncryptFinal_ex, int, (EVP_CIPHER_CTX* c, unsigned char* o, int* ol), (c, o, ol), c, Out(ol, sizeof *ol))
W(EVP_DecryptFinal_ex, int, (EVP_CIPHER_CTX* c, unsigned char* o, int* ol), (c, o, ol), c, Out(ol, sizeof *ol))
W(EVP_CIPHER_CTX_ctrl, int, (EVP_CIPHER_CTX* c, int t, int a, void* p), (c, t, a, p), c, (void)(t == EVP_CTRL_GCM_GET_TAG ? (Out(p, a), 0) : t == EVP_CTRL_GCM_SET_TAG ? (In(p, a), 0) : 0))
W(EVP_CIPHER_CTX_free, void, (EVP_CIPHER_CTX* c), (c), c, )
#ifdef OPENSSL_IS_BORINGSSL
// Sealing and opening only read the context.
#define A(name, ret, params, args, obj, more) \
  ret __real_##name params;                   \
  ret __wrap_##name params { In(obj, 8); more; return __real_##name args; }
A(EVP_AEAD_CTX_seal, int, (const EVP_AEAD_CTX* c, uint8_t* o, size_t* ol, size_t max, const uint8_t* n, size_t nl, const uint8_t* i, size_t il, const uint8_t* ad, size_t al), (c, o, ol, max, n, nl, i, il, ad, al), c,
  (In(n, nl), In(i, il), In(ad, al), Out(o, il + 16 <= max ? il + 16 : 0), Out(ol, sizeof *ol)))
A(EVP_AEAD_CTX_open, int, (const EVP_AEAD_CTX* c, uint8_t* o, size_t* ol, size_t max, const uint8_t* n, size_t nl, const uint8_t* i, size_t il, const uint8_t* ad, size_t al), (c, o, ol, max, n, nl, i, il, ad, al), c,
  (In(n, nl), In(i, il), In(ad, al), Out(o, il >= 16 && il - 16 <= max ? il - 16 : 0), Out(ol, sizeof *ol)))
W(EVP_AEAD_CTX_free, void, (EVP_AEAD_CTX* c), (c), c, )
EVP_AEAD_CTX* __real_EVP_AEAD_CTX_new(const EVP_AEAD*, const uint8_t*, size_t, size_t);
EVP_AEAD_CTX* __wrap_EVP_AEAD_CTX_new(const EVP_AEAD* a, const uint8_t* k, size_t n, size_t t) {
  In(k, n);
  EVP_AEAD_CTX* c = __real_EVP_AEAD_CTX_new(a, k, n, t);
  if (R.on) for (int i = 0; i < 8; i++) R.far.erase((uintptr_t)c + i);
  return c;
}
#endif
EVP_CIPHER_CTX* __real_EVP_CIPHER_CTX_new();
EVP_CIPHER_CTX* __wrap_EVP_CIPHER_CTX_new() {
  EVP_CIPHER_CTX* c = __real_EVP_CIPHER_CTX_new();
  if (R.on) for (int i = 0; i < 8; i++) R.far.erase((uintptr_t)c + i);
  return c;
}
struct HMAC_CTX_x;
HMAC_CTX_x* __real_HMAC_CTX_new();
HMAC_CTX_x* __wrap_HMAC_CTX_new() {
  HMAC_CTX_x* c = __real_HMAC_CTX_new();
  if (R.on) for (int i = 0; i < 8; i++) R.far.erase((uintptr_t)c + i);
  return c;
}
W(HMAC_Update, int, (void* c, const unsigned char* d, size_t n), (c, d, n), c, In(d, n))
W(HMAC_Final, int, (void* c, unsigned char* o, unsigned int* n), (c, o, n), c, Out(o, HMAC_size((HMAC_CTX*)c)))

void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void __real_free(void*);
void* __wrap_malloc(size_t n) { return R.user ? sched::ArenaNew(n) : __real_malloc(n); }
void* __wrap_calloc(size_t a, size_t b) { if (!(R.user)) return __real_calloc(a, b); void* p = sched::ArenaNew(a * b); __real_memset(p, 0, a * b); return p; }
void* __wrap_realloc(void* p, size_t n) {
  if (!sched::InArena(p) && !(R.user)) return __real_realloc(p, n);
  void* q = R.user ? sched::ArenaNew(n) : __real_malloc(n);
  if (p) { size_t o = sched::InArena(p) ? ((size_t*)p)[-2] : 0; __real_memcpy(q, p, o < n ? o : n); if (sched::InArena(p)) sched::ArenaFree(p); }
  return q;
}
void __wrap_free(void* p) { if (sched::InBoot(p)) return; if (sched::InArena(p)) sched::ArenaFree(p); else __real_free(p); }
}

void* operator new(size_t n) {
  if (!sched::g_booted && sched::g_boot_used + n + 16 < sizeof sched::g_boot) {
    void* p = sched::g_boot + sched::g_boot_used;
    sched::g_boot_used += (n + 15) & ~(size_t)15;
    return p;
  }
  void* p = R.user ? sched::ArenaNew(n) : __real_malloc(n ? n : 1); if (!p) abort(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { __wrap_free(p); }
void operator delete[](void* p) noexcept { __wrap_free(p); }
void operator delete(void* p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void* p, size_t) noexcept { __wrap_free(p); }
