#include "simsched.h"

#include <dlfcn.h>
#include <malloc.h>
#include <pthread.h>
#include <semaphore.h>

#include <new>
#include <unordered_map>

namespace sim {
namespace {

struct VC {
  uint32_t c[kMaxThreads] = {};
  void join(const VC& o) {
    for (int i = 0; i < kMaxThreads; i++)
      if (o.c[i] > c[i]) c[i] = o.c[i];
  }
};
struct Thread {
  sem_t sem;
  pthread_t th;
  const std::vector<Call>* prog = nullptr;
  size_t call = 0;       // current or next call
  bool inside = false;   // in a call
  bool done = false;
  // per kind of step: all points, touches of global data
  uint64_t call_step[2] = {0, 0};
  uint64_t next_at[2] = {~0ull, ~0ull};  // next preemption step in this call
  size_t next_pre[2] = {0, 0};
  std::vector<Preempt> pre[2];  // of this thread, sorted by (call, step)
  long held = 0;             // boundaries of others to wait for
  VC vc;
  uintptr_t lo = 0, hi = 0;  // stack
  void* blocked_on = nullptr;
};
struct Gran {
  uintptr_t key = 0;
  uint32_t gen = 0;
  uint32_t w[kMaxThreads][8];
  uint32_t r[kMaxThreads][8];
};

struct Sched {
  Thread t[kMaxThreads];
  int n = 0;
  int cur = -1;
  bool active = false;
  SchedResult res;
  sem_t main_sem;
  std::vector<Gran> shadow;
  size_t used = 0;
  uint32_t gen = 1;
  uint64_t slice = 0;  // steps since the last switch
  std::unordered_map<uintptr_t, VC> sync;
  std::unordered_map<void*, int> owner;   // mutex -> thread
};
Sched* S;
thread_local int t_id = -1;
thread_local bool t_lib = false;
thread_local bool t_busy = false;

size_t slot_of(uintptr_t k) {
  return (size_t)((k * 0x9E3779B97F4A7C15ull) >> 20);
}
Gran* find(uintptr_t key, bool make) {
  size_t mask = S->shadow.size() - 1;
  for (size_t i = slot_of(key) & mask;; i = (i + 1) & mask) {
    Gran& g = S->shadow[i];
    if (g.gen != S->gen) {
      if (!make) return nullptr;
      g.key = key;
      g.gen = S->gen;
      memset(g.w, 0, sizeof g.w);
      memset(g.r, 0, sizeof g.r);
      S->used++;
      return &g;
    }
    if (g.key == key) return &g;
  }
}
void grow() {
  std::vector<Gran> old;
  old.swap(S->shadow);
  S->shadow.resize(old.size() * 2);
  uint32_t gen = S->gen;
  S->used = 0;
  for (auto& g : old)
    if (g.gen == gen) {
      Gran* n = find(g.key, true);
      *n = g;
    }
}
void clear_range(uintptr_t a, size_t n) {
  if (!S || !S->active || t_id < 0 || t_busy) return;
  t_busy = true;
  for (uintptr_t k = a >> 3; k <= (a + n - 1) >> 3 && n; k++) {
    Gran* g = find(k, false);
    if (!g) continue;
    for (uintptr_t b = 0; b < 8; b++) {
      uintptr_t x = k * 8 + b;
      if (x < a || x >= a + n) continue;
      for (int i = 0; i < kMaxThreads; i++) g->w[i][b] = g->r[i][b] = 0;
    }
  }
  if (!S->sync.empty() && n < 4096)
    for (uintptr_t x = a; x < a + n; x++) S->sync.erase(x);
  t_busy = false;
}

int pick_default(int me, bool others) {
  int best = -1;
  long ord = 0;
  for (int pass = 0; pass < 2 && best < 0; pass++)
    for (int i = 0; i < S->n; i++) {
      Thread& t = S->t[i];
      if (t.done || (others && i == me) || t.blocked_on) continue;
      if (pass == 0 && t.held > 0) continue;
      long o = (*t.prog)[t.call].order;
      if (best < 0 || o < ord) {
        best = i;
        ord = o;
      }
    }
  return best;
}
void go(int to) {
  int me = t_id;
  if (to == me) return;
  S->cur = to;
  S->res.switches++;
  S->slice = 0;
  S->res.trace = (S->res.trace ^ (S->res.steps * 8 + (uint64_t)to)) * 1099511628211ull;
  sem_post(&S->t[to].sem);
  while (sem_wait(&S->t[me].sem)) {
  }
}
void arm_next(Thread& t, int k) {
  t.next_at[k] = ~0ull;
  while (t.next_pre[k] < t.pre[k].size()) {
    Preempt& p = t.pre[k][t.next_pre[k]];
    if (p.call < (long)t.call || (p.call == (long)t.call && p.step <= t.call_step[k])) {
      t.next_pre[k]++;
      S->res.unfired++;
      continue;
    }
    if (p.call == (long)t.call) t.next_at[k] = p.step;
    break;
  }
}

// One point of the running thread, of the given kind.
void point(int k) {
  Thread& t = S->t[t_id];
  if (k)
    S->res.globals++;
  else
    S->res.steps++;
  if (++t.call_step[k] < t.next_at[k]) {
    // fairness: a thread that spins must let the others run
    if (!k && ++S->slice > 300000) {
      S->slice = 0;
      for (int i = 1; i < S->n; i++) {
        int to = (t_id + i) % S->n;
        if (!S->t[to].done && !S->t[to].blocked_on) {
          go(to);
          break;
        }
      }
    }
    return;
  }
  Preempt& p = t.pre[k][t.next_pre[k]];
  S->res.fired++;
  int to = p.to;
  if (to < 0 || to >= S->n || to == t_id || S->t[to].done || S->t[to].blocked_on)
    to = pick_default(t_id, true);
  t.held = p.hold;
  if (p.repeat) {
    p.step += p.repeat;
    t.next_at[k] = p.step;
  } else {
    t.next_pre[k]++;
    arm_next(t, k);
  }
  if (to >= 0) {
    S->t[to].held = 0;
    go(to);
  }
  t.held = 0;
}

std::string where(const void* pc) {
  Dl_info i;
  if (dladdr(pc, &i) && i.dli_sname) return i.dli_sname;
  return "?";
}

extern "C" char __data_start, _end;
bool is_global(uintptr_t a) {
  return a >= (uintptr_t)&__data_start && a < (uintptr_t)&_end;
}

void access(const void* p, size_t n, bool write, const void* pc) {
  if (!t_lib || t_busy || !S || !S->active) return;
  t_busy = true;
  S->res.accesses++;
  uintptr_t a = (uintptr_t)p;
  Thread& me = S->t[t_id];
  if (a < me.lo || a >= me.hi) {
    // a wild size is left to the copy itself, which faults
    if (n > (1u << 20)) n = 1u << 20;
    for (size_t i = 0; i < n; i++) {
      if (S->used * 2 > S->shadow.size()) grow();
      uintptr_t x = a + i;
      Gran* g = find(x >> 3, true);
      int b = (int)(x & 7);
      for (int u = 0; u < S->n; u++) {
        if (u == t_id) continue;
        bool bad = g->w[u][b] > me.vc.c[u] || (write && g->r[u][b] > me.vc.c[u]);
        if (bad && S->res.race.empty())
          S->res.race = fmt("%s of memory that another thread %s, in %s",
                            write ? "write" : "read",
                            g->w[u][b] > me.vc.c[u] ? "wrote" : "read", where(pc).c_str());
      }
      (write ? g->w : g->r)[t_id][b] = me.vc.c[t_id];
    }
  }
  point(0);
  if (is_global(a)) point(1);
  t_busy = false;
}
void edge(const volatile void* a = nullptr) {
  if (!t_lib || t_busy || !S || !S->active) return;
  t_busy = true;
  point(0);
  if (a && is_global((uintptr_t)a)) point(1);
  t_busy = false;
}
bool tracked() { return t_lib && !t_busy && S && S->active; }
void acquire(uintptr_t a) {
  auto it = S->sync.find(a);
  if (it != S->sync.end()) S->t[t_id].vc.join(it->second);
}
void release(uintptr_t a) {
  Thread& me = S->t[t_id];
  S->sync[a].join(me.vc);
  me.vc.c[t_id]++;
}

void boundary(int me) {
  for (int i = 0; i < S->n; i++)
    if (i != me && S->t[i].held > 0) S->t[i].held--;
  int to = pick_default(me, false);
  if (to < 0) to = pick_default(me, true);
  if (to >= 0) go(to);
}

void* body(void* arg) {
  int me = (int)(intptr_t)arg;
  t_id = me;
  Thread& t = S->t[me];
  pthread_attr_t at;
  pthread_getattr_np(pthread_self(), &at);
  void* lo;
  size_t sz;
  pthread_attr_getstack(&at, &lo, &sz);
  pthread_attr_destroy(&at);
  t.lo = (uintptr_t)lo;
  t.hi = t.lo + sz;
  while (sem_wait(&t.sem)) {
  }
  while (t.call < t.prog->size()) {
    for (int k = 0; k < 2; k++) {
      t.call_step[k] = 0;
      arm_next(t, k);
    }
    (*t.prog)[t.call].run();
    t.next_at[0] = t.next_at[1] = ~0ull;
    t.call++;
    if (t.call < t.prog->size()) boundary(me);
  }
  t.done = true;
  for (int i = 0; i < S->n; i++)
    if (i != me && S->t[i].held > 0) S->t[i].held--;
  int to = pick_default(me, true);
  if (to < 0) {
    bool all = true;
    for (int i = 0; i < S->n; i++) all &= S->t[i].done;
    if (!all) S->res.stuck = true;
    sem_post(&S->main_sem);
  } else {
    S->cur = to;
    sem_post(&S->t[to].sem);
  }
  return nullptr;
}

template <class F>
F real(const char* name) {
  return (F)dlsym(RTLD_NEXT, name);
}

}  // namespace

InLib::InLib() { t_lib = true; }
InLib::~InLib() { t_lib = false; }
uint64_t sched_now() { return S ? S->res.steps : 0; }

SchedResult run_threads(const std::vector<std::vector<Call>>& prog,
                        const std::vector<Preempt>& pre) {
  if (!S) S = new Sched;
  if (S->shadow.empty()) S->shadow.resize(1 << 14);
  S->gen++;
  S->used = 0;
  S->sync.clear();
  S->owner.clear();
  S->res = SchedResult();
  S->n = 0;
  for (auto& p : prog)
    if (!p.empty()) {
      int i = S->n++;
      Thread& t = S->t[i];
      t = Thread();
      t.prog = &p;
      sem_init(&t.sem, 0, 0);
      t.vc.c[i] = 1;
    }
  for (int i = 0; i < S->n; i++) {
    Thread& t = S->t[i];
    for (auto& p : pre)
      if (p.thread % S->n == i) t.pre[p.kind & 1].push_back(p);
    for (auto& v : t.pre)
      std::stable_sort(v.begin(), v.end(), [](const Preempt& a, const Preempt& b) {
        return a.call != b.call ? a.call < b.call : a.step < b.step;
      });
  }
  if (!S->n) return S->res;
  sem_init(&S->main_sem, 0, 0);
  for (int i = 0; i < S->n; i++)
    if (pthread_create(&S->t[i].th, nullptr, body, (void*)(intptr_t)i)) _exit(kExitHarness);
  S->active = true;
  S->cur = pick_default(-1, false);
  sem_post(&S->t[S->cur].sem);
  while (sem_wait(&S->main_sem)) {
  }
  S->active = false;
  if (!S->res.stuck)
    for (int i = 0; i < S->n; i++) pthread_join(S->t[i].th, nullptr);
  return S->res;
}

}  // namespace sim

using namespace sim;
#define PC __builtin_return_address(0)

// ------------------------------------------------------- access callbacks
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(N)                                                                    \
  void __tsan_read##N(void* p) { access(p, N, false, PC); }                      \
  void __tsan_write##N(void* p) { access(p, N, true, PC); }                      \
  void __tsan_unaligned_read##N(void* p) { access(p, N, false, PC); }            \
  void __tsan_unaligned_write##N(void* p) { access(p, N, true, PC); }            \
  void __tsan_read_write##N(void* p) { access(p, N, true, PC); }                 \
  void __tsan_unaligned_read_write##N(void* p) { access(p, N, true, PC); }       \
  void __tsan_volatile_read##N(void* p) { access(p, N, false, PC); }             \
  void __tsan_volatile_write##N(void* p) { access(p, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void* p, void*) { access(p, 8, true, PC); }
void __tsan_vptr_read(void* p) { access(p, 8, false, PC); }
void __tsan_read_range(void* p, unsigned long n) { access(p, n, false, PC); }
void __tsan_write_range(void* p, unsigned long n) { access(p, n, true, PC); }
void* __tsan_memcpy(void* d, const void* s, unsigned long n) {
  access(s, n, false, PC);
  access(d, n, true, PC);
  return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, unsigned long n) {
  access(s, n, false, PC);
  access(d, n, true, PC);
  return memmove(d, s, n);
}
void* __tsan_memset(void* d, int c, unsigned long n) {
  access(d, n, true, PC);
  return memset(d, c, n);
}
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}

static void before(const volatile void* a, int mo, bool rel) {
  if (!tracked()) return;
  edge(a);
  t_busy = true;
  if (rel && mo >= 3) release((uintptr_t)a);
  t_busy = false;
}
static void after(const volatile void* a, int mo, bool acq) {
  if (!tracked()) return;
  t_busy = true;
  if (acq && mo != 0 && mo != 3) acquire((uintptr_t)a);
  t_busy = false;
  edge(a);
}
#define ATOMIC(N, T)                                                                   \
  extern "C" T __tsan_atomic##N##_load(const volatile T* a, int mo) {                  \
    before(a, mo, false);                                                              \
    T v = __atomic_load_n(a, __ATOMIC_SEQ_CST);                                        \
    after(a, mo, true);                                                                \
    return v;                                                                          \
  }                                                                                    \
  extern "C" void __tsan_atomic##N##_store(volatile T* a, T v, int mo) {               \
    before(a, mo, true);                                                               \
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                          \
    after(a, mo, false);                                                               \
  }                                                                                    \
  extern "C" T __tsan_atomic##N##_exchange(volatile T* a, T v, int mo) {               \
    before(a, mo, true);                                                               \
    T r = __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                 \
    after(a, mo, true);                                                                \
    return r;                                                                          \
  }                                                                                    \
  extern "C" T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T c, T v,        \
                                                       int mo, int) {                  \
    before(a, mo, true);                                                               \
    __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);  \
    after(a, mo, true);                                                                \
    return c;                                                                          \
  }                                                                                    \
  extern "C" int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* c, T v,  \
                                                            int mo, int) {             \
    before(a, mo, true);                                                               \
    int r = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    after(a, mo, true);                                                                \
    return r;                                                                          \
  }                                                                                    \
  extern "C" int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* c, T v,    \
                                                          int mo, int fmo) {           \
    return __tsan_atomic##N##_compare_exchange_strong(a, c, v, mo, fmo);               \
  }                                                                                    \
  FETCH(N, T, add) FETCH(N, T, sub) FETCH(N, T, and) FETCH(N, T, or) FETCH(N, T, xor) FETCH(N, T, nand)
#define FETCH(N, T, OP)                                                                \
  extern "C" T __tsan_atomic##N##_fetch_##OP(volatile T* a, T v, int mo) {             \
    before(a, mo, true);                                                               \
    T r = __atomic_fetch_##OP(a, v, __ATOMIC_SEQ_CST);                                 \
    after(a, mo, true);                                                                \
    return r;                                                                          \
  }
ATOMIC(8, uint8_t)
ATOMIC(16, uint16_t)
ATOMIC(32, uint32_t)
ATOMIC(64, uint64_t)

// ------------------------------------------------------ blocks as yield points
extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b) {
  Cover& c = cover();
  if (a == b || *a) return;
  for (uint32_t* p = a; p < b; p++) *p = ++c.edges;
  c.hit.resize(c.edges + 1);
  c.ever.resize(c.edges + 1);
}
extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t* g) {
  if (!t_lib || t_busy) return;
  Cover& c = cover();
  if (*g >= c.hit.size()) return;
  c.hit[*g] = 1;
  c.ever[*g] = 1;
  if (++c.steps > c.budget) _exit(kExitHang);
  edge();
}

// -------------------------------------------- synchronisation of the C library
// Blocking primitives become scheduling decisions.
static void wait_for(void* m) {  // t_busy is set
  Thread& t = S->t[t_id];
  t.blocked_on = m;
  int to = pick_default(t_id, true);
  if (to < 0) {  // deadlock
    S->res.stuck = true;
    S->active = false;
    sem_post(&S->main_sem);
    for (;;) pause();
  }
  go(to);
  t.blocked_on = nullptr;
}
static void wake(void* m) {
  for (int i = 0; i < S->n; i++)
    if (S->t[i].blocked_on == m) S->t[i].blocked_on = nullptr;
}
extern "C" int pthread_mutex_lock(pthread_mutex_t* m) {
  static auto lock = real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
  static auto tryl = real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock");
  if (!tracked()) return lock(m);
  edge();
  t_busy = true;
  while (tryl(m)) wait_for(m);
  acquire((uintptr_t)m);
  t_busy = false;
  return 0;
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t* m) {
  static auto unlock = real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
  if (!tracked()) return unlock(m);
  t_busy = true;
  release((uintptr_t)m);
  int r = unlock(m);
  wake(m);
  t_busy = false;
  edge();
  return r;
}
extern "C" int pthread_once(pthread_once_t* o, void (*f)()) {
  static auto once = real<int (*)(pthread_once_t*, void (*)())>("pthread_once");
  if (!tracked()) return once(o, f);
  edge();
  bool lib = t_lib;
  t_busy = true;  // no switch inside: nobody else may enter
  int r = once(o, f);
  acquire((uintptr_t)o);
  release((uintptr_t)o);
  t_busy = false;
  t_lib = lib;
  return r;
}
// rwlocks: exclusive enough for one-at-a-time execution
#define RWL(NAME, TRY)                                                           \
  extern "C" int NAME(pthread_rwlock_t* m) {                                     \
    static auto lock = real<int (*)(pthread_rwlock_t*)>(#NAME);                  \
    static auto tryl = real<int (*)(pthread_rwlock_t*)>(TRY);                    \
    if (!tracked()) return lock(m);                                              \
    edge();                                                                      \
    t_busy = true;                                                               \
    while (tryl(m)) wait_for(m);                                                 \
    acquire((uintptr_t)m);                                                       \
    t_busy = false;                                                              \
    return 0;                                                                    \
  }
RWL(pthread_rwlock_rdlock, "pthread_rwlock_tryrdlock")
RWL(pthread_rwlock_wrlock, "pthread_rwlock_trywrlock")
extern "C" int pthread_rwlock_unlock(pthread_rwlock_t* m) {
  static auto unlock = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_unlock");
  if (!tracked()) return unlock(m);
  t_busy = true;
  release((uintptr_t)m);
  int r = unlock(m);
  wake(m);
  t_busy = false;
  edge();
  return r;
}
// function-local statics
extern "C" int __cxa_guard_acquire(uint64_t* g) {
  uint8_t* b = (uint8_t*)g;
  bool tr = tracked();
  if (tr) edge();
  t_busy = tr || t_busy;
  for (;;) {
    if (b[0]) {
      if (tr) {
        acquire((uintptr_t)g);
        t_busy = false;
      }
      return 0;
    }
    if (!b[1]) break;
    if (!tr) return 0;
    wait_for(g);
  }
  b[1] = 1;
  if (tr) t_busy = false;
  return 1;
}
extern "C" void __cxa_guard_release(uint64_t* g) {
  uint8_t* b = (uint8_t*)g;
  bool tr = tracked();
  if (tr) {
    t_busy = true;
    release((uintptr_t)g);
  }
  b[1] = 0;
  __atomic_store_n(b, 1, __ATOMIC_SEQ_CST);
  if (tr) {
    wake(g);
    t_busy = false;
  }
}
extern "C" void __cxa_guard_abort(uint64_t* g) {
  ((uint8_t*)g)[1] = 0;
  if (tracked()) wake(g);
}

// ------------------------------------------------------------ heap and strings
static void* take(size_t n) {
  void* p = malloc(n ? n : 1);
  if (!p) _exit(kExitMemory);
  clear_range((uintptr_t)p, malloc_usable_size(p));
  return p;
}
static void give(void* p) {
  if (p) clear_range((uintptr_t)p, malloc_usable_size(p));
  free(p);
}
void* operator new(size_t n) { return take(n); }
void* operator new[](size_t n) { return take(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return take(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return take(n); }
void operator delete(void* p) noexcept { give(p); }
void operator delete[](void* p) noexcept { give(p); }
void operator delete(void* p, size_t) noexcept { give(p); }
void operator delete[](void* p, size_t) noexcept { give(p); }

// C library functions that touch memory the code under test passes in
extern "C" {
int __real_vsnprintf(char*, size_t, const char*, va_list);
size_t __real_strlen(const char*);
char* __real_strcpy(char*, const char*);
char* __real_strncpy(char*, const char*, size_t);
char* __real_strcat(char*, const char*);
int __wrap_snprintf(char* b, size_t n, const char* f, ...) {
  va_list a;
  va_start(a, f);
  int r = vsnprintf(b, n, f, a);
  va_end(a);
  if (n && r >= 0) access(b, std::min<size_t>((size_t)r + 1, n), true, PC);
  return r;
}
int __wrap_sprintf(char* b, const char* f, ...) {
  va_list a;
  va_start(a, f);
  int r = vsprintf(b, f, a);
  va_end(a);
  if (r >= 0) access(b, (size_t)r + 1, true, PC);
  return r;
}
size_t __wrap_strlen(const char* s) {
  size_t n = __real_strlen(s);
  access(s, n + 1, false, PC);
  return n;
}
char* __wrap_strcpy(char* d, const char* s) {
  size_t n = __real_strlen(s) + 1;
  access(s, n, false, PC);
  access(d, n, true, PC);
  return __real_strcpy(d, s);
}
char* __wrap_strncpy(char* d, const char* s, size_t n) {
  access(d, n, true, PC);
  return __real_strncpy(d, s, n);
}
char* __wrap_strcat(char* d, const char* s) {
  size_t n = __real_strlen(s) + 1;
  access(s, n, false, PC);
  access(d + __real_strlen(d), n, true, PC);
  return __real_strcat(d, s);
}
}
