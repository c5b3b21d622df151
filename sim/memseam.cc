#include "memseam.h"

#include <new>

extern "C" {
void* __real_malloc(size_t);
void __real_free(void*);
void* __real_realloc(void*, size_t);
}

namespace sim {

static MemSeam g_mem;
MemSeam& mem() { return g_mem; }

static const size_t kArena = 96u << 20;

void arena_reset(uint64_t seed, bool down, int fill, int scrub) {
  MemSeam& m = g_mem;
  if (!m.base) {
    m.base = (uint8_t*)mmap((void*)0x500000000000ull, kArena, PROT_READ | PROT_WRITE,
                            MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m.base == MAP_FAILED) _exit(kExitHarness);
    m.size = kArena;
  }
  m.arena = true;
  m.used = 0;
  m.down = down;
  m.fill = fill;
  m.scrub = scrub;
  m.gap_seed = seed;
  m.rnd = seed | 1;
}
void arena_off() { g_mem.arena = false; }

static bool in_arena(void* p) {
  MemSeam& m = g_mem;
  return m.base && (uint8_t*)p >= m.base && (uint8_t*)p < m.base + m.size;
}
static uint64_t rnd() {
  uint64_t& x = g_mem.rnd;
  x ^= x << 13;
  x ^= x >> 7;
  x ^= x << 17;
  return x;
}
static void paint(uint8_t* p, size_t n, int v) {
  if (v >= 0)
    memset(p, v, n);
  else
    for (size_t i = 0; i < n; i++) p[i] = (uint8_t)(rnd() >> 24);
}

// nullptr: this allocation fails
static void* seam_alloc(size_t n) {
  MemSeam& m = g_mem;
  if (!m.on) return __real_malloc(n ? n : 1);
  m.count++;
  if (m.fail_at && m.count >= m.fail_at && m.count - m.fail_at < m.fail_n) {
    m.failed++;
    return nullptr;
  }
  if (!m.arena) return __real_malloc(n ? n : 1);
  // an address no earlier object of this run had, 16 bytes of size in front
  size_t need = ((n + 15) & ~(size_t)15) + 16;
  size_t gap = m.gap_seed ? (rnd() >> 16) % 5 * 16 : 0;
  if (m.used + need + gap > m.size) {
    void* p = __real_malloc(n ? n : 1);
    if (p) paint((uint8_t*)p, n, m.fill);
    return p;
  }
  m.used += gap;
  uint8_t* b = m.down ? m.base + m.size - m.used - need : m.base + m.used;
  m.used += need;
  *(size_t*)b = n;
  paint(b + 16, need - 16, m.fill);
  return b + 16;
}
static void seam_free(void* p) {
  if (!p) return;
  if (in_arena(p)) {
    paint((uint8_t*)p, *(size_t*)((uint8_t*)p - 16), g_mem.scrub);
    return;
  }
  __real_free(p);
}

}  // namespace sim

using sim::seam_alloc;
using sim::seam_free;

static void* must(size_t n) {
  void* p = seam_alloc(n);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new(size_t n) { return must(n); }
void* operator new[](size_t n) { return must(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return seam_alloc(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return seam_alloc(n); }
void operator delete(void* p) noexcept { seam_free(p); }
void operator delete[](void* p) noexcept { seam_free(p); }
void operator delete(void* p, size_t) noexcept { seam_free(p); }
void operator delete[](void* p, size_t) noexcept { seam_free(p); }

// references of the code under test to the C allocator
extern "C" {
void* __wrap_malloc(size_t n) {
  return sim::mem().on ? seam_alloc(n) : __real_malloc(n);
}
void* __wrap_calloc(size_t a, size_t b) {
  void* p = seam_alloc(a * b);
  if (p) memset(p, 0, a * b);
  return p;
}
void* __wrap_realloc(void* p, size_t n) {
  if (!sim::mem().on && !sim::in_arena(p)) return __real_realloc(p, n);
  if (p && !sim::in_arena(p)) {
    sim::MemSeam& m = sim::mem();
    m.count++;
    if (m.fail_at && m.count >= m.fail_at && m.count - m.fail_at < m.fail_n) {
      m.failed++;
      return nullptr;
    }
    return __real_realloc(p, n);
  }
  void* q = seam_alloc(n);
  if (q && p) {
    size_t old = *(size_t*)((uint8_t*)p - 16);
    memcpy(q, p, old < n ? old : n);
    seam_free(p);
  }
  return q;
}
void __wrap_free(void* p) {
  if (sim::in_arena(p))
    seam_free(p);
  else
    __real_free(p);
}
}
