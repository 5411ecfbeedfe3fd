#include "rec.hpp"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <pthread.h>
#include <sys/mman.h>
#include <unordered_set>
extern "C" char __executable_start;
namespace {
struct Block { char *p; long size; long form; bool live; long lo, hi; long fsize, fform; };
struct T {
  char *base = nullptr, *top = nullptr; bool heap = false, query = false; int pat = 0, guard = 0; long first = 0;
  char *slo = nullptr, *shi = nullptr; bool busy = false;
  std::vector<Block> b; std::vector<rec::Ev> ev; std::vector<rec::Acc> acc; std::unordered_set<uint64_t> seen; uint64_t locks = 0;
};
const size_t CAP = size_t(1) << 30;
thread_local T *tl = nullptr;
bool hooked = false;
T &me() {
  if (!tl) {
    tl = new (std::malloc(sizeof(T))) T;
    tl->base = tl->top = (char *)mmap(nullptr, CAP, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    pthread_attr_t a; pthread_getattr_np(pthread_self(), &a); void *p; size_t n; pthread_attr_getstack(&a, &p, &n); pthread_attr_destroy(&a);
    tl->slo = (char *)p; tl->shi = (char *)p + n;
  }
  return *tl;
}
struct Busy { T &t; explicit Busy(T &x) : t(x) { t.busy = true; } ~Busy() { t.busy = false; } };
void fill(void *p, size_t n, int pat) {
  if (pat == 2) { uint64_t s = 0x9E3779B97F4A7C15ull; for (size_t i = 0; i < n; i++) { s = s * 6364136223846793005ull + 1442695040888963407ull; ((unsigned char *)p)[i] = s >> 56; } }
  else memset(p, pat == 0 ? 0x00 : pat == 1 ? 0xFF : 0x3F, n);
}
void *get(size_t n, long form) {
  T *t = tl;
  if (!t || !t->heap || t->busy) { void *p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
  Busy x(*t);
  char *p = (char *)(((uintptr_t)t->top + 64 + 15) & ~uintptr_t(15)); size_t need = ((n + 15) & ~size_t(15)) + 64;
  if (p + need > t->base + CAP) { fprintf(stderr, "arena exhausted\n"); _Exit(44); }
  t->top = p + need; fill(p, n, t->pat);
  t->b.push_back({p, (long)n, form, true, 1L << 60, -1, 0, 0});
  t->ev.push_back({rec::ALLOC, (long)t->b.size(), (long)n, form});
  return p;
}
long find(T &t, const char *a) {  // the block at or before an address; 0 none
  long lo = 0, hi = (long)t.b.size();
  while (lo < hi) { long m = (lo + hi) / 2; if (t.b[m].p <= a) lo = m + 1; else hi = m; }
  return lo;
}
void flush(T &t, long id) { Block &k = t.b[id - 1]; if (k.hi >= 0) { t.ev.push_back({rec::USE, id, k.lo, k.hi}); k.lo = 1L << 60; k.hi = -1; } }
void put(void *q, long size, long form) {
  if (!q) return;
  T *t = tl;
  if (!t || (char *)q < t->base || (char *)q >= t->base + CAP) { std::free(q); return; }
  Busy x(*t);
  long id = find(*t, (char *)q); if (id) flush(*t, id);
  bool exact = id && t->b[id - 1].p == (char *)q;
  t->ev.push_back({rec::FREE, exact ? id : -id, size, form});
  if (exact) t->b[id - 1].live = false;
}
void touch(const void *a, size_t n, int w) {
  hooked = true; T *t = tl;
  if (!t || t->busy) return;
  const char *p = (const char *)a;
  bool inarena = p >= t->base && p < t->base + CAP;
  if (inarena) {
    Busy x(*t); long id = find(*t, p);
    if (id) {
      Block &k = t->b[id - 1]; long lo = p - k.p, hi = lo + (long)n;
      if (k.live && hi <= k.size) { k.lo = std::min(k.lo, lo); k.hi = std::max(k.hi, hi); }
      else t->ev.push_back({rec::USE, id, lo, hi});
      if (t->query && id <= t->first && !t->guard) { long loc = (1L << 40) + p - t->base; uint64_t key = ((uint64_t)loc << 8) ^ (uint64_t)w ^ (t->locks * 0x9E3779B97F4A7C15ull); if (t->seen.insert(key).second) t->acc.push_back({w, loc, (int)n}); }
    } else t->ev.push_back({rec::USE, 0, -1, -1});
    return;
  }
  if (!t->query || t->guard || (p >= t->slo && p < t->shi)) return;
  Busy x(*t); long loc = p - &__executable_start; uint64_t key = ((uint64_t)loc << 8) ^ (uint64_t)w ^ (t->locks * 0x9E3779B97F4A7C15ull);
  if (t->seen.insert(key).second) t->acc.push_back({w, loc, (int)n});
}
}
namespace rec {
void heap(bool on, int pattern) { T &t = me(); t.heap = on; t.pat = pattern; }
void reset() {
  T &t = me(); t.heap = t.query = false; if (t.top - t.base > (1 << 24)) madvise(t.base, CAP, MADV_DONTNEED);
  t.top = t.base; t.b.clear(); t.ev.clear(); t.acc.clear(); t.seen.clear(); t.locks = 0; t.guard = 0;
}
void begin() { T &t = me(); Busy x(t); t.ev.push_back({BEGIN, 0, 0, 0}); t.first = (long)t.b.size(); t.acc.clear(); t.seen.clear(); t.query = true; }
void end() { T &t = me(); Busy x(t); t.query = false; t.ev.push_back({END, 0, 0, 0}); }
void finish() { T &t = me(); Busy x(t); for (size_t i = 1; i <= t.b.size(); i++) flush(t, (long)i); }
const std::vector<Ev> &events() { return me().ev; }
const std::vector<Acc> &accesses() { return me().acc; }
bool instrumented() { return hooked; }
__attribute__((noinline)) void dirty_stack(int pattern) { volatile char buf[24576]; fill((void *)buf, sizeof buf, pattern); asm volatile("" ::"r"(buf) : "memory"); }
}
void *operator new(size_t n) { return get(n, 0); }
void *operator new[](size_t n) { return get(n, 1); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return get(n, 0); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return get(n, 1); }
void operator delete(void *p) noexcept { put(p, 0, 0); }
void operator delete[](void *p) noexcept { put(p, 0, 1); }
void operator delete(void *p, size_t n) noexcept { put(p, (long)n, 0); }
void operator delete[](void *p, size_t n) noexcept { put(p, (long)n, 1); }
void operator delete(void *p, const std::nothrow_t &) noexcept { put(p, 0, 0); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { put(p, 0, 1); }
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void *p) { touch(p, n, 0); } void __tsan_write##n(void *p) { touch(p, n, 1); } \
  void __tsan_unaligned_read##n(void *p) { touch(p, n, 0); } void __tsan_unaligned_write##n(void *p) { touch(p, n, 1); } \
  void __tsan_volatile_read##n(void *p) { touch(p, n, 0); } void __tsan_volatile_write##n(void *p) { touch(p, n, 1); } \
  void __tsan_unaligned_volatile_read##n(void *p) { touch(p, n, 0); } void __tsan_unaligned_volatile_write##n(void *p) { touch(p, n, 1); } \
  void __tsan_read##n##_pc(void *p, void *) { touch(p, n, 0); } void __tsan_write##n##_pc(void *p, void *) { touch(p, n, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { touch(p, n, 0); }
void __tsan_write_range(void *p, unsigned long n) { touch(p, n, 1); }
void __tsan_vptr_update(void **p, void *v) { if (*p != v) touch(p, 8, 1); }
void __tsan_vptr_read(void **p) { touch(p, 8, 0); }
#define AT(bits, type) \
  type __tsan_atomic##bits##_load(const volatile type *a, int) { touch((const void *)a, bits / 8, 2); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##bits##_store(volatile type *a, type v, int) { touch((const void *)a, bits / 8, 3); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  type __tsan_atomic##bits##_exchange(volatile type *a, type v, int) { touch((const void *)a, bits / 8, 3); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  type __tsan_atomic##bits##_fetch_add(volatile type *a, type v, int) { touch((const void *)a, bits / 8, 3); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  type __tsan_atomic##bits##_fetch_sub(volatile type *a, type v, int) { touch((const void *)a, bits / 8, 3); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  type __tsan_atomic##bits##_fetch_and(volatile type *a, type v, int) { touch((const void *)a, bits / 8, 3); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  type __tsan_atomic##bits##_fetch_or(volatile type *a, type v, int) { touch((const void *)a, bits / 8, 3); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  type __tsan_atomic##bits##_fetch_xor(volatile type *a, type v, int) { touch((const void *)a, bits / 8, 3); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile type *a, type *e, type v, int, int) { touch((const void *)a, bits / 8, 3); return __atomic_compare_exchange_n(a, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile type *a, type *e, type v, int, int) { touch((const void *)a, bits / 8, 3); return __atomic_compare_exchange_n(a, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}
// calls that reach the C library
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) { if (n) { touch(s, n, 0); touch(d, n, 1); } return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { if (n) { touch(s, n, 0); touch(d, n, 1); } return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { if (n) touch(d, n, 1); return __real_memset(d, c, n); }
// the one-time initialisation of a static local is ordered by the language
int __real___cxa_guard_acquire(uint64_t *);
void __real___cxa_guard_release(uint64_t *);
void __real___cxa_guard_abort(uint64_t *);
int __wrap___cxa_guard_acquire(uint64_t *g) { int r = __real___cxa_guard_acquire(g); if (r && tl) tl->guard++; return r; }
void __wrap___cxa_guard_release(uint64_t *g) { if (tl && tl->guard) tl->guard--; __real___cxa_guard_release(g); }
void __wrap___cxa_guard_abort(uint64_t *g) { if (tl && tl->guard) tl->guard--; __real___cxa_guard_abort(g); }
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
static void lockev(pthread_mutex_t *m, int t) { if (tl && tl->query && !tl->busy) { Busy x(*tl); tl->acc.push_back({t, (long)((char *)m - &__executable_start), 0}); tl->locks ^= (uint64_t)(uintptr_t)m; } }
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { int r = __real_pthread_mutex_lock(m); lockev(m, 4); return r; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { lockev(m, 5); return __real_pthread_mutex_unlock(m); }
}
