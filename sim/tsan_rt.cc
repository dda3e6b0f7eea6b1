// Runtime behind -fsanitize=thread instrumentation of the repository's code:
// each memory access is a possible preemption point and is checked by a
// vector-clock (happens-before) race detector.
#include <dlfcn.h>
#include <cxxabi.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>

#include <map>
#include <unordered_map>

#include "internal.h"

extern "C" void *__real_memset(void *, int, size_t);

namespace sim {

struct Cell {
  uint32_t w_clk[2];
  uint32_t r_clk[4];
  uint8_t w_tid[2], w_mask[2];
  uint8_t r_tid[4], r_mask[4];
  uint8_t w_next, r_next;
  uint16_t pad;
  void *w_pc[2];
  void *r_pc[4];
};
struct ShadowPage {
  Cell cell[512];
};
constexpr size_t TAB = 1 << 16;
struct Slot {
  uintptr_t page;
  ShadowPage *sp;
};
static Slot *g_tab;
static char *g_arena, *g_arena_end;

static ShadowPage *page_of(uintptr_t addr, bool create) {
  uintptr_t pg = addr >> 12;
  if (!g_tab) {
    if (!create) return nullptr;
    g_tab = (Slot *)mmap(nullptr, TAB * sizeof(Slot), PROT_READ | PROT_WRITE,
                         MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  }
  size_t h = (pg * 0x9e3779b97f4a7c15ull) >> 48;
  for (size_t i = 0; i < TAB; i++) {
    Slot &s = g_tab[(h + i) & (TAB - 1)];
    if (s.page == pg) return s.sp;
    if (s.page == 0) {
      if (!create) return nullptr;
      if (g_arena + sizeof(ShadowPage) > g_arena_end) {
        size_t n = 16 << 20;
        g_arena = (char *)mmap(nullptr, n, PROT_READ | PROT_WRITE,
                               MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        g_arena_end = g_arena + n;
      }
      s.page = pg;
      s.sp = (ShadowPage *)g_arena;
      g_arena += sizeof(ShadowPage);
      return s.sp;
    }
  }
  return nullptr;
}
void shadow_clear(uintptr_t a, size_t n) {
  if (!g_tab || n == 0) return;
  uintptr_t end = a + n;
  a &= ~7ull;
  while (a < end) {
    uintptr_t pe = (a | 4095) + 1;
    if (pe > end) pe = end;
    if (ShadowPage *sp = page_of(a, false)) {
      size_t i = (a & 4095) >> 3, j = (((pe - 1) & 4095) >> 3) + 1;
      __real_memset(&sp->cell[i], 0, (j - i) * sizeof(Cell));
    }
    a = (a | 4095) + 1;
  }
}

// ------------------------------------------------------------- happens-before
static std::unordered_map<const void *, VC *> *g_sync;
VC *sync_vc(const void *addr) {
  if (!g_sync) g_sync = new std::unordered_map<const void *, VC *>;
  VC *&v = (*g_sync)[addr];
  if (!v) v = new VC;
  return v;
}
void hb_acquire(const void *a) {
  if (!cfg.races || !t_task) return;
  Quiet q;
  t_task->vc.join(*sync_vc(a), g_ntasks);
}
void hb_release(const void *a) {
  if (!cfg.races || !t_task) return;
  Quiet q;
  sync_vc(a)->join(t_task->vc, g_ntasks);
  t_task->vc.c[t_task->id]++;
}

static std::string sym(void *pc) {
  Dl_info di;
  char buf[600];
  if (dladdr(pc, &di) && di.dli_sname) {
    int st = 0;
    char *d = abi::__cxa_demangle(di.dli_sname, nullptr, nullptr, &st);
    snprintf(buf, sizeof buf, "%.400s+0x%lx", d ? d : di.dli_sname,
             (unsigned long)((char *)pc - (char *)di.dli_saddr));
    free(d);
  } else {
    snprintf(buf, sizeof buf, "?");
  }
  return buf;
}
static bool g_reported = false;
static void race(void *pc1, int t1, bool w1, void *pc2, int t2, bool w2, size_t size) {
  if (g_reported) return;
  g_reported = true;
  Quiet q;
  violation(property.c_str(), "data-race",
            "unsynchronised accesses to the same memory: %s by task %d at %s, %s by task %d at %s "
            "(%zu bytes)",
            w1 ? "write" : "read", t1, sym(pc1).c_str(), w2 ? "write" : "read", t2,
            sym(pc2).c_str(), size);
}

static inline void check_cell(Cell &c, uint8_t mask, bool w, void *pc, size_t size) {
  Task *t = t_task;
  const int me = t->id;
  const uint32_t clk = t->vc.c[me];
  for (int i = 0; i < 2; i++)
    if (c.w_clk[i] && (c.w_mask[i] & mask) && c.w_tid[i] != me && t->vc.c[c.w_tid[i]] < c.w_clk[i])
      race(c.w_pc[i], c.w_tid[i], true, pc, me, w, size);
  if (w) {
    for (int i = 0; i < 4; i++)
      if (c.r_clk[i] && (c.r_mask[i] & mask) && c.r_tid[i] != me &&
          t->vc.c[c.r_tid[i]] < c.r_clk[i])
        race(c.r_pc[i], c.r_tid[i], false, pc, me, w, size);
    int k = -1;
    for (int i = 0; i < 2; i++)
      if (!c.w_clk[i] || c.w_mask[i] == mask || (c.w_tid[i] == me && c.w_clk[i] == clk)) {
        k = i;
        break;
      }
    uint8_t m = mask;
    if (k < 0)
      k = c.w_next++ & 1;
    else if (c.w_tid[k] == me && c.w_clk[k] == clk)
      m |= c.w_mask[k];
    c.w_clk[k] = clk;
    c.w_tid[k] = (uint8_t)me;
    c.w_mask[k] = m;
    c.w_pc[k] = pc;
  } else {
    int k = -1;
    for (int i = 0; i < 4; i++)
      if (!c.r_clk[i] || c.r_tid[i] == me) {
        k = i;
        break;
      }
    uint8_t m = mask;
    if (k < 0)
      k = c.r_next++ & 3;
    else if (c.r_clk[k] == clk && c.r_tid[k] == me)
      m |= c.r_mask[k];
    c.r_clk[k] = clk;
    c.r_tid[k] = (uint8_t)me;
    c.r_mask[k] = m;
    c.r_pc[k] = pc;
  }
}

// Memory that the code says may be raced on (annotations of logging macros).
static struct { uintptr_t a; size_t n; } g_benign[64];
static int g_nbenign = 0;
static bool benign(uintptr_t a, size_t n) {
  for (int i = 0; i < g_nbenign; i++)
    if (a < g_benign[i].a + g_benign[i].n && g_benign[i].a < a + n) return true;
  return false;
}
static void set_benign(const volatile void *p, size_t n) {
  uintptr_t a = (uintptr_t)p;
  for (int i = 0; i < g_nbenign; i++)
    if (g_benign[i].a == a && g_benign[i].n == n) return;
  if (g_nbenign < 64) g_benign[g_nbenign++] = {a, n};
}

static void check(uintptr_t a, size_t n, bool w, void *pc) {
  if (__builtin_expect(g_nbenign, 0) && benign(a, n)) return;
  while (n) {
    size_t off = a & 7, k = 8 - off < n ? 8 - off : n;
    ShadowPage *sp = page_of(a, true);
    if (!sp) return;
    check_cell(sp->cell[(a & 4095) >> 3], (uint8_t)(((1u << k) - 1) << off), w, pc, k);
    a += k;
    n -= k;
  }
}

static bool g_heap_reported = false;
void heap_bad(const void *p, size_t n, bool w, void *pc) {
  if (g_heap_reported) return;
  g_heap_reported = true;
  Quiet q;
  violation(property.c_str(), "memory", "%s of %zu bytes outside every live heap block by task %d at %s",
            w ? "write" : "read", n, t_task->id, sym(pc).c_str());
}
static inline void heap_check(const void *p, size_t n, bool w, void *pc) {
  size_t o = (size_t)((const char *)p - g_heap);
  for (size_t end = o + n; o < end;) {
    size_t in = o & 7, k = end - o < 8 - in ? end - o : 8 - in;
    if (in + k > g_heap_shadow[o >> 3]) return heap_bad(p, n, w, pc);
    o += k;
  }
}

static inline __attribute__((always_inline)) void access(const void *p, size_t n, bool w,
                                                         void *pc) {
  Task *t = t_task;
  if (__builtin_expect(t == nullptr, 0) || t_quiet) return;
  g_accesses++;
  t->slice++;
  if (__builtin_expect(t->countdown != 0, 0)) {
    if (--t->countdown == 0) mem_preempt();
  }
  if (__builtin_expect(t->slice >= 2000000, 0)) mem_preempt();
  if (g_heap && (uintptr_t)p - (uintptr_t)g_heap < HEAP_SIZE) heap_check(p, n, w, pc);
  if (cfg.races && g_ntasks > 1) {
    uintptr_t a = (uintptr_t)p;
    check(a, n, w, pc);
  }
}
}  // namespace sim

using namespace sim;
#define PC __builtin_return_address(0)

extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n)                                                              \
  void __tsan_read##n(void *p) { access(p, n, false, PC); }                \
  void __tsan_write##n(void *p) { access(p, n, true, PC); }                \
  void __tsan_unaligned_read##n(void *p) { access(p, n, false, PC); }      \
  void __tsan_unaligned_write##n(void *p) { access(p, n, true, PC); }      \
  void __tsan_volatile_read##n(void *p) { access(p, n, false, PC); }       \
  void __tsan_volatile_write##n(void *p) { access(p, n, true, PC); }       \
  void __tsan_read_write##n(void *p) { access(p, n, true, PC); }           \
  void __tsan_unaligned_read_write##n(void *p) { access(p, n, true, PC); }
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
void __tsan_read_range(void *p, unsigned long n) { access(p, n, false, PC); }
void __tsan_write_range(void *p, unsigned long n) { access(p, n, true, PC); }
void __tsan_vptr_update(void **p, void *v) {
  if (*p != v) access(p, 8, true, PC);
}
void __tsan_vptr_read(void **p) { access(p, 8, false, PC); }
void __tsan_ignore_thread_begin() { t_quiet++; }
void __tsan_ignore_thread_end() { t_quiet--; }

void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) {
  if (t_task && !t_quiet && n) {
    access(s, n, false, PC);
    access(d, n, true, PC);
  }
  return __real_memcpy(d, s, n);
}
void *__wrap_memmove(void *d, const void *s, size_t n) {
  if (t_task && !t_quiet && n) {
    access(s, n, false, PC);
    access(d, n, true, PC);
  }
  return __real_memmove(d, s, n);
}
void *__wrap_memset(void *d, int c, size_t n) {
  if (t_task && !t_quiet && n) access(d, n, true, PC);
  return __real_memset(d, c, n);
}

// ------------------------------------------------------------------- atomics
}  // extern "C"

namespace {
enum { RELAXED, CONSUME, ACQUIRE, RELEASE, ACQ_REL, SEQ_CST };
bool acq(int mo) { return mo == CONSUME || mo == ACQUIRE || mo == ACQ_REL || mo == SEQ_CST; }
bool rel(int mo) { return mo == RELEASE || mo == ACQ_REL || mo == SEQ_CST; }
int g_atomic_n = 0;

void atomic_pre() {
  Task *t = t_task;
  if (!t || t_quiet) return;
  g_accesses++;
  t->slice += 256;  // spinning on an atomic yields soon
  if (t->countdown && --t->countdown == 0) mem_preempt();
  if (t->slice >= 2000000) mem_preempt();
}
void after_load(const void *a, int mo) {
  if (!t_task || t_quiet || !cfg.races) return;
  Quiet q;
  if (acq(mo))
    t_task->vc.join(*sync_vc(a), g_ntasks);
  else
    t_task->acq_pending.join(*sync_vc(a), g_ntasks);
}
void before_store(const void *a, int mo, bool rmw) {
  if (!t_task || t_quiet || !cfg.races) return;
  Quiet q;
  VC *v = sync_vc(a);
  if (rel(mo)) {
    if (rmw)
      v->join(t_task->vc, g_ntasks);
    else
      *v = t_task->vc;
    t_task->vc.c[t_task->id]++;
  } else if (t_task->has_rel_fence) {
    if (rmw)
      v->join(t_task->rel_fence, g_ntasks);
    else
      *v = t_task->rel_fence;
  } else if (!rmw) {
    *v = VC{};  // a relaxed store breaks the release sequence
  }
}
}  // namespace

extern "C" {
#define ATOMIC(bits, T)                                                                         \
  T __tsan_atomic##bits##_load(const volatile T *a, int mo) {                                   \
    atomic_pre();                                                                               \
    T v = __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                 \
    after_load((const void *)a, mo);                                                            \
    return v;                                                                                   \
  }                                                                                             \
  void __tsan_atomic##bits##_store(volatile T *a, T v, int mo) {                                \
    atomic_pre();                                                                               \
    before_store((const void *)a, mo, false);                                                   \
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                   \
  }                                                                                             \
  T __tsan_atomic##bits##_exchange(volatile T *a, T v, int mo) {                                \
    atomic_pre();                                                                               \
    after_load((const void *)a, mo);                                                            \
    before_store((const void *)a, mo, true);                                                    \
    return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                         \
  }                                                                                             \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *e, T v, int mo, int fmo) { \
    atomic_pre();                                                                               \
    T cur = __atomic_load_n(a, __ATOMIC_SEQ_CST);                                               \
    if (cur == *e) {                                                                            \
      after_load((const void *)a, mo);                                                          \
      before_store((const void *)a, mo, true);                                                  \
      __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                 \
      return 1;                                                                                 \
    }                                                                                           \
    after_load((const void *)a, fmo);                                                           \
    *e = cur;                                                                                   \
    return 0;                                                                                   \
  }                                                                                             \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *e, T v, int mo, int fmo) {  \
    return __tsan_atomic##bits##_compare_exchange_strong(a, e, v, mo, fmo);                     \
  }                                                                                             \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T e, T v, int mo, int fmo) {      \
    __tsan_atomic##bits##_compare_exchange_strong(a, &e, v, mo, fmo);                           \
    return e;                                                                                   \
  }
#define ATOMIC_RMW(bits, T, name, expr)                            \
  T __tsan_atomic##bits##_fetch_##name(volatile T *a, T v, int mo) { \
    atomic_pre();                                                  \
    after_load((const void *)a, mo);                               \
    before_store((const void *)a, mo, true);                       \
    T old = __atomic_load_n(a, __ATOMIC_SEQ_CST);                  \
    __atomic_store_n(a, (T)(expr), __ATOMIC_SEQ_CST);              \
    return old;                                                    \
  }
#define ATOMICS(bits, T)              \
  ATOMIC(bits, T)                     \
  ATOMIC_RMW(bits, T, add, old + v)   \
  ATOMIC_RMW(bits, T, sub, old - v)   \
  ATOMIC_RMW(bits, T, and, old &v)    \
  ATOMIC_RMW(bits, T, or, old | v)    \
  ATOMIC_RMW(bits, T, xor, old ^ v)   \
  ATOMIC_RMW(bits, T, nand, ~(old & v))
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)

void __tsan_atomic_thread_fence(int mo) {
  if (!t_task || t_quiet || !cfg.races) return;
  Quiet q;
  if (acq(mo)) t_task->vc.join(t_task->acq_pending, g_ntasks);
  if (rel(mo)) {
    if (mo == SEQ_CST) {
      VC *g = sync_vc(&g_atomic_n);
      t_task->vc.join(*g, g_ntasks);
      g->join(t_task->vc, g_ntasks);
    }
    t_task->rel_fence = t_task->vc;
    t_task->has_rel_fence = true;
    t_task->vc.c[t_task->id]++;
  }
}
void __tsan_atomic_signal_fence(int) {}
void __tsan_acquire(void *a) { hb_acquire(a); }
void __tsan_release(void *a) { hb_release(a); }
void __tsan_mutex_create(void *, unsigned) {}
void __tsan_mutex_destroy(void *, unsigned) {}
void __tsan_mutex_pre_lock(void *, unsigned) {}
void __tsan_mutex_post_lock(void *a, unsigned, int) { hb_acquire(a); }
int __tsan_mutex_pre_unlock(void *a, unsigned) {
  hb_release(a);
  return 0;
}
void __tsan_mutex_post_unlock(void *, unsigned) {}
void __tsan_mutex_pre_signal(void *, unsigned) {}
void __tsan_mutex_post_signal(void *, unsigned) {}
void __tsan_mutex_pre_divert(void *, unsigned) {}
void __tsan_mutex_post_divert(void *, unsigned) {}

// Dynamic annotations, which code compiled for a race detector may call.
void AnnotateBenignRaceSized(const char *, int, const volatile void *p, size_t n, const char *) { set_benign(p, n); }
void AnnotateBenignRace(const char *, int, const volatile void *p, const char *) { set_benign(p, 8); }
void WTFAnnotateBenignRaceSized(const char *, int, const volatile void *p, size_t n, const char *) { set_benign(p, n); }
void AnnotateHappensBefore(const char *, int, const volatile void *p) { hb_release((const void *)p); }
void AnnotateHappensAfter(const char *, int, const volatile void *p) { hb_acquire((const void *)p); }
void WTFAnnotateHappensBefore(const char *, int, const volatile void *p) { hb_release((const void *)p); }
void WTFAnnotateHappensAfter(const char *, int, const volatile void *p) { hb_acquire((const void *)p); }
void AnnotateIgnoreReadsBegin(const char *, int) { t_quiet++; }
void AnnotateIgnoreReadsEnd(const char *, int) { t_quiet--; }
void AnnotateIgnoreWritesBegin(const char *, int) { t_quiet++; }
void AnnotateIgnoreWritesEnd(const char *, int) { t_quiet--; }
void AnnotateIgnoreSyncBegin(const char *, int) {}
void AnnotateIgnoreSyncEnd(const char *, int) {}
void AnnotateRWLockCreate(const char *, int, const volatile void *) {}
void AnnotateRWLockCreateStatic(const char *, int, const volatile void *) {}
void AnnotateRWLockDestroy(const char *, int, const volatile void *) {}
void AnnotateRWLockAcquired(const char *, int, const volatile void *p, long) { hb_acquire((const void *)p); }
void AnnotateRWLockReleased(const char *, int, const volatile void *p, long) { hb_release((const void *)p); }
void AnnotateThreadName(const char *, int, const char *) {}
void AnnotateEnableRaceDetection(const char *, int, int) {}
void AnnotateFlushState(const char *, int) {}
void AnnotateNewMemory(const char *, int, const volatile void *, size_t) {}
int RunningOnValgrind(void) { return 0; }
}
