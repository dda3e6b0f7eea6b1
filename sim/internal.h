#pragma once
#include <pthread.h>
#include <stdint.h>

#include "sim.h"

extern "C" long sim_syscall(long nr, ...);  // the real system call

namespace sim {

constexpr int MAX_TASKS = 64;

struct VC {
  uint32_t c[MAX_TASKS] = {};
  void join(const VC &o, int n) {
    for (int i = 0; i < n; i++)
      if (o.c[i] > c[i]) c[i] = o.c[i];
  }
};

enum class St : uint8_t { RUNNABLE, BLOCKED, DONE, FROZEN };

struct Task {
  int id = 0;
  int proc = 0;
  int root = 0;  // the workload's task on whose behalf it runs
  const char *name = "";
  St st = St::RUNNABLE;
  const char *why = "";
  uint64_t wake = 0;  // 0: no timer
  bool timed_out = false;
  volatile int baton = 0;
  pthread_t th{};
  bool joined = false, detached = false;
  void *ret = nullptr;
  void *(*start)(void *) = nullptr;
  void *arg = nullptr;
  int *futex = nullptr;  // waited on by the kernel interface itself, with the value expected
  int futex_val = 0;
  std::function<void()> fn;
  VC vc;
  VC rel_fence, acq_pending;
  bool has_rel_fence = false;
  uint64_t countdown = 0;  // memory accesses until preemption (0 = none)
  uint64_t slice = 0;      // accesses in this slice
  int spins = 0;
  uint64_t alloc_n = 0, alloc_at = 0;
  bool alloc_fired = false;
  void *stack = nullptr;
  uintptr_t stack_lo = 0, stack_hi = 0;
};

extern __thread Task *t_task;
extern __thread int t_quiet;
extern Task *g_tasks[MAX_TASKS];
extern int g_ntasks;
extern uint64_t g_accesses;
extern bool g_active;

inline bool on() { return t_task != nullptr && t_quiet == 0; }

void sched_point(const char *what, uint64_t a = 0);
void block(const char *why, uint64_t wake_at);
void make_runnable(Task *t);
void spun();
void mem_preempt();
TaskId spawn_raw(int proc, const char *name, void *(*start)(void *), void *arg,
                 std::function<void()> fn, pthread_t *out);
void task_exit_wait_done();

// race detector
void shadow_clear(uintptr_t a, size_t n);
void hb_acquire(const void *addr);
void hb_release(const void *addr);
VC *sync_vc(const void *addr);

// checked heap (cfg.heap_check): blocks of the code under test are never reused, and every
// instrumented access to the arena must fall inside a live block
constexpr size_t HEAP_SIZE = 1ull << 30;
extern char *g_heap;
extern uint8_t *g_heap_shadow;
void heap_bad(const void *p, size_t n, bool w, void *pc);

// results
struct Viol {
  char props[64];
  char cls[64];
  char msg[2048];
};
struct Counter {
  char name[56];
  uint64_t n;
};
constexpr uint32_t MAX_CHOICES = 1 << 20;
constexpr uint32_t LOG_CAP = 4 << 20;
struct Shared {
  uint32_t finished;
  uint32_t nviol;
  Viol viol[16];
  uint32_t ncounters;
  Counter counters[128];
  uint64_t hash;       // event log hash
  uint64_t sched_hash; // scheduling decisions only
  uint64_t switches, steps, accesses, sim_ns, faults;
  uint64_t rng, entropy;     // generator states: one stream for a run and its fresh processes
  unsigned char echo[4];     // the first random bytes of a process
  bool echo_have;
  uint64_t child_seq, child_steps, child_accesses;
  uint32_t nchoices;
  uint32_t choices[MAX_CHOICES];
  uint32_t bounds[MAX_CHOICES];
  uint32_t log_len;
  char log[LOG_CAP];
  // the order to run once
  uint64_t order_seed;
  bool order_verbose, order_replay, order_hang;
  int order_wall, order_status;
  uint32_t order_n;
  uint32_t order_choices[MAX_CHOICES];
};
extern Shared *g_sh;
extern bool g_verbose;

}  // namespace sim
