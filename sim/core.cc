#include <signal.h>
// Scheduler, choice stream, simulated time, results.
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include "internal.h"

extern "C" int sim_real_pthread_create(pthread_t *, const pthread_attr_t *,
                                       void *(*)(void *), void *);
extern "C" int sim_real_pthread_join(pthread_t, void **);

namespace sim {

__thread Task *t_task = nullptr;
__thread int t_quiet = 0;
Task *g_tasks[MAX_TASKS];
int g_ntasks = 0;
uint64_t g_accesses = 0;
bool g_active = false;
Shared *g_sh = nullptr;
bool g_verbose = false;
Config cfg;
std::string scratch;
std::string property;

static uint64_t g_now, g_real_off, g_seq, g_steps;
static const uint32_t *g_replay;
static uint32_t g_replay_len;
static bool g_is_replay;
static bool g_faults = true;
static int g_nproc = 1;
static bool g_proc_crashed[MAX_TASKS];
static int g_crash_left = 0;
static pthread_t g_exiting;
static bool g_has_exiting = false;

Quiet::Quiet() { t_quiet++; }
Quiet::~Quiet() { t_quiet--; }

static inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  h ^= h >> 32;
  return h;
}
static inline uint64_t splitmix(uint64_t &s) {
  uint64_t z = (s += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

// ------------------------------------------------------------------ choices
uint32_t choose(uint32_t n) {
  if (n <= 1) return 0;
  uint32_t i = g_sh->nchoices;
  uint32_t v;
  if (g_is_replay) {
    v = i < g_replay_len ? g_replay[i] : 0;
    if (v >= n) v = v % n;
  } else {
    v = (uint32_t)(((splitmix(g_sh->rng) >> 32) * (uint64_t)n) >> 32);
  }
  if (i < MAX_CHOICES) {
    g_sh->choices[i] = v;
    g_sh->bounds[i] = n;
    g_sh->nchoices = i + 1;
  } else {
    violation(property.c_str(), "no-progress", "choice stream exhausted");
    finish();
  }
  g_sh->hash = mix(g_sh->hash, v);
  return v;
}
bool chance(uint32_t num, uint32_t den) {
  if (num == 0) return false;
  return choose(den) >= den - num;
}
uint32_t range(uint32_t lo, uint32_t hi) { return lo + choose(hi - lo + 1); }
uint64_t entropy64() { return splitmix(g_sh->entropy); }

// ------------------------------------------------------------------ results
static void log_raw(const char *s, size_t n) {
  if (g_sh->log_len + n + 1 >= LOG_CAP) return;
  memcpy(g_sh->log + g_sh->log_len, s, n);
  g_sh->log_len += n;
}
static void vlog(const char *fmt, va_list ap) {
  char buf[4096];
  int k = snprintf(buf, sizeof buf, "%10.6f #%llu T%d/P%d ",
                   (double)(g_now) / 1e9, (unsigned long long)g_seq,
                   t_task ? t_task->id : -1, t_task ? t_task->proc : -1);
  int m = vsnprintf(buf + k, sizeof buf - k - 2, fmt, ap);
  k += m < (int)sizeof buf - k - 2 ? m : (int)sizeof buf - k - 3;
  buf[k++] = '\n';
  log_raw(buf, k);
}
bool verbose() { return g_verbose; }
void note(const char *fmt, ...) {
  if (!g_verbose) return;
  Quiet q;
  va_list ap;
  va_start(ap, fmt);
  vlog(fmt, ap);
  va_end(ap);
}
void event(const char *what, uint64_t a, uint64_t b) {
  g_seq++;
  uint64_t h = g_sh->hash;
  for (const char *p = what; *p; p++) h = (h ^ (unsigned char)*p) * 1099511628211ull;
  h = mix(h, a);
  h = mix(h, b);
  h = mix(h, t_task ? t_task->id : 99);
  g_sh->hash = mix(h, g_now);
}
void count(const char *name, uint64_t n) {
  for (uint32_t i = 0; i < g_sh->ncounters; i++)
    if (!strcmp(g_sh->counters[i].name, name)) {
      g_sh->counters[i].n += n;
      return;
    }
  if (g_sh->ncounters >= 128) return;
  Counter &c = g_sh->counters[g_sh->ncounters];
  snprintf(c.name, sizeof c.name, "%s", name);
  c.n = n;
  g_sh->ncounters++;
}
void fault(const char *name) {
  char buf[64];
  snprintf(buf, sizeof buf, "fault.%s", name);
  count(buf);
  g_sh->faults++;
  note("FAULT %s", name);
  event(name);
}
static bool has_prop(const char *props, const char *p) {
  size_t n = strlen(p);
  for (const char *s = props; (s = strstr(s, p)); s += n)
    if ((s == props || s[-1] == ',') && (s[n] == 0 || s[n] == ',')) return true;
  return false;
}
void violation(const char *props, const char *cls, const char *fmt, ...) {
  Quiet q;
  if (g_sh->nviol < 16) {
    Viol &v = g_sh->viol[g_sh->nviol++];
    snprintf(v.props, sizeof v.props, "%s", props);
    snprintf(v.cls, sizeof v.cls, "%s", cls);
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(v.msg, sizeof v.msg, fmt, ap);
    va_end(ap);
    if (g_verbose) note("VIOLATION [%s] %s: %s", props, cls, v.msg);
  }
  if (has_prop(props, property.c_str())) finish();
}
bool violated() { return g_sh->nviol > 0; }

void finish() {
  t_quiet++;
  g_sh->steps = g_steps;
  g_sh->accesses = g_accesses;
  g_sh->sim_ns = g_now;
  __sync_synchronize();
  g_sh->finished = 1;
  sim_syscall(SYS_exit_group, 0);
  __builtin_unreachable();
}

// ------------------------------------------------------------------ baton
static void futex_wait(volatile int *p, int v) {
  sim_syscall(SYS_futex, p, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0);
}
static void futex_wake(volatile int *p) {
  sim_syscall(SYS_futex, p, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}
static void await_baton(Task *t) {
  while (__atomic_load_n(&t->baton, __ATOMIC_ACQUIRE) == 0) futex_wait(&t->baton, 0);
  __atomic_store_n(&t->baton, 0, __ATOMIC_RELAXED);
  if (g_has_exiting) {
    g_has_exiting = false;
    sim_real_pthread_join(g_exiting, nullptr);
  }
}
static void give_baton(Task *t) {
  __atomic_store_n(&t->baton, 1, __ATOMIC_RELEASE);
  futex_wake(&t->baton);
}

static int live_tasks() {
  int n = 0;
  for (int i = 0; i < g_ntasks; i++)
    if (g_tasks[i]->st == St::RUNNABLE || g_tasks[i]->st == St::BLOCKED) n++;
  return n;
}

static void draw_slice(Task *t) {
  t->slice = 0;
  t->countdown = 0;
  if (cfg.mem_num && live_tasks() > 1 && chance(cfg.mem_num, cfg.mem_den)) {
    uint32_t bits = choose(cfg.mem_log2max + 1);
    t->countdown = 1 + choose(1u << bits);
  }
}

[[noreturn]] static void deadlock() {
  char buf[1500];
  int k = 0;
  for (int i = 0; i < g_ntasks && k < 1300; i++) {
    Task *t = g_tasks[i];
    if (t->st == St::BLOCKED)
      k += snprintf(buf + k, sizeof buf - k, " [task %d %s waits: %s]", t->id, t->name, t->why);
  }
  violation(property.c_str(), "deadlock", "no task can make progress:%s", buf);
  finish();
}

// Fires due timers; returns number of runnable tasks into out[].
static int runnable(Task **out, int after) {
  int n = 0;
  for (int k = 1; k <= g_ntasks; k++) {
    Task *t = g_tasks[(after + k) % g_ntasks];
    if (t->st == St::RUNNABLE) out[n++] = t;
  }
  return n;
}
static bool advance_time() {
  uint64_t best = 0;
  for (int i = 0; i < g_ntasks; i++) {
    Task *t = g_tasks[i];
    if (t->st == St::BLOCKED && t->wake && (!best || t->wake < best)) best = t->wake;
  }
  if (!best) return false;
  if (best > g_now) g_now = best;
  for (int i = 0; i < g_ntasks; i++) {
    Task *t = g_tasks[i];
    if (t->st == St::BLOCKED && t->wake && t->wake <= g_now) {
      t->st = St::RUNNABLE;
      t->wake = 0;
      t->timed_out = true;
    }
  }
  return true;
}

void make_runnable(Task *t) {
  if (t->st == St::BLOCKED) {
    t->st = St::RUNNABLE;
    t->wake = 0;
    t->timed_out = false;
  }
}
// The semaphores of libstdc++ 12 can wait on a count that is positive (GCC PR 104928): a kernel's spurious wake-ups are
// what frees them.  A waiter whose word has changed, or is 0, was really forgotten and is left alone.
static int g_nudges = 0;
static bool nudge() {
  if (g_nudges >= 64) return false;
  for (int i = 0; i < g_ntasks; i++) {
    Task *t = g_tasks[i];
    if (t->st != St::BLOCKED || !t->futex) continue;
    int v = __atomic_load_n(t->futex, __ATOMIC_SEQ_CST);
    if (v <= 0 || v != t->futex_val) continue;
    g_nudges++;
    make_runnable(t);
    return true;
  }
  return false;
}

// Give the baton away; the current task is not runnable (or wants to yield to
// another).  Returns when scheduled again.
static void switch_to(Task *n) {
  Task *self = t_task;
  if (n == self) return;
  g_sh->switches++;
  g_sh->sched_hash = mix(mix(g_sh->sched_hash, n->id), g_steps);
  give_baton(n);
  await_baton(self);
  draw_slice(self);
}
static Task *pick_any() {
  Task *r[MAX_TASKS];
  for (;;) {
    int n = runnable(r, t_task ? t_task->id : 0);
    if (n) return r[choose(n)];
    if (!advance_time() && !nudge()) deadlock();
  }
}

// Busy waiting: nothing else happening, time passes for those who sleep.
static int g_spin = 0;
void spun() {
  if (++g_spin <= 8 * g_ntasks) return;
  g_spin = 0;
  advance_time();
}
void block(const char *why, uint64_t wake_at) {
  Quiet q;
  g_spin = 0;
  Task *self = t_task;
  self->st = St::BLOCKED;
  self->why = why;
  self->wake = wake_at;
  self->timed_out = false;
  Task *n = pick_any();
  if (n == self) {
    draw_slice(self);
    return;
  }
  switch_to(n);
}

static void step(const char *what) {
  if (++g_steps > cfg.step_cap) {
    violation(property.c_str(), "no-progress", "more than %llu scheduling points (last: %s)",
              (unsigned long long)cfg.step_cap, what);
    finish();
  }
}

void sched_point(const char *what, uint64_t a) {
  Quiet q;
  Task *self = t_task;
  step(what);
  event(what, a);
  if (g_ntasks == 1) return;
  if (cfg.stall_num && g_faults && chance(cfg.stall_num, cfg.stall_den)) {
    uint64_t d = (uint64_t)(1 + choose((uint32_t)(cfg.stall_max_ns / MS))) * MS;
    fault("stall");
    block("stalled", g_now + d);
    return;
  }
  Task *r[MAX_TASKS];
  int n = runnable(r, self->id);
  if (n <= 1) return;
  if (!chance(cfg.switch_num, cfg.switch_den)) return;
  // r ends with self
  switch_to(r[choose(n - 1)]);
}
void yield() {
  if (t_task) sched_point("yield");
}
void point(const char *what) {
  if (t_task) sched_point(what);
}

// sched_yield / forced yield: rotate to someone else, let time pass if alone.
void forced_yield() {
  Quiet q;
  Task *self = t_task;
  step("yield");
  spun();
  Task *r[MAX_TASKS];
  int n = runnable(r, self->id);
  if (n <= 1) {
    if (advance_time()) n = runnable(r, self->id);
  }
  if (n <= 1) {
    self->slice = 0;
    return;
  }
  switch_to(r[0]);
}

void mem_preempt() {
  Quiet q;
  Task *self = t_task;
  bool forced = self->slice >= 2000000;
  if (g_accesses > cfg.access_cap) {
    violation(property.c_str(), "no-progress",
              "more than %llu memory accesses in one run: a loop does not end",
              (unsigned long long)cfg.access_cap);
    finish();
  }
  if (forced) {
    forced_yield();
    self->slice = 0;
    return;
  }
  step("mem");
  event("mem");
  count("preempt.memory");
  Task *r[MAX_TASKS];
  int n = runnable(r, self->id);
  if (n <= 1) {
    draw_slice(self);
    return;
  }
  switch_to(r[choose(n - 1)]);
}

// ------------------------------------------------------------------ time
uint64_t now() { return g_now; }
uint64_t seq() { return g_seq; }
uint64_t clock_read(bool realtime) {
  g_now += cfg.clock_read_cost_ns;
  return realtime ? g_now + g_real_off : g_now;
}
void jump_realtime(int64_t d) {
  g_real_off += (uint64_t)d;
  count("fault.clock.jump");
  g_sh->faults++;
  event("clock.jump");
  note("FAULT realtime clock jumps by %.3f s", (double)d / 1e9);
}
void sleep_ns(uint64_t d) {
  Quiet q;
  step("sleep");
  event("sleep", d);
  maybe_crash("sleep");
  block("sleep", g_now + (d ? d : 1));
}

// ------------------------------------------------------------------ tasks
constexpr size_t STACK = 1 << 20;
static void wake_joiners(Task *t) {
  for (int i = 0; i < g_ntasks; i++)
    if (g_tasks[i]->st == St::BLOCKED && g_tasks[i]->arg == t && g_tasks[i]->why[0] == 'j')
      make_runnable(g_tasks[i]);
}

static void *tramp(void *p) {
  Task *t = (Task *)p;
  t_quiet++;
  t_task = t;
  // Nothing here may allocate: the thread does not have the baton yet.
  t->stack_lo = (uintptr_t)t->stack;
  t->stack_hi = t->stack_lo + STACK;
  await_baton(t);
  shadow_clear(t->stack_lo, t->stack_hi - t->stack_lo);
  draw_slice(t);
  void *(*start)(void *) = t->start;
  void *arg = t->arg;
  t->arg = nullptr;
  t_quiet--;
  void *r = nullptr;
  if (start)
    r = start(arg);
  else
    t->fn();
  t_quiet++;
  t->ret = r;
  event("exit");
  hb_release(t);
  t->st = St::DONE;
  wake_joiners(t);
  Task *n = pick_any();
  g_sh->switches++;
  g_sh->sched_hash = mix(mix(g_sh->sched_hash, n->id), g_steps);
  g_exiting = pthread_self();
  g_has_exiting = true;
  t_task = nullptr;
  t_quiet--;
  give_baton(n);
  return r;
}

TaskId spawn_raw(int proc, const char *name, void *(*start)(void *), void *arg,
                 std::function<void()> fn, pthread_t *out) {
  Quiet q;
  // Threads of the code that have ended and been joined leave their place to new ones.
  int slot = g_ntasks;
  uint32_t epoch = 0;
  for (int i = 1; i < g_ntasks && start; i++) {
    Task *o = g_tasks[i];
    if (!o->start || o->st != St::DONE || !(o->joined || o->detached)) continue;
    slot = i;
    epoch = o->vc.c[i];
    if (o->stack) sim_syscall(SYS_munmap, o->stack, STACK, 0, 0, 0, 0);
    delete o;
    break;
  }
  if (slot >= MAX_TASKS) {
    violation(property.c_str(), "no-progress", "too many threads");
    finish();
  }
  Task *t = new Task;
  t->id = slot;
  t->root = start && t_task ? t_task->root : slot;
  t->proc = proc;
  t->name = name;
  t->start = start;
  t->arg = arg;
  t->fn = std::move(fn);
  if (t_task) {
    t->vc = t_task->vc;
    t_task->vc.c[t_task->id]++;
  }
  t->vc.c[t->id] = epoch + 1;
  g_tasks[slot] = t;
  if (slot == g_ntasks) g_ntasks++;
  pthread_attr_t at;
  pthread_attr_init(&at);
  // A stack of its own keeps the handle unique until the thread has been joined.
  t->stack = (void *)sim_syscall(SYS_mmap, nullptr, STACK, PROT_READ | PROT_WRITE,
                                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (t->stack == MAP_FAILED) abort();
  sim_syscall(SYS_mprotect, t->stack, 4096, PROT_NONE, 0, 0, 0);
  pthread_attr_setstack(&at, t->stack, STACK);
  if (sim_real_pthread_create(&t->th, &at, tramp, t)) {
    fprintf(stderr, "sim: pthread_create failed\n");
    abort();
  }
  pthread_attr_destroy(&at);
  if (out) *out = t->th;
  event("spawn", t->id);
  return t->id;
}
TaskId spawn(int proc, const char *name, std::function<void()> fn) {
  TaskId id = spawn_raw(proc, name, nullptr, nullptr, std::move(fn), nullptr);
  sched_point("spawned", id);
  return id;
}
Outcome join(TaskId id) {
  Quiet q;
  Task *t = g_tasks[id];
  while (t->st != St::DONE && t->st != St::FROZEN) {
    t_task->arg = t;
    block("join", 0);
  }
  t_task->arg = nullptr;
  if (t->st == St::DONE) {
    hb_acquire(t);
    return Outcome::DONE;
  }
  return Outcome::CRASHED;
}
int new_process() { return g_nproc++; }
int current_process() { return t_task ? t_task->proc : -1; }
int current_root() { return t_task ? t_task->root : -1; }
int current_task() { return t_task ? t_task->id : -1; }
bool process_crashed(int p) { return g_proc_crashed[p]; }

void close_process_fds(int proc);

void crash_process(int proc) {
  Quiet q;
  g_proc_crashed[proc] = true;
  note("process P%d crashes", proc);
  event("crash", proc);
  bool self = false;
  for (int i = 0; i < g_ntasks; i++) {
    Task *t = g_tasks[i];
    if (t->proc == proc && (t->st == St::RUNNABLE || t->st == St::BLOCKED)) {
      t->st = St::FROZEN;
      t->wake = 0;
      if (t == t_task) self = true;
      wake_joiners(t);
    }
  }
  close_process_fds(proc);
  if (self) {
    Task *n = pick_any();
    switch_to(n);
    // Never scheduled again.
    for (;;) pause();
  }
}
bool faults_enabled() { return g_faults; }
void stop_faults() { g_faults = false; }
void resume_faults() { g_faults = true; }
void maybe_crash(const char *where) {
  if (!t_task || !g_faults || t_task->proc == 0 || !cfg.crash_num) return;
  if (g_crash_left < 0) g_crash_left = cfg.crash_budget;
  if (g_crash_left == 0) return;
  Quiet q;
  if (chance(cfg.crash_num, cfg.crash_den)) {
    g_crash_left--;
    note("crash point: %s", where);
    fault("crash");
    crash_process(t_task->proc);
  }
}

// ------------------------------------------------------------------ processes
std::string fresh_process(const char *name, const std::function<std::string()> &fn) {
  int fd[2];
  pid_t pid;
  {
    Quiet q;
    for (int i = 0; i < g_ntasks; i++)
      if (g_tasks[i] != t_task && g_tasks[i]->st != St::DONE && g_tasks[i]->st != St::FROZEN) {
        fprintf(stderr, "sim: fresh_process with other tasks alive\n");
        abort();
      }
    note("process %s starts", name);
    event("fork");
    if (pipe(fd)) abort();
    fflush(stdout);
    fflush(stderr);
    pid = fork();
    if (pid < 0) abort();
  }
  if (pid == 0) {
    std::string r = fn();
    t_quiet++;
    for (size_t o = 0; o < r.size();) {
      long k = sim_syscall(SYS_write, fd[1], r.data() + o, r.size() - o);
      if (k <= 0) break;
      o += (size_t)k;
    }
    g_sh->child_seq = g_seq;
    g_sh->child_steps = g_steps;
    g_sh->child_accesses = g_accesses;
    sim_syscall(SYS_exit_group, 77);
  }
  Quiet q;
  sim_syscall(SYS_close, fd[1]);
  std::string out;
  char buf[65536];
  for (;;) {
    long k = sim_syscall(SYS_read, fd[0], buf, sizeof buf);
    if (k <= 0) break;
    out.append(buf, (size_t)k);
  }
  sim_syscall(SYS_close, fd[0]);
  int st = 0;
  while (sim_syscall(SYS_wait4, pid, &st, 0, nullptr) < 0 && errno == EINTR) {
  }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 77) {
    g_seq = g_sh->child_seq;
    g_steps = g_sh->child_steps;
    g_accesses = g_sh->child_accesses;
    note("process %s ends", name);
    event("forked");
    return out;
  }
  if (!(WIFEXITED(st) && g_sh->finished)) {
    // ends as the child did, so that the worker reports it
    if (WIFSIGNALED(st)) {
      signal(WTERMSIG(st), SIG_DFL);
      raise(WTERMSIG(st));
    }
    sim_syscall(SYS_exit_group, WIFEXITED(st) ? WEXITSTATUS(st) : 1);
  }
  sim_syscall(SYS_exit_group, 0);
  __builtin_unreachable();
}

// ------------------------------------------------------------------ alloc
void alloc_fault_arm(uint64_t kth) {
  t_task->alloc_n = 0;
  t_task->alloc_at = kth;
  t_task->alloc_fired = false;
}
bool alloc_fault_disarm() {
  t_task->alloc_at = 0;
  return t_task->alloc_fired;
}
uint64_t alloc_count() { return t_task->alloc_n; }

// ------------------------------------------------------------------ capture
static int g_capfd[3] = {-1, -1, -1};
std::string captured(int fd, bool flush) {
  Quiet q;
  if (flush) {
    fflush(stdout);
    fflush(stderr);
  }
  std::string s;
  char buf[8192];
  off_t off = 0;
  for (;;) {
    long n = sim_syscall(SYS_pread64, g_capfd[fd], buf, sizeof buf, off);
    if (n <= 0) break;
    s.append(buf, (size_t)n);
    off += n;
  }
  return s;
}

// ------------------------------------------------------------------ one run
void interpose_reset();
void run_child(uint64_t seed, const uint32_t *replay, uint32_t nreplay, bool is_replay,
               bool capture) {
  g_sh->rng = seed * 0x9e3779b97f4a7c15ull + 0x1234567;
  splitmix(g_sh->rng);
  g_sh->entropy = seed ^ 0xa5a5a5a5deadbeefull;
  g_replay = replay;
  g_replay_len = nreplay;
  g_is_replay = is_replay;
  g_now = 5000 * SEC;
  g_real_off = 1690000000ull * SEC;
  g_crash_left = -1;
  if (capture) {
    for (int fd = 1; fd <= 2; fd++) {
      g_capfd[fd] = (int)sim_syscall(SYS_memfd_create, "cap", 0);
      // keep the capture fds away from the fds the code under test opens
      int hi = fcntl(g_capfd[fd], F_DUPFD, 200 + fd);
      sim_syscall(SYS_close, g_capfd[fd]);
      g_capfd[fd] = hi;
      dup2(g_capfd[fd], fd);
    }
    setvbuf(stdout, nullptr, _IOLBF, 4096);  // as on a terminal
  }
  interpose_reset();
  Task *t = new Task;
  t->id = 0;
  t->proc = 0;
  t->name = "root";
  t->vc.c[0] = 1;
  t->th = pthread_self();
  g_tasks[0] = t;
  g_ntasks = 1;
  g_active = true;
  t_task = t;
  harness_run();
  finish();
}

}  // namespace sim
