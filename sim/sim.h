// Deterministic simulator: public interface for harnesses.
//
// One OS process (a fork of the worker) executes one run.  Real pthreads are
// parked and released one at a time; every decision comes from choose().
#pragma once
#include <cstdarg>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- choices
// The only source of nondeterminism.  Value 0 is always the simplest choice
// (no fault, no preemption), so that minimisation can zero choices.
uint32_t choose(uint32_t n);                    // uniform in [0, n)
bool chance(uint32_t num, uint32_t den);        // true with num/den; 0 -> false
uint32_t range(uint32_t lo, uint32_t hi);       // inclusive; 0 -> lo
uint64_t entropy64();                           // seed-keyed, not a choice
// The current process starts consuming randomness. With echo its first four bytes are those of the
// last process that started without: seeds of 32 bits do meet across many processes.
void entropy_begin(bool echo);

// ---------------------------------------------------------------- time
constexpr uint64_t US = 1000, MS = 1000 * US, SEC = 1000 * MS;
uint64_t now();                                 // simulated monotonic, ns
uint64_t seq();                                 // global event sequence number
void sleep_ns(uint64_t d);                      // block the current task
void jump_realtime(int64_t delta_ns);

// ---------------------------------------------------------------- tasks
using TaskId = int;
int new_process();                              // simulated process id
TaskId spawn(int proc, const char *name, std::function<void()> fn);
enum class Outcome { DONE, CRASHED };
Outcome join(TaskId t);
int current_process();
int current_task();
int current_root();  // the workload's task that (indirectly) started this one
void crash_process(int proc);                   // freeze all its tasks
bool process_crashed(int proc);
// Runs fn in a forked process image (one task, own memory) at this same instant and
// returns its result; entropy and choices continue the run's streams.
std::string fresh_process(const char *name, const std::function<std::string()> &fn);
void yield();                                   // a scheduling point
// true while more than one task is alive
void point(const char *what);

// Runs harness bookkeeping invisibly: no preemption, no race tracking.
struct Quiet {
  Quiet();
  ~Quiet();
};

// ---------------------------------------------------------------- results
// Report that `props` (comma separated ids) are violated.
void violation(const char *props, const char *cls, const char *fmt, ...)
    __attribute__((format(printf, 3, 4)));
bool violated();
void fault(const char *name);                   // count an injected fault
void count(const char *name, uint64_t n = 1);   // name must be a literal
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void event(const char *what, uint64_t a = 0, uint64_t b = 0);
bool verbose();
[[noreturn]] void finish();                     // ends the run

// ---------------------------------------------------------------- config
struct Config {
  // scheduling
  uint32_t switch_num = 1, switch_den = 4;  // P(switch) at a sync point
  uint32_t mem_num = 0, mem_den = 16;       // P(slice has a memory preemption)
  uint32_t mem_log2max = 12;                // log-uniform countdown
  uint32_t stall_num = 0, stall_den = 256;  // P(stall) at a sync point
  uint64_t stall_max_ns = 5 * SEC;
  bool races = false;
  bool heap_check = false;                  // set before the code under test allocates
  // faults
  uint32_t file_num = 0, file_den = 64;     // P(disk fault) per file call
  uint32_t crash_num = 0, crash_den = 256;  // P(crash) per file/net/sleep
  int crash_budget = 0;
  uint32_t rand_num = 0, rand_den = 16;     // P(random source fault)
  uint32_t spurious_num = 0, spurious_den = 64;
  uint64_t step_cap = 400000;               // scheduling points per run
  uint64_t access_cap = 400000000;          // instrumented accesses per run
  uint64_t clock_read_cost_ns = 200;
};
extern Config cfg;
extern std::string scratch;                 // per-worker scratch directory
uint64_t disk_errors();                     // disk errors injected so far
bool faults_enabled();                      // false after stop_faults()
void stop_faults();
void resume_faults();
void maybe_crash(const char *where);        // crash point of current process

// Allocation faults on the current task: the k-th allocation fails (1-based).
void alloc_fault_arm(uint64_t kth);
bool alloc_fault_disarm();                  // true if it fired
uint64_t alloc_count();                     // allocations seen since arm

// Captured standard output / error of the run so far.
std::string captured(int fd, bool flush = true);

// ---------------------------------------------------------------- harness
extern std::string property;                // the property being checked
void harness_run();                         // defined by each harness
const char *harness_components();           // JSON: real and stubbed parts

}  // namespace sim
