// Worker: runs seeds (one fork per run), replays and minimises.
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <malloc.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <filesystem>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

#include "internal.h"

namespace sim {
void run_child(uint64_t, const uint32_t *, uint32_t, bool, bool);
void harness_init() __attribute__((weak));
}  // namespace sim
using namespace sim;

static double wall() {
  timespec ts;
  sim_syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
  return (double)ts.tv_sec + (double)ts.tv_nsec / 1e9;
}

struct Result {
  std::vector<Viol> viol;
  uint64_t hash = 0, sched_hash = 0;
  bool hang = false;
};
static int g_wall_limit = 40;

static void clean_scratch() {
  std::error_code ec;
  for (auto &e : std::filesystem::directory_iterator(scratch, ec))
    std::filesystem::remove_all(e.path(), ec);
}

// Every run is forked from a process that has done nothing else, so that its heap (and thereby
// everything that could depend on an address) is the same whatever was run before.
static int g_zygote_to = -1, g_zygote_from = -1;
static int high(int fd) {
  int h = fcntl(fd, F_DUPFD_CLOEXEC, 210);
  close(fd);
  return h;
}
static void start_zygote() {
  int to[2], from[2];
  if (pipe(to) || pipe(from)) abort();
  g_zygote_to = high(to[1]);
  g_zygote_from = high(from[0]);
  int in = high(to[0]), out = high(from[1]);
  fflush(stdout);
  fflush(stderr);
  if (fork() != 0) {
    close(in);
    close(out);
    return;
  }
  close(g_zygote_to);
  close(g_zygote_from);
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  sigset_t set, old;
  sigemptyset(&set);
  sigaddset(&set, SIGCHLD);
  sigprocmask(SIG_BLOCK, &set, &old);
  bool capture = !getenv("SIM_NOCAPTURE");
  char c;
  for (;;) {
    long n = sim_syscall(SYS_read, in, &c, 1);
    if (n < 0 && errno == EINTR) continue;
    if (n != 1) _exit(0);
    pid_t pid = fork();
    if (pid == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      sigprocmask(SIG_SETMASK, &old, nullptr);
      close(in);
      close(out);
      g_verbose = g_sh->order_verbose;
      run_child(g_sh->order_seed, g_sh->order_choices, g_sh->order_n, g_sh->order_replay, capture);
      _exit(0);
    }
    if (pid < 0) abort();
    g_sh->order_hang = false;
    g_sh->order_status = 0;
    double t0 = wall();
    for (;;) {
      int st = 0;
      pid_t w = waitpid(pid, &st, WNOHANG);
      if (w != pid) {
        timespec ts = {1, 0};
        sigtimedwait(&set, nullptr, &ts);
        if (wall() - t0 <= g_sh->order_wall) continue;
        kill(pid, SIGKILL);
        waitpid(pid, &st, 0);
        g_sh->order_hang = true;
      }
      g_sh->order_status = st;
      break;
    }
    if (sim_syscall(SYS_write, out, &c, 1) != 1) _exit(0);
  }
}

// Runs once; the details stay in g_sh.
static Result run_once(uint64_t seed, const std::vector<uint32_t> *replay, bool verbose) {
  clean_scratch();
  g_sh->finished = 0;
  g_sh->nviol = 0;
  g_sh->ncounters = 0;
  g_sh->hash = g_sh->sched_hash = 0;
  g_sh->switches = g_sh->steps = g_sh->accesses = g_sh->sim_ns = g_sh->faults = 0;
  g_sh->nchoices = 0;
  g_sh->log_len = 0;
  g_sh->order_seed = seed;
  g_sh->order_verbose = verbose;
  g_sh->order_replay = replay != nullptr;
  g_sh->order_n = replay ? (uint32_t)std::min<size_t>(replay->size(), MAX_CHOICES) : 0;
  if (replay) memcpy(g_sh->order_choices, replay->data(), g_sh->order_n * sizeof(uint32_t));
  g_sh->order_wall = g_wall_limit;
  char c = 0;
  if (write(g_zygote_to, &c, 1) != 1 || read(g_zygote_from, &c, 1) != 1) {
    fprintf(stderr, "sim: the process that starts runs is gone\n");
    exit(4);
  }
  Result r;
  int st = g_sh->order_status;
  r.hang = g_sh->order_hang;
  for (uint32_t i = 0; i < g_sh->nviol; i++) r.viol.push_back(g_sh->viol[i]);
  if (!g_sh->finished) {
    Viol v;
    snprintf(v.props, sizeof v.props, "%s", property.c_str());
    if (r.hang) {
      snprintf(v.cls, sizeof v.cls, "hang");
      snprintf(v.msg, sizeof v.msg, "the run did not end within %d s of real time", g_wall_limit);
    } else if (WIFSIGNALED(st)) {
      snprintf(v.cls, sizeof v.cls, "died-signal-%d", WTERMSIG(st));
      snprintf(v.msg, sizeof v.msg, "the process died with signal %d (%s)", WTERMSIG(st),
               strsignal(WTERMSIG(st)));
    } else {
      snprintf(v.cls, sizeof v.cls, "exited-%d", WEXITSTATUS(st));
      snprintf(v.msg, sizeof v.msg, "the process exited with %d in the middle of a run",
               WEXITSTATUS(st));
    }
    r.viol.push_back(v);
  }
  r.hash = g_sh->hash;
  r.sched_hash = g_sh->sched_hash;
  return r;
}

static bool has_prop(const char *props, const std::string &p) {
  std::string s = std::string(",") + props + ",";
  return s.find("," + p + ",") != std::string::npos;
}
static const Viol *match(const Result &r, const std::string &cls = "") {
  for (auto &v : r.viol)
    if (has_prop(v.props, property) && (cls.empty() || cls == v.cls)) return &v;
  return nullptr;
}
static std::string esc(const std::string &s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += (char)c;
    } else if (c == '\n') {
      o += "\\n";
    } else if (c < 0x20 || c >= 0x7f) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else {
      o += (char)c;
    }
  }
  return o;
}
static std::vector<uint32_t> taken() {
  return std::vector<uint32_t>(g_sh->choices, g_sh->choices + g_sh->nchoices);
}
static void strip(std::vector<uint32_t> &c) {
  while (!c.empty() && c.back() == 0) c.pop_back();
}

static void write_replay(const std::string &path, uint64_t seed, const std::vector<uint32_t> &c,
                         const Viol &v, const std::string &log, uint64_t hash) {
  FILE *f = fopen(path.c_str(), "w");
  if (!f) {
    perror(path.c_str());
    return;
  }
  fprintf(f, "{\n \"property\": \"%s\",\n \"seed\": %llu,\n \"class\": \"%s\",\n", property.c_str(),
          (unsigned long long)seed, esc(v.cls).c_str());
  fprintf(f, " \"hash\": \"%016llx\",\n \"message\": \"%s\",\n", (unsigned long long)hash,
          esc(v.msg).c_str());
  fprintf(f, " \"choices\": [");
  for (size_t i = 0; i < c.size(); i++) fprintf(f, "%s%u", i ? "," : "", c[i]);
  fprintf(f, "],\n \"trace\": [");
  size_t p = 0;
  bool first = true;
  while (p < log.size()) {
    size_t e = log.find('\n', p);
    if (e == std::string::npos) e = log.size();
    fprintf(f, "%s\n  \"%s\"", first ? "" : ",", esc(log.substr(p, e - p)).c_str());
    first = false;
    p = e + 1;
  }
  fprintf(f, "\n ]\n}\n");
  fclose(f);
}
static bool read_replay(const std::string &path, uint64_t &seed, std::vector<uint32_t> &c,
                        std::string &cls) {
  FILE *f = fopen(path.c_str(), "r");
  if (!f) return false;
  std::string s;
  char b[65536];
  size_t n;
  while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
  fclose(f);
  size_t p = s.find("\"seed\":");
  if (p == std::string::npos) return false;
  seed = strtoull(s.c_str() + p + 7, nullptr, 10);
  p = s.find("\"class\": \"");
  if (p != std::string::npos) cls = s.substr(p + 10, s.find('"', p + 10) - p - 10);
  p = s.find("\"choices\": [");
  if (p == std::string::npos) return false;
  const char *q = s.c_str() + p + 12;
  while (*q && *q != ']') {
    char *e;
    c.push_back((uint32_t)strtoul(q, &e, 10));
    if (e == q) {
      c.pop_back();
      break;
    }
    q = *e == ',' ? e + 1 : e;
  }
  return true;
}

static int minimise(const std::string &in, const std::string &out, double budget) {
  uint64_t seed;
  std::vector<uint32_t> best;
  std::string cls;
  if (!read_replay(in, seed, best, cls)) return 2;
  Result r0 = run_once(seed, &best, false);
  const Viol *v = match(r0, cls);
  if (!v) {
    fprintf(stderr, "minimise: the original does not reproduce\n");
    return 2;
  }
  best = taken();
  strip(best);
  double t0 = wall();
  int runs = 0;
  if (cls == "hang") budget = 0;
  auto attempt = [&](std::vector<uint32_t> cand) {
    if (wall() - t0 > budget) return false;
    strip(cand);
    if (cand == best) return false;
    runs++;
    Result r = run_once(seed, &cand, false);
    if (!match(r, cls)) return false;
    auto t = taken();
    strip(t);
    // Accept only simplifications.
    if (t.size() > best.size()) return false;
    uint64_t a = 0, b = 0;
    for (auto x : t) a += x;
    for (auto x : best) b += x;
    if (t.size() == best.size() && a >= b) return false;
    best = t;
    return true;
  };
  bool progress = true;
  while (progress && wall() - t0 < budget) {
    progress = false;
    for (size_t len = best.size(); len > 0 && wall() - t0 < budget; len /= 2) {
      // delete blocks
      for (size_t i = 0; i + len <= best.size() && wall() - t0 < budget;) {
        auto c = best;
        c.erase(c.begin() + (long)i, c.begin() + (long)(i + len));
        if (attempt(c))
          progress = true;
        else
          i += len;
      }
      // zero blocks
      for (size_t i = 0; i < best.size() && wall() - t0 < budget; i += len) {
        auto c = best;
        bool any = false;
        for (size_t k = i; k < i + len && k < c.size(); k++) {
          any |= c[k] != 0;
          c[k] = 0;
        }
        if (any && attempt(c)) progress = true;
      }
    }
    // reduce single values
    for (size_t i = 0; i < best.size() && wall() - t0 < budget; i++) {
      while (i < best.size() && best[i] > 0) {
        auto c = best;
        c[i] /= 2;
        if (!attempt(c)) {
          c = best;
          c[i] -= 1;
          if (!attempt(c)) break;
        }
        progress = true;
      }
    }
  }
  Result r1 = run_once(seed, &best, true);
  v = match(r1, cls);
  if (!v) {
    fprintf(stderr, "minimise: the minimised trace does not reproduce\n");
    return 2;
  }
  std::string log(g_sh->log, g_sh->log_len);
  write_replay(out, seed, best, *v, log, r1.hash);
  printf("MINIMISED %zu choices, %d runs\n", best.size(), runs);
  return 0;
}

int main(int argc, char **argv) {
  // Same addresses in every process, so that nothing can depend on them.
  mallopt(M_ARENA_MAX, 1);  // addresses must not depend on which thread allocates first
  if (!getenv("SIM_ASLR_OFF") && personality(ADDR_NO_RANDOMIZE) != -1) {
    setenv("SIM_ASLR_OFF", "1", 1);
    execv("/proc/self/exe", argv);
  }
  std::string mode, in, out;
  uint64_t seed0 = 1;
  uint64_t start = 0, countn = 100, stride = 1;
  double limit = 1e9, budget = 30;
  uint64_t recheck = 0;
  bool verbose = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto next = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--prop") property = next();
    else if (a == "--scratch") scratch = next();
    else if (a == "--run") mode = "run";
    else if (a == "--seed") seed0 = strtoull(next().c_str(), nullptr, 10);
    else if (a == "--start") start = strtoull(next().c_str(), nullptr, 10);
    else if (a == "--count") countn = strtoull(next().c_str(), nullptr, 10);
    else if (a == "--stride") stride = strtoull(next().c_str(), nullptr, 10);
    else if (a == "--limit") limit = atof(next().c_str());
    else if (a == "--recheck") recheck = strtoull(next().c_str(), nullptr, 10);
    else if (a == "--budget") budget = atof(next().c_str());
    else if (a == "--wall") g_wall_limit = atoi(next().c_str());
    else if (a == "--replay") { mode = "replay"; in = next(); }
    else if (a == "--one") { mode = "one"; seed0 = strtoull(next().c_str(), nullptr, 10); }
    else if (a == "--minimise") { mode = "min"; in = next(); out = next(); }
    else if (a == "--out") out = next();
    else if (a == "-v") verbose = true;
    else if (a == "--components") { printf("%s\n", harness_components()); return 0; }
    else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
  }
  if (scratch.empty() || property.empty() || mode.empty()) {
    fprintf(stderr, "usage: worker --prop ID --scratch DIR (--run|--replay F|--minimise F G)\n");
    return 2;
  }
  g_sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                        MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (harness_init) harness_init();
  start_zygote();

  if (mode == "min") return minimise(in, out, budget);
  if (mode == "one" || mode == "replay") {
    uint64_t seed = seed0;
    std::vector<uint32_t> c;
    std::string cls;
    if (mode == "replay" && !read_replay(in, seed, c, cls)) {
      fprintf(stderr, "cannot read %s\n", in.c_str());
      return 2;
    }
    Result r = run_once(seed, mode == "replay" ? &c : nullptr, true);
    if (verbose) fwrite(g_sh->log, 1, g_sh->log_len, stdout);
    for (auto &v : r.viol) printf("VIOL %s|%s|%s\n", v.props, v.cls, v.msg);
    printf("HASH %016llx choices %u steps %llu switches %llu accesses %llu simtime %.3f faults %llu\n",
           (unsigned long long)r.hash, g_sh->nchoices, (unsigned long long)g_sh->steps,
           (unsigned long long)g_sh->switches, (unsigned long long)g_sh->accesses,
           (double)(g_sh->sim_ns - 5000 * SEC) / 1e9, (unsigned long long)g_sh->faults);
    if (verbose)
      for (uint32_t i = 0; i < g_sh->ncounters; i++)
        printf("  %s %llu\n", g_sh->counters[i].name, (unsigned long long)g_sh->counters[i].n);
    const Viol *v = match(r, cls);
    if (v && !out.empty()) {
      std::string log(g_sh->log, g_sh->log_len);
      write_replay(out, seed, taken(), *v, log, r.hash);
    }
    return v ? 1 : 0;
  }

  // mode run
  double t0 = wall();
  std::map<std::string, uint64_t> counters;
  std::unordered_set<uint64_t> hashes, scheds;
  uint64_t runs = 0, nontrivial = 0, sim_ns = 0, steps = 0, switches = 0, accesses = 0, faults = 0,
           rechecked = 0, other = 0, faulty_runs = 0, concurrent_runs = 0;
  std::vector<std::string> samples;
  FILE *f = fopen(out.c_str(), "w");
  int rc = 0;
  for (uint64_t i = start; i < countn; i += stride) {
    if (wall() - t0 > limit) break;
    uint64_t s = seed0 * 1000003ull + i;
    Result r = run_once(s, nullptr, false);
    runs++;
    sim_ns += g_sh->sim_ns > 5000 * SEC ? g_sh->sim_ns - 5000 * SEC : 0;
    steps += g_sh->steps;
    switches += g_sh->switches;
    accesses += g_sh->accesses;
    faults += g_sh->faults;
    faulty_runs += g_sh->faults > 0;
    concurrent_runs += g_sh->switches > 4;
    for (uint32_t k = 0; k < g_sh->ncounters; k++)
      counters[g_sh->counters[k].name] += g_sh->counters[k].n;
    bool fresh = hashes.insert(r.hash).second;
    scheds.insert(r.sched_hash);
    if (fresh && (g_sh->faults > 0 || g_sh->switches > 4)) nontrivial++;
    if (!r.viol.empty() && !match(r)) other++;
    const Viol *v = match(r);
    if (v) {
      Viol vv = *v;
      std::vector<uint32_t> c = taken();
      uint64_t h = r.hash;
      // Gate: the same seed again must give the same violation and event hash.
      Result r2 = run_once(s, nullptr, false);
      const Viol *v2 = match(r2, vv.cls);
      if (!v2 || (r2.hash != h && !r.hang)) {
        fprintf(f, "{\"error\": \"seed %llu: violation (%s: %s) not reproduced by the same seed\"}\n",
                (unsigned long long)s, esc(vv.cls).c_str(), esc(vv.msg).c_str());
        rc = 3;
        break;
      }
      std::string rp = out + ".replay";
      write_replay(rp, s, c, vv, "", h);
      fprintf(f,
              "{\"violation\": {\"seed\": %llu, \"class\": \"%s\", \"message\": \"%s\", \"replay\": "
              "\"%s\"}}\n",
              (unsigned long long)s, esc(vv.cls).c_str(), esc(vv.msg).c_str(), esc(rp).c_str());
      rc = 1;
      break;
    }
    if (recheck && (i / stride) % recheck == 0) {
      bool want_sample = samples.size() < 2;
      uint64_t h = r.hash;
      Result r2 = run_once(s, nullptr, want_sample);
      rechecked++;
      if (r2.hash != h) {
        fprintf(f, "{\"error\": \"seed %llu is not deterministic\"}\n", (unsigned long long)s);
        rc = 3;
        break;
      }
      if (want_sample && g_sh->log_len > 0) {
        std::string log(g_sh->log, g_sh->log_len > 3000 ? 3000 : g_sh->log_len);
        char head[64];
        snprintf(head, sizeof head, "seed %llu: ", (unsigned long long)s);
        samples.push_back(head + log);
      }
    }
  }
  double dt = wall() - t0;
  fprintf(f,
          "{\"stats\": {\"runs\": %llu, \"nontrivial\": %llu, \"sim_s\": %.3f, \"steps\": %llu, "
          "\"switches\": %llu, \"accesses\": %llu, \"faults\": %llu, \"faulty_runs\": %llu, "
          "\"concurrent_runs\": %llu, \"rechecked\": %llu, \"other_violations\": %llu, \"wall\": %.3f}}\n",
          (unsigned long long)runs, (unsigned long long)nontrivial, (double)sim_ns / 1e9,
          (unsigned long long)steps, (unsigned long long)switches, (unsigned long long)accesses,
          (unsigned long long)faults, (unsigned long long)faulty_runs,
          (unsigned long long)concurrent_runs, (unsigned long long)rechecked,
          (unsigned long long)other, dt);
  fprintf(f, "{\"counters\": {");
  bool first = true;
  for (auto &[k, n] : counters) {
    fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", k.c_str(), (unsigned long long)n);
    first = false;
  }
  fprintf(f, "}}\n{\"scheds\": [");
  first = true;
  for (auto h : scheds) {
    fprintf(f, "%s%llu", first ? "" : ",", (unsigned long long)h);
    first = false;
  }
  fprintf(f, "]}\n{\"hashes\": [");
  first = true;
  for (auto h : hashes) {
    fprintf(f, "%s%llu", first ? "" : ",", (unsigned long long)h);
    first = false;
  }
  fprintf(f, "]}\n");
  for (auto &s : samples) fprintf(f, "{\"sample\": \"%s\"}\n", esc(s).c_str());
  fclose(f);
  return rc;
}
