#include <linux/futex.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <stdarg.h>
#include <sys/ioctl.h>
#include <net/if.h>
// Seams: pthread, clocks, sleeping, entropy, files, allocation.  Every function
// behaves normally unless called by a simulated task.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <malloc.h>
#include <sched.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/random.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#include <map>
#include <new>
#include <random>

#include "internal.h"

extern "C" {
void *__libc_malloc(size_t);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *__libc_memalign(size_t, size_t);
void __libc_free(void *);
}

namespace sim {
uint64_t clock_read(bool realtime);
void forced_yield();

template <class F>
static F real(F &slot, const char *name) {
  if (!slot) slot = (F)dlsym(RTLD_NEXT, name);
  return slot;
}
#define REAL(name)                      \
  static decltype(&::name) slot_##name; \
  auto r_##name = real(slot_##name, #name)

// --------------------------------------------------------------- mutex state
struct Mx {
  int owner = -1;
  int depth = 0;
  int readers = 0;
  int id = 0;
  int reader_depth[MAX_TASKS] = {};
};
struct Cv {
  std::vector<Task *> waiters;
};
static std::map<const void *, Mx> *g_mx;
static std::map<const void *, Cv> *g_cv;
struct FdInfo {
  bool tracked = false;
  bool urandom = false;
  int proc = 0;
  std::string path;
};
static FdInfo *g_fds;
constexpr int MAX_FD = 4096;

void interpose_reset() {
  g_mx = new std::map<const void *, Mx>;
  g_cv = new std::map<const void *, Cv>;
  g_fds = new FdInfo[MAX_FD];
}
static Mx &mx(const void *m) {
  auto it = g_mx->find(m);
  if (it != g_mx->end()) return it->second;
  Mx &x = (*g_mx)[m];
  x.id = (int)g_mx->size();
  return x;
}
static void wake_blocked(const void *obj) {
  for (int i = 0; i < g_ntasks; i++)
    if (g_tasks[i]->st == St::BLOCKED && g_tasks[i]->arg == obj) make_runnable(g_tasks[i]);
}
static void wait_on(const void *obj, const char *why, uint64_t until) {
  t_task->arg = (void *)obj;
  block(why, until);
  t_task->arg = nullptr;
}
static int do_lock(const void *m, bool recursive, bool errorcheck, bool tryit, uint64_t until) {
  Quiet q;
  Mx &x = mx(m);
  int self = t_task->id;
  sched_point(tryit ? "trylock" : "lock", x.id);
  if (x.owner == self) {
    if (recursive) {
      x.depth++;
      return 0;
    }
    if (tryit) return EBUSY;
    if (errorcheck) return EDEADLK;
  }
  while (x.owner != -1 || x.readers > 0) {
    if (tryit) {
      spun();
      return EBUSY;
    }
    wait_on(m, "mutex", until);
    if (until && t_task->timed_out) return ETIMEDOUT;
  }
  x.owner = self;
  x.depth = 1;
  hb_acquire(m);
  return 0;
}
static int do_unlock(const void *m) {
  Quiet q;
  Mx &x = mx(m);
  int self = t_task->id;
  if (x.owner == self) {
    if (--x.depth > 0) return 0;
    hb_release(m);
    x.owner = -1;
    wake_blocked(m);
    sched_point("unlock", x.id);
    return 0;
  }
  if (x.reader_depth[self] > 0) {
    hb_release((const char *)m + 1);
    x.reader_depth[self]--;
    x.readers--;
    wake_blocked(m);
    sched_point("rdunlock", x.id);
    return 0;
  }
  if (x.owner == -1) {
    violation(property.c_str(), "bad-unlock", "a mutex that nobody holds is unlocked");
  } else {
    violation(property.c_str(), "bad-unlock", "a mutex is unlocked by a task that does not hold it");
  }
  return EPERM;
}
static int do_rdlock(const void *m, bool tryit, uint64_t until) {
  Quiet q;
  Mx &x = mx(m);
  sched_point("rdlock", x.id);
  while (x.owner != -1) {
    if (tryit) return EBUSY;
    if (x.owner == t_task->id) return EDEADLK;
    wait_on(m, "rwlock", until);
    if (until && t_task->timed_out) return ETIMEDOUT;
  }
  x.readers++;
  x.reader_depth[t_task->id]++;
  hb_acquire(m);
  return 0;
}
static int do_wrlock(const void *m, bool tryit, uint64_t until) {
  int r = do_lock(m, false, true, tryit, until);
  if (r == 0) {
    Quiet q;
    hb_acquire((const char *)m + 1);
  }
  return r;
}

static uint64_t deadline(const timespec *ts, bool realtime) {
  uint64_t abs = (uint64_t)ts->tv_sec * SEC + (uint64_t)ts->tv_nsec;
  if (!realtime) return abs <= now() ? now() + 1 : abs;
  uint64_t cur = clock_read(true);
  return abs <= cur ? now() + 1 : now() + (abs - cur);
}

static int do_cond_wait(const void *c, pthread_mutex_t *m, uint64_t until) {
  Quiet q;
  (*g_cv)[c].waiters.push_back(t_task);
  Mx &x = mx(m);
  int depth = x.depth;
  x.owner = -1;
  x.depth = 0;
  hb_release(m);
  wake_blocked(m);
  if (cfg.spurious_num && faults_enabled() && chance(cfg.spurious_num, cfg.spurious_den)) {
    fault("spurious_wakeup");
    until = now() + 1;
    t_task->arg = (void *)c;
    block("cond", until);
    t_task->timed_out = false;
  } else {
    t_task->arg = (void *)c;
    block("cond", until);
  }
  t_task->arg = nullptr;
  bool to = t_task->timed_out;
  auto &w = (*g_cv)[c].waiters;
  for (size_t i = 0; i < w.size(); i++)
    if (w[i] == t_task) {
      w.erase(w.begin() + (long)i);
      break;
    }
  hb_acquire(c);
  do_lock(m, false, false, false, 0);
  mx(m).depth = depth;
  return to && until ? ETIMEDOUT : 0;
}
static int do_signal(const void *c, bool all) {
  Quiet q;
  sched_point(all ? "broadcast" : "signal");
  hb_release(c);
  auto &w = (*g_cv)[c].waiters;
  if (all) {
    for (Task *t : w) make_runnable(t);
    w.clear();
  } else if (!w.empty()) {
    size_t i = choose((uint32_t)w.size());
    make_runnable(w[i]);
    w.erase(w.begin() + (long)i);
  }
  return 0;
}

void close_process_fds(int proc) {
  for (int fd = 0; fd < MAX_FD; fd++)
    if ((g_fds[fd].tracked) && g_fds[fd].proc == proc) {
      sim_syscall(SYS_close, fd);
      g_fds[fd] = FdInfo{};
    }
}

// ------------------------------------------------------------------- files
static bool under_scratch(const char *p) {
  return p && !scratch.empty() && strncmp(p, scratch.c_str(), scratch.size()) == 0 &&
         (p[scratch.size()] == '/' || p[scratch.size()] == 0);
}
static bool fd_tracked(int fd) { return fd >= 0 && fd < MAX_FD && g_fds && g_fds[fd].tracked; }
static bool tracked_at(int dirfd, const char *p) {
  if (!on() || !p) return false;
  if (p[0] == '/') return under_scratch(p);
  return dirfd != AT_FDCWD && fd_tracked(dirfd);
}
static const char *tail(const char *p) {
  return under_scratch(p) ? p + scratch.size() : p;
}
// One of the given errnos, or 0.
static uint64_t g_disk_errors;
uint64_t disk_errors() { return g_disk_errors; }
static int file_fault(const char *op, std::initializer_list<int> errs) {
  if (!cfg.file_num || !faults_enabled() || t_task->proc == 0) return 0;
  if (!chance(cfg.file_num, cfg.file_den)) return 0;
  uint32_t k = choose((uint32_t)errs.size());
  int e = *(errs.begin() + k);
  char name[64];
  snprintf(name, sizeof name, "disk.%s.%s", op, strerrorname_np(e));
  fault(name);
  g_disk_errors++;
  return e;
}
static void file_point(const char *op, const char *path) {
  char what[48];
  snprintf(what, sizeof what, "file.%s", op);
  note("%s %s", what, path ? tail(path) : "");
  sched_point(what);
  maybe_crash(what);
}
static void track(int fd, const char *path, bool urandom = false) {
  if (fd >= 0 && fd < MAX_FD) {
    g_fds[fd].tracked = true;
    g_fds[fd].urandom = urandom;
    g_fds[fd].proc = t_task->proc;
    g_fds[fd].path = path;
  }
}
static size_t g_entropy_used = sizeof(uint32_t);
static bool g_entropy_echo = false;
void entropy_begin(bool echo) {
  g_sh->echo_have = echo;
  g_entropy_echo = echo;
  g_entropy_used = 0;
  if (echo) fault("random.first_word_repeats");
}
static void fill_random(void *buf, size_t n) {
  unsigned char *p = (unsigned char *)buf;
  for (size_t i = 0; i < n; i += 8) {
    uint64_t v = entropy64();
    memcpy(p + i, &v, n - i < 8 ? n - i : 8);
  }
  // A process that consumes only a few random bits meets another with the same ones sooner or later.
  for (size_t i = 0; i < n && g_entropy_used < sizeof g_sh->echo; i++, g_entropy_used++) {
    if (!g_sh->echo_have)
      g_sh->echo[g_entropy_used] = p[i];
    else if (g_entropy_echo)
      p[i] = g_sh->echo[g_entropy_used];
  }
}
static bool is_random_dev(const char *p) {
  return p && (!strcmp(p, "/dev/urandom") || !strcmp(p, "/dev/random"));
}

static int sim_openat(int dirfd, const char *path, int flags, mode_t mode) {
  if (on() && is_random_dev(path)) {
    Quiet q;
    sched_point("random.open");
    int fd = (int)sim_syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDONLY | O_CLOEXEC, 0);
    track(fd, path, true);
    return fd;
  }
  if (!tracked_at(dirfd, path)) {
    if (on() && path && path[0] == '/' && (flags & O_ACCMODE) != O_RDONLY && strncmp(path, "/dev/", 5)) {
      errno = EACCES;  // nothing outside the scratch directory is written
      return -1;
    }
    return (int)sim_syscall(SYS_openat, dirfd, path, flags, mode);
  }
  Quiet q;
  bool wr = (flags & O_ACCMODE) != O_RDONLY;
  file_point(wr ? "open-w" : "open-r", path);
  int e = wr ? file_fault("open", {EACCES, ENOSPC, EMFILE, EIO, EROFS})
             : file_fault("open", {EACCES, EMFILE, EIO});
  if (e) {
    errno = e;
    return -1;
  }
  int fd = (int)sim_syscall(SYS_openat, dirfd, path, flags, mode);
  if (fd >= 0) track(fd, path);
  return fd;
}

static ssize_t sim_write(int fd, const struct iovec *iov, int cnt, bool plain, off_t off = -1) {
  auto raw = [&](const struct iovec *v, int c) -> ssize_t {
    if (off >= 0) return sim_syscall(SYS_pwritev, fd, v, c, off, 0);
    return sim_syscall(SYS_writev, fd, v, c);
  };
  if (!on() || !fd_tracked(fd)) return raw(iov, cnt);
  Quiet q;
  (void)plain;
  file_point("write", g_fds[fd].path.c_str());
  size_t total = 0;
  for (int i = 0; i < cnt; i++) total += iov[i].iov_len;
  std::string flat;
  for (int i = 0; i < cnt; i++) flat.append((const char *)iov[i].iov_base, iov[i].iov_len);
  auto put = [&](size_t n) -> ssize_t {
    if (n == 0) return 0;
    struct iovec one = {(void *)flat.data(), n};
    return raw(&one, 1);
  };
  int e = file_fault("write", {ENOSPC, EIO, EINTR, EDQUOT});
  if (e == EINTR) {
    errno = EINTR;
    return -1;
  }
  if (e) {
    // A failing write may have written a prefix (full disk).
    size_t k = total ? choose((uint32_t)total) : 0;
    put(k);
    if (k > 0 && choose(2)) {
      count("fault.disk.write.short");
      return (ssize_t)k;  // partial success now; the rest fails on a full disk
    }
    errno = e;
    return -1;
  }
  if (cfg.file_num && faults_enabled() && total > 1 && t_task->proc != 0 &&
      chance(cfg.file_num, cfg.file_den)) {
    size_t k = 1 + choose((uint32_t)total - 1);
    fault("disk.write.short");
    return put(k);
  }
  // Torn write: the process dies after part of the data reached the file.
  if (cfg.crash_num && faults_enabled() && t_task->proc != 0 && total > 0 &&
      chance(cfg.crash_num, cfg.crash_den)) {
    size_t k = choose((uint32_t)total + 1);
    put(k);
    fault("disk.write.torn_by_crash");
    crash_process(t_task->proc);
  }
  ssize_t r = put(total);
  sched_point("file.written");
  return r;
}
static ssize_t sim_read(int fd, void *buf, size_t n, off_t off = -1) {
  auto raw = [&](size_t k) -> ssize_t {
    return off >= 0 ? sim_syscall(SYS_pread64, fd, buf, k, off) : sim_syscall(SYS_read, fd, buf, k);
  };
  if (!on() || !fd_tracked(fd)) return raw(n);
  Quiet q;
  if (g_fds[fd].urandom) {
    sched_point("random.read");
    if (cfg.rand_num && faults_enabled() && chance(cfg.rand_num, cfg.rand_den)) {
      if (choose(2)) {
        fault("random.EINTR");
        errno = EINTR;
        return -1;
      }
      fault("random.short");
      n = n > 1 ? 1 + choose((uint32_t)n - 1) : n;
    }
    fill_random(buf, n);
    return (ssize_t)n;
  }
  file_point("read", g_fds[fd].path.c_str());
  int e = file_fault("read", {EIO, EINTR});
  if (e) {
    errno = e;
    return -1;
  }
  if (cfg.file_num && faults_enabled() && n > 1 && t_task->proc != 0 &&
      chance(cfg.file_num, cfg.file_den)) {
    fault("disk.read.short");
    n = 1 + choose((uint32_t)(n > 16 ? 16 : n - 1));
  }
  return raw(n);
}
static int sim_close(int fd) {
  if (!on() || !fd_tracked(fd)) return (int)sim_syscall(SYS_close, fd);
  Quiet q;
  if (!g_fds[fd].urandom) file_point("close", g_fds[fd].path.c_str());
  g_fds[fd] = FdInfo{};
  return (int)sim_syscall(SYS_close, fd);
}
struct PathOp {
  int err = 0;
  bool tracked = false;
};
static PathOp path_op(int dirfd, const char *op, const char *path,
                      std::initializer_list<int> errs) {
  PathOp r;
  if (!tracked_at(dirfd, path)) return r;
  Quiet q;
  r.tracked = true;
  file_point(op, path);
  r.err = file_fault(op, errs);
  return r;
}

}  // namespace sim

using namespace sim;

// ===================================================================== files
extern "C" {

#undef open
int open(const char *path, int flags, ...) {
  mode_t mode = 0;
  if (flags & (O_CREAT | O_TMPFILE)) {
    va_list ap;
    va_start(ap, flags);
    mode = va_arg(ap, mode_t);
    va_end(ap);
  }
  return sim_openat(AT_FDCWD, path, flags, mode);
}
int open64(const char *path, int flags, ...) {
  mode_t mode = 0;
  if (flags & (O_CREAT | O_TMPFILE)) {
    va_list ap;
    va_start(ap, flags);
    mode = va_arg(ap, mode_t);
    va_end(ap);
  }
  return sim_openat(AT_FDCWD, path, flags, mode);
}
int openat(int d, const char *path, int flags, ...) {
  mode_t mode = 0;
  if (flags & (O_CREAT | O_TMPFILE)) {
    va_list ap;
    va_start(ap, flags);
    mode = va_arg(ap, mode_t);
    va_end(ap);
  }
  return sim_openat(d, path, flags, mode);
}
int openat64(int d, const char *path, int flags, ...) {
  mode_t mode = 0;
  if (flags & (O_CREAT | O_TMPFILE)) {
    va_list ap;
    va_start(ap, flags);
    mode = va_arg(ap, mode_t);
    va_end(ap);
  }
  return sim_openat(d, path, flags, mode);
}
int creat(const char *path, mode_t mode) {
  return sim_openat(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode);
}

// Streams on simulated files do their I/O through the simulated descriptors, so that buffering, short
// writes and error flags are stdio's own.
struct Cookie {
  int fd;
};
static std::map<FILE *, int> &stream_fds() {
  static auto *m = new std::map<FILE *, int>;
  return *m;
}
static ssize_t cookie_read(void *c, char *b, size_t n) { return sim_read(((Cookie *)c)->fd, b, n); }
static ssize_t cookie_write(void *c, const char *b, size_t n) {
  size_t done = 0;
  while (done < n) {
    ssize_t k = ::write(((Cookie *)c)->fd, b + done, n - done);
    if (k <= 0) break;
    done += (size_t)k;
  }
  return (ssize_t)done;  // fewer than n: an error
}
static int cookie_seek(void *c, off64_t *off, int whence) {
  off64_t r = lseek64(((Cookie *)c)->fd, *off, whence);
  if (r < 0) return -1;
  *off = r;
  return 0;
}
static int cookie_close(void *c) {
  int fd = ((Cookie *)c)->fd;
  delete (Cookie *)c;
  return sim_close(fd);
}
static FILE *stream_on(int fd, const char *mode) {
  Quiet q;
  FILE *f = fopencookie(new Cookie{fd}, mode, {cookie_read, cookie_write, cookie_seek, cookie_close});
  stream_fds()[f] = fd;
  return f;
}
static FILE *sim_fopen(FILE *(*r)(const char *, const char *), const char *path, const char *mode) {
  if (!on() || (!under_scratch(path) && !is_random_dev(path))) return r(path, mode);
  bool plus = strchr(mode, '+');
  int fl = plus ? O_RDWR : mode[0] == 'r' ? O_RDONLY : O_WRONLY;
  if (mode[0] == 'w') fl |= O_CREAT | O_TRUNC;
  if (mode[0] == 'a') fl |= O_CREAT | O_APPEND;
  if (strchr(mode, 'x')) fl |= O_EXCL;
  if (strchr(mode, 'e')) fl |= O_CLOEXEC;
  int fd = sim_openat(AT_FDCWD, path, fl, 0666);
  return fd < 0 ? nullptr : stream_on(fd, mode);
}
FILE *fopen(const char *path, const char *mode) {
  REAL(fopen);
  return sim_fopen(r_fopen, path, mode);
}
FILE *fopen64(const char *path, const char *mode) {
  REAL(fopen64);
  return sim_fopen(r_fopen64, path, mode);
}
FILE *fdopen(int fd, const char *mode) noexcept {
  REAL(fdopen);
  if (!on() || !fd_tracked(fd)) return r_fdopen(fd, mode);
  return stream_on(fd, mode);
}
int fileno(FILE *f) noexcept {
  {
    Quiet q;
    auto it = stream_fds().find(f);
    if (it != stream_fds().end()) return it->second;
  }
  REAL(fileno);
  return r_fileno(f);
}
int fileno_unlocked(FILE *f) noexcept { return fileno(f); }
int fclose(FILE *f) {
  REAL(fclose);
  if (f) {
    Quiet q;
    stream_fds().erase(f);
  }
  return r_fclose(f);
}
ssize_t read(int fd, void *b, size_t n) { return sim_read(fd, b, n); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return sim_read(fd, b, n, o); }
ssize_t pread64(int fd, void *b, size_t n, off_t o) { return sim_read(fd, b, n, o); }
ssize_t write(int fd, const void *b, size_t n) {
  if (!on() || !fd_tracked(fd)) return sim_syscall(SYS_write, fd, b, n);
  struct iovec v = {(void *)b, n};
  return sim_write(fd, &v, 1, true);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) {
  if (!on() || !fd_tracked(fd)) return sim_syscall(SYS_pwrite64, fd, b, n, o);
  struct iovec v = {(void *)b, n};
  return sim_write(fd, &v, 1, true, o);
}
ssize_t writev(int fd, const struct iovec *v, int c) { return sim_write(fd, v, c, false); }
int close(int fd) { return sim_close(fd); }
int fsync(int fd) {
  if (on() && fd_tracked(fd)) {
    Quiet q;
    file_point("fsync", g_fds[fd].path.c_str());
    int e = file_fault("fsync", {EIO, ENOSPC});
    if (e) {
      errno = e;
      return -1;
    }
    return 0;
  }
  return (int)sim_syscall(SYS_fsync, fd);
}
int fdatasync(int fd) { return fsync(fd); }
int flock(int fd, int op) {
  if (!on() || !fd_tracked(fd)) return (int)sim_syscall(SYS_flock, fd, op);
  for (;;) {
    {
      Quiet q;
      file_point("flock", g_fds[fd].path.c_str());
    }
    int r = (int)sim_syscall(SYS_flock, fd, op | LOCK_NB);
    if (r == 0 || errno != EWOULDBLOCK || (op & LOCK_NB)) return r;
    sim::sleep_ns(MS);
  }
}
int rename(const char *a, const char *b) {
  bool tb = tracked_at(AT_FDCWD, b);
  PathOp p = path_op(AT_FDCWD, "rename", tb ? b : a, {EACCES, EIO, ENOSPC});
  if (p.err) {
    errno = p.err;
    return -1;
  }
  int r = (int)sim_syscall(SYS_rename, a, b);
  int e = errno;
  if (p.tracked) {
    Quiet q;
    sched_point("file.renamed");
    maybe_crash("file.renamed");
  }
  errno = e;
  return r;
}
int renameat(int da, const char *a, int db, const char *b) {
  PathOp p = path_op(db, "rename", b, {EACCES, EIO, ENOSPC});
  if (p.err) {
    errno = p.err;
    return -1;
  }
  return (int)sim_syscall(SYS_renameat, da, a, db, b);
}
int link(const char *a, const char *b) {
  PathOp p = path_op(AT_FDCWD, "link", b, {EACCES, EIO, ENOSPC});
  if (p.err) {
    errno = p.err;
    return -1;
  }
  return (int)sim_syscall(SYS_link, a, b);
}
int unlinkat(int d, const char *path, int fl) {
  PathOp p = path_op(d, "unlink", path, {EACCES, EIO, EBUSY});
  if (p.err) {
    errno = p.err;
    return -1;
  }
  int r = (int)sim_syscall(SYS_unlinkat, d, path, fl);
  int e = errno;
  if (p.tracked) {
    Quiet q;
    sched_point("file.unlinked");
    maybe_crash("file.unlinked");
  }
  errno = e;
  return r;
}
int unlink(const char *path) { return unlinkat(AT_FDCWD, path, 0); }
int rmdir(const char *path) { return unlinkat(AT_FDCWD, path, AT_REMOVEDIR); }
int remove(const char *path) {
  int r = unlinkat(AT_FDCWD, path, 0);
  if (r == -1 && errno == EISDIR) r = unlinkat(AT_FDCWD, path, AT_REMOVEDIR);
  return r;
}
int mkdirat(int d, const char *path, mode_t m) {
  PathOp p = path_op(d, "mkdir", path, {EACCES, ENOSPC, EIO, EROFS});
  if (p.err) {
    errno = p.err;
    return -1;
  }
  return (int)sim_syscall(SYS_mkdirat, d, path, m);
}
int mkdir(const char *path, mode_t m) { return mkdirat(AT_FDCWD, path, m); }
int truncate(const char *path, off_t n) {
  PathOp p = path_op(AT_FDCWD, "truncate", path, {EACCES, EIO});
  if (p.err) {
    errno = p.err;
    return -1;
  }
  return (int)sim_syscall(SYS_truncate, path, n);
}
int ftruncate(int fd, off_t n) {
  if (on() && fd_tracked(fd)) {
    Quiet q;
    file_point("ftruncate", g_fds[fd].path.c_str());
  }
  return (int)sim_syscall(SYS_ftruncate, fd, n);
}
static int sim_fstatat(int d, const char *path, void *st, int fl) {
  // Stat can fail, too, but with errors callers can hardly be expected to
  // survive silently; EACCES/EIO make std::filesystem throw, which is allowed.
  PathOp p = path_op(d, "stat", path, {EACCES, EIO});
  if (p.err) {
    errno = p.err;
    return -1;
  }
  int r = (int)sim_syscall(SYS_newfstatat, d, path, st, fl);
  int e = errno;
  if (p.tracked) {
    Quiet q;
    sched_point("file.statted");
  }
  errno = e;
  return r;
}
int stat(const char *p, struct stat *s) { return sim_fstatat(AT_FDCWD, p, s, 0); }
int stat64(const char *p, struct stat64 *s) { return sim_fstatat(AT_FDCWD, p, s, 0); }
int lstat(const char *p, struct stat *s) { return sim_fstatat(AT_FDCWD, p, s, AT_SYMLINK_NOFOLLOW); }
int lstat64(const char *p, struct stat64 *s) {
  return sim_fstatat(AT_FDCWD, p, s, AT_SYMLINK_NOFOLLOW);
}
int fstatat(int d, const char *p, struct stat *s, int f) { return sim_fstatat(d, p, s, f); }
int fstatat64(int d, const char *p, struct stat64 *s, int f) { return sim_fstatat(d, p, s, f); }
int access(const char *path, int m) {
  PathOp p = path_op(AT_FDCWD, "access", path, {EACCES, EIO});
  if (p.err) {
    errno = p.err;
    return -1;
  }
  return (int)sim_syscall(SYS_access, path, m);
}
static int sim_mkstemp(char *tmpl, int suffixlen, int flags) {
  size_t n = strlen(tmpl);
  char *x = tmpl + n - 6 - suffixlen;
  static const char al[] = "abcdefghijklmnopqrstuvwxyz0123456789";
  for (int tries = 0; tries < 100; tries++) {
    for (int i = 0; i < 6; i++) x[i] = al[entropy64() % 36];
    int fd = sim_openat(AT_FDCWD, tmpl, O_RDWR | O_CREAT | O_EXCL | flags, 0600);
    if (fd >= 0 || errno != EEXIST) return fd;
  }
  return -1;
}
int mkstemp(char *t) {
  REAL(mkstemp);
  if (!on() || !under_scratch(t)) return r_mkstemp(t);
  return sim_mkstemp(t, 0, 0);
}
int mkstemp64(char *t) { return mkstemp(t); }
int mkostemp(char *t, int fl) {
  REAL(mkostemp);
  if (!on() || !under_scratch(t)) return r_mkostemp(t, fl);
  return sim_mkstemp(t, 0, fl);
}
int mkstemps(char *t, int s) {
  REAL(mkstemps);
  if (!on() || !under_scratch(t)) return r_mkstemps(t, s);
  return sim_mkstemp(t, s, 0);
}

// =================================================================== entropy
ssize_t getrandom(void *b, size_t n, unsigned fl) {
  if (!on()) return sim_syscall(SYS_getrandom, b, n, fl);
  Quiet q;
  sched_point("getrandom");
  if (cfg.rand_num && faults_enabled() && chance(cfg.rand_num, cfg.rand_den)) {
    // Requests of up to 256 bytes are never interrupted; "not ready yet" does not last.
    switch (choose(n > 256 ? 4 : 3)) {
      case 0:
        if (t_task->spins < 4) {
          t_task->spins++;
          fault("random.EAGAIN");
          errno = EAGAIN;
          return -1;
        }
        break;
      case 3:
        fault("random.EINTR");
        errno = EINTR;
        return -1;
      case 1:
        fault("random.ENOSYS");
        errno = ENOSYS;
        return -1;
      default:
        fault("random.short");
        if (n > 1) n = 1 + choose((uint32_t)n - 1);
        break;
    }
  }
  fill_random(b, n);
  return (ssize_t)n;
}
int getentropy(void *b, size_t n) {
  if (!on()) {
    REAL(getentropy);
    return r_getentropy(b, n);
  }
  Quiet q;
  sched_point("getentropy");
  fill_random(b, n);
  return 0;
}
// Machines have one hardware address: time-based identifiers of all processes share it.
int ioctl(int fd, unsigned long req, ...) {
  va_list ap;
  va_start(ap, req);
  void *arg = va_arg(ap, void *);
  va_end(ap);
  if (on() && req == SIOCGIFCONF) {
    struct ifconf *c = (struct ifconf *)arg;
    if (c->ifc_buf && c->ifc_len >= (int)sizeof(struct ifreq)) {
      memset(c->ifc_buf, 0, sizeof(struct ifreq));
      strcpy(c->ifc_req->ifr_name, "eth0");
    }
    c->ifc_len = sizeof(struct ifreq);
    return 0;
  }
  if (on() && req == SIOCGIFHWADDR) {
    static const unsigned char mac[6] = {0x02, 0x42, 0xac, 0x11, 0x00, 0x02};
    memcpy(((struct ifreq *)arg)->ifr_hwaddr.sa_data, mac, 6);
    return 0;
  }
  return (int)sim_syscall(SYS_ioctl, fd, req, arg);
}
pid_t getpid(void) {
  if (t_task) return 4242 + t_task->proc;
  return (pid_t)sim_syscall(SYS_getpid);
}

pid_t getppid(void) {
  if (t_task) return 4200;
  return (pid_t)sim_syscall(SYS_getppid);
}
pid_t gettid(void) {
  if (t_task) return 5000 + t_task->id;
  return (pid_t)sim_syscall(SYS_gettid);
}
int connect(int fd, const struct sockaddr *a, socklen_t n) {
  if (on()) {
    errno = ECONNREFUSED;  // no network and no daemons but the simulated ones
    return -1;
  }
  return (int)sim_syscall(SYS_connect, fd, a, n);
}
static long do_futex(int *addr, int op, int val, const struct timespec *ts, int val3) {
  Quiet q;
  int cmd = op & FUTEX_CMD_MASK;
  if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
    sched_point("futex.wait");
    if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) {
      errno = EAGAIN;
      return -1;
    }
    uint64_t until = 0;
    if (ts)
      until = cmd == FUTEX_WAIT ? now() + 1 + (uint64_t)ts->tv_sec * SEC + (uint64_t)ts->tv_nsec
                                : deadline(ts, op & FUTEX_CLOCK_REALTIME);
    (*g_cv)[addr].waiters.push_back(t_task);
    t_task->arg = addr;
    t_task->futex = addr;
    t_task->futex_val = val;
    block("futex", until);
    t_task->arg = nullptr;
    t_task->futex = nullptr;
    bool to = t_task->timed_out;
    auto &w = (*g_cv)[addr].waiters;
    for (size_t i = 0; i < w.size(); i++)
      if (w[i] == t_task) {
        w.erase(w.begin() + (long)i);
        break;
      }
    hb_acquire(addr);
    if (to && until) {
      errno = ETIMEDOUT;
      return -1;
    }
    return 0;
  }
  if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
    sched_point("futex.wake");
    hb_release(addr);
    auto &w = (*g_cv)[addr].waiters;
    long n = 0;
    while (n < val && !w.empty()) {
      size_t i = w.size() > 1 ? choose((uint32_t)w.size()) : 0;
      make_runnable(w[i]);
      w.erase(w.begin() + (long)i);
      n++;
    }
    return n;
  }
  return sim_syscall(SYS_futex, addr, op, val, ts, nullptr, val3);
}
long sim_syscall(long nr, ...) {
  va_list ap;
  va_start(ap, nr);
  long a[6];
  for (long &x : a) x = va_arg(ap, long);
  va_end(ap);
  register long r10 __asm__("r10") = a[3];
  register long r8 __asm__("r8") = a[4];
  register long r9 __asm__("r9") = a[5];
  long r;
  __asm__ volatile("syscall"
                   : "=a"(r)
                   : "a"(nr), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  if (r < 0 && r > -4096) {
    errno = (int)-r;
    return -1;
  }
  return r;
}
// libuuid asks for its thread id this way; atomic waits, semaphores, latches and futures end here
long syscall(long nr, ...) {
  va_list ap;
  va_start(ap, nr);
  long a[6];
  for (long &x : a) x = va_arg(ap, long);
  va_end(ap);
  if (t_task) {
    if (nr == SYS_gettid) return 5000 + t_task->id;
    if (nr == SYS_getpid) return 4242 + t_task->proc;
    if (nr == SYS_getppid) return 4200;
    if (on() && nr == SYS_getrandom) return getrandom((void *)a[0], (size_t)a[1], (unsigned)a[2]);
    if (on() && nr == SYS_futex)
      return do_futex((int *)a[0], (int)a[1], (int)a[2], (const struct timespec *)a[3], (int)a[5]);
    if (on() && nr == SYS_sched_yield) return sched_yield();
  }
  return sim_syscall(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
}

// ==================================================================== clocks
int clock_gettime(clockid_t c, struct timespec *ts) {
  if (!on()) {
    REAL(clock_gettime);
    return r_clock_gettime(c, ts);
  }
  Quiet q;
  bool rt = c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI;
  if (c == CLOCK_PROCESS_CPUTIME_ID || c == CLOCK_THREAD_CPUTIME_ID) {
    ts->tv_sec = 0;
    ts->tv_nsec = 1000;
    return 0;
  }
  uint64_t v = clock_read(rt);
  ts->tv_sec = (time_t)(v / SEC);
  ts->tv_nsec = (long)(v % SEC);
  return 0;
}
int gettimeofday(struct timeval *tv, void *tz) {
  if (!on()) {
    struct timespec ts;
    REAL(clock_gettime);
    r_clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
  }
  (void)tz;
  Quiet q;
  uint64_t v = clock_read(true);
  tv->tv_sec = (time_t)(v / SEC);
  tv->tv_usec = (long)(v % SEC / 1000);
  return 0;
}
time_t time(time_t *t) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (t) *t = ts.tv_sec;
  return ts.tv_sec;
}
int nanosleep(const struct timespec *r, struct timespec *rem) {
  if (!on()) {
    REAL(nanosleep);
    return r_nanosleep(r, rem);
  }
  if (r->tv_sec < 0) {
    errno = EINVAL;
    return -1;
  }
  note("sleep %.3f s", (double)r->tv_sec + (double)r->tv_nsec / 1e9);
  count("sleeps");
  sim::sleep_ns((uint64_t)r->tv_sec * SEC + (uint64_t)r->tv_nsec);
  if (rem) *rem = {0, 0};
  return 0;
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *r, struct timespec *rem) {
  if (!on()) {
    REAL(clock_nanosleep);
    return r_clock_nanosleep(c, fl, r, rem);
  }
  uint64_t v = (uint64_t)r->tv_sec * SEC + (uint64_t)r->tv_nsec;
  if (fl & TIMER_ABSTIME) {
    uint64_t until;
    {
      Quiet q;
      until = deadline(r, c == CLOCK_REALTIME);
    }
    sim::sleep_ns(until - sim::now());
  } else {
    sim::sleep_ns(v);
  }
  return 0;
}
int usleep(useconds_t us) {
  struct timespec ts = {(time_t)(us / 1000000), (long)(us % 1000000) * 1000};
  return nanosleep(&ts, nullptr);
}
unsigned sleep(unsigned s) {
  struct timespec ts = {(time_t)s, 0};
  nanosleep(&ts, nullptr);
  return 0;
}
int sched_yield(void) {
  if (!on()) return (int)sim_syscall(SYS_sched_yield);
  forced_yield();
  return 0;
}

// =================================================================== pthread
int sim_real_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *x) {
  REAL(pthread_create);
  return r_pthread_create(t, a, f, x);
}
int sim_real_pthread_join(pthread_t t, void **r) {
  REAL(pthread_join);
  return r_pthread_join(t, r);
}
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *x) {
  if (!on()) return sim_real_pthread_create(t, a, f, x);
  Quiet q;
  int id = spawn_raw(t_task->proc, "thread", f, x, nullptr, t);
  sched_point("create", (uint64_t)id);
  return 0;
}
static Task *find_task(pthread_t t) {
  for (int i = 0; i < g_ntasks; i++)
    if (g_tasks[i]->start && !g_tasks[i]->joined && !(g_tasks[i]->detached && g_tasks[i]->st == St::DONE) &&
        pthread_equal(g_tasks[i]->th, t)) return g_tasks[i];
  return nullptr;
}
int pthread_join(pthread_t t, void **r) {
  if (!on()) return sim_real_pthread_join(t, r);
  Quiet q;
  Task *k = find_task(t);
  if (!k) return ESRCH;
  sched_point("join", (uint64_t)k->id);
  sim::join(k->id);
  k->joined = true;
  if (r) *r = k->ret;
  return 0;
}
int pthread_detach(pthread_t t) {
  if (!on()) {
    REAL(pthread_detach);
    return r_pthread_detach(t);
  }
  Task *k = find_task(t);
  if (k) k->detached = true;
  return 0;
}
static bool is_rec(pthread_mutex_t *m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
static bool is_err(pthread_mutex_t *m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_ERRORCHECK_NP; }
int pthread_mutex_lock(pthread_mutex_t *m) {
  if (!on()) {
    if (t_task) return 0;  // harness bookkeeping: the baton is the lock
    REAL(pthread_mutex_lock);
    return r_pthread_mutex_lock(m);
  }
  return do_lock(m, is_rec(m), is_err(m), false, 0);
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
  if (!on()) {
    if (t_task) return 0;
    REAL(pthread_mutex_trylock);
    return r_pthread_mutex_trylock(m);
  }
  return do_lock(m, is_rec(m), false, true, 0);
}
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts) {
  if (!on()) {
    if (t_task) return 0;
    REAL(pthread_mutex_timedlock);
    return r_pthread_mutex_timedlock(m, ts);
  }
  return do_lock(m, is_rec(m), false, false, deadline(ts, true));
}
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t c, const struct timespec *ts) {
  if (!on()) {
    if (t_task) return 0;
    REAL(pthread_mutex_clocklock);
    return r_pthread_mutex_clocklock(m, c, ts);
  }
  return do_lock(m, is_rec(m), false, false, deadline(ts, c == CLOCK_REALTIME));
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
  if (!on()) {
    if (t_task) return 0;
    REAL(pthread_mutex_unlock);
    return r_pthread_mutex_unlock(m);
  }
  return do_unlock(m);
}
int pthread_rwlock_rdlock(pthread_rwlock_t *m) {
  if (!on()) {
    if (t_task) return 0;
    REAL(pthread_rwlock_rdlock);
    return r_pthread_rwlock_rdlock(m);
  }
  return do_rdlock(m, false, 0);
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t *m) {
  if (!on()) {
    if (t_task) return 0;
    REAL(pthread_rwlock_tryrdlock);
    return r_pthread_rwlock_tryrdlock(m);
  }
  return do_rdlock(m, true, 0);
}
int pthread_rwlock_wrlock(pthread_rwlock_t *m) {
  if (!on()) {
    if (t_task) return 0;
    REAL(pthread_rwlock_wrlock);
    return r_pthread_rwlock_wrlock(m);
  }
  return do_wrlock(m, false, 0);
}
int pthread_rwlock_trywrlock(pthread_rwlock_t *m) {
  if (!on()) {
    if (t_task) return 0;
    REAL(pthread_rwlock_trywrlock);
    return r_pthread_rwlock_trywrlock(m);
  }
  return do_wrlock(m, true, 0);
}
int pthread_rwlock_unlock(pthread_rwlock_t *m) {
  if (!on()) {
    if (t_task) return 0;
    REAL(pthread_rwlock_unlock);
    return r_pthread_rwlock_unlock(m);
  }
  return do_unlock(m);
}
int pthread_spin_lock(pthread_spinlock_t *m) {
  if (!on()) {
    if (t_task) return 0;
    REAL(pthread_spin_lock);
    return r_pthread_spin_lock(m);
  }
  return do_lock((const void *)m, false, false, false, 0);
}
int pthread_spin_unlock(pthread_spinlock_t *m) {
  if (!on()) {
    if (t_task) return 0;
    REAL(pthread_spin_unlock);
    return r_pthread_spin_unlock(m);
  }
  return do_unlock((const void *)m);
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  if (!on()) {
    REAL(pthread_cond_wait);
    return r_pthread_cond_wait(c, m);
  }
  return do_cond_wait(c, m, 0);
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
  if (!on()) {
    REAL(pthread_cond_timedwait);
    return r_pthread_cond_timedwait(c, m, ts);
  }
  return do_cond_wait(c, m, deadline(ts, true));
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k,
                           const struct timespec *ts) {
  if (!on()) {
    REAL(pthread_cond_clockwait);
    return r_pthread_cond_clockwait(c, m, k, ts);
  }
  return do_cond_wait(c, m, deadline(ts, k == CLOCK_REALTIME));
}
int pthread_cond_signal(pthread_cond_t *c) {
  if (!on()) {
    if (t_task) return 0;
    REAL(pthread_cond_signal);
    return r_pthread_cond_signal(c);
  }
  return do_signal(c, false);
}
int pthread_cond_broadcast(pthread_cond_t *c) {
  if (!on()) {
    if (t_task) return 0;
    REAL(pthread_cond_broadcast);
    return r_pthread_cond_broadcast(c);
  }
  return do_signal(c, true);
}

// A once/guard that is being initialised by another task is waited for.
static int once_begin(const void *key) {  // 1: caller initialises
  Mx &x = mx(key);
  while (x.owner != -1) {
    if (x.owner == t_task->id) return 1;  // recursive initialisation
    wait_on(key, "initialisation", 0);
  }
  return 1;
}
int pthread_once(pthread_once_t *o, void (*f)(void)) {
  if (!on() && t_task == nullptr) {
    REAL(pthread_once);
    return r_pthread_once(o, f);
  }
  volatile int *st = (volatile int *)o;
  constexpr int DONE = 2;
  {
    Quiet q;
    sched_point("once");
    if (*st != DONE) {
      once_begin(o);
    }
    if (*st == DONE) {
      hb_acquire(o);
      return 0;
    }
    mx(o).owner = t_task->id;
  }
  try {
    f();
  } catch (...) {
    Quiet q;
    mx(o).owner = -1;
    wake_blocked(o);
    throw;
  }
  Quiet q;
  *st = DONE;
  hb_release(o);
  mx(o).owner = -1;
  wake_blocked(o);
  return 0;
}
int __cxa_guard_acquire(uint64_t *g) {
  volatile char *b = (volatile char *)g;
  if (b[0] == 1) {
    if (on()) {
      Quiet q;
      hb_acquire(g);
    }
    return 0;
  }
  if (t_task == nullptr) return 1;  // before simulation: single threaded
  Quiet q;
  sched_point("static-init");
  while (b[0] != 1 && mx(g).owner != -1 && mx(g).owner != t_task->id)
    wait_on(g, "static initialisation", 0);
  if (b[0] == 1) {
    hb_acquire(g);
    return 0;
  }
  mx(g).owner = t_task->id;
  return 1;
}
void __cxa_guard_release(uint64_t *g) {
  volatile char *b = (volatile char *)g;
  if (t_task == nullptr) {
    b[0] = 1;
    return;
  }
  Quiet q;
  hb_release(g);
  b[0] = 1;
  mx(g).owner = -1;
  wake_blocked(g);
  if (t_quiet == 1) sched_point("static-ready");
}
void __cxa_guard_abort(uint64_t *g) {
  if (t_task == nullptr) return;
  Quiet q;
  mx(g).owner = -1;
  wake_blocked(g);
}

}  // extern "C"

// ================================================================ allocation
namespace sim {
char *g_heap = nullptr;
uint8_t *g_heap_shadow = nullptr;
static size_t g_heap_used = 0;
}  // namespace sim
extern "C" void *__real_memset(void *, int, size_t);
extern "C" void *__real_memcpy(void *, const void *, size_t);

static inline bool in_heap(const void *p) { return g_heap && (size_t)((const char *)p - g_heap) < HEAP_SIZE; }
static inline size_t heap_block_size(const void *p) { return ((const size_t *)p)[-1]; }
static void *heap_alloc(size_t align, size_t n) {
  if (!g_heap) {
    g_heap_shadow = (uint8_t *)mmap(nullptr, HEAP_SIZE / 8, PROT_READ | PROT_WRITE,
                                    MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    g_heap = (char *)mmap(nullptr, HEAP_SIZE, PROT_READ | PROT_WRITE,
                          MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    g_heap_used = 4096;
  }
  if (align < 16) align = 16;
  // 48 bytes between blocks, the last 8 of them the size of the block that follows
  size_t o = (g_heap_used + 48 + align - 1) & ~(align - 1);
  if (n > HEAP_SIZE || o + n + 64 > HEAP_SIZE) return nullptr;
  g_heap_used = o + n;
  char *p = g_heap + o;
  ((size_t *)p)[-1] = n;
  __real_memset(g_heap_shadow + (o >> 3), 8, n >> 3);
  if (n & 7) g_heap_shadow[(o + n) >> 3] = n & 7;
  __real_memset(p, 0xa5, n < 4096 ? n : 4096);
  return p;
}
static void heap_free(void *p) {
  size_t n = heap_block_size(p), o = (size_t)((char *)p - g_heap);
  if (n && g_heap_shadow[o >> 3] == 0) {
    heap_bad(p, 0, true, __builtin_return_address(0));
    return;
  }
  __real_memset(g_heap_shadow + (o >> 3), 0, (n + 7) >> 3);
  __real_memset(p, 0xdd, n < 4096 ? n : 4096);
}

extern "C" {
static inline bool alloc_should_fail() {
  if (t_task == nullptr || t_quiet || t_task->alloc_at == 0) return false;
  if (++t_task->alloc_n == t_task->alloc_at) {
    t_task->alloc_fired = true;
    t_task->alloc_at = 0;
    fault("alloc");
    return true;
  }
  return false;
}
static inline void fresh(void *p, size_t n) {
  if (p && cfg.races && t_task) shadow_clear((uintptr_t)p, n);
}
void *memalign(size_t a, size_t n) {
  if (alloc_should_fail()) {
    errno = ENOMEM;
    return nullptr;
  }
  void *p = nullptr;
  if (cfg.heap_check && on()) p = heap_alloc(a, n);
  if (!p) p = a <= 16 ? __libc_malloc(n) : __libc_memalign(a, n);
  fresh(p, n);
  return p;
}
void *malloc(size_t n) { return memalign(16, n); }
void *calloc(size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) {
    errno = ENOMEM;
    return nullptr;
  }
  if (cfg.heap_check && on()) {
    void *p = memalign(16, n);
    if (p) __real_memset(p, 0, n);
    return p;
  }
  if (alloc_should_fail()) {
    errno = ENOMEM;
    return nullptr;
  }
  void *p = __libc_calloc(a, b);
  fresh(p, n);
  return p;
}
void free(void *p) {
  if (in_heap(p))
    heap_free(p);
  else
    __libc_free(p);
}
void *realloc(void *o, size_t n) {
  if (in_heap(o) || (!o && cfg.heap_check && on())) {
    void *p = memalign(16, n);
    if (!p) return nullptr;
    if (o) {
      size_t k = heap_block_size(o);
      __real_memcpy(p, o, k < n ? k : n);
      heap_free(o);
    }
    return p;
  }
  if (alloc_should_fail()) {
    errno = ENOMEM;
    return nullptr;
  }
  void *p = __libc_realloc(o, n);
  fresh(p, n);
  return p;
}
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void **p, size_t a, size_t n) {
  *p = memalign(a, n);
  return *p ? 0 : ENOMEM;
}
}  // extern "C"

void *operator new(size_t n) {
  void *p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void *operator new[](size_t n) { return operator new(n); }
void *operator new(size_t n, std::align_val_t a) {
  void *p = memalign((size_t)a, n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void *operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return malloc(n ? n : 1); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return malloc(n ? n : 1); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
void operator delete(void *p, std::align_val_t) noexcept { free(p); }
void operator delete[](void *p, std::align_val_t) noexcept { free(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { free(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { free(p); }

unsigned int std::random_device::_M_getval() {
  unsigned v;
  fill_random(&v, sizeof v);
  return v;
}
extern "C" {
uint32_t arc4random(void) noexcept {
  uint32_t v;
  fill_random(&v, sizeof v);
  return v;
}
void arc4random_buf(void *b, size_t n) noexcept { fill_random(b, n); }
uint32_t arc4random_uniform(uint32_t n) noexcept { return n < 2 ? 0 : arc4random() % n; }
}
