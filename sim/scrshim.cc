// Loaded into the interpreter of a helper script: answers its operations on the
// input and result files according to the fault plan, and its waiting.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <time.h>
#include <initializer_list>
#include <unistd.h>

#include "scr.h"

static scr::Shm* S;
static pid_t g_pid;
static unsigned char g_role[1024];  // 1 input, 2 result
static uint64_t g_in_off[1024];

static bool on() { return S && g_pid == (pid_t)syscall(SYS_getpid); }
static void note(uint64_t a, uint64_t b, uint64_t c) {
  for (uint64_t v : {a, b, c}) S->hash = (S->hash ^ v) * 1099511628211ull;
}
static int fail(int e) {
  errno = e;
  return -1;
}

__attribute__((constructor)) static void start() {
  const char* p = getenv("SIM_SCRIPT");
  if (!p) return;
  int fd = (int)syscall(SYS_openat, AT_FDCWD, p, O_RDWR | O_CLOEXEC, 0);
  if (fd < 0) return;
  void* m = mmap(nullptr, sizeof(scr::Shm), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  syscall(SYS_close, fd);
  if (m == MAP_FAILED) return;
  scr::Shm* s = (scr::Shm*)m;
  if (__sync_fetch_and_add(&s->started, 1)) return;  // only the script itself
  g_pid = (pid_t)syscall(SYS_getpid);
  S = s;
  S->hash = 1469598103934665603ull;
  S->out_err_left = S->out_err_times;
  if (S->out_stdout) g_role[1] = 2;
}

// The last operation of a script that is killed there.
static void crash_point(int fd, const void* b, size_t n) {
  if (++S->out_ops != S->crash_at) return;
  if (b) {
    size_t k = n < S->crash_part ? n : S->crash_part;
    if (k) syscall(SYS_write, fd, b, k);
  }
  S->fired_crash++;
  syscall(SYS_kill, g_pid, SIGKILL);
}

// Conditions that pass: code that tries again must get somewhere.
static bool passes(int e, uint64_t fired) { return (e == EINTR || e == EAGAIN) && fired >= 8; }

static int do_open(int dfd, const char* path, int flags, mode_t mode) {
  int role = 0;
  if (on()) {
    const char* base = strrchr(path, '/');
    base = base ? base + 1 : path;
    size_t n = strlen(S->dir);
    bool mine = path[0] != '/' || (!strncmp(path, S->dir, n) && path[n] == '/');
    if (mine && path[0] == '/' && !strncmp(path + n, "/tmp", 4) && (!path[n + 4] || path[n + 4] == '/')) mine = false;  // temporary files
    if (mine && (flags & O_ACCMODE) != O_RDONLY) role = 2;
    else if (mine && !strncmp(base, "f", 1) && !(flags & O_DIRECTORY)) role = 1;
    if (role == 2) {
      crash_point(-1, nullptr, 0);
      S->out_opens++;
      if (S->out_open_errno && S->out_opens == S->out_open_nth) {
        S->fired_out_open++;
        note(1, S->out_opens, (uint64_t)S->out_open_errno);
        return fail(S->out_open_errno);
      }
    } else if (role == 1) {
      S->in_opens++;
      if (S->in_open_errno && S->in_opens == S->in_open_nth) {
        S->fired_in_open++;
        note(2, S->in_opens, (uint64_t)S->in_open_errno);
        return fail(S->in_open_errno);
      }
    }
  }
  int fd = (int)syscall(SYS_openat, dfd, path, flags, mode);
  if (fd >= 0 && fd < 1024 && on()) {
    g_role[fd] = (unsigned char)role;
    g_in_off[fd] = 0;
    if (role) note(3, (uint64_t)role, role == 2 ? S->out_opens : S->in_opens);
  }
  return fd;
}

#define MODE                                \
  mode_t mode = 0;                          \
  if (flags & (O_CREAT | O_TMPFILE)) {      \
    va_list a;                              \
    va_start(a, flags);                     \
    mode = va_arg(a, mode_t);               \
    va_end(a);                              \
  }
extern "C" {
int open(const char* p, int flags, ...) {
  MODE return do_open(AT_FDCWD, p, flags, mode);
}
int open64(const char* p, int flags, ...) {
  MODE return do_open(AT_FDCWD, p, flags | O_LARGEFILE, mode);
}
int openat(int d, const char* p, int flags, ...) {
  MODE return do_open(d, p, flags, mode);
}
int openat64(int d, const char* p, int flags, ...) {
  MODE return do_open(d, p, flags | O_LARGEFILE, mode);
}

ssize_t read(int fd, void* b, size_t n) {
  if (on() && fd >= 0 && fd < 1024 && g_role[fd] == 1) {
    unsigned i = S->reads++;
    if (i < 64 && S->rd_eintr >> i & 1) {
      S->fired_rd_eintr++;
      return fail(EINTR);
    }
    if (S->in_err_no && !passes(S->in_err_no, S->fired_in_err)) {
      if (S->in_bytes >= S->in_err_at) {
        S->fired_in_err++;
        note(4, S->in_bytes, (uint64_t)S->in_err_no);
        return fail(S->in_err_no);
      }
      if (n > S->in_err_at - S->in_bytes) n = S->in_err_at - S->in_bytes;
    }
    if (S->rd_chunk && n > S->rd_chunk) {
      n = S->rd_chunk;
      S->fired_rd_short++;
    }
    ssize_t r = syscall(SYS_read, fd, b, n);
    if (r > 0) S->in_bytes += (uint64_t)r;
    note(5, n, (uint64_t)r);
    return r;
  }
  return syscall(SYS_read, fd, b, n);
}

ssize_t write(int fd, const void* b, size_t n) {
  if (on() && fd >= 0 && fd < 1024 && g_role[fd] == 2) {
    crash_point(fd, b, n);
    unsigned i = S->writes++;
    if (i < 64 && S->wr_eintr >> i & 1) {
      S->fired_wr_eintr++;
      return fail(EINTR);
    }
    if (S->out_err_no && S->out_err_left && !passes(S->out_err_no, S->fired_out_err)) {
      if (S->out_bytes >= S->out_err_at && n) {
        S->out_err_left--;
        S->fired_out_err++;
        note(6, S->out_bytes, (uint64_t)S->out_err_no);
        return fail(S->out_err_no);
      }
      if (n > S->out_err_at - S->out_bytes) n = S->out_err_at - S->out_bytes;
    }
    if (S->wr_chunk && n > S->wr_chunk) {
      n = S->wr_chunk;
      S->fired_wr_short++;
    }
    ssize_t r = syscall(SYS_write, fd, b, n);
    if (r > 0) S->out_bytes += (uint64_t)r;
    note(7, n, (uint64_t)r);
    return r;
  }
  if (on() && fd == 2 && S->err_errno) {
    S->fired_err++;
    return fail(S->err_errno);
  }
  return syscall(SYS_write, fd, b, n);
}

int close(int fd) {
  if (on() && fd >= 0 && fd < 1024 && g_role[fd]) {
    int role = g_role[fd];
    g_role[fd] = 0;
    if (role == 2) {
      crash_point(-1, nullptr, 0);
      S->closes++;
      note(8, S->closes, 0);
      if (S->out_close_errno && S->closes == S->out_close_nth) {
        S->fired_out_close++;
        syscall(SYS_close, fd);
        return fail(S->out_close_errno);
      }
    }
  }
  return (int)syscall(SYS_close, fd);
}

// Waiting for a tool that hangs takes no time: the clock jumps instead.
int clock_gettime(clockid_t c, struct timespec* t) {
  int r = (int)syscall(SYS_clock_gettime, c, t);
  if (on() && c == CLOCK_MONOTONIC && !r) {
    uint64_t ns = (uint64_t)t->tv_nsec + S->waited_ms % 1000 * 1000000ull;
    t->tv_sec += (time_t)(S->waited_ms / 1000 + ns / 1000000000ull);
    t->tv_nsec = (long)(ns % 1000000000ull);
  }
  return r;
}
// has a tool reached the point where it hangs, and is it still there?
static bool hung() {
  int p = __atomic_load_n(&S->hang_pid, __ATOMIC_SEQ_CST);
  return p && syscall(SYS_kill, p, 0) == 0;
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec* t, struct timespec* rest) {
  if (!on() || !S->hang || c != CLOCK_MONOTONIC) return syscall(SYS_clock_nanosleep, c, flags, t, rest) ? errno : 0;
  int64_t ns = (int64_t)t->tv_sec * 1000000000 + t->tv_nsec;
  if (flags & TIMER_ABSTIME) {
    struct timespec now;
    clock_gettime(CLOCK_MONOTONIC, &now);
    ns -= (int64_t)now.tv_sec * 1000000000 + now.tv_nsec;
  }
  if (ns <= 0) return 0;
  if (hung()) {
    S->waited_ms += (uint64_t)(ns + 999999) / 1000000;
    S->fired_wait++;
    return 0;
  }
  struct timespec d = {(time_t)(ns / 1000000000), (long)(ns % 1000000000)};
  return syscall(SYS_clock_nanosleep, CLOCK_MONOTONIC, 0, &d, rest) ? errno : 0;
}
// the same random numbers in every run
ssize_t getrandom(void* b, size_t n, unsigned) {
  static uint64_t q = 88172645463325252ull;
  for (size_t i = 0; i < n; i++) {
    q ^= q << 13, q ^= q >> 7, q ^= q << 17;
    ((unsigned char*)b)[i] = (unsigned char)(q >> 32);
  }
  return (ssize_t)n;
}
static int wait_for(struct pollfd* f, nfds_t n, long ms) {
  if (!on() || !S->hang || ms <= 0) {
    struct timespec t = {ms / 1000, ms % 1000 * 1000000};
    return (int)syscall(SYS_ppoll, f, n, ms < 0 ? nullptr : &t, nullptr, 0);
  }
  // nothing to read and the tool has reached the point where it hangs: the rest
  // of the time passes at once
  for (long left = ms; left > 0; left -= 10) {
    bool h = hung();
    struct timespec t = {0, 10000000};
    int r = (int)syscall(SYS_ppoll, f, n, &t, nullptr, 0);
    if (r) return r;
    if (h) {
      S->waited_ms += (uint64_t)ms;
      S->fired_wait++;
      return 0;
    }
  }
  return 0;
}
int poll(struct pollfd* f, nfds_t n, int ms) { return wait_for(f, n, ms); }
}
