// Serves every system call the command-line tool makes that could touch the
// world outside its memory.  Linked into the tool; a constructor installs a
// seccomp filter that turns those calls into SIGSYS, whose handler answers them
// from the shared page.  Nothing reaches the real file system.
#include "simk.h"

#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <signal.h>
#include <stddef.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/statfs.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <ucontext.h>
#include <unistd.h>

using namespace simk;

extern "C" long simk_raw(long nr, long a, long b, long c, long d, long e, long f);
extern "C" char simk_raw_ip[];
asm(R"(
.text
.globl simk_raw
simk_raw:
  mov %rdi, %rax
  mov %rsi, %rdi
  mov %rdx, %rsi
  mov %rcx, %rdx
  mov %r8, %r10
  mov %r9, %r8
  mov 8(%rsp), %r9
  syscall
.globl simk_raw_ip
simk_raw_ip:
  ret
)");

static Shm* S;
struct Fd {
  int used, file, flags;
  uint64_t pos;
};
static Fd fds[kMaxFds];
static uint32_t edge_total;

static uint8_t* content(int f) { return f == 0 ? S->in : S->data[f]; }

static int base_eq(const char* path, const char* name) {
  const char* b = path;
  for (const char* p = path; *p; p++)
    if (*p == '/') b = p + 1;
  return strcmp(b, name) == 0;
}
static int find_file(const char* path) {
  for (int i = 0; i < kMaxFiles; i++)
    if (S->files[i].name[0] && base_eq(path, S->files[i].name)) return i;
  return -1;
}
static int new_fd(int file, int flags) {
  for (int i = 3; i < kMaxFds; i++)
    if (!fds[i].used) {
      fds[i] = {1, file, flags, 0};
      return i;
    }
  return -EMFILE;
}

static void input_touched() {
  Cfg& c = S->cfg;
  Res& r = S->res;
  if (c.in_shrink_on && r.in_calls >= c.in_shrink_after && S->files[0].len > c.in_shrink_to) {
    S->files[0].len = c.in_shrink_to;
    r.fired_shrink++;
  }
  r.in_calls++;
}

// Conditions that pass: code that tries again must get somewhere.
static bool passes(int e, uint32_t fired) { return (e == EINTR || e == EAGAIN) && fired >= 8; }

static long do_open(const char* path, int flags) {
  Cfg& c = S->cfg;
  Res& r = S->res;
  int f = find_file(path);
  bool wr = (flags & O_ACCMODE) != O_RDONLY;
  if (f == 0 && !wr) {
    input_touched();
    if (c.in_open_errno && !passes(c.in_open_errno, r.fired_open)) {
      r.fired_open++;
      return -c.in_open_errno;
    }
  }
  if (wr && (f < 0 || S->files[f].role == rOut || f == 0)) {
    if (c.out_open_errno && f != 0 && !passes(c.out_open_errno, r.fired_out_open)) {
      r.fired_out_open++;
      return -c.out_open_errno;
    }
  }
  if (f < 0 || !S->files[f].exists) {
    if (!(flags & O_CREAT)) return -ENOENT;
    if (f < 0) {
      for (int i = 3; i < kMaxFiles && f < 0; i++)
        if (!S->files[i].name[0]) f = i;
      if (f < 0) {
        S->res.unsupported = 9999;
        return -ENOSPC;
      }
      const char* b = path;
      for (const char* p = path; *p; p++)
        if (*p == '/') b = p + 1;
      strncpy(S->files[f].name, b, 63);
      S->files[f].role = rOut;
    }
    S->files[f].exists = 1;
    S->files[f].len = 0;
    S->files[f].kind = kRegular;
  } else if ((flags & O_CREAT) && (flags & O_EXCL)) {
    return -EEXIST;
  }
  if (wr && S->files[f].kind == kDir) return -EISDIR;
  if (flags & O_TRUNC) S->files[f].len = 0;
  return new_fd(f, flags);
}

static Fd* get(long fd) {
  if (fd < 0 || fd >= kMaxFds || !fds[fd].used) return nullptr;
  return &fds[fd];
}

static long do_read(Fd& d, uint8_t* buf, uint64_t n, bool at, uint64_t off) {
  Cfg& c = S->cfg;
  Res& r = S->res;
  File& f = S->files[d.file];
  if ((d.flags & O_ACCMODE) == O_WRONLY) return -EBADF;
  if (f.kind == kDir) return -EISDIR;
  uint64_t pos = at ? off : d.pos;
  if (d.file == 0) {
    input_touched();
    uint32_t k = r.reads++;
    if (k < 64 && (c.rd_eintr >> k & 1)) {
      r.fired_read_eintr++;
      return -EINTR;
    }
    if (c.in_err_no && c.in_err_times && n > 0 && !passes(c.in_err_no, r.fired_read_err)) {
      if (pos >= c.in_err_at) {
        if (c.in_err_times != 0xffff) c.in_err_times--;
        r.fired_read_err++;
        return -c.in_err_no;
      }
      if (n > c.in_err_at - pos) n = c.in_err_at - pos;
    }
    if (c.rd_chunks) {
      uint32_t m = c.rd_chunk[k % c.rd_chunks];
      if (m && n > m) {
        n = m;
        r.fired_read_short++;
      }
    }
  }
  uint64_t left = f.len > pos ? f.len - pos : 0;
  if (n > left) n = left;
  if (n) memcpy(buf, content(d.file) + pos, n);
  if (!at) d.pos += n;
  return (long)n;
}

static long do_write(Fd& d, const uint8_t* buf, uint64_t n, bool at, uint64_t off) {
  Cfg& c = S->cfg;
  Res& r = S->res;
  File& f = S->files[d.file];
  if ((d.flags & O_ACCMODE) == O_RDONLY) return -EBADF;
  if (d.flags & O_APPEND) d.pos = f.len;
  uint64_t pos = at ? off : d.pos;
  if (f.role == rErr) {
    uint32_t k = r.err_writes++;
    if (c.err_errno && k >= c.err_from && !passes(c.err_errno, r.fired_err)) {
      r.fired_err++;
      return -c.err_errno;
    }
    if (c.err_short && n > c.err_short) {
      r.fired_err++;
      n = c.err_short;
    }
  }
  if (f.role == rOut) {
    uint32_t k = r.writes++;
    if (k < 64 && (c.wr_eintr >> k & 1)) {
      r.fired_write_eintr++;
      return -EINTR;
    }
    if (c.out_err_no && c.out_err_times && n > 0 && !passes(c.out_err_no, r.fired_write_err)) {
      if (pos >= c.out_err_at) {
        if (c.out_err_times != 0xffff) c.out_err_times--;
        r.fired_write_err++;
        if (c.out_err_no == EPIPE) {
          struct sigaction sa;
          sigaction(SIGPIPE, nullptr, &sa);
          if (sa.sa_handler == SIG_DFL) {
            r.fired_sigpipe++;
            simk_raw(SYS_tgkill, simk_raw(SYS_getpid, 0, 0, 0, 0, 0, 0),
                     simk_raw(SYS_gettid, 0, 0, 0, 0, 0, 0), SIGPIPE, 0, 0, 0);
          }
        }
        return -c.out_err_no;
      }
      if (n > c.out_err_at - pos) {
        n = c.out_err_at - pos;
        r.fired_write_short++;
      }
    }
    if (c.wr_chunks) {
      uint32_t m = c.wr_chunk[k % c.wr_chunks];
      if (m && n > m) {
        n = m;
        r.fired_write_short++;
      }
    }
  }
  if (f.role == rErr && pos + n > kFileCap) return (long)n;  // scrolled away
  if (d.file == 0 ? pos + n > kInCap : pos + n > kFileCap) {
    S->res.overflow = 1;
    return -ENOSPC;
  }
  if (pos > f.len) memset(content(d.file) + f.len, 0, pos - f.len);
  memcpy(content(d.file) + pos, buf, n);
  if (pos + n > f.len) f.len = pos + n;
  if (!at) d.pos += n;
  return (long)n;
}

static void fill_stat(struct stat* s, int file) {
  File& f = S->files[file];
  memset(s, 0, sizeof *s);
  s->st_mode = f.kind == kRegular ? S_IFREG | 0644
               : f.kind == kPipe  ? S_IFIFO | 0600
               : f.kind == kDir   ? S_IFDIR | 0755
                                  : S_IFCHR | 0620;
  s->st_size = f.kind == kRegular ? (long)f.len : f.kind == kDir ? 4096 : 0;
  s->st_blksize = f.kind == kTty ? 1024 : 4096;
  s->st_nlink = 1;
  s->st_ino = 1000 + file;
  s->st_dev = 7;
  if (f.kind == kTty) s->st_rdev = 0x8801;
}
static long do_stat(int file, struct stat* s) {
  Cfg& c = S->cfg;
  if (!S->files[file].exists) return -ENOENT;
  if (file == 0) {
    input_touched();
    if (c.in_stat_errno) {
      S->res.fired_stat++;
      return -c.in_stat_errno;
    }
    S->res.last_size = S->files[0].len;
    S->res.size_taken = 1;
  }
  fill_stat(s, file);
  return 0;
}

static long do_close(long fd) {
  Cfg& c = S->cfg;
  Fd* d = get(fd);
  if (!d) return -EBADF;
  d->used = 0;
  File& f = S->files[d->file];
  if (d->file == 0 && c.in_close_errno) {
    S->res.fired_in_close++;
    return -c.in_close_errno;
  }
  if (f.role == rOut && (d->flags & O_ACCMODE) != O_RDONLY && c.out_close_errno) {
    S->res.fired_out_close++;
    f.len -= f.len < c.out_close_lose ? f.len : c.out_close_lose;
    return -c.out_close_errno;
  }
  return 0;
}

static long serve(long nr, long a, long b, long c, long d, long e, long f) {
  Res& r = S->res;
  Cfg& cf = S->cfg;
  r.sim_us += 10;
  switch (nr) {
    case SYS_open: return do_open((const char*)a, (int)b);
    case SYS_creat: return do_open((const char*)a, O_CREAT | O_WRONLY | O_TRUNC);
    case SYS_openat: return do_open((const char*)b, (int)c);
    case SYS_close: return do_close(a);
    case SYS_read: {
      Fd* p = get(a);
      return p ? do_read(*p, (uint8_t*)b, (uint64_t)c, false, 0) : -EBADF;
    }
    case SYS_pread64: {
      Fd* p = get(a);
      return p ? do_read(*p, (uint8_t*)b, (uint64_t)c, true, (uint64_t)d) : -EBADF;
    }
    case SYS_readv:
    case SYS_writev: {
      Fd* p = get(a);
      if (!p) return -EBADF;
      long tot = 0;
      const struct iovec* v = (const struct iovec*)b;
      for (long i = 0; i < c; i++) {
        if (!v[i].iov_len) continue;
        long k = nr == SYS_readv ? do_read(*p, (uint8_t*)v[i].iov_base, v[i].iov_len, false, 0)
                                 : do_write(*p, (const uint8_t*)v[i].iov_base, v[i].iov_len, false, 0);
        if (k < 0) return tot ? tot : k;
        tot += k;
        if ((uint64_t)k < v[i].iov_len) break;
      }
      return tot;
    }
    case SYS_write: {
      Fd* p = get(a);
      return p ? do_write(*p, (const uint8_t*)b, (uint64_t)c, false, 0) : -EBADF;
    }
    case SYS_pwrite64: {
      Fd* p = get(a);
      return p ? do_write(*p, (const uint8_t*)b, (uint64_t)c, true, (uint64_t)d) : -EBADF;
    }
    case SYS_lseek: {
      Fd* p = get(a);
      if (!p) return -EBADF;
      File& fl = S->files[p->file];
      if (p->file == 0) {
        input_touched();
        uint32_t k = r.seeks++;
        if (cf.in_seek_errno && k >= cf.in_seek_from && k < cf.in_seek_from + cf.in_seek_times) {
          r.fired_seek++;
          return -cf.in_seek_errno;
        }
      }
      if (fl.kind == kPipe || fl.kind == kTty) return -ESPIPE;
      if (fl.kind == kDir && c == SEEK_END) return 0x7fffffffffffffffL;
      if (p->file == 0 && c == SEEK_END) {
        r.last_size = fl.len;
        r.size_taken = 1;
      }
      long base = c == SEEK_SET ? 0 : c == SEEK_CUR ? (long)p->pos : c == SEEK_END ? (long)fl.len : -1;
      if (base < 0 || base + b < 0) return -EINVAL;
      p->pos = (uint64_t)(base + b);
      return (long)p->pos;
    }
    case SYS_fstat: {
      Fd* p = get(a);
      return p ? do_stat(p->file, (struct stat*)b) : -EBADF;
    }
    case SYS_stat:
    case SYS_lstat: {
      int k = find_file((const char*)a);
      return k < 0 ? -ENOENT : do_stat(k, (struct stat*)b);
    }
    case SYS_newfstatat: {
      if ((d & AT_EMPTY_PATH) && !*(const char*)b) {
        Fd* p = get(a);
        return p ? do_stat(p->file, (struct stat*)c) : -EBADF;
      }
      int k = find_file((const char*)b);
      return k < 0 ? -ENOENT : do_stat(k, (struct stat*)c);
    }
    case SYS_statx: {
      int k;
      if ((c & AT_EMPTY_PATH) && !*(const char*)b) {
        Fd* p = get(a);
        if (!p) return -EBADF;
        k = p->file;
      } else {
        k = find_file((const char*)b);
        if (k < 0) return -ENOENT;
      }
      struct stat st;
      long q = do_stat(k, &st);
      if (q < 0) return q;
      struct statx* x = (struct statx*)e;
      memset(x, 0, sizeof *x);
      x->stx_mask = STATX_BASIC_STATS;
      x->stx_mode = (uint16_t)st.st_mode;
      x->stx_size = (uint64_t)st.st_size;
      x->stx_blksize = (uint32_t)st.st_blksize;
      x->stx_nlink = 1;
      x->stx_ino = st.st_ino;
      return 0;
    }
    case SYS_access:
    case SYS_faccessat:
    case SYS_faccessat2: {
      int k = find_file((const char*)(nr == SYS_access ? a : b));
      return k < 0 || !S->files[k].exists ? -ENOENT : 0;
    }
    case SYS_ioctl: {
      Fd* p = get(a);
      if (!p) return -EBADF;
      File& fl = S->files[p->file];
      if (b == 0x5401 && fl.kind == kTty) {  // TCGETS
        memset((void*)c, 0, 36);
        return 0;
      }
      if (b == 0x541B) {  // FIONREAD
        *(int*)c = (int)(fl.len > p->pos ? fl.len - p->pos : 0);
        return 0;
      }
      return -ENOTTY;
    }
    case SYS_fcntl: {
      Fd* p = get(a);
      if (!p) return -EBADF;
      if (b == F_GETFL) return p->flags & ~(O_CREAT | O_TRUNC);
      if (b == F_SETFL || b == F_SETFD || b == F_GETFD) return 0;
      if (b == F_DUPFD || b == F_DUPFD_CLOEXEC) {
        long n = new_fd(p->file, p->flags);
        if (n >= 0) fds[n].pos = p->pos;
        return n;
      }
      return -EINVAL;
    }
    case SYS_dup: {
      Fd* p = get(a);
      if (!p) return -EBADF;
      long n = new_fd(p->file, p->flags);
      if (n >= 0) fds[n].pos = p->pos;
      return n;
    }
    case SYS_fsync:
    case SYS_fdatasync:
    case SYS_fadvise64:
    case SYS_flock:
    case SYS_fchmod:
      return get(a) ? 0 : -EBADF;
    case SYS_ftruncate: {
      Fd* p = get(a);
      if (!p) return -EBADF;
      if ((uint64_t)b > kFileCap) return -EFBIG;
      File& fl = S->files[p->file];
      if ((uint64_t)b > fl.len) memset(content(p->file) + fl.len, 0, (uint64_t)b - fl.len);
      fl.len = (uint64_t)b;
      return 0;
    }
    case SYS_unlink:
    case SYS_unlinkat: {
      int k = find_file((const char*)(nr == SYS_unlink ? a : b));
      if (k < 0 || !S->files[k].exists) return -ENOENT;
      S->files[k].exists = 0;
      S->files[k].len = 0;
      return 0;
    }
    case SYS_rename:
    case SYS_renameat:
    case SYS_renameat2: {
      const char* from = (const char*)(nr == SYS_rename ? a : b);
      const char* to = (const char*)(nr == SYS_rename ? b : d);
      int k = find_file(from), t = find_file(to);
      if (k < 0 || !S->files[k].exists || t == 0) return -ENOENT;
      if (t >= 0 && t != k) S->files[t].name[0] = 0, S->files[t].exists = 0;
      const char* nb = to;
      for (const char* p = to; *p; p++)
        if (*p == '/') nb = p + 1;
      strncpy(S->files[k].name, nb, 63);
      return 0;
    }
    case SYS_mmap: {
      Fd* p = get(e);
      if (!p) return -EBADF;
      if (p->file == 0) input_touched();
      File& fl = S->files[p->file];
      if (fl.kind != kRegular) return -ENODEV;
      long q = simk_raw(SYS_mmap, a, b, PROT_READ | PROT_WRITE, (d & ~(MAP_SHARED | MAP_SHARED_VALIDATE)) | MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
      if (q < 0 && q > -4096) return q;
      if ((uint64_t)f < fl.len) {
        uint64_t n = fl.len - (uint64_t)f;
        if (n > (uint64_t)b) n = (uint64_t)b;
        memcpy((void*)q, content(p->file) + f, n);
      }
      return q;
    }
    case SYS_poll:
    case SYS_ppoll: {
      struct P {
        int fd;
        short ev, rev;
      }* p = (P*)a;
      for (long i = 0; i < b; i++) p[i].rev = p[i].ev & (1 | 4);
      return b;
    }
    case SYS_nanosleep:
      r.sim_us += (uint64_t)((const struct timespec*)a)->tv_sec * 1000000 + (uint64_t)((const struct timespec*)a)->tv_nsec / 1000;
      return 0;
    case SYS_clock_nanosleep:
      r.sim_us += (uint64_t)((const struct timespec*)c)->tv_sec * 1000000 + (uint64_t)((const struct timespec*)c)->tv_nsec / 1000;
      return 0;
    case SYS_readlink:
    case SYS_readlinkat:
      return -EINVAL;
    case SYS_getcwd: {
      memcpy((void*)a, "/sim", 5);
      return 5;
    }
    case SYS_umask:
      return 022;
    case SYS_sendfile:
    case SYS_copy_file_range:
    case SYS_splice:
      return -EINVAL;  // callers fall back to read and write
  }
  if (!r.unsupported) r.unsupported = (uint32_t)nr;
  return -ENOSYS;
}

static void on_sys(int, siginfo_t* si, void* ctx) {
  ucontext_t* u = (ucontext_t*)ctx;
  greg_t* g = u->uc_mcontext.gregs;
  Res& r = S->res;
  long nr = si->si_syscall;
  if (++r.traps > S->cfg.trap_budget) {
    r.budget_hit = 2;
    simk_raw(SYS_exit_group, 99, 0, 0, 0, 0, 0);
  }
  long res = serve(nr, g[REG_RDI], g[REG_RSI], g[REG_RDX], g[REG_R10], g[REG_R8], g[REG_R9]);
  if (r.trace_n < kTrace) {
    Event& e = r.trace[r.trace_n++];
    e.nr = (int32_t)nr;
    e.fd = nr == SYS_openat ? -100 : (int32_t)g[REG_RDI];
    e.arg = nr == SYS_lseek ? g[REG_RSI] * 4 + g[REG_RDX] : nr == SYS_openat || nr == SYS_open ? 0 : nr == SYS_mmap ? 0 : g[REG_RDX];
    if (nr != SYS_read && nr != SYS_write && nr != SYS_lseek) e.arg = 0;
    e.res = nr == SYS_mmap ? 0 : res;
  }
  g[REG_RAX] = res;
}

static const uint32_t kAllowed[] = {
    SYS_brk, SYS_munmap, SYS_mremap, SYS_mprotect, SYS_madvise, SYS_exit, SYS_exit_group,
    SYS_rt_sigaction, SYS_rt_sigprocmask, SYS_rt_sigreturn, SYS_sigaltstack, SYS_getpid, SYS_gettid,
    SYS_tgkill, SYS_futex, SYS_getrandom, SYS_clock_gettime, SYS_gettimeofday, SYS_prlimit64,
    SYS_arch_prctl, SYS_set_tid_address, SYS_set_robust_list, SYS_rseq, SYS_uname, SYS_getuid,
    SYS_geteuid, SYS_getgid, SYS_getegid, SYS_sched_yield, SYS_sysinfo, SYS_getrusage, SYS_times};

__attribute__((constructor(101))) static void install() {
  S = (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED, kShmFd, 0);
  if (S == MAP_FAILED) _exit(98);
  close(kShmFd);
  S->res.edges = edge_total;
  fds[0] = {1, S->cfg.in_stdin ? 0 : 4, O_RDONLY, 0};
  fds[1] = {1, 1, O_WRONLY, 0};
  fds[2] = {1, 2, O_WRONLY | O_APPEND, 0};
  signal(SIGPIPE, S->cfg.sigpipe_ignored ? SIG_IGN : SIG_DFL);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_sys;
  sa.sa_flags = SA_SIGINFO | SA_NODEFER;
  sigaction(SIGSYS, &sa, nullptr);

  static struct sock_filter p[64 + sizeof kAllowed / 4];
  int n = 0;
  uint64_t ip = (uint64_t)simk_raw_ip;
  auto add = [&](struct sock_filter f) { p[n++] = f; };
  // calls made by the simulated kernel itself
  add(BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, instruction_pointer)));
  add(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (uint32_t)ip, 0, 3));
  add(BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, instruction_pointer) + 4));
  add(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (uint32_t)(ip >> 32), 0, 1));
  add(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW));
  add(BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, arch)));
  add(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, AUDIT_ARCH_X86_64, 1, 0));
  add(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_KILL_PROCESS));
  add(BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr)));
  // anonymous memory only
  add(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, SYS_mmap, 0, 4));
  add(BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, args[4])));
  add(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, 0xffffffffu, 0, 1));
  add(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW));
  add(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP));
  for (uint32_t a : kAllowed) {
    add(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, a, 0, 1));
    add(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW));
  }
  add(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP));
  struct sock_fprog prog = {(unsigned short)n, p};
  if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) || prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &prog)) _exit(98);
  S->res.started = 1;
}

extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b) {
  if (a == b || *a) return;
  for (uint32_t* q = a; q < b; q++) *q = ++edge_total;
  if (S) S->res.edges = edge_total;
}
extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t* g) {
  if (!S) return;
  if (*g < kEdges) S->hit[*g] = 1;
  if (++S->res.steps > S->cfg.step_budget) {
    S->res.budget_hit = 1;
    simk_raw(SYS_exit_group, 99, 0, 0, 0, 0, 0);
  }
}
