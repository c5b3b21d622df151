// Stands between a helper script and the real tool: runs the tool as asked, or
// runs it and fails the way the plan says.
#include <fcntl.h>
#include <poll.h>
#include <sched.h>
#include <signal.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

#include <string>

#include "scr.h"

static void put(int fd, const std::string& s, size_t chunk) {
  size_t i = 0;
  int yields = 40;  // on a busy machine each may take milliseconds
  while (i < s.size()) {
    size_t n = s.size() - i;
    if (chunk && n > chunk) n = chunk;
    ssize_t r = write(fd, s.data() + i, n);
    if (r <= 0) return;
    i += (size_t)r;
    if (chunk && yields-- > 0) sched_yield();
  }
}

int main(int argc, char** argv) {
  std::string self = argv[0];
  std::string dir = self.substr(0, self.rfind('/'));
  int fd = open((dir + "/plan").c_str(), O_RDWR | O_CLOEXEC);
  if (fd < 0) return 99;
  scr::Shm* s = (scr::Shm*)mmap(nullptr, sizeof(scr::Shm), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  if (s == MAP_FAILED) return 99;
  char b[4096];
  ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1);
  if (n <= 0) return 99;
  std::string tool(b, (size_t)n);
  tool = tool.substr(0, tool.rfind('/')) + "/tool";
  std::string name;
  for (int i = 1; i + 1 < argc; i++)
    if (!strcmp(argv[i], "-i")) name = argv[i + 1];
  if (name.compare(0, dir.size() + 1, dir + "/") == 0) name = name.substr(dir.size() + 1);
  scr::Child* c = nullptr;
  for (auto& k : s->child)
    if (!name.empty() && name == k.name) c = &k;
  if (c) __sync_fetch_and_add(&c->runs, 1);
  if (!c || (!c->mode && !c->chunk)) {
    execv(tool.c_str(), argv);
    return 99;
  }
  int o[2], e[2];
  if (pipe(o) || pipe(e)) return 99;
  pid_t p = fork();
  if (p == 0) {
    dup2(o[1], 1);
    dup2(e[1], 2);
    close(o[0]);
    close(o[1]);
    close(e[0]);
    close(e[1]);
    execv(tool.c_str(), argv);
    _exit(99);
  }
  close(o[1]);
  close(e[1]);
  std::string out, err;
  struct pollfd f[2] = {{o[0], POLLIN, 0}, {e[0], POLLIN, 0}};
  while (f[0].fd >= 0 || f[1].fd >= 0) {
    poll(f, 2, -1);
    for (int i = 0; i < 2; i++) {
      if (f[i].fd < 0 || !f[i].revents) continue;
      char q[65536];
      ssize_t r = read(f[i].fd, q, sizeof q);
      if (r <= 0) f[i].fd = -1;
      else (i ? err : out).append(q, (size_t)r);
    }
  }
  int st = 0;
  waitpid(p, &st, 0);
  if (c->mode) {
    __sync_fetch_and_add(&s->fired_child, 1);
    if (out.size() > c->keep) out.resize(c->keep);
  }
  put(2, err, c->chunk);
  put(1, out, c->chunk);
  if (c->mode == 1) {
    signal((int)c->arg, SIG_DFL);
    kill(getpid(), (int)c->arg);
  }
  if (c->mode == 2) return (int)c->arg;
  if (c->mode == 3) {
    __atomic_store_n(&s->hang_pid, (int32_t)getpid(), __ATOMIC_SEQ_CST);
    for (;;) pause();
  }
  if (WIFSIGNALED(st)) kill(getpid(), WTERMSIG(st));
  return WEXITSTATUS(st);
}
