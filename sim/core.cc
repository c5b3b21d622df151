#include "core.h"

#include <sys/stat.h>
#include <sys/time.h>

namespace sim {

static Cover* g_cover;
Cover& cover() {
  if (!g_cover) g_cover = new Cover;
  return *g_cover;
}
std::vector<World>& worlds() {
  static std::vector<World>* w = new std::vector<World>;
  return *w;
}

static World* find_world(const std::string& n) {
  for (auto& w : worlds())
    if (w.name == n) return &w;
  fprintf(stdout, "no world %s\n", n.c_str());
  exit(kExitHarness);
}

// What the parent shares with the children.
struct Shared {
  volatile uint64_t seed;
  volatile uint64_t done;
  volatile uint64_t hash;
  char cls[128];
  char msg[4096];
};
static Shared* shared_page() {
  void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                 MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  return (Shared*)p;
}

static uint64_t edge_signature() {
  uint64_t h = 1469598103934665603ull;
  Cover& c = cover();
  for (size_t i = 0; i < c.hit.size(); i++)
    if (c.hit[i]) h = (h ^ i) * 1099511628211ull;
  return h;
}

struct RunResult {
  bool bad = false;
  Violation v;
  uint64_t hash = 0;
  uint64_t sig = 0;
};


// The last resort against code that never gets to a counted step again, such as
// a walk over corrupted memory.  No run on the unchanged tree comes near it.
static void out_of_time(int) { _exit(kExitHang); }
static void limit_cpu() {
  signal(SIGPROF, out_of_time);
  struct itimerval t = {{0, 0}, {60, 0}};
  setitimer(ITIMER_PROF, &t, nullptr);
}

static RunResult run_here(World& w, const Lines& l, Ctx& x) {
  RunResult r;
  limit_cpu();
  Cover& c = cover();
  std::fill(c.hit.begin(), c.hit.end(), 0);
  c.steps = 0;
  c.budget = ~0ull;
  c.total_steps = 0;
  try {
    // "@run" separates histories that share the process, nothing else
    Lines part;
    for (auto& s : l) {
      if (s == "@run") {
        w.execute(part, x);
        part.clear();
      } else {
        part.push_back(s);
      }
    }
    w.execute(part, x);
  } catch (Violation& v) {
    r.bad = true;
    r.v = v;
  }
  c.total_steps += c.steps;
  c.budget = ~0ull;
  r.hash = x.log.h;
  r.sig = edge_signature();
  return r;
}

static void quiet_stderr() {
  int fd = open("/dev/null", O_WRONLY);
  if (fd >= 0) {
    dup2(fd, 2);
    close(fd);
  }
  static char buf[1 << 16];
  setvbuf(stderr, buf, _IOFBF, sizeof buf);
}

static std::string classify(int st) {
  if (WIFSIGNALED(st)) {
    int s = WTERMSIG(st);
    if (s == SIGABRT) return "abort";
    return fmt("signal-%d", s);
  }
  int e = WEXITSTATUS(st);
  if (e == kExitHang) return "step-bound";
  if (e == kExitMemory) return "memory-bound";
  if (e == kExitSan) return "sanitizer";
  return fmt("exit-%d", e);
}

// Run one scenario in a forked child.  Returns violation class, "" if none.
static std::string run_forked(World& w, const Lines& l, std::string* msg,
                              uint64_t* hash = nullptr) {
  static Shared* sh = shared_page();
  sh->cls[0] = 0;
  sh->hash = 0;
  sh->msg[0] = 0;
  fflush(stdout);
  pid_t p = fork();
  if (p == 0) {
    quiet_stderr();
    Ctx x;
    RunResult r = run_here(w, l, x);
    sh->hash = r.hash;
    if (r.bad) {
      snprintf(sh->cls, sizeof sh->cls, "%s", r.v.cls.c_str());
      snprintf(sh->msg, sizeof sh->msg, "%s", r.v.msg.c_str());
      _exit(1);
    }
    _exit(0);
  }
  int st = 0;
  while (waitpid(p, &st, 0) < 0) {
  }
  if (hash) *hash = sh->hash;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return "";
  if (WIFEXITED(st) && WEXITSTATUS(st) == 1 && sh->cls[0]) {
    if (msg) *msg = sh->msg;
    return sh->cls;
  }
  if (WIFEXITED(st) && WEXITSTATUS(st) == kExitHarness) {
    fprintf(stdout, "HARNESS-ERROR\n");
    exit(kExitHarness);
  }
  if (msg) *msg = "the code under test ended the process: " + classify(st);
  return classify(st);
}

// ------------------------------------------------------------- minimiser
static double now_s() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return (double)t.tv_sec + (double)t.tv_nsec / 1e9;
}

static Lines minimise(World& w, Lines l, const std::string& cls,
                      double limit_s) {
  double end = now_s() + limit_s;
  auto bad = [&](const Lines& c) { return run_forked(w, c, nullptr) == cls; };
  // drop chunks of lines
  for (size_t chunk = l.size() / 2; chunk >= 1;) {
    bool any = false;
    for (size_t i = 0; i < l.size() && now_s() < end;) {
      Lines c(l.begin(), l.begin() + (long)i);
      size_t e = std::min(l.size(), i + chunk);
      c.insert(c.end(), l.begin() + (long)e, l.end());
      if (c.size() < l.size() && bad(c)) {
        l = c;
        any = true;
      } else {
        i += chunk;
      }
    }
    if (now_s() >= end) break;
    if (chunk == 1 && !any) break;
    if (chunk > 1) chunk /= 2;
  }
  // shrink single lines
  if (w.shrink) {
    bool any = true;
    while (any && now_s() < end) {
      any = false;
      for (size_t i = 0; i < l.size() && now_s() < end; i++) {
        for (auto& cand : w.shrink(l[i])) {
          if (now_s() >= end) break;
          Lines c = l;
          c[i] = cand;
          if (bad(c)) {
            l = c;
            any = true;
            break;
          }
        }
      }
    }
  }
  return l;
}

static Lines read_lines(const char* path) {
  Lines l;
  FILE* f = strcmp(path, "-") == 0 ? stdin : fopen(path, "r");
  if (!f) {
    printf("cannot open %s\n", path);
    exit(kExitHarness);
  }
  char* b = nullptr;
  size_t n = 0;
  ssize_t k;
  while ((k = getline(&b, &n, f)) > 0) {
    while (k && (b[k - 1] == '\n')) b[--k] = 0;
    if (k && b[0] != '#') l.push_back(b);
  }
  free(b);
  if (f != stdin) fclose(f);
  return l;
}

static std::string jesc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += (char)c;
    } else if (c < 32 || c > 126) {
      o += fmt("\\u%04x", c);
    } else {
      o += (char)c;
    }
  }
  return o;
}

// explore WORLD FIRST STRIDE MAXRUNS SECONDS: run seeds FIRST, FIRST+STRIDE...
static int explore(World& w, uint64_t first, uint64_t stride, uint64_t maxruns,
                   double seconds, const char* outpath) {
  const uint64_t kBatch = getenv("SIM_BATCH") ? (uint64_t)atoi(getenv("SIM_BATCH")) : (uint64_t)w.batch;
  double t0 = now_s();
  Shared* sh = shared_page();
  Stats total;
  std::set<uint64_t> sigs, hashes;
  uint64_t runs = 0, steps = 0, sim_us = 0, events = 0;
  std::vector<uint8_t> ever;
  std::string vio;
  uint64_t vseed = 0, vfirst = 0;
  std::string vcls, vmsg;
  uint64_t seed = first;
  while (runs < maxruns && now_s() - t0 < seconds && vcls.empty()) {
    int pp[2];
    if (pipe(pp)) return kExitHarness;
    sh->done = 0;
    sh->cls[0] = 0;
    uint64_t n = std::min(kBatch, maxruns - runs);
    pid_t p = fork();
    if (p == 0) {
      close(pp[0]);
      quiet_stderr();
      FILE* o = fdopen(pp[1], "w");
      Stats st;
      uint64_t csteps = 0, cus = 0, cev = 0;
      for (uint64_t i = 0; i < n; i++) {
        uint64_t s = seed + i * stride;
        sh->seed = s;
        Lines l = w.generate(s);
        Ctx x;
        RunResult r = run_here(w, l, x);
        for (auto& kv : x.stats.n) {
          if (kv.first.compare(0, 4, "max:") == 0)
            st.max(kv.first, kv.second);
          else
            st.add(kv.first, kv.second);
        }
        csteps += cover().total_steps;
        cus += x.sim_us;
        cev += x.log.events;
        fprintf(o, "r %llx %llx\n", (unsigned long long)r.hash,
                (unsigned long long)r.sig);
        sh->done = i + 1;
        if (r.bad) {
          snprintf(sh->cls, sizeof sh->cls, "%s", r.v.cls.c_str());
          snprintf(sh->msg, sizeof sh->msg, "%s", r.v.msg.c_str());
          break;
        }
      }
      for (auto& kv : st.n)
        fprintf(o, "s %llu %s\n", (unsigned long long)kv.second,
                kv.first.c_str());
      fprintf(o, "t %llu %llu %llu\n", (unsigned long long)csteps,
              (unsigned long long)cus, (unsigned long long)cev);
      Cover& c = cover();
      fputs("e ", o);
      for (size_t i = 0; i < c.ever.size(); i++) fputc(c.ever[i] ? '1' : '0', o);
      fputc('\n', o);
      fclose(o);
      _exit(0);
    }
    close(pp[1]);
    FILE* in = fdopen(pp[0], "r");
    char* b = nullptr;
    size_t bn = 0;
    ssize_t k;
    while ((k = getline(&b, &bn, in)) > 0) {
      if (b[k - 1] == '\n') b[--k] = 0;
      if (b[0] == 'r') {
        unsigned long long h, g;
        if (sscanf(b + 2, "%llx %llx", &h, &g) == 2) {
          hashes.insert(h);
          sigs.insert(g);
        }
      } else if (b[0] == 's') {
        char* e;
        uint64_t v = strtoull(b + 2, &e, 10);
        std::string key = e + 1;
        if (key.compare(0, 4, "max:") == 0)
          total.max(key, v);
        else
          total.add(key, v);
      } else if (b[0] == 't') {
        unsigned long long a, c2, d;
        if (sscanf(b + 2, "%llu %llu %llu", &a, &c2, &d) == 3) {
          steps += a;
          sim_us += c2;
          events += d;
        }
      } else if (b[0] == 'e') {
        size_t m = (size_t)k - 2;
        if (ever.size() < m) ever.resize(m);
        for (size_t i = 0; i < m; i++)
          if (b[2 + i] == '1') ever[i] = 1;
      }
    }
    free(b);
    fclose(in);
    int st = 0;
    while (waitpid(p, &st, 0) < 0) {
    }
    runs += sh->done;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
      if (sh->cls[0]) {
        vseed = sh->seed;
        vcls = sh->cls;
        vmsg = sh->msg;
      }
    } else if (WIFEXITED(st) && WEXITSTATUS(st) == kExitHarness) {
      printf("HARNESS-ERROR seed %llu\n", (unsigned long long)sh->seed);
      return kExitHarness;
    } else {
      vseed = sh->seed;
      vcls = classify(st);
      vmsg = "the code under test ended the process: " + vcls;
    }
    vfirst = seed;
    seed += n * stride;
  }
  FILE* o = fopen(outpath, "w");
  if (!o) return kExitHarness;
  size_t ecount = 0;
  for (uint8_t v : ever) ecount += v;
  fprintf(o, "{\"runs\": %llu, \"wall_s\": %.3f, \"steps\": %llu, ",
          (unsigned long long)runs, now_s() - t0, (unsigned long long)steps);
  fprintf(o, "\"sim_us\": %llu, \"events\": %llu, \"edges_total\": %zu, ",
          (unsigned long long)sim_us, (unsigned long long)events,
          (size_t)cover().edges);
  fprintf(o, "\"edges_hit\": %zu, \"edge_bits\": \"", ecount);
  for (uint8_t v : ever) fputc(v ? '1' : '0', o);
  fprintf(o, "\", \"first_seed\": %llu, \"stride\": %llu, ",
          (unsigned long long)first, (unsigned long long)stride);
  fprintf(o, "\"sigs\": [");
  bool f1 = true;
  for (uint64_t s : sigs) {
    fprintf(o, "%s\"%llx\"", f1 ? "" : ",", (unsigned long long)s);
    f1 = false;
  }
  fprintf(o, "], \"hashes\": [");
  f1 = true;
  for (uint64_t s : hashes) {
    fprintf(o, "%s\"%llx\"", f1 ? "" : ",", (unsigned long long)s);
    f1 = false;
  }
  fprintf(o, "], \"stats\": {");
  f1 = true;
  for (auto& kv : total.n) {
    fprintf(o, "%s\"%s\": %llu", f1 ? "" : ", ", jesc(kv.first).c_str(),
            (unsigned long long)kv.second);
    f1 = false;
  }
  fprintf(o, "}");
  if (!vcls.empty())
    fprintf(o, ", \"violation\": {\"seed\": %llu, \"batch\": %llu, \"class\": \"%s\", "
               "\"msg\": \"%s\"}",
            (unsigned long long)vseed, (unsigned long long)vfirst, jesc(vcls).c_str(), jesc(vmsg).c_str());
  fprintf(o, "}\n");
  fclose(o);
  return 0;
}

int sim_main(int argc, char** argv) {
  setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
  if (argc < 4) {
    printf("usage: WORLD explore FIRST STRIDE MAXRUNS SECONDS OUT\n"
           "       WORLD gen SEED | run FILE | trace FILE\n"
           "       WORLD min FILE CLASS SECONDS OUT\n"
           "       WORLD hash SEED COUNT\n");
    return kExitHarness;
  }
  World& w = *find_world(argv[1]);
  std::string cmd = argv[2];
  if (cmd == "explore" && argc >= 8)
    return explore(w, strtoull(argv[3], 0, 10), strtoull(argv[4], 0, 10),
                   strtoull(argv[5], 0, 10), atof(argv[6]), argv[7]);
  if (cmd == "gen") {
    // gen SEED [FIRST STRIDE]: the seed, or FIRST, FIRST+STRIDE .. SEED
    uint64_t last = strtoull(argv[3], 0, 10), s = last, step = 1;
    if (argc > 5) {
      s = strtoull(argv[4], 0, 10);
      step = strtoull(argv[5], 0, 10);
    }
    for (; s <= last; s += step) {
      for (auto& l : w.generate(s)) printf("%s\n", l.c_str());
      if (s + step <= last) printf("@run\n");
    }
    fflush(stdout);
    return 0;
  }
  if (cmd == "hash") {  // one line per seed: the hash of its event log
    uint64_t s = strtoull(argv[3], 0, 10);
    uint64_t n = argc > 4 ? strtoull(argv[4], 0, 10) : 1;
    quiet_stderr();
    for (uint64_t i = 0; i < n; i++) {
      if (w.batch == 1) {
        std::string m;
        uint64_t h = 0;
        std::string c = run_forked(w, w.generate(s + i), &m, &h);
        printf("%llu %016llx %s\n", (unsigned long long)(s + i), (unsigned long long)h, c.c_str());
        continue;
      }
      Ctx x;
      RunResult r = run_here(w, w.generate(s + i), x);
      printf("%llu %016llx %016llx %llu\n", (unsigned long long)(s + i),
             (unsigned long long)r.hash, (unsigned long long)r.sig,
             (unsigned long long)cover().total_steps);
    }
    fflush(stdout);
    return 0;
  }
  if (cmd == "run" || cmd == "trace") {
    Lines l = read_lines(argv[3]);
    Ctx x;
    x.log.verbose = cmd == "trace";
    if (cmd == "run") {
      std::string m;
      uint64_t h = 0;
      std::string c = run_forked(w, l, &m, &h);
      for (char& ch : m)
        if (ch == '\n') ch = ' ';
      if (!c.empty())
        printf("RESULT violation class=%s hash=%016llx msg=%s\n", c.c_str(),
               (unsigned long long)h, m.c_str());
      else
        printf("RESULT ok hash=%016llx\n", (unsigned long long)h);
      fflush(stdout);
      return c.empty() ? 0 : 1;
    }
    RunResult r = run_here(w, l, x);
    printf("%s hash=%016llx %s %s\n", r.bad ? "violation" : "ok",
           (unsigned long long)r.hash, r.v.cls.c_str(), r.v.msg.c_str());
    fflush(stdout);
    return r.bad ? 1 : 0;
  }
  if (cmd == "min" && argc >= 7) {
    Lines l = read_lines(argv[3]);
    Lines m = minimise(w, l, argv[4], atof(argv[5]));
    FILE* o = fopen(argv[6], "w");
    if (!o) return kExitHarness;
    for (auto& s : m) fprintf(o, "%s\n", s.c_str());
    fclose(o);
    return 0;
  }
  printf("bad command\n");
  return kExitHarness;
}

}  // namespace sim

#ifndef SIM_NO_GUARD
extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b) {
  sim::Cover& c = sim::cover();
  if (a == b || *a) return;
  for (uint32_t* p = a; p < b; p++) *p = ++c.edges;
  c.hit.resize(c.edges + 1);
  c.ever.resize(c.edges + 1);
}
extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t* g) {
  sim::Cover& c = *sim::g_cover;
  if (*g >= c.hit.size() || *g >= c.ever.size()) return;
  c.hit[*g] = 1;
  c.ever[*g] = 1;
  if (++c.steps > c.budget) _exit(sim::kExitHang);
}

// bulk copies are work too
#ifdef SIM_COUNT_COPIES
extern "C" {
void* __real___asan_memcpy(void*, const void*, size_t);
void* __real___asan_memmove(void*, const void*, size_t);
void* __real___asan_memset(void*, int, size_t);
static void copied(size_t n) {
  if (!sim::g_cover) return;
  sim::Cover& c = *sim::g_cover;
  c.steps += n / 8;
  if (c.steps > c.budget) _exit(sim::kExitHang);
}
void* __wrap___asan_memcpy(void* d, const void* s, size_t n) {
  copied(n);
  return __real___asan_memcpy(d, s, n);
}
void* __wrap___asan_memmove(void* d, const void* s, size_t n) {
  copied(n);
  return __real___asan_memmove(d, s, n);
}
void* __wrap___asan_memset(void* d, int v, size_t n) {
  copied(n);
  return __real___asan_memset(d, v, n);
}
}
#endif
#endif
