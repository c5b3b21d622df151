// The same delivery history under different environments: heap and stack
// contents, object and buffer placement, bytes around the buffers, earlier
// sessions, calling thread, clock and random values, errno, rounding mode.
#include <alloca.h>
#include <errno.h>
#include <fenv.h>
#include <locale.h>
#include <pthread.h>
#include <sys/time.h>

#include "deep.h"
#include "facts.h"
#include "memseam.h"
#include "session.h"

namespace sim {
namespace {

struct Env {
  long heap = 0xbe, scrub = 0x5a, stack = 0, gap = 0, down = 0, tail = 0, align = 0;
  long thread = 0, prior = 0, err = 0, clock = 0, round = 0, loc = 0, held = 0, fresh = 0;
};
uint64_t g_ambient;
bool g_rounded;  // some environment of this run has another rounding mode

struct Item {
  std::string kind;
  Bytes b;
};

__attribute__((noinline)) void smear(int v, uint64_t seed) {
  size_t n = 96 << 10;
  volatile uint8_t* p = (volatile uint8_t*)alloca(n);
  uint64_t s = seed | 1;
  for (size_t i = 0; i < n; i++) {
    if (v >= 0) {
      p[i] = (uint8_t)v;
    } else {
      s ^= s << 13;
      s ^= s >> 7;
      s ^= s << 17;
      p[i] = (uint8_t)(s >> 20);
    }
  }
}

// The input inside a larger region whose other bytes the environment chooses.
struct Placed {
  uint8_t* mem;
  uint8_t* p;
  size_t n;
  Placed(const Bytes& b, const Env& e, Rng& r) : n(b.size()) {
    size_t around = 80;
    mem = (uint8_t*)malloc(n + 2 * around + 64);
    for (size_t i = 0; i < n + 2 * around + 64; i++)
      mem[i] = e.tail >= 0 ? (uint8_t)e.tail : (uint8_t)r.next();
    p = mem + around - ((uintptr_t)(mem + around) & 15) + (e.align & 15);
    if (n) memcpy(p, b.data(), n);
    if (e.tail == -2) {  // a start code and a plausible unit follow
      static const uint8_t t[] = {0, 0, 1, 0x67, 0x42, 0x00, 0x1e, 0xff, 0, 0, 1, 0x41, 0x9a};
      memcpy(p + n, t, sizeof t);
    }
  }
  ~Placed() { free(mem); }
};

struct Runner {
  Env env;
  std::vector<Item> items;
  std::vector<std::string> out;
  uint64_t seed = 0;

  void one(const Item& it, LibState* st, Rng& r, bool record,
           std::vector<std::function<void()>>& later) {
    Placed b(it.b, env, r);
    uint32_t c0 = h264nal::get_unimplemented_count();
    h264nal::ParsingOptions o = all_options();
    o.add_checksum = it.kind == "stream";
    std::shared_ptr<LibUnit> u;
    std::shared_ptr<LibStream> s;
    std::shared_ptr<LibRtp> p;
    smear((int)env.stack, seed + out.size());
    errno = (int)env.err;
    {
      OnMem on;
      if (it.kind == "raw")
        u = h264nal::H264NalUnitParser::ParseNalUnitUnescaped(b.p, b.n, st, o);
      else if (it.kind == "nal")
        u = h264nal::H264NalUnitParser::ParseNalUnit(b.p, b.n, st, o);
      else if (it.kind == "rtp")
        p = h264nal::H264RtpParser::ParseRtp(b.p, b.n, st);
      else if (it.kind == "len")
        s = h264nal::H264BitstreamParser::ParseBitstreamNALULength(b.p, b.n, 2, st, o);
      else
        s = h264nal::H264BitstreamParser::ParseBitstream(b.p, b.n, st, o);
    }
    uint32_t dc = h264nal::get_unimplemented_count() - c0;
    if (env.held) later.push_back([u, s, p]() {});  // keep the objects alive
    if (!record) return;
    out.push_back(u ? deep_text(*u) : s ? deep_text(*s) : p ? deep_text(*p) : "none");
    smear((int)env.stack, seed + out.size());
    {
      std::string d;
      OnMem on;
      bool was = mem().on;
      d = dump_raw([&](FILE* f) {
        mem().on = was;
        if (u) u->fdump(f, -1, o);
        if (s) s->fdump(f, -1, o);
        if (p) p->fdump(f, -1, o);
      });
      mem().on = false;
      out.push_back(std::string(d.c_str()));
    }
    if (u) out.push_back(facts<OnMem>(*u, !g_rounded));
    if (s) out.push_back(facts<OnMem>(*s, !g_rounded));
    if (p) out.push_back(facts<OnMem>(*p, !g_rounded));
    out.push_back(fmt("unsupported %u", dc));
  }
  template <class F>
  static std::string dump_raw(F f) {
    mem().on = false;
    char* p = nullptr;
    size_t n = 0;
    FILE* m = open_memstream(&p, &n);
    f(m);
    mem().on = false;
    fclose(m);
    std::string s(p, n);
    free(p);
    return s;
  }
  void run() {
    Rng r(seed);
    g_ambient = (uint64_t)env.clock * 0x9E3779B97F4A7C15ull;
    arena_reset((uint64_t)env.gap, env.down != 0, (int)env.heap, (int)env.scrub);
    int rounding = fegetround();
    static const int modes[] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO};
    fesetround(modes[env.round & 3]);
    setlocale(LC_ALL, env.loc ? "C.UTF-8" : "C");
    std::vector<std::function<void()>> later;
    {
      std::unique_ptr<LibState> other, st;
      {
        OnMem on;
        if (env.prior) other.reset(new LibState);
        st.reset(new LibState);
      }
      std::vector<std::string> dummy;
      size_t k = 0;
      for (auto& it : items) {
        if (it.kind[0] != '+') continue;
        // another session's traffic, before
        if (env.prior == 1) one({it.kind.substr(1), it.b}, other.get(), r, false, later);
      }
      for (auto& it : items) {
        if (it.kind[0] == '+') continue;
        if (env.prior == 2) {
          // ... or in between
          size_t j = 0;
          for (auto& x : items)
            if (x.kind[0] == '+' && j++ % 3 == k % 3)
              one({x.kind.substr(1), x.b}, other.get(), r, false, later);
        }
        one(it, st.get(), r, true, later);
        k++;
      }
      out.push_back(deep_text(*st));
      later.clear();
    }
    setlocale(LC_ALL, "C");
    fesetround(rounding);
    arena_off();
  }
  static void* body(void* a) {
    ((Runner*)a)->run();
    return nullptr;
  }
  void go() {
    if (!env.thread) {
      run();
      return;
    }
    pthread_t t;
    if (pthread_create(&t, nullptr, body, this)) _exit(kExitHarness);
    pthread_join(t, nullptr);
  }
};

std::string env_line(Rng& r) {
  static const int fills[] = {0, 0xff, 0x01, 0x80, 0xaa, 0x55, -1, -1};
  std::string s = "env";
  s += fmt(" heap=%d", fills[r.below(8)]);
  s += fmt(" scrub=%d", fills[r.below(8)]);
  s += fmt(" stack=%d", fills[r.below(8)]);
  s += fmt(" gap=%d", r.chance(1, 2) ? (int)r.below(1000) : 0);
  s += fmt(" down=%d", (int)r.below(2));
  s += fmt(" tail=%d", r.chance(1, 5) ? -2 : fills[r.below(8)]);
  s += fmt(" align=%d", (int)r.below(16));
  s += fmt(" thread=%d", r.chance(1, 4));
  s += fmt(" prior=%d", (int)r.below(3));
  s += fmt(" err=%d", r.chance(1, 2) ? (int)r.below(40) : 0);
  s += fmt(" clock=%d", r.chance(1, 2) ? (int)r.below(100000) : 0);
  s += fmt(" round=%d", r.chance(1, 4) ? (int)r.below(4) : 0);
  s += fmt(" loc=%d", r.chance(1, 6));
  s += fmt(" held=%d", r.chance(1, 2));
  s += fmt(" fresh=%d", r.chance(1, 3));
  return s;
}

Lines gen_env(uint64_t seed) {
  Rng r(seed);
  Lines l;
  for (int i = 2 + (int)r.below(3); i--;) l.push_back(env_line(r));
  auto traffic = [&](const char* plus, size_t n, unsigned dmg) {
    Sender snd(r.next());
    for (size_t i = 0; i < n; i++) {
      std::vector<Bytes> u;
      std::string f;
      for (size_t k = r.chance(1, 5) ? 2 + (size_t)r.below(4) : 1; k--;) {
        Bytes b = snd.next().b;
        if (r.below(1000) < dmg) f += " ~" + damage(b, r);
        if (!b.empty()) u.push_back(b);
      }
      if (u.empty()) continue;
      std::string h = plus;
      if (u.size() == 1 && r.chance(3, 4)) {
        bool rtp = r.chance(1, 2);
        l.push_back(h + (rtp ? "rtp " : r.chance(1, 8) ? "raw " : "nal ") +
                    hex(rtp ? packet_of(u, r) : u[0]) + f);
        continue;
      }
      int w = (int)r.below(3);
      Bytes o;
      if (w == 2) o.push_back(0x78);
      for (auto& b : u) {
        o.push_back((uint8_t)(b.size() >> 8));
        o.push_back((uint8_t)b.size());
        o.insert(o.end(), b.begin(), b.end());
      }
      l.push_back(w == 0   ? h + "stream " + hex(annexb(u, r)) + f
                  : w == 1 ? h + "len " + hex(o) + f
                           : h + "rtp " + hex(o) + f);
    }
  };
  unsigned dmg = r.chance(1, 3) ? 0 : (unsigned)r.below(400);
  traffic("", 3 + (size_t)r.below(16), dmg);
  traffic("+", 1 + (size_t)r.below(6), dmg);
  return l;
}

bool in_new_process(const std::function<std::vector<std::string>()>& f, std::vector<std::string>* out) {
  int pp[2];
  if (pipe(pp)) _exit(kExitHarness);
  pid_t p = fork();
  if (p < 0) _exit(kExitHarness);
  if (p == 0) {
    close(pp[0]);
    FILE* o = fdopen(pp[1], "w");
    for (auto& s : f()) {
      size_t n = s.size();
      fwrite(&n, sizeof n, 1, o);
      fwrite(s.data(), 1, n, o);
    }
    fclose(o);
    _exit(0);
  }
  close(pp[1]);
  FILE* in = fdopen(pp[0], "r");
  size_t n;
  while (fread(&n, sizeof n, 1, in) == 1 && n < 1u << 30) {
    std::string s(n, 0);
    if (n && fread(&s[0], 1, n, in) != n) break;
    out->push_back(s);
  }
  fclose(in);
  int st = 0;
  while (waitpid(p, &st, 0) < 0) {
  }
  return WIFEXITED(st) && WEXITSTATUS(st) == 0;
}

void exec_env(const Lines& l, Ctx& x) {
  std::vector<Env> envs(1);  // the first: nothing before, zeroed memory
  envs[0].heap = envs[0].scrub = 0;
  std::vector<Item> items;
  for (auto& line : l) {
    Op o(line);
    count_op(x, o);
    if (o[0] != "env") {
      items.push_back({o[0], unhex(o[1].empty() ? "-" : o[1])});
      continue;
    }
    Env e;
    std::map<std::string, long*> f = {
        {"heap", &e.heap},   {"scrub", &e.scrub}, {"stack", &e.stack},   {"gap", &e.gap},
        {"down", &e.down},   {"tail", &e.tail},   {"align", &e.align},   {"thread", &e.thread},
        {"prior", &e.prior}, {"err", &e.err},     {"clock", &e.clock},   {"round", &e.round},
        {"loc", &e.loc},     {"held", &e.held},
        {"fresh", &e.fresh}};
    for (auto& w : o.w) {
      size_t q = w.find('=');
      if (q == std::string::npos || !f.count(w.substr(0, q))) continue;
      long v = strtol(w.c_str() + q + 1, nullptr, 10);
      *f[w.substr(0, q)] = v;
      if (v) x.stats.add("fault:env-" + w.substr(0, q));
    }
    envs.push_back(e);
  }
  g_rounded = false;
  for (auto& e : envs) g_rounded |= (e.round & 3) != 0;
  size_t total = 0;
  for (auto& it : items) total += it.b.size();
  auto run = [&](size_t k) {
    Runner r;
    r.env = envs[k];
    r.items = items;
    r.seed = 1000 + k;
    arm(total * 8 + 4096);
    r.go();
    disarm();
    return r.out;
  };
  // environments with a process of their own: nothing was called there before
  std::map<size_t, std::vector<std::string>> out;
  for (size_t k = 1; k < envs.size(); k++)
    if (envs[k].fresh && !in_new_process([&]() { return run(k); }, &out[k]))
      out[k].push_back("the process ended");
  std::vector<std::string> want = run(0);
  for (auto& s : want) x.log.add(s);
  x.stats.add("probe:reports", want.size());
  for (size_t k = 1; k < envs.size(); k++) {
    if (!envs[k].fresh) out[k] = run(k);
    x.stats.add("probe:environments-compared");
    for (size_t i = 0; i < want.size() || i < out[k].size(); i++) {
      std::string e = i < want.size() ? want[i] : "nothing";
      std::string g = i < out[k].size() ? out[k][i] : "nothing";
      if (e != g)
        x.fail("environment-shows", fmt("environment %zu, observation %zu: ", k, i) + text_diff(e, g));
    }
  }
}

Lines shrink_env(const std::string& line) {
  Op o(line);
  if (o[0] != "env") return shrink_hex_line(line);
  Lines out;  // reset one aspect at a time
  for (size_t i = 1; i < o.w.size(); i++) {
    size_t q = o.w[i].find('=');
    if (q == std::string::npos || o.w[i].substr(q) == "=0") continue;
    std::string s = "env";
    for (size_t k = 1; k < o.w.size(); k++) s += " " + (k == i ? o.w[k].substr(0, q) + "=0" : o.w[k]);
    out.push_back(s);
  }
  return out;
}

}  // namespace

void add_env_world() {
  World w{"env", gen_env, exec_env, shrink_env};
  w.batch = 1;
  worlds().push_back(w);
}

}  // namespace sim

// Ambient values the code under test could read.
extern "C" {
time_t __wrap_time(time_t* t) {
  time_t v = (time_t)(1000000000 + (sim::g_ambient >> 36));
  if (t) *t = v;
  return v;
}
clock_t __wrap_clock() { return (clock_t)(sim::g_ambient >> 33); }
int __wrap_gettimeofday(struct timeval* t, void*) {
  t->tv_sec = __wrap_time(nullptr);
  t->tv_usec = (long)(sim::g_ambient % 1000000);
  return 0;
}
int __wrap_rand() { return (int)(sim::g_ambient >> 34); }
long __wrap_random() { return (long)(sim::g_ambient >> 34); }
char* __real_getenv(const char*);
char* __wrap_getenv(const char* n) {
  if (!sim::mem().on) return __real_getenv(n);
  static char v[] = "1";
  return sim::g_ambient ? v : nullptr;
}
}
