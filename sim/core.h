// Simulation core: event log, statistics, coverage/step counting, the
// explore / run / minimise drivers.  A "world" generates a scenario (a list of
// text lines: operations, deliveries, faults, schedule decisions) from one seed
// and executes a scenario.  Execution is a pure function of the scenario text.
#pragma once
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <functional>
#include <set>

#include "model.h"

namespace sim {
using model::Bytes;
using model::Rng;
using Lines = std::vector<std::string>;

// ---------------------------------------------------------------- coverage
// Edges of the code under test, from -fsanitize-coverage=trace-pc-guard.
// `steps` counts executed edges: the only clock of the single-threaded worlds.
struct Cover {
  uint32_t edges = 0;
  uint64_t steps = 0, budget = ~0ull, total_steps = 0;
  std::vector<uint8_t> hit;       // this run
  std::vector<uint8_t> ever;      // this process
};
Cover& cover();

// ---------------------------------------------------------------- log
struct Log {
  uint64_t h = 1469598103934665603ull;
  bool verbose = false;
  uint64_t events = 0;
  void add(const std::string& s) {
    events++;
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
    h = (h ^ 10) * 1099511628211ull;
    if (verbose) {
      fputs(s.c_str(), stdout);
      fputc('\n', stdout);
    }
  }
};

struct Violation {
  std::string cls, msg;
};

struct Stats {
  std::map<std::string, uint64_t> n;
  void add(const std::string& k, uint64_t v = 1) { n[k] += v; }
  void max(const std::string& k, uint64_t v) {
    uint64_t& x = n[k];
    if (v > x) x = v;
  }
};

struct Ctx {
  Log log;
  Stats stats;
  uint64_t sim_us = 0;  // simulated time covered
  [[noreturn]] void fail(const std::string& cls, const std::string& msg) {
    log.add("VIOLATION " + cls + " " + msg);
    throw Violation{cls, msg};
  }
};

// Marks a child exit the parent turns into a violation class.
enum { kExitHang = 78, kExitMemory = 79, kExitSan = 77, kExitHarness = 70 };

struct World {
  std::string name;
  // seed -> scenario
  std::function<Lines(uint64_t)> generate;
  // scenario -> behaviour; throws Violation
  std::function<void(const Lines&, Ctx&)> execute;
  // optional shrinker for one line: candidate replacements, smaller first
  std::function<Lines(const std::string&)> shrink;
  // runs that share a process (1: every run starts in a pristine process)
  int batch = 40;
};

std::vector<World>& worlds();

// -------------------------------------------------------------- text helpers
inline std::string hex(const uint8_t* d, size_t n) {
  static const char* x = "0123456789abcdef";
  std::string s;
  s.reserve(n * 2 + 1);
  if (n == 0) return "-";
  for (size_t i = 0; i < n; i++) {
    s += x[d[i] >> 4];
    s += x[d[i] & 15];
  }
  return s;
}
inline std::string hex(const Bytes& b) { return hex(b.data(), b.size()); }
inline Bytes unhex(const std::string& s) {
  Bytes b;
  if (s == "-") return b;
  auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
  for (size_t i = 0; i + 1 < s.size(); i += 2)
    b.push_back((uint8_t)(v(s[i]) * 16 + v(s[i + 1])));
  return b;
}
inline std::vector<std::string> split(const std::string& s) {
  std::vector<std::string> v;
  std::string t;
  for (char c : s) {
    if (c == ' ' || c == '\n' || c == '\t') {
      if (!t.empty()) v.push_back(t);
      t.clear();
    } else {
      t += c;
    }
  }
  if (!t.empty()) v.push_back(t);
  return v;
}
inline std::string fmt(const char* f, ...) {
  char b[1024];
  va_list a;
  va_start(a, f);
  vsnprintf(b, sizeof b, f, a);
  va_end(a);
  return b;
}
// A parsed scenario line: words, then "~fault" annotations.
struct Op {
  std::vector<std::string> w;
  std::vector<std::string> faults;
  explicit Op(const std::string& line) {
    for (auto& t : split(line)) {
      if (t[0] == '~')
        faults.push_back(t.substr(1));
      else
        w.push_back(t);
    }
  }
  const std::string& operator[](size_t i) const {
    static const std::string none;
    return i < w.size() ? w[i] : none;
  }
  long num(size_t i) const { return strtol((*this)[i].c_str(), nullptr, 0); }
  size_t size() const { return w.size(); }
};
inline void count_op(Ctx& x, const Op& o) {
  x.stats.add("op:" + o[0]);
  for (auto& f : o.faults) x.stats.add("fault:" + f);
}

int sim_main(int argc, char** argv);

}  // namespace sim
