// C09, C10, C11 and the listings of C16: the command-line tool as a process on a
// simulated kernel (simkernel.cc).
#include <errno.h>
#include <spawn.h>
#include <sys/syscall.h>

#include "core.h"
#include "gen.h"
#include "simk.h"

namespace sim {

std::string norm(const char* s, size_t n);

static simk::Shm* K;
static std::string g_tool;

struct Run {
  bool signaled = false;
  int code = 0;  // exit status or signal
  std::string out, err;
  bool good() const { return !signaled && code >= 0 && code <= 2; }
  std::string status() const { return signaled ? fmt("signal %d", code) : fmt("exit %d", code); }
};

// One fault plan for one execution of the tool.
struct Plan {
  std::map<std::string, std::string> kv;
  explicit Plan(const Op& o) {
    for (size_t i = 1; i < o.size(); i++) {
      size_t e = o[i].find('=');
      if (e != std::string::npos) kv[o[i].substr(0, e)] = o[i].substr(e + 1);
    }
  }
  Plan() {}
  bool has(const char* k) const { return kv.count(k); }
  // the ith number of a comma-separated value
  uint64_t n(const char* k, size_t i = 0, uint64_t d = 0) const {
    auto it = kv.find(k);
    if (it == kv.end()) return d;
    const char* s = it->second.c_str();
    for (; i > 0; i--) {
      s = strchr(s, ',');
      if (!s) return d;
      s++;
    }
    return strtoull(s, nullptr, 10);
  }
  size_t count(const char* k) const {
    auto it = kv.find(k);
    if (it == kv.end() || it->second.empty()) return 0;
    return 1 + (size_t)std::count(it->second.begin(), it->second.end(), ',');
  }
};

static void kernel_setup() {
  if (K) return;
  int fd = memfd_create("simk", 0);
  if (fd < 0 || ftruncate(fd, sizeof(simk::Shm)) || dup2(fd, simk::kShmFd) < 0) exit(kExitHarness);
  close(fd);
  K = (simk::Shm*)mmap(nullptr, sizeof(simk::Shm), PROT_READ | PROT_WRITE, MAP_SHARED, simk::kShmFd, 0);
  if (K == MAP_FAILED) exit(kExitHarness);
  char b[4096];
  ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1);
  if (n <= 0) exit(kExitHarness);
  b[n] = 0;
  g_tool = b;
  g_tool = g_tool.substr(0, g_tool.rfind('/')) + "/tool";
}

struct Job {
  std::vector<std::string> args;  // options, without -i and -o
  Bytes in;
  bool in_stdin = false, out_stdout = true;
  unsigned in_kind = simk::kRegular, out_kind = simk::kRegular;
  bool sigpipe_ignored = false, preexisting = false;
};

[[noreturn]] static void harness(const char* why) {
  fprintf(stdout, "HARNESS-ERROR: %s\n", why);
  fflush(stdout);
  _exit(kExitHarness);
}

static Run run_tool(Ctx& x, const Job& j, const Plan& p) {
  simk::Cfg& c = K->cfg;
  memset(&c, 0, sizeof c);
  memset(&K->res, 0, offsetof(simk::Res, trace));
  memset(K->files, 0, sizeof K->files);
  memset(K->hit, 0, sizeof K->hit);
  if (j.in.size() > simk::kInCap) harness("input too large");
  if (!j.in.empty()) memcpy(K->in, j.in.data(), j.in.size());
  c.step_budget = 20000000ull + 40000ull * j.in.size();
  c.trap_budget = 200000 + 40 * (uint32_t)j.in.size();
  auto file = [&](int i, const char* name, uint32_t kind, uint32_t role, bool ex) {
    simk::File& f = K->files[i];
    snprintf(f.name, sizeof f.name, "%s", name);
    f.kind = kind;
    f.role = role;
    f.exists = ex;
  };
  file(0, j.in_stdin ? "<stdin>" : "in.264", p.has("in-kind") ? (uint32_t)p.n("in-kind") : j.in_kind, simk::rIn, true);
  K->files[0].len = j.in.size();
  file(1, "<stdout>", j.out_stdout ? j.out_kind : (uint32_t)simk::kPipe, j.out_stdout ? simk::rOut : simk::rOther, true);
  file(2, "<stderr>", simk::kTty, simk::rErr, true);
  file(4, "<null>", simk::kRegular, simk::rOther, true);
  if (!j.out_stdout && j.preexisting) {
    file(3, "out.txt", simk::kRegular, simk::rOut, true);
    memset(K->data[3], 'X', 700);
    K->files[3].len = 700;
  }
  c.in_stdin = j.in_stdin;
  c.in_open_errno = (int)p.n("in-open");
  c.in_stat_errno = (int)p.n("in-stat");
  c.in_close_errno = (int)p.n("in-close");
  c.in_seek_errno = (int)p.n("in-seek");
  c.in_seek_from = (uint32_t)p.n("in-seek", 1);
  c.in_seek_times = (uint32_t)p.n("in-seek", 2, 1);
  c.in_err_no = (int)p.n("in-err");
  c.in_err_at = p.n("in-err", 1);
  c.in_err_times = (uint32_t)p.n("in-err", 2, 1);
  if (p.has("in-shrink")) {
    c.in_shrink_on = 1;
    c.in_shrink_to = p.n("in-shrink");
    c.in_shrink_after = (uint32_t)p.n("in-shrink", 1);
  }
  c.rd_chunks = (uint32_t)std::min<size_t>(8, p.count("in-chunk"));
  for (uint32_t i = 0; i < c.rd_chunks; i++) c.rd_chunk[i] = (uint32_t)p.n("in-chunk", i);
  c.rd_eintr = p.n("in-eintr");
  c.out_stdout = j.out_stdout;
  c.out_open_errno = (int)p.n("out-open");
  c.out_close_errno = (int)p.n("out-close");
  c.out_close_lose = p.n("out-close", 1);
  c.out_err_no = (int)p.n("out-err");
  c.out_err_at = p.n("out-err", 1);
  c.out_err_times = (uint32_t)p.n("out-err", 2, 1);
  c.wr_chunks = (uint32_t)std::min<size_t>(8, p.count("out-chunk"));
  for (uint32_t i = 0; i < c.wr_chunks; i++) c.wr_chunk[i] = (uint32_t)p.n("out-chunk", i);
  c.wr_eintr = p.n("out-eintr");
  c.sigpipe_ignored = j.sigpipe_ignored;
  c.err_errno = (int)p.n("err");
  c.err_from = (uint32_t)p.n("err", 1);
  c.err_short = (uint32_t)p.n("err-short");

  std::vector<std::string> a{"h264nal"};
  a.push_back("-i");
  a.push_back(j.in_stdin ? "-" : "in.264");
  if (!j.out_stdout) {
    a.push_back("-o");
    a.push_back("out.txt");
  }
  for (auto& s : j.args) a.push_back(s);
  std::vector<char*> av;
  for (auto& s : a) av.push_back(&s[0]);
  av.push_back(nullptr);
  char* env[] = {nullptr};
  pid_t pid;
  if (posix_spawn(&pid, g_tool.c_str(), nullptr, nullptr, av.data(), env)) harness("cannot start the tool");
  int st = 0;
  while (waitpid(pid, &st, 0) < 0) {
  }
  simk::Res& r = K->res;
  if (!r.started) harness("no simulated kernel");
  if (r.overflow) x.fail("output-excess", "the tool writes far more than any report of this input");
  if (r.unsupported) harness(fmt("system call %u", r.unsupported).c_str());
  Run o;
  o.signaled = WIFSIGNALED(st);
  o.code = o.signaled ? WTERMSIG(st) : WEXITSTATUS(st);
  if (j.out_stdout) {
    o.out.assign((char*)K->data[1], K->files[1].len);
  } else {
    for (int i = 3; i < simk::kMaxFiles; i++)
      if (K->files[i].exists && !strcmp(K->files[i].name, "out.txt")) o.out.assign((char*)K->data[i], K->files[i].len);
  }
  o.err.assign((char*)K->data[2], K->files[2].len);
  Cover& cv = cover();
  for (uint32_t i = 1; i <= r.edges && i < cv.hit.size(); i++)
    if (K->hit[i]) cv.hit[i] = cv.ever[i] = 1;
  cv.total_steps += r.steps;
  x.sim_us += r.sim_us;
  x.stats.add("op:execution");
  auto f = [&](const char* n, uint32_t v) {
    if (v) x.stats.add(std::string("fault:") + n, v);
  };
  f("input-open-error", r.fired_open);
  f("input-seek-error", r.fired_seek);
  f("input-size-error", r.fired_stat);
  f("input-read-error", r.fired_read_err);
  f("input-short-read", r.fired_read_short);
  f("input-interrupted-read", r.fired_read_eintr);
  f("input-shrinks", r.fired_shrink);
  f("input-close-error", r.fired_in_close);
  f("output-open-error", r.fired_out_open);
  f("output-write-error", r.fired_write_err);
  f("output-short-write", r.fired_write_short);
  f("output-interrupted-write", r.fired_write_eintr);
  f("output-close-error", r.fired_out_close);
  f("output-reader-gone", r.fired_sigpipe);
  f("diagnostics-error", r.fired_err);
  // the system calls are the history
  std::string t = fmt("%s traps %u:", o.status().c_str(), r.traps);
  for (uint32_t i = 0; i < r.trace_n; i++)
    t += fmt(" %d,%d,%lld,%lld", r.trace[i].nr, r.trace[i].fd, (long long)r.trace[i].arg, (long long)r.trace[i].res);
  x.log.add(t);
  x.log.add(o.out);
  if (r.budget_hit) x.fail("runs-away", fmt("the tool did not end within %s", r.budget_hit == 1 ? "its step bound" : "its system-call bound"));
  if (o.signaled && o.code != SIGABRT && !(o.code == SIGPIPE && r.fired_sigpipe))
    x.fail("crashed", "the tool ended by " + o.status());
  return o;
}

// ------------------------------------------------------------------ the model
struct Opts {
  bool length = false, one_line = true;
  bool offset = false, len = false, parsed = false, sum = false, res = false, contents = false;
  long nlb = -1, fps = 30;
};
static Opts read_opts(const std::vector<std::string>& a) {
  Opts o;
  for (size_t i = 0; i < a.size(); i++) {
    const std::string& s = a[i];
    if (s == "--dump-length") o.length = true;
    if (s == "--dump-all") o.length = false;
    if (s == "--as-one-line") o.one_line = true;
    if (s == "--no-as-one-line") o.one_line = false;
    auto flag = [&](const char* n, bool& f) {
      if (s == std::string("--add-") + n) f = true;
      if (s == std::string("--no-add-") + n) f = false;
    };
    flag("offset", o.offset);
    flag("length", o.len);
    flag("parsed-length", o.parsed);
    flag("checksum", o.sum);
    flag("resolution", o.res);
    flag("contents", o.contents);
    if (s == "--nalu-length-bytes" && i + 1 < a.size()) o.nlb = strtol(a[++i].c_str(), 0, 10);
    if (s == "--frames-per-second" && i + 1 < a.size()) o.fps = strtol(a[++i].c_str(), 0, 10);
  }
  if (o.contents) o.offset = o.len = true;
  return o;
}
static const char* kTypeNames[32] = {
    "unspecified", "coded_slice_of_non_idr_picture", "coded_slice_data_partition_a",
    "coded_slice_data_partition_b", "coded_slice_data_partition_c", "coded_slice_of_idr_picture",
    "sei", "sps", "pps", "aud", "eoseq", "eostream", "filler_data", "sps_extension", "prefix",
    "subset_sps", "rsv16", "rsv17", "rsv18", "coded_slice_of_auxiliary_coded_picture",
    "coded_slice_extension", "rsv21"};

static std::string strip_resolution(std::string s) {
  for (size_t i = 0; (i = s.find(" width: ", i)) != std::string::npos;) {
    size_t e = s.find(" height: ", i);
    if (e == std::string::npos) break;
    e += 9;
    while (e < s.size() && s[e] != ' ') e++;
    s.erase(i, e - i);
  }
  return s;
}

std::string norm(const char* s, size_t n) {
  std::string o;
  bool sp = true;
  for (size_t i = 0; i < n; i++) {
    char c = s[i];
    if (c == ' ' || c == '\n' || c == '\t') {
      if (!sp) o += ' ';
      sp = true;
    } else if (c == '{' || c == '}') {
      if (!sp) o += ' ';
      o += c;
      o += ' ';
      sp = true;
    } else {
      o += c;
      sp = false;
    }
  }
  while (!o.empty() && o.back() == ' ') o.pop_back();
  return o;
}
// words of `expect` against words of `got`; "*" matches one word
static bool words_match(const std::string& expect, const std::string& got, std::string* why) {
  auto e = split(expect), g = split(got);
  for (size_t i = 0; i < e.size() || i < g.size(); i++) {
    std::string a = i < e.size() ? e[i] : "<end>", b = i < g.size() ? g[i] : "<end>";
    if (a == b || (a == "*" && i < g.size())) continue;
    std::string ctx;
    for (size_t k = i > 8 ? i - 8 : 0; k < i; k++) ctx += e[k] + " ";
    *why = fmt("word %zu: expected ...%s[%s] got [%s]", i, ctx.c_str(), a.substr(0, 60).c_str(), b.substr(0, 60).c_str());
    return false;
  }
  return true;
}

// The output and exit status the stored bytes call for.
static void check_model(Ctx& x, const Job& j, const Run& r, const std::string& where) {
  Opts o = read_opts(j.args);
  Store st;
  std::vector<model::Span> spans = o.nlb < 0 ? model::split_start_codes(j.in) : model::split_lengths(j.in, (size_t)o.nlb);
  std::vector<model::Unit> units;
  size_t missing = 0, unread = 0, unimpl = 0;
  for (auto& s : spans) {
    model::Unit u = model::decode_unit(j.in.data() + s.off, s.len, st);
    u.offset = s.off;
    u.length = s.len;
    unimpl += (size_t)u.unimplemented;
    if (!u.reported) {
      missing++;
      continue;
    }
    if (!u.payload.parsed) unread++;
    units.push_back(u);
  }
  if (j.in.empty() && !j.in_stdin) {
    if (r.good()) x.fail("empty-input", where + ": an empty file was accepted");
    return;
  }
  int want = unimpl ? 2 : (unread || (missing && o.nlb < 0)) ? 1 : 0;
  bool free_choice = o.nlb >= 0 && !unimpl && !unread && missing;
  if (r.signaled || (r.code != want && !(free_choice && r.code == 1)))
    x.fail("exit-status", where + ": " + r.status() + fmt(", expected %d (%zu units, %zu without report, %zu unread, %zu unsupported)", want, spans.size(), missing, unread, unimpl));
  x.stats.add(fmt("probe:exit-%d", want));
  std::string why;
  if (o.length) {
    std::string w = "nal_num,frame_num,nal_unit_type,nal_unit_type_str,nal_length_bytes,bitrate_bps,first_mb_in_slice\n";
    long long total = 0, frame = 0, num = 0, last = -1;
    auto flush = [&]() {
      w += fmt(",%lld,%lld,frame,,%lld,\n", frame, last, total * 8 * (long long)o.fps);
    };
    for (auto& u : units) {
      uint32_t t = u.header.type;
      bool slice = (t >= 1 && t <= 5) || t == 19 || t == 20;
      long long mb = 0;
      if (slice) {
        if ((t == 1 || t == 5) && u.payload.parsed) mb = (int)u.payload.slice.first_mb;
        if (mb == 0 && total > 0) {
          flush();
          frame++;
          total = 0;
          x.stats.add("probe:frame-row");
        }
        last = t;
        total += (long long)u.length;
      }
      w += fmt("%lld,%lld,%u,", num++, frame, t);
      if (kTypeNames[t]) w += kTypeNames[t];
      else w += "*";
      w += fmt(",%zu,,", u.length) + (slice ? fmt("%lld", mb) : std::string()) + "\n";
    }
    if (total > 0) flush();
    // line by line; names of types the standard leaves open are not compared
    size_t a = 0, b = 0, ln = 0;
    while (a < w.size() || b < r.out.size()) {
      size_t ae = w.find('\n', a), be = r.out.find('\n', b);
      if (ae == std::string::npos) ae = w.size();
      if (be == std::string::npos) be = r.out.size();
      std::string p = a < w.size() ? w.substr(a, ae - a) : "<end>", q = b < r.out.size() ? r.out.substr(b, be - b) : "<end>";
      ln++;
      size_t star = p.find(",*,");
      if (star != std::string::npos) {
        size_t c = q.find(',', star + 1);
        if (q.size() > star && c != std::string::npos) q = q.substr(0, star + 1) + "*" + q.substr(c);
      }
      if (p != q) x.fail("length-listing", where + fmt(": line %zu: expected %s got %s", ln, p.c_str(), q.substr(0, 200).c_str()));
      a = ae + 1;
      b = be + 1;
    }
    return;
  }
  std::string w;
  for (auto& u : units) {
    w += "nal_unit {";
    if (o.offset) w += fmt(" offset: 0x%08zx", u.offset);
    if (o.len) w += fmt(" length: %zu", u.length);
    if (o.parsed) w += u.payload.parsed ? fmt(" parsed_length: 0x%08zx", u.parsed_length) : std::string(" parsed_length: *");
    if (o.sum) w += fmt(" checksum: 0x%08x", u.sum);
    std::string body = " " + u.header_text + " " + model::payload_text(u.payload) + " }";
    w += o.res ? body : strip_resolution(body);
    if (o.contents) {
      w += " contents {";
      for (size_t i = 0; i < u.length; i++) w += fmt(" %02x", j.in[u.offset + i]);
      w += " }";
    }
    w += " ";
  }
  if (!words_match(w, norm(r.out.data(), r.out.size()), &why)) x.fail("listing", where + ": " + why);
  if (o.one_line && (size_t)std::count(r.out.begin(), r.out.end(), '\n') != units.size())
    x.fail("listing", where + ": not one line per unit");
  x.stats.add("probe:unit-listed", units.size());
}

// ------------------------------------------------------------------ executing
struct Scene {
  Job j;
  std::vector<Plan> plans;
};
static Scene read_scene(const Lines& l, Ctx& x) {
  Scene s;
  for (auto& line : l) {
    Op o(line);
    count_op(x, o);
    if (o[0] == "opt")
      for (size_t i = 1; i < o.size(); i++) s.j.args.push_back(o[i]);
    else if (o[0] == "data") {
      Bytes b = unhex(o[1]);
      s.j.in.insert(s.j.in.end(), b.begin(), b.end());
    } else if (o[0] == "repeat") {
      // repeat TIMES HEX
      Bytes b = unhex(o[2]);
      for (long n = std::min(o.num(1), 3000000l); n-- > 0 && s.j.in.size() + b.size() < simk::kInCap;) s.j.in.insert(s.j.in.end(), b.begin(), b.end());
    } else if (o[0] == "stdin") {
      s.j.in_stdin = true;
      s.j.in_kind = (unsigned)o.num(1);
    } else if (o[0] == "outfile") {
      s.j.out_stdout = false;
      s.j.preexisting = o.num(1);
    } else if (o[0] == "outkind") {
      s.j.out_kind = (unsigned)o.num(1);
    } else if (o[0] == "sigpipe-ignored") {
      s.j.sigpipe_ignored = true;
    } else if (o[0] == "plan") {
      s.plans.push_back(Plan(o));
    }
  }
  return s;
}
static bool only(const Plan& p, std::initializer_list<const char*> keys) {
  for (auto& e : p.kv) {
    bool ok = false;
    for (auto k : keys) ok |= e.first == k;
    if (!ok) return false;
  }
  return true;
}

static void exec_cli_in(const Lines& l, Ctx& x) {
  kernel_setup();
  Scene s = read_scene(l, x);
  Run ref = run_tool(x, s.j, Plan());
  if (!ref.good() && !(s.j.in.empty() && !s.j.in_stdin)) x.fail("refused", "the tool refuses a readable input: " + ref.status());
  if (!s.j.in.empty()) {
    // the same bytes through the other door
    Job j = s.j;
    j.in_stdin = !j.in_stdin;
    j.in_kind = j.in_stdin ? simk::kPipe : simk::kRegular;
    Run o = run_tool(x, j, Plan());
    if (o.signaled != ref.signaled || o.code != ref.code || o.out != ref.out)
      x.fail("stdin-differs", "file and standard input give different results: " + ref.status() + " and " + o.status());
  }
  size_t n = 0;
  for (auto& p : s.plans) {
    std::string where = fmt("plan %zu", ++n);
    Run r = run_tool(x, s.j, p);
    bool same = r.signaled == ref.signaled && r.code == ref.code && r.out == ref.out;
    if (only(p, {"in-chunk"})) {
      x.stats.add("probe:harmless-plan");
      if (!same) x.fail("harmless-input-fault", where + ": short reads change the result from " + ref.status() + " to " + r.status());
      continue;
    }
    if (!r.good()) {
      x.stats.add("probe:error-reported");
      continue;
    }
    if (same) {
      x.stats.add("probe:fault-survived");
      continue;
    }
    // a file that was shorter when its size was taken is the complete input
    simk::Res& q = K->res;
    if (q.fired_shrink && q.size_taken && q.last_size == K->files[0].len && !s.j.in_stdin) {
      Job j = s.j;
      j.in.resize((size_t)q.last_size);
      Run o = run_tool(x, j, Plan());
      if (!o.signaled && o.code == r.code && o.out == r.out) continue;
    }
    x.fail("misread-input", where + ": " + r.status() + fmt(" with %zu bytes of output although the input was not fully read (fault-free: ", r.out.size()) + ref.status() + fmt(", %zu bytes)", ref.out.size()));
  }
}

static void exec_cli_out(const Lines& l, Ctx& x) {
  kernel_setup();
  Scene s = read_scene(l, x);
  Run ref = run_tool(x, s.j, Plan());
  if (!ref.good() && !s.j.in.empty()) x.fail("refused", "the tool refuses a readable input: " + ref.status());
  size_t n = 0;
  for (auto& p : s.plans) {
    std::string where = fmt("plan %zu", ++n);
    Run r = run_tool(x, s.j, p);
    bool same = r.signaled == ref.signaled && r.code == ref.code && r.out == ref.out;
    if (only(p, {"out-chunk", "err", "err-short"})) {
      x.stats.add("probe:harmless-plan");
      if (!same)
        x.fail("harmless-output-fault", where + ": short writes or trouble with diagnostics change the result from " + ref.status() + " to " + r.status());
      continue;
    }
    if (!r.good()) {
      x.stats.add("probe:error-reported");
      continue;
    }
    if (!same)
      x.fail("output-lost", where + ": " + r.status() + fmt(" with %zu bytes written (fault-free: ", r.out.size()) + ref.status() + fmt(", %zu bytes)", ref.out.size()));
    x.stats.add("probe:fault-survived");
  }
}

static void exec_cli_status(const Lines& l, Ctx& x) {
  kernel_setup();
  Scene s = read_scene(l, x);
  if (s.plans.empty()) s.plans.push_back(Plan());
  for (auto& p : s.plans) {
    Run r = run_tool(x, s.j, p);
    check_model(x, s.j, r, "execution");
  }
}

// ------------------------------------------------------------------ generating
static uint64_t edge_offset(Rng& r, uint64_t len) {
  switch (r.below(7)) {
    case 0: return 0;
    case 1: return len;
    case 2: return len ? len - 1 : 0;
    case 3: return 4096 * r.below(len / 4096 + 1);
    case 4: return len > 4096 ? len - len % 4096 : len / 2;
    default: return r.below(len + 1);
  }
}
static std::string chunks(Rng& r) {
  static const unsigned sz[] = {1, 2, 3, 7, 64, 511, 1024, 4095, 4096, 4097, 0};
  std::string s;
  bool tiny = r.chance(1, 4);
  for (uint64_t n = 1 + r.below(6), i = 0; i < n; i++) s += (i ? "," : "") + std::to_string(tiny ? sz[r.below(4)] : sz[3 + r.below(8)]);
  return s;
}
static unsigned pick(Rng& r, std::initializer_list<int> v) {
  return (unsigned)*(v.begin() + (long)r.below(v.size()));
}

// More bytes, units or failures than small counters and buffers hold.
static Bytes gen_bulk(Rng& r, Lines& l) {
  Bytes all, u{0, 0, 1};
  unsigned n = 0;
  auto has = [&](const char* o) { return std::count(l.begin(), l.end(), std::string("opt ") + o) > 0; };
  switch (r.below(4)) {
    case 0: {  // one long unit
      static const unsigned at[] = {65536, 131072, 262144, 1048576};
      l.push_back("data 0000010c");
      all = {0, 0, 1, 12};
      n = at[r.below(4)] - 6 + (unsigned)r.below(12);
      if (has("--add-contents") && n > 300000) n = 131072;
      u.assign(1, 0xff);
      break;
    }
    case 1: {  // units that cannot be read
      static const unsigned at[] = {1, 127, 128, 255, 256, 257, 512, 65536};
      n = at[r.below(8)];
      u.push_back(0x67);
      u.push_back(0x42);
      break;
    }
    case 2: {  // unsupported ones
      static const unsigned at[] = {1, 127, 128, 255, 256, 257, 512, 65536};
      n = at[r.below(8)];
      u.push_back(0x74);
      u.push_back(0x01);
      break;
    }
    default: {
      static const unsigned at[] = {255, 256, 1000, 40000, 65540};
      n = at[r.below(5)];
      u.push_back(0x09);
      u.push_back((uint8_t)(0x10 | r.below(8) << 5));
    }
  }
  if (u.size() > 1 && n > 1000 && (!has("--dump-length") || has("--dump-all"))) n = 1000;
  l.push_back(fmt("repeat %u ", n) + hex(u));
  while (n--) all.insert(all.end(), u.begin(), u.end());
  return all;
}
static Bytes gen_stream(Rng& r, Lines& l, bool lengths, size_t k, bool faults) {
  if (!lengths && r.chance(1, 150)) return gen_bulk(r, l);
  Sender s(r.next());
  if (!r.chance(1, 3)) s.k.damage_pm = 0;
  Bytes all;
  std::vector<Bytes> seen;
  size_t n = r.chance(1, 12) ? 0 : 1 + (size_t)r.below(r.chance(1, 4) ? 40 : 8);
  if (!lengths && r.chance(1, 8)) {
    Bytes z((size_t)r.below(5), 0);
    if (r.chance(1, 2) && !z.empty()) z.back() = (uint8_t)r.next();
    l.push_back("data " + hex(z));
    all.insert(all.end(), z.begin(), z.end());
  }
  bool big = r.chance(1, 3);
  while (n--) {
    Bytes b = s.next().b;
    std::string f;
    if (big && r.chance(1, 6)) {
      static const size_t sizes[] = {900, 3000, 4090, 4096, 5000, 9000, 20000};
      size_t z = sizes[r.below(7)] + (size_t)r.below(8);
      b.assign(1, (uint8_t)(r.chance(1, 2) ? 0x0c : 0x09));
      uint64_t q = r.next() | 1;
      while (b.size() < z) b.push_back((uint8_t)(1 + (q = q * 6364136223846793005ull + 1) / (1ull << 56) % 255));
    }
    if (r.chance(1, 20)) extreme_sum(b, r);
    if (faults && r.chance(1, 6)) f = " ~" + damage(b, r, seen.empty() ? nullptr : &seen.back());
    seen.push_back(b);
    Bytes o;
    if (lengths) {
      if (k && k < 8 && b.size() >> (8 * k)) continue;
      for (size_t i = 0; i < k; i++) {
        size_t sh = 8 * (k - 1 - i);
        o.push_back(sh >= 64 ? 0 : (uint8_t)((uint64_t)b.size() >> sh));
      }
    } else {
      if (r.chance(1, 2)) o.push_back(0);
      o.insert(o.end(), {0, 0, 1});
    }
    o.insert(o.end(), b.begin(), b.end());
    if (!lengths && r.chance(1, 10))
      for (uint64_t z = r.below(5); z--;) o.push_back(0);
    if (faults && r.chance(1, 25)) f += " ~" + damage(o, r);
    all.insert(all.end(), o.begin(), o.end());
    l.push_back("data " + hex(o) + f);
    if (lengths && k == 0) break;
  }
  return all;
}
static void gen_opts(Rng& r, Lines& l, unsigned listing) {
  if (r.chance(listing ? 2 : 1, 3)) l.push_back(r.chance(1, 2) ? "opt --dump-length" : "opt --add-contents");
  if (r.chance(1, 4)) l.push_back("opt --no-as-one-line");
  static const char* f[] = {"offset", "length", "parsed-length", "checksum", "resolution"};
  for (auto n : f)
    if (r.chance(1, 3)) l.push_back(std::string("opt --") + (r.chance(1, 5) ? "no-" : "") + "add-" + n);
  if (r.chance(1, 10)) l.push_back("opt --no-add-contents");
  if (r.chance(1, 10)) l.push_back("opt --dump-all");
  if (r.chance(1, 10)) l.push_back("opt --as-one-line");
  if (r.chance(1, 6)) l.push_back(fmt("opt --frames-per-second %u", (unsigned)pick(r, {0, 1, 25, 60, 240, 2147483647})));
  if (r.chance(1, 8)) l.push_back("opt -d");
  if (r.chance(1, 12)) l.push_back("opt --quiet");
}
static void gen_outfile(Rng& r, Lines& l) {
  if (r.chance(1, 4)) l.push_back(fmt("outfile %u", (unsigned)r.below(2)));
  else if (r.chance(1, 5)) l.push_back("opt -o -");
}

static Lines gen_cli_in(uint64_t seed) {
  Rng r(seed);
  Lines l;
  bool lengths = r.chance(1, 6);
  size_t k = lengths ? (size_t)pick(r, {0, 1, 2, 3, 4, 4, 8, 9, 12}) : 0;
  gen_opts(r, l, 0);
  if (lengths) l.push_back(fmt("opt --nalu-length-bytes %zu", k));
  bool in_stdin = r.chance(2, 5);
  if (in_stdin) l.push_back(fmt("stdin %u", pick(r, {simk::kPipe, simk::kPipe, simk::kRegular, simk::kTty})));
  gen_outfile(r, l);
  Bytes all = gen_stream(r, l, lengths, k, r.chance(1, 2));
  size_t len = all.size();
  for (size_t n = 2 + (size_t)r.below(5); n--;) {
    std::string p = "plan";
    if (r.chance(1, 4)) {
      p += " in-chunk=" + chunks(r);
      l.push_back(p);
      continue;
    }
    for (size_t m = r.chance(2, 3) ? 1 : 2; m--;) {
      switch (r.below(in_stdin ? 4 : 10)) {
        case 0:
        case 1:
          p += fmt(" in-err=%u,%llu,%u", pick(r, {EIO, EIO, EAGAIN, ESTALE, EINTR, ENXIO, EBADF}),
                   (unsigned long long)edge_offset(r, len), pick(r, {1, 1, 2, 0xffff}));
          break;
        case 2: p += fmt(" in-eintr=%llu", (unsigned long long)(r.chance(1, 2) ? 1ull << r.below(4) : r.next() & r.next())); break;
        case 3: p += " in-chunk=" + chunks(r); break;
        case 4: p += fmt(" in-open=%u", pick(r, {ENOENT, EACCES, EMFILE, EIO, ELOOP, EINTR})); break;
        case 5: p += fmt(" in-stat=%u", pick(r, {EIO, EOVERFLOW, ESTALE})); break;
        case 6: p += fmt(" in-seek=%u,%u,%u", pick(r, {EIO, EINVAL, ESPIPE, EOVERFLOW}), (unsigned)r.below(4), pick(r, {1, 1, 2, 100})); break;
        case 7: p += fmt(" in-shrink=%llu,%u", (unsigned long long)(r.chance(1, 2) ? len - std::min<uint64_t>(len, 1 + r.below(8)) : edge_offset(r, len)), (unsigned)r.below(7)); break;
        case 8: p += fmt(" in-close=%u", pick(r, {EIO, EINTR})); break;
        default: p += fmt(" in-kind=%u", pick(r, {simk::kPipe, simk::kDir, simk::kTty}));
      }
    }
    l.push_back(p);
  }
  return l;
}

static Lines gen_cli_out(uint64_t seed) {
  Rng r(seed);
  Lines l;
  gen_opts(r, l, 0);
  if (r.chance(1, 10)) l.push_back("opt -d -d");
  if (r.chance(1, 3)) l.push_back(fmt("stdin %u", (unsigned)simk::kPipe));
  bool outfile = r.chance(1, 2);
  if (outfile) l.push_back(fmt("outfile %u", (unsigned)r.below(2)));
  else {
    l.push_back(fmt("outkind %u", pick(r, {simk::kRegular, simk::kPipe, simk::kTty})));
    if (r.chance(1, 5)) l.push_back("opt -o -");
  }
  if (r.chance(1, 3)) l.push_back("sigpipe-ignored");
  Bytes all = gen_stream(r, l, false, 0, r.chance(1, 2));
  // the report's length is not known here: aim below a guess of it
  uint64_t guess = 100 + all.size() * pick(r, {0, 1, 3, 8, 20});
  for (size_t n = 2 + (size_t)r.below(5); n--;) {
    std::string p = "plan";
    if (r.chance(1, 4)) {
      if (r.chance(1, 2)) p += " out-chunk=" + chunks(r);
      if (r.chance(1, 2)) p += fmt(" err=%u,%u", pick(r, {ENOSPC, EIO, EBADF, EAGAIN}), (unsigned)r.below(4));
      else if (r.chance(1, 3)) p += fmt(" err-short=%u", 1 + (unsigned)r.below(20));
      l.push_back(p);
      continue;
    }
    for (size_t m = r.chance(2, 3) ? 1 : 2; m--;) {
      switch (r.below(outfile ? 8 : 6)) {
        case 0:
        case 1:
        case 2:
        case 3:
          p += fmt(" out-err=%u,%llu,%u", pick(r, {ENOSPC, ENOSPC, EIO, EPIPE, EDQUOT, EFBIG, EAGAIN, EINTR}),
                   (unsigned long long)edge_offset(r, guess), pick(r, {1, 1, 2, 0xffff, 0xffff}));
          break;
        case 4: p += fmt(" out-eintr=%llu", (unsigned long long)(r.chance(1, 2) ? 1ull << r.below(4) : r.next() & r.next())); break;
        case 5: p += " out-chunk=" + chunks(r); break;
        case 6: p += fmt(" out-open=%u", pick(r, {EACCES, ENOENT, EROFS, EMFILE, ENOSPC, EISDIR})); break;
        default: p += fmt(" out-close=%u,%llu", pick(r, {EIO, ENOSPC, EDQUOT}), (unsigned long long)(1 + r.below(guess)));
      }
    }
    if (r.chance(1, 8)) p += fmt(" err=%u,0", pick(r, {ENOSPC, EIO}));
    l.push_back(p);
  }
  return l;
}

static Lines gen_cli_any(uint64_t seed, unsigned listing) {
  Rng r(seed);
  Lines l;
  bool lengths = r.chance(1, listing ? 3 : 8);
  size_t k = lengths ? (size_t)pick(r, {0, 1, 2, 3, 4, 4, 8, 9, 12}) : 0;
  gen_opts(r, l, listing);
  if (lengths) l.push_back(fmt("opt --nalu-length-bytes %zu", k));
  if (r.chance(1, 4)) l.push_back(fmt("stdin %u", (unsigned)simk::kPipe));
  gen_outfile(r, l);
  gen_stream(r, l, lengths, k, !r.chance(1, 3));
  std::string p = "plan";
  if (r.chance(1, 3)) p += " in-chunk=" + chunks(r);
  if (r.chance(1, 3)) p += " out-chunk=" + chunks(r);
  if (r.chance(1, 6)) p += fmt(" err=%u,%u", pick(r, {ENOSPC, EIO, EBADF, EAGAIN}), (unsigned)r.below(4));
  l.push_back(p);
  return l;
}

static Lines shrink_cli(const std::string& line) {
  Op o(line);
  if (o[0] == "data") return shrink_hex_line(line);
  Lines out;
  if (o[0] == "plan" && o.size() > 2)
    for (size_t i = 1; i < o.size(); i++) {
      std::string s = "plan";
      for (size_t k = 1; k < o.size(); k++)
        if (k != i) s += " " + o[k];
      out.push_back(s);
    }
  return out;
}

void add_cli_worlds() {
  kernel_setup();
  {
    // how many edges the tool has
    Ctx x;
    Job j;
    j.args = {"--version"};
    run_tool(x, j, Plan());
    Cover& c = cover();
    c.edges = K->res.edges;
    c.hit.assign(c.edges + 1, 0);
    c.ever.assign(c.edges + 1, 0);
    c.total_steps = 0;
  }
  worlds().push_back({"cli-in", gen_cli_in, exec_cli_in, shrink_cli});
  worlds().push_back({"cli-out", gen_cli_out, exec_cli_out, shrink_cli});
  worlds().push_back({"cli-status", [](uint64_t s) { return gen_cli_any(s, 0); }, exec_cli_status, shrink_cli});
  worlds().push_back({"cli-list", [](uint64_t s) { return gen_cli_any(s, 1); }, exec_cli_status, shrink_cli});
}

}  // namespace sim
