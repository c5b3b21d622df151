// C17, C18: the helper scripts with the real interpreter, their file operations,
// their waiting and the tool they start answered by the simulator.
#include <dirent.h>
#include <errno.h>
#include <sys/stat.h>

#include "core.h"
#include "dpb.h"
#include "gen.h"
#include "scr.h"

namespace sim {

static std::string g_bin, g_repo;

static void slurp(const std::string& p, std::string& s) {
  s.clear();
  FILE* f = fopen(p.c_str(), "rb");
  if (!f) return;
  char b[65536];
  size_t n;
  while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
  fclose(f);
}
static void spill(const std::string& p, const void* d, size_t n) {
  FILE* f = fopen(p.c_str(), "wb");
  if (!f || fwrite(d, 1, n, f) != n || fclose(f)) {
    fprintf(stdout, "HARNESS-ERROR: cannot write %s\n", p.c_str());
    fflush(stdout);
    _exit(kExitHarness);
  }
}

// names in scenarios are written with %XX for odd bytes
static std::string plain(const std::string& s) {
  std::string o;
  for (unsigned char c : s) o += c > 32 && c < 127 && c != '%' ? std::string(1, (char)c) : c == 32 ? std::string(" ") : fmt("%%%02X", c);
  return o;
}
static std::string unplain(const std::string& s) {
  std::string o;
  for (size_t i = 0; i < s.size(); i++)
    if (s[i] == '%' && i + 2 < s.size()) {
      o += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16);
      i += 2;
    } else {
      o += s[i];
    }
  return o;
}
// 0 is the ordinary one
static const char* const kOdd[] = {"", "%20b", ",c", "%22q%22", "%FF", "%C3%A9", "%0A", "%0D", "%E9%20", ";", "'", "%25s", "$x", "%ED%B3%BF", "%09"};

struct Input {
  std::string name;
  Bytes b;
  bool missing = false, dir = false;
  scr::Child child;
  Input() { memset(&child, 0, sizeof child); }
};
struct Work {
  std::string script;
  std::vector<std::string> opts;
  std::vector<Input> in;
  bool outfile = false, noexec = false, preexisting = false, marking = false;
  int stale_how = 0;
  std::map<std::string, std::string> stale;  // result files of an earlier stream
  std::vector<std::map<std::string, uint64_t>> plans;
};

struct Result {
  bool signaled = false;
  int code = 0;
  std::string out, err;
  std::map<std::string, std::string> files;  // what the script left behind
  scr::Shm s;
  std::string status() const { return signaled ? fmt("signal %d", code) : fmt("exit %d", code); }
  bool ok() const { return !signaled && code == 0; }
  bool same(const Result& o) const {
    return signaled == o.signaled && code == o.code && out == o.out && files == o.files;
  }
  // the same, and perhaps what a killed predecessor left behind
  bool has(const Result& o) const {
    for (auto& e : o.files) {
      auto it = files.find(e.first);
      if (it == files.end() || it->second != e.second) return false;
    }
    return signaled == o.signaled && code == o.code && out == o.out;
  }
};

// Everything a run does happens in one directory that is removed afterwards.
struct Scratch {
  std::string d;
  Scratch() {
    const char* t = getenv("SIM_TMP");
    std::string p = std::string(t && *t ? t : "/tmp") + "/scr-XXXXXX";
    if (!mkdtemp(&p[0])) {
      fprintf(stdout, "HARNESS-ERROR: no scratch directory\n");
      fflush(stdout);
      _exit(kExitHarness);
    }
    d = p;
  }
  // relative names, the contents of a directory before the directory
  void each(const std::function<void(const std::string&)>& f, const std::string& sub = "") {
    DIR* h = opendir((d + "/" + sub).c_str());
    std::vector<std::string> v;
    while (struct dirent* e = h ? readdir(h) : nullptr)
      if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) v.push_back(sub + e->d_name);
    if (h) closedir(h);
    std::sort(v.begin(), v.end());
    for (auto& n : v) {
      struct stat st;
      if (!lstat((d + "/" + n).c_str(), &st) && S_ISDIR(st.st_mode)) each(f, n + "/");
      f(n);
    }
  }
  void clear() {
    each([&](const std::string& n) {
      std::string p = d + "/" + n;
      if (unlink(p.c_str())) rmdir(p.c_str());
    });
  }
  ~Scratch() {
    clear();
    rmdir(d.c_str());
  }
};

static uint64_t val(const std::map<std::string, uint64_t>& m, const char* k) {
  auto it = m.find(k);
  return it == m.end() ? 0 : it->second;
}

// does any process of the group want the processor (or the disk)?
static bool group_runs(pid_t g) {
  DIR* h = opendir("/proc");
  bool any = false;
  while (struct dirent* e = h ? readdir(h) : nullptr) {
    if (e->d_name[0] < '0' || e->d_name[0] > '9') continue;
    std::string t;
    slurp(std::string("/proc/") + e->d_name + "/stat", t);
    size_t c = t.rfind(')');
    if (c == std::string::npos || c + 4 > t.size()) continue;
    char st = t[c + 2];
    int ppid = 0, pgrp = 0;
    sscanf(t.c_str() + c + 3, "%d %d", &ppid, &pgrp);
    any |= pgrp == g && (st == 'R' || st == 'D');
  }
  if (h) closedir(h);
  return any;
}

static Result run_script(Ctx& x, Scratch& w, const Work& job, const std::map<std::string, uint64_t>& p, bool child_faults, bool keep_files = false) {
  if (!keep_files) w.clear();
  mkdir((w.d + "/tmp").c_str(), 0700);
  for (auto& i : job.in) {
    size_t sl = i.name.find('/');
    if (sl != std::string::npos) mkdir((w.d + "/" + i.name.substr(0, sl)).c_str(), 0700);
    if (i.dir) mkdir((w.d + "/" + i.name).c_str(), 0700);
    else if (!i.missing) spill(w.d + "/" + i.name, i.b.data(), i.b.size());
  }
  scr::Shm s;
  memset(&s, 0, sizeof s);
  snprintf(s.dir, sizeof s.dir, "%s", w.d.c_str());
  s.in_open_errno = (int)val(p, "in-open");
  s.in_open_nth = 1;
  s.in_err_no = (int)val(p, "in-err");
  s.in_err_at = val(p, "in-err-at");
  s.rd_chunk = (uint32_t)val(p, "in-chunk");
  s.rd_eintr = val(p, "in-eintr");
  s.out_open_errno = (int)val(p, "out-open");
  s.out_open_nth = (uint32_t)val(p, "out-open-nth");
  s.out_err_no = (int)val(p, "out-err");
  s.out_err_at = val(p, "out-err-at");
  s.out_err_times = (uint32_t)val(p, "out-err-times");
  s.wr_chunk = (uint32_t)val(p, "out-chunk");
  s.wr_eintr = val(p, "out-eintr");
  s.out_close_errno = (int)val(p, "out-close");
  s.out_close_nth = (uint32_t)val(p, "out-close-nth");
  s.crash_at = (uint32_t)val(p, "crash-at");
  s.crash_part = (uint32_t)val(p, "crash-part");
  s.err_errno = (int)val(p, "err");
  s.out_stdout = job.script != "split" && !job.outfile;
  if (child_faults) {
    size_t k = 0;
    for (auto& i : job.in) {
      if (k >= scr::kFiles) break;
      s.child[k] = i.child;
      snprintf(s.child[k].name, sizeof s.child[k].name, "%s", i.name.c_str());
      s.hang |= i.child.mode == 3;
      k++;
    }
  }
  std::string plan = w.d + "/plan", tool = w.d + "/h264nal", so = w.d + "/stdout", se = w.d + "/stderr";
  spill(plan, &s, sizeof s);
  unlink(tool.c_str());
  if (child_faults && job.noexec) {
    spill(tool, "x", 1);
    chmod(tool.c_str(), 0600);
  } else if (symlink((g_bin + "/child").c_str(), tool.c_str())) {
    _exit(kExitHarness);
  }
  if (!keep_files)
    for (auto& e : job.stale) spill(w.d + "/" + e.first, e.second.data(), e.second.size());
  if (job.outfile && job.preexisting) spill(w.d + "/out.csv", "old,old\nold,old\n", 16);
  std::vector<std::string> a{"/usr/bin/python3", "-B", "-s", g_repo + "/tools/h264nal-" + (job.script == "split" ? "split" : job.script == "summary" ? "conformance" : "dpb_parse") + ".py"};
  for (auto& o : job.opts) a.push_back(o);
  if (job.script == "summary") {
    a.insert(a.end(), {"--h264nal", tool});
    if (job.outfile) a.insert(a.end(), {"-o", w.d + "/out.csv"});
    a.push_back("--");
    for (auto& i : job.in) a.push_back(w.d + "/" + i.name);
  } else {
    a.insert(a.end(), {"-i", w.d + "/" + job.in[0].name, "--h264nal-path", tool});
    if (job.script == "dpb" && job.outfile) a.insert(a.end(), {"-o", w.d + "/out.csv"});
  }
  std::vector<std::string> env{"PATH=/usr/bin:/bin", "PYTHONHASHSEED=0", "LC_ALL=C.UTF-8", "HOME=" + w.d, "TMPDIR=" + w.d + "/tmp",
                               "LD_PRELOAD=" + g_bin + "/shim.so", "SIM_SCRIPT=" + plan};
  pid_t pid = fork();
  if (pid == 0) {
    setpgid(0, 0);
    struct rlimit rl = {25, 30};
    setrlimit(RLIMIT_CPU, &rl);
    struct rlimit co = {0, 0};
    setrlimit(RLIMIT_CORE, &co);
    int n = open("/dev/null", O_RDONLY), o = open(so.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), e = open(se.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0600);
    if (chdir(w.d.c_str()) || n < 0 || o < 0 || e < 0) _exit(99);
    dup2(n, 0);
    dup2(o, 1);
    dup2(e, 2);
    for (int i = 3; i < 1024; i++) close(i);
    std::vector<char*> av, ev;
    for (auto& q : a) av.push_back(&q[0]);
    for (auto& q : env) ev.push_back(&q[0]);
    av.push_back(nullptr);
    ev.push_back(nullptr);
    execve(av[0], av.data(), ev.data());
    _exit(99);
  }
  int st = 0;
  bool stuck = false;
  unsigned idle = 0;  // how long nothing in the script's process group wanted to run
  for (unsigned ms = 0, step = 1; waitpid(pid, &st, WNOHANG) == 0; ms += step) {
    if (ms > 15000) idle = group_runs(pid) ? 0 : idle + step;
    if (idle > 15000 && !stuck) {
      stuck = true;
      kill(-pid, SIGKILL);
    }
    step = ms < 400 ? 2 : 20;
    usleep(step * 1000);
  }
  kill(-pid, SIGKILL);  // tools a killed script left behind
  if (stuck) x.fail("runs-away", "the script does not end");
  Result r;
  r.signaled = WIFSIGNALED(st);
  r.code = r.signaled ? WTERMSIG(st) : WEXITSTATUS(st);
  slurp(so, r.out);
  slurp(se, r.err);
  std::string q;
  slurp(plan, q);
  if (q.size() != sizeof r.s) _exit(kExitHarness);
  memcpy(&r.s, q.data(), sizeof r.s);
  if (!r.s.started) {
    fprintf(stdout, "HARNESS-ERROR: the interpreter did not start (%s)\n", r.status().c_str());
    fflush(stdout);
    _exit(kExitHarness);
  }
  w.each([&](const std::string& n) {
    if (n == "plan" || n == "h264nal" || n == "stdout" || n == "stderr" || n == "tmp" || n.compare(0, 4, "tmp/") == 0) return;
    for (auto& i : job.in)
      if ((i.name == n && !i.missing) || i.name.compare(0, n.size() + 1, n + "/") == 0) return;
    slurp(w.d + "/" + n, r.files[n]);
  });
  x.stats.add("op:execution");
  auto f = [&](const char* n, uint32_t v) {
    if (v) x.stats.add(std::string("fault:") + n, v);
  };
  f("input-open-error", r.s.fired_in_open);
  f("input-read-error", r.s.fired_in_err);
  f("input-short-read", r.s.fired_rd_short);
  f("input-interrupted-read", r.s.fired_rd_eintr);
  f("output-open-error", r.s.fired_out_open);
  f("output-write-error", r.s.fired_out_err);
  f("output-short-write", r.s.fired_wr_short);
  f("output-interrupted-write", r.s.fired_wr_eintr);
  f("output-close-error", r.s.fired_out_close);
  f("script-killed", r.s.fired_crash);
  f("diagnostics-error", r.s.fired_err);
  f("tool-fails", r.s.fired_child);
  f("tool-hangs", r.s.hang && r.s.fired_wait);
  x.sim_us += r.s.waited_ms * 1000;
  x.log.add(fmt("%s %016llx in %u/%llu out %u/%llu", r.status().c_str(), (unsigned long long)r.s.hash, r.s.in_opens,
                (unsigned long long)r.s.in_bytes, r.s.out_opens, (unsigned long long)r.s.out_bytes));
  // the scratch directory's name is the only thing that differs between repetitions
  std::string base = w.d.substr(w.d.rfind('/') + 1);
  auto plain = [&](std::string t) {
    for (size_t i; (i = t.find(base)) != std::string::npos;) t.replace(i, base.size(), "SCRATCH");
    return t;
  };
  for (auto& e : r.files) x.log.add(e.first + " " + fmt("%zu", e.second.size()) + " " + std::to_string(std::hash<std::string>()(plain(e.second))));
  if (job.script != "split") x.log.add(plain(r.out));
  if (r.signaled && (r.code == SIGXCPU || (r.code == SIGKILL && !r.s.fired_crash)))
    x.fail("runs-away", "the script does not end");
  if (r.signaled && !r.s.fired_crash) x.fail("crashed", "the script ended by " + r.status());
  for (auto& i : job.in) {
    if (i.missing || i.dir) continue;
    std::string now;
    slurp(w.d + "/" + i.name, now);
    if (now.size() != i.b.size() || memcmp(now.data(), i.b.data(), now.size())) x.fail("input-changed", "the script changed its input " + plain(i.name));
  }
  return r;
}

// ------------------------------------------------------------------ the model
struct Reading {
  std::vector<model::Unit> units;
  size_t missing = 0, unread = 0, unimpl = 0;
  int status = 0;  // of the tool
};
static Reading read_stream(const Bytes& b) {
  Reading r;
  Store st;
  for (auto& s : model::split_start_codes(b)) {
    model::Unit u = model::decode_unit(b.data() + s.off, s.len, st);
    u.offset = s.off;
    u.length = s.len;
    r.unimpl += (size_t)u.unimplemented;
    if (!u.reported) {
      r.missing++;
      continue;
    }
    if (!u.payload.parsed) r.unread++;
    r.units.push_back(u);
  }
  r.status = r.unimpl ? 2 : (r.unread || r.missing) ? 1 : 0;
  return r;
}
// the value of a field in a unit's text
static bool field(const std::string& t, const char* name, long long* v) {
  std::string k = std::string(" ") + name + ": ";
  size_t i = t.find(k);
  if (i == std::string::npos) return false;
  *v = strtoll(t.c_str() + i + k.size(), nullptr, 10);
  return true;
}

static std::string seg_name(const std::string& in, size_t i) {
  size_t dot = in.rfind('.');
  std::string base = in, ext;
  if (dot != std::string::npos && dot > 0) {
    base = in.substr(0, dot);
    ext = in.substr(dot);
  }
  return base + fmt(".%02zu", i) + ext;
}

// where the segments of a readable stream start
static std::vector<size_t> split_cuts(Ctx& x, const Bytes& b, const Reading& m) {
  std::vector<size_t> cuts{0};
  long long cw = -1, ch = -1;
  for (auto& u : m.units) {
    if (u.header.type != 7) continue;
    std::string t = " " + model::payload_text(u.payload);
    long long w, h;
    if (!field(t, "width", &w) || !field(t, "height", &h) || w < 0 || h < 0) continue;
    if (cw >= 0 && (w != cw || h != ch)) {
      size_t at = u.offset - 3;
      if (at > 0 && b[at - 1] == 0) at--;
      cuts.push_back(at);
    } else if (cw >= 0) {
      x.stats.add("probe:same-resolution-again");
    }
    cw = w;
    ch = h;
  }
  return cuts;
}
// segments of an earlier stream lie where the new ones will be
static void lay_stale(Ctx& x, Work& j) {
  const Bytes& b = j.in[0].b;
  Reading m = read_stream(b);
  if (m.status || b.empty() || !j.stale_how) return;
  auto cuts = split_cuts(x, b, m);
  if (cuts.size() == 1) return;
  cuts.push_back(b.size());
  for (size_t i = 0; i + 1 < cuts.size(); i++) {
    size_t n = cuts[i + 1] - cuts[i];
    if (j.stale_how == 2) n += 100;
    if (j.stale_how == 3) n /= 2;
    j.stale[seg_name(j.in[0].name, i + 1)] = std::string(n, 'o');
  }
  x.stats.add("probe:stale-segments");
}

static void check_split(Ctx& x, const Work& j, const Result& r) {
  const Bytes& b = j.in[0].b;
  Reading m = read_stream(b);
  bool bad = m.status != 0 || b.empty();
  if (bad) {
    if (r.ok()) x.fail("split-status", fmt("the stream has units that cannot be read (tool status %d), but the script reports success", m.status));
    if (!r.files.empty()) x.fail("split-status", "segments of a stream that could not be read");
    x.stats.add("probe:unreadable-stream");
    return;
  }
  std::vector<size_t> cuts = split_cuts(x, b, m);
  if (!r.ok()) x.fail("split-status", "the script fails on a readable stream: " + r.status());
  if (cuts.size() == 1) {
    if (!r.files.empty()) x.fail("split-place", fmt("the resolution never changes, but there are %zu segments", r.files.size()));
    return;
  }
  x.stats.add("probe:stream-split");
  if (cuts.size() > 100) x.stats.add("probe:over-99-segments");
  cuts.push_back(b.size());
  std::string all;
  for (size_t i = 0; i + 1 < cuts.size(); i++) {
    auto it = r.files.find(seg_name(j.in[0].name, i + 1));
    if (it == r.files.end()) x.fail("split-place", fmt("segment %zu of %zu is missing", i + 1, cuts.size() - 1));
    if (it->second != std::string((const char*)b.data() + cuts[i], cuts[i + 1] - cuts[i]))
      x.fail("split-place", fmt("segment %zu has %zu bytes, expected bytes %zu to %zu of the stream", i + 1, it->second.size(), cuts[i], cuts[i + 1]));
    all += it->second;
  }
  if (r.files.size() != cuts.size() - 1) x.fail("split-place", fmt("%zu segments instead of %zu", r.files.size(), cuts.size() - 1));
}

static std::vector<std::vector<std::string>> read_csv(const std::string& s) {
  std::vector<std::vector<std::string>> rows;
  std::vector<std::string> row;
  std::string f;
  bool q = false;
  for (size_t i = 0; i < s.size(); i++) {
    char c = s[i];
    if (q) {
      if (c == '"' && i + 1 < s.size() && s[i + 1] == '"') {
        f += c;
        i++;
      } else if (c == '"') {
        q = false;
      } else {
        f += c;
      }
    } else if (c == '"') {
      q = true;
    } else if (c == ',' || c == '\n') {
      row.push_back(f);
      f.clear();
      if (c == '\n') {
        rows.push_back(row);
        row.clear();
      }
    } else if (c != '\r') {
      f += c;
    }
  }
  if (!f.empty() || !row.empty()) {
    row.push_back(f);
    rows.push_back(row);
  }
  return rows;
}
static void add_unique(std::string& s, const std::string& v) {
  if ((";" + s + ";").find(";" + v + ";") != std::string::npos) return;
  s += (s.empty() ? "" : ";") + v;
}

static void check_summary(Ctx& x, const Work& j, const std::string& csv, bool child_faults, const std::string& where) {
  auto bad = [&](const char* cls, const std::string& m) { x.fail(cls, plain(m)); };
  auto rows = read_csv(csv);
  static const std::vector<std::string> head{"input_dir", "input_file", "resolution", "profile", "level", "number_of_nalus",
                                             "number_of_slice_nalus", "number_of_slice_header_nalus", "h264nal_status", "slice_header_status"};
  if (rows.empty() || rows[0] != head) bad("summary-head", where + ": the summary has no heading");
  size_t n = 1;
  for (auto& i : j.in) {
    if (i.dir) continue;
    if (n >= rows.size()) bad("summary-rows", where + ": no row for " + i.name);
    auto& r = rows[n++];
    size_t sl = i.name.rfind('/');
    if (r.size() != head.size() || r[1] != i.name.substr(sl + 1) || (sl != std::string::npos && r[0] != i.name.substr(0, sl))) bad("summary-rows", where + ": the row for " + i.name + " is not in its place");
    bool faulty = child_faults && (j.noexec || i.child.mode);
    if (faulty || i.missing || i.b.empty()) {
      if (r[8] == "0") bad("summary-status", where + ": " + i.name + " is shown as fine although the tool did not read it");
      x.stats.add(faulty ? "probe:row-of-failed-tool" : "probe:row-of-missing-file");
      if (!faulty && (r[5] != "0" || r[6] != "0" || r[7] != "0" || !r[2].empty()))
        bad("summary-row", where + ": numbers for " + i.name + ", which cannot be read");
      continue;
    }
    Reading m = read_stream(i.b);
    std::string res, prof, lev;
    size_t slices = 0, headers = 0;
    for (auto& u : m.units) {
      uint32_t t = u.header.type;
      if (t == 1 || t == 5 || t == 20) {
        slices++;
        headers += u.payload.parsed;
      }
      std::string s = " " + model::payload_text(u.payload);
      if ((t == 7 || t == 15) && u.payload.parsed) {
        long long w = 0, h = 0, p = 0, l = 0, c3 = 0;
        field(s, "width", &w);
        field(s, "height", &h);
        field(s, "profile_idc", &p);
        field(s, "level_idc", &l);
        field(s, "constraint_set3_flag", &c3);
        add_unique(res, fmt("%lldx%lld", w, h));
        size_t a = s.find(" profile: "), e = s.find(" level_idc:");
        if (a != std::string::npos && e != std::string::npos) add_unique(prof, s.substr(a + 10, e - a - 10));
        bool high = p == 44 || p == 100 || p == 110 || p == 122 || p == 244;
        add_unique(lev, (high ? l == 9 : l == 11 && c3 == 1) ? std::string("1b") : fmt("%lld.%lld", l / 10, l % 10));
      }
    }
    auto cmp = [&](size_t k, const std::string& want) {
      if (r[k] != want) bad("summary-row", where + ": " + i.name + " " + head[k] + ": expected " + want + " got " + r[k].substr(0, 200));
    };
    cmp(2, res);
    cmp(3, prof);
    cmp(4, lev);
    cmp(5, fmt("%zu", m.units.size()));
    cmp(6, fmt("%zu", slices));
    cmp(7, fmt("%zu", headers));
    if (m.status && r[8] == "0") bad("summary-status", where + ": " + i.name + fmt(" is shown as fine, but the tool's status is %d", m.status));
    static const char* reason[] = {"", "invalid bitstream", "unimplemented syntax"};
    if (m.status && r[8].find(reason[m.status]) == std::string::npos)
      bad("summary-status", where + ": " + i.name + " status says " + r[8].substr(0, 200) + ", expected " + reason[m.status]);
    if (!m.status && r[8] != "0" && r[8].find("h264nal") == 0) bad("summary-status", where + ": " + i.name + " is fine but shown as " + r[8].substr(0, 200));
    if ((r[9] == "0") != (slices == headers)) bad("summary-row", where + ": " + i.name + " slice header status " + r[9]);
    x.stats.add(fmt("probe:row-status-%d", m.status));
  }
  if (n != rows.size()) bad("summary-rows", where + fmt(": %zu rows for %zu files", rows.size() - 1, n - 1));
}

static void check_dpb(Ctx& x, const Work& j, const Result& r, const std::string& csv) {
  Reading m = read_stream(j.in[0].b);
  bool bad = m.status != 0 || j.in[0].b.empty() || j.in[0].missing, has_sps = false;
  std::vector<const model::Unit*> pics;
  for (auto& u : m.units) {
    has_sps |= u.header.type == 7;
    if ((u.header.type == 1 || u.header.type == 5) && u.payload.parsed && u.payload.slice.first_mb == 0) pics.push_back(&u);
  }
  if (bad) {
    if (r.ok()) x.fail("dpb-status", "the stream cannot be read, but the script reports success");
    return;
  }
  if (!r.ok()) {
    if (has_sps) x.fail("dpb-status", "the script fails on a readable stream: " + r.status() + " " + (r.err.size() > 200 ? r.err.substr(r.err.size() - 200) : r.err));
    return;
  }
  auto rows = read_csv(csv);
  if (rows.size() != pics.size() + 1) x.fail("dpb-rows", fmt("%zu rows for %zu pictures", rows.empty() ? 0 : rows.size() - 1, pics.size()));
  for (size_t i = 0; i < pics.size(); i++) {
    auto& w = rows[i + 1];
    auto& u = *pics[i];
    if (w.size() != 11 || w[0] != fmt("%zu", i) || w[4] != fmt("%u", u.payload.slice.frame_num) || w[5] != fmt("%u", u.header.ref_idc) ||
        (w[3] == "IDR") != (u.header.type == 5) || w[6] != (u.header.ref_idc ? "Y" : "N"))
      x.fail("dpb-rows", fmt("row %zu does not show picture %zu", i, i));
  }
  x.stats.add("probe:pictures-listed", pics.size());
}

// every column of the listing against the marking process
static void check_marking(Ctx& x, const Work& j, const Result& r, const std::string& csv) {
  Reading m = read_stream(j.in[0].b);
  if (m.status || !r.ok()) return;
  auto rows = read_csv(csv);
  RefBuffer b;
  size_t i = 0, gop = 0, in_gop = 0, left_out = 0;
  auto sorted = [](std::string s) {
    std::vector<std::string> v;
    for (size_t e; !s.empty(); s = e == std::string::npos ? "" : s.substr(e + 1)) v.push_back(s.substr(0, e = s.find(';')));
    std::sort(v.begin(), v.end());
    std::string o;
    for (auto& t : v) o += (o.empty() ? "" : ";") + t;
    return o;
  };
  auto text = [&](const std::vector<Ref>& v) {
    std::string o;
    for (auto& t : v) o += (o.empty() ? "" : ";") + t.text();
    return o;
  };
  for (auto& u : m.units) {
    const model::SliceFacts& f = u.payload.slice;
    if ((u.header.type != 1 && u.header.type != 5) || !u.payload.parsed || f.first_mb != 0) continue;
    bool idr = u.header.type == 5;
    if (idr && i) gop++;
    if (idr) in_gop = 0;
    const auto& w = rows[i + 1];
    auto cmp = [&](size_t k, const char* what, const std::string& want) {
      std::string got = k == 8 || k == 10 ? sorted(w[k]) : w[k];
      if (got != want) x.fail("marking", fmt("picture %zu (frame_num %u), %s: expected ", i, f.frame_num, what) + want + " got " + got.substr(0, 300));
    };
    static const char* types[] = {"P", "B", "I", "SP", "SI"};
    cmp(1, "sequence", fmt("%zu", gop));
    cmp(2, "place in the sequence", fmt("%zu", in_gop++));
    cmp(3, "type", idr ? "IDR" : types[f.slice_type % 5]);
    b.before(f, idr);
    bool was = b.defined;
    std::vector<Ref> l;
    if (was) cmp(8, "references before", sorted(text(b.e)));
    if (was && (f.slice_type % 5 == 0 || f.slice_type % 5 == 3)) {
      if (b.list0(f, &l)) cmp(7, "references used", text(l));
      else x.stats.add("probe:names-a-lost-reference");
    }
    if (f.slice_type % 5 == 2) cmp(7, "references used", "");
    std::string say = b.mark(f, idr, u.header.ref_idc != 0);
    if (was) cmp(9, "marking", say);
    if (b.defined) cmp(10, "references after", sorted(text(b.e)));
    left_out += !b.defined;
    for (uint32_t op : f.op)
      if (op) x.stats.add(fmt("probe:mmco-%u", op));
    if (!f.mod.empty()) x.stats.add("probe:list-modified");
    i++;
  }
  x.stats.add("probe:pictures-marked", i - left_out);
  x.stats.add("probe:pictures-left-out", left_out);
}

// ------------------------------------------------------------------ executing
static Work read_work(const Lines& l, Ctx& x) {
  Work w;
  for (auto& line : l) {
    Op o(line);
    count_op(x, o);
    if (o[0] == "script") w.script = o[1];
    else if (o[0] == "check") w.marking = o[1] == "marking";
    else if (o[0] == "opt") for (size_t i = 1; i < o.size(); i++) w.opts.push_back(o[i]);
    else if (o[0] == "file" && w.in.size() < scr::kFiles) {
      w.in.push_back(Input());
      w.in.back().name = unplain(o[1]);
      w.in.back().missing = o[2] == "missing";
      w.in.back().dir = o[2] == "dir";
    } else if (o[0] == "data" && !w.in.empty()) {
      Bytes b = unhex(o[1]);
      w.in.back().b.insert(w.in.back().b.end(), b.begin(), b.end());
    } else if (o[0] == "tool" && !w.in.empty()) {
      scr::Child& c = w.in.back().child;
      c.mode = (uint32_t)o.num(1);
      c.arg = (uint32_t)o.num(2);
      c.keep = (uint64_t)o.num(3);
      c.chunk = (uint32_t)o.num(4);
    } else if (o[0] == "stale") {
      w.stale_how = (int)o.num(1);
    } else if (o[0] == "noexec") {
      w.noexec = true;
    } else if (o[0] == "outfile") {
      w.outfile = true;
      w.preexisting = o.num(1);
    } else if (o[0] == "plan") {
      std::map<std::string, uint64_t> m;
      for (size_t i = 1; i < o.size(); i++) {
        size_t e = o[i].find('=');
        if (e != std::string::npos) m[o[i].substr(0, e)] = strtoull(o[i].c_str() + e + 1, nullptr, 10);
      }
      w.plans.push_back(m);
    }
  }
  for (auto& i : w.in) i.missing |= i.dir;
  return w;
}
static bool tool_faulty(const Work& w) {
  for (auto& i : w.in)
    if (i.child.mode || i.child.chunk) return true;
  return w.noexec;
}
static bool tool_fails(const Work& w) {
  for (auto& i : w.in)
    if (i.child.mode) return true;
  return w.noexec;
}

static void exec_scripts(const Lines& l, Ctx& x) {
  Work w = read_work(l, x);
  if (w.in.empty() || w.script.empty()) return;
  if (w.script == "split") lay_stale(x, w);
  Scratch sc;
  std::map<std::string, uint64_t> none;
  auto csv = [&](const Result& r) -> std::string {
    if (!w.outfile) return r.out;
    auto it = r.files.find("out.csv");
    return it == r.files.end() ? "" : it->second;
  };
  Result ref = run_script(x, sc, w, none, false);
  if (w.script == "split") {
    check_split(x, w, ref);
  } else if (w.script == "summary") {
    if (!ref.ok()) x.fail("summary-fails", "the summary script fails: " + ref.status());
    check_summary(x, w, csv(ref), false, "fault-free");
  } else {
    check_dpb(x, w, ref, csv(ref));
    if (w.marking) check_marking(x, w, ref, csv(ref));
  }
  if (tool_faulty(w)) {
    Result r = run_script(x, sc, w, none, true);
    if (w.script == "summary") {
      if (!r.ok()) x.fail("summary-fails", "the summary script fails when the tool does: " + r.status());
      check_summary(x, w, csv(r), true, "failing tool");
    } else if (!tool_fails(w)) {
      if (!r.same(ref)) x.fail("harmless-fault", "output in pieces changes the result from " + ref.status() + " to " + r.status());
    } else if (r.ok() && !r.same(ref)) {
      x.fail("tool-failure-hidden", "the tool failed, but the script reports success with another result");
    } else {
      x.stats.add("probe:tool-failure-reported");
    }
  }
  size_t n = 0;
  for (auto& p : w.plans) {
    std::string where = fmt("plan %zu", ++n);
    Result r = run_script(x, sc, w, p, false);
    bool harmless = true;
    for (auto& e : p) harmless &= e.first == "in-chunk" || e.first == "in-eintr" || e.first == "out-chunk" || e.first == "out-eintr";
    if (harmless && !r.same(ref)) x.fail("harmless-fault", where + ": short or interrupted calls change the result from " + ref.status() + " to " + r.status());
    if (r.ok() && !r.same(ref)) x.fail("output-lost", where + ": success is reported for a result that is not complete");
    x.stats.add(r.ok() ? "probe:fault-survived" : "probe:error-reported");
    if (r.s.fired_crash) {
      // what the killed script left behind does not matter to the next one
      Result again = run_script(x, sc, w, none, false, true);
      if (!again.has(ref)) x.fail("restart-differs", where + ": run again after being killed, the script gives another result: " + again.status());
      x.stats.add("probe:run-again-after-kill");
    }
  }
}

// ------------------------------------------------------------------ generating
static void gen_file(Rng& r, Lines& l, bool damage_it, bool change, size_t n, Sender& s) {
  std::vector<Bytes> seen;
  Store st;  // intact streams hold only what can be read
  auto readable = [&](const Bytes& b) {
    Store t = st;
    model::Unit u = model::decode_unit(b.data(), b.size(), t);
    if (!u.reported || !u.payload.parsed || u.unimplemented) return false;
    st = t;
    return true;
  };
  if (r.chance(1, 8)) l.push_back("data " + hex(Bytes((size_t)r.below(4), 0)));
  for (size_t i = 0; i < n; i++) {
    Nal u;
    // an SPS now and then, so that the resolution changes or is repeated
    if (change && r.chance(1, 3)) {
      for (int t = 0; t < 60; t++) {
        u = s.next();
        if (u.type == 7) break;
      }
    } else {
      u = s.next();
    }
    Bytes b = u.b;
    if (!seen.empty() && r.chance(1, 8)) b = seen[r.below(seen.size())];
    std::string f;
    if (damage_it && r.chance(1, 6)) f = " ~" + damage(b, r, seen.empty() ? nullptr : &seen.back());
    else if (!damage_it && !readable(b)) continue;
    seen.push_back(b);
    Bytes o;
    for (uint64_t z = r.chance(1, 10) ? r.below(4) : r.below(2); z--;) o.push_back(0);
    o.insert(o.end(), {0, 0, 1});
    o.insert(o.end(), b.begin(), b.end());
    if (r.chance(1, 10))
      for (uint64_t z = r.below(5); z--;) o.push_back(0);
    l.push_back("data " + hex(o) + f);
  }
}
static unsigned pk(Rng& r, std::initializer_list<int> v) { return (unsigned)*(v.begin() + (long)r.below(v.size())); }
static void gen_tool(Rng& r, Lines& l, bool hang) {
  switch (r.below(hang ? 5 : 4)) {
    case 0: l.push_back(fmt("tool 0 0 0 %u", pk(r, {1, 7, 100, 4096}))); break;
    case 1:
    case 2: l.push_back(fmt("tool 1 %u %u %u", pk(r, {SIGKILL, SIGSEGV, SIGABRT, SIGTERM, SIGPIPE}), (unsigned)(r.chance(1, 3) ? 0 : r.chance(1, 3) ? 100000000 : r.below(4000)), r.chance(1, 4) ? 50u : 0u)); break;
    case 3: l.push_back(fmt("tool 2 %u %u 0", pk(r, {1, 2, 3, 127, 255}), (unsigned)(r.chance(1, 3) ? 0 : r.chance(1, 3) ? 100000000 : r.below(4000)))); break;
    default: l.push_back(fmt("tool 3 0 %u 0", (unsigned)r.below(3000)));
  }
}
static void gen_plans(Rng& r, Lines& l, bool reads_input, size_t size, size_t n) {
  auto at = [&](size_t len) -> unsigned long long {
    return r.chance(1, 4) ? 0 : r.chance(1, 4) ? len : r.chance(1, 4) ? 4096 * r.below(len / 4096 + 1) : r.below(len + 1);
  };
  while (n--) {
    std::string p = "plan";
    switch (r.below(reads_input ? 10 : 7)) {
      case 0: p += fmt(" out-chunk=%u", pk(r, {1, 13, 512, 4095})); break;
      case 1: p += fmt(" out-eintr=%llu", (unsigned long long)(r.next() & r.next())); break;
      case 2:
      case 3: p += fmt(" out-err=%u out-err-at=%llu out-err-times=%u", pk(r, {ENOSPC, ENOSPC, EIO, EDQUOT, EFBIG, EAGAIN}), at(size), pk(r, {1, 1, 100000})); break;
      case 4: p += fmt(" out-open=%u out-open-nth=%u", pk(r, {EACCES, ENOSPC, EROFS, EMFILE}), 1 + (unsigned)r.below(3)); break;
      case 5: p += fmt(" out-close=%u out-close-nth=%u", pk(r, {EIO, ENOSPC, EDQUOT}), 1 + (unsigned)r.below(3)); break;
      case 6: p += fmt(" crash-at=%u crash-part=%u", 1 + (unsigned)r.below(8), (unsigned)r.below(200)); break;
      case 7: p += fmt(" in-err=%u in-err-at=%llu", pk(r, {EIO, ESTALE, EBADF}), at(size)); break;
      case 8: p += fmt(" in-chunk=%u", pk(r, {1, 100, 4095})); break;
      default: p += fmt(" in-open=%u", pk(r, {EACCES, EIO, ENOENT, EMFILE}));
    }
    if (r.chance(1, 12)) p += fmt(" err=%u", pk(r, {EIO, ENOSPC}));
    l.push_back(p);
  }
}
static size_t data_size(const Lines& l) {
  size_t n = 0;
  for (auto& s : l)
    if (s.compare(0, 5, "data ") == 0) n += s.size() / 2;
  return n;
}

static Lines gen_split(uint64_t seed) {
  Rng r(seed);
  Lines l{"script split"};
  if (r.chance(1, 6)) l.push_back("opt -d");
  static const char* names[] = {"f.264", "f.h264", "f", "f.a.264", "f..264", "f.264%20", "f%0A"};
  l.push_back(std::string("file ") + (r.chance(1, 10) ? kOdd[r.below(sizeof kOdd / sizeof *kOdd)] : "") + names[r.chance(2, 3) ? 0 : r.below(7)]);
  Sender s(r.next());
  s.k.damage_pm = 0;
  s.k.weight[kSps] = 4;
  if (!r.chance(1, 4)) s.k.sizes = 1 + (int)r.below(3);
  if (r.chance(3, 4)) s.k.weight[kSubset] = s.k.weight[kSliceExt] = s.k.weight[kPrefix] = 0;
  bool many = r.chance(1, 60);
  gen_file(r, l, r.chance(1, 6), !r.chance(1, 8), many ? 250 + (size_t)r.below(150) : r.chance(1, 30) ? 0 : 1 + (size_t)r.below(r.chance(1, 3) ? 40 : 12), s);
  if (r.chance(1, 3)) gen_tool(r, l, false);
  if (r.chance(1, 25)) l.push_back("noexec");
  if (r.chance(1, 3)) l.push_back(fmt("stale %u", 1 + (unsigned)r.below(3)));
  gen_plans(r, l, true, data_size(l), 1 + (size_t)r.below(3));
  return l;
}
static Lines gen_summary(uint64_t seed) {
  Rng r(seed);
  bool dpb = r.chance(1, 3);
  Lines l{dpb ? "script dpb" : "script summary"};
  if (!dpb && r.chance(1, 2)) l.push_back("opt -q");
  bool timed = !dpb && r.chance(1, 2);
  if (timed) l.push_back(fmt("opt --timeout %u", pk(r, {1, 2, 3})));
  // results beyond the size of the interpreter's buffers, now and then
  bool large = r.chance(1, 25);
  size_t files = dpb ? 1 : large ? 35 + (size_t)r.below(60) : 1 + (size_t)r.below(4);
  bool any_damage = r.chance(1, dpb ? 5 : 2);
  bool dirs = !dpb && r.chance(1, 3);  // the same names in different directories
  std::set<std::string> used;
  for (size_t i = 0; i < files; i++) {
    const char* odd = kOdd[r.chance(1, 6) ? r.below(sizeof kOdd / sizeof *kOdd) : 0];
    std::string h = fmt("file f%zu", i);
    if (dirs) h = fmt("file %c/f%u", "ab"[r.below(2)], (unsigned)r.below(2));
    h += odd + std::string(".264");
    if (!used.insert(h).second) continue;
    if (r.chance(1, 15)) {
      l.push_back(h + (r.chance(1, 2) && !dpb ? " dir" : " missing"));
      continue;
    }
    l.push_back(h);
    Sender s(r.next());
    if (!any_damage) s.k.damage_pm = 0;
    if (dpb) {
      s.k.weight[kSps] = std::max(1, s.k.weight[kSps]);
      s.k.weight[kSlice] = 10;
      s.k.weight[kSubset] = s.k.weight[kSliceExt] = s.k.weight[kPrefix] = 0;
    }
    gen_file(r, l, any_damage && r.chance(1, 2), false, r.chance(1, 15) ? 0 : 1 + (size_t)r.below(large ? (dpb ? 1500 : 3) : dpb ? 40 : 12), s);
    if (r.chance(timed ? 2 : 1, 4)) gen_tool(r, l, timed);
  }
  if (r.chance(1, 30)) l.push_back("noexec");
  if (r.chance(1, 2)) l.push_back(fmt("outfile %u", (unsigned)r.below(2)));
  gen_plans(r, l, false, dpb ? (large ? 10000 : 1000) : 100 * (files + 1), 1 + (size_t)r.below(2));
  return l;
}

// An encoder's stream, stored by a receiver that lost some of it.
static Lines gen_marking(uint64_t seed) {
  Rng r(seed);
  Encoder e(r.next());
  Lines l{"script dpb", "check marking", "file f.264"};
  auto put = [&](const Bytes& b, const char* note) {
    Bytes o{0, 0, 1};
    if (r.chance(1, 3)) o.insert(o.begin(), 0);
    o.insert(o.end(), b.begin(), b.end());
    l.push_back("data " + hex(o) + note);
  };
  unsigned loss = r.chance(1, 2) ? 0 : 10 + (unsigned)r.below(150);
  unsigned sets = r.chance(1, 2) ? 20 : 150;
  put(e.define_sps(), "");
  while (!e.ready()) put(e.define_pps(), "");
  for (size_t n = 5 + (size_t)r.below(r.chance(1, 10) ? 400 : 60); n--;) {
    if (r.below(1000) < sets) {
      Bytes b = r.chance(1, 3) ? e.define_sps() : r.chance(1, 2) ? e.define_pps() : e.repeat();
      put(b, "");
      while (!e.ready()) put(e.define_pps(), "");
    }
    auto v = e.picture();
    if (r.below(1000) < loss) {
      bool whole = r.chance(1, 2);
      for (size_t i = whole ? v.size() : 1; i < v.size(); i++) put(v[i], "");
      l.push_back(whole ? "lost ~picture-loss" : "lost ~slice-loss");
      continue;
    }
    for (size_t i = 0; i < v.size(); i++) {
      put(v[i], "");
      if (i && r.chance(1, 20)) put(v[i], " ~duplicate-slice");
    }
  }
  if (r.chance(1, 4)) l.push_back(fmt("outfile %u", (unsigned)r.below(2)));
  if (r.chance(1, 5)) gen_plans(r, l, false, r.chance(1, 2) ? 10000 : 3000, 1);
  return l;
}

static Lines shrink_script(const std::string& line) {
  Op o(line);
  if (o[0] == "data") return shrink_hex_line(line);
  Lines out;
  if (o[0] == "plan" && o.size() > 2)
    for (size_t i = 1; i < o.size(); i++) {
      std::string s = "plan";
      for (size_t k = 1; k < o.size(); k++)
        if (k != i) s += " " + o[k];
      out.push_back(s);
    }
  return out;
}

void add_script_worlds() {
  char b[4096];
  ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1);
  if (n <= 0) exit(kExitHarness);
  g_bin.assign(b, (size_t)n);
  g_bin = g_bin.substr(0, g_bin.rfind('/'));
  const char* r = getenv("SIM_REPO");
  g_repo = r && *r ? r : "/repo";
  worlds().push_back({"split", gen_split, exec_scripts, shrink_script});
  worlds().push_back({"marking", gen_marking, exec_scripts, shrink_script});
  worlds().push_back({"summary", gen_summary, exec_scripts, shrink_script});
}

}  // namespace sim
