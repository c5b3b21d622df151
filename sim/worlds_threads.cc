// Several sessions at once on real threads, one running at a time, switched at
// seeded points inside the library.
#include "deep.h"
#include "facts.h"
#include "session.h"
#include "simsched.h"

namespace sim {
namespace {

std::string dump_in(const std::function<void(FILE*)>& f) {
  char* p = nullptr;
  size_t n = 0;
  FILE* m = open_memstream(&p, &n);
  {
    InLib in;
    f(m);
  }
  fclose(m);
  std::string s = norm(p, n);
  free(p);
  return s;
}

// A session and what it has reported so far.
struct Worker {
  std::unique_ptr<LibState> st;
  std::vector<std::string> out;
  std::vector<std::unique_ptr<LibUnit>> units;  // kept reports
  std::vector<std::unique_ptr<LibStream>> streams;
  std::vector<std::unique_ptr<LibRtp>> rtps;

  void step(const std::string& kind, const Bytes& b) {
    if (kind == "drop") {
      InLib in;
      st.reset();
      return;
    }
    if (!st) {
      InLib in;
      st.reset(new LibState);
    }
    Exact e(b);
    if (kind == "nal" || kind == "raw") {
      std::unique_ptr<LibUnit> r;
      {
        InLib in;
        r = kind == "raw" ? h264nal::H264NalUnitParser::ParseNalUnitUnescaped(e.p, e.n, st.get(), all_options())
                          : h264nal::H264NalUnitParser::ParseNalUnit(e.p, e.n, st.get(), all_options());
      }
      out.push_back(r ? dump_in([&](FILE* f) { r->fdump(f, -1, all_options()); }) : "none");
      if (r) out.push_back(deep_text(*r));
      if (r) out.push_back(facts<InLib>(*r));
      if (r) units.push_back(std::move(r));
    } else if (kind == "rtp") {
      std::unique_ptr<LibRtp> r;
      {
        InLib in;
        r = h264nal::H264RtpParser::ParseRtp(e.p, e.n, st.get());
      }
      out.push_back(r ? dump_in([&](FILE* f) { r->fdump(f, -1, all_options()); }) : "none");
      if (r) out.push_back(deep_text(*r));
      if (r) out.push_back(facts<InLib>(*r));
      if (r) rtps.push_back(std::move(r));
    } else if (kind == "stream" || kind == "len") {
      std::unique_ptr<LibStream> r;
      h264nal::ParsingOptions o = all_options();
      o.add_checksum = true;
      {
        InLib in;
        r = kind == "len" ? h264nal::H264BitstreamParser::ParseBitstreamNALULength(
                                e.p, e.n, 2, st.get(), o)
                          : h264nal::H264BitstreamParser::ParseBitstream(e.p, e.n, st.get(), o);
      }
      out.push_back(r ? dump_in([&](FILE* f) { r->fdump(f, -1, o); }) : "none");
      if (r) out.push_back(facts<InLib>(*r));
      if (r) streams.push_back(std::move(r));
    } else if (kind == "final") {
      for (auto& r : units)
        out.push_back(dump_in([&](FILE* f) { r->fdump(f, -1, all_options()); }));
      for (auto& r : rtps)
        out.push_back(dump_in([&](FILE* f) { r->fdump(f, -1, all_options()); }));
      if (st) {
        out.push_back(deep_text(*st));
        auto all = [&](auto& m, auto dump) {
          std::vector<uint32_t> ids;
          for (auto& k : m) ids.push_back((uint32_t)k.first);
          std::sort(ids.begin(), ids.end());
          for (uint32_t id : ids) {
            auto& v = *m.find(id)->second;
            out.push_back(fmt("%u ", id) + dump_in([&](FILE* f) { dump(v, f); }));
          }
        };
        all(st->sps, [](auto& v, FILE* f) { v.fdump(f, -1, all_options()); });
        all(st->pps, [](auto& v, FILE* f) { v.fdump(f, -1); });
        all(st->subset_sps, [](auto& v, FILE* f) { v.fdump(f, -1, all_options()); });
      }
      InLib in;
      units.clear();
      rtps.clear();
      streams.clear();
      st.reset();
    }
  }
};

struct Step {
  int thread;
  long session;
  std::string kind;
  Bytes b;
};

// What the session reports when it is the only one in the process.
bool alone(const std::vector<Step>& steps, long session, std::vector<std::string>* out) {
  int pp[2];
  if (pipe(pp)) _exit(kExitHarness);
  pid_t p = fork();
  if (p == 0) {
    close(pp[0]);
    size_t total = 0;
    for (auto& s : steps) total += s.b.size();
    cover().steps = 0;
    cover().budget = 50000000ull + 100000ull * total;
    Worker w;
    for (auto& s : steps)
      if (s.session == session) w.step(s.kind, s.b);
    w.step("final", {});
    FILE* o = fdopen(pp[1], "w");
    for (auto& s : w.out) {
      fputs(s.c_str(), o);
      fputc('\n', o);
    }
    fclose(o);
    _exit(0);
  }
  close(pp[1]);
  FILE* in = fdopen(pp[0], "r");
  char* b = nullptr;
  size_t n = 0;
  ssize_t k;
  while ((k = getline(&b, &n, in)) > 0) out->push_back(std::string(b, (size_t)k - 1));
  free(b);
  fclose(in);
  int st = 0;
  while (waitpid(p, &st, 0) < 0) {
  }
  return WIFEXITED(st) && WEXITSTATUS(st) == 0;
}

Preempt parse_pre(const Op& o) {
  Preempt p;
  p.thread = (int)o.num(1);
  p.call = o.num(2);
  p.step = strtoull(o[3].c_str(), nullptr, 10);
  p.to = (int)o.num(4);
  p.hold = (int)o.num(5);
  p.repeat = strtoull(o[6].c_str(), nullptr, 10);
  p.kind = (int)o.num(7);
  return p;
}

// Preemption lines for a run with `threads` threads of about `calls` calls each.
void gen_pre(Rng& r, int threads, int calls, Lines& l) {
  int style = (int)r.below(5);
  int n = style == 0 ? 0 : 1 + (int)r.below(style == 1 ? 4 : 16);
  for (int i = 0; i < n; i++) {
    int th = (int)r.below((uint64_t)threads);
    int kind = style == 3 || r.chance(1, 4) ? 1 : 0;
    uint64_t step = kind ? 1 + r.below(r.chance(1, 2) ? 4 : 60)
                         : 1 + r.below(1ull << (2 + r.below(13)));
    int hold = r.chance(1, 2) ? 0 : (int)r.below(6);
    uint64_t rep = 0;
    if (style == 4 || r.chance(1, 6)) rep = kind ? 1 + r.below(3) : 20 + r.below(1ull << (3 + r.below(9)));
    int to = (int)r.below((uint64_t)threads);
    if (to == th) to = (to + 1) % threads;
    l.push_back(fmt("pre %d %d %llu %d %d %llu %d ~preempt", th,
                    (int)r.below((uint64_t)calls), (unsigned long long)step, to, hold,
                    (unsigned long long)rep, kind));
  }
}

void sched_stats(Ctx& x, const SchedResult& r) {
  x.sim_us += r.steps;  // one step is taken as a microsecond
  x.stats.add("sched:steps", r.steps);
  x.stats.add("sched:accesses-checked", r.accesses);
  x.stats.add("sched:global-touches", r.globals);
  x.stats.add("fault:preemption-fired", r.fired);
  x.stats.add("fault:thread-switch", r.switches);
  x.log.add(fmt("steps %llu switches %llu trace %llx", (unsigned long long)r.steps,
                (unsigned long long)r.switches, (unsigned long long)r.trace));
  if (!r.race.empty()) x.fail("data-race", r.race);
  if (r.stuck) x.fail("stuck", "the threads cannot make progress");
}

// ================================================================= threads
Lines gen_threads(uint64_t seed) {
  Rng r(seed);
  int threads = 2 + (int)r.below(3);
  Lines l;
  std::vector<std::vector<std::string>> per;
  int session = 0;
  int longest = 1;
  for (int t = 0; t < threads; t++) {
    std::vector<std::string> prog;
    int ns = r.chance(1, 3) ? 2 : 1;
    std::vector<Sender> snd;
    for (int s = 0; s < ns; s++) snd.emplace_back(r.next());
    if (t && r.chance(1, 3)) {
      // the same workload twice: the same code at the same time
      snd[0].r = Rng(seed ^ 77);
      snd[0].k = draw_knobs(snd[0].r);
    }
    int n = 1 + (int)r.below(8);
    // one session after the other, the second where the first was
    bool relay = ns == 2 && n > 1 && r.chance(1, 2);
    for (int i = 0; i < n; i++) {
      int s = relay ? i >= (n + 1) / 2 : (int)r.below((uint64_t)ns);
      std::string head = fmt("t %d %d ", t, session + s);
      if (relay && i == (n + 1) / 2) prog.push_back(fmt("t %d %d drop ~session-ends", t, session));
      if (r.chance(1, 40)) {
        prog.push_back(head + "drop ~session-restart");
        continue;
      }
      if (r.chance(1, 5)) {
        std::vector<Bytes> u;
        for (int k = 1 + (int)r.below(4); k--;) u.push_back(snd[(size_t)s].next().b);
        if (r.chance(1, 3)) {
          Bytes o;
          for (auto& b : u) {
            o.push_back((uint8_t)(b.size() >> 8));
            o.push_back((uint8_t)b.size());
            o.insert(o.end(), b.begin(), b.end());
          }
          prog.push_back(head + "len " + hex(o));
        } else {
          prog.push_back(head + "stream " + hex(annexb(u, r)));
        }
        continue;
      }
      std::vector<Bytes> u{snd[(size_t)s].next().b};
      std::string f;
      if (r.chance(1, 12)) f = " ~" + damage(u[0], r);
      bool rtp = r.chance(1, 3) && !u[0].empty();
      while (rtp && r.chance(1, 4)) u.push_back(snd[(size_t)s].next().b);
      prog.push_back(head + (rtp ? "rtp " : r.chance(1, 10) ? "raw " : "nal ") +
                     hex(rtp ? packet_of(u, r) : u[0]) + f);
    }
    longest = std::max(longest, n);
    session += ns;
    per.push_back(prog);
  }
  gen_pre(r, threads, longest, l);
  // a seeded merge of the programs is the order without preemptions
  std::vector<size_t> pos(per.size());
  for (;;) {
    std::vector<size_t> can;
    for (size_t i = 0; i < per.size(); i++)
      if (pos[i] < per[i].size()) can.push_back(i);
    if (can.empty()) break;
    size_t i = can[r.below(can.size())];
    l.push_back(per[i][pos[i]++]);
  }
  return l;
}

void exec_threads(const Lines& l, Ctx& x) {
  std::vector<Step> steps;
  std::vector<Preempt> pre;
  std::map<long, std::unique_ptr<Worker>> work;
  std::map<long, int> home;
  for (auto& line : l) {
    Op o(line);
    count_op(x, o);
    if (o[0] == "pre") pre.push_back(parse_pre(o));
    if (o[0] != "t") continue;
    int th = (int)(o.num(1) & 3);
    long s = o.num(2);
    if (!home.count(s)) home[s] = th;
    steps.push_back({home[s], s, o[3], unhex(o[4].empty() ? "-" : o[4])});
    if (!work.count(s)) work[s].reset(new Worker);
  }
  std::map<long, std::vector<std::string>> want;
  for (auto& w : work)
    if (!alone(steps, w.first, &want[w.first])) {
      x.log.add("a session alone ends the process");
      return;  // no comparison possible; another property's matter
    }
  std::vector<std::vector<Call>> prog(kMaxThreads);
  long order = 0;
  for (auto& s : steps) {
    Worker* w = work[s.session].get();
    const Step* sp = &s;
    prog[(size_t)s.thread].push_back({order++, [w, sp]() { w->step(sp->kind, sp->b); }});
  }
  for (auto& h : home) {
    Worker* w = work[h.first].get();
    prog[(size_t)h.second].push_back({order++, [w]() { w->step("final", {}); }});
  }
  size_t total = 0;
  for (auto& s : steps) total += s.b.size();
  cover().steps = 0;
  cover().budget = 100000000ull + 400000ull * total;
  SchedResult r = run_threads(prog, pre);
  cover().budget = ~0ull;
  sched_stats(x, r);
  for (auto& w : work) {
    auto& a = want[w.first];
    auto& b = w.second->out;
    for (auto& s : b) x.log.add(s);
    x.stats.add("probe:reports-compared", b.size());
    for (size_t i = 0; i < a.size() || i < b.size(); i++) {
      std::string e = i < a.size() ? a[i] : "nothing", g = i < b.size() ? b[i] : "nothing";
      if (e != g)
        x.fail("sessions-interfere", fmt("session %ld, report %zu: ", w.first, i) + text_diff(e, g));
    }
  }
}

// ================================================================= counter
// Phases of concurrent parsing, counter reads and at most one reset; after each
// phase the count is compared with the model's.
struct Occ {
  uint64_t start, end;
  long n;
};
struct Get {
  uint64_t start, end;
  uint32_t v;
};

Lines gen_counter(uint64_t seed) {
  Rng r(seed);
  Lines l;
  int threads = 1 + (int)r.below(4);
  std::vector<Sender> snd;
  std::vector<std::vector<Bytes>> sent((size_t)threads);
  for (int t = 0; t < threads; t++) {
    snd.emplace_back(r.next());
    Knobs& k = snd.back().k;
    k.weight[kSubset] = 2;
    k.weight[kSliceExt] = 4 + (int)r.below(6);
    k.weight[kPrefix] = 2 + (int)r.below(6);
  }
  int phases = 1 + (int)r.below(3);
  for (int ph = 0; ph < phases; ph++) {
    bool reset = false;
    int n = 2 + (int)r.below(14);
    Lines ops;
    for (int i = 0; i < n; i++) {
      size_t t = (size_t)r.below((uint64_t)threads);
      if (r.chance(1, 6)) {
        ops.push_back(fmt("t %zu get", t));
        continue;
      }
      if (!reset && r.chance(1, 14)) {
        ops.push_back(fmt("t %zu reset", t));
        reset = true;
        continue;
      }
      std::string f;
      Bytes b;
      if (!sent[t].empty() && r.chance(1, 5)) {
        b = sent[t][(size_t)r.below(sent[t].size())];
        f = " ~dup";
      } else if (r.chance(1, 4)) {
        // header extensions that are recognised but not supported
        static const uint8_t ty[] = {14, 20, 21, 21};
        b = {(uint8_t)(r.below(4) << 5 | ty[r.below(4)]), (uint8_t)r.next(), (uint8_t)r.next(),
             (uint8_t)r.next(), (uint8_t)(0x80 | r.next())};
        if (r.chance(1, 8)) b.resize(1 + r.below(4));
        if (b.size() > 1 && r.chance(2, 3)) b[1] &= 0x7f;
        for (uint64_t k = r.below(6); k--;) b.push_back((uint8_t)(1 + r.below(255)));
      } else {
        b = snd[t].next().b;
        if (r.chance(1, 10)) f = " ~" + damage(b, r);
      }
      if (b.empty()) continue;
      sent[t].push_back(b);
      if (r.chance(1, 6)) {
        // several units in one aggregation packet or stream
        std::vector<Bytes> u{b};
        for (int k = 1 + (int)r.below(3); k--;) u.push_back(snd[t].next().b);
        if (r.chance(1, 2)) {
          ops.push_back(fmt("t %zu stream ", t) + hex(annexb(u, r)) + f);
        } else {
          Bytes p{0x78};
          for (auto& z : u) {
            p.push_back((uint8_t)(z.size() >> 8));
            p.push_back((uint8_t)z.size());
            p.insert(p.end(), z.begin(), z.end());
          }
          ops.push_back(fmt("t %zu rtp ", t) + hex(p) + f);
        }
      } else {
        ops.push_back(fmt("t %zu ", t) + (r.chance(1, 2) ? "rtp " : "nal ") + hex(b) + f);
      }
    }
    if (threads > 1) gen_pre(r, threads, n / threads + 1, l);
    l.insert(l.end(), ops.begin(), ops.end());
    l.push_back("join");
    if (r.chance(1, 60)) {
      long k = r.chance(1, 12) ? 66000 : 130 + (long)r.below(300);
      Bytes b{0x75, 0x80, 0x11, 0x12, 0x95};
      b[1] = (uint8_t)(r.chance(3, 4) ? b[1] : 0);
      l.push_back(fmt("burst %ld ", k) + hex(b));
    }
  }
  return l;
}

long expected_count(const Op& o, Store& st) {
  Bytes b = unhex(o[3]);
  if (o[2] == "nal") return model::decode_unit(b.data(), b.size(), st).unimplemented;
  if (o[2] == "rtp") return model::decode_rtp(b, st).unimplemented;
  long n = 0;
  for (auto& sp : model::split_start_codes(b))
    n += model::decode_unit(b.data() + sp.off, sp.len, st).unimplemented;
  return n;
}

void exec_counter(const Lines& l, Ctx& x) {
  std::map<int, std::unique_ptr<LibState>> ses;
  std::map<int, Store> model;
  uint32_t base = h264nal::get_unimplemented_count();
  std::vector<Preempt> pre;
  std::vector<Op> ops;
  auto phase = [&]() {
    std::vector<std::vector<Call>> prog(kMaxThreads);
    std::vector<Occ> occ(ops.size());
    std::vector<Get> get(ops.size());
    std::vector<Get> rst(ops.size());
    std::vector<int> kind(ops.size());  // 1 unit, 2 get, 3 reset
    bool have_reset = false;
    long order = 0;
    for (size_t i = 0; i < ops.size(); i++) {
      const Op& o = ops[i];
      int t = (int)(o.num(1) & 3);
      if (o[2] == "reset" && have_reset) continue;
      if (o[2] == "get") {
        kind[i] = 2;
        prog[(size_t)t].push_back({order++, [&get, i]() {
          get[i].start = sched_now();
          {
            InLib in;
            get[i].v = h264nal::get_unimplemented_count();
          }
          get[i].end = sched_now();
        }});
        continue;
      }
      if (o[2] == "reset") {
        have_reset = true;
        kind[i] = 3;
        prog[(size_t)t].push_back({order++, [&rst, i]() {
          rst[i].start = sched_now();
          {
            InLib in;
            h264nal::reset_unimplemented_count();
          }
          rst[i].end = sched_now();
        }});
        continue;
      }
      kind[i] = 1;
      occ[i].n = expected_count(o, model[t]);
      if (!ses[t]) ses[t].reset(new LibState);
      LibState* st = ses[t].get();
      x.stats.add("probe:unsupported-seen", (uint64_t)occ[i].n);
      prog[(size_t)t].push_back({order++, [&occ, &ops, i, st]() {
        Bytes b = unhex(ops[i][3]);
        Exact e(b);
        occ[i].start = sched_now();
        {
          std::unique_ptr<LibUnit> u;
          std::unique_ptr<LibRtp> p;
          std::unique_ptr<LibStream> s;
          {
            InLib in;
            if (ops[i][2] == "nal")
              u = h264nal::H264NalUnitParser::ParseNalUnit(e.p, e.n, st, all_options());
            else if (ops[i][2] == "rtp")
              p = h264nal::H264RtpParser::ParseRtp(e.p, e.n, st);
            else
              s = h264nal::H264BitstreamParser::ParseBitstream(e.p, e.n, st, all_options());
          }
          // looking at a report counts nothing
          if (i % 3 == 0)
            dump_in([&](FILE* f) {
              if (u) u->fdump(f, -1, all_options());
              if (p) p->fdump(f, -1, all_options());
              if (s) s->fdump(f, -1, all_options());
            });
          InLib in;
          u.reset();
          p.reset();
          s.reset();
        }
        occ[i].end = sched_now();
      }});
    }
    cover().steps = 0;
    cover().budget = 400000000ull;
    SchedResult r = run_threads(prog, pre);
    cover().budget = ~0ull;
    sched_stats(x, r);
    uint64_t r0 = ~0ull, r1 = ~0ull;  // the reset
    for (size_t i = 0; i < ops.size(); i++)
      if (kind[i] == 3) {
        r0 = rst[i].start;
        r1 = rst[i].end;
        x.stats.add("probe:reset");
      }
    // occurrences certainly / possibly counted in the interval (from, to)
    auto bounds = [&](uint64_t q0, uint64_t q1, long* lo, long* hi) {
      *lo = *hi = 0;
      bool after = have_reset && q0 >= r1, before = !have_reset || q1 <= r0;
      if (!after) *hi += base;
      if (before) *lo += base;
      for (size_t i = 0; i < ops.size(); i++) {
        if (kind[i] != 1) continue;
        if (occ[i].start < q1 && (!after || occ[i].end > r0)) *hi += occ[i].n;
        if (occ[i].end <= q0 && (before || (after && occ[i].start >= r1))) *lo += occ[i].n;
      }
    };
    long lo, hi;
    for (size_t i = 0; i < ops.size(); i++) {
      if (kind[i] != 2) continue;
      x.log.add(fmt("get %u", get[i].v));
      bounds(get[i].start, get[i].end, &lo, &hi);
      x.stats.add(lo == hi ? "probe:get-exact" : "probe:get-during-counting");
      if ((long)get[i].v < lo || (long)get[i].v > hi)
        x.fail("count-wrong", fmt("a read returned %u, possible are %ld to %ld", get[i].v, lo, hi));
      for (size_t j = 0; j < ops.size(); j++)
        if (kind[j] == 2 && get[j].end <= get[i].start && get[j].v > get[i].v &&
            !(have_reset && get[j].start < r1 && get[i].end > r0))
          x.fail("count-backwards", fmt("a read returned %u after %u", get[i].v, get[j].v));
    }
    uint32_t fin = h264nal::get_unimplemented_count();
    x.log.add(fmt("count %u", fin));
    bounds(~0ull, ~0ull, &lo, &hi);
    if (lo == hi) x.stats.add("probe:phase-exact");
    if ((long)fin < lo || (long)fin > hi)
      x.fail("count-wrong", fmt("the count is %u after all calls ended, expected %ld%s", fin, lo,
                                lo == hi ? "" : fmt(" to %ld", hi).c_str()));
    base = fin;
    pre.clear();
    ops.clear();
  };
  for (auto& line : l) {
    Op o(line);
    count_op(x, o);
    if (o[0] == "pre") pre.push_back(parse_pre(o));
    if (o[0] == "t") ops.push_back(o);
    if (o[0] == "join") phase();
    if (o[0] == "burst" && o.num(1) > 0 && o.num(1) <= 100000) {
      // the same unit very often, from one thread
      Bytes b = unhex(o[2]);
      Store st;
      uint32_t want = base + (uint32_t)(model::decode_unit(b.data(), b.size(), st).unimplemented * o.num(1));
      LibState ls;
      Exact e(b);
      for (long k = o.num(1); k--;) h264nal::H264NalUnitParser::ParseNalUnit(e.p, e.n, &ls, all_options());
      base = h264nal::get_unimplemented_count();
      x.stats.add("probe:burst");
      if (base != want) x.fail("count-wrong", fmt("the count is %u after %ld units in a row, expected %u", base, o.num(1), want));
    }
  }
  if (!ops.empty()) phase();
}

Lines shrink_threads(const std::string& line) {
  Op o(line);
  if (o[0] != "pre") return shrink_hex_line(line);
  Lines out;
  // simpler preemptions: no hold, no repetition, earlier
  auto with = [&](size_t i, const std::string& v) {
    if (o[i] == v) return;
    std::string s;
    for (size_t k = 0; k < o.w.size(); k++) s += (k ? " " : "") + (k == i ? v : o[k]);
    out.push_back(s + " ~preempt");
  };
  with(6, "0");
  with(5, "0");
  return out;
}

}  // namespace

void add_thread_worlds() {
  World w{"threads", gen_threads, exec_threads, shrink_threads};
  w.batch = 1;
  worlds().push_back(w);
  World c{"counter", gen_counter, exec_counter, shrink_threads};
  c.batch = 1;
  worlds().push_back(c);
}

}  // namespace sim
