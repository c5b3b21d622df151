// Histories in which allocations of the library fail.
#include <setjmp.h>

#include <exception>

#include "deep.h"
#include "facts.h"
#include "memseam.h"
#include "session.h"

namespace sim {
namespace {

struct Out {
  std::string report;  // "none" if there is none
  std::string store;
  bool threw = false;
};

struct Holder {
  std::unique_ptr<LibUnit> u;
  std::unique_ptr<LibStream> s;
  std::unique_ptr<LibRtp> r;
};

// The call itself: the only part in which allocations may fail.
void call(const std::string& kind, const Exact& e, LibState* st, Holder& h) {
  OnMem on;
  if (kind == "raw") {
    h.u = h264nal::H264NalUnitParser::ParseNalUnitUnescaped(e.p, e.n, st, all_options());
  } else if (kind == "nal") {
    h.u = h264nal::H264NalUnitParser::ParseNalUnit(e.p, e.n, st, all_options());
  } else if (kind == "rtp") {
    h.r = h264nal::H264RtpParser::ParseRtp(e.p, e.n, st);
  } else if (kind == "len") {
    h264nal::ParsingOptions o = all_options();
    o.add_checksum = true;
    h.s = h264nal::H264BitstreamParser::ParseBitstreamNALULength(e.p, e.n, 2, st, o);
  } else {
    h264nal::ParsingOptions o = all_options();
    o.add_checksum = true;
    h.s = h264nal::H264BitstreamParser::ParseBitstream(e.p, e.n, st, o);
  }
}

Out observe(const Holder& h, const LibState& st, bool threw) {
  Out o;
  o.threw = threw;
  o.report = h.u ? deep_text(*h.u) + dump_unit(*h.u)
             : h.s ? deep_text(*h.s)
             : h.r ? deep_text(*h.r) + dump_rtp(*h.r)
                   : "none";
  o.store = deep_text(st);
  return o;
}

sigjmp_buf g_end;
void on_terminate() {
  mem().on = false;
  siglongjmp(g_end, 1);
}

struct Item {
  std::string kind;
  Bytes b;
};

// One attempt: a fresh session brought to the point before `at`, then the call
// with failing allocations.  0 the process ended, 1 the call returned, 2 it threw.
int attempt(const std::vector<Item>& hist, size_t at, uint64_t fail_at, uint64_t n, Out* out) {
  // leaked on purpose when the process would have ended
  LibState* st = new LibState;
  Holder* h = new Holder;
  for (size_t i = 0; i < at; i++) {
    Exact e(hist[i].b);
    Holder t;
    call(hist[i].kind, e, st, t);
  }
  Exact* e = new Exact(hist[at].b);
  MemSeam& m = mem();
  volatile int res = 1;
  auto old = std::set_terminate(on_terminate);
  if (sigsetjmp(g_end, 0) == 0) {
    try {
      m.count = 0;
      m.failed = 0;
      m.fail_at = fail_at;
      m.fail_n = n;
      call(hist[at].kind, *e, st, *h);
    } catch (std::bad_alloc&) {
      res = 2;
    }
  } else {
    res = 0;
  }
  m.on = false;
  m.fail_at = 0;
  std::set_terminate(old);
  if (res == 0) return 0;
  *out = observe(*h, *st, res == 2);
  delete h;
  delete st;
  delete e;
  return res;
}

Lines gen_alloc(uint64_t seed) {
  Rng r(seed);
  Lines l;
  Sender snd(r.next());
  size_t n = 3 + (size_t)r.below(8);
  for (size_t i = 0; i < n; i++) {
    std::vector<Bytes> u;
    size_t k = r.chance(1, 4) ? 2 + (size_t)r.below(3) : 1;
    std::string f;
    for (size_t j = 0; j < k; j++) {
      Bytes b = snd.next().b;
      if (r.chance(1, 15)) f += " ~" + damage(b, r);
      if (!b.empty()) u.push_back(b);
    }
    if (u.empty()) continue;
    if (u.size() == 1 && r.chance(3, 4)) {
      bool rtp = r.chance(1, 2);
      l.push_back((rtp ? "rtp " : r.chance(1, 8) ? "raw " : "nal ") +
                  hex(rtp ? packet_of(u, r) : u[0]) + f);
    } else {
      int w = (int)r.below(3);
      Bytes o;
      if (w == 2) o.push_back(0x78);
      for (auto& b : u) {
        o.push_back((uint8_t)(b.size() >> 8));
        o.push_back((uint8_t)b.size());
        o.insert(o.end(), b.begin(), b.end());
      }
      l.push_back(w == 0   ? "stream " + hex(annexb(u, r)) + f
                  : w == 1 ? "len " + hex(o) + f
                           : "rtp " + hex(o) + f);
    }
    int fails = (int)r.below(4);
    if (r.chance(1, 12)) {
      l.push_back("fail all");
      continue;
    }
    for (int q = 0; q < fails; q++) {
      const char* mode = r.chance(1, 2) ? "one" : r.chance(1, 2) ? "from" : "two";
      uint64_t x = r.chance(1, 2) ? r.below(12) : r.below(1000);
      l.push_back(fmt("fail %s %llu", mode, (unsigned long long)x));
    }
  }
  return l;
}

void exec_alloc(const Lines& l, Ctx& x) {
  std::vector<Item> hist;
  LibState st;  // the failure-free session
  Out want, before;
  before.store = deep_text(st);
  uint64_t allocs = 0;
  size_t line_no = 0;
  auto one = [&](uint64_t k, uint64_t n, const char* mode) {
    Out got;
    int res = attempt(hist, hist.size() - 1, k, n, &got);
    x.log.add(fmt("fail %llu of %llu: %d", (unsigned long long)k, (unsigned long long)allocs, res));
    if (mem().failed) x.stats.add(std::string("fault:alloc-") + mode);
    if (res == 0) {
      x.stats.add("probe:process-ended");
      return;
    }
    if (res == 2) {
      // no report was delivered; the session must be at one of the two ends
      x.stats.add("probe:exception-reached-caller");
      if (got.store != before.store && got.store != want.store)
        x.fail("store-torn", fmt("line %zu: allocation %llu failed, the exception left the store half updated",
                                 line_no, (unsigned long long)k));
      return;
    }
    x.stats.add(mem().failed ? "probe:survived" : "probe:not-reached");
    if (got.report != want.report)
      x.fail("report-after-failure",
             fmt("line %zu: allocation %llu (%s) failed and the call returned: ", line_no,
                 (unsigned long long)k, mode) + text_diff(want.report, got.report));
    if (got.store != want.store)
      x.fail("store-after-failure",
             fmt("line %zu: allocation %llu (%s) failed and the call returned: ", line_no,
                 (unsigned long long)k, mode) + text_diff(want.store, got.store));
  };
  for (auto& line : l) {
    line_no++;
    Op o(line);
    count_op(x, o);
    if (o[0] == "fail") {
      if (hist.empty() || !allocs) continue;
      if (o[1] == "all") {
        for (uint64_t k = 1; k <= std::min<uint64_t>(allocs, 400); k++) one(k, 1, "one");
      } else {
        uint64_t k = strtoull(o[2].c_str(), nullptr, 10) % allocs + 1;
        one(k, o[1] == "one" ? 1 : o[1] == "two" ? 2 : ~0ull, o[1].c_str());
      }
      continue;
    }
    hist.push_back({o[0], unhex(o[1].empty() ? "-" : o[1])});
    before.store = deep_text(st);
    Exact e(hist.back().b);
    Holder h;
    mem().count = 0;
    arm(e.n);
    call(o[0], e, &st, h);
    disarm();
    allocs = mem().count;
    x.stats.add("alloc:counted", allocs);
    want = observe(h, st, false);
    x.log.add(want.report);
    x.log.add(want.store);
  }
}

}  // namespace

void add_alloc_world() {
  worlds().push_back({"alloc", gen_alloc, exec_alloc, shrink_hex_line});
}

}  // namespace sim
