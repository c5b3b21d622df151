// The same history at two nodes: one runs the full build, dumps its reports and
// prints diagnostics, to streams that may fail; the other runs the small-footprint
// build, which does neither.
#include <errno.h>

#include "builds_side.h"
#include "session.h"

void* min_open();
void min_close(void*);
const std::vector<std::string>& min_deliver(void*, const std::string&, const uint8_t*, size_t, int);

namespace sim {
namespace {

// An output stream that fails after some bytes.
struct Faulty {
  long left;
  int err;
  uint64_t wrote = 0, failed = 0;
  FILE* f;
  static ssize_t put(void* c, const char*, size_t n) {
    Faulty& s = *(Faulty*)c;
    if (s.left >= 0 && (long)n > s.left) {
      size_t part = (size_t)s.left;
      s.left = 0;
      s.wrote += part;
      if (part) return (ssize_t)part;
      s.failed++;
      errno = s.err;
      return 0;
    }
    if (s.left >= 0) s.left -= (long)n;
    s.wrote += n;
    return (ssize_t)n;
  }
  Faulty(long l, int e, bool unbuffered) : left(l), err(e) {
    cookie_io_functions_t io = {nullptr, put, nullptr, nullptr};
    f = fopencookie(this, "w", io);
    if (!f) _exit(kExitHarness);
    if (unbuffered) setvbuf(f, nullptr, _IONBF, 0);
  }
  ~Faulty() { fclose(f); }
};

Lines gen_builds(uint64_t seed) {
  Rng r(seed);
  Lines l;
  size_t sessions = 1 + (size_t)r.below(2);
  auto stream_line = [&](const char* w) {
    static const int errs[] = {ENOSPC, EIO, EPIPE, EBADF, EAGAIN, EINTR};
    long left = r.chance(1, 3) ? -1 : r.chance(1, 2) ? 0 : (long)r.below(3000);
    std::string s = fmt("%s %ld %d %d", w, left, errs[r.below(6)], (int)r.below(2));
    return left >= 0 ? s + " ~stream-fails" : s;
  };
  l.push_back(stream_line("errors"));
  unsigned dmg = r.chance(1, 3) ? 0 : (unsigned)r.below(500);
  unsigned restart = r.chance(1, 3) ? (unsigned)r.below(80) : 0;
  std::vector<Sender> snd;
  for (size_t i = 0; i < sessions; i++) snd.emplace_back(r.next());
  for (size_t n = 3 + (size_t)r.below(22); n--;) {
    size_t s = (size_t)r.below(sessions);
    if (r.below(1000) < restart) l.push_back(fmt("restart %zu ~restart", s));
    if (r.chance(1, 10)) l.push_back(stream_line("errors"));
    std::vector<Bytes> u;
    std::string f;
    for (size_t k = r.chance(1, 4) ? 2 + (size_t)r.below(4) : 1; k--;) {
      Bytes b = snd[s].next().b;
      if (r.below(1000) < dmg) f += " ~" + damage(b, r);
      if (!b.empty()) u.push_back(b);
    }
    if (u.empty()) continue;
    int option = (int)r.below(8);
    Bytes o = u[0];
    const char* kind = r.chance(1, 8) ? "raw" : "nal";
    if (u.size() > 1 || r.chance(1, 4)) {
      if (r.chance(1, 2)) {
        kind = r.chance(1, 6) ? "stream-own" : "stream";
        o = annexb(u, r);
      } else {
        kind = r.chance(1, 6) ? "len-own" : "len";
        size_t k = 1 + (size_t)r.below(4);
        option |= (int)(k - 1) << 3;
        o.clear();
        for (auto& b : u) {
          if (k == 1 && b.size() > 255) continue;
          if (k == 2 && b.size() > 65535) continue;
          for (size_t j = k; j--;) o.push_back((uint8_t)(b.size() >> (8 * j)));
          o.insert(o.end(), b.begin(), b.end());
        }
      }
    }
    if (r.chance(1, 25)) {
      model::BitWriter w;
      w.ue(r.pick(0, r.chance(1, 4) ? 40 : 31));
      uint64_t aux = r.below(3);
      w.ue(aux);
      if (aux) {
        w.ue(r.pick(0, r.chance(1, 4) ? 12 : 4));
        for (int k = 3 + (int)r.below(30); k--;) w.bit(r.chance(1, 2));
      }
      w.bit(r.chance(1, 2));
      w.trailing();
      o = w.b;
      kind = "ext";
    }
    if (r.chance(1, 12) && !o.empty()) {
      o.resize((size_t)r.below(o.size()) + 1);
      f += " ~cut";
    }
    std::string d = r.chance(1, 2) ? stream_line("").substr(1) : "none";
    l.push_back(fmt("at %zu %s %d ", s, kind, option) + hex(o) + " " + d + f);
  }
  return l;
}

// names are the only thing the two builds may not share
std::string common_names(const std::string& s) {
  static const std::string other = "h264nal_min";
  std::string o;
  for (size_t i = 0;;) {
    size_t k = s.find(other, i);
    if (k == std::string::npos) return o + s.substr(i);
    o += s.substr(i, k - i) + "h264nal";
    i = k + other.size();
  }
}

template <class T>
auto fd(FILE* f, int indent, const h264nal::ParsingOptions& po, const T& v, int) -> decltype(v.fdump(f, indent, po), void()) {
  v.fdump(f, indent, po);
}
template <class T>
void fd(FILE* f, int indent, const h264nal::ParsingOptions&, const T& v, long) {
  v.fdump(f, indent);
}

void exec_builds(const Lines& l, Ctx& x) {
  struct Node {
    std::unique_ptr<Side> full{new Side};
    void* min = min_open();
    ~Node() { min_close(min); }
  };
  std::map<long, std::unique_ptr<Node>> nodes;
  std::unique_ptr<Faulty> errors;
  FILE* real = stderr;
  struct Back {
    FILE* f;
    ~Back() { stderr = f; }
  } back{real};
  for (auto& line : l) {
    Op o(line);
    count_op(x, o);
    if (o[0] == "errors") {
      stderr = real;
      errors.reset(new Faulty(o.num(1), (int)o.num(2), o.num(3) != 0));
      continue;
    }
    auto& n = nodes[o.num(1)];
    if (o[0] == "restart") n.reset();
    if (!n) n.reset(new Node);
    if (o[0] != "at") continue;
    Bytes b = unhex(o[4].empty() ? "-" : o[4]);
    Exact e(b);
    arm(b.size());
    if (errors) stderr = errors->f;
    errno = 0;
    n->full->deliver(o[2], e.p, e.n, (int)o.num(3), [&](const auto& rep) {
      if (o[5] == "none" || o[5].empty()) return;
      Faulty to(o.num(5), (int)o.num(6), o.num(7) != 0);
      h264nal::ParsingOptions po;
      fd(to.f, (int)o.num(3) - 1, po, rep, 0);
      fflush(to.f);
      if (to.failed) x.stats.add("probe:dump-failed");
    });
    stderr = real;
    disarm();
    arm(b.size());
    const auto& small = min_deliver(n->min, o[2], e.p, e.n, (int)o.num(3));
    disarm();
    const auto& full = n->full->out;
    x.stats.add("probe:reports-compared");
    for (size_t i = 0; i < full.size() || i < small.size(); i++) {
      std::string a = i < full.size() ? full[i] : "nothing";
      std::string c = i < small.size() ? common_names(small[i]) : "nothing";
      x.log.add(a);
      if (a != c) x.fail("builds-differ", fmt("session %ld, observation %zu (full build / small build): ", o.num(1), i) + text_diff(a, c));
    }
    if (full[0] == "none") x.stats.add("probe:rejected");
  }
  if (errors && errors->failed) x.stats.add("probe:diagnostics-failed");
  if (errors && errors->wrote) x.stats.add("probe:diagnostics-written");
}

}  // namespace

void add_builds_world() {
  worlds().push_back({"builds", gen_builds, exec_builds, shrink_hex_line});
}

}  // namespace sim
