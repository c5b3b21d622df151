// Worlds around stored and transported streams: carriers (C03), damage (C04),
// cuts (C05), byte accounting (C16), lifetimes (C12), recovery (C14).
#include "deep.h"
#include "facts.h"
#include "session.h"

namespace sim {

// A unit a byte stream can carry: not empty, no start code inside, no zero at
// the end.
static bool legal(const Bytes& b) {
  if (b.empty() || b.back() == 0) return false;
  for (size_t i = 0; i + 2 < b.size(); i++)
    if (b[i] == 0 && b[i + 1] == 0 && b[i + 2] <= 1) return false;
  return true;
}

static std::string header_text(const h264nal::H264NalUnitHeaderParser::NalUnitHeaderState& h) {
  return dump_with([&](FILE* f) { h.fdump(f, -1); });
}
static std::string payload_dump(const LibPayload& p, uint32_t type) {
  return dump_with([&](FILE* f) { p.fdump(f, -1, type, all_options()); });
}
static std::string content(const LibUnit& u) {
  uint32_t t = u.nal_unit_header->nal_unit_type;
  return header_text(*u.nal_unit_header) + " " + payload_dump(*u.nal_unit_payload, t) +
         (u.nal_unit_payload->IsPayloadParsed(t) ? " parsed" : " unparsed");
}
static std::string content(const h264nal::H264NalUnitHeaderParser::NalUnitHeaderState& h,
                           const LibPayload& p) {
  return header_text(h) + " " + payload_dump(p, h.nal_unit_type) +
         (p.IsPayloadParsed(h.nal_unit_type) ? " parsed" : " unparsed");
}
// ... and every member, dumped or not
static std::string members(const LibUnit& u) {
  return content(u) + deep_text(*u.nal_unit_header) + deep_text(*u.nal_unit_payload);
}
static std::string members(const h264nal::H264NalUnitHeaderParser::NalUnitHeaderState& h,
                           const LibPayload& p) {
  return content(h, p) + deep_text(h) + deep_text(p);
}
static std::string store_text(const LibState& s) {
  std::string o;
  for (auto& e : s.sps)
    o += fmt("S%u ", e.first) + dump_with([&](FILE* f) { e.second->fdump(f, -1, all_options()); });
  for (auto& e : s.pps) o += fmt("P%u ", e.first) + dump_with([&](FILE* f) { e.second->fdump(f, -1); });
  for (auto& e : s.subset_sps)
    o += fmt("U%u ", e.first) + dump_with([&](FILE* f) { e.second->fdump(f, -1, all_options()); });
  return o;
}
static std::string store_text(const Store& s) {
  std::string o;
  for (auto& e : s.sps) o += fmt("S%u ", e.first) + e.second.text;
  for (auto& e : s.pps) o += fmt("P%u ", e.first) + e.second.text;
  for (auto& e : s.subset) o += fmt("U%u ", e.first) + e.second.text;
  return o;
}

// A stream, exactly as the model reads it.
static void check_stream(Ctx& x, const LibStream* got, const Bytes& b,
                         const std::vector<model::Span>& spans, Store& st,
                         const char* where) {
  if (!got) x.fail("no-stream", where);
  size_t k = 0;
  for (auto& sp : spans) {
    model::Unit m = model::decode_unit(b.data() + sp.off, sp.len, st);
    m.offset = sp.off;
    if (!m.reported) {
      x.stats.add("probe:unreadable-header");
      continue;
    }
    check_unit(x, k < got->nal_units.size() ? got->nal_units[k].get() : nullptr, m, where, true);
    if (!m.payload.parsed) x.stats.add("probe:unit-rejected");
    if (m.payload.slice.is_slice) x.stats.add("probe:slice-decoded");
    k++;
  }
  if (k != got->nal_units.size())
    x.fail("unit-unexpected", fmt("%s: %zu units reported, the stream holds %zu", where, got->nal_units.size(), k));
}

static void put_length(Bytes& o, size_t n, size_t k) {
  for (size_t j = 0; j < k; j++) {
    size_t sh = (k - 1 - j) * 8;
    o.push_back(sh >= 64 ? 0 : (uint8_t)((uint64_t)n >> sh));
  }
}

// ============================================================== C03: carriers
static const char* kCarriers[] = {"unescaped", "annexb", "annexb-batches", "length",
                                  "length-batches", "alone", "rtp-single", "rtp-stapa",
                                  "mixed"};

static void carry(Ctx& x, const std::string& how, uint64_t seed, size_t k,
                  const std::vector<Bytes>& u, const std::vector<std::string>& base,
                  const std::string& base_store, const std::string& where) {
  Rng r(seed);
  LibState st;
  Store ms;
  std::vector<std::string> got;
  auto add_stream = [&](const LibStream& s) {
    for (auto& n : s.nal_units) got.push_back(members(*n));
  };
  size_t fit = 1;
  for (auto& b : u)
    while (fit < 8 && (b.size() >> (8 * fit))) fit++;
  if (k < fit) k = fit;
  for (size_t i = 0; i < u.size();) {
    std::string c = how;
    if (c == "mixed") c = kCarriers[r.below(8)];
    size_t n = u.size() - i;
    if (how == "mixed" || c == "annexb-batches" || c == "length-batches" || c == "rtp-stapa")
      n = std::min<size_t>(n, 1 + (size_t)r.below(5));
    bool rtp = c == "rtp-single" || c == "rtp-stapa";
    // an unreadable header makes a whole aggregation packet unreadable, and the
    // types above 23 mean something else to RTP
    auto ok_rtp = [&](const Bytes& b) { return (b[0] & 31) <= 23 && b.size() < 65536; };
    auto ok_stapa = [&](const Bytes& b) {
      Store tmp;
      return ok_rtp(b) && model::decode_unit(b.data(), b.size(), tmp).reported;
    };
    if (rtp && !ok_rtp(u[i])) {
      c = "unit";
      n = 1;
    }
    if (c == "rtp-stapa") {
      size_t m = 0;
      while (m < n && ok_stapa(u[i + m])) m++;
      if (m == 0) {
        c = "rtp-single";
        n = 1;
      } else {
        n = m;
      }
    }
    if (c == "unescaped" || c == "alone" || c == "rtp-single" || c == "unit") n = 1;
    x.stats.add("carrier:" + c);
    std::vector<Bytes> part(u.begin() + (long)i, u.begin() + (long)(i + n));
    if (c == "annexb" || c == "annexb-batches") {
      Bytes b;
      for (uint64_t z = r.chance(1, 4) ? r.below(4) : 0; z--;) b.push_back(0);
      Bytes body = annexb(part, r);
      b.insert(b.end(), body.begin(), body.end());
      auto s = lib_stream(b, &st);
      if (!s) x.fail("no-stream", where);
      add_stream(*s);
    } else if (c == "length" || c == "length-batches") {
      Bytes b;
      for (auto& p : part) {
        put_length(b, p.size(), k);
        b.insert(b.end(), p.begin(), p.end());
      }
      auto s = lib_lengths(b, k, &st);
      if (!s) x.fail("no-stream", where);
      add_stream(*s);
    } else if (c == "alone") {
      auto s = lib_lengths(part[0], 0, &st);
      if (!s) x.fail("no-stream", where);
      add_stream(*s);
    } else if (c == "unit") {
      auto s = lib_nal(part[0], &st);
      if (s) got.push_back(members(*s));
    } else if (c == "unescaped") {
      Bytes rb = model::unescape(part[0].data(), part[0].size());
      Exact e(rb);
      arm(rb.size());
      auto s = h264nal::H264NalUnitParser::ParseNalUnitUnescaped(e.p, e.n, &st, all_options());
      disarm();
      if (s) got.push_back(members(*s));
    } else if (c == "rtp-single") {
      auto s = lib_rtp(part[0], &st);
      if (s && s->rtp_single)
        got.push_back(members(*s->rtp_single->nal_unit_header, *s->rtp_single->nal_unit_payload));
    } else {  // rtp-stapa
      Bytes b{(uint8_t)((part[0][0] & 0x60) | 24)};
      for (auto& p : part) {
        put_length(b, p.size(), 2);
        b.insert(b.end(), p.begin(), p.end());
      }
      auto s = lib_rtp(b, &st);
      if (s && s->rtp_stapa)
        for (size_t j = 0; j < s->rtp_stapa->nal_unit_payloads.size(); j++)
          got.push_back(members(*s->rtp_stapa->nal_unit_headers[j], *s->rtp_stapa->nal_unit_payloads[j]));
    }
    i += n;
  }
  for (size_t i = 0; i < got.size() && i < base.size(); i++)
    if (got[i] != base[i])
      x.fail("carrier-differs", fmt("%s: %s: reported unit %zu: ", where.c_str(), how.c_str(), i) + text_diff(base[i], got[i]));
  if (got.size() != base.size())
    x.fail("carrier-count", fmt("%s: %s reports %zu units, one at a time %zu", where.c_str(), how.c_str(), got.size(), base.size()));
  std::string s = store_text(st);
  if (s != base_store)
    x.fail("carrier-store", where + ": " + how + ": " + text_diff(base_store, s));
  x.log.add(fmt("%s %zu", how.c_str(), got.size()));
}

static void exec_carry(const Lines& l, Ctx& x) {
  std::vector<Bytes> u;
  std::vector<std::string> base;
  std::string base_store;
  bool ready = false;
  size_t i = 0;
  for (auto& line : l) {
    Op o(line);
    std::string where = fmt("line %zu", ++i);
    if (o[0] == "u") {
      Bytes b = unhex(o[1]);
      if (!legal(b)) continue;
      count_op(x, o);
      u.push_back(b);
      ready = false;
    } else if (o[0] == "via") {
      count_op(x, o);
      if (!ready) {
        base.clear();
        LibState st;
        Store ms;
        for (size_t j = 0; j < u.size(); j++) {
          auto g = lib_nal(u[j], &st);
          model::Unit m = model::decode_unit(u[j].data(), u[j].size(), ms);
          check_unit(x, g.get(), m, fmt("unit %zu alone", j).c_str(), false);
          if (g) base.push_back(members(*g));
        }
        base_store = store_text(st);
        ready = true;
      }
      carry(x, o[1], (uint64_t)o.num(2), (size_t)o.num(3), u, base, base_store, where);
    }
  }
}

static Lines gen_carry(uint64_t seed) {
  Rng r(seed);
  Lines l;
  Sender s(r.next());
  bool faults = r.chance(1, 2);
  unsigned dmg = faults ? (unsigned)r.below(250) : 0;
  Bytes prev;
  size_t total = run_length(r, 3, 24, 600);
  long_knobs(s.k, total);
  for (size_t n = total; n--;) {
    Bytes b = s.next().b;
    std::string f;
    if (r.below(1000) < dmg) f = " ~" + damage(b, r, prev.empty() ? nullptr : &prev);
    if (!legal(b)) continue;
    prev = b;
    l.push_back("u " + hex(b) + f);
  }
  for (size_t n = 2 + (size_t)r.below(4); n--;)
    l.push_back(fmt("via %s %u %u", kCarriers[r.below(9)], (unsigned)r.below(1000000),
                    (unsigned)(r.chance(1, 3) ? 1 + r.below(12) : 1 + r.below(4))));
  return l;
}

// ================================================================ C04: damage
struct Piece {
  Bytes orig, now;
  size_t sc = 0;  // start code bytes of the original
  bool intact = true;
};

static void exec_damage(const Lines& l, Ctx& x) {
  std::vector<Piece> p;
  size_t k = 0;  // bytes of the length fields; 0: start codes
  for (auto& line : l) {
    Op o(line);
    Piece q;
    if (o[0] == "framing" && p.empty()) k = (size_t)std::min(8l, std::max(0l, o.num(1)));
    Bytes b = unhex(o[2]);
    if (!legal(b)) continue;
    if (k) {
      // the content is damaged, the length fields tell what is stored
      auto field = [&](const Bytes& c, Bytes& to) {
        if (c.empty() || (k < 4 && c.size() >> (8 * k))) return false;
        put_length(to, c.size(), k);
        to.insert(to.end(), c.begin(), c.end());
        return true;
      };
      q.sc = k;
      if (o[0] != "u" && o[0] != "d") continue;
      if (!field(b, q.orig)) continue;
      q.intact = o[0] == "u";
      Bytes c = q.intact ? b : unhex(o[3].empty() ? "-" : o[3]);
      if (!c.empty() && !field(c, q.now)) continue;
      count_op(x, o);
      p.push_back(q);
      continue;
    }
    q.sc = o[1] == "4" ? 4 : 3;
    q.orig.assign(q.sc, 0);
    q.orig.back() = 1;
    q.orig.insert(q.orig.end(), b.begin(), b.end());
    if (o[0] == "u") {
      q.now = q.orig;
    } else if (o[0] == "d") {
      q.now = unhex(o[3]);
      q.intact = false;
    } else {
      continue;
    }
    count_op(x, o);
    p.push_back(q);
  }
  Bytes S, D;
  std::vector<size_t> at_s, at_d;
  for (auto& q : p) {
    at_s.push_back(S.size() + q.sc);
    at_d.push_back(D.size() + q.sc);
    S.insert(S.end(), q.orig.begin(), q.orig.end());
    D.insert(D.end(), q.now.begin(), q.now.end());
  }
  // which intact units are bounded by surviving start codes
  std::vector<bool> clean(p.size());
  for (size_t i = 0; i < p.size(); i++) {
    if (!p[i].intact) continue;
    size_t e = at_d[i] + p[i].orig.size() - p[i].sc;
    size_t z = e;
    while (z < D.size() && D[z] == 0) z++;
    clean[i] = k || z == D.size() || (z - e >= 2 && D[z] == 1);
  }
  LibState ls, ld;
  Store ms, md;
  auto gs = k ? lib_lengths(S, k, &ls) : lib_stream(S, &ls);
  auto gd = k ? lib_lengths(D, k, &ld) : lib_stream(D, &ld);
  if (!gs || !gd) x.fail("no-stream", "stream");
  // the sets each unit is read with, in both histories
  std::map<size_t, std::string> before_s, before_d;
  auto ss = k ? model::split_lengths(S, k) : model::split_start_codes(S);
  auto sd = k ? model::split_lengths(D, k) : model::split_start_codes(D);
  for (auto& sp : ss) {
    before_s[sp.off] = store_text(ms);
    model::decode_unit(S.data() + sp.off, sp.len, ms);
  }
  for (auto& sp : sd) {
    before_d[sp.off] = store_text(md);
    model::decode_unit(D.data() + sp.off, sp.len, md);
  }
  std::map<size_t, const LibUnit*> us, ud;
  for (auto& n : gs->nal_units) us[n->offset] = n.get();
  for (auto& n : gd->nal_units) ud[n->offset] = n.get();
  for (size_t i = 0; i < p.size(); i++) {
    if (!clean[i]) continue;
    size_t len = p[i].orig.size() - p[i].sc;
    const LibUnit* a = us.count(at_s[i]) ? us[at_s[i]] : nullptr;
    const LibUnit* b = ud.count(at_d[i]) ? ud[at_d[i]] : nullptr;
    if (!a) {
      // its header is unreadable even in the undamaged stream
      if (b) x.fail("intact-invented", fmt("unit %zu reported only in the damaged stream", i));
      continue;
    }
    if (!b) x.fail("intact-lost", fmt("intact unit %zu at offset %zu is not reported", i, at_d[i]));
    if (b->length != len || a->length != len)
      x.fail("intact-bounds", fmt("intact unit %zu: %zu bytes, reported as %zu (undamaged: %zu)", i, len, b->length, a->length));
    if (before_s[at_s[i]] == before_d[at_d[i]]) {
      std::string ca = content(*a), cb = content(*b);
      if (ca != cb) x.fail("intact-altered", fmt("intact unit %zu: ", i) + text_diff(ca, cb));
      x.stats.add("probe:intact-compared");
    } else {
      x.stats.add("probe:intact-other-sets");
    }
  }
  Store m2;
  check_stream(x, gd.get(), D, sd, m2, "damaged stream");
  check_store(x, ld, m2, "damaged stream");
}

static Lines gen_damage(uint64_t seed) {
  Rng r(seed);
  Lines l;
  Sender s(r.next());
  unsigned dmg = 50 + (unsigned)r.below(400);
  bool burst = r.chance(1, 3);
  int left = 0;
  Bytes prev;
  size_t total = run_length(r, 4, 28, 300);
  if (total > 100) dmg /= 10;
  bool lengths = r.chance(1, 4);
  if (lengths) l.push_back(fmt("framing %d", 1 + (int)r.below(4)));
  for (size_t n = total; n--;) {
    Bytes b = s.next().b;
    if (!legal(b)) continue;
    const char* sc = r.chance(1, 2) ? "4" : "3";
    bool hit = left > 0 ? (left--, true) : r.below(1000) < dmg;
    if (hit && burst && left == 0) left = (int)r.below(4);
    if (!hit) {
      l.push_back(std::string("u ") + sc + " " + hex(b));
      prev = b;
      continue;
    }
    Bytes w(sc[0] == '4' ? 4 : 3, 0);
    w.back() = 1;
    if (lengths) w.clear();
    w.insert(w.end(), b.begin(), b.end());
    std::string f;
    if (lengths && r.chance(1, 4)) {
      w.resize(std::min(w.size(), 1 + (size_t)r.below(4)));
      if (r.chance(1, 2)) w[0] = (uint8_t)((w[0] & 0x60) | (r.chance(1, 2) ? 20 : 14));
      f = " ~torn-header";
    } else if (r.chance(1, 12)) {
      w.clear();
      f = " ~lost-unit";
    } else if (r.chance(1, 12)) {
      // a start code in the middle of garbage
      static const uint8_t junk[][4] = {{0, 0, 1, 0}, {0, 0, 0, 1}, {0, 0, 1, 0x67}, {0, 0, 3, 1}};
      for (int k = 1 + (int)r.below(3); k--;) {
        size_t at = (size_t)r.below(w.size() + 1);
        const uint8_t* q = junk[r.below(4)];
        w.insert(w.begin() + (long)at, q, q + 4);
      }
      f = " ~false-start-code";
    } else if (r.chance(1, 10)) {
      for (uint64_t z = 1 + r.below(20); z--;) w.push_back(0);
      f = " ~zero-fill";
    } else {
      for (int k = r.chance(1, 3) ? 3 : 1; k--;)
        f += " ~" + damage(w, r, prev.empty() ? nullptr : &prev);
    }
    l.push_back(std::string("d ") + sc + " " + hex(b) + " " + hex(w) + f);
  }
  return l;
}

// ================================================================== C05: cuts
static void exec_cut(const Lines& l, Ctx& x) {
  Bytes S;
  size_t k = 0;  // 0: start codes
  bool started = false;
  std::vector<model::Span> truth;
  std::unique_ptr<LibStream> full;
  for (auto& line : l) {
    Op o(line);
    if (o[0] == "mode") {
      if (started) continue;
      k = (size_t)o.num(1);
      if (k > 8) k = 8;
    } else if (o[0] == "u") {
      Bytes b = unhex(o[2]);
      if (k == 0 ? !legal(b) : b.empty() || (k < 8 && b.size() >> (8 * k))) continue;
      started = true;
      if (k == 0) {
        for (long z = o.num(1); z-- > 2;) S.push_back(0);
        S.push_back(0);
        S.push_back(0);
        S.push_back(1);
      } else {
        put_length(S, b.size(), k);
      }
      truth.push_back({S.size(), b.size()});
      S.insert(S.end(), b.begin(), b.end());
      count_op(x, o);
      full.reset();
    } else if (o[0] == "cut") {
      size_t p = (size_t)o.num(1);
      if (p > S.size()) continue;
      count_op(x, o);
      x.stats.add("fault:cut");
      if (!full) {
        LibState fs;
        full = k ? lib_lengths(S, k, &fs) : lib_stream(S, &fs);
        if (!full) x.fail("no-stream", "whole stream");
      }
      Bytes C(S.begin(), S.begin() + (long)p);
      LibState st;
      Store ms;
      auto got = k ? lib_lengths(C, k, &st) : lib_stream(C, &st);
      if (!got) x.fail("no-stream", fmt("cut at %zu", p));
      std::map<size_t, const LibUnit*> a, b;
      for (auto& n : full->nal_units) a[n->offset] = n.get();
      for (auto& n : got->nal_units) b[n->offset] = n.get();
      for (auto& t : truth) {
        bool complete = t.off + t.len <= p;
        const LibUnit* ua = a.count(t.off) ? a[t.off] : nullptr;
        const LibUnit* ub = b.count(t.off) ? b[t.off] : nullptr;
        if (!complete) {
          x.stats.add("probe:incomplete-unit");
          if (k && ub) x.fail("incomplete-reported", fmt("cut at %zu: the unit at %zu is incomplete but reported", p, t.off));
          continue;
        }
        if (!ua != !ub) x.fail("complete-lost", fmt("cut at %zu: the complete unit at %zu %s", p, t.off, ub ? "appears only when cut" : "is not reported"));
        if (!ua) continue;
        std::string da = dump_unit(*ua) + deep_text(*ua), db = dump_unit(*ub) + deep_text(*ub);
        if (da != db || ua->length != t.len) x.fail("complete-altered", fmt("cut at %zu: ", p) + text_diff(da, db));
      }
      // and nothing that is not there
      check_stream(x, got.get(), C, k ? model::split_lengths(C, k) : model::split_start_codes(C), ms, fmt("cut at %zu", p).c_str());
      check_keys(x, st, ms, fmt("cut at %zu", p).c_str());
    }
  }
}

static Lines gen_cut(uint64_t seed) {
  Rng r(seed);
  Lines l;
  Sender s(r.next());
  size_t k = r.chance(1, 2) ? 0 : 1 + (size_t)r.below(4);
  l.push_back(fmt("mode %zu", k));
  std::vector<size_t> edges;
  size_t at = 0;
  bool damaged = r.chance(1, 3);
  for (size_t n = run_length(r, 1, 10, 300); n--;) {
    Bytes b = s.next().b;
    if (damaged && r.chance(1, 6)) damage(b, r);
    if (k == 0 ? !legal(b) : b.empty() || b.size() >> (8 * k)) continue;
    size_t z = r.chance(1, 5) ? 2 + (size_t)r.below(5) : 2 + (size_t)r.below(2);
    edges.push_back(at);
    at += k ? k : z + 1;
    edges.push_back(at);
    at += b.size();
    l.push_back(fmt("u %zu ", z) + hex(b));
  }
  edges.push_back(at);
  std::set<size_t> cuts;
  if (at < 60 || r.chance(1, 20)) {
    for (size_t i = 0; i <= at && i < 200; i++) cuts.insert(i);
  } else {
    for (size_t n = 4 + (size_t)r.below(14); n--;) {
      size_t c = (size_t)r.below(at + 1);
      if (r.chance(2, 3)) {
        long e = (long)edges[(size_t)r.below(edges.size())] + (long)r.range(-6, 6);
        c = e < 0 ? 0 : std::min((size_t)e, at);
      }
      cuts.insert(c);
    }
  }
  for (size_t c : cuts) l.push_back(fmt("cut %zu", c));
  return l;
}

// ========================================================= C16: byte accounting
static void account(Ctx& x, const LibStream& got, const Bytes& b,
                    const std::vector<model::Span>& spans, const char* where) {
  size_t pos = 0;
  for (auto& n : got.nal_units) {
    if (n->offset < pos || n->offset > b.size() || n->length > b.size() - n->offset)
      x.fail("account-bounds", fmt("%s: unit at %zu length %zu after %zu in %zu bytes", where, n->offset, n->length, pos, b.size()));
    pos = n->offset + n->length;
    Bytes rb = model::unescape(b.data() + n->offset, n->length);
    std::string sum = n->checksum ? n->checksum->GetPrintableChecksum() : std::string("none");
    if (sum != fmt("%08x", model::checksum(rb)))
      x.fail("account-checksum", fmt("%s: unit at %zu: %s", where, n->offset, sum.c_str()));
    if (n->parsed_length > n->length || n->parsed_length > rb.size())
      x.fail("account-parsed", fmt("%s: unit at %zu: parsed %zu of %zu bytes", where, n->offset, n->parsed_length, n->length));
  }
  // every span is a reported unit or an unreadable one, and the reverse
  std::map<size_t, size_t> rep;
  for (auto& n : got.nal_units) rep[n->offset] = n->length;
  for (auto& sp : spans) {
    Store tmp;
    bool readable = model::decode_unit(b.data() + sp.off, sp.len, tmp).reported;
    auto it = rep.find(sp.off);
    if (it == rep.end() || it->second != sp.len) {
      if (readable) x.fail("account-gap", fmt("%s: bytes %zu+%zu are a unit but not accounted for", where, sp.off, sp.len));
    } else {
      if (!readable) x.fail("account-invented", fmt("%s: unit at %zu has no readable header", where, sp.off));
      rep.erase(it);
    }
  }
  if (!rep.empty()) x.fail("account-invented", fmt("%s: no unit starts at %zu", where, rep.begin()->first));
}

static void exec_account(const Lines& l, Ctx& x) {
  size_t i = 0;
  LibState st;
  Store ms;
  for (auto& line : l) {
    Op o(line);
    std::string where = fmt("line %zu (%s)", ++i, o[0].c_str());
    if (o[0] == "many") {
      // more units than 16 bits can count
      size_t n = (size_t)std::min(100000l, o.num(2)), k = (size_t)o.num(1) & 7;
      Bytes b;
      for (size_t q = 0; q < n; q++) {
        if (k) put_length(b, 2, k);
        else b.insert(b.end(), {0, 0, 1});
        b.push_back(9);
        b.push_back((uint8_t)(0x10 | (q % 8) << 5));
      }
      count_op(x, o);
      LibState own;
      auto got = k ? lib_lengths(b, k, &own) : lib_stream(b, &own);
      if (!got) x.fail("no-stream", where);
      if (got->nal_units.size() != n) x.fail("account-count", where + fmt(": %zu units reported", got->nal_units.size()));
      for (size_t q = 0; q < n; q++)
        if (got->nal_units[q]->offset != q * (k ? k + 2 : 5) + (k ? k : 3) || got->nal_units[q]->length != 2)
          x.fail("account-bounds", where + fmt(": unit %zu", q));
      continue;
    }
    if (o[0] != "annexb" && o[0] != "length") continue;
    count_op(x, o);
    size_t k = (size_t)o.num(1);
    if (k > 64) k = 64;
    Bytes b = unhex(o[2]);
    auto spans = o[0] == "annexb" ? model::split_start_codes(b) : model::split_lengths(b, k);
    auto got = o[0] == "annexb" ? lib_stream(b, &st) : lib_lengths(b, k, &st);
    if (!got) x.fail("no-stream", where);
    account(x, *got, b, spans, where.c_str());
    check_stream(x, got.get(), b, spans, ms, where.c_str());
    Exact e(b);
    // every combination of what the caller asks for shows the same facts
    h264nal::ParsingOptions po;
    unsigned bits = (unsigned)o.num(3);
    po.add_offset = bits & 1;
    po.add_length = bits & 2;
    po.add_parsed_length = bits & 4;
    po.add_checksum = bits & 8;
    po.add_resolution = true;
    arm(b.size());
    auto own = o[0] == "annexb" ? h264nal::H264BitstreamParser::ParseBitstream(e.p, e.n, po)
                                : h264nal::H264BitstreamParser::ParseBitstreamNALULength(e.p, e.n, k, po);
    disarm();
    if (!own) x.fail("no-stream", where);
    Store m2;
    size_t j = 0;
    for (auto& sp : spans) {
      model::Unit m = model::decode_unit(b.data() + sp.off, sp.len, m2);
      if (!m.reported) continue;
      if (j >= own->nal_units.size()) x.fail("account-gap", where + ": own session");
      std::string g = dump_with([&](FILE* f) { own->nal_units[j]->fdump(f, -1, po); });
      std::string want = "nal_unit {";
      if (po.add_offset) want += fmt(" offset: 0x%08zx", sp.off);
      if (po.add_length) want += fmt(" length: %zu", sp.len);
      if (po.add_parsed_length) want += m.payload.parsed ? fmt(" parsed_length: 0x%08zx", m.parsed_length) : std::string(" parsed_length: *");
      if (po.add_checksum) want += fmt(" checksum: 0x%08x", m.sum);
      want += " " + m.header_text + " " + model::payload_text(m.payload) + " }";
      if (!text_match(want, g)) x.fail("account-dump", where + ": " + text_diff(want, g));
      j++;
    }
    if (j != own->nal_units.size()) x.fail("account-invented", where + ": own session");
    // the index functions
    arm(b.size());
    auto idx = h264nal::H264BitstreamParser::FindNaluIndices(e.p, e.n);
    auto idl = h264nal::H264BitstreamParser::FindNaluIndicesExplicitFraming(e.p, e.n);
    disarm();
    auto sc = model::split_start_codes(b);
    if (idx.size() != sc.size()) x.fail("index-count", where + fmt(": %zu start codes, %zu found", sc.size(), idx.size()));
    for (size_t q = 0; q < sc.size(); q++) {
      size_t start = sc[q].off - 3;
      if (start > 0 && b[start - 1] == 0) start--;
      if (idx[q].payload_start_offset != sc[q].off || idx[q].payload_size != sc[q].len || idx[q].start_offset != start)
        x.fail("index-span", where + fmt(": unit %zu", q));
    }
    size_t at = 0, q = 0;
    while (b.size() - at >= 4) {
      size_t n = (size_t)b[at] << 24 | (size_t)b[at + 1] << 16 | (size_t)b[at + 2] << 8 | b[at + 3];
      if (n > b.size() - at - 4) break;
      if (q >= idl.size() || idl[q].start_offset != at || idl[q].payload_start_offset != at + 4 || idl[q].payload_size != n)
        x.fail("index-length-span", where + fmt(": unit %zu", q));
      at += 4 + n;
      q++;
    }
    if (q != idl.size()) x.fail("index-length-span", where + ": too many");
  }
  check_keys(x, st, ms, "at the end");
}

static Lines gen_account(uint64_t seed) {
  Rng r(seed);
  Lines l;
  Sender s(r.next());
  bool faults = !r.chance(1, 4);
  if (r.chance(1, 1500)) l.push_back(fmt("many %u %u", (unsigned)r.below(5), r.chance(1, 2) ? 66000u : 300u));
  for (size_t rounds = 1 + (size_t)r.below(4); rounds--;) {
    bool ab = r.chance(1, 2);
    size_t k = ab ? 0 : r.chance(1, 8) ? 0 : r.chance(1, 8) ? 1 + (size_t)r.below(12) : 1 + (size_t)r.below(4);
    if (!ab && r.chance(1, 3)) k = 4;
    std::vector<Bytes> u;
    std::string f;
    for (size_t n = run_length(r, 1, 8, 600); n--;) {
      Bytes b = s.next().b;
      if (r.chance(1, 12)) extreme_sum(b, r);
      if (faults && r.chance(1, 5)) f += " ~" + damage(b, r, u.empty() ? nullptr : &u.back());
      if (!ab && k && k < 8 && b.size() >> (8 * k)) continue;
      u.push_back(b);
    }
    Bytes b;
    if (ab) {
      for (uint64_t z = r.chance(1, 6) ? r.below(6) : 0; z--;) b.push_back(0);
      Bytes body = annexb(u, r);
      b.insert(b.end(), body.begin(), body.end());
    } else {
      if (k == 0) u.resize(1);
      for (auto& n : u) {
        put_length(b, n.size(), k);
        b.insert(b.end(), n.begin(), n.end());
      }
    }
    if (faults && r.chance(1, 3) && !b.empty()) {
      if (!ab && k && r.chance(1, 2)) {
        // a damaged length field
        size_t at = 0;
        for (uint64_t j = r.below(u.size()); j--;) at += k + u[j].size();
        if (at + k <= b.size()) {
          b[at + (size_t)r.below(k)] ^= (uint8_t)(1u << r.below(8));
          if (r.chance(1, 3)) for (size_t q = 0; q < k; q++) b[at + q] = 0xff;
          if (r.chance(1, 3)) b[at] ^= (uint8_t)(1 + r.below(255));
          f += " ~damaged-length";
        }
      } else {
        f += " ~" + damage(b, r);
      }
    }
    if (faults && r.chance(1, 4)) {
      b.resize((size_t)r.below(b.size() + 1));
      f += " ~cut";
    }
    l.push_back(fmt("%s %zu ", ab ? "annexb" : "length", k) + hex(b) + fmt(" %u", (unsigned)r.below(16)) + f);
  }
  return l;
}
static Lines shrink_account(const std::string& line) {
  Op o(line);
  Lines out;
  if (o.size() < 4) return out;
  Bytes b = unhex(o[2]);
  std::string tail = " " + o[3];
  for (auto& f : o.faults) tail += " ~" + f;
  for (size_t cut = b.size() / 2; cut >= 1; cut /= 2) {
    Bytes c(b.begin(), b.end() - (long)cut), d(b.begin() + (long)cut, b.end());
    out.push_back(o[0] + " " + o[1] + " " + hex(c) + tail);
    out.push_back(o[0] + " " + o[1] + " " + hex(d) + tail);
  }
  return out;
}

// ============================================================== C12: lifetimes
struct Held {
  std::unique_ptr<LibUnit> unit;
  std::unique_ptr<LibStream> stream;
  std::unique_ptr<LibRtp> rtp;
  std::shared_ptr<h264nal::H264SpsParser::SpsState> sps;
  std::shared_ptr<h264nal::H264PpsParser::PpsState> pps;
  std::shared_ptr<h264nal::H264SubsetSpsParser::SubsetSpsState> sub;
  std::string first;
  std::string text() const {
    if (unit) return dump_unit(*unit) + deep_text(*unit) + facts<NoGuard>(*unit);
    if (rtp) return dump_rtp(*rtp) + deep_text(*rtp) + facts<NoGuard>(*rtp);
    if (stream) {
      std::string s = deep_text(*stream) + facts<NoGuard>(*stream);
      for (auto& n : stream->nal_units) s += dump_unit(*n);
      s += dump_with([&](FILE* f) { stream->fdump(f, -1, all_options()); });
      return s;
    }
    if (sps) return deep_text(*sps) + dump_with([&](FILE* f) { sps->fdump(f, -1, all_options()); });
    if (pps) return deep_text(*pps) + dump_with([&](FILE* f) { pps->fdump(f, -1); });
    if (sub) return deep_text(*sub) + dump_with([&](FILE* f) { sub->fdump(f, -1, all_options()); });
    return "";
  }
};

static void exec_hold(const Lines& l, Ctx& x) {
  std::map<long, std::unique_ptr<LibState>> ses;
  std::map<long, Store> ms;
  std::map<long, Held> held;
  std::vector<std::pair<uint8_t*, size_t>> bufs;
  size_t i = 0;
  auto verify = [&](const std::string& where) {
    for (auto& h : held) {
      std::string t = h.second.text();
      if (t != h.second.first)
        x.fail("report-changed", fmt("%s: report %ld: ", where.c_str(), h.first) + text_diff(h.second.first, t));
    }
  };
  for (auto& line : l) {
    Op o(line);
    count_op(x, o);
    std::string where = fmt("line %zu (%s)", ++i, o[0].c_str());
    x.log.add(o[0] + " " + o[1]);
    if (o[0] == "parse") {
      // parse SESSION HANDLE how HEX
      long s = o.num(1);
      auto& st = ses[s];
      if (!st) st.reset(new LibState);
      Store& m = ms[s];
      Bytes b = unhex(o[4]);
      uint8_t* p = (uint8_t*)malloc(b.size() ? b.size() : 1);
      if (!b.empty()) memcpy(p, b.data(), b.size());
      bufs.push_back({p, b.size()});
      Held h;
      arm(b.size());
      if (o[3] == "nal")
        h.unit = h264nal::H264NalUnitParser::ParseNalUnit(p, b.size(), st.get(), all_options());
      else if (o[3] == "rtp")
        h.rtp = h264nal::H264RtpParser::ParseRtp(p, b.size(), st.get());
      else
        h.stream = h264nal::H264BitstreamParser::ParseBitstream(p, b.size(), st.get(), all_options());
      disarm();
      if (o[3] == "nal") {
        check_unit(x, h.unit.get(), model::decode_unit(b.data(), b.size(), m), where.c_str(), false);
      } else if (o[3] == "rtp") {
        model::RtpResult rr = model::decode_rtp(b, m);
        if (!h.rtp != !rr.reported || (h.rtp && dump_rtp(*h.rtp) != rr.text)) x.fail("report-differs", where);
      } else {
        check_stream(x, h.stream.get(), b, model::split_start_codes(b), m, where.c_str());
      }
      h.first = h.text();
      held.erase(o.num(2));
      if (h.unit || h.rtp || h.stream) held[o.num(2)] = std::move(h);
    } else if (o[0] == "take") {
      // keep whatever the store holds: take SESSION HANDLE kind id
      auto& st = ses[o.num(1)];
      if (!st) continue;
      Held h;
      if (o[3] == "sps") h.sps = st->GetSps((uint32_t)o.num(4));
      if (o[3] == "pps") h.pps = st->GetPps((uint32_t)o.num(4));
      if (o[3] == "sub") h.sub = st->GetSubsetSps((uint32_t)o.num(4));
      h.first = h.text();
      held.erase(o.num(2));
      if (h.sps || h.pps || h.sub) held[o.num(2)] = std::move(h);
    } else if (o[0] == "scribble") {
      for (auto& b : bufs) memset(b.first, (int)o.num(1), b.second);
      x.stats.add("fault:buffers-overwritten");
    } else if (o[0] == "free") {
      for (auto& b : bufs) free(b.first);
      bufs.clear();
      x.stats.add("fault:buffers-freed");
    } else if (o[0] == "kill") {
      ses.erase(o.num(1));
      ms.erase(o.num(1));
      x.stats.add("fault:session-destroyed");
    } else if (o[0] == "drop") {
      held.erase(o.num(1));
      x.stats.add("fault:report-released");
    } else if (o[0] == "verify") {
      verify(where);
      for (auto& s : ses)
        if (s.second) check_store(x, *s.second, ms[s.first], where.c_str());
    }
  }
  verify("at the end");
  for (auto& s : ses)
    if (s.second) check_store(x, *s.second, ms[s.first], "at the end");
  ses.clear();
  verify("sessions gone");
  for (auto& b : bufs) {
    memset(b.first, 0xa5, b.second);
    free(b.first);
  }
  verify("buffers gone");
  while (!held.empty()) {
    held.erase(held.begin());
    verify("reports released");
  }
}

static Lines gen_hold(uint64_t seed) {
  Rng r(seed);
  Lines l;
  int sessions = 1 + (int)r.below(3);
  std::vector<Sender> snd;
  for (int i = 0; i < sessions; i++) snd.emplace_back(r.next());
  unsigned dmg = r.chance(1, 2) ? (unsigned)r.below(150) : 0;
  unsigned wild = 50 + (unsigned)r.below(300);
  long next = 1;
  for (size_t n = 6 + (size_t)r.below(24); n--;) {
    size_t s = (size_t)r.below((uint64_t)sessions);
    if (r.below(1000) < wild) {
      switch (r.below(6)) {
        case 0: l.push_back(fmt("scribble %u", (unsigned)r.below(256))); break;
        case 1: l.push_back("free"); break;
        case 2: l.push_back(fmt("kill %zu", s)); break;
        case 3:
        case 4: l.push_back(fmt("drop %ld", (long)r.below((uint64_t)next))); break;
        default: l.push_back("verify");
      }
      continue;
    }
    if (r.chance(1, 6)) {
      static const char* kinds[] = {"sps", "pps", "sub"};
      size_t kd = (size_t)r.below(3);
      std::vector<uint32_t> ids;
      if (kd == 0) for (auto& e : snd[s].st.sps) ids.push_back(e.first);
      if (kd == 1) for (auto& e : snd[s].st.pps) ids.push_back(e.first);
      if (kd == 2) for (auto& e : snd[s].st.subset) ids.push_back(e.first);
      if (!ids.empty()) {
        l.push_back(fmt("take %zu %ld %s %u", s, next++, kinds[kd], ids[(size_t)r.below(ids.size())]));
        continue;
      }
    }
    const char* how = r.chance(1, 3) ? "rtp" : r.chance(1, 3) ? "stream" : "nal";
    Bytes b;
    std::string f;
    if (how[0] == 's') {
      std::vector<Bytes> u;
      for (size_t k = 1 + (size_t)r.below(4); k--;) u.push_back(snd[s].next().b);
      b = annexb(u, r);
    } else {
      b = snd[s].next().b;
      if (how[0] == 'r' && r.chance(1, 2) && !b.empty()) {
        std::vector<Bytes> u{b};
        while (r.chance(1, 2)) u.push_back(snd[s].next().b);
        b = packet_of(u, r);
      }
    }
    if (r.below(1000) < dmg) f = " ~" + damage(b, r);
    long h = r.chance(1, 5) ? (long)r.below((uint64_t)next) : next++;
    l.push_back(fmt("parse %zu %ld %s ", s, h, how) + hex(b) + f);
    if (r.chance(1, 8)) l.push_back("verify");
  }
  return l;
}

// =============================================================== C14: recovery
// Session A sees everything; session B starts when the network has healed.
// The slices of a packet refer to the same sets in both sessions.
static bool same_sets(Store& a, Store& b, const model::RtpResult& m) {
  for (auto& p : m.payloads) {
    if (p.stored) {
      // a PPS keeps the chroma format its SPS had
      if (m.payloads.size() > 1) return false;
      for (uint32_t k = 0; k < 32; k++)
        if (a.chroma_for_pps(k) != b.chroma_for_pps(k) || a.sps.count(k) != b.sps.count(k) ||
            a.subset.count(k) != b.subset.count(k))
          return false;
    }
    if (!p.slice.is_slice) continue;
    uint32_t id = p.slice.pps_id;
    if (!a.pps.count(id) || !b.pps.count(id)) return false;
    uint32_t sa = a.pps[id].sps_id, sb = b.pps[id].sps_id;
    if (sa != sb || a.pps[id].text != b.pps[id].text) return false;
    auto text = [](auto& m, uint32_t k) { return m.count(k) ? m[k].text : std::string(); };
    if (text(a.sps, sa) != text(b.sps, sb) || text(a.subset, sa) != text(b.subset, sb)) return false;
  }
  return true;
}

static void exec_recover(const Lines& l, Ctx& x) {
  Session a, b;
  bool healed = false;
  size_t i = 0, clean = 0;
  for (auto& line : l) {
    Op o(line);
    count_op(x, o);
    std::string where = fmt("line %zu", ++i);
    if (o[0] == "heal") {
      healed = true;
      continue;
    }
    if (o[0] == "restart") {
      if (!healed) a = Session();
      continue;
    }
    if (o[0] == "end") {
      x.sim_us = strtoull(o[1].c_str(), nullptr, 10);
      continue;
    }
    Bytes p = unhex(o[2]);
    if (o[0] == "storm") {
      // the same packet over and over
      for (long n = std::min(70000l, o.num(1)); n-- && !healed;) deliver_rtp(x, a, p, where.c_str());
      continue;
    }
    if (o[0] == "rtp") {
      if (!healed) {
        deliver_rtp(x, a, p, where.c_str());
        continue;
      }
      // after the heal: both sessions
      auto ga = lib_rtp(p, a.lib.get()), gb = lib_rtp(p, b.lib.get());
      model::RtpResult ma = model::decode_rtp(p, a.model), mb = model::decode_rtp(p, b.model);
      std::string ta = ga ? dump_rtp(*ga) : "none", tb = gb ? dump_rtp(*gb) : "none";
      x.log.add(ta);
      std::string wa = ma.reported ? ma.text : "none", wb = mb.reported ? mb.text : "none";
      if (wa == wb) {
        if (ta != tb) x.fail("not-recovered", where + ": " + text_diff(tb, ta));
        if (ga && gb && same_sets(a.model, b.model, ma)) {
          x.stats.add("probe:members-compared");
          std::string xa = deep_text(*ga), xb = deep_text(*gb);
          if (xa != xb) x.fail("not-recovered", where + ": " + text_diff(xb, xa));
        }
        clean++;
      } else {
        x.stats.add("probe:refers-to-unrefreshed-set");
      }
      if (ta != wa) x.fail("report-differs", where + ": " + text_diff(wa, ta));
      if (tb != wb) x.fail("report-differs", where + " (clean session): " + text_diff(wb, tb));
      if (o[1] == "q") {
        x.stats.add("probe:unit-after-recovery");
        for (auto& q : ma.payloads)
          if (q.slice.is_slice) x.stats.add("probe:slice-after-recovery");
      }
    }
  }
  // the refreshed identifiers hold the same sets in both
  for (auto& e : b.model.sps) {
    auto p = a.lib->GetSps(e.first);
    if (!p || dump_with([&](FILE* f) { p->fdump(f, -1, all_options()); }) != e.second.text) x.fail("not-recovered-store", fmt("SPS %u", e.first));
  }
  for (auto& e : b.model.subset) {
    auto p = a.lib->GetSubsetSps(e.first);
    if (!p || dump_with([&](FILE* f) { p->fdump(f, -1, all_options()); }) != e.second.text) x.fail("not-recovered-store", fmt("subset SPS %u", e.first));
  }
  check_store(x, *a.lib, a.model, "disturbed session at the end");
  check_store(x, *b.lib, b.model, "clean session at the end");
  (void)clean;
}

static Lines gen_recover(uint64_t seed) {
  Rng r(seed);
  Lines l;
  Sender snd(r.next());
  Sender foreign(r.next());
  uint64_t t = 0;
  NetKnobs nk = draw_net(r, true);
  unsigned strange = (unsigned)r.below(250);
  Bytes prev;
  auto emit = [&](const char* tag, const std::vector<Nal>& u, bool faulty) {
    std::vector<std::pair<Bytes, std::string>> pk;
    NetKnobs k = nk;
    if (!faulty) k.fua = 0;  // fragments after the first carry no report
    packetise(r, k, u, pk);
    std::vector<std::string> out;
    for (auto& p : pk) {
      t += 500 + r.below(4000);
      Bytes b = p.first;
      std::string f;
      if (faulty) {
        if (r.below(1000) < nk.loss + 50) {
          out.push_back(std::string("lost ~loss"));
          continue;
        }
        if (r.below(1000) < nk.damage + 100) f += " ~" + damage(b, r, prev.empty() ? nullptr : &prev);
        if (r.below(1000) < nk.dup) out.push_back(std::string("rtp ") + tag + " " + hex(b) + " ~dup");
        if (r.below(1000) < nk.restart) out.push_back("restart ~receiver-crash");
      }
      prev = p.first;
      out.push_back(std::string("rtp ") + tag + " " + hex(b) + f);
    }
    if (faulty && nk.jitter_us > 8000)
      for (size_t i = 1; i < out.size(); i++)
        if (r.chance(1, 3)) {
          size_t j = i - 1 - (size_t)r.below(std::min<size_t>(i, 4));
          std::swap(out[i], out[j]);
          out[i] += " ~reorder";
        }
    for (auto& s : out) l.push_back(s);
  };
  std::vector<Nal> u;
  size_t total = run_length(r, 4, 20, 500);
  for (size_t n = total; n--;) {
    if (r.below(1000) < strange) {
      Nal f = foreign.next();
      u.push_back(f);
    } else {
      u.push_back(snd.next());
    }
  }
  emit("d", u, true);
  if (r.chance(1, 80)) {
    static const unsigned times[] = {20, 130, 260, 1030, 4100};
    Bytes b = snd.next().b;
    std::string f = " ~storm";
    if (!r.chance(1, 4)) f += " ~" + damage(b, r);
    if (b.size() < 300) l.push_back(fmt("storm %u ", times[r.below(5)]) + hex(b) + f);
  }
  l.push_back("heal");
  emit("p", snd.refresh(), false);
  u.clear();
  snd.k.damage_pm = 0;
  for (size_t n = 3 + (size_t)r.below(10); n--;) u.push_back(snd.next());
  emit("q", u, false);
  l.push_back(fmt("end %llu", (unsigned long long)t));
  return l;
}

// ================================================================ C08: floods
// One thread, but as many unsupported units as a long-lived process meets.
static void exec_flood(const Lines& l, Ctx& x) {
  h264nal::reset_unimplemented_count();
  Session s;
  uint64_t want = 0;
  size_t i = 0;
  for (auto& line : l) {
    Op o(line);
    count_op(x, o);
    std::string where = fmt("line %zu (%s)", ++i, o[0].c_str());
    if (o[0] == "reset") {
      h264nal::reset_unimplemented_count();
      want = 0;
    } else if (o[0] == "restart") {
      s = Session();
    } else if (o[0] == "rtp") {
      Bytes b = unhex(o[1]);
      lib_rtp(b, s.lib.get());
      want += (uint64_t)model::decode_rtp(b, s.model).unimplemented;
    } else if (o[0] == "flood") {
      // flood TIMES CARRIER HEX
      size_t n = (size_t)std::min(140000l, o.num(1));
      Bytes u = unhex(o[3]);
      if (u.empty()) continue;
      std::string c = o[2];
      Bytes b;
      size_t k = 0;
      if (c == "annexb") {
        // only units that keep their bounds in a stream
        Bytes two;
        for (int q = 0; q < 2; q++) {
          two.insert(two.end(), {0, 0, 1});
          two.insert(two.end(), u.begin(), u.end());
        }
        auto sp = model::split_start_codes(two);
        if (sp.size() != 2 || sp[0].len != u.size() || sp[1].len != u.size()) c = "nal";
      }
      if ((u[0] & 31) >= 24 && c == "rtp") c = "nal";
      if (c == "rtp" || c == "nal") {
        while (k++ < n)
          if (c == "rtp") lib_rtp(u, s.lib.get());
          else h264nal::H264NalUnitParser::ParseNalUnit(u.data(), u.size(), s.lib.get(), all_options());
      } else {
        while (k++ < n) {
          if (c == "length") put_length(b, u.size(), 4);
          else b.insert(b.end(), {0, 0, 1});
          b.insert(b.end(), u.begin(), u.end());
        }
        if (c == "length") lib_lengths(b, 4, s.lib.get());
        else lib_stream(b, s.lib.get());
      }
      want += n * (uint64_t)model::decode_unit(u.data(), u.size(), s.model).unimplemented;
      x.stats.add("probe:flooded-units", n);
    } else {
      continue;
    }
    uint32_t got = h264nal::get_unimplemented_count();
    x.log.add(fmt("%u", got));
    if (got != want) x.fail("unsupported-count", where + fmt(": the count is %u, expected %llu", got, (unsigned long long)want));
  }
  h264nal::reset_unimplemented_count();
}
static Lines gen_flood(uint64_t seed) {
  Rng r(seed);
  Lines l;
  Sender s(r.next());
  s.k.huge_pm = 0;
  bool big = r.chance(1, 25);
  for (size_t n = 3 + (size_t)r.below(14); n--;) {
    if (r.chance(1, 8)) {
      l.push_back(r.chance(1, 2) ? "reset" : "restart ~receiver-crash");
      continue;
    }
    Bytes u = s.next().b;
    std::string f;
    if (r.chance(1, 6)) f = " ~" + damage(u, r);
    if (r.chance(1, 4)) {
      // recognised, but unsupported header extensions
      u.assign(1, (uint8_t)(r.below(8) << 5 | (r.chance(1, 2) ? 14 : r.chance(1, 2) ? 20 : 21)));
      for (uint64_t k = r.below(5); k--;) u.push_back((uint8_t)(1 + r.below(127)));
    }
    if (r.chance(2, 3) && u.size() < 400) {
      static const char* cs[] = {"nal", "rtp", "annexb", "length"};
      static const unsigned small[] = {1, 2, 3, 20, 127, 130, 256, 300}, large[] = {32768, 65536, 70000};
      uint8_t t = u[0] & 31;
      unsigned k = big && u.size() < 8 && r.chance(1, 2) ? large[r.below(3)] : small[r.below(8)];
      if (k > 3 && (t == 7 || t == 8 || t == 15) && u.size() > 100) k = 3;
      // a unit that a fragment or an aggregate could be taken for goes alone
      l.push_back(fmt("flood %u %s ", k, t >= 24 ? "nal" : cs[r.below(4)]) + hex(u) + f);
    } else {
      l.push_back("rtp " + hex(u) + f);
    }
  }
  return l;
}

void add_stream_worlds() {
  worlds().push_back({"flood", gen_flood, exec_flood, shrink_hex_line});
  worlds().push_back({"carry", gen_carry, exec_carry, shrink_hex_line});
  worlds().push_back({"damage", gen_damage, exec_damage, shrink_hex_line});
  worlds().push_back({"cut", gen_cut, exec_cut, shrink_hex_line});
  worlds().push_back({"account", gen_account, exec_account, shrink_account});
  worlds().push_back({"hold", gen_hold, exec_hold, shrink_hex_line});
  worlds().push_back({"recover", gen_recover, exec_recover, shrink_hex_line});
}

}  // namespace sim
