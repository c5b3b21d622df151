// C06: any bytes at any public entry point, in any order, on any session state.
// Memory errors and undefined behaviour end the child (sanitizers); work and
// memory are bounded by the bytes given; nothing is left behind.
#include <sanitizer/allocator_interface.h>

#include <unordered_map>

#include "h264_sps_extension_parser.h"
#include "facts.h"
#include "session.h"

namespace sim {

// ------------------------------------------------------------ heap accounting
struct Heap {
  bool on = false, busy = false;
  std::unordered_map<const volatile void*, size_t> live;
  size_t bytes = 0, peak = 0, calls = 0;
};
static Heap* g_heap;
static void on_malloc(const volatile void* p, size_t n) {
  Heap* h = g_heap;
  if (!h || !h->on || h->busy || !p) return;
  h->busy = true;
  h->live[p] = n;
  h->bytes += n;
  h->calls++;
  if (h->bytes > h->peak) h->peak = h->bytes;
  h->busy = false;
}
static void on_free(const volatile void* p) {
  Heap* h = g_heap;
  if (!h || h->busy || h->live.empty()) return;
  h->busy = true;
  auto it = h->live.find(p);
  if (it != h->live.end()) {
    h->bytes -= it->second;
    h->live.erase(it);
  }
  h->busy = false;
}
static Heap& heap() {
  if (!g_heap) {
    g_heap = new Heap;
    __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
  }
  return *g_heap;
}

// Work and memory a call may use for n bytes.  The worst ratio seen on the
// unchanged tree is far below (see evidence, "maxima").
static const size_t kMemBase = 1024 * 1024, kMemPer = 1000;
static const uint64_t kStepBase = 400000, kStepPer = 500;

struct Lib {
  Ctx& x;
  LibState st;
  size_t given = 0, held0 = 0;
  std::string where;
  h264nal::ParsingOptions po, dopts;
  int indent = -1;
  explicit Lib(Ctx& c) : x(c) {}
  // one call: parse, look at it, dump it, release it
  template <class F>
  void call(const Bytes& b, F parse) {
    Heap& h = heap();
    Exact e(b);
    given += b.size();
    size_t before = h.bytes;
    h.peak = h.bytes;
    Cover& c = cover();
    c.total_steps += c.steps;
    c.steps = 0;
    c.budget = kStepBase + kStepPer * b.size();
    h.on = true;
    auto r = parse(e.p, e.n);
    h.on = false;
    uint64_t steps = c.steps;
    c.budget = ~0ull;
    size_t used = h.peak - before;
    x.stats.max("max:steps-per-byte", steps / (b.size() + 16));
    x.stats.max("max:heap-bytes-per-byte", used / (b.size() + 64));
    x.stats.max("max:input-bytes", b.size());
    if (used > kMemBase + kMemPer * b.size())
      x.fail("memory-bound", fmt("%s: %zu bytes held for %zu bytes of input", where.c_str(), used, b.size()));
    x.log.add(fmt("%s %d", where.c_str(), (int)!!r));
    if (r) x.stats.add("probe:accepted");
    dump(b.size(), r);
  }
  template <class R>
  void dump(size_t n, R& r) {
    if (!r) return;
    Cover& c = cover();
    c.total_steps += c.steps;
    c.steps = 0;
    c.budget = kStepBase + kStepPer * n;
    std::string t = dump_with([&](FILE* f) { fd(f, *r); });
    t += more(*r, 0);
    c.budget = ~0ull;
    x.log.add(t);
  }
  template <class S>
  auto more(const S& s, int) -> decltype(facts<NoGuard>(s)) {
    return facts<NoGuard>(s);
  }
  std::string more(const h264nal::H264SpsDataParser::SpsDataState& s, int) {
    Facts<NoGuard> f;
    f.sps_data(s);
    return f.out;
  }
  template <class S>
  std::string more(const S&, long) {
    return "";
  }
  // the dump functions do not all take options
  template <class S>
  auto fd(FILE* f, const S& s) -> decltype(s.fdump(f, 0, h264nal::ParsingOptions()), void()) {
    s.fdump(f, indent, dopts);
  }
  template <class S>
  auto fd(FILE* f, const S& s) -> decltype(s.fdump(f, 0), void()) {
    s.fdump(f, indent);
  }
  void fd(FILE* f, const LibPayload& p) { p.fdump(f, indent, ptype, dopts); }
  void fd(FILE* f, const h264nal::H264RtpFuAParser::RtpFuAState& s) { s.fdump(f, indent, dopts); }
  uint32_t ptype = 0;
};

static const char* kEntries[] = {
    "stream", "stream-own", "lengths", "lengths-own", "nal", "nal-unescaped", "header",
    "header-svc", "type", "payload", "pps", "pwt", "prefix-svc", "prefix", "rplm",
    "drpm", "hrd", "vui", "rtp", "rtp-single", "rtp-stapa", "rtp-fua", "slice",
    "slice-svc", "slice-ext", "slice-layer", "sps-ext", "sps-data", "sps", "sps-svc",
    "subset", "index", "index-lengths"};
static const int kNumEntries = (int)(sizeof kEntries / sizeof *kEntries);

// call ENTRY a b c d options HEX
static void do_call(Lib& L, const Op& o) {
  using namespace h264nal;
  uint32_t a = (uint32_t)o.num(2), b = (uint32_t)o.num(3), c = (uint32_t)o.num(4), d = (uint32_t)o.num(5);
  unsigned ob = (unsigned)o.num(6);
  L.po.add_offset = L.po.add_length = true;
  L.po.add_parsed_length = ob & 1;
  L.po.add_checksum = ob & 2;
  L.po.add_resolution = ob & 4;
  L.dopts.add_checksum = ob & 8;
  L.dopts.add_resolution = ob & 16;
  L.indent = ob & 32 ? 0 : -1;
  Bytes in = unhex(o[7]);
  const std::string& e = o[1];
  LibState* st = &L.st;
  H264NalUnitHeaderParser::NalUnitHeaderState h{};
  {
    h.nal_ref_idc = a & 3;
    h.nal_unit_type = b & 31;
    h.svc_extension_flag = c & 1;
    if (c & 1) {
      h.nal_unit_header_svc_extension = std::make_unique<H264NalUnitHeaderSvcExtensionParser::NalUnitHeaderSvcExtensionState>();
      auto& s = *h.nal_unit_header_svc_extension;
      s.idr_flag = c >> 1 & 1;
      s.no_inter_layer_pred_flag = c >> 2 & 1;
      s.quality_id = c >> 3 & 15;
      s.use_ref_base_pic_flag = c >> 7 & 1;
      s.dependency_id = c >> 8 & 7;
    }
  }
  typedef const uint8_t* P;
  if (e == "stream") {
    L.call(in, [&](P p, size_t n) { return H264BitstreamParser::ParseBitstream(p, n, st, L.po); });
  } else if (e == "stream-own") {
    L.call(in, [&](P p, size_t n) { return H264BitstreamParser::ParseBitstream(p, n, L.po); });
  } else if (e == "lengths") {
    L.call(in, [&](P p, size_t n) { return H264BitstreamParser::ParseBitstreamNALULength(p, n, a, st, L.po); });
  } else if (e == "lengths-own") {
    L.call(in, [&](P p, size_t n) { return H264BitstreamParser::ParseBitstreamNALULength(p, n, a, L.po); });
  } else if (e == "nal") {
    L.call(in, [&](P p, size_t n) { return H264NalUnitParser::ParseNalUnit(p, n, st, L.po); });
  } else if (e == "nal-unescaped") {
    L.call(in, [&](P p, size_t n) { return H264NalUnitParser::ParseNalUnitUnescaped(p, n, st, L.po); });
  } else if (e == "header") {
    L.call(in, [&](P p, size_t n) { return H264NalUnitHeaderParser::ParseNalUnitHeader(p, n); });
  } else if (e == "header-svc") {
    L.call(in, [&](P p, size_t n) { return H264NalUnitHeaderSvcExtensionParser::ParseNalUnitHeaderSvcExtension(p, n); });
  } else if (e == "type") {
    Exact x(in);
    NalUnitType t;
    arm(in.size());
    H264NalUnitHeaderParser::GetNalUnitType(x.p, x.n, t);
    disarm();
  } else if (e == "payload") {
    // a header of these types without its extension cannot come from the parser
    if ((h.nal_unit_type == 14 || h.nal_unit_type == 20) && !h.svc_extension_flag) h.nal_unit_type = 1;
    L.ptype = h.nal_unit_type;
    L.call(in, [&](P p, size_t n) { return H264NalUnitPayloadParser::ParseNalUnitPayload(p, n, h, st); });
  } else if (e == "pps") {
    L.call(in, [&](P p, size_t n) { return H264PpsParser::ParsePps(p, n, a & 3); });
  } else if (e == "pwt") {
    L.call(in, [&](P p, size_t n) { return H264PredWeightTableParser::ParsePredWeightTable(p, n, a & 3, b % 10, c, d); });
  } else if (e == "prefix-svc") {
    L.call(in, [&](P p, size_t n) { return H264PrefixNalUnitSvcParser::ParsePrefixNalUnitSvc(p, n, a & 3, b & 1, c & 1); });
  } else if (e == "prefix") {
    L.call(in, [&](P p, size_t n) { return H264PrefixNalUnitRbspParser::ParsePrefixNalUnitRbsp(p, n, a & 1, b & 3, c & 1, d & 1); });
  } else if (e == "rplm") {
    L.call(in, [&](P p, size_t n) { return H264RefPicListModificationParser::ParseRefPicListModification(p, n, a % 10); });
  } else if (e == "drpm") {
    L.call(in, [&](P p, size_t n) { return H264DecRefPicMarkingParser::ParseDecRefPicMarking(p, n, a & 1); });
  } else if (e == "hrd") {
    L.call(in, [&](P p, size_t n) { return H264HrdParametersParser::ParseHrdParameters(p, n); });
  } else if (e == "vui") {
    L.call(in, [&](P p, size_t n) { return H264VuiParametersParser::ParseVuiParameters(p, n); });
  } else if (e == "rtp") {
    L.call(in, [&](P p, size_t n) { return H264RtpParser::ParseRtp(p, n, st); });
  } else if (e == "rtp-single") {
    L.call(in, [&](P p, size_t n) { return H264RtpSingleParser::ParseRtpSingle(p, n, st); });
  } else if (e == "rtp-stapa") {
    L.call(in, [&](P p, size_t n) { return H264RtpStapAParser::ParseRtpStapA(p, n, st); });
  } else if (e == "rtp-fua") {
    L.call(in, [&](P p, size_t n) { return H264RtpFuAParser::ParseRtpFuA(p, n, a & 3, st); });
  } else if (e == "slice") {
    L.call(in, [&](P p, size_t n) { return H264SliceHeaderParser::ParseSliceHeader(p, n, a & 3, b & 31, st); });
  } else if (e == "slice-svc") {
    if (!h.svc_extension_flag) return;
    L.call(in, [&](P p, size_t n) { return H264SliceHeaderInScalableExtensionParser::ParseSliceHeaderInScalableExtension(p, n, h, st); });
  } else if (e == "slice-ext") {
    L.call(in, [&](P p, size_t n) { return H264SliceLayerExtensionRbspParser::ParseSliceLayerExtensionRbsp(p, n, h, st); });
  } else if (e == "slice-layer") {
    L.call(in, [&](P p, size_t n) { return H264SliceLayerWithoutPartitioningRbspParser::ParseSliceLayerWithoutPartitioningRbsp(p, n, a & 3, b & 31, st); });
  } else if (e == "sps-ext") {
    L.call(in, [&](P p, size_t n) { return H264SpsExtensionParser::ParseSpsExtension(p, n); });
  } else if (e == "sps-data") {
    L.call(in, [&](P p, size_t n) { return H264SpsDataParser::ParseSpsData(p, n); });
  } else if (e == "sps") {
    L.call(in, [&](P p, size_t n) { return H264SpsParser::ParseSps(p, n); });
  } else if (e == "sps-svc") {
    L.call(in, [&](P p, size_t n) { return H264SpsSvcExtensionParser::ParseSpsSvcExtension(p, n, a & 3); });
  } else if (e == "subset") {
    L.call(in, [&](P p, size_t n) { return H264SubsetSpsParser::ParseSubsetSps(p, n); });
  } else if (e == "index" || e == "index-lengths") {
    Exact x(in);
    arm(in.size());
    auto v = e == "index" ? H264BitstreamParser::FindNaluIndices(x.p, x.n) : H264BitstreamParser::FindNaluIndicesExplicitFraming(x.p, x.n);
    disarm();
    for (auto& q : v)
      if (q.payload_start_offset > in.size() || q.payload_size > in.size() - q.payload_start_offset)
        L.x.fail("index-bounds", L.where);
  }
}

static void safety_once(const Lines& l, Ctx& x, bool count) {
  Heap& h = heap();
  std::map<long, std::unique_ptr<Lib>> ses;
  size_t base = h.bytes, given = 0;
  size_t i = 0;
  for (auto& line : l) {
    Op o(line);
    i++;
    if (o[0] == "restart") {
      ses.erase(o.num(1));
      if (count) count_op(x, o);
      continue;
    }
    if (o[0] != "call") continue;
    if (count) {
      count_op(x, o);
      x.stats.add("entry:" + o[1]);
    }
    Lib* L = ses[o.num(8)].get();
    if (!L) {
      ses[o.num(8)].reset(new Lib(x));
      L = ses[o.num(8)].get();
    }
    L->where = fmt("line %zu %s", i, o[1].c_str());
    do_call(*L, o);
    given += unhex(o[7]).size();
    // what sessions keep is bounded by what they were given
    if (h.bytes - base > kMemBase + kMemPer * given)
      x.fail("memory-held", fmt("line %zu: %zu bytes kept after %zu bytes of input", i, h.bytes - base, given));
  }
}

static void exec_safety(const Lines& l, Ctx& x) {
  Heap& h = heap();
  {
    h.busy = true;
    h.live.clear();
    h.busy = false;
    h.bytes = h.peak = 0;
  }
  safety_once(l, x, true);
  size_t left = h.bytes;
  if (left) {
    // one-time tables are fine, growth is not
    x.stats.add("probe:heap-left-once");
    Ctx y;
    safety_once(l, y, false);
    if (h.bytes > left)
      x.fail("memory-leak", fmt("%zu bytes are left behind by every repetition of this history", h.bytes - left));
  }
}

// random syntax: runs of Exp-Golomb codes of every size, flags, raw bits
static Bytes random_bits(Rng& r, size_t max) {
  model::BitWriter w;
  unsigned mode = (unsigned)r.below(5);
  size_t n = 1 + (size_t)r.below(max);
  while (w.b.size() < n) {
    switch (mode == 4 ? r.below(4) : mode) {
      case 0: w.bit(r.chance(1, 2)); break;
      case 1: w.ue(r.pick(0, 40)); break;
      case 2: w.ue(r.chance(1, 6) ? r.pick(0, 0xfffffffeull) : r.pick(0, 300)); break;
      default: w.bits(r.next(), 1 + (int)r.below(32));
    }
  }
  if (r.chance(1, 2)) w.trailing();
  return w.b;
}

static Lines gen_safety(uint64_t seed) {
  Rng r(seed);
  Lines l;
  int sessions = 1 + (int)r.below(2);
  std::vector<Sender> snd;
  for (int i = 0; i < sessions; i++) snd.emplace_back(r.next());
  bool big = r.chance(1, 60);
  unsigned dmg = (unsigned)r.below(700);
  unsigned junk = r.chance(1, 3) ? (unsigned)r.below(500) : 50;
  Bytes prev;
  // swarm: a few entry points per run
  std::vector<int> some;
  for (int k = 1 + (int)r.below(6); k--;) some.push_back((int)r.below((uint64_t)kNumEntries));
  for (size_t n = big ? 2 : 4 + (size_t)r.below(24); n--;) {
    size_t s = (size_t)r.below((uint64_t)sessions);
    if (r.chance(1, 60)) l.push_back(fmt("restart %zu ~receiver-crash", s));
    Nal u = snd[s].next();
    Bytes b = u.b;
    std::string f;
    int e;
    bool framed = false;
    if (r.chance(1, 2)) {
      static const int usual[] = {0, 4, 18};
      e = usual[r.below(3)];
    } else {
      e = r.chance(1, 2) ? some[(size_t)r.below(some.size())] : (int)r.below((uint64_t)kNumEntries);
    }
    std::string name = kEntries[e];
    uint32_t a = (uint32_t)r.below(8), bb = (uint32_t)r.below(32), c = (uint32_t)r.next() & 0x7ff, d = (uint32_t)r.below(33);
    if (name == "pwt" && r.chance(1, 8)) c = d = 0xffffffffu;
    if (name == "slice" || name == "slice-layer") {
      a = (b[0] >> 5) & 3;
      bb = b[0] & 31;
    } else if (name == "payload" || name == "slice-svc" || name == "slice-ext") {
      a = (b[0] >> 5) & 3;
      bb = name == "payload" ? (b[0] & 31) : 20;
      if (u.type == 14 || u.type == 20) c |= 1;
    }
    // sub-structures start after the NAL unit header
    bool sub = name != "stream" && name != "stream-own" && name != "lengths" && name != "lengths-own" && name != "nal" &&
               name != "nal-unescaped" && name != "header" && name != "type" && name.compare(0, 3, "rtp") != 0 &&
               name.compare(0, 5, "index") != 0;
    if (sub) {
      size_t skip = u.type == 14 || u.type == 20 ? 4 : 1;
      if (name == "header-svc") skip = 1;
      b.erase(b.begin(), b.begin() + (long)std::min(skip, b.size()));
      if (r.chance(1, 2)) {
        // matching kinds make it further
        Kind kd = name == "pps" ? kPps : name == "sps" || name == "sps-data" ? kSps : name == "subset" ? kSubset : name.compare(0, 5, "slice") == 0 ? (bb == 20 ? kSliceExt : kSlice) : name.compare(0, 6, "prefix") == 0 ? kPrefix : kKinds;
        if (kd != kKinds) {
          u = snd[s].make(kd);
          b = u.b;
          size_t sk = u.type == 14 || u.type == 20 ? 4 : 1;
          b.erase(b.begin(), b.begin() + (long)std::min(sk, b.size()));
        } else {
          b = random_bits(r, 40);
          f += " ~random-syntax";
        }
      }
    }
    if (name == "stream" || name == "stream-own" || name == "index") {
      std::vector<Bytes> v{b};
      for (size_t k = r.below(4); k--;) v.push_back(snd[s].next().b);
      b = annexb(v, r);
      framed = true;
    } else if (name == "lengths" || name == "lengths-own" || name == "index-lengths") {
      a = name == "index-lengths" ? 4 : r.chance(1, 20) ? (uint32_t)r.below(100) : (uint32_t)r.below(6);
      Bytes v;
      for (size_t k = 1 + (size_t)r.below(4); k--;) {
        size_t len = b.size();
        if (r.chance(1, 8)) len = r.chance(1, 2) ? (size_t)r.next() : len + (size_t)r.below(3) - 1;
        for (size_t j = 0; j < a && j < 8; j++) v.push_back((uint8_t)((uint64_t)len >> (8 * ((a < 8 ? a : 8) - 1 - j))));
        v.insert(v.end(), b.begin(), b.end());
        b = snd[s].next().b;
      }
      b = v;
      framed = true;
    } else if ((name == "rtp" && r.chance(1, 2)) || name == "rtp-stapa" || name == "rtp-fua") {
      if (name == "rtp-fua" || (name == "rtp" && r.chance(1, 2))) {
        Bytes p{(uint8_t)((b[0] & 0xe0) | 28), (uint8_t)((r.chance(2, 3) ? 0x80 : 0) | (b[0] & 31))};
        p.insert(p.end(), b.begin() + 1, b.end());
        b = p;
      } else {
        Bytes p{0x78};
        for (size_t k = 1 + (size_t)r.below(4); k--;) {
          p.push_back((uint8_t)(b.size() >> 8));
          p.push_back((uint8_t)b.size());
          p.insert(p.end(), b.begin(), b.end());
          b = snd[s].next().b;
        }
        b = p;
      }
    }
    if (r.below(1000) < junk) {
      Bytes j = random_bits(r, 60);
      if (!sub && !j.empty() && r.chance(2, 3)) {
        static const uint8_t heads[] = {0x67, 0x68, 0x41, 0x65, 0x6f, 0x74, 0x6e, 0x78, 0x7c, 0x75, 0x06};
        j[0] = heads[r.below(sizeof heads)];
      }
      b = j;
      f += " ~random-syntax";
    }
    if (big) {
      Bytes v;
      size_t want = 4000 + (size_t)r.below(60000);
      uint8_t fill = r.chance(1, 3) ? 0 : r.chance(1, 2) ? 0xff : 1;
      unsigned kind = (unsigned)r.below(6);
      while (v.size() < want) {
        if (kind == 0) {
          v.push_back(fill);
        } else if (kind == 1 && !b.empty()) {
          v.insert(v.end(), b.begin(), b.end());
        } else if (kind == 2) {
          static const uint8_t q[] = {0, 0, 1, 9};
          v.insert(v.end(), q, q + 3 + r.below(2));
        } else if (kind == 4) {
          static const uint8_t q[] = {0, 0, 3, 1};
          v.insert(v.end(), q, q + 3 + r.below(2));
        } else if (kind == 5) {
          static const uint8_t q[] = {0, 1, 9, 0, 2, 9, 0x10, 0, 0};
          size_t at = r.below(3) * 3;
          v.insert(v.end(), q + at, q + at + (at == 3 ? 4 : at == 6 ? 3 : 3));
        } else {
          Bytes j = random_bits(r, 2000);
          v.insert(v.end(), j.begin(), j.end());
        }
      }
      if (kind == 5) v.insert(v.begin(), 0x78);
      if (kind != 5 && r.chance(1, 2) && b.size() > 4) v.insert(v.begin(), b.begin(), b.begin() + (long)std::min<size_t>(b.size(), 40));
      b = v;
      f += " ~huge-input";
    }
    for (int k = r.chance(1, 6) ? 4 : 1; k--;)
      if (r.below(1000) < dmg) f += " ~" + damage(b, r, prev.empty() ? nullptr : &prev);
    if (!b.empty() && b.size() < 4000) prev = b;
    (void)framed;
    l.push_back(fmt("call %s %u %u %u %u %u ", name.c_str(), a, bb, c, d, (unsigned)r.below(64)) + hex(b) + fmt(" %zu", s) + f);
  }
  return l;
}

static Lines shrink_safety(const std::string& line) {
  Op o(line);
  Lines out;
  if (o[0] != "call" || o.size() < 9) return out;
  Bytes b = unhex(o[7]);
  std::string head, tail = " " + o[8];
  for (int i = 0; i < 7; i++) head += o[(size_t)i] + " ";
  for (auto& f : o.faults) tail += " ~" + f;
  for (size_t cut = b.size() / 2; cut >= 1; cut /= 2) {
    Bytes c(b.begin(), b.end() - (long)cut);
    out.push_back(head + hex(c) + tail);
  }
  return out;
}

void add_safety_world() { worlds().push_back({"safety", gen_safety, exec_safety, shrink_safety}); }

}  // namespace sim
