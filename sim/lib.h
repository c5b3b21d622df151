// The code under test, as the simulated receivers use it.
#pragma once
#include "gen.h"
#include "libtypes.h"

namespace sim {

// Steps a call may take: far above what any call on the unchanged tree takes,
// proportional to the bytes it was given.
inline void arm(size_t bytes) {
  Cover& c = cover();
  c.total_steps += c.steps;
  c.steps = 0;
  c.budget = 3000000ull + 20000ull * bytes;
}
inline void disarm() {
  Cover& c = cover();
  c.total_steps += c.steps;
  c.steps = 0;
  c.budget = ~0ull;
}

// Collapse whitespace: layout is not part of what is compared.
inline std::string norm(const char* s, size_t n) {
  std::string o;
  o.reserve(n);
  bool sp = true;
  for (size_t i = 0; i < n; i++) {
    char c = s[i];
    if (c == ' ' || c == '\n' || c == '\t') {
      if (!sp) o += ' ';
      sp = true;
    } else if (c == '{' || c == '}') {
      if (!sp) o += ' ';
      o += c;
      o += ' ';
      sp = true;
    } else {
      o += c;
      sp = false;
    }
  }
  while (!o.empty() && o.back() == ' ') o.pop_back();
  return o;
}

template <class F>
std::string dump_with(F f) {
  char* p = nullptr;
  size_t n = 0;
  FILE* m = open_memstream(&p, &n);
  f(m);
  fclose(m);
  std::string s = norm(p, n);
  free(p);
  return s;
}
inline h264nal::ParsingOptions all_options() {
  return h264nal::ParsingOptions();
}
inline std::string dump_unit(const LibUnit& u) {
  return dump_with([&](FILE* f) { u.fdump(f, -1, all_options()); });
}
inline std::string dump_rtp(const LibRtp& u) {
  return dump_with([&](FILE* f) { u.fdump(f, -1, all_options()); });
}
// header + payload only: what does not depend on where the unit was found
inline std::string dump_content(const LibUnit& u) {
  return dump_with([&](FILE* f) {
    h264nal::ParsingOptions o;
    o.add_offset = o.add_length = o.add_parsed_length = false;
    u.fdump(f, -1, o);
  });
}

// expected may contain the token "*" (any value)
inline bool text_match(const std::string& expect, const std::string& got) {
  if (expect == got) return true;
  if (expect.find(" * ") == std::string::npos) return false;
  size_t i = 0, j = 0;
  for (;;) {
    while (i < expect.size() && expect[i] == ' ') i++;
    while (j < got.size() && got[j] == ' ') j++;
    if (i >= expect.size() || j >= got.size())
      return i >= expect.size() && j >= got.size();
    size_t a = expect.find(' ', i), b = got.find(' ', j);
    if (a == std::string::npos) a = expect.size();
    if (b == std::string::npos) b = got.size();
    bool any = a - i == 1 && expect[i] == '*';
    if (!any && (a - i != b - j || expect.compare(i, a - i, got, j, b - j) != 0))
      return false;
    i = a;
    j = b;
  }
}
// where two texts part, for messages
inline std::string text_diff(const std::string& e, const std::string& g) {
  size_t i = 0;
  while (i < e.size() && i < g.size() && e[i] == g[i]) i++;
  size_t s = i;
  while (s > 0 && i - s < 60) s--;
  return "expected ..." + e.substr(s, 160) + " got ..." + g.substr(s, 160);
}

// An exact-size heap copy, so that reading past the end is seen.
struct Exact {
  uint8_t* p;
  size_t n;
  explicit Exact(const Bytes& b) : p((uint8_t*)malloc(b.size() ? b.size() : 1)), n(b.size()) {
    if (n) memcpy(p, b.data(), n);
  }
  ~Exact() { free(p); }
  Exact(const Exact&) = delete;
};

inline std::unique_ptr<LibUnit> lib_nal(const Bytes& b, LibState* st) {
  Exact e(b);
  arm(b.size());
  auto r = h264nal::H264NalUnitParser::ParseNalUnit(e.p, e.n, st, all_options());
  disarm();
  return r;
}
inline std::unique_ptr<LibStream> lib_stream(const Bytes& b, LibState* st) {
  Exact e(b);
  arm(b.size());
  auto r = h264nal::H264BitstreamParser::ParseBitstream(e.p, e.n, st, all_options());
  disarm();
  return r;
}
inline std::unique_ptr<LibStream> lib_lengths(const Bytes& b, size_t k, LibState* st) {
  Exact e(b);
  arm(b.size());
  auto r = h264nal::H264BitstreamParser::ParseBitstreamNALULength(
      e.p, e.n, k, st, all_options());
  disarm();
  return r;
}
inline std::unique_ptr<LibRtp> lib_rtp(const Bytes& b, LibState* st) {
  Exact e(b);
  arm(b.size());
  auto r = h264nal::H264RtpParser::ParseRtp(e.p, e.n, st);
  disarm();
  return r;
}

// ------------------------------------------------- refinement, unit by unit
inline void check_slice_facts(Ctx& x, const LibPayload& p, uint32_t type,
                              const model::PayloadResult& m, const char* where) {
  if (!m.slice.is_slice) return;
  uint32_t l0 = 0, l1 = 0;
  if (type == 20) {
    if (!p.slice_layer_extension_rbsp ||
        !p.slice_layer_extension_rbsp->slice_header_in_scalable_extension)
      return;
    auto& s = *p.slice_layer_extension_rbsp->slice_header_in_scalable_extension;
    l0 = s.num_ref_idx_l0_active_minus1;
    l1 = s.num_ref_idx_l1_active_minus1;
  } else {
    if (!p.slice_layer_without_partitioning_rbsp ||
        !p.slice_layer_without_partitioning_rbsp->slice_header)
      return;
    auto& s = *p.slice_layer_without_partitioning_rbsp->slice_header;
    l0 = s.num_ref_idx_l0_active_minus1;
    l1 = s.num_ref_idx_l1_active_minus1;
  }
  if (m.slice.has_ref && (l0 != m.slice.l0 || (m.slice.slice_type % 5 == 1 && l1 != m.slice.l1)))
    x.fail("reference-count",
           fmt("%s: active reference indices %u/%u, expected %u/%u", where, l0,
               l1, m.slice.l0, m.slice.l1));
}

// The library's report of one unit against the model's.
inline void check_unit(Ctx& x, const LibUnit* got, const model::Unit& m,
                       const char* where, bool positioned) {
  if (!got) {
    x.log.add("none");
    if (m.reported)
      x.fail("unit-missing", fmt("%s: no report for a unit of type %u", where,
                                 m.header.type));
    return;
  }
  if (!m.reported) {
    x.fail("unit-unexpected",
           fmt("%s: a report where the header cannot be decoded", where));
  }
  std::string g = dump_unit(*got);
  x.log.add(g);
  model::Unit e = m;
  if (!positioned) e.offset = e.length = 0;
  std::string want = model::unit_text(e);
  if (!text_match(want, g))
    x.fail("report-differs", std::string(where) + ": " + text_diff(want, g));
  if (got->nal_unit_payload->IsPayloadParsed(m.header.type) != m.payload.parsed)
    x.fail("verdict-differs",
           fmt("%s: unit of type %u: parsed=%d expected %d", where, m.header.type,
               !m.payload.parsed, (int)m.payload.parsed));
  check_slice_facts(x, *got->nal_unit_payload, m.header.type, m.payload, where);
}

inline void check_keys(Ctx& x, const LibState& ls, const Store& ms,
                       const char* where) {
  auto keys = [](auto& m) {
    std::vector<uint32_t> k;
    for (auto& e : m) k.push_back((uint32_t)e.first);
    std::sort(k.begin(), k.end());
    std::string s;
    for (uint32_t v : k) s += std::to_string(v) + ",";
    return s;
  };
  std::string a = keys(ls.sps) + "|" + keys(ls.pps) + "|" + keys(ls.subset_sps);
  std::string b = keys(ms.sps) + "|" + keys(ms.pps) + "|" + keys(ms.subset);
  if (a != b)
    x.fail("store-keys", std::string(where) + ": store holds " + a +
                             " expected " + b);
}

}  // namespace sim
