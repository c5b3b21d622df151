// What a caller asks a report for besides its dump: derived values and names.
#pragma once
#include "libtypes.h"

namespace sim {

struct NoGuard {};

// G is held during every call into the library.
template <class G>
struct Facts {
  std::string out;
  bool rates = true;  // a quotient: depends on the caller's rounding mode
  template <class F>
  auto in(F f) {
    G g{};
    (void)g;
    return f();
  }
  void num(double v) { out += fmt("%.9g ", v); }

  // helpers the repository's own tests do not use: only if they are there
  template <class T>
  auto slice_groups(T& p, int) -> decltype(p.getSliceGroupIdLen(), void()) {
    num(in([&] { return p.getSliceGroupIdLen(); }));
  }
  template <class T>
  void slice_groups(T&, long) {}
  template <class T>
  auto chroma(const T& d, int)
      -> decltype(d.getChromaArrayType(), d.getSubWidthC(), d.getSubHeightC(), d.getCropUnitX(), d.getCropUnitY(), void()) {
    num(in([&] { return d.getChromaArrayType(); }));
    num(in([&] { return d.getSubWidthC(); }));
    num(in([&] { return d.getSubHeightC(); }));
    num(in([&] { return d.getCropUnitX(); }));
    num(in([&] { return d.getCropUnitY(); }));
  }
  template <class T>
  void chroma(const T&, long) {}
  template <class T>
  auto profile(const T& d, int) -> decltype(d.GetProfileType(), void()) {
    auto t = in([&] { return d.GetProfileType(); });
    std::string s;
    in([&] { h264nal::profileTypeToString(t, s); return 0; });
    out += s + ' ';
  }
  template <class T>
  void profile(const T&, long) {}

  void sps_data(const h264nal::H264SpsDataParser::SpsDataState& d) {
    chroma(d, 0);
    profile(d, 0);
    int w = -1, h = -1;
    num(in([&] { return d.getResolution(&w, &h); }));
    num(w);
    num(h);
    if (d.vui_parameters && rates) num(in([&] { return d.vui_parameters->getFramerate(); }));
  }
  void payload(const LibPayload& p, uint32_t type) {
    num(in([&] { return p.IsPayloadParsed(type); }));
    if (p.sps && p.sps->sps_data) sps_data(*p.sps->sps_data);
    if (p.subset_sps && p.subset_sps->seq_parameter_set_data) sps_data(*p.subset_sps->seq_parameter_set_data);
    if (p.pps) slice_groups(*p.pps, 0);
  }
  void type(uint32_t t) {
    out += in([&] { return h264nal::NalUnitTypeToString(t); }) + ' ';
    num(in([&] { return h264nal::IsSliceSegment(t); }));
    num(in([&] { return h264nal::IsNalUnitTypeReserved(t); }));
    num(in([&] { return h264nal::IsNalUnitTypeUnspecified(t); }));
  }
  void unit(const LibUnit& u) {
    if (u.nal_unit_header) {
      type(u.nal_unit_header->nal_unit_type);
      if (u.nal_unit_payload) payload(*u.nal_unit_payload, u.nal_unit_header->nal_unit_type);
    }
    if (u.checksum) {
      out += in([&] { return u.checksum->GetPrintableChecksum(); }) + ' ';
      int n = in([&] { return u.checksum->GetLength(); });
      const char* p = in([&] { return u.checksum->GetChecksum(); });
      num(n);
      for (int i = 0; i < n; i++) out += fmt("%02x", (uint8_t)p[i]);
      out += ' ';
    }
  }
  void stream(const LibStream& s) {
    for (auto& u : s.nal_units)
      if (u) unit(*u);
  }
#ifdef RTP_DEFINE
  void rtp(const LibRtp& r) {
    type(r.nal_unit_header ? r.nal_unit_header->nal_unit_type : 0);
    if (r.rtp_single && r.rtp_single->nal_unit_payload)
      payload(*r.rtp_single->nal_unit_payload, r.rtp_single->nal_unit_header->nal_unit_type);
    if (r.rtp_stapa)
      for (size_t i = 0; i < r.rtp_stapa->nal_unit_payloads.size() && i < r.rtp_stapa->nal_unit_headers.size(); i++)
        payload(*r.rtp_stapa->nal_unit_payloads[i], r.rtp_stapa->nal_unit_headers[i]->nal_unit_type);
    if (r.rtp_fua && r.rtp_fua->nal_unit_payload) payload(*r.rtp_fua->nal_unit_payload, r.rtp_fua->fu_type);
  }
  void of(const LibRtp& u) { rtp(u); }
#endif
  void of(const LibUnit& u) { unit(u); }
  void of(const LibStream& u) { stream(u); }
};

template <class G, class T>
auto facts(const T& v, bool rates = true) -> decltype(std::declval<Facts<G>&>().of(v), std::string()) {
  Facts<G> f;
  f.rates = rates;
  f.of(v);
  return f.out;
}

// One packet of these units: as they are, aggregated or a fragment.
inline Bytes packet_of(const std::vector<Bytes>& u, Rng& r) {
  const Bytes& b = u[0];
  if (u.size() == 1 && r.chance(1, 3)) return b;
  if (b.size() > 2 && r.chance(1, 3)) {
    // a first, middle or last fragment, or flags no sender may combine
    static const uint8_t se[] = {0x80, 0x80, 0x80, 0, 0x40, 0xc0, 0xa0};
    Bytes p{(uint8_t)((b[0] & 0xe0) | 28), (uint8_t)(se[r.below(7)] | (b[0] & 31))};
    p.insert(p.end(), b.begin() + 1, b.end());
    return p;
  }
  Bytes p{0x78};
  for (auto& z : u) {
    if (z.size() > 65535) continue;
    p.push_back((uint8_t)(z.size() >> 8));
    p.push_back((uint8_t)z.size());
    p.insert(p.end(), z.begin(), z.end());
  }
  return p;
}

}  // namespace sim
