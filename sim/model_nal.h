// Reference model: NAL units, byte streams, length-prefixed streams, RTP.
#pragma once
#include "model_slice.h"

namespace model {

inline NalHeader nal_header(Codec& c, const NalHeader* want = nullptr) {
  NalHeader h;
  c.open("nal_unit_header");
  if (c.enc) c.want(want->forbidden);
  h.forbidden = c.u("forbidden_zero_bit", 1);
  if (c.enc) c.want(want->ref_idc);
  h.ref_idc = c.u("nal_ref_idc", 2);
  if (c.enc) c.want(want->type);
  h.type = c.u("nal_unit_type", 5);
  if (h.type == 14 || h.type == 20) {
    if (c.enc) c.want(want->svc);
    h.svc = c.u("svc_extension_flag", 1);
    if (!h.svc) throw Unimplemented{};  // MVC header extension
    c.open("nal_unit_header_svc_extension");
    if (c.enc) c.want(want->idr);
    h.idr = c.u("idr_flag", 1);
    c.u("priority_id", 6);
    if (c.enc) c.want(want->no_inter_layer_pred);
    h.no_inter_layer_pred = c.u("no_inter_layer_pred_flag", 1);
    h.dependency_id = c.u("dependency_id", 3);
    if (c.enc) c.want(want->quality_id);
    h.quality_id = c.u("quality_id", 4);
    c.u("temporal_id", 3);
    if (c.enc) c.want(want->use_ref_base_pic);
    h.use_ref_base_pic = c.u("use_ref_base_pic_flag", 1);
    c.u("discardable_flag", 1);
    c.u("output_flag", 1);
    c.u("reserved_three_2bits", 2);
    c.close();
  } else if (h.type == 21) {
    c.u("avc_3d_extension_flag", 1);
    throw Unimplemented{};  // MVC or 3D-AVC header extension
  }
  c.close();
  return h;
}

// Types whose payload the library decodes.
inline bool decoded_type(uint32_t t) {
  return t == 1 || t == 5 || t == 7 || t == 8 || t == 14 || t == 15 || t == 20;
}

struct PayloadResult {
  std::string text;  // dump of the payload, without the nal_unit_payload { }
  bool parsed = false;
  SliceFacts slice;
  int unimplemented = 0;
  bool stored = false;
};

// Decode one payload and apply it to the store.
inline PayloadResult decode_payload(Codec& c, const NalHeader& h, Store& st) {
  PayloadResult r;
  Gen g;
  SliceGen sg;
  std::string saved;
  saved.swap(c.out);
  try {
    switch (h.type) {
      case 1:
      case 5:
        c.open("slice_layer_without_partitioning_rbsp");
        r.slice = slice_header(c, h, st, sg);
        c.close();
        r.parsed = true;
        break;
      case 7: {
        Sps s = sps(c, g);
        s.text = c.out;
        st.sps[s.id] = s;
        r.parsed = r.stored = true;
        break;
      }
      case 8: {
        // the identifiers come first; they decide which SPS applies
        BitReader peek = c.r;
        uint32_t chroma = 1;
        try {
          uint64_t a = peek.ue();
          uint64_t b = peek.ue();
          if (a <= 255 && b <= 31) chroma = st.chroma_for_pps((uint32_t)b);
        } catch (Reject&) {
        }
        Pps p = pps(c, g, chroma);
        p.text = c.out;
        st.pps[p.id] = p;
        r.parsed = r.stored = true;
        break;
      }
      case 14:
        if (h.svc) {
          prefix_unit(c, h);
          r.parsed = true;
        }
        break;
      case 15: {
        SubsetSps s = subset_sps(c, g);
        s.text = c.out;
        st.subset[s.d.id] = s;
        r.parsed = r.stored = true;
        break;
      }
      case 20:
        c.open("slice_layer_extension_rbsp");
        if (h.svc)
          r.slice = slice_header_svc(c, h, st, sg);
        else
          r.slice = slice_header(c, h, st, sg);
        c.close();
        r.parsed = true;
        break;
      default:
        r.parsed = true;  // nothing to decode
    }
  } catch (Reject&) {
    c.out.clear();
    r.slice = SliceFacts();
    r.parsed = false;
  } catch (Unimplemented&) {
    c.out.clear();
    r.slice = SliceFacts();
    r.parsed = false;
    r.unimplemented = 1;
  }
  r.text.swap(c.out);
  c.out.swap(saved);
  return r;
}

inline std::string payload_text(const PayloadResult& r) {
  return r.text.empty() ? "nal_unit_payload { }"
                        : "nal_unit_payload { " + r.text + " }";
}

inline uint32_t checksum(const Bytes& rbsp) {
  // ones' complement sum of big-endian 32-bit words, zero padded at the end
  uint64_t sum = 0;
  for (size_t i = 0; i < rbsp.size(); i += 4) {
    uint32_t w = 0;
    for (size_t j = 0; j < 4; j++)
      w = (w << 8) | (i + j < rbsp.size() ? rbsp[i + j] : 0);
    sum += w;
  }
  while (sum >> 32) sum = (sum & 0xffffffffu) + (sum >> 32);
  return (uint32_t)~sum;
}

// The expected report for one NAL unit.
struct Unit {
  bool reported = false;  // false: nothing can be said about these bytes
  size_t offset = 0, length = 0, parsed_length = 0;
  uint32_t sum = 0;
  NalHeader header;
  std::string header_text;
  PayloadResult payload;
  int unimplemented = 0;
};

inline Unit decode_unit(const uint8_t* d, size_t n, Store& st) {
  Unit u;
  Bytes rb = unescape(d, n);
  u.length = n;
  u.sum = checksum(rb);
  Codec c;
  c.r.d = rb.data();
  c.r.n = rb.size();
  try {
    u.header = nal_header(c);
  } catch (Reject&) {
    return u;
  } catch (Unimplemented&) {
    u.unimplemented = 1;
    return u;
  }
  u.header_text = c.out;
  u.reported = true;
  u.payload = decode_payload(c, u.header, st);
  u.unimplemented += u.payload.unimplemented;
  u.parsed_length = (c.r.pos + 7) / 8;
  return u;
}

// Text of the one-line dump.  "parsed_length: *" when the payload was rejected:
// how far a rejected payload was read is not specified.
inline std::string unit_text(const Unit& u) {
  char b[160];
  std::string pl = "*";
  if (u.payload.parsed) {
    snprintf(b, sizeof b, "0x%08zx", u.parsed_length);
    pl = b;
  }
  snprintf(b, sizeof b,
           "nal_unit { offset: 0x%08zx length: %zu parsed_length: %s "
           "checksum: 0x%08x ",
           u.offset, u.length, pl.c_str(), u.sum);
  return std::string(b) + u.header_text + " " + payload_text(u.payload) + " }";
}

// --------------------------------------------------------------- framings
struct Span {
  size_t off, len;
};

// Byte stream format: every 00 00 01 opens a unit (empty if nothing follows); zero bytes before the next start code (or the end) are not part of it.
inline std::vector<Span> split_start_codes(const Bytes& d) {
  std::vector<Span> v;
  std::vector<size_t> starts;
  for (size_t i = 0; i + 3 <= d.size();) {
    if (d[i] == 0 && d[i + 1] == 0 && d[i + 2] == 1) {
      starts.push_back(i);
      i += 3;
    } else {
      i++;
    }
  }
  for (size_t k = 0; k < starts.size(); k++) {
    size_t b = starts[k] + 3;
    size_t e = k + 1 < starts.size() ? starts[k + 1] : d.size();
    while (e > b && d[e - 1] == 0) e--;
    v.push_back({b, e - b});
  }
  return v;
}

inline std::vector<Span> split_lengths(const Bytes& d, size_t k) {
  std::vector<Span> v;
  if (k == 0) {
    if (!d.empty()) v.push_back({0, d.size()});
    return v;
  }
  size_t i = 0;
  while (d.size() - i >= k && i < d.size()) {
    bool big = false;
    uint64_t n = 0;
    for (size_t j = 0; j < k; j++) {
      if (n >> 40) big = true;
      n = (n << 8) | d[i + j];
    }
    i += k;
    if (big || n == 0 || n > d.size() - i) break;
    v.push_back({i, (size_t)n});
    i += (size_t)n;
  }
  return v;
}

// ------------------------------------------------------------------- RTP
struct RtpResult {
  bool reported = false;
  std::string text;
  int unimplemented = 0;
  std::vector<PayloadResult> payloads;
};

inline RtpResult decode_rtp(const Bytes& pkt, Store& st) {
  RtpResult r;
  if (pkt.empty()) return r;
  uint32_t type = pkt[0] & 0x1f;
  Bytes rb = type == 24 ? pkt : unescape(pkt.data(), pkt.size());
  Codec c;
  c.r.d = rb.data();
  c.r.n = rb.size();
  try {
    nal_header(c);
  } catch (Reject&) {
    return r;
  } catch (Unimplemented&) {
    r.unimplemented = 1;
    return r;
  }
  std::string head = c.out;
  r.text = "rtp { " + head;
  if (type <= 23) {
    Unit u = decode_unit(pkt.data(), pkt.size(), st);
    r.unimplemented += u.unimplemented;
    r.payloads.push_back(u.payload);
    r.text += " rtp_single { " + head + " " + payload_text(u.payload) + " }";
    r.reported = true;
  } else if (type == 24) {
    r.text += " rtp_stapa { " + head;
    size_t i = 1;
    while (pkt.size() > i) {
      if (pkt.size() - i < 2) return r;
      size_t n = (size_t)pkt[i] * 256 + pkt[i + 1];
      i += 2;
      if (n > pkt.size() - i) return r;
      // one byte left over cannot be another size: it belongs to the last unit
      size_t extra = pkt.size() - i == n + 1 ? 1 : 0;
      Unit u = decode_unit(pkt.data() + i, n + extra, st);
      r.unimplemented += u.unimplemented;
      if (!u.reported) return r;
      r.payloads.push_back(u.payload);
      r.text += " nal_unit_size: " + std::to_string(n) + " " + u.header_text +
                " " + payload_text(u.payload);
      i += n + extra;
    }
    r.text += " }";
    r.reported = true;
  } else if (type == 28) {
    if (rb.size() < 2) return r;
    uint32_t s = rb[1] >> 7, e = (rb[1] >> 6) & 1, x = (rb[1] >> 5) & 1;
    uint32_t t = rb[1] & 31;
    r.text += " rtp_fua { " + head + " s_bit: " + std::to_string(s) +
              " e_bit: " + std::to_string(e) + " r_bit: " + std::to_string(x) +
              " fu_type: " + std::to_string(t);
    if (s) {
      NalHeader h;
      h.ref_idc = (pkt[0] >> 5) & 3;
      h.type = t;
      Codec p;
      p.r.d = rb.data();
      p.r.n = rb.size();
      p.r.pos = 16;
      PayloadResult pr = decode_payload(p, h, st);
      r.unimplemented += pr.unimplemented;
      r.payloads.push_back(pr);
      r.text += " " + payload_text(pr);
    }
    r.text += " }";
    r.reported = true;
  } else {
    r.reported = true;
  }
  r.text += " }";
  return r;
}

}  // namespace model
