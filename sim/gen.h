// Workload generation: a sending side that produces NAL units from its own view
// of the parameter sets, packetisation, and damage.
#pragma once
#include "core.h"
#include "model_nal.h"

namespace sim {
using model::Codec;
using model::NalHeader;
using model::Store;

enum Kind { kSps, kPps, kSubset, kSlice, kSliceExt, kPrefix, kOther, kKinds };

struct Nal {
  Bytes b;  // escaped bytes, header included
  Kind kind = kOther;
  uint32_t type = 0;
};

// Swarm knobs, drawn once per run.
struct Knobs {
  int weight[kKinds];
  uint32_t sps_span, pps_span;
  bool small;
  int vui, high, map_type;
  int slice_type;
  unsigned damage_pm;  // per mille of units made invalid by the sender
  size_t max_tail;
  unsigned huge_pm;  // per mille of units with a very long tail
  int sizes = 0;     // >0: only this many different picture sizes
  unsigned wild_pm = 0;  // per mille of bounded elements outside their range
};

inline Knobs draw_knobs(Rng& r) {
  Knobs k;
  static const int base[kKinds] = {3, 4, 2, 8, 4, 2, 2};
  for (int i = 0; i < kKinds; i++) {
    k.weight[i] = base[i];
    if (r.chance(1, 5)) k.weight[i] *= 4;
    if (r.chance(1, 6)) k.weight[i] = 0;
  }
  if (r.chance(1, 2)) k.weight[kSubset] = k.weight[kSliceExt] = k.weight[kPrefix] = 0;
  if (!k.weight[kSps] && !k.weight[kSubset]) k.weight[kSps] = 2;
  if (!k.weight[kPps]) k.weight[kPps] = 2;
  if (!k.weight[kSlice] && !k.weight[kSliceExt]) k.weight[kSlice] = 6;
  static const uint32_t spans[] = {1, 1, 2, 2, 3, 32};
  k.sps_span = spans[r.below(6)];
  static const uint32_t pspans[] = {1, 2, 2, 3, 4, 256};
  k.pps_span = pspans[r.below(6)];
  k.small = !r.chance(1, 8);
  k.vui = r.chance(1, 3) ? (int)r.below(2) : -1;
  k.high = r.chance(1, 3) ? (int)r.below(2) : -1;
  k.map_type = r.chance(1, 4) ? (int)r.below(7) : r.chance(1, 3) ? -2 : -1;
  if (r.chance(1, 6)) k.map_type = 3 + (int)r.below(3);
  k.slice_type = r.chance(1, 6) ? (int)r.below(10) : -1;
  k.damage_pm = r.chance(1, 2) ? 0 : (unsigned)r.below(200);
  k.max_tail = r.chance(1, 4) ? 200 : 12;
  k.huge_pm = r.chance(1, 30) ? 20 + (unsigned)r.below(150) : 0;
  k.wild_pm = r.chance(1, 4) ? 2 + (unsigned)r.below(30) : 0;
  return k;
}

inline uint32_t any_key_pps(const Store& st, Rng& r) {
  auto it = st.pps.begin();
  std::advance(it, (long)r.below(st.pps.size()));
  return it->first;
}

// A tail around the sizes where counters and buffers of 8, 12 or 16 bits end.
inline void long_tail(Bytes& b, Rng& r) {
  static const uint32_t at[] = {255, 512, 1024, 1500, 4096, 8192, 32768, 65535, 65535, 70000};
  size_t z = at[r.below(10)] + (size_t)r.below(7) - 3;
  if (r.chance(1, 4)) z = 200 + (size_t)r.below(70000);
  int mode = (int)r.below(4);
  uint64_t q = r.next() | 1;
  while (b.size() < z) {
    q = q * 6364136223846793005ull + 1442695040888963407ull;
    uint8_t v = (uint8_t)(q >> 56);
    b.push_back(mode == 0 ? 0 : mode == 1 ? 0xff : mode == 2 ? v : v & 0x80 ? v & 3 : v);
  }
  b.push_back(0x80);
}

// Makes the 32-bit sum of the unit's words end where folding its carries in
// produces another carry (or just not).
inline void extreme_sum(Bytes& b, Rng& r) {
  Bytes rb = model::unescape(b.data(), b.size());
  while (rb.size() & 3) rb.push_back(0xff);
  for (uint64_t k = 4 * (1 + r.below(4)); k--;) rb.push_back(0xff);
  uint64_t s = 0;
  for (size_t i = 0; i < rb.size(); i += 4)
    s += (uint32_t)rb[i] << 24 | (uint32_t)rb[i + 1] << 16 | (uint32_t)rb[i + 2] << 8 | rb[i + 3];
  for (int k = 0; k < 16; k++) {
    uint32_t low = 0xffffffffu - (uint32_t)r.below((s >> 32) + 3);
    uint32_t w = low - (uint32_t)s;
    if (!(w & 0xff)) continue;
    for (int j = 3; j >= 0; j--) rb.push_back((uint8_t)(w >> (8 * j)));
    b = model::escape(rb);
    return;
  }
}

// Once in a while a run is long.
inline size_t run_length(Rng& r, size_t lo, size_t span, size_t many) {
  size_t n = lo + (size_t)r.below(span);
  return r.chance(1, 250) ? many / 2 + (size_t)r.below(many / 2 + 1) : n;
}
inline void long_knobs(Knobs& k, size_t n) {
  if (n < 100) return;
  k.sps_span = 32;
  k.pps_span = 256;
  k.small = true;
  k.huge_pm = 0;
  k.weight[kPps] = std::max(k.weight[kPps], 20);
  k.weight[kSps] = std::max(k.weight[kSps], 6);
}

struct Sender {
  Store st;
  Rng r;
  Knobs k;
  // bytes of the last unit that defined each parameter set
  std::map<uint32_t, Bytes> sps_b, pps_b, sub_b;
  explicit Sender(uint64_t seed) : r(seed) { k = draw_knobs(r); }
  Sender(uint64_t seed, const Knobs& kn) : r(seed), k(kn) {}

  Kind pick_kind() {
    int tot = 0;
    for (int i = 0; i < kKinds; i++) tot += k.weight[i];
    int x = (int)r.below((uint64_t)tot);
    for (int i = 0; i < kKinds; i++) {
      if (x < k.weight[i]) return (Kind)i;
      x -= k.weight[i];
    }
    return kSps;
  }
  Nal next() {
    Kind kd = pick_kind();
    // a slice needs its parameter sets most of the time
    if (kd == kSlice || kd == kSliceExt) {
      bool ready = false;
      for (auto& p : st.pps)
        if (kd == kSlice ? st.sps.count(p.second.sps_id)
                         : st.subset.count(p.second.sps_id))
          ready = true;
      if (!ready && !r.chance(1, 10))
        kd = (kd == kSlice ? st.sps.empty() : st.subset.empty())
                 ? (kd == kSlice ? kSps : kSubset)
                 : kPps;
    }
    return make(kd);
  }
  // the units that re-establish everything this sender has defined
  std::vector<Nal> refresh() {
    std::vector<Nal> v;
    auto add = [&](std::map<uint32_t, Bytes>& m, Kind kd, uint32_t t) {
      for (auto& e : m) {
        Nal n;
        n.b = e.second;
        n.kind = kd;
        n.type = t;
        v.push_back(n);
      }
    };
    add(sps_b, kSps, 7);
    add(sub_b, kSubset, 15);
    add(pps_b, kPps, 8);
    return v;
  }

  Nal make(Kind kd) {
    Nal n;
    n.kind = kd;
    Codec c;
    c.enc = true;
    c.rng = &r;
    c.wild_pm = k.wild_pm;
    Store before;
    if (k.wild_pm) before = st;
    NalHeader h;
    h.forbidden = r.chance(1, 100);
    h.ref_idc = (uint32_t)r.below(4);
    model::Gen g;
    g.small = k.small;
    g.vui = k.vui;
    g.high = k.high;
    g.map_type = k.map_type;
    g.sizes = k.sizes;
    g.sps_id = (uint32_t)r.below(k.sps_span);
    g.pps_id = (uint32_t)r.below(k.pps_span);
    model::SliceGen sg;
    sg.slice_type = k.slice_type;
    bool slice_tail = false;
    auto svc = [&]() {
      h.svc = true;
      h.idr = r.chance(1, 3);
      h.no_inter_layer_pred = r.chance(1, 2);
      h.quality_id = r.chance(2, 3) ? 0 : (uint32_t)r.below(16);
      h.use_ref_base_pic = r.chance(1, 6);
    };
    try {
      switch (kd) {
        case kSps: {
          h.type = 7;
          nal_header(c, &h);
          model::Sps s = model::sps(c, g);
          st.sps[s.id] = s;
          break;
        }
        case kSubset: {
          h.type = 15;
          nal_header(c, &h);
          model::SubsetSps s = model::subset_sps(c, g);
          st.subset[s.d.id] = s;
          break;
        }
        case kPps: {
          h.type = 8;
          nal_header(c, &h);
          // name a set that exists, most of the time
          if (!r.chance(1, 12)) {
            std::vector<uint32_t> ids;
            for (auto& e : st.sps) ids.push_back(e.first);
            for (auto& e : st.subset) ids.push_back(e.first);
            if (!ids.empty()) g.sps_id = ids[r.below(ids.size())];
          }
          model::Pps p = model::pps(c, g, st.chroma_for_pps(g.sps_id));
          st.pps[p.id] = p;
          break;
        }
        case kSlice:
        case kSliceExt: {
          std::vector<uint32_t> ids;
          for (auto& p : st.pps)
            if (kd == kSlice ? st.sps.count(p.second.sps_id)
                             : st.subset.count(p.second.sps_id))
              ids.push_back(p.first);
          if (ids.empty() || r.chance(1, 25))
            sg.pps_id = (uint32_t)r.below(k.pps_span + 1);
          else
            sg.pps_id = ids[r.below(ids.size())];
          slice_tail = true;
          if (kd == kSlice) {
            h.type = r.chance(1, 3) ? 5 : 1;
            if (h.type == 5 && h.ref_idc == 0 && !r.chance(1, 20)) h.ref_idc = 1;
            nal_header(c, &h);
            model::slice_header(c, h, st, sg);
          } else {
            h.type = 20;
            svc();
            if (r.chance(1, 30)) h.svc = false;
            nal_header(c, &h);
            model::slice_header_svc(c, h, st, sg);
          }
          break;
        }
        case kPrefix:
          h.type = 14;
          svc();
          if (r.chance(1, 30)) h.svc = false;
          nal_header(c, &h);
          model::prefix_unit(c, h);
          break;
        default: {
          static const uint8_t t[] = {0,  2,  3,  4,  6,  6,  6,  9,  9, 10, 11,
                                      12, 13, 16, 17, 18, 19, 21, 22, 23};
          h.type = t[r.below(sizeof t)];
          slice_tail = true;
          nal_header(c, &h);
        }
      }
    } catch (model::Reject&) {
      slice_tail = true;
    } catch (model::Unimplemented&) {
      slice_tail = true;
    }
    if (slice_tail) {
      for (uint64_t i = r.below(k.max_tail * 8); i--;) {
        // runs of zeros make emulation prevention work
        c.w.bit(r.chance(1, 4));
      }
      c.w.trailing();
    }
    if (c.wild) st = before;  // nobody will take this one
    n.type = h.type;
    Bytes rb = c.w.b;
    if (slice_tail && k.huge_pm && r.below(1000) < k.huge_pm) long_tail(rb, r);
    n.b = model::escape(rb);
    if (n.b.empty() || n.b.back() == 0) n.b.push_back(0x80);
    if (kd == kSps || kd == kSubset || kd == kPps) {
      // remember what defines the set, as a receiver would take it
      Store tmp = st;
      if (kd == kSps) {
        auto u = model::decode_unit(n.b.data(), n.b.size(), tmp);
        if (u.payload.stored) sps_b[g.sps_id] = n.b;
      } else if (kd == kSubset) {
        auto u = model::decode_unit(n.b.data(), n.b.size(), tmp);
        if (u.payload.stored) sub_b[g.sps_id] = n.b;
      } else if (!c.wild) {
        pps_b[g.pps_id] = n.b;
      }
    }
    return n;
  }
};

// ------------------------------------------------------------------- damage
// Applies one fault to stored or travelling bytes.  Returns its name.
inline std::string damage(Bytes& b, Rng& r, const Bytes* other = nullptr) {
  if (b.empty()) return "none";
  switch (r.below(other ? 9 : 8)) {
    case 0: {
      size_t i = (size_t)r.below(b.size());
      b[i] ^= (uint8_t)(1u << r.below(8));
      return "bit-flip";
    }
    case 1: {
      for (int k = 1 + (int)r.below(6); k--;)
        b[(size_t)r.below(b.size())] ^= (uint8_t)(1u << r.below(8));
      return "bit-flips";
    }
    case 2: {
      size_t i = (size_t)r.below(b.size() < 12 ? b.size() : 12);
      b[i] ^= (uint8_t)(1u << r.below(8));
      return "header-bit-flip";
    }
    case 3:
      b.resize((size_t)r.below(b.size()));
      return "truncate";
    case 4: {
      size_t i = (size_t)r.below(b.size());
      size_t n = 1 + (size_t)r.below(std::min<size_t>(b.size() - i, 8));
      uint8_t v = r.chance(1, 2) ? 0 : 0xff;
      for (size_t j = i; j < i + n; j++) b[j] = v;
      return v ? "ones-range" : "zeroed-range";
    }
    case 5: {
      size_t i = (size_t)r.below(b.size());
      size_t n = 1 + (size_t)r.below(std::min<size_t>(b.size() - i, 8));
      b.erase(b.begin() + (long)i, b.begin() + (long)(i + n));
      return "lost-range";
    }
    case 6: {
      size_t i = (size_t)r.below(b.size() + 1);
      Bytes x;
      for (int k = 1 + (int)r.below(8); k--;)
        x.push_back(r.chance(1, 3) ? (uint8_t)r.below(4) : (uint8_t)r.next());
      b.insert(b.begin() + (long)i, x.begin(), x.end());
      return "inserted-range";
    }
    case 7: {
      size_t i = (size_t)r.below(b.size());
      b[i] = (uint8_t)r.next();
      return "byte-overwrite";
    }
    default: {
      size_t i = (size_t)r.below(b.size());
      size_t j = (size_t)r.below(other->size() + 1);
      b.resize(i);
      b.insert(b.end(), other->begin() + (long)j, other->end());
      return "torn-splice";
    }
  }
}

// -------------------------------------------------------------- shrinking
// Candidate replacements for a line that carries hex (in its longest word).
inline Lines shrink_hex_line(const std::string& line) {
  Lines out;
  Op o(line);
  if (!o.faults.empty()) {
    // keep the annotation: it records how the bytes came about
  }
  if (o.w.empty()) return out;
  size_t at = 0;
  for (size_t i = 1; i < o.w.size(); i++)
    if (o.w[i].size() >= o.w[at].size()) at = i;
  std::string last = o.w[at];
  if (last.size() < 8 || last.find_first_not_of("0123456789abcdef") != std::string::npos)
    return out;
  std::string head, tail;
  for (size_t i = 0; i < at; i++) head += o.w[i] + " ";
  for (size_t i = at + 1; i < o.w.size(); i++) tail += " " + o.w[i];
  for (auto& f : o.faults) tail += " ~" + f;
  Bytes b = unhex(last);
  for (size_t cut = b.size() / 2; cut >= 1; cut /= 2) {
    Bytes c(b.begin(), b.end() - (long)cut);
    if (!c.empty()) out.push_back(head + hex(c) + tail);
  }
  return out;
}

}  // namespace sim
