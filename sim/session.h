// Simulated senders' network and receiving sessions, shared by the worlds.
#pragma once
#include "lib.h"

namespace sim {

// ============================================================ network
// Discrete-event network.  Packets get a send time, a latency and faults; what
// reaches the receivers, in order of simulated arrival, is the scenario.
struct NetKnobs {
  unsigned loss, dup, damage, jitter_us, restart;  // per mille
  unsigned stapa, fua;
  bool blackout;
};
inline NetKnobs draw_net(Rng& r, bool faults) {
  NetKnobs n{};
  n.jitter_us = 1;
  n.stapa = r.chance(1, 2) ? (unsigned)r.below(600) : 0;
  n.fua = r.chance(1, 2) ? (unsigned)r.below(500) : 0;
  if (!faults) return n;
  if (r.chance(1, 2)) n.loss = (unsigned)r.below(150);
  if (r.chance(1, 2)) n.dup = (unsigned)r.below(150);
  if (r.chance(1, 2)) n.damage = (unsigned)r.below(200);
  if (r.chance(1, 2)) n.jitter_us = 1 + (unsigned)r.below(60000);
  if (r.chance(1, 4)) n.restart = (unsigned)r.below(60);
  n.blackout = r.chance(1, 5);
  return n;
}

struct Event {
  uint64_t at, seq;
  std::string line;
  bool operator<(const Event& o) const {
    return at != o.at ? at < o.at : seq < o.seq;
  }
};

inline void packetise(Rng& r, const NetKnobs& nk, const std::vector<Nal>& units,
                      std::vector<std::pair<Bytes, std::string>>& out) {
  for (size_t i = 0; i < units.size();) {
    const Bytes& b = units[i].b;
    if (b.empty()) {
      i++;
      continue;
    }
    if (r.below(1000) < nk.stapa) {
      size_t k = 1 + (size_t)r.below(r.chance(1, 30) ? 40 : 4);
      for (size_t j = i; j < units.size() && j < i + k; j++)
        if (units[j].b.size() > 65535) k = j - i;
      if (k == 0) {
        out.push_back({b, "single"});
        i++;
        continue;
      }
      Bytes p;
      uint8_t nri = 0;
      for (size_t j = i; j < units.size() && j < i + k; j++)
        nri = std::max<uint8_t>(nri, (units[j].b.empty() ? 0 : units[j].b[0]) & 0x60);
      p.push_back((uint8_t)(nri | 24));
      size_t j = i;
      for (; j < units.size() && j < i + k; j++) {
        p.push_back((uint8_t)(units[j].b.size() >> 8));
        p.push_back((uint8_t)units[j].b.size());
        p.insert(p.end(), units[j].b.begin(), units[j].b.end());
      }
      out.push_back({p, "stapa"});
      i = j;
      continue;
    }
    if (r.below(1000) < nk.fua && b.size() > 3) {
      size_t frags = 2 + (size_t)r.below(4);
      size_t body = b.size() - 1, per = (body + frags - 1) / frags;
      for (size_t o = 0; o < body; o += per) {
        size_t n = std::min(per, body - o);
        Bytes p;
        p.push_back((uint8_t)((b[0] & 0xe0) | 28));
        p.push_back((uint8_t)((o == 0 ? 0x80 : 0) | (o + n == body ? 0x40 : 0) |
                              (b[0] & 0x1f)));
        p.insert(p.end(), b.begin() + 1 + (long)o, b.begin() + 1 + (long)(o + n));
        out.push_back({p, "fua"});
      }
      i++;
      continue;
    }
    out.push_back({b, "single"});
    i++;
  }
}

// Reports a caller still holds.
struct Kept {
  bool on = false;
  std::vector<std::shared_ptr<const void>> v;
  template <class T>
  void add(std::unique_ptr<T> p) {
    if (!on || !p) return;
    if (v.size() >= 64) v.erase(v.begin(), v.begin() + 32);
    v.push_back(std::shared_ptr<const void>(std::move(p)));
  }
};

struct Session {
  std::unique_ptr<LibState> lib;
  Store model;
  Session() : lib(new LibState) {}
  // ends, and a new session begins where it was
  void reborn() {
    lib->~LibState();
    new (lib.get()) LibState;
    model = Store();
  }
};

inline void deliver_rtp(Ctx& x, Session& s, const Bytes& b, const char* where,
                        bool counters = true, Kept* kept = nullptr) {
  uint32_t c0 = h264nal::get_unimplemented_count();
  auto got = lib_rtp(b, s.lib.get());
  uint32_t dc = h264nal::get_unimplemented_count() - c0;
  model::RtpResult m = model::decode_rtp(b, s.model);
  if (!got) {
    x.log.add("none");
    x.stats.add("probe:packet-rejected");
    if (m.reported) x.fail("packet-missing", fmt("%s: no report for a decodable packet", where));
  } else {
    std::string g = dump_rtp(*got);
    x.log.add(g);
    if (!m.reported) x.fail("packet-unexpected", fmt("%s: a report for a packet that cannot be decoded", where));
    if (m.text != g) x.fail("report-differs", std::string(where) + ": " + text_diff(m.text, g));
    // facts that are not in the dump
    std::vector<std::pair<const LibPayload*, uint32_t>> pl;
    if (got->rtp_single) pl.push_back({got->rtp_single->nal_unit_payload.get(), got->rtp_single->nal_unit_header->nal_unit_type});
    if (got->rtp_stapa)
      for (size_t i = 0; i < got->rtp_stapa->nal_unit_payloads.size(); i++)
        pl.push_back({got->rtp_stapa->nal_unit_payloads[i].get(), got->rtp_stapa->nal_unit_headers[i]->nal_unit_type});
    if (got->rtp_fua && got->rtp_fua->nal_unit_payload) pl.push_back({got->rtp_fua->nal_unit_payload.get(), got->rtp_fua->fu_type});
    for (size_t i = 0; i < pl.size() && i < m.payloads.size(); i++) {
      if (pl[i].first->IsPayloadParsed(pl[i].second) != m.payloads[i].parsed)
        x.fail("verdict-differs", fmt("%s: unit %zu", where, i));
      check_slice_facts(x, *pl[i].first, pl[i].second, m.payloads[i], where);
      if (m.payloads[i].slice.is_slice) x.stats.add("probe:slice-decoded");
      if (m.payloads[i].stored) x.stats.add("probe:set-stored");
      if (!m.payloads[i].parsed) x.stats.add("probe:unit-rejected");
    }
  }
  if (counters && dc != (uint32_t)m.unimplemented)
    x.fail("unsupported-count", fmt("%s: %u unsupported constructs counted, expected %d", where, dc, m.unimplemented));
  if (m.unimplemented) x.stats.add("probe:unsupported-seen");
  check_keys(x, *s.lib, s.model, where);
  if (kept) kept->add(std::move(got));
}

inline void check_store(Ctx& x, const LibState& ls, const Store& ms,
                        const char* where) {
  check_keys(x, ls, ms, where);
  for (auto& e : ms.sps) {
    auto p = ls.GetSps(e.first);
    if (!p) x.fail("store-missing", fmt("%s: SPS %u", where, e.first));
    std::string g = dump_with([&](FILE* f) { p->fdump(f, -1, all_options()); });
    if (g != e.second.text) x.fail("store-content", fmt("%s: SPS %u: ", where, e.first) + text_diff(e.second.text, g));
  }
  for (auto& e : ms.pps) {
    auto p = ls.GetPps(e.first);
    if (!p) x.fail("store-missing", fmt("%s: PPS %u", where, e.first));
    std::string g = dump_with([&](FILE* f) { p->fdump(f, -1); });
    if (g != e.second.text) x.fail("store-content", fmt("%s: PPS %u: ", where, e.first) + text_diff(e.second.text, g));
  }
  for (auto& e : ms.subset) {
    auto p = ls.GetSubsetSps(e.first);
    if (!p) x.fail("store-missing", fmt("%s: subset SPS %u", where, e.first));
    std::string g = dump_with([&](FILE* f) { p->fdump(f, -1, all_options()); });
    if (g != e.second.text) x.fail("store-content", fmt("%s: subset SPS %u: ", where, e.first) + text_diff(e.second.text, g));
  }
  // identifiers that were never defined stay undefined
  for (uint32_t id : {0u, 1u, 2u, 5u, 31u, 32u, 255u, 256u, 0xffffffffu}) {
    if (!ms.sps.count(id) && ls.GetSps(id)) x.fail("store-extra", fmt("%s: SPS %u", where, id));
    if (!ms.pps.count(id) && ls.GetPps(id)) x.fail("store-extra", fmt("%s: PPS %u", where, id));
    if (!ms.subset.count(id) && ls.GetSubsetSps(id)) x.fail("store-extra", fmt("%s: subset SPS %u", where, id));
  }
}

inline Bytes annexb(const std::vector<Bytes>& u, Rng& r) {
  Bytes o;
  for (auto& b : u) {
    if (r.chance(1, 2)) o.push_back(0);
    o.push_back(0);
    o.push_back(0);
    o.push_back(1);
    o.insert(o.end(), b.begin(), b.end());
    if (r.chance(1, 8))
      for (uint64_t z = r.below(4); z--;) o.push_back(0);
  }
  return o;
}

}  // namespace sim
