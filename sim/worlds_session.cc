// Worlds in which simulated senders, a simulated network or disk, and receiving
// sessions built on the real library meet.
#include "session.h"

namespace sim {

static Lines gen_rtp(uint64_t seed) {
  Rng r(seed);
  bool faults = !r.chance(1, 5);
  int sessions = 1 + (int)r.below(3);
  std::vector<Event> ev;
  uint64_t seq = 0;
  for (int s = 0; s < sessions; s++) {
    NetKnobs nk = draw_net(r, faults);
    Sender snd(r.next());
    if (!faults) snd.k.damage_pm = 0;
    size_t n = run_length(r, 4, 28, 600);
    long_knobs(snd.k, n);
    std::vector<Nal> units;
    for (size_t i = 0; i < n; i++) {
      Nal u = snd.next();
      if (r.below(1000) < snd.k.damage_pm) damage(u.b, r);
      units.push_back(u);
    }
    std::vector<std::pair<Bytes, std::string>> pk;
    packetise(r, nk, units, pk);
    uint64_t t = r.below(5000);
    uint64_t b0 = 0, b1 = 0;
    if (nk.blackout) {
      b0 = r.below(pk.size() * 3000 + 1);
      b1 = b0 + r.below(20000);
    }
    Bytes prev;
    for (auto& p : pk) {
      t += 500 + r.below(5000);
      uint64_t base = t + 20000;
      if (r.below(1000) < nk.restart)
        ev.push_back({base, seq++, fmt("restart %d%s ~receiver-crash", s, r.chance(1, 2) ? " place" : "")});
      if (t >= b0 && t < b1) {
        ev.push_back({base, seq++, fmt("lost %d ~blackout", s)});
        continue;
      }
      if (r.below(1000) < nk.loss) {
        ev.push_back({base, seq++, fmt("lost %d ~loss", s)});
        continue;
      }
      int copies = 1 + (r.below(1000) < nk.dup);
      for (int c = 0; c < copies; c++) {
        Bytes b = p.first;
        std::string f = c ? " ~dup" : "";
        if (r.below(1000) < nk.damage)
          f += " ~" + damage(b, r, prev.empty() ? nullptr : &prev);
        uint64_t jit = r.below(nk.jitter_us);
        if (jit > 8000) f += " ~delay";
        ev.push_back({base + jit, seq++,
                      fmt("rtp %d ", s) + p.second + " " + hex(b) + f});
      }
      prev = p.first;
    }
  }
  std::sort(ev.begin(), ev.end());
  Lines l;
  if (r.chance(1, 3)) l.push_back("keep");
  uint64_t last = 0;
  for (auto& e : ev) {
    l.push_back(e.line);
    last = e.at;
  }
  l.push_back(fmt("end %llu", (unsigned long long)last));
  return l;
}

static void end_session(std::map<long, Session>& ses, const Op& o) {
  if (o[2] == "place" && ses.count(o.num(1)))
    ses[o.num(1)].reborn();
  else
    ses.erase(o.num(1));
}

static void exec_rtp(const Lines& l, Ctx& x) {
  std::map<long, Session> ses;
  Kept kept;
  size_t i = 0;
  for (auto& line : l) {
    Op o(line);
    count_op(x, o);
    std::string where = fmt("line %zu", ++i);
    x.log.add(o[0] + " " + o[1]);
    if (o[0] == "keep") {
      kept.on = true;
    } else if (o[0] == "restart") {
      end_session(ses, o);
    } else if (o[0] == "rtp") {
      x.stats.add("packet:" + o[2]);
      deliver_rtp(x, ses[o.num(1)], unhex(o[3]), where.c_str(), true, &kept);
    } else if (o[0] == "end") {
      x.sim_us = strtoull(o[1].c_str(), nullptr, 10);
    }
  }
}

// ============================================================ store world
// Parameter sets redefined, damaged, repeated and lost; the whole store is
// compared with the model after every delivery.
static void exec_store(const Lines& l, Ctx& x) {
  std::map<long, Session> ses;
  Kept kept;
  size_t i = 0;
  for (auto& line : l) {
    Op o(line);
    count_op(x, o);
    std::string where = fmt("line %zu", ++i);
    x.log.add(o[0] + " " + o[1]);
    if (o[0] == "keep") {
      kept.on = true;
      continue;
    }
    if (o[0] == "restart") {
      end_session(ses, o);
      continue;
    }
    if (o[0] == "end") {
      x.sim_us = strtoull(o[1].c_str(), nullptr, 10);
      continue;
    }
    Session& s = ses[o.num(1)];
    if (o[0] == "nal") {
      Bytes b = unhex(o[2]);
      size_t before = s.model.sps.size() + s.model.pps.size() + s.model.subset.size();
      auto got = lib_nal(b, s.lib.get());
      model::Unit m = model::decode_unit(b.data(), b.size(), s.model);
      check_unit(x, got.get(), m, where.c_str(), false);
      size_t after = s.model.sps.size() + s.model.pps.size() + s.model.subset.size();
      if (m.payload.stored) x.stats.add(after > before ? "probe:set-new" : "probe:set-replaced");
      if (m.reported && !m.payload.parsed) x.stats.add("probe:unit-rejected");
      if (m.payload.slice.is_slice) x.stats.add("probe:slice-decoded");
      kept.add(std::move(got));
    } else if (o[0] == "rtp") {
      deliver_rtp(x, s, unhex(o[2]), where.c_str(), true, &kept);
    } else if (o[0] == "stream") {
      Bytes b = unhex(o[2]);
      auto got = lib_stream(b, s.lib.get());
      size_t k = 0;
      if (!got) x.fail("no-stream", where);
      for (auto& sp : model::split_start_codes(b)) {
        model::Unit m = model::decode_unit(b.data() + sp.off, sp.len, s.model);
        m.offset = sp.off;
        if (!m.reported) continue;
        check_unit(x, k < got->nal_units.size() ? got->nal_units[k].get() : nullptr, m, where.c_str(), true);
        k++;
      }
      if (k != got->nal_units.size()) x.fail("unit-unexpected", where + ": more units than the stream holds");
      kept.add(std::move(got));
    }
    if (l.size() < 100 || i % 32 == 0)
      check_store(x, *s.lib, s.model, where.c_str());
    else
      check_keys(x, *s.lib, s.model, where.c_str());
  }
  for (auto& s : ses) check_store(x, *s.second.lib, s.second.model, "at the end");
}

static Lines gen_store(uint64_t seed) {
  Rng r(seed);
  bool faults = !r.chance(1, 5);
  int sessions = 1 + (int)r.below(2);
  Lines l;
  if (r.chance(1, 3)) l.push_back("keep");
  std::vector<Sender> snd;
  for (int s = 0; s < sessions; s++) {
    snd.emplace_back(r.next());
    Knobs& k = snd.back().k;
    k.weight[kSps] = 3 + (int)r.below(6);
    k.weight[kPps] = 3 + (int)r.below(8);
    if (r.chance(2, 3)) k.weight[kSubset] = 2 + (int)r.below(6);
  }
  unsigned dmg = faults ? (unsigned)r.below(350) : 0;
  unsigned loss = faults ? (unsigned)r.below(150) : 0;
  unsigned dup = faults ? (unsigned)r.below(250) : 0;
  unsigned restart = faults && r.chance(1, 3) ? 30 : 0;
  std::vector<std::vector<Bytes>> sent((size_t)sessions);
  uint64_t t = 0;
  size_t total = run_length(r, 6, 30, 700);
  for (auto& s : snd) long_knobs(s.k, total);
  for (size_t n = total; n--;) {
    t += 1000 + r.below(30000);
    size_t s = (size_t)r.below((uint64_t)sessions);
    if (r.below(1000) < restart) l.push_back(fmt("restart %zu%s ~receiver-crash", s, r.chance(1, 2) ? " place" : ""));
    std::vector<Bytes> batch;
    std::string f;
    size_t cnt = r.chance(1, 5) ? 2 + (size_t)r.below(4) : 1;
    for (size_t i = 0; i < cnt; i++) {
      Bytes b;
      if (!sent[s].empty() && r.below(1000) < dup) {
        b = sent[s][(size_t)r.below(sent[s].size())];
        f += " ~stale-redelivery";
      } else {
        b = snd[s].next().b;
        sent[s].push_back(b);
      }
      if (r.below(1000) < loss) {
        f += " ~loss";
        continue;
      }
      if (r.below(1000) < dmg) f += " ~" + damage(b, r, sent[s].empty() ? nullptr : &sent[s][0]);
      if (!b.empty()) batch.push_back(b);
    }
    if (batch.empty()) continue;
    bool fits = true;
    for (auto& b : batch) fits = fits && b.size() < 65536;
    if (batch.size() == 1 && r.chance(3, 4)) {
      l.push_back(fmt("%s %zu ", r.chance(1, 3) ? "rtp" : "nal", s) + hex(batch[0]) + f);
    } else if (r.chance(1, 2) || !fits) {
      l.push_back(fmt("stream %zu ", s) + hex(annexb(batch, r)) + f);
    } else {
      Bytes p{0x78};
      for (auto& b : batch) {
        p.push_back((uint8_t)(b.size() >> 8));
        p.push_back((uint8_t)b.size());
        p.insert(p.end(), b.begin(), b.end());
      }
      l.push_back(fmt("rtp %zu ", s) + hex(p) + f);
    }
  }
  l.push_back(fmt("end %llu", (unsigned long long)t));
  return l;
}

void add_session_worlds() {
  worlds().push_back({"rtp", gen_rtp, exec_rtp, shrink_hex_line});
  worlds().push_back({"store", gen_store, exec_store, shrink_hex_line});
}

}  // namespace sim
