// Reference marking: what the decoded reference picture buffer holds after a
// history of frames (H.264 8.2.4, 8.2.5), and an encoder that keeps to the rules.
#pragma once
#include <algorithm>
#include "gen.h"

namespace sim {

struct Ref {
  uint32_t fn = 0;
  int lt = -1;  // long-term index, -1: short-term
  std::string text() const { return lt < 0 ? fmt("fn=%u/STR", fn) : fmt("fn=%u/LTR[%d]", fn, lt); }
};

// Histories the standard says nothing about (a loss made two references
// indistinguishable, or left more than fit) leave the buffer undefined until
// the next picture that empties it.
struct RefBuffer {
  std::vector<Ref> e;  // in decoding order
  bool defined = true, started = false;
  uint32_t max_fn = 0, max_refs = 0, sps_id = 0;

  int64_t wrap(const Ref& r, uint32_t cur) const { return r.fn > cur ? (int64_t)r.fn - max_fn : (int64_t)r.fn; }
  void before(const model::SliceFacts& f, bool idr) {
    if (idr) {
      e.clear();
      defined = true;
    } else if (started && (f.max_frame_num != max_fn || f.max_refs != max_refs || f.sps_id != sps_id)) {
      defined = false;
    }
    started = true;
    max_fn = f.max_frame_num;
    max_refs = f.max_refs;
    sps_id = f.sps_id;
    if (f.field) defined = false;
    int64_t last = -1000000;
    for (auto& r : e) {
      if (r.lt >= 0) continue;
      if (r.fn == f.frame_num || wrap(r, f.frame_num) <= last) defined = false;
      last = wrap(r, f.frame_num);
    }
  }
  size_t room() const { return std::max(max_refs, 1u); }
  void drop_long(uint32_t idx) {
    e.erase(std::remove_if(e.begin(), e.end(), [&](const Ref& r) { return r.lt == (int)idx; }), e.end());
  }
  // returns what the operations say in words
  std::string mark(const model::SliceFacts& f, bool idr, bool ref) {
    if (idr) {
      Ref r;
      r.fn = f.frame_num;
      r.lt = f.idr_long ? 0 : -1;
      if (ref) e.push_back(r);
      return f.idr_long ? "IDR:LTR[0]" : "IDR:STR";
    }
    if (!ref) return "";
    Ref cur;
    cur.fn = f.frame_num;
    std::string say;
    if (!f.adaptive) {
      say = "sliding_window";
      if (e.size() >= room()) {
        auto v = e.end();
        for (auto i = e.begin(); i != e.end(); ++i)
          if (i->lt < 0 && (v == e.end() || wrap(*i, f.frame_num) < wrap(*v, f.frame_num))) v = i;
        if (e.size() > room() || v == e.end()) defined = false;
        if (v != e.end()) e.erase(v);
      }
      e.push_back(cur);
      return say;
    }
    size_t nd = 0, np = 0, nf = 0, nm = 0;
    auto words = [&](const std::string& s) { say += (say.empty() ? "" : ";") + s; };
    auto find = [&](uint32_t diff) {
      // frames: the picture number is the frame number, modulo MaxFrameNum
      uint32_t fn = (uint32_t)(((int64_t)f.frame_num - (int64_t)diff - 1) & (max_fn - 1));
      size_t i = 0;
      while (i < e.size() && !(e[i].lt < 0 && e[i].fn == fn)) i++;
      return std::make_pair(i, fn);
    };
    for (uint32_t op : f.op) {
      if (op == 0) break;
      if (op == 1) {
        auto t = find(f.diff[nd++]);
        if (t.first < e.size()) e.erase(e.begin() + (long)t.first);
        words(fmt("MMCO1:rm_STR(fn=%u)", t.second));
      } else if (op == 2) {
        drop_long(f.ltp[np++]);
        words("MMCO2:rm_LTR");
      } else if (op == 3) {
        auto t = find(f.diff[nd++]);
        uint32_t idx = f.ltf[nf++];
        if (t.first < e.size()) {
          e[t.first].lt = -2;  // out of the way
          drop_long(idx);
          for (auto& r : e)
            if (r.lt == -2) r.lt = (int)idx;
        } else {
          defined = false;  // was the index freed or not?
        }
        words(fmt("MMCO3:STR(fn=%u)->LTR[%u]", t.second, idx));
      } else if (op == 4) {
        uint32_t m = f.mx[nm++];
        e.erase(std::remove_if(e.begin(), e.end(), [&](const Ref& r) { return r.lt >= (int)m; }), e.end());
        words(fmt("MMCO4:max_ltr_idx=%d", (int)m - 1));
      } else if (op == 5) {
        e.clear();
        cur.fn = 0;
        defined = true;
        words("MMCO5:clear_all");
      } else if (op == 6) {
        uint32_t idx = f.ltf[nf++];
        drop_long(idx);
        cur.lt = (int)idx;
        words(fmt("MMCO6:self->LTR[%u]", idx));
      }
    }
    e.push_back(cur);
    if (e.size() > room()) defined = false;
    return say;
  }
  // list 0 of a P picture; false: it names a picture that is not there
  bool list0(const model::SliceFacts& f, std::vector<Ref>* out) const {
    std::vector<Ref> s, l;
    for (auto& r : e) (r.lt < 0 ? s : l).push_back(r);
    std::sort(s.begin(), s.end(), [&](const Ref& a, const Ref& b) { return wrap(a, f.frame_num) > wrap(b, f.frame_num); });
    std::sort(l.begin(), l.end(), [](const Ref& a, const Ref& b) { return a.lt < b.lt; });
    s.insert(s.end(), l.begin(), l.end());
    const std::vector<Ref> all = s;
    size_t at = 0, na = 0, nl = 0;
    int64_t pred = f.frame_num;
    for (uint32_t m : f.mod) {
      if (m == 3) break;
      const Ref* t = nullptr;
      if (m < 2) {
        int64_t d = (int64_t)f.mod_abs[na++] + 1;
        pred = (pred + (m ? d : -d)) & (int64_t)(max_fn - 1);
        for (auto& r : all)
          if (r.lt < 0 && r.fn == (uint32_t)pred) t = &r;
      } else {
        uint32_t n = f.mod_lt[nl++];
        for (auto& r : all)
          if (r.lt == (int)n) t = &r;
      }
      if (!t) return false;
      // 8.2.4.3: put it at the index, close the gap its later occurrence leaves
      std::vector<Ref> n(s.begin(), s.begin() + (long)std::min(at, s.size()));
      n.push_back(*t);
      for (size_t i = at; i < s.size(); i++)
        if (!(s[i].fn == t->fn && s[i].lt == t->lt)) n.push_back(s[i]);
      s = n;
      at++;
    }
    if (s.size() > (size_t)f.l0 + 1) s.resize((size_t)f.l0 + 1);
    *out = s;
    return true;
  }
};

// ------------------------------------------------------------------- encoder
struct Encoder {
  Rng r;
  struct S {
    uint32_t id = 0, log2_fn = 4, refs = 1, poc = 2;
    bool frames_only = true;
  };
  struct P {
    uint32_t id = 0, sps = 0, l0 = 0;
    bool cabac = false;
  };
  std::map<uint32_t, S> sps;
  std::map<uint32_t, P> pps;
  RefBuffer buf;
  uint32_t active = 0, prev = 0, max_lt = 0, idr_id = 0;  // max_lt: indices allowed
  bool first = true;
  unsigned adaptive_pm, idr_pm, nonref_pm, mod_pm;
  explicit Encoder(uint64_t seed) : r(seed) {
    adaptive_pm = r.chance(1, 4) ? 0 : 100 + (unsigned)r.below(800);
    idr_pm = 10 + (unsigned)r.below(r.chance(1, 3) ? 200 : 40);
    nonref_pm = r.chance(1, 3) ? 0 : (unsigned)r.below(400);
    mod_pm = r.chance(1, 3) ? 0 : (unsigned)r.below(600);
  }
  static Bytes done(model::BitWriter& w) {
    w.trailing();
    return model::escape(w.b);
  }
  Bytes sps_unit(const S& s) {
    model::BitWriter w;
    w.bits(0x67, 8);
    w.bits(77, 8);
    w.bits(0, 8);
    w.bits(30, 8);
    w.ue(s.id);
    w.ue(s.log2_fn - 4);
    w.ue(s.poc);
    if (s.poc == 0) w.ue(0);
    w.ue(s.refs);
    w.bit(0);
    w.ue(9);
    w.ue(9);
    w.bit(s.frames_only);
    if (!s.frames_only) w.bit(0);
    w.bit(1);
    w.bit(0);
    w.bit(0);
    return done(w);
  }
  Bytes pps_unit(const P& p) {
    model::BitWriter w;
    w.bits(0x68, 8);
    w.ue(p.id);
    w.ue(p.sps);
    w.bit(p.cabac);
    w.bit(0);
    w.ue(0);
    w.ue(p.l0);
    w.ue(0);
    w.bit(0);
    w.bits(0, 2);
    w.ue(0);
    w.ue(0);
    w.ue(0);
    w.bits(0, 3);
    return done(w);
  }
  Bytes define_sps() {
    S s;
    s.id = (uint32_t)r.below(2);
    if (!first && s.id == active) s.id ^= 1;  // the active one stays as it is
    s.log2_fn = 4 + (uint32_t)(r.chance(1, 2) ? 0 : r.below(3));
    s.refs = 1 + (uint32_t)r.below(r.chance(1, 4) ? 14 : 5);
    s.poc = r.chance(1, 2) ? 0 : 2;
    s.frames_only = !r.chance(1, 4);
    sps[s.id] = s;
    return sps_unit(s);
  }
  Bytes define_pps() {
    P p;
    p.id = (uint32_t)r.below(4);
    auto it = sps.begin();
    std::advance(it, (long)r.below(sps.size()));
    p.sps = it->first;
    p.l0 = (uint32_t)r.below(6);
    p.cabac = r.chance(1, 4);
    pps[p.id] = p;
    return pps_unit(p);
  }
  // something the receiver already has
  Bytes repeat() {
    if (pps.empty() || r.chance(1, 2)) {
      auto it = sps.begin();
      std::advance(it, (long)r.below(sps.size()));
      return sps_unit(it->second);
    }
    auto it = pps.begin();
    std::advance(it, (long)r.below(pps.size()));
    return pps_unit(it->second);
  }
  const P* usable(bool any) {
    std::vector<const P*> v;
    for (auto& p : pps)
      if (sps.count(p.second.sps) && (any || p.second.sps == active)) v.push_back(&p.second);
    return v.empty() ? nullptr : v[r.below(v.size())];
  }
  bool ready() {
    return usable(first) != nullptr;
  }

  // the slices of the next picture
  std::vector<Bytes> picture() {
    bool idr = (first && !r.chance(1, 10)) || r.below(1000) < idr_pm;
    const P* p = usable(idr || first);
    const S& s = sps[p->sps];
    active = s.id;
    bool ref = idr || r.below(1000) >= nonref_pm;
    uint32_t mf = 1u << s.log2_fn;
    model::SliceFacts f;
    f.max_frame_num = mf;
    f.max_refs = s.refs;
    f.sps_id = s.id;
    f.frame_num = idr ? 0 : (prev + 1) & (mf - 1);
    f.slice_type = idr ? 2 : (uint32_t)(r.chance(1, 6) ? 2 : r.chance(1, 5) && !ref ? 1 : r.chance(1, 20) ? 3 : 0);
    bool all = r.chance(1, 3);
    buf.before(f, idr);
    buf.defined = true;
    first = false;
    bool over = r.chance(1, 2);
    f.l0 = over ? (uint32_t)r.below(8) : p->l0;
    // which references to use
    if (f.slice_type != 2 && !buf.e.empty() && r.below(1000) < mod_pm) {
      uint32_t pred = f.frame_num;
      for (uint64_t n = 1 + r.below(4); n--;) {
        const Ref& t = buf.e[r.below(buf.e.size())];
        if (t.lt >= 0) {
          f.mod.push_back(2);
          f.mod_lt.push_back((uint32_t)t.lt);
        } else {
          uint32_t down = (pred - t.fn) & (mf - 1);
          if (down == 0) down = mf;
          if (r.chance(1, 3) && down != mf) {
            f.mod.push_back(1);
            f.mod_abs.push_back(mf - down - 1);
          } else {
            f.mod.push_back(0);
            f.mod_abs.push_back(down - 1);
          }
          pred = t.fn;
        }
      }
      f.mod.push_back(3);
    }
    // what becomes of the references
    if (idr) {
      f.idr_long = r.chance(1, 4);
      max_lt = f.idr_long ? 1 : 0;
    } else if (ref) {
      size_t longs = 0;
      for (auto& e : buf.e) longs += e.lt >= 0;
      bool must = buf.e.size() >= buf.room() && longs == buf.e.size();
      if (must || r.below(1000) < adaptive_pm) choose(f);
    }
    buf.mark(f, idr, ref);
    if (ref) prev = std::count(f.op.begin(), f.op.end(), 5u) ? 0 : f.frame_num;
    std::vector<Bytes> out;
    size_t slices = r.chance(1, 4) ? 2 + (size_t)r.below(2) : 1;
    if (idr) idr_id ^= 1;
    uint32_t idc = ref ? 1 + (uint32_t)r.below(3) : 0;
    for (size_t i = 0; i < slices; i++) {
      model::SliceFacts g = f;
      if (i) {  // the other slices may use other references
        g.mod.clear(), g.mod_abs.clear(), g.mod_lt.clear();
        if (!idr && r.chance(1, 3)) g.slice_type = 2;
      }
      out.push_back(slice(s, *p, g, idr, idc, over, all, (uint32_t)i * 20));
    }
    return out;
  }
  // commands that leave the buffer within its size
  void choose(model::SliceFacts& f) {
    f.adaptive = true;
    RefBuffer b = buf;
    uint32_t lim = max_lt;
    bool cleared = false;
    uint32_t curfn = f.frame_num;
    auto emit = [&](uint32_t op, int64_t diff, int64_t ltp, int64_t ltf, int64_t mx) {
      f.op.push_back(op);
      if (diff >= 0) f.diff.push_back((uint32_t)diff);
      if (ltp >= 0) f.ltp.push_back((uint32_t)ltp);
      if (ltf >= 0) f.ltf.push_back((uint32_t)ltf);
      if (mx >= 0) f.mx.push_back((uint32_t)mx);
    };
    auto away = [&](const Ref& t) { return (int64_t)((curfn - t.fn - 1) & (b.max_fn - 1)); };
    auto drop = [&](size_t i) {
      Ref t = b.e[i];
      if (t.lt < 0) emit(1, away(t), -1, -1, -1);
      else emit(2, -1, t.lt, -1, -1);
      b.e.erase(b.e.begin() + (long)i);
    };
    if (r.chance(1, 12)) {
      emit(5, -1, -1, -1, -1);
      b.e.clear();
      lim = 0;
      cleared = true;
    } else {
      bool four = false;
      for (uint64_t n = r.below(4); n--;) {
        switch (r.below(3)) {
          case 0:
            if (!b.e.empty()) drop(r.below(b.e.size()));
            break;
          case 1: {
            std::vector<size_t> v;
            for (size_t i = 0; i < b.e.size(); i++)
              if (b.e[i].lt < 0) v.push_back(i);
            if (v.empty() || !lim) break;
            size_t i = v[r.below(v.size())];
            uint32_t idx = (uint32_t)r.below(lim);
            emit(3, away(b.e[i]), -1, idx, -1);
            b.e[i].lt = -2;
            b.drop_long(idx);
            for (auto& e : b.e)
              if (e.lt == -2) e.lt = (int)idx;
            break;
          }
          default: {
            if (four) break;
            four = true;
            lim = (uint32_t)r.below(std::min<size_t>(b.room(), 4) + 1);
            emit(4, -1, -1, -1, lim);
            uint32_t m = lim;
            b.e.erase(std::remove_if(b.e.begin(), b.e.end(), [&](const Ref& e) { return e.lt >= (int)m; }), b.e.end());
          }
        }
      }
    }
    if (lim && !cleared && r.chance(1, 4)) {
      uint32_t idx = (uint32_t)r.below(lim);
      b.drop_long(idx);
      while (b.e.size() + 1 > b.room()) drop(r.below(b.e.size()));
      emit(6, -1, -1, idx, -1);
    }
    while (b.e.size() + 1 > b.room()) drop(r.below(b.e.size()));
    f.op.push_back(0);
    max_lt = lim;
  }
  Bytes slice(const S& s, const P& p, const model::SliceFacts& f, bool idr, uint32_t idc, bool over, bool all, uint32_t mb) {
    model::BitWriter w;
    w.bits(idc << 5 | (idr ? 5u : 1u), 8);
    w.ue(mb);
    w.ue(f.slice_type + (all ? 5 : 0));
    w.ue(p.id);
    w.bits(f.frame_num, (int)s.log2_fn);
    if (!s.frames_only) w.bit(0);
    if (idr) w.ue(idr_id);
    if (s.poc == 0) w.bits(r.below(16), 4);
    uint32_t t = f.slice_type;
    if (t == 1) w.bit(1);
    if (t != 2) {
      w.bit(over);
      if (over) {
        w.ue(f.l0);
        if (t == 1) w.ue(0);
      }
      w.bit(!f.mod.empty());
      size_t na = 0, nl = 0;
      for (uint32_t m : f.mod) {
        w.ue(m);
        if (m < 2) w.ue(f.mod_abs[na++]);
        if (m == 2) w.ue(f.mod_lt[nl++]);
      }
      if (t == 1) w.bit(0);
    }
    if (idc) {
      if (idr) {
        w.bit(0);
        w.bit(f.idr_long);
      } else {
        w.bit(f.adaptive);
        size_t nd = 0, np = 0, nf = 0, nm = 0;
        for (uint32_t op : f.op) {
          w.ue(op);
          if (op == 1 || op == 3) w.ue(f.diff[nd++]);
          if (op == 2) w.ue(f.ltp[np++]);
          if (op == 3 || op == 6) w.ue(f.ltf[nf++]);
          if (op == 4) w.ue(f.mx[nm++]);
        }
      }
    }
    if (p.cabac && t != 2) w.ue(0);
    w.ue(0);
    if (t == 3) {
      w.bit(0);
      w.ue(0);
    }
    w.bits(r.next(), 8 + (int)r.below(24));
    return done(w);
  }
};

}  // namespace sim
