// Reference model of H.264 as chemag/h264nal presents it.  Written from the
// H.264 syntax tables; shares no code with the repository.  One syntax
// description runs in two directions: encoding (a seeded RNG picks every
// syntax element and writes its bits) and decoding (bits are read back).  Both
// directions emit the text the library is expected to dump for the structure.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <map>
#include <memory>
#include <string>
#include <vector>

namespace model {

using Bytes = std::vector<uint8_t>;

// ---------------------------------------------------------------- randomness
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) {  // neighbouring seeds start far apart
    uint64_t z = seed + 0x1234567ull;
    z = (z ^ (z >> 33)) * 0xff51afd7ed558ccdull;
    z = (z ^ (z >> 33)) * 0xc4ceb9fe1a85ec53ull;
    s = z ^ (z >> 33);
  }
  uint64_t next() {  // splitmix64
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int64_t range(int64_t lo, int64_t hi) {
    return lo + (int64_t)below((uint64_t)(hi - lo) + 1);
  }
  bool chance(unsigned num, unsigned den) { return below(den) < num; }
  // small values and both ends of the range are favoured
  uint64_t pick(uint64_t lo, uint64_t hi) {
    uint64_t span = hi - lo;
    if (span == 0) return lo;
    switch (below(10)) {
      case 0:
        return lo;
      case 1:
        return hi;
      case 2:
      case 3:
      case 4:
      case 5:
        return lo + below((span < 3 ? span : 3) + 1);
      default: {
        int bits = 1;
        while (bits < 40 && (span >> bits)) bits++;
        uint64_t m = 1ull << (1 + below(bits));
        return lo + below((m - 1 < span ? m - 1 : span) + 1);
      }
    }
  }
};

// ------------------------------------------------------------------ bits
struct Reject {};  // the syntax structure cannot be decoded

struct BitReader {
  const uint8_t* d = nullptr;
  size_t n = 0;    // bytes
  size_t pos = 0;  // bits
  size_t left() const { return n * 8 - pos; }
  int bit() {
    if (pos >= n * 8) throw Reject{};
    int b = (d[pos / 8] >> (7 - pos % 8)) & 1;
    pos++;
    return b;
  }
  uint64_t bits(int k) {
    if ((size_t)k > left()) throw Reject{};
    uint64_t v = 0;
    while (k--) v = v * 2 + (unsigned)bit();
    return v;
  }
  uint64_t ue() {
    int z = 0;
    for (;;) {
      if (left() == 0) throw Reject{};
      if (bit()) break;
      z++;
    }
    if (z > 31) throw Reject{};
    uint64_t v = 1;
    if ((size_t)z > left()) throw Reject{};
    for (int i = 0; i < z; i++) v = v * 2 + (unsigned)bit();
    return v - 1;
  }
};

struct BitWriter {
  Bytes b;
  int fill = 0;  // bits used in the last byte
  void bit(int v) {
    if (fill == 0) b.push_back(0);
    if (v) b.back() |= (uint8_t)(0x80 >> fill);
    fill = (fill + 1) & 7;
  }
  void bits(uint64_t v, int k) {
    for (int i = k - 1; i >= 0; i--) bit((int)((v >> i) & 1));
  }
  void ue(uint64_t v) {
    v += 1;
    int k = 0;
    while (v >> (k + 1)) k++;
    bits(0, k);
    bits(v, k + 1);
  }
  void trailing() {
    bit(1);
    while (fill) bit(0);
  }
};

// --------------------------------------------------------- bidirectional codec
struct Codec {
  bool enc = false;
  Rng* rng = nullptr;
  BitWriter w;
  BitReader r;
  std::string out;
  bool forced = false;
  int64_t force_v = 0;
  // Encoder only: per mille of bounded elements written outside their range.
  // The caller goes on as if the value were the nearest allowed one.
  unsigned wild_pm = 0;
  bool wild = false;  // something was
  bool stray() {
    if (!wild_pm || rng->below(1000) >= wild_pm) return false;
    return wild = true;
  }

  void want(int64_t v) {
    forced = true;
    force_v = v;
  }
  bool take(int64_t& v) {
    if (!forced) return false;
    forced = false;
    v = force_v;
    return true;
  }
  // raw elements
  uint64_t qu(int n) {
    if (!enc) return r.bits(n);
    int64_t v;
    if (!take(v)) {
      if (n <= 1)
        v = (int64_t)rng->below(2);
      else
        v = (int64_t)rng->pick(0, n >= 63 ? ~0ull >> 1 : ((1ull << n) - 1));
    }
    w.bits((uint64_t)v, n);
    return (uint64_t)v;
  }
  uint64_t que(uint64_t lo, uint64_t hi) {
    if (!enc) {
      uint64_t v = r.ue();
      if (v < lo || v > hi) throw Reject{};
      return v;
    }
    int64_t v;
    if (!take(v)) v = (int64_t)rng->pick(lo, hi);
    if (stray()) {
      if (hi >= 0xfffffffeull)
        w.bits(0, 32 + (int)rng->below(3)), w.bits(rng->next() | 1ull << 32, 33);
      else if (rng->chance(1, 3))
        w.ue(rng->pick(hi + 1, 0xfffffffeull));
      else
        w.ue(hi + 1);
      return hi;
    }
    w.ue((uint64_t)v);
    return (uint64_t)v;
  }
  int64_t qse(int64_t lo, int64_t hi) {
    if (!enc) {
      uint64_t k = r.ue();
      // k -> (-1)^(k+1) * ceil(k/2)
      int64_t v = (k & 1) ? (int64_t)((k + 1) / 2) : -(int64_t)(k / 2);
      // the largest codeword maps to 2^31 - 1 or -(2^31 - 1)
      if (v < lo || v > hi) throw Reject{};
      return v;
    }
    int64_t v;
    if (!take(v)) {
      if (rng->chance(1, 2) && hi >= 0)
        v = (int64_t)rng->pick(lo > 0 ? (uint64_t)lo : 0, (uint64_t)hi);
      else
        v = lo < 0 ? -(int64_t)rng->pick(0, (uint64_t)-lo) : lo;
      if (v > hi) v = hi;
    }
    if (hi < 0x7fffffffll && stray()) v = rng->chance(1, 2) ? hi + 1 : lo - 1;
    uint64_t k = v > 0 ? (uint64_t)(2 * v - 1) : (uint64_t)(-2 * v);
    w.ue(k);
    return v > hi ? hi : v < lo ? lo : v;
  }
  // dump text
  void word(const char* s) {
    if (!out.empty()) out += ' ';
    out += s;
  }
  void open(const char* name) {
    word(name);
    out += " {";
  }
  void close() { word("}"); }
  void put(const char* name, int64_t v) {
    word(name);
    out += ": ";
    out += std::to_string(v);
  }
  template <class V>
  void list(const char* name, const V& v) {
    open(name);
    for (auto x : v) {
      out += ' ';
      out += std::to_string((int64_t)x);
    }
    close();
  }
  // element + dump line
  uint32_t u(const char* name, int n) {
    uint64_t v = qu(n);
    put(name, (int64_t)v);
    return (uint32_t)v;
  }
  uint32_t ue(const char* name, uint64_t lo = 0, uint64_t hi = 0xfffffffeull) {
    uint64_t v = que(lo, hi);
    put(name, (int64_t)v);
    return (uint32_t)v;
  }
  int32_t se(const char* name, int64_t lo = -0x7fffffffll,
             int64_t hi = 0x7fffffffll) {
    int64_t v = qse(lo, hi);
    put(name, v);
    return (int32_t)v;
  }
  size_t bitpos() const {
    return enc ? w.b.size() * 8 - (w.fill ? 8 - w.fill : 0) : r.pos;
  }
  // rbsp_trailing_bits() where the library ignores its outcome: it consumes
  // what it can of the byte that holds the stop bit.
  void trailing() {
    if (enc) {
      w.trailing();
      return;
    }
    if (r.left() == 0) return;
    r.pos = (r.pos / 8 + 1) * 8;
  }
};

// -------------------------------------------------------------- escape rules
inline Bytes escape(const Bytes& in) {
  Bytes o;
  int z = 0;
  for (uint8_t b : in) {
    if (z >= 2 && b <= 3) {
      o.push_back(3);
      z = 0;
    }
    o.push_back(b);
    z = b == 0 ? z + 1 : 0;
  }
  return o;
}

inline Bytes unescape(const uint8_t* d, size_t n) {
  Bytes o;
  o.reserve(n);
  int z = 0;
  for (size_t i = 0; i < n; i++) {
    if (z >= 2 && d[i] == 3) {
      z = 0;
      continue;
    }
    o.push_back(d[i]);
    z = d[i] == 0 ? z + 1 : 0;
  }
  return o;
}

}  // namespace model
