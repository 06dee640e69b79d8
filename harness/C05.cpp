// VARIANT: opt -O2
// VARIANT: asan -O1 -fsanitize=address
// RULE: state = distinct (signedness, value) or (value sequence); transition = one real Write or Read; trace = one write/read/continue history compared with the reference codec
// ASSUME: values outside the enumerated neighbourhoods behave as the covered values of the same byte length
#include "mc.hpp"
#include "datas/base_128.hpp"
#include <sstream>
#include <algorithm>
typedef std::vector<unsigned char> Bytes;
// reference: little endian groups of 7 bits, ninth byte raw
static Bytes refU(uint64_t v) {
  Bytes r;
  for (int i = 0; i < 9; i++) {
    if (i == 8) { r.push_back(uint8_t(v)); return r; }
    if (v < 128) { r.push_back(uint8_t(v)); return r; }
    r.push_back(uint8_t(v | 128)); v >>= 7;
  }
  return r;
}
// signed: last group of short forms holds 6 bits + sign, magnitude of negatives is complemented
static Bytes refS(int64_t v) {
  uint64_t m = v < 0 ? ~uint64_t(v) : uint64_t(v);
  Bytes r;
  if (m >> 55) {
    uint64_t u = uint64_t(v);
    for (int i = 0; i < 8; i++) { r.push_back(uint8_t(u | 128)); u >>= 7; }
    r.push_back(uint8_t(u));
    return r;
  }
  while (m >= 64) { r.push_back(uint8_t(m | 128)); m >>= 7; }
  r.push_back(uint8_t(m | (v < 0 ? 64 : 0)));
  return r;
}
static size_t lenS(int64_t v) { return refS(v).size(); }
struct RStream : std::stringbuf {};
template <class T, class V> static std::string writeOne(V v, bool swap) {
  std::stringstream ss;
  BinWritterRef wr(ss);
  wr.SwapEndian(swap);
  T x(v);
  wr.Write(x);
  mc::step();
  return ss.str();
}
template <class T, class V> static void one(V v, const Bytes &ref, const char *kind) {
  static std::stringstream ss;
  ss.str(std::string()); ss.clear();
  BinWritterRef wr(ss);
  T x(v);
  wr.Write(x);
  wr.Write(uint8_t(0x5a));
  mc::step(2);
  std::string s = ss.str();
  // documented length and a canonical encoding
  if (s.size() != ref.size() + 1)
    mc::fail(std::string(kind) + "/length", "%s %llx: %zu bytes, expected %zu (%s)", kind, (unsigned long long)v, s.size() - 1, ref.size(), mc::hex(s).c_str());
  BinReaderRef rd(ss);
  T y; uint8_t mark = 0;
  rd.Read(y); rd.Read(mark);
  mc::step(2);
  if (V(y) != v || mark != 0x5a || ss.fail())
    mc::fail(std::string(kind) + "/roundtrip", "%s %llx read back as %llx, following byte %02x (bytes %s)", kind, (unsigned long long)v, (unsigned long long)(V)y, mark, mc::hex(s).c_str());
  mc::trace();
}
static std::vector<uint64_t> bigSet() {
  std::vector<uint64_t> r;
  int64_t rad = mc::thorough() ? 1 << 16 : 1 << 12;
#ifdef MC_VARIANT_asan
  rad = 64;
#endif
  for (int b = 0; b < 64; b++)
    for (int64_t d = -rad; d <= rad; d++) {
      uint64_t v = (uint64_t(1) << b) + uint64_t(d);
      r.push_back(v); r.push_back(~v);
    }
  for (int g = 0; g < 64; g++) // every byte-ish group with every value, others zero or ones
    for (uint64_t x = 0; x < 512; x++) { r.push_back(x << g); r.push_back(~(x << g)); r.push_back((x << g) | 1); r.push_back((x << g) | (uint64_t(1) << 63)); }
  for (int a = 0; a < 64; a++)
    for (int b = a; b < 64; b++)
      for (int c = b; c < 64; c++) { uint64_t v = (1ull << a) | (1ull << b) | (1ull << c); r.push_back(v); r.push_back(~v); }
  std::sort(r.begin(), r.end());
  r.erase(std::unique(r.begin(), r.end()), r.end());
  return r;
}
MC_SECTION("values", 8) {
  auto vs = bigSet();
  uint64_t n = 0;
  for (size_t i = 0; i < vs.size(); i++) {
    if (!mc::mine(i)) continue;
    if (!(i & 255)) mc::at("value %llx", (unsigned long long)vs[i]);
    one<bint128, int64_t>(int64_t(vs[i]), refS(int64_t(vs[i])), "signed");
    one<buint128, uint64_t>(vs[i], refU(vs[i]), "unsigned");
    n += 2;
  }
  mc::addStates(n);
  mc::sample("%zu values of each signedness, e.g. signed -2^55-1 -> %s", vs.size(), mc::hex(refS(-(1ll << 55) - 1).data(), 9).c_str());
}
// byte order setting of the stream must not matter; encoding is bit exact as documented
MC_SECTION("encoding", 1) {
  for (int b = 0; b < 64; b++)
    for (int d = -70; d <= 70; d++) {
      uint64_t v = (1ull << b) + int64_t(d);
      mc::at("encoding of %llx", (unsigned long long)v);
      for (int sw = 0; sw < 2; sw++) {
        for (int neg = 0; neg < 2; neg++) {
          uint64_t u = neg ? ~v : v;
          auto s = writeOne<bint128, int64_t>(int64_t(u), sw);
          auto r = refS(int64_t(u));
          // interop: a conforming decoder must read it (decode by definition)
          uint64_t dec = 0; size_t used = 0;
          for (; used < s.size() && used < 9; ) {
            uint8_t c = uint8_t(s[used]);
            if (used == 8) { dec |= uint64_t(c) << 56; used++; break; }
            if (c & 128) { dec |= uint64_t(c & 127) << (7 * used); used++; continue; }
            dec |= uint64_t(c & 63) << (7 * used); if (c & 64) dec = ~dec; used++; break;
          }
          if (used != s.size() || dec != u || s.size() != r.size())
            mc::fail("signed/wire", "value %llx swap %d wire %s", (unsigned long long)u, sw, mc::hex(s).c_str());
          auto su = writeOne<buint128, uint64_t>(u, sw);
          auto ru = refU(u);
          if (su.size() != ru.size() || memcmp(su.data(), ru.data(), ru.size()))
            mc::fail("unsigned/wire", "value %llx swap %d wire %s expected %s", (unsigned long long)u, sw, mc::hex(su).c_str(), mc::hex(ru.data(), ru.size()).c_str());
          mc::state(mc::mix(u) + sw);
          mc::trace(2);
        }
      }
    }
}
static std::vector<uint64_t> edge() {
  std::vector<uint64_t> r{0, 1, ~0ull};
  for (int b : {6, 7, 13, 14, 20, 27, 34, 41, 48, 49, 54, 55, 56, 57, 62, 63}) {
    r.push_back(1ull << b); r.push_back((1ull << b) - 1); r.push_back(~(1ull << b)); r.push_back(~((1ull << b) - 1));
  }
  return r;
}
// all triples of (kind, value) back to back on one stream
MC_SECTION("sequences", 8) {
  auto e = edge();
  if (!mc::thorough()) { std::vector<uint64_t> h; for (size_t i = 0; i < e.size(); i += 2) h.push_back(e[i]), h.push_back(e[(i + 1) % e.size()]); e.resize(std::min<size_t>(e.size(), 40)); }
#ifdef MC_VARIANT_asan
  e.resize(20);
#endif
  int n = int(e.size()) * 2;
  mc::Odo o({n, n, n});
  uint64_t idx = 0, cnt = 0;
  while (o.next()) {
    if (!mc::mine(idx++)) continue;
    std::stringstream ss;
    BinWritterRef wr(ss);
    size_t want = 0;
    for (int v : o.v) {
      uint64_t x = e[v / 2];
      if (v & 1) { bint128 t{int64(x)}; wr.Write(t); want += lenS(int64_t(x)); }
      else { buint128 t{x}; wr.Write(t); want += refU(x).size(); }
      mc::step();
    }
    if (!(cnt++ & 1023)) mc::at("sequence %d %d %d", o.v[0], o.v[1], o.v[2]);
    BinReaderRef rd(ss);
    for (int v : o.v) {
      uint64_t x = e[v / 2], y;
      if (v & 1) { bint128 t; rd.Read(t); y = uint64_t(t.value); }
      else { buint128 t; rd.Read(t); y = t.value; }
      mc::step();
      if (x != y || ss.fail())
        mc::fail("sequence", "values (index*2+signed) %d %d %d: %llx read as %llx", o.v[0], o.v[1], o.v[2], (unsigned long long)x, (unsigned long long)y);
    }
    if (size_t(ss.tellg()) != want || size_t(ss.tellp()) != want)
      mc::fail("consumed", "values %d %d %d: written %d read %d expected %zu", o.v[0], o.v[1], o.v[2], int(ss.tellp()), int(ss.tellg()), want);
    mc::trace();
  }
  mc::addStates(cnt);
}
MC_SECTION("truncated", 1) {
  for (uint64_t x : edge())
    for (int sg = 0; sg < 2; sg++) {
      std::string s = sg ? writeOne<bint128, int64_t>(int64_t(x), false) : writeOne<buint128, uint64_t>(x, false);
      for (size_t cut = 0; cut < s.size(); cut++) {
        mc::at("value %llx signed %d cut %zu", (unsigned long long)x, sg, cut);
        std::stringstream ss(s.substr(0, cut));
        BinReaderRef rd(ss);
        if (sg) { bint128 t; rd.Read(t); } else { buint128 t; rd.Read(t); }
        mc::step();
        if (!ss.fail()) mc::fail("truncated", "value %llx signed %d cut to %zu bytes read without failure", (unsigned long long)x, sg, cut);
        mc::state(mc::mix(x) ^ (sg * 16 + cut));
        mc::trace();
      }
      // maximal continuation bytes: never more than nine are consumed
      std::stringstream ss(std::string(32, char(0xff)));
      BinReaderRef rd(ss);
      if (sg) { bint128 t; rd.Read(t); } else { buint128 t; rd.Read(t); }
      if (ss.tellg() != 9) mc::fail("nine", "nine byte limit: consumed %d", int(ss.tellg()));
    }
}
