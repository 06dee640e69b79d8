// VARIANT: opt -O2 -msse4.1
// VARIANT: noopt -O0 -msse4.1
// RULE: state = distinct encoding of a format; transition = one real conversion; trace = one value decoded / encoded by the scalar and the vector path and compared with the arithmetic definition
// ASSUME: between two neighbouring boundary floats (representable value, midpoint, their float neighbours) encoding is constant, as it depends on the compared bits only
#include "mc.hpp"
#include "datas/endian.hpp"
#include "datas/float.hpp"
#include <cmath>
static float fb(uint32 x) { float f; memcpy(&f, &x, 4); return f; }
static uint32 bf(float f) { uint32 x; memcpy(&x, &f, 4); return x; }
template <int M, int E, bool S> struct F {
  typedef esFloat<M, E, S> T; enum { BITS = M + E + S, BIAS = (1 << (E - 1)) - 1, EM = (1 << E) - 1, MM = (1 << M) - 1 };
  std::string nm = "float" + std::to_string(int(BITS)) + "/" + std::to_string(M);
  static bool finite(uint32 c) { return int(c >> M & EM) != EM; }
  static double val(uint32 c) { int e = c >> M & EM, m = c & MM; double v = e ? std::ldexp(double(m + (1 << M)), e - BIAS - M) : std::ldexp(double(m), 1 - BIAS - M); return S && c >> (BITS - 1) & 1 ? -v : v; }
  static bool neg(uint32 c) { return S && (c >> (BITS - 1) & 1); }
  bool right(uint32 c, float got) {
    if (finite(c)) return bf(got) == bf(float(val(c)));
    if (c & MM) return got != got;
    return std::isinf(got) && std::signbit(got) == neg(c);
  }
  void decodeAll() {
    for (uint32 c = 0; c < 1u << BITS; c++) {
      if (!mc::mine(c / 256)) continue;
      mc::at("%s decode %#x", nm.c_str(), c); mc::trace(); mc::step(6); mc::state(mc::mix(c + (uint64_t(BITS) << 32) + (uint64_t(M) << 40)));
      float s = T::ToFloat(c); if (!right(c, s)) mc::fail(nm + " decode", "%#x decodes to %.9g (%08x) expected %.9g", c, s, bf(s), val(c));
      for (int lane = 0; lane < 4; lane++) { uint32 in[4]; for (int i = 0; i < 4; i++) in[i] = (c + uint32((i - lane) * 7919)) & ((1u << BITS) - 1); in[(lane + 1) & 3] = 0; IVector4A16 v{int(in[0]), int(in[1]), int(in[2]), int(in[3])}; auto r = T::ToVector4(v); for (int i = 0; i < 4; i++) if (!right(in[i], r._arr[i])) mc::fail(nm + " vector decode", "lane %d: %#x decodes to %.9g (%08x) expected %.9g", i, in[i], r._arr[i], bf(r._arr[i]), val(in[i])); }
      if (finite(c)) { uint32 b = enc(s == s && right(c, s) ? s : float(val(c))); if (b != c) mc::fail(nm + " round trip", "%#x (%.9g) encodes back to %#x", c, val(c), b); }
    }
  }
  uint32 enc(float x) { // scalar and vector (every lane) must agree
    uint32 s = uint32(T::FromFloat(x)); mc::step(2);
    Vector4A16 v(x, 1.f, S ? -x : x, 0.f), w(0.f, x, 2.f, x); auto a = T::FromVector4(v), b = T::FromVector4(w); uint32 sg = S ? 1u << (BITS - 1) : 0;
    uint32 one = BIAS << M, two = (BIAS + 1) << M;
    if (uint32(a.X) != s || uint32(a.Y) != one || uint32(a.Z) != (s ^ sg) || uint32(a.W) != 0 || uint32(b.X) != 0 || uint32(b.Y) != s || uint32(b.Z) != two || uint32(b.W) != s)
      mc::fail(nm + " vector encode", "%.9g (%08x): scalar gives %#x, vector lanes give %#x %#x %#x %#x / %#x %#x %#x %#x", x, bf(x), s, a.X, a.Y, a.Z, a.W, b.X, b.Y, b.Z, b.W);
    return s;
  }
  uint32 prev = 0; float prevX = -1; bool has = false;
  void oneEnc(float x, bool mono = true) { // x >= 0 and not above the largest finite value
    mc::at("%s encode %.9g (%08x)", nm.c_str(), x, bf(x)); mc::trace();
    uint32 c = enc(x);
    if (c >> (M + E)) { mc::fail(nm + " encode", "%.9g gives %#x", x, c); return; }
    if (!finite(c)) { mc::fail(nm + " encode", "%.9g (%08x) gives %#x, which is not finite", x, bf(x), c); return; }
    double v = val(c), lo = c ? val(c - 1) : -1e-300, hi = finite(c + 1) ? val(c + 1) : 1e300;
    if (!(x == v || (x > lo && x < hi)) ) mc::fail(nm + " encode", "%.9g (%08x) gives %#x (%.9g), which is not next to it", x, bf(x), c, v);
    if (mono) { if (has && x >= prevX && c < prev) mc::fail(nm + " monotone", "%.9g gives %#x but the smaller %.9g gives %#x", x, c, prevX, prev); prev = c; prevX = x; has = true; }
    if (S) { uint32 n = enc(-x); if (n != (c | 1u << (BITS - 1))) mc::fail(nm + " encode negative", "%.9g gives %#x, its negative %#x", x, c, n); }
  }
  void encodeAll() {
    uint32 top = (uint32(EM) << M) - 1; // largest finite
    for (uint32 c = 0; c <= top; c++) {
      if (!mc::mine(c / 512)) continue;
      has = has && c % 512;
      double v = val(c), nx = c < top ? val(c + 1) : v + (v - val(c - 1)); uint32 a = bf(float(v)), m = bf(float((v + nx) / 2)), z = bf(float(nx));
      uint32 pts[] = {a, a + 1, a + 2, a + (m - a) / 2, m - 1, m, m + 1, m + (z - m) / 2, z - 2, z - 1};
      for (uint32 p : pts) if (p >= a && p < z) oneEnc(fb(p));
      if (mc::thorough()) for (uint32 p = a; p < z && z - a > 1; p += std::max(1u, (z - a) / 256)) oneEnc(fb(p), false);
    }
    if (mc::shard() == 0) { has = false; for (uint32 e = 0; e < 0x7f800000u; e += 0x7ff1) { float x = fb(e); if (double(x) > val(top)) break; oneEnc(x); }
      // infinities and quiet NaNs keep their kind
      mc::trace(); uint32 i = enc(INFINITY), n = uint32(T::FromFloat(fb(0x7fc00000))), q = uint32(T::FromFloat(fb(0x7fffffff))); if (i != uint32(EM) << M) mc::fail(nm + " infinity", "%#x", i); if (finite(n) || !(n & MM) || finite(q) || !(q & MM)) mc::fail(nm + " nan", "%#x %#x", n, q);
      auto vn = T::FromVector4(Vector4A16(fb(0x7fc00000))); for (int k = 0; k < 4; k++) if (finite(vn._arr[k]) || !(vn._arr[k] & MM)) mc::fail(nm + " vector nan", "%#x", vn._arr[k]); }
  }
};
MC_SECTION("half decode", 8) { F<10, 5, true>().decodeAll(); }
MC_SECTION("half encode", 8) { F<10, 5, true>().encodeAll(); }
MC_SECTION("11 bit decode and encode", 2) { F<6, 5, false> f; f.decodeAll(); f.encodeAll(); F<5, 5, true> g; g.decodeAll(); g.encodeAll(); }
MC_SECTION("10 bit decode and encode", 2) { F<5, 5, false> f; f.decodeAll(); f.encodeAll(); F<4, 5, true> g; g.decodeAll(); g.encodeAll(); }
MC_SECTION("8 bit decode and encode", 1) { F<3, 4, true> f; f.decodeAll(); f.encodeAll(); F<2, 5, true> g; g.decodeAll(); g.encodeAll(); }
MC_SECTION("packed 11-11-10", 8) {
  F<6, 5, false> f;
  auto one = [&](uint32 r, uint32 g, uint32 b) {
    VectorR11G11B10_UFLOAT p; p.data = r | g << 11 | b << 22; mc::step(); mc::trace(); mc::at("packed %08x", p.data);
    Vector4A16 v = p; bool ok = f.right(r, v.X) && f.right(g, v.Y) && f.right(b << 1, v.Z) && v.W == 0;
    if (!ok) mc::fail("packed decode", "%08x gives (%.9g %.9g %.9g %.9g) expected (%.9g %.9g %.9g 0)", p.data, v.X, v.Y, v.Z, v.W, f.val(r), f.val(g), f.val(b << 1));
  };
  uint32 ex[] = {0, 1, 0x3f, 0x40, 0x3ff, 0x400, 0x7bf, 0x7c0, 0x7ff, 0x2aa, 0x555};
  uint64_t id = 0;
  for (uint32 c = 0; c < 2048; c++) for (uint32 x : ex) for (uint32 y : ex) if (mc::mine(id++)) { one(c, x, y >> 1); one(x, c, y >> 1); one(x, y, c >> 1); }
}
