// VARIANT: opt -O2 -msse4.1
// VARIANT: asan -O1 -msse4.1 -fsanitize=address
// RULE: state = distinct (type, operand lanes); transition = one real vector operation; trace = one operand tuple put through every operation of its type and compared lane by lane with the scalar operator
// ASSUME: lane operations do not depend on the particular value beyond the alphabet (sign, zero, fraction, magnitude, wrap limits)
#include "mc.hpp"
#include "datas/endian.hpp"
#include "datas/vectors_simd.hpp"
#include "datas/vectors_stream.hpp"
#include "datas/vectors_string.hpp"
#include <array>
#include <cmath>
#include <sstream>
#include <typeinfo>

template <class V> struct Tr;
#define TR(V, N, T, S, F) template <> struct Tr<V> { typedef T type; static constexpr int n = N; static constexpr bool simd = S, flt = F; static const char *name() { return #V; } };
TR(t_Vector2<float>, 2, float, false, true) TR(t_Vector2<double>, 2, double, false, true) TR(t_Vector2<int32>, 2, int32, false, false) TR(t_Vector2<uint32>, 2, uint32, false, false) TR(t_Vector2<int64>, 2, int64, false, false)
TR(t_Vector<float>, 3, float, false, true) TR(t_Vector<double>, 3, double, false, true) TR(t_Vector<int32>, 3, int32, false, false) TR(t_Vector<uint32>, 3, uint32, false, false) TR(t_Vector<int64>, 3, int64, false, false)
TR(t_Vector4<float>, 4, float, false, true) TR(t_Vector4<double>, 4, double, false, true) TR(t_Vector4<int32>, 4, int32, false, false) TR(t_Vector4<uint32>, 4, uint32, false, false) TR(t_Vector4<int64>, 4, int64, false, false)
TR(Vector4A16, 4, float, true, true) TR(IVector4A16, 4, int32, true, false) TR(UIVector4A16, 4, uint32, true, false)

template <class V> using L = std::array<typename Tr<V>::type, Tr<V>::n>;
template <class T> std::string show(const T &v) { std::string r; for (auto x : v) { std::ostringstream s; s.precision(17); s << x; r += (r.empty() ? "" : ",") + s.str(); } return r; }
template <class V, class T> V make2(const T *p, std::integral_constant<int, 2>) { return V(p[0], p[1]); }
template <class V, class T> V make2(const T *p, std::integral_constant<int, 3>) { return V(p[0], p[1], p[2]); }
template <class V, class T> V make2(const T *p, std::integral_constant<int, 4>) { return V(p[0], p[1], p[2], p[3]); }
template <class V> V make(const L<V> &l) { return make2<V>(l.data(), std::integral_constant<int, Tr<V>::n>()); }
// lanes of any result type convertible to V, read through the array and through the names
template <class V> auto zed(const V &v, int) -> decltype(v.Z == v.z) { return v.Z == v.z && !memcmp(&v.Z, &v._arr[2], sizeof v.Z); }
template <class V> bool zed(const V &, long) { return true; }
template <class V> auto dub(const V &v, int) -> decltype(v.W == v.w) { return !memcmp(&v.W, &v._arr[3], sizeof v.W) && !memcmp(&v.w, &v._arr[3], sizeof v.W); }
template <class V> bool dub(const V &, long) { return true; }
template <class V> L<V> lanes(const V &v) { L<V> r; for (int i = 0; i < Tr<V>::n; i++) r[i] = v[i]; return r; }
template <class T> bool same(T a, T b) { return !memcmp(&a, &b, sizeof a) || a == b || (a != a && b != b); }
template <class V> struct Ck {
  typedef typename Tr<V>::type T; enum { n = Tr<V>::n };
  const L<V> &a, &b;
  void eq(const char *op, const V &got, const L<V> &want) {
    mc::step(); auto g = lanes<V>(got);
    for (int i = 0; i < n; i++) if (!same(g[i], want[i])) { mc::fail(std::string(Tr<V>::name()) + " " + op, "(%s) %s (%s) gives (%s) expected (%s)", show(a).c_str(), op, show(b).c_str(), show(g).c_str(), show(want).c_str()); return; }
  }
  template <class R> void sc(const char *op, R got, R want) { mc::step(); if (!same(got, want)) { std::ostringstream s; s.precision(17); s << got << " expected " << want; mc::fail(std::string(Tr<V>::name()) + " " + op, "(%s) %s (%s) gives %s", show(a).c_str(), op, show(b).c_str(), s.str().c_str()); } }
  void near(const char *op, double got, double want, double rel) { mc::step(); if (!(std::fabs(got - want) <= rel * std::max(1.0, std::fabs(want)))) mc::fail(std::string(Tr<V>::name()) + " " + op, "(%s) %s (%s) gives %.17g expected %.17g", show(a).c_str(), op, show(b).c_str(), got, want); }
};
#define BIN(op, lbl, cond) if (cond) { L<V> w; for (int i = 0; i < Tr<V>::n; i++) w[i] = T(a[i] op b[i]); c.eq(lbl, va op vb, w); V t = va; auto &r = (t op##= vb); c.eq(lbl "=", t, w); if ((const void *)&r != (const void *)&t) mc::fail(std::string(Tr<V>::name()) + " " lbl "= result", "compound assignment does not return its target"); \
  L<V> w2; for (int i = 0; i < Tr<V>::n; i++) w2[i] = T(a[i] op b[0]); if (lbl[0] != '/' || b[0] != T(0)) { c.eq(lbl " scalar", V(va op b[0]), w2); V t2 = va; t2 op##= b[0]; c.eq(lbl "= scalar", t2, w2); } }
template <class V> bool nz(const L<V> &l) { for (auto x : l) if (x == 0) return false; return true; }

// operator groups only some types have
template <class V> void bits(const L<V> &a, const L<V> &b, std::true_type) { typedef typename Tr<V>::type T; Ck<V> c{a, b}; V va = make<V>(a), vb = make<V>(b); BIN(&, "&", true) BIN(|, "|", true) }
template <class V> void bits(const L<V> &, const L<V> &, std::false_type) {}
template <class V> void divi(const L<V> &a, const L<V> &b, std::true_type) { typedef typename Tr<V>::type T; Ck<V> c{a, b}; V va = make<V>(a), vb = make<V>(b); BIN(/, "/", nz<V>(b)) }
template <class V> void divi(const L<V> &, const L<V> &, std::false_type) {}
// shifts: scalar vector types by a vector of counts
template <class V> struct ShiftOf { typedef t_Vector2<int32> type; };
template <class T> struct ShiftOf<t_Vector<T>> { typedef t_Vector<int32> type; };
template <class T> struct ShiftOf<t_Vector4<T>> { typedef V4ScalarType<int32> type; };
template <class V> void shifts(const L<V> &a, std::true_type) {
  typedef typename Tr<V>::type T; typedef typename ShiftOf<V>::type S; const int n = Tr<V>::n;
  int cnt[] = {0, 1, 5, 31}; Ck<V> c{a, a}; V va = make<V>(a);
  for (int s = 0; s < 16; s++) {
    int32 sv[4] = {cnt[s & 3], cnt[s >> 2], cnt[(s + 1) & 3], cnt[(s >> 2) ^ 1]};
    S sh = make2<S>(sv, std::integral_constant<int, n>()); L<V> r, l; bool neg = false;
    for (int i = 0; i < n; i++) { r[i] = T(a[i] >> sv[i]); neg |= a[i] < 0; l[i] = T(typename std::make_unsigned<T>::type(a[i]) << sv[i]); }
    c.eq(">> vector", va >> sh, r); V t = va; t >>= sh; c.eq(">>= vector", t, r);
    if (!neg) { c.eq("<< vector", va << sh, l); V u = va; u <<= sh; c.eq("<<= vector", u, l); }
  }
}
template <class V> void shifts(const L<V> &, std::false_type) {}
template <class V> void shift1(const L<V> &a, std::true_type) {
  typedef typename Tr<V>::type T; Ck<V> c{a, a}; V va = make<V>(a);
  for (int s : {0, 1, 7, 31}) {
    L<V> r, l; bool neg = false; for (int i = 0; i < Tr<V>::n; i++) { r[i] = T(a[i] >> s); l[i] = T(typename std::make_unsigned<T>::type(a[i]) << s); neg |= a[i] < 0; }
    c.eq(">> count", va >> T(s), r); V t = va; t >>= T(s); c.eq(">>= count", t, r);
    if (!neg || Tr<V>::simd) { c.eq("<< count", va << T(s), l); V u = va; u <<= T(s); c.eq("<<= count", u, l); }
  }
}
template <class V> void shift1(const L<V> &, std::false_type) {}
template <class V> void crossOf(const V &va, const V &vb, Ck<V> &c, std::integral_constant<int, 3>) {
  auto &a = c.a; auto &b = c.b; typedef typename Tr<V>::type T;
  c.eq("cross", va.Cross(vb), L<V>{T(a[1] * b[2] - a[2] * b[1]), T(a[2] * b[0] - a[0] * b[2]), T(a[0] * b[1] - a[1] * b[0])});
}
template <class V, class N> void crossOf(const V &, const V &, Ck<V> &, N) {}
template <class V> void geo(const L<V> &a, const L<V> &b, std::true_type) { // dot, length, normalize, cross, sign, symmetry, convert
  typedef typename Tr<V>::type T; Ck<V> c{a, b}; V va = make<V>(a), vb = make<V>(b); const int n = Tr<V>::n;
  double d = 0, q = 0; for (int i = 0; i < n; i++) d += double(a[i]) * double(b[i]), q += double(a[i]) * double(a[i]);
  c.sc("dot", va.Dot(vb), T(typename std::conditional<std::is_floating_point<T>::value, double, int64>::type(d)));
  double len = std::sqrt(q); double tol = std::is_floating_point<T>::value ? 2e-7 : 0;
  c.near("length", double(va.Length()), double(T(len)), tol);
  V t = va; auto &r = t.Normalize(); if ((const void *)&r != (const void *)&t) mc::fail("normalize result", "Normalize does not return its target");
  for (int i = 0; i < n; i++) { T l = T(len); double w = l == 0 ? double(a[i]) : std::is_floating_point<T>::value ? double(a[i]) / len : double(T(a[i] / l)); c.near("normalize", double(t[i]), w, tol * 2); }
  crossOf<V>(va, vb, c, std::integral_constant<int, n>());
}
template <class V> void geo(const L<V> &, const L<V> &, std::false_type) {}
template <class V> void sgn(const L<V> &a, std::true_type) { Ck<V> c{a, a}; bool neg = false; for (auto x : a) neg |= std::signbit(double(x)); c.sc("sign", make<V>(a).Sign(), neg ? -1 : 1); }
template <class V> void sgn(const L<V> &, std::false_type) {}
template <class V> void sym(const L<V> &a, std::true_type) { Ck<V> c{a, a}; bool s = true; for (auto x : a) { if (x != a[0] && std::fabs(double(x) - double(a[0])) < 1e-3) return; s &= x == a[0]; } c.sc("symmetric", make<V>(a).IsSymetrical(), s); }
template <class V> void sym(const L<V> &, std::false_type) {}
template <class V> void neg(const L<V> &a, std::true_type) { typedef typename Tr<V>::type T; Ck<V> c{a, a}; L<V> w; for (int i = 0; i < Tr<V>::n; i++) w[i] = T(-a[i]); c.eq("negate", -make<V>(a), w); }
template <class V> void neg(const L<V> &, std::false_type) {}
template <class V, class T2> void conv1(const L<V> &a, const char *what) {
  typedef typename Tr<V>::type T; auto r = make<V>(a).template Convert<T2>(); mc::step();
  for (int i = 0; i < Tr<V>::n; i++) {
    if (std::is_floating_point<T>::value && !std::is_floating_point<T2>::value) { double x = std::trunc(double(a[i])); if (x < double(std::numeric_limits<T2>::min()) || x > double(std::numeric_limits<T2>::max())) continue; }
    if (!same(r._arr[i], static_cast<T2>(a[i]))) mc::fail(std::string(Tr<V>::name()) + " convert to " + what, "(%s) lane %d converts wrongly", show(a).c_str(), i);
  }
}
template <class V> std::string join(const L<V> &a) { std::ostringstream s; for (int i = 0; i < Tr<V>::n; i++) s << (i ? " " : "") << a[i]; return s.str(); }
template <class V> std::string joins(const L<V> &a) { std::string s; for (int i = 0; i < Tr<V>::n; i++) s += (i ? " " : "") + std::to_string(a[i]); return s; }

// floating lanes compare equal within FLT_EPSILON
template <class V> bool teq(const L<V> &a, const L<V> &b) { for (int i = 0; i < Tr<V>::n; i++) if (!(a[i] == b[i] || (Tr<V>::flt && std::fabs(double(a[i]) - double(b[i])) < FLT_EPSILON))) return false; return true; }
template <class V> void one(const L<V> &a, const L<V> &b, bool small) {
  typedef typename Tr<V>::type T; const int n = Tr<V>::n; typedef std::integral_constant<bool, Tr<V>::flt> F; typedef std::integral_constant<bool, Tr<V>::simd> S; typedef std::integral_constant<bool, !F::value> I;
  typedef std::integral_constant<bool, !S::value> NS;
  mc::at("%s (%s) (%s)", Tr<V>::name(), show(a).c_str(), show(b).c_str());
  V va = make<V>(a), vb = make<V>(b); Ck<V> c{a, b};
  c.eq("construct", va, a); if (!zed(va, 0) || !dub(va, 0)) mc::fail(std::string(Tr<V>::name()) + " named lanes", "(%s)", show(a).c_str());
  if (small || std::is_unsigned<T>::value || S::value) { BIN(+, "+", true) BIN(-, "-", true) BIN(*, "*", true) }
  if (small || std::is_unsigned<T>::value || F::value) divi<V>(a, b, std::integral_constant<bool, F::value || NS::value>());
  bits<V>(a, b, I());
  bool eq = teq<V>(a, b); c.sc("==", va == vb, eq); c.sc("!=", va != vb, !eq);
  if (small) geo<V>(a, b, std::integral_constant<bool, F::value || NS::value>());
  if (lanes<V>(va) != a || lanes<V>(vb) != b) mc::fail(std::string(Tr<V>::name()) + " operands", "operand modified");
  V w = va; w = vb; c.eq("assign", w, b); V cp(va); c.eq("copy", cp, a);
  for (int i = 0; i < n; i++) { V t = va; t[i] = b[i]; auto l = a; l[i] = b[i]; c.eq("element write", t, l); }
  mc::trace();
}
template <class V> void unary(const L<V> &a, bool small) {
  typedef typename Tr<V>::type T; const int n = Tr<V>::n; typedef std::integral_constant<bool, Tr<V>::flt> F; typedef std::integral_constant<bool, Tr<V>::simd> S; typedef std::integral_constant<bool, !F::value> I; typedef std::integral_constant<bool, !S::value> NS;
  mc::at("%s (%s)", Tr<V>::name(), show(a).c_str()); mc::state(mc::hashBytes(a.data(), n * sizeof(T), mc::hashBytes(Tr<V>::name(), strlen(Tr<V>::name()))));
  V va = make<V>(a); Ck<V> c{a, a};
  L<V> l; l.fill(a[0]); c.eq("splat", V(a[0]), l); l.fill(0); c.eq("default", V(), l);
  if (small) neg<V>(a, std::integral_constant<bool, NS::value ? std::is_signed<T>::value : F::value>());
  shifts<V>(a, std::integral_constant<bool, I::value && NS::value>());
  shift1<V>(a, std::integral_constant<bool, I::value && (S::value || n == 4 || std::is_same<T, int32>::value)>());
  sgn<V>(a, std::integral_constant<bool, (F::value && S::value) || (NS::value && I::value && std::is_signed<T>::value)>());
  sym<V>(a, std::integral_constant<bool, NS::value || F::value>());
  conv1<V, int32>(a, "int32"); conv1<V, float>(a, "float"); conv1<V, uint32>(a, "uint32"); conv1<V, double>(a, "double"); conv1<V, int64>(a, "int64"); conv1<V, int16>(a, "int16"); conv1<V, uint8>(a, "uint8");
  std::ostringstream s; s << va; if (s.str() != join<V>(a)) mc::fail(std::string(Tr<V>::name()) + " print", "(%s) prints '%s'", show(a).c_str(), s.str().c_str());
  if (std::to_string(va) != joins<V>(a)) mc::fail(std::string(Tr<V>::name()) + " to_string", "(%s) gives '%s'", show(a).c_str(), std::to_string(va).c_str());
  V z = va; z.SwapEndian(); z.SwapEndian(); c.eq("double swap", z, a);
  mc::trace();
}
template <class V> void narrow(const L<V> &a) { // 4 to 3 to 2 lanes and back
  typedef typename Tr<V>::type T; V v = make<V>(a); t_Vector<T> t = v; t_Vector2<T> d = v, e = t; mc::step(3);
  bool ok = true; for (int i = 0; i < 3; i++) ok &= same(t[i], a[i]); for (int i = 0; i < 2; i++) ok &= same(d[i], a[i]) && same(e[i], a[i]);
  if (!ok) mc::fail(std::string(Tr<V>::name()) + " fewer lanes", "(%s)", show(a).c_str());
}
template <class T> std::vector<T> alpha(bool big, int k) {
  std::vector<T> f;
  if (std::is_floating_point<T>::value) f = {T(0), T(1), T(-2.5), T(3), T(-0.25), T(96), T(7), T(-1)};
  else f = {T(0), T(1), T(2), T(7), std::is_unsigned<T>::value ? T(1000) : T(-3), T(64), std::is_unsigned<T>::value ? T(9) : T(-1), T(5)};
  if (big && !std::is_floating_point<T>::value) { T m = std::numeric_limits<T>::max(), n = std::numeric_limits<T>::min(); f = {T(0), T(1), m, std::is_unsigned<T>::value ? T(m / 2 + 1) : n, T(m - 1), T(-1), T(0x55555555), T(0x12345678)}; }
  if (big && std::is_floating_point<T>::value) f = {T(0), T(-0.0), T(1e-30), T(-1e30), T(1) / T(3), T(INFINITY), T(-INFINITY), T(16777216)};
  f.resize(size_t(k)); return f;
}
template <class V> void all() {
  typedef typename Tr<V>::type T; const int n = Tr<V>::n;
  bool asan = false;
#ifdef MC_VARIANT_asan
  asan = !mc::thorough();
#endif
  static const int K[2][5] = {{0, 0, 8, 7, 5}, {0, 0, 8, 8, 6}};
  int k = asan ? 3 : K[mc::thorough()][n]; uint64_t id = 0;
  for (int big = 0; big < 2; big++) {
    auto f = alpha<T>(big, k);
    mc::Odo o(std::vector<int>(2 * n, k));
    while (o.next()) { if (!mc::mine(id++ / 64)) continue; L<V> a, b; for (int i = 0; i < n; i++) a[i] = f[o.v[i]], b[i] = f[o.v[n + i]]; if (big && Tr<V>::flt && 0) continue; one<V>(a, b, !big); }
    // every pair of values in each lane, other lanes held at distinct backgrounds
    auto g = alpha<T>(big, 8); auto h = alpha<T>(false, 8);
    for (int lane = 0; lane < n; lane++) for (auto x : g) for (auto y : g) { if (!mc::mine(id++)) continue; L<V> a, b; for (int i = 0; i < n; i++) a[i] = h[1 + i], b[i] = h[4 + i]; a[lane] = x; b[lane] = y; one<V>(a, b, !big); b = a; b[lane] = y; one<V>(a, b, !big); }
    mc::Odo u(std::vector<int>(n, asan ? 4 : 8));
    while (u.next()) { if (!mc::mine(id++)) continue; L<V> a; for (int i = 0; i < n; i++) a[i] = g[u.v[i]]; unary<V>(a, !big); }
  }
}
MC_SECTION("2 lanes", 4) { all<t_Vector2<float>>(); all<t_Vector2<double>>(); all<t_Vector2<int32>>(); all<t_Vector2<uint32>>(); all<t_Vector2<int64>>(); }
MC_SECTION("3 lanes", 8) { all<t_Vector<float>>(); all<t_Vector<double>>(); all<t_Vector<int32>>(); all<t_Vector<uint32>>(); all<t_Vector<int64>>(); }
MC_SECTION("4 lanes scalar", 8) { all<t_Vector4<float>>(); all<t_Vector4<double>>(); all<t_Vector4<int32>>(); all<t_Vector4<uint32>>(); all<t_Vector4<int64>>(); }
MC_SECTION("4 lanes SIMD", 8) { all<Vector4A16>(); all<IVector4A16>(); all<UIVector4A16>(); }

// operations only the SIMD types have, and their agreement with the scalar 4-lane types
static float fbits(uint32 x) { float f; memcpy(&f, &x, 4); return f; }
static uint32 bitsf(float f) { uint32 x; memcpy(&x, &f, 4); return x; }
MC_SECTION("SIMD float extras", 8) {
  std::vector<float> f = alpha<float>(false, mc::thorough() ? 7 : 5); int k = int(f.size()); mc::Odo o(std::vector<int>(8, k)); uint64_t id = 0;
  while (o.next()) {
    if (!mc::mine(id++ / 64)) continue;
    L<Vector4A16> a, b; for (int i = 0; i < 4; i++) a[i] = f[o.v[i]], b[i] = f[o.v[4 + i]];
    mc::at("SIMD (%s) (%s)", show(a).c_str(), show(b).c_str()); Vector4A16 va = make<Vector4A16>(a), vb = make<Vector4A16>(b); Ck<Vector4A16> c{a, b};
    float d = 0; for (int i = 0; i < 4; i++) d += a[i] * b[i];
    c.sc("dot", va.Dot(vb), d); c.eq("dot vector", va.DotV(vb), {d, d, d, d});
    c.eq("cross", va.Cross(vb), {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0], 0.f});
    bool lt = true, gt = true, eqv = a == b, anyGt = false, anyLt = false; for (int i = 0; i < 4; i++) lt &= a[i] < b[i], gt &= a[i] > b[i], anyGt |= a[i] > b[i], anyLt |= a[i] < b[i];
    c.sc("<", va < vb, lt); c.sc(">", va > vb, gt);
    if (lt || eqv || anyGt) c.sc("<=", va <= vb, lt || eqv);
    if (gt || eqv || anyLt) c.sc(">=", va >= vb, gt || eqv);
    L<Vector4A16> bs; bs.fill(b[0]); Vector4A16 vs = make<Vector4A16>(bs);
    c.sc("< scalar", va < b[0], va < vs); c.sc("> scalar", va > b[0], va > vs); c.sc("<= scalar", va <= b[0], va <= vs); c.sc(">= scalar", va >= b[0], va >= vs);
    L<Vector4A16> x, y, z, t; for (int i = 0; i < 4; i++) { uint32 p = bitsf(a[i]), q = bitsf(b[i]); x[i] = fbits(p & q); y[i] = fbits(p | q); z[i] = fbits(p ^ q); t[i] = fbits(~p); }
    c.eq("&", va & vb, x); c.eq("|", va | vb, y); c.eq("^", va ^ vb, z); c.eq("~", ~va, t);
    Vector4A16 m = va; m &= vb; c.eq("&=", m, x); m = va; m |= vb; c.eq("|=", m, y); m = va; m ^= vb; c.eq("^=", m, z);
    for (int i = 0; i < 4; i++) { uint32 p = bitsf(a[i]), q = bitsf(b[0]); x[i] = fbits(p & q); y[i] = fbits(p | q); z[i] = fbits(p ^ q); }
    c.eq("& scalar", va & b[0], x); c.eq("| scalar", va | b[0], y); c.eq("^ scalar", va ^ b[0], z);
    m = va; m &= b[0]; c.eq("&= scalar", m, x); m = va; m |= b[0]; c.eq("|= scalar", m, y); m = va; m ^= b[0]; c.eq("^= scalar", m, z);
    // agreement with the scalar type
    Vector4 sa(a[0], a[1], a[2], a[3]), sb(b[0], b[1], b[2], b[3]); Vector4 r;
    auto lan = [](const Vector4 &v) { return L<Vector4A16>{v.X, v.Y, v.Z, v.W}; };
    c.eq("scalar agreement +", va + vb, lan(Vector4(sa + sb))); c.eq("scalar agreement -", va - vb, lan(Vector4(sa - sb))); c.eq("scalar agreement *", va * vb, lan(Vector4(sa * sb))); c.eq("from scalar type", Vector4A16(sa), a);
    c.sc("scalar agreement dot", va.Dot(vb), sa.Dot(sb)); c.near("scalar agreement length", va.Length(), sa.Length(), 2e-7); c.sc("scalar agreement ==", va == vb, sa == sb);
    Vector4A16 vn = va.Normalized(); Vector4A16 vm = va; vm.Normalize(); Vector4 sn = sa; sn.Normalize(); for (int i = 0; i < 4; i++) { c.near("scalar agreement normalize", vn[i], sn[i], 4e-7); c.sc("normalize forms", vn[i], vm[i]); }
    c.eq("conjugate", va.QConjugate(), {-a[0], -a[1], -a[2], a[3]});
    c.eq("from vector and scalar", Vector4A16(Vector(a[0], a[1], a[2]), b[3]), {a[0], a[1], a[2], b[3]});
    if (lanes<Vector4A16>(va) != a || lanes<Vector4A16>(vb) != b) mc::fail("operands", "operand modified");
    mc::trace();
  }
}
// lengths far from one: neither the squares nor the sum of them may leave the range the lanes themselves have
template <class V> static void far(std::initializer_list<double> mags) {
  typedef typename Tr<V>::type T; const int n = Tr<V>::n; bool fl = std::is_floating_point<T>::value;
  for (double m : mags) { mc::Odo o(std::vector<int>(n, 4)); const double k[] = {0, 1, 0.75, std::is_unsigned<T>::value ? 0.5 : -0.5};
    while (o.next()) { L<V> a; double q = 0; for (int i = 0; i < n; i++) a[i] = T(k[o.v[i]] * m), q += double(a[i]) * double(a[i]);
      double len = std::sqrt(q); if (!fl && len > double(std::numeric_limits<T>::max())) continue;
      mc::at("%s length of (%s)", Tr<V>::name(), show(a).c_str()); V v = make<V>(a); double got = double(v.Length()); mc::step(2); mc::trace(); mc::state(mc::hashBytes(a.data(), sizeof a, 99));
      if (fl ? !(std::fabs(got - len) <= 4e-7 * len) : T(got) != T(len)) mc::fail(std::string(Tr<V>::name()) + " far length", "(%s) has length %.17g expected %.17g", show(a).c_str(), got, len);
      V w = v; w.Normalize(); for (int i = 0; i < n; i++) { double want = len == 0 ? 0 : fl ? double(a[i]) / len : double(T(a[i] / T(len))); if (!(std::fabs(double(w[i]) - want) <= (fl ? 1e-6 : 0))) mc::fail(std::string(Tr<V>::name()) + " far normalize", "(%s) lane %d becomes %.9g expected %.9g", show(a).c_str(), i, double(w[i]), want); } } }
}
MC_SECTION("far lengths", 1) {
  far<t_Vector2<float>>({1e-15, 1e-6, 1e-3, 1e3, 1e10, 1e18, 1e-25, 1e30}); far<t_Vector<float>>({1e-15, 1e-6, 1e-3, 1e3, 1e10, 1e18, 1e-25, 1e30}); far<t_Vector4<float>>({1e-15, 1e-6, 1e-3, 1e3, 1e10, 1e18, 1e-25, 1e30}); far<Vector4A16>({1e-15, 1e-6, 1e-3, 1e3, 1e10, 1e18});
  far<t_Vector2<double>>({1e-100, 1e-6, 1e100}); far<t_Vector<double>>({1e-100, 1e-6, 1e100}); far<t_Vector4<double>>({1e-100, 1e-6, 1e100});
  far<t_Vector2<int32>>({300, 50000, 1000000, 1000000000}); far<t_Vector<int32>>({300, 50000, 1000000, 1000000000}); far<t_Vector4<int32>>({300, 50000, 1000000, 1000000000}); far<t_Vector2<uint32>>({300, 100000, 2000000000}); far<t_Vector<uint32>>({300, 100000, 2000000000}); far<t_Vector4<uint32>>({300, 100000, 2000000000});
}
template <int E> static void qel(Vector4A16 v, const L<Vector4A16> &a) { // lane E is taken as zero before the call
  v.QComputeElement<E>(); double q = 0; for (int i = 0; i < 4; i++) q += double(a[i]) * a[i]; Ck<Vector4A16> c{a, a};
  for (int i = 0; i < 4; i++) c.near("quaternion element", v[i], i == E ? std::sqrt(1.0 - q) : a[i], 1e-6);
}
MC_SECTION("quaternion element and epsilon", 1) {
  std::vector<float> f{0.f, 0.5f, -0.5f, 0.25f, -0.125f, 0.7f};
  mc::Odo o({6, 6, 6});
  while (o.next()) for (int e = 0; e < 4; e++) {
    L<Vector4A16> a{}; int j = 0; for (int i = 0; i < 4; i++) if (i != e) a[i] = f[o.v[j++]];
    double q = 0; for (int i = 0; i < 4; i++) q += double(a[i]) * a[i]; if (q > 0.999) continue;
    Vector4A16 v = make<Vector4A16>(a); mc::at("(%s) element %d", show(a).c_str(), e); mc::state(mc::hashBytes(a.data(), 16, 77 + e)); mc::trace(); mc::step(2);
    if (e == 0) qel<0>(v, a); if (e == 1) qel<1>(v, a); if (e == 2) qel<2>(v, a); if (e == 3) { qel<3>(v, a); Vector4A16 t = v; t.QComputeElement(); if (!(t[3] > 0)) mc::fail("quaternion element default", "(%s)", show(a).c_str()); }
    Vector4A16 t = v; t.QComputeElementVar(e); Ck<Vector4A16> c{a, a}; for (int i = 0; i < 4; i++) c.near("quaternion element run time", t[i], i == e ? std::sqrt(1.0 - q) : a[i], 1e-6);
  }
  // comparison tolerance: lanes closer than the set epsilon are equal, lanes further apart are not
  for (float eps : {FLT_EPSILON, 0.01f, 0.5f, 0.0001f}) { Vector4A16::SetEpsilon(eps);
    for (int lane = 0; lane < 4; lane++) for (float base : {0.f, 1.f, -1.f}) for (float mul : {0.f, 0.5f, -0.5f, 3.f, -3.f}) {
      Vector4A16 p(base), q(base); q[lane] = base + mul * eps; mc::step(2); bool want = std::fabs(mul) < 1; mc::at("epsilon %g base %g lane %d factor %g", eps, base, lane, mul); mc::trace();
      if ((p == q) != want || (p != q) == want || (q == p) != want) mc::fail("tolerance", "epsilon %g, lane %d differing by %g is %s", eps, lane, mul * eps, p == q ? "equal" : "different");
      Vector4A16 s(base); s[lane] = base + mul * eps; if (s.IsSymetrical() != want) mc::fail("symmetry tolerance", "epsilon %g, lane %d differing by %g", eps, lane, mul * eps);
    } }
  Vector4A16::SetEpsilon(FLT_EPSILON);
  for (float base : {0.f, 1.f, -1.f}) for (float mul : {0.f, 0.5f, -0.5f, 3.f, -3.f}) for (int lane = 0; lane < 4; lane++) { bool want = std::fabs(mul) < 1; float x = base + mul * FLT_EPSILON;
    Vector4 p(base), q(base); q[lane] = x; if ((p == q) != want) mc::fail("scalar tolerance 4", "%g", mul); Vector p3(base), q3(base); if (lane < 3) { q3[lane] = x; if ((p3 == q3) != want) mc::fail("scalar tolerance 3", "%g", mul); } Vector2 p2(base), q2(base); if (lane < 2) { q2[lane] = x; if ((p2 == q2) != want) mc::fail("scalar tolerance 2", "%g", mul); } mc::trace(); mc::step(3); }
}
template <class V> void simdInt() {
  typedef typename Tr<V>::type T; auto f = alpha<T>(true, 8); mc::Odo o({8, 8, 8, 8}); auto g = alpha<T>(true, 8); uint64_t id = 0;
  while (o.next()) { if (!mc::mine(id++)) continue;
    L<V> a, b; for (int i = 0; i < 4; i++) a[i] = f[o.v[i]], b[i] = g[(o.v[i] + 3 + i) & 7];
    V va = make<V>(a), vb = make<V>(b); Ck<V> c{a, b}; mc::at("%s (%s) (%s)", Tr<V>::name(), show(a).c_str(), show(b).c_str());
    L<V> x, t; for (int i = 0; i < 4; i++) x[i] = a[i] ^ b[i], t[i] = ~a[i];
    c.eq("^", V(va ^ vb), x); V m = va; m ^= vb; c.eq("^=", m, x); c.eq("~", V(~va), t);
    t_Vector4<T> s(a[0], a[1], a[2], a[3]); c.eq("from scalar type", V(s), a); mc::trace();
    bool all = true; Vector4A16 fl = V4SimdFltType(va); for (int i = 0; i < 4; i++) if (int64(a[i]) == int64(int32(a[i])) && fl[i] != float(a[i])) all = false;
    if (!all) mc::fail(std::string(Tr<V>::name()) + " to float", "(%s) gives (%s)", show(a).c_str(), show(lanes<Vector4A16>(fl)).c_str());
  }
}
MC_SECTION("SIMD integer extras", 2) {
  simdInt<IVector4A16>(); simdInt<UIVector4A16>();
  std::vector<float> e{0, 1, -1, 7, -1000000, 16777216, -2147483648.f, 5}; mc::Odo o({8, 8, 8, 8});
  while (o.next()) { L<Vector4A16> a; for (int i = 0; i < 4; i++) a[i] = e[o.v[i]]; mc::at("to int (%s)", show(a).c_str()); IVector4A16 v = V4SimdIntType(make<Vector4A16>(a)); mc::step(); mc::trace(); for (int i = 0; i < 4; i++) if (v[i] != int32(a[i])) mc::fail("float to int", "(%s) gives (%s)", show(a).c_str(), show(lanes<IVector4A16>(v)).c_str()); }
  mc::Odo p({5, 5, 5, 5});
  while (p.next()) { uint32 u[] = {0, 1, 0x7fffffff, 0x80000000u, 0xffffffffu}; UIVector4A16 x(u[p.v[0]], u[p.v[1]], u[p.v[2]], u[p.v[3]]); IVector4A16 y = x; UIVector4A16 z = y; mc::step(2); mc::trace(); for (int i = 0; i < 4; i++) if (uint32(y[i]) != u[p.v[i]] || z[i] != u[p.v[i]]) mc::fail("sign reinterpretation", "lane %d", i); }
}
template <class V> void narrowAll() { typedef typename Tr<V>::type T; auto f = alpha<T>(true, 8); mc::Odo o({8, 8, 8, 8}); while (o.next()) { L<V> a; for (int i = 0; i < 4; i++) a[i] = f[o.v[i]]; mc::at("%s narrow (%s)", Tr<V>::name(), show(a).c_str()); narrow<V>(a); mc::trace(); } }
MC_SECTION("lane count conversions", 1) {
  narrowAll<t_Vector4<float>>(); narrowAll<t_Vector4<int32>>(); narrowAll<t_Vector4<double>>(); narrowAll<t_Vector4<uint32>>(); narrowAll<Vector4A16>(); narrowAll<IVector4A16>(); narrowAll<UIVector4A16>();
  for (float x : {0.f, 1.f, -2.5f}) for (float y : {0.f, 3.f}) for (float z : {0.f, -7.f}) { Vector v(x, y, z); Vector4A16 w = v; Vector4 s = t_Vector4<float>(v.X, v.Y, v.Z, 0.f); mc::step(); mc::trace(); if (w[0] != x || w[1] != y || w[2] != z || w[3] != 0 || s[3] != 0) mc::fail("3 to 4 lanes", "(%g %g %g)", x, y, z); }
}
