// REPO: datas/matrix44.cpp
// VARIANT: opt -O2 -msse4.1
// VARIANT: asan -O1 -msse4.1 -fsanitize=address,undefined -fno-sanitize=vptr -fno-sanitize-recover=undefined
// RULE: state = distinct transform; transition = one real matrix operation; trace = one transform (or pair, or triple) put through the algebra laws and compared with a double precision reference
// ASSUME: float accuracy is 4e-6 relative to the magnitude of the operands (rotations are unit, translations up to 100, scales 0.01..20)
#include "mc.hpp"
#include "datas/endian.hpp"
#include "datas/matrix44.hpp"
#include <cmath>
typedef double D;
struct M4 { D m[4][4]; };
static M4 ident() { M4 r{}; for (int i = 0; i < 4; i++) r.m[i][i] = 1; return r; }
static M4 mul(const M4 &a, const M4 &b) { M4 r{}; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) for (int k = 0; k < 4; k++) r.m[i][j] += a.m[i][k] * b.m[k][j]; return r; }
static M4 of(const esMatrix44 &a) { M4 r; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) r.m[i][j] = a[i]._arr[j]; return r; }
struct Q { D x, y, z, w; };
static Q norm(Q q) { D l = std::sqrt(q.x * q.x + q.y * q.y + q.z * q.z + q.w * q.w); return {q.x / l, q.y / l, q.z / l, q.w / l}; }
// points are row vectors (p * M) and a quaternion q turns them by q* p q, so that matrix products and
// quaternion products are in the same order
static void rot(const Q &c, const D v[3], D o[3]) {
  Q q{-c.x, -c.y, -c.z, c.w};
  D tx = 2 * (q.y * v[2] - q.z * v[1]), ty = 2 * (q.z * v[0] - q.x * v[2]), tz = 2 * (q.x * v[1] - q.y * v[0]);
  o[0] = v[0] + q.w * tx + q.y * tz - q.z * ty; o[1] = v[1] + q.w * ty + q.z * tx - q.x * tz; o[2] = v[2] + q.w * tz + q.x * ty - q.y * tx;
}
static M4 trs(const D t[3], const Q &q, const D s[3]) { M4 r = ident(); for (int i = 0; i < 3; i++) { D e[3] = {0, 0, 0}, o[3]; e[i] = 1; rot(q, e, o); for (int j = 0; j < 3; j++) r.m[i][j] = o[j] * s[i]; r.m[3][i] = t[i]; } return r; }
static Vector4A16 v4(const Q &q) { return Vector4A16(float(q.x), float(q.y), float(q.z), float(q.w)); }
static std::string str(const M4 &a) { std::string r; char b[96]; for (int i = 0; i < 4; i++) { snprintf(b, 96, "[%.6g %.6g %.6g %.6g]", a.m[i][0], a.m[i][1], a.m[i][2], a.m[i][3]); r += b; } return r; }
static D mag(const M4 &a) { D x = 1; for (auto &r : a.m) for (D v : r) x = std::max(x, std::fabs(v)); return x; }
static D diff(const M4 &a, const M4 &b) { D x = 0; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) { D d = std::fabs(a.m[i][j] - b.m[i][j]); if (!(d <= x)) x = d; } return x; }
static const D EPS = 4e-6;
static void same(const char *key, const M4 &got, const M4 &want, D scale) { mc::step(); D d = diff(got, want); if (!(d <= EPS * scale)) mc::fail(key, "%s: got %s expected %s", mc::g().job->cur, str(got).c_str(), str(want).c_str()); }

static std::vector<Q> rotations() {
  std::vector<Q> r; std::set<std::string> seen;
  auto add = [&](Q q) { q = norm(q); char b[128]; snprintf(b, 128, "%.7f %.7f %.7f %.7f", q.x + 0.0, q.y + 0.0, q.z + 0.0, q.w + 0.0); if (seen.insert(b).second) r.push_back(q); };
  add({0, 0, 0, 1});
  int lim = mc::thorough() ? 3 : 2;
  for (int x = -lim; x <= lim; x++) for (int y = -lim; y <= lim; y++) for (int z = -lim; z <= lim; z++) for (int w = -lim; w <= lim; w++) if (x || y || z || w) add({D(x), D(y), D(z), D(w)});
  // almost half turns and almost identities around each axis, and turns in steps of 15 degrees
  for (int ax = 0; ax < 7; ax++) { D a[7][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {1, 1, 0}, {0, 1, -1}, {-1, 0, 1}, {1, 1, 1}}; D l = std::sqrt(a[ax][0] * a[ax][0] + a[ax][1] * a[ax][1] + a[ax][2] * a[ax][2]);
    std::vector<D> ang; for (int i = -24; i <= 24; i++) ang.push_back(i * M_PI / 12); for (D e : {1e-2, 1e-3, 1e-4, 1e-5}) { ang.push_back(e); ang.push_back(-e); ang.push_back(M_PI - e); ang.push_back(M_PI + e); }
    for (D g : ang) add({a[ax][0] / l * std::sin(g / 2), a[ax][1] / l * std::sin(g / 2), a[ax][2] / l * std::sin(g / 2), std::cos(g / 2)}); }
  return r;
}
static const D TR[][3] = {{0, 0, 0}, {1, 0, 0}, {0, -2, 0}, {0, 0, 3}, {10, -20, 30}, {-0.5, 100, 0.25}};
static const D SC[][3] = {{1, 1, 1}, {2, 2, 2}, {2, 3, 4}, {0.5, 1, 20}, {0.01, 1, 1}, {7, 0.25, 0.01}};
static esMatrix44 compose(const D t[3], const Q &q, const D s[3]) { esMatrix44 m; m.Compose(Vector4A16(float(t[0]), float(t[1]), float(t[2]), 1.f), v4(q), Vector4A16(float(s[0]), float(s[1]), float(s[2]), 0.f)); return m; }

static bool quatNear(const Vector4A16 &a, const Q &b) { D p = 0, m = 0; D bb[4] = {b.x, b.y, b.z, b.w}; for (int i = 0; i < 4; i++) { p = std::max(p, std::fabs(a._arr[i] - bb[i])); m = std::max(m, std::fabs(a._arr[i] + bb[i])); if (a._arr[i] != a._arr[i]) return false; } return std::min(p, m) <= 4e-6; }

MC_SECTION("rotations", 8) {
  auto R = rotations(); uint64_t id = 0; const D t0[3] = {0, 0, 0}, s1[3] = {1, 1, 1};
  for (auto &q : R) { if (!mc::mine(id++)) continue;
    mc::at("rotation (%.9g %.9g %.9g %.9g)", q.x, q.y, q.z, q.w); mc::state(mc::hashBytes(&q, sizeof q)); mc::trace();
    M4 w = trs(t0, q, s1); esMatrix44 a(v4(q)), b; b.FromQuat(v4(q));
    same("matrix from quaternion", of(a), w, 1); same("from quaternion", of(b), w, 1);
    mc::step(); if (!quatNear(a.ToQuat(), q)) { auto g = a.ToQuat(); mc::fail("quaternion round trip", "%s: comes back as (%.9g %.9g %.9g %.9g)", mc::g().job->cur, g.X, g.Y, g.Z, g.W); }
    // a matrix that keeps its translation when the rotation is replaced
    esMatrix44 k; k.r4() = Vector4A16(4, 5, 6, 1); k.FromQuat(v4(q)); M4 kw = w; kw.m[3][0] = 4; kw.m[3][1] = 5; kw.m[3][2] = 6; same("rotation keeps position", of(k), kw, 1);
    for (D x : {0., 1., -2.}) for (D y : {0., 1.5}) for (D z : {0., -1., 3.}) for (float pw : {1.f, 0.f}) { D p[3] = {x, y, z}, o[3]; rot(q, p, o); auto g = k.RotatePoint(Vector4A16(float(x), float(y), float(z), pw)); mc::step(); bool ok = g.W == 1.f; for (int i = 0; i < 3; i++) ok &= std::fabs(g._arr[i] - o[i]) <= EPS * 4; if (!ok) mc::fail("rotate point", "%s: (%g %g %g) goes to (%g %g %g %g) expected (%g %g %g 1)", mc::g().job->cur, x, y, z, g.X, g.Y, g.Z, g.W, o[0], o[1], o[2]); }
    esMatrix44 inv = -a; same("inverse rotation", mul(of(inv), of(a)), ident(), 1); same("inverse rotation right", mul(of(a), of(inv)), ident(), 1);
    esMatrix44 tt = a; tt.Transpose(); M4 wt = w; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) wt.m[i][j] = w.m[j][i]; same("transpose of rotation", of(tt), wt, 1);
    esMatrix44 qc{Vector4A16(v4(q).QConjugate())}; same("conjugate is inverse", of(qc), wt, 1);
  }
}
MC_SECTION("compose and decompose", 8) {
  auto R = rotations(); uint64_t id = 0;
  for (auto &q : R) for (auto &t : TR) for (auto &s0 : SC) for (int sign = 0; sign < 8; sign++) { if (!mc::mine(id++ / 8)) continue;
    if (sign && !mc::thorough() && (&t != &TR[0] && &t != &TR[4])) continue;
    D s[3]; for (int i = 0; i < 3; i++) s[i] = sign >> i & 1 ? -s0[i] : s0[i];
    mc::at("T(%g %g %g) R(%.9g %.9g %.9g %.9g) S(%g %g %g)", t[0], t[1], t[2], q.x, q.y, q.z, q.w, s[0], s[1], s[2]); mc::trace();
    mc::state(mc::hashBytes(&q, sizeof q, mc::hashBytes(t, 24, mc::hashBytes(s, 24))));
    esMatrix44 m = compose(t, q, s); M4 w = trs(t, q, s); D mg = mag(w); same("compose", of(m), w, mg);
    Vector4A16 p, r, c; const esMatrix44 cm = m; cm.Decompose(p, r, c); mc::step();
    if (memcmp(&cm, &m, sizeof m)) mc::fail("decompose operand", "matrix modified");
    for (int i = 0; i < 3; i++) if (p._arr[i] != float(t[i])) mc::fail("decomposed position", "%s: got (%g %g %g)", mc::g().job->cur, p.X, p.Y, p.Z);
    if (p.W != 1) mc::fail("decomposed position", "W is %g", p.W);
    if (sign == 0 || sign == 7) { // all scales positive, or all negative: the parts are unique
      for (int i = 0; i < 3; i++) if (!(std::fabs(c._arr[i] - s[i]) <= EPS * std::fabs(s[i]))) mc::fail("decomposed scale", "%s: got (%g %g %g)", mc::g().job->cur, c.X, c.Y, c.Z);
      if (!quatNear(r, q)) mc::fail("decomposed rotation", "%s: got (%.9g %.9g %.9g %.9g)", mc::g().job->cur, r.X, r.Y, r.Z, r.W);
    }
    esMatrix44 b; b.Compose(p, r, c); M4 bm = of(b); mc::step();
    for (int i = 0; i < 4; i++) { D rs = i < 3 ? std::fabs(s[i]) : mg; for (int j = 0; j < 4; j++) if (!(std::fabs(bm.m[i][j] - w.m[i][j]) <= 2 * EPS * rs)) { mc::fail("recomposed parts", "%s: got %s expected %s", mc::g().job->cur, str(bm).c_str(), str(w).c_str()); i = 4; break; } }
    // inverse of the linear part
    esMatrix44 l = m; l.r4() = Vector4A16(0, 0, 0, 1); esMatrix44 inv = -l; M4 pr = mul(of(inv), of(l)), pl = mul(of(l), of(inv)); D cn = 1; for (D x : s) for (D y : s) cn = std::max(cn, std::fabs(x / y));
    same("inverse", pl, ident(), 4 * cn); same("inverse left", pr, ident(), 4 * cn);
    if (std::fabs(s[0]) == std::fabs(s[1]) && std::fabs(s[0]) == std::fabs(s[2])) { esMatrix44 ii = -inv; same("double inverse", of(ii), of(l), mg * 4); }
    // with translation: the inverse takes the position back to the origin
    esMatrix44 full = -m; M4 f = of(full), want = of(inv); D tm[3] = {0, 0, 0}, wrong[3] = {0, 0, 0}, bound = 1;
    for (int k = 0; k < 3; k++) for (int i = 0; i < 3; i++) { tm[k] -= t[i] * want.m[i][k]; wrong[k] -= want.m[k][i] * t[i]; bound = std::max(bound, std::fabs(t[i]) * std::max(std::fabs(want.m[i][k]), std::fabs(want.m[k][i]))); }
    bool lin = true, good = true, known = true; for (int i = 0; i < 3; i++) { for (int j = 0; j < 4; j++) lin &= f.m[i][j] == want.m[i][j]; good &= std::fabs(f.m[3][i] - tm[i]) <= EPS * bound * 4; known &= std::fabs(f.m[3][i] - wrong[i]) <= EPS * bound * 4; }
    if (!lin || f.m[3][3] != 1) mc::fail("inverse of a moved transform", "%s: got %s", mc::g().job->cur, str(f).c_str());
    if (!good && known) mc::fail("inverse position uses the untransposed rotation", "%s: inverse position (%g %g %g) expected (%g %g %g)", mc::g().job->cur, f.m[3][0], f.m[3][1], f.m[3][2], tm[0], tm[1], tm[2]);
    else if (!good) mc::fail("inverse position", "%s: inverse position (%g %g %g) expected (%g %g %g)", mc::g().job->cur, f.m[3][0], f.m[3][1], f.m[3][2], tm[0], tm[1], tm[2]);
  }
}
static std::vector<M4> ms; static std::vector<esMatrix44> es_;
static void lattice() {
  auto R = rotations(); size_t n = 0; std::vector<Q> pick; for (auto &q : R) { if (n++ % (mc::thorough() ? 20 : 40) == 0) pick.push_back(q); }
  for (auto &q : pick) for (int k = 0; k < 6; k++) if (mc::thorough() || k % 2 == 0 || &q == &pick[0]) { ms.push_back(trs(TR[k], q, SC[(k + 1) % 4])); es_.push_back(compose(TR[k], q, SC[(k + 1) % 4])); }
}
MC_SECTION("products", 8) {
  lattice(); size_t n = es_.size(); mc::addStates(n); uint64_t id = 0; esMatrix44 I;
  same("identity", of(I), ident(), 0);
  for (size_t i = 0; i < n; i++) { mc::at("transform %s", str(ms[i]).c_str()); same("right identity", of(es_[i] * I), of(es_[i]), 0); same("left identity", of(I * es_[i]), of(es_[i]), 0);
    for (size_t j = 0; j < n; j++) { if (!mc::mine(id++)) continue;
      mc::at("transforms %s * %s", str(ms[i]).c_str(), str(ms[j]).c_str()); mc::trace();
      M4 w = mul(of(es_[i]), of(es_[j])); D b = mag(of(es_[i])) * mag(of(es_[j])); esMatrix44 p = es_[i] * es_[j], c = es_[i]; auto &r = (c *= es_[j]); same("product", of(p), w, b); same("compound product", of(c), w, b); if (&r != &c) mc::fail("compound product", "result is not the target");
      if (i == j) { esMatrix44 s = es_[i]; s *= s; same("square in place", of(s), w, b); }
      // point transforms: first the left, then the right one
      for (size_t k = 0; k < n; k++) { esMatrix44 l = p * es_[k], rr = es_[i] * (es_[j] * es_[k]); D bb = b * mag(of(es_[k])); mc::step(2); D d = diff(of(l), of(rr)); if (!(d <= EPS * bb * 4)) mc::fail("associativity", "%s * %s", mc::g().job->cur, str(ms[k]).c_str()); }
    } }
}
MC_SECTION("products of full matrices", 4) { // all sixteen elements in use; small whole numbers, so every product is exact
  auto full = [](int seed) { esMatrix44 m; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) m[i]._arr[j] = float((i * 7 + j * 3 + seed * 5 + i * j * seed) % 11 - 5); return m; }; uint64_t id = 0; esMatrix44 I;
  std::vector<esMatrix44> v; for (int s = 0; s < 22; s++) v.push_back(full(s)); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) { esMatrix44 m; for (int k = 0; k < 4; k++) for (int l = 0; l < 4; l++) m[k]._arr[l] = k == i && l == j ? 2.f : 0.f; v.push_back(m); }
  for (auto &a : v) { mc::at("matrix %s", str(of(a)).c_str()); mc::state(mc::hashBytes(&a, 64)); same("right identity", of(a * I), of(a), 0); same("left identity", of(I * a), of(a), 0);
    for (auto &b : v) { if (!mc::mine(id++)) continue; mc::at("matrices %s * %s", str(of(a)).c_str(), str(of(b)).c_str()); mc::trace(); esMatrix44 p = a * b, c = a; c *= b; same("full product", of(p), mul(of(a), of(b)), 0); same("full compound product", of(c), mul(of(a), of(b)), 0); for (auto &d : v) same("full associativity", of(p * d), of(a * (b * d)), 0); } }
}
MC_SECTION("transposition", 1) {
  for (int seed = 0; seed < 64; seed++) { esMatrix44 m; M4 w; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) m[i]._arr[j] = float((i * 4 + j + 1) * (seed & 1 ? -1 : 1) + ((seed >> 1) * 7 + i * j) % 13);
    mc::at("matrix %s", str(of(m)).c_str()); mc::trace(); mc::state(mc::hashBytes(&m, 64)); esMatrix44 a = m; a.TransposeFull(); w = of(m); M4 t; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) t.m[i][j] = w.m[j][i]; same("full transpose", of(a), t, 0); a.TransposeFull(); same("full transpose twice", of(a), w, 0);
    esMatrix44 b = m; for (int i = 0; i < 3; i++) b[i].W = 0; w = of(b); t = w; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) t.m[i][j] = w.m[j][i]; esMatrix44 c = b; c.Transpose(); same("3x3 transpose", of(c), t, 0); c.Transpose(); same("3x3 transpose twice", of(c), w, 0);
    esMatrix44 d(m.r1(), m.r2(), m.r3(), m.r4()), e(m.v), f(m.r1(), m.r2(), m.r3()); same("from rows", of(d), of(m), 0); same("from row array", of(e), of(m), 0); M4 g = of(m); for (int j = 0; j < 4; j++) g.m[3][j] = 0; same("from three rows", of(f), g, 0);
    const esMatrix44 &cr = m; for (int i = 0; i < 4; i++) if (memcmp(&cr[i], &m.v[i], 16)) mc::fail("row access", "row %d", i); if (&cr.r1() != &m.v[0] || &cr.r2() != &m.v[1] || &cr.r3() != &m.v[2] || &cr.r4() != &m.v[3] || &m.r2() != &m.v[1]) mc::fail("row access", "named rows");
    esMatrix44 sw = m; sw.SwapEndian(); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) { uint32 x, y; memcpy(&x, &sw[i]._arr[j], 4); memcpy(&y, &m[i]._arr[j], 4); if (x != __builtin_bswap32(y)) mc::fail("swap endian", "row %d lane %d", i, j); } sw.SwapEndian(); if (memcmp(&sw, &m, 64)) mc::fail("swap endian", "twice"); mc::step(2);
    esMatrix44 id = m; id.MakeIdentity(); same("make identity", of(id), ident(), 0); }
}
