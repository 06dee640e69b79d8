// REPO: datas/reflector.cpp datas/reflector_io.cpp datas/master_printer.cpp
// VARIANT: opt -O2
// VARIANT: asan -O1 -fsanitize=address
// RULE: state = distinct (class, member, value, placement, version pair or damage); transition = one save or load; trace = one object or object sequence saved, loaded and compared member by member
#include "reflfix.hpp"
#include "datas/reflector_io.hpp"
#include "datas/binreader.hpp"
#include "datas/binwritter.hpp"
#include <limits>
#include <sstream>
static std::string S(const char *f, ...) { char b[900]; va_list a; va_start(a, f); vsnprintf(b, 900, f, a); va_end(a); return b; }
// a description made at run time (the way a loaded type database makes them)
struct Desc {
  std::vector<reflType> t; reflectorStatic r;
  Desc(const reflectorStatic *o, std::vector<int> order) : r(*o) { for (int i : order) { t.push_back(o->types[i]); t.back().ID = uint8(t.size() - 1); } set(o->classHash); }
  void set(JenHash h) { struct Raw { JenHash h; uint32 n; const reflType *t; const char *const *nm; const char *cn; const char *const *al; const JenHash *ah; const _ReflDesc *ds; } raw{h, uint32(t.size()), t.data(), nullptr, nullptr, nullptr, nullptr, nullptr}; static_assert(sizeof(Raw) == sizeof(reflectorStatic), ""); memcpy((void *)&r, &raw, sizeof raw); }
  Desc(const Desc &) = delete;
};
static std::vector<int> upTo(int n, int skip = -1) { std::vector<int> v; for (int i = 0; i < n; i++) if (i != skip) v.push_back(i); return v; }
static int nFx() { return int(fxMembers().size()); }
static const reflectorStatic *fxNoCs() { static Desc d(GetReflectedClass<Fx>(), upTo(nFx() - 1)); return &d.r; }
static int save(const reflectorStatic *r, void *o, BinWritterRef w) { ReflectedInstance i(r, o); ReflectorPureWrap p(i); mc::step(); return ReflectorBinUtil::Save(p, w); }
static int load(const reflectorStatic *r, void *o, BinReaderRef w) { ReflectedInstance i(r, o); ReflectorPureWrap p(i); mc::step(); return ReflectorBinUtil::Load(p, w); }
static std::string bytesOf(const reflectorStatic *r, void *o, int *rv = nullptr) { std::stringstream ss; BinWritterRef w(ss); int x = save(r, o, w); if (rv) *rv = x; return ss.str(); }
// which bytes of an Fx belong to reflected members
static const std::vector<bool> &covered() {
  static std::vector<bool> v = [] { std::vector<bool> c(sizeof(Fx)); for (auto &m : fxMembers()) if (strcmp(m.name, "cs")) for (int i = 0; i < m.size; i++) c[size_t(m.off + i)] = true;
    auto hole = [&](size_t at, std::initializer_list<std::pair<size_t, size_t>> f, size_t size) { for (size_t i = 0; i < size; i++) { bool in = false; for (auto &p : f) in |= i >= p.first && i < p.first + p.second; if (!in) c[at + i] = false; } };
    for (size_t at : {offsetof(Fx, mid), offsetof(Fx, amid), offsetof(Fx, amid) + sizeof(FxMid)}) hole(at, {{offsetof(FxMid, t), 1}, {offsetof(FxMid, in), 16}, {offsetof(FxMid, bits), 2}, {offsetof(FxMid, tail), 2}}, sizeof(FxMid));
    hole(offsetof(Fx, sub), {{offsetof(FxStr, s), sizeof(std::string)}, {offsetof(FxStr, n), 2}}, sizeof(FxStr)); return c; }();
  return v;
}
static std::string compareFx(const Snap &src, const Snap &before, const Snap &now) {
  for (int i = 0; i < 4; i++) if (now.s[i] != src.s[i]) return S("string %d is %s, not %s", i, mc::quote(now.s[i]).c_str(), mc::quote(src.s[i]).c_str());
  for (size_t i = 0; i < src.bytes.size(); i++) if (now.bytes[i] != (covered()[i] ? src.bytes[i] : before.bytes[i])) return covered()[i] ? S("%s is %02x, not %02x", fxWhere(int(i)).c_str(), uint8(now.bytes[i]), uint8(src.bytes[i])) : "bytes outside members change: " + fxWhere(int(i));
  return "";
}
static void roundTrip(Fx &src, int target, const std::string &what) {
  mc::at("%s", what.c_str()); mc::state(what + S(" %d", target)); mc::trace(); int rv; std::string img = bytesOf(fxNoCs(), &src, &rv); if (rv) return mc::fail("save result", "%s: %d", what.c_str(), rv);
  FxObj o(target); Snap before(*o.p); std::stringstream ss(img + "tail"); BinReaderRef rd(ss); rv = load(fxNoCs(), o.p, rd); if (rv) return mc::fail("load result", "%s: %d", what.c_str(), rv); if (size_t(ss.tellg()) != img.size()) mc::fail("position", "%s: reader at %zd of %zu", what.c_str(), ssize_t(ss.tellg()), img.size());
  auto d = compareFx(Snap(src), before, Snap(*o.p)); if (!d.empty()) mc::fail("round trip", "%s: %s", what.c_str(), d.c_str()); if (bytesOf(fxNoCs(), o.p) != img) mc::fail("saved again", "%s: other bytes", what.c_str());
}
static std::vector<uint64_t> intVals() { std::vector<uint64_t> v; for (int k = 0; k < 64; k++) for (int d = -1; d < 2; d++) { uint64_t x = (1ULL << k) + uint64_t(int64_t(d)); v.push_back(x); v.push_back(~x); } v.push_back(0x0123456789abcdefULL); v.push_back(0xaaaaaaaaaaaaaaaaULL); v.push_back(0x5555555555555555ULL); std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v; }
static const std::vector<double> &fltVals() { static const std::vector<double> v{0, -0.0, 1, -1.5, 0.1, 1e-38, 1e-45, 3.4e38, 1e300, 5e-324, INFINITY, -INFINITY, NAN, 123456.789, std::numeric_limits<double>::denorm_min(), 16777217}; return v; }
// every slot (scalar inside members, elements, nested classes) holding every value
struct Slot { std::string name; size_t off; Kind k; int size; };
static std::vector<Slot> slots() {
  std::vector<Slot> r; auto scalar = [&](const std::string &n, size_t off, const TypeInfo &t) { if (t.kind == kVec) { for (int c = 0; c < t.comps; c++) r.push_back({n + S(".%d", c), off + size_t(c * t.csize), t.ck, t.csize}); } else if (t.kind != kStr && t.kind != kCStr && t.kind != kClass) r.push_back({n, off, t.kind, t.size}); };
  auto in = [&](const std::string &n, size_t off) { r.push_back({n + ".a", off, kInt, 4}); r.push_back({n + ".b", off + 4, kFloat, 4}); };
  for (auto &m : fxMembers()) for (int e = 0; e < m.count; e++) { size_t off = size_t(m.off + e * m.t.size); std::string n = m.name + (m.arr ? S("[%d]", e) : std::string()); scalar(n, off, m.t); if (m.t.kind == kClass) { if (!strcmp(m.t.en, "FxIn")) in(n, off); if (!strcmp(m.t.en, "FxMid")) { r.push_back({n + ".t", off, kInt, 1}); in(n + ".in[0]", off + 4); in(n + ".in[1]", off + 12); r.push_back({n + ".bits", off + 20, kBits, 2}); r.push_back({n + ".tail", off + 22, kUInt, 2}); } if (!strcmp(m.t.en, "FxStr")) r.push_back({n + ".n", off + offsetof(FxStr, n), kInt, 2}); } }
  return r;
}
MC_SECTION("every slot, every value", 8) {
  fxRegister(); uint64_t n = 0; auto iv = intVals(); auto sl = slots();
  for (auto &s : sl) for (int pat = 0; pat < (mc::thorough() ? 4 : 2); pat++) { if (!mc::mine(n++)) continue; FxObj o(pat); char *at = (char *)o.p + s.off; char keep[16]; memcpy(keep, at, size_t(s.size));
      auto one = [&](const void *v, const std::string &t) { memcpy(at, v, size_t(s.size)); roundTrip(*o.p, 1 - (pat & 1), s.name + " = " + t + S(" in filling %d", pat)); };
      if (s.k == kFloat) { for (double d : fltVals()) { float f = float(d); s.size == 4 ? one(&f, S("%g", d)) : one(&d, S("%g", d)); } for (uint64_t v : iv) if (v == (s.size == 4 ? uint32_t(v) : v)) one(&v, S("bits %llx", (unsigned long long)v)); }
      else if (s.k == kBool) { bool b = false; one(&b, "false"); b = true; one(&b, "true"); }
      else { uint64_t last = ~0ULL, mask = s.size == 8 ? ~0ULL : (1ULL << s.size * 8) - 1; std::vector<uint64_t> vs; if (s.size == 1) for (uint64_t v = 0; v < 256; v++) vs.push_back(v); else if (s.size == 2 && mc::thorough()) for (uint64_t v = 0; v < 65536; v += pat ? 257 : 1) vs.push_back(v); else for (uint64_t v : iv) vs.push_back(v & mask); std::sort(vs.begin(), vs.end()); for (uint64_t v : vs) { if (v == last) continue; last = v; one(&v, S("%llx", (unsigned long long)v)); } }
      memcpy(at, keep, size_t(s.size)); }
}
MC_SECTION("every text", 8) {
  fxRegister(); uint64_t n = 0; std::vector<std::string> tx; mc::strings(std::string("\0a\"\xff\n", 5), mc::thorough() ? 5 : 3, [&](const std::string &s) { tx.push_back(s); }, 0); for (size_t len : {15u, 16u, 17u, 100u, 120u, 126u, 127u, 128u, 129u, 250u, 255u, 256u, 257u, 16380u, 16383u, 16384u, 16385u, 65535u, 65536u, 70000u, 2097151u, 2097160u}) tx.push_back(std::string(len, 'x'));
  for (auto &t : tx) for (int which = 0; which < 4; which++) { if (!mc::mine(n++)) continue; FxObj o(which & 1); std::string *p[] = {&o.p->str, &o.p->astr[0], &o.p->astr[1], &o.p->sub.s}; *p[which] = t; roundTrip(*o.p, which >> 1, S("string %d = ", which) + (t.size() > 40 ? S("%zu letters", t.size()) : mc::quote(t))); *p[(which + 1) % 4] = t; *p[(which + 2) % 4] = "x"; roundTrip(*o.p, which & 1, S("strings %d and its neighbour = ", which) + (t.size() > 40 ? S("%zu letters", t.size()) : mc::quote(t))); }
}
// ---- deeper nesting, where every level has members at other offsets
struct N3 { float f; std::string y; int8 g[3]; void ReflectorTag(); }; REFLECTOR_CREATE(N3, 1, VARNAMES, f, y, g);
struct N2 { std::string x; N3 d[2]; int16 e; FxBits q[2]; N3 l; void ReflectorTag(); }; REFLECTOR_CREATE(N2, 1, VARNAMES, x, d, e, q, l);
struct N1 { int8 a; N2 b; FxA h; N2 c[2]; std::string s; N3 z; void ReflectorTag(); }; REFLECTOR_CREATE(N1, 1, VARNAMES, a, b, h, c, s, z);
struct N0 { uint64 p; N1 o, o2; N3 q; N2 r; }; REFLECTOR_CREATE(N0, 0, p, o, o2, q, r);  // (array elements above 255 bytes have no record: C17 finding)
static void vis3(N3 &n, std::vector<std::pair<void *, int>> &v) { v.push_back({&n.f, 4}); v.push_back({&n.y, -1}); for (auto &g : n.g) v.push_back({&g, 1}); }
static void vis2(N2 &n, std::vector<std::pair<void *, int>> &v) { v.push_back({&n.x, -1}); for (auto &d : n.d) vis3(d, v); v.push_back({&n.e, 2}); for (auto &q : n.q) v.push_back({&q, 2}); vis3(n.l, v); }
static void vis1(N1 &n, std::vector<std::pair<void *, int>> &v) { v.push_back({&n.a, 1}); vis2(n.b, v); v.push_back({&n.h, 1}); for (auto &c : n.c) vis2(c, v); v.push_back({&n.s, -1}); vis3(n.z, v); }
static void vis0(N0 &n, std::vector<std::pair<void *, int>> &v) { v.push_back({&n.p, 8}); vis1(n.o, v); vis1(n.o2, v); vis3(n.q, v); vis2(n.r, v); }
template <class T> struct Vis; template <> struct Vis<N0> { static void go(N0 &n, std::vector<std::pair<void *, int>> &v) { vis0(n, v); } }; template <> struct Vis<N1> { static void go(N1 &n, std::vector<std::pair<void *, int>> &v) { vis1(n, v); } }; template <> struct Vis<N2> { static void go(N2 &n, std::vector<std::pair<void *, int>> &v) { vis2(n, v); } }; template <> struct Vis<N3> { static void go(N3 &n, std::vector<std::pair<void *, int>> &v) { vis3(n, v); } };
template <class T> static std::vector<std::pair<void *, int>> leaves(T &n) { std::vector<std::pair<void *, int>> v; Vis<T>::go(n, v); return v; }
static void fillLeaf(std::pair<void *, int> l, int k, int seed) { if (l.second < 0) { *(std::string *)l.first = seed ? std::string(size_t((k * 7 + seed) % 40), char('a' + (k + seed) % 26)) : ""; } else if (l.second == 4) { *(float *)l.first = float(k + seed) * 0.5f; } else for (int i = 0; i < l.second; i++) ((char *)l.first)[i] = char(k * 3 + seed * 17 + i); }
template <class T> static void fillAll(T &n, int seed) { auto v = leaves(n); for (size_t i = 0; i < v.size(); i++) fillLeaf(v[i], int(i), seed); }
static bool leafEq(std::pair<void *, int> a, std::pair<void *, int> b) { return a.second < 0 ? *(std::string *)a.first == *(std::string *)b.first : !memcmp(a.first, b.first, size_t(a.second)); }
template <class T> static std::string leafDiff(T &a, T &b) { auto x = leaves(a), y = leaves(b); for (size_t i = 0; i < x.size(); i++) if (!leafEq(x[i], y[i])) return S("leaf %zu", i); return ""; }
template <class T> static void nested(const char *nm, uint64_t &n) {
  size_t count; { T t; count = leaves(t).size(); } for (size_t i = 0; i < count; i++) for (int s = 0; s < 6; s++) { if (!mc::mine(n++)) continue; T a, b; fillAll(a, s); fillAll(b, 5 - s); fillLeaf(leaves(a)[i], int(i), 9 + s); std::string what = S("%s filled with %d, leaf %zu changed", nm, s, i); mc::at("%s", what.c_str()); mc::state(what); mc::trace(); int rv; auto img = bytesOf(GetReflectedClass<T>(), &a, &rv); std::stringstream ss(img + "more"); BinReaderRef rd(ss); int r2 = load(GetReflectedClass<T>(), &b, rd); auto d = leafDiff(a, b); if (rv || r2 || size_t(ss.tellg()) != img.size() || !d.empty()) mc::fail("nested round trip", "%s: results %d %d, reader at %zd of %zu, differs: %s", what.c_str(), rv, r2, ssize_t(ss.tellg()), img.size(), d.c_str()); }
}
MC_SECTION("nested classes", 8) { fxRegister(); RegisterReflectedTypes<N1, N2, N3>(); uint64_t n = 0; nested<N3>("N3", n); nested<N2>("N2", n); nested<N1>("N1", n); nested<N0>("N0", n); }
// ---- arrays with more elements than a byte counts
struct Wide { int8 a; std::string many[300]; FxIn cls[259]; int16 nums[700]; N3 deep[257]; std::string s; }; REFLECTOR_CREATE(Wide, 1, VARNAMES, a, many, cls, nums, deep, s);
MC_SECTION("long arrays", 4) {
  fxRegister(); RegisterReflectedTypes<N1, N2, N3>(); uint64_t n = 0; auto fill = [](Wide &w, int seed) { w.a = int8(seed); for (int i = 0; i < 300; i++) w.many[i] = std::to_string(i * 31 + seed); for (int i = 0; i < 259; i++) w.cls[i] = {i * 7919 + seed, float(i) / 2}; for (int i = 0; i < 700; i++) w.nums[i] = int16(i * 91 + seed); for (int i = 0; i < 257; i++) fillAll(w.deep[i], i + seed); w.s = std::to_string(seed); };
  auto cmp = [](Wide &x, Wide &y) { if (x.a != y.a || x.s != y.s) return S("outer members"); for (int i = 0; i < 300; i++) if (x.many[i] != y.many[i]) return S("text %d", i); for (int i = 0; i < 259; i++) if (x.cls[i].a != y.cls[i].a || x.cls[i].b != y.cls[i].b) return S("class %d", i); for (int i = 0; i < 700; i++) if (x.nums[i] != y.nums[i]) return S("number %d", i); for (int i = 0; i < 257; i++) if (!leafDiff(x.deep[i], y.deep[i]).empty()) return S("nested class %d", i); return S(""); };
  for (int seed = 0; seed < 4; seed++) for (int hit : {-1, 0, 1, 2, 127, 128, 254, 255, 256, 257, 258, 299}) { if (!mc::mine(n++)) continue; std::unique_ptr<Wide> a(new Wide), b(new Wide); fill(*a, seed); fill(*b, seed + 50); if (hit >= 0) { a->many[hit] = "changed"; if (hit < 259) a->cls[hit].a = -1; if (hit < 257) a->deep[hit].y = "changed too"; a->nums[hit * 2] = -32768; } std::string what = S("filling %d, element %d changed", seed, hit); mc::at("%s", what.c_str()); mc::state("long " + what); mc::trace(); int rv; auto img = bytesOf(GetReflectedClass<Wide>(), a.get(), &rv); std::stringstream ss(img + "more"); BinReaderRef rd(ss); int r2 = load(GetReflectedClass<Wide>(), b.get(), rd); auto d = cmp(*a, *b); if (rv || r2 || size_t(ss.tellg()) != img.size() || !d.empty()) mc::fail("long arrays", "%s: results %d %d, reader at %zd of %zu, differs: %s", what.c_str(), rv, r2, ssize_t(ss.tellg()), img.size(), d.c_str()); }
}
// arrays of more than 65535 bytes
struct WideT { int8 a; std::string t[2200]; }; REFLECTOR_CREATE(WideT, 1, VARNAMES, a, t); struct WideC { int8 a; FxIn c[9000]; }; REFLECTOR_CREATE(WideC, 1, VARNAMES, a, c); struct WideI { int8 a; int64 v[8500]; }; REFLECTOR_CREATE(WideI, 1, VARNAMES, a, v); struct WideV { int8 a; Vector4 v[4200]; }; REFLECTOR_CREATE(WideV, 1, VARNAMES, a, v); struct WideF { int8 a; double v[65535]; }; REFLECTOR_CREATE(WideF, 1, VARNAMES, a, v);
template <class W> static void wideTrip(W &a, W &b, const std::string &what) { mc::at("%s", what.c_str()); mc::state("wide " + what); mc::trace(); int rv; auto img = bytesOf(GetReflectedClass<W>(), &a, &rv); std::stringstream ss(img + "more"); BinReaderRef rd(ss); int r2 = load(GetReflectedClass<W>(), &b, rd); if (rv || r2 || size_t(ss.tellg()) != img.size()) mc::fail("wide arrays", "%s: results %d %d, reader at %zd of %zu", what.c_str(), rv, r2, ssize_t(ss.tellg()), img.size()); }
MC_SECTION("wide arrays", 4) {
  fxRegister(); uint64_t n = 0; for (int seed = 0; seed < 2; seed++) {
    if (mc::mine(n++)) { std::unique_ptr<WideT> a(new WideT()), b(new WideT()); a->a = int8(seed); for (int i = 0; i < 2200; i++) { a->t[i] = std::to_string(i * 31 + seed); b->t[i] = "old"; } wideTrip(*a, *b, S("texts %d", seed)); for (int i = 0; i < 2200; i++) if (a->t[i] != b->t[i]) { mc::fail("wide texts", "text %d of 2200", i); break; } }
    if (mc::mine(n++)) { std::unique_ptr<WideC> a(new WideC()), b(new WideC()); for (int i = 0; i < 9000; i++) { a->c[i].a = i * 7919 + seed; a->c[i].b = float(i) / 2; } wideTrip(*a, *b, S("classes %d", seed)); for (int i = 0; i < 9000; i++) if (a->c[i].a != b->c[i].a || a->c[i].b != b->c[i].b) { mc::fail("wide classes", "class %d of 9000", i); break; } }
    if (mc::mine(n++)) { std::unique_ptr<WideI> a(new WideI()), b(new WideI()); for (int i = 0; i < 8500; i++) a->v[i] = int64(i) * 0x0102030405060709ll + seed; wideTrip(*a, *b, S("numbers %d", seed)); for (int i = 0; i < 8500; i++) if (a->v[i] != b->v[i]) { mc::fail("wide numbers", "number %d of 8500", i); break; } }
    if (mc::mine(n++)) { std::unique_ptr<WideV> a(new WideV()), b(new WideV()); for (int i = 0; i < 4200; i++) a->v[i] = Vector4(float(i), float(-i), float(seed), float(i) / 8); wideTrip(*a, *b, S("vectors %d", seed)); if (memcmp(a->v, b->v, sizeof a->v)) mc::fail("wide vectors", "filling %d", seed); }
    if (mc::mine(n++)) { std::unique_ptr<WideF> a(new WideF()), b(new WideF()); for (int i = 0; i < 65535; i++) a->v[i] = i * .5 + seed; wideTrip(*a, *b, S("doubles %d", seed)); if (memcmp(a->v, b->v, sizeof a->v)) mc::fail("wide doubles", "filling %d", seed); } }
}
// ---- many objects in one stream, between other data
MC_SECTION("object sequences", 8) {
  fxRegister(); RegisterReflectedTypes<N1, N2, N3>(); uint64_t n = 0; const int L = mc::thorough() ? 5 : 3;
  for (int len = 1; len <= L; len++) { mc::Odo od(std::vector<int>(size_t(len), 7)); while (od.next()) for (int gap : {0, 1, 5}) for (int place = 0; place < 5; place++) { if (!mc::mine(n++)) continue; std::string what = "objects"; for (int k : od.v) what += S(" %d", k); what += S(", gaps %d, placement %d", gap, place); mc::at("%s", what.c_str()); mc::state(what); mc::trace();
      std::stringstream ss; std::string pre(place == 0 ? 0 : 13, 'P'); if (place == 2) ss << std::string(20000, '~'); else ss << pre; ss.seekp(std::streamoff(pre.size())); BinWritterRef w(ss); if (place == 3) w.SetRelativeOrigin(6), w.Seek(7); if (place == 4) w.SwapEndian(true); std::vector<size_t> ends; int sv = 0;
      struct Ob { FxObj f{0}; FxIn in; FxStr st; N0 n0; N2 n2; N3 n3; FxMid mid; void fill(int s) { FxObj::fill(f.p, s & 1); in = {s * 1000003, float(s) / 3}; st.s = std::string(size_t(s * 9), 'k'); st.n = int16(s * 3000); fillAll(n0, s); fillAll(n2, s + 1); fillAll(n3, s + 2); memset((void *)&mid, 0, sizeof mid); mid.t = int8(s); mid.in[1] = in; mid.tail = uint16(s * 111); } void *at(int k) { void *p[] = {f.p, &in, &st, &n0, &n2, &n3, &mid}; return p[k]; } static const reflectorStatic *cl(int k) { const reflectorStatic *p[] = {fxNoCs(), GetReflectedClass<FxIn>(), GetReflectedClass<FxStr>(), GetReflectedClass<N0>(), GetReflectedClass<N2>(), GetReflectedClass<N3>(), GetReflectedClass<FxMid>()}; return p[k]; }
        std::string diff(Ob &o, int k) { switch (k) { case 0: return compareFx(Snap(*f.p), Snap(*o.f.p), Snap(*o.f.p)); case 1: return in.a == o.in.a && in.b == o.in.b ? "" : "FxIn"; case 2: return st.s == o.st.s && st.n == o.st.n ? "" : "FxStr"; case 3: return leafDiff(n0, o.n0); case 4: return leafDiff(n2, o.n2); case 5: return leafDiff(n3, o.n3); default: return memcmp(&mid.in, &o.mid.in, 16) || mid.t != o.mid.t || mid.bits.value != o.mid.bits.value || mid.tail != o.mid.tail ? "FxMid" : ""; } } };
      std::vector<size_t> starts; for (int i = 0; i < len; i++) { Ob o; o.fill(i + 1); starts.push_back(size_t(ss.tellp())); sv |= save(Ob::cl(od.v[size_t(i)]), o.at(od.v[size_t(i)]), w); ends.push_back(size_t(ss.tellp())); for (int g = 0; g < gap; g++) w.Write<uint8>(uint8(0xc0 + g)); } size_t end = size_t(ss.tellp()); if (sv || !ss) { mc::fail("save result", "%s: %d", what.c_str(), sv); continue; }
      std::string img = ss.str(); if (place == 2 && img.substr(end) != std::string(20000 - end, '~')) mc::fail("data behind", "%s: overwritten", what.c_str()); if (img.compare(0, pre.size(), place == 2 ? std::string(13, '~') : pre)) mc::fail("data before", "%s: overwritten", what.c_str());
      BinReaderRef rd(ss); if (place == 3) rd.SetRelativeOrigin(3), rd.Seek(10); else rd.Seek(pre.size()); if (place == 4) rd.SwapEndian(true); bool ok = true;
      for (int i = 0; i < len && ok; i++) { Ob o, want; want.fill(i + 1); o.fill(0); int k = od.v[size_t(i)], r = load(Ob::cl(k), o.at(k), rd); auto d = want.diff(o, k); if (r || size_t(ss.tellg()) != ends[size_t(i)] || !d.empty()) { mc::fail("sequence", "%s: object %d: result %d, reader at %zd, end %zu, differs: %s", what.c_str(), i, r, ssize_t(ss.tellg()), ends[size_t(i)], d.c_str()); ok = false; } for (int g = 0; g < gap && ok; g++) { uint8 c = 0; rd.Read(c); if (c != 0xc0 + g) { mc::fail("data between", "%s", what.c_str()); ok = false; } } }
      // each object alone, in reverse order
      for (int i = len - 1; i >= 0 && ok && place < 3; i--) { Ob o, want; want.fill(i + 1); o.fill(7); int k = od.v[size_t(i)]; rd.Seek(starts[size_t(i)]); int r = load(Ob::cl(k), o.at(k), rd); auto d = want.diff(o, k); if (r || !d.empty()) mc::fail("sequence, one of them", "%s: object %d: result %d, differs: %s", what.c_str(), i, r, d.c_str()); } } }
}
// ---- other versions of a class
struct V4 { int32 a; std::string b; float c; uint8 d[3]; int64 e; }; REFLECTOR_CREATE(V4, 0, a, b, c, d, e);
static void putV(V4 &v, int s) { v.a = s * 100000; v.b = std::string(size_t(s) * 5, char('A' + s)); v.c = float(s) / 7; for (int i = 0; i < 3; i++) v.d[i] = uint8(s * 50 + i); v.e = int64(s) << 40; }
static bool eqV(const V4 &x, const V4 &y, int m) { switch (m) { case 0: return x.a == y.a; case 1: return x.b == y.b; case 2: return x.c == y.c; case 3: return !memcmp(x.d, y.d, 3); default: return x.e == y.e; } }
MC_SECTION("versions: reordered, renamed, added and removed members", 8) {
  uint64_t n = 0; std::vector<std::vector<int>> perms; { for (unsigned m = 1; m < 32; m++) { std::vector<int> p; for (int i = 0; i < 5; i++) if (m >> i & 1) p.push_back(i); if (p.size() < 3 && !mc::thorough() && m % 3) continue; do perms.push_back(p); while ((p.size() == 5 || mc::thorough()) && std::next_permutation(p.begin(), p.end())); } }
  for (auto &from : perms) for (auto &to : perms) { if (!mc::thorough() && from.size() == 5 && to.size() == 5 && (from[0] + to[1] * 3 + from[2] + to[4]) % 4) continue; if (!mc::mine(n++)) continue; for (unsigned ren = 0; ren < 32; ren += mc::thorough() ? 1 : 5) { Desc df(GetReflectedClass<V4>(), from), dt(GetReflectedClass<V4>(), to); for (auto &t : dt.t) if (ren >> (t.valueNameHash.raw() % 5) & 1) t.valueNameHash = JenHash(t.valueNameHash.raw() ^ 0x55aa55aa);
      std::string what = "saved members"; for (int i : from) what += S(" %c", 'a' + i); what += ", loaded as"; for (int i : to) what += S(" %c", 'a' + i); what += S(", renamed by %u", ren); mc::at("%s", what.c_str()); mc::state(what); mc::trace(); V4 a, b, c; putV(a, 1); putV(b, 2); putV(c, 2); int rv; auto img = bytesOf(&df.r, &a, &rv); std::stringstream ss(img + "next"); BinReaderRef rd(ss); int r2 = load(&dt.r, &b, rd); if (rv) mc::fail("save result", "%s: %d", what.c_str(), rv); if (size_t(ss.tellg()) != img.size()) mc::fail("versions: position", "%s: reader at %zd of %zu", what.c_str(), ssize_t(ss.tellg()), img.size());
      if ((r2 != 0) != (from.size() != to.size())) mc::fail("versions: result", "%s: %d", what.c_str(), r2);
      for (int m = 0; m < 5; m++) { bool shared = false; if (from.size() == to.size()) for (int i : from) if (i == m) for (size_t k = 0; k < to.size(); k++) if (to[k] == m && dt.t[k].valueNameHash == df.t[size_t(std::find(from.begin(), from.end(), m) - from.begin())].valueNameHash) shared = true; if (!eqV(b, shared ? a : c, m)) mc::fail("versions: members", "%s: member %c is %s", what.c_str(), 'a' + m, shared ? "not restored" : "changed"); } } }
}
template <class K> struct VK { int32 before; K x; std::string after; int16 last; };
#define KINDS(X) X(bool) X(int8) X(uint8) X(int16) X(uint16) X(int32) X(uint32) X(int64) X(uint64) X(float) X(double) X(std::string) X(FxA) X(FxW) X(FxQ) X(FxF8) X(FxG64) X(FxBits) X(FxSBits) X(Vector) X(Vector4A16) X(FxIn) X(FxStr) X(FxMid) X(N3)
typedef int8 KI8[3]; typedef int32 KI32[2]; typedef std::string KS2[2]; typedef FxIn KIn[2]; typedef Vector2 KV[2]; typedef FxBits KB[2];
#define KINDS2(X) X(KI8) X(KI32) X(KS2) X(KIn) X(KV) X(KB)
#define X(k) REFLECTOR_CREATE((VK<k>), 1, TEMPLATE, before, x, after, last);
KINDS(X) KINDS2(X)
#undef X
struct Num { size_t size; bool sign; int64_t (*get)(void *); };
struct KindOps { const char *name; const reflectorStatic *(*cls)(); void *(*make)(int seed); void (*drop)(void *); bool (*same)(void *, void *); bool (*restOk)(void *, int seed); int fixed; Num num; };
template <class K> static void setK(K &x, int s, std::false_type) { memset((void *)&x, 0, sizeof x); for (size_t i = 0; i < sizeof x; i++) ((char *)&x)[i] = char(std::is_same<K, bool>::value ? s & 1 : std::is_integral<K>::value && s > 3 ? 0x80 | (s * 37 + int(i) * 5) : (s * 3 + int(i)) & 0x3f); }
static void setK(std::string &x, int s, std::true_type) { x = std::string(size_t(s * 4), 's'); } static void setK(FxStr &x, int s, std::true_type) { x.s = std::string(size_t(s * 6), 't'); x.n = int16(s); } static void setK(N3 &x, int s, std::true_type) { fillAll(x, s); } static void setK(KS2 &x, int s, std::true_type) { for (auto &e : x) e = std::string(size_t(s * 3), 'u'); }
template <class K> static bool eqK(const K &a, const K &b) { return !memcmp(&a, &b, sizeof a); } static bool eqK(const std::string &a, const std::string &b) { return a == b; } static bool eqK(const FxStr &a, const FxStr &b) { return a.s == b.s && a.n == b.n; } static bool eqK(N3 &a, N3 &b) { return leafDiff(a, b).empty(); } static bool eqK(KS2 &a, KS2 &b) { return a[0] == b[0] && a[1] == b[1]; } static bool eqK(FxMid &a, FxMid &b) { return a.t == b.t && a.bits.value == b.bits.value && a.tail == b.tail && !memcmp(a.in, b.in, sizeof a.in); }
template <class K> struct NT : std::integral_constant<bool, !std::is_trivially_destructible<K>::value> {};
template <class K> static Num numOf(std::true_type) { return {sizeof(K), std::is_signed<K>::value, [](void *p) { return int64_t(((VK<K> *)p)->x); }}; }
template <class K> static Num numOf(std::false_type) { return {0, false, nullptr}; }
template <class K> static KindOps kind(const char *n, int fixed) {
  return {n, [] { static Desc d(GetReflectedClass<VK<K>>(), {0, 1, 2, 3}); d.set(JenHash(0x1234567)); return (const reflectorStatic *)&d.r; },
          [](int s) { auto p = (VK<K> *)aligned_alloc(16, (sizeof(VK<K>) + 15) / 16 * 16); memset((void *)p, 0, sizeof *p); new (p) VK<K>; setK(p->x, s, NT<K>()); p->before = s * 77777; p->after = std::string(size_t(s) * 8, 'z'); p->last = int16(s * 1000); return (void *)p; }, [](void *p) { ((VK<K> *)p)->~VK<K>(); free(p); }, [](void *a, void *b) { return eqK(((VK<K> *)a)->x, ((VK<K> *)b)->x); },
          [](void *p, int s) { auto q = (VK<K> *)p; return q->before == s * 77777 && q->after == std::string(size_t(s) * 8, 'z') && q->last == s * 1000; }, fixed, numOf<K>(std::is_integral<K>())};
}
template <class K> struct Fixed { static const int v = std::is_same<K, bool>::value || sizeof(K) == 1 ? 1 : std::is_floating_point<K>::value ? int(sizeof(K)) : std::is_same<K, Vector>::value ? 12 : std::is_same<K, Vector4A16>::value ? 16 : std::is_same<K, KI8>::value ? 3 : std::is_same<K, KV>::value ? 16 : 0; };
MC_SECTION("versions: members of other kinds", 8) {
  fxRegister(); RegisterReflectedTypes<N1, N2, N3>(); uint64_t n = 0;
#define X(k) kind<k>(#k, Fixed<k>::v),
  static const std::vector<KindOps> ks{KINDS(X) KINDS2(X)};
#undef X
  for (auto &a : ks) for (auto &b : ks) for (int sa = 0; sa < 6; sa++) for (int sb = 0; sb < 6; sb++) { if (!mc::mine(n++)) continue; std::string what = S("%s (%d) loaded as %s (%d)", a.name, sa, b.name, sb); mc::at("%s", what.c_str()); mc::state(what); mc::trace(); void *p = a.make(sa), *q = b.make(sb); int rv; auto img = bytesOf(a.cls(), p, &rv); std::stringstream ss(img + std::string(80, '\x7f')); BinReaderRef rd(ss); int r2 = load(b.cls(), q, rd);
      if (rv) mc::fail("save result", "%s: %d", what.c_str(), rv); if (!b.restOk(q, sa)) mc::fail("kinds: other members", "%s: members beside it are not restored", what.c_str()); if (size_t(ss.tellg()) != img.size()) mc::fail("kinds: position", "%s: reader at %zd of %zu", what.c_str(), ssize_t(ss.tellg()), img.size());
      if (&a == &b && (r2 || !a.same(p, q))) mc::fail("kinds: same kind", "%s: result %d", what.c_str(), r2); if (a.fixed && b.fixed && a.fixed != b.fixed && !r2) mc::fail("kinds: size", "%s: not reported", what.c_str()); if (a.num.size > 1 && a.num.size <= b.num.size && a.num.sign == b.num.sign) { int64_t v = a.num.get(p), w = b.num.get(q); if (r2 || v != w) mc::fail("kinds: wider number", "%s: result %d, %lld instead of %lld", what.c_str(), r2, (long long)w, (long long)v); }
      a.drop(p); b.drop(q); }
}
MC_SECTION("other classes", 1) {
  fxRegister(); RegisterReflectedTypes<N1, N2, N3>(); V4 v, v0; putV(v, 1); putV(v0, 1); N3 n3; fillAll(n3, 3); FxStr st; st.s = "text"; st.n = 3;
  const std::vector<std::pair<const reflectorStatic *, void *>> c{{GetReflectedClass<V4>(), &v}, {GetReflectedClass<N3>(), &n3}, {GetReflectedClass<FxStr>(), &st}};
  for (auto &a : c) for (auto &b : c) { if (a.first == b.first) continue; for (int pre : {0, 6}) { auto img = std::string(size_t(pre), 'p') + bytesOf(a.first, a.second); auto was = bytesOf(b.first, b.second); std::stringstream ss(img); BinReaderRef rd(ss); rd.Seek(size_t(pre)); int r = load(b.first, b.second, rd); mc::state(S("foreign %zu %zu %d", size_t(&a - &c[0]), size_t(&b - &c[0]), pre)); if (!r || bytesOf(b.first, b.second) != was) mc::fail("another class", "result %d", r); if (ssize_t(ss.tellg()) != pre) mc::fail("another class: position", "%zd", ssize_t(ss.tellg())); int r3 = load(a.first, a.second, rd); if (r3) mc::fail("another class: afterwards", "%d", r3); } }
  // no stored form
  { FxObj o(1); auto was = Snap(*o.p); std::stringstream ss; BinWritterRef w(ss); int r = save(GetReflectedClass<Fx>(), o.p, w); if (!r) mc::fail("C string saved", "result 0"); if (was.diff(Snap(*o.p), 0, 0) >= 0) mc::fail("C string saved", "object changes"); }
  { FxBits b; b.value = 7; std::stringstream ss; BinWritterRef w(ss); int r = save(GetReflectedClass<FxBits>(), &b, w); if (!r) mc::fail("bit field saved alone", "result 0"); }
  // nested class nobody registered
  { Desc d(GetReflectedClass<N1>(), {0, 1, 2, 3, 4, 5}); for (int k : {1, 3, 5}) { Desc e(GetReflectedClass<N1>(), {0, 1, 2, 3, 4, 5}); e.t[size_t(k)].typeHash = JenHash(0x7777u + unsigned(k)); N1 a, b, b0; fillAll(a, 1); fillAll(b, 2); fillAll(b0, 2); std::stringstream ss; BinWritterRef w(ss); if (!save(&e.r, &a, w)) mc::fail("unregistered nested class saved", "member %d", k); auto img = bytesOf(&d.r, &a); std::stringstream s2(img + "after"); BinReaderRef rd(s2); int r = load(&e.r, &b, rd); mc::state(S("unregistered %d", k)); if (!r || size_t(s2.tellg()) != img.size()) mc::fail("unregistered nested class loaded", "member %d: result %d, reader at %zd of %zu", k, r, ssize_t(s2.tellg()), img.size()); if (b.a != a.a || b.h != a.h || b.s != a.s || (k != 5 && b.z.y != a.z.y) || (k == 5 && b.z.y != b0.z.y)) mc::fail("unregistered nested class loaded", "member %d: other members not restored", k); } }
}
MC_SECTION("truncated", 8) {
  fxRegister(); RegisterReflectedTypes<N1, N2, N3>(); uint64_t n = 0;
  for (int what = 0; what < 4; what++) for (int seed = 0; seed < (mc::thorough() ? 4 : 2); seed++) for (int pre : {0, 5}) { FxObj f(seed & 1); N0 n0; fillAll(n0, seed); V4 v; putV(v, seed); FxStr st; st.s = std::string(size_t(seed * 200), 'q'); st.n = 1; const reflectorStatic *cl[] = {fxNoCs(), GetReflectedClass<N0>(), GetReflectedClass<V4>(), GetReflectedClass<FxStr>()}; void *src[] = {f.p, &n0, &v, &st}; auto img = bytesOf(cl[what], src[what]);
    for (size_t len = 0; len < img.size(); len++) { if (!mc::mine(n++)) continue; std::string w = S("object %d (%d) cut at %zu of %zu behind %d bytes", what, seed, len, img.size(), pre); mc::at("%s", w.c_str()); mc::state(w); mc::trace(); FxObj tf(0); N0 tn; fillAll(tn, 4); V4 tv; putV(tv, 3); FxStr ts; ts.s = "old"; ts.n = 5; void *dst[] = {tf.p, &tn, &tv, &ts}; std::stringstream ss(std::string(size_t(pre), 'p') + img.substr(0, len)); BinReaderRef rd(ss); rd.Seek(size_t(pre)); if (!load(cl[what], dst[what], rd)) mc::fail("truncated object accepted", "%s", w.c_str()); } }
}
MC_SECTION("damaged", 8) {
  fxRegister(); RegisterReflectedTypes<N1, N2, N3>(); uint64_t n = 0;
  for (int what = 0; what < 4; what++) for (int tail : {0, 300, 40000}) { FxObj f(1); N0 n0; fillAll(n0, 1); V4 v; putV(v, 1); FxStr st; st.s = std::string(200, 'q'); st.n = 1; const reflectorStatic *cl[] = {fxNoCs(), GetReflectedClass<N0>(), GetReflectedClass<V4>(), GetReflectedClass<FxStr>()}; void *src[] = {f.p, &n0, &v, &st}; auto img = bytesOf(cl[what], src[what]);
    for (size_t at = 0; at < img.size(); at++) for (int val = 0; val < 256; val += (what < 2 && !mc::thorough()) ? 51 : 1) { if (tail && at > 40 && !mc::thorough()) break; if (uint8(img[at]) == val) continue; if (!mc::mine(n++)) continue; std::string w = S("object %d, byte %zu = %d, %d bytes behind", what, at, val, tail); mc::at("%s", w.c_str()); mc::state(w); mc::trace(); FxObj tf(0); N0 tn; fillAll(tn, 4); V4 tv; putV(tv, 3); FxStr ts; ts.s = "old"; ts.n = 5; void *dst[] = {tf.p, &tn, &tv, &ts}; auto d = img; d[at] = char(val); std::stringstream ss(d + std::string(size_t(tail), '\x81')); BinReaderRef rd(ss); int r = load(cl[what], dst[what], rd); if (!r && size_t(ss.tellg()) != img.size()) mc::fail("damaged object accepted", "%s: reader at %zd of %zu", w.c_str(), ssize_t(ss.tellg()), img.size()); } }
}
