// REPO: datas/reflector.cpp datas/master_printer.cpp
// VARIANT: opt -O1
// VARIANT: asan+thorough -O1 -fsanitize=address
// RULE: state = distinct (enum declaration, storage value or text); transition = one reflective print or set; trace = one storage value printed or one text set, judged against the enumerator values of the compiler
#include "reflfix.hpp"
template <class E> struct EnumOf;
#include "enums.inc"
static std::string S(const char *f, ...) { char b[900]; va_list a; va_start(a, f); vsnprintf(b, 900, f, a); va_end(a); return b; }
static bool isName(const std::vector<EV> &l, const std::string &s, uint64_t v) { for (auto &e : l) if (e.v == v && s == e.n) return true; return false; }
static bool any(const std::vector<EV> &l, const std::string &s) { for (auto &e : l) if (s == e.n) return true; return false; }
static const EV *byVal(const std::vector<EV> &l, uint64_t v) { for (auto &e : l) if (e.v == v) return &e; return nullptr; }
static std::vector<std::string> nearMisses(const std::vector<EV> &l, const char *en) {
  std::vector<std::string> r; auto add = [&](const std::string &s) { if (!any(l, s)) r.push_back(s); };
  for (size_t i = 0; i < l.size(); i += l.size() > 10 ? 9 : 1) { std::string n = l[i].n; add(n.substr(1)); add(n.substr(0, n.size() - 1)); add(n + "x"); add(n + "_"); add("x" + n); add(n + " = 3"); add(n + "=3"); add(n + " x"); add(n + ","); add(n + " | " + n); add(std::string(en) + "::" + n); for (size_t k = 0; k < n.size(); k++) { std::string q = n; q[k] = char(isalpha(q[k]) ? q[k] ^ 0x20 : q[k] + 1); add(q); } add(n + std::string(1, '\0')); }
  for (auto s : {"NULL", "0", "1", "3", "-1", "=", "A", "AB", "True"}) add(s); return r;
}
static JenHash H(const char *s) { return JenHash(es::string_view(s)); }
struct Info { const char *name; int n; std::vector<EV> l; size_t size, om, oa, o8, o64, o16; Reflector *(*wrap)(void *); ReflectedEnum (*desc)(); void (*reg)(); };
template <class E> static Reflector *wrapE(void *p) { return new ReflectorWrap<typename EnumOf<E>::C>(*(typename EnumOf<E>::C *)p); }
template <class E> static void regE() { RegisterReflectedTypes<E, typename EnumOf<E>::C>(); }
template <class E> static Info info() { typedef typename EnumOf<E>::C C; return {EnumOf<E>::name(), int(sizeof(E)), EnumOf<E>::get(), sizeof(C), offsetof(C, m), offsetof(C, a), offsetof(C, f8), offsetof(C, f64), offsetof(C, f16), &wrapE<E>, &GetReflectedEnum<E>, &regE<E>}; }
static void one(Info x) {
  const char *en = x.name; const int n = x.n; const uint64_t um = ~0ULL >> (64 - 8 * n); for (auto &q : x.l) q.v &= um; const auto &l = x.l; x.reg();
  // the registered description
  { auto re = x.desc(); mc::step(); bool ok = re.size() == l.size() && re.name == es::string_view(en) && re.hash == JenHash(es::string_view(en)); for (size_t i = 0; ok && i < l.size(); i++) ok = re.at(i) == es::string_view(l[i].n) && re.values[i] == l[i].v && isName(l, re.find(l[i].v).to_string(), l[i].v); if (!ok) { std::string d; for (size_t i = 0; i < re.size() && i < l.size(); i++) d += S(" %s=%llx", re.at(i).to_string().c_str(), (unsigned long long)re.values[i]); std::string w; for (auto &e : l) w += S(" %s=%llx", e.n, (unsigned long long)e.v); mc::fail("enum description", "%s is described as%s, declared%s", en, d.c_str(), w.c_str()); } auto it = REFEnumStorage.find(JenHash(es::string_view(en))); if (it == REFEnumStorage.end() || !(it->second.name == es::string_view(en))) mc::fail("enum registry", "%s", en); uint64_t odd = 0x5a; while (byVal(l, odd)) odd++; if (!re.find(odd).empty()) mc::fail("enum find", "%s finds %llx", en, (unsigned long long)odd); }

  char *o = (char *)aligned_alloc(16, (x.size + 15) / 16 * 16); Reflector &r = *x.wrap(o); auto reset = [&](uint8_t p) { memset(o, p, x.size); };
  // printing
  std::vector<uint64_t> vals; for (auto &e : l) { vals.push_back(e.v); vals.push_back(e.v + 1); vals.push_back(e.v - 1); vals.push_back(e.v ^ (1ULL << (8 * n - 1))); } if (n == 1) for (int v = 0; v < 256; v++) vals.push_back(uint64_t(v)); vals.push_back(0); vals.push_back(~0ULL);
  for (auto v : vals) for (int form = 0; form < 4; form++) { v &= um; reset(form ? 0xff : 0); if (form == 0) memcpy(o + x.om, &v, size_t(n)); else memcpy(o + x.oa + size_t(form - 1) * size_t(n), &v, size_t(n)); std::string t = form == 0 ? r.GetReflectedValue("m") : r.GetReflectedValue("a", size_t(form - 1)); mc::step(); mc::trace(); mc::state(mc::mix(mc::hashBytes(en, strlen(en), v + 5)) + uint64_t(form)); bool decl = byVal(l, v); if (decl ? !isName(l, t, v) : any(l, t)) mc::fail("enumerator printed", "%s value %llx (%s) prints %s, expected %s", en, (unsigned long long)v, form ? "array element" : "member", mc::quote(t).c_str(), decl ? byVal(l, v)->n : "no name"); }
  // setting
  auto frame = [&](const std::string &before, size_t lo, size_t hi, const std::string &d) { const char *p = o; for (size_t i = 0; i < x.size; i++) if ((i < lo || i >= hi) && p[i] != before[i]) { mc::fail("another byte changed", "%s changes byte %zu", d.c_str(), i); return; } };
  auto setOne = [&](const std::string &t, uint64_t want, bool good) { for (int form = 0; form < 4; form++) for (int fill = 0; fill < 2; fill++) { reset(fill ? 0xc3 : 0); std::string b(o, x.size); size_t off = form ? x.oa + size_t(form - 1) * size_t(n) : x.om; ET e = form ? r.SetReflectedValue("a", t, size_t(form - 1)) : r.SetReflectedValue("m", t); mc::step(); mc::trace(); mc::state(mc::hashBytes(t.data(), t.size(), mc::hashBytes(en, strlen(en)) + uint64_t(form * 2 + fill))); std::string d = S("%s %s = %s", en, form ? "element" : "member", mc::quote(t).c_str()); frame(b, off, off + size_t(n), d); uint64_t got = 0, was = 0; memcpy(&got, o + off, size_t(n)); memcpy(&was, b.data() + off, size_t(n)); if (good ? got != want || e != ET::None : got != was || e == ET::None) mc::fail(good ? "enumerator set" : "unknown name", "%s gives %llx and %s, expected %llx and %s", d.c_str(), (unsigned long long)got, ::en(e), (unsigned long long)(good ? want : was), good ? "None" : "an error"); } };
  for (auto &e : l) { setOne(e.n, e.v, true); setOne(std::string("  ") + e.n, e.v, true); setOne(std::string(e.n) + " ", e.v, true); }
  for (auto &s : nearMisses(l, en)) setOne(s, 0, false); setOne("", 0, false); setOne("   ", 0, false);
  if (l.size() >= 2) { reset(0); std::string t = std::string("{") + l[0].n + ", " + l[1].n + ", " + l.back().n + "}"; ET e = r.SetReflectedValue("a", t); uint64_t g[3] = {}; for (int i = 0; i < 3; i++) memcpy(&g[i], o + x.oa + i * n, size_t(n)); if (e != ET::None || g[0] != l[0].v || g[1] != l[1].v || g[2] != l.back().v) mc::fail("enum array set", "%s %s", en, t.c_str()); std::string p = r.GetReflectedValue("a"); reset(0x11); if (r.SetReflectedValue("a", p) != ET::None || memcmp(&g[0], (std::string(o + x.oa, size_t(n)) + std::string(8, '\0')).data(), size_t(n))) mc::fail("enum array round trip", "%s %s", en, p.c_str()); }
  // flags: bit k is named by the enumerator of value k
  auto flagText = [&](uint64_t v, int bits, const std::string &t) { std::vector<std::string> parts; if (t != "NULL") { size_t p = 0; for (;;) { size_t q = t.find(" | ", p); parts.push_back(t.substr(p, q == t.npos ? q : q - p)); if (q == t.npos) break; p = q + 3; } } size_t k = 0; for (int b = 0; b < bits; b++) if (v >> b & 1 && byVal(l, uint64_t(b))) { if (k >= parts.size() || !isName(l, parts[k], uint64_t(b))) return false; k++; } return k == parts.size(); };
  auto flagPrint = [&](uint64_t v, int which) { static const char *N[] = {"f8", "f16", "f16", "f64"}; static const int B[] = {8, 16, 16, 64}; reset(0xff); char *p = which == 0 ? o + x.o8 : which == 3 ? o + x.o64 : o + x.o16 + (which - 1) * 2; memcpy(p, &v, size_t(B[which]) / 8); std::string t = which == 1 || which == 2 ? r.GetReflectedValue(H(N[which]), size_t(which - 1)) : r.GetReflectedValue(H(N[which])); mc::step(); mc::trace(); mc::state(mc::mix(mc::hashBytes(en, strlen(en), v + 77)) + uint64_t(which)); if (!flagText(v, B[which], t)) mc::fail("flags printed", "%s %d bit flags %llx print %s", en, B[which], (unsigned long long)v, mc::quote(t).c_str());
    if (which == 0 || which == 3) for (int b = 0; b < B[which]; b++) if (v == 1ULL << b || b < 8) { std::string q = r.GetReflectedValue(H(N[which]), size_t(b)); if (q != (v >> b & 1 ? "true" : "false")) mc::fail("flag bit printed", "%s %d bit flags %llx bit %d prints %s", en, B[which], (unsigned long long)v, b, q.c_str()); } };
  for (int v = 0; v < 256; v++) flagPrint(uint64_t(v), 0); for (int i = 0; i < 64; i++) for (int j = i; j < 64; j += (mc::thorough() || l.size() < 10) ? 1 : 5) { uint64_t v = 1ULL << i | 1ULL << j; flagPrint(v, 3); if (j < 16) { flagPrint(v, 1); flagPrint(v, 2); } } flagPrint(~0ULL, 3); flagPrint(0, 3); flagPrint(0xffff, 2);
  auto flagSet = [&](const std::string &t, uint64_t want, int which) { static const char *N[] = {"f8", "f16", "f16", "f64"}; static const int B[] = {8, 16, 16, 64}; for (int fill = 0; fill < 2; fill++) { reset(fill ? 0xff : 0); std::string b(o, x.size); size_t off = which == 0 ? x.o8 : which == 3 ? x.o64 : x.o16 + size_t(which - 1) * 2; ET e = which == 1 || which == 2 ? r.SetReflectedValue(H(N[which]), t, size_t(which - 1)) : r.SetReflectedValue(H(N[which]), t); mc::step(); mc::trace(); mc::state(mc::hashBytes(t.data(), t.size(), mc::hashBytes(en, strlen(en)) + uint64_t(which * 2 + fill + 100))); std::string d = S("%s %s = %s", en, N[which], mc::quote(t).c_str()); frame(b, off, off + size_t(B[which]) / 8, d); uint64_t got = 0; memcpy(&got, o + off, size_t(B[which]) / 8); if (e != ET::None || got != want) mc::fail("flags set", "%s gives %llx and %s, expected %llx", d.c_str(), (unsigned long long)got, ::en(e), (unsigned long long)want); } };
  // a text of many names, some of them several times, sets what it names; unknown names are reported
  for (int which = 0; which < 4; which++) { uint64_t B = which == 0 ? 8 : which == 3 ? 64 : 16; std::vector<EV> u; for (auto &e : l) if (e.v < B) u.push_back(e); if (u.empty()) continue;
    for (size_t cnt : {10u, 30u, 64u, 200u, 1000u}) for (size_t last = 0; last < u.size() && last < 4; last++) { std::string t; for (size_t i = 0; i < cnt; i++) t += std::string(u[0].n) + " | "; t += u[last].n; flagSet(t, 1ULL << u[0].v | 1ULL << u[last].v, which); }
    { std::string t; uint64_t v = 0; for (int rep = 0; rep < 3; rep++) { for (auto &e : u) { t += (t.empty() ? "" : " | ") + std::string(e.n); v |= 1ULL << e.v; } flagSet(t, v, which); } }
    static const char *N[] = {"f8", "f16", "f16", "f64"}; auto bad = nearMisses(l, en); for (auto &b : bad) { if (b.find_first_not_of(" \t") == b.npos || b.find('|') != b.npos) continue; std::string w = b.substr(b.find_first_not_of(" \t"), b.find_last_not_of(" \t") - b.find_first_not_of(" \t") + 1); if (w == "NULL") continue; bool known = false; for (auto &e : l) known = known || w == e.n; if (known) continue;
      for (int f = 0; f < 3; f++) { std::string t = f == 0 ? b : f == 1 ? b + " | " + u[0].n : u[0].n + (" | " + b); reset(0); std::string bf(o, x.size); size_t off = which == 0 ? x.o8 : which == 3 ? x.o64 : x.o16 + size_t(which - 1) * 2; ET e = which == 1 || which == 2 ? r.SetReflectedValue(H(N[which]), t, size_t(which - 1)) : r.SetReflectedValue(H(N[which]), t); mc::step(); mc::trace(); std::string d = S("%s %s = %s", en, N[which], mc::quote(t).c_str()); frame(bf, off, off + B / 8, d); if (e == ET::None) mc::fail("unknown flag accepted", "%s", d.c_str()); } } }
  for (int which = 0; which < 4; which++) { int B = which == 0 ? 8 : which == 3 ? 64 : 16; flagSet("NULL", 0, which); for (auto &X : l) { if (X.v >= uint64_t(B)) continue; flagSet(X.n, 1ULL << X.v, which); flagSet(std::string(" ") + X.n + "  ", 1ULL << X.v, which); for (auto &y : l) { if (y.v >= uint64_t(B)) continue; flagSet(std::string(X.n) + " | " + y.n, 1ULL << X.v | 1ULL << y.v, which); if (l.size() < 10) { flagSet(std::string(X.n) + "|" + y.n, 1ULL << X.v | 1ULL << y.v, which); for (auto &z : l) if (z.v < uint64_t(B)) flagSet(std::string(X.n) + "  |  " + y.n + " | " + z.n, 1ULL << X.v | 1ULL << y.v | 1ULL << z.v, which); } } } }
}
typedef Info (*Fn)();
MC_SECTION("declared enums", 8) {
#define X(e) &info<e>,
  static const Fn fns[] = {ALL_ENUMS(X)};
#undef X
  uint64_t n = 0; for (auto f : fns) { if (!mc::mine(n++)) continue; mc::at("enum En%llu", (unsigned long long)(n - 1)); mc::beat(); one(f()); }
}
// values that are expressions: the reflection reads the text of the declaration, which is a listed finding
enum { kBase = 3 };
REFLECTOR_CREATE(EnExpr, ENUM, 1, CLASS, Shift = 1 << 4, Sum = 2 + 3, Char = 'a', Binary = 0b11, Paren = (7), Other = kBase, Ref = Sum, Sep = 1'000);
MC_SECTION("enumerators valued by expressions", 1) {
  auto re = GetReflectedEnum<EnExpr>(); const EnExpr v[] = {EnExpr::Shift, EnExpr::Sum, EnExpr::Char, EnExpr::Binary, EnExpr::Paren, EnExpr::Other, EnExpr::Ref, EnExpr::Sep}; const char *n[] = {"1 << 4", "2 + 3", "'a'", "0b11", "(7)", "constant", "other enumerator", "1'000"};
  for (size_t i = 0; i < 8; i++) { mc::step(); mc::trace(); mc::state(n[i]); if (re.values[i] != uint64_t(v[i])) mc::fail(n[i], "enumerator %s = %s is %llu in the code and %llu in the reflection", re.at(i).to_string().c_str(), n[i], (unsigned long long)v[i], (unsigned long long)re.values[i]); }
}
