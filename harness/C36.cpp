// REPO: datas/reflector.cpp datas/reflector_io.cpp datas/master_printer.cpp
// VARIANT: opt -O2
// VARIANT: asan -O1 -fsanitize=address
// RULE: state = distinct (class, member, key or format, value) or subset of registered types or settings object; transition = one call of the reflection interface; trace = one comparison of everything seen through name, alias and index
// ASSUME: 32-bit name hashes of the checked names do not collide (checked while running)
#include <iostream>
#include "reflset.hpp"
#include "datas/settings_manager.hpp"
#include <dirent.h>
#include <fstream>
#include <memory>
#include <set>
#include <sstream>
#include <sys/stat.h>
#include <unistd.h>
typedef Reflector R;
static std::string S(const char *f, ...) { char b[1200]; va_list a; va_start(a, f); vsnprintf(b, 1200, f, a); va_end(a); return b; }
static JenHash H(const std::string &s) { return JenHash(es::string_view(s.data(), s.size())); }
static const void *cls(ReflectedInstance i) { return static_cast<ReflectedInstanceFriend &>(i).R(); }
static const char *addr(ReflectedInstance i) { return (const char *)static_cast<ReflectedInstanceFriend &>(i).I(); }
struct Obj { const TypeOps &t; void *p; ReflectedInstance in; ReflectorPureWrap w; explicit Obj(const TypeOps &t_, int var) : t(t_), p(t.make()), in(t.cls(), p), w(in) { setAll(w, var); } Obj(const Obj &) = delete; ~Obj() { t.drop(p); } };
static const TypeOps &opsOf(const Form &f) { for (auto &t : types()) if (t.cls() == f.get()) return t; mc::fail("harness", "no type for %s", f.id); return types()[0]; }
static R::KVPairFormat fmt(int k) { R::KVPairFormat f; f.aliasName = k & 1; f.formatValue = k & 2; return f; }
static std::string str(const R::KVPair &p) { return p.name.to_string() + " = " + p.value; }
static std::string nameOf(const Form &f, size_t i, bool alias) { if (!f.names) return ""; return alias && f.m[i].alias ? f.m[i].alias : f.m[i].name; }
MC_SECTION("listing", 1) {
  regAll();
  for (auto &f : forms()) for (int var = 0; var < 3; var++) {
    mc::at("%s", f.id); Obj o(opsOf(f), var); const R &w = o.w; mc::step(3);
    if (w.GetNumReflectedValues() != f.m.size()) { mc::fail("listing/count", "%s: %zu members, not %zu", f.id, w.GetNumReflectedValues(), f.m.size()); continue; }
    if (w.GetClassName() != es::string_view(f.cls ? f.cls : "")) mc::fail("listing/class name", "%s: '%s'", f.id, w.GetClassName().to_string().c_str());
    if (w.UseNames() != f.names) mc::fail("listing/has names", "%s: %d", f.id, w.UseNames());
    for (size_t i = 0; i < f.m.size(); i++) for (int k = 0; k < 4; k++) {
      mc::state(S("%s %d %zu %d", f.id, var, i, k)); mc::trace(); mc::step(2); auto p = w.GetReflectedPair(i, fmt(k)); std::string v = w.GetReflectedValue(i), d1 = f.m[i].d1, d2 = f.m[i].d2, e = v, e2; if (k & 2) { if (!d1.empty()) { e = d1 + ' ' + v; if (!d2.empty()) e += ' ' + d2; } else if (!d2.empty()) e2 = v + ' ' + d2; }
      if (p.name != es::string_view(nameOf(f, i, k & 1))) mc::fail("listing/member name", "%s member %zu, alias %d: '%s', not '%s'", f.id, i, k & 1, p.name.to_string().c_str(), nameOf(f, i, k & 1).c_str());
      if (p.value != e && (e2.empty() || p.value != e2)) mc::fail("listing/member value", "%s member %s, formatted %d: %s, not %s", f.id, f.m[i].name, k & 2, mc::quote(p.value).c_str(), mc::quote(e).c_str());
      if (!k) { auto p0 = w.GetReflectedPair(i); if (str(p0) != str(p)) mc::fail("listing/default format", "%s member %s: %s, not %s", f.id, f.m[i].name, str(p0).c_str(), str(p).c_str()); }
    }
    for (size_t i : {f.m.size(), f.m.size() + 1, size_t(256), size_t(65536), ~size_t(0)}) for (int k = 0; k < 4; k++) { mc::step(); mc::state(S("%s past %zu %d", f.id, i, k)); auto p = w.GetReflectedPair(i, fmt(k)); if (!p.name.empty() || !p.value.empty()) mc::fail("listing/past the end", "%s member %zu: %s", f.id, i, str(p).c_str()); }
  }
}
static const char *texts(int i) { static const char *t[] = {"0", "1", "3", "-2", "true", "2.5", "Beta", "Low", "Mid", "F1 | F5", "NULL", "text", "{1, 2, 3, 4}", "[1, 2, 3, 4]", "{[1, 2, 3], [4, 5, 6]}", "{Beta, Delta}", "{F1, F2 | F5}", "", "300", "70000", "{", "{1, x}"}; return i < int(sizeof(t) / sizeof(*t)) ? t[i] : nullptr; }
// bytes or bits changed outside member i?
static std::string outside(const Form &f, size_t i, const std::string &a, const std::string &b, const TypeOps &) {
  size_t end = f.size * (f.bits ? 8 : 1), from = f.where[i]; for (size_t w : f.where) if (w > from && w < end) end = w;
  for (size_t k = 0; k < f.size * (f.bits ? 8 : 1); k++) { bool d = f.bits ? ((a[k / 8] ^ b[k / 8]) >> (k % 8) & 1) : a[k] != b[k]; if (d && (k < from || k >= end)) return S("%s %zu changes", f.bits ? "bit" : "byte", k); } return "";
}
static std::string image(const Form &f, const void *p) { return std::string((const char *)p, f.size); }
static void lookup(const Form &f, size_t i, const std::string &key, const char *kind, int var) {
  std::string what = S("%s member %s by %s '%s', values %d", f.id, f.m[i].name, kind, key.c_str(), var); mc::at("%s", what.c_str()); mc::trace(); auto &t = opsOf(f); JenHash h = H(key);
  { Obj o(t, var); const R &w = o.w; mc::state(what);
    auto same = [&](const std::string &a, const std::string &b, const char *op) { mc::step(2); if (a != b) mc::fail(S("lookup/%s", op).c_str(), "%s: %s, by index %s", what.c_str(), mc::quote(a).c_str(), mc::quote(b).c_str()); };
    same(w.GetReflectedValue(h), w.GetReflectedValue(i), "value"); for (size_t s = 0; s < 5; s++) { same(w.GetReflectedValue(h, s), w.GetReflectedValue(i, s), "value of element"); for (size_t e = 0; e < 5; e++) same(w.GetReflectedValue(h, s, e), w.GetReflectedValue(i, s, e), "value of component"); }
    for (int k = 0; k < 4; k++) same(str(w.GetReflectedPair(h, fmt(k))), str(w.GetReflectedPair(i, fmt(k))), "pair");
    mc::step(4); if (w.IsArray(h) != w.IsArray(i)) mc::fail("lookup/is array", "%s: %d", what.c_str(), w.IsArray(h)); if (w.IsReflectedSubClass(h) != w.IsReflectedSubClass(i)) mc::fail("lookup/is class", "%s: %d", what.c_str(), w.IsReflectedSubClass(h));
    for (size_t s = 0; s < 6; s++) { mc::step(4); auto a = w.GetReflectedSubClass(h, s), b = w.GetReflectedSubClass(i, s), c = o.w.GetReflectedSubClass(h, s), d = o.w.GetReflectedSubClass(i, s); if (cls(a) != cls(b) || cls(a) != cls(c) || cls(a) != cls(d)) mc::fail("lookup/class of member", "%s[%zu]", what.c_str(), s); if (addr(a) != addr(b) || addr(a) != addr(c) || addr(a) != addr(d)) mc::fail("lookup/place of member", "%s[%zu]: %td, by index %td, for writing %td and %td", what.c_str(), s, addr(a) - (char *)o.p, addr(b) - (char *)o.p, addr(c) - (char *)o.p, addr(d) - (char *)o.p);
      if (!s && w.IsReflectedSubClass(i) && cls(a) && addr(a) != (char *)o.p + f.where[i]) mc::fail("lookup/place of member", "%s: %td, not %zu", what.c_str(), addr(a) - (char *)o.p, f.where[i]); } }
  bool strings = f.id == std::string("VARNAMES") || f.id == std::string("nested") || f.id == std::string("EXTENDED TEMPLATE"); std::unique_ptr<Obj> pa, pb; std::string before, db; std::vector<std::string> vals; auto fresh = [&] { if (!pa || strings) { pa.reset(new Obj(t, var)); pb.reset(new Obj(t, var)); before = image(f, pa->p); if (db.empty()) { db = dump(pa->w); for (size_t k = 0; k < f.m.size(); k++) vals.push_back(pa->w.GetReflectedValue(k)); } } else { memcpy(pa->p, before.data(), before.size()); memcpy(pb->p, before.data(), before.size()); } };  // (objects without strings are restored bytewise)
  fresh();
  for (int v = 0;; v++) { const char *tx = v < 40 ? texts(v) : nullptr; if (v < 40 && !tx) { v = 39; continue; } if (v >= 40 + 12) break;
    for (int sub = -1; sub < 4; sub++) for (int el = -1; el < (sub < 0 ? 0 : 3); el++) { if (v >= 40 && el >= 0) continue; Obj &a = *pa, &b = *pb; R::ErrorType ea, eb; size_t s = size_t(sub), e = size_t(el); mc::step(2); std::string op;
      if (v < 40) { op = S("= '%s' [%d][%d]", tx, sub, el); if (sub < 0) ea = a.w.SetReflectedValue(h, tx), eb = b.w.SetReflectedValue(i, tx); else if (el < 0) ea = a.w.SetReflectedValue(h, tx, s), eb = b.w.SetReflectedValue(i, tx, s); else ea = a.w.SetReflectedValue(h, tx, s, e), eb = b.w.SetReflectedValue(i, tx, s, e); }
      else { if (sub < 0) s = 0; int64_t num = (int64_t[]){0, 1, 3, -1}[(v - 40) % 4]; int how = (v - 40) / 4; op = S("%s %lld [%d]", how == 0 ? "int" : how == 1 ? "unsigned" : "float", (long long)num, sub); if (how == 0) ea = sub < 0 ? a.w.SetReflectedValueInt(h, num) : a.w.SetReflectedValueInt(h, num, s), eb = b.w.SetReflectedValueInt(i, num, s); else if (how == 1) ea = sub < 0 ? a.w.SetReflectedValueUInt(h, uint64(num)) : a.w.SetReflectedValueUInt(h, uint64(num), s), eb = b.w.SetReflectedValueUInt(i, uint64(num), s); else ea = sub < 0 ? a.w.SetReflectedValueFloat(h, double(num)) : a.w.SetReflectedValueFloat(h, double(num), s), eb = b.w.SetReflectedValueFloat(i, double(num), s); }
      if (ea != eb) mc::fail("lookup/error of set", "%s %s: %s, by index %s", what.c_str(), op.c_str(), en(ea), en(eb)); std::string da = dump(a.w), dd = dump(b.w); if (da != dd) mc::fail("lookup/set", "%s %s: %s, by index %s", what.c_str(), op.c_str(), da.c_str(), dd.c_str());
      auto out = outside(f, i, before, image(f, a.p), t); if (!out.empty()) mc::fail("lookup/other members", "%s %s: %s", what.c_str(), op.c_str(), out.c_str());
      // members seen by their names: only this one may differ
      for (size_t k = 0; k < f.m.size(); k++) if (k != i && !a.w.IsReflectedSubClass(k)) if (a.w.GetReflectedValue(H(f.m[k].name)) != vals[k]) mc::fail("lookup/other members", "%s %s: %s changes", what.c_str(), op.c_str(), f.m[k].name);
      if (da != db || dd != db || image(f, a.p) != before || image(f, b.p) != before) fresh(); } }
}
MC_SECTION("every member by every name", 8) {
  regAll(); uint64_t n = 0; for (auto &f : forms()) for (size_t i = 0; i < f.m.size(); i++) for (int var = 0; var < 3; var++) { if (mc::mine(n++)) lookup(f, i, f.m[i].name, "name", var); if (f.m[i].alias && mc::mine(n++)) lookup(f, i, f.m[i].alias, "alias", var); }
}
MC_SECTION("names of no member", 8) {
  regAll(); uint64_t n = 0; std::set<std::string> all; for (auto &f : forms()) { if (f.cls) all.insert(f.cls); for (auto &m : f.m) { all.insert(m.name); if (m.alias) all.insert(m.alias); all.insert(m.d1); all.insert(m.d2); } }
  auto base = all; for (auto &s : base) { for (char c : {'_', 'a', ' ', '0', '\0'}) { all.insert(s + c); all.insert(c + s); } for (size_t k = 0; k < s.size(); k++) { all.insert(s.substr(0, k)); all.insert(s.substr(k)); auto u = s; u[k] ^= 0x20; all.insert(u); u[k] = char(s[k] + 1); all.insert(u); } all.insert(s + s); }
  mc::strings("abcdefghijklmnopqrstuvwxyzABCXYZ_0123456789 ", mc::thorough() ? 3 : 2, [&](const std::string &s) { all.insert(s); }, 0); std::map<uint32_t, std::string> hs; for (auto &s : all) { auto r = hs.emplace(H(s).raw(), s); if (!r.second) mc::trace(0); }
  for (auto &f : forms()) { std::set<uint32_t> mine; for (auto &m : f.m) { mine.insert(H(m.name).raw()); if (m.alias) mine.insert(H(m.alias).raw()); } if (mine.size() != [&] { std::set<std::string> q; for (auto &m : f.m) { q.insert(m.name); if (m.alias) q.insert(m.alias); } return q.size(); }()) mc::fail("harness", "names of %s collide", f.id);
    Obj o(opsOf(f), 1); auto was = dump(o.w); auto bytes = image(f, o.p);
    for (auto &s : all) { if (mine.count(H(s).raw()) || !mc::mine(n++)) continue; std::string what = S("%s, name %s", f.id, mc::quote(s).c_str()); mc::at("%s", what.c_str()); mc::state(what); mc::trace(); mc::step(14); JenHash h = H(s); const R &w = o.w;
      if (!w.GetReflectedValue(h).empty() || !w.GetReflectedValue(h, 0).empty() || !w.GetReflectedValue(h, 0, 0).empty()) mc::fail("no such name/value", "%s: %s", what.c_str(), w.GetReflectedValue(h).c_str()); for (int k = 0; k < 4; k++) { auto p = w.GetReflectedPair(h, fmt(k)); if (!p.name.empty() || !p.value.empty()) mc::fail("no such name/pair", "%s: %s", what.c_str(), str(p).c_str()); }
      if (w.IsArray(h) || w.IsReflectedSubClass(h)) mc::fail("no such name/kind", "%s", what.c_str()); if (cls(w.GetReflectedSubClass(h)) || cls(o.w.GetReflectedSubClass(h))) mc::fail("no such name/class", "%s", what.c_str());
      for (auto e : {o.w.SetReflectedValue(h, "1"), o.w.SetReflectedValue(h, "1", 0), o.w.SetReflectedValue(h, "1", 0, 0), o.w.SetReflectedValueInt(h, 3), o.w.SetReflectedValueUInt(h, 3), o.w.SetReflectedValueFloat(h, 3)}) if (e != ET::InvalidDestination) mc::fail("no such name/set", "%s: %s", what.c_str(), en(e));
      if (image(f, o.p) != bytes || dump(o.w) != was) { mc::fail("no such name/object", "%s: object changes", what.c_str()); bytes = image(f, o.p); was = dump(o.w); } } }
}
// ---- the registry: every subset and order of registrations
static std::string printed; static void take(const char *c) { printed += c; }
struct RegT { const char *name; void (*reg)(); bool isEnum; const reflectorStatic *(*cls)(); };
static const std::vector<RegT> &regs() { 
#define C(t) RegT{#t, [] { RegisterReflectedTypes<t>{}; }, false, &GetReflectedClass<t>},
#define E(t) RegT{#t, [] { RegisterReflectedTypes<t>{}; }, true, nullptr},
  static const std::vector<RegT> v{C(Fm3) C(Fm1) C(FmB1) C(FmB2) C(FmB4) E(FxA) E(FxW) E(FxF)};
#undef C
#undef E
  return v; }
static void clearRegs() { REFSubClassStorage.clear(); REFEnumStorage.clear(); }
static void checkRegs(const std::vector<bool> &have, const std::string &what) {
  mc::at("%s", what.c_str()); mc::trace(); size_t nc = 0, ne = 0; for (size_t i = 0; i < have.size(); i++) if (have[i]) regs()[i].isEnum ? ne++ : nc++; if (REFSubClassStorage.size() != nc || REFEnumStorage.size() != ne) mc::fail("registry/size", "%s: %zu classes and %zu enums", what.c_str(), REFSubClassStorage.size(), REFEnumStorage.size());
  for (size_t i = 0; i < have.size(); i++) { auto &r = regs()[i]; mc::step(); JenHash h = H(r.name); if (r.isEnum) { if (REFEnumStorage.count(h) != size_t(have[i])) mc::fail("registry/enum", "%s: %s found %zu times", what.c_str(), r.name, size_t(REFEnumStorage.count(h))); else if (have[i]) { auto &e = REFEnumStorage.at(h); auto l = fxEnum(r.name); if (e.size() != l.size()) mc::fail("registry/enum", "%s: %s has %zu names", what.c_str(), r.name, size_t(e.size())); else for (size_t k = 0; k < l.size(); k++) if (*(e.begin() + k) != es::string_view(l[k].n) || e.values[k] != l[k].v) mc::fail("registry/enum", "%s: %s name %zu", what.c_str(), r.name, k); if (e.name != es::string_view(r.name)) mc::fail("registry/enum", "%s: %s is called %s", what.c_str(), r.name, e.name.to_string().c_str()); } }
    else { if (REFSubClassStorage.count(h) != size_t(have[i])) mc::fail("registry/class", "%s: %s", what.c_str(), r.name); else if (have[i] && REFSubClassStorage.at(h) != r.cls()) mc::fail("registry/class", "%s: %s leads to another class", what.c_str(), r.name); } }
  // nested members
  static Fm4 obj; ReflectorWrap<Fm4> w(obj); const R &cw = w; struct { int m; size_t n; int reg; } nest[] = {{0, 1, 0}, {1, 4, 0}, {2, 1, 1}, {3, 1, 2}, {4, 2, 3}, {5, 1, 4}}; const char *at[] = {(char *)&obj.a, (char *)&obj.b, (char *)&obj.c, (char *)&obj.d, (char *)&obj.e, (char *)&obj.f}; size_t sz[] = {1, 1, sizeof(Fm1), 4, 8, 2};
  for (auto &x : nest) for (size_t k = 0; k < 6; k++) for (int wr = 0; wr < 2; wr++) { mc::step(); auto in = wr ? w.GetReflectedSubClass(size_t(x.m), k) : cw.GetReflectedSubClass(size_t(x.m), k); bool want = have[size_t(x.reg)] && k < x.n; if (!want ? cls(in) != nullptr : cls(in) != regs()[size_t(x.reg)].cls() || addr(in) != at[x.m] + k * sz[x.m]) mc::fail("registry/nested class", "%s: member %d[%zu] %s", what.c_str(), x.m, k, want ? "is not found" : "is found"); if (!cw.IsReflectedSubClass(size_t(x.m)) || cw.IsArray(size_t(x.m)) != (x.n > 1)) mc::fail("registry/kind", "%s: member %d", what.c_str(), x.m); }
  // enum members
  FxObj o(0); ReflectorWrap<Fx> f(*o.p); auto val = [&](const char *m, size_t size) { uint64_t v = 0; for (auto &q : fxMembers()) if (!strcmp(q.name, m)) memcpy(&v, (char *)o.p + q.off, size); return v; };
  struct { const char *m; size_t size; const char *text; uint64_t v; int reg; } en_[] = {{"ea", 1, "Delta", 0x40, 5}, {"ew", 2, "Mid", 0x8bcd, 6}, {"fl8", 1, "F1 | F5", 0x22, 7}, {"aea", 3, "{Beta, Omega, Alpha}", 0x00ff05, 5}};
  for (auto &x : en_) { mc::step(2); uint64_t was = val(x.m, x.size); if (was == x.v) mc::fail("harness", "%s", x.m); printed.clear(); auto e = f.SetReflectedValue(H(x.m), x.text); uint64_t now = val(x.m, x.size);
    if (have[size_t(x.reg)]) { if (e != ET::None || now != x.v) mc::fail("registry/enum member", "%s: %s = %s gives %s, %llx", what.c_str(), x.m, x.text, en(e), (unsigned long long)now); auto g = f.GetReflectedValue(H(x.m)); if (g != x.text) mc::fail("registry/enum member", "%s: %s is %s, not %s", what.c_str(), x.m, g.c_str(), x.text); }
    else { if (e == ET::None) mc::fail("registry/unregistered enum", "%s: %s = %s is reported as done", what.c_str(), x.m, x.text); if (now != was) mc::fail("registry/unregistered enum", "%s: %s changes to %llx", what.c_str(), x.m, (unsigned long long)now); if (printed.empty()) mc::fail("registry/unregistered enum is not reported", "%s: %s = %s", what.c_str(), x.m, x.text); auto g = f.GetReflectedValue(H(x.m)); for (auto &v : fxEnum(regs()[size_t(x.reg)].name)) if (g.find(v.n) != std::string::npos) mc::fail("registry/unregistered enum", "%s: %s reads as %s", what.c_str(), x.m, g.c_str()); } }
}
MC_SECTION("every subset of registered types", 4) {
  printer.AddPrinterFunction(take, false); for (unsigned s = 0; s < 256; s++) { if (!mc::mine(s)) continue; clearRegs(); std::vector<bool> have(8); std::string what = "registered:"; for (size_t i = 0; i < 8; i++) if (s >> i & 1) { regs()[i].reg(); have[i] = true; what += S(" %s", regs()[i].name); } mc::state(what); checkRegs(have, what); for (size_t i = 0; i < 8; i++) if (s >> i & 1) regs()[i].reg(); checkRegs(have, what + " (twice)"); for (size_t i = 8; i--;) if (s >> i & 1) regs()[i].reg(); checkRegs(have, what + " (again backwards)"); }
}
MC_SECTION("every order of registrations", 8) {
  printer.AddPrinterFunction(take, false); int len = mc::thorough() ? 4 : 3; mc::Odo od(std::vector<int>(size_t(len), 8)); uint64_t n = 0; while (od.next()) { if (!mc::mine(n++)) continue; clearRegs(); std::vector<bool> have(8); std::string what = "registered in order:"; for (int i : od.v) { regs()[size_t(i)].reg(); have[size_t(i)] = true; what += S(" %s", regs()[size_t(i)].name); mc::state(what); checkRegs(have, what); } }
}
// ---- settings
struct St1 : SettingsManager<St1> { int32 a = 5; float b = 2.5f; bool c = true; std::string d = "text"; FxA e = FxA::Gamma; };
REFLECTOR_CREATE(St1, 1, VARNAMES, a, b, c, d, e);
struct St2 : SettingsManager<St2> { int32 a = 5; float b = 1.5f; bool c = true; std::string d; FxW e = FxW::Mid; FxF8 f; FxA g[2] = {FxA::Beta, FxA::Omega}; Vector v{1, 2, 3}; };
REFLECTOR_CREATE(St2, 1, EXTENDED, (A, a, "amount"), (D, b, "Length of it%km"), (AD, c, "check", "Whether to check."), (, d), (D, e, "Width"), (AD, f, "flags", "Flags%!"), (A, g, "gees"), (D, v, "%unit"));
struct St3 : SettingsManager<St3> { int32 a = 7; uint16 b[2] = {1, 2}; };
REFLECTOR_CREATE(St3, 0, a, b);
struct StIn { int8 x = 1; FxA y = FxA::Alpha; Fm3 z; void ReflectorTag(); }; REFLECTOR_CREATE(StIn, 1, EXTENDED, (AD, x, "ex", "The x%xs"), (, y), (D, z, "Inner"));
struct St4 : SettingsManager<St4> { StIn in; StIn ain[2]; FmB1 bits; FmB2 abits[2]; FxA last = FxA::Beta; };
REFLECTOR_CREATE(St4, 1, EXTENDED, (D, in, "One"), (AD, ain, "many", "Several"), (, bits), (A, abits, "more_bits"), (, last));
struct St5 : SettingsManager<St5> { StIn in; FxB e = FxB::One; int64 n = -3; }; REFLECTOR_CREATE(St5, 1, VARNAMES, in, e, n);
struct St6 : SettingsManager<St6> { bool only = false; }; REFLECTOR_CREATE(St6, 1, EXTENDED, (D, only, "100%% sure"));
struct Dp0 { int8 v = 1; void ReflectorTag(); }; REFLECTOR_CREATE(Dp0, 1, EXTENDED, (D, v, "?"));
struct Dp1 { Dp0 d; FxA e = FxA::Beta; void ReflectorTag(); }; REFLECTOR_CREATE(Dp1, 1, EXTENDED, (D, d, "1%s"), (, e));
struct Dp2 { Dp1 d[2]; void ReflectorTag(); }; REFLECTOR_CREATE(Dp2, 1, EXTENDED, (D, d, "22"));
struct Dp3 { Dp2 d; Dp0 q; void ReflectorTag(); }; REFLECTOR_CREATE(Dp3, 1, VARNAMES, d, q);
struct Dp4 { Dp3 d; void ReflectorTag(); }; REFLECTOR_CREATE(Dp4, 1, VARNAMES, d);
struct Dp5 { Dp4 d; Dp1 w; void ReflectorTag(); }; REFLECTOR_CREATE(Dp5, 1, VARNAMES, d, w);
struct St7 : SettingsManager<St7> { Dp5 all; Dp0 none; bool a = true; }; REFLECTOR_CREATE(St7, 1, EXTENDED, (D, all, "x"), (, none), (D, a, " "));
typedef std::vector<std::string> Lines;
struct HelpM { const char *name, *desc; const char *en; const char *cls; };
// registered types as bits: StIn, FxA, FxW, Fm3, FmB1, FmB2, FxF, FxB
static const char *helpRegs[] = {"StIn", "FxA", "FxW", "Fm3", "FmB1", "FmB2", "FxF", "FxB"};
static bool on(unsigned regd, const char *n) { if (!strncmp(n, "Dp", 2)) return true; for (int i = 0; i < 8; i++) if (!strcmp(helpRegs[i], n)) return regd >> i & 1; return false; }
static const std::vector<HelpM> &helpOf(const std::string &c) {
  static const std::map<std::string, std::vector<HelpM>> t{{"St1", {{"a"}, {"b"}, {"c"}, {"d"}, {"e", "", "FxA"}}}, {"St2", {{"a"}, {"b", "Length of it"}, {"c", "Whether to check."}, {"d"}, {"e", "Width", "FxW"}, {"f", "Flags"}, {"g"}, {"v"}}}, {"St3", {{"", ""}, {"", ""}}}, {"StIn", {{"x", "The x"}, {"y", "", "FxA"}, {"z", "Inner", 0, "Fm3"}}}, {"St4", {{"in", "One", 0, "StIn"}, {"ain", "Several", 0, "StIn"}, {"bits", "", 0, "FmB1"}, {"abits", "", 0, "FmB2"}, {"last", "", "FxA"}}}, {"St5", {{"in", "", 0, "StIn"}, {"e", "", "FxB"}, {"n"}}}, {"St6", {{"only", "100"}}}, {"Dp0", {{"v", "?"}}}, {"Dp1", {{"d", "1", 0, "Dp0"}, {"e", "", "FxA"}}}, {"Dp2", {{"d", "22", 0, "Dp1"}}}, {"Dp3", {{"d", "", 0, "Dp2"}, {"q", "", 0, "Dp0"}}}, {"Dp4", {{"d", "", 0, "Dp3"}}}, {"Dp5", {{"d", "", 0, "Dp4"}, {"w", "", 0, "Dp1"}}}, {"St7", {{"all", "x", 0, "Dp5"}, {"none", "", 0, "Dp0"}, {"a", " "}}}, {"Fm3", {{"only"}}}, {"FmB1", {{"fmb0"}, {"fmb1"}, {"fmb2"}, {"fmb3"}}}, {"FmB2", {{"fmc0"}, {"fmc1", "Bits"}, {"fmc2", "Two"}, {"fmc3"}}}};
  return t.at(c);
}
static void help(std::string &to, const std::string &c, unsigned regd, size_t level) { for (auto &m : helpOf(c)) { to += std::string(level, '\t') + m.name + "\n"; if (m.desc && *m.desc) to += std::string(level + 1, '\t') + m.desc + "\n"; if (m.cls && on(regd, m.cls)) help(to, m.cls, regd, level + 1); if (m.en && on(regd, m.en)) { to += std::string(level + 1, '\t') + "Values: "; for (auto &e : fxEnum(m.en)) to += std::string(e.n) + ", "; to += "\n"; } } }
static void regHelp(unsigned s) { clearRegs(); RegisterReflectedTypes<Dp0, Dp1, Dp2, Dp3, Dp4, Dp5>(); if (s & 1) RegisterReflectedTypes<StIn>{}; if (s & 2) RegisterReflectedTypes<FxA>{}; if (s & 4) RegisterReflectedTypes<FxW>{}; if (s & 8) RegisterReflectedTypes<Fm3>{}; if (s & 16) RegisterReflectedTypes<FmB1>{}; if (s & 32) RegisterReflectedTypes<FmB2>{}; if (s & 64) RegisterReflectedTypes<FxF>{}; if (s & 128) RegisterReflectedTypes<FxB>{}; }
template <class T> static void helpCase(const char *name, const char *title, unsigned s) { regHelp(s); T x; std::ostringstream o; x.GetHelp(o); mc::step(); mc::trace(); std::string e = std::string(title) + " settings.\n"; help(e, name, s, 1); mc::state(S("%s %x", name, s)); if (o.str() != e) mc::fail(S("settings help of %s", name).c_str(), "registered %02x: %s, not %s", s, mc::quote(o.str()).c_str(), mc::quote(e).c_str()); }
MC_SECTION("settings help", 4) {
  for (unsigned s = 0; s < 256; s++) { if (!mc::mine(s)) continue; mc::at("registered %x", s); helpCase<St1>("St1", "St1", s); helpCase<St2>("St2", "St2", s); helpCase<St3>("St3", "", s); helpCase<St4>("St4", "St4", s); helpCase<St5>("St5", "St5", s); helpCase<St6>("St6", "St6", s); helpCase<St7>("St7", "St7", s); }
}
static std::vector<std::string> filesIn(const std::string &d) { std::vector<std::string> r; DIR *h = opendir(d.c_str()); while (auto *e = readdir(h)) if (e->d_name[0] != '.') r.push_back(e->d_name); closedir(h); return r; }
struct LogM { const char *name, *alias; };
// one log: T's configuration must stand there, in order, and nothing else
template <class T> static void logCase(const char *name, const std::vector<LogM> &ms, T &x, const std::string &what) {
  mc::at("%s", what.c_str()); mc::trace(); mc::step(); static int num; std::string dir = mc::g().tmp + S("/log%d_%d", int(getpid()), num++); mkdir(dir.c_str(), 0700); std::string base = dir + "/" + name; auto now = [] { return std::chrono::system_clock::to_time_t(std::chrono::system_clock::now()); }; time_t t0 = now(); x.CreateLog(base); time_t t1 = now(); auto fs = filesIn(dir); std::string got;
  auto stamp = [&](time_t t) { char b[64]; std::tm tm = *localtime(&t); strftime(b, sizeof b, "_%y_%m_%d-%H.%M.%S.txt", &tm); return std::string(name) + b; }; bool named = false; for (time_t t = t0; t <= t1; t++) named |= fs.size() == 1 && fs[0] == stamp(t);
  if (fs.size() != 1) mc::fail("settings log/file", "%s: %zu files", what.c_str(), fs.size()); else if (!named) mc::fail("settings log/file name", "%s: %s, not %s", what.c_str(), fs[0].c_str(), stamp(t1).c_str());
  if (fs.size() == 1) { std::ifstream f(dir + "/" + fs[0]); std::stringstream ss; ss << f.rdbuf(); got = ss.str(); ReflectorWrap<T> w(x); std::string e = "Configuration:\n"; for (size_t i = 0; i < ms.size(); i++) e += std::string("\t") + (ms[i].alias ? ms[i].alias : ms[i].name) + ": " + w.GetReflectedValue(i) + "\n"; e += "\n"; size_t at = got.find("Configuration:\n"); if (at == got.npos || got.substr(at) != e) mc::fail("settings log/configuration", "%s: %s, not %s", what.c_str(), mc::quote(at == got.npos ? got : got.substr(at)).c_str(), mc::quote(e).c_str());
    // what the program prints later is appended
    printline("later " << what.c_str()); T::GetLogger().flush(); std::ifstream f2(dir + "/" + fs[0]); std::stringstream s2; s2 << f2.rdbuf(); if (s2.str().substr(0, got.size()) != got || s2.str().substr(got.size()).find("later " + what) == std::string::npos) mc::fail("settings log/later text", "%s: %s", what.c_str(), mc::quote(s2.str().substr(std::min(got.size(), s2.str().size()))).c_str()); unlink((dir + "/" + fs[0]).c_str()); }
  for (auto &f : filesIn(dir)) unlink((dir + "/" + f).c_str()); rmdir(dir.c_str());
}
MC_SECTION("settings log", 1) {
  // every sequence of logs of three settings classes, values changing in between
  mc::Odo od(std::vector<int>(mc::thorough() ? 5 : 3, 4)); regHelp(255); RegisterReflectedTypes<FmB4>{}; uint64_t n = 0;
  while (od.next()) { n++; std::string what; int k = 0; for (int c : od.v) { what += S(" %d", c); mc::state(what); k++;
      if (c == 0) { St1 x; x.a = k; static const size_t LEN[] = {0, 1, 15, 16, 119, 120, 127, 128, 255, 256, 1023, 1024, 2048, 5000, 70000}; x.d = std::string(LEN[(n * 7 + uint64_t(k) * 3) % 15], 'x'); x.e = k & 1 ? FxA::Delta : FxA::Alpha; logCase("st1", {{"a"}, {"b"}, {"c"}, {"d"}, {"e"}}, x, "logs" + what); }
      if (c == 1) { St2 x; x.a = -k; x.b = float(k) / 4; x.f = FxF::F5; logCase("st2", {{"a", "amount"}, {"b"}, {"c", "check"}, {"d"}, {"e"}, {"f", "flags"}, {"g", "gees"}, {"v"}}, x, "logs" + what); }
      if (c == 2) { St3 x; x.a = k; logCase("st3.x", {{""}, {""}}, x, "logs" + what); }
      if (c == 3) { St5 x; x.n = k; logCase("st5", {{"in"}, {"e"}, {"n"}}, x, "logs" + what); } } }
}
