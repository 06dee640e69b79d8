// REPO: datas/reflector.cpp datas/master_printer.cpp
// VARIANT: opt -O2
// VARIANT: asan -O1 -fsanitize=address
// RULE: state = distinct (member, element position, content); transition = one reflective read or set on the real object; trace = one content printed, compared with the reference text, and set into two other objects
#include "reflfix.hpp"
struct ReflectedInstanceFriend : ReflectedInstance { const void *Instance() const { return constInstance; } };
typedef ReflectedInstanceFriend RIF;
static std::string S(const char *f, ...) { char b[900]; va_list a; va_start(a, f); vsnprintf(b, 900, f, a); va_end(a); return b; }
// ---- reference texts, from the bytes of the member
static int64_t sx(const char *p, int n) { uint64_t v = 0; memcpy(&v, p, size_t(n)); return n == 8 ? int64_t(v) : int64_t(v << (64 - 8 * n)) >> (64 - 8 * n); }
static uint64_t zx(const char *p, int n) { uint64_t v = 0; memcpy(&v, p, size_t(n)); return v; }
static std::string dec(uint64_t v) { std::string s; do s.insert(s.begin(), char('0' + v % 10)); while (v /= 10); return s; }
static std::string sdec(int64_t v) { return v < 0 ? "-" + dec(uint64_t(0) - uint64_t(v)) : dec(uint64_t(v)); }
static std::string ftext(const char *p, int n) { char b[64]; if (n == 4) { float f; memcpy(&f, p, 4); snprintf(b, 64, "%.6g", double(f)); } else { double d; memcpy(&d, p, 8); snprintf(b, 64, "%.13g", d); } return b; }
static TypeInfo compType(const TypeInfo &t) { return TypeInfo{t.ck, t.csize, 0, t.ck, 0, 0, ""}; }
static std::string text1(const TypeInfo &t, const char *p) {
  switch (t.kind) {
  case kBool: return *p ? "true" : "false";
  case kInt: return sdec(sx(p, t.size));
  case kUInt: return dec(zx(p, t.size));
  case kFloat: return ftext(p, t.size);
  case kEnum: for (auto &e : fxEnum(t.en)) if (e.v == zx(p, t.size)) return e.n; return "";
  case kFlags: { std::string s; auto l = fxEnum(t.en); for (int b = 0; b < t.size * 8; b++) if (zx(p, t.size) >> b & 1) for (auto &e : l) if (int(e.v) == b) s += (s.empty() ? "" : " | ") + std::string(e.n); return s.empty() ? "NULL" : s; }
  case kVec: { std::string s = "["; for (int i = 0; i < t.comps; i++) s += (i ? ", " : "") + text1(compType(t), p + i * t.csize); return s + "]"; }
  case kStr: return *reinterpret_cast<const std::string *>(p);
  case kCStr: { const char *c; memcpy(&c, p, sizeof c); return c ? c : ""; }
  default: return "SUBCLASS_TYPE";
  }
}
static std::string textOf(const Mem &m, const Fx &o) { const char *p = (const char *)&o + m.off; if (!m.arr) return text1(m.t, p); std::string s = "{"; for (int i = 0; i < m.count; i++) s += (i ? ", " : "") + text1(m.t, p + i * m.t.size); return s + "}"; }
// ---- equality: exact, floats to the printed precision
static bool feq(const char *a, const char *b, int n) { double x, y; if (n == 4) { float f, g; memcpy(&f, a, 4); memcpy(&g, b, 4); x = double(f); y = double(g); } else { memcpy(&x, a, 8); memcpy(&y, b, 8); }
  if (std::isnan(x) || std::isnan(y)) return std::isnan(x) && std::isnan(y); if (std::isinf(x) || std::isinf(y)) return x == y; if (x == 0) return y == 0 && std::signbit(x) == std::signbit(y); return std::signbit(x) == std::signbit(y) && std::fabs(x - y) <= std::fabs(x) * (n == 4 ? 5.1e-6 : 5.01e-13); }
static bool eq1(const TypeInfo &t, const char *a, const char *b) { if (t.kind == kFloat) return feq(a, b, t.size); if (t.kind == kVec) { for (int i = 0; i < t.comps; i++) if (!eq1(compType(t), a + i * t.csize, b + i * t.csize)) return false; return true; } if (t.kind == kStr) return *reinterpret_cast<const std::string *>(a) == *reinterpret_cast<const std::string *>(b); return !memcmp(a, b, size_t(t.size)); }
static bool isTiny(const TypeInfo &t, const char *p) { if (t.kind == kVec) { for (int i = 0; i < t.comps; i++) if (isTiny(compType(t), p + i * t.csize)) return true; return false; } if (t.kind != kFloat) return false; double x; if (t.size == 4) { float f; memcpy(&f, p, 4); x = std::fabs(double(f)); return x != 0 && x < 1.1755e-38; } memcpy(&x, p, 8); x = std::fabs(x); return x != 0 && x < 2.22507385851e-308; }
static std::vector<std::string> alphabet(const TypeInfo &t) {
  std::vector<std::string> r; auto num = [&](uint64_t v) { r.push_back(std::string((const char *)&v, size_t(t.size))); };
  switch (t.kind) {
  case kBool: num(0); num(1); break;
  case kInt: case kUInt:
    if (t.size == 1 || (t.size == 2)) for (unsigned v = 0; v < (t.size == 1 ? 256u : 65536u); v += t.size == 1 || mc::thorough() ? 1 : 37) num(v);
    for (int b = 0; b < t.size * 8; b++) for (int d = -1; d <= 1; d++) { num((1ULL << b) + uint64_t(int64_t(d))); num(uint64_t(0) - (1ULL << b) + uint64_t(int64_t(d))); }
    { uint64_t p = 1; for (int i = 0; i < 20; i++, p *= 10) { num(p); num(p - 1); num(uint64_t(0) - p); } } break;
  case kFloat: for (int e = t.size == 4 ? -126 : -1022; e <= (t.size == 4 ? 127 : 1023); e += t.size == 4 || mc::thorough() ? 1 : 7) for (double q : {1.0, 1.5, 1.333333333333333, 1.999999, 1.9999999999999, 1.0000001, 1.23456789012345}) for (int sg = -1; sg <= 1; sg += 2) { double d = sg * std::ldexp(q, e); float f = float(d); if (t.size == 4 ? !std::isfinite(f) : !std::isfinite(d)) continue; r.push_back(t.size == 4 ? std::string((char *)&f, 4) : std::string((char *)&d, 8)); }
    for (double d : {0.0, -0.0, 1e5, 999999.0, 999999.5, 1e6, 0.0001, 0.00001, 0.000123456, 1e15, 123456.0, 9999995.0, 0.1, 1.0 / 3, double(INFINITY), -double(INFINITY), double(NAN)}) { float f = float(d); r.push_back(t.size == 4 ? std::string((char *)&f, 4) : std::string((char *)&d, 8)); }
    { float f = std::numeric_limits<float>::max(); double d = std::numeric_limits<double>::max(); r.push_back(t.size == 4 ? std::string((char *)&f, 4) : std::string((char *)&d, 8)); f = std::numeric_limits<float>::min(); d = std::numeric_limits<double>::min(); r.push_back(t.size == 4 ? std::string((char *)&f, 4) : std::string((char *)&d, 8)); } break;
  case kEnum: for (auto &e : fxEnum(t.en)) num(e.v); break;
  case kFlags: { auto l = fxEnum(t.en); for (unsigned m = 0; m < 1u << l.size(); m++) { uint64_t v = 0; for (size_t i = 0; i < l.size(); i++) if (m >> i & 1) v |= 1ULL << l[i].v; num(v); } break; }
  default: break;
  }
  return r;
}
static size_t sub(size_t n, size_t want, size_t k) { return n <= want ? k : k * (n - 1) / (want - 1); }
// prints member i of the object, compares with the reference, sets it into both fillings
static void judge(size_t i, const Mem &m, Fx &o, const std::string &what, bool settable = true, const char *key = nullptr) {
  ReflectorWrap<Fx> r(o); auto fail = [&](const char *k, const std::string &d) { mc::fail(key ? key : k, "%s", d.c_str()); };
  std::string want = textOf(m, o); Snap s0(o); std::string t = r.GetReflectedValue(i), t2 = r.GetReflectedValue(JenHash(es::string_view(m.name))); mc::step(2); mc::trace(); mc::state(mc::hashBytes(want.data(), want.size(), i + 11));
  if (t != want || t2 != want) return fail("printed", S("%s prints %s by number and %s by name, expected %s", what.c_str(), mc::quote(t).c_str(), mc::quote(t2).c_str(), mc::quote(want).c_str()));
  Snap s1(o); if (s0.diff(s1, 0, 0) >= 0) fail("printing changes", what);
  if (!settable) return;
  for (int pat = 0; pat < 2; pat++) { FxObj b(pat); ReflectorWrap<Fx> w(*b.p); ET e = pat ? w.SetReflectedValue(i, t) : w.SetReflectedValue(JenHash(es::string_view(m.name)), t); mc::step(); const char *pa = (char *)&o + m.off, *pb = (char *)b.p + m.off; bool tiny = false, ok = true; for (int k = 0; k < m.count; k++) { ok = ok && eq1(m.t, pa + k * m.t.size, pb + k * m.t.size); tiny = tiny || isTiny(m.t, pa + k * m.t.size); }
    std::string back = w.GetReflectedValue(i);
    if ((e != ET::None && !tiny) || !ok || (back != t && !tiny)) { fail("round trip", S("%s prints as %s; set into filling %d it returns %s and prints as %s", what.c_str(), mc::quote(t).c_str(), pat, en(e), mc::quote(back).c_str())); return; } }
}
MC_SECTION("every value of every member", 8) {
  fxRegister(); auto &ms = fxMembers(); uint64_t n = 0;
  for (size_t i = 0; i < ms.size(); i++) { auto &m = ms[i]; if (isClassKind(m.t.kind) || m.t.kind == kStr || m.t.kind == kCStr) continue;
    TypeInfo ct = m.t.kind == kVec ? compType(m.t) : m.t; auto al = alphabet(ct); int comps = m.t.kind == kVec ? m.t.comps : 1, slots = m.count * comps;
    size_t cap = slots == 1 ? al.size() : mc::thorough() ? 4000 : 400; if (cap > al.size()) cap = al.size();
    for (int slot = 0; slot < slots; slot++) for (size_t k = 0; k < cap; k++) { if (!mc::mine(n++)) continue; auto &v = al[sub(al.size(), cap, k)]; for (int pat = 0; pat < 2; pat++) { FxObj o(pat); char *p = (char *)o.p + m.off + (slot / comps) * m.t.size + (slot % comps) * ct.size; memcpy(p, v.data(), v.size()); judge(i, m, *o.p, S("%s slot %d with bytes %s over filling %d", m.name, slot, mc::hex(v).c_str(), pat)); } }
    // all slots vary together
    for (size_t k = 0; slots > 1 && k < al.size(); k++) { if (!mc::mine(n++)) continue; FxObj o(0); for (int slot = 0; slot < slots; slot++) { auto &v = al[(k + size_t(slot) * 7) % al.size()]; memcpy((char *)o.p + m.off + (slot / comps) * m.t.size + (slot % comps) * ct.size, v.data(), v.size()); } judge(i, m, *o.p, S("%s rotated %zu", m.name, k)); }
  }
}
MC_SECTION("all contents of pairs and triples of narrow elements", 4) {
  fxRegister(); auto &ms = fxMembers(); uint64_t n = 0;
  for (size_t i = 0; i < ms.size(); i++) { auto &m = ms[i]; if (isClassKind(m.t.kind) || m.t.kind == kStr || m.t.kind == kCStr || m.t.kind == kFloat) continue; TypeInfo ct = m.t.kind == kVec ? compType(m.t) : m.t; if (ct.kind == kFloat) continue; auto al = alphabet(ct); int comps = m.t.kind == kVec ? m.t.comps : 1, slots = m.count * comps; if (slots < 2 || slots > 4) continue; size_t q = slots == 2 ? 40 : slots == 3 ? 12 : 6; if (mc::thorough()) q *= 2; if (q > al.size()) q = al.size();
    mc::Odo od{std::vector<int>(size_t(slots), int(q))}; while (od.next()) { if (!mc::mine(n++)) continue; FxObj o(1); for (int s = 0; s < slots; s++) { auto &v = al[sub(al.size(), q, size_t(od.v[size_t(s)]))]; memcpy((char *)o.p + m.off + (s / comps) * m.t.size + (s % comps) * ct.size, v.data(), v.size()); } judge(i, m, *o.p, S("%s combination", m.name)); } }
}
MC_SECTION("strings", 4) {
  fxRegister(); auto &ms = fxMembers(); size_t is = 0, ia = 0, ic = 0; for (size_t i = 0; i < ms.size(); i++) { if (!strcmp(ms[i].name, "str")) is = i; if (!strcmp(ms[i].name, "astr")) ia = i; if (!strcmp(ms[i].name, "cs")) ic = i; } uint64_t n = 0;
  auto one = [&](const std::string &s) { if (!mc::mine(n++)) return; { FxObj o(0); o.p->str = s; judge(is, ms[is], *o.p, "string " + mc::quote(s)); ReflectorWrap<Fx> r(*o.p); auto in = r.GetReflectedSubClass("sub"); ReflectorPureWrap w(in); o.p->sub.s = s; if (w.GetReflectedValue("s") != s) mc::fail("nested string printed", "%s", mc::quote(s).c_str()); o.p->sub.s = "other"; if (w.SetReflectedValue("s", s) != ET::None || o.p->sub.s != s) mc::fail("nested string set", "%s becomes %s", mc::quote(s).c_str(), mc::quote(o.p->sub.s).c_str()); mc::step(2); }
    if (s.find('\0') == s.npos) { FxObj o(0); o.p->cs = s.c_str(); judge(ic, ms[ic], *o.p, "C string " + mc::quote(s), false); } };
  mc::strings("a ,[]{}()\"|\n\t", mc::thorough() ? 5 : 4, one, 0); one(std::string("a\0b", 3)); one(std::string("\0", 1)); for (int l : {15, 16, 17, 255, 256, 300, 65536}) one(std::string(size_t(l), 'q')); for (int c = 1; c < 256; c++) { one(std::string(1, char(c))); one(std::string("x") + char(c)); one(char(c) + std::string("x")); }
  { FxObj o(0); o.p->cs = nullptr; judge(ic, ms[ic], *o.p, "null C string", false); }
  // arrays of strings: plain words
  std::vector<std::string> words; mc::strings("ab_", 3, [&](const std::string &s) { words.push_back(s); }, 1); words.push_back("in the middle"); words.push_back("a long text that cannot live inside the string object itself");
  for (auto &x : words) for (auto &y : words) { if (!mc::mine(n++)) continue; FxObj o(0); o.p->astr[0] = x; o.p->astr[1] = y; judge(ia, ms[ia], *o.p, "strings " + x + " and " + y); }
  // list texts carry no quoting: what the separators, brackets and outer blanks of an element turn into is a listed finding
  if (mc::mine(n++)) for (const char *s : {",", "a,b", " a", "", "[", "{", "(", "\"", "a\"b", "}", "]"}) { FxObj o(0); o.p->astr[0] = s; o.p->astr[1] = "z"; judge(ia, ms[ia], *o.p, S("strings %s and z", mc::quote(s).c_str()), true, S("array of strings, first %s", mc::quote(s).c_str()).c_str()); }
}
MC_SECTION("elements by index", 4) {
  fxRegister(); auto &ms = fxMembers(); uint64_t n = 0; const size_t IDX[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 15, 16, 31, 32, 33, 39, 40, 62, 63, 64, 127, 255, 256, 257, 65535, 65536, 0xffffffff, 0x100000000ULL, 0x8000000000000000ULL, ~0ULL};
  for (int pat = 0; pat < 2; pat++) for (int rot = 0; rot < 8; rot++) { FxObj o(pat); ReflectorWrap<Fx> r(*o.p); if (rot) for (auto &m : ms) if (m.t.kind == kFlags) { auto l = fxEnum(m.t.en); for (int c = 0; c < m.count; c++) { uint64_t v = 0; for (size_t q = 0; q < l.size(); q++) if ((rot + c) >> (q % 3) & 1) v |= 1ULL << l[q].v; memcpy((char *)o.p + m.off + c * m.t.size, &v, size_t(m.t.size)); } }
    for (size_t i = 0; i < ms.size(); i++) { auto &m = ms[i]; if (!mc::mine(n++)) continue; const char *p = (const char *)o.p + m.off; JenHash h{es::string_view(m.name)};
      if (r.IsArray(i) != m.arr || r.IsArray(h) != m.arr) mc::fail("IsArray", "%s", m.name); if (r.IsReflectedSubClass(i) != isClassKind(m.t.kind) || r.IsReflectedSubClass(h) != isClassKind(m.t.kind)) mc::fail("IsReflectedSubClass", "%s", m.name);
      std::string joined; int cnt = m.arr ? m.count : m.t.kind == kVec ? m.t.comps : 0;
      for (int k = 0; k < cnt; k++) joined += (k ? ", " : "") + r.GetReflectedValue(i, size_t(k)); if (cnt) { joined = (m.arr ? "{" : "[") + joined + (m.arr ? "}" : "]"); mc::step(); if (joined != r.GetReflectedValue(i)) mc::fail("elements and whole", "%s over filling %d prints %s, its elements make %s", m.name, pat, mc::quote(r.GetReflectedValue(i)).c_str(), mc::quote(joined).c_str()); }
      for (size_t a : IDX) { std::string want; if (m.arr) want = a < size_t(m.count) ? text1(m.t, p + a * size_t(m.t.size)) : ""; else if (m.t.kind == kVec) want = a < size_t(m.t.comps) ? text1(compType(m.t), p + a * size_t(m.t.csize)) : ""; else if (m.t.kind == kFlags) want = a < size_t(m.t.size) * 8 ? zx(p, m.t.size) >> a & 1 ? "true" : "false" : "";
        std::string g = r.GetReflectedValue(i, a), g2 = r.GetReflectedValue(h, a); mc::step(2); mc::state(mc::mix(i * 131 + a) ^ uint64_t(pat * 8 + rot)); if (g != want || g2 != want) mc::fail("element", "%s[%zu] over filling %d prints %s by number and %s by name, expected %s", m.name, a, pat, mc::quote(g).c_str(), mc::quote(g2).c_str(), mc::quote(want).c_str());
        for (size_t b : IDX) { std::string w2; if (m.arr && a < size_t(m.count)) { const char *q = p + a * size_t(m.t.size); if (m.t.kind == kVec && b < size_t(m.t.comps)) w2 = text1(compType(m.t), q + b * size_t(m.t.csize)); if (m.t.kind == kFlags && b < size_t(m.t.size) * 8) w2 = zx(q, m.t.size) >> b & 1 ? "true" : "false"; } std::string e = r.GetReflectedValue(i, a, b), e2 = r.GetReflectedValue(h, a, b); mc::step(2); if (e != w2 || e2 != w2) mc::fail("element of element", "%s[%zu][%zu] over filling %d prints %s and %s, expected %s", m.name, a, b, pat, mc::quote(e).c_str(), mc::quote(e2).c_str(), mc::quote(w2).c_str()); } }
    }
    const size_t N = ms.size(); for (size_t id : {N, N + 1, size_t(255), size_t(256), ~size_t(0)}) { { const Reflector &cr = r; auto a = r.GetReflectedSubClass(id), b = cr.GetReflectedSubClass(id), c = r.GetReflectedSubClass(id, 3); mc::step(3); for (auto *x : {&a, &b, &c}) if (static_cast<RIF &>(*x).Instance()) mc::fail("unknown number", "%zu gives an object", id); } if (r.GetReflectedValue(id) != "" || r.GetReflectedValue(id, 0) != "" || r.GetReflectedValue(id, 0, 0) != "" || r.IsArray(id) || r.IsReflectedSubClass(id)) mc::fail("unknown number", "%zu", id); } for (const char *nm : {"", "B", "nope", "b "}) { JenHash h{es::string_view(nm)}; if (r.GetReflectedValue(h) != "" || r.GetReflectedValue(h, 0) != "" || r.GetReflectedValue(h, 0, 0) != "" || r.IsArray(h) || r.IsReflectedSubClass(h)) mc::fail("unknown name", "%s", nm); } }
}
// set by index, read as a whole and by index, for every element
MC_SECTION("element sets seen in the whole", 4) {
  fxRegister(); auto &ms = fxMembers(); uint64_t n = 0;
  for (size_t i = 0; i < ms.size(); i++) { auto &m = ms[i]; if (isClassKind(m.t.kind) || m.t.kind == kStr || m.t.kind == kCStr) continue; TypeInfo et = m.arr ? m.t : m.t.kind == kVec ? compType(m.t) : m.t; int cnt = m.arr ? m.count : m.t.kind == kVec ? m.t.comps : 0; std::vector<std::string> al = et.kind == kVec ? alphabet(compType(et)) : alphabet(et); size_t cap = std::min<size_t>(al.size(), mc::thorough() ? 2000 : 200);
    for (int k = 0; k < cnt; k++) for (size_t v = 0; v < cap; v++) { if (!mc::mine(n++)) continue; FxObj o(int(v & 1)), x(0); char *xp = (char *)x.p + m.off; std::string raw; for (int c = 0; c < (et.kind == kVec ? et.comps : 1); c++) raw = al[sub(al.size(), cap, (v + size_t(c) * 5) % cap)], memcpy(xp + c * (et.kind == kVec ? et.csize : 0), raw.data(), raw.size()); std::string t = text1(et, xp); if (isTiny(et, xp)) continue;
        ReflectorWrap<Fx> r(*o.p); ET e = r.SetReflectedValue(i, t, size_t(k)); std::string back = r.GetReflectedValue(i, size_t(k)), whole = r.GetReflectedValue(i); mc::step(3); mc::trace(); if (e != ET::None || back != t || whole != textOf(m, *o.p)) mc::fail("element set and read", "%s[%d] = %s returns %s, reads back %s, whole %s", m.name, k, mc::quote(t).c_str(), en(e), mc::quote(back).c_str(), mc::quote(whole).c_str());
        if (et.kind == kVec) for (int c = 0; c < et.comps; c++) { FxObj q(1); ReflectorWrap<Fx> w(*q.p); std::string ct = text1(compType(et), xp + c * et.csize); e = w.SetReflectedValue(i, ct, size_t(k), size_t(c)); back = w.GetReflectedValue(i, size_t(k), size_t(c)); mc::step(2); if (e != ET::None || back != ct) mc::fail("component set and read", "%s[%d][%d] = %s returns %s, reads back %s", m.name, k, c, ct.c_str(), en(e), back.c_str()); }
    } }
}
// nested objects are the storage of the C++ member: reading and round trip of every leaf through every way to reach it
MC_SECTION("nested objects", 2) {
  fxRegister(); auto &ms = fxMembers(); uint64_t n = 0;
  auto leaf = [&](Reflector &w, size_t mi, const char *mn, const std::string &want, const std::string &path) { std::string a = w.GetReflectedValue(mi), b = w.GetReflectedValue(JenHash(es::string_view(mn))); auto pr = w.GetReflectedPair(mi); mc::step(3); mc::state(path + "=" + want); if (a != want || b != want || pr.value != want || !(pr.name == es::string_view(mn))) mc::fail("nested value", "%s prints %s by number, %s by name, pair %s=%s, expected %s", path.c_str(), a.c_str(), b.c_str(), pr.name.to_string().c_str(), pr.value.c_str(), want.c_str()); };
  const int A[] = {0, 1, -1, 77, -2147483647 - 1, 2147483647}; const float B[] = {0, 1.5f, -3.25e10f, 1e-20f};
  for (int pat = 0; pat < 2; pat++) for (int ai = 0; ai < 6; ai++) for (int bi = 0; bi < 4; bi++) for (int form = 0; form < 4; form++) { if (!mc::mine(n++)) continue; FxObj o(pat); ReflectorWrap<Fx> r(*o.p); int ctr = 0;
        auto fillIn = [&](FxIn &x) { x.a = A[(ai + ctr) % 6]; x.b = B[(bi + ctr++) % 4]; }; FxIn *ins[] = {&o.p->in, &o.p->ain[0], &o.p->ain[1], &o.p->ain[2], &o.p->mid.in[0], &o.p->mid.in[1], &o.p->amid[0].in[0], &o.p->amid[0].in[1], &o.p->amid[1].in[0], &o.p->amid[1].in[1]}; for (auto x : ins) fillIn(*x);
        auto id = [&](const char *s) { for (size_t i = 0; i < ms.size(); i++) if (!strcmp(ms[i].name, s)) return i; return ~size_t(0); };
        auto get = [&](Reflector &q, size_t i, const char *nm, size_t k) { const Reflector &cq = q; return form == 0 ? q.GetReflectedSubClass(i, k) : form == 1 ? q.GetReflectedSubClass(JenHash(es::string_view(nm)), k) : form == 2 ? cq.GetReflectedSubClass(i, k) : cq.GetReflectedSubClass(JenHash(es::string_view(nm)), k); };
        auto in = [&](Reflector &q, size_t i, const char *nm, size_t k, FxIn &x, std::string path) { auto s = get(q, i, nm, k); if (static_cast<RIF &>(s).Instance() != &x) { mc::fail("nested storage", "%s", path.c_str()); return; } ReflectorPureWrap w(s); if (!(w.GetClassName() == "FxIn") || w.GetNumReflectedValues() != 2) mc::fail("nested class", "%s", path.c_str()); leaf(w, 0, "a", sdec(x.a), path + ".a"); leaf(w, 1, "b", ftext((char *)&x.b, 4), path + ".b"); FxIn y; ReflectorWrap<FxIn> z(y); y.a = 5; y.b = 5; if (z.SetReflectedValue("a", w.GetReflectedValue("a")) != ET::None || z.SetReflectedValue("b", w.GetReflectedValue("b")) != ET::None || y.a != x.a || !feq((char *)&x.b, (char *)&y.b, 4)) mc::fail("nested round trip", "%s", path.c_str()); };
        auto bits = [&](Reflector &q, size_t i, const char *nm, size_t k, void *at, bool sgn, std::string path) { auto s = get(q, i, nm, k); if (static_cast<RIF &>(s).Instance() != at) { mc::fail("nested storage", "%s", path.c_str()); return; } ReflectorPureWrap w(s); uint64_t raw = zx((char *)at, sgn ? 4 : 2); const int P[2][4] = {{0, 3, 9, 10}, {0, 5, 25, 0}}, Z[2][4] = {{3, 6, 1, 6}, {5, 20, 7, 0}}; const char *N[2][4] = {{"fxb0", "fxb1", "fxb2", "fxb3"}, {"fxs0", "fxs1", "fxs2", ""}}; for (int b = 0; b < (sgn ? 3 : 4); b++) { uint64_t v = raw >> P[sgn][b] & ((1ull << Z[sgn][b]) - 1); int64_t sv = v >> (Z[sgn][b] - 1) ? int64_t(v) - (1ll << Z[sgn][b]) : int64_t(v); leaf(w, size_t(b), N[sgn][b], sgn ? sdec(sv) : dec(v), path + "." + N[sgn][b]); } };
        auto mid = [&](size_t i, const char *nm, size_t k, FxMid &x, std::string path) { auto s = get(r, i, nm, k); if (static_cast<RIF &>(s).Instance() != &x) { mc::fail("nested storage", "%s", path.c_str()); return; } ReflectorPureWrap w(s); leaf(w, 0, "t", sdec(x.t), path + ".t"); leaf(w, 1, "in", "{SUBCLASS_TYPE, SUBCLASS_TYPE}", path + ".in"); leaf(w, 2, "bits", "SUBCLASS_TYPE", path + ".bits"); leaf(w, 3, "tail", dec(x.tail), path + ".tail"); in(w, 1, "in", 0, x.in[0], path + ".in[0]"); in(w, 1, "in", 1, x.in[1], path + ".in[1]"); bits(w, 2, "bits", 0, &x.bits, false, path + ".bits"); };
        in(r, id("in"), "in", 0, o.p->in, "in"); for (size_t k = 0; k < 3; k++) { in(r, id("ain"), "ain", k, o.p->ain[k], S("ain[%zu]", k)); uint16 bv = uint16(0x5a5a * (k + 1) + size_t(ai) * 0x1357); memcpy(&o.p->abits[k], &bv, 2); bits(r, id("abits"), "abits", k, &o.p->abits[k], false, S("abits[%zu]", k)); } uint32 sv = 0x8badf00du * uint32(ai * 4 + bi + 1); memcpy(&o.p->sbits, &sv, 4); bits(r, id("sbits"), "sbits", 0, &o.p->sbits, true, "sbits"); bits(r, id("bits"), "bits", 0, &o.p->bits, false, "bits"); mid(id("mid"), "mid", 0, o.p->mid, "mid"); mid(id("amid"), "amid", 0, o.p->amid[0], "amid[0]"); mid(id("amid"), "amid", 1, o.p->amid[1], "amid[1]"); mc::trace(); }
}
// arrays longer than a byte counts
struct LongA { int16 nums[700]; std::string words[300]; float reals[258]; bool bits[513]; FxF8 flags[257]; Vector vecs[259]; FxA kinds[300]; FxIn cls[300]; uint8 end; }; REFLECTOR_CREATE(LongA, 1, VARNAMES, nums, words, reals, bits, flags, vecs, kinds, cls, end);
template <size_t N> struct LongN { uint8 a[N]; int16 tail; }; typedef LongN<255> Long255; typedef LongN<256> Long256; typedef LongN<257> Long257; typedef LongN<32768> Long32768; typedef LongN<60000> Long60000;
REFLECTOR_CREATE(Long255, 1, VARNAMES, a, tail); REFLECTOR_CREATE(Long256, 1, VARNAMES, a, tail); REFLECTOR_CREATE(Long257, 1, VARNAMES, a, tail); REFLECTOR_CREATE(Long32768, 1, VARNAMES, a, tail); REFLECTOR_CREATE(Long60000, 1, VARNAMES, a, tail);
template <class L, size_t N> static void longN(int seed) {
  mc::at("array of %zu, filling %d", N, seed); mc::trace(); mc::state(mc::mix(N * 8 + size_t(seed))); std::unique_ptr<L> o(new L()), p(new L()); std::string want = "{"; for (size_t i = 0; i < N; i++) { o->a[i] = uint8(i * 7 + (i >> 8) + size_t(seed)); p->a[i] = 0xee; want += (i ? ", " : "") + dec(o->a[i]); } want += "}"; o->tail = p->tail = -5; ReflectorWrap<L> r(*o), q(*p); std::string t = r.GetReflectedValue("a"); mc::step(3);
  if (t != want) mc::fail("long array printed", "%zu elements print as %zu characters, expected %zu", N, t.size(), want.size()); if (q.SetReflectedValue("a", want) != ET::None || memcmp(o->a, p->a, N) || p->tail != -5) mc::fail("long array set", "%zu elements", N); std::string back = q.GetReflectedValue("a"); if (back != want) mc::fail("long array round trip", "%zu elements", N);
}
MC_SECTION("long arrays", 4) {
  fxRegister(); uint64_t n = 0; for (int seed = 0; seed < 4; seed++) { if (mc::mine(n++)) longN<Long255, 255>(seed); if (mc::mine(n++)) longN<Long256, 256>(seed); if (mc::mine(n++)) longN<Long257, 257>(seed); if (mc::mine(n++)) longN<Long32768, 32768>(seed); if (mc::mine(n++)) longN<Long60000, 60000>(seed); }
  for (int seed = 0; seed < 4; seed++) { if (!mc::mine(n++)) continue; mc::at("long arrays of every kind, filling %d", seed); mc::trace(); std::unique_ptr<LongA> o(new LongA()), p(new LongA()); auto en8 = fxEnum("FxA");
    for (int i = 0; i < 700; i++) o->nums[i] = int16(i * 91 - 30000 + seed); for (int i = 0; i < 300; i++) { o->words[i] = "w" + std::to_string(i * 31 + seed); o->kinds[i] = FxA(en8[size_t(i + seed) % en8.size()].v); o->cls[i].a = i * 7 - seed; o->cls[i].b = float(i) / 4; } for (int i = 0; i < 258; i++) o->reals[i] = float(i + seed) * .25f; for (int i = 0; i < 513; i++) o->bits[i] = (i * 5 + seed) % 3 == 0; for (int i = 0; i < 257; i++) { uint8 v = uint8((i + seed) % 8); memcpy(&o->flags[i], &v, 1); } for (int i = 0; i < 259; i++) o->vecs[i] = Vector(float(i), float(-i), float(seed)); o->end = uint8(seed + 9);
    ReflectorWrap<LongA> r(*o), q(*p); const char *NM[] = {"nums", "words", "reals", "bits", "flags", "vecs", "kinds"}; const int CN[] = {700, 300, 258, 513, 257, 259, 300}; 
    for (int m = 0; m < 7; m++) { std::string joined; for (int i = 0; i < CN[m]; i++) joined += (i ? ", " : "") + r.GetReflectedValue(size_t(m), size_t(i)); joined = "{" + joined + "}"; std::string t = r.GetReflectedValue(JenHash(es::string_view(NM[m]))); mc::step(size_t(CN[m])); if (t != joined) mc::fail("long array and its elements", "%s prints as %zu characters, its elements as %zu", NM[m], t.size(), joined.size()); if (q.SetReflectedValue(size_t(m), t) != ET::None || q.GetReflectedValue(size_t(m)) != t) mc::fail("long array round trip", "%s", NM[m]); for (int i = 0; i < CN[m]; i++) { std::string e = r.GetReflectedValue(size_t(m), size_t(i)); if (m == 0 ? e != sdec(o->nums[i]) : m == 1 ? e != o->words[i] : m == 3 ? e != (o->bits[i] ? "true" : "false") : e.empty()) mc::fail("long array element", "%s[%d] prints %s", NM[m], i, e.c_str()); } if (r.GetReflectedValue(size_t(m), size_t(CN[m])) != "") mc::fail("long array end", "%s", NM[m]); }
    if (memcmp(o->nums, p->nums, sizeof o->nums) || memcmp(o->reals, p->reals, sizeof o->reals) || memcmp(o->bits, p->bits, sizeof o->bits) || memcmp(o->flags, p->flags, sizeof o->flags) || memcmp(o->kinds, p->kinds, sizeof o->kinds)) mc::fail("long array contents", "filling %d", seed); for (int i = 0; i < 259; i++) if (!(o->vecs[i] == p->vecs[i])) mc::fail("long array contents", "vector %d", i);
    for (int i = 0; i < 300; i++) { auto s = r.GetReflectedSubClass("cls", size_t(i)); if (static_cast<RIF &>(s).Instance() != &o->cls[i]) { mc::fail("long array object", "cls[%d]", i); continue; } ReflectorPureWrap w(s); if (w.GetReflectedValue("a") != sdec(o->cls[i].a)) mc::fail("long array object", "cls[%d].a", i); } mc::state(mc::mix(777 + size_t(seed))); }
}
// members of enums nobody registered have no names: they print as nothing, refuse texts and leave everything else alone
REFLECTOR_CREATE(UnE, ENUM, 2, CLASS, 16, A, B, C = 9);
struct UnCls { int32 before; UnE e; es::Flags<UnE> f; UnE ae[2]; es::Flags<UnE> af[2]; int32 after; }; REFLECTOR_CREATE(UnCls, 1, VARNAMES, before, e, f, ae, af, after);
MC_SECTION("unregistered enums", 1) {
  const uint16 V[] = {0, 1, 9, 5, 0xffff}; for (uint16 v : V) for (uint16 w : V) { mc::at("unregistered enum %u flags %u", v, w); mc::trace(); mc::state(mc::mix(v * 65536u + w)); UnCls o; memset(&o, 0, sizeof o); o.before = 11; o.after = -12; auto put = [](void *p, uint16 x) { memcpy(p, &x, 2); }; put(&o.e, v); put(&o.f, w); put(&o.ae[0], w); put(&o.ae[1], v); put(&o.af[0], v); put(&o.af[1], w); UnCls keep; memcpy((void *)&keep, &o, sizeof o); ReflectorWrap<UnCls> r(o); auto same = [&](const char *what) { mc::step(); if (memcmp(&keep, &o, sizeof o)) { mc::fail("unregistered enum changes the object", "%s", what); memcpy((void *)&o, &keep, sizeof o); } };
    auto want = [&](const std::string &got, const std::string &x, const char *what) { mc::step(); if (got != x) mc::fail("unregistered enum printed", "%s prints %s", what, mc::quote(got).c_str()); };
    want(r.GetReflectedValue("e"), "", "e"); want(r.GetReflectedValue("f"), "NULL", "f"); want(r.GetReflectedValue("ae"), "{, }", "ae"); want(r.GetReflectedValue("ae", 1), "", "ae[1]"); want(r.GetReflectedValue("af"), "{NULL, NULL}", "af"); want(r.GetReflectedValue("before"), "11", "before"); want(r.GetReflectedValue("after"), "-12", "after"); auto pr = r.GetReflectedPair(1); want(pr.value, "", "pair"); same("printing");
    for (const char *t : {"A", "C", "NULL", "", "1", "A | B", "{A, B}", "UnE::A"}) { for (size_t m = 1; m < 5; m++) { ET e = r.SetReflectedValue(m, t); bool empty = !strcmp(t, "NULL") || !*t; if (e == ET::None && !empty) mc::fail("unregistered enum set", "member %zu = %s reports success", m, t); if (!empty) same(t); else memcpy((void *)&o, &keep, sizeof o); } }
    if (r.SetReflectedValue("before", "12") != ET::None || r.SetReflectedValue("after", "13") != ET::None || o.before != 12 || o.after != 13) mc::fail("unregistered enum neighbours", "not set"); }
}
// the limits of the 16-byte member record
struct Wide { int32 x; char pad[296]; void ReflectorTag(); }; REFLECTOR_CREATE(Wide, 1, VARNAMES, x);
struct Wide255 { uint8 x; char pad[254]; void ReflectorTag(); }; REFLECTOR_CREATE(Wide255, 1, VARNAMES, x);
struct Limits { Wide one; Wide255 many[3]; uint8 lots[60000]; uint16 far; }; REFLECTOR_CREATE(Limits, 1, VARNAMES, one, many, lots, far);
struct OverArray { Wide w[3]; }; REFLECTOR_CREATE(OverArray, 1, VARNAMES, w);
struct OverOffset { char pad[65536]; int32 far; }; REFLECTOR_CREATE(OverOffset, 1, VARNAMES, far);
MC_SECTION("member record limits", 1) {
  RegisterReflectedTypes<Wide, Wide255>();
  { Limits *l = new Limits(); ReflectorWrap<Limits> r(*l); l->far = 0xfeed; mc::step(); mc::state("limits"); if (r.GetReflectedValue("far") != "65261") mc::fail("large offset", "far prints %s", r.GetReflectedValue("far").c_str()); l->one.x = -9; auto s = r.GetReflectedSubClass("one"); ReflectorPureWrap w(s); if (w.GetReflectedValue("x") != "-9") mc::fail("large nested object", "one.x prints %s", w.GetReflectedValue("x").c_str());
    for (int i = 0; i < 3; i++) { l->many[i].x = uint8(40 + i); auto q = r.GetReflectedSubClass("many", size_t(i)); ReflectorPureWrap v(q); if (v.GetReflectedValue("x") != dec(40u + unsigned(i))) mc::fail("255 byte elements", "many[%d].x prints %s", i, v.GetReflectedValue("x").c_str()); }
    for (size_t k : {0, 1, 255, 256, 59998, 59999}) { l->lots[k] = uint8(k * 3 + 1); if (r.GetReflectedValue("lots", k) != dec(uint8(k * 3 + 1)) || r.SetReflectedValue("lots", "200", k) != ET::None || l->lots[k] != 200) mc::fail("long array", "lots[%zu]", k); } if (r.GetReflectedValue("lots", 60000) != "") mc::fail("long array", "past the end"); delete l; }
  { OverArray *a = new OverArray(); memset(a, 0x11, sizeof *a); ReflectorWrap<OverArray> r(*a); auto s = r.GetReflectedSubClass("w", 1); if (static_cast<RIF &>(s).Instance() != &a->w[1]) mc::fail("array elements above 255 bytes", "w[1] of 300 byte elements is taken at offset %ld", long((const char *)static_cast<RIF &>(s).Instance() - (const char *)a)); delete a; }
  { OverOffset *a = new OverOffset(); a->far = 77; ReflectorWrap<OverOffset> r(*a); if (r.GetReflectedValue("far") != "77") mc::fail("member offset above 65535", "a member at offset 65536 prints %s, holds 77", r.GetReflectedValue("far").c_str()); delete a; }
}
