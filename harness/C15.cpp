// REPO: datas/reflector.cpp datas/master_printer.cpp
// VARIANT: opt -O2
// VARIANT: asan -O1 -fsanitize=address
// RULE: state = distinct (member type, text or number, starting value); transition = one reflective set on the real object; trace = one set judged against an independent parser
// ASSUME: text after a complete number is ignored, as the existing tests expect of a trailing 'F'
#include "mc.hpp"
#include "datas/bitfield.hpp"
#include "datas/reflector.hpp"
#include <cfloat>
#include <cmath>
#include <limits>
#include "reflbits.inc"
typedef Reflector::ErrorType ET;
typedef __int128 big;
static const char *en(ET e) { static const char *n[] = {"None", "SignMismatch", "OutOfRange", "InvalidFormat", "InvalidDestination", "EmptyInput", "ShortInput"}; return int(e) < 7 ? n[int(e)] : "?"; }
static std::string dec(big v) { if (!v) return "0"; bool n = v < 0; std::string s; while (v) { int d = int(v % 10); s.insert(s.begin(), char('0' + (d < 0 ? -d : d))); v /= 10; } return n ? "-" + s : s; }
static std::string hexs(big v, bool up = false) { bool n = v < 0; if (n) v = -v; std::string s; do { s.insert(s.begin(), (up ? "0123456789ABCDEF" : "0123456789abcdef")[int(v & 15)]); v >>= 4; } while (v); return (n ? "-0x" : "0x") + s; }
static bool ws(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
// ---- independent reading of the text
struct Parsed { bool ok = false, neg = false, skip = false; big mag = 0; };
static Parsed parse(const std::string &t) {
  Parsed p; size_t i = 0; while (i < t.size() && ws(t[i])) i++;
  size_t b = i; if (i < t.size() && (t[i] == '-' || t[i] == '+')) { p.neg = t[i] == '-'; i++; }
  int base = 10;
  if (i + 1 < t.size() && t[i] == '0' && (t[i + 1] == 'x' || t[i + 1] == 'X')) { if (t[b] == '+' || t[i + 1] == 'X') p.skip = true; base = 16; if (i + 2 < t.size() && isxdigit((unsigned char)t[i + 2])) i += 2; else { p.ok = true; return p; } }
  for (; i < t.size(); i++) { int d = isdigit((unsigned char)t[i]) ? t[i] - '0' : base == 16 && isxdigit((unsigned char)t[i]) ? (tolower(t[i]) - 'a' + 10) : -1; if (d < 0) break; p.ok = true; if (p.mag < ((big)1 << 100)) p.mag = p.mag * base + d; }
  return p;
}
struct Want { bool unchanged = false; big value = 0; ET e1 = ET::None, e2 = ET::None; };
static Want want(const Parsed &p, int bits, bool sgn) {
  Want w; if (!p.ok) { w.unchanged = true; w.e1 = ET::InvalidFormat; w.e2 = ET::EmptyInput; return w; }
  big v = p.neg ? -p.mag : p.mag; big two = (big)1 << bits;
  big lo = sgn ? -(two >> 1) : 0, hi = sgn ? (two >> 1) - 1 : two - 1;
  if (!sgn && p.neg) {
    if (!p.mag) { w.e2 = ET::SignMismatch; return w; }
    if (p.mag >= ((big)1 << 64)) { w.value = hi; w.e1 = w.e2 = ET::OutOfRange; return w; }
    w.value = ((v % two) + two) % two; w.e1 = w.e2 = ET::SignMismatch; return w;
  }
  if (v < lo) { w.value = lo; w.e1 = w.e2 = ET::OutOfRange; } else if (v > hi) { w.value = hi; w.e1 = w.e2 = ET::OutOfRange; } else w.value = v;
  return w;
}
struct Ints { uint8 g0; int8 i8; uint8 g1; uint8 u8; int16 i16; uint16 g2; uint16 u16; uint16 g3; int32 i32; uint32 g4; uint32 u32; uint32 g5; int64 i64; uint64 g6; uint64 u64; uint64 g7; };
REFLECTOR_CREATE(Ints, 1, VARNAMES, i8, u8, i16, u16, i32, u32, i64, u64)
static const char *TN[] = {"i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64"}; static const int BITS[] = {8, 8, 16, 16, 32, 32, 64, 64};
static big getI(const Ints &o, int k) { switch (k) { case 0: return o.i8; case 1: return o.u8; case 2: return o.i16; case 3: return o.u16; case 4: return o.i32; case 5: return o.u32; case 6: return o.i64; default: return (big)o.u64; } }
static void setI(Ints &o, int k, big v) { switch (k) { case 0: o.i8 = int8(v); break; case 1: o.u8 = uint8(v); break; case 2: o.i16 = int16(v); break; case 3: o.u16 = uint16(v); break; case 4: o.i32 = int32(v); break; case 5: o.u32 = uint32(v); break; case 6: o.i64 = int64(v); break; default: o.u64 = uint64(v); } }
static void fresh(Ints &o, int k, big start) { memset(&o, 0x5a, sizeof o); setI(o, k, start); }
static void judge(const char *what, Ints &o, int k, big start, const std::string &text, ET e, const Want &w) {
  Ints ref; fresh(ref, k, start); big exp = w.unchanged ? getI(ref, k) : w.value; setI(ref, k, exp); mc::trace();
  if (memcmp(&ref, &o, sizeof o) || (e != w.e1 && e != w.e2))
    mc::fail(std::string(what) + " " + TN[k], "%s member set from %s: holds %s, returns %s; expected %s, %s%s", TN[k], mc::quote(text).c_str(), dec(getI(o, k)).c_str(), en(e), dec(exp).c_str(), en(w.e1), getI(o, k) == exp && memcmp(&ref, &o, sizeof o) ? " (a neighbour changed)" : "");
}
static void tryInt(const char *what, int k, big start, const std::string &text) {
  Parsed p = parse(text); if (p.skip) return; Ints o; fresh(o, k, start); ReflectorWrap<Ints> r(o); mc::at("%s set from %s", TN[k], mc::quote(text).c_str()); mc::step();
  ET e = (text.size() & 1) ? r.SetReflectedValue(size_t(k), text) : r.SetReflectedValue(JenHash(es::string_view(TN[k])), text); judge(what, o, k, start, text, e, want(p, BITS[k], !(k & 1)));
}
static std::vector<big> points() {
  std::vector<big> v; for (int b = 0; b <= 66; b++) for (int d = -2; d <= 2; d++) { big x = ((big)1 << b) + d; v.push_back(x); v.push_back(-x); }
  big t = 1; for (int k = 0; k < 24; k++, t *= 10) for (int d = -1; d <= 1; d++) { v.push_back(t + d); v.push_back(-(t + d)); }
  return v;
}
MC_SECTION("narrow integers, every value", 8) {
  int lim = mc::thorough() ? 140000 : 70000;
  for (int v = -lim; v <= lim; v++) { if (!mc::mine(uint64_t(v + lim))) continue; mc::state(uint64_t(v + 1000000)); for (int k = 0; k < 4; k++) { if (k < 2 && (v < -1200 || v > 1200)) continue; tryInt("value", k, 85, dec(v)); tryInt("hex value", k, 85, hexs(v, v & 1)); } }
}
MC_SECTION("boundary values and decorations", 4) {
  static const std::string wide(300, ' '), zeros(300, '0'); const char *pre[] = {"", " ", "\t", "\n  ", "    ", wide.c_str()}; const char *post[] = {"", " ", "  \t", ",", " 5", "F", "]", ".75", "\n"}; const char *zero[] = {"", "0", "000000", zeros.c_str()};
  auto pts = points(); uint64_t n = 0;
  for (big v : pts) for (int k = 0; k < 8; k++) { if (!mc::mine(n++)) continue; mc::state(mc::mix(uint64_t(v)) ^ uint64_t(k) << 60); big start = (n & 1) ? 0 : BITS[k] == 8 ? 77 : 12345;
      for (auto a : pre) for (auto b : post) for (auto z : zero) for (int sg = 0; sg < 2; sg++) {
            std::string d = dec(v < 0 ? -v : v); std::string s = std::string(a) + (v < 0 ? "-" : sg ? "+" : "") + z + d + b; if (v < 0 && sg) continue; tryInt("boundary", k, start, s);
            if (!sg) { std::string h = hexs(v < 0 ? -v : v, v & 1).substr(2); tryInt("hex boundary", k, start, std::string(a) + (v < 0 ? "-0x" : "0x") + z + h + b); }
          } }
}
MC_SECTION("every short text", 8) {
  // all texts over the alphabet, as integers and as floats
  uint64_t n = 0;
  mc::strings("-+019x f.", mc::thorough() ? 6 : 5, [&](const std::string &s) { if (!mc::mine(n++)) return; mc::state(s); for (int k = 0; k < 8; k++) { tryInt("text", k, 0, s); tryInt("text", k, 93, s); } });
}
// ---- floating point
struct Floats { float g0; float f; float g1; float g2; double d; double g3; };
REFLECTOR_CREATE(Floats, 1, VARNAMES, f, d)
template <class T> struct FL; template <> struct FL<float> { static float rd(const char *s, char **e) { return strtof(s, e); } static float &of(Floats &o) { return o.f; } static const char *nm() { return "float"; } enum { id = 0 }; };
template <> struct FL<double> { static double rd(const char *s, char **e) { return strtod(s, e); } static double &of(Floats &o) { return o.d; } static const char *nm() { return "double"; } enum { id = 1 }; };
template <class T> static void tryFloat(const char *what, const std::string &text, T start) {
  typedef std::numeric_limits<T> L; Floats o, ref; memset(&o, 0x33, sizeof o); FL<T>::of(o) = start; ref = o; memcpy(&ref, &o, sizeof o);
  size_t i = 0; while (i < text.size() && ws(text[i])) i++; std::string body = text.substr(i); char *end; errno = 0; T v = FL<T>::rd(body.c_str(), &end); int en_ = errno; errno = 0; bool ok = end != body.c_str();
  ET w = ET::None, w2 = ET::None; T exp = start;
  if (!ok) { w = ET::InvalidFormat; w2 = ET::EmptyInput; }
  else if (v == 0 && !en_) exp = v;
  else if (std::isnan(v)) exp = v;
  else if (std::isinf(v) && !en_) exp = v;
  else if (std::isinf(v) || (en_ && std::fabs(v) > 1)) { exp = std::signbit(v) ? -L::max() : L::max(); w = w2 = ET::OutOfRange; }
  else if (std::fabs(v) < L::min()) { exp = std::signbit(v) ? -L::min() : L::min(); w = w2 = ET::OutOfRange; }
  else { exp = v; if (en_) w2 = ET::OutOfRange; }
  ReflectorWrap<Floats> r(o); mc::step(); ET e = r.SetReflectedValue(size_t(FL<T>::id), text); mc::trace(); T got = FL<T>::of(o);
  bool same = std::isnan(exp) ? std::isnan(got) : !memcmp(&got, &exp, sizeof(T)); FL<T>::of(ref) = got;
  if (!same || (e != w && e != w2) || memcmp(&ref, &o, sizeof o))
    mc::fail(std::string(what) + " " + FL<T>::nm(), "%s member %.17g set from %s: holds %.17g, returns %s; expected %.17g, %s", FL<T>::nm(), double(start), mc::quote(text).c_str(), double(got), en(e), double(exp), en(w));
}
MC_SECTION("float bit patterns", 8) {
  int low = mc::thorough() ? 5 : 11; uint64_t n = 0; const uint32_t lows[] = {0, 1, 0x5a5, 0xffffffff};
  for (uint64_t top = 0; top < (uint64_t(1) << (32 - low)); top++) { if (!mc::mine(n++)) continue; mc::addStates(1); if (!(top & 0xfff)) mc::at("float top %llx", (unsigned long long)top);
    uint32_t b = uint32_t(top << low) | (lows[top & 3] & ((1u << low) - 1)); float f; memcpy(&f, &b, 4); if (std::isnan(f)) continue; char s[64]; snprintf(s, 64, "%.9g", f); tryFloat<float>("pattern", s, 1.5f); }
}
MC_SECTION("double bit patterns", 4) {
  uint64_t n = 0; int low = mc::thorough() ? 44 : 47;
  for (uint64_t top = 0; top < (uint64_t(1) << (64 - low)); top++) { if (!mc::mine(n++)) continue; mc::addStates(1); if (!(top & 0xfff)) mc::at("double top %llx", (unsigned long long)top);
    for (uint64_t lo : {uint64_t(0), uint64_t(1), (uint64_t(1) << low) - 1}) { uint64_t b = top << low | lo; double f; memcpy(&f, &b, 8); if (std::isnan(f)) continue; char s[64]; snprintf(s, 64, "%.17g", f); tryFloat<double>("pattern", s, -2.25); } }
}
MC_SECTION("float texts", 6) {
  uint64_t n = 0;
  mc::strings("-+19.e0 ", mc::thorough() ? 7 : 6, [&](const std::string &s) { if (!mc::mine(n++)) return; mc::state(s); if (!(n & 0xff)) mc::at("float text %s", mc::quote(s).c_str()); tryFloat<float>("text", s, 7.f); tryFloat<double>("text", s, 7.); });
  if (mc::mine(0)) {
    for (const char *m : {"1", "-1", "9.999999", "-9.999999", "0.0000001", "-0.0000001", "3.4028235", "3.4028236", "-3.40283", "1.1754944", "1.1754943", "-1.17549", "1.7976931348623157", "1.7976931348623159", "-1.7976931348623159", "2.2250738585072014", "-2.225073858507201", "4.9", "+2"})
      for (int x = -420; x <= 420; x++) for (const char *t : {"", "F", " ", ", 2"}) { std::string s = std::string(m) + "e" + std::to_string(x) + t; mc::state(s); mc::at("%s", s.c_str()); tryFloat<float>("exponent", s, 2.f); tryFloat<double>("exponent", s, 2.); }
    for (const char *t : {"nan", "NaN", "inf", "-inf", "+inf", "INFINITY", "-Infinity", "infinite", "in", "nana", "", " ", "\t\n", ".", "-", "+", "e5", ".e5", "-.", "--1", "+-1", "dis8", "(1)", "true", "x1", "0x", "0x1p3", "0x.8", "-0x1p-2"}) for (const char *pre : {"", " ", " \t"}) { tryFloat<float>("special", std::string(pre) + t, 3.f); tryFloat<double>("special", std::string(pre) + t, 3.); }
  }
}
// ---- bit-field members
MC_SECTION("bit-field members", 8) {
  uint64_t n = 0;
  for (auto &L : bitLayouts()) for (int m = 0, pos = 0; m < L.n; pos += L.size[m], m++) {
      if (!mc::mine(n++)) continue; int sz = L.size[m]; std::vector<big> vals; if (sz <= 9) { for (int v = -(1 << sz) - 3; v <= (2 << sz) + 3; v++) vals.push_back(v); } else { big t = (big)1 << sz; for (int b = sz - 2; b <= sz + 2; b++) for (int d = -2; d <= 2; d++) { vals.push_back(((big)1 << b) + d); vals.push_back(-((big)1 << b) + d); } for (int d = -5; d <= 5; d++) vals.push_back(d); vals.push_back(t / 3); vals.push_back(-t / 3); vals.push_back((big)1 << 64); vals.push_back(((big)1 << 64) - 1); vals.push_back(-((big)1 << 64)); vals.push_back(((big)1 << 63)); vals.push_back(-((big)1 << 63) - 1); }
      std::vector<std::string> texts; for (big v : vals) { texts.push_back(dec(v)); texts.push_back(" " + hexs(v)); } for (auto t : {"", " ", "x", "-", "junk5", "0x", "7F", "+3", "  1 "}) texts.push_back(t);
      for (auto &t : texts) for (uint64_t init : {uint64_t(0), ~uint64_t(0), uint64_t(0xa5c396f00f693c5aULL)}) {
          mc::state(mc::mix(mc::hashBytes(t.data(), t.size(), n)) ^ init); mc::at("%s member %d (%d bits at %d) from %s over %llx", L.name, m, sz, pos, mc::quote(t).c_str(), (unsigned long long)init);
          unsigned char *mem = (unsigned char *)malloc(size_t(L.bytes)); memcpy(mem, &init, size_t(L.bytes)); uint64_t before = 0; memcpy(&before, mem, size_t(L.bytes));
          Want w = want(parse(t), sz, L.isSigned); uint64_t mask = (sz == 64 ? ~0ULL : ((1ULL << sz) - 1)) << pos; uint64_t exp = w.unchanged ? before : (before & ~mask) | ((uint64_t(w.value) << pos) & mask);
          ReflectedInstance ri(L.refl, mem); ReflectorPureWrap r(ri); mc::step(); ET e = r.SetReflectedValue(size_t(m), t); mc::trace(); uint64_t after = 0; memcpy(&after, mem, size_t(L.bytes));
          if (after != exp || (e != w.e1 && e != w.e2)) mc::fail(std::string("bit field ") + (L.isSigned ? "signed" : "unsigned"), "%s (%d byte storage) member %d, %d bits at %d, storage %llx, set from %s: storage %llx, returns %s; expected %llx, %s", L.name, L.bytes, m, sz, pos, (unsigned long long)before, mc::quote(t).c_str(), (unsigned long long)after, en(e), (unsigned long long)exp, en(w.e1));
          // reading it back gives the field's number
          uint64_t raw = (after & mask) >> pos; big num = (big)raw; if (L.isSigned && sz && (raw >> (sz - 1) & 1)) num -= (big)1 << sz; std::string got = r.GetReflectedValue(size_t(m)); if (got != dec(num)) mc::fail("bit field read", "%s member %d, %d bits at %d of storage %llx reads \"%s\", expected %s", L.name, m, sz, pos, (unsigned long long)after, got.c_str(), dec(num).c_str());
          free(mem);
        }
    }
}
// ---- typed setters
MC_SECTION("typed setters", 1) {
  auto pts = points(); for (int i = -300; i <= 300; i++) pts.push_back(i); for (int i = -66000; i <= 66000; i += 11) pts.push_back(i);
  for (big v : pts) for (int k = 0; k < 8; k++) for (int byName = 0; byName < 2; byName++) {
        bool sgn = !(k & 1); if (sgn ? (v < -((big)1 << 63) || v >= ((big)1 << 63)) : (v < 0 || v >= ((big)1 << 64))) continue; mc::state(mc::mix(uint64_t(v)) ^ uint64_t(k)); mc::at("typed %s = %s", TN[k], dec(v).c_str());
        Ints o; fresh(o, k, 21); ReflectorWrap<Ints> r(o); mc::step(); JenHash h{es::string_view(TN[k])};
        ET e = sgn ? (byName ? r.SetReflectedValueInt(h, int64(v)) : r.SetReflectedValueInt(size_t(k), int64(v))) : (byName ? r.SetReflectedValueUInt(h, uint64(v)) : r.SetReflectedValueUInt(size_t(k), uint64(v)));
        Want w; Ints conv; setI(conv, k, v); w.value = getI(conv, k); judge("typed setter", o, k, 21, dec(v), e, w);
      }
  std::vector<double> fs; for (int x = -1074; x <= 1023; x += 1) for (double m : {1.0, 1.5, 1.9999999, -1.0, -1.3333333}) fs.push_back(std::ldexp(m, x)); for (double d : {0.0, -0.0, double(FLT_MAX), -double(FLT_MAX), double(FLT_MIN), DBL_MAX, -DBL_MAX, double(INFINITY), -double(INFINITY), double(NAN), 0.1, 1e38, 3.5e38, -3.5e38}) fs.push_back(d);
  for (double v : fs) for (int k = 0; k < 2; k++) {
      Floats o; memset(&o, 0x33, sizeof o); ReflectorWrap<Floats> r(o); mc::state(mc::hashBytes(&v, 8, uint64_t(k))); mc::at("typed float %d = %.17g", k, v); mc::step(); ET e = r.SetReflectedValueFloat(size_t(k), v); mc::trace();
      if (!k && std::isfinite(v) && std::fabs(v) > FLT_MAX) continue; // no C++ conversion is defined
      double exp = k ? v : double(float(v)); double got = k ? o.d : double(o.f); ET w = ET::None;
      if (e != w || (std::isnan(exp) ? !std::isnan(got) : memcmp(&got, &exp, 8))) mc::fail("typed float setter", "%s member set to %.17g holds %.17g, returns %s; expected %.17g, %s", k ? "double" : "float", v, got, en(e), exp, en(w));
      Floats ref; memset(&ref, 0x33, sizeof ref); if (k) ref.d = o.d; else ref.f = o.f; if (memcmp(&ref, &o, sizeof o)) mc::fail("typed float neighbour", "setting the %s member to %.17g changed a neighbour", k ? "double" : "float", v);
    }
}
