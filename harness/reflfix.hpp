// Reflected fixture classes covering every member kind, with a member table built from the C++ declarations alone.
#pragma once
#include "mc.hpp"
#include "datas/bitfield.hpp"
#include "datas/flags.hpp"
#include "datas/refl_array.hpp"
#include "datas/reflector.hpp"
#include "datas/vectors_simd.hpp"
#include <cmath>
#include <cstddef>
#include <new>
typedef Reflector::ErrorType ET;
static const char *en(ET e) { static const char *n[] = {"None", "SignMismatch", "OutOfRange", "InvalidFormat", "InvalidDestination", "EmptyInput", "ShortInput"}; return unsigned(e) < 7 ? n[int(e)] : "?"; }
REFLECTOR_CREATE(FxA, ENUM, 2, CLASS, 8, Alpha, Beta = 5, Gamma, Delta = 0x40, Omega = 255);
REFLECTOR_CREATE(FxB, ENUM, 1, CLASS, Nought, One, Thirty = 30, Max = 0x7fffffff);
REFLECTOR_CREATE(FxW, ENUM, 2, CLASS, 16, Low = 1, Mid = 0x8bcd, High = 65535);
REFLECTOR_CREATE(FxQ, ENUM, 2, CLASS, 64, Tiny, Big = 0x123456789abcdef0, Huge = 0xffffffffffffffff);
REFLECTOR_CREATE(FxF, ENUM, 2, CLASS, 8, F0, F1, F2, F5 = 5, F7 = 7);
REFLECTOR_CREATE(FxG, ENUM, 2, CLASS, 8, G0, G7 = 7, G31 = 31, G32, G40 = 40, G63 = 63);
typedef BitMemberDecl<0, 3> fxb0; typedef BitMemberDecl<1, 6> fxb1; typedef BitMemberDecl<2, 1> fxb2; typedef BitMemberDecl<3, 6> fxb3;
typedef BitFieldType<uint16, fxb0, fxb1, fxb2, fxb3> FxBits;
REFLECTOR_CREATE(FxBits, BITFIELD, 1, VARNAMES, fxb0, fxb1, fxb2, fxb3);
typedef BitMemberDecl<0, 5> fxs0; typedef BitMemberDecl<1, 20> fxs1; typedef BitMemberDecl<2, 7> fxs2;
typedef BitFieldType<int32, fxs0, fxs1, fxs2> FxSBits;
REFLECTOR_CREATE(FxSBits, BITFIELD, 1, VARNAMES, fxs0, fxs1, fxs2);
struct FxIn { int32 a; float b; void ReflectorTag(); };
REFLECTOR_CREATE(FxIn, 1, VARNAMES, a, b);
struct FxMid { int8 t; FxIn in[2]; FxBits bits; uint16 tail; void ReflectorTag(); };
REFLECTOR_CREATE(FxMid, 1, VARNAMES, t, in, bits, tail);
struct FxStr { std::string s; int16 n; void ReflectorTag(); };
REFLECTOR_CREATE(FxStr, 1, VARNAMES, s, n);
typedef es::Flags<FxF, uint8> FxF8; typedef es::Flags<FxG, uint64> FxG64; typedef es::Flags<FxF, uint16> FxF16; typedef es::Flags<FxF, uint32> FxF32;
struct Fx {
  bool b; int8 i8; uint8 u8; int16 i16; uint16 u16; int32 i32; uint32 u32; int64 i64; uint64 u64; float f; double d;
  FxA ea; FxB eb; FxW ew; FxQ eq; FxF8 fl8; FxF16 fl16; FxF32 fl32; FxG64 fl64;
  Vector2 v2; Vector v3; Vector4 v4; Vector4A16 v4a; t_Vector<int16> vs; t_Vector2<double> vd; t_Vector4<uint8> vb;
  FxIn in; FxMid mid; FxBits bits; FxSBits sbits;
  bool ab[3]; int8 ai8[4]; uint8 au8[2]; int16 ai16[3]; uint16 au16[2]; int32 ai32[2]; uint32 au32[3]; int64 ai64[2]; uint64 au64[2]; float af[3]; double ad[2]; std::array<uint16, 3> sa; int32 one[1];
  FxA aea[3]; FxB aeb[2]; FxQ aeq[2]; FxF8 afl8[3]; FxG64 afl64[2];
  Vector av3[2]; Vector2 av2[3]; Vector4A16 av4a[2]; t_Vector<int16> avs[2]; std::array<Vector4, 2> sav4;
  FxIn ain[3]; FxBits abits[3]; FxMid amid[2];
  std::string str; std::string astr[2]; FxStr sub; const char *cs;
};
#define FX_FIELDS(X) X(b) X(i8) X(u8) X(i16) X(u16) X(i32) X(u32) X(i64) X(u64) X(f) X(d) X(ea) X(eb) X(ew) X(eq) X(fl8) X(fl16) X(fl32) X(fl64) X(v2) X(v3) X(v4) X(v4a) X(vs) X(vd) X(vb) X(in) X(mid) X(bits) X(sbits) X(ab) X(ai8) X(au8) X(ai16) X(au16) X(ai32) X(au32) X(ai64) X(au64) X(af) X(ad) X(sa) X(one) X(aea) X(aeb) X(aeq) X(afl8) X(afl64) X(av3) X(av2) X(av4a) X(avs) X(sav4) X(ain) X(abits) X(amid) X(str) X(astr) X(sub) X(cs)
REFLECTOR_CREATE(Fx, 1, VARNAMES, b, i8, u8, i16, u16, i32, u32, i64, u64, f, d, ea, eb, ew, eq, fl8, fl16, fl32, fl64, v2, v3, v4, v4a, vs, vd, vb, in, mid, bits, sbits, ab, ai8, au8, ai16, au16, ai32, au32, ai64, au64, af, ad, sa, one, aea, aeb, aeq, afl8, afl64, av3, av2, av4a, avs, sav4, ain, abits, amid, str, astr, sub, cs);
inline void fxRegister() { RegisterReflectedTypes<FxA, FxB, FxW, FxQ, FxF, FxG, FxBits, FxSBits, FxIn, FxMid, FxStr, Fx>(); }
// ---- the member table, from the C++ types
enum Kind { kBool, kInt, kUInt, kFloat, kEnum, kFlags, kVec, kClass, kBits, kStr, kCStr };
struct TypeInfo { Kind kind; int size; int comps; Kind ck; int csize; int flag; const char *en; };  // en: enum type name
template <class T, class = void> struct TI;
template <> struct TI<bool> { static TypeInfo get() { return {kBool, 1, 0, kBool, 0, 0, ""}; } };
template <> struct TI<std::string> { static TypeInfo get() { return {kStr, int(sizeof(std::string)), 0, kStr, 0, 0, ""}; } };
template <> struct TI<const char *> { static TypeInfo get() { return {kCStr, int(sizeof(char *)), 0, kStr, 0, 0, ""}; } };
template <class T> struct TI<T, typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value>::type> { static TypeInfo get() { return {std::is_signed<T>::value ? kInt : kUInt, int(sizeof(T)), 0, kInt, 0, 0, ""}; } };
template <class T> struct TI<T, typename std::enable_if<std::is_floating_point<T>::value>::type> { static TypeInfo get() { return {kFloat, int(sizeof(T)), 0, kFloat, 0, 0, ""}; } };
template <class T> struct EName { static const char *get() { return ""; } };
#define FXEN(T) template <> struct EName<T> { static const char *get() { return #T; } };
FXEN(FxA) FXEN(FxB) FXEN(FxW) FXEN(FxQ) FXEN(FxF) FXEN(FxG)
template <class T> struct TI<T, typename std::enable_if<std::is_enum<T>::value>::type> { static TypeInfo get() { return {kEnum, int(sizeof(T)), 0, kEnum, 0, 0, EName<T>::get()}; } };
template <class E, class S> struct TI<es::Flags<E, S>, void> { static TypeInfo get() { return {kFlags, int(sizeof(S)), 0, kFlags, 0, 0, EName<E>::get()}; } };
template <class C, int N> struct TIV { static TypeInfo get(int size) { TypeInfo c = TI<C>::get(); return {kVec, size, N, c.kind, c.size, 0, ""}; } };
template <class C> struct TI<t_Vector2<C>, void> { static TypeInfo get() { return TIV<C, 2>::get(sizeof(t_Vector2<C>)); } };
template <class C> struct TI<t_Vector<C>, void> { static TypeInfo get() { return TIV<C, 3>::get(sizeof(t_Vector<C>)); } };
template <class C> struct TI<t_Vector4_<C>, void> { static TypeInfo get() { return TIV<typename C::value_type, 4>::get(sizeof(t_Vector4_<C>)); } };
template <class T, class... M> struct TI<BitFieldType<T, M...>, void> { static TypeInfo get() { return {kBits, int(sizeof(T)), 0, kBits, 0, 0, ""}; } };
#define FXCL(T) template <> struct TI<T> { static TypeInfo get() { return {kClass, int(sizeof(T)), 0, kClass, 0, 0, #T}; } };
FXCL(FxIn) FXCL(FxMid) FXCL(FxStr)
struct Mem { const char *name; int off, size, count; bool arr; TypeInfo t; };
template <class T> struct MT { static Mem get(const char *n, size_t o) { return {n, int(o), int(sizeof(T)), 1, false, TI<T>::get()}; } };
template <class T, size_t N> struct MT<T[N]> { static Mem get(const char *n, size_t o) { return {n, int(o), int(sizeof(T) * N), int(N), true, TI<T>::get()}; } };
template <class T, size_t N> struct MT<std::array<T, N>> { static Mem get(const char *n, size_t o) { return {n, int(o), int(sizeof(T) * N), int(N), true, TI<T>::get()}; } };
inline const std::vector<Mem> &fxMembers() {
#define X(m) MT<decltype(Fx::m)>::get(#m, offsetof(Fx, m)),
  static const std::vector<Mem> v{FX_FIELDS(X)};
#undef X
  return v;
}
inline bool isClassKind(Kind k) { return k == kClass || k == kBits; }
// ---- named enumerators, from the declarations above
struct EV { const char *n; uint64_t v; };
inline std::vector<EV> fxEnum(const std::string &e) {
  if (e == "FxA") return {{"Alpha", 0}, {"Beta", 5}, {"Gamma", 6}, {"Delta", 0x40}, {"Omega", 255}};
  if (e == "FxB") return {{"Nought", 0}, {"One", 1}, {"Thirty", 30}, {"Max", 0x7fffffff}};
  if (e == "FxW") return {{"Low", 1}, {"Mid", 0x8bcd}, {"High", 65535}};
  if (e == "FxQ") return {{"Tiny", 0}, {"Big", 0x123456789abcdef0ULL}, {"Huge", ~0ULL}};
  if (e == "FxF") return {{"F0", 0}, {"F1", 1}, {"F2", 2}, {"F5", 5}, {"F7", 7}};
  if (e == "FxG") return {{"G0", 0}, {"G7", 7}, {"G31", 31}, {"G32", 32}, {"G40", 40}, {"G63", 63}};
  return {};
}
// ---- objects whose plain bytes hold a chosen filling, placed exactly at the end of a heap block
struct FxObj {
  Fx *p; void *blk;
  static void fill(Fx *q, int pat) {
    for (auto &m : fxMembers()) { char *a = (char *)q + m.off; if (m.t.kind == kStr) continue; if (!strcmp(m.name, "cs")) { q->cs = "c string"; continue; } if (!strcmp(m.name, "sub")) { q->sub.n = pat ? 0x1234 : 0; q->sub.s = pat ? "sub filling" : ""; continue; }
      for (int i = 0; i < m.size; i++) a[i] = pat == 0 ? 0 : char(0x35 + i * 7 + m.off * 3);
      auto fixb = [&](char *x, const TypeInfo &t) { if (t.kind == kBool) *x = char(pat & 1); if (t.kind == kEnum) { auto l = fxEnum(t.en); uint64_t v = l[size_t(pat) % l.size()].v; memcpy(x, &v, size_t(t.size)); } if (t.kind == kFloat || (t.kind == kVec && t.ck == kFloat)) { int n = t.kind == kVec ? t.comps : 1, cs = t.kind == kVec ? t.csize : t.size; for (int c = 0; c < n; c++) { double v = pat ? 1.5 + c * 3 + (x - a) : 0; float g = float(v); memcpy(x + c * cs, cs == 8 ? (void *)&v : (void *)&g, size_t(cs)); } }
        if (t.kind == kFlags) { uint64_t v = 0; auto l = fxEnum(t.en); if (pat) for (size_t i = 0; i < l.size(); i += 2) v |= 1ULL << l[i].v; memcpy(x, &v, size_t(t.size)); } };
      for (int i = 0; i < m.count; i++) fixb(a + i * m.t.size, m.t);
    }
    float *fp[] = {&q->in.b, &q->mid.in[0].b, &q->mid.in[1].b, &q->ain[0].b, &q->ain[1].b, &q->ain[2].b, &q->amid[0].in[0].b, &q->amid[0].in[1].b, &q->amid[1].in[0].b, &q->amid[1].in[1].b}; int k = 0; for (auto x : fp) *x = pat ? 0.25f + float(k++) : 0;
    q->str = pat ? "filling" : ""; q->astr[0] = pat ? "first" : ""; q->astr[1] = pat ? "second, long enough to live on the heap" : "";
  }
  explicit FxObj(int pat) { blk = aligned_alloc(16, sizeof(Fx)); memset(blk, 0xee, sizeof(Fx)); p = (Fx *)blk; new (&p->str) std::string; new (&p->astr[0]) std::string; new (&p->astr[1]) std::string; new (&p->sub.s) std::string; fill(p, pat); }
  ~FxObj() { p->str.~basic_string(); p->astr[0].~basic_string(); p->astr[1].~basic_string(); p->sub.s.~basic_string(); free(blk); }
  FxObj(const FxObj &) = delete;
};
// snapshot: all bytes with the std::string objects blanked, plus the string contents
struct Snap { std::string bytes; std::string s[4];
  explicit Snap(const Fx &o) : bytes((const char *)&o, sizeof o) { size_t at[] = {offsetof(Fx, str), offsetof(Fx, astr), offsetof(Fx, astr) + sizeof(std::string), offsetof(Fx, sub) + offsetof(FxStr, s)}; const std::string *p[] = {&o.str, &o.astr[0], &o.astr[1], &o.sub.s}; for (int i = 0; i < 4; i++) { for (size_t k = 0; k < sizeof(std::string); k++) bytes[at[i] + k] = 0; s[i] = *p[i]; } }
  // first difference outside [lo, hi): -1 none, else offset; strings: reported by their offset
  int diff(const Snap &b, int lo, int hi) const { for (size_t i = 0; i < bytes.size(); i++) if (bytes[i] != b.bytes[i] && (int(i) < lo || int(i) >= hi)) return int(i); int at[] = {int(offsetof(Fx, str)), int(offsetof(Fx, astr)), int(offsetof(Fx, astr) + sizeof(std::string)), int(offsetof(Fx, sub) + offsetof(FxStr, s))}; for (int i = 0; i < 4; i++) if (s[i] != b.s[i] && (at[i] < lo || at[i] >= hi)) return at[i]; return -1; }
};
inline std::string fxWhere(int off) { for (auto &m : fxMembers()) if (off >= m.off && off < m.off + m.size) return std::string(m.name) + "+" + std::to_string(off - m.off); return "padding at " + std::to_string(off); }
