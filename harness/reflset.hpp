// objects of every declaration form, filled and printed through the reflection interface
#pragma once
#include "reflforms.hpp"
struct ReflectedInstanceFriend : ReflectedInstance { const void *R() const { return rfStatic; } const void *I() const { return constInstance; } };
struct U2 { int16 x; float y[2]; std::string z; FxA e; void ReflectorTag(); }; REFLECTOR_CREATE(U2, 0, x, y, z, e);
struct U1 { int8 a[3]; Vector v[2]; FxF8 f[2]; FxIn in[2]; std::string s; U2 u; U2 w[2]; Vector4 q; FxF8 g; bool b; FxA ea[2]; FmB1 bf[2]; std::string t[2]; }; REFLECTOR_CREATE(U1, 0, a, v, f, in, s, u, w, q, g, b, ea, bf, t);
REFLECTOR_CREATE((FmT<U2, FxIn>), 2, TEMPLATE, VARNAMES, item0, item1);
static std::string dump(const Reflector &r) { std::string s = "("; for (size_t i = 0; i < r.GetNumReflectedValues(); i++) { if (r.IsReflectedSubClass(i)) { size_t n = 1; if (r.IsArray(i)) { n = 0; for (; n < 16; n++) { auto q = r.GetReflectedSubClass(i, n); if (!static_cast<ReflectedInstanceFriend &>(q).R()) break; } } for (size_t k = 0; k < n; k++) { auto in = r.GetReflectedSubClass(i, k); if (!static_cast<ReflectedInstanceFriend &>(in).R()) { s += "?"; continue; } ReflectorPureWrap w(in); s += dump(w); } } else s += r.GetReflectedValue(i); s += ';'; } return s + ")"; }

static void setAll(Reflector &r, int var, int depth = 0) {
  static const char *one[3][12] = {{"0", "false", "{0, 0, 0, 0}", "Alpha", "Low", "NULL", "[0, 0, 0, 0]", "[0, 0, 0]", "{[0, 0, 0], [0, 0, 0]}", "{NULL, NULL}", "{Alpha, Alpha}", "{x, y}"}, {"1", "true", "{1, 2, 3, 4}", "Omega", "Mid", "F0 | F7", "[1, 2, 3, 4]", "[1, 2.5, -3]", "{[4, 5, 6], [7, 8, 9]}", "{F1, F2 | F5}", "{Beta, Delta}", "{some, text}"}, {"3", "1", "{7, 6, 5, 4}", "Gamma", "High", "F5", "[5, 6, 7, 8]", "[-1, -2.5, 3]", "{[-4, 5.5, 6], [7, -8, 9]}", "{F7, NULL}", "{Omega, Gamma}", "{other, words}"}};
  for (size_t i = 0; i < r.GetNumReflectedValues(); i++) { if (r.IsReflectedSubClass(i)) { for (size_t k = 0; k < 8; k++) { auto in = r.GetReflectedSubClass(i, k); if (!static_cast<ReflectedInstanceFriend &>(in).R()) break; ReflectorPureWrap w(in); setAll(w, k && var ? 3 - var : var, depth + 1); if (!r.IsArray(i)) break; } continue; } bool ok = false; for (int k = 11; k >= 2 && !ok; k--) ok = r.SetReflectedValue(i, one[var][k]) == ET::None; if (!ok) ok = r.SetReflectedValue(i, std::to_string(var ? (i * 5 + size_t(var) + size_t(depth)) % 4 : 0)) == ET::None; if (!ok) r.SetReflectedValue(i, one[var][1]); }
}
struct TypeOps { const char *name; const reflectorStatic *(*cls)(); void *(*make)(); void (*drop)(void *); };
template <class T> static TypeOps ops(const char *n) { return {n, &GetReflectedClass<T>, [] { void *p = aligned_alloc(16, (sizeof(T) + 15) / 16 * 16); memset(p, 0, sizeof(T)); new (p) T(); return p; }, [](void *p) { ((T *)p)->~T(); free(p); }}; }
static const std::vector<TypeOps> &types() { typedef FmT<int32, float> T0; typedef FmT<uint8, double> T1; typedef FmT<int64, int8> T2; typedef FmT<bool, uint16> T3; typedef FmT<FxW, std::string> T4; typedef FmT<U2, FxIn> T5;
#define O(t) ops<t>(#t),
  static const std::vector<TypeOps> v{O(Fm0) O(Fm1) O(Fm2) O(T0) O(T1) O(T2) O(T3) O(T4) O(T5) O(FmB1) O(FmB2) O(FmB3) O(FmB4) O(Fm3) O(Fm4) O(Fm5) O(FxIn) O(FxMid) O(FxStr) O(FxBits) O(FxSBits) O(U1) O(U2)};
#undef O
  return v; }
static void regAll() { formsRegister(); fxRegister(); RegisterReflectedTypes<U2>(); }
