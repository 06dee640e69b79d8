// every declaration form of reflected classes and enums, with the expected names written down a second time by hand
#pragma once
#include "reflfix.hpp"
struct Fm0 { int32 a; float b; uint8 c[3]; }; REFLECTOR_CREATE(Fm0, 0, a, b, c);
struct Fm1 { int32 one; double two; std::string three; FxA four; void ReflectorTag(); }; REFLECTOR_CREATE(Fm1, 1, VARNAMES, one, two, three, four);
struct Fm2 { float x, y, z; int32 w, v; uint16 q, e, p; FxF8 fl; FxIn in[2]; }; REFLECTOR_CREATE(Fm2, 1, EXTENDED, (A, x, "x_alias"), (D, y, "Y is%km"), (AD, z, "zed", "Z without unit"), (, w), (N, v), (D, q, "100%% sure"), (D, e, ""), (AD, p, "pee", "%unit only"), (D, fl, "Flags 'n' <stuff> \"q\""), (A, in, "inner"));
template <class A, class B> struct FmT { A item0; B item1; };
REFLECTOR_CREATE((FmT<int32, float>), 1, TEMPLATE, item0, item1);
REFLECTOR_CREATE((FmT<uint8, double>), 2, TEMPLATE, VARNAMES, item0, item1);
REFLECTOR_CREATE((FmT<int64, int8>), 2, VARNAMES, TEMPLATE, item0, item1);
REFLECTOR_CREATE((FmT<bool, uint16>), 2, TEMPLATE, EXTENDED, (A, item0, "first_item"), (AD, item1, "second", "Second is%items"));
REFLECTOR_CREATE((FmT<FxW, std::string>), 2, EXTENDED, TEMPLATE, (D, item0, "Enumerated"), (, item1));
typedef BitMemberDecl<0, 4> fmb0; typedef BitMemberDecl<1, 9> fmb1; typedef BitMemberDecl<2, 3> fmb2; typedef BitMemberDecl<3, 16> fmb3;
typedef BitFieldType<uint32, fmb0, fmb1, fmb2, fmb3> FmB1; REFLECTOR_CREATE(FmB1, BITFIELD, 1, VARNAMES, fmb0, fmb1, fmb2, fmb3);
typedef BitMemberDecl<0, 4> fmc0; typedef BitMemberDecl<1, 9> fmc1; typedef BitMemberDecl<2, 3> fmc2; typedef BitMemberDecl<3, 48> fmc3;
typedef BitFieldType<uint64, fmc0, fmc1, fmc2, fmc3> FmB2; REFLECTOR_CREATE(FmB2, BITFIELD, 1, EXTENDED, (A, fmc0, "bit_zero"), (D, fmc1, "Bits%b"), (AD, fmc2, "bit_two", "Two"), (, fmc3));
typedef BitMemberDecl<0, 7> fmd0; typedef BitMemberDecl<1, 9> fmd1; typedef BitFieldType<uint16, fmd0, fmd1> FmB3; REFLECTOR_CREATE(FmB3, BITFIELD, 0, fmd0, fmd1);
typedef BitMemberDecl<0, 2> fme0; typedef BitMemberDecl<1, 3> fme1; typedef BitMemberDecl<2, 3> fme2; typedef BitMemberDecl<3, 8> fme3;
typedef BitFieldType<int16, fme0, fme1, fme2, fme3> FmB4; REFLECTOR_CREATE(FmB4, BITFIELD, 1, VARNAMES, fme2, fme0, fme3);  // some of the members, in another order
struct Fm3 { int8 only; void ReflectorTag(); }; REFLECTOR_CREATE(Fm3, 1, VARNAMES, only);
struct Fm4 { Fm3 a; Fm3 b[4]; Fm1 c; FmB1 d; FmB2 e[2]; FmB4 f; }; REFLECTOR_CREATE(Fm4, 1, EXTENDED, (AD, a, "aa", "Inner a"), (D, b, "Inner b"), (, c), (A, d, "dd"), (, e), (D, f, "F bits"));
struct Fm5 { int32 m[20]; int32 a, b, c, d, e, f, g, h, i, j, k, l, n, o, p, q, r, s, t, u, v, w, x, y, z, aa, ab, ac, ad, ae, af, ag, ah, ai, aj, ak, al; };
REFLECTOR_CREATE(Fm5, 1, VARNAMES, z, y, x, w, v, u, t, s, r, q, p, o, n, l, k, j, i, h, g, f, e, d, c, b, a, aa, ab, ac, ad, ae, af, ag, ah, ai, aj, ak, al, m);
REFLECTOR_CREATE(FmE0, ENUM, 0, FmE0_a, FmE0_b, FmE0_c);
REFLECTOR_CREATE(FmE1, ENUM, 1, CLASS, Sole);
REFLECTOR_CREATE(FmE2, ENUM, 2, CLASS, 64, Small, Large = 0xfedcba9876543210, Larger);
REFLECTOR_CREATE(FmE3, ENUM, 1, CLASS, Neg = -3, Zero = 0, A_rather_long_enumerator_name_that_does_not_fit_anywhere = 17);
REFLECTOR_CREATE(FmE4, ENUM, 1, 8, FmE4_x = 250, FmE4_y);
struct FmMem { const char *name, *alias, *d1, *d2; };
struct Form { const char *id; const reflectorStatic *(*get)(); const char *cls; bool names, ext; std::vector<FmMem> m; std::vector<size_t> where; bool bits; size_t size; };  // where: offsets (bits for bit fields)
inline const std::vector<Form> &forms() {
#define O(c, f) offsetof(c, f)
  static const std::vector<Form> v{
      {"no flags", &GetReflectedClass<Fm0>, nullptr, false, false, {{"a", 0, "", ""}, {"b", 0, "", ""}, {"c", 0, "", ""}}, {O(Fm0, a), O(Fm0, b), O(Fm0, c)}, false, sizeof(Fm0)},
      {"VARNAMES", &GetReflectedClass<Fm1>, "Fm1", true, false, {{"one", 0, "", ""}, {"two", 0, "", ""}, {"three", 0, "", ""}, {"four", 0, "", ""}}, {O(Fm1, one), O(Fm1, two), O(Fm1, three), O(Fm1, four)}, false, sizeof(Fm1)},
      {"EXTENDED", &GetReflectedClass<Fm2>, "Fm2", true, true, {{"x", "x_alias", "", ""}, {"y", 0, "Y is", "km"}, {"z", "zed", "Z without unit", ""}, {"w", 0, "", ""}, {"v", 0, "", ""}, {"q", 0, "100", "% sure"}, {"e", 0, "", ""}, {"p", "pee", "", "unit only"}, {"fl", 0, "Flags 'n' <stuff> \"q\"", ""}, {"in", "inner", "", ""}}, {O(Fm2, x), O(Fm2, y), O(Fm2, z), O(Fm2, w), O(Fm2, v), O(Fm2, q), O(Fm2, e), O(Fm2, p), O(Fm2, fl), O(Fm2, in)}, false, sizeof(Fm2)},
      {"TEMPLATE", &GetReflectedClass<FmT<int32, float>>, nullptr, false, false, {{"item0", 0, "", ""}, {"item1", 0, "", ""}}, {0, 4}, false, 8},
      {"TEMPLATE VARNAMES", &GetReflectedClass<FmT<uint8, double>>, "FmT<uint8, double>", true, false, {{"item0", 0, "", ""}, {"item1", 0, "", ""}}, {0, 8}, false, 16},
      {"VARNAMES TEMPLATE", &GetReflectedClass<FmT<int64, int8>>, "FmT<int64, int8>", true, false, {{"item0", 0, "", ""}, {"item1", 0, "", ""}}, {0, 8}, false, 16},
      {"TEMPLATE EXTENDED", &GetReflectedClass<FmT<bool, uint16>>, "FmT<bool, uint16>", true, true, {{"item0", "first_item", "", ""}, {"item1", "second", "Second is", "items"}}, {0, 2}, false, 4},
      {"EXTENDED TEMPLATE", &GetReflectedClass<FmT<FxW, std::string>>, "FmT<FxW, std::string>", true, true, {{"item0", 0, "Enumerated", ""}, {"item1", 0, "", ""}}, {0, 8}, false, 40},
      {"BITFIELD VARNAMES", &GetReflectedClass<FmB1>, "FmB1", true, false, {{"fmb0", 0, "", ""}, {"fmb1", 0, "", ""}, {"fmb2", 0, "", ""}, {"fmb3", 0, "", ""}}, {0, 4, 13, 16}, true, 4},
      {"BITFIELD EXTENDED", &GetReflectedClass<FmB2>, "FmB2", true, true, {{"fmc0", "bit_zero", "", ""}, {"fmc1", 0, "Bits", "b"}, {"fmc2", "bit_two", "Two", ""}, {"fmc3", 0, "", ""}}, {0, 4, 13, 16}, true, 8},
      {"BITFIELD no flags", &GetReflectedClass<FmB3>, nullptr, false, false, {{"fmd0", 0, "", ""}, {"fmd1", 0, "", ""}}, {0, 7}, true, 2},
      {"BITFIELD reordered", &GetReflectedClass<FmB4>, "FmB4", true, false, {{"fme2", 0, "", ""}, {"fme0", 0, "", ""}, {"fme3", 0, "", ""}}, {5, 0, 8}, true, 2},
      {"one member", &GetReflectedClass<Fm3>, "Fm3", true, false, {{"only", 0, "", ""}}, {0}, false, 1},
      {"nested", &GetReflectedClass<Fm4>, "Fm4", true, true, {{"a", "aa", "Inner a", ""}, {"b", 0, "Inner b", ""}, {"c", 0, "", ""}, {"d", "dd", "", ""}, {"e", 0, "", ""}, {"f", 0, "F bits", ""}}, {O(Fm4, a), O(Fm4, b), O(Fm4, c), O(Fm4, d), O(Fm4, e), O(Fm4, f)}, false, sizeof(Fm4)},
      {"many members", &GetReflectedClass<Fm5>, "Fm5", true, false, [] { std::vector<FmMem> r; for (const char *s : {"z", "y", "x", "w", "v", "u", "t", "s", "r", "q", "p", "o", "n", "l", "k", "j", "i", "h", "g", "f", "e", "d", "c", "b", "a", "aa", "ab", "ac", "ad", "ae", "af", "ag", "ah", "ai", "aj", "ak", "al", "m"}) r.push_back({s, 0, "", ""}); return r; }(), [] { std::vector<size_t> r; for (int i = 24; i >= 0; i--) r.push_back(80 + size_t(i) * 4); for (size_t i = 25; i < 37; i++) r.push_back(80 + i * 4); r.push_back(0); return r; }(), false, sizeof(Fm5)},
  };
#undef O
  return v;
}
inline void formsRegister() { RegisterReflectedTypes<FxA, FxW, FxF, FxIn, FmB1, FmB2, FmB3, FmB4, Fm1, Fm3, FmE0, FmE1, FmE2, FmE3, FmE4>(); }
struct FormEnum { const char *name; ReflectedEnum (*get)(); std::vector<EV> v; };
inline const std::vector<FormEnum> &formEnums() {
  static const std::vector<FormEnum> v{{"FmE0", &GetReflectedEnum<FmE0>, {{"FmE0_a", 0}, {"FmE0_b", 1}, {"FmE0_c", 2}}}, {"FmE1", &GetReflectedEnum<FmE1>, {{"Sole", 0}}}, {"FmE2", &GetReflectedEnum<FmE2>, {{"Small", 0}, {"Large", 0xfedcba9876543210ULL}, {"Larger", 0xfedcba9876543211ULL}}}, {"FmE3", &GetReflectedEnum<FmE3>, {{"Neg", uint32_t(-3)}, {"Zero", 0}, {"A_rather_long_enumerator_name_that_does_not_fit_anywhere", 17}}}, {"FmE4", &GetReflectedEnum<FmE4>, {{"FmE4_x", 250}, {"FmE4_y", 251}}}, {"FxA", &GetReflectedEnum<FxA>, fxEnum("FxA")}, {"FxG", &GetReflectedEnum<FxG>, fxEnum("FxG")}};
  return v;
}
