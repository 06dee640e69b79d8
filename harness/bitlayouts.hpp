// bit-field layouts as types, with run-time member tables (shared by C08 and C09)
#pragma once
#include "datas/bitfield.hpp"
#include "datas/endian.hpp"
#include <cstring>
#include <vector>
struct Member { int pos, size; };
struct Table { // type erased accessors of one layout
  int bytes = 0; size_t objSize = 0;
  std::vector<Member> m;
  std::vector<uint64_t (*)(const void *)> get;
  std::vector<void (*)(void *, uint64_t)> set;
  void (*swapIn)(void *) = nullptr, (*swapOut)(void *) = nullptr;
  uint64_t load(const void *p) const { uint64_t v = 0; memcpy(&v, p, bytes); return v; }
  void store(void *p, uint64_t v) const { memcpy(p, &v, bytes); }
};
template <class BT, class D> __attribute__((noinline)) uint64_t getM(const void *b) { return static_cast<const BT *>(b)->template Get<D>(); }
template <class BT, class D> __attribute__((noinline)) void setM(void *b, uint64_t v) { static_cast<BT *>(b)->template Set<D>(typename BT::value_type(v)); }
template <class BT> __attribute__((noinline)) void swI(void *b) { FByteswapper(*static_cast<BT *>(b)); }
template <class BT> __attribute__((noinline)) void swO(void *b) { FByteswapper(*static_cast<BT *>(b), true); }
template <class T, class... Ms> Table table() {
  using BT = BitFieldType<T, Ms...>;
  Table t;
  t.bytes = sizeof(T); t.objSize = sizeof(BT);
#ifdef BL_SWAP
  t.swapIn = &swI<BT>; t.swapOut = &swO<BT>;
#endif
  const Member ms[] = {{0, int(Ms::size)}...};
  uint64_t (*const gs[])(const void *) = {&getM<BT, Ms>...};
  void (*const st[])(void *, uint64_t) = {&setM<BT, Ms>...};
  int pos = 0;
  for (size_t i = 0; i < sizeof...(Ms); i++) { t.m.push_back({pos, ms[i].size}); pos += ms[i].size; t.get.push_back(gs[i]); t.set.push_back(st[i]); }
  return t;
}
template <class... Ms> struct List {};
// composition of 8 bits: bit i of M set = a cut after bit i
template <int M, int pos, int len, int idx, class L> struct Comp;
template <int M, int pos, int len, int idx, class... Ms> struct Comp<M, pos, len, idx, List<Ms...>> {
  static constexpr bool cut = pos == 7 || ((M >> pos) & 1);
  template <bool c, int dummy> struct Next { using type = typename Comp<M, pos + 1, 1, idx + 1, List<Ms..., BitMemberDecl<idx, len>>>::type; };
  template <int dummy> struct Next<false, dummy> { using type = typename Comp<M, pos + 1, len + 1, idx, List<Ms...>>::type; };
  using type = typename Next<cut, 0>::type;
};
template <int M, int len, int idx, class... Ms> struct Comp<M, 8, len, idx, List<Ms...>> { using type = List<Ms...>; };
template <int M> using Comp8 = typename Comp<M, 0, 1, 0, List<>>::type;
// explicit sizes
template <int idx, class L, int... S> struct Sz;
template <int idx, class... Ms> struct Sz<idx, List<Ms...>> { using type = List<Ms...>; };
template <int idx, class... Ms, int s, int... rest> struct Sz<idx, List<Ms...>, s, rest...> { using type = typename Sz<idx + 1, List<Ms..., BitMemberDecl<idx, s>>, rest...>::type; };
template <int... S> using Sizes = typename Sz<0, List<>, S...>::type;

template <class T, class F, class... Ms> void callLayout(F &f, List<Ms...>) { f(table<T, Ms...>(), (BitFieldType<T, Ms...> *)nullptr); }
template <class T, class F, int... M> void allComps(F &f, std::integer_sequence<int, M...>) {
  int dummy[] = {(callLayout<T>(f, Comp8<M + 1>()), 0)...};
  (void)dummy;
}
template <class T, class F> void comps(F &f) { allComps<T>(f, std::make_integer_sequence<int, 127>()); }
template <class T, class L, class F> void layout(F &f) { callLayout<T>(f, L()); }
template <class F> void wideLayouts(F &f) {
  layout<uint16, Sizes<2, 5, 3, 1, 2, 3>>(f); layout<uint16, Sizes<1, 15>>(f); layout<uint16, Sizes<15, 1>>(f); layout<uint16, Sizes<7, 2, 7>>(f); layout<uint16, Sizes<3, 3>>(f); layout<uint16, Sizes<5, 6, 5>>(f); layout<uint16, Sizes<4, 4, 4, 4>>(f); layout<uint16, Sizes<8, 8>>(f); layout<uint16, Sizes<9, 7>>(f);
  layout<uint32, Sizes<10, 11, 11>>(f); layout<uint32, Sizes<2, 10, 10, 10>>(f); layout<uint32, Sizes<1, 31>>(f); layout<uint32, Sizes<31, 1>>(f); layout<uint32, Sizes<8, 8, 8, 8>>(f); layout<uint32, Sizes<1, 1, 1, 29>>(f); layout<uint32, Sizes<16, 16>>(f); layout<uint32, Sizes<5, 20>>(f); layout<uint32, Sizes<24, 8>>(f); layout<uint32, Sizes<4, 2, 4, 4, 4, 4, 4, 4, 2>>(f); layout<uint32, Sizes<17, 15>>(f);
  layout<uint64, Sizes<32, 32>>(f); layout<uint64, Sizes<1, 63>>(f); layout<uint64, Sizes<63, 1>>(f); layout<uint64, Sizes<1, 62, 1>>(f); layout<uint64, Sizes<33, 31>>(f); layout<uint64, Sizes<31, 33>>(f); layout<uint64, Sizes<20, 20, 20>>(f); layout<uint64, Sizes<8, 8, 8, 8, 8, 8, 8, 8>>(f); layout<uint64, Sizes<16, 16, 16, 16>>(f); layout<uint64, Sizes<3, 5, 30>>(f); layout<uint64, Sizes<10, 40, 7, 7>>(f); layout<uint64, Sizes<48, 16>>(f); layout<uint64, Sizes<2, 31, 31>>(f); layout<uint64, Sizes<1, 1, 30, 31, 1>>(f);
}
inline std::vector<uint64_t> wideValues(int bytes) {
  int bits = bytes * 8;
  std::vector<uint64_t> r{0, ~0ull, 0x5555555555555555ull, 0xaaaaaaaaaaaaaaaaull, 0x0123456789abcdefull, 0xfedcba9876543210ull, 0xf0f0f0f00f0f0f0full};
  for (int i = 0; i < bits; i++) { r.push_back(1ull << i); r.push_back(~(1ull << i)); r.push_back((1ull << i) - 1); }
  if (bits < 64) for (auto &v : r) v &= (1ull << bits) - 1;
  return r;
}
inline uint64_t maskOf(int size) { return size >= 64 ? ~0ull : (1ull << size) - 1; }
