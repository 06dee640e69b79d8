// VARIANT: opt -O2
// VARIANT: ubsan -O1 -fsanitize=undefined -fno-sanitize=shift-base -fno-sanitize-recover=undefined
// RULE: state = distinct (storage type, flag set value); transition = one real flag operation; trace = one operation compared with the mathematical set and checked for changes outside the storage
#include "mc.hpp"
#include "datas/flags.hpp"
#include <type_traits>
typedef unsigned long long ull;
enum class E8 : uint8 { A, B, C, D, E, F, G, H };
enum class E16 : uint16 { A }; enum class E32 : uint32 { A }; enum class E64 : uint64 { A };
enum EOld : uint32 { OLD_A };
template <class E> static E en(int i) { return static_cast<E>(i); }
template <class E, class S> struct Box { uint64_t g0 = 0x5c5c5c5c5c5c5c5cULL; es::Flags<E, S> f; uint64_t g1 = 0xa3a3a3a3a3a3a3a3ULL; bool ok() const { return g0 == 0x5c5c5c5c5c5c5c5cULL && g1 == 0xa3a3a3a3a3a3a3a3ULL; } };
template <class E, class S> struct T {
  typedef es::Flags<E, S> F;
  typedef typename std::make_unsigned<S>::type U;
  static constexpr int N = sizeof(S) * 8;
  static ull val(const F &f) { return static_cast<U>(static_cast<S>(f)); }
  static ull all() { return static_cast<U>(~U(0)); }
  static void state(ull s, bool every) {
    static_assert(sizeof(F) == sizeof(S), "storage");
    mc::at("%s storage %zu bytes, set %llx", __PRETTY_FUNCTION__, sizeof(S), s);
    mc::state(mc::mix(s * 131 + sizeof(S) * 7 + sizeof(E) + std::is_signed<S>::value * 1000));
    for (int i = 0; i < N; i++) {
      const ull bit = 1ULL << i;
      const bool in = s >> i & 1;
      for (int op = 0; op < 5; op++) {
        Box<E, S> b;
        b.f = static_cast<S>(s);
        ull want = op == 0 || op == 2 ? s | bit : op == 1 || op == 3 ? s & ~bit : s;
        switch (op) {
        case 0: { F &r = b.f += en<E>(i); if (&r != &b.f) mc::fail("chain", "+= does not refer to the set"); break; }
        case 1: { F &r = b.f -= en<E>(i); if (&r != &b.f) mc::fail("chain", "-= does not refer to the set"); break; }
        case 2: b.f.Set(en<E>(i), true); break;
        case 3: b.f.Set(en<E>(i), false); break;
        case 4: {
          const F &c = b.f;
          if (c[en<E>(i)] != in || (c == en<E>(i)) != in || (c != en<E>(i)) == in) mc::fail("test", "%d-bit set %llx member %d reported %d", N, s, i, c[en<E>(i)]);
          break;
        }
        }
        if (val(b.f) != want) mc::fail("operation " + std::to_string(op), "%d-bit set %llx op %d member %d gives %llx expected %llx", N, s, op, i, val(b.f), want);
        if (!b.ok()) mc::fail("frame", "%d-bit set %llx op %d member %d changed neighbouring memory", N, s, op, i);
        F o; o = static_cast<S>(want);
        F p; p = static_cast<S>(s);
        if (!(o == b.f) || (o != b.f) || (b.f == p) != (want == s) || (b.f != p) != (want != s)) mc::fail("compare", "%d-bit sets %llx and %llx", N, s, want);
        // combination of an existing set and more members
        if (op == 0) {
          F k(p, en<E>(i)); F k2(p, en<E>(i), en<E>(0)); F cp(p);
          if (val(k) != want || val(k2) != (want | 1) || val(cp) != s || val(p) != s) mc::fail("combine", "%d-bit set %llx with member %d: %llx %llx", N, s, i, val(k), val(k2));
        }
        mc::step(4); mc::trace();
      }
    }
    (void)every;
  }
  static void small() { // complete state graph
    for (ull s = 0; s <= all(); s++) if (mc::mine(s)) state(s, true);
    F z; if (val(z)) mc::fail("empty", "fresh set is not empty");
  }
  static void allPairs() { // complete comparison relation (8 bit)
    for (int a = 0; a < 256; a++) for (int b = 0; b < 256; b++) {
      F x, y; x = S(a); y = S(b);
      if ((x == y) != (a == b) || (x != y) != (a != b)) mc::fail("compare all", "%x %x", a, b);
      mc::step(2); mc::trace();
    }
  }
  static void wide(int maxM) {
    uint64_t n = 0;
    auto go = [&](ull s) { if (mc::mine(n++)) { state(s, false); state(~s & all(), false); } };
    go(0);
    for (int i = 0; i < N; i++) { go(1ULL << i); for (int j = 0; j < i; j++) { go(1ULL << i | 1ULL << j); if (maxM > 2) for (int k = 0; k < j; k++) go(1ULL << i | 1ULL << j | 1ULL << k); } go((1ULL << i) - 1); }
    F z; if (val(z)) mc::fail("empty", "fresh set is not empty");
  }
  static void ctors() { // all lists of up to 3 members (with repetition)
    for (int i = 0; i < N; i++) {
      F a(en<E>(i));
      if (val(a) != 1ULL << i) mc::fail("construct 1", "%d-bit: member %d gives %llx", N, i, val(a));
      for (int j = 0; j < N; j++) {
        F b(en<E>(i), en<E>(j));
        if (val(b) != (1ULL << i | 1ULL << j)) mc::fail("construct 2", "%d-bit: members %d %d give %llx", N, i, j, val(b));
        for (int k = 0; k < N; k++) {
          F c(en<E>(i), en<E>(j), en<E>(k)), d; F &r = (d += en<E>(i)) += en<E>(j); r += en<E>(k);
          if (val(c) != (1ULL << i | 1ULL << j | 1ULL << k) || !(c == d)) mc::fail("construct 3", "%d-bit: members %d %d %d give %llx", N, i, j, k, val(c));
          F e(c); e -= en<E>(i);
          if (val(e) != (val(c) & ~(1ULL << i))) mc::fail("remove", "%d-bit: removing %d", N, i);
          mc::step(6); mc::trace();
        }
      }
    }
  }
};
MC_SECTION("small", 8) {
  T<E8, uint8>::small(); T<E16, uint8>::small(); T<E8, int8>::small();
  if (mc::thorough()) { T<E16, uint16>::small(); T<E8, int16>::small(); }
  else { T<E16, uint16>::wide(3); T<E8, int16>::wide(3); }
  if (mc::shard() == 0) T<E8, uint8>::allPairs();
}
MC_SECTION("wide", 8) {
  int m = mc::thorough() ? 3 : 2;
  T<E32, uint32>::wide(3); T<EOld, uint32>::wide(2); T<E8, uint32>::wide(m); T<E8, int32>::wide(m); T<E64, uint64>::wide(m); T<E8, uint64>::wide(m); T<E8, int64>::wide(m); T<E64, uint32>::wide(m);
}
// packs of every length up to eight: the union of exactly the named flags, whatever their order
MC_SECTION("long packs", 1) {
  typedef es::Flags<E8, uint8> F; const E8 all[8] = {E8(0), E8(1), E8(2), E8(3), E8(4), E8(5), E8(6), E8(7)};
  auto mask = [](const F &f) { return unsigned(static_cast<uint8>(f)); };
  for (int rot = 0; rot < 8; rot++) for (int dir = 1; dir < 8; dir += 2) {
    E8 e[8]; unsigned u[9] = {}; for (int i = 0; i < 8; i++) { e[i] = all[(rot + i * dir) & 7]; u[i + 1] = u[i] | 1u << int(e[i]); }
    auto chk = [&](unsigned n, const F &f) { mc::step(); mc::trace(); mc::state(mc::mix(u[n] * 16 + n)); if (mask(f) != u[n]) mc::fail("pack of " + std::to_string(n), "start %d step %d: %x expected %x", rot, dir, mask(f), u[n]); };
    chk(1, F(e[0])); chk(2, F(e[0], e[1])); chk(3, F(e[0], e[1], e[2])); chk(4, F(e[0], e[1], e[2], e[3])); chk(5, F(e[0], e[1], e[2], e[3], e[4])); chk(6, F(e[0], e[1], e[2], e[3], e[4], e[5])); chk(7, F(e[0], e[1], e[2], e[3], e[4], e[5], e[6])); chk(8, F(e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7]));
  }
}
MC_SECTION("constructors", 1) {
  T<E8, uint8>::ctors(); T<E16, uint16>::ctors(); T<E32, uint32>::ctors(); T<E64, uint64>::ctors(); T<E8, uint64>::ctors(); T<E8, int64>::ctors(); T<EOld, uint32>::ctors();
  // default storage follows the enumeration
  static_assert(std::is_same<es::Flags<E8>::ValueType, uint8>::value && sizeof(es::Flags<E64>) == 8 && sizeof(es::Flags<E32>) == 4, "");
  es::Flags<E8> f(E8::A, E8::H);
  if (static_cast<uint8>(f) != 0x81) mc::fail("default storage", "%x", static_cast<uint8>(f));
  mc::sample("Flags<E8>(A,H) stores %x", static_cast<uint8>(f));
}
