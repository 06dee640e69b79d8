// VARIANT: opt -O2
// VARIANT: asan -O1 -fsanitize=address
// VARIANT: o3 -O3
// RULE: state = distinct (type, byte pattern); transition = one real swap/write/read call; trace = one swap, swap back, swapped write and swapped read compared with the byte reversal model
// ASSUME: byte order reversal moves bytes independent of their value; patterns identify each byte of each element
#include "mc.hpp"
#include "datas/binreader_stream.hpp"
#include "datas/binwritter_stream.hpp"
#include "datas/flags.hpp"
#include "datas/float.hpp"
#include "datas/matrix44.hpp"
#include "datas/vectors.hpp"
#include "datas/vectors_simd.hpp"
#include <memory>
#include <sstream>
typedef std::string S;
enum class E8 : uint8 { A }; enum class E16 : uint16 { A }; enum class E32 : uint32 { A }; enum class E64 : uint64 { A };
enum EOld : uint32 { OLD };
struct Nested { uint32 a; uint16 c; uint16 d; uint64 e; uint32 arr[2]; void SwapEndian() { FByteswapper(a); FByteswapper(c); FByteswapper(d); FByteswapper(e); FByteswapper(arr); } };
struct Outer { Nested n[2]; uint64 v; void SwapEndian() { FByteswapper(n); FByteswapper(v); } };
struct WayAware { uint32 v; bool w; bool pad[3]; void SwapEndian(bool way) { FByteswapper(v); w = way; } };
// layout: list of scalar sizes in order
typedef std::vector<int> Lay;
static Lay rep(int n, int sz) { return Lay(n, sz); }
static Lay operator+(Lay a, const Lay &b) { a.insert(a.end(), b.begin(), b.end()); return a; }
static S model(const S &b, const Lay &l) {
  S r; size_t p = 0;
  for (int s : l) { S x = b.substr(p, s); r += S(x.rbegin(), x.rend()); p += s; }
  return r;
}
static std::vector<S> patterns(size_t n, bool flt) {
  std::vector<S> r;
  S p(n, 0);
  for (size_t i = 0; i < n; i++) p[i] = char(i + 1);
  r.push_back(p);
  for (size_t i = 0; i < n; i++) p[i] = char(0xf0 - i);
  r.push_back(p);
  r.push_back(S(n, 0)); r.push_back(S(n, char(0xff)));
  if (flt) { r.pop_back(); }
  for (size_t i = 0; i < n * 8; i++) { S q(n, 0); q[i / 8] = char(1 << (i % 8)); r.push_back(q); q = S(n, char(0xff)); q[i / 8] = char(~(1 << (i % 8))); if (!flt) r.push_back(q); }
  return r;
}
template <class T> static void type(const char *name, const Lay &lay, bool streams = true, bool flt = false) {
  static_assert(!std::is_polymorphic<T>::value, "");
  size_t n = 0; for (int s : lay) n += s;
  if (n != sizeof(T)) mc::fail(S("layout/") + name, "size of %s is %zu, expected %zu", name, sizeof(T), n);
  for (auto &p : patterns(sizeof(T), flt)) {
    mc::at("type %s pattern %s", name, mc::hex(p).c_str());
    struct alignas(16) { char guard0[16]; char t[sizeof(T)]; char guard1[16]; } b;
    memset(&b, 0x5c, sizeof b);
    memcpy(b.t, p.data(), sizeof(T));
    T &t = *reinterpret_cast<T *>(b.t);
    FByteswapper(t);
    S m = model(p, lay);
    if (memcmp(b.t, m.data(), m.size())) mc::fail(S("swap/") + name, "%s: %s became %s expected %s", name, mc::hex(p).c_str(), mc::hex(b.t, sizeof(T)).c_str(), mc::hex(m).c_str());
    for (int i = 0; i < 16; i++) if (b.guard0[i] != 0x5c || b.guard1[i] != 0x5c) mc::fail(S("swap frame/") + name, "%s: neighbouring bytes changed", name);
    FByteswapper(t, true);
    if (memcmp(b.t, p.data(), p.size())) mc::fail(S("involution/") + name, "%s: swapping twice gives %s from %s", name, mc::hex(b.t, sizeof(T)).c_str(), mc::hex(p).c_str());
    mc::step(2);
    if (streams) {
      std::stringstream ss, sp;
      BinWritterRef wr(ss), wp(sp);
      wr.SwapEndian(true);
      const T &c = t;
      wr.Write(c); wp.Write(c);
      if (ss.str() != m) mc::fail(S("swapped write/") + name, "%s: wrote %s expected %s", name, mc::hex(ss.str()).c_str(), mc::hex(m).c_str());
      if (sp.str() != p) mc::fail(S("plain write/") + name, "%s: wrote %s expected %s", name, mc::hex(sp.str()).c_str(), mc::hex(p).c_str());
      if (memcmp(b.t, p.data(), p.size())) mc::fail(S("writer modifies/") + name, "%s: object changed by writing", name);
      struct alignas(16) { char t[sizeof(T)]; } r1, r2;
      memset(&r1, 0, sizeof r1); memset(&r2, 0, sizeof r2);
      BinReaderRef rd(ss), rp(sp);
      rd.SwapEndian(true);
      rd.Read(*reinterpret_cast<T *>(r1.t)); rp.Read(*reinterpret_cast<T *>(r2.t));
      if (memcmp(r1.t, p.data(), p.size())) mc::fail(S("swapped read/") + name, "%s: read %s expected %s", name, mc::hex(r1.t, sizeof(T)).c_str(), mc::hex(p).c_str());
      if (memcmp(r2.t, p.data(), p.size())) mc::fail(S("plain read/") + name, "%s: read %s expected %s", name, mc::hex(r2.t, sizeof(T)).c_str(), mc::hex(p).c_str());
      mc::step(4);
    }
    mc::state(S(name) + p);
    mc::trace();
  }
}
template <class T, int N> static void arr(const char *name, const Lay &one, bool flt = false) {
  Lay l; for (int i = 0; i < N; i++) l = l + one;
  struct A { T a[N]; };
  for (auto &p : patterns(sizeof(T) * N, flt)) {
    mc::at("array %s[%d] %s", name, N, mc::hex(p).c_str());
    struct alignas(16) { T a[N]; char guard[16]; } b;
    memset((void *)&b, 0x5c, sizeof b);
    memcpy((void *)b.a, p.data(), p.size());
    S m = model(p, l);
    FByteswapper(b.a);
    if (memcmp(b.a, m.data(), m.size())) mc::fail(S("array swap/") + name, "%s[%d]: %s expected %s", name, N, mc::hex(b.a, sizeof b.a).c_str(), mc::hex(m).c_str());
    for (char c : b.guard) if (c != 0x5c) mc::fail(S("array frame/") + name, "%s[%d]: bytes after the array changed", name, N);
    FByteswapper(b.a, true);
    if (memcmp(b.a, p.data(), p.size())) mc::fail(S("array involution/") + name, "%s[%d]", name, N);
    std::stringstream ss;
    BinWritterRef wr(ss);
    wr.SwapEndian(true);
    wr.Write(b.a);
    if (ss.str() != m) mc::fail(S("array write/") + name, "%s[%d]: %s expected %s", name, N, mc::hex(ss.str()).c_str(), mc::hex(m).c_str());
    if (memcmp(b.a, p.data(), p.size())) mc::fail(S("array write modifies/") + name, "%s[%d]", name, N);
    std::vector<T> v(b.a, b.a + N), w;
    wr.WriteContainer(v);
    if (ss.str() != m + m) mc::fail(S("vector write/") + name, "%s x%d: %s expected %s", name, N, mc::hex(ss.str().substr(m.size())).c_str(), mc::hex(m).c_str());
    if (memcmp(v.data(), p.data(), p.size())) mc::fail(S("vector write modifies/") + name, "%s", name);
    BinReaderRef rd(ss);
    rd.SwapEndian(true);
    memset((void *)b.a, 0, sizeof b.a);
    rd.Read(b.a);
    if (memcmp(b.a, p.data(), p.size())) mc::fail(S("array read/") + name, "%s[%d]: %s expected %s", name, N, mc::hex(b.a, sizeof b.a).c_str(), mc::hex(p).c_str());
    rd.ReadContainer(w, N);
    if (w.size() != N || memcmp(w.data(), p.data(), p.size())) mc::fail(S("vector read/") + name, "%s x%d", name, N);
    mc::step(6); mc::state(S(name) + char(N) + p); mc::trace();
  }
}
template <class E> static void farr(const char *name, size_t) {
  struct Blob { char b[24]; };
  for (auto &p : patterns(24, false)) {
    mc::at("element-wise %s", name);
    struct alignas(16) { Blob x; char g[8]; } b;
    memset(&b, 0x5c, sizeof b);
    memcpy(b.x.b, p.data(), 24);
    FArraySwapper<E>(b.x);
    S m = model(p, rep(24 / sizeof(E), sizeof(E)));
    if (memcmp(b.x.b, m.data(), 24)) mc::fail(S("element swap/") + name, "%s: %s expected %s", name, mc::hex(b.x.b, 24).c_str(), mc::hex(m).c_str());
    for (char c : b.g) if (c != 0x5c) mc::fail(S("element swap frame/") + name, "bytes after changed");
    mc::step(); mc::trace(); mc::state(S("el") + name + p);
  }
}
// arrays, vectors and element-wise blobs around every size at which a counter of fewer bits would wrap
template <class T, size_t N> static void longArr(const char *name, int lanes) {
  const int sz = int(sizeof(T)) / lanes; mc::at("long array %s[%zu]", name, N); mc::beat(); struct alignas(16) B { T a[N]; char guard[16]; }; std::unique_ptr<B> b(new B); memset((void *)b.get(), 0x5c, sizeof(B)); S p(sizeof(T) * N, 0); for (size_t i = 0; i < p.size(); i++) p[i] = char(i * 7 + (i >> 8) * 3 + (i >> 16) + 1); S m(p.size(), 0); for (size_t i = 0; i < p.size(); i++) m[i] = p[i / size_t(sz) * size_t(sz) + size_t(sz) - 1 - i % size_t(sz)];
  auto same = [&](const void *d, const S &w, const char *what) { mc::step(); mc::trace(); mc::state(mc::hashBytes(name, strlen(name), mc::mix(N * 16 + size_t(lanes)))); if (memcmp(d, w.data(), w.size())) { size_t z = 0; while (((const char *)d)[z] == w[z]) z++; mc::fail(S("long ") + what + "/" + name, "%s[%zu]: byte %zu", name, N, z); } for (char c : b->guard) if (c != 0x5c) mc::fail(S("long frame/") + name, "%s[%zu]: bytes after the array changed", name, N); };
  memcpy((void *)b->a, p.data(), p.size()); FByteswapper(b->a); same(b->a, m, "swap"); FByteswapper(b->a, true); same(b->a, p, "involution");
  typedef typename std::conditional<sizeof(T) % 8 == 0, uint64, typename std::conditional<sizeof(T) % 4 == 0, uint32, uint16>::type>::type E; { S q = p; for (size_t i = 0; i + sizeof(E) <= q.size(); i += sizeof(E)) std::reverse(&q[i], &q[i] + sizeof(E)); FArraySwapper<E>(b->a); same(b->a, q, "element swap"); FArraySwapper<E>(b->a); same(b->a, p, "element involution"); struct Blob { T a[N]; }; FArraySwapper<uint16>(reinterpret_cast<Blob &>(b->a)); for (size_t i = 0; i + 2 <= q.size(); i += 2) q[i] = p[i + 1], q[i + 1] = p[i]; same(b->a, q, "16 bit element swap"); memcpy((void *)b->a, p.data(), p.size()); }
  std::stringstream ss; BinWritterRef wr(ss); wr.SwapEndian(true); const B &cb = *b; wr.Write(cb.a); S got = ss.str(); if (got.size() != m.size()) mc::fail(S("long write size/") + name, "%s[%zu]: %zu bytes", name, N, got.size()); else same(got.data(), m, "write"); same(b->a, p, "write modifies"); std::vector<T> v(b->a, b->a + N), w; wr.WriteContainer(v); got = ss.str(); if (got.size() != 2 * m.size()) mc::fail(S("long vector write size/") + name, "%zu elements: %zu bytes", N, got.size()); else same(got.data() + m.size(), m, "vector write"); same(v.data(), p, "vector write modifies");
  BinReaderRef rd(ss); rd.SwapEndian(true); memset((void *)b->a, 0, sizeof b->a); rd.Read(b->a); same(b->a, p, "read"); rd.ReadContainer(w, N); if (w.size() != N) mc::fail(S("long vector read size/") + name, "%zu of %zu elements", w.size(), N); else same(w.data(), p, "vector read");
}
template <size_t N> static void longAll() { longArr<uint16, N>("uint16", 1); longArr<uint32, N>("uint32", 1); longArr<uint64, N>("uint64", 1); longArr<E32, N>("enum32", 1); longArr<t_Vector2<uint16>, N>("Vector2<u16>", 2); longArr<t_Vector4<uint32>, N>("Vector4<u32>", 4); }
#ifdef MC_VARIANT_opt
MC_SECTION("all 16 bit values", 1) {
  for (int i = 0; i < 65536; i++) {
    uint16 v = uint16(i); int16 s = int16(i);
    FByteswapper(v); FByteswapper(s);
    if (v != uint16(i >> 8 | i << 8) || uint16(s) != v) mc::fail("u16", "%x -> %x %x", i, v, s);
  }
  mc::step(131072); mc::trace(131072); mc::addStates(65536);
}
#endif
MC_SECTION("scalars", 1) {
  type<uint16>("uint16", {2}); type<int16>("int16", {2}); type<uint32>("uint32", {4}); type<int32>("int32", {4});
  type<uint64>("uint64", {8}); type<int64>("int64", {8}); type<float>("float", {4}, true, true); type<double>("double", {8}, true, true);
  type<unsigned long>("ulong", {8}); type<long>("long", {8}); type<wchar_t>("wchar_t", {4}); type<char16_t>("char16_t", {2});
  type<E16>("enum16", {2}); type<E32>("enum32", {4}); type<E64>("enum64", {8}); type<EOld>("plain enum", {4});
  type<es::Flags<E8, uint16>>("flags16", {2}); type<es::Flags<E8, uint32>>("flags32", {4}); type<es::Flags<E8, uint64>>("flags64", {8});
}
MC_SECTION("classes", 1) {
  type<Vector2>("Vector2", rep(2, 4), true, true); type<Vector>("Vector", rep(3, 4), true, true); type<Vector4>("Vector4", rep(4, 4), true, true);
  type<t_Vector2<uint16>>("Vector2<u16>", rep(2, 2)); type<t_Vector<uint16>>("Vector3<u16>", rep(3, 2)); type<t_Vector4<uint16>>("Vector4<u16>", rep(4, 2));
  type<t_Vector2<uint8>>("Vector2<u8>", rep(2, 1)); type<t_Vector<uint8>>("Vector3<u8>", rep(3, 1)); type<t_Vector4<uint8>>("Vector4<u8>", rep(4, 1));
  type<t_Vector2<uint64>>("Vector2<u64>", rep(2, 8)); type<t_Vector<int64>>("Vector3<i64>", rep(3, 8)); type<t_Vector4<double>>("Vector4<f64>", rep(4, 8), true, true);
  type<Vector4A16>("Vector4A16", rep(4, 4), true, true); type<IVector4A16>("IVector4A16", rep(4, 4)); type<UIVector4A16>("UIVector4A16", rep(4, 4));
  type<esMatrix44>("matrix44", rep(16, 4), true, true);
  type<Nested>("nested", Lay{4, 2, 2, 8, 4, 4}); type<Outer>("nested twice", Lay{4, 2, 2, 8, 4, 4} + Lay{4, 2, 2, 8, 4, 4} + Lay{8});
}
MC_SECTION("arrays", 1) {
  arr<uint16, 1>("uint16", {2}); arr<uint16, 2>("uint16", {2}); arr<uint16, 3>("uint16", {2}); arr<int16, 5>("int16", {2});
  arr<uint32, 1>("uint32", {4}); arr<uint32, 3>("uint32", {4}); arr<uint64, 2>("uint64", {8}); arr<uint64, 4>("uint64", {8});
  arr<float, 3>("float", {4}, true); arr<double, 2>("double", {8}, true); arr<E32, 2>("enum32", {4}); arr<E16, 7>("enum16", {2});
  arr<Vector, 2>("Vector", rep(3, 4), true); arr<t_Vector2<uint16>, 3>("Vector2<u16>", rep(2, 2)); arr<Nested, 2>("nested", {4, 2, 2, 8, 4, 4});
  farr<uint16>("uint16", 2); farr<uint32>("uint32", 4); farr<uint64>("uint64", 8); farr<int32>("int32", 4);
}
MC_SECTION("long arrays", 1) { longAll<127>(); longAll<128>(); longAll<255>(); longAll<256>(); longAll<257>(); longAll<300>(); longAll<32768>(); longAll<65535>(); longAll<65536>(); longAll<65537>(); longAll<100003>(); }
MC_SECTION("byte sized and way aware", 1) {
  // byte sized data passes swapping streams unchanged
  for (int v = 0; v < 256; v++) {
    mc::at("byte %d", v);
    std::stringstream ss;
    BinWritterRef wr(ss);
    wr.SwapEndian(true);
    uint8 a = uint8(v); int8 b = int8(v); E8 e = E8(v); uint8 ar[3]{uint8(v), 1, 2}; es::Flags<E8, uint8> f; memcpy(&f, &a, 1);
    wr.Write(a); wr.Write(b); wr.Write(e); wr.Write(ar); wr.Write(f); wr.WriteContainer(S(2, char(v)));
    S want; want += char(v); want += char(v); want += char(v); want += char(v); want += "\1\2"; want += char(v); want += char(v); want += char(v);
    if (ss.str() != want) mc::fail("bytes", "byte %d: %s expected %s", v, mc::hex(ss.str()).c_str(), mc::hex(want).c_str());
    BinReaderRef rd(ss);
    rd.SwapEndian(true);
    uint8 a2; int8 b2; E8 e2; uint8 ar2[3]; es::Flags<E8, uint8> f2; S s2;
    rd.Read(a2); rd.Read(b2); rd.Read(e2); rd.Read(ar2); rd.Read(f2); rd.ReadContainer(s2, 2);
    if (a2 != a || b2 != b || e2 != e || memcmp(ar, ar2, 3) || memcmp(&f, &f2, 1) || s2 != S(2, char(v))) mc::fail("bytes read", "byte %d", v);
    mc::step(12); mc::trace(); mc::state(mc::mix(v + 77));
  }
  // the direction argument reaches classes that ask for it: writers ask for the outgoing form, readers for the incoming
  WayAware w{};
  w.v = 0x01020304;
  FByteswapper(w); if (w.v != 0x04030201 || w.w) mc::fail("way", "default direction is incoming");
  FByteswapper(w, true); if (w.v != 0x01020304 || !w.w) mc::fail("way", "outgoing direction not passed");
  WayAware ar[2]{}; ar[0].v = ar[1].v = 0x01020304;
  FByteswapper(ar, true); if (!ar[0].w || !ar[1].w || ar[1].v != 0x04030201) mc::fail("way array", "outgoing direction not passed to array elements");
  std::stringstream ss;
  BinWritterRef wr(ss); wr.SwapEndian(true);
  WayAware k{}; k.v = 0x01020304; wr.Write(k);
  if (ss.str().substr(0, 5) != S("\1\2\3\4\1")) mc::fail("way write", "%s", mc::hex(ss.str()).c_str());
  BinReaderRef rd(ss); rd.SwapEndian(true);
  WayAware q{}; rd.Read(q);
  if (q.v != 0x01020304 || q.w) mc::fail("way read", "direction on read");
  mc::step(6); mc::trace(4); mc::state(S("way"));
}
