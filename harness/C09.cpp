// VARIANT: s8 -O1 -DBL_T=uint8
// VARIANT: s16 -O1 -DBL_T=uint16
// VARIANT: s32 -O1 -DBL_T=uint32
// VARIANT: s64 -O1 -DBL_T=uint64
// VARIANT: wide -O2 -DBL_WIDE
// RULE: state = distinct (layout, storage value); transition = one real byte-order conversion; trace = one in/out conversion pair (and stream transfer) compared member by member with the reference re-packing
// ASSUME: the other byte order allocates members from the most significant bit of the big-endian storage downwards (what the library declares for mirrored layouts)
#include "mc.hpp"
#define BL_SWAP
#include "bitlayouts.hpp"
#include "datas/binreader_stream.hpp"
#include "datas/binwritter_stream.hpp"
#include <sstream>
typedef unsigned long long ull;
// foreign image of a member list: big endian storage, first member at the top
static uint64_t foreign(const Table &t, uint64_t local) {
  const int bits = t.bytes * 8;
  uint64_t be = 0, r = 0;
  for (auto &x : t.m) be |= ((local >> x.pos) & maskOf(x.size)) << (bits - x.pos - x.size);
  for (int i = 0; i < t.bytes; i++) r |= (be >> (8 * i) & 255) << (bits - 8 - 8 * i);
  return r;
}
static uint64_t declared(const Table &t) { uint64_t d = 0; for (auto &x : t.m) d |= maskOf(x.size) << x.pos; return d; }
static void one(const Table &t, uint64_t s) {
  uint64_t local = s & declared(t), f = foreign(t, local);
  alignas(8) unsigned char b[24];
  auto conv = [&](bool out, uint64_t from) { memset(b, 0x5c, 24); t.store(b + 8, from); (out ? t.swapOut : t.swapIn)(b + 8); for (int k = 0; k < 24; k++) if ((k < 8 || k >= 8 + t.bytes) && b[k] != 0x5c) mc::fail("frame", "conversion changed bytes outside the %d-bit store", t.bytes * 8); mc::step(); return t.load(b + 8); };
  uint64_t g = conv(true, s);
  if (g != f) mc::fail("outgoing", "%d-bit store %llx: outgoing form %llx expected %llx", t.bytes * 8, (ull)s, (ull)g, (ull)f);
  g = conv(false, f);
  if (g != local) mc::fail("incoming", "%d-bit store: foreign %llx gives %llx expected %llx", t.bytes * 8, (ull)f, (ull)g, (ull)local);
  for (size_t k = 0; k < t.m.size(); k++)
    if (t.get[k](b + 8) != ((local >> t.m[k].pos) & maskOf(t.m[k].size))) mc::fail("member", "%d-bit store %llx: member %zu after incoming conversion", t.bytes * 8, (ull)s, k);
  if ((g = conv(false, conv(true, s))) != local) mc::fail("out then in", "%d-bit store %llx: %llx", t.bytes * 8, (ull)s, (ull)g);
  uint64_t f2 = conv(false, s); // any foreign image: its declared bits come back
  if (foreign(t, f2) != conv(true, f2)) mc::fail("in then out", "%d-bit store %llx", t.bytes * 8, (ull)s);
  mc::trace();
}
template <class BT> __attribute__((noinline)) static void viaStream(const Table &t, uint64_t s, BT *) {
  std::stringstream ss;
  BinWritterRef wr(ss); BinReaderRef rd(ss);
  wr.SwapEndian(true); rd.SwapEndian(true);
  BT w; t.store(&w, s);
  const BT &cw = w;
  wr.Write(cw);
  std::vector<BT> v(2, w);
  wr.WriteContainer(v);
  if (t.load(&w) != s || t.load(&v[0]) != s) mc::fail("stream modifies", "writing changed the object");
  uint64_t f = foreign(t, s & declared(t));
  if (t.bytes > 1 && memcmp(ss.str().data(), &f, t.bytes)) mc::fail("stream image", "%d-bit store %llx: wrote %s", t.bytes * 8, (ull)s, mc::hex(ss.str()).c_str());
  BT r; t.store(&r, 0); std::vector<BT> q;
  rd.Read(r); rd.ReadContainer(q, 2);
  for (size_t k = 0; k < t.m.size(); k++)
    if (t.get[k](&r) != t.get[k](&w) || t.get[k](&q[0]) != t.get[k](&w) || t.get[k](&q[1]) != t.get[k](&w)) mc::fail("stream", "%d-bit store %llx: member %zu differs after transfer", t.bytes * 8, (ull)s, k);
  mc::step(4); mc::trace();
}
struct F8 {
  int id = 0;
  template <class BT> void operator()(const Table &t, BT *) { go(t); }
  void go(const Table &t) {
    if (!mc::mine(id++)) return;
    mc::at("layout %d in %d-bit store", id, t.bytes * 8);
    for (int s = 0; s < 256; s++) { one(t, s); if (t.bytes > 1) one(t, (s | (~0ull << 8)) & maskOf(t.bytes * 8)); }
    mc::addStates(256);
  }
};
#ifdef BL_T
MC_SECTION("all layouts of 8 bits", 8) { F8 f; comps<BL_T>(f); mc::sample("127 layouts in a %zu-bit store x 256 storage values", sizeof(BL_T) * 8); }
#else
struct W {
  int id = 0;
  template <class BT> void operator()(const Table &t, BT *b) {
    if (!mc::mine(id++)) return;
    go(t);
    for (uint64_t s : wideValues(t.bytes)) viaStream(t, s, b);
  }
  void go(const Table &t) {
    mc::at("wide layout %d of %d-bit store", id, t.bytes * 8);
    if (t.bytes == 2) { for (int s = 0; s < 65536; s++) one(t, s); mc::addStates(65536); return; }
    auto v = wideValues(t.bytes);
    for (uint64_t a : v) { for (uint64_t b : v) one(t, a ^ b); mc::state(mc::mix(a + id * 3571)); }
  }
};
MC_SECTION("wide layouts", 8) { W f; wideLayouts(f); }
#endif
