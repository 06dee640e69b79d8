// VARIANT: s8 -O1 -DBL_T=uint8
// VARIANT: s16 -O1 -DBL_T=uint16
// VARIANT: s32 -O1 -DBL_T=uint32
// VARIANT: s64 -O1 -DBL_T=uint64
// VARIANT: wide -O2 -DBL_WIDE
// RULE: state = distinct (layout, storage value); transition = one real member set; trace = one set with all members and the storage compared with the bit-vector model
// ASSUME: each set depends only on the storage value it starts from (all storage values are start states), so longer set sequences compose
#include "mc.hpp"
#include "bitlayouts.hpp"
// after set(i, v) from storage s: storage == model, all members read model values
static void setOne(const Table &t, uint64_t s, size_t i, uint64_t v) {
  alignas(8) unsigned char x[24];
  memset(x, 0x5c, sizeof x);
  t.store(x + 8, s);
  t.set[i](x + 8, v);
  uint64_t sm = maskOf(t.bytes * 8), m = maskOf(t.m[i].size) << t.m[i].pos, got = t.load(x + 8);
  uint64_t want = ((s & ~m) | ((v << t.m[i].pos) & m)) & sm;
  bool frame = true;
  for (int k = 0; k < 24; k++) if ((k < 8 || k >= 8 + t.bytes) && x[k] != 0x5c) frame = false;
  if (got != want || !frame)
    mc::fail(frame ? "set" : "frame", "%d-bit store, member %zu (bits %d+%d): storage %llx set %llx gives %llx expected %llx", t.bytes * 8, i, t.m[i].pos, t.m[i].size, (unsigned long long)s, (unsigned long long)v, (unsigned long long)got, (unsigned long long)want);
  for (size_t k = 0; k < t.m.size(); k++) {
    uint64_t g = t.get[k](x + 8), w = (want >> t.m[k].pos) & maskOf(t.m[k].size);
    if (g != w)
      mc::fail(k == i ? "get back" : "sibling", "%d-bit store: after setting member %zu to %llx from storage %llx, member %zu (bits %d+%d) reads %llx expected %llx", t.bytes * 8, i, (unsigned long long)v, (unsigned long long)s, k, t.m[k].pos, t.m[k].size, (unsigned long long)g, (unsigned long long)w);
  }
}
struct Full8 { // every storage value of the low 8 bits, every member, every value (over-wide included)
  int id = 0; uint64_t hi = 0;
  template <class BT> void operator()(const Table &t, BT *) { go(t); }
  void go(const Table &t) {
    if (!mc::mine(id++)) return;
    mc::at("layout %d of 8 bits in %d-bit store", id, t.bytes * 8);
    bool full = mc::thorough() || t.bytes == 1;
    for (int s = 0; s < 256; s++)
      for (size_t i = 0; i < t.m.size(); i++)
        for (int v = 0; v < 256; v += full || s % 17 == 0 ? 1 : 51) {
          setOne(t, uint64_t(s) | hi, i, uint64_t(v));
          mc::step(); mc::trace();
        }
    mc::addStates(256);
  }
};
#ifdef BL_T
MC_SECTION("all layouts of 8 bits", 8) { Full8 f; f.hi = sizeof(BL_T) == 2 ? 0xa500 : sizeof(BL_T) == 4 ? 0x80000100 : sizeof(BL_T) == 8 ? 0x8000000100000100ull : 0; comps<BL_T>(f); mc::sample("127 layouts in a %zu-bit store x 256 storage values", sizeof(BL_T) * 8); }
#else
struct Wide {
  int id = 0;
  template <class BT> void operator()(const Table &t, BT *) { go(t); }
  void go(const Table &t) {
    if (t.objSize != size_t(t.bytes)) mc::fail("object size", "bit-field of a %d byte store is %zu bytes", t.bytes, t.objSize);
    if (!mc::mine(id++)) return;
    auto vs = wideValues(t.bytes);
    for (uint64_t s : vs) {
      mc::at("wide layout %d of %d-bit store, storage %llx", id, t.bytes * 8, (unsigned long long)s);
      for (size_t i = 0; i < t.m.size(); i++)
        for (uint64_t v : vs) { setOne(t, s, i, v); mc::step(); mc::trace(); }
      mc::state(mc::mix(s + id * 977));
    }
    // set sequences to depth 3 over boundary values from an all-ones and all-zero store
    int n = int(t.m.size());
    std::vector<uint64_t> bv{0, 1, ~0ull, 0x5555555555555555ull};
    mc::Odo o({2, n, 4, n, 4, n, 4});
    while (o.next()) {
      uint64_t b = o.v[0] ? maskOf(t.bytes * 8) : 0;
      std::vector<uint64_t> ref(n);
      for (int k = 0; k < n; k++) ref[k] = o.v[0] ? maskOf(t.m[k].size) : 0;
      for (int d = 0; d < 3; d++) { int i = o.v[1 + d * 2]; uint64_t v = bv[o.v[2 + d * 2]]; t.set[i](&b, v); ref[i] = v & maskOf(t.m[i].size); mc::step(); }
      for (int k = 0; k < n; k++) if (t.get[k](&b) != ref[k]) mc::fail("sequence", "%d-bit store: after 3 sets member %d reads %llx expected %llx", t.bytes * 8, k, (unsigned long long)t.get[k](&b), (unsigned long long)ref[k]);
      mc::trace();
    }
  }
};
MC_SECTION("wide layouts", 8) { Wide f; wideLayouts(f); }
#endif
