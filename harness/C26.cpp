// VARIANT: opt -O2
// VARIANT: asan -O1 -fsanitize=address,undefined -fno-sanitize=alignment,vptr -fno-sanitize-recover=undefined
// RULE: state = distinct (pointer width, image layout, fix-up history prefix); transition = one real fix-up, assignment or reload; trace = one complete history compared slot by slot with the reference image after every operation
// ASSUME: no embedded pointer refers to its own slot (the self relative 32-bit form has no room for it) and images stay within 2 GB
#include "mc.hpp"
#include "datas/pointer.hpp"
#include <memory>
#ifndef MC_FALLBACK // the list of fixed pointers, per thread or (as a second attempt when that does not compile) not
#define MC_PER_THREAD thread_local
#else
#define MC_PER_THREAD
#endif
namespace es { MC_PER_THREAD std::vector<void *> usedPts; }
struct Cell { uint32_t v; uint32_t w; };
template <class P> static const char *pn();
template <> const char *pn<esPointerX64<Cell>>() { return "64-bit"; }
template <> const char *pn<esPointerX86<Cell>>() { return "32-bit"; }
static const int SLOTS = 3;
// layout: root at RO, slots at SO, cells at CO (all inside one block)
struct Layout { int root; int slot[SLOTS]; };
static const Layout LAY[] = {{0, {32, 40, 48}}, {0, {8, 64, 120}}, {24, {32, 40, 72}}, {56, {32, 64, 96}}};
static const int CELLS[] = {16, 80, 104}; // cell offsets
static const int TARGETS = 5;             // null, three cells, first byte of the next slot
template <class P> struct World {
  char *img[2]; int lay; int tgt[SLOTS]; bool fixed[2][SLOTS]; bool done[2][SLOTS]; int where[2][SLOTS]; int gen[2] = {0, 0}; bool loaded[2] = {false, false};
  typedef typename std::conditional<sizeof(P) == 8, int64_t, int32_t>::type Raw;
  const std::string &h;
  World(int l, const int *t, const std::string &hh) : lay(l), h(hh) { for (int i = 0; i < SLOTS; i++) tgt[i] = t[i]; for (auto &m : img) m = new char[128]; }
  ~World() { for (auto &m : img) delete[] m; ClearESPointers(); }
  const Layout &L() const { return LAY[lay]; }
  int off(int s) const { return tgt[s] == 0 ? 0 : (tgt[s] <= 3 ? CELLS[tgt[s] - 1] : L().slot[(s + 1) % SLOTS]) - L().root; }
  P &p(int m, int s) { return *reinterpret_cast<P *>(img[m] + L().slot[s]); }
  uint32_t cell(int m, int c) const { return uint32_t(1000 + m * 100 + c * 10 + gen[m] * 7); }
  bool clash() const { for (int s = 0; s < SLOTS; s++) { if (tgt[s] && off(s) == 0) return true; for (int c : CELLS) if (L().slot[s] < c + 8 && c < L().slot[s] + 8) return true; } return false; }
  void load(int m) {
    memset(img[m], 0x3c, 128); gen[m]++; loaded[m] = true;
    for (int c = 0; c < 3; c++) { Cell x{cell(m, c), 77}; memcpy(img[m] + CELLS[c], &x, 8); }
    for (int s = 0; s < SLOTS; s++) { Raw r = Raw(off(s)); memcpy(img[m] + L().slot[s], &r, sizeof r); fixed[m][s] = done[m][s] = false; where[m][s] = tgt[s] ? off(s) + L().root : -1; }
  }
  void check() {
    for (int m = 0; m < 2; m++) { if (!loaded[m]) continue;
      for (int s = 0; s < SLOTS; s++) { P &q = p(m, s); const P &cq = q; mc::step();
        if (q.Fixed() != done[m][s]) mc::fail("fixed state", "image %d slot %d reports %d: %s", m, s, q.Fixed(), h.c_str());
        if (!fixed[m][s]) { Raw r; memcpy(&r, &q, sizeof r); if (r != Raw(off(s))) mc::fail("unfixed slot", "image %d slot %d changed to %lld: %s", m, s, (long long)r, h.c_str()); continue; }
        char *want = where[m][s] < 0 ? nullptr : img[m] + where[m][s]; Cell *a = q; const Cell *b = cq;
        if ((char *)a != want || (const char *)b != want) { mc::fail("address", "image %d slot %d resolves %td bytes off: %s", m, s, (char *)a - want, h.c_str()); continue; }
        for (int c = 0; c < 3; c++) if (want && where[m][s] == CELLS[c]) { uint32_t v = cell(m, c); if ((*q).v != v || q->v != v || cq->v != v || (*cq).v != v) mc::fail("dereference", "image %d slot %d gives %u expected %u: %s", m, s, q->v, v, h.c_str()); }
      }
      for (int c = 0; c < 3; c++) { Cell x; memcpy(&x, img[m] + CELLS[c], 8); if (x.v != cell(m, c) || x.w != 77) mc::fail("data", "image %d cell %d changed: %s", m, c, h.c_str()); }
      for (int i = 0; i < 128; i++) { bool skip = false; for (int c : CELLS) skip |= i >= c && i < c + 8; for (int s : L().slot) skip |= i >= s && i < s + int(sizeof(P)); if (!skip && img[m][i] != 0x3c) { mc::fail("stray write", "image %d byte %d: %s", m, i, h.c_str()); break; } }
    }
  }
  static const int OPS = 2 * SLOTS * 2 + 2 + 4;
  bool apply(int o) {
    int n = 2 * SLOTS * 2;
    if (o < n) { bool nc = o >= n / 2; int m = o % (n / 2) / SLOTS, s = o % SLOTS; if (!loaded[m] || (nc && fixed[m][s])) return false;
      bool r = p(m, s).Fixup(img[m] + L().root, nc); bool want = !fixed[m][s] && tgt[s] && !done[m][s];
      if (r != want) mc::fail("result", "fix-up of image %d slot %d returned %d: %s", m, s, r, h.c_str());
      fixed[m][s] = done[m][s] = true; return true; }
    if (o < n + 2) { int m = o - n; if (m == 0) { ClearESPointers(); for (auto &l : loaded) l = false; for (auto &x : done) for (auto &d : x) d = false; load(0); } else { if (loaded[1]) return false; load(1); } return true; }
    int k = o - n - 2; // direct assignment to an already fixed slot
    int m = 0, s = k & 1; if (!loaded[m] || !fixed[m][s]) return false;
    if (k < 2) { int c = 2 - s; p(m, s) = reinterpret_cast<Cell *>(img[m] + CELLS[c]); where[m][s] = CELLS[c]; } else { p(m, s) = static_cast<Cell *>(nullptr); where[m][s] = -1; }
    return true;
  }
};
template <class P> static void run(int depth) {
  uint64_t id = 0; typedef World<P> W;
  for (int lay = 0; lay < int(sizeof LAY / sizeof *LAY); lay++) { mc::Odo t(std::vector<int>(SLOTS, TARGETS));
    while (t.next()) { std::string dummy; { W w(lay, t.v.data(), dummy); if (w.clash()) continue; }
      mc::Odo o(std::vector<int>(size_t(depth), +W::OPS));
      while (o.next()) { if (!mc::mine(id++ / 64)) continue;
        char hb[400]; size_t l = size_t(snprintf(hb, 400, "%s pointers, layout %d, targets %d%d%d:", pn<P>(), lay, t.v[0], t.v[1], t.v[2])); for (int x : o.v) l += size_t(snprintf(hb + l, 400 - l, " %d", x));
        mc::at("%s", hb); std::string h = hb; W w(lay, t.v.data(), h); w.load(0); w.check(); bool ok = true;
        for (int x : o.v) { if (!w.apply(x)) { ok = false; break; } mc::step(); w.check(); }
        if (ok) { mc::trace(); mc::state(mc::hashBytes(hb, l)); } } } }
}
MC_SECTION("64-bit pointers", 8) {
#ifdef MC_VARIANT_asan
  run<esPointerX64<Cell>>(2);
#else
  run<esPointerX64<Cell>>(mc::thorough() ? 4 : 3);
#endif
}
MC_SECTION("32-bit pointers", 8) {
#ifdef MC_VARIANT_asan
  run<esPointerX86<Cell>>(2);
#else
  run<esPointerX86<Cell>>(mc::thorough() ? 4 : 3);
#endif
}
MC_SECTION("far targets", 1) { // offsets of every size; the address is computed, never followed
  struct Slot { esPointerX64<Cell> p; }; Slot s; std::vector<uint64_t> off; for (int b = 6; b < 47; b++) for (int d = -2; d <= 2; d++) off.push_back((1ull << b) + uint64_t(int64_t(d)) * 8);
  for (uint64_t o : off) for (int nc = 0; nc < 2; nc++) for (uint64_t root : {uint64_t(0x10000), uint64_t((uintptr_t)&s), uint64_t(0x7fffff000)}) { mc::at("64-bit offset %llx from %llx", (unsigned long long)o, (unsigned long long)root); mc::trace(); mc::step(2); mc::state(mc::mix(o * 31 + root)); ClearESPointers(); memcpy((void *)&s, &o, 8); if (!s.p.Fixup((char *)root, nc)) mc::fail("far target", "not fixed"); const Slot &cs = s; if (uint64_t((Cell *)s.p) != root + o || uint64_t((const Cell *)cs.p) != root + o) mc::fail("far target", "offset %llx from %llx resolves to %llx", (unsigned long long)o, (unsigned long long)root, (unsigned long long)(uintptr_t)(Cell *)s.p); }
  struct Slot4 { esPointerX86<Cell> p; }; std::unique_ptr<char[]> buf(new char[1 << 20]); // 32-bit: both directions within one block
  for (int at : {0, 4, 1 << 10, 1 << 16, (1 << 20) - 4}) for (int b = 0; b <= 20; b++) for (int d = -2; d <= 2; d++) { int t = (1 << b) + d * 4; if (t <= 0 || t >= 1 << 20 || t == at) continue; mc::trace(); mc::step(); ClearESPointers(); memcpy(buf.get() + at, &t, 4); Slot4 &q = *(Slot4 *)(buf.get() + at); mc::at("32-bit slot %d target %d", at, t); mc::state(mc::mix(uint64_t(at) << 32 | unsigned(t))); if (!q.p.Fixup(buf.get())) mc::fail("far target", "not fixed"); if ((char *)(Cell *)q.p != buf.get() + t) mc::fail("far target", "slot %d target %d resolves to %td", at, t, (char *)(Cell *)q.p - buf.get()); }
  ClearESPointers();
}
MC_SECTION("chains and many slots", 2) {
  // a linked list threaded through an image; fix-up requested in every rotation and direction, several times
  for (int n = 1; n <= 40; n++) for (int rot = 0; rot < n; rot++) for (int dir = 0; dir < 2; dir++) { if (!mc::mine(uint64_t(n * 131 + rot * 2 + dir))) continue;
    mc::at("chain of %d from %d %s", n, rot, dir ? "down" : "up"); mc::trace(); mc::state(mc::mix(uint64_t(n) << 20 | uint64_t(rot) << 4 | uint64_t(dir))); ClearESPointers();
    struct N8 { esPointerX64<N8> next; uint64_t id; }; struct N4 { esPointerX86<N4> next; uint32_t id; };
    std::unique_ptr<char[]> a(new char[size_t(n) * 16 + 16]), b(new char[size_t(n) * 8 + 8]);
    for (int i = 0; i < n; i++) { uint64_t o = i + 1 < n ? uint64_t(i + 2) * 16 : 0, v = uint64_t(i) * 3; memcpy(a.get() + (i + 1) * 16, &o, 8); memcpy(a.get() + (i + 1) * 16 + 8, &v, 8); uint32_t p = i + 1 < n ? uint32_t(i + 2) * 8 : 0, w = uint32_t(i) * 5; memcpy(b.get() + (i + 1) * 8, &p, 4); memcpy(b.get() + (i + 1) * 8 + 4, &w, 4); }
    N8 *x = (N8 *)(a.get() + 16); N4 *y = (N4 *)(b.get() + 8);
    for (int rep = 0; rep < 3; rep++) for (int k = 0; k < n; k++) { int i = ((dir ? n - 1 - k : k) + rot) % n; mc::step(2); bool last = i == n - 1; if (x[i].next.Fixup(a.get()) != (!rep && !last)) mc::fail("chain result", "%s", mc::g().job->cur); if (y[i].next.Fixup(b.get()) != (!rep && !last)) mc::fail("chain result", "%s", mc::g().job->cur); }
    int c = 0; for (N8 *p = x; p && c < 100; p = p->next, c++) if (p->id != uint64_t(c) * 3) mc::fail("chain", "%s element %d", mc::g().job->cur, c); if (c != n) mc::fail("chain length", "%s: %d", mc::g().job->cur, c);
    c = 0; for (N4 *p = y; p && c < 100; p = p->next, c++) if (p->id != uint32_t(c) * 5) mc::fail("chain", "%s element %d", mc::g().job->cur, c); if (c != n) mc::fail("chain length", "%s: %d", mc::g().job->cur, c);
  }
  ClearESPointers();
}
