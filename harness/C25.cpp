// VARIANT: opt -O2
// VARIANT: asan -O1 -fsanitize=address
// RULE: state = distinct (list flavour, history prefix); transition = one real list, iterator or element operation; trace = one complete operation history compared with the reference list and the lifetime accounts after every operation
// ASSUME: borrowed elements are only dereferenced while their list lives
#include "mc.hpp"
#include <string>
#include <iterator>
#include "uni/list_vector.hpp"
#include <memory>
#include <stdexcept>
// ---- lifetime accounts
static int gBorn[256], gDead[256], gNext = 0;
static const uint32_t ALIVE = 0x600df00d;
struct Item : public uni::Base { uint32_t magic = ALIVE; int serial; Item() : serial(gNext++ & 255) { gBorn[serial]++; } ~Item() { gDead[serial]++; magic = 0xdeadbeef; } Item(const Item &) = delete;
  virtual int Value() const = 0; };
struct PadBase { virtual ~PadBase() = default; long pad[2] = {1, 2}; };
struct Impl : PadBase, Item { int val; explicit Impl(int v) : val(v) {} int Value() const override { return val; } };
struct WOwned { int val; operator uni::Element<const Item>() const { return uni::Element<const Item>(new Impl(val), es::deleter_hybrid()); } };
struct WBorrow { std::shared_ptr<Impl> p; operator uni::Element<const Item>() const { return uni::Element<const Item>(p.get(), es::deleter_hybrid(false)); } };
template <int F> struct Flav;
typedef uni::Element<const Item> E;
template <> struct Flav<0> { typedef uni::VectorList<Item, WOwned> L; static const bool owned = true; static const char *name() { return "list of makers"; } static void add(L &l, int v) { l.storage.push_back(WOwned{v}); } };
template <> struct Flav<1> { typedef uni::VectorList<Item, WBorrow> L; static const bool owned = false; static const char *name() { return "list of lenders"; } static void add(L &l, int v) { l.storage.push_back(WBorrow{std::make_shared<Impl>(v)}); } };
template <> struct Flav<2> { typedef uni::PolyVectorList<Item, Impl> L; static const bool owned = false; static const char *name() { return "list of unique pointers"; } static void add(L &l, int v) { l.storage.emplace_back(new Impl(v)); } };
template <> struct Flav<3> { typedef uni::PolyVectorList<Item, Impl, std::shared_ptr> L; static const bool owned = false; static const char *name() { return "list of shared pointers"; } static void add(L &l, int v) { l.storage.emplace_back(new Impl(v)); } };
template <> struct Flav<4> { typedef uni::PolyVectorList<Item, Item> L; static const bool owned = false; static const char *name() { return "list of interface pointers"; } static void add(L &l, int v) { l.storage.emplace_back(new Impl(v)); } };
static int liveItems() { int n = 0; for (int i = 0; i < 256; i++) n += gBorn[i] - gDead[i]; return n; }
static void reset() { memset(gBorn, 0, sizeof gBorn); memset(gDead, 0, sizeof gDead); gNext = 0; }
template <class L> static void walk(const L &l, const std::vector<int> &want, const char *how, const std::string &h) {
  if (l.Size() != want.size()) mc::fail("size", "%s reports %zu of %zu: %s", how, l.Size(), want.size(), h.c_str());
  size_t k = 0; for (auto it = l.begin(); it != l.end(); ++it, k++) { if (k >= want.size()) break; auto e = *it; if (!e || e->magic != ALIVE || e->Value() != want[k]) mc::fail("iteration", "%s element %zu: %s", how, k, h.c_str()); if (it == l.end()) mc::fail("iteration", "%s ends early: %s", how, h.c_str()); }
  if (k != want.size()) mc::fail("iteration", "%s visits %zu of %zu: %s", how, k, want.size(), h.c_str());
  k = 0; for (auto it = l.begin(); it != l.end(); k++) { if (k >= want.size()) break; auto old = it++; auto e = *old; if (e->Value() != want[k]) mc::fail("post increment", "%s element %zu: %s", how, k, h.c_str()); }
  k = 0; for (auto e : l) { if (k >= want.size() || e->Value() != want[k]) { mc::fail("range loop", "%s element %zu: %s", how, k, h.c_str()); break; } k++; }
  if (k != want.size()) mc::fail("range loop", "%s visits %zu of %zu: %s", how, k, want.size(), h.c_str());
  for (k = 0; k < want.size(); k++) { auto a = l[k]; auto b = l.At(k); if (a->Value() != want[k] || b->Value() != want[k]) mc::fail("index", "%s element %zu: %s", how, k, h.c_str()); }
  for (size_t bad : {want.size(), want.size() + 1, size_t(-1)}) { bool t = false; try { auto e = l.At(bad); } catch (const std::out_of_range &) { t = true; } if (!t) mc::fail("out of range", "%s accepts %zu of %zu: %s", how, bad, want.size(), h.c_str()); }
  mc::step(6 + want.size() * 6);
}
enum { NOPS = 17 };
template <int F> static void run(int maxN, int depth) {
  typedef Flav<F> FL; typedef typename FL::L L; typedef uni::List<Item> I; uint64_t id = 0;
  for (int n = 0; n <= maxN; n++) for (int d = 1; d <= depth; d++) { mc::Odo o(std::vector<int>(size_t(d), NOPS * 2));
    while (o.next()) { if (!mc::mine(id++ / 16)) continue;
      reset(); std::string h = std::string(FL::name()) + " of " + std::to_string(n) + ":"; for (int x : o.v) h += " " + std::to_string(x % NOPS) + (x / NOPS ? "b" : "a"); mc::at("%s", h.c_str()); mc::state(h);
      bool dead = false;
      { std::unique_ptr<L> l(new L); std::vector<int> want; for (int i = 0; i < n; i++) { FL::add(*l, 100 + i * 7); want.push_back(100 + i * 7); }
        uni::Element<const I> listElem; bool elemOwns = false; bool haveElem = false; std::unique_ptr<L> moved;
        E slot[2]; int mv[2] = {-1, -1}; bool own[2] = {false, false}; std::unique_ptr<const Item> loose; uni::Element<const uni::Base> base; int bmv = -1; bool bown = false;
        const int stored = FL::owned ? 0 : n; bool listAlive = true; size_t added = 0;
        auto cur = [&]() -> const L * { return l ? l.get() : moved ? moved.get() : nullptr; };
        for (int x : o.v) { int s = x / NOPS, k = x % NOPS, t = 1 - s; mc::step();
          const I *list = listAlive ? (haveElem ? listElem.get() : static_cast<const I *>(cur())) : nullptr;
          switch (k) {
          case 0: case 1: case 2: { size_t p = k == 0 ? 0 : k == 1 ? want.size() - 1 : 1; if (!list || p >= want.size()) { dead = true; break; } slot[s] = list->At(p); mv[s] = want[p]; own[s] = FL::owned; break; }
          case 3: { if (!list || want.empty()) { dead = true; break; } auto it = list->begin(); slot[s] = *it; mv[s] = want[0]; own[s] = FL::owned; break; }
          case 4: { if (!list || want.size() < 2) { dead = true; break; } auto it = list->begin(); ++it; auto jt = it; slot[s] = *jt; mv[s] = want[1]; own[s] = FL::owned; break; }
          case 5: slot[s] = std::move(slot[t]); mv[s] = mv[t]; own[s] = own[t]; mv[t] = -1; break;
          case 6: slot[s].reset(); mv[s] = -1; break;
          case 7: std::swap(slot[0], slot[1]); std::swap(mv[0], mv[1]); std::swap(own[0], own[1]); if (s) dead = true; break;
          case 8: { E e(std::move(slot[s])); slot[s] = std::move(e); break; }
          case 9: base = std::move(slot[s]); bmv = mv[s]; bown = own[s]; mv[s] = -1; break;
          case 10: base.reset(); bmv = -1; if (s) dead = true; break;
          case 11: { if (s) { std::unique_ptr<Impl> u(new Impl(55)); auto e = uni::ToElement(u); if (u) mc::fail("convert", "unique pointer keeps the object"); slot[0] = std::move(e); mv[0] = 55; own[0] = true; } else { slot[0] = uni::ToElement(std::unique_ptr<Item>(new Impl(66))); mv[0] = 66; own[0] = true; } break; }
          case 12: { if (haveElem || !l) { dead = true; break; } if (s) { auto e = uni::ToElement(std::unique_ptr<const I>(std::move(l))); listElem = std::move(e); elemOwns = true; } else { listElem = uni::Element<const I>(l.get(), es::deleter_hybrid(false)); elemOwns = false; } haveElem = true; break; }
          case 13: { if (haveElem) { listElem.reset(); if (elemOwns) listAlive = false; haveElem = false; } else dead = true; break; }
          case 14: { if (haveElem || !l || s) { dead = true; break; } moved.reset(new L); moved->storage = std::move(l->storage); l.reset(); break; }
          case 15: { if (!listAlive || haveElem || s) { dead = true; break; } l.reset(); moved.reset(); listAlive = false; break; }
          case 16: { L *m = l ? l.get() : moved.get(); if (!listAlive || !m || want.size() > 5 || s) { dead = true; break; } int v = 900 + int(added++); FL::add(*m, v); want.push_back(v); break; }
          }
          if (dead) break;
          if (!listAlive) { for (int q = 0; q < 2; q++) if (mv[q] >= 0 && !own[q]) mv[q] = -2; if (bmv >= 0 && !bown) bmv = -2; }
          for (int q = 0; q < 2; q++) { if ((slot[q] != nullptr) != (mv[q] != -1)) mc::fail("element", "slot %d is %s: %s", q, slot[q] ? "set" : "empty", h.c_str()); else if (mv[q] >= 0 && (slot[q]->magic != ALIVE || slot[q]->Value() != mv[q])) mc::fail("element", "slot %d is not the live element %d: %s", q, mv[q], h.c_str()); }
          if ((base != nullptr) != (bmv != -1)) mc::fail("base element", "%s", h.c_str()); else if (bmv >= 0) { auto *b = static_cast<const Item *>(base.get()); if (!b || b->magic != ALIVE || b->Value() != bmv) mc::fail("base element", "not the live element %d: %s", bmv, h.c_str()); }
          int expect = (listAlive ? stored + (FL::owned ? 0 : int(added)) : 0); for (int q = 0; q < 2; q++) expect += mv[q] >= 0 && own[q]; expect += bmv >= 0 && bown;
          if (liveItems() != expect) mc::fail("lifetime", "%d elements alive expected %d: %s", liveItems(), expect, h.c_str());
          for (int q = 0; q < gNext && q < 256; q++) if (gDead[q] > gBorn[q]) mc::fail("lifetime", "element destroyed twice: %s", h.c_str());
          if (listAlive) { if (const L *c = cur()) walk(*c, want, "list", h); if (haveElem) walk(*listElem, want, "list element", h); else if (cur()) walk(static_cast<const I &>(*cur()), want, "list interface", h); }
          if (liveItems() != expect) mc::fail("lifetime", "walking leaves %d elements alive expected %d: %s", liveItems(), expect, h.c_str());
        }
        for (int q = 0; q < 2; q++) if (mv[q] == -2) slot[q].release(); if (bmv == -2) base.release();
      }
      if (!dead) mc::trace();
      if (liveItems()) mc::fail("lifetime at the end", "%d elements left: %s", liveItems(), h.c_str());
    } }
}
static int D() {
#ifdef MC_VARIANT_asan
  return mc::thorough() ? 3 : 2;
#else
  return mc::thorough() ? 4 : 3;
#endif
}
MC_SECTION("makers", 8) { run<0>(3, D()); }
MC_SECTION("lenders", 4) { run<1>(3, D()); }
MC_SECTION("unique pointers", 8) { run<2>(3, D()); }
MC_SECTION("shared pointers", 4) { run<3>(3, D()); }
MC_SECTION("interface pointers", 4) { run<4>(2, D()); }
// ---- value lists and all sizes
typedef uni::VectorList<int, short, uni::Vector> VL; typedef uni::VectorList<std::string, std::string, uni::Vector> SL;
struct Proxy { std::vector<int> d; size_t Size() const { return d.size(); } int At(size_t i) const { return d.at(i); } typedef uni::VirtualIteratorProxy<Proxy, &Proxy::Size, int, &Proxy::At> P; P All() const { return P(this); } };
MC_SECTION("value lists of every size", 2) {
  std::vector<size_t> sizes; for (size_t n = 0; n <= 300; n++) sizes.push_back(n); for (size_t n : {1023u, 1024u, 1025u, 4095u, 4096u, 4097u, 32767u, 32768u, 65535u, 65536u, 65537u, 100000u}) sizes.push_back(n);
  for (size_t n : sizes) { if (!mc::mine(n)) continue; mc::beat(); mc::at("values, %zu elements", n); mc::trace(); mc::state(mc::mix(n + 7777)); VL l; SL s; Proxy pr;
    for (size_t i = 0; i < n; i++) { l.storage.push_back(short(i * 321)); s.storage.push_back(std::to_string(i)); pr.d.push_back(int(i * 9)); }
    const uni::Vector<int> &v = l; size_t k = 0; mc::step(n * 6);
    if (l.Size() != n || v.Size() != n || s.Size() != n) mc::fail("size", "%zu", n);
    for (int x : l) { if (k >= n || x != short(k * 321)) { mc::fail("value", "element %zu of %zu", k, n); break; } k++; } if (k != n) mc::fail("count", "%zu of %zu", k, n);
    k = 0; for (int x : v) { if (k >= n || x != short(k * 321) || l[k] != x || v[k] != x || v.At(k) != x) { mc::fail("interface value", "element %zu of %zu", k, n); break; } k++; } if (k != n) mc::fail("count", "%zu of %zu", k, n);
    k = 0; for (std::string x : s) { if (k >= n || x != std::to_string(k) || s[k] != x) { mc::fail("string value", "element %zu of %zu", k, n); break; } k++; } if (k != n) mc::fail("count", "%zu of %zu", k, n);
    k = 0; for (int x : pr.All()) { if (k >= n || x != int(k * 9)) { mc::fail("proxy value", "element %zu of %zu", k, n); break; } k++; } if (k != n) mc::fail("count", "proxy %zu of %zu", k, n);
    std::vector<size_t> at; for (size_t a = 0; a < n; a++) if (a < 5 || (a > 125 && a < 130) || (a > 253 && a < 258) || a + 2 >= n) at.push_back(a);
    for (size_t a : at) for (size_t b : at) { VL::iterator_type x(&l, a), y(&l, b); if ((x == y) != (a == b) || (x != y) == (a == b) || *x != short(a * 321)) mc::fail("iterator relation", "%zu %zu", a, b); }
  }
}
