// VARIANT: opt -O2
// VARIANT: asan -O1 -fsanitize=address
// RULE: state = distinct (history prefix contents, borrow relation); transition = one real container or pointer operation; trace = one complete operation history compared with the reference after every operation, with every allocation accounted for
// ASSUME: element types are trivially copyable, as linking needs elements that already live in the buffer
// ASSUME: a buffer is linked to one container at a time
#include "mc.hpp"
#include "datas/allocator_hybrid.hpp"
#include "datas/deleter_hybrid.hpp"
#include <memory>
#include <new>
#include <vector>
// ---- allocation accounting
static bool gTrack = false; static void *gLive[64]; static int gBad = 0; static int gCLive = 0; static void *gCBlocks[16]; static int gCFree[16]; static int gCN = 0;
#ifndef MC_VARIANT_asan
extern "C" void *__libc_malloc(size_t); extern "C" void __libc_free(void *);
void *operator new(size_t n) { void *p = __libc_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); if (gTrack) { bool ok = false; for (auto &l : gLive) if (!l) { l = p; ok = true; break; } if (!ok) gBad |= 4; } return p; }
void operator delete(void *p) noexcept { if (!p) return; if (gTrack) { for (auto &l : gLive) if (l == p) { l = nullptr; __libc_free(p); return; } gBad |= 1; return; } __libc_free(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
extern "C" void free(void *p) { if (gTrack) for (int i = 0; i < gCN; i++) if (gCBlocks[i] == p) { gCFree[i]++; return; } if (gTrack && p) { gBad |= 2; return; } __libc_free(p); }
#endif
struct Track { Track() { memset(gLive, 0, sizeof gLive); gBad = 0; gTrack = true; } ~Track() { gTrack = false; } };
static int live() { int n = 0; for (auto l : gLive) n += l != nullptr; return n; }

struct Rec { uint32_t a, b, c; };
template <class T> struct Val { static T mk(int v) { return T(v); } static int get(const T &t) { return int(t); } };
template <> struct Val<Rec> { static Rec mk(int v) { return {uint32_t(v), uint32_t(v) * 7, ~uint32_t(v)}; } static int get(const Rec &r) { return r.b == r.a * 7 && r.c == ~r.a ? int(r.a) : -1; } };

struct Big { uint32_t a; char pad[96]; uint32_t b; };
template <> struct Val<Big> { static Big mk(int v) { Big b; b.a = uint32_t(v); memset(b.pad, v & 127, 96); b.b = uint32_t(v) * 7; return b; } static int get(const Big &r) { bool ok = r.b == r.a * 7; for (char c : r.pad) ok = ok && c == char(r.a & 127); return ok ? int(r.a) : -1; } };

enum { LINK = 6, PER = 20, PAIR = 7 };
static const char *opName(int o) {
  static char b[80]; int n = 2 * PER; const char *pn[] = {"copy assign", "move assign", "swap", "copy construct", "move construct", "copy construct on the heap", "move construct on the heap"};
  const char *on[] = {"push", "insert front", "resize 0", "resize 2", "resize 5", "reserve 4", "clear and shrink", "write last", "assign 3", "dispose", "destroy", "pop", "assign range from other", "self assign"};
  if (o >= n) { snprintf(b, 80, "%s %d<-%d", pn[(o - n) % PAIR], (o - n) / PAIR, 1 - (o - n) / PAIR); return b; }
  int i = o / PER, k = o % PER; if (k < LINK) snprintf(b, 80, "link %d to buffer %d length %d", i, k / 3, k % 3 == 0 ? 0 : k % 3 == 1 ? 1 : 3); else snprintf(b, 80, "%s %d", on[k - LINK], i); return b;
}
template <class T> struct World {
  typedef std::vector<T, es::allocator_hybrid<T>> V; typedef Val<T> W;
  alignas(V) char mem[2][sizeof(V)]; V *v[2]; std::vector<int> m[2]; int bor[2] = {-1, -1}; int blen[2] = {0, 0};
#ifdef MC_VARIANT_asan
  T *ext[2];
#else
  struct Arena { unsigned char g0[32]; T d[3]; unsigned char g1[96]; } ar[2]; T *ext[2];
#endif
  int snap[2][3]; int next = 1; const char *hist = "";
  World() {
    for (int b = 0; b < 2; b++) {
#ifdef MC_VARIANT_asan
      ext[b] = (T *)malloc(3 * sizeof(T));
#else
      memset(ar[b].g0, 0xc7, 32); memset(ar[b].g1, 0xc7, 96); ext[b] = ar[b].d;
#endif
      for (int k = 0; k < 3; k++) { ext[b][k] = W::mk(90 + b * 10 + k); snap[b][k] = 90 + b * 10 + k; }
    }
    for (int i = 0; i < 2; i++) { v[i] = new (mem[i]) V(); m[i].reserve(32); }
  }
  ~World() {
    for (int i = 0; i < 2; i++) v[i]->~V();
#ifdef MC_VARIANT_asan
    for (int b = 0; b < 2; b++) free(ext[b]);
#endif
  }
  void release(int i) { if (bor[i] >= 0) { int b = bor[i]; for (int k = 0; k < 3; k++) if (k < blen[b]) snap[b][k] = W::get(ext[b][k]); bor[i] = -1; } }
  bool apply(int o) { // false: not applicable
    int n = 2 * PER;
    if (o >= n) {
      int i = (o - n) / PAIR, j = 1 - i;
      switch ((o - n) % PAIR) {
      case 0: { bool had = bor[i] >= 0; *v[i] = *v[j]; if (had && v[i]->data() != ext[bor[i]]) release(i); m[i] = m[j]; break; }
      case 1: release(i); *v[i] = std::move(*v[j]); bor[i] = bor[j]; bor[j] = -1; m[i] = m[j]; m[j].clear(); break;
      case 2: v[i]->swap(*v[j]); std::swap(bor[i], bor[j]); std::swap(m[i], m[j]); break;
      case 3: release(i); v[i]->~V(); v[i] = new (mem[i]) V(*v[j]); m[i] = m[j]; break;
      case 4: release(i); v[i]->~V(); v[i] = new (mem[i]) V(std::move(*v[j])); bor[i] = bor[j]; bor[j] = -1; m[i] = m[j]; m[j].clear(); break;
      case 5: release(i); v[i]->~V(); v[i] = new (mem[i]) V(*v[j], typename V::allocator_type()); m[i] = m[j]; break;
      case 6: release(i); v[i]->~V(); v[i] = new (mem[i]) V(std::move(*v[j]), typename V::allocator_type()); v[j]->clear(); m[i] = m[j]; m[j].clear(); break;
      }
      return true;
    }
    int i = o / PER, k = o % PER;
    if (k < LINK) {
      int b = k / 3, len = k % 3 == 2 ? 3 : k % 3; if (bor[1 - i] == b) return false;
      release(i); std::vector<int> c; for (int x = 0; x < len; x++) c.push_back(snap[b][x]);
      if (len & 1 && b) es::allocator_hybrid_base::LinkStorage(*v[i], ext[b], size_t(len)); else es::allocator_hybrid_base::LinkStorage(*v[i], ext[b], ext[b] + len);
      m[i] = c; bor[i] = len ? b : -1; blen[b] = len;
      if (len && v[i]->data() != ext[b]) mc::fail("borrow", "linked container does not use the buffer: %s", hist);
      return true;
    }
    bool grown = false; int x = next++; size_t cap = bor[i] >= 0 ? size_t(blen[bor[i]]) : 0, old = v[i]->capacity(); (void)old;
    auto need = [&](size_t s) { if (bor[i] >= 0 && s > cap) grown = true; };
    switch (k - LINK) {
    case 0: need(m[i].size() + 1); v[i]->push_back(W::mk(x)); m[i].push_back(x); break;
    case 1: need(m[i].size() + 1); v[i]->insert(v[i]->begin(), W::mk(x)); m[i].insert(m[i].begin(), x); break;
    case 2: v[i]->resize(0); m[i].resize(0); break;
    case 3: need(2); v[i]->resize(2, W::mk(x)); m[i].resize(2, x); break;
    case 4: need(5); v[i]->resize(5, W::mk(x)); m[i].resize(5, x); break;
    case 5: need(4); v[i]->reserve(4); break;
    case 6: { v[i]->clear(); m[i].clear(); v[i]->shrink_to_fit(); if (bor[i] >= 0 && v[i]->data() != ext[bor[i]]) release(i); break; }
    case 7: if (m[i].empty()) return false; v[i]->back() = W::mk(x); m[i].back() = x; break;
    case 8: need(3); v[i]->assign(3, W::mk(x)); m[i].assign(3, x); break;
    case 9: release(i); es::allocator_hybrid_base::DisposeStorage(*v[i]); m[i].clear(); break;
    case 10: release(i); v[i]->~V(); v[i] = new (mem[i]) V(); m[i].clear(); break;
    case 11: if (m[i].empty()) return false; v[i]->pop_back(); m[i].pop_back(); break;
    case 12: need(m[1 - i].size()); v[i]->assign(v[1 - i]->begin(), v[1 - i]->end()); m[i] = m[1 - i]; break;
    case 13: { V &r = *v[i]; *v[i] = r; break; }
    }
    if (grown) { int b = bor[i]; for (int z = 0; z < 3; z++) if (z < blen[b]) snap[b][z] = W::get(ext[b][z]); bor[i] = -1; if (v[i]->data() == ext[b]) mc::fail("growth", "the borrowed buffer of %d elements is still used for %zu elements: %s", blen[b], m[i].size(), hist); }
    return true;
  }
  void check() {
    for (int i = 0; i < 2; i++) {
      if (v[i]->size() != m[i].size()) { mc::fail("size", "container %d has %zu elements expected %zu: %s", i, v[i]->size(), m[i].size(), hist); continue; }
      if (v[i]->capacity() < v[i]->size()) mc::fail("capacity", "%s", hist);
      for (size_t k = 0; k < m[i].size(); k++) if (W::get((*v[i])[k]) != m[i][k]) { mc::fail("content", "container %d element %zu is %d expected %d: %s", i, k, W::get((*v[i])[k]), m[i][k], hist); break; }
      if (bor[i] >= 0 && v[i]->data() != ext[bor[i]]) mc::fail("borrow", "container %d left its buffer although it fits: %s", i, hist);
      if (bor[i] >= 0 && v[i]->capacity() > size_t(blen[bor[i]])) mc::fail("capacity of borrowed", "container %d claims %zu of %d borrowed elements: %s", i, v[i]->capacity(), blen[bor[i]], hist);
      if (bor[i] < 0 && v[i]->capacity()) for (int b = 0; b < 2; b++) if (v[i]->data() == ext[b]) mc::fail("alias", "container %d uses buffer %d it does not borrow: %s", i, b, hist);
    }
    if (v[0]->capacity() && v[1]->capacity() && v[0]->data() == v[1]->data()) mc::fail("alias", "both containers use the same memory: %s", hist);
    for (int b = 0; b < 2; b++) {
      int used = bor[0] == b || bor[1] == b ? blen[b] : 0;
      for (int k = used; k < 3; k++) if (W::get(ext[b][k]) != snap[b][k]) mc::fail("foreign write", "element %d of buffer %d changed although %s: %s", k, b, used ? "it is behind the linked part" : "nobody borrows it", hist);
#ifndef MC_VARIANT_asan
      for (unsigned char c : ar[b].g0) if (c != 0xc7) { mc::fail("overrun", "write in front of buffer %d: %s", b, hist); break; }
      for (unsigned char c : ar[b].g1) if (c != 0xc7) { mc::fail("overrun", "write behind buffer %d: %s", b, hist); break; }
#endif
    }
    if (gBad & 1) mc::fail("free", "memory released that is not (any more) allocated: %s", hist);
    if (gBad & 2) mc::fail("free", "free of borrowed memory: %s", hist);
  }
};
template <class T> static void histories(int depth, const char *type) {
  const int N = 2 * PER + 2 * PAIR; uint64_t id = 0;
  Odo: mc::Odo o([&] { std::vector<int> s(size_t(depth), N); s[0] = PER; return s; }());
  while (o.next()) {
    if (!mc::mine(id++ / 64)) continue;
    std::string h = type; uint64_t hash = mc::mix(sizeof(T)); bool ok = true; char hb[512]; size_t hl = size_t(snprintf(hb, 512, "%s:", type));
    for (int op : o.v) { hl += size_t(snprintf(hb + hl, 512 - hl, " %s;", opName(op))); }
    memcpy(mc::g().job->cur, hb, 512); mc::g().job->beat++;
    { Track t; { World<T> w; w.hist = hb;
        for (size_t k = 0; k < o.v.size() && ok; k++) { ok = w.apply(o.v[k]); if (!ok) break; w.check(); mc::step();
          for (int i = 0; i < 2; i++) { for (int x : w.m[i]) hash = mc::mix(hash ^ uint64_t(x)); hash = mc::mix(hash + uint64_t(w.bor[i] + 2) + (w.v[i]->capacity() << 8)); } mc::state(hash); }
      }
#ifndef MC_VARIANT_asan
      gTrack = false;
      if (live()) mc::fail("leak", "%d blocks left allocated: %s", live(), hb);
      if (gBad) mc::fail("free", "memory released that is not (any more) allocated: %s", hb);
#endif
    }
    if (ok) mc::trace();
  }
}
#ifdef MC_VARIANT_asan
MC_SECTION("histories of two byte elements", 8) { histories<uint16_t>(mc::thorough() ? 4 : 3, "2 byte"); }
MC_SECTION("histories of records", 8) { histories<Rec>(3, "12 byte"); }
MC_SECTION("histories of big records", 8) { histories<Big>(3, "104 byte"); }
#else
MC_SECTION("histories of two byte elements", 8) { histories<uint16_t>(mc::thorough() ? 5 : 4, "2 byte"); }
MC_SECTION("histories of records", 8) { histories<Rec>(mc::thorough() ? 4 : 3, "12 byte"); }
MC_SECTION("histories of bytes", 8) { histories<signed char>(mc::thorough() ? 4 : 3, "1 byte"); }
MC_SECTION("histories of big records", 8) { histories<Big>(mc::thorough() ? 4 : 3, "104 byte"); }
#endif
MC_SECTION("allocator relation", 1) {
  char bufs[2][16]; typedef es::allocator_hybrid<char> A; typedef es::allocator_hybrid<short> B;
  for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) { A x = a ? A(bufs[a - 1]) : A(); B y = b ? B((short *)bufs[b - 1]) : B(); A z = b ? A(bufs[b - 1]) : A(); mc::at("labels %d %d", a, b); mc::trace(); mc::step(5);
    if ((x == y) != (a == b) || (x != y) == (a == b) || (x == z) != (a == b) || (x != z) == (a == b)) mc::fail("relation", "labels %d %d", a, b);
    A c(x); if (!(c == x)) mc::fail("copy", "copy of label %d differs", a);
    A r(y); char *p = r.allocate(4); if (p == bufs[0] || p == bufs[1]) mc::fail("rebind", "converted allocator hands out the foreign buffer"); r.deallocate(p, 4); }
}
// ---- hybrid deleters
static int gDead[32], gCount = 0;
struct Obj { int id; virtual ~Obj() { gDead[id]++; } explicit Obj(int i) : id(i) {} };
struct Sub : Obj { char pad[24]; explicit Sub(int i) : Obj(i) {} };
MC_SECTION("hybrid deleter", 8) {
  typedef std::unique_ptr<Obj, es::deleter_hybrid> P; const int K = 13; uint64_t id = 0;
  for (int d = 1; d <= (mc::thorough() ? 5 : 4); d++) { mc::Odo o(std::vector<int>(size_t(d), 2 * K));
    while (o.next()) { if (!mc::mine(id++)) continue;
      std::string h; for (int x : o.v) h += std::to_string(x) + " "; mc::at("deleter history %s", h.c_str()); mc::trace(); mc::state("del" + h);
      memset(gDead, 0, sizeof gDead); int next = 0, want[32] = {}; bool owned[32] = {}; std::vector<Obj *> released;
      alignas(16) char st[16][sizeof(Sub)]; std::vector<Obj *> statics; bool loose[32] = {};
      { P p[2]; int mod[2] = {-1, -1};
        auto drop = [&](int i) { if (mod[i] >= 0 && owned[mod[i]]) want[mod[i]] = 1; mod[i] = -1; };
        for (int x : o.v) { int i = x / K, j = 1 - i; mc::step();
          switch (x % K) {
          case 0: drop(i); p[i] = P(new Obj(next), es::deleter_hybrid(true)); owned[next] = true; mod[i] = next++; break;
          case 1: drop(i); p[i] = P(new Sub(next), es::deleter_hybrid()); owned[next] = true; mod[i] = next++; break;
          case 2: { drop(i); Sub *s = new (st[next]) Sub(next); statics.push_back(s); p[i] = P(s, false); mod[i] = next++; break; }
          case 3: { drop(i); std::unique_ptr<Sub, es::deleter_hybrid> u(new Sub(next)); p[i] = std::move(u); owned[next] = true; mod[i] = next++; break; }
          case 4: { drop(i); Sub *s = new (st[next]) Sub(next); statics.push_back(s); std::unique_ptr<Sub, es::deleter_hybrid> u(s, {false}); p[i] = std::move(u); mod[i] = next++; break; }
          case 5: drop(i); p[i].reset(); break;
          case 6: if (mod[i] >= 0) { Obj *r = p[i].release(); if (owned[mod[i]]) released.push_back(r); loose[mod[i]] = true; mod[i] = -1; } break;
          case 7: drop(i); p[i] = std::move(p[j]); mod[i] = mod[j]; mod[j] = -1; break;
          case 8: p[i].swap(p[j]); std::swap(mod[i], mod[j]); break;
          case 9: { P q(std::move(p[i])); p[i] = std::move(q); break; }
          case 10: { P q(std::move(p[i])); drop(i); break; }
          case 11: { std::swap(p[0], p[1]); std::swap(mod[0], mod[1]); break; }
          case 12: if (mod[i] >= 0) { const bool own = owned[mod[i]]; es::deleter_hybrid dl(own); Obj *r = p[i].release(); p[i] = P(r, dl); } break;
          }
          for (int q = 0; q < 2; q++) if ((p[q] != nullptr) != (mod[q] >= 0) || (mod[q] >= 0 && p[q]->id != mod[q])) mc::fail("pointer", "pointer %d does not refer to object %d: %s", q, mod[q], h.c_str());
          for (int q = 0; q < next; q++) if (gDead[q] != want[q]) mc::fail("destroyed", "%s object destroyed %d times expected %d: %s", owned[q] ? "owned" : "borrowed", gDead[q], want[q], h.c_str());
        }
        drop(0); drop(1);
      }
      for (Obj *r : released) { want[r->id] = 1; delete r; }
      for (int q = 0; q < next; q++) if (gDead[q] != want[q]) mc::fail("destroyed at the end", "%s object destroyed %d times expected %d: %s", owned[q] ? "owned" : "borrowed", gDead[q], want[q], h.c_str());
    } }
}
#ifndef MC_VARIANT_asan
MC_SECTION("hybrid C deleter", 1) {
  typedef std::unique_ptr<int, es::deleter_hybrid_c> P; const int K = 6;
  for (int d = 1; d <= 4; d++) { mc::Odo o(std::vector<int>(size_t(d), 2 * K));
    while (o.next()) { std::string h; for (int x : o.v) h += std::to_string(x) + " "; mc::at("C deleter history %s", h.c_str()); mc::trace(); mc::state("cdel" + h);
      gCN = 0; memset(gCFree, 0, sizeof gCFree); int want[16] = {}, mod[2] = {-1, -1}; bool owned[16] = {}; static int cells[16];
      { Track t; P p[2]; auto drop = [&](int i) { if (mod[i] >= 0 && owned[mod[i]]) want[mod[i]] = 1; mod[i] = -1; };
        for (int x : o.v) { int i = x / K, j = 1 - i; mc::step();
          switch (x % K) {
          case 0: case 1: case 2: { bool own = x % K != 2; int k = gCN++; gCBlocks[k] = &cells[k]; owned[k] = own; drop(i); p[i] = x % K == 0 ? P(&cells[k]) : P(&cells[k], es::deleter_hybrid_c(own)); mod[i] = k; break; }
          case 3: drop(i); p[i].reset(); break;
          case 4: drop(i); p[i] = std::move(p[j]); mod[i] = mod[j]; mod[j] = -1; break;
          case 5: p[i].swap(p[j]); std::swap(mod[i], mod[j]); break;
          } }
        drop(0); drop(1); }
      for (int k = 0; k < gCN; k++) if (gCFree[k] != want[k]) mc::fail("freed", "%s block freed %d times: %s", owned[k] ? "owned" : "borrowed", gCFree[k], h.c_str());
    } }
}
#endif
