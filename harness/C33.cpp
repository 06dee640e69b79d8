// VARIANT: opt -O2
// VARIANT: asan -O1 -fsanitize=address,undefined -fno-sanitize-recover=undefined
// RULE: state = texture size; transition = one real address computation; trace = one texture size whose whole pixel grid is mapped, compared with bit interleaving and checked to hit every address once
#include "mc.hpp"
#include "formats/addr_ps3.hpp"
#include <memory>
static uint64_t ref(uint64_t x, uint64_t y, int bw, int bh) { uint64_t r = 0; int p = 0; for (int b = 0; b < bw || b < bh; b++) { if (b < bw) r |= (x >> b & 1) << p++; if (b < bh) r |= (y >> b & 1) << p++; } return r; }
static void size(int bw, int bh) {
  size_t w = size_t(1) << bw, h = size_t(1) << bh; mc::at("texture %zu x %zu", w, h); mc::trace(); mc::state(mc::mix(uint64_t(bw * 64 + bh + 1)));
  std::unique_ptr<MortonSettings> s(new MortonSettings(w, h)); if (s->width != w || s->height != h) mc::fail("dimensions", "%zu x %zu", w, h);
  std::vector<bool> seen(w * h);
  for (size_t y = 0; y < h; y++) { for (size_t x = 0; x < w; x++) { size_t a = MortonAddr(x, y, *s);
      if (a != ref(x, y, bw, bh)) { mc::fail("interleaving", "%zu x %zu pixel %zu,%zu at %zu expected %zu", w, h, x, y, a, size_t(ref(x, y, bw, bh))); if (a >= w * h) { mc::fail("range", "%zu x %zu pixel %zu,%zu at %zu", w, h, x, y, a); return; } }
      if (a >= w * h) { mc::fail("range", "%zu x %zu pixel %zu,%zu at %zu", w, h, x, y, a); return; }
      if (seen[a]) { mc::fail("collision", "%zu x %zu pixel %zu,%zu address %zu used twice", w, h, x, y, a); return; } seen[a] = true; }
    mc::step(w); mc::beat(); }
}
MC_SECTION("whole textures", 8) {
#ifdef MC_VARIANT_asan
  int top = 8, sum = 14;
#else
  int top = 14, sum = mc::thorough() ? 28 : 22;
#endif
  uint64_t id = 0; for (int s = 2 * top; s >= 0; s--) for (int a = 0; a <= top; a++) { int b = s - a; if (b < 0 || b > top || s > sum) continue; if (mc::mine(id++)) size(a, b); }
}
#ifndef MC_VARIANT_asan
MC_SECTION("long strips", 4) { uint64_t id = 0; for (int a = 0; a <= 24; a++) for (int b = 0; b <= 24 - a; b++) { if (a <= 14 && b <= 14) continue; if (a > 14 && b > 14) continue; if (mc::mine(id++)) { size(a, b); } } }
MC_SECTION("large textures at the bits", 2) { // every single coordinate bit and pairs of them; the mapping is a permutation of bits
  uint64_t id = 0; for (int bw = 0; bw <= 20; bw++) for (int bh = 0; bh <= 20; bh++) { if (bw > 14 && bh > 14) continue; if (!mc::mine(id++)) continue; size_t w = size_t(1) << bw, h = size_t(1) << bh; mc::at("bits of %zu x %zu", w, h); mc::trace(); mc::state(mc::mix(uint64_t(bw * 64 + bh + 100001))); MortonSettings s(w, h);
    for (int i = 0; i < bw + bh; i++) for (int j = 0; j <= i; j++) for (int inv = 0; inv < 2; inv++) { size_t x = 0, y = 0; for (int k : {i, j}) if (k < bw) x |= size_t(1) << k; else y |= size_t(1) << (k - bw); if (inv) { x ^= w - 1; y ^= h - 1; } mc::step(); size_t a = MortonAddr(x, y, s), r = ref(x, y, bw, bh); if (a != r) { mc::fail("bits", "%zu x %zu pixel %zu,%zu at %zu expected %zu", w, h, x, y, a, r); } } }
}
#endif
