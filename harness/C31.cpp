// VARIANT: opt -O2
// VARIANT: asan -O1 -fsanitize=address
// RULE: state = distinct (decoder, block bytes, image, position); transition = one real block decode; trace = one decode compared pixel by pixel with the format's definition, rest of the image unchanged
// ASSUME: decoders round interpolated 8-bit values down or to nearest (tolerance one step); the colour of a fully transparent pixel is not claimed; the SIMD decoder keeps 5 significant bits (tolerance 9 steps)
// ASSUME: colours come out in blue, green, red order, two channel blocks in the order stored
#include "mc.hpp"
#include "formats/BlockDecoder.inl"
#include "formats/BlockDecoderSimd.hpp"
#include <memory>
enum Kind { BC1, BC1A, BC2, BC3, BC4, BC5, BC5GA, SBC1, KINDS };
static const char *KN[] = {"BC1", "BC1A", "BC2", "BC3", "BC4", "BC5", "BC5GA", "SIMD BC1"};
static const int KB[] = {8, 8, 16, 16, 8, 16, 16, 8}, KP[] = {3, 4, 4, 4, 1, 3, 2, 3};
struct Px { double v[4]; bool set[4]; bool freeColor; };
static void chans(uint16_t c, double o[3]) { o[0] = (c & 31) * 255. / 31; o[1] = (c >> 5 & 63) * 255. / 63; o[2] = (c >> 11) * 255. / 31; }
static void color(const unsigned char *b, int i, bool fourOnly, Px &p, bool &clear) {
  uint16_t c0 = uint16_t(b[0] | b[1] << 8), c1 = uint16_t(b[2] | b[3] << 8); double a[3], d[3]; chans(c0, a); chans(c1, d); int x = b[4 + i / 4] >> (i % 4 * 2) & 3; clear = false;
  for (int k = 0; k < 3; k++) { double v; if (x == 0) v = a[k]; else if (x == 1) v = d[k]; else if (fourOnly || c0 > c1) v = x == 2 ? (2 * a[k] + d[k]) / 3 : (a[k] + 2 * d[k]) / 3; else { v = x == 2 ? (a[k] + d[k]) / 2 : 0; clear = x == 3; } p.v[k] = v; p.set[k] = true; }
}
static double single(const unsigned char *b, int i) {
  uint64_t bits = 0; for (int k = 0; k < 6; k++) bits |= uint64_t(b[2 + k]) << (8 * k); int x = int(bits >> (3 * i) & 7); double a = b[0], d = b[1];
  if (x == 0) return a; if (x == 1) return d; if (b[0] > b[1]) return (a * (8 - x) + d * (x - 1)) / 7; if (x == 6) return 0; if (x == 7) return 255; return (a * (6 - x) + d * (x - 1)) / 5;
}
static Px pixel(int k, const unsigned char *b, int i) {
  Px p{{0, 0, 0, 0}, {false, false, false, false}, false}; bool clear = false;
  switch (k) {
  case BC1: case SBC1: color(b, i, k == SBC1, p, clear); break;
  case BC1A: color(b, i, false, p, clear); p.v[3] = clear ? 0 : 255; p.set[3] = true; p.freeColor = clear; break;
  case BC2: color(b + 8, i, true, p, clear); p.v[3] = (b[i / 2] >> (i % 2 * 4) & 15) * 17; p.set[3] = true; break;
  case BC3: color(b + 8, i, true, p, clear); p.v[3] = single(b, i); p.set[3] = true; break;
  case BC4: p.v[0] = single(b, i); p.set[0] = true; break;
  case BC5: p.v[1] = single(b, i); p.v[2] = single(b + 8, i); p.set[1] = p.set[2] = true; break;
  case BC5GA: p.v[0] = single(b, i); p.v[1] = single(b + 8, i); p.set[0] = p.set[1] = true; break;
  }
  return p;
}
static void call(int k, const char *d, char *o, uint32 w, uint32 h, uint32 width) {
  switch (k) { case BC1: DecodeBC1Block(d, o, w, h, width); break; case BC1A: DecodeBC1BlockA(d, o, w, h, width); break; case BC2: DecodeBC2Block(d, o, w, h, width); break; case BC3: DecodeBC3Block(d, o, w, h, width); break; case BC4: DecodeBC4Block(d, o, w, h, width); break; case BC5: DecodeBC5Block(d, o, w, h, width); break; case BC5GA: DecodeBC5BlockGA(d, o, w, h, width); break; case SBC1: _SDecodeBC1Block(d, o, w, h, width); break; }
}
static bool opaqueOnly(int k, const unsigned char *b) { return k == SBC1 && (b[0] | b[1] << 8) <= (b[2] | b[3] << 8); }
static void one(int k, const unsigned char *blk, int bw = 1, int bh = 1, int px = 0, int py = 0) {
  static unsigned char fill = 0; fill = fill == 0xa5 ? 0x5a : 0xa5; const int P = KP[k]; size_t n = size_t(bw * bh * 16 * P);
  mc::step(); mc::trace(); mc::state(mc::hashBytes(blk, size_t(KB[k]), uint64_t(k * 1000 + bw * 64 + bh * 16 + px * 4 + py)));
#ifdef MC_VARIANT_asan
  std::unique_ptr<unsigned char[]> ob(new unsigned char[n]), in(new unsigned char[size_t(KB[k])]); unsigned char *o = ob.get(), *d = in.get();
#else
  static unsigned char buf[2][4096 + 64]; unsigned char *o = buf[0] + 32, *d = buf[1] + 32; memset(buf[0], fill, n + 64);
#endif
  memset(o, fill, n); memcpy(d, blk, size_t(KB[k])); call(k, (const char *)d, (char *)o, uint32(px), uint32(py), uint32(bw));
  if (memcmp(d, blk, size_t(KB[k]))) mc::fail(std::string(KN[k]) + " input", "block bytes modified");
  const double tol = k == SBC1 ? 9.2 : 1.01;
  for (int y = 0; y < bh * 4; y++) for (int x = 0; x < bw * 4; x++) { const unsigned char *q = o + (y * bw * 4 + x) * P; bool inside = x / 4 == px && y / 4 == py;
      Px p; if (inside) p = pixel(k, blk, (y & 3) * 4 + (x & 3));
      for (int c = 0; c < P; c++) { if (inside && p.set[c]) { if (p.freeColor && c < 3) continue; double lo = p.v[c] - tol, hi = p.v[c] + (k == SBC1 ? 9.2 : .51); if (!(q[c] >= lo && q[c] <= hi)) mc::fail(std::string(KN[k]) + (c == 3 ? " alpha" : " value") + ((blk[k == BC2 || k == BC3 ? 8 : 0], k == BC1 || k == BC1A) && (blk[0] | blk[1] << 8) <= (blk[2] | blk[3] << 8) ? " of a three colour block" : ""), "block %s pixel %d,%d channel %d is %u expected %.2f", mc::hex(blk, size_t(KB[k])).c_str(), x, y, c, q[c], p.v[c]); }
        else if (q[c] != fill) mc::fail(std::string(KN[k]) + " frame", "block %s at %d,%d of %dx%d blocks changes pixel %d,%d channel %d", mc::hex(blk, size_t(KB[k])).c_str(), px, py, bw, bh, x, y, c); } }
#ifndef MC_VARIANT_asan
  for (int i = 0; i < 32; i++) if (buf[0][i] != fill || buf[0][32 + n + size_t(i)] != fill) mc::fail(std::string(KN[k]) + " overrun", "block %s writes outside of the image", mc::hex(blk, size_t(KB[k])).c_str());
#endif
}
static void put16(unsigned char *b, unsigned v) { b[0] = (unsigned char)v; b[1] = (unsigned char)(v >> 8); }
static void idx2(unsigned char *b, int r, int stepv) { for (int i = 0; i < 4; i++) { b[i] = 0; for (int j = 0; j < 4; j++) b[i] = (unsigned char)(b[i] | ((i * 4 + j) * stepv + r + i) % 4 << (2 * j)); } }
static void idx3(unsigned char *b, int r) { uint64_t v = 0; for (int i = 0; i < 16; i++) v |= uint64_t((i + r + i / 8) & 7) << (3 * i); for (int k = 0; k < 6; k++) b[k] = (unsigned char)(v >> (8 * k)); }
static const int COLS[] = {BC1, BC1A, BC2, BC3, SBC1};
MC_SECTION("colour endpoints", 8) {
  uint64_t id = 0; std::vector<unsigned> alph = {0, 0xffff, 0x001f, 0x07e0, 0xf800, 0x8410, 0x7bef, 0x0821, 0xf81f, 0x1234, 0xabcd};
#ifdef MC_VARIANT_asan
  unsigned stride = 97;
#else
  unsigned stride = 1; if (mc::thorough()) for (unsigned v = 1; v < 0x10000; v += 2047) alph.push_back(v);
#endif
  for (int k : COLS) for (unsigned c0 = 0; c0 < 0x10000; c0 += stride) { if (!mc::mine(id++ / 64)) continue; mc::at("%s endpoint %04x", KN[k], c0);
      std::vector<unsigned> o = alph; o.push_back(c0); o.push_back((c0 + 1) & 0xffff); o.push_back((c0 - 1) & 0xffff);
      for (size_t z = 0; z < o.size() * 2; z++) { unsigned char b[16]; memset(b, 0x77, 16); unsigned char *q = b + (KB[k] == 16 ? 8 : 0); put16(q, z & 1 ? o[z / 2] : c0); put16(q + 2, z & 1 ? c0 : o[z / 2]); idx2(q + 4, int(z / 2 + c0) & 3, 1 + 2 * int(c0 >> 3 & 1)); if (opaqueOnly(k, b)) continue; one(k, b); } }
}
MC_SECTION("colour indices", 4) {
  uint64_t id = 0;
  for (int k : COLS) for (int e = 0; e < 4; e++) for (int row = 0; row < 4; row++) for (int base = 0; base < 256; base += 85) for (int v = 0; v < 256; v++) { if (!mc::mine(id++ / 16)) continue; static const unsigned E[4][2] = {{0xf81f, 0x07e0}, {0x1234, 0xedcb}, {0xffff, 0}, {0x8000, 0x8000}};
      unsigned char b[16]; memset(b, 0x5b, 16); unsigned char *q = b + (KB[k] == 16 ? 8 : 0); put16(q, E[e][0]); put16(q + 2, E[e][1]); for (int r = 0; r < 4; r++) q[4 + r] = (unsigned char)(r == row ? v : base); if (opaqueOnly(k, b)) continue; mc::at("%s row %d byte %02x", KN[k], row, v); one(k, b); }
}
MC_SECTION("explicit alpha", 1) {
  for (int row = 0; row < 8; row++) for (int base = 0; base < 256; base += 51) for (int v = 0; v < 256; v++) { unsigned char b[16]; memset(b, base, 8); b[row] = (unsigned char)v; put16(b + 8, 0x1234); put16(b + 10, 0x4321); idx2(b + 12, v & 3, 1); mc::at("BC2 alpha byte %d = %02x", row, v); one(BC2, b); }
}
static const int SING[] = {BC4, BC3, BC5, BC5GA};
MC_SECTION("single channel endpoints", 8) {
  uint64_t id = 0;
#ifdef MC_VARIANT_asan
  int st = 9;
#else
  int st = 1;
#endif
  for (int k : SING) for (int a = 0; a < 256; a += st) for (int d = 0; d < 256; d += st) { if (!mc::mine(id++ / 16)) continue; mc::at("%s endpoints %d %d", KN[k], a, d);
      for (int r = 0; r < (k == BC4 ? 8 : 2); r++) for (int half = 0; half < (k >= BC5 && k <= BC5GA ? 2 : 1); half++) { unsigned char b[16]; b[0] = b[8] = 200; b[1] = b[9] = 13; idx3(b + 2, 3); idx3(b + 10, 6); if (k == BC3) { put16(b + 8, 0x2345); put16(b + 10, 0x5432); } unsigned char *q = b + half * 8; q[0] = (unsigned char)a; q[1] = (unsigned char)d; idx3(q + 2, (r + a + d * 3) & 7); one(k, b); } }
}
MC_SECTION("single channel indices", 4) {
  uint64_t id = 0;
  for (int k : SING) for (int e = 0; e < 3; e++) for (int p = 0; p < 16; p++) for (int o = 0; o < 8; o++) for (int v = 0; v < 8; v++) { if (!mc::mine(id++ / 8)) continue; unsigned char b[16]; memset(b, 0x91, 16); if (k == BC3) { put16(b + 8, 0x2345); put16(b + 10, 0x5432); }
      for (int half = 0; half < (k == BC5 || k == BC5GA ? 2 : 1); half++) { unsigned char *q = b + half * 8; q[0] = e == 0 ? 250 : e == 1 ? 3 : 77; q[1] = e == 0 ? 7 : e == 1 ? 240 : 77; uint64_t bits = 0; for (int i = 0; i < 16; i++) bits |= uint64_t(i == p ? v : o) << (3 * i); for (int z = 0; z < 6; z++) q[2 + z] = (unsigned char)(bits >> (8 * z)); mc::at("%s pixel %d index %d others %d", KN[k], p, v, o); one(k, b); } }
}
MC_SECTION("block positions", 2) {
  uint64_t id = 0;
  for (int k = 0; k < KINDS; k++) for (int bw = 1; bw <= 4; bw++) for (int bh = 1; bh <= 4; bh++) for (int x = 0; x < bw; x++) for (int y = 0; y < bh; y++) { if (!mc::mine(id++)) continue; unsigned char b[16]; for (int h = 0; h < 16; h += 8) { b[h] = 0x31; b[h + 1] = 0x93; b[h + 2] = 0x4c; b[h + 3] = 0x2e; b[h + 4] = 0x1b; b[h + 5] = 0xe4; b[h + 6] = 0x72; b[h + 7] = 0xc9; } mc::at("%s block %d,%d of %dx%d", KN[k], x, y, bw, bh); one(k, b, bw, bh, x, y); }
}
MC_SECTION("far blocks", 8) { // large images: a block lands at its place only, as it does in an image of one block
  uint64_t id = 0; struct Dim { int w, h; }; std::vector<Dim> dims = {{64, 65}, {65, 64}, {256, 17}, {17, 256}, {1, 16400}, {16400, 1}, {1100, 4}, {128, 300}}; if (mc::thorough()) { dims.push_back({1, 70000}); dims.push_back({70000, 1}); dims.push_back({1030, 1030}); dims.push_back({2050, 600}); }
  for (auto &d : dims) for (int k = 0; k < KINDS; k++) { if (!mc::mine(id++)) continue; const int P = KP[k]; const size_t row = size_t(d.w) * 4 * size_t(P), n = row * 4 * size_t(d.h); unsigned char b[16]; for (int h = 0; h < 16; h += 8) { b[h] = 0x31; b[h + 1] = 0x93; b[h + 2] = 0x4c; b[h + 3] = 0x2e; b[h + 4] = 0x1b; b[h + 5] = 0xe4; b[h + 6] = 0x72; b[h + 7] = 0xc9; }
    unsigned char ref[2][64]; memset(ref[0], 0, 64); memset(ref[1], 255, 64); for (auto &r : ref) call(k, (const char *)b, (char *)r, 0, 0, 1); std::vector<unsigned char> o(n, 0x3c); bool odd[64]; for (int i = 0; i < 16 * P; i++) odd[i] = ref[0][i] != ref[1][i];
    std::set<int> xs = {0, 1, d.w / 2, d.w - 2, d.w - 1}, ys = {0, 1, d.h / 2, d.h - 2, d.h - 1}; for (int v : {15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 1023, 1024, 4095, 4096, 8191, 8192, 16383, 16384, 65535, 65536}) { if (v < d.w) xs.insert(v); if (v < d.h) ys.insert(v); }
    for (int x : xs) for (int y : ys) { if (x < 0 || y < 0 || x >= d.w || y >= d.h) continue; mc::at("%s block %d,%d of %dx%d", KN[k], x, y, d.w, d.h); mc::step(); mc::trace(); mc::state(mc::mix(((uint64_t(k) * 80000 + x) * 80000 + y) * 80000 + d.w)); mc::beat(); call(k, (const char *)b, (char *)o.data(), uint32(x), uint32(y), uint32(d.w)); size_t blk = 4 * size_t(P);
      for (int r = 0; r < 4; r++) { unsigned char *q = &o[(size_t(y) * 4 + size_t(r)) * row + size_t(x) * blk]; for (size_t i = 0; i < blk; i++) { size_t z = size_t(r) * blk + i; unsigned char want = odd[z] ? 0x3c : ref[0][z]; if (q[i] != want) mc::fail(std::string(KN[k]) + " far value", "block %d,%d of %dx%d: row %d byte %zu is %u expected %u", x, y, d.w, d.h, r, i, q[i], want); q[i] = 0x3c; } }
      const unsigned char *c = o.data(); if (c[0] != 0x3c || memcmp(c, c + 1, n - 1)) { size_t z = 0; while (c[z] == 0x3c) z++; mc::fail(std::string(KN[k]) + " far frame", "block %d,%d of %dx%d changes byte %zu", x, y, d.w, d.h, z); memset(o.data(), 0x3c, n); } } }
}
MC_SECTION("whole images", 2) { // every block of an image decoded in every of three orders gives the same full image
  for (int k = 0; k < KINDS; k++) for (int bw = 1; bw <= 3; bw++) for (int bh = 1; bh <= 3; bh++) for (int ord = 0; ord < 3; ord++) { if (!mc::mine(uint64_t(k + ord))) continue; mc::at("%s image %dx%d blocks order %d", KN[k], bw, bh, ord); mc::trace(); int n = bw * bh; std::vector<std::vector<unsigned char>> bl; for (int i = 0; i < n; i++) { std::vector<unsigned char> b(16); for (int z = 0; z < 16; z++) b[z] = (unsigned char)(i * 37 + z * 59 + 5); b[1] |= 0x80; b[3] &= 0x7f; b[9] |= 0x80; b[11] &= 0x7f; bl.push_back(b); }
      std::unique_ptr<unsigned char[]> o(new unsigned char[size_t(n * 16 * KP[k])]); memset(o.get(), 0, size_t(n * 16 * KP[k])); for (int i = 0; i < n; i++) { int j = ord == 0 ? i : ord == 1 ? n - 1 - i : (i * 2 + 1) % n; if (ord == 2 && n % 2 == 0) j = i ^ (n > 1 && i / 2 * 2 + 1 < n ? 1 : 0); call(k, (const char *)bl[size_t(j)].data(), (char *)o.get(), uint32(j % bw), uint32(j / bw), uint32(bw)); mc::step(); }
      for (int y = 0; y < bh * 4; y++) for (int x = 0; x < bw * 4; x++) { Px p = pixel(k, bl[size_t(y / 4 * bw + x / 4)].data(), (y & 3) * 4 + (x & 3)); for (int c = 0; c < KP[k]; c++) { int q = o[size_t((y * bw * 4 + x) * KP[k] + c)]; if (p.set[c] && !(p.freeColor && c < 3) && std::fabs(q - p.v[c]) > (k == SBC1 ? 9.2 : 1.01)) mc::fail(std::string(KN[k]) + " image", "%s pixel %d,%d channel %d is %d expected %.2f", mc::g().job->cur, x, y, c, q, p.v[c]); } } }
}
MC_SECTION("computed blue", 1) {
  for (int g = 0; g < 256; g++) { std::vector<unsigned char> row(256 * 3 + 8, 0x99); for (int r = 0; r < 256; r++) { row[size_t(r * 3 + 1)] = (unsigned char)g; row[size_t(r * 3 + 2)] = (unsigned char)r; } mc::at("blue for first channel %d", g); ComputeBC5Blue((char *)row.data(), 256 * 3); mc::step(256); mc::trace(256); mc::state(mc::mix(uint64_t(g + 999)));
    for (int r = 0; r < 256; r++) { double a = g * 2. / 255 - 1, b = r * 2. / 255 - 1, z = std::sqrt(std::max(0., 1 - std::min(1., a * a + b * b))), e = (z + 1) * 127; if (row[size_t(r * 3 + 1)] != g || row[size_t(r * 3 + 2)] != r) mc::fail("blue frame", "channels %d %d changed", g, r); if (std::fabs(row[size_t(r * 3)] - e) > 1.1) mc::fail("blue value", "channels %d %d give %d expected %.2f", g, r, row[size_t(r * 3)], e); }
    for (size_t z = 256 * 3; z < row.size(); z++) if (row[z] != 0x99) mc::fail("blue overrun", "byte %zu", z); }
}
