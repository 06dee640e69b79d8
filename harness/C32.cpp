// VARIANT: opt -O2
// VARIANT: asan -O1 -fsanitize=address,undefined -fno-sanitize-recover=undefined
// RULE: state = format, dimension or header configuration; transition = one real size, conversion or header call; trace = one format or texture whose levels, conversions or bytes are compared with a model derived from the format's name
#include "mc.hpp"
#include "formats/DDS.hpp"
#include "datas/binreader_stream.hpp"
#include "datas/binwritter_stream.hpp"
#include <set>
#include <sstream>
#define CORE_FORMATS(X) \
  X(UNKNOWN) X(R32G32B32A32_TYPELESS) X(R32G32B32A32_FLOAT) X(R32G32B32A32_UINT) X(R32G32B32A32_SINT) X(R32G32B32_TYPELESS) X(R32G32B32_FLOAT) X(R32G32B32_UINT) X(R32G32B32_SINT) X(R16G16B16A16_TYPELESS) \
  X(R16G16B16A16_FLOAT) X(R16G16B16A16_UNORM) X(R16G16B16A16_UINT) X(R16G16B16A16_SNORM) X(R16G16B16A16_SINT) X(R32G32_TYPELESS) X(R32G32_FLOAT) X(R32G32_UINT) X(R32G32_SINT) X(R32G8X24_TYPELESS) X(D32_FLOAT_S8X24_UINT) \
  X(R32_FLOAT_X8X24_TYPELESS) X(X32_TYPELESS_G8X24_UINT) X(R10G10B10A2_TYPELESS) X(R10G10B10A2_UNORM) X(R10G10B10A2_UINT) X(R11G11B10_FLOAT) X(R8G8B8A8_TYPELESS) X(R8G8B8A8_UNORM) X(R8G8B8A8_UNORM_SRGB) \
  X(R8G8B8A8_UINT) X(R8G8B8A8_SNORM) X(R8G8B8A8_SINT) X(R16G16_TYPELESS) X(R16G16_FLOAT) X(R16G16_UNORM) X(R16G16_UINT) X(R16G16_SNORM) X(R16G16_SINT) X(R32_TYPELESS) X(D32_FLOAT) X(R32_FLOAT) X(R32_UINT) \
  X(R32_SINT) X(R24G8_TYPELESS) X(D24_UNORM_S8_UINT) X(R24_UNORM_X8_TYPELESS) X(X24_TYPELESS_G8_UINT) X(R8G8_TYPELESS) X(R8G8_UNORM) X(R8G8_UINT) X(R8G8_SNORM) X(R8G8_SINT) X(R16_TYPELESS) X(R16_FLOAT) \
  X(D16_UNORM) X(R16_UNORM) X(R16_UINT) X(R16_SNORM) X(R16_SINT) X(R8_TYPELESS) X(R8_UNORM) X(R8_UINT) X(R8_SNORM) X(R8_SINT) X(A8_UNORM) X(R1_UNORM) X(R9G9B9E5_SHAREDEXP) X(R8G8_B8G8_UNORM) X(G8R8_G8B8_UNORM) \
  X(BC1_TYPELESS) X(BC1_UNORM) X(BC1_UNORM_SRGB) X(BC2_TYPELESS) X(BC2_UNORM) X(BC2_UNORM_SRGB) X(BC3_TYPELESS) X(BC3_UNORM) X(BC3_UNORM_SRGB) X(BC4_TYPELESS) X(BC4_UNORM) X(BC4_SNORM) X(BC5_TYPELESS) \
  X(BC5_UNORM) X(BC5_SNORM) X(B5G6R5_UNORM) X(B5G5R5A1_UNORM) X(B8G8R8A8_UNORM) X(B8G8R8X8_UNORM) X(R10G10B10_XR_BIAS_A2_UNORM) X(B8G8R8A8_TYPELESS) X(B8G8R8A8_UNORM_SRGB) X(B8G8R8X8_TYPELESS) X(B8G8R8X8_UNORM_SRGB) \
  X(BC6H_TYPELESS) X(BC6H_UF16) X(BC6H_SF16) X(BC7_TYPELESS) X(BC7_UNORM) X(BC7_UNORM_SRGB) X(B4G4R4A4_UNORM) 
struct F { const char *name; DXGI_FORMAT id; uint32_t official; };
static const std::vector<F> &formats() { static std::vector<F> v; if (v.empty()) { uint32_t i = 0;
#define X(n) v.push_back({#n, DXGI_FORMAT_##n, i++});
  CORE_FORMATS(X)
#undef X
  v.back().official = 115; } return v; }
static bool starts(const char *n, const char *p) { return !strncmp(n, p, strlen(p)); }
static bool isBC(const char *n) { return n[0] == 'B' && n[1] == 'C'; }
// bits of a pixel, from the format's name
static uint32_t bits(const char *n) { if (starts(n, "UNKNOWN")) return 0; if (isBC(n)) return n[2] == '1' || n[2] == '4' ? 4 : 8; uint32_t sum = 0; const char *p = n; while (*p) { if (*p == '_') { if (p[1] && strchr("RGBADXE", p[1]) && isdigit(uint8_t(p[2]))) { p++; continue; } if (starts(p, "_XR_BIAS_")) { p += 9; continue; } break; } if (isdigit(uint8_t(p[1]))) { sum += strtoul(p + 1, const_cast<char **>(&p), 10); } else p++; } 
  if (starts(n, "D32_FLOAT_S8X24")) return 64; if (starts(n, "R32_FLOAT_X8X24")) return 64; if (starts(n, "X32_TYPELESS_G8X24")) return 64; if (starts(n, "D24_UNORM_S8") || starts(n, "R24_UNORM_X8") || starts(n, "X24_TYPELESS_G8")) return 32; return sum; }
static bool packed(const char *n) { return starts(n, "R8G8_B8G8") || starts(n, "G8R8_G8B8"); }
struct Level { uint32_t size, offset; };
static uint64_t model(uint32_t w, uint32_t h, uint32_t mips, uint32_t bpp, bool bc, std::vector<uint64_t> &sizes) { uint64_t total = 0; sizes.clear(); for (uint32_t m = 0; m < (mips ? mips : 1); m++) { uint64_t mw = std::max<uint64_t>(1, m < 32 ? w >> m : 0), mh = std::max<uint64_t>(1, m < 32 ? h >> m : 0); uint64_t s = bc ? (mw + 3) / 4 * ((mh + 3) / 4) * (bpp * 2) : (mw * mh * bpp + 7) / 8; sizes.push_back(s); total += s; } return total; }
struct Guarded { uint32_t before[64]; DDS::Mips m; uint32_t after[64]; Guarded() { memset(this, 0xC3, sizeof *this); } bool intact() const { for (auto v : before) if (v != 0xC3C3C3C3u) return false; for (auto v : after) if (v != 0xC3C3C3C3u) return false; return true; } };
static void sizes(const DDS &d, const char *name, uint32_t bpp, bool bc, uint32_t w, uint32_t h, uint32_t mips) {
  static thread_local std::vector<uint64_t> want; uint32_t n = std::min<uint32_t>(mips ? mips : 1, DDS::Mips::maxMips + 0u); uint64_t total = model(w, h, n, bpp, bc, want); if (total > 0xffffffffull) return; mc::step();
  Guarded g; uint32_t got = d.ComputeBufferSize(g.m); if (!g.intact()) { mc::fail("table overrun", "%s %u x %u with %u levels writes outside the level table", name, w, h, mips); return; }
  if (!bpp) { if (got) mc::fail("unknown size", "%s: size %u of a format without bits per pixel", name, got); return; }
  uint64_t off = 0; for (uint32_t m = 0; m < n; m++) { if (g.m.sizes[m] != want[m]) { mc::fail(bc ? "block level size" : "level size", "%s %u x %u level %u has size %u expected %llu", name, w, h, m, g.m.sizes[m], (unsigned long long)want[m]); return; } if (g.m.offsets[m] != off) { mc::fail("level offset", "%s %u x %u level %u at %u expected %llu", name, w, h, m, g.m.offsets[m], (unsigned long long)off); return; } off += want[m]; }
  if (got != total) mc::fail("total size", "%s %u x %u %u levels: total %u expected %llu", name, w, h, mips, got, (unsigned long long)total);
}
static std::vector<uint32_t> dims(int small) { std::vector<uint32_t> v; for (int i = 1; i <= small; i++) v.push_back(i); for (uint32_t p = 32; p <= 16384; p *= 2) for (int d = -1; d <= (p == 16384 ? 0 : 1); d++) if (p + d > uint32_t(small)) v.push_back(p + d); return v; }
MC_SECTION("format table", 1) { for (auto &f : formats()) { mc::at("%s", f.name); mc::trace(); mc::state(mc::mix(f.official + 1)); mc::step(); if (uint32_t(f.id) != f.official) mc::fail("format value", "%s is %u expected %u", f.name, uint32_t(f.id), f.official); if (IsBC(f.id) != isBC(f.name)) mc::fail("block compression", "%s", f.name);
    DDS d; d = DDSFormat_DX10; d.dxgiFormat = f.id; d.width = d.height = 4; d.bpp = 0; d.ComputeBPP(); if (d.bpp != bits(f.name)) mc::fail("bits per pixel", "%s has %u expected %u", f.name, d.bpp, bits(f.name)); d.ComputeBPP(); if (d.bpp != bits(f.name)) mc::fail("bits per pixel", "%s changes when computed twice", f.name); }
  for (uint64_t v : {uint64_t(120), uint64_t(121), uint64_t(128), uint64_t(200), uint64_t(255), uint64_t(0x10000), uint64_t(0x7fffffff), uint64_t(0x80000000u), uint64_t(0xffffffffu)}) { mc::at("format code %llu", (unsigned long long)v); mc::step(); DDS d; d = DDSFormat_DX10; d.dxgiFormat = DXGI_FORMAT(v); d.width = d.height = 4; d.ComputeBPP(); if (d.bpp) mc::fail("unknown format", "code %llu has %u bits per pixel", (unsigned long long)v, d.bpp); }
}
struct L { const char *name; DDS_PixelFormat pf; uint32_t bits; bool bc; const char *dx; uint32_t r, g, b, a; const char *code; uint32_t num; }; // masks: memory position of the channels
static std::vector<L> legacy() { typedef DDS_PixelFormat P; return {
#define FC(n, bp, bc, dx) {#n, DDSFormat_##n, bp, bc, dx, 0, 0, 0, 0, #n, 0}
  FC(DXT1, 4, true, "BC1_UNORM"), FC(DXT2, 8, true, "BC2_UNORM"), FC(DXT3, 8, true, "BC2_UNORM"), FC(DXT4, 8, true, "BC3_UNORM"), FC(DXT5, 8, true, "BC3_UNORM"), FC(BC4U, 4, true, "BC4_UNORM"), FC(BC4S, 4, true, "BC4_SNORM"), FC(BC5U, 8, true, "BC5_UNORM"), FC(BC5S, 8, true, "BC5_SNORM"), FC(ATI1, 4, true, "BC4_UNORM"), FC(ATI2, 8, true, "BC5_UNORM"),
  {"R8G8_B8G8", DDSFormat_R8G8_B8G8, 32, false, "R8G8_B8G8_UNORM", 0, 0, 0, 0, "RBGB", 0}, {"G8R8_G8B8", DDSFormat_G8R8_G8B8, 32, false, "G8R8_G8B8_UNORM", 0, 0, 0, 0, "GRGB", 0}, {"YUY2", DDSFormat_YUY2, 32, false, "YUY2", 0, 0, 0, 0, "YUY2", 0}, {"UYVY", DDSFormat_UYVY, 32, false, nullptr, 0, 0, 0, 0, "UYVY", 0},
#define NC(n, bp, dx) {dx, P(n, bp), bp, false, dx, 0, 0, 0, 0, nullptr, n}
  NC(36, 64, "R16G16B16A16_UNORM"), NC(110, 64, "R16G16B16A16_SNORM"), NC(111, 16, "R16_FLOAT"), NC(112, 32, "R16G16_FLOAT"), NC(113, 64, "R16G16B16A16_FLOAT"), NC(114, 32, "R32_FLOAT"), NC(115, 64, "R32G32_FLOAT"), NC(116, 128, "R32G32B32A32_FLOAT"),
#define MC(n, bp, dx) {#n, DDSFormat_##n, bp, false, dx, DDSFormat_##n.RBitMask, DDSFormat_##n.GBitMask, DDSFormat_##n.BBitMask, DDSFormat_##n.ABitMask, nullptr, 0}
  MC(A2B10G10R10, 32, ""), MC(A8R8G8B8, 32, ""), MC(A1R5G5B5, 16, ""), MC(A4R4G4B4, 16, ""), MC(A8L8, 16, ""), MC(X8R8G8B8, 32, ""), MC(G16R16, 32, ""), MC(R8G8B8, 24, ""), MC(R5G6B5, 16, ""), MC(L16, 16, ""), MC(L8, 8, ""), MC(A8, 8, "")}; }
static DXGI_FORMAT byName(const char *n) { if (!strcmp(n, "YUY2")) return DXGI_FORMAT_YUY2; for (auto &f : formats()) if (!strcmp(f.name, n)) return f.id; return DXGI_FORMAT_UNKNOWN; }
static const char *nameOf(DXGI_FORMAT i) { if (i == DXGI_FORMAT_YUY2) return "YUY2"; for (auto &f : formats()) if (f.id == i) return f.name; return "?"; }
// channel masks in a little endian pixel: the extended format lists channels from the lowest bit
static bool masks(const char *n, uint32_t out[4]) { static const char C[] = "RGBA"; memset(out, 0, 16); int pos = 0, seen = 0; for (const char *p = n; *p && *p != '_';) { const char *c = strchr(C, *p); if (!c && *p != 'X') return false; uint32_t w = strtoul(p + 1, const_cast<char **>(&p), 10); if (!w || w > 16 || pos + w > 32) return false; if (c) out[c - C] = ((1u << w) - 1) << pos; pos += w; seen++; } return seen > 0; }
// the legacy format's masks as the layout names them, from the highest bit
static bool nameMasks(const char *n, uint32_t out[4]) { memset(out, 0, 16); int total = 0; for (const char *p = n; *p;) { p++; total += strtoul(p, const_cast<char **>(&p), 10); } int pos = total; for (const char *p = n; *p;) { char ch = *p++; uint32_t w = strtoul(p, const_cast<char **>(&p), 10); pos -= w; uint32_t m = ((1u << w) - 1) << pos; int i = ch == 'R' || ch == 'L' ? 0 : ch == 'G' ? 1 : ch == 'B' ? 2 : ch == 'A' ? 3 : -1; if (i >= 0) out[i] = m; } return true; }
MC_SECTION("legacy pixel formats", 1) {
  for (auto &l : legacy()) { mc::at("%s", l.name); mc::trace(); mc::state(mc::hashBytes(l.name, strlen(l.name))); mc::step(); const DDS_PixelFormat &p = l.pf; if (p.pfSize != 32) mc::fail("pixel format size", "%s", l.name); if (p.bpp != l.bits) mc::fail("legacy bits per pixel", "%s has %u", l.name, p.bpp);
    if (l.code || l.num) { uint32_t want = l.num; if (l.code) { want = 0; for (int i = 0; i < 4; i++) want |= uint32_t(uint8_t(l.code[i])) << 8 * i; } if (p.fourCC != want) mc::fail("four character code", "%s is %08x expected %08x", l.name, p.fourCC, want); if (uint32_t(p.pfFlags) != 4) mc::fail("pixel format flags", "%s", l.name);
      DDS d; d = p; d.bpp = 0; d.width = d.height = 8; d.ComputeBPP(); if (d.bpp != l.bits) mc::fail("legacy bits per pixel computed", "%s has %u expected %u", l.name, d.bpp, l.bits); }
    else { uint32_t m[4]; nameMasks(l.name, m); if (!strcmp(l.name, "A2B10G10R10")) m[3] = p.ABitMask ? m[3] : 0; uint32_t got[4] = {p.RBitMask, p.GBitMask, p.BBitMask, p.ABitMask}; for (int i = 0; i < 4; i++) if (got[i] != m[i]) mc::fail("channel masks", "%s channel %d is %08x expected %08x", l.name, i, got[i], m[i]); uint32_t fl = strchr(l.name, 'L') ? 0x20000 : !strcmp(l.name, "A8") ? 2 : 0x40; if (l.name[0] == 'A' && strcmp(l.name, "A8")) fl |= 1; if (uint32_t(p.pfFlags) != fl) mc::fail("pixel format flags", "%s has %x expected %x", l.name, uint32_t(p.pfFlags), fl); if (p.fourCC) mc::fail("four character code", "%s", l.name); }
    // into the extended header and back
    DDS d; d = p; d.width = 12; d.height = 20; int r = d.FromLegacy(); if (l.dx == nullptr) { if (!r) mc::fail("legacy conversion", "%s has no extended format but is converted to %s", l.name, nameOf(d.dxgiFormat)); continue; }
    if (*l.dx) { if (r) { mc::fail("legacy conversion", "%s is refused", l.name); continue; } if (d.dxgiFormat != byName(l.dx)) mc::fail("legacy conversion", "%s becomes %s expected %s", l.name, nameOf(d.dxgiFormat), l.dx); }
    if (!strcmp(l.name, "DXT2") || !strcmp(l.name, "DXT4")) { if (d.alphaMode != DDS::AlphaMode_Premultiplied) mc::fail("premultiplied", "%s", l.name); } else if (d.alphaMode != DDS::AlphaMode_Unknown) mc::fail("premultiplied", "%s", l.name);
    if (r) { if (!(static_cast<DDS_PixelFormat &>(d) == p)) mc::fail("refused conversion", "%s is refused but changed", l.name); continue; }
    if (!(static_cast<DDS_PixelFormat &>(d) == DDSFormat_DX10)) mc::fail("extended marker", "%s converted without the extended header mark", l.name); d.ComputeBPP(); if (d.bpp != l.bits) mc::fail("converted bits per pixel", "%s has %u after conversion, had %u", l.name, d.bpp, l.bits); if (IsBC(d.dxgiFormat) != l.bc) mc::fail("converted block compression", "%s", l.name);
    if (!*l.dx && !strchr(l.name, 'L')) { uint32_t m[4]; if (!masks(nameOf(d.dxgiFormat), m)) mc::fail("converted channels", "%s becomes %s", l.name, nameOf(d.dxgiFormat)); uint32_t had[4] = {l.r, l.g, l.b, l.a ? l.a : m[3]}; for (int i = 0; i < 4; i++) if (had[i] != m[i]) { mc::fail("converted channels", "%s becomes %s: channel %d is at %08x, was at %08x", l.name, nameOf(d.dxgiFormat), i, m[i], had[i]); break; } }
    for (int force = 0; force < 2; force++) { DDS b = d; if (b.ToLegacy(force)) { if (force) mc::fail("back conversion", "%s becomes %s which cannot be converted back", l.name, nameOf(d.dxgiFormat)); continue; } std::string nm = l.name; bool alias = nm == "ATI1" || nm == "BC5U"; if (!alias && !(static_cast<DDS_PixelFormat &>(b) == p)) mc::fail("back conversion", "%s comes back different through %s", l.name, nameOf(d.dxgiFormat)); if (b.bpp != l.bits) mc::fail("back conversion bits", "%s", l.name); if (b.width != 12 || b.height != 20 || b.dxgiFormat != d.dxgiFormat || b.alphaMode != d.alphaMode) mc::fail("back conversion", "%s changes other fields", l.name); } }
}
MC_SECTION("extended to legacy", 1) {
  for (auto &f : formats()) for (int force = 0; force < 2; force++) for (int alpha = 0; alpha < 5; alpha++) { mc::at("%s force %d alpha %d", f.name, force, alpha); mc::trace(); mc::state(mc::mix((f.official * 2 + force) * 5 + alpha + 1000)); mc::step(); DDS d; d = DDSFormat_DX10; d.dxgiFormat = f.id; d.alphaMode = DDS::AlphaMode(alpha); d.width = 5; d.height = 7; d.ComputeBPP(); uint32_t b0 = d.bpp; DDS o = d; int r = d.ToLegacy(force); if (r) { if (!(static_cast<DDS_PixelFormat &>(d) == static_cast<DDS_PixelFormat &>(o)) || d.dxgiFormat != f.id) mc::fail("refused conversion", "%s is refused but changed", f.name); continue; }
    if (static_cast<DDS_PixelFormat &>(d) == DDSFormat_DX10) mc::fail("legacy marker", "%s still has the extended header mark", f.name); if (d.bpp != b0) mc::fail("legacy bits", "%s has %u bits, %u as legacy", f.name, b0, d.bpp); if (d.pfFlags == DDS::PFFlags_FourCC) { DDS e; e = static_cast<DDS_PixelFormat &>(d); e.bpp = 0; e.ComputeBPP(); if (e.bpp != b0) mc::fail("legacy bits", "%s: code %x computes %u", f.name, d.fourCC, e.bpp); } else { uint32_t m[4]; bool lum = d.pfFlags == DDS::PFFlags_Luminance; if (masks(f.name, m) && !lum) { uint32_t had[4] = {d.RBitMask, d.GBitMask, d.BBitMask, d.ABitMask ? d.ABitMask : starts(f.name, "R10G10B10A2") ? m[3] : 0}; for (int i = 0; i < 4; i++) if (had[i] != m[i]) { mc::fail("legacy channels", "%s: channel %d is at %08x, legacy header says %08x", f.name, i, m[i], had[i]); break; } } }
    DDS b = d; b.dxgiFormat = DXGI_FORMAT_UNKNOWN; b.alphaMode = DDS::AlphaMode_Unknown; if (b.FromLegacy()) { mc::fail("legacy return", "%s converts to a legacy format which is not accepted back", f.name); continue; } 
    std::string n = f.name, want = n; size_t s = want.rfind("_SRGB"); if (s != std::string::npos) want.resize(s); if (want == "D16_UNORM") want = "R16_UNORM"; if (nameOf(b.dxgiFormat) != want) mc::fail("legacy return", "%s comes back as %s", f.name, nameOf(b.dxgiFormat)); bool pm = alpha == DDS::AlphaMode_Premultiplied && (n == "BC2_UNORM" || n == "BC3_UNORM"); if ((b.alphaMode == DDS::AlphaMode_Premultiplied) != pm) mc::fail("premultiplied", "%s comes back with alpha mode %d", f.name, int(b.alphaMode));
    if (!force && want != n) mc::fail("lossy conversion", "%s converts to a legacy format of %s without being asked to", f.name, want.c_str()); }
}
MC_SECTION("level sizes", 8) {
  auto ds = dims(mc::thorough() ? 33 : 20); uint64_t id = 0; std::set<std::pair<uint32_t, bool>> done;
  for (auto &f : formats()) { if (packed(f.name)) continue; bool bc = isBC(f.name); uint32_t bp = bits(f.name); bool fresh = done.insert({bp, bc}).second; bool all = fresh || mc::thorough();
    for (uint32_t w : ds) { if (!mc::mine(id++)) continue; if (bp == 1 && w % 8) continue; mc::at("%s width %u", f.name, w); mc::beat(); for (uint32_t h : ds) { if (!all && (w > 20 || h > 20) && w != h) continue; uint32_t full = 1; while ((w >> full) || (h >> full)) full++; mc::trace(); mc::state(mc::mix((uint64_t(f.official) << 40 | uint64_t(w) << 20 | h) + 7)); DDS d; d = DDSFormat_DX10; d.dxgiFormat = f.id; d.width = w; d.height = h; d.ComputeBPP(); for (uint32_t mips = 0; mips <= full; mips++) { if (bp == 1 && mips > 1) break; d.NumMipmaps(mips); sizes(d, f.name, bp, bc, w, h, mips); } } } }
}
MC_SECTION("single bit formats", 1) { // how rows are packed is left open, but every level holds all its pixels and none overlap
  for (uint32_t w = 1; w <= 70; w++) for (uint32_t h = 1; h <= 70; h++) { mc::at("R1_UNORM %u x %u", w, h); mc::trace(); mc::state(mc::mix((uint64_t(w) << 20 | h) + 99)); uint32_t full = 1; while ((w >> full) || (h >> full)) full++; for (uint32_t mips = 1; mips <= full; mips++) { DDS d; d = DDSFormat_DX10; d.dxgiFormat = DXGI_FORMAT_R1_UNORM; d.width = w; d.height = h; d.ComputeBPP(); d.NumMipmaps(int(mips)); Guarded g; uint32_t got = d.ComputeBufferSize(g.m), off = 0; mc::step(); for (uint32_t m = 0; m < mips; m++) { uint64_t mw = std::max(1u, w >> m), mh = std::max(1u, h >> m); if (uint64_t(g.m.sizes[m]) * 8 < mw * mh || g.m.sizes[m] > (mw + 7) / 8 * mh) mc::fail("single bit level", "%u x %u level %u has size %u", w, h, m, g.m.sizes[m]); if (g.m.offsets[m] != off) mc::fail("single bit offset", "%u x %u level %u", w, h, m); off += g.m.sizes[m]; } if (got != off) mc::fail("single bit total", "%u x %u", w, h); } }
}
MC_SECTION("legacy level sizes", 4) {
  auto ds = dims(20); uint64_t id = 0; for (auto &l : legacy()) { if (l.dx && (strchr(l.dx, 'Y') || strstr(l.dx, "_B8G8") || strstr(l.dx, "_G8B8"))) continue; if (!strcmp(l.name, "UYVY")) continue; for (uint32_t w : ds) { if (!mc::mine(id++)) continue; mc::at("%s width %u", l.name, w); for (uint32_t h : ds) { mc::trace(); mc::state(mc::mix((mc::hashBytes(l.name, strlen(l.name)) ^ uint64_t(w) << 20 ^ h) + 7)); DDS d; d = l.pf; d.width = w; d.height = h; d.ComputeBPP(); uint32_t full = 1; while ((w >> full) || (h >> full)) full++; for (uint32_t mips = 0; mips <= full; mips++) { d.NumMipmaps(mips); sizes(d, l.name, l.bits, l.bc, w, h, mips); } } mc::beat(); } }
}
MC_SECTION("too many levels", 1) { // level counts read from a damaged header
  for (auto &f : formats()) { if (packed(f.name) || bits(f.name) == 1) continue; for (uint32_t w : {1u, 4u, 5u, 64u, 100u}) for (uint64_t mips : {14ull, 15ull, 16ull, 17ull, 20ull, 31ull, 32ull, 33ull, 40ull, 79ull}) { mc::at("%s %u levels %llu", f.name, w, (unsigned long long)mips); mc::trace(); DDS d; d = DDSFormat_DX10; d.dxgiFormat = f.id; d.width = w; d.height = w; d.ComputeBPP(); d.NumMipmaps(int(mips)); sizes(d, f.name, bits(f.name), isBC(f.name), w, w, uint32_t(mips)); } }
}
// ---- header layout
static uint32_t at(const std::string &s, size_t o) { uint32_t v; memcpy(&v, s.data() + o, 4); return v; }
MC_SECTION("header bytes", 2) {
  { DDS d; d.width = 0x11121314; d.height = 0x21222324; d = DDSFormat_A8R8G8B8; std::string s((const char *)&d, sizeof d); mc::trace(); mc::step(); if (sizeof d != 148 || DDS::LEGACY_SIZE != 128 || DDS::DDS_SIZE != 148) mc::fail("header size", "%zu", sizeof d); struct { size_t o; uint32_t v; const char *n; } W[] = {{0, 0x20534444, "magic"}, {4, 124, "size"}, {8, 0x1007, "flags"}, {12, 0x21222324, "height"}, {16, 0x11121314, "width"}, {20, 0, "pitch"}, {24, 1, "depth"}, {28, 0, "mips"}, {76, 32, "pixel format size"}, {80, 0x41, "pixel format flags"}, {84, 0, "code"}, {88, 32, "bits"}, {92, 0xff0000, "red"}, {96, 0xff00, "green"}, {100, 0xff, "blue"}, {104, 0xff000000u, "alpha"}, {108, 0x1000, "caps"}, {112, 0, "caps 1"}, {116, 0, "caps 2"}, {120, 0, "caps 3"}, {124, 0, "reserved"}, {128, 0, "format"}, {132, 3, "dimension"}, {136, 0, "misc"}, {140, 1, "array"}, {144, 0, "alpha mode"}};
    for (auto &w : W) { mc::step(); if (at(s, w.o) != w.v) mc::fail("header field", "%s at %zu is %08x expected %08x", w.n, w.o, at(s, w.o), w.v); } for (size_t o = 32; o < 76; o += 4) if (at(s, o)) mc::fail("header field", "reserved at %zu", o); }
  { struct { int bit; uint32_t v; } H[] = {{DDS::Flags_Caps, 1}, {DDS::Flags_Height, 2}, {DDS::Flags_Width, 4}, {DDS::Flags_Pitch, 8}, {DDS::Flags_PixelFormat, 0x1000}, {DDS::Flags_MipMaps, 0x20000}, {DDS::Flags_LinearSize, 0x80000}, {DDS::Flags_Depth, 0x800000}, {DDS::Caps00Flags_Complex, 8}, {DDS::Caps00Flags_MipMaps, 0x400000}, {DDS::Caps00Flags_Texture, 0x1000}, {DDS::Caps01Flags_CubeMap, 0x200}, {DDS::Caps01Flags_CubeMap_PositiveX, 0x400}, {DDS::Caps01Flags_CubeMap_NegativeX, 0x800}, {DDS::Caps01Flags_CubeMap_PositiveY, 0x1000}, {DDS::Caps01Flags_CubeMap_NegativeY, 0x2000}, {DDS::Caps01Flags_CubeMap_PositiveZ, 0x4000}, {DDS::Caps01Flags_CubeMap_NegativeZ, 0x8000}, {DDS::Caps01Flags_Volume, 0x200000}, {DDS::PFFlags_AlphaPixels, 1}, {DDS::PFFlags_Alpha, 2}, {DDS::PFFlags_FourCC, 4}, {DDS::PFFlags_RGB, 0x40}, {DDS::PFFlags_YUV, 0x200}, {DDS::PFFlags_Luminance, 0x20000}, {DDS::MiscFlag_CubeTexture, 4}}; for (auto &h : H) { mc::step(); if (1u << h.bit != h.v) mc::fail("flag value", "%08x expected %08x", 1u << h.bit, h.v); } }
  for (int mips = 0; mips <= 15; mips++) for (int before = 0; before < 3; before++) { mc::at("%d levels", mips); mc::trace(); mc::step(); DDS d; d.width = d.height = 16; if (before) d.NumMipmaps(before == 1 ? 1 : 9); d.NumMipmaps(mips); uint32_t fl = 0x1007 | (mips > 1 ? 0x20000 : 0), c = 0x1000 | (mips > 1 ? 0x400008 : 0); if (d.mipMapCount != uint32_t(mips) || uint32_t(d.flags) != fl || uint32_t(d.caps00) != c) mc::fail("mip flags", "%d levels: count %u flags %x caps %x", mips, d.mipMapCount, uint32_t(d.flags), uint32_t(d.caps00)); }
  // every single field written, read back
  uint64_t id = 0; for (int legacyOnly = 0; legacyOnly < 2; legacyOnly++) for (int word = 0; word < 37; word++) for (int pat = 0; pat < 34; pat++) { if (!mc::mine(id++)) continue; mc::at("word %d pattern %d", word, pat); mc::trace(); mc::state(mc::mix(id)); mc::step(); DDS d; d.width = 3; d.height = 4; uint32_t v = pat < 32 ? 1u << pat : pat == 32 ? 0 : ~0u; memcpy(reinterpret_cast<char *>(static_cast<DDS_Header *>(&d)) + word * 4, &v, 4); size_t n = legacyOnly ? DDS::LEGACY_SIZE + 0 : DDS::DDS_SIZE + 0; std::stringstream ss; BinWritterRef wr(ss); wr.WriteBuffer(reinterpret_cast<const char *>(&d), n); std::string s = ss.str(); if (s.size() != n || at(s, 0) != *reinterpret_cast<uint32_t *>(&d)) mc::fail("written", "word %d", word); DDS e; BinReaderRef rd(ss); rd.ReadBuffer(reinterpret_cast<char *>(&e), n); if (memcmp(&d, &e, n)) mc::fail("read back", "word %d", word); bool samePF = !memcmp(reinterpret_cast<char *>(&d) + 80, reinterpret_cast<char *>(&e) + 80, 28); if ((static_cast<DDS_PixelFormat &>(d) == static_cast<DDS_PixelFormat &>(e)) != samePF) mc::fail("equality", "word %d", word); DDS fresh; if (word >= 20 && word < 27) { bool eq = static_cast<DDS_PixelFormat &>(fresh) == static_cast<DDS_PixelFormat &>(d); if (eq != !memcmp(reinterpret_cast<char *>(&fresh) + 80, reinterpret_cast<char *>(&d) + 80, 28)) mc::fail("equality", "word %d pattern %d compares %d", word, pat, eq); } }
}
