// REPO: uni/uni_format.cpp
// VARIANT: opt -O2 -msse4.1
// VARIANT: asan -O0 -msse4.1 -fsanitize=address
// RULE: state = distinct (pairing, element bytes); transition = one real decode; trace = one element (or strided buffer) decoded and compared channel by channel with the reference decoder
// ASSUME: channels of 24 and 32 bits are covered at boundaries, walking bits and a stride; channels depend on their own bits (checked with the other channels at five extremes)
#include "mc.hpp"
#include "datas/endian.hpp"
#include "uni/format.hpp"
#include <cmath>
#include <memory>
#include <stdexcept>
using namespace uni;
struct Lay { DataType t; const char *name; std::vector<int> bits; int bytes; };
static const std::vector<Lay> &lays() {
  static std::vector<Lay> l = {
      {DataType::R32G32B32A32, "R32G32B32A32", {32, 32, 32, 32}, 16}, {DataType::R32G32B32, "R32G32B32", {32, 32, 32}, 12}, {DataType::R16G16B16A16, "R16G16B16A16", {16, 16, 16, 16}, 8}, {DataType::R32G32, "R32G32", {32, 32}, 8},
      {DataType::R16G16B16, "R16G16B16", {16, 16, 16}, 6}, {DataType::R32, "R32", {32}, 4}, {DataType::R16G16, "R16G16", {16, 16}, 4}, {DataType::R10G10B10A2, "R10G10B10A2", {10, 10, 10, 2}, 4}, {DataType::R11G11B10, "R11G11B10", {11, 11, 10}, 4},
      {DataType::R8G8B8A8, "R8G8B8A8", {8, 8, 8, 8}, 4}, {DataType::R24G8, "R24G8", {24, 8}, 4}, {DataType::R8G8B8, "R8G8B8", {8, 8, 8}, 3}, {DataType::R8G8, "R8G8", {8, 8}, 2}, {DataType::R16, "R16", {16}, 2}, {DataType::R5G6B5, "R5G6B5", {5, 6, 5}, 2}, {DataType::R5G5B5A1, "R5G5B5A1", {5, 5, 5, 1}, 2}, {DataType::R8, "R8", {8}, 1}};
  return l;
}
static const char *FT[] = {"INVALID", "INT", "UINT", "NORM", "UNORM", "FLOAT", "UFLOAT"};
static bool supported(FormatType f, DataType d) {
  int t = int(d), k = int(f); if (t < 1 || t > 17 || k < 1 || k > 6) return false;
  if (k <= 4) return true;
  if (f == FormatType::UFLOAT) return d == DataType::R11G11B10;
  switch (d) { case DataType::R32G32B32A32: case DataType::R32G32B32: case DataType::R32G32: case DataType::R32: case DataType::R16G16B16A16: case DataType::R16G16B16: case DataType::R16G16: case DataType::R16: case DataType::R11G11B10: return true; default: return false; }
}
static bool integral(FormatType f) { return f == FormatType::INT || f == FormatType::UINT; }
static int64 sext(uint64_t c, int b) { return b == 64 ? int64(c) : int64(c << (64 - b)) >> (64 - b); }
static float smallf(uint32 c, int M, bool sign, int bits) { int e = c >> M & 31, m = c & ((1 << M) - 1); double v = e == 31 ? (m ? NAN : INFINITY) : e ? std::ldexp(double(m + (1 << M)), e - 15 - M) : std::ldexp(double(m), -14 - M); return float(sign && c >> (bits - 1) & 1 ? -v : v); }
static std::string pack(const Lay &l, const std::vector<uint64_t> &code) {
  std::string s(size_t(l.bytes), '\0'); int p = 0;
  for (size_t i = 0; i < l.bits.size(); i++) for (int b = 0; b < l.bits[i]; b++, p++) if (code[i] >> b & 1) s[p / 8] = char(s[p / 8] | 1 << (p & 7));
  return s;
}
struct Want { double v; bool exact; double quirk; bool hasQuirk; };
static Want want(FormatType f, const Lay &l, const std::vector<uint64_t> &code, size_t ch) {
  int b = l.bits[ch]; uint64_t c = code[ch]; Want w{0, false, 0, false};
  switch (f) {
  case FormatType::UINT: w.v = double(int32(uint32(c))); w.exact = true; break;
  case FormatType::INT: w.v = double(sext(c, b)); w.exact = true; break;
  case FormatType::UNORM: w.v = b == 32 ? double(c >> 1) / 2147483647. : double(c) / double((1ull << b) - 1); break;
  case FormatType::NORM: w.v = b == 1 ? double(sext(c, 1)) : double(sext(c, b)) / double((1ull << (b - 1)) - 1); break;
  default: w.exact = true;
    if (b == 32) { float x; uint32 u = uint32(c); memcpy(&x, &u, 4); w.v = x; }
    else if (b == 16) w.v = smallf(uint32(c), 10, true, 16);
    else { uint32 u = uint32(b == 10 ? c << 1 : c); w.v = f == FormatType::FLOAT ? smallf(u, 5, true, 11) : smallf(u, 6, false, 11); }
  }
  if ((f == FormatType::UNORM || f == FormatType::NORM) && (l.t == DataType::R11G11B10 || l.t == DataType::R5G6B5)) { // the listed findings: narrow channels treated as wide ones
    int wide = l.bits[1]; if (b < wide) { uint64_t q = code[ch] << 1 | (ch == 2 ? code[1] >> (wide - 1) : 0); w.hasQuirk = true; w.quirk = f == FormatType::UNORM ? double(q) / double((1 << wide) - 1) : double(sext(q, wide)) / double((1 << (wide - 1)) - 1); }
  }
  return w;
}
static bool close(double got, double v, bool exact) {
  if (v != v) return got != got;
  if (exact) return got == v && std::signbit(got) == std::signbit(v);
  if (v == 0) return got == 0;
  return std::fabs(got - v) <= 2.5e-7 * std::max(std::fabs(v), 1e-3);
}
static void check(FormatType f, const Lay &l, const std::vector<uint64_t> &code, const double got[4], const char *how) {
  for (size_t ch = 0; ch < 4; ch++) {
    if (ch >= l.bits.size()) { if (!(got[ch] == 0)) mc::fail(std::string(FT[int(f)]) + " " + l.name + " absent channel", "%s: channel %zu is %.9g in case %s", how, ch, got[ch], mc::g().job->cur); continue; }
    Want w = want(f, l, code, ch);
    if (close(got[ch], w.v, w.exact)) continue;
    if (w.hasQuirk && close(got[ch], w.quirk, false)) mc::fail(std::string(FT[int(f)]) + " " + l.name + " narrow channels scaled as wide", "channel %zu code %llu gives %.9g expected %.9g", ch, (unsigned long long)code[ch], got[ch], w.v);
    else mc::fail(std::string(FT[int(f)]) + " " + l.name + " value", "%s: channel %zu code %#llx gives %.9g expected %.9g in case %s", how, ch, (unsigned long long)code[ch], got[ch], w.v, mc::g().job->cur);
  }
}
static void grab(FormatCodec &c, FormatType f, const char *p, double out[4]) {
  if (integral(f)) { IVector4A16 v(77); c.GetValue(v, p); for (int i = 0; i < 4; i++) out[i] = v._arr[i]; }
  else { Vector4A16 v(77.f); c.GetValue(v, p); for (int i = 0; i < 4; i++) out[i] = v._arr[i]; }
}
static void one(FormatCodec &c, FormatType f, const Lay &l, const std::vector<uint64_t> &code) {
  std::string s = pack(l, code); mc::at("%s %s bytes %s", FT[int(f)], l.name, mc::hex(s).c_str()); mc::state(mc::hashBytes(s.data(), s.size(), uint64_t(int(f) * 100 + int(l.t))));
  std::unique_ptr<char[]> p(new char[s.size()]); memcpy(p.get(), s.data(), s.size());
  double g[4]; grab(c, f, p.get(), g); mc::step(); mc::trace();
  check(f, l, code, g, "single value");
  if (memcmp(p.get(), s.data(), s.size())) mc::fail("input", "input modified");
}
static std::vector<uint64_t> codes(int b) {
  std::vector<uint64_t> r; uint64_t top = (b == 64 ? 0 : 1ull << b) - 1; bool asan = false;
#ifdef MC_VARIANT_asan
  asan = !mc::thorough();
#endif
  if (b <= 16 && !(asan && b == 16)) { for (uint64_t c = 0; c <= top; c++) r.push_back(c); return r; }
  std::set<uint64_t> s; auto add = [&](uint64_t c) { s.insert(c & top); };
  for (int i = 0; i <= b; i++) for (int d = -2; d <= 2; d++) { add((1ull << i) + uint64_t(d)); add(~((1ull << i) + uint64_t(d))); }
  for (int i = 0; i < b; i++) for (int j = 0; j < i; j++) { add(1ull << i | 1ull << j); add(~(1ull << i | 1ull << j)); }
  if (b == 32) for (uint64_t e = 0; e < 512; e++) for (uint64_t m : {0ull, 1ull, 0x400000ull, 0x7fffffull, 0x2aaaaaull}) add(e << 23 | m);
  uint64_t st = (top >> (mc::thorough() ? 16 : asan ? 9 : 13)) | 1; for (uint64_t c = 0; c <= top; c += st) add(c);
  r.assign(s.begin(), s.end()); return r;
}
MC_SECTION("channel codes", 8) {
  uint64_t id = 0;
  for (auto &l : lays()) for (int f = 1; f <= 6; f++) { FormatType ft = FormatType(f); if (!supported(ft, l.t)) continue;
    FormatCodec &c = FormatCodec::Get({ft, l.t});
    for (size_t ch = 0; ch < l.bits.size(); ch++) { auto cs = codes(l.bits[ch]);
      for (int ex = 0; ex < 5; ex++) for (uint64_t v : cs) { if (!mc::mine(id++ / 512)) continue;
        std::vector<uint64_t> code(l.bits.size()); for (size_t k = 0; k < code.size(); k++) { uint64_t top = (1ull << l.bits[k]) - 1, alt = 0x5555555555555555ull >> (k & 1); code[k] = (ex == 0 ? 0 : ex == 1 ? top : ex == 2 ? alt : ex == 3 ? (top >> 1) + 1 : top >> 1) & top; }
        code[ch] = v; one(c, ft, l, code); } } }
}
#ifndef MC_VARIANT_asan
MC_SECTION("all 16 bit elements", 8) {
  for (auto &l : lays()) { if (l.bytes > 2) continue; for (int f = 1; f <= 6; f++) { FormatType ft = FormatType(f); if (!supported(ft, l.t)) continue; FormatCodec &c = FormatCodec::Get({ft, l.t});
    for (uint32 v = 0; v < 1u << (8 * l.bytes); v++) { if (!mc::mine(v / 64)) continue; std::vector<uint64_t> code; uint32 r = v; for (int b : l.bits) { code.push_back(r & ((1u << b) - 1)); r >>= b; } one(c, ft, l, code); } } }
}
#endif
MC_SECTION("sampling", 4) {
  uint64_t id = 0;
  for (auto &l : lays()) for (int f = 1; f <= 6; f++) { FormatType ft = FormatType(f); if (!supported(ft, l.t)) continue; FormatCodec &c = FormatCodec::Get({ft, l.t});
    for (int count = 0; count <= 5; count++) for (int pre = 0; pre <= 4; pre++) for (int st = -3; st <= 5; st++) { if (!mc::mine(id++)) continue;
      int stride = st == 5 ? 0 : l.bytes + st; if (stride < 0 || (stride == 0 && st != 5)) continue;
      int n = count ? count : pre, step = stride ? stride : l.bytes; bool bad = stride && stride < l.bytes;
      mc::at("%s %s count %d into %d, stride %d", FT[f], l.name, count, pre, stride); mc::trace(); mc::step(); mc::state(mc::hashBytes(mc::g().job->cur, strlen(mc::g().job->cur)));
      size_t size = n ? size_t(n - 1) * size_t(step) + size_t(l.bytes) : 0; if (bad) size = 256;
      std::unique_ptr<char[]> p(new char[size ? size : 1]); memset(p.get(), 0x5a, size);
      std::vector<std::vector<uint64_t>> cd;
      for (int i = 0; i < n && !bad; i++) { std::vector<uint64_t> code; for (size_t k = 0; k < l.bits.size(); k++) code.push_back((uint64_t(i * 37 + int(k) * 11 + count * 5 + 3) * 0x1234567ull) & ((1ull << l.bits[k]) - 1)); if (ft >= FormatType::FLOAT) for (auto &x : code) x &= ~0ull >> 2; cd.push_back(code); std::string s = pack(l, code); memcpy(p.get() + i * step, s.data(), s.size()); }
      try {
        FormatCodec::ivec iv(size_t(pre), IVector4A16(9)); FormatCodec::fvec fv(size_t(pre), Vector4A16(9.f)); size_t got;
        if (integral(ft)) { c.Sample(iv, p.get(), size_t(count), size_t(stride)); got = iv.size(); } else { c.Sample(fv, p.get(), size_t(count), size_t(stride)); got = fv.size(); }
        if (bad) mc::fail("short stride accepted", "%s", mc::g().job->cur);
        else if (got != size_t(n)) mc::fail("sample count", "%s: %zu elements expected %d", mc::g().job->cur, got, n);
        else for (int i = 0; i < n; i++) { double o[4]; for (int k = 0; k < 4; k++) o[k] = integral(ft) ? double(iv[i]._arr[k]) : double(fv[i]._arr[k]); check(ft, l, cd[i], o, "sampled"); }
      } catch (const std::runtime_error &) { if (!bad) mc::fail("stride refused", "%s", mc::g().job->cur); }
    } }
}
MC_SECTION("pairings", 1) {
  for (int f = 0; f <= 9; f++) for (int d = 0; d <= 20; d++) { FormatType ft = FormatType(f); DataType dt = DataType(d); mc::at("pairing type %d layout %d", f, d); mc::trace(); mc::step();
    FormatCodec *c = nullptr; try { c = &FormatCodec::Get({ft, dt}); } catch (const std::exception &) {}
    if (bool(c) != supported(ft, dt)) mc::fail("pairing support", "type %d layout %d is %s", f, d, c ? "accepted" : "refused");
    if (!c || !supported(ft, dt)) continue;
    char buf[64] = {}; int thrown = 0; mc::step(2);
    IVector4A16 iv(5); Vector4A16 fv(5.f); FormatCodec::ivec is(2, iv); FormatCodec::fvec fs(2, fv);
    if (integral(ft)) { try { c->GetValue(fv, buf); } catch (const std::runtime_error &) { thrown++; } try { c->Sample(fs, buf, 1); } catch (const std::runtime_error &) { thrown++; } }
    else { try { c->GetValue(iv, buf); } catch (const std::runtime_error &) { thrown++; } try { c->Sample(is, buf, 1); } catch (const std::runtime_error &) { thrown++; } }
    if (thrown != 2) mc::fail("wrong kind accepted", "type %d layout %d: %d of 2 wrong calls refused", f, d, thrown);
    if (&FormatCodec::Get({ft, dt}) != c) mc::fail("codec identity", "type %d layout %d", f, d);
  }
}
