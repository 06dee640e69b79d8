// VARIANT: asan -O1 -fsanitize=address
// VARIANT: opt -O2
// RULE: state = distinct helper input; transition = one real helper call; trace = one call compared with its definition
// ASSUME: text helpers depend only on which characters are blanks, tabs and line ends
#include "mc.hpp"
#include "datas/supercore.hpp"
#include "datas/string_view.hpp"
#include "datas/except.hpp"
#include <cmath>
#include <list>
#include <memory>
typedef std::string S;
MC_SECTION("padding", 8) {
  size_t maxV = mc::thorough() ? 70000 : 9000;
  for (int s = 0; s < 64; s++) {
    size_t al = size_t(1) << s;
    auto one = [&](size_t v) {
      size_t g = GetPadding(v, al), w = v % al ? al - v % al : 0;
      mc::step();
      if (g != w) mc::fail("padding", "offset %zu alignment %zu gives %zu expected %zu", v, al, g, w);
    };
    if (s < 17) for (size_t v = 0; v <= maxV; v++) { if (!mc::mine(v)) continue; one(v); mc::trace(); mc::state(mc::mix(v * 64 + s)); }
    for (int b = 0; b < 64; b++) for (int d = -3; d <= 3; d++) if (mc::mine(b)) { one((size_t(1) << b) + d); mc::trace(); mc::state(mc::mix(((size_t(1) << b) + d) * 131 + s + 7)); }
  }
}
MC_SECTION("trim", 8) {
  auto isw = [](char c, bool nl) { return c == ' ' || c == '\t' || (nl && c == '\n'); };
  uint64_t k = 0;
  mc::strings(S(" \t\na\0\r", 6), mc::thorough() ? 8 : 6, [&](const S &s) {
    if (!mc::mine(k++)) return;
    mc::at("text %s", mc::quote(s).c_str()); mc::state(s);
    char *p = (char *)malloc(s.size() + !s.size()); memcpy(p, s.data(), s.size());
    es::string_view v(p, s.size());
    auto same = [&](const char *w, es::string_view got, size_t b, size_t e) {
      mc::step();
      if (got.to_string() != s.substr(b, e - b) || (got.size() && got.data() != p + b)) mc::fail(w, "%s of %s gives %s", w, mc::quote(s).c_str(), mc::quote(got.to_string()).c_str());
    };
    for (int nl = 0; nl < 2; nl++) {
      size_t b = 0, e = s.size();
      while (b < e && isw(s[b], nl)) b++;
      same("skip leading blanks", es::SkipStartWhitespace(v, nl), b, s.size());
      if (!nl) same("skip leading blanks", es::SkipStartWhitespace(v), b, s.size());
      while (e > 0 && isw(s[e - 1], nl)) e--;
      same("skip trailing blanks", es::SkipEndWhitespace(v, nl), 0, e);
      if (!nl) { same("skip trailing blanks", es::SkipEndWhitespace(v), 0, e); same("trim", es::TrimWhitespace(v), b, e > b ? e : b); }
    }
    free(p); mc::trace();
  });
}
template <class T> static void tag(T m, size_t size, bool deflt) {
  S bytes((const char *)&m, sizeof(T));
  S cut = bytes.substr(0, std::min(size, sizeof(T)));
  cut = S(cut.c_str());
  bool al = true; for (unsigned char c : cut) al &= c < 128 && isalnum(c);
  S want;
  if (al) want = cut; else for (unsigned char c : cut) { char b[8]; snprintf(b, 8, "0x%X ", c); want += b; }
  mc::at("tag %s size %zu", mc::hex(bytes).c_str(), size);
  S got = es::InvalidHeaderError::DecompileFourCC(m, size), msg = deflt ? es::InvalidHeaderError(m).what() : es::InvalidHeaderError(m, size).what();
  mc::step(2); mc::trace(); mc::state(mc::hashBytes(bytes.data(), bytes.size(), size));
  if (got != want) mc::fail("tag text", "%zu byte tag %s, %zu bytes shown, is '%s' expected '%s'", sizeof(T), mc::hex(bytes).c_str(), size, got.c_str(), want.c_str());
  if (msg != "Invalid format: " + want) mc::fail("tag message", "'%s'", msg.c_str());
}
MC_SECTION("tags", 8) {
  const unsigned char b[] = {0, 'A', 'z', '0', ' ', 0x7f, 0x80, 0xff};
  uint64_t k = 0;
  for (int i = 0; i < 8 * 8 * 8 * 8; i++) if (mc::mine(k++)) { uint32 m = 0; for (int j = 0, y = i; j < 4; j++, y /= 8) m |= uint32(b[y % 8]) << (8 * j); tag(m, 4, true); tag(m, 3, false); tag(m, 0, false); }
  for (int p = 0; p < 4; p++) for (int c = 0; c < 256; c++) { uint32 m = 0x44434241; m &= ~(0xffu << (8 * p)); m |= uint32(c) << (8 * p); if (mc::mine(k++)) tag(m, 4, true); }
  const unsigned char q[] = {0, 'A', '9', 0xff};
  for (int i = 0; i < 65536; i++) if (mc::mine(k++)) { uint64 m = 0; for (int j = 0, y = i; j < 8; j++, y /= 4) m |= uint64(q[y % 4]) << (8 * j); tag(m, 8, true); if (i % 16 == 5) for (size_t s : {0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 12, 16, 24, 100}) tag(m, s, false); }
  for (int i = 0; i < 65536; i++) if (mc::mine(k++)) tag(uint16(i), 2, true);
  if (mc::shard() == 0) for (int i = 0; i < 256; i++) tag(uint8(i), 1, true);
  // other messages
  if (S(es::FileNotFoundError(es::string_view("x")).what()) != "Couldn't open file: x" || S(es::FileInvalidAccessError(es::string_view("y")).what()) != "Couldn't access file: y" || S(es::InvalidVersionError(7).what()) != "Invalid version: 7" || S(es::InvalidHeaderError(es::string_view("zz")).what()) != "Invalid format: zz") mc::fail("message", "exception text");
}
template <size_t n> static void comp(const char (&in)[n]) {
  char *p = (char *)malloc(n); memcpy(p, in, n);
  uint32 w = 0; for (size_t i = 0; i < 4 && i < n; i++) w |= uint32((unsigned char)in[i]) << (8 * i);
  uint32 g = CompileFourCC(reinterpret_cast<const char(&)[n]>(*p));
  if (g != w) mc::fail("four character code", "%s gives %x expected %x", mc::hex(in, n).c_str(), g, w);
  free(p); mc::step(); mc::trace(); mc::state(mc::hashBytes(in, n, n));
}
MC_SECTION("codes", 8) {
  for (int i = 0; i < 256; i++) for (int j = 0; j < 256; j++) {
    if (!mc::mine(j)) continue;
    const char c[] = {char(i), char(j), 'C', 'D', 0}, d[] = {'A', 'B', char(i), char(j), 0}, e[] = {char(i), 'b', char(j), 0}, f[] = {char(i), char(j), 0}, g[] = {char(i), 0};
    comp(c); comp(d); comp(e); comp(f); comp(g);
    const char h[] = {char(i), char(j), 'C', 'D'}, k[] = {'A', char(i), char(j)}, l[] = {char(i), char(j)}, m[] = {char(i)}, o[] = {'A', 'B', char(i), char(j)}, p[] = {'A', 'B', 'C', char(i), char(j), 'F'}; comp(h); comp(k); comp(l); comp(m); comp(o); comp(p); // not ended by a zero
  }
  static_assert(CompileFourCC("DDS ") == 0x20534444, "");
}
MC_SECTION("numbers", 1) {
  for (size_t b = 1; b < 64; b++) {
    float g = GetFraction(b); double w = 1.0 / double(float((1ULL << b) - 1));
    if (g != float(w)) mc::fail("fraction", "%zu bits: %g expected %g", b, g, w);
    if (b <= 24 && g * float((1ULL << b) - 1) != 1.f && std::fabs(g * float((1ULL << b) - 1) - 1.f) > 1e-7f) mc::fail("fraction", "top code of %zu bits is not one", b);
    mc::step(); mc::trace();
  }
  for (uint64_t i = 1; i < (mc::thorough() ? 1ull << 24 : 1u << 18); i++) { bool w = __builtin_popcountll(i) == 1; if (IsPow2(i) != w || IsPow2(uint32(i)) != w || (i < 65536 && IsPow2(uint16(i)) != w) || (i < 256 && IsPow2(uint8(i)) != w)) mc::fail("power of two", "%lu", (unsigned long)i); mc::step(2); mc::trace(); }
  for (int b = 0; b < 64; b++) for (int c = 0; c < 64; c++) if (IsPow2((1ULL << b) | (1ULL << c)) != (b == c)) mc::fail("power of two", "bits %d %d", b, c);
  for (int i = 0; i < 256; i++) {
    int w = i >= '0' && i <= '9' ? i - '0' : i >= 'a' && i <= 'f' ? i - 'a' + 10 : i >= 'A' && i <= 'F' ? i - 'A' + 10 : '.';
    if (i < (int)sizeof(atohLUT) - 1 && atohLUT[i] != w) mc::fail("hex digit table", "character %d maps to %d", i, atohLUT[i]);
  }
  if (sizeof(atohLUT) < 'f' + 1) mc::fail("hex digit table", "too short");
  // IsEnd and Dispose
  std::vector<int> v{1, 2, 3}; std::list<int> l{1}; int a[3] = {};
  if (!es::IsEnd(v, v.end()) || es::IsEnd(v, v.begin()) || !es::IsEnd(l, l.end()) || es::IsEnd(l, l.begin()) || !es::IsEnd(a, a + 3) || es::IsEnd(a, a + 2)) mc::fail("is end", "wrong answer");
  auto sp = std::make_shared<int>(1); std::weak_ptr<int> w = sp; es::Dispose(sp); if (sp || !w.expired()) mc::fail("dispose", "object survives");
  std::vector<int> big(100); es::Dispose(big); if (big.size() || big.capacity()) mc::fail("dispose", "memory kept");
  static_assert(sizeof(es::TypeFromSize<1>::type) == 1 && sizeof(es::TypeFromSize<2>::type) == 2 && sizeof(es::TypeFromSize<4>::type) == 4 && sizeof(es::TypeFromSize<8>::type) == 8, "");
  mc::sample("GetPadding(7,16) = %zu", GetPadding(7, 16));
}
