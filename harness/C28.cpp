// VARIANT: opt -O2
// VARIANT: asan -O1 -fsanitize=address
// RULE: state = distinct text; transition = one real conversion; trace = one text converted in every direction and compared with the reference encoder
// ASSUME: conversion of a sequence depends on adjacent code points only through their encoded form
#include "mc.hpp"
#include "datas/tchar.hpp"
typedef std::u32string U;
static std::string u8(const U &u) {
  std::string r;
  for (char32_t c : u) {
    if (c < 0x80) r += char(c);
    else if (c < 0x800) { r += char(0xc0 | c >> 6); r += char(0x80 | (c & 63)); }
    else if (c < 0x10000) { r += char(0xe0 | c >> 12); r += char(0x80 | (c >> 6 & 63)); r += char(0x80 | (c & 63)); }
    else { r += char(0xf0 | c >> 18); r += char(0x80 | (c >> 12 & 63)); r += char(0x80 | (c >> 6 & 63)); r += char(0x80 | (c & 63)); }
  }
  return r;
}
static std::u16string u16(const U &u) { std::u16string r; for (char32_t c : u) if (c < 0x10000) r += char16_t(c); else { r += char16_t(0xd800 + ((c - 0x10000) >> 10)); r += char16_t(0xdc00 + ((c - 0x10000) & 1023)); } return r; }
static std::string pr(const U &u) { std::string r; char b[16]; for (char32_t c : u) { snprintf(b, 16, "U+%04X ", unsigned(c)); r += b; } return r; }
static void one(const U &u) {
  mc::at("text %s", pr(u).c_str());
  mc::state(mc::hashBytes(u.data(), u.size() * 4));
  std::wstring w(u.begin(), u.end());
  std::string a = u8(u); std::u16string b = u16(u);
  auto eq = [&](const char *what, const std::string &got) { mc::step(); if (got != a) mc::fail(what, "%s gives %s expected %s", pr(u).c_str(), mc::hex(got).c_str(), mc::hex(a).c_str()); };
  auto eqw = [&](const char *what, const std::wstring &got) { mc::step(); if (got != w) mc::fail(what, "%s gives %zu wide characters expected %zu", pr(u).c_str(), got.size(), w.size()); };
  try {
    eq("wide to utf8", es::ToUTF8(w));
    eq("utf32 to utf8", es::ToUTF8(u));
    eq("utf16 to utf8", es::ToUTF8(b));
    eqw("utf8 to wide", es::ToUTF1632(a));
    eqw("wide round trip", es::ToUTF1632(es::ToUTF8(w)));
    eq("utf8 round trip", es::ToUTF8(es::ToUTF1632(a)));
    eq("to_string", std::to_string(w)); eqw("to_wstring", std::to_wstring(a));
    if (u.find(U'\0') == U::npos) { eq("wide c string", es::ToUTF8(w.c_str())); eq("utf32 c string", es::ToUTF8(u.c_str())); eq("utf16 c string", es::ToUTF8(b.c_str())); eqw("utf8 c string", es::ToUTF1632(a.c_str())); eq("to_string c", std::to_string(w.c_str())); eqw("to_wstring c", std::to_wstring(a.c_str())); }
    eq("identity", std::to_string(a)); eqw("identity wide", std::to_wstring(w)); eq("tstring", ToTSTRING(w));
  } catch (const std::exception &e) { mc::fail("well formed text refused", "%s: %s", pr(u).c_str(), e.what()); }
  mc::trace();
}
MC_SECTION("every code point", 8) {
  for (char32_t c = 0; c <= 0x10ffff; c++) if ((c < 0xd800 || c > 0xdfff) && mc::mine(c / 64)) {
#ifdef MC_VARIANT_asan
    if (!mc::thorough() && c % 37 && (c & 0xfff) > 2 && (c & 0xfff) < 0xffe) continue;
#endif
    one(U(1, c));
  }
}
MC_SECTION("sequences", 8) {
  std::vector<char32_t> abc{0, 'a', 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x1f600, 0x10ffff};
  size_t n = mc::thorough() ? 4 : 3;
  std::vector<U> cur{U()}; uint64_t k = 0;
  for (size_t i = 0; i < cur.size(); i++) { if (mc::mine(k++)) one(cur[i]); if (cur[i].size() < n) for (auto c : abc) cur.push_back(cur[i] + c); }
  for (int len : {100, 1000, 5000}) for (auto c : abc) if (mc::mine(k++)) { U u; for (int i = 0; i < len; i++) { u += c; if (i % 7 == 0) u += U'b'; } one(u); }
}
// strict reference decoder; surrogate code points encoded in UTF-8 are left unspecified
static int decode(const std::string &s, std::wstring &out) { // 1 ok, 0 ill-formed, -1 unspecified, 2 last character cut short
  size_t i = 0; bool unspecified = false;
  while (i < s.size()) {
    unsigned c = (unsigned char)s[i]; int n = c < 0x80 ? 0 : c >= 0xc2 && c < 0xe0 ? 1 : c >= 0xe0 && c < 0xf0 ? 2 : c >= 0xf0 && c < 0xf5 ? 3 : -1;
    if (n < 0) return 0;
    uint32_t v = n == 0 ? c : n == 1 ? c & 31 : n == 2 ? c & 15 : c & 7;
    for (int k = 1; k <= n; k++) {
      if (i + k >= s.size()) return unspecified ? -1 : 2;
      unsigned d = (unsigned char)s[i + k];
      if ((d & 0xc0) != 0x80) return 0;
      if (k == 1 && (c == 0xe0 && d < 0xa0 || c == 0xf0 && d < 0x90 || c == 0xf4 && d > 0x8f)) return 0;
      if (k == 1 && c == 0xed && d >= 0xa0) unspecified = true;
      v = v << 6 | (d & 63);
    }
    out += wchar_t(v); i += n + 1;
  }
  return unspecified ? -1 : 1;
}
MC_SECTION("byte strings", 8) {
  const unsigned char b[] = {0x00, 'a', 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xed, 0xef, 0xf0, 0xf1, 0xf4, 0xf5, 0xf8, 0xff};
  size_t n = mc::thorough() ? 4 : 3, N = sizeof b; uint64_t k = 0;
  for (size_t len = 1; len <= n; len++) {
    std::vector<int> sz(len, int(N));
    size_t total = 1; for (size_t i = 0; i < len; i++) total *= N;
    for (size_t x = 0; x < total; x++) {
      if (!mc::mine(k++)) continue;
      std::string s; size_t y = x; for (size_t i = 0; i < len; i++) { s += char(b[y % N]); y /= N; }
      mc::at("bytes %s", mc::hex(s).c_str()); mc::state(s);
      std::wstring ref, got; int want = decode(s, ref); bool threw = false;
      try { got = es::ToUTF1632(s); } catch (const std::range_error &) { threw = true; }
      mc::step(); mc::trace();
      if (s.find('\0') == std::string::npos) for (int q = 0; q < 3; q++) { bool t = false; std::wstring g; mc::step(); try { g = q == 0 ? es::ToUTF1632(s.c_str()) : q == 1 ? std::to_wstring(s.c_str()) : std::to_wstring(s); } catch (const std::range_error &) { t = true; } if (t != threw || (!t && g != got)) mc::fail("c string and string disagree", "%s %s", mc::hex(s).c_str(), t ? "refused" : "accepted"); }
      if (want == 1 && (threw || got != ref)) mc::fail("well formed bytes", "%s %s", mc::hex(s).c_str(), threw ? "refused" : "decoded differently");
      if (want == 2 && !threw && got != ref) mc::fail("cut short", "%s", mc::hex(s).c_str());
      if (want == 0 && !threw) mc::fail("ill-formed bytes accepted", "%s", mc::hex(s).c_str());
    }
  }
}
MC_SECTION("out of range", 1) {
  for (uint32_t c : {0x110000u, 0x1fffffu, 0x7fffffffu, 0x80000000u, 0xffffffffu}) {
    bool t = false, t2 = false;
    try { es::ToUTF8(std::u32string(1, char32_t(c))); } catch (const std::range_error &) { t = true; }
    try { es::ToUTF8(std::wstring(L"a") + wchar_t(c)); } catch (const std::range_error &) { t2 = true; }
    bool t3 = false, t4 = false; std::u32string u3(2, char32_t(c)); std::wstring w4 = std::wstring(L"a") + wchar_t(c);
    try { es::ToUTF8(u3.c_str()); } catch (const std::range_error &) { t3 = true; }
    try { es::ToUTF8(w4.c_str()); } catch (const std::range_error &) { t4 = true; }
    if (!t || !t2 || !t3 || !t4) mc::fail("code point above U+10FFFF accepted", "%x", c);
    mc::step(2); mc::trace();
  }
  const char *h[] = {"-h", "-?", "/?", "--help"};
  mc::strings("-h?/elp", 4, [&](const std::string &s) { bool w = false; for (auto x : h) w |= s == x; if (IsHelp(s) != w) mc::fail("help switch", "%s", s.c_str()); mc::step(); mc::trace(); });
  if (!IsHelp("--help") || IsHelp("--helpx") || IsHelp("--hel")) mc::fail("help switch", "--help");
  mc::sample("U+1F600 -> %s", mc::hex(es::ToUTF8(std::u32string(1, 0x1f600))).c_str());
}
