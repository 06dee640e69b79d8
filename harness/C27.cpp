// VARIANT: opt -O2
// VARIANT: asan -O1 -fsanitize=address
// RULE: state = distinct (input string, seed); transition = one real hash evaluation; trace = one input hashed in every way of passing it and compared with the published algorithm
// ASSUME: per byte dependence of the hashes is independent of the other bytes' positions, so single position variations over every length stand for all strings
#include "mc.hpp"
#include "datas/jenkinshash.hpp"
#include "datas/jenkinshash3.hpp"
#include <map>
#ifdef MC_VARIANT_asan
#define CONSTANT constexpr
#else
#define CONSTANT const
#endif
typedef std::string S;
// Bob Jenkins, one_at_a_time (32-bit) and the library's 64-bit carrying form
static uint32_t oaat(const S &s) { uint32_t h = 0; for (unsigned char c : s) { h += c; h += h << 10; h ^= h >> 6; } h += h << 3; h ^= h >> 11; h += h << 15; return h; }
static uint32_t oaat64(const S &s) {
  uint32_t h = 0;
  for (unsigned char c : s) { uint64_t w = uint64_t(h) + c; w += w << 10; w ^= w >> 6; h = uint32_t(w); }
  uint64_t w = h; w += w << 3; w ^= w >> 11; w += w << 15; return uint32_t(w);
}
// lookup3.c hashword() over the key padded with zeros to whole words
#define rot(x, k) (((x) << (k)) | ((x) >> (32 - (k))))
static uint32_t hashword(const S &s, uint32_t init) {
  std::vector<uint32_t> k((s.size() + 3) / 4);
  for (size_t i = 0; i < s.size(); i++) k[i / 4] |= uint32_t((unsigned char)s[i]) << (8 * (i % 4));
  size_t len = k.size(), p = 0;
  uint32_t a, b, c; a = b = c = 0xdeadbeef + (uint32_t(len) << 2) + init;
  while (len > 3) {
    a += k[p]; b += k[p + 1]; c += k[p + 2];
    a -= c; a ^= rot(c, 4); c += b; b -= a; b ^= rot(a, 6); a += c; c -= b; c ^= rot(b, 8); b += a;
    a -= c; a ^= rot(c, 16); c += b; b -= a; b ^= rot(a, 19); a += c; c -= b; c ^= rot(b, 4); b += a;
    len -= 3; p += 3;
  }
  switch (len) {
  case 3: c += k[p + 2]; // fallthrough
  case 2: b += k[p + 1]; // fallthrough
  case 1: a += k[p];
    c ^= b; c -= rot(b, 14); a ^= c; a -= rot(c, 11); b ^= a; b -= rot(a, 25); c ^= b; c -= rot(b, 16); a ^= c; a -= rot(c, 4); b ^= a; b -= rot(a, 14); c ^= b; c -= rot(b, 24);
  case 0: break;
  }
  return c;
}
static void one(const S &s, bool seeds) {
  if (s.size() < 200) mc::at("input %s", mc::hex(s).c_str()); else mc::at("input of %zu bytes", s.size());
  mc::state(s);
  char *p = (char *)malloc(s.size() + !s.size()); memcpy(p, s.data(), s.size());
  es::string_view v(p, s.size());
  uint32_t a = oaat64(s), b = oaat(s), c = hashword(s, 0);
  if (JenHash(v).raw() != a || JenkinsHash_(v) != a || JenHash(es::string_view(s)).raw() != a) mc::fail("name hash", "%s hashes to %x expected %x", mc::hex(s).c_str(), JenHash(v).raw(), a);
  if (JenHashCannon(v).raw() != b || JenkinsHash_<uint32>(v) != b) mc::fail("one at a time", "%s hashes to %x expected %x", mc::hex(s).c_str(), JenHashCannon(v).raw(), b);
  if (uint32(JenHash3(v)) != c) mc::fail("lookup3", "length %zu %s hashes to %x expected %x", s.size(), mc::hex(s).c_str(), uint32(JenHash3(v)), c);
  if (s.find('\0') == S::npos && (JenHash(es::string_view(s.c_str())).raw() != a || uint32(JenHash3(es::string_view(s.c_str()))) != c)) mc::fail("c string", "%s", mc::hex(s).c_str());
  mc::step(6);
  if (seeds) for (uint32_t sd : {0u, 1u, 0x7fffffffu, 0x80000000u, 0xffffffffu, 0xdeadbeefu}) { if (JenkinsHash3_(v, sd) != hashword(s, sd)) mc::fail("lookup3 seed", "length %zu seed %x", s.size(), sd); mc::step(); }
  JenHash h(v); JenHash3 h3(v); JenHash cp(h); JenHash as; as = h; JenHash3 a3; a3 = h3;
  if (!(cp == h) || !(as == a) || !(a == as) || (as != a) || (cp != h) || uint32(a3) != c || JenHash(a).raw() != a || uint32(JenHash3(c)) != c) mc::fail("value", "hash object copies or compares wrongly");
  free(p);
  mc::trace();
}
MC_SECTION("every length and byte", 8) {
  int max = mc::thorough() ? 130 : 66;
  uint64_t k = 0;
  for (int n = 0; n <= max; n++) {
    S base; for (int i = 0; i < n; i++) base += char('a' + i % 26);
    if (mc::mine(k++)) one(base, true);
    for (int i = 0; i < n; i++) for (int b = 0; b < 256; b++) if (mc::mine(k++)) { S t = base; t[i] = char(b); one(t, b % 64 == 0); }
    S z(n, '\0'), f(n, char(0xff)); if (mc::mine(k++)) { one(z, true); one(f, true); }
  }
}
MC_SECTION("short strings", 8) {
  uint64_t k = 0;
  const char abc[] = {'\0', 'a', 'Z', '_', '\x7f', char(0x80), char(0xff), '1', 0};
  std::vector<S> cur{S()};
  for (size_t i = 0; i < cur.size(); i++) { if (mc::mine(k++)) one(cur[i], true); if (cur[i].size() < (mc::thorough() ? 5u : 4u)) for (int c = 0; c < 8; c++) cur.push_back(cur[i] + abc[c]); }
}
MC_SECTION("long strings", 8) { // around every power of two, where lengths and counts could be kept in too few bits
  uint64_t k = 0; for (int p = 7; p <= (mc::thorough() ? 24 : 20); p++) for (int d = -13; d <= 13; d++) { if (!mc::mine(k++)) continue; S s(size_t((1 << p) + d), 0); for (size_t i = 0; i < s.size(); i++) s[i] = char(i * 7 + i / 251); one(s, true); mc::beat(); }
}
MC_SECTION("literals and order", 1) {
#define LIT(x) { CONSTANT JenHash h(x); CONSTANT JenHashCannon hc(x); CONSTANT JenHash3 h3(x); S s(x, sizeof(x) - 1); if (h.raw() != oaat64(s) || hc.raw() != oaat(s) || uint32(h3) != hashword(s, 0)) mc::fail("literal", "compile time hash of '%s' (%zu bytes): %x %x %x", s.c_str(), s.size(), h.raw(), hc.raw(), uint32(h3)); mc::step(3); mc::trace(); }
  LIT("") LIT("a") LIT("ab") LIT("abc") LIT("abcd") LIT("abcde") LIT("abcdefgh") LIT("abcdefghi") LIT("abcdefghijk") LIT("abcdefghijkl") LIT("abcdefghijklm") LIT("abcdefghijklmnopqrstuvwx") LIT("abcdefghijklmnopqrstuvwxy") LIT("abcdefghijklmnopqrstuvwxyz0123456789") LIT("a\0b") LIT("\xff\x80\x7f") LIT("One_Longer::Name<with, stuff>") LIT("exactly twelv") LIT("bug")
  // ordering is a strict total order consistent with equality
  std::vector<uint32> v{0, 1, 2, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff};
  for (auto a : v) for (auto b : v) {
    JenHash x(a), y(b);
    if ((x == b) != (a == b) || (a == y) != (a == b) || (x != b) != (a != b) || (a != y) != (a != b)) mc::fail("comparison with numbers", "%x %x", a, b);
    if ((x == y) != (a == b) || (x != y) != (a != b) || (x < y) != (y > x) || ((x < y) + (x > y) + (x == y)) != 1) mc::fail("order", "%x %x", a, b);
    for (auto c : v) { JenHash z(c); if (x < y && y < z && !(x < z)) mc::fail("order", "not transitive %x %x %x", a, b, c); }
    mc::step(5); mc::trace();
  }
  mc::sample("JenHash3 of 24 letters = %x", uint32(JenHash3("abcdefghijklmnopqrstuvwx")));
}
