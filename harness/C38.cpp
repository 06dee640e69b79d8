// REPO: datas/master_printer.cpp
// VARIANT: opt -O1
// RULE: state = distinct outcome history of the cases; transition = one real check evaluated; trace = one whole test run compared with the expected count and messages
#include "mc.hpp"
#include "datas/unit_testing.hpp"
#include <stdexcept>
typedef std::string S;
static S out;
static void sink(const char *c) { out += c; }
// one check of the given kind with the given outcome; `reached` counts checks evaluated
static int reached, kinds_[4][3], pass_[4][3];
static bool bad_, threwOther;
struct Thing { int v; bool operator!=(const Thing &o) const { return v != o.v; } bool operator==(const Thing &o) const { return v == o.v; } };
static const int KINDS = 27;
static const size_t FIRST = __LINE__;
static int check(int kind, bool pass) {
  int a = 5, b = pass ? 5 : 6, lo = 1, hi = 2;
  switch (kind) {
  case 0: TEST_CHECK(pass); break;
  case 1: TEST_CHECK(a == b); break;
  case 2: TEST_NOT_CHECK(!pass); break;
  case 3: TEST_NOT_CHECK(a != b); break;
  case 4: TEST_EQUAL(a, b); break;
  case 5: TEST_EQUAL(a & 7, b & 7); break;
  case 6: TEST_NOT_EQUAL(a, pass ? 1 : 5); break;
  case 7: if (pass) { TEST_GT(hi, lo); } else { TEST_GT(lo, hi); } break;
  case 8: if (pass) { TEST_GT(hi, lo); } else { TEST_GT(lo, lo); } break;
  case 9: if (pass) { TEST_LT(lo, hi); } else { TEST_LT(hi, lo); } break;
  case 10: if (pass) { TEST_LT(lo, hi); } else { TEST_LT(lo, lo); } break;
  case 11: if (pass) { TEST_GT_EQ(lo, lo); TEST_GT_EQ(hi, lo); } else { TEST_GT_EQ(lo, hi); } break;
  case 12: if (pass) { TEST_LE_EQ(lo, lo); TEST_LE_EQ(lo, hi); } else { TEST_LE_EQ(hi, lo); } break;
  case 13: TEST_THROW(std::runtime_error, if (pass) throw std::runtime_error("x");) break;
  case 14: TEST_THROW(std::runtime_error, if (pass) throw std::range_error("derived"); else throw std::logic_error("other");) break;
  case 15: TEST_THROW(int, int z = 3; if (pass) throw z; else throw 3u;) break;
  case 16: { Thing x{1}, y{pass ? 1 : 2}; TEST_EQUAL(x, y); break; }
  case 17: { Thing x{1}, y{pass ? 2 : 1}; TEST_NOT_EQUAL(x, y); break; }
  case 19: TEST_EQUAL(a == 5 ? lo : hi, b == 5 ? lo : hi); break;
  case 20: TEST_NOT_EQUAL(pass ? lo : hi, pass ? hi : hi); break;
  case 21: TEST_GT(pass ? hi : lo, pass ? lo : hi); break;
  case 22: TEST_LT(pass ? lo : hi, pass ? hi : lo); break;
  case 23: TEST_GT_EQ(pass ? lo : lo, pass ? lo : hi); break;
  case 24: TEST_LE_EQ(pass ? lo : hi, pass ? lo : lo); break;
  case 25: TEST_NOT_CHECK(pass ? false : true); break;
  case 26: if (pass) { TEST_LE_EQ(lo & 2, lo & 2); TEST_GT_EQ(hi & 2, lo & 2); TEST_GT(hi & 2, lo & 2); TEST_LT(lo & 2, hi & 2); TEST_NOT_EQUAL(lo & 2, hi & 2); TEST_EQUAL(hi & 2, hi & 2); } else { TEST_LE_EQ(hi & 2, lo & 2); } break;
  case 18: TEST_CHECK(a == 5 && b == 5 || false); break;
  }
  return 0;
}
static const size_t LAST = __LINE__;
template <int N> static int body() {
  for (int i = 0; i < 3; i++) { if (kinds_[N][i] < 0) continue; reached++; mc::step(); int r = check(kinds_[N][i], pass_[N][i]); if (r) return r; }
  return 0;
}
static int case_a() { return body<0>(); }
static int case_b() { return body<1>(); }
static int case_c(int plus, int one) { if (plus != 2 || one != 1) return 7; return body<2>(); }
static int case_d() { return body<3>(); }
static int run4() { TEST_CASES(int r, TEST_FUNC(case_a), TEST_FUNC(case_b), TEST_FUNC(case_c, 2, 1), TEST_FUNC(case_d)); return r; }
static int run1() { TEST_CASES(int r, TEST_FUNC(case_a)); return r; }
static size_t count(const S &h, const S &n) { size_t c = 0; for (size_t p = 0; (p = h.find(n, p)) != S::npos; p += n.size()) c++; return c; }
static void verify(int n, int (*fn)(), const char *how) {
  reached = 0; out.clear();
  int got = fn(), want = 0, checks = 0; bool failed[4] = {};
  for (int c = 0; c < n; c++) for (int i = 0; i < 3; i++) { if (kinds_[c][i] < 0) continue; checks++; if (!pass_[c][i]) { want++; failed[c] = true; break; } }
  if (got != want) mc::fail("count", "%s: %d failures reported expected %d", how, got, want);
  if (reached != checks) mc::fail("stops at first failure", "%s: %d checks evaluated expected %d", how, reached, checks);
  // the wording is free: a failed case is named once, a failed check's place in this file is given once, and the totals are in the output
  const char *nm[] = {"case_a", "case_b", "case_c", "case_d"};
  for (int c = 0; c < n; c++) if (count(out, nm[c]) != failed[c]) mc::fail("names the case", "%s: %s", how, mc::quote(out).c_str());
  if (count(out, "C38.cpp") != size_t(want)) mc::fail("failure lines", "%s: %s", how, mc::quote(out).c_str());
  for (size_t p = 0; (p = out.find("C38.cpp", p)) != S::npos; p += 7) {
    size_t d = out.find_first_of("0123456789", p + 7), l = d == S::npos ? 0 : atoi(out.c_str() + d);
    if (l < FIRST || l > LAST) mc::fail("place of the failure", "%s: %s", how, mc::quote(out).c_str());
  }
  int heads = 0, sums = 0;
  for (size_t p = 0; p < out.size();) {
    size_t e = std::min(out.find('\n', p), out.size()); std::string l = out.substr(p, e - p); p = e + 1;
    if (l.find("C38.cpp") != S::npos || l.find("case_") != S::npos) continue;
    std::vector<int> nums;
    for (size_t i = 0; i < l.size(); i++) if (isdigit((unsigned char)l[i])) { nums.push_back(atoi(&l[i])); while (i + 1 < l.size() && isdigit((unsigned char)l[i + 1])) i++; }
    heads += nums == std::vector<int>{n}; sums += nums == std::vector<int>{n - want, n};
  }
  if (heads != 1 || sums != 1) mc::fail("summary", "%s: %s", how, mc::quote(out).c_str());
  mc::trace();
}
static void none() { for (auto &k : kinds_) for (int &i : k) i = -1; }
MC_SECTION("single checks", 1) {
  printer.AddPrinterFunction(sink, false);
  for (int k = 0; k < KINDS; k++) for (int p = 0; p < 2; p++) for (int k2 = -1; k2 < KINDS; k2++) for (int p2 = 0; p2 < 2; p2++) for (int k3 = -1; k3 < KINDS; k3++) for (int p3 = 0; p3 < 2; p3++) {
    none(); kinds_[0][0] = k; pass_[0][0] = p; kinds_[0][1] = k2; pass_[0][1] = p2; kinds_[0][2] = k3; pass_[0][2] = p3;
    mc::at("checks %d:%d %d:%d %d:%d", k, p, k2, p2, k3, p3); mc::state(mc::mix((((k * 2 + p) * 64 + k2 * 2 + p2 + 2) * 64) + k3 * 2 + p3 + 2));
    verify(1, run1, "one case");
  }
}
MC_SECTION("case histories", 8) {
  printer.AddPrinterFunction(sink, false);
  uint64_t n = 0;
  for (int ka = 0; ka < KINDS; ka++) for (int kb = 0; kb < KINDS; kb++) for (int kc = 0; kc < KINDS; kc++) for (int m = 0; m < 16; m++) {
    if (!mc::mine(n++)) continue;
    if (!mc::thorough() && (ka + kb + kc) % 3) continue;
    none();
    int k[4] = {ka, kb, kc, (ka + kb + kc) % KINDS};
    for (int c = 0; c < 4; c++) { kinds_[c][0] = (k[c] + 5) % KINDS; pass_[c][0] = 1; kinds_[c][1] = k[c]; pass_[c][1] = m >> c & 1; kinds_[c][2] = k[c]; pass_[c][2] = 1; }
    mc::at("kinds %d %d %d outcomes %x", ka, kb, kc, m); mc::state(mc::mix(n + 999));
    verify(4, run4, "four cases");
  }
  mc::sample("27 check forms, pass and fail");
}
// loop macros the runner is built from, for every supported argument count
#define SF_ADD(x) s += x; c++;
#define SF_ID(tag, id, x) if (id != x - 1) s += 1000000; s += x; c++;
#include "staticfor.inc"
MC_SECTION("loop macros", 1) {
  for (int n = 1; n < 90; n++) {
    int want = n * 100000 + n * (n + 1) / 2;
    if (sfs[n - 1]() != want) mc::fail("argument loop", "%d arguments: %d expected %d", n, sfs[n - 1](), want);
    if (sis[n - 1]() != want) mc::fail("numbered argument loop", "%d arguments: %d expected %d", n, sis[n - 1](), want);
    mc::step(2); mc::trace(); mc::state(mc::mix(n + 77777777));
  }
}
