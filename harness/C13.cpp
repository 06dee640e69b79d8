// VARIANT: asan -O1 -fsanitize=address
// VARIANT: opt -O2
// RULE: state = distinct (view content, argument content); transition = one real view call; trace = one call compared with std::basic_string over the same characters
// ASSUME: searches depend on equality and order of characters only; a three letter alphabet including the zero and a negative character stands for all
#include "mc.hpp"
#include "datas/string_view.hpp"
#include <sstream>
#include <cstring>
template <class C> struct Abc;
template <> struct Abc<char> { static const char *v() { return "a\0\x80"; } };
template <> struct Abc<wchar_t> { static const wchar_t *v() { return L"a\0\x3b1"; } };
template <> struct Abc<char16_t> { static const char16_t *v() { return u"a\0\xff01"; } };
template <> struct Abc<char32_t> { static const char32_t *v() { return U"a\0\x1f600"; } };
static int sgn(int x) { return x < 0 ? -1 : x > 0; }
template <class C> struct K {
  typedef std::basic_string<C> S;
  typedef es::basic_string_view<C> V;
  struct Buf { // exact size heap copy: reads outside are caught
    C *p; size_t n;
    Buf(const S &s) : p((C *)malloc(s.size() * sizeof(C) + !s.size())), n(s.size()) { memcpy(p, s.data(), n * sizeof(C)); }
    ~Buf() { free(p); }
    V v() const { return V(p, n); }
  };
  static std::vector<S> all(int maxLen) {
    std::vector<S> r{S()};
    for (size_t i = 0; i < r.size(); i++) if ((int)r[i].size() < maxLen) for (int c = 0; c < 3; c++) { S t = r[i]; r.push_back(t + Abc<C>::v()[c]); }
    return r;
  }
  static std::string pr(const S &s) { std::string r = "["; for (C c : s) r += c == Abc<C>::v()[0] ? 'a' : c ? 'x' : '0'; return r + "]"; }
  template <class F, class G> static void eq(const char *what, const S &h, const S &n, size_t pos, F f, G g) {
    size_t a = f(), b = g();
    mc::step();
    if (a != b) mc::fail(what, "%s: haystack %s needle %s pos %zd gives %zd expected %zd", what, pr(h).c_str(), pr(n).c_str(), (ssize_t)pos, (ssize_t)a, (ssize_t)b);
  }
  template <class F> static int thrown(F f) { try { f(); } catch (const std::out_of_range &) { return 1; } return 0; }
  static void pair(const S &h, const S &n) {
    Buf hb(h), nb(n); V v = hb.v(), w = nb.v();
    const bool cstr = n.find(C(0)) == S::npos;
    mc::at("haystack %s needle %s char %zu", pr(h).c_str(), pr(n).c_str(), sizeof(C));
    mc::state(mc::hashBytes(h.data(), h.size() * sizeof(C), mc::hashBytes(n.data(), n.size() * sizeof(C), sizeof(C))));
    for (size_t k = 0; k <= h.size() + 8; k++) {
      static const size_t FAR[] = {S::npos, S::npos - 1, size_t(1) << 31, size_t(1) << 32, (size_t(1) << 32) + 1, size_t(1) << 63}; size_t p = k <= h.size() + 2 ? k : FAR[k - h.size() - 3];
#define Q(fn) { eq(#fn " view", h, n, p, [&] { return v.fn(w, p); }, [&] { return h.fn(n, p); }); eq(#fn " counted", h, n, p, [&] { return v.fn(nb.p, p, nb.n); }, [&] { return h.fn(n, p); }); \
    if (n.size() == 1) eq(#fn " char", h, n, p, [&] { return v.fn(n[0], p); }, [&] { return h.fn(n[0], p); }); \
    if (cstr) eq(#fn " c string", h, n, p, [&] { return v.fn(n.c_str(), p); }, [&] { return h.fn(n.c_str(), p); }); }
      Q(find) Q(rfind) Q(find_first_of) Q(find_last_of) Q(find_first_not_of) Q(find_last_not_of)
#undef Q
    }
#define Q(fn) { eq(#fn " default", h, n, 0, [&] { return v.fn(w); }, [&] { return h.fn(n); }); if (n.size() == 1) eq(#fn " default char", h, n, 0, [&] { return v.fn(n[0]); }, [&] { return h.fn(n[0]); }); if (cstr) eq(#fn " default c string", h, n, 0, [&] { return v.fn(n.c_str()); }, [&] { return h.fn(n.c_str()); }); }
    Q(find) Q(rfind) Q(find_first_of) Q(find_last_of) Q(find_first_not_of) Q(find_last_not_of)
#undef Q
    // order
    int c = sgn(h.compare(n));
    if (sgn(v.compare(w)) != c) mc::fail("compare", "%s with %s", pr(h).c_str(), pr(n).c_str());
    if ((v == w) != (c == 0) || (v != w) != (c != 0) || (v < w) != (c < 0) || (v > w) != (c > 0) || (v <= w) != (c <= 0) || (v >= w) != (c >= 0)) mc::fail("relational", "%s with %s", pr(h).c_str(), pr(n).c_str());
    if ((v == n) != (c == 0) || (v != n) != (c != 0) || (v < n) != (c < 0) || (v > n) != (c > 0) || (v <= n) != (c <= 0) || (v >= n) != (c >= 0)) mc::fail("relational string", "%s with %s", pr(h).c_str(), pr(n).c_str());
    if ((h == w) != (c == 0) || (h != w) != (c != 0) || (h < w) != (c < 0) || (h > w) != (c > 0) || (h <= w) != (c <= 0) || (h >= w) != (c >= 0)) mc::fail("relational string left", "%s with %s", pr(h).c_str(), pr(n).c_str());
    if (cstr) {
      const C *z = n.c_str();
      if (sgn(v.compare(z)) != c) mc::fail("compare c string", "%s with %s", pr(h).c_str(), pr(n).c_str());
      if ((v == z) != (c == 0) || (v != z) != (c != 0) || (v < z) != (c < 0) || (v > z) != (c > 0) || (v <= z) != (c <= 0) || (v >= z) != (c >= 0)) mc::fail("relational c string", "%s with %s", pr(h).c_str(), pr(n).c_str());
      int d = -c;
      if ((z == v) != (d == 0) || (z != v) != (d != 0) || (z < v) != (d < 0) || (z > v) != (d > 0) || (z <= v) != (d <= 0) || (z >= v) != (d >= 0)) mc::fail("relational c string left", "%s with %s", pr(h).c_str(), pr(n).c_str());
    }
    { V a = v, b = w; a.swap(b); if (a != w || b != v || a.size() != n.size() || b.data() != hb.p) mc::fail("swap", "member"); using std::swap; es::swap(a, b); if (a.data() != hb.p || b.data() != nb.p || a.size() != h.size()) mc::fail("swap", "free"); }
    mc::step(30); mc::trace();
  }
  static void compareParts(const S &h, const S &n) {
    Buf hb(h), nb(n); V v = hb.v(), w = nb.v();
    const bool cstr = n.find(C(0)) == S::npos;
    mc::at("partial compare %s %s", pr(h).c_str(), pr(n).c_str());
    for (size_t p = 0; p <= h.size() + 1; p++) for (size_t cc = 0; cc <= h.size() + 2; cc++) {
      size_t c = cc == h.size() + 2 ? S::npos : cc;
      int t = thrown([&] { v.compare(p, c, w); }), te = p > h.size();
      if (t != te) { mc::fail("compare part throw", "%s pos %zu", pr(h).c_str(), p); continue; }
      if (te) continue;
      if (sgn(v.compare(p, c, w)) != sgn(h.compare(p, c, n))) mc::fail("compare part", "%s %zu %zd with %s", pr(h).c_str(), p, (ssize_t)c, pr(n).c_str());
      if (cstr && sgn(v.compare(p, c, n.c_str())) != sgn(h.compare(p, c, n.c_str()))) mc::fail("compare part c string", "%s %zu %zd with %s", pr(h).c_str(), p, (ssize_t)c, pr(n).c_str());
      for (size_t k = 0; k <= n.size(); k++) {
        if (sgn(v.compare(p, c, nb.p, k)) != sgn(h.compare(p, c, n.data(), k))) mc::fail("compare part counted", "%s %zu %zd with %s", pr(h).c_str(), p, (ssize_t)c, pr(n).c_str());
        for (size_t k2 = 0; k2 <= n.size() + 1; k2++) {
          size_t kk = k2 == n.size() + 1 ? S::npos : k2;
          if (sgn(v.compare(p, c, w, k, kk)) != sgn(h.compare(p, c, n, k, kk))) mc::fail("compare two parts", "%s %zu %zd with %s %zu %zd", pr(h).c_str(), p, (ssize_t)c, pr(n).c_str(), k, (ssize_t)kk);
        }
        mc::step(n.size() + 3);
      }
      if (!thrown([&] { v.compare(p, c, w, n.size() + 1, 1); })) mc::fail("compare two parts throw", "no error");
    }
    mc::trace();
  }
  static void single(const S &h) {
    Buf hb(h); V v = hb.v();
    mc::at("string %s", pr(h).c_str());
    if (v.size() != h.size() || v.length() != h.size() || v.empty() != h.empty() || v.data() != hb.p || v.c_str() != hb.p || S(v.begin(), v.end()) != h || S(v.cbegin(), v.cend()) != h || v.max_size() < h.size()) mc::fail("observers", "%s", pr(h).c_str());
    if (v.to_string() != h || S(v) != h) mc::fail("conversion", "%s", pr(h).c_str());
    V fs(h); if (fs.data() != h.c_str() || fs.size() != h.size()) mc::fail("from string", "%s", pr(h).c_str());
    V fr((const C *)hb.p, (const C *)hb.p + hb.n); if (fr.data() != hb.p || fr.size() != hb.n) mc::fail("from range", "%s", pr(h).c_str());
    if (h.find(C(0)) == S::npos) { V fc(h.c_str()); if (fc.size() != h.size() || fc != v) mc::fail("from c string", "%s", pr(h).c_str()); }
    if (h.size()) { if (v.front() != h.front() || v.back() != h.back()) mc::fail("ends", "%s", pr(h).c_str()); }
    for (size_t i = 0; i < h.size() + 2; i++) {
      if (i < h.size() && (v[i] != h[i] || v.at(i) != h[i])) mc::fail("index", "%s %zu", pr(h).c_str(), i);
      if (thrown([&] { (void)(volatile C)v.at(i); }) != (i >= h.size())) mc::fail("at throw", "%s %zu", pr(h).c_str(), i);
    }
    if (thrown([&] { (void)(volatile C)v.at(S::npos); }) != 1) mc::fail("at throw", "npos");
    for (size_t n = 0; n <= h.size(); n++) {
      V a = v, b = v, c = v; a.remove_prefix(n); b.remove_suffix(n); c.resize(n);
      if (a.to_string() != h.substr(n) || b.to_string() != h.substr(0, h.size() - n) || c.to_string() != h.substr(0, n)) mc::fail("trim", "%s by %zu", pr(h).c_str(), n);
    }
    for (size_t p = 0; p <= h.size() + 2; p++) for (size_t k = 0; k <= h.size() + 3; k++) {
      size_t pos = p == h.size() + 2 ? S::npos : p, cnt = k == h.size() + 2 ? S::npos : k == h.size() + 3 ? S::npos - 1 : k;
      int te = pos > h.size();
      if (thrown([&] { v.substr(pos, cnt); }) != te) { mc::fail("substr throw", "%s %zd", pr(h).c_str(), (ssize_t)pos); continue; }
      C out[16]; for (C &c : out) c = C(0x5c);
      size_t got = 0;
      if (thrown([&] { got = v.copy(out, cnt, pos); }) != te) { mc::fail("copy throw", "%s %zd", pr(h).c_str(), (ssize_t)pos); continue; }
      if (te) continue;
      if (v.substr(pos, cnt).to_string() != h.substr(pos, cnt) || v.substr(pos).to_string() != h.substr(pos)) mc::fail("substr", "%s %zu %zd", pr(h).c_str(), pos, (ssize_t)cnt);
      S e = h.substr(pos, cnt);
      if (got != e.size() || S(out, got) != e || out[got] != C(0x5c)) mc::fail("copy", "%s %zu %zd copies %zu", pr(h).c_str(), pos, (ssize_t)cnt, got);
      mc::step(4);
    }
    if (v.substr().to_string() != h) mc::fail("substr", "default");
    { C out[16] = {}; if (v.copy(out) != h.size() || S(out, h.size()) != h) mc::fail("copy", "default"); }
    mc::step(20); mc::trace();
  }
  // long strings of one character with up to one other, needles and sets of many characters
  static void longer(size_t n, size_t at, bool two) {
    const C a = Abc<C>::v()[0], z = Abc<C>::v()[2]; S h(n, a); if (at < n) h[at] = z; if (two && n) h[n - 1] = z;
    Buf hb(h); V v = hb.v(); std::vector<S> ns = {S(1, z), S(1, a), S(1, a) + z, S(1, z) + a, S(2, z), h, S(1, C('q'))};
    for (size_t k : {15u, 16u, 17u, 64u, 255u, 256u, 257u, 600u}) { if (k > n + 2 && n) continue; ns.push_back(S(k, a)); ns.push_back(S(k, a) + z); ns.push_back(z + S(k, a)); S set; for (size_t i = 0; i < k; i++) set += C('b' + i % 20); ns.push_back(set); ns.push_back(set + z); ns.push_back(set + a); }
    if (n) { ns.push_back(h.substr(1)); ns.push_back(h.substr(0, n - 1)); ns.push_back(h + a); ns.push_back(h.substr(0, n - 1) + C('b')); ns.push_back(h.substr(0, n / 2) + C('0') + h.substr(n / 2)); }
    for (auto &nn : ns) { Buf nb(nn); V w = nb.v(); mc::at("%zu characters, the other at %zd%s, needle of %zu", n, (ssize_t)at, two ? " and the end" : "", nn.size()); mc::state(mc::hashBytes(h.data(), h.size() * sizeof(C), mc::hashBytes(nn.data(), nn.size() * sizeof(C), sizeof(C) + 99)));
      bool big = n > 1000 && nn.size() > 20;
      for (size_t p : {size_t(0), size_t(1), n / 2, at - 1, at, at + 1, n - 1, n, n + 1, S::npos, (size_t(1) << 32) + 1}) {
#define Q(fn) { mc::step(); size_t x = v.fn(w, p), y = h.fn(nn, p); if (x != y) mc::fail(#fn " in a long view", "%zu characters, the other at %zd%s, needle of %zu characters, from %zd: %zd expected %zd", n, (ssize_t)at, two ? " and the end" : "", nn.size(), (ssize_t)p, (ssize_t)x, (ssize_t)y); }
        Q(find) Q(rfind) if (!big || p == 0 || p == S::npos) { Q(find_first_of) Q(find_last_of) Q(find_first_not_of) Q(find_last_not_of) }
#undef Q
      }
      int c = sgn(h.compare(nn)); mc::step(3); if (sgn(v.compare(w)) != c || sgn(w.compare(v)) != -c || (v == w) != (c == 0) || (v < w) != (c < 0) || (v > w) != (c > 0)) mc::fail("compare of long views", "%zu characters, the other at %zd, with %zu characters", n, (ssize_t)at, nn.size());
      if (n > 1 && (sgn(v.compare(1, S::npos, w)) != sgn(h.compare(1, S::npos, nn)) || sgn(v.compare(n / 2, n, w, nn.size() / 2, n)) != sgn(h.compare(n / 2, n, nn, nn.size() / 2, n)))) mc::fail("compare of long views", "parts, %zu characters, the other at %zd, with %zu characters", n, (ssize_t)at, nn.size());
    }
    S out(n + 1, C('#')); if (v.copy(&out[0], n) != n || out != h + C('#')) mc::fail("copy of a long view", "%zu characters", n); if (v.to_string() != h || S(v.begin(), v.end()) != h || v.substr(n / 2).to_string() != h.substr(n / 2)) mc::fail("conversion of a long view", "%zu characters", n);
    if (h.find(C(0)) == S::npos && V(h.c_str()).size() != n) mc::fail("length of a long c string", "%zu characters", n);
    mc::trace(); mc::beat();
  }
  static void longRun() { uint64_t i = 0; for (size_t n : {15u, 16u, 17u, 31u, 32u, 33u, 63u, 64u, 65u, 127u, 128u, 129u, 255u, 256u, 257u, 511u, 512u, 513u, 1023u, 1024u, 1025u, 4095u, 4096u, 4097u, 8193u, 32768u, 65535u, 65536u, 65537u}) for (size_t at : {S::npos, size_t(0), size_t(1), size_t(15), size_t(16), size_t(255), size_t(256), n / 2, n - 2, n - 1}) for (int two = 0; two < 2; two++) if (mc::mine(i++) && (n < 2000 || mc::thorough() || (!two && (at == S::npos || !at || at == n - 1)))) longer(n, at, two); }
  static void run(int maxH, int maxN, int maxC) {
    auto hs = all(maxH), ns = all(maxN), cs = all(maxC);
    uint64_t i = 0;
    for (auto &h : hs) { if (mc::mine(i++)) single(h); for (auto &n : ns) if (mc::mine(i++)) pair(h, n); }
    for (auto &h : cs) for (auto &n : cs) if (mc::mine(i++)) compareParts(h, n);
    V d; if (!d.empty() || d.size() || d != V() || d.find(V()) != 0 || d.rfind(V()) != 0 || d.find_last_of(V()) != S::npos || d.to_string() != S()) mc::fail("default view", "not an empty string");
  }
};
MC_SECTION("char", 8) {
  bool t = mc::thorough();
  K<char>::run(t ? 7 : 5, t ? 4 : 3, t ? 4 : 3);
}
MC_SECTION("wide", 8) {
  bool t = mc::thorough();
  K<wchar_t>::run(t ? 6 : 4, t ? 3 : 2, 2); K<char16_t>::run(t ? 6 : 4, t ? 3 : 2, 2); K<char32_t>::run(t ? 6 : 4, t ? 3 : 2, 2);
}
MC_SECTION("long views", 8) { K<char>::longRun(); if (mc::thorough()) { K<wchar_t>::longRun(); K<char16_t>::longRun(); K<char32_t>::longRun(); } }
MC_SECTION("stream and literals", 1) {
  for (auto &h : K<char>::all(5)) { K<char>::Buf b(h); std::ostringstream o; o << "<" << b.v() << ">"; if (o.str() != "<" + h + ">") mc::fail("stream", "%s", K<char>::pr(h).c_str()); mc::step(); mc::trace(); }
  std::wostringstream wo; wo << es::wstring_view(L"ab"); if (wo.str() != L"ab") mc::fail("stream", "wide");
  auto a = es::MakeStringView("abc"); auto z = es::MakeStringView("a\0c"); auto e = es::MakeStringView("");
  if (a != "abc" || z.size() != 3 || z.to_string() != std::string("a\0c", 3) || !e.empty()) mc::fail("literal", "MakeStringView");
  auto w = es::MakeStringView(L"xy"); if (w != L"xy") mc::fail("literal", "wide");
  mc::sample("'abcabc'.rfind('abc') = %zu", es::string_view("abcabc").rfind("abc"));
}
