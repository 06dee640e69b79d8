// VARIANT: asan -O1 -fsanitize=address
// VARIANT: opt -O2
// RULE: state = distinct path string; transition = one real load or query; trace = one path (or reuse pair) compared with the reference splitter
// ASSUME: splitting depends on which characters are '.', '/' and '\\' only; other characters are stood for by two letters
#include "mc.hpp"
#include "datas/fileinfo.hpp"
template <class C> struct P {
  typedef std::basic_string<C> S;
  typedef FileInfo<C> FI;
  typedef es::basic_string_view<C> V;
  static S w(const std::string &s) { return S(s.begin(), s.end()); }
  static std::string n(const S &s) { return std::string(s.begin(), s.end()); }
  struct Ref { S full, folder, name, ext; std::vector<S> parts; };
  static Ref ref(const S &in) {
    Ref r; r.full = in;
    for (auto &c : r.full) if (c == '\\') c = '/';
    size_t sl = r.full.rfind('/'), base = sl == S::npos ? 0 : sl + 1;
    r.folder = r.full.substr(0, base);
    S fn = r.full.substr(base);
    size_t dot = fn.rfind('.');
    if (dot == S::npos || dot + base == 0) dot = fn.size();
    r.name = fn.substr(0, dot); r.ext = fn.substr(dot);
    S body = r.full.size() && r.full[0] == '/' ? r.full.substr(1) : r.full;
    while (body.size()) { size_t p = body.find('/'); r.parts.push_back(body.substr(0, p)); if (p == S::npos) break; body = body.substr(p + 1); }
    return r;
  }
  static void check(const char *how, const FI &f, const S &in) {
    Ref r = ref(in);
    auto c = [&](const char *what, V got, const S &want) { mc::step(); if (S(got) != want) mc::fail(std::string(how) + "/" + what, "%s of '%s' is '%s' expected '%s'", what, n(in).c_str(), n(S(got)).c_str(), n(want).c_str()); };
    c("full path", f.GetFullPath(), r.full);
    c("folder", f.GetFolder(), r.folder);
    c("file name", f.GetFilename(), r.name);
    c("extension", f.GetExtension(), r.ext);
    c("file name with extension", f.GetFilenameExt(), r.name + r.ext);
    c("path without extension", f.GetFullPathNoExt(), r.folder + r.name);
    S re = S(f.GetFolder()) + S(f.GetFilename()) + S(f.GetExtension());
    if (re != r.full) mc::fail(std::string(how) + "/rebuild", "'%s' rebuilt as '%s'", n(in).c_str(), n(re).c_str());
    auto ex = f.Explode();
    bool same = ex.size() == r.parts.size();
    for (size_t i = 0; same && i < ex.size(); i++) same = S(ex[i]) == r.parts[i];
    if (!same) mc::fail(std::string(how) + "/components", "'%s' splits into %zu parts expected %zu", n(in).c_str(), ex.size(), r.parts.size());
    mc::trace();
  }
  static void one(const S &in) {
    mc::at("path '%s'", n(in).c_str());
    mc::state(mc::hashBytes(in.data(), in.size() * sizeof(C), sizeof(C)));
    C *p = (C *)malloc(in.size() * sizeof(C) + 1); memcpy(p, in.data(), in.size() * sizeof(C));
    alignas(FI) char raw[sizeof(FI)]; memset(raw, 0xcd, sizeof raw);
    FI *f = new (raw) FI(V(p, in.size()));
    free(p); // the result owns its characters
    check("fresh", *f, in);
    FI cp(*f); f->Load(V(w("zz/y.x").c_str())); check("copy", cp, in);
    f->~FI();
  }
  static void two(const S &a, const S &b) {
    mc::at("path '%s' then '%s'", n(a).c_str(), n(b).c_str());
    FI f{V(a)}; f.Load(V(b)); check("reload", f, b);
  }
  // branch folder: text before the first component of the path, then the path;
  // otherwise the folder followed by the file name
  static void branch(const S &path, const S &folder) {
    mc::at("branch '%s' in '%s'", n(path).c_str(), n(folder).c_str());
    Ref r = ref(path);
    C *p = (C *)malloc(folder.size() * sizeof(C) + 1); memcpy(p, folder.data(), folder.size() * sizeof(C));
    FI f{V(path)};
    S got = f.CatchBranch(V(p, folder.size())), want;
    free(p);
    size_t at = r.parts.empty() ? S::npos : folder.find(r.parts[0]);
    if (at != S::npos && (r.parts[0].empty() || (at && folder[at - 1] != '/'))) return; // not at a component: unspecified
    if (at == S::npos) want = folder + r.name + r.ext;
    else { want = folder.substr(0, at); if (want.size() && r.full[0] == '/') want.pop_back(); want += r.full; }
    if (got != want) mc::fail("branch", "path '%s' folder '%s' gives '%s' expected '%s'", n(path).c_str(), n(folder).c_str(), n(got).c_str(), n(want).c_str());
    mc::step(); mc::trace();
  }
};
static void paths(const char *abc, int len, std::vector<std::string> &r) { mc::strings(abc, len, [&](const std::string &s) { r.push_back(s); }); }
MC_SECTION("paths", 8) {
  std::vector<std::string> v; paths("ab./\\", mc::thorough() ? 8 : 6, v);
  for (size_t i = 0; i < v.size(); i++) if (mc::mine(i)) { P<char>::one(v[i]); if (v[i].size() < 6) P<wchar_t>::one(P<wchar_t>::w(v[i])); }
  paths("./", mc::thorough() ? 14 : 11, v = {});
  for (size_t i = 0; i < v.size(); i++) if (mc::mine(i)) P<char>::one(v[i]);
}
// long paths: a separator or dot at every position, pairs of them, and around the size classes
MC_SECTION("long paths", 8) {
  uint64_t k = 0; auto both = [&](const std::string &s) { P<char>::one(s); P<wchar_t>::one(P<wchar_t>::w(s)); };
  for (size_t n : {200, 255, 256, 257, 300, 520}) for (size_t i = 0; i < n; i++) for (const char *c : {"/", "\\", "."}) { if (!mc::mine(k++)) continue; std::string s(n, 'a'); for (size_t q = 0; q < n; q++) s[q] = char('a' + q % 23); s[i] = *c; both(s); s[i ? i - 1 : n - 1] = '/'; both(s); s[n - 3] = '.'; both(s); s[0] = '/'; both(s); }
  for (size_t n : {255, 256, 257, 511, 512, 513, 1024}) for (size_t step : {1, 2, 3, 5, 7, 16, 17}) { if (!mc::mine(k++)) continue; std::string s(n, 'b'); for (size_t q = 0; q < n; q += step) s[q] = q % 3 ? '\\' : '/'; both(s); s += ".ext"; both(s); s[0] = 'c'; both(s); }
  for (size_t n : {4096, 32767, 32768, 65535, 65536, 65537, 70001}) for (size_t at : {size_t(0), size_t(1), size_t(127), size_t(255), size_t(256), size_t(300), n / 2, n - 1}) { if (!mc::mine(k++)) continue; std::string s(n, 'd'); s[at] = '/'; both(s); s[n - 2] = '.'; both(s); s[n / 2] = '\\'; s[n / 3] = '/'; both(s); }
  // branches of long paths in long folders
  for (size_t n : {254, 255, 256, 257, 600}) for (size_t m : {1, 3, 255, 256, 257}) { if (!mc::mine(k++)) continue; std::string part(m, 'p'), folder = std::string(n, 'f') + "/" + part + "/"; P<char>::branch(part + "/" + std::string(n, 'x') + "/name.ext", folder); P<char>::branch(std::string(n, 'y') + "/name.ext", folder); P<char>::branch("/" + part + "/name.ext", folder + std::string(n, 'z') + "/"); }
}
MC_SECTION("reuse", 8) {
  std::vector<std::string> v; paths("a./", mc::thorough() ? 5 : 4, v);
  uint64_t k = 0;
  for (auto &a : v) for (auto &b : v) if (mc::mine(k++)) P<char>::two(a, b);
  std::vector<std::string> q; paths("a./", 2, q);
  for (auto &a : q) for (auto &b : q) P<wchar_t>::two(P<wchar_t>::w(a), P<wchar_t>::w(b));
}
MC_SECTION("default", 1) {
  alignas(AFileInfo) char raw[sizeof(AFileInfo)]; memset(raw, 0xcd, sizeof raw);
  AFileInfo *f = new (raw) AFileInfo;
  P<char>::check("default", *f, ""); f->Load("/a/b.c"); P<char>::check("loaded", *f, "/a/b.c"); f->Load(""); P<char>::check("emptied", *f, "");
  f->~AFileInfo();
  mc::sample("/x\\y.z -> folder '/x/' name 'y' extension '.z'");
}
MC_SECTION("branch", 8) {
  std::vector<std::string> v, q; paths("ab/", mc::thorough() ? 6 : 5, v); paths("ab/", mc::thorough() ? 5 : 4, q);
  uint64_t k = 0;
  for (auto &a : v) for (auto &b : q) if (mc::mine(k++)) P<char>::branch(a, b);
  P<wchar_t>::branch(L"/a/b", L"x/a/"); P<wchar_t>::branch(L"a/b.c", L"x/a/");
}
