// REPO: datas/directory_scanner.cpp
// LIBS: -ldl
// VARIANT: opt -O1
// VARIANT: asan -O1 -fsanitize=address,undefined -fno-sanitize-recover=undefined
// RULE: state = directory tree x scan history; transition = one real scan, clear or filter change; trace = one tree or history whose listing was compared with the reference walk
// ASSUME: a filter matches names containing it; results accumulate until cleared; links to folders are not followed; the order of the listing is free
#include "mc.hpp"
#include "datas/directory_scanner.hpp"
#include <algorithm>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <memory>
#include <set>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <unistd.h>
// ---- the file system as the scanner sees it: entries without a type, folders that cannot be opened
static bool hideTypes = false;
extern "C" {
struct dirent *readdir(DIR *d) { static auto f = (struct dirent * (*)(DIR *)) dlsym(RTLD_NEXT, "readdir"); struct dirent *e = f(d); if (e && hideTypes) e->d_type = DT_UNKNOWN; return e; }
struct dirent64 *readdir64(DIR *d) { static auto f = (struct dirent64 * (*)(DIR *)) dlsym(RTLD_NEXT, "readdir64"); struct dirent64 *e = f(d); if (e && hideTypes) e->d_type = DT_UNKNOWN; return e; }
}
// as root without the right to pass over file permissions
#include <linux/capability.h>
#include <sys/syscall.h>
static void overrule(bool yn) { __user_cap_header_struct h = {_LINUX_CAPABILITY_VERSION_3, 0}; __user_cap_data_struct d[2]; if (syscall(SYS_capget, &h, d)) return; unsigned m = 1u << CAP_DAC_OVERRIDE | 1u << CAP_DAC_READ_SEARCH; d[0].effective = yn ? d[0].effective | (m & d[0].permitted) : d[0].effective & ~m; syscall(SYS_capset, &h, d); }
static std::string root; // scratch folder of this shard
static void fresh() { if (root.empty()) { root = mc::g().tmp + "/scan" + std::to_string(getpid()); mkdir(root.c_str(), 0755); if (chdir(root.c_str())) _exit(3); } }
static void put(const std::string &p) { int f = open(p.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644); if (f >= 0) close(f); }
static void wipe(const std::string &p) { DIR *d = opendir(p.c_str()); if (!d) return; std::vector<std::string> es; while (auto *e = readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) es.push_back(e->d_name); closedir(d); for (auto &n : es) { std::string q = p + "/" + n; struct stat s; if (!lstat(q.c_str(), &s) && S_ISDIR(s.st_mode)) { wipe(q); rmdir(q.c_str()); } else unlink(q.c_str()); } }
static void clean(const std::string &p) { bool h = hideTypes; hideTypes = false; if (p.compare(0, mc::g().tmp.size(), mc::g().tmp) == 0) wipe(p); hideTypes = h; }
static std::string norm(std::string s) { std::string o; for (size_t i = 0; i < s.size(); i++) { if (s[i] == '/' && !o.empty() && o.back() == '/') continue; if (s[i] == '.' && i + 1 < s.size() && s[i + 1] == '/' && (o.empty() || o.back() == '/')) { i++; continue; } o += s[i]; } return o; }
typedef std::vector<std::string> List;
static bool match(const std::string &name, const List &filters) { if (filters.empty()) return true; for (auto &f : filters) if (name.find(f) != std::string::npos) return true; return false; }
static List expect(const List &rel, const List &filters, const std::string &dir) { List r; for (auto &f : rel) { size_t s = f.rfind('/'); if (match(s == std::string::npos ? f : f.substr(s + 1), filters)) r.push_back(norm(dir.empty() ? f : dir + "/" + f)); } return r; }
static std::string show(const List &l) { std::string s; for (auto &x : l) s += mc::quote(x) + " "; if (s.size() > 300) s = s.substr(0, 300) + "..."; return s; }
static bool same(const DirectoryScanner &sc, List want, const std::string &what) {
  List got; for (auto &f : sc.Files()) { got.push_back(norm(f)); struct stat s; mc::step(); if (stat(f.c_str(), &s)) mc::fail("unusable path", "%s: %s", what.c_str(), mc::quote(f).c_str()); } std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); if (got == want) return true;
  List miss, extra; std::set_difference(want.begin(), want.end(), got.begin(), got.end(), std::back_inserter(miss)); std::set_difference(got.begin(), got.end(), want.begin(), want.end(), std::back_inserter(extra)); mc::fail(miss.empty() ? "listed too much" : extra.empty() ? "file missing" : "wrong listing", "%s: missing %sextra %s", what.c_str(), show(miss).c_str(), show(extra).c_str()); return false;
}
static int openFiles() { int n = 0; for (int i = 0; i < 256; i++) if (fcntl(i, F_GETFD) != -1) n++; return n; }
static const std::vector<List> &filterSets() { static std::vector<List> f = {{}, {".cpp"}, {".inl"}, {".cpp", ".inl"}, {"zzz"}, {"c"}, {"a.cpp", "d"}}; return f; }
static void scanAll(const List &files, const std::string &what) {
  for (auto &fl : filterSets()) { DirectoryScanner sc; for (auto &f : fl) sc.AddFilter(f); mc::step(); sc.Scan(root); same(sc, expect(files, fl, root), what + " filters " + show(fl)); }
  for (std::string d : {root + "/", std::string(), std::string("."), std::string("./")}) { DirectoryScanner sc; mc::step(); sc.Scan(d); same(sc, expect(files, {}, d == "./" || d == "." ? "" : d), what + " scanned as " + mc::quote(d == root + "/" ? "folder/" : d)); size_t n = 0; for (auto i = sc.begin(); i != sc.end(); ++i, n++) if (*i != sc.Files()[n]) mc::fail("iteration", "%s", what.c_str()); if (n != sc.Files().size() || size_t(sc.cend() - sc.cbegin()) != n) mc::fail("iteration", "%s", what.c_str()); }
}
static void quoted(const List &files, const std::string &what) { for (std::string d : {root + "\"", root + "/\""}) { DirectoryScanner sc; mc::step(); sc.Scan(d); same(sc, expect(files, {}, root), what + " scanned as " + mc::quote(d)); } } // a shell left its closing quote
// ---- all trees: a forest of n nodes over sibling names in increasing order
static const char *const FNAMES[] = {"a.cpp", "b.inl", "c", ".h"}; static const char *const DNAMES[] = {"d", "e.cpp"};
struct Tree { List dirs, files; };
// enumerate: at folder `at` (index into pending) choose entries; plain recursion building Tree by value
static void grow(Tree &t, std::vector<std::string> &open, size_t cur, int option, int left, const std::function<void(const Tree &)> &use) {
  if (cur == open.size()) { use(t); return; }
  grow(t, open, cur + 1, 0, left, use); // nothing more in this folder
  if (!left) return;
  for (int o = option; o < 6; o++) { std::string p = open[cur] + (o < 4 ? FNAMES[o] : DNAMES[o - 4]); if (o < 4) { t.files.push_back(p); grow(t, open, cur, o + 1, left - 1, use); t.files.pop_back(); } else { t.dirs.push_back(p); open.push_back(p + "/"); grow(t, open, cur, o + 1, left - 1, use); open.pop_back(); t.dirs.pop_back(); } }
}
static std::string describe(const Tree &t) { std::string s; for (auto &d : t.dirs) s += d + "/ "; for (auto &f : t.files) s += f + " "; return s; }
static void build(const Tree &t) { List d = t.dirs; std::sort(d.begin(), d.end()); for (auto &x : d) mkdir(x.c_str(), 0755); for (auto &x : t.files) put(x); }
MC_SECTION("every small tree", 8) { fresh(); uint64_t id = 0; int nodes = mc::thorough() ? 6 : 5; Tree t; std::vector<std::string> open = {""}; grow(t, open, 0, 0, nodes, [&](const Tree &t) { if (!mc::mine(id++)) return; std::string what = "tree " + describe(t); mc::at("%s", what.c_str()); mc::trace(); mc::state(what); build(t); hideTypes = (id / 8) % 2 == 1 && mc::thorough(); scanAll(t.files, what); quoted(t.files, what); hideTypes = false; clean(root); mc::beat(); }); }
MC_SECTION("file systems without entry types", 4) { fresh(); uint64_t id = 0; Tree t; std::vector<std::string> open = {""}; grow(t, open, 0, 0, mc::thorough() ? 4 : 3, [&](const Tree &t) { if (!mc::mine(id++)) return; std::string what = "untyped tree " + describe(t); mc::at("%s", what.c_str()); mc::trace(); mc::state(what); build(t); hideTypes = true; scanAll(t.files, what); hideTypes = false; clean(root); mc::beat(); }); }
MC_SECTION("scan histories", 8) { // two folders, scans, filters and clearing in every order
  fresh(); mkdir("A", 0755); mkdir("A/s", 0755); put("A/x.cpp"); put("A/s/y.inl"); put("A/s/x.cpp"); mkdir("B", 0755); put("B/x.cpp"); put("B/z"); const List fa = {"x.cpp", "s/y.inl", "s/x.cpp"}, fb = {"x.cpp", "z"}; int depth = mc::thorough() ? 6 : 5; uint64_t tot = 1; for (int i = 0; i < depth; i++) tot *= 8; const char *const OPS[] = {"scan A", "scan B", "scan A/", "filter .cpp", "filter y", "clear", "clear filters", "scan missing"};
  for (uint64_t k = 0; k < tot; k++) { if (!mc::mine(k)) continue; DirectoryScanner sc; List want, filters; uint64_t x = k; std::string what; for (int i = 0; i < depth; i++) { int o = int(x % 8); x /= 8; what += std::string(OPS[o]) + "; "; mc::step(); mc::at("%s", what.c_str()); auto add = [&](const List &l) { want.insert(want.end(), l.begin(), l.end()); }; switch (o) { case 0: sc.Scan("A"); add(expect(fa, filters, "A")); break; case 1: sc.Scan("B"); add(expect(fb, filters, "B")); break; case 2: sc.Scan("A/"); add(expect(fa, filters, "A")); break; case 3: sc.AddFilter(".cpp"); filters.push_back(".cpp"); break; case 4: sc.AddFilter("y"); filters.push_back("y"); break; case 5: sc.Clear(); want.clear(); break; case 6: sc.ClearFilters(); filters.clear(); break; case 7: try { sc.Scan("missing"); } catch (const std::exception &) {} break; } if (sc.Files().size() != want.size()) { mc::fail("history", "%s: %zu files expected %zu", what.c_str(), sc.Files().size(), want.size()); break; } } same(sc, want, what); mc::trace(); mc::state(mc::mix(k + 1)); if (!(k & 1023)) mc::beat(); } clean(root); }
MC_SECTION("names", 4) { // unusual names for files and for folders holding files, alone and beside their look-alikes
  fresh(); List names = {"a", "a\"", "\"", "\"a\"", "a\\", "\\", "a\\b", "a ", " a", "...", "..a", ".a", "a.", "-r", "*", "?", "a*b", "~", "$HOME", "a\nb", "\xc3\xa9", "\xff\xfe", std::string(255, 'n'), "a'b", "%s"}; uint64_t id = 0;
  for (auto &a : names) for (auto &b : names) { if (!mc::mine(id++)) continue; for (int form = 0; form < 3; form++) { if (a == b && form != 2) continue; List files; std::string what = "names " + mc::quote(a.substr(0, 20)) + " and " + mc::quote(b.substr(0, 20)) + (form == 0 ? " as files" : form == 1 ? " as folders" : " as a file in a folder"); mc::at("%s", what.c_str()); mc::trace(); mc::state(what); if (form == 0) { put(a); put(b); files = {a, b}; } else if (form == 1) { mkdir(a.c_str(), 0755); mkdir(b.c_str(), 0755); put(a + "/1.cpp"); put(b + "/2.inl"); put(b + "/c"); files = {a + "/1.cpp", b + "/2.inl", b + "/c"}; } else { mkdir(a.c_str(), 0755); put(a + "/" + b); files = {a + "/" + b}; } scanAll(files, what); clean(root); } mc::beat(); }
}
MC_SECTION("kinds of nodes", 4) { // only regular files, also behind links; every subset of node kinds
  fresh(); const char *const K[] = {"file", "folder", "link to file", "link to folder", "dangling link", "link to itself", "fifo", "socket", "link to fifo", "link upwards"}; for (unsigned m = 0; m < 1024; m++) { if (!mc::mine(m)) continue; if (!mc::thorough() && __builtin_popcount(m) > 4) continue; for (int deep = 0; deep < 2; deep++) for (int hide = 0; hide < 2; hide++) { std::string p = deep ? "sub/" : ""; if (deep) mkdir("sub", 0755); std::string out = mc::g().tmp + "/t" + std::to_string(getpid()); mkdir(out.c_str(), 0755); put(out + "/inner.cpp"); List files; std::string what = "nodes:"; for (int i = 0; i < 10; i++) if (m >> i & 1) { what += std::string(" ") + K[i]; std::string n = p + "n" + std::to_string(i) + ".cpp"; switch (i) { case 0: put(n); files.push_back(n); break; case 1: mkdir(n.c_str(), 0755); put(n + "/in.cpp"); files.push_back(n + "/in.cpp"); break; case 2: if (symlink((out + "/inner.cpp").c_str(), n.c_str())) {} files.push_back(n); break; case 3: if (symlink(out.c_str(), n.c_str())) {} break; case 4: if (symlink("nowhere", n.c_str())) {} break; case 5: if (symlink(("n" + std::to_string(i) + ".cpp").c_str(), n.c_str())) {} break; case 6: mkfifo(n.c_str(), 0644); break; case 7: { int s = socket(AF_UNIX, SOCK_STREAM, 0); sockaddr_un u = {}; u.sun_family = AF_UNIX; std::string full = n; if (full.size() < sizeof u.sun_path) { strcpy(u.sun_path, full.c_str()); if (bind(s, reinterpret_cast<sockaddr *>(&u), sizeof u)) {} } close(s); break; } case 8: mkfifo((out + "/fifo").c_str(), 0644); if (symlink((out + "/fifo").c_str(), n.c_str())) {} break; case 9: if (symlink("..", n.c_str())) {} break; } }
      what += deep ? " in a folder" : ""; what += hide ? ", untyped" : ""; mc::at("%s", what.c_str()); mc::trace(); mc::state(what); hideTypes = hide; for (auto &fl : {List(), List{".cpp"}, List{"n2"}}) { DirectoryScanner sc; for (auto &f : fl) sc.AddFilter(f); mc::step(); sc.Scan(root); same(sc, expect(files, fl, root), what + " filters " + show(fl)); } hideTypes = false; clean(root); wipe(out); rmdir(out.c_str()); } mc::beat(); }
}
MC_SECTION("wide and deep", 4) { fresh(); uint64_t id = 0; for (size_t n : {1u, 50u, 500u, 3000u}) for (int hide = 0; hide < 2; hide++) { if (!mc::mine(id++)) continue; List files; for (size_t i = 0; i < n; i++) { std::string f = "file number " + std::to_string(i) + (i % 3 ? ".cpp" : ".inl"); put(f); files.push_back(f); } mc::at("%zu files", n); mc::trace(); mc::state(mc::mix(id)); hideTypes = hide; scanAll(files, std::to_string(n) + " files"); hideTypes = false; clean(root); mc::beat(); } for (size_t n : {1u, 10u, 60u, 200u}) { if (!mc::mine(id++)) continue; List files; std::string p; for (size_t i = 0; i < n; i++) { put(p + "f.cpp"); files.push_back(p + "f.cpp"); p += "d" + std::to_string(i % 10); mkdir(p.c_str(), 0755); p += "/"; } put(p + "end.inl"); files.push_back(p + "end.inl"); mc::at("depth %zu", n); mc::trace(); mc::state(mc::mix(id)); int before = openFiles(); scanAll(files, "depth " + std::to_string(n)); if (openFiles() != before) mc::fail("open folders left", "depth %zu: %d", n, openFiles() - before); clean(root); mc::beat(); } }
MC_SECTION("long paths", 2) { fresh(); uint64_t id = 0; // names and paths up to what the system takes
  for (size_t len : {1u, 60u, 127u, 128u, 200u, 255u}) for (size_t depth : {1u, 2u, 4u, 5u, 8u, 9u, 15u, 16u, 30u}) { if (root.size() + (len + 1) * (depth + 1) > 4000 || !mc::mine(id++)) continue; for (int hide = 0; hide < 2; hide++) { List files; std::string p; auto leaf = [&](const char *ext) { std::string f = p + std::string(len > 4 ? len - 4 : 1, 'f') + ext; put(f); files.push_back(f); }; for (size_t i = 0; i < depth; i++) { leaf(".cpp"); p += std::string(len, char('a' + i % 26)); mkdir(p.c_str(), 0755); p += "/"; } leaf(".inl"); leaf(".cpp"); std::string what = std::to_string(depth) + " folders of " + std::to_string(len) + (hide ? " characters, untyped" : " characters"); mc::at("%s", what.c_str()); mc::trace(); mc::state(what); hideTypes = hide; scanAll(files, what); hideTypes = false; clean(root); mc::beat(); } } }
MC_SECTION("refused folders", 4) { // any one folder cannot be opened: the rest is listed as before, nothing stays open
  fresh(); uint64_t id = 0; Tree t; std::vector<std::string> open = {""}; grow(t, open, 0, 0, mc::thorough() ? 5 : 4, [&](const Tree &t) { if (t.dirs.empty() || !mc::mine(id++)) return; build(t); for (auto &bad : t.dirs) { if (std::count_if(t.dirs.begin(), t.dirs.end(), [&](const std::string &o) { return o.size() >= bad.size() && !o.compare(o.size() - bad.size(), bad.size(), bad); }) != 1) continue; List files; for (auto &f : t.files) if (f.compare(0, bad.size() + 1, bad + "/")) files.push_back(f); std::string what = "tree " + describe(t) + " without access to " + bad; mc::at("%s", what.c_str()); mc::trace(); mc::state(what); int before = openFiles(); chmod(bad.c_str(), 0); overrule(false); DirectoryScanner sc; mc::step(); try { sc.Scan(root); same(sc, expect(files, {}, root), what); } catch (const std::exception &) {} overrule(true); chmod(bad.c_str(), 0755); if (openFiles() != before) mc::fail("open folders left", "%s", what.c_str()); } clean(root); mc::beat(); });
  DirectoryScanner sc; for (std::string p : {root + "/missing", root + "/missing/", root + "/missing/deeper"}) { mc::step(); try { sc.Scan(p); if (!sc.Files().empty()) mc::fail("missing folder", "lists files"); } catch (const std::exception &) {} } put("plain"); try { sc.Scan(root + "/plain"); if (!sc.Files().empty()) mc::fail("file scanned as folder", "lists %zu files", sc.Files().size()); } catch (const std::exception &) {} clean(root);
}
