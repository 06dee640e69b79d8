// REPO: datas/stat.cpp
// LIBS: -ldl
// VARIANT: opt -O1
// VARIANT: asan -O1 -fsanitize=address,undefined -fno-sanitize-recover=undefined
// RULE: state = file system state x path (or mode value); transition = one real query or folder creation; trace = one case whose answer and resulting file system were compared with the reference model
// ASSUME: the text after the last separator of a created path is a file name; the process runs with enough rights
#include "mc.hpp"
#include "datas/stat.hpp"
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <map>
#include <memory>
#include <set>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <sys/syscall.h>
#include <unistd.h>
// ---- stand-in for the status query: any mode value for one name
static const char *const MAGIC = "any-mode-node"; static bool asked = false; static mode_t magicMode = 0; static int magicErr = 0;
extern "C" int stat(const char *p, struct stat *s) noexcept { size_t n = strlen(p), m = strlen(MAGIC); if (n >= m && !strcmp(p + n - m, MAGIC)) { asked = true; if (magicErr) { errno = magicErr; return -1; } memset(s, 0, sizeof *s); s->st_mode = magicMode; return 0; } return int(syscall(SYS_newfstatat, AT_FDCWD, p, s, 0)); }
static std::string base, root;
static void fresh() { if (!base.empty()) return; base = mc::g().tmp + "/st" + std::to_string(getpid()); root = base; mkdir(base.c_str(), 0755); for (int i = 0; i < 7; i++) { root += "/l" + std::to_string(i); mkdir(root.c_str(), 0755); } if (chdir(root.c_str())) _exit(3); }
static void put(const std::string &p, const char *text = "content") { int f = open(p.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644); if (f >= 0) { if (write(f, text, strlen(text))) {} close(f); } }
static const char *const T[] = {"Error", "Invalid", "Directory", "File"};
static void kind(const std::string &p, FileType_e want, const char *what) { mc::step(); mc::at("%s", what); mc::state(std::string(what) + p); FileType_e t = FileType(p); if (t != want) mc::fail("file type", "%s (%s): %s expected %s", what, mc::quote(p.size() > 60 ? p.substr(p.size() - 60) : p).c_str(), int(t) >= 0 && int(t) < 4 ? T[t] : "?", T[want]); }
MC_SECTION("node kinds", 1) {
  fresh(); umask(022); put("file"); put("empty", ""); mkdir("dir", 0755); mkdir("dir/sub", 0755); put("dir/file.txt"); mkfifo("fifo", 0644); { int s = socket(AF_UNIX, SOCK_STREAM, 0); sockaddr_un u = {}; u.sun_family = AF_UNIX; strcpy(u.sun_path, "sock"); if (bind(s, reinterpret_cast<sockaddr *>(&u), sizeof u)) mc::capped("no socket"); close(s); }
  for (const char *t : {"file", "empty", "dir", "fifo", "sock", "nowhere", "/dev/null"}) { std::string n = std::string("to-") + (t[0] == '/' ? "dev" : t); if (symlink(t, n.c_str())) {} if (symlink(n.c_str(), ("again-" + n).c_str())) {} } if (symlink("loop", "loop")) {} if (symlink(".", "here")) {}
  put("mode000"); chmod("mode000", 0); mkdir("dir000", 0); chmod("dir000", 0); put("exec"); chmod("exec", 07777); put(std::string(255, 'n')); put("\xc3\xa9 \n"); put("trailing.");
  struct { const char *p; FileType_e t; } K[] = {{"file", FileType_e::File}, {"empty", FileType_e::File}, {"dir", FileType_e::Directory}, {"dir/sub", FileType_e::Directory}, {"dir/file.txt", FileType_e::File}, {"fifo", FileType_e::Invalid}, {"sock", FileType_e::Invalid}, {"to-file", FileType_e::File}, {"to-empty", FileType_e::File}, {"to-dir", FileType_e::Directory}, {"to-fifo", FileType_e::Invalid}, {"to-sock", FileType_e::Invalid}, {"to-nowhere", FileType_e::Error}, {"to-dev", FileType_e::Invalid}, {"again-to-file", FileType_e::File}, {"again-to-dir", FileType_e::Directory}, {"again-to-sock", FileType_e::Invalid}, {"again-to-nowhere", FileType_e::Error}, {"loop", FileType_e::Error}, {"here", FileType_e::Directory}, {"here/here/file", FileType_e::File}, {"nothing", FileType_e::Error}, {"dir/nothing", FileType_e::Error}, {"file/below", FileType_e::Error}, {"file/", FileType_e::Error}, {"nothing/", FileType_e::Error}, {"dir/", FileType_e::Directory}, {"dir//", FileType_e::Directory}, {"dir/.", FileType_e::Directory}, {"dir/..", FileType_e::Directory}, {".", FileType_e::Directory}, {"..", FileType_e::Directory}, {"/", FileType_e::Directory}, {"", FileType_e::Error}, {"/dev/null", FileType_e::Invalid}, {"to-dir/file.txt", FileType_e::File}, {"mode000", FileType_e::File}, {"dir000", FileType_e::Directory}, {"exec", FileType_e::File}, {"\xc3\xa9 \n", FileType_e::File}, {"trailing.", FileType_e::File}};
  for (auto &k : K) { mc::trace(); kind(k.p, k.t, k.p); if (k.p[0] && k.p[0] != '/') kind(root + "/" + k.p, k.t, "absolute"); } kind(std::string(255, 'n'), FileType_e::File, "longest name"); kind(std::string(256, 'n'), FileType_e::Error, "name too long"); std::string deep; for (int i = 0; i < 3000; i++) deep += "./"; kind(deep + "file", FileType_e::Error, "path too long"); kind(deep.substr(0, 4000) + "file", FileType_e::File, "long path");
}
MC_SECTION("every mode value", 1) { fresh(); magicErr = 0; magicMode = S_IFREG | 0644; FileType_e t = FileType(MAGIC); if (!asked) { mc::sample("status is not queried through stat(): skipped"); mc::trace(); mc::step(); mc::state(1); return; } (void)t; for (unsigned m = 0; m < 65536; m++) { magicMode = m; mc::step(); if (!(m & 0xfff)) { mc::trace(); mc::at("mode %06o", m); } mc::state(mc::mix(m + 1)); FileType_e want = (m & 0170000) == 0040000 ? FileType_e::Directory : (m & 0170000) == 0100000 ? FileType_e::File : FileType_e::Invalid; FileType_e g = FileType(MAGIC); if (g != want) { mc::fail("file type", "mode %06o: %s expected %s", m, int(g) >= 0 && int(g) < 4 ? T[g] : "?", T[want]); break; } } for (int e : {ENOENT, ENOTDIR, EACCES, ELOOP, ENAMETOOLONG, EIO, EOVERFLOW, ENOMEM}) { magicErr = e; mc::step(); if (FileType(MAGIC) != FileType_e::Error) mc::fail("file type", "failed query %d is not an error", e); } magicErr = 0; }
// ---- creating folders: model of the scratch file system
typedef std::map<std::string, char> Fs; // path -> d, f, l (link to x)
static Fs scan(const std::string &p, const std::string &rel = "") { Fs r; DIR *d = opendir(p.c_str()); if (!d) return r; while (auto *e = readdir(d)) { if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue; std::string q = p + "/" + e->d_name, n = rel + e->d_name; struct stat s; if (lstat(q.c_str(), &s)) continue; r[n] = S_ISDIR(s.st_mode) ? 'd' : S_ISLNK(s.st_mode) ? 'l' : 'f'; if (S_ISDIR(s.st_mode)) { auto x = scan(q, n + "/"); r.insert(x.begin(), x.end()); } } closedir(d); return r; }
static const Fs START = {{"x", 'd'}, {"x/y", 'd'}, {"f", 'f'}, {"x/f", 'f'}, {"l", 'l'}};
static void start() { mkdir("x", 0755); mkdir("x/y", 0755); put("f"); put("x/f"); if (symlink("x", "l")) {} }
static void restore(const Fs &now) { for (auto i = now.rbegin(); i != now.rend(); ++i) if (!START.count(i->first)) { if (i->second == 'd') rmdir(i->first.c_str()); else unlink(i->first.c_str()); } }
// walk the folders named before the last separator, creating what is missing; stops at anything that is no folder
static void reach(Fs &fs, const std::string &path) {
  std::vector<std::string> at; size_t p = 0; for (;;) { size_t s = path.find('/', p); if (s == std::string::npos) return; std::string c = path.substr(p, s - p); p = s + 1; if (c.empty() || c == ".") continue; if (c == "..") { if (at.empty()) return; at.pop_back(); continue; } std::string full; for (auto &a : at) full += a + "/"; full += c; auto i = fs.find(full); if (i == fs.end()) { fs[full] = 'd'; at.push_back(c); } else if (i->second == 'd') at.push_back(c); else if (i->second == 'l') at = {"x"}; else return; }
}
static std::string show(const Fs &f) { std::string s; for (auto &e : f) if (!START.count(e.first)) s += e.first + " "; return s.empty() ? "nothing" : s; }
static void check(const Fs &want, const std::string &what) { Fs got = scan("."); if (got != want) { bool lost = false; for (auto &e : START) lost |= !got.count(e.first) || got[e.first] != e.second; mc::fail(lost ? "existing node changed" : "folders created", "%s: created %s expected %s", what.c_str(), show(got).c_str(), show(want).c_str()); } restore(got); struct stat s; if (::stat("f", &s) || s.st_size != 7) mc::fail("existing node changed", "%s: file content", what.c_str()); }
static const std::vector<std::string> &comps() { static std::vector<std::string> c = {"x", "n", "f", "l", "..", ".", "", "m m", "y", "n.ext"}; return c; }
MC_SECTION("folders of a path", 8) {
  fresh(); start(); umask(022); int depth = mc::thorough() ? 5 : 4; auto &C = comps(); uint64_t id = 0; for (int n = 1; n <= depth; n++) { uint64_t tot = 1; for (int i = 0; i < n; i++) tot *= C.size(); for (uint64_t k = 0; k < tot; k++) { if (!mc::mine(id++)) continue; std::string p; uint64_t x = k; bool up = false; int down = 0; for (int i = 0; i < n; i++) { auto &c = C[x % C.size()]; x /= C.size(); if (i) p += '/'; p += c; if (c == "..") down--; else if (c != "." && !c.empty()) down++; up |= down < 0; if (i == 0 && c.empty()) up = true; } if (up) continue; /* stays below the scratch folder */
      for (int form = 0; form < 4; form++) { std::string q = p; if (form == 1) q = root + "/" + p; if (form == 2) { if (p.find('/') == std::string::npos) continue; for (auto &c : q) if (c == '/') c = '\\'; } if (form == 3) q += "/"; std::string what = "mkdirs of " + mc::quote(form == 1 ? "<root>/" + p : q); mc::at("%s", what.c_str()); mc::trace(); mc::step(); mc::state(what); Fs want = START; reach(want, form == 3 ? p + "/" : p); mkdirs(q); check(want, what); if (form == 0) { /* again over the result */ mkdirs(q); mkdirs(q); check(want, what + " twice"); } } if (!(id & 255)) mc::beat(); } }
}
struct Item { std::string path; int id; };
MC_SECTION("folders for a set of files", 8) {
  fresh(); start(); umask(022); std::vector<std::string> P = {"a", "n/a", "n/o/a", "n/o/b", "n/p/a", "x/a", "x/q/a", "f/q/a", "l/r/a", "n o/a", "n-/a", "n/o/p/q/a", "n\\s\\a", "o/"}; uint64_t id = 0; int top = mc::thorough() ? 4 : 3; for (int n = 0; n <= top; n++) { uint64_t tot = 1; for (int i = 0; i < n; i++) tot *= P.size(); for (uint64_t k = 0; k < tot; k++) for (int b = 0; b < 4; b++) { if (!mc::mine(id++)) continue; std::vector<Item> items; uint64_t x = k; std::string pre = b == 0 ? "" : b == 1 ? root + "/" : b == 2 ? "x/" : "x/y/"; std::string what = "mkdirs under " + mc::quote(b == 1 ? "<root>/" : pre) + " for"; Fs want = START; for (int i = 0; i < n; i++) { items.push_back({P[x % P.size()], i}); x /= P.size(); what += " " + items.back().path; std::string q = items.back().path; for (auto &c : q) if (c == '\\') c = '/'; reach(want, (b == 1 ? "" : pre) + q); } mc::at("%s", what.c_str()); mc::trace(); mc::step(); mc::state(what); int calls = 0; mkdirs(pre, items, [&](const Item &i) { calls++; return i.path; }); check(want, what); if (calls < n) mc::fail("files asked", "%s: %d of %d", what.c_str(), calls, n); if (!(id & 255)) mc::beat(); } }
  std::vector<std::string> v = {"n/one/a", "n/two/b"}; Fs want = START; for (auto &p : v) reach(want, p); mkdirs(std::string(), v, [](const std::string &s) -> const std::string & { return s; }); check(want, "mkdirs for names"); std::set<std::string> s(v.begin(), v.end()); mkdirs(std::string(), s, [](const std::string &q) { return q; }); check(want, "mkdirs for a set of names");
}
MC_SECTION("folders for files named from the root of a base", 4) { // the base itself is missing and every name starts with a separator
  fresh(); start(); umask(022); std::vector<std::string> P = {"/a", "/n/a", "/n/o/a", "/a.b", "/x/q", "\\s\\a", "/"}, B = {"new", "x/new", "x", "x/y", "l/new", "x/./new"}; uint64_t id = 0; for (size_t b = 0; b < B.size(); b++) for (int n = 1; n <= 3; n++) { mc::Odo o(std::vector<int>(size_t(n), int(P.size()))); while (o.next()) for (int abs = 0; abs < 2; abs++) { if (!mc::mine(id++)) continue; std::vector<std::string> items; Fs want = START; std::string what = "mkdirs under " + mc::quote((abs ? "<root>/" : "") + B[b]) + " for"; for (int i : o.v) { items.push_back(P[size_t(i)]); what += " " + items.back(); std::string q = items.back(); for (auto &c : q) if (c == '\\') c = '/'; reach(want, B[b] + q); } mc::at("%s", what.c_str()); mc::trace(); mc::step(); mc::state(what); mkdirs((abs ? root + "/" : std::string()) + B[b], items, [](const std::string &s) { return s; }); check(want, what); } mc::beat(); }
}
MC_SECTION("single folder", 2) {
  fresh(); start(); struct { const char *p; bool ok; } K[] = {{"n", true}, {"n/", true}, {"x/n", true}, {"l/n", true}, {"x", false}, {"f", false}, {"l", false}, {"n/m", false}, {"f/n", false}, {"", false}, {"x/..", false}, {"x/../n", true}, {"./n", true}, {"n\\m", true}, {"\xc3\xa9", true}}; for (auto &k : K) for (int str = 0; str < 2; str++) for (unsigned um : {0u, 022u, 077u}) for (int mode = -1; mode < 8; mode++) { unsigned md = mode < 0 ? 0777 : 0700 | unsigned(mode) * 011; mc::at("mkdir %s mode %o mask %o", k.p, md, um); mc::trace(); mc::step(); mc::state(mc::mix(mc::hashBytes(k.p, strlen(k.p)) + unsigned(str * 1000 + int(um) * 10 + mode))); umask(um); int r = mode < 0 ? (str ? es::mkdir(std::string(k.p)) : es::mkdir(k.p)) : (str ? es::mkdir(std::string(k.p), md) : es::mkdir(k.p, md)); umask(022); if ((r == 0) != k.ok) mc::fail("result", "mkdir %s: %d", mc::quote(k.p).c_str(), r); Fs got = scan("."); if (got.size() != START.size() + (k.ok ? 1 : 0)) mc::fail("folders created", "mkdir %s: %s", mc::quote(k.p).c_str(), show(got).c_str()); struct stat s; if (k.ok && r == 0) { if (::stat(k.p, &s)) mc::fail("folders created", "mkdir %s", k.p); else if ((s.st_mode & 0777) != (md & ~um)) mc::fail("mode", "mkdir %s has mode %o expected %o", k.p, s.st_mode & 0777, md & ~um); } restore(got); }
}
