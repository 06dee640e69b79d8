// LIBS: -ldl
// VARIANT: sched -O1 -DMC_SCHED
// VARIANT: free -O1 -fsanitize=thread
// RULE: state = distinct schedule prefix at a choice; transition = one scheduling step (lock, seek, piece of a read, lookup); trace = one complete schedule (or free run under ThreadSanitizer) whose opened entries were all compared with the stored bytes
// ASSUME: scheduling points are the mutex operations and every seek, size query and piece of a read of the archive's stream; the callers share the mounted archive only
#include "mc.hpp"
#include "sched.hpp"
#include "ziplib.hpp"
#include "datas/zip_vfs.hpp"
#include <memory>
// the archive's stream: hands its bytes out in pieces, other threads may run between them
struct Slow : std::streambuf {
  std::string d; size_t pos = 0; char one = 0; size_t piece; explicit Slow(std::string s, size_t p) : d(std::move(s)), piece(p) {}
  pos_type seekoff(off_type o, std::ios_base::seekdir w, std::ios_base::openmode) override { sched::point(); off_type b = w == std::ios_base::beg ? 0 : w == std::ios_base::cur ? off_type(pos) : off_type(d.size()); b += o; if (b < 0) return pos_type(off_type(-1)); pos = size_t(b); sched::point(); return pos_type(b); }
  pos_type seekpos(pos_type p, std::ios_base::openmode m) override { return seekoff(off_type(p), std::ios_base::beg, m); }
  std::streamsize xsgetn(char *s, std::streamsize n) override { std::streamsize got = 0; while (got < n) { sched::point(); if (pos >= d.size()) break; size_t k = std::min({size_t(n - got), d.size() - pos, piece}); memcpy(s + got, &d[pos], k); sched::point(); pos += k; got += std::streamsize(k); } return got; }
  int_type underflow() override { sched::point(); return pos < d.size() ? traits_type::to_int_type(d[pos]) : traits_type::eof(); }
  int_type uflow() override { sched::point(); return pos < d.size() ? traits_type::to_int_type(d[pos++]) : traits_type::eof(); }
  std::streamsize showmanyc() override { return pos < d.size() ? std::streamsize(d.size() - pos) : -1; }
};
static const char *const NAMES[] = {"a", "dir/b.bin", "ab"};
static int sizesOf = 0; // which entry sizes are in use
static int fields = 0; // which header fields hold large sizes
static std::string nameOf(int i) { std::string s = NAMES[i]; if (fields == 3) s += std::string(300, 'n'); if (fields == 4) s += std::string(i == 1 ? 65000 : 20, 'm'); return s; }
static zipref::Tail tail() { zipref::Tail t; if (fields == 5) t.comment = std::string(300, 'c'); if (fields == 6) { t.signature = true; t.signatureData = std::string(300, 's'); } if (fields == 7) { t.extraRecord = true; t.extraData = std::string(300, 'x'); } if (fields == 8) { t.extraRecord = t.signature = true; t.extraData = std::string(70000, 'x'); t.signatureData = std::string(40000, 's'); t.comment = std::string(65535, 'c'); } if (fields == 10) t.zip64 = true; return t; }
static std::vector<zipref::Entry> entries(int n) { std::vector<zipref::Entry> e; for (int i = 0; i < n; i++) { zipref::Entry x; x.name = nameOf(i); static const int len[][3] = {{5, 7, 4}, {1, 3, 2}, {2, 1, 1}, {16, 1, 17}}; for (int k = 0; k < len[sizesOf][i]; k++) x.data += char('A' + 8 * i + k); if (i == 1) x.extra = "XX"; if (fields == 1) x.extra = std::string(256 + size_t(i), 'e'); if (fields == 2) { x.extra = std::string(300, 'e'); x.comment = std::string(300, 'k'); } if (fields == 3) x.comment = std::string(260, 'k'); if (fields == 9) { x.extra = std::string(40000, 'e'); x.comment = std::string(40000, 'k'); } if (fields == 11) { size_t len = i == 0 ? 70000 : i == 1 ? 65536 : 300; while (x.data.size() < len) x.data += char(x.data.size() * 7 + (x.data.size() >> 8) + size_t(i)); } e.push_back(x); } return e; }
static zipref::Archive archive(int n) { auto e = entries(n); if (fields == 12) { zipref::Entry d; d.name = std::string(300, 'd') + "/"; d.extra = std::string(513, 'e'); e.insert(e.begin(), d); d.name = "e/"; d.extra = std::string(65535, 'e'); e.insert(e.begin() + 1, d); } return zipref::build(e, tail()); } // folders with large fields in front
// how a thread asks for an entry: by name, by iterator, by mapped range, a missing name, or by walking the list
enum How { NAME, ITER, RANGE, MISSING, LIST };
struct Ask { How how; int entry; };
struct Got { bool opened = false, threw = false, complete = false; std::string bytes; size_t size = 0; };
static void readAll(ZIPVFSFile &f, Got &g) { g.opened = true; g.size = f.reader.GetSize(); f.reader.Seek(0); sched::point(); g.bytes.resize(g.size); if (g.size) f.reader.ReadBuffer(&g.bytes[0], g.size); g.complete = g.size == 0 || bool(f.buffer); }
static void ask(const ZIPVFS &z, Ask a, std::vector<Got> &out) {
  auto open = [&](ZIPVFSFile f) { Got g; readAll(f, g); out.push_back(g); };
  try { switch (a.how) {
    case NAME: open(z.Get(nameOf(a.entry))); break;
    case ITER: { auto i = z.find(nameOf(a.entry)); if (i == z.end()) { out.push_back(Got()); break; } open(z.Get(i)); break; }
    case RANGE: { auto v = z.at(nameOf(a.entry)); open(z.Get(v)); break; }
    case MISSING: try { z.Get(std::string("missing")); } catch (const std::exception &) { Got g; g.threw = true; out.push_back(g); return; } out.push_back(Got()); break;
    case LIST: for (auto i = z.begin(); i != z.end(); ++i) open(z.Get(i)); break; }
  } catch (const std::exception &e) { Got g; g.threw = true; g.bytes = e.what(); out.push_back(g); }
}
static std::vector<std::string> expected(Ask a, int n) { auto e = entries(n); std::vector<std::string> r; if (a.how == LIST) { std::vector<int> order; for (int i = 0; i < n; i++) order.push_back(i); std::sort(order.begin(), order.end(), [](int x, int y) { return nameOf(x) < nameOf(y); }); for (int i : order) r.push_back(e[size_t(i)].data); } else if (a.how != MISSING) r.push_back(e[size_t(a.entry)].data); return r; }
static const char *const HOW[] = {"name", "iterator", "range", "missing name", "walk"};
static void judge(const std::vector<std::vector<Ask>> &th, const std::vector<std::vector<Got>> &got, int n, const std::string &what, const std::string &log) {
  for (size_t t = 0; t < th.size(); t++) { size_t k = 0; for (auto &a : th[t]) { auto bad = [&](const std::string &s) { mc::fail(std::string("open by ") + HOW[a.how], "%s (schedule %s): thread %zu asking for %s: %s", what.c_str(), log.c_str(), t, NAMES[a.entry], s.c_str()); };
      if (a.how == MISSING) { if (k >= got[t].size() || !got[t][k].threw) bad("no exception"); k++; continue; }
      for (auto &w : expected(a, n)) { if (k >= got[t].size()) { bad("did not finish"); break; } const Got &g = got[t][k++]; if (g.threw) bad("exception " + g.bytes); else if (!g.opened || !g.complete || g.bytes != w) bad("got " + std::to_string(g.size) + " bytes " + mc::quote(g.bytes.substr(0, 200)) + " expected " + mc::quote(w.substr(0, 200))); } } }
}
static std::string describe(const std::vector<std::vector<Ask>> &th, int n, size_t piece) { std::string s = std::to_string(n) + " entries, pieces of " + std::to_string(piece) + ","; for (auto &t : th) { s += " ["; for (auto &a : t) s += std::string(HOW[a.how]) + " " + NAMES[a.entry] + ";"; s += "]"; } return s; }
#ifdef MC_SCHED
static void drive(const std::vector<std::vector<Ask>> &th, int n, size_t piece, int bound) {
  std::string what = (fields ? "large fields " + std::to_string(fields) + ", " : std::string()) + describe(th, n, piece) + " bound " + std::to_string(bound); static std::vector<std::vector<Got>> got; sched::pooled = true; auto a = archive(n);
  auto body = [&] { got.assign(th.size(), {}); std::unique_ptr<Slow> buf(new Slow(a.bytes, 1 << 20)); std::istream str(buf.get()); 
    { sched::Thread *me = sched::self; sched::self = nullptr; ZIPVFS z{BinReaderRef(str)}; sched::self = me; buf->piece = piece; std::vector<std::thread> ts; for (size_t t = 1; t < th.size(); t++) ts.emplace_back([&, t] { for (auto &q : th[t]) ask(z, q, got[t]); }); for (auto &q : th[0]) ask(z, q, got[0]); for (auto &t : ts) t.join(); } };
  auto st = sched::explore(what, bound, body, [&](const std::string &log) { judge(th, got, n, what, log); });
  mc::sample("%s: %llu schedules", what.c_str(), (unsigned long long)st.schedules); sched::logStats(what, st);
}
MC_SECTION("two threads, every interleaving", 8) { // no bound on preemptions
  for (int n = 1; n <= 3; n++) for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) { drive({{{NAME, a}}, {{NAME, b}}}, n, 3, 99); drive({{{NAME, a}}, {{NAME, b}}}, n, 1, 99); }
  for (How x : {NAME, ITER, RANGE, MISSING, LIST}) for (How y : {NAME, ITER, RANGE, MISSING, LIST}) for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) drive({{{x, a}}, {{y, b}}}, 2, 100, x == LIST && y == LIST ? (mc::thorough() ? 8 : 6) : 99);
}
MC_SECTION("entries of few bytes", 8) { for (sizesOf = 1; sizesOf < 4; sizesOf++) for (int n = 1; n <= 3; n++) for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) { drive({{{NAME, a}}, {{NAME, b}}}, n, 1, sizesOf == 3 ? (mc::thorough() ? 6 : 4) : 99); drive({{{ITER, a}}, {{RANGE, b}}}, n, 100, 99); if (n == 3) drive({{{NAME, a}}, {{ITER, b}}, {{RANGE, (a + b) % 3}}}, n, 100, 3); } sizesOf = 0; }
MC_SECTION("large fields", 8) { for (fields = 1; fields <= 12; fields++) for (int n = 1; n <= 3; n++) for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) { drive({{{NAME, a}}, {{NAME, b}}}, n, fields == 11 ? 32768 : 100, mc::thorough() ? 4 : 2); drive({{{ITER, a}}, {{RANGE, b}}}, n, 1 << 20, mc::thorough() ? 6 : 3); if (a == 0 && b == 0) drive({{{LIST, 0}}, {{MISSING, 0}, {NAME, n - 1}}}, n, 1 << 20, mc::thorough() ? 3 : 2); } fields = 0; }
// archives that share nothing: every caller has its own, a third thread uses both
static void driveTwo(const std::vector<std::vector<std::pair<int, Ask>>> &th, int n, size_t piece, int bound) {
  std::vector<std::vector<Ask>> plain; for (auto &t : th) { plain.emplace_back(); for (auto &q : t) plain.back().push_back(q.second); } std::string what = "two archives, "; for (auto &t : th) { what += "("; for (auto &q : t) what += std::to_string(q.first); what += ") "; } what += describe(plain, n, piece) + " bound " + std::to_string(bound); static std::vector<std::vector<Got>> got; sched::pooled = true; auto a = archive(n);
  auto body = [&] { got.assign(th.size(), {}); std::unique_ptr<Slow> buf[2] = {std::unique_ptr<Slow>(new Slow(a.bytes, 1 << 20)), std::unique_ptr<Slow>(new Slow(a.bytes, 1 << 20))}; std::istream s0(buf[0].get()), s1(buf[1].get());
    { sched::Thread *me = sched::self; sched::self = nullptr; ZIPVFS z0{BinReaderRef(s0)}, z1{BinReaderRef(s1)}; sched::self = me; buf[0]->piece = buf[1]->piece = piece; const ZIPVFS *z[2] = {&z0, &z1}; std::vector<std::thread> ts; for (size_t t = 1; t < th.size(); t++) ts.emplace_back([&, t] { for (auto &q : th[t]) ask(*z[q.first], q.second, got[t]); }); for (auto &q : th[0]) ask(*z[q.first], q.second, got[0]); for (auto &t : ts) t.join(); } };
  auto st = sched::explore(what, bound, body, [&](const std::string &log) { judge(plain, got, n, what, log); }); mc::sample("%s: %llu schedules", what.c_str(), (unsigned long long)st.schedules); sched::logStats(what, st);
}
MC_SECTION("two archives", 8) { for (int n = 1; n <= 3; n++) for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) { driveTwo({{{0, {NAME, a}}}, {{1, {NAME, b}}}}, n, 3, mc::thorough() ? 8 : 5); driveTwo({{{0, {ITER, a}}}, {{1, {RANGE, b}}}}, n, 100, mc::thorough() ? 10 : 6); driveTwo({{{0, {NAME, a}}, {1, {NAME, b}}}, {{1, {ITER, b}}, {0, {RANGE, a}}}}, n, 100, mc::thorough() ? 5 : 3); } driveTwo({{{0, {NAME, 0}}}, {{1, {NAME, 1}}}, {{0, {NAME, 1}}, {1, {NAME, 0}}}}, 2, 100, mc::thorough() ? 4 : 2); }
MC_SECTION("several entries each", 8) { bool t = mc::thorough(); for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) for (int c = 0; c < 3; c++) for (int d = 0; d < 3; d++) drive({{{NAME, a}, {ITER, b}}, {{RANGE, c}, {NAME, d}}}, 3, 100, t ? 7 : 5); for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) drive({{{MISSING, 0}, {NAME, a}}, {{NAME, b}, {MISSING, 0}}}, 2, 100, t ? 7 : 5); }
MC_SECTION("three threads", 8) { bool t = mc::thorough(); for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) for (int c = 0; c < 3; c++) drive({{{NAME, a}}, {{ITER, b}}, {{RANGE, c}}}, 3, 100, t ? 5 : 3); drive({{{LIST, 0}}, {{LIST, 0}}, {{NAME, 2}}}, 3, 100, t ? 3 : 2); drive({{{MISSING, 0}}, {{NAME, 0}}, {{NAME, 1}}}, 2, 100, t ? 5 : 3); }
MC_SECTION("four threads", 8) { bool t = mc::thorough(); for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) for (int c = 0; c < 2; c++) for (int d = 0; d < 2; d++) drive({{{NAME, a}}, {{ITER, b}}, {{RANGE, c}}, {{NAME, d}}}, 2, 100, t ? 3 : 2); }
#else
MC_SECTION("free running", 4) { uint64_t id = 0; for (int rep = 0; rep < (mc::thorough() ? 400 : 60); rep++) for (int n = 1; n <= 3; n++) for (size_t nt = 2; nt <= 4; nt++) { if (!mc::mine(id++)) continue; std::vector<std::vector<Ask>> th(nt); for (size_t t = 0; t < nt; t++) for (int k = 0; k < 4; k++) th[t].push_back({How((t + size_t(k) + size_t(rep)) % 5), int((t + size_t(k) * 2) % size_t(n))}); std::string what = describe(th, n, 2); mc::at("%s", what.c_str()); mc::trace(); mc::step(nt * 4); auto a = archive(n); Slow buf(a.bytes, 4096); std::istream str(&buf); ZIPVFS z{BinReaderRef(str)}; buf.piece = 2; std::vector<std::vector<Got>> got(nt); std::vector<std::thread> ts; for (size_t t = 0; t < nt; t++) ts.emplace_back([&, t] { for (auto &q : th[t]) ask(z, q, got[t]); }); for (auto &t : ts) t.join(); judge(th, got, n, what, "free"); mc::beat(); } }
#endif
