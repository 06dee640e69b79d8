// VARIANT: opt -O2
// VARIANT: asan -O1 -fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-sanitize=alignment
// RULE: state = archive (or damaged archive); transition = one mount, lookup, listing step or opened entry; trace = one archive mounted, listed and read completely and compared with the entries it was built from
// ASSUME: entry names of one archive are distinct; empty archives and empty entries are legal; damaged archives are judged by safety and genuineness of what they yield
#include "mc.hpp"
#include "ziplib.hpp"
#include "datas/binreader.hpp"
#include "datas/zip_vfs.hpp"
#include "formats/ZIP_ostream.inl"
#include <cstdio>
#include <fstream>
#include <memory>
#include <set>
using zipref::Entry; using zipref::Tail;
static const char *const NONE = "no-such-entry";
// well formed archive: exactly the non-empty entries, each once, sizes and bytes as stored
static void whole(const std::vector<Entry> &es, std::istream &str, const char *what) {
  try {
    ZIPVFS z{BinReaderRef(str)}; mc::step(); std::map<std::string, std::string> want; for (auto &e : es) if (!e.data.empty()) want[e.name] = e.data;
    if (z.size() != want.size() || z.empty() != want.empty()) mc::fail("listing", "%s: %zu entries listed, %zu stored", what, z.size(), want.size());
    std::set<std::string> seen; size_t steps = 0; for (auto i = z.begin(); i != z.end() && steps < 100; ++i, ++steps) { mc::step(); auto w = want.find(i->first); if (w == want.end()) { mc::fail("foreign entry", "%s: %s", what, mc::quote(i->first).c_str()); continue; } if (!seen.insert(i->first).second) mc::fail("listing", "%s: entry twice", what); auto f = z.Get(i); std::string b(f.reader.GetSize(), 0); f.reader.ReadBuffer(&b[0], b.size()); if (b != w->second) mc::fail("entry by position", "%s: %s has %s expected %s", what, mc::quote(i->first).c_str(), mc::quote(b.substr(0, 40)).c_str(), mc::quote(w->second.substr(0, 40)).c_str()); }
    for (auto &w : want) { mc::step(); auto i = z.find(w.first); if (i == z.end()) { mc::fail("lookup", "%s: %s is not found", what, mc::quote(w.first.substr(0, 40)).c_str()); continue; } auto f = z.Get(w.first); BinReaderRef rd = f; if (rd.GetSize() != w.second.size()) mc::fail("entry size", "%s: %zu expected %zu", what, rd.GetSize(), w.second.size()); std::string b; rd.ReadContainer(b, w.second.size()); if (b != w.second) mc::fail("entry by name", "%s", what); auto m = z.at(w.first); auto g = z.Get(m); std::string c(w.second.size(), 0); g.reader.Seek(0); g.reader.ReadBuffer(&c[0], c.size()); if (c != w.second) mc::fail("entry by range", "%s", what); }
    for (auto &e : es) for (std::string n : {e.name + "x", e.name.substr(0, e.name.size() - 1), std::string(NONE), e.data.empty() ? e.name : std::string("/") + e.name}) { if (want.count(n)) continue; mc::step(); if (z.find(n) != z.end()) mc::fail("lookup", "%s: name %s that is not stored is found", what, mc::quote(n.substr(0, 40)).c_str()); bool threw = false; try { z.Get(n); } catch (const std::exception &) { threw = true; } if (!threw) mc::fail("missing entry", "%s: opening a missing entry gives one", what); }
    // opened entries are independent of each other and of the archive, and may be moved
    if (want.size() > 1) { mc::step(); auto f = z.Get(want.begin()->first); auto g = z.Get(want.rbegin()->first); std::string a(want.begin()->second.size(), 0), b(want.rbegin()->second.size(), 0); f.reader.ReadBuffer(&a[0], 1); g.reader.ReadBuffer(&b[0], b.size()); f.reader.ReadBuffer(&a[0] + 1, a.size() - 1); if (a != want.begin()->second || b != want.rbegin()->second) mc::fail("two open entries", "%s", what); }
    if (!want.empty()) { mc::step(); std::vector<ZIPVFSFile> fs; for (auto &w : want) fs.push_back(z.Get(w.first)); size_t k = 0; for (auto &w : want) { auto &f = fs[k++]; std::string b(f.reader.GetSize(), 0); if (b.size() == w.second.size()) f.reader.ReadBuffer(&b[0], b.size()); if (b != w.second) mc::fail("moved entry", "%s: an opened entry kept in a vector reads %s", what, mc::quote(b.substr(0, 40)).c_str()); } std::unique_ptr<ZIPVFSFile> held(new ZIPVFSFile(std::move(fs[0]))); fs.clear(); held->reader.Seek(0); std::string b(want.begin()->second.size(), 0); held->reader.ReadBuffer(&b[0], b.size()); if (b != want.begin()->second) mc::fail("moved entry", "%s: an opened entry moved to another place", what); }
  } catch (const std::exception &e) { mc::fail("well formed archive refused", "%s: %s", what, e.what()); }
}
static void wholeBytes(const std::vector<Entry> &es, const Tail &t, const char *what) { auto a = zipref::build(es, t); mc::trace(); mc::state(a.bytes); std::istringstream s(a.bytes); whole(es, s, what); }
static std::string bytes(size_t n, int seed) { std::string s(n, 0); uint32_t x = uint32_t(seed) * 2654435761u + 12345; for (auto &c : s) { x = x * 1664525 + 1013904223; c = char(x >> 24); } return s; }
static std::string fake(const char *name) { Entry e; e.name = name; e.data = "FAKE"; Tail t; t.central = t.end = false; return zipref::build({e}, t).bytes; }
// ---- entry alphabet
static std::vector<Entry> alphabet() {
  std::vector<Entry> r; auto add = [&](std::string d, std::string extra, uint16_t flags, const char *tail) { Entry e; e.name = tail; e.data = std::move(d); e.extra = std::move(extra); e.flags = flags; r.push_back(e); };
  add("x", "", 0, "a"); add("", "", 0, "dir/"); add("hello", "UT\5\0\1abcd", 0, "dir/file.txt"); add(fake("nested"), "", 0, "inner.zip"); add("", "UX", 0, "empty"); add(std::string("PK\5\6") + std::string(30, 0), "PK\3\4", 1 << 11, "\xc3\xa9"); add(bytes(300, 3), std::string(260, 'e'), 2, std::string(40, 'n').c_str()); add(bytes(70000, 5), "", 0, "big.bin"); add(std::string(1, 0), "", 0, "."); return r; }
static std::vector<Tail> tails() { std::vector<Tail> r; Tail t; r.push_back(t); t.comment = "PK\3\4 comment"; r.push_back(t); t = Tail(); t.zip64 = true; r.push_back(t); t.signature = t.extraRecord = true; t.comment = std::string(65535, 'c'); r.push_back(t); t = Tail(); t.central = t.end = false; r.push_back(t); t = Tail(); t.extraRecord = true; r.push_back(t); t = Tail(); t.signature = true; r.push_back(t); return r; }
MC_SECTION("well formed archives", 8) {
  auto al = alphabet(); auto ts = tails(); size_t A = al.size(); int depth = mc::thorough() ? 4 : 3; uint64_t id = 0;
  for (int n = 0; n <= depth; n++) { uint64_t tot = 1; for (int i = 0; i < n; i++) tot *= A; for (uint64_t k = 0; k < tot; k++) for (size_t t = 0; t < ts.size(); t++) { if (!mc::mine(id++)) continue; std::vector<Entry> es; uint64_t x = k; int big = 0; std::string what = "entries"; for (int i = 0; i < n; i++) { Entry e = al[x % A]; what += " " + std::to_string(x % A); big += e.data.size() > 60000; x /= A; if (i) e.name = std::string(1, char('0' + i)) + e.name; e.comment = i == 1 ? "entry comment" : ""; es.push_back(e); } if (big > 1 || (big && n == 4)) continue; what += ", tail " + std::to_string(t); mc::at("%s", what.c_str()); wholeBytes(es, ts[t], what.c_str()); if (!(id & 63)) mc::beat(); } }
}
MC_SECTION("names and sizes", 4) { // name lengths, extra lengths, data lengths, entry counts; names that are prefixes of each other
  uint64_t id = 0; std::vector<size_t> lens = {0, 1, 2, 3, 4, 29, 30, 31, 127, 128, 255, 256, 257, 4095, 4096, 32767, 32768, 65534, 65535};
  for (size_t nl : lens) for (size_t xl : lens) for (size_t dl : {size_t(0), size_t(1), size_t(255), size_t(256), size_t(65535), size_t(65536), size_t(65537)}) { if (!nl || !mc::mine(id++)) continue; Entry a, b; a.name = std::string(nl, 'n'); a.extra = bytes(xl, 1); a.data = bytes(dl, 2); b.name = std::string(nl, 'n') ; b.name[nl - 1] = 'm'; b.data = "second"; std::string what = "name " + std::to_string(nl) + " extra " + std::to_string(xl) + " data " + std::to_string(dl); mc::at("%s", what.c_str()); wholeBytes({a, b}, Tail(), what.c_str()); mc::beat(); }
  for (size_t n : {10u, 100u, 1000u, 70000u}) { if (n > 1000 && !mc::thorough()) continue; if (!mc::mine(id++)) continue; std::vector<Entry> es; for (size_t i = 0; i < n; i++) { Entry e; e.name = "f" + std::to_string(i); e.data = "data of " + e.name; es.push_back(e); } std::string what = std::to_string(n) + " entries"; mc::at("%s", what.c_str()); auto a = zipref::build(es, Tail()); mc::trace(); std::istringstream s(a.bytes); try { ZIPVFS z{BinReaderRef(s)}; mc::step(n); if (z.size() != n) mc::fail("listing", "%s: %zu", what.c_str(), z.size()); for (auto &e : es) { auto f = z.Get(e.name); std::string b(f.reader.GetSize(), 0); f.reader.ReadBuffer(&b[0], b.size()); if (b != e.data) mc::fail("entry by name", "%s", what.c_str()); } } catch (const std::exception &x) { mc::fail("well formed archive refused", "%s: %s", what.c_str(), x.what()); } mc::beat(); }
  std::vector<std::string> names = {"a", "ab", "abc", "b", "A", "a/", "a/b", "a/b/c", "a\\b", " a", "a ", std::string("a\0b", 3), "\xff", ".", "..", "../a"}; for (size_t i = 0; i < names.size(); i++) for (size_t j = 0; j < names.size(); j++) for (size_t k = 0; k < names.size(); k++) { if (i == j || j == k || i == k || !mc::mine(id++)) continue; std::vector<Entry> es(3); es[0].name = names[i]; es[1].name = names[j]; es[2].name = names[k]; for (int e = 0; e < 3; e++) es[size_t(e)].data = bytes(size_t(3 + e), e); std::string what = "names " + mc::quote(names[i]) + mc::quote(names[j]) + mc::quote(names[k]); mc::at("%s", what.c_str()); wholeBytes(es, Tail(), what.c_str()); }
}
MC_SECTION("record sizes", 4) { // every sized record of the tail, alone and with the others, among entries that follow and precede it
  uint64_t id = 0; std::vector<Entry> es(2); es[0].name = "a"; es[0].data = "first"; es[1].name = "dir/b"; es[1].data = "second";
  for (int rec = 0; rec < 5; rec++) for (size_t n : {0u, 1u, 3u, 127u, 128u, 255u, 256u, 257u, 4096u, 32767u, 32768u, 65534u, 65535u, 65536u, 65537u, 131072u, 16777215u, 16777216u, 16777217u}) for (int others = 0; others < 2; others++) { if ((n > 65535 && rec != 1) || !mc::mine(id++)) continue;
    Tail t; t.signature = t.extraRecord = others; t.zip64 = others; std::vector<Entry> e = es; static const char *const R[] = {"digital signature", "extra data record", "archive comment", "comment of an entry", "extra field of an entry"};
    switch (rec) { case 0: t.signature = true; t.signatureData = bytes(n, 3); break; case 1: t.extraRecord = true; t.extraData = bytes(n, 4); break; case 2: t.comment = bytes(n, 5); break; case 3: e[0].comment = bytes(n, 6); break; case 4: e[0].extra = bytes(n, 7); break; }
    std::string what = std::string(R[rec]) + " of " + std::to_string(n) + (others ? " bytes, with other records" : " bytes"); mc::at("%s", what.c_str()); wholeBytes(e, t, what.c_str()); mc::beat(); } }
// damaged or unsupported archive: refused, or what it lists is genuine
static void genuine(const std::string &img, const std::vector<Entry> &es, const char *what, bool *accepted = nullptr) {
  std::istringstream s(img); mc::step(); try { ZIPVFS z{BinReaderRef(s)}; if (accepted) *accepted = true; for (auto i = z.begin(); i != z.end(); ++i) { mc::step(); const Entry *e = nullptr; for (auto &x : es) if (x.name == i->first) e = &x; if (!e) { mc::fail("foreign entry", "%s: %s", what, mc::quote(i->first.substr(0, 40)).c_str()); continue; } if (e->method || e->flags & 1) { mc::fail("unsupported entry listed", "%s: %s", what, mc::quote(i->first).c_str()); continue; } auto f = z.Get(i); std::string b(f.reader.GetSize(), 0); if (b.size() < 1u << 20) f.reader.ReadBuffer(&b[0], b.size()); if (b != e->data) mc::fail("wrong bytes", "%s: %s has %zu bytes expected %zu", what, mc::quote(i->first).c_str(), b.size(), e->data.size()); } } catch (const std::exception &) {}
}
static std::vector<std::vector<Entry>> small() { auto al = alphabet(); std::vector<std::vector<Entry>> r; for (size_t i : {0u, 1u, 2u, 3u, 5u, 8u}) { r.push_back({al[i]}); for (size_t j : {0u, 1u, 2u, 3u}) if (i != j) { r.push_back({al[i], al[j]}); if (i != 4 && j != 4) r.push_back({al[i], al[4], al[j]}); } } return r; }
MC_SECTION("cut archives", 8) { auto sm = small(); auto ts = tails(); uint64_t id = 0; for (size_t a = 0; a < sm.size(); a++) for (size_t t = 0; t < ts.size(); t++) { if (ts[t].comment.size() > 1000) ts[t].comment.resize(20); auto z = zipref::build(sm[a], ts[t]); for (size_t cut = 0; cut < z.bytes.size(); cut++) { if (!mc::mine(id++)) continue; char what[96]; snprintf(what, sizeof what, "archive %zu tail %zu cut at %zu of %zu", a, t, cut, z.bytes.size()); mc::at("%s", what); mc::trace(); bool ok = false; genuine(z.bytes.substr(0, cut), sm[a], what, &ok); mc::state(mc::mix(id)); if (!(id & 255)) mc::beat(); bool boundary = cut == 0; for (auto e : z.localEnd) boundary |= cut == e; for (size_t e = 0; e < z.localEnd.size(); e++) if (cut > z.local[e] && cut < z.localEnd[e] && ok) mc::fail("cut inside an entry accepted", "%s", what); (void)boundary; } } }
MC_SECTION("unsupported archives", 4) { // encrypted, compressed, streamed, nameless, zip64 entries among good ones
  auto al = alphabet(); uint64_t id = 0; for (size_t pos = 0; pos < 3; pos++) for (uint16_t method : {0, 1, 2, 6, 8, 9, 12, 14, 95, 97, 98, 99, 255, 256, 65535}) for (int fl = -1; fl < 16; fl++) for (int sz = 0; sz < 2; sz++) { if (!mc::mine(id++)) continue; std::vector<Entry> es = {al[0], al[2], al[3]}; Entry &e = es[pos]; e.method = method; e.flags = fl < 0 ? 0 : uint16_t(1u << fl); if (sz) e.uncompressed = 1000; char what[96]; snprintf(what, sizeof what, "entry %zu method %u flags %04x%s", pos, method, e.flags, sz ? " larger when unpacked" : ""); mc::at("%s", what); mc::trace(); mc::state(mc::mix(id)); auto z = zipref::build(es, Tail()); bool ok = false; genuine(z.bytes, es, what, &ok); if (ok && (method || fl == 0)) mc::fail("unsupported archive accepted", "%s", what); if (!ok && !method && !sz && fl != 0 && fl != 3 && fl != 6 && fl != 5 && fl != 13) mc::fail("well formed archive refused", "%s", what); }
  { std::vector<Entry> es = {al[0], al[2], al[3]}; es[1].name.clear(); auto z = zipref::build(es, Tail()); mc::at("nameless"); bool ok = false; genuine(z.bytes, es, "nameless entry", &ok); if (ok) mc::fail("unsupported archive accepted", "nameless entry"); }
  // entries written as a stream: sizes follow the data
  for (bool sig : {true, false}) for (const char *d : {"x", "hello world", "PK\x03\x04"}) { Entry e; e.name = "streamed"; std::string s = "PK\3\4"; zipref::p16(s, 20); zipref::p16(s, 8); zipref::p16(s, 0); zipref::p32(s, 0); zipref::p32(s, 0); zipref::p32(s, 0); zipref::p32(s, 0); zipref::p16(s, 8); zipref::p16(s, 0); s += e.name; s += d; if (sig) s += "PK\7\x08"; zipref::p32(s, zipref::crc32(d)); zipref::p32(s, uint32_t(strlen(d))); zipref::p32(s, uint32_t(strlen(d))); e.data = d; Tail t; t.central = false; s += zipref::build({}, t).bytes; mc::at("streamed entry"); mc::trace(); genuine(s, {e}, "streamed entry"); }
  // a stream whose stored data holds a whole archive entry
  { std::string s = "PK\3\4"; zipref::p16(s, 20); zipref::p16(s, 8); zipref::p16(s, 0); zipref::p32(s, 0); zipref::p32(s, 0); zipref::p32(s, 0); zipref::p32(s, 0); zipref::p16(s, 8); zipref::p16(s, 0); s += "streamed"; std::string d = fake("nested"); s += d; for (int desc = 0; desc < 2; desc++) { std::string f = s; if (desc) { f += "PK\7\x08"; zipref::p32(f, zipref::crc32(d)); zipref::p32(f, uint32_t(d.size())); zipref::p32(f, uint32_t(d.size())); } Entry e; e.name = "streamed"; e.data = d; mc::at("streamed nested"); mc::trace(); genuine(f, {e}, "streamed entry holding an archive"); } }
  // sizes kept in a ZIP64 extra field
  for (const char *d : {"x", "hello"}) { std::string s = "PK\3\4"; zipref::p16(s, 45); zipref::p16(s, 0); zipref::p16(s, 0); zipref::p32(s, 0); zipref::p32(s, zipref::crc32(d)); zipref::p32(s, ~0u); zipref::p32(s, ~0u); zipref::p16(s, 3); zipref::p16(s, 20); s += "z64"; zipref::p16(s, 1); zipref::p16(s, 16); zipref::p64(s, strlen(d)); zipref::p64(s, strlen(d)); s += d; Entry e; e.name = "z64"; e.data = d; mc::at("zip64 entry"); mc::trace(); genuine(s, {e}, "entry with 64 bit sizes"); }
  for (uint32_t v : {0u, 1u, 0x504bu, 0x03044b50u ^ 0x01000000u, 0x08074b50u, 0xffffffffu, 0x4034b50u ^ 0x80u}) for (size_t at : {size_t(0), size_t(1)}) { std::vector<Entry> es = {al[0], al[2]}; auto z = zipref::build(es, Tail()); std::string b; zipref::p32(b, v); b += std::string(40, 0); std::string f = z.bytes; f.insert(at ? z.central : 0, b); mc::at("unknown block %08x", v); mc::trace(); bool ok = false; genuine(f, es, "unknown block", &ok); if (ok) mc::fail("unsupported archive accepted", "unknown block %08x", v); }
}
// every byte of every header replaced: no crash, no hang, everything listed lies inside the file and reads as its bytes there
MC_SECTION("damaged headers", 8) { auto sm = small(); uint64_t id = 0; std::vector<Tail> ts = tails(); for (size_t a = 0; a < sm.size(); a++) for (size_t t : {size_t(0), size_t(2), size_t(5), size_t(6)}) { if (!mc::thorough() && t && a % 4) continue; auto z = zipref::build(sm[a], ts[t]); for (size_t p = 0; p < z.bytes.size(); p++) for (int v = 0; v < 256; v++) { if (!mc::thorough() && v != 0 && v != 255 && v != 1 && __builtin_popcount(unsigned(v ^ uint8_t(z.bytes[p]))) != 1) continue; if (uint8_t(z.bytes[p]) == v || !mc::mine(id++)) continue; std::string b = z.bytes; b[p] = char(v); mc::at("archive %zu tail %zu byte %zu = %02x", a, t, p, v); mc::trace(); mc::step(); if (!(id & 255)) { mc::beat(); } mc::addStates(1); std::istringstream s(b); try { ZIPVFS f{BinReaderRef(s)}; for (auto i = f.begin(); i != f.end(); ++i) { mc::step(); if (i->second.first > b.size() || i->second.second > b.size() - i->second.first) { mc::fail("entry outside the file", "archive %zu byte %zu = %02x: %zu bytes at %zu of %zu", a, p, v, i->second.second, i->second.first, b.size()); continue; } auto h = f.Get(i); std::string c(h.reader.GetSize(), 0); h.reader.ReadBuffer(&c[0], c.size()); if (c != b.substr(i->second.first, i->second.second)) mc::fail("wrong bytes", "archive %zu byte %zu = %02x", a, p, v); } } catch (const std::exception &) {} } } }
MC_SECTION("real files", 2) { auto sm = small(); auto ts = tails(); std::string fn = mc::g().tmp + "/a" + std::to_string(mc::shard()) + ".zip"; for (size_t a = 0; a < sm.size(); a++) for (size_t t = 0; t < ts.size(); t++) { if (!mc::mine(a * ts.size() + t)) continue; auto z = zipref::build(sm[a], ts[t]); { std::ofstream o(fn, std::ios::binary); o << z.bytes; } mc::at("file archive %zu tail %zu", a, t); mc::trace(); { std::ifstream i(fn, std::ios::binary); whole(sm[a], i, "on a file"); } BinReader rd(fn); ZIPVFS v{BinReaderRef(rd)}; for (auto &e : sm[a]) { if (e.data.empty()) continue; mc::step(); auto f = v.Get(e.name); std::string b(f.reader.GetSize(), 0); f.reader.ReadBuffer(&b[0], b.size()); if (b != e.data) mc::fail("entry by name", "on a file"); } std::remove(fn.c_str()); } }
// the header structures on their own: documented layout when written, same values when read
template <class H> static void headerTrip(const H &h, const std::string &want, const char *what) {
  mc::at("%s", what); mc::trace(); mc::step(2); mc::state(want); std::stringstream s; BinWritterRef wr(s); wr.Write(h); if (s.str() != want) { mc::fail("header layout", "%s written as %s expected %s", what, mc::hex(s.str()).c_str(), mc::hex(want).c_str()); return; }
  H r{}; s << "tail"; BinReaderRef rd(s); rd.Read(r); if (rd.Tell() != want.size()) mc::fail("header size", "%s consumed %zu of %zu bytes", what, rd.Tell(), want.size()); std::stringstream t; BinWritterRef w2(t); w2.Write(r); if (t.str() != want) mc::fail("header read back", "%s", what);
}
MC_SECTION("header structures", 2) {
  uint64_t pats[] = {0, 1, 0x7f, 0x80, 0xff, 0x100, 0x1234, 0x7fff, 0x8000, 0xffff, 0x12345678, 0x80000000, 0xffffffff, 0x0123456789abcdefull, ~0ull}; size_t P = sizeof pats / sizeof *pats; uint64_t id = 0;
  for (int fld = -1; fld < 20; fld++) for (size_t pi = 0; pi < P; pi++) for (uint64_t base : {uint64_t(0), ~uint64_t(0)}) { if (!mc::mine(id++)) continue; int k; uint64_t x = pats[pi]; auto v = [&] { return k++ == fld ? x : base; }; char what[80]; auto nm = [&](const char *n) { snprintf(what, sizeof what, "%s field %d = %llx", n, fld, (unsigned long long)x); return what; };
    { ZIPLocalFile h{}; h.id = ZIPLocalFile::ID; k = 0; std::string w = "PK\3\4"; uint64_t a; zipref::p16(w, uint32_t(a = v()) & 0xffff); h.extractVersion = uint16_t(a); a = v() & 0xffff; zipref::p16(w, uint32_t(a)); uint16_t fl = uint16_t(a); memcpy(&h.flags, &fl, 2); a = v() & 0xffff; zipref::p16(w, uint32_t(a)); h.compression = ZIPCompressionMethod(a); a = v() & 0xffff; zipref::p16(w, uint32_t(a)); h.lastModFileTime = uint16_t(a); a = v() & 0xffff; zipref::p16(w, uint32_t(a)); h.lastModFileDate = uint16_t(a); a = v(); zipref::p32(w, uint32_t(a)); h.crc = uint32_t(a); a = v(); zipref::p32(w, uint32_t(a)); h.compressedSize = uint32_t(a); a = v(); zipref::p32(w, uint32_t(a)); h.uncompressedSize = uint32_t(a); a = v() & 0xffff; zipref::p16(w, uint32_t(a)); h.fileNameSize = uint16_t(a); a = v() & 0xffff; zipref::p16(w, uint32_t(a)); h.extraFieldSize = uint16_t(a); headerTrip(h, w, nm("local header")); }
    { ZIPFile h{}; h.id = ZIPFile::ID; k = 0; std::string w = "PK\1\2"; uint64_t a;
#define F16(m) a = v() & 0xffff; zipref::p16(w, uint32_t(a)); h.m = decltype(h.m)(a);
#define F32(m) a = v() & 0xffffffff; zipref::p32(w, uint32_t(a)); h.m = decltype(h.m)(a);
#define F64(m) a = v(); zipref::p64(w, a); h.m = decltype(h.m)(a);
      F16(madeBy) F16(extractVersion) { a = v() & 0xffff; zipref::p16(w, uint32_t(a)); uint16_t fl = uint16_t(a); memcpy(&h.flags, &fl, 2); } F16(compression) F16(lastModFileTime) F16(lastModFileDate) F32(crc) F32(compressedSize) F32(uncompressedSize) F16(fileNameSize) F16(extraFieldSize) F16(fileCommentSize) F16(diskNumberStart) F16(internalFileAttrs) F32(externalFileAttrs) F32(localHeaderOffset) headerTrip(h, w, nm("central header")); }
    { ZIPSignature h{}; h.id = ZIPSignature::ID; k = 0; std::string w = "PK\5\5"; uint64_t a; F16(dataSize) headerTrip(h, w, nm("signature")); }
    { ZIPExtraData h{}; h.id = ZIPExtraData::ID; k = 0; std::string w = "PK\6\x08"; uint64_t a; F32(dataSize) headerTrip(h, w, nm("extra data record")); }
    { ZIPCentralDir h{}; h.id = ZIPCentralDir::ID; k = 0; std::string w = "PK\5\6"; uint64_t a; F16(diskNumber) F16(startDiskNumber) F16(numDiskEntries) F16(numDirEntries) F32(dirSize) F32(dirOffset) F16(commentSize) headerTrip(h, w, nm("end record")); }
    { ZIP64CentralDir h{}; h.id = ZIP64CentralDir::ID; k = 0; std::string w = "PK\6\6"; uint64_t a; F64(dirRecord) F16(madeBy) F16(extractVersion) F32(diskNumber) F32(startDiskNumber) F64(numDiskEntries) F64(numDirEntries) F64(dirSize) F64(dirOffset) headerTrip(h, w, nm("64 bit end record")); }
    { ZIP64CentralDirLocator h{}; h.id = ZIP64CentralDirLocator::ID; k = 0; std::string w = "PK\6\7"; uint64_t a; F32(diskNumber) F64(centralDirOffset) F32(numDisks) headerTrip(h, w, nm("64 bit locator")); } }
  struct { ZIPCompressionMethod m; unsigned v; } M[] = {{ZIPCompressionMethod::Store, 0}, {ZIPCompressionMethod::Implode, 6}, {ZIPCompressionMethod::Deflate, 8}, {ZIPCompressionMethod::Deflate64, 9}, {ZIPCompressionMethod::BZIP2, 12}, {ZIPCompressionMethod::LZMA, 14}, {ZIPCompressionMethod::CMPSC, 16}, {ZIPCompressionMethod::TERSE, 18}, {ZIPCompressionMethod::IBM_LZ77, 19}, {ZIPCompressionMethod::WavPack, 97}, {ZIPCompressionMethod::PPMd, 98}, {ZIPCompressionMethod::AEx, 99}}; for (auto &m : M) { mc::step(); if (unsigned(m.m) != m.v) mc::fail("compression code", "%u expected %u", unsigned(m.m), m.v); }
  struct { ZIPLocalFlag f; unsigned v; } L[] = {{ZIPLocalFlag::Encrypted, 0}, {ZIPLocalFlag::DataDescriptor, 3}, {ZIPLocalFlag::PatchedData, 5}, {ZIPLocalFlag::StronkEncryption, 6}, {ZIPLocalFlag::StringsInUTF8, 11}, {ZIPLocalFlag::StronkEncryptSpecific, 13}}; for (auto &l : L) { mc::step(); if (unsigned(l.f) != l.v) mc::fail("flag bit", "%u expected %u", unsigned(l.f), l.v); }
}
