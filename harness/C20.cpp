// REPO: datas/reflector.cpp datas/reflector_io.cpp datas/master_printer.cpp
// VARIANT: opt -O2
// VARIANT: asan -O1 -fsanitize=address
// RULE: state = distinct (set and order of described types, placement in the stream, damage); transition = one save or load; trace = one database saved, loaded and compared field by field with the compiled-in description
#include "reflforms.hpp"
#include "datas/reflector_io.hpp"
#include "datas/binreader.hpp"
#include "datas/binwritter.hpp"
#include <sstream>
static std::string S(const char *f, ...) { char b[900]; va_list a; va_start(a, f); vsnprintf(b, 900, f, a); va_end(a); return b; }
static bool cstr(const char *a, const char *b) { return a && b ? !strcmp(a, b) : a == b; }
static std::string sv(es::string_view v) { return std::string(v.begin(), v.end()); }
static std::string diffClass(const reflectorStatic *a, const reflectorStatic *b) {
  if (a->classHash != b->classHash) return "class hash"; if (a->nTypes != b->nTypes) return "number of members"; if (!cstr(a->className, b->className)) return "class name";
  for (uint32 i = 0; i < b->nTypes; i++) { if (memcmp(a->types + i, b->types + i, sizeof(reflType))) return S("member record %u", i); }
  if (!a->typeNames != !b->typeNames) return "presence of names"; if (!a->typeAliases != !b->typeAliases) return "presence of aliases"; if (!a->typeAliasHashes != !b->typeAliasHashes) return S("presence of alias hashes (%d, compiled in %d)", a->typeAliasHashes != nullptr, b->typeAliasHashes != nullptr); if (!a->typeDescs != !b->typeDescs) return "presence of descriptions";
  for (uint32 i = 0; i < b->nTypes; i++) { if (b->typeNames && !cstr(a->typeNames[i], b->typeNames[i])) return S("name %u", i); if (b->typeAliases && !cstr(a->typeAliases[i], b->typeAliases[i])) return S("alias %u", i); if (b->typeAliasHashes && a->typeAliasHashes[i] != b->typeAliasHashes[i]) return S("alias hash %u", i); if (b->typeDescs && (sv(a->typeDescs[i].part1) != sv(b->typeDescs[i].part1) || sv(a->typeDescs[i].part2) != sv(b->typeDescs[i].part2))) return S("description %u", i); }
  return "";
}
static std::string diffEnum(const ReflectedEnum &a, const FormEnum &f) {
  auto b = f.get(); if (a.hash != b.hash) return "hash"; if (sv(a.name) != f.name) return "name"; if (a.size() != f.v.size()) return "size"; for (size_t i = 0; i < a.size(); i++) { if (sv(a.at(i)) != f.v[i].n) return S("enumerator name %zu", i); if (a.values[i] != f.v[i].v) return S("enumerator value %zu", i); } return "";
}
static std::string compare(const ReflectorIO &io, const std::vector<int> &cls, const std::vector<int> &ens, size_t c0 = 0, size_t e0 = 0) {
  if (io.Classes().size() < c0 + cls.size() || io.Enums().size() < e0 + ens.size()) return S("%zu classes and %zu enums", io.Classes().size(), io.Enums().size());
  for (size_t i = 0; i < cls.size(); i++) { auto d = diffClass(io.Classes()[c0 + i], forms()[size_t(cls[i])].get()); if (!d.empty()) return S("class %zu (%s): %s", i, forms()[size_t(cls[i])].id, d.c_str()); }
  for (size_t i = 0; i < ens.size(); i++) { auto d = diffEnum(io.Enums()[e0 + i], formEnums()[size_t(ens[i])]); if (!d.empty()) return S("enum %zu (%s): %s", i, formEnums()[size_t(ens[i])].name, d.c_str()); }
  return "";
}
static void fill(ReflectorIO &io, const std::vector<int> &cls, const std::vector<int> &ens) { for (int c : cls) io.AddClass(forms()[size_t(c)].get()); for (int e : ens) io.AddEnum(formEnums()[size_t(e)].get()); }
static std::string setName(const std::vector<int> &cls, const std::vector<int> &ens) { std::string s = "classes"; for (int c : cls) s += S(" '%s'", forms()[size_t(c)].id); s += ", enums"; for (int e : ens) s += S(" %s", formEnums()[size_t(e)].name); return s; }
static std::string dbBytes(const std::vector<int> &cls, const std::vector<int> &ens) { std::stringstream ss; BinWritterRef w(ss); ReflectorIO io; fill(io, cls, ens); io.Save(w); return ss.str(); }
// one database in the middle of other data
static void placed(const std::vector<int> &cls, const std::vector<int> &ens, size_t before, size_t after, int origin) {
  std::string what = setName(cls, ens) + S(", behind %zu and before %zu other bytes%s", before, after, origin == 1 ? ", relative writer" : origin == 2 ? ", relative reader" : ""); mc::at("%s", what.c_str()); mc::state(what); mc::trace();
  ReflectorIO io; fill(io, cls, ens); std::stringstream ss; std::string pre; for (size_t i = 0; i < before; i++) pre += char('A' + i % 23); ss.write(pre.data(), std::streamsize(pre.size())); BinWritterRef w(ss);
  if (origin == 1 && before) w.SetRelativeOrigin(before / 2), w.Seek(before - before / 2); mc::step(); if (io.Save(w) != 0) return mc::fail("save result", "%s", what.c_str()); if (!ss) return mc::fail("save stream", "%s leaves the stream failed", what.c_str());
  size_t end = size_t(ss.tellp()); std::string img = ss.str(); if (end != img.size()) return mc::fail("save position", "%s: the writer stands at %zu of %zu", what.c_str(), end, img.size()); if (img.compare(0, before, pre)) return mc::fail("bytes before", "%s are overwritten", what.c_str());
  std::string alone = img.substr(before); std::string post; for (size_t i = 0; i < after; i++) post += char('a' + i % 19);
  // the same image is also produced when longer data lies where it goes
  if (after) { std::stringstream s2; s2 << pre << std::string(alone.size(), '~') << post; s2.seekp(std::streamoff(before)); BinWritterRef w2(s2); ReflectorIO io2; fill(io2, cls, ens); mc::step(); io2.Save(w2); if (size_t(s2.tellp()) != end) mc::fail("save over other data: position", "%s: the writer stands at %zd, the database ends at %zu", what.c_str(), ssize_t(s2.tellp()), end); if (s2.str() != pre + alone + post) mc::fail("save over other data", "%s", what.c_str()); }
  std::stringstream rs(pre + alone + post); BinReaderRef rd(rs); if (origin == 2 && before) rd.SetRelativeOrigin(before / 2), rd.Seek(before - before / 2); else rd.Seek(before); ReflectorIO o2; mc::step(); int rv = o2.Load(rd); if (rv) return mc::fail("load result", "%s: %d", what.c_str(), rv); if (!rs || size_t(rs.tellg()) != end) mc::fail("load position", "%s: the reader stands at %zd, the database ends at %zu", what.c_str(), ssize_t(rs.tellg()), end);
  if (o2.Classes().size() != cls.size() || o2.Enums().size() != ens.size()) return mc::fail("number of types", "%s: %zu classes, %zu enums", what.c_str(), o2.Classes().size(), o2.Enums().size()); auto d = compare(o2, cls, ens); if (!d.empty()) mc::fail(("loaded types: " + d.substr(d.find(')') == d.npos ? 0 : d.find(')') + 1)).c_str(), "%s: %s differs", what.c_str(), d.c_str());
  // saved again from the loaded description: the same bytes
  std::stringstream s3; BinWritterRef w3(s3); mc::step(); if (o2.Save(w3) || s3.str() != alone) mc::fail("saved again", "%s: the loaded description saves differently", what.c_str());
}
static std::vector<int> bitsOf(unsigned m) { std::vector<int> r; for (int i = 0; m >> i; i++) if (m >> i & 1) r.push_back(i); return r; }
MC_SECTION("all sets of classes", 8) {
  formsRegister(); uint64_t n = 0; const unsigned C = unsigned(forms().size()); for (unsigned m = 0; m < 1u << C; m++) { int pc = __builtin_popcount(m); if (!mc::thorough() && pc > 3 && pc < int(C) - 2) continue; if (!mc::mine(n++)) continue; placed(bitsOf(m), bitsOf(m % 128), 0, 0, 0); }
}
MC_SECTION("all sets of enums and placements", 8) {
  formsRegister(); uint64_t n = 0; for (unsigned e = 0; e < 128; e++) for (unsigned c : {0u, 1u, 4u, 0x206u, 0x7fffu}) for (size_t before : {0, 1, 2, 3, 4, 5, 7, 8, 31, 32, 33, 100, 4096}) for (size_t after : {0, 1, 40}) for (int o = 0; o < 3; o++) { if (o && !before) continue; if (!mc::thorough() && (e * 7 + c + before + after + unsigned(o)) % 8) continue; if (!mc::mine(n++)) continue; placed(bitsOf(c), bitsOf(e), before, after, o); }
}
MC_SECTION("orders and repeats", 8) {
  formsRegister(); uint64_t n = 0; const int C = int(forms().size()), E = int(formEnums().size()); for (int a = 0; a < C; a++) for (int b = 0; b < C; b++) for (int c = 0; c < C; c += mc::thorough() ? 1 : 2) { if (!mc::mine(n++)) continue; placed({a, b, c}, {(a + c) % E, (b * 3 + c) % E}, size_t((a + b) % 5), size_t(c % 3), 0); } 
}
MC_SECTION("several databases in one stream", 4) {
  formsRegister(); uint64_t n = 0; const std::vector<std::vector<int>> cs{{}, {0}, {2}, {1, 2, 9}, {13, 5}}, es{{}, {0}, {1, 2}, {3}}; 
  for (auto &c1 : cs) for (auto &e1 : es) for (auto &c2 : cs) for (auto &e2 : es) for (size_t gap : {0, 3}) { if (!mc::mine(n++)) continue; std::stringstream ss; BinWritterRef w(ss); ReflectorIO a, b; fill(a, c1, e1); fill(b, c2, e2); std::string what = setName(c1, e1) + " then " + setName(c2, e2) + S(" gap %zu", gap); mc::at("%s", what.c_str()); mc::state(what); mc::trace(); a.Save(w); w.Skip(int(gap)); b.Save(w); a.Save(w); mc::step(3);
      { BinReaderRef rd(ss); ReflectorIO x, y, z; int r1 = x.Load(rd); rd.Skip(int(gap)); int r2 = y.Load(rd), r3 = z.Load(rd); mc::step(3); std::string d = r1 || r2 || r3 ? "result" : compare(x, c1, e1) + compare(y, c2, e2) + compare(z, c1, e1); if (!d.empty()) mc::fail("back to back", "%s: %s", what.c_str(), d.c_str()); }
      // both loaded into one description, which already holds compiled-in types
      { ss.clear(); ss.seekg(0); BinReaderRef rd(ss); ReflectorIO x; x.AddClass(forms()[2].get()); x.AddEnum(formEnums()[4].get()); int r1 = x.Load(rd); rd.Skip(int(gap)); int r2 = x.Load(rd); mc::step(2); std::string d = r1 || r2 ? "result" : x.Classes().size() != 1 + c1.size() + c2.size() || x.Enums().size() != 1 + e1.size() + e2.size() ? S("%zu classes and %zu enums", x.Classes().size(), x.Enums().size()) : compare(x, {2}, {4}) + compare(x, c1, e1, 1, 1) + compare(x, c2, e2, 1 + c1.size(), 1 + e1.size()); if (!d.empty()) mc::fail("loaded into one description", "%s: %s", what.c_str(), d.c_str()); } }
}
// what is loaded works like the compiled-in description
MC_SECTION("loaded descriptions at work", 1) {
  formsRegister(); std::vector<int> all; for (int i = 0; i < int(forms().size()); i++) all.push_back(i); std::stringstream ss(dbBytes(all, {0, 1, 2})); BinReaderRef rd(ss); ReflectorIO io; if (io.Load(rd) || io.Classes().size() != all.size()) return mc::fail("load", "all classes");
  for (int i : all) { auto &f = forms()[size_t(i)]; if (!strcmp(f.id, "VARNAMES") || !strcmp(f.id, "EXTENDED TEMPLATE") || !strcmp(f.id, "nested")) continue; std::vector<uint64_t> a(f.size / 8 + 2, 0x0101010101010101ULL), b = a; ReflectedInstance ia(f.get(), a.data()), ib(io.Classes()[size_t(i)], b.data()); ReflectorPureWrap wa(ia), wb(ib);
    for (size_t k = 0; k < f.m.size(); k++) for (const char *nm : {f.m[k].name, f.m[k].alias}) { if (!nm) continue; JenHash h{es::string_view(nm)}; for (const char *t : {"1", "true", "{1, 0, 1}", "Alpha", "F1"}) { ET e1 = wa.SetReflectedValue(h, t), e2 = wb.SetReflectedValue(h, t); mc::step(2); mc::state(mc::hashBytes(nm, strlen(nm), k * 100 + uint64_t(i)) ^ mc::hashBytes(t, strlen(t))); Reflector::KVPairFormat kf; kf.aliasName = f.ext; kf.formatValue = f.ext; auto p1 = wa.GetReflectedPair(h, kf), p2 = wb.GetReflectedPair(h, kf); if (e1 != e2 || a != b || sv(p1.name) != sv(p2.name) || p1.value != p2.value) mc::fail("used through the loaded description", "class '%s' member %s = %s: compiled-in %s %s=%s, loaded %s %s=%s", f.id, nm, t, en(e1), sv(p1.name).c_str(), p1.value.c_str(), en(e2), sv(p2.name).c_str(), p2.value.c_str()); } } }
}
MC_SECTION("truncated and foreign", 8) {
  formsRegister(); uint64_t n = 0; const std::vector<std::vector<int>> cs{{}, {0}, {2}, {1, 2, 9}, {13, 5, 14}}, es{{}, {0}, {3, 2}};
  for (auto &c : cs) for (auto &e : es) { std::string db = dbBytes(c, e), nm = setName(c, e); auto load = [&](const std::string &img, size_t at, const std::string &what, bool bad) { mc::at("%s %s", nm.c_str(), what.c_str()); mc::state(nm + what); mc::trace(); std::stringstream ss(img); BinReaderRef rd(ss); rd.Seek(at); ReflectorIO io; mc::step(); int r = io.Load(rd); if (bad && (r == 0 || io.Classes().size() || io.Enums().size())) mc::fail("damaged database accepted", "%s %s: result %d, %zu classes, %zu enums", nm.c_str(), what.c_str(), r, io.Classes().size(), io.Enums().size()); if (!bad && (r || !compare(io, c, e).empty())) mc::fail("whole database refused", "%s %s: result %d", nm.c_str(), what.c_str(), r); };
    for (size_t len = 0; len <= db.size(); len++) { if (!mc::mine(n++)) continue; load(db.substr(0, len), 0, S("cut at %zu", len), len < db.size()); load("xyz" + db.substr(0, len), 3, S("cut at %zu behind 3 bytes", len), len < db.size()); }
    for (int by = 0; by < 4; by++) for (int bit = 0; bit < 8; bit++) { if (!mc::mine(n++)) continue; std::string d = db; d[size_t(by)] = char(d[size_t(by)] ^ 1 << bit); load(d, 0, S("id byte %d bit %d", by, bit), true); }
    for (uint32_t ver : {1001u, 1002u, 2000u, 0x01000000u | 1000u, 0xffffffffu}) { std::string d = db; memcpy(&d[4], &ver, 4); load(d, 0, S("version %u", ver), true); }
    for (size_t len = 0; len < 80; len += 7) { load(std::string(len, '\0'), 0, S("%zu zeros", len), true); load(std::string(len, 'R'), 0, S("%zu letters", len), true); } }
}
// texts and counts beyond what small fields hold, in descriptions made at run time
struct RawStatic { JenHash h; uint32 n; const reflType *t; const char *const *nm; const char *cn; const char *const *al; const JenHash *ah; const _ReflDesc *ds; };
struct BigEnum : ReflectedEnum { std::vector<std::string> txt; std::vector<uint64> val; BigEnum(int n, size_t len, const std::string &nm) : nm(nm) { for (int i = 0; i < n; i++) { std::string s = "E" + std::to_string(i); if (s.size() < len) s.resize(len, char('a' + i % 26)); txt.push_back(s); val.push_back(uint64(i) * 0x100000001ULL); } for (auto &s : txt) parent::push_back(s); values = val.data(); name = this->nm; hash = JenHash(es::string_view(this->nm)); } std::string nm; BigEnum(const BigEnum &) = delete; };
static std::string diffE(const ReflectedEnum &a, const ReflectedEnum &b) { if (a.hash != b.hash) return "hash"; if (sv(a.name) != sv(b.name)) return "name"; if (a.size() != b.size()) return S("size %zu, not %zu", a.size(), b.size()); for (size_t i = 0; i < b.size(); i++) if (sv(a.at(i)) != sv(b.at(i)) || a.values[i] != b.values[i]) return S("enumerator %zu", i); return ""; }
MC_SECTION("long texts and many types", 8) {
  formsRegister(); uint64_t n = 0; const reflectorStatic *base = forms()[2].get(); const size_t M = base->nTypes; std::vector<size_t> lens{0, 1, 15, 127, 128, 200, 253, 254, 255, 256, 257, 258, 511, 512, 513, 1000, 32767, 32768, 65534, 65535, 65536, 65537, 70000};
  auto run = [&](const ReflectorIO &io, const std::string &what) { mc::at("%s", what.c_str()); mc::state(what); mc::trace(); std::stringstream ss; BinWritterRef w(ss); ReflectorIO src = io; mc::step(2); if (src.Save(w)) return mc::fail("long texts: save", "%s", what.c_str()); std::string img = ss.str(); std::stringstream rs(img + "behind"); BinReaderRef rd(rs); ReflectorIO o; int r = o.Load(rd); if (r || size_t(rs.tellg()) != img.size()) return mc::fail("long texts: load", "%s: result %d, reader at %zd of %zu", what.c_str(), r, ssize_t(rs.tellg()), img.size()); if (o.Classes().size() != io.Classes().size() || o.Enums().size() != io.Enums().size()) return mc::fail("long texts: number of types", "%s: %zu classes, %zu enums", what.c_str(), o.Classes().size(), o.Enums().size()); for (size_t i = 0; i < io.Classes().size(); i++) { auto d = diffClass(o.Classes()[i], io.Classes()[i]); if (!d.empty()) return mc::fail("long texts: class", "%s: class %zu: %s differs", what.c_str(), i, d.c_str()); } for (size_t i = 0; i < io.Enums().size(); i++) { auto d = diffE(o.Enums()[i], io.Enums()[i]); if (!d.empty()) return mc::fail("long texts: enum", "%s: enum %zu: %s differs", what.c_str(), i, d.c_str()); } };
  for (int field = 0; field < 6; field++) for (size_t len : lens) for (size_t m : {size_t(0), M / 2, M - 1}) { if (!mc::mine(n++)) continue; static const char *F[] = {"class name", "member name", "alias", "description", "unit", "description and unit"}; std::string text(len, 'x'); for (size_t i = 0; i < len; i++) text[i] = char('!' + i % 90);
    std::vector<const char *> nm(base->typeNames, base->typeNames + M), al(base->typeAliases, base->typeAliases + M); std::vector<JenHash> ah(base->typeAliasHashes, base->typeAliasHashes + M); std::vector<_ReflDesc> ds(base->typeDescs, base->typeDescs + M); RawStatic raw{base->classHash, uint32(M), base->types, nm.data(), base->className, al.data(), ah.data(), ds.data()};
    if (field == 0) raw.cn = text.c_str(); if (field == 1) nm[m] = text.c_str(); if (field == 2) { al[m] = text.c_str(); ah[m] = JenHash(es::string_view(text)); } if (field == 3 || field == 5) ds[m].part1 = text; if (field == 4 || field == 5) ds[m].part2 = text; reflectorStatic r(*base); memcpy((void *)&r, &raw, sizeof raw); ReflectorIO io; io.AddClass(forms()[1].get()); io.AddClass(&r); io.AddClass(forms()[9].get()); io.AddEnum(formEnums()[2].get()); run(io, S("%s of %zu letters at member %zu", F[field], len, m)); }
  for (size_t len : lens) for (int cnt : {1, 2, 3}) { if (!mc::mine(n++)) continue; BigEnum e(cnt, len, std::string(len + 1, 'N')); ReflectorIO io; io.AddClass(forms()[2].get()); io.AddEnum(formEnums()[3].get()); io.AddEnum(e); io.AddEnum(formEnums()[0].get()); run(io, S("enum of %d names of %zu letters", cnt, len)); }
  for (int cnt : {0, 1, 2, 127, 128, 255, 256, 257, 300, 1000, 65535, 65536, 70000}) { if (!mc::mine(n++)) continue; BigEnum e(cnt, 0, "Big"); ReflectorIO io; io.AddEnum(e); io.AddEnum(formEnums()[1].get()); io.AddClass(forms()[2].get()); run(io, S("enum of %d names", cnt)); }
  for (int cnt : {16, 100, 127, 128, 129, 254, 255, 256, 257, 300, 1000}) for (int k = 0; k < 4; k++) { if (!mc::mine(n++)) continue; ReflectorIO io; for (int i = 0; i < cnt; i++) { if (k != 1) io.AddClass(forms()[k == 3 ? size_t(i) % forms().size() : k == 2 ? 0 : 2].get()); if (k) io.AddEnum(formEnums()[k == 2 ? 3 : size_t(i) % formEnums().size()].get()); } run(io, S("%d types, mix %d", cnt, k)); mc::beat(); }
  // members beyond what a byte numbers
  for (size_t cnt : {39, 100, 255, 256, 257, 400, 1000}) for (int k = 0; k < 4; k++) { if (!mc::mine(n++)) continue; std::vector<reflType> t; std::vector<std::string> txt; for (size_t i = 0; i < cnt; i++) { t.push_back(base->types[i % M]); t.back().offset = uint16(i * 4); txt.push_back("m" + std::to_string(i)); } std::vector<const char *> nm, al; std::vector<JenHash> ah; std::vector<_ReflDesc> ds; for (size_t i = 0; i < cnt; i++) { nm.push_back(txt[i].c_str()); al.push_back(i % 3 ? nullptr : txt[cnt - 1 - i].c_str()); ah.push_back(i % 3 ? JenHash() : JenHash(es::string_view(txt[cnt - 1 - i]))); ds.push_back({es::string_view(txt[i]), i & 1 ? es::string_view(txt[i / 2]) : es::string_view()}); } RawStatic raw{base->classHash, uint32(cnt), t.data(), k ? nm.data() : nullptr, k ? "Many" : nullptr, k & 2 ? al.data() : nullptr, k & 2 ? ah.data() : nullptr, k == 3 ? ds.data() : nullptr}; reflectorStatic r(*base); memcpy((void *)&r, &raw, sizeof raw); ReflectorIO io; io.AddClass(forms()[0].get()); io.AddClass(&r); io.AddClass(forms()[5].get()); run(io, S("class of %zu members, fields %d", cnt, k)); }
}
MC_SECTION("files", 1) {
  formsRegister(); std::vector<int> all, alle; for (int i = 0; i < int(forms().size()); i++) all.push_back(i); for (int i = 0; i < int(formEnums().size()); i++) alle.push_back(i); std::string fn = mc::g().tmp + "/refl.db"; 
  for (int k = 0; k < 8; k++) { std::vector<int> c(all.begin(), all.begin() + 2 * k), e(alle.begin(), alle.begin() + k % 8 % int(alle.size())); { BinWritter w(fn); ReflectorIO io; fill(io, c, e); w.Write<uint32>(7); io.Save(w); w.Write<uint32>(9); mc::step(); } BinReader r(fn); uint32 a = 0, b = 0; r.Read(a); ReflectorIO io; int rv = io.Load(r); r.Read(b); mc::step(); mc::state(S("file %d", k)); std::string d = compare(io, c, e); if (rv || a != 7 || b != 9 || !d.empty()) mc::fail("file", "%d: result %d, %u, %u, %s", k, rv, a, b, d.c_str()); }
}
