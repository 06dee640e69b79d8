// REPO: datas/reflector.cpp datas/reflector_xml.cpp datas/master_printer.cpp
// LIBS: -lpugixml
// VARIANT: opt -O2
// VARIANT: asan -O1 -fsanitize=address
// RULE: state = distinct (form of storage, class, member value, or mutation of the saved tree); transition = one save or load; trace = one object saved as XML, loaded and compared member by member
// ASSUME: pugixml prints and parses documents correctly; carriage returns in element text are outside what it preserves and are not used
#include "reflforms.hpp"
#include "datas/reflector_xml.hpp"
#include <functional>
#include <sstream>
typedef ReflectorXMLUtil X;
static std::string S(const char *f, ...) { char b[1200]; va_list a; va_start(a, f); vsnprintf(b, 1200, f, a); va_end(a); return b; }
// the storage forms: flat, nested, nested with strings as attributes; each with or without a node for the class
static const char *formName(int f) { static const char *n[] = {"flat", "flat in a class node", "nested", "nested in a class node", "string attributes", "string attributes in a class node"}; return n[f]; }
static pugi::xml_node saveX(int f, const Reflector &r, pugi::xml_node n) { mc::step(); X::flag_type fl; if (f & 1) fl += X::Flags_ClassNode; if (f >= 4) fl += X::Flags_StringAsAttribute; return f < 2 ? X::Save(r, n, f & 1) : f < 4 ? X::SaveV2(r, n, f & 1) : X::SaveV2a(r, n, fl); }
static pugi::xml_node loadX(int f, Reflector &r, pugi::xml_node n) { mc::step(); return f < 2 ? X::Load(r, n, f & 1) : X::LoadV2(r, n, f & 1); }
// print: 0 the document itself, 1 printed raw, 2 indented
static bool reparse(pugi::xml_document &to, pugi::xml_document &from, int how) { std::stringstream ss; from.save(ss, "\t", how == 1 ? pugi::format_raw : pugi::format_indent, pugi::encoding_utf8); std::string s = ss.str(); auto r = to.load_buffer(s.data(), s.size(), pugi::parse_default | pugi::parse_ws_pcdata_single, pugi::encoding_utf8); if (!r) mc::fail("document does not parse", "%s: %.300s", r.description(), s.c_str()); return bool(r); }
static const std::vector<bool> &covered() {
  static std::vector<bool> v = [] { std::vector<bool> c(sizeof(Fx)); for (auto &m : fxMembers()) if (strcmp(m.name, "cs")) for (int i = 0; i < m.size; i++) c[size_t(m.off + i)] = true;
    auto hole = [&](size_t at, std::initializer_list<std::pair<size_t, size_t>> f, size_t size) { for (size_t i = 0; i < size; i++) { bool in = false; for (auto &p : f) in |= i >= p.first && i < p.first + p.second; if (!in) c[at + i] = false; } };
    for (size_t at : {offsetof(Fx, mid), offsetof(Fx, amid), offsetof(Fx, amid) + sizeof(FxMid)}) hole(at, {{offsetof(FxMid, t), 1}, {offsetof(FxMid, in), 16}, {offsetof(FxMid, bits), 2}, {offsetof(FxMid, tail), 2}}, sizeof(FxMid));
    hole(offsetof(Fx, sub), {{offsetof(FxStr, s), sizeof(std::string)}, {offsetof(FxStr, n), 2}}, sizeof(FxStr)); return c; }();
  return v;
}
// members in [skip] may hold anything
static std::string compareFx(const Snap &src, const Snap &before, const Snap &now, const std::function<bool(int)> &skip = nullptr) {
  size_t at[] = {offsetof(Fx, str), offsetof(Fx, astr), offsetof(Fx, astr) + sizeof(std::string), offsetof(Fx, sub) + offsetof(FxStr, s)};
  for (int i = 0; i < 4; i++) if (now.s[i] != src.s[i] && !(skip && skip(int(at[i])))) return S("string %d is %s, not %s", i, mc::quote(now.s[i]).c_str(), mc::quote(src.s[i]).c_str());
  for (size_t i = 0; i < src.bytes.size(); i++) if (now.bytes[i] != (covered()[i] ? src.bytes[i] : before.bytes[i]) && !(skip && skip(int(i)))) return covered()[i] ? S("%s is %02x, not %02x", fxWhere(int(i)).c_str(), uint8(now.bytes[i]), uint8(src.bytes[i])) : "bytes outside members change: " + fxWhere(int(i));
  return "";
}
struct Ob : FxObj { explicit Ob(int pat) : FxObj(pat) { if (pat) p->astr[1] = "second"; else p->astr[0] = "x", p->astr[1] = "y"; } };  // (texts with list punctuation in arrays: C17 findings)
static void roundTrip(Fx &src, int form, int how, int target, const std::string &what0) {
  std::string what = what0 + S(" (%s, print %d)", formName(form), how); mc::at("%s", what.c_str()); mc::state(what); mc::trace(); ReflectorWrap<Fx> w(src); pugi::xml_document doc, doc2; auto root = doc.append_child("root"); root.append_child("other").append_attribute("i8").set_value("7"); auto n = saveX(form, w, form & 1 ? root : root.append_child("object")); root.append_child("later"); if (how && !reparse(doc2, doc, how)) return;
  auto &d = how ? doc2 : doc; auto rt = d.child("root"); Ob o(target); Snap before(*o.p), was(src); ReflectorWrap<Fx> t(*o.p); auto got = loadX(form, t, form & 1 ? rt : rt.child("object")); auto diff = compareFx(was, before, Snap(*o.p)); if (!diff.empty()) mc::fail(S("%s: round trip", formName(form)).c_str(), "%s: %s", what.c_str(), diff.c_str()); if (std::string(got.name()) != ((form & 1) ? "Fx" : "object") || std::string(n.name()) != got.name()) mc::fail("node", "%s: saved into '%s', loaded from '%s'", what.c_str(), n.name(), got.name()); if (!rt.child("other") || !rt.child("later") || std::distance(rt.begin(), rt.end()) != 3) mc::fail("other nodes", "%s: disturbed", what.c_str());
}
static std::vector<uint64_t> intVals(int size, bool th) { std::vector<uint64_t> v; uint64_t mask = size == 8 ? ~0ULL : (1ULL << size * 8) - 1; if (size == 1 && th) { for (uint64_t x = 0; x < 256; x++) v.push_back(x); return v; } for (int k = 0; k < size * 8; k += th ? 1 : 5) for (int d = -1; d < 2; d++) { v.push_back(((1ULL << k) + uint64_t(int64_t(d))) & mask); v.push_back(~((1ULL << k) + uint64_t(int64_t(d))) & mask); } v.push_back(mask >> 1); v.push_back((mask >> 1) + 1); v.push_back(mask); std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v; }
MC_SECTION("every slot, every value", 8) {
  fxRegister(); uint64_t n = 0; bool th = mc::thorough();
  for (auto &m : fxMembers()) for (int e = 0; e < m.count; e++) { if (m.t.kind == kStr || m.t.kind == kCStr || m.t.kind == kClass) continue; int comps = m.t.kind == kVec ? m.t.comps : 1, cs = m.t.kind == kVec ? m.t.csize : m.t.size; Kind k = m.t.kind == kVec ? m.t.ck : m.t.kind; std::vector<uint64_t> vals; auto add = [&](double d) { uint64_t v = 0; float f = float(d); cs == 4 ? memcpy(&v, &f, 4) : memcpy(&v, &d, 8); vals.push_back(v); };
      switch (k) { case kBool: vals = {0, 1}; break; case kFloat: for (double d : {0., 1., -1.5, 0.25, 100000., -123456., 0.03125, 1024.5, 65536.}) add(d); break; case kEnum: for (auto &x : fxEnum(m.t.en)) vals.push_back(x.v); break;
        case kFlags: { auto l = fxEnum(m.t.en); for (unsigned s = 0; s < 1u << l.size(); s++) { uint64_t v = 0; for (size_t i = 0; i < l.size(); i++) if (s >> i & 1) v |= 1ULL << l[i].v; if (cs == 8 || v < 1ULL << cs * 8) vals.push_back(v); } break; } default: vals = intVals(cs, th); }
      for (int c = 0; c < comps; c++) for (uint64_t v : vals) for (int form = 0; form < 6; form++) { if (!mc::mine(n++)) continue; for (int how = 0; how < (th ? 3 : 2); how++) { int pat = int(n) & 1; Ob o(pat); memcpy((char *)o.p + m.off + e * m.t.size + c * cs, &v, size_t(cs)); roundTrip(*o.p, form, how, th && form % 2 ? pat : 1 - pat, S("%s[%d].%d = %llx in filling %d", m.name, e, c, (unsigned long long)v, pat)); } } }
}
MC_SECTION("every text", 8) {
  fxRegister(); uint64_t n = 0; std::vector<std::string> tx; mc::strings("a<&\" '", mc::thorough() ? 5 : 3, [&](const std::string &s) { tx.push_back(s); }, 0); mc::strings(">]{}-;", mc::thorough() ? 4 : 2, [&](const std::string &s) { tx.push_back(s); }, 1); for (const char *s : {"<a>b</a>", "</root>", "<!-- c -->", "<![CDATA[x]]>", "]]>", "&amp;", "&#65;", "&lt", "\xc3\xa9\xe2\x82\xac", "line\nbreak", "\n", "tab\tin", "\t", " lead", "trail ", "   ", "h:12", "i:0", "NULL", "{a, b}", "x|y", "\x01\x1f\x7f", "<?xml version=\"1.0\"?>", "a=\"b\""}) tx.push_back(s); for (size_t l : {15u, 16u, 100u, 4095u, 4096u, 70000u}) { tx.push_back(std::string(l, 'x')); tx.push_back(std::string(l, '<')); }
  for (auto &t : tx) for (int form = 0; form < 6; form++) for (int how = 0; how < 3; how++) { if (!mc::mine(n++)) continue; for (int which = 0; which < 3; which++) { Ob o(which & 1); if (which != 1) o.p->str = t; if (which) o.p->sub.s = t; roundTrip(*o.p, form, how, int(n) & 1, S("text %d = %s", which, t.size() > 60 ? S("%zu letters", t.size()).c_str() : mc::quote(t).c_str())); } }
}
#include "reflset.hpp"
MC_SECTION("every declaration form", 8) {
  regAll(); uint64_t n = 0;
  for (auto &t : types()) for (int form = 0; form < 6; form++) for (int how = 0; how < 3; how++) for (int va = 0; va < 3; va++) for (int vb = 0; vb < 3; vb++) { if (!mc::mine(n++)) continue; std::string what = S("%s values %d into %d (%s, print %d)", t.name, va, vb, formName(form), how); mc::at("%s", what.c_str()); mc::state(what); mc::trace(); void *a = t.make(), *b = t.make(); { ReflectedInstance ia(t.cls(), a), ib(t.cls(), b); ReflectorPureWrap wa(ia), wb(ib); setAll(wa, va); setAll(wb, vb); std::string da = dump(wa); pugi::xml_document doc, doc2; auto root = doc.append_child("r"); saveX(form, wa, root); if (!how || reparse(doc2, doc, how)) { auto rt = (how ? doc2 : doc).child("r"); auto got = loadX(form, wb, rt); if (got.empty()) mc::fail("class node not found", "%s", what.c_str()); if (dump(wb) != da) mc::fail("declaration forms", "%s: saved %s, loaded %s", what.c_str(), da.c_str(), dump(wb).c_str()); if (dump(wa) != da) mc::fail("saving changes the object", "%s", what.c_str()); } } t.drop(a); t.drop(b); }
}
MC_SECTION("several objects in one document", 8) {
  regAll(); uint64_t n = 0; auto &ts = types(); for (size_t i = 0; i < ts.size(); i++) for (size_t j = 0; j < ts.size(); j++) for (int f1 = 1; f1 < 6; f1 += 2) for (int how = 0; how < 2; how++) { if (i == j) continue; if (!mc::mine(n++)) continue; std::string what = S("%s then %s (%s, print %d)", ts[i].name, ts[j].name, formName(f1), how); mc::at("%s", what.c_str()); mc::state(what); mc::trace(); void *p[4] = {ts[i].make(), ts[j].make(), ts[i].make(), ts[j].make()}; { ReflectedInstance a(ts[i].cls(), p[0]), b(ts[j].cls(), p[1]), c(ts[i].cls(), p[2]), d(ts[j].cls(), p[3]); ReflectorPureWrap wa(a), wb(b), wc(c), wd(d); setAll(wa, 1); setAll(wb, 2); pugi::xml_document doc, doc2; auto root = doc.append_child("r"); root.append_child(pugi::node_comment).set_value("remark"); saveX(f1, wa, root); root.append_child(pugi::node_pcdata).set_value("text"); saveX(f1, wb, root); if (!how || reparse(doc2, doc, how)) { auto rt = (how ? doc2 : doc).child("r"); loadX(f1, wd, rt); loadX(f1, wc, rt); if (dump(wa) != dump(wc) || dump(wb) != dump(wd)) mc::fail("several objects", "%s: %s %s, %s %s", what.c_str(), dump(wa).c_str(), dump(wc).c_str(), dump(wb).c_str(), dump(wd).c_str()); } } ts[i].drop(p[0]); ts[j].drop(p[1]); ts[i].drop(p[2]); ts[j].drop(p[3]); }
}
MC_SECTION("documents of other classes", 8) {
  regAll(); uint64_t n = 0; auto &ts = types(); for (auto &a : ts) for (auto &b : ts) for (int form = 0; form < 6; form++) { if (&a == &b) continue; if (!mc::mine(n++)) continue; std::string what = S("%s loaded as %s (%s)", a.name, b.name, formName(form)); mc::at("%s", what.c_str()); mc::state(what); mc::trace(); void *p = a.make(), *q = b.make(); { ReflectedInstance ia(a.cls(), p), ib(b.cls(), q); ReflectorPureWrap wa(ia), wb(ib); setAll(wa, 1); setAll(wb, 2); auto was = dump(wb); pugi::xml_document doc; auto root = doc.append_child("r"); saveX(form, wa, root); auto got = loadX(form, wb, root); if (form & 1) { if (!got.empty() || dump(wb) != was) mc::fail("another class", "%s: taken for it", what.c_str()); pugi::xml_document none; if (!loadX(form, wb, none).empty() || dump(wb) != was) mc::fail("empty document", "%s", what.c_str()); } } a.drop(p); b.drop(q); }
}
// ---- damaged trees: whatever happens to one node, the other members are loaded
static bool inMember(const std::string &node, int off) { auto nm = node.substr(0, node.find('-')); for (auto &m : fxMembers()) if (nm == m.name && off >= m.off && off < m.off + m.size) return true; return false; }
struct Place { std::vector<size_t> path; bool attr; size_t idx; };
static void places(pugi::xml_node n, std::vector<size_t> path, std::vector<Place> &out) { size_t i = 0; for (auto a : n.attributes()) { (void)a; out.push_back({path, true, i++}); } i = 0; for (auto c : n.children()) { out.push_back({path, false, i}); auto p = path; p.push_back(i++); places(c, p, out); } }
static pugi::xml_node child(pugi::xml_node n, size_t i) { auto c = n.first_child(); while (i--) c = c.next_sibling(); return c; }
static const std::vector<const char *> &badNames() { static const std::vector<const char *> v{"", "zzz", "h:", "h:0", "h:12345678", "h:zz", "-", "--", "-0", "i:", "i:0", "i:99", "i:-1", "i:18446744073709551615", "i", "x", "w", "q", "xx", "mid", "ain-0", "ain-7", "ain--1", "ain-18446744073709551615", "amid-99999999999999999999", "i8", "i8-0", "i8-5", "i8--1", "v3", "v3-3", "v3-1", "fl8", "fl8-63", "fl8-64", "ai32-2", "ai32--1", "ai32-", "ai32-x", "ai32-1x", "av3-2", "av3-1-2", "afl8-9", "str", "str-0", "str-1", "cs", "sub", "in", "bits", "abits-3", "aea-99", "F0", "Fx"}; return v; }
static const std::vector<const char *> &badValues() { static const std::vector<const char *> v{"", " ", "zzz", "{", "}", "{}", "[", "[1", "[1,", "{1, 2, 3, 4, 5, 6, 7, 8, 9}", "[[[[", "99999999999999999999999", "-", "1e999", "|", "F0|", "true", "\x01\xff"}; return v; }
MC_SECTION("damaged trees", 8) {
  fxRegister(); uint64_t n = 0; for (int form : {0, 2, 4}) { Ob src(1); Snap want(*src.p); ReflectorWrap<Fx> w(*src.p); pugi::xml_document base; auto root = base.append_child("object"); saveX(form, w, root); std::vector<Place> pl; places(root, {}, pl);
    for (auto &p : pl) { std::string owner; { auto nd = base.child("object"); for (size_t k = 0; k < p.path.size(); k++) { nd = child(nd, p.path[k]); if (!k) owner = nd.name(); } if (p.path.empty()) { if (p.attr) { auto a = nd.first_attribute(); for (size_t k = 0; k < p.idx; k++) a = a.next_attribute(); owner = a.name(); } else owner = child(nd, p.idx).name(); } }
      auto with = [&](const std::string &what0, const std::string &also, const std::function<void(pugi::xml_node, pugi::xml_attribute, pugi::xml_node)> &fn) { if (!mc::mine(n++)) return; pugi::xml_document d; d.reset(base); auto par = d.child("object"); for (auto k : p.path) par = child(par, k); pugi::xml_attribute a; pugi::xml_node c; if (p.attr) { a = par.first_attribute(); for (size_t k = 0; k < p.idx; k++) a = a.next_attribute(); } else c = child(par, p.idx); std::string at = S("%s: in %s (depth %zu) %s '%s'", formName(form), owner.c_str(), p.path.size(), p.attr ? "attribute" : "node", p.attr ? a.name() : c.name()), what = at + " " + what0; mc::at("%s", what.c_str()); mc::state(what); mc::trace(); fn(par, a, c); Ob o(0); Snap before(*o.p); ReflectorWrap<Fx> t(*o.p); loadX(form, t, d.child("object"));
        auto diff = compareFx(want, before, Snap(*o.p), [&](int off) { return inMember(owner, off) || inMember(also, off); }); if (!diff.empty()) mc::fail("damaged tree", "%s: %s", what.c_str(), diff.c_str()); };
      with("removed", "", [](pugi::xml_node par, pugi::xml_attribute a, pugi::xml_node c) { a ? par.remove_attribute(a) : par.remove_child(c); });
      for (auto nm : badNames()) { if (!mc::thorough() && p.path.size() > 2) break; with(S("renamed '%s'", nm), p.path.empty() ? nm : "", [&](pugi::xml_node, pugi::xml_attribute a, pugi::xml_node c) { a ? a.set_name(nm) : c.set_name(nm); }); with(S("added node '%s'", nm), p.path.empty() ? nm : "", [&](pugi::xml_node par, pugi::xml_attribute a, pugi::xml_node c) { auto x = a ? par.append_child(nm) : c.append_child(nm); x.append_attribute("x").set_value("1"); x.append_attribute(nm).set_value("1"); if (!a && p.path.empty()) { x = par.append_child(nm); x.append_attribute("y").set_value("2"); } }); with(S("added attribute '%s'", nm), p.path.empty() ? nm : "", [&](pugi::xml_node par, pugi::xml_attribute, pugi::xml_node c) { (c ? c : par).append_attribute(nm).set_value("1"); if (c) par.append_attribute(nm).set_value("2"); }); }
      for (auto v : badValues()) with(S("value '%s'", v), "", [&](pugi::xml_node, pugi::xml_attribute a, pugi::xml_node c) { if (a) a.set_value(v); else if (c.type() == pugi::node_pcdata) c.set_value(v); else c.text().set(v); });
      with("emptied", "", [](pugi::xml_node, pugi::xml_attribute a, pugi::xml_node c) { if (a) a.set_value(""); else while (c.first_child()) c.remove_child(c.first_child()); });
      with("with remark and text", "", [](pugi::xml_node par, pugi::xml_attribute, pugi::xml_node c) { auto x = c ? c : par; x.append_child(pugi::node_comment).set_value("remark"); x.append_child(pugi::node_cdata).set_value("more"); x.append_child(pugi::node_pi).set_name("pi"); }); } }
}
// members whose class nobody registered: nothing is stored for them, the others are
struct UN { int8 a; FxIn q; void ReflectorTag(); }; REFLECTOR_CREATE(UN, 1, VARNAMES, a, q); struct UM { int8 s; UN n[2]; void ReflectorTag(); }; REFLECTOR_CREATE(UM, 1, VARNAMES, s, n); struct UO { int32 a; UN n; UN m[2]; UM k; float b; FxF16 f; FxW e; }; REFLECTOR_CREATE(UO, 1, VARNAMES, a, n, m, k, b, f, e);
MC_SECTION("unregistered classes", 1) {
  RegisterReflectedTypes<UM>(); for (int form = 0; form < 6; form++) for (int how = 0; how < 2; how++) { UO x{}, y{}; x.a = 5; x.b = 2.5f; x.k.s = 9; x.n.a = 1; x.m[1].a = 2; y.n.a = 77; y.m[0].a = 78; y.k.n[1].a = 79; ReflectorWrap<UO> wx(x), wy(y); pugi::xml_document doc, doc2; auto root = doc.append_child("r"); mc::at("form %d", form); mc::state(S("unregistered %d %d", form, how)); mc::trace(); saveX(form, wx, root); if (how && !reparse(doc2, doc, 1)) continue; loadX(form, wy, (how ? doc2 : doc).child("r")); if (y.a != 5 || y.b != 2.5f || y.k.s != 9) mc::fail("unregistered classes", "%s: other members are not restored", formName(form)); if (y.n.a != 77 || y.m[0].a != 78 || y.k.n[1].a != 79) mc::fail("unregistered classes", "%s: their members change", formName(form)); auto nd = (how ? doc2 : doc).child("r"); if (form & 1) nd = nd.first_child(); nd.append_child("n").append_attribute("a").set_value("3"); nd.append_child("m-1").append_child("a").text().set("4"); nd.append_child("f").append_attribute("F1").set_value("true"); nd.append_child("e").text().set("Low"); loadX(form, wy, (how ? doc2 : doc).child("r")); if (y.a != 5 || y.n.a != 77 || y.m[1].a) mc::fail("unregistered classes", "%s: nodes for them", formName(form)); }
}
// arrays of many elements, long names, wide flags: every element comes back, at its own index
REFLECTOR_CREATE(FxF40, ENUM, 2, CLASS, 64, f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26, f27, f28, f29, f30, f31, f32, f33, f34, f35, f36, f37, f38, f39);
struct XIn { int32 a; float b; uint16 l[12]; void ReflectorTag(); }; REFLECTOR_CREATE(XIn, 1, VARNAMES, a, b, l);
typedef es::Flags<FxF40, uint64> XF40; template <int N> struct XLarge { int32 i[N]; uint64 u[N]; bool b[N]; FxA en[N]; float f[N]; Vector v[N]; Vector4 w[N]; XF40 fl[N]; XIn in[N]; int8 quite_a_long_name_that_is_still_one_name_even_when_it_has_an_index_behind_it[N]; XF40 one; int8 last; };
typedef XLarge<13> XL13; typedef XLarge<101> XL101; typedef XLarge<260> XL260; typedef XLarge<603> XL603;
#define XLM(T) REFLECTOR_CREATE(T, 1, VARNAMES, i, u, b, en, f, v, w, fl, in, quite_a_long_name_that_is_still_one_name_even_when_it_has_an_index_behind_it, one, last)
XLM(XL13); XLM(XL101); XLM(XL260); XLM(XL603);
template <class T> static void fillLarge(T &x, int n, int pat) {
  memset((void *)&x, 0, sizeof(x)); static const FxA en[] = {FxA::Alpha, FxA::Beta, FxA::Gamma, FxA::Delta, FxA::Omega};
  for (int e = 0; e < n; e++) { int k = e * 7 + pat; x.i[e] = k * 1009 - 5; x.u[e] = uint64(k) << 40 | uint64(e); x.b[e] = (k + (e >> 3) + (e >> 8)) & 1; x.en[e] = en[(k + (e >> 4)) % 5]; x.f[e] = float(k) * 0.25f; for (int c = 0; c < 3; c++) x.v[e][c] = float(k * 3 + c) * 0.5f; for (int c = 0; c < 4; c++) x.w[e][c] = float(k * 5 + c) - 0.5f; uint64 fl = ((uint64(k) * 0x9e3779b97f4a7c15ull) >> 20) & 0xffffffffffull; memcpy(&x.fl[e], &fl, 8); x.in[e].a = k - 3; x.in[e].b = float(k) + 0.5f; for (int q = 0; q < 12; q++) x.in[e].l[q] = uint16(k * 13 + q); x.quite_a_long_name_that_is_still_one_name_even_when_it_has_an_index_behind_it[e] = int8(k); }
  uint64 fl = pat ? 0xffffffffffull : 0x8000000001ull; memcpy(&x.one, &fl, 8); x.last = int8(pat + 5);
}
template <class T> static void large(const char *nm, int n, uint64_t &idx) {
  for (int form = 0; form < 6; form++) for (int how = 0; how < 3; how++) for (int pat = 0; pat < 2; pat++) { if (!mc::mine(idx++)) continue; std::string what = S("%s filling %d (%s, print %d)", nm, pat, formName(form), how); mc::at("%s", what.c_str()); mc::state(what); mc::trace(); mc::beat();
    std::unique_ptr<T> a(new T), b(new T); fillLarge(*a, n, pat); fillLarge(*b, n, 1 - pat); ReflectorWrap<T> wa(*a), wb(*b); pugi::xml_document doc, doc2; auto root = doc.append_child("r"); saveX(form, wa, root); if (how && !reparse(doc2, doc, how)) continue; loadX(form, wb, (how ? doc2 : doc).child("r"));
#define XLC(M) for (int e = 0; e < n; e++) if (memcmp(&a->M[e], &b->M[e], sizeof(a->M[e]))) { mc::fail(S("many elements: %s", formName(form)).c_str(), "%s: " #M "[%d] is not restored", what.c_str(), e); break; }
    XLC(i) XLC(u) XLC(b) XLC(en) XLC(f) XLC(fl) XLC(in) XLC(quite_a_long_name_that_is_still_one_name_even_when_it_has_an_index_behind_it)
    for (int e = 0; e < n; e++) { bool same = true; for (int c = 0; c < 3; c++) same &= a->v[e][c] == b->v[e][c]; for (int c = 0; c < 4; c++) same &= a->w[e][c] == b->w[e][c]; if (!same) { mc::fail(S("many elements: %s", formName(form)).c_str(), "%s: vector %d is not restored", what.c_str(), e); break; } }
    if (memcmp(&a->one, &b->one, 8) || a->last != b->last) mc::fail(S("many elements: %s", formName(form)).c_str(), "%s: the last members are not restored", what.c_str()); }
}
MC_SECTION("many elements", 8) {
  RegisterReflectedTypes<XIn, FxF40, FxA>(); uint64_t n = 0; large<XL13>("13 elements", 13, n); large<XL101>("101 elements", 101, n); large<XL260>("260 elements", 260, n); large<XL603>("603 elements", 603, n);
}
