// LIBS: -lpugixml
// FLAGS: -I{repo}/MAXex
// VARIANT: opt -O2
// VARIANT: asan -O1 -fsanitize=address,undefined -fno-sanitize=vptr
// VARIANT: wide -O1 -DUNICODE -D_UNICODE
// RULE: state = distinct operation history or preset; transition = one real call; trace = one suffix or preset compared with its definition
// ASSUME: the 3ds Max types the helpers use are stood for by a node that is never used and a matrix of three rows; one full colour set per suffix
#include "mc.hpp"
#include "datas/vectors.hpp"
#include "datas/tchar.hpp"
#include "datas/unicode.hpp"
#include "pugixml.hpp"
struct Matrix3 { Vector r[3]; const Vector &operator[](int i) const { return r[i]; } Vector &operator[](int i) { return r[i]; } };
#include "NodeSuffix.h"
#include "hk_preset.hpp"
#include <algorithm>
#include <sstream>
typedef std::string S;
static S narrow(const TSTRING &t) { S s; for (auto c : t) s += char(c); return s; }
struct Model { std::vector<int> ch; bool color = false, full = false, n = false, s = false, m = false; };
static S want(Model m, const char *cls) { S r = cls ? S("(") + cls + "[" : S("["); std::sort(m.ch.begin(), m.ch.end()); if (m.ch.size()) r += "U"; for (int c : m.ch) r += std::to_string(c); if (m.n) r += "N"; if (m.s) r += "S"; if (m.m) r += "M"; return r + "]" + (cls ? ")" : ""); }
static TSTRING wideOf(const char *c) { TSTRING t; while (*c) t.push_back(TCHAR(*c++)); return t; }
static const int IDS[] = {1, 2, 10, 99, -1, 0, 2147483647, -2147483647 - 1};
static void check(INodeSuffixer &x, const Model &m, const S &what) { for (const char *c : {(const char *)nullptr, "", "Box", "a class with a long name, longer than a string keeps in itself"}) { TSTRING cn = c ? wideOf(c) : TSTRING(), keep = cn; S got = narrow(x.Generate(c ? &cn : nullptr)), w = want(m, c); mc::step(); if (got != w) mc::fail("suffix", "%s gives %s expected %s", what.c_str(), got.c_str(), w.c_str()); if (cn != keep) mc::fail("suffix class name", "%s changes the class name", what.c_str()); } std::vector<int> a(x.begin(), x.end()), b = m.ch; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); if (a != b) mc::fail("suffix channels", "%s holds %zu channels expected %zu", what.c_str(), a.size(), b.size()); }
MC_SECTION("suffix histories", 8) { // every history of calls; a suffix taken in between changes nothing
  const int OPS = 13, depth = mc::thorough() ? 6 : 5; uint64_t id = 0;
  for (int d = 0; d <= depth; d++) { mc::Odo o(std::vector<int>(size_t(d), OPS)); while (o.next()) { if (!mc::mine(id++ / 16)) continue; int fulls = 0; for (int v : o.v) fulls += v == 9; if (fulls > 1) continue; S what = "history"; for (int v : o.v) what += " " + std::to_string(v); mc::at("%s", what.c_str()); mc::trace(); mc::state(what); INodeSuffixer x; Model m; if (!d) check(x, m, what);
      for (size_t i = 0; i < o.v.size(); i++) { int v = o.v[i]; mc::step(); if (v < 8) { x.AddChannel(IDS[v]); m.ch.push_back(IDS[v]); } else if (v == 8) { x.AddColor(); if (!m.color) m.ch.push_back(0); m.color = true; } else if (v == 9) { x.AddFullColor(); if (!m.color) m.ch.push_back(0); m.ch.push_back(-2); m.color = true; } else if (v == 10) { x.UseNormals(); m.n = true; } else if (v == 11) { x.UseSkin(); m.s = true; } else { x.UseMorph(); m.m = true; } if (i + 1 == o.v.size() || (d <= 4 && i + 2 == o.v.size())) check(x, m, what); } } mc::beat(); }
}
MC_SECTION("channel numbers", 2) { uint64_t id = 0; for (int a = -130; a <= 130; a++) for (int b : {-100, -2, 0, 1, 9, 10, 100}) { if (!mc::mine(id++)) continue; S what = "channels " + std::to_string(a) + " " + std::to_string(b); mc::at("%s", what.c_str()); mc::trace(); mc::state(what); INodeSuffixer x; Model m; x.AddChannel(a); x.AddChannel(b); m.ch = {a, b}; check(x, m, what); } for (int n = 0; n < 300; n++) { if (!mc::mine(id++)) continue; mc::at("%d channels", n); mc::trace(); INodeSuffixer x; Model m; for (int i = 0; i < n; i++) { int c = (i * 37) % 101; x.AddChannel(c); m.ch.push_back(c); } x.UseMorph(); m.m = true; check(x, m, S("many channels ") + std::to_string(n)); } }
#ifndef MC_VARIANT_wide
struct Preset { float objectScale; Matrix3 corMat; };
static S matrixText(const Matrix3 &m) { S r; for (int i = 0; i < 3; i++) { float e[3] = {m.r[i].X, m.r[i].Y, m.r[i].Z}; for (int k = 0; k < 3; k++) if (e[k] != 0) { if (e[k] < 0) r += "-"; r += "XYZ"[k]; } } return r; }
static void preset(const Preset &p, const S &name, const std::list<S> &exts, const S &what) {
  mc::at("%s", what.c_str()); mc::trace(); mc::state(what); pugi::xml_document doc; auto root = doc.append_child("Root"); root.append_child("Before").append_attribute("k").set_value("v"); Preset keep = p; SaveHKPreset(p, name.c_str(), exts, root); mc::step(); if (memcmp(&keep, &p, sizeof p)) mc::fail("preset source", "%s changed", what.c_str());
  S text = matrixText(p.corMat); mc::step(); if (GetCorrectionMatrix(p.corMat) != text) mc::fail("correction matrix", "%s gives %s expected %s", what.c_str(), GetCorrectionMatrix(p.corMat).c_str(), text.c_str());
  std::stringstream ss; doc.save(ss, "", pugi::format_raw); pugi::xml_document re; re.load_string(ss.str().c_str(), pugi::parse_full | pugi::parse_ws_pcdata);
  for (pugi::xml_document *d : {&doc, &re}) { const char *form = d == &doc ? "built" : "saved"; auto r = d->child("Root"); int kids = 0; for (auto c : r.children()) { (void)c; kids++; } if (kids != 2 || S(r.first_child().name()) != "Before" || S(r.first_child().attribute("k").value()) != "v") mc::fail("preset place", "%s, %s: %d children", what.c_str(), form, kids); auto n = r.child("HavokPreset"); if (S(n.attribute("name").value()) != name) mc::fail("preset name", "%s, %s: %s", what.c_str(), form, mc::quote(n.attribute("name").value()).c_str());
    char sc[64]; snprintf(sc, sizeof sc, "%.6g", double(p.objectScale)); if (S(n.child("scale").text().get()) != sc) mc::fail("preset scale", "%s, %s: %s expected %s", what.c_str(), form, n.child("scale").text().get(), sc); if (S(n.child("matrix").text().get()) != text) mc::fail("preset matrix", "%s, %s: %s expected %s", what.c_str(), form, n.child("matrix").text().get(), text.c_str());
    std::list<S> got; auto ex = n.child("extensions"); if (!ex) mc::fail("preset extensions", "%s, %s: missing", what.c_str(), form); for (auto c : ex.children()) got.push_back(c.name()); if (got != exts) mc::fail("preset extensions", "%s, %s: %zu of %zu", what.c_str(), form, got.size(), exts.size()); int parts = 0; for (auto c : n.children()) { (void)c; parts++; } if (parts != 3) mc::fail("preset parts", "%s, %s: %d", what.c_str(), form, parts); }
}
MC_SECTION("presets", 8) {
  uint64_t id = 0; const float E[] = {0, 1, -1}; { mc::Odo o(std::vector<int>(9, 3)); while (o.next()) { if (!mc::mine(id++)) continue; Preset p; p.objectScale = 1.5f; for (int i = 0; i < 3; i++) p.corMat.r[i] = Vector(E[o.v[size_t(i * 3)]], E[o.v[size_t(i * 3 + 1)]], E[o.v[size_t(i * 3 + 2)]]); S what = "matrix"; for (int v : o.v) what += " " + std::to_string(v); preset(p, "preset", {"hkx", "xml"}, what); } mc::beat(); }
  const float SC[] = {0.f, 1.f, -1.f, 100.f, .01f, 39.3700787f, 1e-7f, 1e10f, 123456.f, 1234567.f, 3.4028235e38f, -3.4028235e38f, 1.17549435e-38f, -1.17549435e-38f, 1e-45f, -1.23456789e-12f}; const S NAMES[] = {"", "a", "Max default", "<&\"'>", "\xc3\xa9", S(300, 'n')}; const std::list<S> EX[] = {{}, {"hkx"}, {"hkx", "hkx"}, {"a", "b", "c"}, {"xml", S(200, 'e'), "_x-1"}};
  for (float s : SC) for (auto &n : NAMES) for (auto &e : EX) for (int m = 0; m < 3; m++) { if (!mc::mine(id++)) continue; Preset p; p.objectScale = s; for (int i = 0; i < 3; i++) { float v[3] = {0, 0, 0}; if (m) v[(i + m) % 3] = m == 1 ? .25f : -1e-30f; p.corMat.r[i] = Vector(v[0], v[1], v[2]); } char b[64]; snprintf(b, sizeof b, "scale %g matrix %d", double(s), m); preset(p, n, e, S(b) + " name " + mc::quote(n.substr(0, 20)) + " " + std::to_string(e.size()) + " extensions"); }
}
#endif
