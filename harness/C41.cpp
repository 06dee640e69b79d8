// REPO: uni/python/uni_python.cpp datas/matrix44.cpp datas/reflector.cpp datas/master_printer.cpp
// FLAGS: -I{root}/harness/pystub
// VARIANT: asan -O1 -fsanitize=address,undefined -fno-sanitize=vptr
// VARIANT: opt -O2
// RULE: state = distinct (object kind, operation, argument class, outcome) or operation history; transition = one call through a type object's slot; trace = one object graph or history whose every answer, error indicator and reference was checked
// ASSUME: harness/pystub models the Python 2.7 C API these modules use (reference counts, slots, error indicator); no Python 2 is installed
#include "mc.hpp"
#include <Python.h>
#include <algorithm>
#include <cmath>
#include <memory>
#include <stdexcept>
#include "uni/python/pymotion.hpp"
#include "uni/python/pyskeleton.hpp"
#include "uni/rts.hpp"
#include "uni/list_vector.hpp"
#include "datas/matrix44.hpp"
#include "datas/reflector.hpp"
#include "datas/python/matrix44.hpp"
#include "datas/python/vectors.hpp"
#include "datas/python/reflected_enum.hpp"
#include "uni/python/pyrts.hpp"
typedef std::string S;
typedef PyObject *P;
using pystub::rt;
// ---------------------------------------------------------------- a minimal interpreter
static S why; // what is being done, for reports
static bool bad(const S &k, const S &d) { mc::fail(k, "%s: %s", why.c_str(), d.c_str()); return false; }
template <class Fn> static P guarded(Fn &&fn, bool silentNull = false) {
  PyErr_Clear(); P r = nullptr; mc::step();
  try { r = fn(); } catch (std::exception &e) { bad("a C++ exception leaves into the interpreter", e.what()); PyErr_SetString(PyExc_RuntimeError, "escaped"); return nullptr; }
  if (r && PyErr_Occurred()) bad("a result together with an error", rt().errText);
  if (!r && !PyErr_Occurred() && !silentNull) bad("no result and no error", "");
  return r;
}
static P attr(P o, const char *n, bool silentNull = false) {
  auto t = Py_TYPE(o);
  if (t->tp_getattr) return guarded([&] { return t->tp_getattr(o, const_cast<char *>(n)); }, silentNull);
  for (auto b = t; b; b = b->tp_base)
    for (auto g = b->tp_getset; g && g->name; g++)
      if (!strcmp(g->name, n)) { if (!g->get) { bad("attribute cannot be read", n); return nullptr; } return guarded([&] { return g->get(o, g->closure); }); }
  bad("attribute is missing", S(t->tp_name) + "." + n); return nullptr;
}
static bool setAttr(P o, const char *n, P v) {
  PyErr_Clear(); mc::step();
  for (auto g = Py_TYPE(o)->tp_getset; g && g->name; g++)
    if (!strcmp(g->name, n)) {
      int r = -1;
      try { r = g->set(o, v, g->closure); } catch (std::exception &e) { bad("a C++ exception leaves into the interpreter", e.what()); return false; }
      if ((r != 0) != (PyErr_Occurred() != nullptr)) bad("set attribute: result and error indicator disagree", S(n) + " " + std::to_string(r) + " " + rt().errText);
      return r == 0 && !PyErr_Occurred();
    }
  bad("attribute is missing", n); return false;
}
static P call(P o, const char *n, P args) {
  for (auto m = Py_TYPE(o)->tp_methods; m && m->ml_name; m++)
    if (!strcmp(m->ml_name, n)) return guarded([&] { return m->ml_meth(o, args); });
  bad("method is missing", n); return nullptr;
}
static P item(P o, P i) { return guarded([&] { return Py_TYPE(o)->tp_as_mapping->mp_subscript(o, i); }); }
static P item(P o, long i) { P k = PyInt_FromLong(i); P r = item(o, k); Py_DECREF(k); return r; }
static Py_ssize_t len(P o) { mc::step(); PyErr_Clear(); auto s = Py_TYPE(o)->tp_as_sequence; return s && s->sq_length ? s->sq_length(o) : Py_TYPE(o)->tp_as_mapping->mp_length(o); }
static P iter(P o) { return guarded([&] { return Py_TYPE(o)->tp_iter(o); }); }
static P next(P o) { PyErr_Clear(); mc::step(); try { P r = Py_TYPE(o)->tp_iternext(o); if (!r && PyErr_Occurred() && !PyErr_ExceptionMatches(PyExc_StopIteration)) bad("iteration ends with an error", rt().errText); if (!r) PyErr_Clear(); return r; } catch (std::exception &e) { bad("a C++ exception leaves into the interpreter", e.what()); return nullptr; } }
static void drop(P &o) { if (o) Py_DECREF(o); o = nullptr; }
static bool failedWith(P exc) { return PyErr_ExceptionMatches(exc); }
// ---------------------------------------------------------------- values in words
static S num(double d) { char b[40]; snprintf(b, sizeof b, "%.17g", d); return b; }
static S show(P o) {
  if (!o) return "null";
  if (o == Py_None) return "None";
  if (PyFloat_Check(o)) return num(((PyFloatObject *)o)->ob_fval);
  __int128 v; if (PyInt_Check(o) || PyLong_Check(o)) { pystub::number(o, v, false); return v < 0 ? "-" + std::to_string((unsigned long long)-v) : std::to_string((unsigned long long)v); }
  if (PyString_Check(o)) return mc::quote(*((PyStringObject *)o)->ob_str);
  if (PyTuple_Check(o) || PyList_Check(o)) { bool l = PyList_Check(o); S r(1, l ? '[' : '('); for (Py_ssize_t i = 0; i < Py_SIZE(o); i++) r += (i ? "," : "") + show(PyTuple_GET_ITEM(o, i)); return r + (l ? ']' : ')'); }
  return S("<") + Py_TYPE(o)->tp_name + ">";
}
static S take(P o) { S r = show(o); if (o) Py_DECREF(o); return r; }
static S numbers(const float *f, size_t n, size_t group) { S r; for (size_t i = 0; i < n; i++) { if (group && i % group == 0) r += i ? "),(" : "("; else if (i) r += ","; r += num(f[i]); } return "(" + r + (group ? "))" : ")"); }
static void expect(const S &key, const S &got, const S &want) { if (got != want) bad(key, "gives " + got + ", expected " + want); }
// ---------------------------------------------------------------- native objects
static long alive = 0;
struct Counted { Counted() { alive++; } Counted(const Counted &) { alive++; } ~Counted() { alive--; } };
template <class C> struct ListM : uni::List<C>, Counted {
  std::vector<C *> v; bool owning = false; std::function<C *(size_t)> make;
  size_t Size() const override { return v.size(); }
  uni::Element<const C> At(size_t i) const override { if (i >= v.size()) throw std::out_of_range("native index"); if (make) return uni::Element<const C>(make(i)); return {v[i], false}; }
};
struct BoneM : uni::Bone, Counted {
  uni::TransformType tm = uni::TMTYPE_RTS; const uni::Bone *parent = nullptr; size_t id = 0; S name; float base = 0; bool getter = true;
  uni::TransformType TMType() const override { return tm; }
  float c(int i) const { return base + i * 0.5f; }
  void GetTM(uni::RTSValue &o) const override { if (!getter) return uni::Bone::GetTM(o); o = {Vector4A16(c(0), c(1), c(2), c(3)), Vector4A16(c(4), c(5), c(6), c(7)), Vector4A16(c(8), c(9), c(10), c(11))}; }
  void GetTM(esMatrix44 &o) const override { if (!getter) return uni::Bone::GetTM(o); o.r1() = Vector4A16(c(0), c(1), c(2), c(3)); o.r2() = Vector4A16(c(4), c(5), c(6), c(7)); o.r3() = Vector4A16(c(8), c(9), c(10), c(11)); o.r4() = Vector4A16(c(12), c(13), c(14), c(15)); }
  const uni::Bone *Parent() const override { return parent; }
  size_t Index() const override { return id; }
  S Name() const override { return name; }
  S want() const { float f[16]; for (int i = 0; i < 16; i++) f[i] = c(i); return tm == uni::TMTYPE_RTS ? numbers(f, 12, 4) : tm == uni::TMTYPE_MATRIX ? numbers(f, 16, 4) : "None"; }
};
struct SkelM : uni::Skeleton, Counted {
  ListM<uni::Bone> *bones; S name; bool ownList = false; std::function<ListM<uni::Bone> *()> make;
  uni::SkeletonBonesConst Bones() const override { if (make) return uni::SkeletonBonesConst(make()); return {bones, false}; }
  S Name() const override { return name; }
};
struct TrackM : uni::MotionTrack, Counted {
  TrackType_e kind = Position; size_t bone = 0; bool getter = true; int throwAt = -1; mutable int calls = 0;
  TrackType_e TrackType() const override { return kind; }
  size_t BoneIndex() const override { return bone; }
  void maybe() const { if (calls++ == throwAt) throw std::runtime_error("cannot sample"); }
  static float c(int i, float t) { return t * 100 + i * 0.5f; }
  static Vector4A16 v(int i, float t) { return Vector4A16(c(i, t), c(i + 1, t), c(i + 2, t), c(i + 3, t)); }
  void GetValue(uni::RTSValue &o, float t) const override { maybe(); if (!getter) return uni::MotionTrack::GetValue(o, t); o = {v(0, t), v(4, t), v(8, t)}; }
  void GetValue(esMatrix44 &o, float t) const override { maybe(); if (!getter) return uni::MotionTrack::GetValue(o, t); o.r1() = v(0, t); o.r2() = v(4, t); o.r3() = v(8, t); o.r4() = v(12, t); }
  void GetValue(Vector4A16 &o, float t) const override { maybe(); if (!getter) return uni::MotionTrack::GetValue(o, t); o = v(0, t); }
  void GetValue(float &o, float t) const override { maybe(); if (!getter) return uni::MotionTrack::GetValue(o, t); o = c(0, t); }
  S want(float t) const { float f[16]; for (int i = 0; i < 16; i++) f[i] = c(i, t); return kind <= Scale ? numbers(f, 4, 0) : kind == Matrix ? numbers(f, 16, 4) : kind == PositionRotationScale ? numbers(f, 12, 4) : num(f[0]); }
};
struct MotionM : uni::Motion, Counted {
  S name; mutable uint32 rate = 30; float duration = 1.5f; MotionType_e type = Absolute; ListM<uni::MotionTrack> *tracks = nullptr; bool readOnly = false;
  S Name() const override { return name; }
  void FrameRate(uint32 f) const override { if (readOnly) return uni::Motion::FrameRate(f); rate = f; }
  uint32 FrameRate() const override { return rate; }
  float Duration() const override { return duration; }
  uni::MotionTracksConst Tracks() const override { return {tracks, false}; }
  MotionType_e MotionType() const override { return type; }
};
// ---------------------------------------------------------------- bookkeeping around one scenario
static P module() { static PyObject m{1, &PyModule_Type}; static bool once = (UniPy::Motion::InitType(&m), UniPy::Skeleton::InitType(&m), true); (void)once; return &m; }
static PyTypeObject *named(const char *n) { module(); auto f = rt().module.find(n); if (f == rt().module.end()) { bad("the module lacks a type", n); return nullptr; } return f->second.second; }
struct Books {
  long alive0; size_t live0; Py_ssize_t none0;
  Books() { module(); alive0 = alive; live0 = rt().live.size(); none0 = Py_None->ob_refcnt; PyErr_Clear(); }
  void close() {
    PyErr_Clear();
    if (rt().live.size() != live0) { bad("memory of dropped Python objects stays", std::to_string((long)rt().live.size() - (long)live0) + " objects"); }
    if (Py_None->ob_refcnt != none0) bad("references to None do not add up", std::to_string(Py_None->ob_refcnt - none0));
    if (alive != alive0) bad("native objects do not add up", std::to_string(alive - alive0));
    if (!rt().wrong.empty()) { bad("misuse of the interpreter", *rt().wrong.begin()); rt().wrong.clear(); }
    alive = alive0; Py_None->ob_refcnt = none0; mc::trace();
  }
};
static const S names[] = {"", "bone", S("a\0b", 3), "\xc3\xa9 long name over any small buffer, over any small buffer"};
// 1 -------------------------------------------------------------- skeletons
static void skeleton(const std::vector<int> &par, const std::vector<int> &tm, const std::vector<int> &nm, const std::vector<int> &id, bool reparent) {
  static const size_t ids[] = {0, size_t(1) << 32, 255, 0x80000000u, size_t(1) << 40, ~size_t(0) >> 1};
  size_t n = par.size(); std::vector<BoneM> b(n); ListM<uni::Bone> l; SkelM s; s.bones = &l; s.name = names[nm.empty() ? 1 : nm[0] % 4];
  for (size_t i = 0; i < n; i++) { b[i].parent = par[i] == (int)n ? nullptr : &b[par[i]]; b[i].tm = uni::TransformType(tm[i] == 2 ? 7 : tm[i]); b[i].name = names[nm[i]]; b[i].id = ids[id[i]]; b[i].base = 1 + 20.f * i; l.v.push_back(&b[i]); }
  Books bk; (void)reparent;
  P sk = (P)UniPy::Skeleton::Create(uni::Element<const uni::Skeleton>(&s, false));
  if (!sk) { bad("skeleton is not created", ""); return; }
  expect("skeleton name", take(attr(sk, "name")), mc::quote(s.name));
  P bones = attr(sk, "bones"); if (!bones) return;
  expect("number of bones", std::to_string(len(bones)), std::to_string(n));
  std::vector<P> pb;
  for (size_t i = 0; i < n; i++) {
    P o = item(bones, i); if (!o) return; pb.push_back(o);
    expect("bone name", take(attr(o, "name")), mc::quote(b[i].name));
    expect("bone index", take(attr(o, "index")), std::to_string(b[i].id));
    expect("bone transform type", take(attr(o, "tm_type")), std::to_string((int)b[i].tm));
    expect("bone transform", take(attr(o, "transform")), b[i].want());
    P p = attr(o, "parent"); if (!p) return;
    if (!b[i].parent) expect("parent of a root bone", show(p), "None");
    else if (p == Py_None) bad("parent of a bone", "is None");
    else { auto pp = (const BoneM *)b[i].parent; expect("parent's name", take(attr(p, "name")), mc::quote(pp->name)); expect("parent's index", take(attr(p, "index")), std::to_string(pp->id)); expect("parent's transform", take(attr(p, "transform")), pp->want()); }
    drop(p);
  }
  auto cmp = Py_TYPE(pb.empty() ? sk : pb[0])->tp_compare;
  for (size_t i = 0; i < n && cmp; i++) for (size_t j = 0; j < n; j++) { mc::step(); bool same = i == j || (b[i].id == b[j].id && b[i].name == b[j].name); if ((cmp(pb[i], pb[j]) == 0) != same) bad("comparison of bones", same ? "equal bones differ" : "different bones are equal"); }
  drop(sk); // order of release does not matter
  for (auto &o : pb) drop(o);
  drop(bones); bk.close();
  // bk closes before native objects go
}
MC_SECTION("skeletons, every bone forest", 8) {
  uint64_t k = 0; int top = mc::thorough() ? 4 : 3;
  for (int n = 0; n <= top; n++) {
    std::vector<int> z; for (int i = 0; i < n; i++) { z.push_back(n + 1); z.push_back(3); z.push_back(n == 4 ? 1 : 2); z.push_back(n == 4 ? 1 : 2); }
    mc::Odo o(z);
    while (o.next()) { if (!mc::mine(k++)) continue; std::vector<int> p, t, nm, id; for (int i = 0; i < n; i++) { p.push_back(o.v[i * 4]); t.push_back(o.v[i * 4 + 1]); nm.push_back(o.v[i * 4 + 2]); id.push_back(o.v[i * 4 + 3]); } why = "bones " + std::to_string(n); for (int x : o.v) why += " " + std::to_string(x); mc::at("%s", why.c_str()); mc::state(why); skeleton(p, t, nm, id, false); }
  }
  for (int nm = 0; nm < 4; nm++) for (int id = 0; id < 6; id++) for (int tm = 0; tm < 3; tm++) if (mc::mine(k++)) { why = "one bone " + std::to_string(nm) + " " + std::to_string(id) + " " + std::to_string(tm); skeleton({1}, {tm}, {nm}, {id}, false); }
  for (int n0 = 0; n0 < 4; n0++) for (int n1 = 0; n1 < 4; n1++) for (int i0 = 0; i0 < 6; i0++) for (int i1 = 0; i1 < 6; i1++) if (mc::mine(k++)) { why = "two bones " + std::to_string(n0) + std::to_string(n1) + std::to_string(i0) + std::to_string(i1); skeleton({2, 0}, {0, 1}, {n0, n1}, {i0, i1}, false); }
  for (int tm = 0; tm < 2; tm++) if (mc::mine(k++)) { // a bone that tells a transform kind it cannot give
    BoneM b; b.tm = uni::TransformType(tm); b.getter = false; ListM<uni::Bone> l; l.v = {&b}; SkelM s; s.bones = &l; Books bk; why = "bone without transform " + std::to_string(tm);
    P sk = (P)UniPy::Skeleton::Create(uni::Element<const uni::Skeleton>(&s, false)); P bs = attr(sk, "bones"), o = item(bs, 0L); if (!o) return;
    P r = attr(o, "transform"); if (r) bad("a transform that does not exist", show(r)); drop(r); drop(o); drop(bs); drop(sk); bk.close();
  }
}
// 2 -------------------------------------------------------------- tracks
static P pyTime(int c) { switch (c) { case 0: return PyFloat_FromDouble(0.25); case 1: return PyInt_FromLong(3); case 2: return PyLong_FromLong(-2); case 3: return PyFloat_FromDouble(-0.5); case 4: Py_INCREF(Py_None); return Py_None; default: return PyString_FromString("1"); } }
static const float timeOf[] = {0.25f, 3, -2, -0.5f};
MC_SECTION("sampled values", 8) {
  uint64_t k = 0; int top = mc::thorough() ? 5 : 4;
  for (int kind = 0; kind < 7; kind++) for (int n = 0; n <= top; n++) for (int getter = 0; getter < 2; getter++) for (int throwAt = -1; throwAt < n; throwAt++) {
    mc::Odo o(std::vector<int>(n, 6));
    while (o.next()) {
      if (!mc::mine(k++)) continue;
      TrackM t; t.kind = uni::MotionTrack::TrackType_e(kind == 6 ? 9 : kind); t.getter = getter; t.throwAt = throwAt; ListM<uni::MotionTrack> l; l.v = {&t}; MotionM m; m.tracks = &l; Books bk;
      why = "track kind " + std::to_string(kind) + " getter " + std::to_string(getter) + " throws at " + std::to_string(throwAt) + " times"; for (int x : o.v) why += " " + std::to_string(x); mc::at("%s", why.c_str());
      P pm = (P)UniPy::Motion::Create(uni::Element<const uni::Motion>(&m, false)), ts = attr(pm, "tracks"), tk = item(ts, 0L); if (!tk) return;
      P times = PyList_New(n); bool badTime = false; S want = "["; for (int i = 0; i < n; i++) { PyList_SetItem(times, i, pyTime(o.v[i])); if (o.v[i] > 3) badTime = true; else want += (i ? "," : "") + t.want(timeOf[o.v[i]]); } want += "]";
      P args = PyTuple_New(1); Py_INCREF(times); PyTuple_SetItem(args, 0, times);
      P r = call(tk, "get_values", args); bool fails = badTime || (kind < 6 && n && (!getter || throwAt >= 0));
      mc::state(std::to_string(kind) + "/" + std::to_string(fails) + "/" + want);
      if (kind == 6) { if (r && !fails) expect("values of an unknown track", show(r), "None"); if (!r && !fails) bad("values of an unknown track", "error"); if (r && fails) bad("values from times that are no numbers", show(r)); }
      else if (fails) { if (r) bad(badTime ? "values from times that are no numbers" : "values that could not be sampled", show(r)); }
      else expect("sampled values", show(r), want);
      if (badTime && !r && !failedWith(PyExc_TypeError) && (kind == 6 || (getter && throwAt < 0))) bad("kind of error for times that are no numbers", rt().errText);
      drop(r); drop(args); if (Py_REFCNT(times) != 1) bad("references to the argument do not add up", ""); drop(times); drop(ts); drop(pm); drop(tk); bk.close();
    }
  }
  static const size_t bones[] = {0, 1, 0xffffffffu, size_t(1) << 32, ~size_t(0) >> 1, ~size_t(0)};
  for (int kind = 0; kind < 6; kind++) for (auto bn : bones) if (mc::mine(k++)) {
    TrackM t; t.kind = uni::MotionTrack::TrackType_e(kind); t.bone = bn; ListM<uni::MotionTrack> l; l.v = {&t}; MotionM m; m.tracks = &l; Books bk; why = "track kind " + std::to_string(kind) + " bone " + std::to_string(bn);
    P pm = (P)UniPy::Motion::Create(uni::Element<const uni::Motion>(&m, false)), ts = attr(pm, "tracks"), tk = item(ts, 0L); if (!tk) return;
    expect("track kind", take(attr(tk, "track_type")), std::to_string(kind)); expect("track bone", take(attr(tk, "bone_index")), std::to_string(bn));
    for (int a = 0; a < 5; a++) { // arguments of another shape
      P args = PyTuple_New(a == 0 ? 0 : a == 1 ? 2 : 1); if (a == 1) for (int i = 0; i < 2; i++) PyTuple_SetItem(args, i, PyList_New(0)); if (a == 2) PyTuple_SetItem(args, 0, PyTuple_New(2)); if (a == 3) { Py_INCREF(Py_None); PyTuple_SetItem(args, 0, Py_None); } if (a == 4) PyTuple_SetItem(args, 0, PyFloat_FromDouble(1));
      if (a == 2) for (int i = 0; i < 2; i++) PyTuple_SetItem(PyTuple_GET_ITEM(args, 0), i, PyFloat_FromDouble(i));
      why += " args " + std::to_string(a); P r = call(tk, "get_values", args); if (a != 2 && r) bad("values from arguments of another shape", show(r)); drop(r); drop(args);
    }
    drop(tk); drop(ts); drop(pm); bk.close();
  }
  for (int n : {255, 256, 257, 1000, 65535, 65536, 65537}) for (int kind = 0; kind < 6; kind++) if (mc::mine(k++) && (n < 2000 || kind == 5 || mc::thorough())) { // many times
    TrackM t; t.kind = uni::MotionTrack::TrackType_e(kind); ListM<uni::MotionTrack> l; l.v = {&t}; MotionM m; m.tracks = &l; Books bk; why = "kind " + std::to_string(kind) + " many times " + std::to_string(n); mc::at("%s", why.c_str());
    P pm = (P)UniPy::Motion::Create(uni::Element<const uni::Motion>(&m, false)), ts = attr(pm, "tracks"), tk = item(ts, 0L), times = PyList_New(n); for (int i = 0; i < n; i++) PyList_SetItem(times, i, PyFloat_FromDouble(i * 0.25));
    P args = PyTuple_New(1); PyTuple_SetItem(args, 0, times); P r = call(tk, "get_values", args);
    if (!r || !PyList_Check(r) || Py_SIZE(r) != n) bad("number of sampled values", r ? std::to_string(Py_SIZE(r)) : "none"); else for (int i = 0; i < n; i++) { S w = t.want(i * 0.25f), g = show(PyList_GET_ITEM(r, i)); if (w != g) { bad("sampled values", "at " + std::to_string(i) + " gives " + g + ", expected " + w); break; } }
    drop(r); drop(args); drop(tk); drop(ts); drop(pm); bk.close();
  }
}
// 3 -------------------------------------------------------------- motions
static P rateValue(int c) {
  switch (c) { case 0: return PyInt_FromLong(0); case 1: return PyInt_FromLong(60); case 2: return PyLong_FromLong(24); case 3: return PyLong_FromLong(0x7fffffff); case 4: return PyLong_FromLong(0xffffffffL);
  case 5: Py_INCREF(Py_None); return Py_None; case 6: return PyString_FromString("60"); case 7: return nullptr; case 8: return PyLong_FromSize_t(~size_t(0)); case 9: return PyTuple_New(0); default: return PyList_New(0); }
}
static const long rateOf[] = {0, 60, 24, 0x7fffffff, 0xffffffffL};
MC_SECTION("motions and their frame rate", 4) {
  uint64_t k = 0;
  static const float durs[] = {0, 1.5f, -1, 3.4e38f, 0.1f}; static const uint32 rates[] = {0, 1, 30, 0x7fffffffu, 0x80000000u, 0xffffffffu};
  for (auto &nm : names) for (float d : durs) for (uint32 r : rates) for (int ty = 0; ty < 4; ty++) if (mc::mine(k++)) {
    ListM<uni::MotionTrack> l; MotionM m; m.tracks = &l; m.name = nm; m.rate = r; m.duration = d; m.type = uni::Motion::MotionType_e(ty); Books bk; why = "motion " + mc::quote(nm) + " " + num(d) + " " + std::to_string(r) + " " + std::to_string(ty); mc::state(why); mc::at("%s", why.c_str());
    P o = (P)UniPy::Motion::Create(uni::Element<const uni::Motion>(&m, false));
    expect("motion name", take(attr(o, "name")), mc::quote(nm)); expect("motion duration", take(attr(o, "duration")), num(d)); expect("motion frame rate", take(attr(o, "framerate")), std::to_string(r)); expect("motion type", take(attr(o, "motion_type")), std::to_string(ty));
    P ts = attr(o, "tracks"); expect("tracks of a motion without any", ts ? std::to_string(len(ts)) : "none", "0"); drop(ts); drop(o); bk.close();
  }
  for (int i = 0; i < 4; i++) if (mc::mine(k++)) { // objects that belong to Python
    Books bk; why = "owned " + std::to_string(i); ListM<uni::MotionTrack> *l = new ListM<uni::MotionTrack>; P o;
    if (i < 2) { auto m = new MotionM; m->tracks = l; m->name = "own"; o = (P)UniPy::Motion::Create(uni::Element<const uni::Motion>(m)); } else { auto m = new SkelM; m->bones = nullptr; m->name = "own"; o = (P)UniPy::Skeleton::Create(uni::Element<const uni::Skeleton>(m)); }
    if (i & 1) Py_INCREF(o);
    expect("name", take(attr(o, "name")), "\"own\""); if (i & 1) { P t = o; drop(t); expect("name", take(attr(o, "name")), "\"own\""); }
    if (i < 2) { setAttr(o, "framerate", PyInt_FromLong(1)); for (auto x : std::vector<void *>(rt().live.begin(), rt().live.end())) if (Py_TYPE(x) == &PyInt_Type) { P t = (P)x; drop(t); } expect("frame rate after setting", take(attr(o, "framerate")), "1"); }
    drop(o); delete l; bk.close();
  }
  int depth = mc::thorough() ? 4 : 3;
  for (int ro = 0; ro < 2; ro++) for (int n = 1; n <= depth; n++) { mc::Odo o(std::vector<int>(n, 11)); while (o.next()) {
    if (!mc::mine(k++)) continue;
    ListM<uni::MotionTrack> l; MotionM m; m.tracks = &l; m.readOnly = ro; Books bk; long now = 30; why = S(ro ? "read only" : "writable") + " rates"; for (int x : o.v) why += " " + std::to_string(x); mc::at("%s", why.c_str()); mc::state(why);
    P mo = (P)UniPy::Motion::Create(uni::Element<const uni::Motion>(&m, false));
    for (int x : o.v) { P v = rateValue(x); bool ok = setAttr(mo, "framerate", v); drop(v); if (ok != (x < 5 && !ro)) bad(ok ? "frame rate accepted" : "frame rate refused", std::to_string(x)); if (x < 5 && !ro) now = rateOf[x]; expect("frame rate after setting", take(attr(mo, "framerate")), std::to_string(now)); expect("native frame rate", std::to_string(m.rate), std::to_string(now)); }
    drop(mo); bk.close();
  } }
}
// 4 -------------------------------------------------------------- lists
struct Maker { const char *what; P (*list)(int n, bool own); void (*done)(); S (*nameOf)(P); };
static std::vector<std::unique_ptr<uni::Base>> pool;
static S nameOf(P o) { return take(attr(o, "name")); }
static S boneOf(P o) { return take(attr(o, "bone_index")); }
template <class L> static L *keep(L *l) { pool.emplace_back(l); return l; }
static S elementName(int i) { return "n" + std::to_string(i); }
static P boneList(int n, bool own) {
  auto l = keep(new ListM<uni::Bone>), s = l; for (int i = 0; i < n; i++) { auto b = keep(new BoneM); b->name = elementName(i); l->v.push_back(b); }
  if (own) l->make = [l](size_t i) { auto b = new BoneM; b->name = elementName(i); (void)l; return b; };
  auto k = keep(new SkelM); k->bones = s; if (own) k->make = [l] { auto c = new ListM<uni::Bone>(*l); return c; };
  P sk = (P)UniPy::Skeleton::Create(uni::Element<const uni::Skeleton>(k, false)), r = attr(sk, "bones"); drop(sk); return r;
}
static P trackList(int n, bool own) {
  auto l = keep(new ListM<uni::MotionTrack>); for (int i = 0; i < n; i++) { auto t = keep(new TrackM); t->bone = i; l->v.push_back(t); } if (own) l->make = [](size_t i) { auto t = new TrackM; t->bone = i; return t; };
  auto m = keep(new MotionM); m->tracks = l; P o = (P)UniPy::Motion::Create(uni::Element<const uni::Motion>(m, false)), r = attr(o, "tracks"); drop(o); return r;
}
static P motionList(int n, bool own) {
  auto l = new ListM<uni::Motion>; for (int i = 0; i < n; i++) { auto t = keep(new MotionM); t->name = elementName(i); l->v.push_back(t); } if (own) l->make = [](size_t i) { auto t = new MotionM; t->name = elementName(i); return t; }; else keep(l);
  return UniPy::Motion::Create(uni::MotionsConst(l, own));
}
static P skelList(int n, bool own) {
  auto l = new ListM<uni::Skeleton>; for (int i = 0; i < n; i++) { auto t = keep(new SkelM); t->name = elementName(i); l->v.push_back(t); } if (own) l->make = [](size_t i) { auto t = new SkelM; t->name = elementName(i); return t; }; else keep(l);
  return UniPy::Skeleton::Create(uni::SkeletonsConst(l, own));
}
struct Kind { const char *n; P (*make)(int, bool); S (*name)(P); bool numeric; };
static const Kind kinds[] = {{"bones", boneList, nameOf, false}, {"tracks", trackList, boneOf, true}, {"motions", motionList, nameOf, false}, {"skeletons", skelList, nameOf, false}};
static S elementIs(const Kind &k, int i) { return k.numeric ? std::to_string(i) : mc::quote(elementName(i)); }
static P indexValue(int c, int n) {
  switch (c) { case 0: return PyInt_FromLong(n); case 1: return PyInt_FromLong(n + 1); case 2: return PyInt_FromLong(1L << 32); case 3: return PyInt_FromLong(LONG_MAX); case 4: return PyLong_FromLong(n); case 5: return PyLong_FromSize_t(~size_t(0)); case 6: Py_INCREF(Py_None); return Py_None; case 7: return PyString_FromString("0"); case 8: return PyTuple_New(0); case 9: return PyLong_FromSize_t(size_t(1) << 63); case 10: return PyInt_FromLong(-n - 1); case 11: return PyInt_FromLong(LONG_MIN); case 12: return PyInt_FromLong(-n - 2); default: return PyInt_FromLong((1L << 32) + (n ? n - 1 : 0)); }
}
MC_SECTION("list indexes", 4) {
  uint64_t k = 0;
  for (auto &kd : kinds) for (int own = 0; own < 2; own++) for (int n : {0, 1, 2, 3, 4, 255, 256, 257}) if (mc::mine(k++)) {
    pool.clear(); alive = 0; Books bk; P l = kd.make(n, own); if (!l) return;
    why = S(kd.n) + " of " + std::to_string(n) + (own ? " owned" : " borrowed"); mc::state(why);
    expect("length", std::to_string(len(l)), std::to_string(n));
    for (int i = 0; i < n; i++) for (int lg = 0; lg < 2; lg++) { P x = lg ? PyLong_FromLong(i) : PyInt_FromLong(i), e = item(l, x); drop(x); if (!e) { bad("element", "cannot be taken"); continue; } expect("element", kd.name(e), elementIs(kd, i)); drop(e); }
    for (int c = 0; c < 14; c++) { P x = indexValue(c, n); mc::at("%s index %s", why.c_str(), show(x).c_str()); P e = item(l, x); if (e) bad("element outside of the list", show(x)); else if (!failedWith(c >= 6 && c <= 8 ? PyExc_TypeError : PyExc_IndexError) && c != 5 && c != 9) bad("kind of error for an index", show(x) + ": " + rt().errText); else if (!PyErr_Occurred()) bad("no error for an index", show(x)); drop(e); drop(x); PyErr_Clear(); }
    for (int back = 1; back <= n && n < 10; back++) { P e = item(l, -back); if (e) { expect("element counted from the end", kd.name(e), elementIs(kd, n - back)); drop(e); } else if (!failedWith(PyExc_IndexError)) bad("kind of error for a negative index", rt().errText); PyErr_Clear(); }
    for (int twice = 0; twice < 2; twice++) { P it = iter(l); if (!it) return; for (int i = 0; i < n; i++) { P e = next(it); if (!e) { bad("iteration ends early", std::to_string(i)); break; } expect("iterated element", kd.name(e), elementIs(kd, i)); drop(e); } for (int more = 0; more < 2; more++) { P e = next(it); if (e) { bad("iteration goes on past the end", kd.name(e)); drop(e); } } drop(it); }
    drop(l); alive -= pool.size(); bk.close(); alive = 0; pool.clear();
  }
}
MC_SECTION("list histories", 8) {
  // start an iterator (two may be held), advance either, take an element, release iterators and the list, in every order
  uint64_t k = 0; int depth = mc::thorough() ? 7 : 6;
  for (int ki = 0; ki < 4; ki++) for (int own = 0; own < 2; own++) for (int n = 1; n <= 2; n++) {
    auto &kd = kinds[ki]; mc::Odo o(std::vector<int>(depth, 7));
    while (o.next()) {
      if (!mc::mine(k++) || (!mc::thorough() && (ki + own + n + k / 8) % 4)) continue;
      pool.clear(); alive = 0; Books bk; P l = kd.make(n, own), it[2] = {nullptr, nullptr}, el = nullptr; int pos[2] = {0, 0}; if (!l) return;
      why = S(kd.n) + " of " + std::to_string(n) + (own ? " owned:" : " borrowed:"); S st;
      for (int x : o.v) {
        why += " " + std::to_string(x); int w = x & 1;
        if (x < 2) { if (!l) continue; P t = iter(l); drop(it[w]); it[w] = t; pos[w] = 0; if (!t) break; }
        else if (x < 4) { if (!it[w]) continue; P e = next(it[w]); if (pos[w] < n) { if (!e) bad("iteration ends early", std::to_string(pos[w])); else expect("iterated element", kd.name(e), elementIs(kd, pos[w])); pos[w]++; } else if (e) bad("iteration goes on past the end", ""); drop(el); el = e; }
        else if (x < 6) { drop(it[w]); }
        else { if (l && !el) { el = item(l, n - 1L); if (el) expect("element", kd.name(el), elementIs(kd, n - 1)); } else drop(l); }
        st += std::to_string(!!l) + std::to_string(it[0] ? pos[0] + 1 : 0) + std::to_string(it[1] ? pos[1] + 1 : 0) + std::to_string(!!el);
      }
      mc::at("%s", why.c_str()); mc::state(S(kd.n) + std::to_string(n) + std::to_string(own) + st);
      drop(l); drop(it[1]); if (el) kd.name(el); drop(el); drop(it[0]); alive -= pool.size(); bk.close(); alive = 0; pool.clear();
    }
  }
}
// 5 -------------------------------------------------------------- enumerations
struct EnumDef { const char *type; std::vector<std::pair<S, unsigned long>> items; };
static void enumeration(P o, const EnumDef &d) {
  why = d.type; size_t n = d.items.size(); expect("number of enumerators", std::to_string(len(o)), std::to_string(n));
  for (size_t i = 0; i < n; i++) { expect("enumerator name", take(item(o, (long)i)), mc::quote(d.items[i].first)); expect("enumerator value " + d.items[i].first, take(attr(o, d.items[i].first.c_str())), std::to_string(d.items[i].second)); mc::state(d.items[i].first); }
  for (int c = 0; c < 14; c++) { P x = indexValue(c, n); why = S(d.type) + " index " + show(x); mc::at("%s", why.c_str()); P e = item(o, x); if (e) bad("enumerator outside of the enumeration", show(e)); drop(e); drop(x); PyErr_Clear(); }
  std::vector<S> other{"", "invalid", "__class__x", d.items[0].first + "x", d.items[0].first.substr(1), d.items[0].first.substr(0, d.items[0].first.size() - 1)};
  for (auto &i : d.items) { S l = i.first; for (auto &ch : l) ch = tolower(ch); if (l != i.first) other.push_back(l); for (size_t p = 0; p < i.first.size(); p++) { S c = i.first; c[p] ^= 1; other.push_back(c); other.push_back(i.first.substr(0, p)); } }
  for (auto &s : other) { bool known = false; for (auto &i : d.items) known |= i.first == s; if (known) continue; why = S(d.type) + " name " + mc::quote(s); P e = attr(o, s.c_str(), true); if (e) bad("value of an unknown enumerator", show(e)); drop(e); PyErr_Clear(); }
}
REFLECTOR_CREATE(PyEnumA, ENUM, 2, CLASS, 8, A0, B1, C7 = 7, D8)
REFLECTOR_CREATE(PyEnumB, ENUM, 2, CLASS, 32, First = 0x10, Second, Large = 0xfffffff0, Last)
REFLECTOR_CREATE(PyEnumC, ENUM, 2, CLASS, 64, Only = 0x7fffffffffffffff, Over = 0x8000000000000000, All = 0xffffffffffffffff)
REFLECTOR_CREATE(PyEnumD, ENUM, 2, CLASS, 16, Single)
template <class E> static void reflected(const EnumDef &d) { auto t = ReflectedEnumPy<E>::GetType(); if (PyType_Ready(t) < 0) return; expect("name of the type", S(t->tp_name).substr(0, strlen(d.type)), d.type); Books bk; P o = guarded([&] { return t->tp_new(t, nullptr, nullptr); }); if (!o) return; enumeration(o, d); drop(o); bk.close(); }
MC_SECTION("enumerations", 1) {
  typedef uni::MotionTrack T; typedef uni::Motion M;
  static const EnumDef defs[] = {{"uniMotionTrackType", {{"Position", T::Position}, {"Rotation", T::Rotation}, {"Scale", T::Scale}, {"Matrix", T::Matrix}, {"PositionRotationScale", T::PositionRotationScale}, {"SingleFloat", T::SingleFloat}}}, {"uniMotionType", {{"Absolute", M::Absolute}, {"Relative", M::Relative}, {"Additive", M::Additive}, {"Delta", M::Delta}}}, {"uniBoneTMType", {{"TMTYPE_RTS", uni::TMTYPE_RTS}, {"TMTYPE_MATRIX", uni::TMTYPE_MATRIX}}}};
  for (auto &d : defs) { auto t = named(d.type); if (!t) continue; why = d.type; for (int i = 0; i < 2; i++) { Books bk; P o = guarded([&] { return t->tp_new(t, nullptr, nullptr); }); if (!o) return; enumeration(o, d); drop(o); bk.close(); } }
  reflected<PyEnumA>({"PyEnumA", {{"A0", 0}, {"B1", 1}, {"C7", 7}, {"D8", 8}}});
  reflected<PyEnumB>({"PyEnumB", {{"First", 16}, {"Second", 17}, {"Large", 0xfffffff0ul}, {"Last", 0xfffffff1ul}}});
  reflected<PyEnumC>({"PyEnumC", {{"Only", 0x7fffffffffffffffull}, {"Over", 0x8000000000000000ull}, {"All", 0xffffffffffffffffull}}});
  reflected<PyEnumD>({"PyEnumD", {{"Single", 0}}});
}
// 6 -------------------------------------------------------------- module and values
MC_SECTION("types in the module", 1) {
  why = "module"; module();
  for (auto n : {"uniMotionTrackType", "uniMotionType", "uni::MotionTrack", "uni::MotionTrackList", "uni::Motion", "uni::MotionList", "uniBoneTMType", "uni::Bone", "uni::BoneList", "uni::Skeleton", "uni::SkeletonList"}) {
    auto t = named(n); if (!t) continue; expect("type's own name", t->tp_name, n); if (!(t->tp_flags & Py_TPFLAGS_READY)) bad("type is not prepared", n); if (t->ob_refcnt != 2) bad("references to a type", S(n) + " " + std::to_string(t->ob_refcnt)); mc::state(n); mc::trace();
  }
  expect("number of types", std::to_string(rt().module.size()), "11");
  auto same = [&](PyTypeObject *t, const char *n) { if (t != named(n)) bad("type function gives another type", n); };
  same(UniPy::Motion::GetType(), "uni::Motion"); same(UniPy::Motion::GetListType(), "uni::MotionList"); same(UniPy::Skeleton::GetType(), "uni::Skeleton"); same(UniPy::Skeleton::GetListType(), "uni::SkeletonList"); same(UniPy::Bone::GetType(), "uni::Bone"); same(UniPy::MotionTrack::GetType(), "uni::MotionTrack");
}
MC_SECTION("vectors, matrices and transforms", 4) {
  static const float vals[] = {0, 1.5f, -2, 3.4e38f, 1e-40f}; uint64_t k = 0;
  mc::Odo o({5, 5, 5, 5});
  while (o.next()) if (mc::mine(k++)) {
    float f[4]; for (int i = 0; i < 4; i++) f[i] = vals[o.v[i]]; Books bk; why = "vector " + numbers(f, 4, 0); mc::state(why); mc::at("%s", why.c_str()); mc::step(4);
    expect("two components", take(Py_BuildValue(Vector2(f[0], f[1]))), numbers(f, 2, 0)); expect("three components", take(Py_BuildValue(Vector(f[0], f[1], f[2]))), numbers(f, 3, 0));
    expect("four components", take(Py_BuildValue(Vector4(f[0], f[1], f[2], f[3]))), numbers(f, 4, 0)); expect("aligned four components", take(Py_BuildValue(Vector4A16(f[0], f[1], f[2], f[3]))), numbers(f, 4, 0)); bk.close();
  }
  for (int a = 0; a < 16; a++) for (int b = 0; b < 16; b++) for (float x : vals) if (mc::mine(k++)) {
    float f[16]; for (int i = 0; i < 16; i++) f[i] = 100 + i; f[a] = x; f[b] = -x; esMatrix44 m; m.r1() = Vector4A16(f[0], f[1], f[2], f[3]); m.r2() = Vector4A16(f[4], f[5], f[6], f[7]); m.r3() = Vector4A16(f[8], f[9], f[10], f[11]); m.r4() = Vector4A16(f[12], f[13], f[14], f[15]);
    Books bk; why = "matrix " + numbers(f, 16, 4); mc::step(2); expect("matrix", take(Py_BuildValue(m)), numbers(f, 16, 4));
    uni::RTSValue r{Vector4A16(f[0], f[1], f[2], f[3]), Vector4A16(f[4], f[5], f[6], f[7]), Vector4A16(f[8], f[9], f[10], f[11])}; expect("transform", take(Py_BuildValue(r)), numbers(f, 12, 4)); bk.close();
  }
}
// 7 -------------------------------------------------------------- object graphs released in any order
MC_SECTION("object histories", 8) {
  uint64_t k = 0; int depth = mc::thorough() ? 6 : 5;
  for (int own = 0; own < 2; own++) { mc::Odo o(std::vector<int>(depth, 10)); while (o.next()) {
    if (!mc::mine(k++)) continue;
    // registers: 0 skeleton, 1 bones, 2 bone, 3 parent
    std::vector<BoneM> b(2); b[0].name = "root"; b[1].name = "leaf"; b[1].parent = &b[0]; b[1].id = 1; ListM<uni::Bone> l; l.v = {&b[0], &b[1]};
    Books bk; SkelM *s = new SkelM; s->bones = &l; s->name = "s";
    P r[4] = {(P)UniPy::Skeleton::Create(uni::Element<const uni::Skeleton>(s, own)), nullptr, nullptr, nullptr}; int which = -1; why = own ? "owned:" : "borrowed:"; S st;
    for (int x : o.v) {
      why += " " + std::to_string(x);
      if (x < 4) drop(r[x]);
      else if (x == 4) { if (r[0]) { drop(r[1]); r[1] = attr(r[0], "bones"); } }
      else if (x < 7) { if (r[1]) { drop(r[2]); r[2] = item(r[1], x - 5L); which = x - 5; } }
      else if (x == 7) { if (r[2]) { drop(r[3]); r[3] = attr(r[2], "parent"); expect("parent", show(r[3]), which ? "<uni::Bone>" : "None"); } }
      else if (x == 8) { if (r[2]) expect("bone name", take(attr(r[2], "name")), mc::quote(b[which].name)); if (r[3] && r[3] != Py_None) expect("parent's name", take(attr(r[3], "name")), mc::quote("root")); }
      else if (r[1]) { P i = iter(r[1]); P e = i ? next(i) : nullptr; if (e) expect("first bone", take(attr(e, "name")), mc::quote("root")); else bad("iteration ends early", "0"); drop(e); drop(i); }
      for (auto p : r) st += p ? '1' : '0'; st += '0' + which;
    }
    mc::at("%s", why.c_str()); mc::state(std::to_string(own) + st);
    for (auto &p : r) drop(p);
    if (!own) delete s;
    bk.close();
  } }
}
