// REPO: datas/reflector.cpp datas/master_printer.cpp
// VARIANT: opt -O2
// VARIANT: asan -O1 -fsanitize=address
// RULE: state = distinct (addressed member, index, element, text, object filling); transition = one reflective set on the real object; trace = one set after which every byte of the object is compared with the state before
#include "reflfix.hpp"
struct ReflectedInstanceFriend : ReflectedInstance { const void *Instance() const { return constInstance; } };
enum { ANY = 100 };  // expected error not judged beyond being an error
struct TV { std::string text; bool judged; std::string bytes; int err; };  // bytes: content expected afterwards when judged ("" = unchanged)
static std::string num(int size, uint64_t v) { return std::string((const char *)&v, size_t(size)); }
static std::string flt(int size, double v) { float f = float(v); return size == 8 ? std::string((const char *)&v, 8) : std::string((const char *)&f, 4); }
static std::vector<TV> values(const TypeInfo &t) {
  std::vector<TV> r; auto add = [&](std::string s, std::string b, ET e) { r.push_back({s, true, b, int(e)}); }; auto open = [&](std::string s, int e = ANY) { r.push_back({s, false, "", e}); };
  int n = t.size; uint64_t um = n == 8 ? ~0ULL : (1ULL << n * 8) - 1;
  switch (t.kind) {
  case kBool: add("true", num(1, 1), ET::None); add(" FALSE", num(1, 0), ET::None); open("maybe", int(ET::InvalidFormat)); open("", ANY); open("t", ANY); break;
  case kInt: add("17", num(n, 17), ET::None); add("-3", num(n, uint64_t(-3)), ET::None); add("0x1f", num(n, 31), ET::None); add("99999999999999999999999", num(n, um >> 1), ET::OutOfRange); add("-99999999999999999999999", num(n, (um >> 1) + 1), ET::OutOfRange); add("zz", "", ET::InvalidFormat); open("", ANY); break;
  case kUInt: add("17", num(n, 17), ET::None); add("-3", num(n, uint64_t(-3)), ET::SignMismatch); add("0x1f", num(n, 31), ET::None); add("99999999999999999999999", num(n, um), ET::OutOfRange); add("zz", "", ET::InvalidFormat); open("", ANY); break;
  case kFloat: add("2.5", flt(n, 2.5), ET::None); add(" -0.125", flt(n, -0.125), ET::None); add("1e999", flt(n, n == 4 ? double(std::numeric_limits<float>::max()) : std::numeric_limits<double>::max()), ET::OutOfRange); add("zz", "", ET::InvalidFormat); open("", ANY); break;
  case kEnum: for (auto &e : fxEnum(t.en)) { add(e.n, num(n, e.v), ET::None); add(std::string("  ") + e.n + " ", num(n, e.v), ET::None); } add("Nothing", "", ET::InvalidFormat); add("", "", ET::EmptyInput); break;
  case kFlags: { auto l = fxEnum(t.en); std::string all; uint64_t v = 0; for (auto &e : l) { add(e.n, num(n, 1ULL << e.v), ET::None); all += (all.empty() ? "" : " | ") + std::string(e.n); v |= 1ULL << e.v; } add(all, num(n, v), ET::None); add("NULL", num(n, 0), ET::None); open("Nothing", int(ET::InvalidFormat)); open(all + " | bad", int(ET::InvalidFormat)); open("|", int(ET::EmptyInput)); break; }
  case kVec: { std::string s = "[", b; for (int i = 0; i < t.comps; i++) { s += (i ? ", " : "") + std::to_string(3 + i * 2); b += t.ck == kFloat ? flt(t.csize, 3 + i * 2) : num(t.csize, uint64_t(3 + i * 2)); } add(s + "]", b, ET::None); add("  " + s + "]", b, ET::None); open(s + ", 77]", int(ET::OutOfRange)); open(s + ", 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90]", int(ET::OutOfRange)); add(s, "", ET::InvalidFormat); add("3, 5]", "", ET::InvalidFormat); add("zz", "", ET::InvalidFormat); add("][", "", ET::InvalidFormat); add("[]", "", ET::EmptyInput); open("[1, , 2]", int(ET::ShortInput)); open("[x, 1]"); open("[[[1, 2]]]"); open("[,,,,,,,,,,,,]"); open("", ANY); break; }
  case kStr: add("text", "text", ET::None); add("a much longer text that has to live on the heap, with [braces] {in} (it)", "a much longer text that has to live on the heap, with [braces] {in} (it)", ET::None); add("", "", ET::None); break;
  default: open("1"); open("{1, 2}"); open("SUBCLASS_TYPE"); open(""); open("true"); break;
  }
  return r;
}
static std::vector<TV> wholeValues(const Mem &m) {
  if (!m.arr) return values(m.t);
  std::vector<TV> r; bool settable = !isClassKind(m.t.kind) && m.t.kind != kCStr; auto ev = values(m.t);
  if (!settable) { for (auto &e : ev) { r.push_back({e.text, false, "", ANY}); std::string s = "{"; for (int i = 0; i < m.count; i++) s += (i ? ", " : "") + e.text; r.push_back({s + "}", false, "", ANY}); } return r; }
  for (auto &e : ev) { if (e.text.find_first_of(m.t.kind == kStr ? ",[{(" : "{") != std::string::npos) continue;
    std::string s, b; for (int i = 0; i < m.count; i++) { s += (i ? ", " : "") + e.text; b += e.bytes; }
    bool good = e.judged && e.err == int(ET::None) && !(e.text.empty()) && e.text.back() != ' ';
    if (good && m.t.kind != kStr) { int pad = m.t.size - int(e.bytes.size()); if (pad) good = false; }
    r.push_back({"{" + s + "}", good && m.t.kind != kStr, b, good ? int(ET::None) : ANY}); r.push_back({"{" + s + ", " + e.text + "}", false, "", ANY}); std::string many; for (int i = 0; i < 40; i++) many += (i ? "," : "") + e.text; r.push_back({"{" + many + "}", false, "", ANY}); r.push_back({"{" + e.text + "}", false, "", ANY}); r.push_back({s, false, "", ANY}); r.push_back({"{" + s, false, "", ANY});
  }
  for (auto t : {"", "{}", "{", "}", "}{", "{,}", "{ }", "{{{{", "{\"", "{(}", "{[}", "zz", "{[1, 2}, 3]"}) r.push_back({t, false, "", ANY});
  return r;
}
// performs a set on both fillings and judges it; lo/hi: bytes that may change (lo == hi: none), must: an error is required
static void run(const char *what, const std::string &desc, int lo, int hi, bool refuse, const TV *v, const std::function<ET(Reflector &)> &f, int strAt = -1) {
  for (int pat = 0; pat < 2; pat++) {
    FxObj o(pat); Snap before(*o.p); ReflectorWrap<Fx> r(*o.p); mc::at("%s over filling %d", desc.c_str(), pat); mc::state(mc::hashBytes(desc.data(), desc.size(), uint64_t(pat) + 7)); mc::step(); ET e = f(r); mc::trace(); Snap after(*o.p);
    int d = before.diff(after, lo, hi); if (d >= 0) { mc::fail(std::string(what) + ": another member changed", "%s over filling %d returns %s and changes %s", desc.c_str(), pat, en(e), fxWhere(d).c_str()); continue; }
    if (refuse) { if (e == ET::None) mc::fail(std::string(what) + ": nothing to set, success reported", "%s over filling %d returns None although it addresses nothing that can be set", desc.c_str(), pat); continue; }
    if (!v) continue;
    if (v->judged) {
      std::string want = v->bytes; bool same = strAt >= 0;
      if (int(e) != v->err) { mc::fail(std::string(what) + ": result", "%s over filling %d returns %s, expected %s", desc.c_str(), pat, en(e), en(ET(v->err))); continue; }
      std::string got; if (strAt >= 0) { got = *reinterpret_cast<std::string *>((char *)o.p + strAt); if (v->err != int(ET::None)) want = *reinterpret_cast<std::string *>((char *)o.p + strAt); } else { if (want.empty()) want = before.bytes.substr(size_t(lo), size_t(hi - lo)); got = after.bytes.substr(size_t(lo), want.size()); }
      if (got != want) mc::fail(std::string(what) + ": content", "%s over filling %d: the member holds %s, expected %s", desc.c_str(), pat, same ? mc::quote(got).c_str() : mc::hex(got).c_str(), same ? mc::quote(want).c_str() : mc::hex(want).c_str());
    } else if (v->err == ANY ? false : int(e) != v->err) mc::fail(std::string(what) + ": result", "%s over filling %d returns %s, expected %s", desc.c_str(), pat, en(e), en(ET(v->err)));
  }
}
static const size_t IDX[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 15, 16, 31, 32, 63, 64, 127, 255, 256, 257, 65535, 65536, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000ULL, 0x1000000000000000ULL, 0x2000000000000000ULL, 0x4000000000000000ULL, 0x8000000000000000ULL, 0x8000000000000001ULL, ~0ULL - 1, ~0ULL};
static std::string S(const char *f, ...) { char b[600]; va_list a; va_start(a, f); vsnprintf(b, 600, f, a); va_end(a); return b; }
MC_SECTION("whole members by number and name", 4) {
  fxRegister(); auto &ms = fxMembers(); uint64_t n = 0;
  for (size_t i = 0; i < ms.size(); i++) { auto &m = ms[i]; bool no = isClassKind(m.t.kind) || m.t.kind == kCStr;
    for (auto &v : wholeValues(m)) { if (!mc::mine(n++)) continue; for (int byName = 0; byName < 2; byName++) {
      int sa = m.t.kind == kStr && !m.arr ? m.off : -1; run("whole set", S("%s%s = %s", byName ? "name " : "", m.name, mc::quote(v.text).c_str()), no ? 0 : m.off, no ? 0 : m.off + m.size, no, &v, [&](Reflector &r) { return byName ? r.SetReflectedValue(JenHash(es::string_view(m.name)), v.text) : r.SetReflectedValue(i, v.text); }, sa); } }
  }
}
MC_SECTION("one index", 8) {
  fxRegister(); auto &ms = fxMembers(); uint64_t n = 0;
  for (size_t i = 0; i < ms.size(); i++) { auto &m = ms[i];
    TypeInfo et = m.t; int lim = m.arr ? m.count : 0, es = m.t.size; bool isFlag = false;
    if (!m.arr && m.t.kind == kVec) { et = TypeInfo{m.t.ck, m.t.csize, 0, m.t.ck, 0, 0, ""}; lim = m.t.comps; es = m.t.csize; }
    if (!m.arr && m.t.kind == kFlags) { lim = m.t.size * 8; isFlag = true; et = TypeInfo{kBool, 1, 0, kBool, 0, 0, ""}; }
    bool no = isClassKind(et.kind) || et.kind == kCStr; auto vals = values(et);
    for (size_t idx : IDX) for (auto &v : vals) { if (!mc::mine(n++)) continue; for (int byName = 0; byName < 2; byName++) {
          bool ok = idx < size_t(lim) && !no; int lo = ok ? isFlag ? m.off : m.off + int(idx) * es : 0, hi = ok ? isFlag ? m.off + m.size : lo + es : 0; TV vv = v; if (isFlag) vv.judged = false, vv.err = v.err;
          int sa = ok && et.kind == kStr ? lo : -1; std::string d = S("%s%s[%zu] = %s", byName ? "name " : "", m.name, idx, mc::quote(v.text).c_str());
          run("indexed set", d, lo, hi, !ok, &vv, [&](Reflector &r) { return byName ? r.SetReflectedValue(JenHash(es::string_view(m.name)), v.text, idx) : r.SetReflectedValue(i, v.text, idx); }, sa);
          if (ok && isFlag && v.judged) for (int pat = 0; pat < 2; pat++) { FxObj o(pat); ReflectorWrap<Fx> r(*o.p); uint64_t b0 = 0, b1 = 0; memcpy(&b0, (char *)o.p + m.off, size_t(m.size)); ET e = byName ? r.SetReflectedValue(JenHash(es::string_view(m.name)), v.text, idx) : r.SetReflectedValue(i, v.text, idx); memcpy(&b1, (char *)o.p + m.off, size_t(m.size)); uint64_t w = v.bytes[0] ? b0 | 1ULL << idx : b0 & ~(1ULL << idx); mc::step(); if (b1 != w || e != ET::None) mc::fail("flag bit set", "%s over filling %d turns %llx into %llx, expected %llx, returns %s", d.c_str(), pat, (unsigned long long)b0, (unsigned long long)b1, (unsigned long long)w, en(e)); }
        } }
  }
}
MC_SECTION("index and element", 8) {
  fxRegister(); auto &ms = fxMembers(); uint64_t n = 0;
  for (size_t i = 0; i < ms.size(); i++) { auto &m = ms[i]; bool vecs = m.arr && m.t.kind == kVec; TypeInfo et = vecs ? TypeInfo{m.t.ck, m.t.csize, 0, m.t.ck, 0, 0, ""} : TypeInfo{kInt, 4, 0, kInt, 0, 0, ""};
    auto vals = values(et); bool flagArr = m.arr && m.t.kind == kFlags;
    for (size_t a : IDX) for (size_t b : IDX) { if (!mc::mine(n++)) continue; for (auto &v : vals) { if (v.text.empty()) continue;
          bool ok = vecs && a < size_t(m.count) && b < size_t(m.t.comps); int lo = ok ? m.off + int(a) * m.t.size + int(b) * m.t.csize : 0, hi = ok ? lo + m.t.csize : 0;
          if (flagArr && a < size_t(m.count)) { lo = m.off + int(a) * m.t.size; hi = lo + m.t.size; run("flag array element set", S("%s[%zu][%zu] = %s", m.name, a, b, mc::quote(v.text).c_str()), lo, hi, false, nullptr, [&](Reflector &r) { return r.SetReflectedValue(i, v.text, a, b); }); continue; }
          int byName = int((a + b) & 1); run("element set", S("%s%s[%zu][%zu] = %s", byName ? "name " : "", m.name, a, b, mc::quote(v.text).c_str()), lo, hi, !ok, &v, [&](Reflector &r) { return byName ? r.SetReflectedValue(JenHash(es::string_view(m.name)), v.text, a, b) : r.SetReflectedValue(i, v.text, a, b); }); } }
  }
}
MC_SECTION("typed setters", 4) {
  fxRegister(); auto &ms = fxMembers(); uint64_t n = 0;
  for (size_t i = 0; i < ms.size(); i++) { auto &m = ms[i]; TypeInfo et = m.t; int lim = m.arr ? m.count : 1, es = m.t.size; bool vec = !m.arr && m.t.kind == kVec; if (vec) { et = TypeInfo{m.t.ck, m.t.csize, 0, m.t.ck, 0, 0, ""}; lim = m.t.comps; es = m.t.csize; }
    for (size_t idx : IDX) for (int api = 0; api < 3; api++) for (int byName = 0; byName < 2; byName++) { if (!mc::mine(n++)) continue;
          Kind k = api == 0 ? kInt : api == 1 ? kUInt : kFloat; bool ok = et.kind == k && idx < size_t(lim); int lo = ok ? m.off + int(idx) * es : 0, hi = ok ? lo + es : 0; JenHash h{es::string_view(m.name)};
          TV v{"", true, !ok ? std::string() : api == 2 ? flt(es, -6.5) : num(es, 0x1122334455667741ULL), int(ET::None)};
          run("typed set", S("%s(%s%s, %zu)", api == 0 ? "Int" : api == 1 ? "UInt" : "Float", byName ? "name " : "", m.name, idx), lo, hi, !ok, ok ? &v : nullptr, [&](Reflector &r) { return api == 0 ? (byName ? r.SetReflectedValueInt(h, 0x1122334455667741LL, idx) : r.SetReflectedValueInt(i, 0x1122334455667741LL, idx)) : api == 1 ? (byName ? r.SetReflectedValueUInt(h, 0x1122334455667741ULL, idx) : r.SetReflectedValueUInt(i, 0x1122334455667741ULL, idx)) : byName ? r.SetReflectedValueFloat(h, -6.5, idx) : r.SetReflectedValueFloat(i, -6.5, idx); });
        }
  }
}
MC_SECTION("unknown members", 1) {
  fxRegister(); const size_t N = fxMembers().size(); size_t ids[] = {N, N + 1, N + 100, 255, 256, 256 + 3, 65536 + 3, 0x100000000ULL, ~0ULL}; const char *names[] = {"", "B", "I8", "nope", " b", "b ", "str0", "Fx", "a", "fxb0", "cs\x01"};
  for (auto id : ids) for (auto t : {"1", "true", "{1, 2}", "text"}) for (size_t x : {size_t(0), size_t(1), ~size_t(0)}) for (int k = 0; k < 6; k++) run("unknown number", S("member number %zu, form %d, %s, %zu", id, k, t, x), 0, 0, true, nullptr, [&](Reflector &r) { return k == 0 ? r.SetReflectedValue(id, t) : k == 1 ? r.SetReflectedValue(id, t, x) : k == 2 ? r.SetReflectedValue(id, t, x, x) : k == 3 ? r.SetReflectedValueInt(id, 5, x) : k == 4 ? r.SetReflectedValueUInt(id, 5, x) : r.SetReflectedValueFloat(id, 5, x); });
  for (auto nm : names) for (auto t : {"1", "true", "{1, 2}", "text"}) for (size_t x : {size_t(0), size_t(1), ~size_t(0)}) for (int k = 0; k < 6; k++) { JenHash h{es::string_view(nm)}; run("unknown name", S("member name %s, form %d, %s, %zu", mc::quote(nm).c_str(), k, t, x), 0, 0, true, nullptr, [&](Reflector &r) { return k == 0 ? r.SetReflectedValue(h, t) : k == 1 ? r.SetReflectedValue(h, t, x) : k == 2 ? r.SetReflectedValue(h, t, x, x) : k == 3 ? r.SetReflectedValueInt(h, 5, x) : k == 4 ? r.SetReflectedValueUInt(h, 5, x) : r.SetReflectedValueFloat(h, 5, x); }); }
}
// members of nested objects, reached through the outer one
struct Leaf { const char *path; int sub[2]; const char *cls; size_t id[2]; size_t member; int off, size; int bitPos, bitSize; const char *text; std::string bytes; };
MC_SECTION("members of nested objects", 2) {
  fxRegister(); auto &ms = fxMembers(); uint64_t n = 0; auto idOf = [&](const char *s) { for (size_t i = 0; i < ms.size(); i++) if (!strcmp(ms[i].name, s)) return i; return ~size_t(0); };
  auto nested = [&](std::string desc, int lo, int hi, uint64_t mask, uint64_t val, const std::function<ET(Reflector &)> &f, bool isStr = false) {
    if (!mc::mine(n++)) return; run("nested set", desc, lo, hi, false, nullptr, f);
    for (int pat = 0; pat < 2; pat++) { FxObj o(pat); uint64_t b0 = 0, b1 = 0; if (isStr) { ReflectorWrap<Fx> r(*o.p); f(r); if (*reinterpret_cast<std::string *>((char *)o.p + lo) != "x y") mc::fail("nested string", "%s: the string holds %s", desc.c_str(), mc::quote(*reinterpret_cast<std::string *>((char *)o.p + lo)).c_str()); continue; }
      memcpy(&b0, (char *)o.p + lo, size_t(hi - lo)); ReflectorWrap<Fx> r(*o.p); ET e = f(r); memcpy(&b1, (char *)o.p + lo, size_t(hi - lo)); mc::step(); uint64_t w = (b0 & ~mask) | (val & mask); if (b1 != w || e != ET::None) mc::fail("nested content", "%s over filling %d: storage %llx becomes %llx, expected %llx, returns %s", desc.c_str(), pat, (unsigned long long)b0, (unsigned long long)b1, (unsigned long long)w, en(e)); } };
  auto setIn = [&](const char *m, size_t idx, int base) {
    size_t id = idOf(m); nested(S("%s[%zu].a = 77", m, idx), base + int(offsetof(FxIn, a)), base + int(offsetof(FxIn, a)) + 4, 0xffffffff, 77, [&, id, idx](Reflector &r) { auto s = r.GetReflectedSubClass(id, idx); ReflectorPureWrap w(s); return w.SetReflectedValue("a", "77"); });
    float f = -8.5f; uint32_t fb; memcpy(&fb, &f, 4); nested(S("%s[%zu].b = -8.5", m, idx), base + int(offsetof(FxIn, b)), base + int(offsetof(FxIn, b)) + 4, 0xffffffff, fb, [&, id, idx](Reflector &r) { auto s = r.GetReflectedSubClass(JenHash(es::string_view(ms[id].name)), idx); ReflectorPureWrap w(s); return w.SetReflectedValueFloat(size_t(1), -8.5); }); };
  setIn("in", 0, offsetof(Fx, in)); for (int k = 0; k < 3; k++) setIn("ain", size_t(k), int(offsetof(Fx, ain) + size_t(k) * sizeof(FxIn)));
  const int P[] = {0, 3, 9, 10}, Z[] = {3, 6, 1, 6}; const char *bn[] = {"fxb0", "fxb1", "fxb2", "fxb3"};
  auto setBits = [&](const char *m, size_t idx, int base) { size_t id = idOf(m); for (int b = 0; b < 4; b++) for (int v : {0, 1, (1 << Z[b]) - 1}) nested(S("%s[%zu].%s = %d", m, idx, bn[b], v), base, base + 2, ((1ull << Z[b]) - 1) << P[b], uint64_t(v) << P[b], [&, id, idx, b, v](Reflector &r) { auto s = r.GetReflectedSubClass(id, idx); ReflectorPureWrap w(s); return w.SetReflectedValue(JenHash(es::string_view(bn[b])), std::to_string(v)); }); };
  setBits("bits", 0, offsetof(Fx, bits)); for (int k = 0; k < 3; k++) setBits("abits", size_t(k), int(offsetof(Fx, abits) + size_t(k) * sizeof(FxBits)));
  const int SP[] = {0, 5, 25}, SZ[] = {5, 20, 7}; for (int b = 0; b < 3; b++) for (int v : {0, -1, 5, -7, (1 << (SZ[b] - 1)) - 1, -(1 << (SZ[b] - 1))}) nested(S("sbits.%d = %d", b, v), offsetof(Fx, sbits), offsetof(Fx, sbits) + 4, ((1ull << SZ[b]) - 1) << SP[b], uint64_t(int64_t(v)) << SP[b], [&, b, v](Reflector &r) { auto s = r.GetReflectedSubClass("sbits"); ReflectorPureWrap w(s); return w.SetReflectedValue(size_t(b), std::to_string(v)); });
  // two levels
  auto two = [&](const char *m, size_t idx, int base) { size_t id = idOf(m); for (size_t k = 0; k < 2; k++) { int o = base + int(offsetof(FxMid, in) + k * sizeof(FxIn)); nested(S("%s[%zu].in[%zu].a = -5", m, idx, k), o, o + 4, 0xffffffff, uint32_t(-5), [&, id, idx, k](Reflector &r) { auto s = r.GetReflectedSubClass(id, idx); ReflectorPureWrap w(s); auto s2 = w.GetReflectedSubClass("in", k); ReflectorPureWrap w2(s2); return w2.SetReflectedValueInt("a", -5); }); }
    nested(S("%s[%zu].bits.fxb1 = 33", m, idx), base + int(offsetof(FxMid, bits)), base + int(offsetof(FxMid, bits)) + 2, 63u << 3, 33u << 3, [&, id, idx](Reflector &r) { auto s = r.GetReflectedSubClass(id, idx); ReflectorPureWrap w(s); auto s2 = w.GetReflectedSubClass("bits"); ReflectorPureWrap w2(s2); return w2.SetReflectedValue("fxb1", "33"); });
    nested(S("%s[%zu].tail = 500", m, idx), base + int(offsetof(FxMid, tail)), base + int(offsetof(FxMid, tail)) + 2, 0xffff, 500, [&, id, idx](Reflector &r) { auto s = r.GetReflectedSubClass(id, idx); ReflectorPureWrap w(s); return w.SetReflectedValueUInt("tail", 500); });
    nested(S("%s[%zu].t = -100", m, idx), base + int(offsetof(FxMid, t)), base + int(offsetof(FxMid, t)) + 1, 0xff, uint8(-100), [&, id, idx](Reflector &r) { auto s = r.GetReflectedSubClass(id, idx); ReflectorPureWrap w(s); return w.SetReflectedValue(size_t(0), "-100"); }); };
  two("mid", 0, offsetof(Fx, mid)); two("amid", 0, offsetof(Fx, amid)); two("amid", 1, int(offsetof(Fx, amid) + sizeof(FxMid)));
  nested("sub.s = x y", offsetof(Fx, sub) + offsetof(FxStr, s), offsetof(Fx, sub) + offsetof(FxStr, s) + sizeof(std::string), 0, 0, [&](Reflector &r) { auto s = r.GetReflectedSubClass("sub"); ReflectorPureWrap w(s); return w.SetReflectedValue("s", "x y"); }, true);
  // no instance for anything that is not a nested object, nor past the end of an array
  FxObj o(1); ReflectorWrap<Fx> r(*o.p);
  for (size_t i = 0; i < ms.size(); i++) for (size_t idx : IDX) { auto &m = ms[i]; const void *w = isClassKind(m.t.kind) && idx < size_t(m.count) ? (char *)o.p + m.off + idx * size_t(m.t.size) : nullptr; for (int form = 0; form < 3; form++) { auto s = form == 0 ? r.GetReflectedSubClass(i, idx) : form == 1 ? r.GetReflectedSubClass(JenHash(es::string_view(m.name)), idx) : static_cast<const Reflector &>(r).GetReflectedSubClass(i, idx); mc::step(); if (static_cast<ReflectedInstanceFriend &>(s).Instance() != w) mc::fail("sub object", "%s[%zu] (form %d) gives the object at %p, expected %p (outer object at %p)", m.name, idx, form, static_cast<ReflectedInstanceFriend &>(s).Instance(), w, (void *)o.p); } }
}
MC_SECTION("pairs of sets", 4) {
  // every ordered pair of whole-member sets: the first survives the second
  fxRegister(); auto &ms = fxMembers(); uint64_t n = 0;
  for (size_t i = 0; i < ms.size(); i++) for (size_t j = 0; j < ms.size(); j++) { if (i == j || !mc::mine(n++)) continue; auto &a = ms[i], &b = ms[j]; if (isClassKind(a.t.kind) || a.t.kind == kCStr || isClassKind(b.t.kind) || b.t.kind == kCStr) continue;
      auto va = wholeValues(a), vb = wholeValues(b); if (va.size() > 3) va.resize(3); if (vb.size() > 6) vb.resize(6);
      for (auto &x : va) { FxObj o(int(i & 1)); ReflectorWrap<Fx> r(*o.p); r.SetReflectedValue(i, x.text); Snap s1(*o.p); std::string t1 = r.GetReflectedValue(i); for (auto &y : vb) { mc::at("%s = %s then %s = %s", a.name, x.text.c_str(), b.name, y.text.c_str()); mc::state(mc::mix(i * 1000 + j) ^ mc::hashBytes(x.text.data(), x.text.size()) ^ mc::hashBytes(y.text.data(), y.text.size(), 5)); r.SetReflectedValue(JenHash(es::string_view(b.name)), y.text); mc::step(2); mc::trace(); Snap s2(*o.p); int d = s1.diff(s2, b.off, b.off + b.size); if (d >= 0 || r.GetReflectedValue(i) != t1) { mc::fail("pair", "%s = %s, then %s = %s changes %s", a.name, mc::quote(x.text).c_str(), b.name, mc::quote(y.text).c_str(), fxWhere(d).c_str()); break; } } } }
}
// every arrangement of elements, separators and brackets: never beyond the addressed member
MC_SECTION("arrangements of list texts", 8) {
  fxRegister(); auto &ms = fxMembers(); uint64_t n = 0; const int L = mc::thorough() ? 7 : 5;
  for (size_t i = 0; i < ms.size(); i++) { auto &m = ms[i]; if (isClassKind(m.t.kind) || m.t.kind == kCStr) continue; bool vec = !m.arr && m.t.kind == kVec; if (!m.arr && !vec && m.t.kind != kFlags) continue;
    Kind k = m.t.kind == kVec && vec ? m.t.ck : m.t.kind; std::string el = k == kBool ? "true" : k == kEnum || k == kFlags ? fxEnum(m.t.en).back().n : k == kStr ? "s" : k == kVec ? "[1, 2]" : "7";
    const char open = vec ? '[' : m.arr ? '{' : 0, close = vec ? ']' : '}'; const std::string tok[] = {el, ",", " ", m.arr ? "[" : "|", m.arr ? "]" : "\"", "}"}; 
    for (int len = 0; len <= L; len++) { uint64_t tot = 1; for (int q = 0; q < len; q++) tot *= 6; for (uint64_t c = 0; c < tot; c++) { if (!mc::mine(n++)) continue; std::string s; uint64_t x = c; for (int q = 0; q < len; q++) { s += tok[x % 6]; x /= 6; } if (open) s = open + s + close;
          { size_t ob = s.size() > 1 ? s.find_last_of("[{(\"", s.size() - 2) : s.npos; bool unclosed = m.arr && m.t.kind != kVec && ob != s.npos && ob > 0 && s[ob] != '"' && s.find_first_of("]})", ob) >= s.size() - 1 && s.find_last_of('}') == s.size() - 1; if (unclosed) run("unclosed bracket in a list", S("%s = %s", m.name, mc::quote(s).c_str()), m.off, m.off + m.size, true, nullptr, [&](Reflector &r) { return r.SetReflectedValue(i, s); }); }
          run("list text", S("%s = %s", m.name, mc::quote(s).c_str()), m.off, m.off + m.size, false, nullptr, [&](Reflector &r) { return r.SetReflectedValue(i, s); }); } } }
}
// a malformed or surplus element is reported wherever it stands among good ones
MC_SECTION("malformed elements", 4) {
  fxRegister(); auto &ms = fxMembers(); uint64_t n = 0;
  for (size_t i = 0; i < ms.size(); i++) { auto &m = ms[i]; if (isClassKind(m.t.kind) || m.t.kind == kCStr || m.t.kind == kStr) continue; bool vec = !m.arr && m.t.kind == kVec, fl = !m.arr && m.t.kind == kFlags; if (!m.arr && !vec && !fl) continue;
    Kind k = vec ? m.t.ck : m.t.kind; std::vector<std::string> good, bad; auto comps = [&](const char *first) { std::string s = "["; for (int c = 0; c < m.t.comps; c++) s += c ? ", 2" : first; return s + "]"; };
    if (k == kBool) { good = {"true"}; bad = {"maybe", "1", "t"}; } else if (k == kEnum || k == kFlags) { good = {fxEnum(m.t.en).back().n}; bad = {"Nothing", "0", "1"}; } else if (k == kVec) { good = {comps("1")}; bad = {comps("zz"), comps("-")}; } else { good = {"7", "17"}; bad = {"zz", "-", "x1"}; }
    const int cnt = vec ? m.t.comps : fl ? 3 : m.count; const char *sep = fl ? " | " : ", ", *open = vec ? "[" : fl ? "" : "{", *close = vec ? "]" : fl ? "" : "}";
    for (auto &g : good) for (auto &b : bad) for (int msk = 1; msk < 1 << std::min(cnt, 6); msk++) { if (!mc::mine(n++)) continue; std::string t = open; for (int c = 0; c < cnt; c++) t += (c ? sep : "") + (c < 6 && msk >> c & 1 ? b : g); t += close; run("malformed element", S("%s = %s", m.name, mc::quote(t).c_str()), m.off, m.off + m.size, true, nullptr, [&](Reflector &r) { return r.SetReflectedValue(i, t); }); }
    if (!fl) for (auto &g : good) for (int more = 1; more < 4; more++) { if (!mc::mine(n++)) continue; std::string t = open; for (int c = 0; c < cnt + more; c++) t += (c ? sep : "") + g; t += close; run("surplus element", S("%s = %s", m.name, mc::quote(t).c_str()), m.off, m.off + m.size, true, nullptr, [&](Reflector &r) { return r.SetReflectedValue(i, t); }); } }
}
