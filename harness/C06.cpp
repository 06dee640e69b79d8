// VARIANT: opt -O2
// VARIANT: asan -O1 -fsanitize=address
// RULE: state = distinct (cursor, origin, saved position, swap setting, content) reached; transition = one real writer/reader call; trace = one complete operation history whose bytes, cursor and read-back values were compared with the reference
// ASSUME: op sequences longer than the depth bound add no new interaction of cursor, origin, swap setting and type dispatch
#include "mc.hpp"
#include <memory>
#include "datas/base_128.hpp"
#include "datas/binreader.hpp"
#include "datas/binwritter.hpp"
#include "datas/vectors.hpp"
#include <sstream>
#include <sys/stat.h>
typedef std::string S;
struct Custom { // own serializer
  uint16 a; uint8 b;
  void Write(BinWritterRef wr) const { wr.Write(b); wr.Write(a); }
  void Read(BinReaderRef rd) { rd.Read(b); rd.Read(a); }
};
struct Swappable { // plain data with its own swap
  uint32 a; uint16 b, c;
  void SwapEndian() { FByteswapper(a); FByteswapper(b); FByteswapper(c); }
};
enum class E16 : uint16 { A = 0x0102, B = 0xfffe };
static S sc(const void *p, size_t n, bool sw) { S s((const char *)p, n); return sw ? S(s.rbegin(), s.rend()) : s; }
template <class T> S scv(T v, bool sw) { return sc(&v, sizeof v, sw); }
template <class T> S arr(std::initializer_list<T> l, bool sw) { S r; for (T v : l) r += scv<T>(v, sw); return r; }
static S b128(uint64 v) { S r; while (v > 127) { r += char(v | 128); v >>= 7; } return r + char(v); }
static S customBytes(uint16 a, uint8 b, bool sw) { return S(1, char(b)) + scv(a, sw); }

struct Op { const char *name; std::function<void(BinWritterRef &)> w; std::function<S(bool)> ref; std::function<bool(BinReaderRef &)> r; };
#define V(T, val) Op{#T, [](BinWritterRef &w) { T x = val; w.Write(x); }, [](bool s) { return scv<T>(val, s); }, [](BinReaderRef &r) { T x{}; r.Read(x); T e = val; return !memcmp(&x, &e, sizeof x); }}
static std::vector<Op> &ops() {
  static std::vector<Op> o{
      V(uint8, 0xa1), V(uint16, 0x0102), V(uint32, 0x01020384), V(uint64, 0x0102030405060788ull), V(int16, -2), V(int32, -70000), V(int64, -5000000000ll), V(float, 1.5f), V(double, -2.25), V(bool, true), V(E16, E16::A),
      {"u16[3]", [](BinWritterRef &w) { uint16 x[3]{1, 0x203, 0xfffe}; w.Write(x); }, [](bool s) { return arr<uint16>({1, 0x203, 0xfffe}, s); }, [](BinReaderRef &r) { uint16 x[3]{}; r.Read(x); return x[0] == 1 && x[1] == 0x203 && x[2] == 0xfffe; }},
      {"u8[5]", [](BinWritterRef &w) { uint8 x[5]{1, 2, 3, 4, 5}; w.Write(x); }, [](bool) { return S("\1\2\3\4\5"); }, [](BinReaderRef &r) { uint8 x[5]{}; r.Read(x); return x[0] == 1 && x[4] == 5; }},
      {"double[2]", [](BinWritterRef &w) { double x[2]{1.5, -3}; w.Write(x); }, [](bool s) { return arr<double>({1.5, -3}, s); }, [](BinReaderRef &r) { double x[2]{}; r.Read(x); return x[0] == 1.5 && x[1] == -3; }},
      {"custom", [](BinWritterRef &w) { Custom c{0x1122, 0x33}; w.Write(c); }, [](bool s) { return customBytes(0x1122, 0x33, s); }, [](BinReaderRef &r) { Custom c{}; r.Read(c); return c.a == 0x1122 && c.b == 0x33; }},
      {"swappable", [](BinWritterRef &w) { const Swappable c{0x11223344, 0x5566, 0x7788}; w.Write(c); }, [](bool s) { return scv<uint32>(0x11223344, s) + scv<uint16>(0x5566, s) + scv<uint16>(0x7788, s); }, [](BinReaderRef &r) { Swappable c{}; r.Read(c); return c.a == 0x11223344 && c.b == 0x5566 && c.c == 0x7788; }},
      {"Vector", [](BinWritterRef &w) { Vector v(1.f, 2.f, -3.f); w.Write(v); }, [](bool s) { return arr<float>({1.f, 2.f, -3.f}, s); }, [](BinReaderRef &r) { Vector v; r.Read(v); return v.X == 1.f && v.Y == 2.f && v.Z == -3.f; }},
      {"Vector2<u16>", [](BinWritterRef &w) { t_Vector2<uint16> v(0x102, 0x304); w.Write(v); }, [](bool s) { return arr<uint16>({0x102, 0x304}, s); }, [](BinReaderRef &r) { t_Vector2<uint16> v; r.Read(v); return v.X == 0x102 && v.Y == 0x304; }},
      {"Vector4<u8>", [](BinWritterRef &w) { UCVector4 v(1, 2, 3, 4); w.Write(v); }, [](bool) { return S("\1\2\3\4"); }, [](BinReaderRef &r) { UCVector4 v; r.Read(v); return v.X == 1 && v.Y == 2 && v.Z == 3 && v.W == 4; }},
      {"bint128", [](BinWritterRef &w) { bint128 v{-300}; w.Write(v); }, [](bool) { S s; s += char((299 & 127) | 128); s += char((299 >> 7) | 64); return s; }, [](BinReaderRef &r) { bint128 v; r.Read(v); return v.value == -300; }},
      {"vector<u16>", [](BinWritterRef &w) { std::vector<uint16> v{9, 0x809}; w.WriteContainer(v); }, [](bool s) { return arr<uint16>({9, 0x809}, s); }, [](BinReaderRef &r) { std::vector<uint16> v{7, 7, 7}; r.ReadContainer(v, 2); return v == std::vector<uint16>{9, 0x809}; }},
      {"vector<custom>", [](BinWritterRef &w) { std::vector<Custom> v{{1, 2}, {0x304, 5}}; w.WriteContainer(v); }, [](bool s) { return customBytes(1, 2, s) + customBytes(0x304, 5, s); }, [](BinReaderRef &r) { std::vector<Custom> v; r.ReadContainer(v, 2); return v.size() == 2 && v[0].a == 1 && v[0].b == 2 && v[1].a == 0x304 && v[1].b == 5; }},
      {"vector<vec>", [](BinWritterRef &w) { std::vector<Vector2> v{{1.f, 2.f}, {3.f, 4.f}}; w.WriteContainer(v); }, [](bool s) { return arr<float>({1.f, 2.f, 3.f, 4.f}, s); }, [](BinReaderRef &r) { std::vector<Vector2> v; r.ReadContainer(v, 2); return v.size() == 2 && v[0].X == 1.f && v[1].Y == 4.f; }},
      {"empty vector", [](BinWritterRef &w) { std::vector<uint32> v; w.WriteContainer(v); }, [](bool) { return S(); }, [](BinReaderRef &r) { std::vector<uint32> v{1}; r.ReadContainer(v, 0); return v.empty(); }},
      {"string container", [](BinWritterRef &w) { S v("ab\0c", 4); w.WriteContainer(v); }, [](bool) { return S("ab\0c", 4); }, [](BinReaderRef &r) { S v; r.ReadContainer(v, 4); return v == S("ab\0c", 4); }},
      {"counted u32", [](BinWritterRef &w) { std::vector<uint32> v{0x01020304, 5}; w.WriteContainerWCount(v); }, [](bool s) { return scv<uint32>(2, s) + arr<uint32>({0x01020304, 5}, s); }, [](BinReaderRef &r) { std::vector<uint32> v; r.ReadContainer(v); return v == std::vector<uint32>{0x01020304, 5}; }},
      {"counted u8 of u16", [](BinWritterRef &w) { std::vector<uint16> v{0x0102}; w.WriteContainerWCount<uint8>(v); }, [](bool s) { return S("\1") + scv<uint16>(0x0102, s); }, [](BinReaderRef &r) { std::vector<uint16> v; r.ReadContainer<uint8>(v); return v == std::vector<uint16>{0x0102}; }},
      {"counted base128", [](BinWritterRef &w) { S v(200, 'x'); v[7] = 'y'; w.WriteContainerWCount<buint128>(v); }, [](bool) { S v(200, 'x'); v[7] = 'y'; return b128(200) + v; }, [](BinReaderRef &r) { S v, e(200, 'x'); e[7] = 'y'; r.ReadContainer<buint128>(v); return v == e; }},
      {"counted empty", [](BinWritterRef &w) { std::vector<Custom> v; w.WriteContainerWCount<uint16>(v); }, [](bool) { return S(2, 0); }, [](BinReaderRef &r) { std::vector<Custom> v(3); r.ReadContainer<uint16>(v); return v.empty(); }},
      {"lambda counted", [](BinWritterRef &w) { std::vector<int> v{5, 0x607}; w.WriteContainerLambda<uint16>(v, [](BinWritterRef wr, int i) { wr.Write(uint16(i)); wr.Write(uint8(i)); }); }, [](bool s) { return scv<uint16>(2, s) + scv<uint16>(5, s) + "\5" + scv<uint16>(0x607, s) + "\7"; }, [](BinReaderRef &r) { std::vector<int> v; bool ok = true; r.ReadContainerLambda<uint16>(v, [&](BinReaderRef rd, int &i) { uint16 a; uint8 b; rd.Read(a); rd.Read(b); i = a; ok &= uint8(a) == b; }); return ok && v == std::vector<int>{5, 0x607}; }},
      {"lambda sized", [](BinWritterRef &w) { w.Write(uint16(0x0a0b)); }, [](bool s) { return scv<uint16>(0x0a0b, s); }, [](BinReaderRef &r) { std::vector<int> v; r.ReadContainerLambda(v, 1, [](BinReaderRef rd, int &i) { uint16 a; rd.Read(a); i = a; }); return v == std::vector<int>{0x0a0b}; }},
      {"cstring", [](BinWritterRef &w) { w.WriteT(es::string_view("hello")); }, [](bool) { return S("hello\0", 6); }, [](BinReaderRef &r) { S v; r.ReadString(v); return v == "hello"; }},
      {"empty cstring", [](BinWritterRef &w) { w.WriteT(es::string_view("")); }, [](bool) { return S(1, 0); }, [](BinReaderRef &r) { S v; r.ReadString(v); return v.empty(); }},
      {"wide cstring", [](BinWritterRef &w) { w.WriteT(es::wstring_view(L"h\x1234")); }, [](bool s) { return arr<wchar_t>({L'h', wchar_t(0x1234), 0}, s); }, [](BinReaderRef &r) { std::wstring v; r.ReadString(v); return v == L"h\x1234"; }},
      {"buffer", [](BinWritterRef &w) { w.WriteBuffer("\x9\x8\x7", 3); }, [](bool) { return S("\x9\x8\x7"); }, [](BinReaderRef &r) { char b[3]; r.ReadBuffer(b, 3); return !memcmp(b, "\x9\x8\x7", 3); }},
  };
  return o;
}
// extra (cursor/setting) steps that read back the same way
enum { SWAP = 0, PAD4, PAD16, SKIP3, SKIP40, NEXTRA };
static void runHist(const std::vector<int> &h, std::ostream &os, std::istream *is, S *outBytes, const char *what) {
  auto &o = ops();
  BinWritterRef wr(os);
  S ref;
  bool sw = false;
  auto name = [&](int i) { return i < int(o.size()) ? o[i].name : (const char *[]){"swap", "pad4", "pad16", "skip3", "skip40"}[i - int(o.size())]; };
  S hs;
  for (int i : h) hs += S(name(i)) + ", ";
  for (int i : h) {
    if (i < int(o.size())) { o[i].w(wr); ref += o[i].ref(sw); }
    else switch (i - int(o.size())) {
      case SWAP: sw = !sw; wr.SwapEndian(sw); break;
      case PAD4: wr.ApplyPadding(4); while (ref.size() % 4) ref += '\0'; break;
      case PAD16: wr.ApplyPadding(); while (ref.size() % 16) ref += '\0'; break;
      case SKIP3: wr.Skip(3); ref += S(3, 0); break;
      case SKIP40: wr.Skip(40); ref += S(40, 0); break;
      }
    mc::step();
    if (wr.Tell() != ref.size() || bool(wr.SwappedEndian()) != sw)
      mc::fail(S("write cursor/") + name(i), "%s: after [%s] cursor %zu expected %zu", what, hs.c_str(), wr.Tell(), ref.size());
  }
  if (wr.GetSize() != ref.size()) mc::fail("write size", "%s: [%s] size %zu expected %zu", what, hs.c_str(), wr.GetSize(), ref.size());
  if (outBytes) { os.flush(); *outBytes = ref; }
  if (auto *ss = dynamic_cast<std::stringstream *>(&os))
    if (ss->str() != ref) mc::fail(S("bytes/") + name(h.back()), "%s: [%s] wrote %s expected %s", what, hs.c_str(), mc::hex(ss->str()).c_str(), mc::hex(ref).c_str());
  if (!is) return;
  BinReaderRef rd(*is);
  sw = false; size_t pos = 0;
  for (int i : h) {
    if (i < int(o.size())) { size_t n = o[i].ref(sw).size(); if (!o[i].r(rd)) mc::fail(S("read back/") + o[i].name, "%s: [%s] value differs, swapped %d", what, hs.c_str(), sw); pos += n; }
    else switch (i - int(o.size())) {
      case SWAP: sw = !sw; rd.SwapEndian(sw); break;
      case PAD4: rd.ApplyPadding(4); pos = (pos + 3) / 4 * 4; break;
      case PAD16: rd.ApplyPadding(); pos = (pos + 15) / 16 * 16; break;
      case SKIP3: rd.Skip(3); pos += 3; break;
      case SKIP40: rd.Skip(40); pos += 40; break;
      }
    mc::step();
    if (rd.Tell() != pos || is->fail()) { mc::fail(S("read cursor/") + name(i), "%s: [%s] cursor %zu expected %zu", what, hs.c_str(), rd.Tell(), pos); return; }
  }
  mc::state(mc::hashBytes(ref.data(), ref.size()) + sw);
  mc::trace();
}
MC_SECTION("values", 8) {
#ifdef MC_VARIANT_asan
  int depth = mc::thorough() ? 3 : 2;
#else
  int depth = 4;
#endif
  int n = int(ops().size()) + NEXTRA;
  uint64_t idx = 0;
  for (int d = 1; d <= depth; d++) {
    mc::Odo o(std::vector<int>(d, n));
    while (o.next()) {
      if (!mc::mine(idx++)) continue;
      if (!(idx & 63)) mc::at("history of length %d starting with op %d", d, o.v[0]);
      std::stringstream ss;
      runHist(o.v, ss, &ss, nullptr, "stream");
    }
  }
  mc::sample("depth %d over %d operations", depth, n);
}
// same histories through files: separately opened writer and reader
MC_SECTION("files", 4) {
  S f = mc::g().tmp + "/c06." + std::to_string(mc::shard());
  int n = int(ops().size()) + NEXTRA;
  uint64_t idx = 0;
  for (int d = 1; d <= 2; d++) {
    mc::Odo o(std::vector<int>(d, n));
    while (o.next()) {
      if (!mc::mine(idx++)) continue;
      mc::at("file history %d %d", o.v[0], d > 1 ? o.v[1] : -1);
      S ref;
      bool sw = false;
      {
        BinWritter wr = (idx & 1) ? BinWritter(f) : BinWritter(f.c_str());
        if (!wr.IsValid()) mc::fail("file open", "writer for a writable path is not valid");
        for (int i : o.v) {
          if (i < int(ops().size())) { BinWritterRef r = wr; ops()[i].w(r); ref += ops()[i].ref(sw); }
          else switch (i - int(ops().size())) {
            case SWAP: sw = !sw; wr.SwapEndian(sw); break;
            case PAD4: wr.ApplyPadding(4); while (ref.size() % 4) ref += '\0'; break;
            case PAD16: wr.ApplyPadding(); while (ref.size() % 16) ref += '\0'; break;
            case SKIP3: wr.Skip(3); ref += S(3, 0); break;
            case SKIP40: wr.Skip(40); ref += S(40, 0); break;
            }
          mc::step();
        }
        if (wr.Tell() != ref.size() || wr.GetSize() != ref.size()) mc::fail("file write cursor", "history %d %d: %zu expected %zu", o.v[0], d > 1 ? o.v[1] : -1, wr.Tell(), ref.size());
      }
      S got;
      if (FILE *fp = fopen(f.c_str(), "rb")) { char b[512]; size_t k = fread(b, 1, 512, fp); got.assign(b, k); fclose(fp); }
      if (got != ref) mc::fail("file bytes", "history %d %d: %s expected %s", o.v[0], d > 1 ? o.v[1] : -1, mc::hex(got).c_str(), mc::hex(ref).c_str());
      BinReader rd;
      if (idx & 1) rd.Open(f); else rd.Open(f.c_str());
      if (!rd.IsValid() || rd.GetSize() != ref.size()) mc::fail("file read size", "%zu expected %zu", rd.GetSize(), ref.size());
      sw = false;
      for (int i : o.v) {
        BinReaderRef r = rd;
        if (i < int(ops().size())) { if (!ops()[i].r(r)) mc::fail("file read back", "op %s", ops()[i].name); }
        else switch (i - int(ops().size())) {
          case SWAP: sw = !sw; rd.SwapEndian(sw); break;
          case PAD4: rd.ApplyPadding(4); break;
          case PAD16: rd.ApplyPadding(); break;
          case SKIP3: rd.Skip(3); break;
          case SKIP40: rd.Skip(40); break;
          }
        mc::step();
      }
      if (rd.Tell() != ref.size()) mc::fail("file read cursor", "history %d %d: %zu expected %zu", o.v[0], d > 1 ? o.v[1] : -1, rd.Tell(), ref.size());
      mc::trace();
    }
  }
  unlink(f.c_str());
}
MC_SECTION("open errors and moves", 1) {
  S dir = mc::g().tmp + "/c06d", miss = dir + "/missing.bin", f = dir + "/f.bin", sub = dir + "/none/x.bin";
  mkdir(dir.c_str(), 0700);
  for (int how = 0; how < 4; how++) {
    mc::at("open error %d", how);
    int got = 0;
    try { if (how == 0) { BinReader r(miss); } else if (how == 1) { BinReader r(miss.c_str()); } else if (how == 2) { BinReader r; r.Open(miss); } else { BinReader r; r.Open(miss.c_str()); } }
    catch (const es::FileNotFoundError &e) { got = S(e.what()).find(miss) != S::npos ? 1 : 2; } catch (...) { got = 3; }
    if (got != 1) mc::fail("missing file", "reading a missing file: outcome %d (way %d)", got, how);
    got = 0;
    try { if (how == 0) { BinWritter r(sub); } else if (how == 1) { BinWritter r(sub.c_str()); } else if (how == 2) { BinWritter r; r.Open(sub); } else { BinWritter r; r.Open(sub.c_str()); } }
    catch (const es::FileInvalidAccessError &e) { got = S(e.what()).find(sub) != S::npos ? 1 : 2; } catch (...) { got = 3; }
    if (got != 1) mc::fail("unwritable file", "writing into a missing folder: outcome %d (way %d)", got, how);
    mc::step(2); mc::trace(2); mc::state(S("err") + char('0' + how));
  }
  for (int before = 0; before < 3; before++) {
    mc::at("move with %d values before", before);
    S ref;
    {
      BinWritter w(f);
      for (int i = 0; i < before; i++) { w.Write(uint16(i + 1)); ref += scv<uint16>(i + 1, false); }
      BinWritter w2(std::move(w));
      for (int i = 0; i < 2; i++) { w2.Write(uint32(i + 7)); ref += scv<uint32>(i + 7, false); }
    }
    BinReader r(f);
    for (int i = 0; i < before; i++) { uint16 v; r.Read(v); if (v != i + 1) mc::fail("move read", "before"); }
    BinReader r2(std::move(r));
    for (int i = 0; i < 2; i++) { uint32 v = 0; r2.Read(v); if (v != uint32(i + 7)) mc::fail("move read", "value %u after moving a file reader, expected %d", v, i + 7); }
    if (r2.GetSize() != ref.size() || r2.Tell() != ref.size()) mc::fail("move cursor", "size %zu", r2.GetSize());
    mc::step(before * 2 + 4); mc::trace(); mc::state(S("mv") + char('0' + before));
  }
}
// --- cursor algebra ---
struct Model { S data; size_t pos = 0, origin = 0, saved = 0; };
enum { N_W2, N_W5, N_SEEK0, N_SEEK3, N_END, N_CUR2, N_SK7, N_SKM2, N_SKIPT, N_PUSH, N_POP, N_ORG_HERE, N_ORG5, N_ORG5NS, N_RESET, N_RESETNS, N_PAD4, N_PAD16, N_SIZE, N_COUNT };
static const char *NN[] = {"write2/read2", "write5/read5", "seek 0", "seek 3", "seek end", "seek cur 2", "skip 7", "skip -2", "skip<u32>", "push", "pop", "origin=here", "origin=5", "origin=5 (no seek)", "reset origin", "reset origin (no seek)", "pad 4", "pad 16", "size"};
template <bool WRITER, class B> static void nav(const std::vector<int> &h, B &bin, std::stringstream &ss, Model &m) {
  S hs;
  int val = 1;
  for (int op : h) {
    hs += S(NN[op]) + ", ";
    auto abs = [&](size_t p) { m.pos = p; };
    auto grow = [&](size_t n) { for (size_t i = 0; i < n; i++) { if (m.pos < m.data.size()) m.data[m.pos] = 0; else m.data += '\0'; m.pos++; } };
    auto skip = [&](size_t n) { if (WRITER) grow(n); else m.pos += n; };
    size_t sz = m.data.size();
    switch (op) {
    case N_W2: case N_W5: {
      size_t n = op == N_W2 ? 2 : 5;
      char b[5];
      if (WRITER) {
        for (size_t i = 0; i < n; i++) b[i] = char(val++);
        reinterpret_cast<BinWritterRef &>(bin).WriteBuffer(b, n);
        for (size_t i = 0; i < n; i++) { if (m.pos < m.data.size()) m.data[m.pos] = b[i]; else m.data += b[i]; m.pos++; }
      } else {
        if (m.pos + n > sz) return;
        reinterpret_cast<BinReaderRef &>(bin).ReadBuffer(b, n);
        if (m.data.compare(m.pos, n, S(b, n))) mc::fail("nav/read", "[%s] read %s expected %s", hs.c_str(), mc::hex(b, n).c_str(), mc::hex(m.data.substr(m.pos, n)).c_str());
        m.pos += n;
      }
      break;
    }
    case N_SEEK0: bin.Seek(0); abs(m.origin); break;
    case N_SEEK3: if (m.origin + 3 > sz) return; bin.Seek(3); abs(m.origin + 3); break;
    case N_END: bin.Seek(0, std::ios_base::end); abs(sz); break;
    case N_CUR2: if (m.pos + 2 > sz) return; bin.Seek(2, std::ios_base::cur); m.pos += 2; break;
    case N_SK7: if (!WRITER && m.pos + 7 > sz) return; bin.Skip(7); skip(7); break;
    case N_SKM2: if (m.pos < 2) return; bin.Skip(-2); m.pos -= 2; break;
    case N_SKIPT: if (!WRITER && m.pos + 4 > sz) return; bin.template Skip<uint32>(); skip(4); break;
    case N_PUSH: if (bin.Push() != m.pos) mc::fail("nav/push", "[%s] push returned another position", hs.c_str()); m.saved = m.pos; break;
    case N_POP: if (m.saved > sz) return; bin.Pop(); m.pos = m.saved; break;
    case N_ORG_HERE: { size_t p = m.pos; bin.SetRelativeOrigin(p); m.origin = p; break; }
    case N_ORG5: if (sz < 5) return; bin.SetRelativeOrigin(5); m.origin = m.pos = 5; break;
    case N_ORG5NS: if (m.pos < 5) return; bin.SetRelativeOrigin(5, false); m.origin = 5; break;
    case N_RESET: bin.ResetRelativeOrigin(); m.origin = m.pos = 0; break;
    case N_RESETNS: bin.ResetRelativeOrigin(false); m.origin = 0; break;
    case N_PAD4: case N_PAD16: {
      if (m.pos < m.origin) return;
      size_t a = op == N_PAD4 ? 4 : 16, rel = m.pos - m.origin, n = (a - rel % a) % a;
      if (!WRITER && m.pos + n > sz) return;
      bin.ApplyPadding(int(a)); skip(n);
      break;
    }
    case N_SIZE: if (m.pos < m.origin) return; if (bin.GetSize() != m.data.size() - m.origin) mc::fail("nav/size", "[%s] size %zu expected %zu", hs.c_str(), bin.GetSize(), m.data.size() - m.origin); break;
    }
    mc::step();
    if (ss.fail()) { mc::fail(S("nav/failbit/") + NN[op], "[%s] stream failed", hs.c_str()); return; }
    if (m.pos < m.origin) return;
    if (bin.Tell() != m.pos - m.origin) { mc::fail(S("nav/tell/") + NN[op], "%s [%s] tell %zu expected %zu", WRITER ? "writer" : "reader", hs.c_str(), bin.Tell(), m.pos - m.origin); return; }
    if (WRITER && ss.str() != m.data) { mc::fail(S("nav/content/") + NN[op], "[%s] content %s expected %s", hs.c_str(), mc::hex(ss.str()).c_str(), mc::hex(m.data).c_str()); return; }
    uint64_t k = mc::hashBytes(m.data.data(), m.data.size());
    mc::state(mc::mix(k + m.pos * 1000003 + m.origin * 7919 + m.saved * 131 + WRITER));
  }
  mc::trace();
}
MC_SECTION("navigation", 8) {
#ifdef MC_VARIANT_asan
  int depth = mc::thorough() ? 4 : 3;
#else
  int depth = mc::thorough() ? 6 : 5;
#endif
  uint64_t idx = 0;
  S content;
  for (int i = 0; i < 43; i++) content += char(i * 7 + 1);
  for (int d = 1; d <= depth; d++) {
    mc::Odo o(std::vector<int>(d, int(N_COUNT)));
    while (o.next()) {
      if (!mc::mine(idx++)) continue;
      if (!(idx & 255)) mc::at("navigation of length %d starting %s", d, NN[o.v[0]]);
      for (int start = 0; start < 2; start++) {
        { // writer: on an empty stream / on a stream with 9 bytes already there
          std::stringstream ss;
          Model m;
          if (start) { ss.write(content.data(), 9); m.data = content.substr(0, 9); m.pos = 9; }
          BinWritterRef wr(ss);
          nav<true>(o.v, wr, ss, m);
        }
        {
          std::stringstream ss(content);
          Model m; m.data = content;
          BinReaderRef rd(ss);
          if (start) { ss.seekg(20); m.pos = 20; }
          nav<false>(o.v, rd, ss, m);
        }
      }
    }
  }
  mc::sample("depth %d over %d cursor operations, writer and reader, two initial states", depth, int(N_COUNT));
}
// containers of every size class: nothing of the element loop depends on how many there are, and what the target held before does not survive
template <class T> static void sized(const char *nm, size_t n, bool sw, size_t had, std::function<T(size_t)> val, std::function<S(T, bool)> ref, int shape) {
  std::stringstream ss; BinWritterRef wr(ss); wr.SwapEndian(sw);
  std::vector<T> v; S want; for (size_t i = 0; i < n; i++) { v.push_back(val(i)); want += ref(v.back(), sw); }
  S count; switch (shape) { case 1: count = scv<uint32>(uint32(n), sw); break; case 2: count = scv<uint16>(uint16(n), sw); break; case 3: count = b128(n); break; case 4: count = scv<uint64>(n, sw); break; }
  want = count + want;
  switch (shape) { case 1: wr.WriteContainerWCount(v); break; case 2: wr.WriteContainerWCount<uint16>(v); break; case 3: wr.WriteContainerWCount<buint128>(v); break; case 4: wr.WriteContainerWCount<uint64>(v); break; default: wr.WriteContainer(v); }
  if (ss.str() != want) { size_t i = 0; while (i < want.size() && i < ss.str().size() && want[i] == ss.str()[i]) i++; mc::fail(S("sizes/written/") + nm, "%zu elements, shape %d, swapped %d: %zu bytes, expected %zu, first difference at %zu", n, shape, sw, ss.str().size(), want.size(), i); return; }
  wr.Write(uint8(0x5a));
  BinReaderRef rd(ss); rd.SwapEndian(sw); std::vector<T> r; for (size_t i = 0; i < had; i++) r.push_back(val(i + 7));
  switch (shape) { case 1: rd.ReadContainer(r); break; case 2: rd.ReadContainer<uint16>(r); break; case 3: rd.ReadContainer<buint128>(r); break; case 4: rd.ReadContainer<uint64>(r); break; default: rd.ReadContainer(r, n); }
  if (r.size() != n) mc::fail(S("sizes/count/") + nm, "%zu elements read into a container of %zu, shape %d, swapped %d: %zu elements", n, had, shape, sw, r.size());
  else for (size_t i = 0; i < n; i++) if (ref(r[i], false) != ref(v[i], false)) { mc::fail(S("sizes/read/") + nm, "%zu elements into %zu, shape %d, swapped %d: element %zu differs", n, had, shape, sw, i); break; }
  uint8 tail = 0; rd.Read(tail); if (tail != 0x5a) mc::fail(S("sizes/cursor/") + nm, "%zu elements, shape %d: the reader is not behind them", n, shape);
  mc::step(2); mc::trace(); mc::state(mc::hashBytes(want.data(), want.size()) + had * 2 + sw);
}
MC_SECTION("container sizes", 8) {
  uint64_t idx = 0;
  for (size_t n : {0, 1, 2, 3, 4, 5, 127, 128, 129, 255, 256, 257, 300, 511, 513, 1024, 4097, 16383, 16384, 65535})
    for (size_t had : {0, 1, 3, 300}) for (int sw = 0; sw < 2; sw++) for (int shape = 0; shape < 5; shape++) {
      if (!mc::mine(idx++)) continue;
      mc::at("%zu elements over %zu, swapped %d, shape %d", n, had, sw, shape);
      sized<uint16>("u16", n, sw, had, [](size_t i) { return uint16(i * 257 + 3); }, [](uint16 x, bool s) { return scv(x, s); }, shape);
      sized<uint64>("u64", n, sw, had, [](size_t i) { return uint64(i) * 0x0102030405060709ull + 1; }, [](uint64 x, bool s) { return scv(x, s); }, shape);
      sized<uint8>("u8", n, sw, had, [](size_t i) { return uint8(i * 3 + 1); }, [](uint8 x, bool) { return S(1, char(x)); }, shape);
      if (n < 2000) {
        sized<Custom>("custom", n, sw, had, [](size_t i) { return Custom{uint16(i * 5 + 2), uint8(i)}; }, [](Custom c, bool s) { return customBytes(c.a, c.b, s); }, shape);
        sized<Vector2>("vec", n, sw, had, [](size_t i) { return Vector2(float(i), -float(i)); }, [](Vector2 c, bool s) { return arr<float>({c.X, c.Y}, s); }, shape);
        sized<Swappable>("swappable", n, sw, had, [](size_t i) { return Swappable{uint32(i * 65537 + 5), uint16(i), uint16(~i)}; }, [](Swappable c, bool s) { return scv<uint32>(c.a, s) + scv<uint16>(c.b, s) + scv<uint16>(c.c, s); }, shape);
      }
      // per element callbacks, over a container that already holds something
      std::stringstream ss; BinWritterRef wr(ss); wr.SwapEndian(sw); std::vector<int> v; for (size_t i = 0; i < n; i++) v.push_back(int(i * 3)); S want = scv<uint32>(uint32(n), sw); for (int i : v) want += scv<uint32>(uint32(i) ^ 0x55aa, sw);
      wr.WriteContainerLambda(v, [](BinWritterRef w, int i) { w.Write(uint32(i) ^ 0x55aa); });
      if (ss.str() != want) mc::fail("sizes/lambda written", "%zu elements, swapped %d", n, sw);
      BinReaderRef rd(ss); rd.SwapEndian(sw); std::vector<int> r(had, 9); auto get = [](BinReaderRef q, int &i) { uint32 x; q.Read(x); i = int(x ^ 0x55aa); };
      if (shape & 1) rd.ReadContainerLambda(r, get); else { uint32 c; rd.Read(c); rd.ReadContainerLambda(r, c, get); }
      if (r != v) mc::fail("sizes/lambda read", "%zu elements over %zu, swapped %d: %zu elements", n, had, sw, r.size());
      mc::step(2);
    }
}
// the same behind 65535 elements, plain arrays of every size class and wide texts
template <class T, size_t N> static void plainArray(const char *nm, std::function<T(size_t)> val, std::function<S(T, bool)> ref) {
  for (int sw = 0; sw < 2; sw++) { mc::at("array %s[%zu], swapped %d", nm, N, sw); mc::trace(); mc::step(2); mc::state(mc::mix(N * 16 + sizeof(T) * 2 + size_t(sw))); struct Box { T a[N]; char guard[16]; }; std::unique_ptr<Box> b(new Box()), r(new Box()); memset(r->guard, 0x5c, 16); S want; for (size_t i = 0; i < N; i++) { b->a[i] = val(i); want += ref(b->a[i], sw); } std::stringstream ss; BinWritterRef wr(ss); wr.SwapEndian(sw); const Box &cb = *b; wr.Write(cb.a); if (ss.str() != want) { mc::fail(S("plain arrays/written/") + nm, "%zu elements, swapped %d: %zu bytes of %zu", N, sw, ss.str().size(), want.size()); continue; } wr.Write(uint8(0x5a)); BinReaderRef rd(ss); rd.SwapEndian(sw); rd.Read(r->a); uint8 tail = 0; rd.Read(tail); for (size_t i = 0; i < N; i++) if (ref(r->a[i], false) != ref(b->a[i], false)) { mc::fail(S("plain arrays/read/") + nm, "%zu elements, swapped %d: element %zu differs", N, sw, i); break; } if (tail != 0x5a) mc::fail(S("plain arrays/cursor/") + nm, "%zu elements", N); for (char c : r->guard) if (c != 0x5c) { mc::fail(S("plain arrays/frame/") + nm, "%zu elements", N); break; } }
}
template <size_t N> static void plainArrays() { plainArray<uint8, N>("u8", [](size_t i) { return uint8(i * 3 + 1); }, [](uint8 x, bool) { return S(1, char(x)); }); plainArray<uint16, N>("u16", [](size_t i) { return uint16(i * 257 + 3); }, [](uint16 x, bool s) { return scv(x, s); }); plainArray<uint32, N>("u32", [](size_t i) { return uint32(i * 65537 + 5); }, [](uint32 x, bool s) { return scv(x, s); }); plainArray<uint64, N>("u64", [](size_t i) { return uint64(i) * 0x0102030405060709ull + 1; }, [](uint64 x, bool s) { return scv(x, s); }); }
MC_SECTION("large containers", 8) {
  uint64_t idx = 0;
  for (size_t n : {65536, 65537, 70001, 131073}) for (size_t had : {0, 3, 70000}) for (int sw = 0; sw < 2; sw++) for (int shape : {0, 1, 3, 4}) {
    if (!mc::mine(idx++)) continue; mc::beat(); mc::at("%zu elements over %zu, swapped %d, shape %d", n, had, sw, shape);
    sized<uint16>("u16", n, sw, had, [](size_t i) { return uint16(i * 257 + 3); }, [](uint16 x, bool s) { return scv(x, s); }, shape);
    sized<uint8>("u8", n, sw, had, [](size_t i) { return uint8(i * 3 + 1); }, [](uint8 x, bool) { return S(1, char(x)); }, shape);
    sized<Custom>("custom", n, sw, had, [](size_t i) { return Custom{uint16(i * 5 + 2), uint8(i)}; }, [](Custom c, bool s) { return customBytes(c.a, c.b, s); }, shape);
    sized<Swappable>("swappable", n, sw, had, [](size_t i) { return Swappable{uint32(i * 65537 + 5), uint16(i), uint16(~i)}; }, [](Swappable c, bool s) { return scv<uint32>(c.a, s) + scv<uint16>(c.b, s) + scv<uint16>(c.c, s); }, shape);
    if (had == 3) { std::stringstream ss; BinWritterRef wr(ss); wr.SwapEndian(sw); std::vector<int> v; for (size_t i = 0; i < n; i++) v.push_back(int(i * 3)); wr.WriteContainerLambda(v, [](BinWritterRef w, int i) { w.Write(uint32(i) ^ 0x55aa); }); BinReaderRef rd(ss); rd.SwapEndian(sw); std::vector<int> r(had, 9); rd.ReadContainerLambda(r, [](BinReaderRef q, int &i) { uint32 x; q.Read(x); i = int(x ^ 0x55aa); }); if (r != v || ss.str().size() != 4 + n * 4) mc::fail("sizes/lambda read", "%zu elements, swapped %d: %zu elements, %zu bytes", n, sw, r.size(), ss.str().size()); mc::step(2); }
  }
  if (mc::mine(idx++)) { plainArrays<1>(); plainArrays<2>(); plainArrays<31>(); plainArrays<32>(); plainArrays<33>(); plainArrays<127>(); plainArrays<128>(); plainArrays<255>(); plainArrays<256>(); plainArrays<257>(); plainArrays<300>(); } if (mc::mine(idx++)) { plainArrays<4096>(); plainArrays<32768>(); } if (mc::mine(idx++)) plainArrays<65535>(); if (mc::mine(idx++)) plainArrays<65536>(); if (mc::mine(idx++)) plainArrays<65537>();
  for (size_t n : {15, 16, 255, 256, 257, 16384, 65535, 65536, 65537, 70001}) for (int sw = 0; sw < 2; sw++) { if (!mc::mine(idx++)) continue; mc::at("texts of %zu, swapped %d", n, sw); mc::trace(); std::wstring w(n, L'x'); S s(n, 'x'), want; for (size_t i = 0; i < n; i++) { w[i] = wchar_t(i % 60000 + 1); s[i] = char(i % 255 + 1); } for (wchar_t c : w) want += scv<uint32>(uint32(c), sw); std::stringstream ss; BinWritterRef wr(ss); wr.SwapEndian(sw); wr.WriteT(es::wstring_view(w)); wr.WriteT(es::string_view(s)); wr.Write(uint8(0x5a)); if (ss.str() != want + S(4, 0) + s + S("\0\x5a", 2)) mc::fail("terminated/long written", "%zu characters, swapped %d: %zu bytes", n, sw, ss.str().size()); BinReaderRef rd(ss); rd.SwapEndian(sw); std::wstring rw; S rs; rd.ReadString(rw); rd.ReadString(rs); uint8 t = 0; rd.Read(t); if (rw != w || rs != s || t != 0x5a) mc::fail("terminated/long read", "%zu characters, swapped %d: %zu and %zu characters", n, sw, rw.size(), rs.size()); mc::step(4); }
}
// zero terminated texts of every character, and of lengths around the size classes
MC_SECTION("terminated strings", 2) {
  uint64_t idx = 0;
  for (int c = 1; c < 256; c++) for (int len : {1, 2, 15, 16, 17, 255, 256, 300}) for (int at = 0; at < 3; at++) {
    if (!mc::mine(idx++)) continue;
    S v(len, 'q'); v[at == 0 ? 0 : at == 1 ? len / 2 : len - 1] = char(c);
    mc::at("character %d in %d", c, len);
    std::stringstream ss; BinWritterRef wr(ss); wr.WriteT(es::string_view(v)); wr.Write(uint8(0x5a));
    if (ss.str() != v + S("\0\x5a", 2)) mc::fail("terminated/written", "character %d at %d of %d", c, at, len);
    BinReaderRef rd(ss); S r; rd.ReadString(r); uint8 t = 0; rd.Read(t);
    if (r != v || t != 0x5a) mc::fail("terminated/read", "character %d at %d of %d: %zu characters", c, at, len, r.size());
    mc::step(2); mc::trace(); mc::state(mc::hashBytes(v.data(), v.size()));
  }
  for (wchar_t c : {wchar_t(1), wchar_t(0x7f), wchar_t(0x80), wchar_t(0xff), wchar_t(0x100), wchar_t(0x7fff), wchar_t(0x8000), wchar_t(0xffff), wchar_t(0x10000), wchar_t(0x7fffffff), wchar_t(0x80000000), wchar_t(0xffffff00)}) for (int sw = 0; sw < 2; sw++) {
    std::wstring v{L'a', c, L'b'}; std::stringstream ss; BinWritterRef wr(ss); wr.SwapEndian(sw); wr.WriteT(es::wstring_view(v)); wr.Write(uint8(0x5a));
    BinReaderRef rd(ss); rd.SwapEndian(sw); std::wstring r; rd.ReadString(r); uint8 t = 0; rd.Read(t);
    if (r != v || t != 0x5a) mc::fail("terminated/wide", "character %x swapped %d: %zu characters", unsigned(c), sw, r.size());
    mc::step(2); mc::trace();
  }
}
// every skip length and every (position, alignment) pair, both directions, behind a relative origin
MC_SECTION("skip and padding sizes", 4) {
  const S content(700, 'x');
  for (int len = 0; len <= 300; len++) {
    if (!mc::mine(len)) continue;
    mc::at("skip %d", len);
    for (int pre : {0, 1, 33}) {
      std::stringstream ss;
      BinWritterRef wr(ss);
      wr.WriteBuffer(content.data(), pre);
      wr.Skip(len);
      wr.Write(uint8(0x7f));
      if (ss.str() != S(pre, 'x') + S(len, 0) + "\x7f") mc::fail("skip/write", "skip of %d after %d bytes wrote %zu bytes", len, pre, ss.str().size());
      wr.Skip(-pre); wr.Write(uint8(0x11));
      if (wr.Tell() != size_t(len + 2)) mc::fail("skip/back", "skip of -%d: cursor %zu expected %d", pre, wr.Tell(), len + 2);
      std::stringstream rs(content);
      BinReaderRef rd(rs);
      rd.Seek(pre + 300);
      rd.Skip(len);
      if (rd.Tell() != size_t(pre + 300 + len)) mc::fail("skip/read", "skip of %d: cursor %zu", len, rd.Tell());
      rd.Skip(-len);
      if (rd.Tell() != size_t(pre + 300)) mc::fail("skip/read back", "skip of -%d: cursor %zu", len, rd.Tell());
      mc::step(6); mc::trace(2); mc::state(mc::mix(len * 64 + pre));
    }
    for (int al = 1; al <= 256; al *= 2)
      for (int org : {0, 3, 17}) {
        mc::at("padding to %d at %d origin %d", al, len, org);
        std::stringstream ss;
        BinWritterRef wr(ss);
        wr.WriteBuffer(content.data(), org);
        wr.SetRelativeOrigin(org);
        wr.WriteBuffer(content.data(), len);
        wr.ApplyPadding(al);
        size_t want = size_t(len + al - 1) / al * al;
        if (wr.Tell() != want || ss.str() != S(org + len, 'x') + S(want - len, 0)) mc::fail("padding/write", "alignment %d at %d behind origin %d: cursor %zu expected %zu", al, len, org, wr.Tell(), want);
        std::stringstream rs(content);
        BinReaderRef rd(rs);
        rd.SetRelativeOrigin(org);
        rd.Seek(len);
        rd.ApplyPadding(al);
        if (rd.Tell() != want) mc::fail("padding/read", "alignment %d at %d behind origin %d: cursor %zu expected %zu", al, len, org, rd.Tell(), want);
        mc::step(4); mc::trace(2); mc::state(mc::mix(mc::mix(al) + len * 64 + org));
      }
  }
}
// positions beyond the range of a narrow counter: cursor, origin, saved position, size, padding
MC_SECTION("far positions", 8) {
  uint64_t idx = 0;
  for (size_t org : {0, 1, 255, 256, 257, 4096, 65535, 65536, 65537, 70001})
    for (size_t len : {0, 1, 15, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 70003, 131071})
      for (int al : {2, 16, 128, 256, 512, 1024, 4096, 65536, 131072}) {
        if (!mc::mine(idx++)) continue;
        mc::at("origin %zu, %zu bytes behind it, alignment %d", org, len, al); mc::beat();
        const size_t want = (len + size_t(al) - 1) / size_t(al) * size_t(al);
        S content(org + want + 40, 0); for (size_t i = 0; i < org + len; i++) content[i] = char(i * 13 + (i >> 8) + 1);
        { std::stringstream ss; BinWritterRef wr(ss); wr.WriteBuffer(content.data(), org); wr.SetRelativeOrigin(org); wr.WriteBuffer(content.data() + org, len); const size_t saved = wr.Push(); wr.ApplyPadding(al);
          if (wr.Tell() != want || ss.str() != content.substr(0, org + want)) mc::fail("far/padding/write", "origin %zu, %zu bytes, alignment %d: cursor %zu, %zu bytes", org, len, al, wr.Tell(), ss.str().size());
          if (wr.GetSize() != want || wr.Tell() != want) mc::fail("far/size/write", "origin %zu, %zu bytes, alignment %d: size %zu, cursor %zu", org, len, al, wr.GetSize(), wr.Tell());
          wr.Pop(); if (saved != len && saved != org + len) mc::fail("far/push", "origin %zu, %zu bytes: push returned %zu", org, len, saved);
          if (!org && wr.Tell() != len) mc::fail("far/pop/write", "%zu bytes: cursor %zu after pop", len, wr.Tell());
          wr.Seek(len); wr.Write(uint8(0x5a)); if (wr.Tell() != len + 1 || ss.str()[org + len] != 0x5a) mc::fail("far/seek/write", "origin %zu: seek to %zu does not lead there", org, len); }
        { std::stringstream ss(content); BinReaderRef rd(ss); rd.SetRelativeOrigin(org); rd.Skip(len); uint8 t = 0;
          if (rd.Tell() != len) mc::fail("far/skip/read", "origin %zu: cursor %zu after a skip of %zu", org, rd.Tell(), len);
          rd.Push(); if (rd.GetSize() != content.size() - org || rd.Tell() != len) mc::fail("far/size/read", "origin %zu, at %zu: size %zu of %zu, cursor %zu", org, len, rd.GetSize(), content.size() - org, rd.Tell());
          rd.ApplyPadding(al); if (rd.Tell() != want) mc::fail("far/padding/read", "origin %zu, at %zu, alignment %d: cursor %zu", org, len, al, rd.Tell());
          if (!org) { rd.Pop(); if (rd.Tell() != len) mc::fail("far/pop/read", "at %zu: cursor %zu after pop", len, rd.Tell()); }
          if (org + len) { rd.ResetRelativeOrigin(false); rd.Seek(org + len - 1); rd.Read(t); if (t != uint8(content[org + len - 1])) mc::fail("far/seek/read", "seek to %zu reads another byte", org + len - 1); } }
        mc::step(14); mc::trace(2); mc::state(mc::mix(mc::mix(org) + len * 131 + size_t(al)));
      }
}
