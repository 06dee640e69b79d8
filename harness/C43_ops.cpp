#include "C43_ops.hpp"
#include "datas/allocator_hybrid.hpp"
#include "datas/base_128.hpp"
#include "datas/binreader.hpp"
#include "datas/binreader_stream.hpp"
#include "datas/binwritter.hpp"
#include "datas/binwritter_stream.hpp"
#include "datas/bitfield.hpp"
#include "datas/directory_scanner.hpp"
#include "datas/encrypt/blowfish.h"
#include "datas/encrypt/blowfish2.h"
#include "datas/encrypt/xorenc.hpp"
#include "datas/endian.hpp"
#include "datas/fileinfo.hpp"
#include "datas/flags.hpp"
#include "datas/float.hpp"
#include "datas/jenkinshash.hpp"
#include "datas/jenkinshash3.hpp"
#include "datas/matrix44.hpp"
#include "datas/pointer.hpp"
#include "datas/pugiex.hpp"
#include "datas/refl_array.hpp"
#include "datas/reflector.hpp"
#include "datas/reflector_io.hpp"
#include "datas/reflector_xml.hpp"
#include "datas/stat.hpp"
#include "datas/tchar.hpp"
#include "datas/vectors_simd.hpp"
#include "datas/vectors_string.hpp"
#include "datas/zip_vfs.hpp"
#include "formats/BlockDecoder.inl"
#include "formats/BlockDecoderSimd.hpp"
#include "formats/DDS.hpp"
#include "formats/WAVE.hpp"
#include "formats/addr_ps3.hpp"
#include "uni/format.hpp"
#include "uni/list_vector.hpp"
#include "uni/model.hpp"
#include "uni/motion.hpp"
#include "uni/rts.hpp"
#include "uni/skeleton.hpp"
#include <cstring>
#include <memory>
#include <sstream>
typedef std::string S;
#ifndef MC_FALLBACK // as in C26
namespace es { thread_local std::vector<void *> usedPts; }
#else
namespace es { std::vector<void *> usedPts; }
#endif
S libTmp, libZip[2];
REFLECTOR_CREATE(OpE, ENUM, 2, CLASS, 8, Red, Green = 5, Blue, Last = 200);
REFLECTOR_CREATE(OpW, ENUM, 2, CLASS, 32, Near = 3, Far = 70000);
REFLECTOR_CREATE(OpF, ENUM, 2, CLASS, 8, F0, F1, F6 = 6);
typedef BitMemberDecl<0, 3> opb0; typedef BitMemberDecl<1, 9> opb1; typedef BitMemberDecl<2, 4> opb2;
typedef BitFieldType<uint16, opb0, opb1, opb2> OpBits;
REFLECTOR_CREATE(OpBits, BITFIELD, 1, VARNAMES, opb0, opb1, opb2);
struct OpIn { int32 a; float b; void ReflectorTag(); };
REFLECTOR_CREATE(OpIn, 1, VARNAMES, a, b);
struct OpC { bool b; int8 i8; uint16 u16; int32 i32; uint64 u64; float f; double d; OpE e; OpW w; es::Flags<OpF, uint8> fl; Vector v; Vector4A16 v4; OpIn in; OpBits bits; int16 arr[3]; OpE ea[2]; OpIn ina[2]; std::string s; std::string sa[2]; };
REFLECTOR_CREATE(OpC, 1, VARNAMES, b, i8, u16, i32, u64, f, d, e, w, fl, v, v4, in, bits, arr, ea, ina, s, sa);
static std::unique_ptr<OpC> make(int who) { std::unique_ptr<OpC> c(new OpC()); c->b = who; c->i8 = who ? -7 : 9; c->u16 = who ? 1 : 65000; c->i32 = who ? -70000 : 12; c->u64 = who ? 1ull << 60 : 3; c->f = who ? 1.5f : -.25f; c->d = who ? 1e3 : 2.5; c->e = who ? OpE::Blue : OpE::Last; c->w = who ? OpW::Far : OpW::Near; c->fl += who ? OpF::F6 : OpF::F1; c->v = who ? Vector(1, 2, 3) : Vector(-4, 5.5f, 6); c->v4 = who ? Vector4A16(1, 2, 3, 4) : Vector4A16(9, 8, 7, 6); c->in = who ? OpIn{3, 4.f} : OpIn{-1, .5f}; c->bits.Set<opb0>(who ? 5 : 2); c->bits.Set<opb1>(who ? 300 : 17); for (int i = 0; i < 3; i++) c->arr[i] = int16(who ? i : -i * 100); c->ea[0] = who ? OpE::Red : OpE::Green; c->ea[1] = OpE::Blue; c->ina[0] = {who, 1.f}; c->ina[1] = {-who, 2.f}; c->s = who ? "text of the one" : "z"; c->sa[0] = who ? "p" : "quite a long text, longer than a string holds"; c->sa[1] = "q"; return c; }
static S show(const Reflector &r) { S o; for (size_t i = 0; i < r.GetNumReflectedValues(); i++) o += r.GetReflectedValue(i) + ";"; return o; }
template <class C> static S hexOf(const C &c) { S o; auto p = reinterpret_cast<const unsigned char *>(&c); for (size_t i = 0; i < sizeof c; i++) { char b[4]; snprintf(b, 4, "%02x", p[i]); o += b; } return o; }
static S hexS(const S &s) { S o; for (unsigned char c : s) { char b[4]; snprintf(b, 4, "%02x", c); o += b; } return o; }
static S num(double d) { char b[40]; snprintf(b, 40, "%.9g;", d); return b; }
// ---- operations
static S oText(int w) { auto c = make(w); ReflectorWrap<OpC> r(*c); return show(r); }
static S oSet(int w) { auto c = make(0); ReflectorWrap<OpC> r(*c); S o; const char *T[][2] = {{"i32", w ? "-5" : "0x7f"}, {"u64", w ? "18446744073709551615" : "1"}, {"f", w ? "1.25" : "1e-3"}, {"d", w ? "-3.5" : "7"}, {"b", w ? "true" : "false"}, {"s", w ? "one" : "nothing"}}; for (auto &t : T) { o += std::to_string(int(r.SetReflectedValue(JenHash(t[0]), t[1]))); } return o + show(r); }
static S oEnum(int w) { auto c = make(w); ReflectorWrap<OpC> r(*c); S o; for (const char *t : {w ? "Green" : "Last", w ? "Nothing" : "Blue", w ? "Red" : "Green"}) { o += std::to_string(int(r.SetReflectedValue(JenHash("e"), t))) + r.GetReflectedValue(JenHash("e")); } o += std::to_string(int(r.SetReflectedValue(JenHash("w"), w ? "Near" : "Far"))) + r.GetReflectedValue(JenHash("w")); return o; }
static S oFlags(int w) { auto c = make(w); ReflectorWrap<OpC> r(*c); S o; for (const char *t : {w ? "F0 | F6" : "F1", w ? "" : "F6|F1|F0", "F1 | Unknown"}) o += std::to_string(int(r.SetReflectedValue(JenHash("fl"), t))) + r.GetReflectedValue(JenHash("fl")) + ","; return o; }
static S oVec(int w) { auto c = make(w); ReflectorWrap<OpC> r(*c); S o; o += std::to_string(int(r.SetReflectedValue(JenHash("v"), w ? "[1, 2, 3]" : "[-1.5, 0, 1e3]"))); o += std::to_string(int(r.SetReflectedValue(JenHash("v4"), w ? "[1, 2, 3, 4]" : "[4, 3, 2, 1]"))); o += std::to_string(int(r.SetReflectedValue(JenHash("arr"), w ? "{1, 2, 3}" : "{-1, -2, -3}"))); return o + show(r); }
static S oArr(int w) { auto c = make(w); ReflectorWrap<OpC> r(*c); S o; for (size_t i = 0; i < 2; i++) { o += std::to_string(int(r.SetReflectedValue(JenHash("ea"), w ? "Blue" : "Last", i))); o += std::to_string(int(r.SetReflectedValue(JenHash("sa"), w ? "left" : "right", i))); o += r.GetReflectedValue(JenHash("ea"), i) + r.GetReflectedValue(JenHash("sa"), i); } return o + show(r); }
static S oSub(int w) { auto c = make(w); ReflectorWrap<OpC> r(*c); S o; for (const char *n : {"in", "bits"}) { auto in = r.GetReflectedSubClass(JenHash(n)); ReflectorPureWrap s(in); o += s.GetClassName().to_string() + show(s); } for (size_t i = 0; i < 2; i++) { auto in = r.GetReflectedSubClass(JenHash("ina"), i); ReflectorPureWrap s(in); s.SetReflectedValueInt(JenHash("a"), w ? 11 : 22); o += show(s); } return o; }
static S oNum(int w) { auto c = make(w); ReflectorWrap<OpC> r(*c); S o; o += std::to_string(int(r.SetReflectedValueInt(JenHash("i8"), w ? 5 : -300))); o += std::to_string(int(r.SetReflectedValueUInt(JenHash("u16"), w ? 6 : 70000))); o += std::to_string(int(r.SetReflectedValueFloat(JenHash("f"), w ? 2.5 : -8))); return o + show(r); }
static S oPair(int w) { auto c = make(w); ReflectorWrap<OpC> r(*c); S o; for (size_t i = 0; i < r.GetNumReflectedValues(); i += 1 + size_t(w)) { Reflector::KVPairFormat f; f.formatValue = w; auto p = r.GetReflectedPair(i, f); o += p.name.to_string() + "=" + p.value + ";"; } return o; }
static S oBin(int w) { auto c = make(w); ReflectorWrap<OpC> r(*c); std::stringstream ss; ReflectorBinUtil::Save(r, BinWritterRef(ss)); std::unique_ptr<OpC> d(new OpC()); ReflectorWrap<OpC> q(*d); int e = ReflectorBinUtil::Load(q, BinReaderRef(ss)); return hexS(ss.str()) + std::to_string(e) + show(q); }
static S oDb(int w) { ReflectorIO io; if (w) { io.AddClass<OpC>(); io.AddEnum<OpE>(); } else { io.AddClass<OpIn>(); io.AddClass<OpBits>(); io.AddEnum<OpW>(); io.AddEnum<OpF>(); } std::stringstream ss; io.Save(BinWritterRef(ss)); ReflectorIO in; S o = std::to_string(in.Load(BinReaderRef(ss))); for (auto k : in.Classes()) { o += S(k->className); for (size_t i = 0; i < k->nTypes; i++) o += std::to_string(k->types[i].typeHash.raw()) + "," + S(k->typeNames[i]); } for (auto &e : in.Enums()) { o += e.name.to_string(); size_t i = 0; for (auto n = e.begin(); n != e.end(); ++n) o += n->to_string() + std::to_string(e.values[i++]); } return o; }
static S xmlText(pugi::xml_document &d) { std::stringstream ss; d.save(ss, "", pugi::format_raw); return ss.str(); }
static S oXml1(int w) { auto c = make(w); c->v4 = Vector4A16(1, 2, 3, 4); ReflectorWrap<OpC> r(*c); pugi::xml_document d; ReflectorXMLUtil::Save(r, d, true); S o = xmlText(d); std::unique_ptr<OpC> e(new OpC()); ReflectorWrap<OpC> q(*e); ReflectorXMLUtil::Load(q, d, true); return o + show(q); }
static S oXml2(int w) { auto c = make(w); ReflectorWrap<OpC> r(*c); pugi::xml_document d; if (w) ReflectorXMLUtil::SaveV2(r, d, true); else ReflectorXMLUtil::SaveV2a(r, d, {ReflectorXMLUtil::Flags_ClassNode, ReflectorXMLUtil::Flags_StringAsAttribute}); S o = xmlText(d); std::unique_ptr<OpC> e(new OpC()); ReflectorWrap<OpC> q(*e); ReflectorXMLUtil::LoadV2(q, d, true); return o + show(q); }
static S oStream(int w) { std::stringstream ss; { BinWritterRef b(ss); b.SwapEndian(w); b.Write(uint32(0x01020304 + w)); b.WriteContainer(S(w ? "abc" : "defghij")); b.ApplyPadding(16); b.Write(2.5 * (w + 1)); b.WriteBuffer("xyz", 3); b.SetRelativeOrigin(4); b.Seek(8); b.Write(uint16(w)); } BinReaderRef r(ss); r.SwapEndian(w); uint32 a = 0; r.Read(a); S t; r.ReadContainer(t, w ? 3 : 7); r.ApplyPadding(16); double d = 0; r.Read(d); return hexS(ss.str()) + std::to_string(a) + t + num(d); }
static S oFile(int w) { S p = libTmp + "/file" + std::to_string(w); { BinWritter f(p); f.Write(uint32(w * 77)); f.WriteContainer(S(size_t(20 + w), char('a' + w))); } BinReader r(p); uint32 a = 0; r.Read(a); S t; r.ReadContainer(t, size_t(20 + w)); return std::to_string(a) + t + std::to_string(r.GetSize()); }
static S oVar(int w) { std::stringstream ss; for (int64 v : {int64(w), int64(-1 - w * 1000), int64(1) << (20 + w * 30)}) { bint128 b(v); b.Write(BinWritterRef(ss)); buint128 u(uint64(v) & 0xffffffffffull); u.Write(BinWritterRef(ss)); } S o = hexS(ss.str()); BinReaderRef rd(ss); for (int i = 0; i < 3; i++) { bint128 b; b.Read(rd); buint128 u; u.Read(rd); o += std::to_string(int64(b)) + "," + std::to_string(uint64(u)) + ";"; } return o; }
static S oSwap(int w) { uint32 a = 0x01020304u << w; FByteswapper(a); double d = w + .5; FByteswapper(d); Vector4A16 v(1, 2, float(w), 4); FByteswapper(v); int16 q[3] = {1, int16(w), 3}; FByteswapper(q); return hexOf(a) + hexOf(d) + hexOf(v) + hexOf(q); }
static S oBits(int w) { OpBits b{}; b.Set<opb0>(w ? 7 : 1); b.Set<opb1>(w ? 511 : 5); b.Set<opb2>(w ? 3 : 12); S o = hexOf(b); FByteswapper(b); o += hexOf(b); es::Flags<OpF, uint8> f; f += w ? OpF::F6 : OpF::F0; f += OpF::F1; f -= w ? OpF::F1 : OpF::F0; return o + hexOf(f) + std::to_string(f[OpF::F6]); }
static S oHash(int w) { S s = w ? "a text to hash" : "other"; return std::to_string(JenkinsHash_(es::string_view(s))) + "," + std::to_string(JenkinsHash3_(es::string_view(s))) + "," + std::to_string(JenHash(es::string_view(s)).raw()); }
static S oUtf(int w) { S t = w ? "\xc5\xbe\xe2\x82\xac plain \xf0\x9f\x98\x80" : "ascii \xc3\xa9"; std::wstring x = std::to_wstring(t); S o; for (wchar_t c : x) o += std::to_string(long(c)) + ","; return o + std::to_string(x); }
static S oPath(int w) { AFileInfo f(w ? "folder/sub.dir/name.ext" : "C:\\other\\file"); S o = f.GetFullPath().to_string() + "|" + f.GetFolder().to_string() + "|" + f.GetFilename().to_string() + "|" + f.GetExtension().to_string(); for (auto &e : f.Explode()) o += "," + e.to_string(); es::string_view v(w ? "  trimmed text " : "x y"); return o + es::TrimWhitespace(v).to_string() + std::to_string(v.find(w ? "text" : "y")); }
static S oScan(int w) { S d = libTmp + "/scan" + std::to_string(w); DirectoryScanner s; s.AddFilter(w ? ".a" : "b"); s.Scan(d + "/"); std::vector<S> v(s.begin(), s.end()); std::sort(v.begin(), v.end()); S o; for (auto &f : v) o += f.substr(d.size()) + ";"; return o; }
static S oStat(int w) { S d = libTmp + "/stat" + std::to_string(w); S o; for (const char *n : {"", "/f", "/none"}) o += std::to_string(int(FileType(d + n))); std::vector<S> fs = {"x/y/f1", "x/z/f2", w ? "p/f" : "q/r/f"}; mkdirs(d + "/", fs, [](const S &s) { return s; }); for (const char *n : {"/x/y", "/x/z", "/p", "/q/r"}) o += std::to_string(int(FileType(d + n))); return o; }
static S oPugi(int w) { S p = libTmp + "/x" + std::to_string(w) + ".xml"; pugi::xml_document d; auto r = d.append_child(w ? "root" : "top"); for (int i = 0; i < 3 + w; i++) r.append_child(i & 1 ? "a" : "b").append_attribute("n") = i; XMLToFile(p, d); auto in = XMLFromFile(p); S o; for (auto c : XMLCollectChildren(in.first_child(), "a")) o += c.attribute("n").value(); try { XMLFromFile(p + ".missing"); } catch (const std::exception &e) { o += "E" + S(e.what()).substr(0, 10); } return o; }
static S oZip(int w) { std::stringstream ss(libZip[w]); ZIPVFS z{BinReaderRef(ss)}; S o; for (auto i = z.begin(); i != z.end(); ++i) { auto f = z.Get(i); S t; f.reader.ReadContainer(t, f.reader.GetSize()); o += i->first + "=" + t + ";"; } return o; }
static S oVectors(int w) { Vector4A16 a(1, 2, 3, 4 + float(w)), b(.5f, -1, float(w), 2); Vector4A16 c = a * b + a / Vector4A16(2) - b; S o; for (int i = 0; i < 4; i++) o += num(c._arr[i]); o += num(a.Dot(b)) + num(a.Length()); Vector4A16 n = a.Normalized(); for (int i = 0; i < 4; i++) o += num(n._arr[i]); o += std::to_string(a == b) + std::to_string(a == a); UCVector4 u(uint8(1 + w), 2, 3, 4); o += std::to_string(u); Vector q(1, 2, float(w)); return o + std::to_string(q.Cross(Vector(0, 1, 0))); }
static S oEps(int w) { Vector4A16 a(1, 1, 1, 1), b(1.01f, 1, 1, 1); S o = std::to_string(a == b); Vector4A16::SetEpsilon(w ? .1f : 1e-6f); o += std::to_string(a == b); Vector4A16::SetEpsilon(w ? 1e-6f : .1f); o += std::to_string(a == b); Vector4A16::SetEpsilon(FLT_EPSILON); return o + std::to_string(a == b); }
static S oMatrix(int w) { Vector4A16 q = Vector4A16(.1f, .2f * float(w), -.3f, .9f).Normalized(); esMatrix44 m(q); esMatrix44 t; t.Compose(Vector4A16(1, 2, 3, 1), q, Vector4A16(1, 1, 1, 0)); m *= t; Vector4A16 p, r, s; m.Decompose(p, r, s); S o; for (int i = 0; i < 4; i++) { for (int k = 0; k < 4; k++) o += num(m[size_t(i)]._arr[k]); o += num(r._arr[i]) + num(s._arr[i]); } m.Transpose(); auto x = -m; return o + num(x[0].X) + num(x[2].Y); }
static S oFormat(int w) { const uni::DataType D[] = {uni::DataType::R8G8B8A8, uni::DataType::R10G10B10A2, uni::DataType::R16G16, uni::DataType::R11G11B10, uni::DataType::R5G6B5}; char buf[64]; for (int i = 0; i < 64; i++) buf[i] = char(i * 37 + w * 5); S o; for (auto d : D) { auto &c = uni::FormatCodec::Get({w ? uni::FormatType::UNORM : uni::FormatType::NORM, d}); uni::FormatCodec::fvec v; c.Sample(v, buf, 3, 8); for (auto &e : v) for (int k = 0; k < 4; k++) o += num(e._arr[k]); auto &ic = uni::FormatCodec::Get({w ? uni::FormatType::UINT : uni::FormatType::INT, d}); IVector4A16 iv; ic.GetValue(iv, buf); o += std::to_string(iv.X) + "," + std::to_string(iv.Y) + ";"; } try { uni::FormatCodec::Get({uni::FormatType::FLOAT, uni::DataType::R8}); } catch (const std::exception &) { o += "E"; } return o; }
static S oHalf(int w) { S o; for (float f : {1.f + float(w), -.3f, 70000.f, 1e-6f}) { size_t h = float16::FromFloat(f); o += std::to_string(h) + "=" + num(float16::ToFloat(h)); auto v = float16::FromVector4(Vector4A16(f, 1, float(w), -f)); o += hexOf(v); } return o; }
static S oList(int w) { struct Item : uni::Base { int v; explicit Item(int i) : v(i) {} }; struct Own { int v; operator uni::Element<const Item>() const { return uni::Element<const Item>(new Item(v), es::deleter_hybrid()); } }; uni::VectorList<Item, Own> l; for (int i = 0; i < 3 + w; i++) l.storage.push_back(Own{i * 10 + w}); S o; for (auto e : l) o += std::to_string(e->v) + ","; return o + std::to_string(l.Size()); }
static S oFix(int w) { struct Node { esPointerX64<int> p; esPointerX86<int> q; int data[4]; }; std::unique_ptr<Node> n(new Node()); memset(static_cast<void *>(n.get()), 0, sizeof *n); ClearESPointers(); int64 off = int64(offsetof(Node, data)) + 4 * w; memcpy(static_cast<void *>(&n->p), &off, 8); int32 o32 = int32(off) + 4; memcpy(static_cast<void *>(&n->q), &o32, 4); n->data[w] = 5 + w; n->data[w + 1] = 50 + w; char *root = reinterpret_cast<char *>(n.get()); S o = std::to_string(n->p.Fixup(root)) + std::to_string(n->q.Fixup(root)) + std::to_string(n->p.Fixup(root)) + std::to_string(n->q.Fixup(root)); return o + std::to_string(*n->p) + "," + std::to_string(*n->q); }
static S oAlloc(int w) { alignas(16) char buf[256]; memset(buf, '#', sizeof buf); es::allocator_hybrid<int> al(reinterpret_cast<int *>(buf)); std::vector<int, es::allocator_hybrid<int>> v(al); v.reserve(4); for (int i = 0; i < 4; i++) v.push_back(i + w); v.push_back(9); S o; for (int i : v) o += std::to_string(i) + ","; return o + std::to_string(int(buf[0])); }
static S oCipher(int w) { S o; for (auto m : {BlowfishEncoder::ECB, BlowfishEncoder::CBC, BlowfishEncoder::PCBC, BlowfishEncoder::CFB, BlowfishEncoder::OFB}) { std::unique_ptr<BlowfishEncoder> b(w ? new BlowfishEncoder2() : new BlowfishEncoder()); b->SetKey(es::string_view(w ? "secret" : "another key")); b->Mode(m); b->Vector(uint64(w) + 5); char t[33]; memset(t, 'a' + w, 33); b->Encode(t, 32); o += hexS(S(t, 32)); b->Decode(t, 32); o += S(t, 32); } return o; }
static S oXor(int w) { XOREncoder x; x.SetKey(w ? "key" : "longer key"); char t[20]; for (int i = 0; i < 20; i++) t[i] = char(i + w); x.Encode(t, 20); return hexS(S(t, 20)); }
static S oBlocks(int w) { char in[16]; for (int i = 0; i < 16; i++) in[i] = char(i * 41 + w * 13 + 7); S o; char out[64 * 4]; for (int k = 0; k < 6; k++) { memset(out, 0, sizeof out); switch (k) { case 0: DecodeBC1Block(in, out, 0, 0, 4); break; case 1: DecodeBC1BlockA(in, out, 0, 0, 4); break; case 2: DecodeBC2Block(in, out, 0, 0, 4); break; case 3: DecodeBC3Block(in, out, 0, 0, 4); break; case 4: DecodeBC4Block(in, out, 0, 0, 4); break; default: DecodeBC5Block(in, out, 0, 0, 4); } o += hexS(S(out, 64)); } return o; }
static S oDds(int w) { DDS d; d = w ? DDSFormat_DX10 : DDSFormat_DXT1; if (w) d.dxgiFormat = DXGI_FORMAT_R8G8B8A8_UNORM; d.width = 64u << w; d.height = 32; d.NumMipmaps(3 + w); d.ComputeBPP(); DDS::Mips m; uint32 n = d.ComputeBufferSize(m); S o = std::to_string(n) + "," + std::to_string(d.bpp); for (int i = 0; i < 3 + w; i++) o += "," + std::to_string(m.sizes[i]) + "@" + std::to_string(m.offsets[i]); return o; }
static S oMorton(int w) { MortonSettings s(size_t(16) << w, 8); S o; for (size_t y = 0; y < 4; y++) for (size_t x = 0; x < 8; x++) o += std::to_string(MortonAddr(x, y, s)) + ","; return o; }
static S oWave(int w) { S f; auto put = [&](const void *p, size_t n) { f.append(static_cast<const char *>(p), n); }; WAVE_fmt fm(w ? WAVE_FORMAT::PCM : WAVE_FORMAT::ALAW); fm.sampleRate = 44100; fm.channels = uint16(1 + w); fm.bitsPerSample = 16; fm.CalcData(); WAVE_data d(8); RIFFHeader h(uint32(12 + sizeof fm + 8 + 8)); put(&h, sizeof h); put(&fm, sizeof fm); put(&d, sizeof d); f += S(8, 'd'); return hexS(f); }
struct OpPrim : uni::PrimitiveDescriptor { int w; char raw[32]; explicit OpPrim(int k) : w(k) { for (int i = 0; i < 32; i++) raw[i] = char(i * 9 + k); } const char *RawBuffer() const override { return raw; } size_t Stride() const override { return 4; } size_t Offset() const override { return 0; } size_t Index() const override { return 0; } Usage_e Usage() const override { return Usage_e::Position; } uni::FormatDescr Type() const override { return {uni::FormatType::UNORM, uni::DataType::R8G8B8A8}; } uni::BBOX UnpackData() const override { return {Vector4A16(1, 2, 3, 4), Vector4A16(float(w), 1, 1, 1)}; } UnpackDataType_e UnpackDataType() const override { return w ? UnpackDataType_e::Madd : UnpackDataType_e::Add; } };
static S oModel(int w) { OpPrim p(w); uni::FormatCodec::fvec v; p.Codec().Sample(v, p.RawBuffer(), 4, p.Stride()); p.Resample(v); S o; for (auto &e : v) for (int k = 0; k < 4; k++) o += num(e._arr[k]); return o; }
struct OpTrack : uni::MotionTrack { int w; explicit OpTrack(int k) : w(k) {} TrackType_e TrackType() const override { return Position; } size_t BoneIndex() const override { return size_t(w); } void GetValue(Vector4A16 &o, float t) const override { o = Vector4A16(t, float(w), 1, 0); } };
static S oTrack(int w) { OpTrack t(w); Vector4A16 v; t.GetValue(v, .5f + float(w)); S o = num(v.X) + num(v.Y); try { uni::RTSValue r; static_cast<uni::MotionTrack &>(t).GetValue(r, 1.f); o += "none"; } catch (const std::exception &e) { o += e.what(); } try { esMatrix44 m; static_cast<uni::MotionTrack &>(t).GetValue(m, 1.f); o += "none"; } catch (const std::exception &e) { o += e.what(); } return o; }
// ---- one object read by both
static std::unique_ptr<OpC> shC; static std::unique_ptr<ReflectorWrap<OpC>> shR; static std::unique_ptr<BlowfishEncoder> shB[5]; static std::unique_ptr<AFileInfo> shF; static std::unique_ptr<pugi::xml_document> shX; static std::unique_ptr<esMatrix44> shM; static std::unique_ptr<DDS> shD;
static S hRefl(int w) { const Reflector &r = *shR; S o = r.GetClassName().to_string(); size_t n = r.GetNumReflectedValues(); for (size_t i = 0; i < n; i++) { size_t k = w ? n - 1 - i : i; o += r.GetReflectedValue(k); auto p = r.GetReflectedPair(k); o += p.name.to_string() + p.value; o += std::to_string(r.IsArray(k)) + std::to_string(r.IsReflectedSubClass(k)); } return o; }
static S hSub(int w) { const Reflector &r = *shR; S o; for (const char *n : {w ? "in" : "bits", w ? "bits" : "in"}) { auto in = r.GetReflectedSubClass(JenHash(n)); ReflectorPureWrap s(in); o += show(s); } return o; }
static S hBin(int) { const Reflector &r = *shR; std::stringstream ss; ReflectorBinUtil::Save(r, BinWritterRef(ss)); return hexS(ss.str()); }
static S hXml(int w) { const Reflector &r = *shR; pugi::xml_document d; if (w) ReflectorXMLUtil::SaveV2(r, d, true); else ReflectorXMLUtil::Save(r, d, true); return xmlText(d); }
static S hXmlIn(int) { std::unique_ptr<OpC> e(new OpC()); ReflectorWrap<OpC> q(*e); ReflectorXMLUtil::LoadV2(q, *shX, true); return show(q); }
static S hCipher(int w) { S o; for (int i = 0; i < 5; i++) { char t[24]; memset(t, 'k' + w, 24); shB[i]->Encode(t, 24); o += hexS(S(t, 24)); shB[i]->Decode(t, 24); o += S(t, 24); } return o; }
static S hPath(int) { const AFileInfo &f = *shF; S o = f.GetFullPath().to_string() + "|" + f.GetFolder().to_string() + "|" + f.GetFilename().to_string() + "|" + f.GetExtension().to_string() + f.GetFullPathNoExt().to_string(); for (auto &e : f.Explode()) o += "," + e.to_string(); return o; }
static S hMatrix(int w) { const esMatrix44 &m = *shM; esMatrix44 a = m * m, b = -m; Vector4A16 p = m[size_t(w)]; S o; for (int i = 0; i < 4; i++) o += num(a[size_t(i)].X) + num(b[size_t(i)].Y) + num(p._arr[i]); return o; }
static S hCodec(int w) { char buf[16]; for (int i = 0; i < 16; i++) buf[i] = char(i * 77 + w); const auto &c = uni::FormatCodec::Get({uni::FormatType::NORM, uni::DataType::R10G10B10A2}); S o; for (int i = 0; i < 3; i++) { Vector4A16 v; c.GetValue(v, buf + 4 * i); for (int k = 0; k < 4; k++) o += num(v._arr[k]); } return o; }
static S hDds(int) { const DDS &d = *shD; DDS::Mips m; S o = std::to_string(d.ComputeBufferSize(m)); for (int i = 0; i < 4; i++) o += "," + std::to_string(m.sizes[i]) + "@" + std::to_string(m.offsets[i]); return o; }
void libPrepare() {
  RegisterReflectedTypes<OpE, OpW, OpF, OpBits, OpIn, OpC>();
  shC = make(1); shR.reset(new ReflectorWrap<OpC>(*shC)); for (int i = 0; i < 5; i++) { shB[i].reset(new BlowfishEncoder()); shB[i]->SetKey(es::string_view("shared key")); shB[i]->Mode(decltype(BlowfishEncoder::ECB)(i)); shB[i]->Vector(77); } shF.reset(new AFileInfo("some/folder/file.ext")); shM.reset(new esMatrix44(Vector4A16(.1f, .2f, .3f, .9f).Normalized())); shX.reset(new pugi::xml_document()); ReflectorXMLUtil::SaveV2(*shR, *shX, true); shD.reset(new DDS()); *shD = DDSFormat_DXT1; shD->width = shD->height = 64; shD->NumMipmaps(4); shD->ComputeBPP();
}
#define OP(n) {#n, n, #n[0] == 'h'}
const std::vector<LibOp> &libOps() { static const std::vector<LibOp> v = {OP(oText), OP(oSet), OP(oEnum), OP(oFlags), OP(oVec), OP(oArr), OP(oSub), OP(oNum), OP(oPair), OP(oBin), OP(oDb), OP(oXml1), OP(oXml2), OP(oStream), OP(oFile), OP(oVar), OP(oSwap), OP(oBits), OP(oHash), OP(oUtf), OP(oPath), OP(oScan), OP(oStat), OP(oPugi), OP(oZip), OP(oVectors), OP(oEps), OP(oMatrix), OP(oFormat), OP(oHalf), OP(oList), OP(oFix), OP(oAlloc), OP(oCipher), OP(oXor), OP(oBlocks), OP(oDds), OP(oMorton), OP(oWave), OP(oModel), OP(oTrack), OP(hRefl), OP(hSub), OP(hBin), OP(hXml), OP(hXmlIn), OP(hCipher), OP(hPath), OP(hMatrix), OP(hCodec), OP(hDds)}; return v; }
