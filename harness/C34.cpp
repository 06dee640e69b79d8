// REPO: datas/encrypt/blowfish.cpp
// FLAGS: -I{repo}/datas
// VARIANT: opt -O2
// VARIANT: asan -O1 -fsanitize=address
// RULE: state = key, vector, mode and data length configuration; transition = one real cipher call or block; trace = one key, one buffer history or one call sequence compared with a Blowfish written from its definition (boxes computed from the digits of pi, validated with published ciphertexts)
// ASSUME: keys are not empty for Blowfish, buffers are little endian 32 bit word pairs; a chained mode used after SetKey takes its vector from Vector()
#include "mc.hpp"
#include "datas/encrypt/blowfish.h"
#include "datas/encrypt/blowfish2.h"
#include "datas/encrypt/xorenc.hpp"
#include <memory>
typedef uint32_t u32; typedef uint64_t u64;
// ---- reference
static std::vector<u32> &piWords() { // fraction of pi, most significant word first: 16 atan(1/5) - 4 atan(1/239)
  static std::vector<u32> out; if (!out.empty()) return out;
  const int N = 1042 + 6; typedef std::vector<u32> B; B sum(N + 1, 0);
  auto div = [&](B &a, u32 d) { u64 r = 0; for (auto &w : a) { u64 c = r << 32 | w; w = u32(c / d); r = c % d; } };
  auto add = [&](const B &b, bool neg) { int64_t c = 0; for (int i = N; i >= 0; i--) { int64_t v = int64_t(sum[i]) + (neg ? -int64_t(b[i]) : int64_t(b[i])) + c; c = v >> 32; sum[i] = u32(v); } };
  auto atanInv = [&](u32 q, u32 mul, bool neg) { B t(N + 1, 0); t[0] = mul; div(t, q); for (u32 k = 0;; k++) { B s = t; div(s, 2 * k + 1); bool z = true; for (auto w : s) if (w) { z = false; break; } if (z) break; add(s, neg ^ (k & 1)); div(t, q); div(t, q); } };
  atanInv(5, 16, false); atanInv(239, 4, true);
  out.assign(sum.begin() + 1, sum.begin() + 1043); return out;
}
struct RefBF { // rev = the second flavour: key words little endian, substitution bytes taken from the lowest
  u32 P[18], S[4][256]; bool rev = false;
  u32 F(u32 x) const { u32 b[4] = {x >> 24, x >> 16 & 255, x >> 8 & 255, x & 255}; if (rev) { std::swap(b[0], b[3]); std::swap(b[1], b[2]); } return ((S[0][b[0]] + S[1][b[1]]) ^ S[2][b[2]]) + S[3][b[3]]; }
  void enc(u32 &L, u32 &R) const { for (int i = 0; i < 16; i++) { L ^= P[i]; R ^= F(L); std::swap(L, R); } std::swap(L, R); R ^= P[16]; L ^= P[17]; }
  void dec(u32 &L, u32 &R) const { for (int i = 17; i > 1; i--) { L ^= P[i]; R ^= F(L); std::swap(L, R); } std::swap(L, R); R ^= P[1]; L ^= P[0]; }
  void key(const std::string &k, bool r) { rev = r; auto &pi = piWords(); size_t j = 0; for (int i = 0; i < 18; i++) { u32 w = 0; for (int n = 0; n < 4; n++) { u32 c = uint8_t(k[j++ % k.size()]); w |= c << (rev ? 8 * n : 24 - 8 * n); } P[i] = pi[i] ^ w; }
    for (int i = 0; i < 1024; i++) S[i / 256][i % 256] = pi[18 + i];
    u32 L = 0, R = 0; for (int i = 0; i < 18; i += 2) { enc(L, R); P[i] = L; P[i + 1] = R; } for (int i = 0; i < 1024; i += 2) { enc(L, R); S[i / 256][i % 256] = L; S[i / 256][i % 256 + 1] = R; } }
  u64 e(u64 b) const { u32 L = u32(b), R = u32(b >> 32); enc(L, R); return L | u64(R) << 32; }
  u64 d(u64 b) const { u32 L = u32(b), R = u32(b >> 32); dec(L, R); return L | u64(R) << 32; }
  // returns the vector with which the next block of the stream would go on
  u64 run(int mode, bool decode, u64 iv, std::string &s) const { for (size_t i = 0; i + 8 <= s.size(); i += 8) { u64 in, o; memcpy(&in, &s[i], 8);
      switch (mode) { case 0: o = decode ? d(in) : e(in); break; case 1: if (decode) { o = d(in) ^ iv; iv = in; } else { o = e(in ^ iv); iv = o; } break;
        case 2: o = decode ? d(in) ^ iv : e(in ^ iv); iv = in ^ o; break; case 3: o = in ^ e(iv); iv = decode ? in : o; break; default: iv = e(iv); o = in ^ iv; }
      memcpy(&s[i], &o, 8); } return iv; }
};
typedef BlowfishEncoder BF; static const decltype(BF::ECB) MODES[] = {BF::ECB, BF::CBC, BF::PCBC, BF::CFB, BF::OFB}; static const char *NAMES[] = {"ECB", "CBC", "PCBC", "CFB", "OFB"};
static std::unique_ptr<BF> make(bool second) { return std::unique_ptr<BF>(second ? new BlowfishEncoder2() : new BlowfishEncoder()); }
static void setKey(BF &b, const std::string &k) { IEncryptor &i = b; i.SetKey(es::string_view(k.data(), k.size())); }
// a buffer with guards around, at any alignment
static std::string call(const BF &b, bool decode, const std::string &in, const char *what, size_t lead = 16) { std::string buf = std::string(lead, char(0xA5)) + in + std::string(16, char(0x5A)); if (decode) b.Decode(&buf[lead], in.size()); else b.Encode(&buf[lead], in.size()); mc::step();
  for (size_t i = 0; i < buf.size(); i++) if (i < lead ? buf[i] != char(0xA5) : i >= lead + in.size() ? buf[i] != char(0x5A) : false) { mc::fail("bytes outside the buffer", "%s: byte at %ld of %zu changed", what, long(i) - long(lead), in.size()); break; } return buf.substr(lead, in.size()); }
static void block(const BF &b, const RefBF &r, u64 v, const std::string &k, bool second) { std::string in((const char *)&v, 8); std::string c = call(b, false, in, "block"); u64 got; memcpy(&got, c.data(), 8); u64 want = r.e(v);
  if (got != want) mc::fail(second ? "second cipher" : "cipher", "key %s block %016llx gives %016llx expected %016llx", mc::hex(k.data(), k.size()).c_str(), (unsigned long long)v, (unsigned long long)got, (unsigned long long)want);
  std::string p = call(b, true, c, "block"); if (p != in) mc::fail(second ? "second cipher decode" : "decode", "key %s block %016llx is not restored", mc::hex(k.data(), k.size()).c_str(), (unsigned long long)v);
  std::string d = call(b, true, in, "block"); memcpy(&got, d.data(), 8); if (got != r.d(v)) mc::fail(second ? "second cipher decode" : "decode", "key %s block %016llx decodes to %016llx expected %016llx", mc::hex(k.data(), k.size()).c_str(), (unsigned long long)v, (unsigned long long)got, (unsigned long long)r.d(v)); }
static void oneKey(const std::string &k) { mc::at("key %s", mc::hex(k.data(), k.size()).c_str()); for (int second = 0; second < 2; second++) { mc::trace(); mc::state(mc::hashBytes(k.data(), k.size(), second)); auto b = make(second); setKey(*b, k); RefBF r; r.key(k, second); for (u64 v : {u64(0), ~u64(0), u64(0x0123456789ABCDEFull)}) block(*b, r, v, k, second); } mc::beat(); }

MC_SECTION("published ciphertexts", 1) {
  struct { u64 key, plain, cipher; } V[] = {{0, 0, 0x4EF997456198DD78ull}, {~0ull, ~0ull, 0x51866FD5B85ECB8Aull}, {0x3000000000000000ull, 0x1000000000000001ull, 0x7D856F9A613063F2ull}, {0x1111111111111111ull, 0x1111111111111111ull, 0x2466DD878B963C9Dull},
    {0x0123456789ABCDEFull, 0x1111111111111111ull, 0x61F9C3802281B096ull}, {0x1111111111111111ull, 0x0123456789ABCDEFull, 0x7D0CC630AFDA1EC7ull}, {0xFEDCBA9876543210ull, 0x0123456789ABCDEFull, 0x0ACEAB0FC6A0A28Dull}, {0x7CA110454A1A6E57ull, 0x01A1D6D039776742ull, 0x59C68245EB05282Bull}};
  for (auto &v : V) { std::string k; for (int i = 0; i < 8; i++) k += char(v.key >> (56 - 8 * i)); mc::at("published key %016llx", (unsigned long long)v.key); mc::trace(); mc::state(mc::mix(v.key ^ v.plain));
    RefBF r; r.key(k, false); u64 in = v.plain >> 32 | v.plain << 32, out = v.cipher >> 32 | v.cipher << 32; if (r.e(in) != out) { fprintf(stderr, "reference cipher does not reproduce published vectors\n"); mc::fail("reference", "the reference is wrong"); }
    auto b = make(false); setKey(*b, k); u64 got; std::string c = call(*b, false, std::string((const char *)&in, 8), "published"); memcpy(&got, c.data(), 8); if (got != out) mc::fail("published", "key %016llx plain %016llx gives %08x%08x expected %016llx", (unsigned long long)v.key, (unsigned long long)v.plain, u32(got), u32(got >> 32), (unsigned long long)v.cipher); }
}
MC_SECTION("keys", 8) {
  uint64_t id = 0;
  for (size_t len = 1; len <= 80; len++) for (int pat = 0; pat < 6; pat++) { if (!mc::mine(id++)) continue; std::string k(len, 0); for (size_t i = 0; i < len; i++) k[i] = char(pat == 0 ? 0 : pat == 1 ? 0xff : pat == 2 ? i * 37 + 11 : pat == 3 ? 0x80 : pat == 4 ? 0x7f : 255 - i * 3); oneKey(k); }
  size_t top = mc::thorough() ? 16 : 8;
  for (size_t len = 1; len <= top; len++) for (size_t p = 0; p < len; p++) for (int v = 0; v < 256; v++) { if (!mc::mine(id++)) continue; std::string k(len, 0); for (size_t i = 0; i < len; i++) k[i] = char(i * 29 + 1); k[p] = char(v); oneKey(k); }
#ifndef MC_VARIANT_asan
  if (mc::thorough()) for (int v = 0; v < 65536; v++) { if (!mc::mine(id++)) continue; oneKey(std::string{char(v), char(v >> 8)}); }
#endif
}
MC_SECTION("blocks", 4) {
  uint64_t id = 0; const std::string KEYS[] = {"k", std::string("\xff\x80\x01", 3), "a longer key of twentyfive"}; std::string k8(8, 0);
  for (auto &k : KEYS) for (int second = 0; second < 2; second++) { if (!mc::mine(id++)) continue; mc::trace(); auto b = make(second); setKey(*b, k); RefBF r; r.key(k, second);
    for (int i = 0; i < 64; i++) for (int j = 0; j <= i; j++) for (int inv = 0; inv < 2; inv++) { u64 v = (u64(1) << i | u64(1) << j) ^ (inv ? ~u64(0) : 0); mc::at("block %016llx", (unsigned long long)v); mc::state(mc::hashBytes(&v, 8, mc::hashBytes(k.data(), k.size(), second))); block(*b, r, v, k, second); }
    for (int lane = 0; lane < 8; lane++) for (int lane2 = 0; lane2 < lane; lane2++) for (int v0 = 0; v0 < 256; v0 += mc::thorough() ? 1 : 5) for (int v1 = 0; v1 < 256; v1 += mc::thorough() ? 1 : 5) { u64 v = u64(v0) << 8 * lane | u64(v1) << 8 * lane2; mc::at("block %016llx", (unsigned long long)v); block(*b, r, v, k, second); mc::beat(); } }
}
static std::string data(size_t n, int pat) { std::string s(n, 0); for (size_t i = 0; i < n; i++) s[i] = char(pat == 0 ? 0 : pat == 1 ? 0xff : pat == 2 ? i * 73 + 5 : i / 8 * 17 + 1); return s; }
MC_SECTION("modes", 8) {
  uint64_t id = 0; const std::string KEYS[] = {"key", std::string("\xfe\x01\x80\x7f\xc0", 5)}; std::vector<u64> ivs = {0, ~u64(0), 0x0123456789ABCDEFull, 0x8000000000000000ull}; if (mc::thorough()) for (int i = 0; i < 64; i++) ivs.push_back(u64(1) << i);
  size_t top = mc::thorough() ? 96 : 48;
  for (auto &k : KEYS) for (int second = 0; second < 2; second++) for (int m = 0; m < 5; m++) { if (!mc::mine(id++)) continue; RefBF r; r.key(k, second); auto b = make(second); setKey(*b, k); b->Mode(MODES[m]);
    for (u64 iv : ivs) for (size_t n = 0; n <= top; n++) for (int pat = 0; pat < 4; pat++) { mc::at("mode %s vector %016llx length %zu data %d", NAMES[m], (unsigned long long)iv, n, pat); mc::trace(); mc::state(mc::hashBytes(k.data(), k.size(), mc::mix(iv + (((n * 4 + pat) * 5 + m) * 2 + second)))); b->Vector(iv);
      std::string in = data(n, pat), want = in, c; r.run(m, false, iv, want); std::string key = std::string(NAMES[m]) + (second ? " second" : "");
      c = call(*b, false, in, "encode"); if (c != want) mc::fail((key + " encode").c_str(), "vector %016llx length %zu data %d differs from the mode's definition: %s expected %s", (unsigned long long)iv, n, pat, mc::hex(c.data(), c.size()).c_str(), mc::hex(want.data(), want.size()).c_str());
      if (b->Vector() != iv) { mc::fail((key + " vector").c_str(), "encoding changed the vector"); b->Vector(iv); }
      std::string p = call(*b, true, c, "decode"); if (p != in) mc::fail((key + " roundtrip").c_str(), "vector %016llx length %zu data %d is not restored: %s", (unsigned long long)iv, n, pat, mc::hex(p.data(), p.size()).c_str());
      std::string dw = in; r.run(m, true, iv, dw); std::string dd = call(*b, true, in, "decode"); if (dd != dw) mc::fail((key + " decode").c_str(), "vector %016llx length %zu data %d decodes differently from the mode's definition", (unsigned long long)iv, n, pat);
      if (b->Vector() != iv) { mc::fail((key + " vector").c_str(), "decoding changed the vector"); b->Vector(iv); }
      // the explicit entry points, whatever the selected mode
      b->Mode(MODES[(m + 1 + n) % 5]); std::string x = in; char *q = n ? &x[0] : nullptr; switch (m) { case 0: b->EncodeECB(q, n); break; case 1: b->EncodeCBC(q, n); break; case 2: b->EncodePCBC(q, n); break; case 3: b->EncodeCFB(q, n); break; default: b->EncodeOFB(q, n); }
      if (x != want) mc::fail((key + " explicit encode").c_str(), "length %zu data %d", n, pat); switch (m) { case 0: b->DecodeECB(q, n); break; case 1: b->DecodeCBC(q, n); break; case 2: b->DecodePCBC(q, n); break; case 3: b->DecodeCFB(q, n); break; default: b->DecodeOFB(q, n); }
      if (x != in) mc::fail((key + " explicit decode").c_str(), "length %zu data %d", n, pat); b->Mode(MODES[m]);
#ifndef MC_VARIANT_asan
      if (n == top / 2) for (size_t lead = 1; lead < 8; lead++) if (call(*b, false, in, "unaligned", lead) != want) mc::fail((key + " alignment").c_str(), "buffer at %zu", lead);
#endif
      } mc::beat(); }
}
MC_SECTION("splits", 4) { // every way to cut a buffer at block boundaries, the vector carried on as the mode defines
  uint64_t id = 0; int blocks = mc::thorough() ? 10 : 7;
  for (int second = 0; second < 2; second++) for (int m = 0; m < 5; m++) for (int tail = 0; tail < 8; tail += 7) { if (!mc::mine(id++)) continue; RefBF r; std::string k = "split\xf0key"; r.key(k, second); auto b = make(second); setKey(*b, k); b->Mode(MODES[m]);
    for (int nb = 1; nb <= blocks; nb++) for (int cuts = 0; cuts < 1 << (nb - 1); cuts++) for (int dec = 0; dec < 2; dec++) { mc::at("%s %d blocks cut at %x", NAMES[m], nb, cuts); mc::trace(); mc::state(mc::mix(((((uint64_t(nb) << 12 | cuts) * 5 + m) * 2 + dec) * 2 + second) * 8 + tail)); std::string in = data(nb * 8 + tail, 2), want = in; u64 iv = 0x1122334455667788ull; r.run(m, dec, iv, want); std::string got; u64 v = iv; size_t from = 0;
      for (int i = 1; i <= nb; i++) if (i == nb || cuts >> (i - 1) & 1) { std::string part = in.substr(from, i * 8 - from + (i == nb ? tail : 0)); from = i * 8; b->Vector(v); std::string p2 = part; got += call(*b, dec, part, "split"); v = r.run(m, dec, v, p2); }
      if (got != want) mc::fail((std::string(NAMES[m]) + " split").c_str(), "%d blocks cut at mask %x, %s", nb, cuts, dec ? "decode" : "encode"); } }
}
MC_SECTION("call sequences", 8) { // every sequence of configuration and data calls on one object
  int depth = mc::thorough() ? 6 : 5; const std::string K[2] = {"one", std::string("\x90two", 4)}; const u64 IV[2] = {7, 0xF000000000000001ull}; std::vector<RefBF> refs(2); 
  for (int second = 0; second < 2; second++) { for (int i = 0; i < 2; i++) refs[i].key(K[i], second); const int OPS = 2 + 5 + 2 + 2; uint64_t total = 1; for (int i = 0; i < depth; i++) total *= OPS;
    for (uint64_t t = 0; t < total; t++) { if (!mc::mine(t / 121)) continue; int ops[8]; uint64_t x = t; int setk = 0; for (int i = depth; i--;) { ops[i] = int(x % OPS); x /= OPS; if (ops[i] < 2) setk++; } if (ops[depth - 1] < 9 || setk > 2) continue; // the last call processes data
      mc::trace(); auto b = make(second); setKey(*b, K[0]); const RefBF *r = &refs[0]; u64 iv = 0; int mode = 0; b->Vector(iv); uint64_t st = second;
      mc::at("sequence %llu %d", (unsigned long long)t, second);
      for (int i = 0; i < depth; i++) { int o = ops[i]; mc::step(); st = mc::mix(st * 16 + o + 1); mc::state(st);
        if (o < 2) { setKey(*b, K[o]); r = &refs[o]; if (!mode && b->Vector() != iv) mc::fail("vector lost", "setting a key in ECB mode changed the vector"); iv = b->Vector(); } else if (o < 7) { mode = o - 2; b->Mode(MODES[mode]); } else if (o < 9) { iv = IV[o - 7]; b->Vector(iv); }
        else { std::string in = data(20, 2), want = in; r->run(mode, o == 10, iv, want); std::string got = call(*b, o == 10, in, "sequence"); if (got != want) mc::fail("sequence", "calls %llu (base 11): call %d in mode %s gives %s expected %s", (unsigned long long)t, i, NAMES[mode], mc::hex(got.data(), got.size()).c_str(), mc::hex(want.data(), want.size()).c_str()); }
        if (b->Vector() != iv) { mc::fail("sequence vector", "call %d changed the vector", i); iv = b->Vector(); } }
      if (!(t & 255)) mc::beat(); } }
}
MC_SECTION("long buffers", 8) { // around every size at which a counter of fewer bits would wrap
  uint64_t id = 0; std::vector<size_t> sizes; for (size_t b : {size_t(127), size_t(255), size_t(256), size_t(257), size_t(4096), size_t(8191), size_t(8192), size_t(32767), size_t(32768), size_t(65535), size_t(65536), size_t(65537), size_t(131073)}) for (size_t tail : {size_t(0), size_t(5)}) if (tail == 0 || b % 256 == 1 || mc::thorough()) sizes.push_back(b * 8 + tail);
  if (mc::thorough()) { sizes.push_back((size_t(1) << 21) + 16); sizes.push_back((size_t(1) << 24) + 8); }
  RefBF r[2]; std::string k = "long\x80key"; for (int i = 0; i < 2; i++) r[i].key(k, i);
  for (size_t n : sizes) for (int second = 0; second < 2; second++) for (int m = 0; m < 5; m++) for (int dec = 0; dec < 2; dec++) { if (!mc::mine(id++)) continue; mc::at("%s %zu bytes %s", NAMES[m], n, dec ? "decode" : "encode"); mc::trace(); mc::state(mc::mix(((n * 5 + m) * 2 + dec) * 2 + second)); mc::beat();
    auto b = make(second); setKey(*b, k); b->Mode(MODES[m]); b->Vector(0x1122334455667788ull); std::string in(n, 0), want; for (size_t i = 0; i < n; i++) in[i] = char(i * 73 + (i >> 8) * 7 + (i >> 16)); want = in; r[second].run(m, dec, 0x1122334455667788ull, want); std::string got = call(*b, dec, in, "long");
    if (got != want) { size_t d = 0; while (got[d] == want[d]) d++; mc::fail((std::string(NAMES[m]) + " long").c_str(), "%s of %zu bytes differs from the mode's definition at byte %zu", dec ? "decode" : "encode", n, d); }
    b->Mode(MODES[(m + 2) % 5]); std::string x = in; char *q = &x[0]; if (dec) switch (m) { case 0: b->DecodeECB(q, n); break; case 1: b->DecodeCBC(q, n); break; case 2: b->DecodePCBC(q, n); break; case 3: b->DecodeCFB(q, n); break; default: b->DecodeOFB(q, n); } else switch (m) { case 0: b->EncodeECB(q, n); break; case 1: b->EncodeCBC(q, n); break; case 2: b->EncodePCBC(q, n); break; case 3: b->EncodeCFB(q, n); break; default: b->EncodeOFB(q, n); }
    if (x != want) mc::fail((std::string(NAMES[m]) + " long explicit").c_str(), "%s of %zu bytes", dec ? "decode" : "encode", n); }
  for (size_t kl : {size_t(1), size_t(7), size_t(255), size_t(256), size_t(257), size_t(300), size_t(65535), size_t(65536), size_t(65537), size_t(70001)}) for (size_t n : {size_t(255), size_t(256), size_t(257), size_t(600), size_t(32769), size_t(65535), size_t(65536), size_t(65537), size_t(140003)}) { if (!mc::mine(id++)) continue; mc::at("xor key %zu data %zu", kl, n); mc::trace(); mc::state(mc::mix(kl * 1000003 + n)); std::string k(kl, 0), in(n, 0); for (size_t i = 0; i < kl; i++) k[i] = char(i * 91 + (i >> 8) * 3 + (i >> 16) + 200); for (size_t i = 0; i < n; i++) in[i] = char(i * 13 + (i >> 8)); std::string buf = "<" + in + ">", want = in; for (size_t j = 0; j < n; j++) want[j] ^= k[j % kl];
    XOREncoder x; x.SetKey(es::string_view(k.data(), kl)); x.Encode(&buf[1], n); mc::step(); if (buf != "<" + want + ">") mc::fail("xor long encode", "key length %zu data length %zu", kl, n); x.Decode(&buf[1], n); mc::step(); if (buf != "<" + in + ">") mc::fail("xor long decode", "key length %zu data length %zu", kl, n); }
}
MC_SECTION("own key interface", 2) { // the second cipher's pointer and size overload sets the same key
  for (size_t len = 1; len <= 72; len++) { if (!mc::mine(len)) continue; std::string k(len, 0); for (size_t i = 0; i < len; i++) k[i] = char(i * 51 + 130); mc::at("length %zu", len); mc::trace(); BlowfishEncoder2 a, b; b.SetKey(k.data(), int(len)); setKey(a, k); for (u64 v : {u64(0), u64(0x0123456789ABCDEFull)}) { std::string in((const char *)&v, 8); if (call(a, false, in, "a") != call(b, false, in, "b")) mc::fail("key interfaces", "key of %zu bytes set through the interface gives another cipher", len); } }
  BF e; if (e.Valid()) mc::fail("valid", "a fresh cipher claims to be enabled"); e.Enable(); if (!e.Valid()) mc::fail("valid", "enabled cipher is not"); e.Enable(false); if (e.Valid()) mc::fail("valid", "disabled cipher is");
}
MC_SECTION("xor", 4) {
  uint64_t id = 0; size_t top = mc::thorough() ? 40 : 24;
  for (size_t kl = 0; kl <= top; kl++) for (size_t n = 0; n <= 48; n++) for (int pat = 0; pat < 4; pat++) { if (!mc::mine(id++)) continue; mc::at("key %zu data %zu %d", kl, n, pat); mc::trace(); mc::state(mc::mix((kl * 64 + n) * 4 + pat)); std::string k(kl, 0); for (size_t i = 0; i < kl; i++) k[i] = char(i * 91 + 200); XOREncoder x; IEncryptor &i = x; if (kl) i.SetKey(es::string_view(k.data(), k.size())); std::string in = data(n, pat), buf = std::string("<") + in + ">", want = in; for (size_t j = 0; j < n && kl; j++) want[j] ^= k[j % kl];
    i.Encode(&buf[1], n); mc::step(); if (buf != "<" + want + ">") mc::fail("xor encode", "key length %zu data length %zu", kl, n); i.Decode(&buf[1], n); mc::step(); if (buf != "<" + in + ">") mc::fail("xor decode", "key length %zu data length %zu", kl, n); i.Encode(&buf[1], n); i.Encode(&buf[1], n); if (buf != "<" + in + ">") mc::fail("xor twice", "key length %zu data length %zu", kl, n); }
  for (int kv = 0; kv < 256; kv++) for (int v = 0; v < 256; v++) { char k = char(kv), d[2] = {char(v), char(v ^ 1)}; mc::step(); XOREncoder x; x.SetKey(es::string_view(&k, 1)); x.Encode(d, 2); if (uint8_t(d[0]) != (kv ^ v) || uint8_t(d[1]) != (kv ^ v ^ 1)) mc::fail("xor value", "key %02x byte %02x", kv, v); }
}
