// VARIANT: opt -O2
// VARIANT: asan -O1 -fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-sanitize=alignment
// RULE: state = chunk sequence or format description; transition = one real header construction or step to the next chunk; trace = one complete file walked chunk by chunk and compared with the list of chunks written
// ASSUME: chunks are padded to even sizes as RIFF requires
#include "mc.hpp"
#include "formats/WAVE.hpp"
#include "formats/MSF.hpp"
#include "formats/VAG.hpp"
#include "formats/XVAG.hpp"
#include "formats/FWSE.hpp"
#include <cstddef>
#include <memory>
#include <new>
static uint32_t tag(const char *c) { uint32_t v = 0; for (int i = 0; i < 4; i++) v |= uint32_t(uint8_t(c[i])) << 8 * i; return v; }
template <class C> static void put(std::string &s, const C &c) { s.append(reinterpret_cast<const char *>(&c), sizeof c); }
struct Kind { const char *id; int fixed; bool known; };
static const Kind KINDS[] = {{"fmt ", 16, true}, {"fact", 4, true}, {"smpl", -2, true}, {"data", -1, true}, {"LIST", -1, false}, {"abcd", -1, false}};
struct Chunk { int kind; uint32_t size; };
static void file(const Chunk *c, int n) {
  uint32_t full = 12; for (int i = 0; i < n; i++) full += 8 + c[i].size + (c[i].size & 1); std::string s; put(s, RIFFHeader(full)); mc::step(); std::vector<size_t> at;
  for (int i = 0; i < n; i++) { at.push_back(s.size()); std::string body; for (uint32_t k = 0; k < c[i].size; k++) body += char(0x30 + i * 16 + k); uint32_t id = tag(KINDS[c[i].kind].id);
    if (c[i].kind == 0) { WAVE_fmt f(WAVE_FORMAT::PCM); put(s, f); } else if (c[i].kind == 3) { put(s, WAVE_data(c[i].size)); s += body; } else { put(s, WAVEGenericHeader(id, c[i].size)); s += body; } if (c[i].size & 1) s += '\0'; mc::step(); }
  if (s.size() != full) mc::fail("written size", "%zu bytes, expected %u", s.size(), full);
  std::unique_ptr<uint64_t[]> mem(new uint64_t[(s.size() + 7) / 8]); char *b = reinterpret_cast<char *>(mem.get()); memcpy(b, s.data(), s.size());
  RIFFHeader *h = reinterpret_cast<RIFFHeader *>(b); if (h->id != tag("RIFF") || h->type != tag("WAVE") || h->chunkSize != full - 8) mc::fail("file header", "size field %u of %u", h->chunkSize, full);
  if (reinterpret_cast<char *>(static_cast<WAVEGenericHeader *>(h)->Next()) != b + full + (full & 1)) mc::fail("container end", "the file chunk of %u bytes ends at %td", full, reinterpret_cast<char *>(h->Next()) - b);
  WAVEGenericHeader *w = reinterpret_cast<WAVEGenericHeader *>(h + 1);
  for (int i = 0; i < n; i++) { size_t pos = reinterpret_cast<char *>(w) - b; mc::step(); if (pos != at[i]) { mc::fail("walk", "chunk %d found at %zd expected %zu", i, ssize_t(pos), at[i]); return; } const Kind &k = KINDS[c[i].kind]; if (w->id != tag(k.id) || w->chunkSize != c[i].size) { mc::fail("walk", "chunk %d is %08x of %u", i, w->id, w->chunkSize); return; }
    if (IsValidWaveChunk(*w) != k.known) mc::fail("known chunk", "%s", k.id); if (c[i].kind == 3) { char *d = static_cast<WAVE_data *>(w)->GetData(); if (d - b != ssize_t(at[i] + 8) || (c[i].size && *d != char(0x30 + i * 16))) mc::fail("data", "data of chunk %d at %td", i, d - b); }
    if (c[i].kind == 2) { char *l = reinterpret_cast<char *>(static_cast<WAVE_smpl *>(w)->GetSampleLoops()); if (l - b != ssize_t(at[i] + 44)) mc::fail("sample loops", "of chunk %d at %td", i, l - b - ssize_t(at[i])); }
    w = w->Next(); }
  if (reinterpret_cast<char *>(w) != b + full) mc::fail("walk end", "walk ends at %td of %u", reinterpret_cast<char *>(w) - b, full);
}
MC_SECTION("chunk sequences", 8) {
  std::vector<Chunk> opt; uint32_t top = mc::thorough() ? 9 : 8; for (int k = 0; k < 6; k++) { if (KINDS[k].fixed > 0) opt.push_back({k, uint32_t(KINDS[k].fixed)}); else if (KINDS[k].fixed == -2) for (int n = 0; n < 3; n++) opt.push_back({k, uint32_t(36 + 24 * n)}); else for (uint32_t s = 0; s <= top; s++) opt.push_back({k, s}); }
  for (uint32_t s : {255u, 256u, 257u, 65535u, 65536u}) opt.push_back({3, s});
  int depth = mc::thorough() ? 4 : 3; for (int n = 0; n <= depth; n++) { uint64_t tot = 1; for (int i = 0; i < n; i++) tot *= opt.size(); for (uint64_t t = 0; t < tot; t++) { if (!mc::mine(t)) continue; Chunk c[4]; uint64_t x = t; int big = 0; for (int i = 0; i < n; i++) { c[i] = opt[x % opt.size()]; x /= opt.size(); big += c[i].size > 1000; } if (n > 2 && big) continue; mc::at("sequence %llu of %d", (unsigned long long)t, n); mc::trace(); mc::state(mc::mix(t * 8 + n + 1)); file(c, n); if (!(t & 1023)) mc::beat(); } }
}
MC_SECTION("next of every size", 2) { // addresses only
  alignas(8) char mem[16]; for (uint64_t s = 0; s < (mc::thorough() ? 1u << 22 : 1u << 18); s++) { if (!mc::mine(s / 4096)) continue; mc::step(); if (!(s & 4095)) { mc::at("size %llu", (unsigned long long)s); mc::trace(); mc::beat(); } WAVEGenericHeader *h = new (mem) WAVEGenericHeader(1, uint32_t(s)); uintptr_t d = reinterpret_cast<uintptr_t>(h->Next()) - reinterpret_cast<uintptr_t>(mem); if (d != 8 + s + (s & 1)) { mc::fail("next", "chunk of %llu bytes: next at %llu", (unsigned long long)s, (unsigned long long)d); break; } }
  for (int bit = 0; bit < 31; bit++) for (int d = -2; d <= 2; d++) { int64_t s = (int64_t(1) << bit) + d; if (s < 0) continue; mc::step(); mc::at("size %lld", (long long)s); WAVEGenericHeader *h = new (mem) WAVEGenericHeader(1, uint32_t(s)); uintptr_t x = reinterpret_cast<uintptr_t>(h->Next()) - reinterpret_cast<uintptr_t>(mem); if (x != uint64_t(8 + s + (s & 1))) mc::fail("next", "chunk of %lld bytes: next at %llu", (long long)s, (unsigned long long)x); }
}
MC_SECTION("format block", 1) {
  struct { WAVE_FORMAT f; uint32_t v; uint32_t bits; } F[] = {{WAVE_FORMAT::UNKNOWN, 0, 0}, {WAVE_FORMAT::PCM, 1, 16}, {WAVE_FORMAT::MS_ADPCM, 2, 4}, {WAVE_FORMAT::ALAW, 6, 8}, {WAVE_FORMAT::MULAW, 7, 8}, {WAVE_FORMAT::IMA_ADPCM, 17, 4}, {WAVE_FORMAT::GSM610, 49, 0}, {WAVE_FORMAT::MPEG, 80, 0}};
  for (auto &f : F) { WAVE_fmt w(f.f); mc::at("format %u", f.v); mc::trace(); mc::state(mc::mix(f.v + 1)); mc::step(); if (uint32_t(f.f) != f.v) mc::fail("format code", "%u expected %u", uint32_t(f.f), f.v); if (w.bitsPerSample != f.bits) mc::fail("bits per sample", "format %u has %u", f.v, w.bitsPerSample); if (w.chunkSize != 16 || w.id != tag("fmt ") || sizeof w != 24 || w.channels != 1 || w.format != f.f) mc::fail("format header", "format %u", f.v);
    std::vector<uint32_t> chs; for (uint32_t ch = 0; ch <= 16; ch++) chs.push_back(ch); for (uint32_t ch : {31u, 32u, 63u, 64u, 255u, 256u, 1024u, 4095u, 8191u, 8192u, 16383u, 32767u, 65535u}) chs.push_back(ch);
    for (uint32_t ch : chs) for (uint32_t rate : {0u, 1u, 8000u, 11025u, 22050u, 44100u, 48000u, 96000u, 192000u}) for (uint32_t bits : {8u, 16u, 24u, 32u, 64u}) { if (f.bits % 8 || !f.bits || uint64_t(ch) * bits / 8 > 65535 || uint64_t(rate) * ch * bits / 8 > 0xffffffffu) continue; mc::step(); mc::state(mc::mix(((f.v * 17 + ch) * 200000 + rate) * 65 + bits)); WAVE_fmt x(f.f); x.channels = ch; x.sampleRate = rate; x.bitsPerSample = bits; x.CalcData(); if (x.interleave != ch * bits / 8) mc::fail("frame size", "%u channels of %u bits: %u", ch, bits, x.interleave); if (x.sampleCount != rate * ch * (bits / 8)) mc::fail("byte rate", "%u channels of %u bits at %u: %u", ch, bits, rate, x.sampleCount); if (x.channels != ch || x.sampleRate != rate || x.bitsPerSample != bits || x.chunkSize != 16) mc::fail("format header", "changed by the computation"); std::string s; put(s, x); uint32_t v; uint16_t h; memcpy(&h, &s[8], 2); if (h != f.v) mc::fail("layout", "format"); memcpy(&h, &s[10], 2); if (h != ch) mc::fail("layout", "channels"); memcpy(&v, &s[12], 4); if (v != rate) mc::fail("layout", "rate"); memcpy(&v, &s[16], 4); if (v != rate * ch * (bits / 8)) mc::fail("layout", "byte rate"); memcpy(&h, &s[20], 2); if (h != ch * bits / 8) mc::fail("layout", "frame size"); memcpy(&h, &s[22], 2); if (h != bits) mc::fail("layout", "bits"); } }
}
#define OFF(C, m, o) { mc::step(); mc::trace(); mc::at(#C "." #m); mc::state(std::string(#C "." #m)); alignas(8) char b[2048] = {}; C *p = reinterpret_cast<C *>(b); if (reinterpret_cast<char *>(&p->m) - b != o) mc::fail("layout", #C "." #m " is at %td expected %d", reinterpret_cast<char *>(&p->m) - b, o); }
#define SIZE(C, n) { mc::step(); mc::state(std::string("size " #C)); if (sizeof(C) != n) mc::fail("header size", #C " has %zu bytes expected %d", sizeof(C), n); }
#define TAG(v, t) { mc::step(); if (uint32_t(+(v)) != tag(t)) mc::fail("identifier", #v " is %08x expected " t, uint32_t(+(v))); }
MC_SECTION("audio headers", 1) {
  SIZE(WAVEGenericHeader, 8) SIZE(RIFFHeader, 12) SIZE(WAVE_fmt, 24) SIZE(WAVE_fmt_MSADPCM, 28) SIZE(WAVE_data, 8) SIZE(WAVE_fact, 12) SIZE(WAVE_smpl, 44) SIZE(WAVE_smpl::SampleLoop, 24) SIZE(MSF, 64) SIZE(VAG, 64) SIZE(XVAGChunk, 8) SIZE(XVAGHeader, 32) SIZE(XVAGfmat, 36) SIZE(FWSE, 1024)
  TAG(RIFFHeader::ID, "RIFF") TAG(WAVE_fmt::ID, "fmt ") TAG(WAVE_data::ID, "data") TAG(WAVE_fact::ID, "fact") TAG(WAVE_smpl::ID, "smpl") TAG(VAGID, "VAGp") TAG(XVAGID, "XVAG") TAG(XVAGFMAT, "fmat") TAG(FWSE::ID, "FWSE")
  OFF(WAVE_fmt_MSADPCM, extendedDataSize, 24) OFF(WAVE_fmt_MSADPCM, extendedData, 26) OFF(WAVE_fact, uncompressedSize, 8) OFF(WAVE_smpl, manufacturer, 8) OFF(WAVE_smpl, samplePeriod, 16) OFF(WAVE_smpl, MIDIUnityNote, 20) OFF(WAVE_smpl, numSampleLoops, 36) OFF(WAVE_smpl, sampleLoopsSize, 40) OFF(WAVE_smpl::SampleLoop, type, 4) OFF(WAVE_smpl::SampleLoop, start, 8) OFF(WAVE_smpl::SampleLoop, end, 12) OFF(WAVE_smpl::SampleLoop, fraction, 16) OFF(WAVE_smpl::SampleLoop, playCount, 20)
  OFF(MSF, codec, 4) OFF(MSF, numChannels, 8) OFF(MSF, dataSize, 12) OFF(MSF, sampleRate, 16) OFF(MSF, flags, 20) OFF(MSF, loopStart, 24) OFF(MSF, loopDuration, 28) OFF(VAG, version, 4) OFF(VAG, dataSize, 12) OFF(VAG, sampleRate, 16) OFF(XVAGHeader, numBlocks, 8) OFF(XVAGHeader, flags, 9) OFF(XVAGfmat, numChannels, 8) OFF(XVAGfmat, format, 12) OFF(XVAGfmat, numSamples, 16) OFF(XVAGfmat, numSamples2, 20) OFF(XVAGfmat, interleave, 24) OFF(XVAGfmat, sampleRate, 28) OFF(XVAGfmat, bufferSize, 32) OFF(FWSE, version, 4) OFF(FWSE, fileSize, 8) OFF(FWSE, bufferOffset, 12) OFF(FWSE, numChannels, 16) OFF(FWSE, numSamples, 20) OFF(FWSE, sampleRate, 24) OFF(FWSE, sampleDepth, 28)
  if (int(WAVE_smpl::SampleLoop::TYPE_LOOP_ALTERNATE) != 1 || int(WAVE_smpl::SampleLoop::TYPE_LOOP_BACKWARD) != 2 || int(MSF::PSX_ADPCM) != 3 || int(MSF::LAME) != 7 || int(XVAGFormat::MPEG) != 8 || int(XVAGFormat::AT9) != 9) mc::fail("codes", "codec or loop codes differ");
}
