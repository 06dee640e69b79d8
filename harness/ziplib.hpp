// Reference archive builder: what a ZIP file looks like, written from the format description alone.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
namespace zipref {
struct Entry { std::string name, data, extra; uint16_t flags = 0, method = 0; std::string comment; uint32_t uncompressed = ~0u; uint16_t version = 10; };
struct Tail { bool central = true, end = true; std::string comment; bool zip64 = false, signature = false, extraRecord = false; std::string signatureData = "PK\3\4sig", extraData = "PK\3\4!"; };
inline void p16(std::string &s, uint32_t v) { s += char(v); s += char(v >> 8); }
inline void p32(std::string &s, uint32_t v) { p16(s, v & 0xffff); p16(s, v >> 16); }
inline void p64(std::string &s, uint64_t v) { p32(s, uint32_t(v)); p32(s, uint32_t(v >> 32)); }
inline uint32_t crc32(const std::string &d) { uint32_t c = ~0u; for (unsigned char b : d) { c ^= b; for (int i = 0; i < 8; i++) c = c >> 1 ^ (c & 1 ? 0xEDB88320u : 0); } return ~c; }
struct Archive { std::string bytes; std::vector<size_t> local, dataAt, localEnd; size_t central = 0, end = 0; };
inline Archive build(const std::vector<Entry> &es, const Tail &t) {
  Archive a; std::string &s = a.bytes;
  for (auto &e : es) { a.local.push_back(s.size()); s += "PK\3\4"; p16(s, e.version); p16(s, e.flags); p16(s, e.method); p16(s, 0x6c31); p16(s, 0x5299); p32(s, crc32(e.data)); p32(s, uint32_t(e.data.size())); p32(s, e.uncompressed == ~0u ? uint32_t(e.data.size()) : e.uncompressed); p16(s, uint32_t(e.name.size())); p16(s, uint32_t(e.extra.size())); s += e.name; s += e.extra; a.dataAt.push_back(s.size()); s += e.data; a.localEnd.push_back(s.size()); }
  if (t.extraRecord) { s += "PK\6\x08"; p32(s, uint32_t(t.extraData.size())); s += t.extraData; }
  a.central = s.size();
  if (t.central) for (size_t i = 0; i < es.size(); i++) { auto &e = es[i]; s += "PK\1\2"; p16(s, 20); p16(s, e.version); p16(s, e.flags); p16(s, e.method); p16(s, 0x6c31); p16(s, 0x5299); p32(s, crc32(e.data)); p32(s, uint32_t(e.data.size())); p32(s, e.uncompressed == ~0u ? uint32_t(e.data.size()) : e.uncompressed); p16(s, uint32_t(e.name.size())); p16(s, uint32_t(e.extra.size())); p16(s, uint32_t(e.comment.size())); p16(s, 0); p16(s, 1); p32(s, 0x20); p32(s, uint32_t(a.local[i])); s += e.name; s += e.extra; s += e.comment; }
  if (t.signature) { s += "PK\5\5"; p16(s, uint32_t(t.signatureData.size())); s += t.signatureData; }
  a.end = s.size(); uint32_t dirSize = uint32_t(a.end - a.central);
  if (t.zip64) { size_t at = s.size(); s += "PK\6\6"; p64(s, 44); p16(s, 45); p16(s, 45); p32(s, 0); p32(s, 0); p64(s, es.size()); p64(s, es.size()); p64(s, dirSize); p64(s, a.central); s += "PK\6\7"; p32(s, 0); p64(s, at); p32(s, 1); }
  if (t.end) { s += "PK\5\6"; p16(s, 0); p16(s, 0); p16(s, uint32_t(es.size())); p16(s, uint32_t(es.size())); p32(s, dirSize); p32(s, uint32_t(a.central)); p16(s, uint32_t(t.comment.size())); s += t.comment; }
  return a;
}
} // namespace zipref
