// REPO: datas/reflector.cpp datas/master_printer.cpp
// LIBS: -lpugixml
// VARIANT: asan -O1 -fsanitize=address,undefined -fno-sanitize=vptr
// VARIANT: opt -O2
// RULE: state = distinct (document or text, flags, encoding); transition = one real call; trace = one call compared with pugixml used directly with its own constants, or with the definition
// ASSUME: pugixml loads and saves as its own documentation says
#include "mc.hpp"
#include "datas/pugiex.hpp"
#include <fcntl.h>
#include <fstream>
#include <sstream>
#include <sys/stat.h>
typedef std::string S;
static S slurp(const S &f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
static void spit(const S &f, const S &d) { std::ofstream o(f, std::ios::binary | std::ios::trunc); o.write(d.data(), d.size()); }
static S file(const char *n) { return mc::g().tmp + "/" + n + std::to_string(mc::shard()) + ".xml"; }
// the whole tree, every node kind spelled out
static void dump(pugi::xml_node n, S &o) {
  o += char('0' + n.type()); o += '('; o += n.name(); o += ':'; o += n.value();
  for (auto a : n.attributes()) { o += '@'; o += a.name(); o += '='; o += a.value(); }
  for (auto c : n.children()) dump(c, o);
  o += ')';
}
static S tree(const pugi::xml_document &d) { S o; dump(d, o); return o; }
static const unsigned parseBits[] = {pugi::parse_pi, pugi::parse_comments, pugi::parse_cdata, pugi::parse_ws_pcdata, pugi::parse_escapes, pugi::parse_eol, pugi::parse_wconv_attribute, pugi::parse_wnorm_attribute, pugi::parse_declaration, pugi::parse_doctype, pugi::parse_ws_pcdata_single, pugi::parse_trim_pcdata, pugi::parse_fragment, pugi::parse_embed_pcdata};
static const XMLParseFlag parseNames[] = {XMLParseFlag::PI, XMLParseFlag::Comments, XMLParseFlag::CDATA, XMLParseFlag::WhiteSpacePCDATA, XMLParseFlag::Escapes, XMLParseFlag::EOL, XMLParseFlag::WConvAttribute, XMLParseFlag::WNormAttribute, XMLParseFlag::Declaration, XMLParseFlag::DocType, XMLParseFlag::WhiteSpavePCDATASingle, XMLParseFlag::TrimPCDATA, XMLParseFlag::Fragment, XMLParseFlag::EmbedPCDATA};
static const unsigned formatBits[] = {pugi::format_indent, pugi::format_write_bom, pugi::format_raw, pugi::format_no_declaration, pugi::format_no_escapes, pugi::format_save_file_text, pugi::format_indent_attributes, pugi::format_no_empty_element_tags, pugi::format_skip_control_chars};
static const XMLFormatFlag formatNames[] = {XMLFormatFlag::Indent, XMLFormatFlag::WriteBOM, XMLFormatFlag::Raw, XMLFormatFlag::NoDeclaration, XMLFormatFlag::NoEscapes, XMLFormatFlag::SaveFileText, XMLFormatFlag::IndentAttributes, XMLFormatFlag::NoEmptyElementTaggs, XMLFormatFlag::SkipControlChars};
static const pugi::xml_encoding encBits[] = {pugi::encoding_auto, pugi::encoding_utf8, pugi::encoding_utf16_le, pugi::encoding_utf16_be, pugi::encoding_utf16, pugi::encoding_utf32_le, pugi::encoding_utf32_be, pugi::encoding_utf32, pugi::encoding_wchar, pugi::encoding_latin1};
static const XMLEncoding encNames[] = {XMLEncoding::Auto, XMLEncoding::UTF8, XMLEncoding::UTF16_LE, XMLEncoding::UTF16_BE, XMLEncoding::UFT16, XMLEncoding::UTF32_LE, XMLEncoding::UTF32_be, XMLEncoding::UTF32, XMLEncoding::Wchar, XMLEncoding::Latin1};
static const char *statusNames[] = {"status_ok", "status_file_not_found", "status_io_error", "status_out_of_memory", "status_internal_error", "status_unrecognized_tag", "status_bad_pi", "status_bad_comment", "status_bad_cdata", "status_bad_doctype", "status_bad_pcdata", "status_bad_start_element", "status_bad_attribute", "status_bad_end_element", "status_end_element_mismatch", "status_append_invalid_root", "status_no_document_element"};
static const int statusBits[] = {pugi::status_ok, pugi::status_file_not_found, pugi::status_io_error, pugi::status_out_of_memory, pugi::status_internal_error, pugi::status_unrecognized_tag, pugi::status_bad_pi, pugi::status_bad_comment, pugi::status_bad_cdata, pugi::status_bad_doctype, pugi::status_bad_pcdata, pugi::status_bad_start_element, pugi::status_bad_attribute, pugi::status_bad_end_element, pugi::status_end_element_mismatch, pugi::status_append_invalid_root, pugi::status_no_document_element};
static S statusName(int s) { for (int i = 0; i < 17; i++) if (statusBits[i] == s) return statusNames[i]; return "?"; }
// outcome of loading, in words
static S viaPugi(const S &text, unsigned flags, pugi::xml_encoding e, const S &f) {
  pugi::xml_document d; auto r = d.load_buffer(text.data(), text.size(), flags, e);
  if (r) return "tree " + tree(d);
  if (r.status == pugi::status_no_document_element) return "header Invalid format.";
  return "error " + S("names file, ") + statusName(r.status) + ", " + std::to_string(r.offset) + (f.empty() ? "" : "");
}
static S digest(const std::exception &x, const S &f) { // what the message has to tell
  S w = x.what(); if (w.find(f) == S::npos) return "error does not name the file: " + w;
  S rest = w; rest.replace(rest.find(f), f.size(), ""); S st; for (auto n : statusNames) if (rest.find(n) != S::npos && S(n).size() > st.size()) st = n;
  size_t e = rest.size(); while (e && isdigit((unsigned char)rest[e - 1])) e--;
  return "error names file, " + st + ", " + rest.substr(e);
}
template <class Fn> static S viaRepo(const S &f, Fn &&load) {
  try { auto d = load(); mc::step(); return "tree " + tree(d); }
  catch (es::FileNotFoundError &e) { return S("missing ") + e.what(); }
  catch (es::InvalidHeaderError &e) { return S("header ") + e.what(); }
  catch (es::FileInvalidAccessError &e) { return S("access ") + e.what(); }
  catch (std::runtime_error &e) { return digest(e, f); }
  catch (std::exception &e) { return S("other exception ") + e.what(); }
}
static const S docs[] = {
    "<?xml version=\"1.0\"?>\n<!DOCTYPE r>\n<!-- c -->\n<r a=\" 1\t2 \r\n3 \" b='&lt;&#65;'>\r\n  <x> <y/> t &amp; u </x>\n  <?p q?><![CDATA[ <z> ]]> <w>  </w><v> </v> tail \r</r>\n<!-- d -->",
    "text <a/> more", "<a>only &amp; text</a>", " \n ", "<a><b></b><c/></a><d/>", "<a x='1' y='2'> lead<b/>trail </a>", "<a>\xc3\xa9\xe2\x82\xac\xf0\x9f\x98\x80</a>", "<a><!-- one --><!-- two --><?p?></a>"};
MC_SECTION("every parse flag", 8) {
  S f = file("p"); uint64_t k = 0;
  for (auto &t : docs) {
    spit(f, t);
    for (unsigned m = 0; m < (1u << 14); m++) {
      if (!mc::mine(k++)) continue;
      XMLParseFlags fl; unsigned b = 0;
      for (int i = 0; i < 14; i++) if (m >> i & 1) { fl += parseNames[i]; b |= parseBits[i]; }
      mc::at("parse flags %x of document %d", m, int(&t - docs));
      S w = viaPugi(t, b, pugi::encoding_auto, f), g = viaRepo(f, [&] { return XMLFromFile(f, fl); });
      mc::trace(); mc::state(mc::mix(k * 3 + 1));
      if (w != g) mc::fail("loaded tree", "flags %x: %.200s expected %.200s: %s", m, g.c_str(), w.c_str(), mc::quote(t).c_str());
    }
    if (!mc::mine(k)) continue;
    S w = viaPugi(t, pugi::parse_default, pugi::encoding_auto, f), g = viaRepo(f, [&] { return XMLFromFile(f); });
    mc::trace(); if (w != g) mc::fail("loaded with the defaults", "%.200s expected %.200s: %s", g.c_str(), w.c_str(), mc::quote(t).c_str());
  }
  unlink(f.c_str());
}
MC_SECTION("every format flag and encoding", 8) {
  S f = file("s"), f2 = file("t"); uint64_t k = 0;
  for (auto &t : docs) {
    pugi::xml_document d; d.load_buffer(t.data(), t.size(), pugi::parse_full | pugi::parse_fragment | pugi::parse_ws_pcdata);
    if (auto c = d.first_child()) c.append_attribute("ctl") = "\x01 \x1f";
    S before = tree(d);
    for (unsigned m = 0; m < (1u << 9); m++) for (int e = 0; e < 10; e++) for (int ind = 0; ind < 3; ind++) {
      if (!mc::mine(k++)) continue; if (!mc::thorough() && ind && e > 2) continue;
      XMLFormatFlags fl; unsigned b = 0; for (int i = 0; i < 9; i++) if (m >> i & 1) { fl += formatNames[i]; b |= formatBits[i]; }
      static const char *inds[] = {"\t", "", "  "}; std::ostringstream os; d.save(os, inds[ind], b, encBits[e]);
      mc::at("format flags %x encoding %d of document %d", m, e, int(&t - docs));
      try { XMLToFile(f, d, fl, inds[ind], encNames[e]); } catch (std::exception &x) { mc::fail("save refused", "flags %x encoding %d: %s", m, e, x.what()); continue; }
      mc::step(); mc::trace(); mc::state(mc::mix(k * 5 + 2)); S g = slurp(f), w = os.str();
      if (g != w) mc::fail("saved text", "flags %x encoding %d: %s expected %s", m, e, mc::quote(g).substr(0, 200).c_str(), mc::quote(w).substr(0, 200).c_str());
      S lw = viaPugi(g, pugi::parse_default, encBits[e], f), lg = viaRepo(f, [&] { return XMLFromFile(f, XMLDefaultParseFlags, encNames[e]); });
      if (lw != lg) mc::fail("loaded back", "encoding %d: %.200s expected %.200s", e, lg.c_str(), lw.c_str());
      if (tree(d) != before) mc::fail("saving changes the document", "flags %x", m);
    }
    if (!mc::mine(k)) continue;
    XMLToFile(f, d); std::ostringstream os; d.save(os); mc::step(); mc::trace(); if (slurp(f) != os.str()) mc::fail("saved with the defaults", "%s expected %s", mc::quote(slurp(f)).c_str(), mc::quote(os.str()).c_str());
    spit(f, S(70000, 'x')); XMLToFile(f, d); if (slurp(f) != os.str()) mc::fail("saved over a longer file", "%zu bytes expected %zu", slurp(f).size(), os.str().size());
  }
  unlink(f.c_str());
}
// trees of elements, attributes and texts: what is saved is what is loaded
MC_SECTION("saved documents load back", 8) {
  S f = file("r"); uint64_t k = 0;
  static const char *texts[] = {"", "t", "<&>\"'", "a b", "\xc3\xa9"};
  mc::strings(S("eucatv"), mc::thorough() ? 6 : 5, [&](const S &ops) { // child, up, comment, attribute, text, cdata
    if (!mc::mine(k++)) return;
    pugi::xml_document d; auto cur = d.append_child("root"); int n = 0;
    for (char c : ops) {
      S nm = "n" + std::to_string(n++);
      switch (c) {
      case 'e': cur = cur.append_child(nm.c_str()); break;
      case 'u': if (cur.parent() != d) cur = cur.parent(); break;
      case 'c': cur.append_child(pugi::node_comment).set_value("note"); break;
      case 'a': cur.append_attribute(nm.c_str()) = texts[n % 5]; break;
      case 't': if (cur.last_child().type() != pugi::node_pcdata) cur.append_child(pugi::node_pcdata).set_value(texts[1 + n % 4]); break;
      case 'v': cur.append_child(pugi::node_cdata).set_value(texts[1 + n % 4]); break;
      }
    }
    mc::at("document of %s", ops.c_str());
    try {
      S w = tree(d); XMLToFile(f, d, XMLFormatFlags(XMLFormatFlag::Raw)); auto r = XMLFromFile(f, XMLParseFlags(XMLParseFlag::CDATA, XMLParseFlag::Escapes, XMLParseFlag::WConvAttribute, XMLParseFlag::EOL, XMLParseFlag::Comments, XMLParseFlag::WhiteSpacePCDATA)); mc::step(2); mc::trace(); mc::state(ops + "r");
      if (tree(r) != w) mc::fail("document", "%s: %s expected %s", ops.c_str(), tree(r).c_str(), w.c_str());
    } catch (std::exception &x) { mc::fail("document refused", "%s: %s", ops.c_str(), x.what()); }
  });
  unlink(f.c_str());
}
MC_SECTION("every short text", 8) {
  S f = file("e"); uint64_t k = 0;
  mc::strings(S("<>a/!-[?&\"= "), mc::thorough() ? 5 : 4, [&](const S &t) {
    if (!mc::mine(k++)) return;
    spit(f, t); mc::at("text %s", mc::quote(t).c_str());
    S w = viaPugi(t, pugi::parse_default, pugi::encoding_auto, f), g = viaRepo(f, [&] { return XMLFromFile(f); }); mc::trace(); mc::state(t + "x");
    if (w != g) mc::fail("outcome", "%s gives %.200s expected %.200s", mc::quote(t).c_str(), g.c_str(), w.c_str());
  });
  // one text for each way to be malformed, behind a long sound part
  static const char *bad[] = {"<!x", "<?", "<!--", "<![CDATA[", "<!DOCTYPE", "<", "<a b", "<a></a", "<a></b>", "<a>", "&", "</a>", "<a b='", "<a 1=''/>", "<?xml", "<!D>", "<a><![CDAT[ ]]></a>"};
  for (auto b : bad) for (size_t pre : {0, 1, 7, 200, 1000, 40000, 70000}) {
    if (!mc::mine(k++)) continue;
    S t = "<r>" + S(pre, 'x') + b; spit(f, t); mc::at("%zu characters and %s", pre, b);
    S w = viaPugi(t, pugi::parse_full, pugi::encoding_auto, f), g = viaRepo(f, [&] { return XMLFromFile(f, XMLParseFlags(XMLParseFlag::PI, XMLParseFlag::Comments, XMLParseFlag::CDATA, XMLParseFlag::Escapes, XMLParseFlag::WConvAttribute, XMLParseFlag::EOL, XMLParseFlag::Declaration, XMLParseFlag::DocType)); }); mc::trace();
    if (w != g) mc::fail("outcome of a malformed text", "%zu characters and %s gives %.200s expected %.200s", pre, b, g.c_str(), w.c_str());
  }
  unlink(f.c_str());
}
MC_SECTION("files that cannot be used", 1) {
  S d = mc::g().tmp; pugi::xml_document doc; doc.append_child("a");
  for (const S &n : {d + "/none.xml", d + "/no/such/folder.xml", S(), d + "/" + S(300, 'n')}) {
    mc::at("missing %.80s", n.c_str()); mc::trace(); mc::state(n + "m");
    S g = viaRepo(n, [&] { return XMLFromFile(n); }); mc::step();
    if (g.compare(0, 8, "missing ") || g.find(n) == S::npos) mc::fail("missing file", "%.80s: %.200s", n.c_str(), g.c_str());
  }
  for (const S &n : {d + "/no/such/folder.xml", d, S(), d + "/" + S(300, 'n'), d + "/"}) {
    mc::at("unwritable %.80s", n.c_str()); mc::trace(); mc::state(n + "w");
    S g = viaRepo(n, [&] { XMLToFile(n, doc); return pugi::xml_document(); }); mc::step();
    if (g.compare(0, 7, "access ") || g.find(n) == S::npos) mc::fail("unwritable file", "%.80s: %.200s", n.c_str(), g.c_str());
  }
  { // a folder is not a document
    S g = viaRepo(d, [&] { return XMLFromFile(d); }); mc::step(); mc::trace(); if (g.compare(0, 25, "error names file, status_")) mc::fail("folder loaded", "%s", g.c_str());
  }
  { // no room for the document
    bool ok = doc.save_file("/dev/full"); S g = viaRepo("/dev/full", [&] { XMLToFile("/dev/full", doc); return pugi::xml_document(); }); mc::step(); mc::trace();
    if (ok != !g.compare(0, 5, "tree ")) mc::fail("full device", "%s", g.c_str());
  }
  // a refused load or save leaves the files as they were
  S f = d + "/keep.xml"; spit(f, "<broken"); viaRepo(f, [&] { return XMLFromFile(f); }); if (slurp(f) != "<broken") mc::fail("loading changes the file", "%s", slurp(f).c_str()); unlink(f.c_str());
}
MC_SECTION("status names", 1) {
  auto e = GetReflectedEnum<XMLError>();
  for (int i = 0; i < 17; i++) { mc::step(); mc::trace(); mc::state(mc::mix(i + 99)); if (e.size() <= size_t(statusBits[i]) || e[statusBits[i]].to_string() != statusNames[i] || e.values[statusBits[i]] != uint64(statusBits[i])) mc::fail("status name", "%d", i); }
  if (e.size() != 17) mc::fail("number of statuses", "%zu", e.size());
}
// children: e elements named a, ab, b or A, t texts, c comments
MC_SECTION("children by name", 8) {
  uint64_t k = 0; static const char *names[] = {"a", "ab", "b", "A"};
  mc::strings(S("0123tc"), mc::thorough() ? 7 : 5, [&](const S &kids) {
    if (!mc::mine(k++)) return;
    pugi::xml_document d; auto r = d.append_child("r"); std::vector<pugi::xml_node> all;
    for (char c : kids) { pugi::xml_node n; if (c == 't') { n = r.append_child(pugi::node_pcdata); n.set_value("a"); } else if (c == 'c') { n = r.append_child(pugi::node_comment); n.set_value("a"); } else { n = r.append_child(names[c - '0']); n.append_child("a"); } all.push_back(n); }
    mc::at("children %s", kids.c_str()); mc::trace(); mc::state(kids + "k");
    auto check = [&](const char *how, const std::vector<pugi::xml_node> &g, const char *want) { mc::step();
      std::vector<pugi::xml_node> w; for (auto n : all) if (!want || !strcmp(n.name(), want)) w.push_back(n);
      if (g != w) mc::fail("children collected", "%s of %s: %zu expected %zu", how, kids.c_str(), g.size(), w.size()); };
    check("all", XMLCollectChildren(r), nullptr); check("empty name", XMLCollectChildren(r, ""), nullptr);
    for (auto n : names) check(n, XMLCollectChildren(r, n), n);
    check("prefix view", XMLCollectChildren(r, es::string_view("abc", 2)), "ab"); check("other", XMLCollectChildren(r, "abc"), "abc");
    check("long", XMLCollectChildren(r, "r"), "r");
  });
  if (!XMLCollectChildren({}).empty() || !XMLCollectChildren({}, "a").empty()) mc::fail("children of nothing", "some");
}
MC_SECTION("node errors", 4) {
  S f = file("n"); uint64_t k = 0;
  static const char *heads[] = {"<?xml version=\"1.0\"?>\n", "", "<!-- c -->", "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<!-- c -->\n<?p?>", " \n "};
  for (int h = 0; h < 5; h++) mc::strings(S("eu"), mc::thorough() ? 10 : 7, [&](const S &ops) {
    if (!mc::mine(k++)) return;
    S t = heads[h] + S("<root>"); std::vector<std::pair<S, size_t>> names{{"root", t.size() - 5}}; std::vector<S> open; int n = 0;
    for (char c : ops) if (c == 'e') { S nm = "item" + std::to_string(n++); t += "<"; names.push_back({nm, t.size()}); t += nm + " x='&amp;'>"; open.push_back(nm); } else if (!open.empty()) { t += "</" + open.back() + ">\n"; open.pop_back(); }
    while (!open.empty()) { t += "</" + open.back() + ">"; open.pop_back(); } t += "</root>"; spit(f, t);
    mc::at("errors at %s", ops.c_str()); mc::trace(); mc::state(ops + "n" + char(h));
    try {
      auto d = XMLFromFile(f, XMLParseFlags(XMLParseFlag::CDATA, XMLParseFlag::Escapes, XMLParseFlag::WConvAttribute, XMLParseFlag::EOL, XMLParseFlag::Comments, XMLParseFlag::PI)); mc::step();
      std::function<void(pugi::xml_node)> walk = [&](pugi::xml_node x) {
        size_t pos = 0; // where the name begins
        for (auto &q : names) if (q.first == x.name()) pos = q.second;
        auto one = [&](const std::runtime_error &e, const S &tail) { mc::step(); S w = e.what(); 
          if (w.find("XML node " + S(x.name()) + " at offset ") != 0 || w.size() < tail.size() || w.compare(w.size() - tail.size(), S::npos, tail)) { mc::fail("node error text", "%s", w.c_str()); return; }
          long off = atol(w.c_str() + S("XML node  at offset ").size() + strlen(x.name()));
          if (off != long(pos)) mc::fail("node error place", "%s: node at %zu in the file", w.c_str(), pos); };
        one(XMLMissingNodeException("kid", x), ": Missing child kid"); one(XMLMissingNodeAttributeException("att", x), ": Missing attribute att"); one(XMLEmptyData(x), ": Missing data"); one(XMLBaseException("my own words", x), ": my own words");
        for (auto c : x.children()) walk(c);
      };
      walk(d.child("root"));
    } catch (std::exception &x) { mc::fail("refused", "%s: %s", t.c_str(), x.what()); }
  });
  { pugi::xml_document d; try { mc::step(); throw XMLMissingNodeException("kid", d); } catch (XMLBaseException &e) { if (!strstr(e.what(), "Missing child kid")) mc::fail("error of an empty document", "%s", e.what()); } 
    try { mc::step(); throw XMLEmptyData(pugi::xml_node()); } catch (std::runtime_error &e) { if (!strstr(e.what(), "Missing data")) mc::fail("error of no node", "%s", e.what()); } }
  unlink(f.c_str());
}
