// REPO: datas/master_printer.cpp
// LIBS: -ldl
// VARIANT: sched -O1 -DMC_SCHED
// VARIANT: free -O1 -fsanitize=thread
// RULE: state = distinct schedule prefix or message history; transition = one scheduling step or one real print operation; trace = one complete schedule or history whose sink contents were compared with the messages written
// ASSUME: scheduling points are the synchronisation operations, every piece handed to a sink and the gaps between the pieces of a message; sinks do not log themselves
#include "mc.hpp"
#include "sched.hpp"
#include "datas/master_printer.hpp"
#include <mutex>
// ---- sinks: what each of them was handed, piece by piece
struct Sink { std::vector<std::string> pieces; bool colour = false; };
static Sink sinks[4];
template <int N> static void sinkFn(const char *c) { sched::point(); sinks[N].pieces.push_back(c); }
static const MasterPrinterThread::print_func FNS[] = {sinkFn<0>, sinkFn<1>, sinkFn<2>, sinkFn<3>};
static void addSink(int n, bool colour) { printer.AddPrinterFunction(FNS[n], colour); sinks[n].colour = colour; }
struct Msg { MPType type; std::vector<std::string> parts; int end; };
static std::string textOf(const Msg &m) { std::string t; for (auto &p : m.parts) t += p; if (m.end) t += "\n"; return t; }
static std::string prefixOf(MPType t) { return t == MPType::WRN ? "WARNING: " : t == MPType::ERR ? "ERROR: " : ""; }
static bool isColour(const std::string &p) { return p.size() > 1 && p[0] == '\033' && p.back() == 'm'; }
static std::string q(std::string s) { std::string o; for (char c : s) { if (c == '\n') o += "\\n"; else if (c == '\033') o += "ESC"; else o += c; } if (o.size() > 300) o = o.substr(0, 300) + "..."; return o; }
// consumes whole messages of the threads, each thread's in order; ids: thread identifiers seen per thread
static bool match(int n, const std::vector<std::vector<Msg>> &threads, bool withId, std::string &why, size_t upTo = ~size_t(0), bool allowMissing = false) {
  const Sink &k = sinks[n]; std::string all; std::vector<int> colourAt; int colour = 0; std::map<std::string, int> codes;
  for (auto &p : k.pieces) { if (isColour(p)) { if (!k.colour) { why = "colour change on a sink without colour"; return false; } if (p == "\033[0m") colour = 0; else { auto i = codes.insert({p, int(codes.size()) + 1}); colour = i.first->second; } continue; } all += p; colourAt.insert(colourAt.end(), p.size(), colour); }
  std::vector<size_t> next(threads.size(), 0); std::vector<std::string> id(threads.size()); size_t pos = 0; int warn = -1, err = -1;
  auto skipEmpty = [&] { for (size_t t = 0; t < threads.size(); t++) while (!withId && next[t] < threads[t].size() && (prefixOf(threads[t][next[t]].type) + textOf(threads[t][next[t]])).empty()) next[t]++; };
  while (pos < all.size()) { bool hit = false; skipEmpty(); for (size_t t = 0; t < threads.size() && !hit; t++) { for (size_t skip = 0; next[t] + skip < threads[t].size() && (!skip || allowMissing) && !hit; skip++) { const Msg &m = threads[t][next[t] + skip]; size_t p = pos; std::string got; if (withId) { if (all.compare(p, 9, "Thread[0x")) continue; size_t e = all.find("] ", p); if (e == std::string::npos) continue; got = all.substr(p + 9, e - p - 9); if (got.empty() || got.find_first_not_of("0123456789ABCDEF") != std::string::npos || (!id[t].empty() && id[t] != got)) continue; p = e + 2; }
        std::string want = prefixOf(m.type) + textOf(m); if (want.empty() && !withId) continue; if (all.compare(p, want.size(), want)) continue;
        if (k.colour) for (size_t i = p; i < p + want.size(); i++) { int c = colourAt[i]; if (m.type == MPType::MSG && c) { why = "a plain message appears coloured"; return false; } if (m.type == MPType::WRN || m.type == MPType::ERR) { int &ref = m.type == MPType::WRN ? warn : err; if (!c) { why = "a warning or error is not coloured"; return false; } if (ref < 0) ref = c; if (ref != c) { why = "the colour changes within a message"; return false; } } }
        id[t] = got; next[t] += skip + 1; pos = p + want.size(); hit = true; } }
    if (!hit) { why = "text that is no whole next message at byte " + std::to_string(pos); return false; } }
  if (!allowMissing) for (size_t t = 0; t < threads.size(); t++) { while (next[t] < threads[t].size() && !withId && (prefixOf(threads[t][next[t]].type) + textOf(threads[t][next[t]])).empty()) next[t]++; if (next[t] != threads[t].size()) { why = "thread " + std::to_string(t) + " misses " + std::to_string(threads[t].size() - next[t]) + " messages"; return false; } }
  if (k.colour && colour) { why = "colour left on"; return false; } if (warn >= 0 && warn == err) { why = "warnings and errors have the same colour"; return false; } (void)upTo; return true;
}
static std::string dump(int n) { std::string s; for (auto &p : sinks[n].pieces) s += "[" + q(p) + "]"; if (s.size() > 500) s.resize(500); return s; }
static void say(const Msg &m) { if (m.type != MPType::MSG) { printer << m.type; sched::point(); } for (auto &p : m.parts) { printer << p; sched::point(); } printer >> m.end; }
static Msg mk(int t, int i, MPType type, int parts, int end) { Msg m{type, {}, end}; std::string tag = std::string("<") + char('A' + t) + char('0' + i); for (int p = 0; p < parts; p++) m.parts.push_back(p ? "," + std::string(1, char('a' + p)) : tag); if (parts) m.parts.push_back(">"); return m; }
#ifdef MC_SCHED
static void drive(const std::vector<std::vector<Msg>> &threads, std::vector<int> use, bool ids, int bound, const char *name) {
  std::string what = std::string(name) + ": "; for (auto &t : threads) { what += "("; for (auto &m : t) what += (m.type == MPType::WRN ? "W" : m.type == MPType::ERR ? "E" : "m") + std::to_string(m.parts.size()); what += ")"; } what += " sinks"; for (int u : use) what += std::string(" ") + char('0' + u) + (sinks[u].colour ? "c" : ""); if (ids) what += " with ids"; what += ", bound " + std::to_string(bound);
  auto st = sched::explore(what, bound, [&] { for (auto &s : sinks) s.pieces.clear(); printer.PrintThreadID(ids); std::vector<std::thread> ts; for (size_t i = 1; i < threads.size(); i++) ts.emplace_back([&threads, i] { for (auto &m : threads[i]) say(m); }); for (auto &m : threads[0]) say(m); for (auto &t : ts) t.join(); },
    [&](const std::string &log) { for (int u : use) { std::string why; if (!match(u, threads, ids, why)) mc::fail("sink contents", "%s (schedule %s): sink %d: %s: %s", what.c_str(), log.c_str(), u, why.c_str(), dump(u).c_str()); } });
  mc::sample("%s: %llu schedules", what.c_str(), (unsigned long long)st.schedules); sched::logStats(what, st);
}
static void programs(std::vector<int> use, const char *name) {
  MPType T[] = {MPType::MSG, MPType::WRN, MPType::ERR}; bool big = mc::thorough(); int i = 0;
  for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) for (int ids = 0; ids < 2; ids++) drive({{mk(0, 0, T[a], 2, 1)}, {mk(1, 0, T[b], 1, i++ % 2)}}, use, ids, big ? 7 : 5, name);
  for (int a = 0; a < 3; a++) drive({{mk(0, 0, T[a], 3, 0)}, {mk(1, 0, T[(a + 1) % 3], 3, 1)}}, use, false, big ? 7 : 5, name);
  for (int a = 0; a < 3; a++) for (int ids = 0; ids < 2; ids++) { drive({{mk(0, 0, T[a], 1, 1), mk(0, 1, T[(a + 1) % 3], 1, 0)}, {mk(1, 0, T[(a + 2) % 3], 1, 1), mk(1, 1, T[a], 1, 1)}}, use, ids, big ? 5 : 4, name); drive({{mk(0, 0, T[a], 1, 1)}, {mk(1, 0, T[(a + 1) % 3], 1, 1)}, {mk(2, 0, T[(a + 2) % 3], 1, 0)}}, use, ids, big ? 4 : 3, name); }
  { Msg l = mk(0, 0, MPType::MSG, 1, 1); l.parts.insert(l.parts.begin() + 1, std::string(3000, 'x')); Msg e{MPType::MSG, {}, 1}; drive({{l, mk(0, 1, MPType::MSG, 1, 1)}, {mk(1, 0, MPType::WRN, 1, 0), e}}, use, false, big ? 5 : 4, name); }
}
MC_SECTION("one plain sink", 8) { addSink(0, false); programs({0}, "one plain sink"); }
MC_SECTION("one colour sink", 8) { addSink(0, true); programs({0}, "one colour sink"); }
MC_SECTION("plain and colour sink", 8) { addSink(0, false); addSink(1, true); programs({0, 1}, "plain and colour sink"); }
MC_SECTION("two colour sinks and a plain one", 8) { addSink(0, true); addSink(1, true); addSink(2, false); auto T = MPType::WRN; for (int k = 0; k < 3; k++) drive({{mk(0, 0, k == 0 ? MPType::MSG : T, 1, 1)}, {mk(1, 0, k == 2 ? MPType::MSG : MPType::ERR, 1, 1)}}, {0, 1, 2}, k == 1, mc::thorough() ? 5 : 3, "three sinks"); }
MC_SECTION("registering while others log", 4) { // a sink added by one thread receives what is completed afterwards, and only whole messages
  sched::forkEach = true; for (int colour = 0; colour < 2; colour++) for (int have = 0; have < 3; have++) { std::vector<std::vector<Msg>> th = {{mk(0, 0, MPType::MSG, 1, 1), mk(0, 1, MPType::WRN, 1, 1)}, {mk(1, 0, MPType::ERR, 1, 1)}}; std::string what = "registering a " + std::string(colour ? "colour" : "plain") + " sink beside " + std::to_string(have);
    auto st = sched::explore(what, mc::thorough() ? 3 : 2, [&] { for (int i = 0; i < have; i++) addSink(i, i == 1); std::thread t([&] { addSink(3, colour); addSink(3, colour); say(th[1][0]); }); for (auto &m : th[0]) say(m); t.join(); }, [&](const std::string &log) { std::string why; for (int i = 0; i < have; i++) if (!match(i, th, false, why)) mc::fail("sink contents", "%s (schedule %s): sink %d: %s: %s", what.c_str(), log.c_str(), i, why.c_str(), dump(i).c_str()); if (!match(3, th, false, why, ~0, true)) mc::fail("late sink contents", "%s (schedule %s): %s: %s", what.c_str(), log.c_str(), why.c_str(), dump(3).c_str()); std::string all; for (auto &p : sinks[3].pieces) all += p; if (all.find("<B0") == std::string::npos) mc::fail("late sink misses a message", "%s (schedule %s): %s", what.c_str(), log.c_str(), dump(3).c_str()); });
    sched::logStats(what, st); }
}
// ---- sequential histories
static void histories(std::vector<int> use, int depth) {
  struct Model { std::string text; MPType type = MPType::MSG; }; const int OPS = 9; uint64_t tot = 1; for (int i = 0; i < depth; i++) tot *= OPS; const std::string LONG(2100, 'L');
  printer >> 0; for (uint64_t t = 0; t < tot; t++) { if (!mc::mine(t / OPS)) continue; uint64_t x = t; int ops[10]; for (int i = depth; i--;) { ops[i] = int(x % OPS); x /= OPS; } if (ops[depth - 1] != 4 && ops[depth - 1] != 5) continue;
    for (auto &s : sinks) s.pieces.clear(); mc::at("history %llu of %d operations", (unsigned long long)t, depth); mc::trace(); Model m; std::vector<std::vector<Msg>> want(1); uint64_t st = use.size() * 10 + sinks[0].colour;
    for (int i = 0; i < depth; i++) { mc::step(); st = mc::mix(st * 16 + ops[i] + 1); mc::state(st); switch (ops[i]) { case 0: printer << "a"; m.text += "a"; break; case 1: printer << 42; m.text += "42"; break; case 2: printer << MPType::WRN; m.type = MPType::WRN; break; case 3: printer << MPType::ERR; m.type = MPType::ERR; break; case 6: printer << LONG; m.text += LONG; break; case 7: printer << std::string("") << 'c' << 1.5; m.text += "c1.5"; break; case 8: printer << MPType::MSG; m.type = MPType::MSG; break;
      default: printer >> (ops[i] == 5); want[0].push_back({m.type, {m.text}, ops[i] == 5}); m = Model(); } }
    for (int u : use) { std::string why; if (!match(u, want, false, why)) mc::fail("history", "history %llu (base 9): sink %d: %s: %s", (unsigned long long)t, u, why.c_str(), dump(u).c_str()); } if (!(t & 255)) mc::beat(); }
}
MC_SECTION("histories on a plain sink", 8) { addSink(0, false); addSink(0, true); sinks[0].colour = false; histories({0}, mc::thorough() ? 6 : 5); }
MC_SECTION("histories on a colour sink", 8) { addSink(0, true); histories({0}, mc::thorough() ? 6 : 5); }
MC_SECTION("histories on mixed sinks", 8) { addSink(0, false); addSink(1, true); addSink(2, true); histories({0, 1, 2}, mc::thorough() ? 5 : 4); }
MC_SECTION("macros", 1) { addSink(0, false); printline("one " << 1); printwarning("two " << 2); printerror("three"); mc::step(3); std::vector<std::vector<Msg>> w = {{{MPType::MSG, {"one 1"}, 1}, {MPType::WRN, {"two 2"}, 1}, {MPType::ERR, {"three"}, 1}}}; std::string why; if (!match(0, w, false, why)) mc::fail("macros", "%s: %s", why.c_str(), dump(0).c_str()); printer.PrintThreadID(true); sinks[0].pieces.clear(); printline("x"); std::vector<std::vector<Msg>> v = {{{MPType::MSG, {"x"}, 1}}}; if (!match(0, v, true, why)) mc::fail("thread identifier", "%s: %s", why.c_str(), dump(0).c_str()); printer.PrintThreadID(false); sinks[0].pieces.clear(); printline("x"); if (!match(0, v, false, why)) mc::fail("thread identifier", "%s: %s", why.c_str(), dump(0).c_str()); }
#else
MC_SECTION("free running", 4) { addSink(0, false); addSink(1, true); // real threads under ThreadSanitizer; the sinks rely on the printer's own serialisation
  for (int rep = 0; rep < (mc::thorough() ? 300 : 40); rep++) { mc::at("repetition %d", rep); mc::trace(); for (auto &s : sinks) s.pieces.clear(); std::vector<std::vector<Msg>> th(3); for (int t = 0; t < 3; t++) for (int i = 0; i < 4; i++) th[t].push_back(mk(t, i, MPType((t + i) % 3), 1 + i % 2, 1)); std::vector<std::thread> ts; for (int t = 0; t < 3; t++) ts.emplace_back([&, t] { for (auto &m : th[t]) { say(m); mc::step(); } }); if (rep == 1) addSink(2, true); for (auto &t : ts) t.join(); for (int u = 0; u < 2; u++) { std::string why; if (!match(u, th, false, why)) mc::fail("sink contents", "repetition %d: %s", rep, why.c_str()); } }
}
#endif
