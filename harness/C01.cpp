// LIBS: -ldl
// VARIANT: sched -O1 -DMC_SCHED
// VARIANT: free -O1 -fsanitize=thread
// RULE: state = distinct schedule prefix at a choice; transition = one scheduling step of the real queue and its workers; trace = one complete schedule (or one free run under ThreadSanitizer) whose task calls, overlap and return were checked
// ASSUME: scheduling points are the synchronisation operations and the points inside the tasks; the queue's timed waits may time out at any of them
#include "mc.hpp"
#include "sched.hpp"
#include "datas/multi_thread.hpp"
#include <condition_variable>
#include <mutex>
#ifdef MC_SCHED
struct Obs { size_t n; int cores; std::vector<int> calls, doneAt; int foreign = 0, inFlight = 0, maxFlight = 0, finished = 0, finishedAtReturn = -1; bool returned = false, escaped = false; std::vector<int> effect; };
static void judge(const Obs &o, const std::string &what, const std::string &log) {
  int lim = std::max(1, o.cores); auto bad = [&](const char *k, const std::string &d) { mc::fail(k, "%s (schedule %s): %s", what.c_str(), log.c_str(), d.c_str()); };
  if (o.escaped) { bad("exception", "an exception left the queue"); return; }
  for (size_t i = 0; i < o.n; i++) if (o.calls[i] != 1) bad("task count", "task " + std::to_string(i) + " ran " + std::to_string(o.calls[i]) + " times");
  if (o.foreign) bad("foreign task", "a task index outside the queue was run"); if (o.maxFlight > lim) bad("too many tasks at once", std::to_string(o.maxFlight) + " of at most " + std::to_string(lim)); if (!o.returned) bad("return", "the queue did not return"); else if (o.finishedAtReturn != int(o.n)) bad("early return", "returned with " + std::to_string(o.finishedAtReturn) + " finished tasks");
  for (size_t i = 0; i < o.n; i++) if (o.effect[i] != int(i) + 100) bad("effects", "effect of task " + std::to_string(i) + " is not visible");
}
static void drive(size_t n, int cores, int bound, unsigned throwers, bool gate, bool value, bool delay = false) {
  char what[128]; snprintf(what, sizeof what, "%zu tasks on %d cores%s%s%s, %s bound %d", n, cores, throwers ? " some throwing" : "", gate ? " meeting each other" : "", value ? " with results" : "", delay ? "delay" : "preemption", bound);
  static Obs o; static std::mutex m; static std::condition_variable cv; int meet = int(std::min<size_t>(n, std::max(1, cores))); sched::cores = cores; sched::pooled = true; sched::delay = delay; static int arrived;
  auto body = [=] { o = Obs(); o.n = n; o.cores = cores; o.calls.assign(n, 0); o.effect.assign(n, 0); arrived = 0;
    auto task = [&](size_t i) { if (++o.inFlight > o.maxFlight) o.maxFlight = o.inFlight; if (i < o.n) o.calls[i]++; else o.foreign++; sched::point(); if (i < o.n) o.effect[i] = int(i) + 100;
      if (gate) { std::unique_lock<std::mutex> l(m); arrived++; cv.notify_all(); while (arrived < meet) cv.wait(l); }
      o.inFlight--; o.finished++; if (i < 32 && throwers >> i & 1) throw std::runtime_error("task"); };
    try { if (value) RunThreadedQueue(n, [&](size_t i) -> std::string { task(i); return std::to_string(i); }); else RunThreadedQueue(n, task); } catch (...) { o.escaped = true; }
    o.finishedAtReturn = o.finished; o.returned = true; };
  auto st = sched::explore(what, bound, body, [&](const std::string &log) { judge(o, what, log); });
  mc::sample("%s: %llu schedules", what, (unsigned long long)st.schedules); sched::logStats(what, st);
}
static int boundFor(size_t n, int cores) { int k = int(std::min<size_t>(n, std::max(1, cores))); bool t = mc::thorough(); if (k <= 1) return t ? 6 : 4; if (k == 2) return n <= 3 ? (t ? 4 : 3) : (t ? 3 : 2); if (k == 3) return n <= 4 ? (t ? 3 : 2) : (t ? 2 : 1); return t ? 2 : 1; }
MC_SECTION("schedules", 8) { for (size_t n = 0; n <= 6; n++) for (int cores = 0; cores <= 4; cores++) drive(n, cores, boundFor(n, cores), 0, false, false); }
MC_SECTION("tasks with results", 4) { for (size_t n = 1; n <= 4; n++) for (int cores = 0; cores <= 3; cores++) drive(n, cores, std::max(1, boundFor(n, cores) - 1), 0, false, true); }
MC_SECTION("throwing tasks", 4) { for (size_t n = 1; n <= 4; n++) for (int cores = 0; cores <= 3; cores++) for (unsigned th = 1; th < 1u << n; th++) drive(n, cores, 1, th, false, false); }
MC_SECTION("available cores are used", 4) { for (size_t n = 1; n <= 6; n++) for (int cores = 0; cores <= 4; cores++) { int k = int(std::min<size_t>(n, std::max(1, cores))); if (k < 3) drive(n, cores, mc::thorough() ? 3 : 2, 0, true, false); else if (k == 3 && n <= 4) drive(n, cores, 1, 0, true, false); drive(n, cores, mc::thorough() ? 3 : 2, 0, true, false, true); } }
MC_SECTION("long queues", 4) { for (size_t n : {7u, 8u, 12u, 16u, 33u}) for (int cores = 0; cores <= 8; cores++) drive(n, cores, n <= 8 ? (mc::thorough() ? 3 : 2) : n <= 16 ? (mc::thorough() ? 2 : 1) : 1, 0, false, false, true); }
MC_SECTION("many tasks, many cores", 8) { sched::HORIZON = 400000; for (size_t n : {63u, 64u, 65u, 100u, 127u, 128u, 129u, 200u, 255u, 256u, 257u, 400u}) for (int cores : {0, 1, 2, 3, 8, 40}) drive(n, cores, 0, 0, false, false, true); for (int cores : {5, 6, 8, 9, 12, 16, 17, 24, 32, 33, 48}) for (size_t n : {size_t(cores) - 1, size_t(cores), size_t(cores) + 1, size_t(cores) * 2 + 1}) drive(n, cores, 0, 0, true, false, true); }
#else
MC_SECTION("free running, every length", 4) { uint64_t id = 0; for (size_t n = 0; n <= 1030; n++) { if (n > (mc::thorough() ? 600 : 140) && n != 255 && n != 256 && n != 257 && n != 511 && n != 512 && n != 513 && n < 1023) continue; if (!mc::mine(id++)) continue; mc::at("%zu tasks", n); mc::state(mc::hashBytes(&n, sizeof n)); mc::trace(); mc::step(n + 1); std::vector<int> eff(n, 0); RunThreadedQueue(n, [&](size_t i) { if (i < n) eff[i]++; }); for (size_t i = 0; i < n; i++) if (eff[i] != 1) mc::fail("task count", "task %zu of %zu ran %d times", i, n, eff[i]); } }
MC_SECTION("free running", 4) { // real threads under ThreadSanitizer: effects of the tasks reach the caller without a race
  uint64_t id = 0; for (int rep = 0; rep < (mc::thorough() ? 200 : 30); rep++) for (size_t n = 0; n <= 12; n++) { if (!mc::mine(id++)) continue; mc::at("%zu tasks", n); mc::trace(); mc::step(n + 1); std::vector<int> eff(n, 0); std::string text; RunThreadedQueue(n, [&](size_t i) { eff[i]++; if (i == 0) text = "first"; }); for (size_t i = 0; i < n; i++) { if (eff[i] != 1) mc::fail("task count", "task %zu of %zu ran %d times", i, n, eff[i]); } if (n && text != "first") mc::fail("effects", "not visible"); }
}
#endif
