// REPO: datas/reflector.cpp datas/reflector_io.cpp datas/reflector_xml.cpp datas/master_printer.cpp datas/directory_scanner.cpp datas/stat.cpp datas/matrix44.cpp datas/encrypt/blowfish.cpp uni/uni_format.cpp
// EXTRA: harness/C43_ops.cpp
// LIBS: -lpugixml
// FLAGS: -I{repo}/datas
// VARIANT: step -O1
// INSTR: step -fsanitize-coverage=trace-pc
// VARIANT: race -O1 -fsanitize=thread
// RULE: state = distinct (pair of operations, preemption point); transition = one operation run; trace = one schedule whose two results were compared with the results the operations give alone
// ASSUME: types are registered before the threads start; a preemption happens at the start of any basic block of the library (and of the templates it instantiates); the C and C++ libraries and pugixml are thread safe; data races are those ThreadSanitizer sees
#include "mc.hpp"
#include "C43_ops.hpp"
#include "ziplib.hpp"
#include <fcntl.h>
#include <linux/futex.h>
#include <map>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
typedef std::string S;
static void prepare() {
  libTmp = mc::g().tmp + "/c43." + std::to_string(getpid()); mkdir(libTmp.c_str(), 0755); for (int w = 0; w < 2; w++) { S d = libTmp + "/scan" + std::to_string(w); mkdir(d.c_str(), 0755); for (const char *n : {"/x.a", "/y.b", "/bb"}) close(open((d + n).c_str(), O_CREAT | O_WRONLY, 0644)); mkdir((d + "/sub").c_str(), 0755); close(open((d + "/sub/z.a").c_str(), O_CREAT | O_WRONLY, 0644)); d = libTmp + "/stat" + std::to_string(w); mkdir(d.c_str(), 0755); close(open((d + "/f").c_str(), O_CREAT | O_WRONLY, 0644));
    std::vector<zipref::Entry> e; for (int i = 0; i < 3; i++) { zipref::Entry x; x.name = (w ? "dir/" : "") + S(1, char('a' + i)); x.data = S(size_t(3 + i * 5), char('0' + i + w)); e.push_back(x); } libZip[w] = zipref::build(e, zipref::Tail()).bytes; }
  libPrepare();
}
static S safely(const LibOp &o, int who) { try { return o.run(who); } catch (const std::exception &e) { return S("exception ") + e.what(); } }
// what every operation gives alone, found in a process of its own so that nothing is initialised here
struct Alone { S r[2]; };
static const std::vector<Alone> &alone() {
  static std::vector<Alone> v; if (v.size()) return v; static const size_t CAP = 1 << 16; size_t n = libOps().size(); char *m = static_cast<char *>(mmap(nullptr, CAP * n * 2, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  for (size_t i = 0; i < n; i++) for (int w = 0; w < 2; w++) { pid_t p = fork(); if (!p) { S s = safely(libOps()[i], w); if (s.size() > CAP - 8) s.resize(CAP - 8); char *q = m + (i * 2 + size_t(w)) * CAP; memcpy(q + 8, s.data(), s.size()); *reinterpret_cast<uint64_t *>(q) = s.size() + 1; _exit(0); } int st; waitpid(p, &st, 0); }
  v.resize(n); for (size_t i = 0; i < n; i++) for (int w = 0; w < 2; w++) { char *q = m + (i * 2 + size_t(w)) * CAP; uint64_t k = *reinterpret_cast<uint64_t *>(q); if (!k) mc::fail("alone", "%s does not finish by itself", libOps()[i].name); else v[i].r[w].assign(q + 8, size_t(k - 1)); }
  munmap(m, CAP * n * 2); return v;
}
static void judge(size_t op, int who, const S &got, const S &what) { const S &w = alone()[op].r[who]; if (got != w) { size_t k = 0; while (k < got.size() && k < w.size() && got[k] == w[k]) k++; mc::fail(S("result of ") + libOps()[op].name, "%s: %s gives ..%s expected ..%s at %zu", what.c_str(), libOps()[op].name, mc::quote(got.substr(k, 40)).c_str(), mc::quote(w.substr(k, 40)).c_str(), k); } }
#ifndef MC_VARIANT_race
// ---- one preemption (or two) at chosen basic blocks: thread 0 stops at its block `stop[0]`, thread 1 runs to its
// end or to its block `stop[1]`, thread 0 runs to its end, thread 1 goes on
static uint64_t stop_[2]; static volatile bool stopped_[2]; static std::atomic<int> go_[2], done_[2], evt_{0}; static thread_local int me_ = -1; static thread_local uint64_t at_ = 0; static pid_t tid_[2]; static size_t op_[2]; static S got_[2]; static uint64_t points_[2];
static void fwait(std::atomic<int> &a, int old) { while (a.load(std::memory_order_acquire) == old) syscall(SYS_futex, reinterpret_cast<int *>(&a), FUTEX_WAIT_PRIVATE, old, nullptr, nullptr, 0); }
static void fset(std::atomic<int> &a, int v) { a.store(v, std::memory_order_release); syscall(SYS_futex, reinterpret_cast<int *>(&a), FUTEX_WAKE_PRIVATE, 9, nullptr, nullptr, 0); }
enum { IDLE, RUN, HELD, OVER };
static std::atomic<int> st_[2];
extern "C" void __sanitizer_cov_trace_pc() { if (me_ < 0) return; if (++at_ == stop_[me_]) { int m = me_; me_ = -1; stopped_[m] = true; fset(st_[m], HELD); fwait(st_[m], HELD); me_ = m; } }
static void *worker(void *p) { int m = int(reinterpret_cast<intptr_t>(p)); tid_[m] = pid_t(syscall(SYS_gettid)); fset(done_[m], 1); for (;;) { fwait(go_[m], 0); fset(go_[m], 0); at_ = 0; me_ = m; S s = safely(libOps()[op_[m]], m); me_ = -1; points_[m] = at_; got_[m] = s; fset(st_[m], OVER); } return nullptr; }
static void startWorkers() { for (int m = 0; m < 2; m++) { done_[m] = 0; pthread_t t; pthread_create(&t, nullptr, worker, reinterpret_cast<void *>(intptr_t(m))); pthread_detach(t); fwait(done_[m], 0); } }
static bool asleep(int m) { char b[64], t[256]; snprintf(b, sizeof b, "/proc/self/task/%d/stat", tid_[m]); int f = open(b, O_RDONLY); if (f < 0) return false; ssize_t n = read(f, t, sizeof t - 1); close(f); if (n <= 0) return false; t[n] = 0; char *p = strrchr(t, ')'); return p && p[2] == 'S'; }
// until thread m holds, is over, or sleeps on something the other one has: true when it sleeps
static bool follow(int m) {
  int calm = 0; for (int i = 0;; i++) { int s = st_[m].load(std::memory_order_acquire); if (s != RUN) return false; if (i < 400) { syscall(SYS_sched_yield); continue; } struct timespec ts = {0, 500000}; syscall(SYS_futex, reinterpret_cast<int *>(&st_[m]), FUTEX_WAIT_PRIVATE, RUN, &ts, nullptr, 0); if (st_[m].load() == RUN && asleep(m)) { if (++calm > 4) return true; } else calm = 0; if (i > 40000) return true; }
}
static bool finish(int m) { for (int i = 0; i < 40; i++) { if (st_[m].load() == OVER) return true; if (st_[m].load() == HELD) fset(st_[m], RUN); if (!follow(m) && st_[m].load() == OVER) return true; struct timespec ts = {0, 5000000}; syscall(SYS_futex, reinterpret_cast<int *>(&st_[m]), FUTEX_WAIT_PRIVATE, RUN, &ts, nullptr, 0); } return st_[m].load() == OVER; }
static void begin(int m) { st_[m] = RUN; fset(go_[m], 1); }
// true if both threads reached their stopping points
static bool schedule(size_t a, size_t b, uint64_t k, uint64_t j, bool &stuck) {
  op_[0] = a; op_[1] = b; stop_[0] = k; stop_[1] = j; stopped_[0] = stopped_[1] = false; stuck = false; begin(0); follow(0); begin(1); bool blocked = follow(1); (void)blocked;
  if (!finish(0)) { if (!(follow(1), finish(1)) || !finish(0)) { stuck = true; return false; } } if (!finish(1)) { stuck = true; return false; }
  return (!k || stopped_[0]) && (!j || stopped_[1]);
}
static S describe(size_t a, size_t b, uint64_t k, uint64_t j) { S s = S(libOps()[a].name) + " stopped at block " + std::to_string(k) + ", " + libOps()[b].name; if (j) s += " stopped at block " + std::to_string(j); return s; }
static void pin() { int c = sched_getcpu(); cpu_set_t s; CPU_ZERO(&s); CPU_SET(c < 0 ? 0 : c, &s); sched_setaffinity(0, sizeof s, &s); }
static bool one(size_t a, size_t b, uint64_t k, uint64_t j) { bool stuck; mc::at("%s", describe(a, b, k, j).c_str()); mc::trace(); mc::step(); mc::step(); mc::state(mc::mix(mc::mix(a * 1000 + b) ^ mc::mix(k * 3 + 1) ^ mc::mix(j * 7 + 5) * 3)); bool r = schedule(a, b, k, j, stuck); if (stuck) { mc::fail("stuck", "%s: the operations wait for each other", describe(a, b, k, j).c_str()); _exit(0); } judge(a, 0, got_[0], describe(a, b, k, j)); judge(b, 1, got_[1], describe(a, b, k, j)); return r; }
// everything has been used before: every pair, every stopping point of the first
MC_SECTION("one preemption", 16) {
  prepare(); alone(); pin(); startWorkers(); size_t n = libOps().size(); uint64_t id = 0; for (size_t a = 0; a < n; a++) { one(a, a, 0, 0); one(a, a, 0, 0); }
  uint64_t most = mc::thorough() ? ~0ull : 700; // in the quick tier long operations meet themselves and their kin at every block, the others only up to this one
  for (size_t a = 0; a < n; a++) for (size_t b = 0; b < n; b++) { if (!mc::mine(id++)) continue; bool near = a == b; for (uint64_t k = 1; near || k <= most; k++) { if (!one(a, b, k, 0)) break; if (!(k & 255)) mc::beat(); } mc::beat(); }
}
// two preemptions, the second back to the first operation
MC_SECTION("two preemptions", 16) {
  prepare(); alone(); pin(); startWorkers(); size_t n = libOps().size(); uint64_t id = 0, lim = mc::thorough() ? 200000 : 12000; std::vector<uint64_t> len(n); for (size_t a = 0; a < n; a++) { one(a, a, 0, 0); one(a, a, 0, 0); len[a] = points_[0] > points_[1] ? points_[0] : points_[1]; }
  for (size_t a = 0; a < n; a++) for (size_t b = 0; b < n; b++) { if (!mc::mine(id++)) continue; if (len[a] * len[b] > lim) continue; for (uint64_t k = 1; k <= len[a]; k++) for (uint64_t j = 1; j <= len[b]; j++) { if (!one(a, b, k, j)) break; if (!(j & 255)) mc::beat(); } mc::beat(); }
}
// the first use of everything: each schedule in a new process
MC_SECTION("first use", 16) {
  prepare(); alone(); pin(); size_t n = libOps().size(); uint64_t id = 0; struct Shm { bool ended, more; }; Shm *m = static_cast<Shm *>(mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0)); (void)n;
  for (size_t a = 0; a < n; a++) for (size_t b = 0; b < n; b++) { if (a != b && !mc::thorough()) continue; for (uint64_t part = 0; part < 16; part++) { if (!mc::mine(id++)) continue; for (uint64_t k = part + 1;; k += 16) { mc::at("first use, %s", describe(a, b, k, 0).c_str()); m->ended = m->more = false; int before = mc::g().job->nviol; pid_t p = fork(); if (!p) { alarm(30); startWorkers(); m->more = one(a, b, k, 0); m->ended = true; _exit(0); } int st = 0; waitpid(p, &st, 0); mc::trace(); mc::step(); mc::beat(); mc::state(mc::mix(mc::mix(a * 1000 + b) ^ mc::mix(k * 3 + 1)) + 77); if (mc::g().job->nviol > before) return; if (!m->ended) { mc::fail("first use crash", "first use, %s: ends by %s %d", describe(a, b, k, 0).c_str(), WIFSIGNALED(st) ? "signal" : "status", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)); return; } if (!m->more) break; if (a != b && k > 600) break; } } }
}
#else
// ---- unordered accesses: every pair at once under ThreadSanitizer, each in a new process
MC_SECTION("races", 16) {
  prepare(); alone(); size_t n = libOps().size(); uint64_t id = 0; struct Shm { bool ended; }; Shm *m = static_cast<Shm *>(mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  for (size_t a = 0; a < n; a++) for (size_t b = a; b < n; b++) for (int rep = 0; rep < (mc::thorough() ? 5 : 1); rep++) { if (!mc::mine(id++)) continue; S what = S(libOps()[a].name) + " with " + libOps()[b].name; mc::at("%s", what.c_str()); mc::state(a * 1000 + b); mc::trace(); mc::step(); mc::step(); m->ended = false; pid_t p = fork();
    if (!p) { alarm(60); static S got[2]; static pthread_barrier_t bar; pthread_barrier_init(&bar, nullptr, 2); { std::thread t([&] { pthread_barrier_wait(&bar); got[1] = safely(libOps()[b], 1); got[1] = safely(libOps()[b], 1); }); pthread_barrier_wait(&bar); got[0] = safely(libOps()[a], 0); got[0] = safely(libOps()[a], 0); t.join(); } judge(a, 0, got[0], what); judge(b, 1, got[1], what); m->ended = true; _exit(0); }
    int st = 0; waitpid(p, &st, 0); mc::beat(); if (!m->ended || (WIFEXITED(st) && WEXITSTATUS(st))) mc::fail(WIFEXITED(st) && WEXITSTATUS(st) == 66 ? "data race" : "crash", "%s: ends by %s %d", what.c_str(), WIFSIGNALED(st) ? "signal" : "status", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)); }
}
#endif
