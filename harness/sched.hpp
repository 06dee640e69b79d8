// Controlled scheduler for stateless model checking of real threaded code.
// The blocking primitives of pthread and of libstdc++'s futures are replaced at link time; exactly one
// model thread runs at a time and every synchronisation operation, and every sched::point(), is a
// scheduling point.  explore() enumerates all schedules whose deviations from the default one (keep
// running the current thread, no early timeouts) are at most the bound.  Include once.
#pragma once
#include "mc.hpp"
#include <bits/atomic_futex.h>
#include <dlfcn.h>
#include <linux/futex.h>
#include <map>
#include <memory>
#include <pthread.h>
#include <sched.h>
#include <sys/syscall.h>
#include <thread>

namespace sched {
enum Kind { READY, MUTEX, RDLOCK, WRLOCK, JOIN, FUTEX, COND, ONCE, SLEEP, DONE };
static const char *const KINDS[] = {"running", "locking a mutex", "read locking", "write locking", "joining a thread", "waiting for a result", "waiting for a condition", "waiting for one time initialisation", "sleeping", "finished"};
struct Thread {
  int id; Kind kind = READY; const void *obj = nullptr; bool timed = false, notified = false, timedOut = false, joined = false; int joinId = -1;
  std::atomic<int> go{0}; void *(*fn)(void *) = nullptr; void *arg = nullptr; pthread_t real{};
};
struct Choice { int n, chosen; };
struct Mx { int owner = -1, depth = 0, readers = 0; };
struct World {
  std::vector<std::unique_ptr<Thread>> ts; std::map<const void *, Mx> mx; std::map<const void *, int> once; int cur = 0, used = 0, bound = 0; std::vector<Choice> *path = nullptr; size_t pos = 0; uint64_t steps = 0, prefix = 0, idle = 0; std::string log, broken; std::atomic<int> finished{0}; size_t liveThreads = 0, maxThreads = 0;
};
static bool pooled = false, delay = false; // delay: also the choice of a successor when the running thread blocks counts as a deviation
static World *W = nullptr; static thread_local Thread *self = nullptr; static unsigned cores = 2; static uint64_t HORIZON = 20000;
inline void fwait(std::atomic<int> &a) { while (!a.load(std::memory_order_acquire)) syscall(SYS_futex, reinterpret_cast<int *>(&a), FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); a.store(0, std::memory_order_relaxed); }
inline void fwake(std::atomic<int> &a) { a.store(1, std::memory_order_release); syscall(SYS_futex, reinterpret_cast<int *>(&a), FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }
[[noreturn]] inline void park() { for (;;) pause(); }
template <class F> static F real(const char *n) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, n)); }
static bool enabled(const Thread &t) {
  switch (t.kind) {
  case READY: return true;
  case MUTEX: case WRLOCK: { Mx &m = W->mx[t.obj]; return (m.owner < 0 || (t.kind == MUTEX && m.depth < 0 && m.owner == t.id)) && !m.readers; }
  case RDLOCK: return W->mx[t.obj].owner < 0;
  case JOIN: return W->ts[t.joinId]->kind == DONE;
  case FUTEX: case COND: return t.notified;
  case ONCE: return W->once[t.obj] != 1;
  default: return false; }
}
inline void stuck(const char *what) { std::string s = what; for (auto &t : W->ts) if (t->kind != DONE) s += std::string("; thread ") + std::to_string(t->id) + " " + KINDS[t->kind] + (t->timed ? " (timed)" : ""); W->broken = s; fwake(W->finished); park(); }
// choose who runs next; returns when the calling thread is chosen again
static void reschedule() {
  Thread *me = self; W->steps++; mc::step();
  if (W->steps > HORIZON) stuck("no progress");
  struct Opt { int id; bool timeout; int cost; }; Opt o[64]; int n = 0; bool can = enabled(*me); int left = W->bound - W->used;
  if (can) o[n++] = {me->id, false, 0}; bool ready = can;
  for (size_t k = 1; k < W->ts.size(); k++) { Thread *t = W->ts[(me->id + k) % W->ts.size()].get(); if (enabled(*t) && n < 60) { ready = true; int cost = can || (delay && n) ? 1 : 0; if (left >= cost) o[n++] = {t->id, false, cost}; } }
  for (auto &t : W->ts) if (t->timed && !enabled(*t) && t->kind != READY && t->kind != DONE && n < 60) { int cost = ready || (delay && n) ? 1 : 0; if (left >= cost) o[n++] = {t->id, true, cost}; }
  if (!n) { bool all = true; for (auto &t : W->ts) if (t->kind != DONE) all = false; if (all) { fwake(W->finished); return; } stuck("deadlock"); }
  if (!ready && ++W->idle > 300) stuck("nothing but waiting in a loop"); if (ready) W->idle = 0;
  int pick = 0;
  if (n > 1) { if (W->pos == W->path->size()) W->path->push_back({n, 0}); Choice &c = (*W->path)[W->pos]; if (c.n != n) { W->broken = "schedule is not reproducible"; fwake(W->finished); park(); } pick = c.chosen; W->pos++; W->prefix = mc::mix(W->prefix ^ uint64_t(o[pick].id * 2 + o[pick].timeout + 1)); mc::state(W->prefix); }
  W->used += o[pick].cost; Thread *nx = W->ts[o[pick].id].get(); nx->timedOut = o[pick].timeout; if (nx->id != W->cur || o[pick].timeout) { if (W->log.size() < 400) { W->log += std::to_string(nx->id); W->log += o[pick].timeout ? "t " : " "; } } W->cur = nx->id;
  nx->kind = READY; nx->timed = false; if (nx == me) return;
  bool over = me->kind == DONE; fwake(nx->go); if (over) return; fwait(me->go);
}
inline void waitFor(Kind k, const void *obj, bool timed = false) { self->kind = k; self->obj = obj; self->timed = timed; self->notified = false; reschedule(); }
// a scheduling point of the harness: user code doing something other threads may notice
inline void point() { if (self) { self->kind = READY; reschedule(); } }
inline int id() { return self ? self->id : -1; }
static void *trampoline(void *p) { Thread *t = static_cast<Thread *>(p); self = t; fwait(t->go); void *r = t->fn(t->arg); W->liveThreads--; t->kind = DONE; t->timed = false; self = nullptr; { self = t; reschedule(); self = nullptr; } return r; }
// model threads may share real threads one after the other (thread_local objects then live on): set pooled
struct Real { pthread_t h{}; std::atomic<int> start{0}; Thread *job = nullptr; };
 static std::vector<Real *> idleReals; static std::atomic_flag poolLock = ATOMIC_FLAG_INIT;
static void *poolMain(void *p) { Real *r = static_cast<Real *>(p); for (;;) { fwait(r->start); trampoline(r->job); while (poolLock.test_and_set()) ; idleReals.push_back(r); poolLock.clear(); } }
typedef int (*CreateFn)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
inline int spawn(pthread_t *out, const pthread_attr_t *attr, void *(*fn)(void *), void *arg, Thread **made = nullptr) { static CreateFn create = real<CreateFn>("pthread_create"); std::unique_ptr<Thread> t(new Thread()); t->id = int(W->ts.size()); t->fn = fn; t->arg = arg; Thread *raw = t.get(); W->ts.push_back(std::move(t)); int r = 0;
  if (pooled) { Real *h = nullptr; while (poolLock.test_and_set()) ; for (size_t i = 0; i < idleReals.size() && !h; i++) { bool used = false; for (auto &x : W->ts) if (x.get() != raw && !x->joined && pthread_equal(x->real, idleReals[i]->h)) used = true; if (!used) { h = idleReals[i]; idleReals.erase(idleReals.begin() + i); } } poolLock.clear(); if (!h) { h = new Real(); h->job = raw; { pthread_attr_t own; pthread_attr_init(&own); pthread_attr_setstacksize(&own, 512 << 10); r = create(&h->h, attr ? attr : &own, poolMain, h); pthread_attr_destroy(&own); } } raw->real = h->h; h->job = raw; if (!r) fwake(h->start); }
  else { pthread_attr_t own; pthread_attr_init(&own); pthread_attr_setstacksize(&own, 512 << 10); r = create(&raw->real, attr ? attr : &own, trampoline, raw); pthread_attr_destroy(&own); }
  if (r) { W->ts.pop_back(); return r; } *out = raw->real; W->liveThreads++; if (W->liveThreads > W->maxThreads) W->maxThreads = W->liveThreads; if (made) *made = raw; return 0; }
struct Result { bool ok; std::string broken, log; uint64_t steps; };
static std::function<void()> *body_;
static void *bodyMain(void *) { (*body_)(); return nullptr; }
// each execution in a process of its own (for code whose global state cannot be taken back)
static bool forkEach = false;
// one execution
inline Result runOnce(int bound, std::vector<Choice> &path, std::function<void()> &body) {
  std::unique_ptr<World> w(new World()); W = w.get(); w->bound = bound; w->path = &path; body_ = &body; pthread_t th; Thread *t0; spawn(&th, nullptr, bodyMain, nullptr, &t0); fwake(t0->go); fwait(w->finished);
  Result r{w->broken.empty(), w->broken, w->log, w->steps}; typedef int (*JoinFn)(pthread_t, void **); static JoinFn join = real<JoinFn>("pthread_join");
  if (r.ok) { if (!pooled) join(th, nullptr); W = nullptr; } else { w.release(); W = nullptr; }
  return r;
}
struct Stats { uint64_t schedules = 0; size_t maxThreads = 0; };
inline void logStats(const std::string &what, const Stats &st) { if (const char *f = getenv("MC_STATS")) { if (FILE *o = fopen(f, "a")) { fprintf(o, "%llu %s\n", (unsigned long long)st.schedules, what.c_str()); fclose(o); } } }
inline void pin() { static bool done = false; if (done) return; done = true; int c = sched_getcpu(); cpu_set_t s; CPU_ZERO(&s); CPU_SET(c < 0 ? 0 : c, &s); ::sched_setaffinity(0, sizeof s, &s); }
// every schedule within the bound; body runs as model thread 0, after() judges the finished execution.  The tree is
// divided among the shards at its first levels.
inline Stats explore(const std::string &what, int bound, std::function<void()> body, std::function<void(const std::string &)> after, uint64_t limit = ~0ull) {
  pin(); Stats st; bool retried = false; std::vector<Choice> path; const size_t K = bound ? 6 : 9; mc::g();
  for (;;) {
    size_t had = path.size(); (void)had; mc::at("%s, schedule %s", what.c_str(), "running");
    Result r; bool bad = false;
    if (!forkEach) r = runOnce(bound, path, body);
    else { struct Shm { size_t n; Choice c[4096]; char log[512]; int nviol; bool ok; }; static Shm *m = static_cast<Shm *>(mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0)); m->ok = false; pid_t pid = fork();
      if (!pid) { mc::at("%s, schedule with %zu choices", what.c_str(), path.size()); alarm(60); Result x = runOnce(bound, path, body); m->n = std::min<size_t>(path.size(), 4096); for (size_t i = 0; i < m->n; i++) m->c[i] = path[i]; snprintf(m->log, sizeof m->log, "%s", x.log.c_str()); mc::at("%s, schedule %s", what.c_str(), m->log); if (!x.ok) mc::fail(x.broken.compare(0, 8, "deadlock") == 0 ? "deadlock" : "livelock", "%s (schedule %s): %s", what.c_str(), m->log, x.broken.c_str()); else after(x.log); m->ok = true; _exit(0); }
      int stt = 0; waitpid(pid, &stt, 0); if (!m->ok) { mc::fail("crash", "%s: schedule ended by %s %d after choices %s", what.c_str(), WIFSIGNALED(stt) ? "signal" : "status", WIFSIGNALED(stt) ? WTERMSIG(stt) : WEXITSTATUS(stt), [&] { std::string s; for (auto &c : path) s += std::to_string(c.chosen) + " "; return s; }().c_str()); return st; }
      path.assign(m->c, m->c + m->n); r.ok = true; r.log = m->log; bad = mc::g().job->nviol > 0; }
    mc::beat();
    uint64_t h = 1469598103934665603ull; for (size_t i = 0; i < K && i < path.size(); i++) h = mc::mix(h ^ uint64_t(path[i].chosen + 1)); bool own = path.size() < K ? (h >> 8) % mc::g().nshards == uint64_t(mc::g().shard) : (h >> 8) % mc::g().nshards == uint64_t(mc::g().shard);
    if (own) { st.schedules++; mc::trace(); }
    mc::at("%s, schedule %s", what.c_str(), r.log.c_str());
    if (!r.ok && !retried && r.broken.compare(0, 8, "schedule") == 0) { retried = true; path.clear(); continue; } // something initialised itself in the first execution: start over
    if (!r.ok) { mc::fail(r.broken.compare(0, 8, "deadlock") == 0 ? "deadlock" : r.broken.compare(0, 8, "schedule") == 0 ? "not reproducible" : "livelock", "%s (schedule %s): %s", what.c_str(), r.log.c_str(), r.broken.c_str()); return st; }
    if (!forkEach) after(r.log); else if (bad) return st;
    if (!own && path.size() > K) path.resize(K); // another shard looks at this subtree
    while (!path.empty() && path.back().chosen + 1 >= path.back().n) path.pop_back();
    if (path.empty()) return st; path.back().chosen++;
    if (st.schedules >= limit) { mc::capped("schedule limit"); return st; }
  }
}
} // namespace sched

// ---- link time replacements
#ifdef MC_SCHED
#define SELF (sched::self && sched::W)
#define REAL(name, ...) ((decltype(&name))dlsym(RTLD_NEXT, #name))(__VA_ARGS__)
using sched::waitFor;
extern "C" {
int pthread_create(pthread_t *o, const pthread_attr_t *a, void *(*f)(void *), void *p) noexcept { if (!SELF) { static sched::CreateFn c = sched::real<sched::CreateFn>("pthread_create"); return c(o, a, f, p); } int r = sched::spawn(o, a, f, p); if (!r) sched::point(); return r; }
int pthread_join(pthread_t t, void **r) { if (SELF) { int target = -1; for (auto &x : sched::W->ts) if (!x->joined && pthread_equal(x->real, t)) target = x->id; if (target >= 0) { sched::self->joinId = target; waitFor(sched::JOIN, nullptr); sched::W->ts[target]->joined = true; if (sched::pooled) return 0; } } typedef int (*F)(pthread_t, void **); static F f = sched::real<F>("pthread_join"); return f(t, r); }
static int lockMx(const void *m, int type) { using namespace sched; Mx &x = W->mx[m]; if (x.owner == self->id && type == PTHREAD_MUTEX_RECURSIVE_NP) { point(); x.depth++; return 0; } waitFor(MUTEX, m); Mx &y = W->mx[m]; y.owner = self->id; y.depth = 1; return 0; }
int pthread_mutex_lock(pthread_mutex_t *m) noexcept { if (!SELF) { typedef int (*F)(pthread_mutex_t *); static F f = sched::real<F>("pthread_mutex_lock"); return f(m); } return lockMx(m, m->__data.__kind & 3); }
int pthread_mutex_trylock(pthread_mutex_t *m) noexcept { if (!SELF) { typedef int (*F)(pthread_mutex_t *); static F f = sched::real<F>("pthread_mutex_trylock"); return f(m); } sched::point(); auto &x = sched::W->mx[m]; if (x.owner == sched::self->id && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) { x.depth++; return 0; } if (x.owner >= 0) return EBUSY; x.owner = sched::self->id; x.depth = 1; return 0; }
int pthread_mutex_unlock(pthread_mutex_t *m) noexcept { if (!SELF) { typedef int (*F)(pthread_mutex_t *); static F f = sched::real<F>("pthread_mutex_unlock"); return f(m); } auto &x = sched::W->mx[m]; if (x.owner != sched::self->id) mc::fail("unlock", "a mutex is unlocked by a thread that does not hold it"); if (--x.depth <= 0) { x.owner = -1; x.depth = 0; } return 0; }
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *) noexcept { if (!SELF) return EINVAL; waitFor(sched::MUTEX, m, true); if (sched::self->timedOut) return ETIMEDOUT; auto &x = sched::W->mx[m]; x.owner = sched::self->id; x.depth = 1; return 0; }
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t, const struct timespec *t) noexcept { return pthread_mutex_timedlock(m, t); }
static int condWait(pthread_cond_t *c, pthread_mutex_t *m, bool timed) { using namespace sched; Mx &x = W->mx[m]; x.owner = -1; x.depth = 0; waitFor(COND, c, timed); bool out = self->timedOut; waitFor(MUTEX, m); Mx &y = W->mx[m]; y.owner = self->id; y.depth = 1; return out ? ETIMEDOUT : 0; }
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { if (!SELF) { typedef int (*F)(pthread_cond_t *, pthread_mutex_t *); static F f = sched::real<F>("pthread_cond_wait"); return f(c, m); } return condWait(c, m, false); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { if (!SELF) { typedef int (*F)(pthread_cond_t *, pthread_mutex_t *, const struct timespec *); static F f = sched::real<F>("pthread_cond_timedwait"); return f(c, m, t); } return condWait(c, m, true); }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *t) { if (!SELF) { typedef int (*F)(pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *); static F f = sched::real<F>("pthread_cond_clockwait"); return f(c, m, k, t); } return condWait(c, m, true); }
int pthread_cond_signal(pthread_cond_t *c) noexcept { if (!SELF) { typedef int (*F)(pthread_cond_t *); static F f = sched::real<F>("pthread_cond_signal"); return f(c); } sched::point(); for (auto &t : sched::W->ts) if (t->kind == sched::COND && t->obj == c && !t->notified) { t->notified = true; break; } return 0; }
int pthread_cond_broadcast(pthread_cond_t *c) noexcept { if (!SELF) { typedef int (*F)(pthread_cond_t *); static F f = sched::real<F>("pthread_cond_broadcast"); return f(c); } sched::point(); for (auto &t : sched::W->ts) if (t->kind == sched::COND && t->obj == c) t->notified = true; return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t *l) noexcept { if (!SELF) { typedef int (*F)(pthread_rwlock_t *); static F f = sched::real<F>("pthread_rwlock_rdlock"); return f(l); } waitFor(sched::RDLOCK, l); sched::W->mx[l].readers++; return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t *l) noexcept { if (!SELF) { typedef int (*F)(pthread_rwlock_t *); static F f = sched::real<F>("pthread_rwlock_wrlock"); return f(l); } waitFor(sched::WRLOCK, l); sched::W->mx[l].owner = sched::self->id; return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t *l) noexcept { if (!SELF) { typedef int (*F)(pthread_rwlock_t *); static F f = sched::real<F>("pthread_rwlock_unlock"); return f(l); } auto &x = sched::W->mx[l]; if (x.owner == sched::self->id) x.owner = -1; else x.readers--; return 0; }
int pthread_once(pthread_once_t *o, void (*fn)(void)) { if (!SELF) { typedef int (*F)(pthread_once_t *, void (*)(void)); static F f = sched::real<F>("pthread_once"); return f(o, fn); } if (*o == 2) return 0; waitFor(sched::ONCE, o); if (*o == 2) return 0; sched::W->once[o] = 1; try { fn(); } catch (...) { sched::W->once[o] = 0; throw; } sched::W->once[o] = 0; *o = 2; return 0; }
int sched_yield() noexcept { if (!SELF) return syscall(SYS_sched_yield); waitFor(sched::SLEEP, nullptr, true); return 0; }
int nanosleep(const struct timespec *t, struct timespec *r) { if (!SELF) return syscall(SYS_nanosleep, t, r); waitFor(sched::SLEEP, nullptr, true); return 0; }
int clock_nanosleep(clockid_t k, int fl, const struct timespec *t, struct timespec *r) { if (!SELF) return syscall(SYS_clock_nanosleep, k, fl, t, r) ? errno : 0; waitFor(sched::SLEEP, nullptr, true); return 0; }
int usleep(useconds_t us) { if (!SELF) { struct timespec t = {us / 1000000, long(us % 1000000) * 1000}; return syscall(SYS_nanosleep, &t, nullptr); } waitFor(sched::SLEEP, nullptr, true); return 0; }
}
bool std::__atomic_futex_unsigned_base::_M_futex_wait_until(unsigned *a, unsigned v, bool timed, std::chrono::seconds s, std::chrono::nanoseconds ns) {
  if (!SELF) { if (!timed) { syscall(SYS_futex, a, FUTEX_WAIT, v, nullptr, nullptr, 0); return true; } struct timespec t = {0, 1000000}; syscall(SYS_futex, a, FUTEX_WAIT, v, &t, nullptr, 0); return __atomic_load_n(a, __ATOMIC_SEQ_CST) != v; }
  if (__atomic_load_n(a, __ATOMIC_SEQ_CST) != v) { sched::point(); return true; } waitFor(sched::FUTEX, a, timed); return !(sched::self->timedOut && __atomic_load_n(a, __ATOMIC_SEQ_CST) == v); }
void std::__atomic_futex_unsigned_base::_M_futex_notify_all(unsigned *a) { if (!SELF) { syscall(SYS_futex, a, FUTEX_WAKE, INT32_MAX); return; } for (auto &t : sched::W->ts) if (t->kind == sched::FUTEX && t->obj == a) t->notified = true; sched::point(); }
unsigned std::thread::hardware_concurrency() noexcept { return sched::cores; }
#endif
