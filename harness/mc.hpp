// Bounded exhaustive exploration runtime: sections, shards, shared counters,
// crash/hang capture, violation records.  C++14, header only (include once per harness).
#pragma once
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <malloc.h>
#include <exception>
#include <fcntl.h>
#include <functional>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <vector>

namespace mc {
struct Section {
  const char *name;
  void (*fn)();
  int shards;
};
inline std::vector<Section> &sections() {
  static std::vector<Section> s;
  return s;
}
struct Reg {
  Reg(const char *n, void (*f)(), int sh) { sections().push_back({n, f, sh}); }
};

struct Job {
  std::atomic<uint64_t> transitions, traces, states, beat;
  std::atomic<int> done, nviol, capped;
  char cur[768];
  char samples[3][384];
  char capnote[256];
  char viol[24][2][768]; // key, detail
};
struct G {
  bool thorough = false;
  std::string tier = "quick", only, tmp;
  int shard = 0, nshards = 1;
  const char *section = "";
  Job *job = nullptr;
  std::atomic<uint64_t> *table = nullptr;
  std::atomic<uint64_t> *tableCount = nullptr;
  std::set<std::string> *keys = nullptr;
};
inline G &g() {
  static G x;
  return x;
}
static const size_t TABLE = 1u << 24;

inline bool thorough() { return g().thorough; }
inline int shard() { return g().shard; }
inline int nshards() { return g().nshards; }
inline bool mine(uint64_t i) { return int(i % uint64_t(g().nshards)) == g().shard; }
inline void step(uint64_t n = 1) { g().job->transitions.store(g().job->transitions.load(std::memory_order_relaxed) + n, std::memory_order_relaxed); }
inline void stepAtomic(uint64_t n = 1) { g().job->transitions.fetch_add(n); }
inline void trace(uint64_t n = 1) { g().job->traces.fetch_add(n, std::memory_order_relaxed); }
inline void addStates(uint64_t n) { g().job->states.fetch_add(n, std::memory_order_relaxed); }
inline void beat() { g().job->beat.fetch_add(1, std::memory_order_relaxed); }

inline uint64_t mix(uint64_t x) {
  x ^= x >> 33;
  x *= 0xff51afd7ed558ccdULL;
  x ^= x >> 33;
  x *= 0xc4ceb9fe1a85ec53ULL;
  x ^= x >> 33;
  return x;
}
inline uint64_t hashBytes(const void *p, size_t n, uint64_t h = 1469598103934665603ULL) {
  const unsigned char *b = (const unsigned char *)p;
  for (size_t i = 0; i < n; i++) {
    h ^= b[i];
    h *= 1099511628211ULL;
  }
  return mix(h ^ n);
}
// distinct state (fingerprint set shared between all jobs); true when new
inline bool state(uint64_t h) {
  if (!h)
    h = 1;
  auto *t = g().table;
  if (g().tableCount->load(std::memory_order_relaxed) > TABLE - TABLE / 8)
    return false;
  size_t i = h & (TABLE - 1);
  while (true) {
    uint64_t v = t[i].load(std::memory_order_relaxed);
    if (v == h)
      return false;
    if (!v) {
      if (t[i].compare_exchange_strong(v, h)) {
        g().tableCount->fetch_add(1);
        return true;
      }
      if (v == h)
        return false;
    }
    i = (i + 1) & (TABLE - 1);
  }
}
inline bool state(const std::string &s) { return state(hashBytes(s.data(), s.size())); }

__attribute__((format(printf, 1, 2))) inline void at(const char *f, ...) {
  va_list a;
  va_start(a, f);
  vsnprintf(g().job->cur, sizeof(g().job->cur), f, a);
  va_end(a);
  beat();
}
__attribute__((format(printf, 1, 2))) inline void sample(const char *f, ...) {
  for (auto &s : g().job->samples)
    if (!s[0]) {
      va_list a;
      va_start(a, f);
      vsnprintf(s, sizeof(s), f, a);
      va_end(a);
      return;
    }
}
__attribute__((format(printf, 1, 2))) inline void capped(const char *f, ...) {
  va_list a;
  va_start(a, f);
  vsnprintf(g().job->capnote, sizeof(g().job->capnote), f, a);
  va_end(a);
  g().job->capped = 1;
}
// record a violation (deduplicated by key); stops the job after 24 keys
__attribute__((format(printf, 2, 3))) inline void fail(const std::string &key, const char *f, ...) {
  static std::set<std::string> seen;
  if (!seen.insert(key).second)
    return;
  int i = g().job->nviol.load();
  if (i < 24) {
    snprintf(g().job->viol[i][0], 768, "%s/%s", g().section, key.c_str());
    va_list a;
    va_start(a, f);
    vsnprintf(g().job->viol[i][1], 768, f, a);
    va_end(a);
    g().job->nviol.store(i + 1);
  }
  if (i + 1 >= 24) {
    g().job->done = 1;
    _exit(0);
  }
}
inline std::string hex(const void *p, size_t n) {
  std::string r;
  char b[4];
  for (size_t i = 0; i < n && i < 64; i++) {
    snprintf(b, 4, "%02x", ((const unsigned char *)p)[i]);
    r += b;
  }
  return r;
}
inline std::string hex(const std::string &s) { return hex(s.data(), s.size()); }
inline std::string quote(const std::string &s) {
  std::string r = "\"";
  char b[8];
  for (unsigned char c : s) {
    if (c < 32 || c > 126 || c == '"' || c == '\\') {
      snprintf(b, 8, "\\x%02x", c);
      r += b;
    } else
      r += char(c);
  }
  return r + "\"";
}

// all sequences: odometer over sizes
struct Odo {
  std::vector<int> n, v;
  bool first = true;
  explicit Odo(std::vector<int> sizes) : n(std::move(sizes)), v(n.size(), 0) {}
  bool next() {
    if (first) {
      first = false;
      for (int x : n)
        if (x <= 0)
          return false;
      return true;
    }
    for (size_t i = v.size(); i-- > 0;) {
      if (++v[i] < n[i])
        return true;
      v[i] = 0;
    }
    return false;
  }
};
// all strings over an alphabet up to a length
inline void strings(const std::string &abc, int maxLen, const std::function<void(const std::string &)> &f, int minLen = 0) {
  for (int l = minLen; l <= maxLen; l++) {
    Odo o(std::vector<int>(l, int(abc.size())));
    while (o.next()) {
      std::string s;
      for (int i : o.v)
        s += abc[i];
      f(s);
    }
  }
}

inline std::string jesc(const char *s) {
  std::string r;
  char b[8];
  for (const unsigned char *p = (const unsigned char *)s; *p; p++) {
    if (*p == '"' || *p == '\\') {
      r += '\\';
      r += char(*p);
    } else if (*p < 32 || *p > 126) {
      snprintf(b, 8, "\\u%04x", *p);
      r += b;
    } else
      r += char(*p);
  }
  return r;
}
inline double cpuOf(pid_t p) {
  clockid_t c;
  timespec t;
  if (clock_getcpuclockid(p, &c) || clock_gettime(c, &t))
    return 0;
  return double(t.tv_sec) + double(t.tv_nsec) * 1e-9;
}
inline double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return double(t.tv_sec) + double(t.tv_nsec) * 1e-9;
}

inline int runMain(int argc, char **argv) {
  std::string out = "/dev/stdout";
  int par = 8;
  double hang = 60, giveup = 0, firstBad = 0;
  g().tmp = "/tmp";
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--tier") {
      g().tier = val();
      g().thorough = g().tier == "thorough";
    } else if (a == "--out")
      out = val();
    else if (a == "--only")
      g().only = val();
    else if (a == "--tmp")
      g().tmp = val();
    else if (a == "--par")
      par = atoi(val().c_str());
    else if (a == "--hang")
      hang = atof(val().c_str());
    else if (a == "--giveup") // a broken build may explore far more than a sound one: end this long after the first violation
      giveup = atof(val().c_str());
  }
  struct J {
    Section s;
    int shard;
    pid_t pid = 0;
    uint64_t beat = 0;
    double cpu = 0, wall = 0, start = 0, used = 0;
    Job *job = nullptr;
    std::string crash;
    bool finished = false;
  };
  std::vector<J> jobs;
  for (auto &s : sections()) {
    if (!g().only.empty() && g().only != s.name)
      continue;
    for (int i = 0; i < s.shards; i++) {
      J j;
      j.s = s;
      j.shard = i;
      jobs.push_back(j);
    }
  }
  auto map = [](size_t n) {
    void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) {
      perror("mmap");
      exit(3);
    }
    return p;
  };
  Job *js = (Job *)map(sizeof(Job) * (jobs.size() + 1));
  g().table = (std::atomic<uint64_t> *)map(TABLE * 8);
  g().tableCount = (std::atomic<uint64_t> *)map(4096);
  for (size_t i = 0; i < jobs.size(); i++)
    jobs[i].job = js + i;
  size_t next = 0, running = 0, finished = 0;
  while (finished < jobs.size()) {
    while (running < size_t(par) && next < jobs.size()) {
      J &j = jobs[next];
      fflush(nullptr);
      pid_t p = fork();
      if (p < 0) {
        perror("fork");
        exit(3);
      }
      if (!p) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        std::string ef = g().tmp + "/err." + std::to_string(next);
        int fd = open(ef.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
        if (fd >= 0) {
          dup2(fd, 2);
          dup2(fd, 1);
        }
        rlimit rl{0, 0};
        setrlimit(RLIMIT_CORE, &rl);
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
        rlimit as{3ull << 30, 3ull << 30};  // a harness that starts to eat memory ends itself, not its neighbours
        setrlimit(RLIMIT_AS, &as); mallopt(M_ARENA_MAX, 2);
#endif
        rl.rlim_cur = rl.rlim_max = 1u << 28;
        setrlimit(RLIMIT_FSIZE, &rl);
        g().job = j.job;
        g().section = j.s.name;
        g().shard = j.shard;
        g().nshards = j.s.shards;
        try {
          j.s.fn();
        } catch (const std::exception &e) {
          fail("exception", "uncaught exception '%s' in case: %s", e.what(), g().job->cur);
        } catch (...) {
          fail("exception", "uncaught exception in case: %s", g().job->cur);
        }
        g().job->done = 1;
        fflush(nullptr);
        _exit(0);
      }
      j.pid = p;
      j.start = j.wall = now();
      next++;
      running++;
    }
    usleep(2000);
    for (size_t i = 0; i < next; i++) {
      J &j = jobs[i];
      if (!firstBad && (!j.crash.empty() || j.job->nviol > 0))
        firstBad = now();
      if (j.finished)
        continue;
      int st = 0;
      pid_t r = waitpid(j.pid, &st, WNOHANG);
      if (r == j.pid) {
        j.finished = true;
        j.used = now() - j.start;
        running--;
        finished++;
        if (!j.job->done) {
          char b[200];
          if (WIFSIGNALED(st))
            snprintf(b, sizeof b, "killed by signal %d", WTERMSIG(st));
          else
            snprintf(b, sizeof b, "exited with status %d", WEXITSTATUS(st));
          if (j.crash.empty())
            j.crash = b;
          std::string ef = g().tmp + "/err." + std::to_string(i);
          if (FILE *f = fopen(ef.c_str(), "r")) {
            std::string all;
            char bb[4096];
            size_t k;
            while ((k = fread(bb, 1, sizeof bb, f)) > 0 && all.size() < (1 << 20))
              all.append(bb, k);
            fclose(f);
            size_t p = all.find("ERROR: AddressSanitizer");
            if (p == std::string::npos)
              p = all.find("WARNING: ThreadSanitizer");
            if (p == std::string::npos)
              p = all.size() > 600 ? all.size() - 600 : 0;
            j.crash += ": " + all.substr(p, 900);
          }
        }
        continue;
      }
      double c = cpuOf(j.pid), w = now();
      uint64_t b = j.job->beat + j.job->transitions + j.job->traces;
      if (b != j.beat || c < j.cpu) {
        j.beat = b;
        j.cpu = c;
        j.wall = w;
      } else if (c - j.cpu > hang || w - j.wall > hang * 3) {
        char m[100];
        snprintf(m, sizeof m, "HANG: no progress for %.0fs cpu, %.0fs wall", c - j.cpu, w - j.wall);
        j.crash = m;
        kill(j.pid, SIGKILL);
        giveup = 3;
      }
    }
    if (giveup > 0 && firstBad && now() - firstBad > giveup) {
      for (size_t i = 0; i < next; i++)
        if (!jobs[i].finished) {
          kill(jobs[i].pid, SIGKILL);
          waitpid(jobs[i].pid, nullptr, 0);
        }
      break;
    }
  }
  FILE *f = fopen(out.c_str(), "w");
  uint64_t st = g().tableCount->load(), tr = 0, tc = 0;
  for (auto &j : jobs) {
    tr += j.job->transitions;
    tc += j.job->traces;
    st += j.job->states;
  }
  fprintf(f, "{\"states\":%llu,\"transitions\":%llu,\"traces\":%llu,\n\"sections\":[", (unsigned long long)st, (unsigned long long)tr, (unsigned long long)tc);
  for (size_t i = 0; i < jobs.size();) {
    size_t k = i;
    uint64_t a = 0, b = 0;
    double mx = 0;
    for (; k < jobs.size() && !strcmp(jobs[k].s.name, jobs[i].s.name); k++) {
      a += jobs[k].job->transitions;
      b += jobs[k].job->traces;
      mx = std::max(mx, jobs[k].used);
    }
    fprintf(f, "%s{\"name\":\"%s\",\"transitions\":%llu,\"traces\":%llu,\"max_shard_s\":%.1f}", i ? ",\n" : "", jobs[i].s.name, (unsigned long long)a, (unsigned long long)b, mx);
    i = k;
  }
  fprintf(f, "],\n\"capped\":[");
  bool first = true;
  for (auto &j : jobs)
    if (j.job->capped) {
      fprintf(f, "%s\"%s: %s\"", first ? "" : ",", j.s.name, jesc(j.job->capnote).c_str());
      first = false;
    }
  fprintf(f, "],\n\"samples\":[");
  first = true;
  for (auto &j : jobs)
    if (j.shard == 0)
      for (auto &s : j.job->samples)
        if (s[0]) {
          fprintf(f, "%s\"%s: %s\"", first ? "" : ",\n", j.s.name, jesc(s).c_str());
          first = false;
        }
  fprintf(f, "],\n\"violations\":[");
  first = true;
  int nv = 0;
  for (auto &j : jobs) {
    for (int i = 0; i < j.job->nviol; i++, nv++) {
      fprintf(f, "%s{\"section\":\"%s\",\"key\":\"%s\",\"detail\":\"%s\"}", first ? "" : ",\n", j.s.name, jesc(j.job->viol[i][0]).c_str(), jesc(j.job->viol[i][1]).c_str());
      first = false;
    }
    if (!j.crash.empty()) {
      nv++;
      fprintf(f, "%s{\"section\":\"%s\",\"key\":\"%s/%s\",\"detail\":\"%s in case: %s\"}", first ? "" : ",\n", j.s.name, j.s.name, j.crash.find("HANG") == 0 ? "hang" : "crash", jesc(j.crash.c_str()).c_str(), jesc(j.job->cur).c_str());
      first = false;
    }
  }
  fprintf(f, "]}\n");
  fclose(f);
  return nv ? 1 : 0;
}
} // namespace mc

#define MC_CAT2(a, b) a##b
#define MC_CAT(a, b) MC_CAT2(a, b)
// MC_SECTION("name", shards) { ... }
#define MC_SECTION(name, shards)                                                                                     \
  static void MC_CAT(mcsec_, __LINE__)();                                                                            \
  static mc::Reg MC_CAT(mcreg_, __LINE__)(name, MC_CAT(mcsec_, __LINE__), shards);                                   \
  static void MC_CAT(mcsec_, __LINE__)()
#define MC_CHECK(cond, key, ...)                                                                                     \
  do {                                                                                                               \
    if (!(cond))                                                                                                     \
      mc::fail(key, __VA_ARGS__);                                                                                    \
  } while (0)
#ifndef MC_NO_MAIN
int main(int argc, char **argv) { return mc::runMain(argc, argv); }
#endif
