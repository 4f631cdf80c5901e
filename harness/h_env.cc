// C32 (clock, faketime, sleep, testdir, deflt): services of the default
// environment.  C33 (exec): descriptors and programs started meanwhile.
#include "sysx.h"
#include "posixcfg.h"

#include <algorithm>
#include <memory>

#include <pthread.h>
#include <sched.h>
#include <spawn.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>

#include "lsmdb/env.h"
#include "lsmdb/slice.h"
#include "lsmdb/status.h"

namespace lsmdb {
Status WriteStringToFileSync(Env* env, const Slice& data, const std::string& fname);
}
using lsmdb::Env;
using lsmdb::FileLock;
using lsmdb::Logger;
using lsmdb::RandomAccessFile;
using lsmdb::SequentialFile;
using lsmdb::Slice;
using lsmdb::Status;
using lsmdb::WritableFile;
using sysx::slurp;
using sysx::spit;
using sysx::Traced;
using vh::esc;
using vh::fmt;
using vh::Rng;

// ------------------------------------------------------------ fake time ----
static thread_local bool t_fake = false;
static thread_local int64_t t_fake_us = 0;  // since the clocks' common origin
static thread_local int t_fake_calls = 0;
extern "C" {
int __real_gettimeofday(struct timeval*, void*);
int __real_clock_gettime(clockid_t, struct timespec*);
time_t __real_time(time_t*);
std::chrono::system_clock::time_point __real__ZNSt6chrono3_V212system_clock3nowEv();
std::chrono::steady_clock::time_point __real__ZNSt6chrono3_V212steady_clock3nowEv();
int __wrap_gettimeofday(struct timeval* tv, void* z) {
  if (!t_fake) return __real_gettimeofday(tv, z);
  ++t_fake_calls;
  tv->tv_sec = t_fake_us / 1000000;
  tv->tv_usec = t_fake_us % 1000000;
  return 0;
}
int __wrap_clock_gettime(clockid_t c, struct timespec* ts) {
  if (!t_fake) return __real_clock_gettime(c, ts);
  ++t_fake_calls;
  ts->tv_sec = t_fake_us / 1000000;
  ts->tv_nsec = t_fake_us % 1000000 * 1000;
  return 0;
}
time_t __wrap_time(time_t* t) {
  if (!t_fake) return __real_time(t);
  ++t_fake_calls;
  time_t r = t_fake_us / 1000000;
  if (t) *t = r;
  return r;
}
std::chrono::system_clock::time_point __wrap__ZNSt6chrono3_V212system_clock3nowEv() {
  if (!t_fake) return __real__ZNSt6chrono3_V212system_clock3nowEv();
  ++t_fake_calls;
  return std::chrono::system_clock::time_point(std::chrono::microseconds(t_fake_us));
}
std::chrono::steady_clock::time_point __wrap__ZNSt6chrono3_V212steady_clock3nowEv() {
  if (!t_fake) return __real__ZNSt6chrono3_V212steady_clock3nowEv();
  ++t_fake_calls;
  return std::chrono::steady_clock::time_point(std::chrono::microseconds(t_fake_us));
}
}

static void faketime_case(Rng& r, uint64_t idx) {
  Env* env = Env::Default();
  std::vector<int64_t> ts;
  // From now until the year 2200, around the places where narrower types wrap.
  int64_t now = 1700000000ll * 1000000;
  int64_t top = 7258118400ll * 1000000;
  for (int i = 0; i < 60; ++i) {
    int64_t t;
    switch (r.below(5)) {
      case 0: t = (1ll << 31) * 1000000 + (int64_t)r.below(4000000) - 2000000; break;         // seconds pass 2^31
      case 1: t = (1ll << 32) * 1000000 + (int64_t)r.below(4000000) - 2000000; break;         // seconds pass 2^32
      case 2: t = (now >> 32 << 32) + ((int64_t)r.below(1 << 20) << 32) + (int64_t)r.below(2000) - 1000; break;  // microseconds pass a multiple of 2^32
      case 3: t = now + (int64_t)r.below((uint64_t)(top - now)); break;
      default: t = (now / 1000000 + (int64_t)r.below(100000000)) * 1000000 + (r.one_in(2) ? 999999 - (int64_t)r.below(3) : (int64_t)r.below(3)); break;
    }
    if (t < now) t = now + (int64_t)r.below(1000);
    if (t > top) t = top;
    ts.push_back(t);
    if (r.one_in(2)) ts.push_back(t + (int64_t)r.below(3));
  }
  std::sort(ts.begin(), ts.end());
  bool first = true, used = true;
  uint64_t v0 = 0, sig = idx;
  int64_t t0 = 0;
  int n = 0;
  for (int64_t t : ts) {
    t_fake_us = t;
    t_fake_calls = 0;
    t_fake = true;
    uint64_t v = env->NowMicros();
    t_fake = false;
    if (t_fake_calls == 0) { used = false; break; }  // a clock this check cannot set
    sig = vh::mix(sig ^ (uint64_t)t);
    if (!first) {
      if (v - v0 != (uint64_t)(t - t0))
        vh::viol_once("clock-delta", fmt("between readings %lld us apart (at %lld us) the clock advanced by %lld", (long long)(t - t0), (long long)t0, (long long)(v - v0)));
      ++n;
    }
    first = false;
    v0 = v;
    t0 = t;
  }
  vh::count("readings_under_a_set_clock", (uint64_t)n);
  if (!used) vh::count("clock_not_settable");
  vh::evaluated(sig);
  if (vh::want_sample()) vh::sample(fmt("case %llu: %d readings from %lld us to %lld us", (unsigned long long)idx, n, (long long)ts.front(), (long long)ts.back()));
}

// ------------------------------------------------------------ real clock ---
static const clockid_t kClocks[] = {CLOCK_MONOTONIC, CLOCK_REALTIME, CLOCK_BOOTTIME, CLOCK_MONOTONIC_RAW};
static int64_t clk(int i) {
  struct timespec t;
  __real_clock_gettime(kClocks[i], &t);
  return (int64_t)t.tv_sec * 1000000 + t.tv_nsec / 1000;
}
struct Reading { int64_t lo[4], hi[4]; uint64_t v; };
static Reading read_clock(Env* env) {
  Reading x;
  for (int i = 0; i < 4; ++i) x.lo[i] = clk(i);
  x.v = env->NowMicros();
  for (int i = 0; i < 4; ++i) x.hi[i] = clk(i);
  return x;
}
static void clock_case(Rng& r, uint64_t idx) {
  Env* env = Env::Default();
  int T = (int)r.range(1, 4);
  std::vector<std::vector<Reading>> rs((size_t)T);
  std::vector<std::thread> th;
  for (int t = 0; t < T; ++t) {
    uint64_t seed = r.next();
    th.emplace_back([&, t, seed] {
      Rng q(seed);
      for (int i = 0; i < 60; ++i) {
        rs[(size_t)t].push_back(read_clock(env));
        if (q.one_in(2)) usleep((useconds_t)q.below(q.one_in(10) ? 20000 : 300));
      }
    });
  }
  for (auto& t : th) t.join();
  std::vector<Reading> all;
  for (auto& v : rs) all.insert(all.end(), v.begin(), v.end());
  uint64_t n = 0;
  for (int k = 0; k < 3000; ++k) {
    const Reading &a = all[r.below(all.size())], &b = all[r.below(all.size())];
    bool ok = false;
    int64_t d = (int64_t)(b.v - a.v);
    for (int i = 0; i < 4; ++i) {
      // 0.1 % for clocks being slewed, 2 us for rounding.
      int64_t lo = b.lo[i] - a.hi[i], hi = b.hi[i] - a.lo[i];
      int64_t tol = 2 + std::max(std::llabs(lo), std::llabs(hi)) / 1000;
      if (d >= lo - tol && d <= hi + tol) ok = true;
    }
    if (!ok) vh::viol_once("clock-delta", fmt("two readings %lld to %lld us apart differ by %lld", (long long)(b.lo[0] - a.hi[0]), (long long)(b.hi[0] - a.lo[0]), (long long)d));
    ++n;
  }
  vh::count("pairs_of_readings", n);
  vh::evaluated(idx);
}

// ---------------------------------------------------------------- sleep ----
static void on_usr1(int) {}
static void sleep_case(Rng& r, uint64_t idx) {
  Env* env = Env::Default();
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = on_usr1;  // without SA_RESTART
  sigaction(SIGUSR1, &sa, nullptr);
  bool storm = r.one_in(2);
  int T = (int)r.range(1, 6);
  struct Job { int us; int64_t took; };
  std::vector<Job> jobs((size_t)T);
  for (auto& j : jobs) {
    switch (r.below(8)) {
      case 0: j.us = 0; break;
      case 1: { static const int w[] = {-1, -1000, INT32_MIN, -2000000000}; j.us = w[r.below(4)]; break; }
      case 2: j.us = (int)r.range(990000, 1100000); break;
      case 3: j.us = idx % 16 == 3 ? (int)r.range(2200000, 4400000) : 40000; break;
      default: j.us = (int)r.range(1, 60000); break;
    }
  }
  std::atomic<int> done{0};
  std::vector<std::thread> th;
  std::vector<pthread_t> ids((size_t)T);
  for (int t = 0; t < T; ++t) {
    th.emplace_back([&, t] {
      int64_t a = clk(0);
      env->SleepForMicroseconds(jobs[(size_t)t].us);
      jobs[(size_t)t].took = clk(0) - a;
      done++;
    });
    ids[(size_t)t] = th.back().native_handle();
  }
  uint64_t sent = 0;
  int64_t a = clk(0);
  while (done.load() < T) {
    if (clk(0) - a > 60000000) { vh::viol_once("sleep-long", fmt("sleeps of at most %d us had not all returned after 60 s", std::max_element(jobs.begin(), jobs.end(), [](const Job& x, const Job& y) { return x.us < y.us; })->us)); vh::write_stats(); fflush(stdout); _exit(3); }
    if (storm) for (auto& id : ids) { pthread_kill(id, SIGUSR1); ++sent; }
    usleep(700);
  }
  for (auto& t : th) t.join();
  uint64_t sig = idx;
  for (auto& j : jobs) {
    sig = vh::mix(sig ^ (uint64_t)(int64_t)j.us);
    if (j.us > 0 && j.took + 50 < j.us) vh::viol_once("sleep-short", fmt("a sleep of %d us lasted %lld us (%s)", j.us, (long long)j.took, storm ? "signals arriving" : "no signals"));
  }
  // Too long only if it is too long again and again.
  for (auto& j : jobs) {
    int64_t want = std::max(j.us, 0), took = j.took;
    for (int k = 0; k < 5 && took > 3 * want + 400000; ++k) {
      int64_t b = clk(0);
      env->SleepForMicroseconds(j.us);
      took = std::min(took, clk(0) - b);
    }
    if (took > 3 * want + 400000) vh::viol_once("sleep-long", fmt("sleeps of %d us lasted %lld us, six times", j.us, (long long)took));
  }
  vh::count("sleeps", (uint64_t)T);
  vh::count("signals_during_sleeps", sent);
  // Sleeping holds nobody up.
  if (idx % 4 == 0) {
    int64_t best = INT64_MAX;
    for (int k = 0; k < 5 && best > 700000; ++k) {
      int64_t b = clk(0);
      std::vector<std::thread> p;
      for (int t = 0; t < 4; ++t) p.emplace_back([&] { env->SleepForMicroseconds(300000); });
      usleep(20000);
      for (int i = 0; i < 3; ++i) { env->NowMicros(); env->FileExists("/"); }
      best = std::min(best, clk(0) - b - 20000 > 250000 ? INT64_MAX : best);
      for (auto& t : p) t.join();
      best = std::min(best, clk(0) - b);
      if (best == INT64_MAX) best = INT64_MAX - 1;
    }
    if (best > 700000) vh::viol_once("sleep-blocks", fmt("four simultaneous sleeps of 300 ms took %lld us or held up other calls, five times", (long long)best));
    vh::count("simultaneous_sleeps", 4);
  }
  vh::evaluated(sig);
}

// ------------------------------------------------- child programs ----------
// Runs this executable again with a script in the environment; the script is
// obeyed in static initialisation, in main, in exit handlers and destructors.
static bool child_use(const char* when, const std::string& dir) {
  Env* env = Env::Default();
  std::string f = dir + "/used-" + when;
  bool ok = lsmdb::WriteStringToFile(env, Slice(when), f).ok();
  std::string back;
  ok = ok && lsmdb::ReadFileToString(env, f, &back).ok() && back == when;
  ok = ok && env->FileExists(f) && env->NowMicros() != 0;
  struct Box { std::mutex m; bool ran = false; };
  static Box* box = nullptr;
  box = new Box;
  env->Schedule([](void* p) { Box* b = static_cast<Box*>(p); std::lock_guard<std::mutex> l(b->m); b->ran = true; }, box);
  for (int i = 0; i < 100000; ++i) {
    { std::lock_guard<std::mutex> l(box->m); if (box->ran) break; }
    usleep(100);
    if (i == 99999) ok = false;
  }
  if (!ok) { fprintf(stderr, "CHILD: the default environment did not work %s\n", when); _exit(9); }
  return ok;
}
static std::string child_script() { const char* p = getenv("VH_ENV_SCRIPT"); return p ? p : ""; }
static std::string child_dir() { const char* p = getenv("VH_ENV_DIR"); return p ? p : ""; }
static bool child_has(char c) { return child_script().find(c) != std::string::npos; }
static Env* g_child_seen = nullptr;
static void child_same(const char* when) {
  Env* e = Env::Default();
  if (g_child_seen && e != g_child_seen) { fprintf(stderr, "CHILD: another default environment %s\n", when); _exit(9); }
  g_child_seen = e;
}
static void child_atexit() { if (child_has('a')) { child_same("in an exit handler"); child_use("in-exit-handler", child_dir()); } }
struct ChildStatic {
  ChildStatic() {
    if (child_script().empty()) return;
    if (child_has('e')) atexit(child_atexit);
    if (child_has('s')) { child_same("in static initialisation"); child_use("in-static-initialisation", child_dir()); }
  }
  ~ChildStatic() {
    if (child_has('d')) { child_same("in a static destructor"); child_use("in-static-destructor", child_dir()); }
  }
};
static ChildStatic g_child_static;
static int child_main() {
  if (child_has('t')) {
    std::atomic<int> ready{0};
    std::vector<Env*> got(8, nullptr);
    std::vector<std::thread> th;
    for (int t = 0; t < 8; ++t)
      th.emplace_back([&, t] {
        ready.fetch_add(1, std::memory_order_relaxed);
        while (ready.load(std::memory_order_relaxed) < 8) {}
        got[(size_t)t] = Env::Default();
        got[(size_t)t]->NowMicros();
        got[(size_t)t]->FileExists("/nonexistent");
      });
    for (auto& t : th) t.join();
    for (auto* e : got) if (e != got[0]) { fprintf(stderr, "CHILD: two threads got different default environments\n"); return 9; }
    child_same("after the threads");
  }
  if (child_has('m')) { child_same("in main"); child_use("in-main", child_dir()); }
  if (child_has('E')) atexit(child_atexit);
  if (child_has('w')) {
    // Work still queued and running when the program ends.
    for (int i = 0; i < 20; ++i) Env::Default()->Schedule([](void*) { usleep(2000); }, nullptr);
  }
  return 0;
}
static void deflt_case(Rng& r, uint64_t idx) {
  std::string dir = vh::fresh_dir(fmt("deflt%llu", (unsigned long long)idx));
  std::string script;
  for (char c : std::string("steamdEw")) if (r.one_in(2)) script += c;
  if (script.find_first_of("eE") == std::string::npos) script.erase(std::remove(script.begin(), script.end(), 'a'), script.end());
  if (script.empty()) script = "md";
  fflush(stdout);
  std::string err = dir + "/stderr";
  pid_t pid = fork();
  if (pid < 0) vh::broken("fork");
  if (pid == 0) {
    int fd = open(err.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
    dup2(fd, 2);
    setenv("VH_ENV_SCRIPT", script.c_str(), 1);
    setenv("VH_ENV_DIR", dir.c_str(), 1);
    execl("/proc/self/exe", "h_env", (char*)nullptr);
    _exit(127);
  }
  int st = 0;
  int64_t a = clk(0);
  while (waitpid(pid, &st, WNOHANG) == 0) {
    if (clk(0) - a > 60000000) { kill(pid, SIGKILL); waitpid(pid, &st, 0); vh::viol_once("default-hang", "a program using the default environment (" + script + ") did not end within 60 s"); return; }
    usleep(500);
  }
  std::string text = slurp(err);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 127) vh::broken("cannot run itself");
  if (WIFEXITED(st) && WEXITSTATUS(st) == 66) { fprintf(stderr, "%s", text.c_str()); _exit(66); }
  if (!WIFEXITED(st) || WEXITSTATUS(st) != 0)
    vh::viol_once("default-broken", fmt("program with script %s (s static init, e/E exit handler registered early/late, a used in it, t threads, m main, d static destructor, w work left): status %d, %s", script.c_str(), st, esc(text, 300).c_str()));
  else if (!text.empty())
    vh::viol_once("default-noise", "program with script " + script + " wrote: " + esc(text, 300));
  vh::rm_tree(dir);
  vh::count("programs_run");
  vh::evaluated(vh::hash_str(script) ^ (r.next() & 7));
}

// -------------------------------------------------------- test directory ---
static std::string g_jail;  // absolute paths outside the scratch directory land here
static void jail_hook(sysx::Call& c, bool after) {
  if (after) return;
  auto move = [](const char* p, std::string& to) {
    if (!p || p[0] != '/' || strncmp(p, vh::st().tmp.c_str(), vh::st().tmp.size()) == 0 || strncmp(p, "/proc/", 6) == 0) return;
    to = g_jail + p;
  };
  move(c.path, c.redirect);
  move(c.path2, c.redirect2);
}
static void testdir_case(Rng& r, uint64_t idx) {
  std::string dir = vh::fresh_dir(fmt("td%llu", (unsigned long long)idx));
  g_jail = dir + "/root";
  chmod(dir.c_str(), 0777);
  mkdir(g_jail.c_str(), 0777), chmod(g_jail.c_str(), 0777);
  mkdir((g_jail + "/tmp").c_str(), 0777), chmod((g_jail + "/tmp").c_str(), 01777);
  sysx::g_hook = jail_hook;
  int kind = (int)(idx % 5);
  vh::Grouped locale(idx % 3 == 1);
  static const long uids[] = {0, 1000, 65534, 1, 2147483647, 3000000000L};
  long u1 = uids[r.below(6)], u2 = uids[r.below(6)];
  std::string set = dir + (kind == 3 ? "/have" : "/x" + std::string(r.one_in(4) ? 200 : 3, 'y')) + (r.one_in(6) ? "/" : "");
  if (kind == 3) mkdir(set.c_str(), 0777), chmod(set.c_str(), 0777);
  auto ask = [&](long uid) -> std::string {
    int pp[2];
    if (pipe(pp) != 0) vh::broken("pipe");
    fflush(stdout);
    pid_t pid = fork();
    if (pid < 0) vh::broken("fork");
    if (pid == 0) {
      close(pp[0]);
      unsetenv("TEST_TMPDIR");
      if (kind == 1) setenv("TEST_TMPDIR", "", 1);
      if (kind >= 2) setenv("TEST_TMPDIR", set.c_str(), 1);
      if (uid != 0 && seteuid((uid_t)uid) != 0) _exit(11);
      Env* env = Env::Default();
      std::string a = "junk", b = std::string(300, 'j'), c;
      Status s1, s2, s3;
      { Traced t; s1 = env->GetTestDirectory(&a); }
      { Traced t; s2 = env->GetTestDirectory(&b); }
      std::thread([&] { Traced t; s3 = env->GetTestDirectory(&c); }).join();
      std::string e;
      struct stat sb;
      std::string at = a;
      if (a.compare(0, vh::st().tmp.size(), vh::st().tmp) != 0) at = g_jail + a;
      if (stat(at.c_str(), &sb) != 0 && stat(a.c_str(), &sb) == 0) at = a;  // made by a call that is not redirected
      if (!s1.ok() || !s2.ok() || !s3.ok()) e = "failed: " + s1.ToString() + "; " + s2.ToString();
      else if (a != b || a != c) e = "differs between calls: " + a + " and " + b + " and " + c;
      else if (stat(at.c_str(), &sb) != 0 || !S_ISDIR(sb.st_mode)) e = "is not there: " + a;
      else if (kind >= 2 && a != set) e = "is " + a + " instead of " + set;
      else if (kind < 2) {  // a named directory may be somebody else's
        int fd = open((at + "/probe").c_str(), O_CREAT | O_RDWR, 0600);
        if (fd < 0) e = "cannot be used: " + a; else { close(fd); unlink((at + "/probe").c_str()); }
      }
      std::string m = (e.empty() ? "+" + a : "-" + e);
      ssize_t n = write(pp[1], m.data(), m.size());
      (void)n;
      _exit(0);
    }
    close(pp[1]);
    std::string m;
    char buf[4096];
    ssize_t n;
    while ((n = read(pp[0], buf, sizeof buf)) > 0) m.append(buf, (size_t)n);
    close(pp[0]);
    int st;
    waitpid(pid, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 66) _exit(66);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 11) return "?";  // not allowed to be somebody else here
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0 || m.empty()) { vh::viol_once("testdir-crash", fmt("asking for the test directory ended with status %d", st)); return "?"; }
    if (m[0] == '-') { vh::viol_once("testdir-wrong", fmt("user %ld, TEST_TMPDIR %s: the test directory ", uid, kind == 0 ? "unset" : kind == 1 ? "empty" : set.c_str()) + m.substr(1)); return "?"; }
    return m.substr(1);
  };
  std::string a = ask(u1), b = ask(u2), c = ask(u1);
  if (a != "?" && c != "?" && a != c) vh::viol_once("testdir-wrong", "the same user got " + a + " and " + c);
  if (kind < 2 && a != "?" && b != "?" && u1 != u2 && a == b) vh::viol_once("testdir-wrong", fmt("users %ld and %ld share ", u1, u2) + a);
  if (kind < 2 && u1 != u2 && a != "?" && b != "?") vh::count("users_compared");
  sysx::g_hook = nullptr;
  vh::rm_tree(dir);
  vh::count("test_directories", 3);
  vh::evaluated(vh::mix((uint64_t)kind * 1000 + (uint64_t)u1) ^ (uint64_t)u2);
  if (vh::want_sample()) vh::sample(fmt("case %llu: user %ld, kind %d: %s", (unsigned long long)idx, u1, kind, a.c_str()));
}

// ----------------------------------------------------------------- exec ----
static std::string g_xdir, g_op;
static uint64_t g_boundaries, g_spawns, g_seen_open;
static Rng* g_xr;
static uint64_t g_spawn_every = 60;
static void exec_hook(sysx::Call& c, bool after) {
  // Whatever is open under the scratch directory now must close at exec.
  (void)after;
  ++g_boundaries;
  DIR* d = opendir("/proc/self/fd");
  if (!d) return;
  int self = dirfd(d), open_now = 0;
  while (dirent* e = readdir(d)) {
    if (e->d_name[0] == '.') continue;
    int fd = atoi(e->d_name);
    if (fd == self) continue;
    char b[512];
    ssize_t n = readlink(("/proc/self/fd/" + std::string(e->d_name)).c_str(), b, sizeof b);
    if (n < (ssize_t)g_xdir.size() || strncmp(b, g_xdir.c_str(), g_xdir.size()) != 0) continue;
    ++open_now;
    int fl = __real_fcntl(fd, F_GETFD);
    if (fl >= 0 && !(fl & FD_CLOEXEC))
      vh::viol_once("exec-inherits", fmt("during %s, %s %s: %s would be inherited by a program started now", g_op.c_str(), after ? "after" : "before", c.name, std::string(b, (size_t)n).c_str()));
  }
  closedir(d);
  g_seen_open += (uint64_t)open_now;
  if (open_now && g_xr->one_in(g_spawn_every)) {
    int pp[2];
    if (pipe2(pp, O_CLOEXEC) != 0) return;
    posix_spawn_file_actions_t fa;
    posix_spawn_file_actions_init(&fa);
    posix_spawn_file_actions_adddup2(&fa, pp[1], 1);
    char* argv[] = {(char*)"/bin/ls", (char*)"-l", (char*)"/proc/self/fd", nullptr};
    char* envp[] = {nullptr};
    pid_t pid;
    if (posix_spawn(&pid, "/bin/ls", &fa, nullptr, argv, envp) == 0) {
      close(pp[1]);
      std::string out;
      char b[4096];
      ssize_t n;
      while ((n = read(pp[0], b, sizeof b)) > 0) out.append(b, (size_t)n);
      int st;
      waitpid(pid, &st, 0);
      size_t at = out.find(g_xdir);
      if (at != std::string::npos)
        vh::viol_once("exec-inherits", fmt("during %s, %s %s: a program started here has open %s", g_op.c_str(), after ? "after" : "before", c.name, esc(out.substr(at, out.find('\n', at) - at)).c_str()));
      ++g_spawns;
    } else {
      close(pp[1]);
    }
    close(pp[0]);
    posix_spawn_file_actions_destroy(&fa);
  }
}
static void exec_case(Rng& r, uint64_t idx) {
  Env* env = Env::Default();
  g_xdir = vh::fresh_dir(fmt("x%llu", (unsigned long long)idx));
  g_xr = &r;
  g_boundaries = g_spawns = g_seen_open = 0;
  std::vector<std::unique_ptr<WritableFile>> ws;
  std::vector<std::unique_ptr<SequentialFile>> ss;
  std::vector<std::unique_ptr<RandomAccessFile>> rs;
  std::vector<std::unique_ptr<Logger>> ls;
  std::vector<std::pair<std::string, FileLock*>> ks;
  static const char* const names[] = {"a", "b", "MANIFEST-000001", "CURRENT", "LOG", "000005.ldb"};
  spit(g_xdir + "/a", r.bytes(r.below(20000)));
  spit(g_xdir + "/000005.ldb", r.bytes(r.below(20000)));
  sysx::g_hook = exec_hook;
  uint64_t sig = idx;
  int ops = (int)r.range(10, 50);
  {
    Traced tr;
    for (int i = 0; i < ops; ++i) {
      std::string f = g_xdir + "/" + names[r.below(6)];
      int k = (int)r.below(15);
      sig = vh::mix(sig ^ (uint64_t)k);
      WritableFile* w = nullptr;
      SequentialFile* s = nullptr;
      RandomAccessFile* x = nullptr;
      Logger* l = nullptr;
      switch (k) {
        case 0: g_op = "NewWritableFile"; if (env->NewWritableFile(f, &w).ok()) ws.emplace_back(w); break;
        case 1: g_op = "NewAppendableFile"; if (env->NewAppendableFile(f, &w).ok()) ws.emplace_back(w); break;
        case 2: g_op = "NewSequentialFile"; if (env->NewSequentialFile(f, &s).ok()) ss.emplace_back(s); break;
        case 3: case 4: g_op = "NewRandomAccessFile"; if (env->NewRandomAccessFile(f, &x).ok()) rs.emplace_back(x); break;
        case 5: g_op = "NewLogger"; if (env->NewLogger(g_xdir + "/LOG", &l).ok()) ls.emplace_back(l); break;
        case 6: { g_op = "LockFile"; FileLock* fl = nullptr; std::string n = g_xdir + fmt("/LOCK%d", (int)r.below(4)); if (env->LockFile(n, &fl).ok()) ks.emplace_back(n, fl); break; }
        case 7: if (!ks.empty()) { g_op = "UnlockFile"; env->UnlockFile(ks.back().second); ks.pop_back(); } break;
        case 8: { g_op = "GetChildren"; std::vector<std::string> v; env->GetChildren(g_xdir, &v); break; }
        case 9: { g_op = "ReadFileToString"; std::string v; lsmdb::ReadFileToString(env, f, &v); break; }
        case 10: g_op = "WriteStringToFileSync"; lsmdb::WriteStringToFileSync(env, Slice("content"), f); break;
        case 11: if (!ws.empty()) { g_op = "Sync"; auto& q = ws[r.below(ws.size())]; q->Append(Slice(r.bytes(r.below(3000)))); q->Sync(); } break;
        case 12: if (!rs.empty()) { g_op = "random read"; char b[100]; Slice o; rs[r.below(rs.size())]->Read(r.below(30000), 100, &o, b); } break;
        case 13: if (!ls.empty()) { g_op = "Log"; lsmdb::Log(ls.back().get(), "%d entries", i); } break;
        default:
          g_op = "closing";
          if (!ws.empty() && r.one_in(2)) ws.erase(ws.begin() + (long)r.below(ws.size()));
          if (!rs.empty() && r.one_in(2)) rs.erase(rs.begin() + (long)r.below(rs.size()));
          if (!ss.empty() && r.one_in(2)) ss.erase(ss.begin());
          if (!ls.empty() && r.one_in(2)) ls.erase(ls.begin());
          break;
      }
    }
    g_op = "closing";
    for (auto& k : ks) env->UnlockFile(k.second);
    ws.clear(), ss.clear(), rs.clear(), ls.clear();
  }
  sysx::g_hook = nullptr;
  vh::rm_tree(g_xdir);
  vh::count("boundaries_inspected", g_boundaries);
  vh::count("programs_started", g_spawns);
  vh::count("open_descriptors_inspected", g_seen_open);
  vh::evaluated(sig, g_seen_open > 0);
  if (vh::want_sample()) vh::sample(fmt("case %llu, limits %d/%d: %d calls, %llu boundaries, %llu open descriptors inspected, %llu programs started", (unsigned long long)idx, g_mm, g_fd, ops, (unsigned long long)g_boundaries, (unsigned long long)g_seen_open, (unsigned long long)g_spawns));
}

int main(int argc, char** argv) {
  if (!child_script().empty()) return child_main();
  vh::parse(argc, argv);
  configure_posix();
  if (g_mode == "clock") vh::run_cases(clock_case);
  else if (g_mode == "faketime") vh::run_cases(faketime_case);
  else if (g_mode == "sleep") vh::run_cases(sleep_case);
  else if (g_mode == "deflt") vh::run_cases(deflt_case);
  else if (g_mode == "testdir") vh::run_cases(testdir_case);
  else if (g_mode == "exec") vh::run_cases(exec_case);
  else vh::broken("unknown mode " + g_mode);
  return vh::finish();
}
