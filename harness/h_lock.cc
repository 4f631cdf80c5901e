// C23: file locks.  Modes: hist (histories over several processes against a
// model), pair (every system-call and mutex boundary of one call interrupted
// by other calls), conc (threads in several processes, holders checked in
// shared memory, processes killed), alias (one file under two names).
#include "sysx.h"
#include "posixcfg.h"

#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/wait.h>

#include <algorithm>
#include <memory>

#include "lsmdb/env.h"
#include "lsmdb/status.h"

using lsmdb::Env;
using lsmdb::FileLock;
using lsmdb::Status;
using sysx::spit;
using sysx::Traced;
using vh::esc;
using vh::fmt;
using vh::Rng;

// ------------------------------------------------------------ boundaries ---
static void (*g_boundary)() = nullptr;
static thread_local int t_watch = 0, t_in_boundary = 0;
static inline void boundary() {
  if (t_watch && !t_in_boundary && g_boundary) {
    ++t_in_boundary;
    g_boundary();
    --t_in_boundary;
  }
}
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
  boundary();
  return __real_pthread_mutex_lock(m);
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
  int r = __real_pthread_mutex_unlock(m);
  boundary();
  return r;
}
}
static void hook(sysx::Call&, bool) { boundary(); }

// Is the file locked, as seen from another process?  The caller must not hold it.
static char getlk(const char* path) {
  char r = 'm';
  int fd = __real_open(path, O_RDWR);
  if (fd >= 0) {
    struct flock fl;
    memset(&fl, 0, sizeof fl);
    fl.l_type = F_WRLCK;
    fl.l_whence = SEEK_SET;
    r = __real_fcntl(fd, F_GETLK, &fl) != 0 ? 'e' : fl.l_type == F_UNLCK ? 'f' : 'h';
    __real_close(fd);
  }
  return r;
}

// ---------------------------------------------------------------- agents ---
struct Msg {
  char op;        // L lock, U unlock, P probe, F descriptors, X exit
  int slot;
  int thread;     // run on a new thread
  char path[400];
};
struct Reply {
  int ok, null_result, notfound, fds;
  char probe;
  char text[200];
};
struct Agent {
  int to = -1, from = -1;
  pid_t pid = -1;
  static void serve(int in, int out) {
    std::map<int, FileLock*> held;
    for (;;) {
      Msg m;
      ssize_t n = __real_read(in, &m, sizeof m);
      if (n != (ssize_t)sizeof m) _exit(0);
      Reply p;
      memset(&p, 0, sizeof p);
      auto act = [&] {
        if (m.op == 'L') {
          FileLock* l = (FileLock*)0x8;
          Status s = Env::Default()->LockFile(m.path, &l);
          p.ok = s.ok();
          p.null_result = l == nullptr;
          p.notfound = s.IsNotFound();
          snprintf(p.text, sizeof p.text, "%s", s.ToString().c_str());
          if (s.ok()) held[m.slot] = l;
        } else if (m.op == 'U') {
          Status s = Env::Default()->UnlockFile(held[m.slot]);
          held.erase(m.slot);
          p.ok = s.ok();
          snprintf(p.text, sizeof p.text, "%s", s.ToString().c_str());
        } else if (m.op == 'P') {
          p.probe = getlk(m.path);
        } else if (m.op == 'F') {
          p.fds = vh::count_fds();
        } else if (m.op == 'X') {
          _exit(0);
        }
      };
      if (m.thread) std::thread(act).join();
      else act();
      if (__real_write(out, &p, sizeof p) != (ssize_t)sizeof p) _exit(0);
    }
  }
  // Only while this process has a single thread.
  void start() {
    int a[2], b[2];
    if (pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC)) vh::broken("pipe");
    fflush(stdout);
    pid = fork();
    if (pid < 0) vh::broken("fork");
    if (pid == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      __real_close(a[1]);
      __real_close(b[0]);
      serve(a[0], b[1]);
    }
    __real_close(a[0]);
    __real_close(b[1]);
    to = a[1];
    from = b[0];
  }
  void stop(int sig) {
    kill(pid, sig);
    reap();
  }
  void reap() {
    int st;
    waitpid(pid, &st, 0);
    __real_close(to);
    __real_close(from);
    pid = -1;
  }
  Reply ask(char op, const std::string& path = "", int slot = 0, bool thread = false) {
    Msg m;
    memset(&m, 0, sizeof m);
    m.op = op;
    m.slot = slot;
    m.thread = thread;
    if (path.size() >= sizeof m.path) vh::broken("path too long");
    memcpy(m.path, path.data(), path.size());
    if (__real_write(to, &m, sizeof m) != (ssize_t)sizeof m) vh::broken("agent gone");
    Reply p;
    memset(&p, 0, sizeof p);
    if (op == 'X') return p;
    struct pollfd pf = {from, POLLIN, 0};
    int n = poll(&pf, 1, 30000);
    if (n == 0) {
      vh::viol("lock-blocks", fmt("operation %c on \"%s\" did not return within 30 s", op, esc(path).c_str()));
      vh::write_stats();
      _exit(3);
    }
    if (__real_read(from, &p, sizeof p) != (ssize_t)sizeof p) {
      int st = 0;
      waitpid(pid, &st, 0);
      if (WIFEXITED(st) && WEXITSTATUS(st) == 66) _exit(66);
      vh::viol("lock-crash", fmt("the process died in operation %c on \"%s\" (status %d)", op, esc(path).c_str(), st));
      vh::write_stats();
      _exit(3);
    }
    return p;
  }
};

// ------------------------------------------------------------- histories ---
static void hist_case(Rng& r, uint64_t idx) {
  std::string dir = vh::fresh_dir("hist"), bad, log;
  int np = (int)r.range(1, 3), nf = (int)r.range(1, 5);
  std::vector<Agent> ag((size_t)np);
  std::vector<int> base((size_t)np);
  for (int i = 0; i < np; ++i) { ag[i].start(); base[i] = ag[i].ask('F').fds; }
  std::vector<int> heldcount((size_t)np, 0);
  __real_mkdir((dir + "/sub").c_str(), 0755);
  // Every process has its own way of writing each file's name.
  auto name = [&](int p, int f) {
    switch (p) {
      case 0: return fmt("%s/f%d", dir.c_str(), f);
      case 1: return fmt("%s/sub/../f%d", dir.c_str(), f);
      default: return fmt("%s//./f%d", dir.c_str(), f);
    }
  };
  std::vector<int> holder((size_t)nf, -1);
  std::vector<int> kind((size_t)nf, 0);  // 0 absent or file, 1 a directory of that name
  uint64_t ok = 0, refused = 0, deaths = 0, probes = 0;
  for (int f = 0; f < nf; ++f) {
    if (r.one_in(3)) spit(name(0, f), r.one_in(2) ? "content" : "");
    else if (r.one_in(6)) { __real_mkdir(name(0, f).c_str(), 0755); kind[f] = 1; }
  }
  size_t n = r.range(8, 60);
  for (size_t i = 0; i < n && bad.empty(); ++i) {
    int p = (int)r.below(np), f = (int)r.below(nf);
    unsigned op = (unsigned)r.below(12);
    bool thr = r.one_in(2);
    if (op < 6) {
      Reply x = ag[p].ask('L', name(p, f), f, thr);
      log += fmt("%d:L%d ", p, f);
      bool want = holder[f] == -1 && kind[f] == 0;
      if (x.ok == x.null_result) bad = "LockFile: result and status disagree";
      else if (x.ok && !want) bad = kind[f] ? "LockFile succeeded on a directory" : fmt("LockFile of file %d succeeded although process %d holds it", f, holder[f]);
      else if (!x.ok && want) bad = fmt("LockFile of file %d, which nobody holds, failed: %s", f, x.text);
      if (x.ok && want) holder[f] = p, ++heldcount[p], ++ok;
      if (!x.ok) ++refused;
    } else if (op < 9) {
      if (holder[f] < 0) continue;
      p = holder[f];
      Reply x = ag[p].ask('U', "", f, thr);
      log += fmt("%d:U%d ", p, f);
      if (!x.ok) bad = fmt("UnlockFile failed: %s", x.text);
      holder[f] = -1;
      --heldcount[p];
    } else if (op == 9) {
      if (!r.one_in(3)) continue;
      bool polite = r.one_in(2);
      log += fmt("%d:%s ", p, polite ? "exit" : "kill");
      if (polite) { ag[p].ask('X'); ag[p].reap(); }
      else ag[p].stop(SIGKILL);
      for (int& h : holder) if (h == p) h = -1;
      ag[p].start();
      heldcount[p] = 0;
      base[p] = ag[p].ask('F').fds;
      ++deaths;
    } else if (op == 10) {
      Reply x = ag[p].ask('L', dir + "/nosuch/f", 99, thr);
      log += fmt("%d:Lmissing ", p);
      if (x.ok || !x.null_result) bad = "LockFile in a missing directory succeeded or left a result";
      else if (!x.notfound) bad = fmt("LockFile in a missing directory: %s", x.text);
    } else {
      if (kind[f] == 1) { __real_rmdir(name(0, f).c_str()); kind[f] = 0; log += fmt("rmdir%d ", f); }
    }
    if (!bad.empty()) break;
    for (int g = 0; g < nf; ++g) {
      if (kind[g]) continue;
      char c = getlk(name(0, g).c_str());
      ++probes;
      if (holder[g] >= 0 && c != 'h') { bad = fmt("process %d should hold file %d, but another process can lock it", holder[g], g); break; }
      if (holder[g] < 0 && c == 'h') { bad = fmt("nobody holds file %d, but it is locked", g); break; }
    }
    if (bad.empty() && r.one_in(4)) {
      int d = ag[p].ask('F').fds - base[p];
      // A first call may open something for good; a leak grows with every failure.
      if (d != heldcount[p]) bad = fmt("process %d holds %d locks but has %d more descriptors than at its start", p, heldcount[p], d);
    }
  }
  // Everything can be taken again in the end, by somebody else.
  for (int f = 0; f < nf && bad.empty(); ++f) {
    if (holder[f] >= 0 && !ag[holder[f]].ask('U', "", f).ok) bad = "UnlockFile failed at the end";
    if (kind[f] || !bad.empty()) continue;
    int p = (int)r.below(np);
    Reply x = ag[p].ask('L', name(p, f), f);
    if (!x.ok) bad = fmt("file %d, released by everyone, cannot be locked: %s", f, x.text);
    else if (getlk(name(0, f).c_str()) != 'h') bad = "the last lock had no effect";
  }
  for (auto& a : ag) a.stop(SIGKILL);
  if (!bad.empty()) vh::viol("lock-history", bad + " after " + log.substr(log.size() > 300 ? log.size() - 300 : 0));
  vh::count("locks_granted", ok);
  vh::count("locks_refused", refused);
  vh::count("holder_processes_ended", deaths);
  vh::count("probes_from_another_process", probes);
  vh::evaluated(vh::hash_str(log), ok > 0 && refused > 0);
  if (vh::want_sample()) vh::sample(fmt("case %llu: %d processes, %d files: %s", (unsigned long long)idx, np, nf, log.substr(0, 160).c_str()));
  vh::rm_tree(dir);
}

// ----------------------------------------------------------------- pairs ---
static Agent g_peer, g_prober;
static std::atomic<int> g_count{0};
static int g_target;
static std::function<void()> g_b;
static std::unique_ptr<std::thread> g_bthread;
static std::atomic<bool> g_bdone{false};
static uint64_t g_blocked;
static void pair_boundary() {
  if (g_count++ != g_target) return;
  g_bdone = false;
  g_bthread.reset(new std::thread([] { g_b(); g_bdone = true; }));
  uint64_t t0 = vh::now_ns();
  // Calls of the other thread may wait for a mutex that this one holds.
  while (!g_bdone && vh::now_ns() - t0 < 100000000ull) std::this_thread::yield();
  if (!g_bdone) ++g_blocked;
}
// Operations: who (0 this thread, 1 other thread, 2 other process), what.
struct LOp { int who; char what; int file; bool ok; };
static void pair_case(Rng& r, uint64_t idx) {
  static bool first = true;
  if (first) {
    g_peer.start();
    g_prober.start();
    sysx::g_hook = hook;
    g_boundary = pair_boundary;
    first = false;
  }
  Env* env = Env::Default();
  static int serial = 0;
  std::string dir = vh::fresh_dir("pair");
  int start_holder = (int)r.below(3) - 1;  // -1 nobody, 0 this process, 1 the other
  bool a_locks = start_holder != 0 || r.one_in(4);
  // A script for the others: locks and unlocks in turn, sometimes several.
  std::vector<LOp> script;
  int nb = (int)r.range(1, 3);
  {
    int me = start_holder == 0 && !a_locks ? 0 : 0;
    (void)me;
    for (int i = 0; i < nb; ++i) {
      int who = r.one_in(3) ? 2 : 1;
      script.push_back(LOp{who, r.one_in(3) ? 'U' : 'L', r.one_in(4) ? 1 : 0, false});
    }
  }
  std::string desc = fmt("file held by %s at first; %s interrupted by ", start_holder < 0 ? "nobody" : start_holder ? "the other process" : "this process", a_locks ? "lock" : "unlock");
  for (auto& o : script) desc += fmt("%s-%c%d ", o.who == 1 ? "thread" : "process", o.what, o.file);
  uint64_t points = 0;
  std::string bad;
  for (g_target = 0; g_target < 200 && bad.empty(); ++g_target) {
    std::string f[2] = {fmt("%s/p%d", dir.c_str(), ++serial), fmt("%s/q%d", dir.c_str(), serial)};
    FileLock* mine[2] = {nullptr, nullptr};   // held by this process
    FileLock* extra = nullptr;                // lock taken by thread A
    bool peer[2] = {false, false};
    if (start_holder == 0) { if (!env->LockFile(f[0], &mine[0]).ok()) { bad = "a fresh file cannot be locked"; break; } }
    if (start_holder == 1) { if (!g_peer.ask('L', f[0], 0).ok) { bad = "a fresh file cannot be locked"; break; } peer[0] = true; }
    std::vector<LOp> done;
    std::string inner;
    bool a_unlocks = !a_locks;
    FileLock* to_unlock = a_unlocks ? mine[0] : nullptr;
    if (a_unlocks) mine[0] = nullptr;
    g_b = [&] {
      for (auto o : script) {
        if (o.who == 1) {
          if (o.what == 'L') {
            FileLock* l = (FileLock*)0x8;
            Status s = env->LockFile(f[o.file], &l);
            o.ok = s.ok();
            if (s.ok() != (l != nullptr)) { inner = "LockFile: result and status disagree"; return; }
            if (o.ok && mine[o.file]) { inner = "a file held by this process was locked again"; return; }
            if (o.ok) mine[o.file] = l;
          } else {
            if (!mine[o.file]) continue;
            o.ok = env->UnlockFile(mine[o.file]).ok();
            mine[o.file] = nullptr;
            if (!o.ok) { inner = "UnlockFile failed"; return; }
          }
        } else {
          if (o.what == 'L') {
            o.ok = g_peer.ask('L', f[o.file], o.file).ok;
            if (o.ok && peer[o.file]) { inner = "the other process locked a file twice"; return; }
            if (o.ok) peer[o.file] = true;
          } else {
            if (!peer[o.file]) continue;
            o.ok = g_peer.ask('U', "", o.file).ok;
            peer[o.file] = false;
            if (!o.ok) { inner = "UnlockFile failed"; return; }
          }
        }
        if (o.ok && o.what == 'L' && g_prober.ask('P', f[o.file]).probe != 'h') { inner = "LockFile succeeded, but others can lock the file"; return; }
        done.push_back(o);
      }
    };
    g_count = 0;
    Status sa;
    {
      Traced t;
      ++t_watch;
      if (a_locks) { extra = (FileLock*)0x8; sa = env->LockFile(f[0], &extra); }
      else sa = env->UnlockFile(to_unlock);
      --t_watch;
    }
    bool fired = g_count > g_target;
    if (g_bthread) { g_bthread->join(); g_bthread.reset(); }
    bad = inner;
    if (bad.empty() && a_locks && sa.ok() != (extra != nullptr)) bad = "LockFile: result and status disagree";
    if (bad.empty() && !a_locks && !sa.ok()) bad = "UnlockFile failed: " + sa.ToString();
    if (!sa.ok()) extra = nullptr;
    if (bad.empty()) {
      // A's call must fit somewhere among the others' calls: a lock is only
      // granted while nobody holds the file.  Refusals are always allowed here:
      // an attempt still in progress counts as a use of the name.
      bool fits = false;
      for (size_t at = 0; at <= done.size() && !fits; ++at) {
        bool busy = start_holder >= 0, ok = true;
        for (size_t i = 0; i <= done.size() && ok; ++i) {
          if (i == at) {
            if (!a_locks) busy = false;
            else if (sa.ok()) { if (busy) ok = false; busy = true; }
          }
          if (i == done.size()) break;
          if (done[i].file != 0) continue;
          if (done[i].what == 'U') busy = false;
          else if (done[i].ok) { if (busy) ok = false; busy = true; }
        }
        fits = ok;
      }
      if (!fits) bad = fmt("the file was locked while somebody else held it (thread A's lock %s)", sa.ok() ? "was granted" : "was refused");
    }
    for (int k = 0; k < 2 && bad.empty(); ++k) {
      int holders = (mine[k] != nullptr) + (k == 0 && extra) + (peer[k] ? 1 : 0);
      char c = g_prober.ask('P', f[k]).probe;
      if (holders > 1) bad = "the file has two holders";
      else if (holders == 1 && c != 'h') bad = fmt("%s lock is held, but other processes can lock the file", k ? "the other file's" : "the");
      else if (holders == 0 && c == 'h') bad = "nobody holds the file, but it is locked";
      if (mine[k] && !env->UnlockFile(mine[k]).ok()) bad = "UnlockFile failed";
      if (k == 0 && extra && !env->UnlockFile(extra).ok()) bad = "UnlockFile failed";
      if (peer[k] && !g_peer.ask('U', "", k).ok) bad = "UnlockFile failed";
      if (!bad.empty()) break;
      FileLock* l = nullptr;
      Status s = env->LockFile(f[k], &l);
      if (!s.ok()) bad = "a released file cannot be locked: " + s.ToString();
      else { if (g_prober.ask('P', f[k]).probe != 'h') bad = "locking a released file had no effect"; env->UnlockFile(l); }
    }
    if (fired) ++points;
    if (!bad.empty()) vh::viol("lock-pair", fmt("%sat boundary %d: %s", desc.c_str(), g_target, bad.c_str()));
    if (!fired) break;
  }
  vh::count("interruption_points", points);
  vh::count("interrupting_calls_that_had_to_wait", g_blocked);
  g_blocked = 0;
  vh::evaluated(vh::hash_str(desc), points > 2);
  if (vh::want_sample()) vh::sample(fmt("case %llu: %s, %llu points", (unsigned long long)idx, desc.c_str(), (unsigned long long)points));
  vh::rm_tree(dir);
}

// ------------------------------------------------------------ concurrent ---
struct Shared {
  std::atomic<int> owner[4];       // process * 64 + thread + 1
  std::atomic<int> dying[4];
  std::atomic<int> stop;
  std::atomic<int64_t> granted, refused, probes, bad;
  char text[300];
};
static Shared* g_sh;
static uint64_t g_jseed;
static thread_local uint64_t t_j = 0;
static void jitter_boundary() {
  if (!t_j) t_j = vh::mix(g_jseed ^ (uint64_t)pthread_self());
  t_j = vh::mix(t_j);
  unsigned x = t_j & 31;
  if (x == 0) usleep(1 + (t_j >> 10) % 300);
  else if (x < 6) sched_yield();
  else if (x < 8) for (volatile int i = 0; i < (int)((t_j >> 10) % 3000); ++i) {}
}
static void set_bad(const std::string& s) {
  int64_t z = 0;
  if (g_sh->bad.compare_exchange_strong(z, 1)) { snprintf(g_sh->text, sizeof g_sh->text, "%s", s.c_str()); g_sh->bad = 2; }
}
static const auto RX = std::memory_order_relaxed;
static void conc_process(int me, int threads, int files, const std::string& dir, uint64_t seed, int rounds) {
  Agent prober;
#ifndef VH_TSAN
  prober.start();
  prctl(PR_SET_PDEATHSIG, SIGKILL);
#endif
  std::mutex pm;
  sysx::g_hook = hook;
  g_boundary = jitter_boundary;
  Env* env = Env::Default();
  std::vector<std::thread> ts;
  for (int t = 0; t < threads; ++t)
    ts.emplace_back([&, t] {
      Rng r(vh::mix(seed ^ (uint64_t)(me * 100 + t)));
      int tag = me * 64 + t + 1;
      ++t_watch;
      for (int i = 0; i < rounds && !g_sh->stop.load(RX); ++i) {
        int f = (int)r.below(files);
        std::string p = fmt("%s/c%d", dir.c_str(), f);
        FileLock* l = (FileLock*)0x8;
        Status s;
        { Traced tr; s = env->LockFile(p, &l); }
        if (s.ok() != (l != nullptr)) set_bad("LockFile: result and status disagree");
        if (!s.ok()) { g_sh->refused.fetch_add(1, RX); if (r.one_in(8)) usleep(r.below(100)); continue; }
        g_sh->granted.fetch_add(1, RX);
        int old = g_sh->owner[f].exchange(tag, RX);
        if (old != 0 && !g_sh->dying[(old - 1) / 64].load(RX)) set_bad(fmt("process %d thread %d locked file %d while process %d thread %d held it", me, t, f, (old - 1) / 64, (old - 1) % 64));
#ifndef VH_TSAN
        if (r.one_in(2)) {
          for (int k = (int)r.range(1, 3); k > 0; --k) {
            pm.lock();
            char c = prober.ask('P', p).probe;
            pm.unlock();
            g_sh->probes.fetch_add(1, RX);
            if (c != 'h') set_bad(fmt("process %d thread %d holds file %d, but others can lock it", me, t, f));
          }
        }
#endif
        if (r.one_in(4)) usleep(r.below(200));
        int now = g_sh->owner[f].exchange(0, RX);
        if (now != tag && !(now && g_sh->dying[(now - 1) / 64].load(RX))) set_bad(fmt("process %d thread %d lost file %d while holding it", me, t, f));
        { Traced tr; if (!env->UnlockFile(l).ok()) set_bad("UnlockFile failed"); }
      }
      --t_watch;
    });
  for (auto& t : ts) t.join();
  _exit(0);
}
static void conc_case(Rng& r, uint64_t idx) {
  if (!g_sh) g_sh = (Shared*)__real_mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset((void*)g_sh, 0, sizeof *g_sh);
  std::string dir = vh::fresh_dir("conc");
#ifdef VH_TSAN
  int procs = 1, threads = (int)r.range(2, 5);
#else
  int procs = (int)r.range(1, 3), threads = (int)r.range(1, 4);
#endif
  int files = (int)r.range(1, 3), rounds = (int)r.range(100, 500);
  g_jseed = r.next();
  std::vector<pid_t> pid((size_t)procs);
  fflush(stdout);
  for (int i = 0; i < procs; ++i) {
    uint64_t s = r.next();
    pid[i] = fork();
    if (pid[i] < 0) vh::broken("fork");
    if (pid[i] == 0) conc_process(i, threads, files, dir, s, rounds);
  }
  bool killing = procs > 1 && r.one_in(2);
  if (killing) {
    usleep(2000 + r.below(20000));
    g_sh->dying[0].store(1);
    kill(pid[0], SIGKILL);
  }
  uint64_t t0 = vh::now_ns();
  for (int i = 0; i < procs; ++i) {
    int st = 0;
    for (;;) {
      pid_t x = waitpid(pid[i], &st, WNOHANG);
      if (x == pid[i]) break;
      if (vh::now_ns() - t0 > 60000000000ull) {
        for (int k = i; k < procs; ++k) kill(pid[k], SIGKILL);
        vh::viol("lock-blocks", "threads locking and unlocking files did not finish within 60 s");
        vh::write_stats();
        _exit(3);
      }
      usleep(500);
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 66) _exit(66);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 3) vh::viol("lock-conc", "a process stopped with a violation");
    if (!WIFEXITED(st) && !(killing && i == 0)) vh::viol("lock-crash", fmt("a locking process died (status %d)", st));
  }
  if (g_sh->bad) vh::viol("lock-conc", g_sh->text);
  // All of it can be locked now; the processes are gone.
  for (int f = 0; f < files; ++f)
    if (getlk(fmt("%s/c%d", dir.c_str(), f).c_str()) == 'h') vh::viol("lock-conc", fmt("file %d is still locked after every process ended", f));
  vh::count("concurrent_locks_granted", (uint64_t)g_sh->granted);
  vh::count("concurrent_locks_refused", (uint64_t)g_sh->refused);
  vh::count("probes_during_a_hold", (uint64_t)g_sh->probes);
  vh::count("processes_killed_while_locking", killing);
  vh::evaluated(vh::mix(idx) ^ (uint64_t)g_sh->granted * 7 ^ (uint64_t)g_sh->refused, g_sh->granted > 1 && (g_sh->refused > 0 || threads * procs == 1));
  if (vh::want_sample()) vh::sample(fmt("case %llu: %d processes of %d threads on %d files: %lld granted, %lld refused%s", (unsigned long long)idx, procs, threads, files, (long long)g_sh->granted, (long long)g_sh->refused, killing ? ", one process killed" : ""));
  vh::rm_tree(dir);
}

// ----------------------------------------------------------------- alias ---
static void alias_case(Rng& r, uint64_t idx) {
  std::string dir = vh::fresh_dir("alias"), a = dir + "/f", b;
  spit(a, "");
  unsigned kind = (unsigned)r.below(4);
  if (kind == 0) b = dir + "/./f";
  else if (kind == 1) b = dir + "//f";
  else if (kind == 2) { b = dir + "/s"; if (symlink(a.c_str(), b.c_str())) vh::broken("symlink"); }
  else { b = dir + "/h"; if (link(a.c_str(), b.c_str())) vh::broken("link"); }
  if (r.one_in(2)) std::swap(a, b);
  Agent x, y;
  x.start();
  y.start();
  // Another process is always kept out.
  Reply l1 = x.ask('L', a, 1), l2 = y.ask('L', b, 1);
  if (!l1.ok) vh::viol("alias-lock", std::string("a free file cannot be locked: ") + l1.text);
  if (l2.ok) vh::viol("alias-other-process", "another process locked a held file under a second name");
  if (l1.ok && getlk(a.c_str()) != 'h') vh::viol("alias-other-process", "a refused attempt by another process under a second name dropped the lock");
  Reply l3 = x.ask('L', b, 2);
  if (l3.ok) vh::viol_once("same-process-alias", fmt("one process locked the same file twice, as \"%s\" and \"%s\"", esc(a).c_str(), esc(b).c_str()));
  x.stop(SIGKILL);
  y.stop(SIGKILL);
  vh::count("second_names_tried");
  vh::evaluated(vh::mix(idx) ^ kind);
  vh::rm_tree(dir);
}

int main(int argc, char** argv) {
  vh::parse(argc, argv);
  configure_posix();
  signal(SIGPIPE, SIG_IGN);
  if (g_mode == "hist") vh::run_cases(hist_case);
  else if (g_mode == "pair") vh::run_cases(pair_case);
  else if (g_mode == "conc") vh::run_cases(conc_case);
  else if (g_mode == "alias") vh::run_cases(alias_case);
  else vh::broken("unknown mode " + g_mode);
  return vh::finish();
}
