// C24: background work.  Modes: sched (random programs of schedulers), first
// (concurrent first calls in a fresh process).
// C31: mutex, scoped lock, condition variable.  Modes: excl, queue, wake.
#include <dirent.h>
#include <pthread.h>
#include <signal.h>
#include <sys/wait.h>

#include <algorithm>
#include <condition_variable>
#include <memory>
#include <stdexcept>

#include "lsmdb/env.h"
#include "port/port.h"
#include "util/mutexlock.h"
#include "vh.h"
#include <sys/resource.h>

using lsmdb::Env;
using lsmdb::MutexLock;
using lsmdb::port::CondVar;
using lsmdb::port::Mutex;
using vh::Ctr;
using vh::fmt;
using vh::Rng;

// ---------------------------------------------------------------- delays ---
static vh::Ctr g_jseed{1};
static vh::Ctr g_jitter{0};
static thread_local uint64_t t_j = 0;
static vh::Ctr g_spurious_done{0};
static vh::Ctr g_spurious{0};  // one in so many waits of a condition variable ends without a cause
static inline void jitter() {
  if (!g_jitter.load()) return;
  if (!t_j) t_j = vh::mix((uint64_t)g_jseed.load() ^ (uint64_t)pthread_self());
  t_j = vh::mix(t_j);
  unsigned x = t_j & 63;
  if (x == 0) usleep(1 + (t_j >> 10) % 200);
  else if (x < 8) sched_yield();
  else if (x < 12) for (volatile int i = 0; i < (int)((t_j >> 10) % 2000); ++i) {}
}
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
  jitter();
  return __real_pthread_mutex_lock(m);
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
  int r = __real_pthread_mutex_unlock(m);
  jitter();
  return r;
}
// std::condition_variable::wait and notify_one as called from the library.
void __real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(void*, void*);
void __real__ZNSt18condition_variable10notify_oneEv(void*);
void __real__ZNSt18condition_variable10notify_allEv(void*);
void __wrap__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(void* c, void* l) {
  jitter();
  static thread_local uint64_t waits = 0;
  int64_t spurious = g_spurious.load();
  if (spurious && vh::mix(++waits ^ (uint64_t)g_jseed.load()) % (uint64_t)spurious == 0) {
    // As the standard allows: back without a notification, the mutex given up in between.
    std::unique_lock<std::mutex>* lock = static_cast<std::unique_lock<std::mutex>*>(l);
    lock->unlock();
    sched_yield();
    lock->lock();
    g_spurious_done++;
    return;
  }
  __real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(c, l);
  jitter();
}
void __wrap__ZNSt18condition_variable10notify_oneEv(void* c) {
  jitter();
  __real__ZNSt18condition_variable10notify_oneEv(c);
  jitter();
}
void __wrap__ZNSt18condition_variable10notify_allEv(void* c) {
  jitter();
  __real__ZNSt18condition_variable10notify_allEv(c);
  jitter();
}
}

// Waits for a condition without synchronising with whoever makes it true.
template <class F>
static bool await(F f, int seconds) {
  uint64_t t0 = vh::now_ns();
  for (int i = 0;; ++i) {
    if (f()) return true;
    if (vh::now_ns() - t0 > (uint64_t)seconds * 1000000000ull) return false;
    if (i < 200) sched_yield();
    else usleep(50);
  }
}
[[noreturn]] static void give_up(const std::string& key, const std::string& msg) {
  vh::viol(key, msg);
  vh::write_stats();
  fflush(stdout);
  _exit(3);
}
static const int kHang = 30;

// ------------------------------------------------------------ scheduling ---
// What the judge reads is atomic and made before the program starts; the rest
// is only touched by the caller and then by the item, ordered by nothing but
// the environment.
struct Item {
  Ctr handed{0}, runs{0}, wrong_arg{0}, same_thread{0}, inside_call{0}, dead_capture{0}, wrong_data{0}, nested{0}, thread{0}, awaits_return{0}, returned{0}, awaited_in_vain{0};
  uint64_t caller = 0;
  void* arg = nullptr;
  uint64_t data[4] = {0, 0, 0, 0};
  uint64_t expect = 0;
  int depth = 0, children = 0, sleep_us = 0;
  size_t stack = 0;
  Ctr* gate = nullptr;    // wait until it is open
};
static const int kPool = 3000;
struct Program {
  Item* pool = new Item[kPool];
  Ctr used{0}, ran{0};
  Ctr plain_handed{0}, plain_ran{0}, null_handed{0};
  Ctr gates[8];
};
struct Canary {
  uint64_t magic = 0x5ca1ab1e;
  ~Canary() { *(volatile uint64_t*)&magic = 0xdead; }
};
static Ctr g_ids{0};
static thread_local uint64_t t_id = 0;
static thread_local int t_handing = 0, t_in_item = 0;
static uint64_t my_id() { return t_id ? t_id : (t_id = (uint64_t)++g_ids); }

// Work may call as deep as in any thread of the program.
static size_t stack_allowed() {
  struct rlimit rl;
  if (getrlimit(RLIMIT_STACK, &rl) != 0 || rl.rlim_cur == RLIM_INFINITY) return 1 << 20;
  return std::min<size_t>(1 << 20, (size_t)rl.rlim_cur / 8);
}
static __attribute__((noinline)) unsigned use_stack(size_t bytes) {
  volatile char frame[8192];
  for (size_t i = 0; i < sizeof frame; i += 512) frame[i] = (char)(bytes + i);
  unsigned x = bytes > sizeof frame ? use_stack(bytes - sizeof frame) : 1;
  return x + (unsigned char)frame[(bytes & 15) * 512];
}
static Ctr g_deep{0};

static void hand_over(Program* P, Rng& r, int depth, bool thread, Ctr* gate);
static void run_item(Program* P, void* arg, Item* want, const Canary* c, uint64_t seed) {
  if (t_handing) want->inside_call++;
  if (arg != want->arg) want->wrong_arg++;
  if (c->magic != 0x5ca1ab1e) want->dead_capture++;
  // Work scheduled by background work may run on the same thread, later.
  if (want->caller == my_id() && (want->thread.load() || !want->nested.load())) want->same_thread++;
  for (uint64_t d : want->data) if (d != want->expect) want->wrong_data++;
  for (uint64_t& d : want->data) d = ~want->expect;  // a second run is seen as wrong data too
  if (want->gate) await([&] { return want->gate->load() != 0; }, 2 * kHang);
  // The call that handed this over returns while it runs.
  if (want->awaits_return.load() && !t_handing && !await([&] { return want->returned.load() != 0; }, kHang / 2)) want->awaited_in_vain++;
  if (want->sleep_us) usleep(want->sleep_us);
  Rng r(seed);
  if (want->stack) { static volatile unsigned sink; unsigned x = use_stack(want->stack); (void)sink; if (x == 12345678) sink = x; g_deep++; }
  for (int i = 0; i < want->children; ++i) hand_over(P, r, want->depth + 1, r.one_in(5), nullptr);
  if (c->magic != 0x5ca1ab1e) want->dead_capture++;
  want->runs++;
  P->ran++;
}
// The same function with the same argument, again and again: every call counts.
static void plain(void* p) { static_cast<Program*>(p)->plain_ran++; }
static Ctr g_null_ran{0};
static void plain_null(void* p) { if (!p) g_null_ran++; }
static void hand_over_plain(Program* P, Rng& r) {
  bool thread = r.one_in(10);
  Env* env = Env::Default();
  for (int i = (int)r.range(1, 4); i > 0; --i) {
    if (r.one_in(3)) {
      P->null_handed++;
      if (thread) env->StartThread(plain_null, nullptr);
      else env->Schedule(plain_null, nullptr);
    } else {
      P->plain_handed++;
      if (thread) env->StartThread(plain, P);
      else env->Schedule(plain, P);
    }
  }
}
static void hand_over(Program* P, Rng& r, int depth, bool thread, Ctr* gate) {
  int64_t k = P->used++;
  if (k >= kPool) { P->ran++; return; }
  Item* it = &P->pool[k];
  it->handed = 1;
  it->thread = thread;
  it->nested = depth > 0 && !gate;
  it->caller = my_id();
  it->depth = depth;
  it->gate = gate;
  if (depth < 3 && r.one_in(6)) it->children = (int)r.range(1, 3);
  if (r.one_in(20)) it->sleep_us = (int)r.below(300);
  if (r.one_in(12)) it->stack = r.below(stack_allowed());
  it->expect = r.next();
  uint64_t seed = r.next();
  for (uint64_t& d : it->data) d = it->expect;
  Env* env = Env::Default();
  std::shared_ptr<Canary> c(new Canary);
  // Any pointer value may be handed over; only the item itself may look behind it.
  void* arg = r.one_in(4) ? nullptr : r.one_in(4) ? (void*)(uintptr_t)(r.one_in(2) ? r.below(64) : r.next()) : it;
  it->arg = arg;
  it->awaits_return = r.one_in(8);
  ++t_handing;
  if (r.one_in(4)) {
    std::function<void(void*)> f = [P, it, c, seed](void* a) { run_item(P, a, it, c.get(), seed); };
    c.reset();
    if (thread) env->StartThread(f, arg);
    else env->Schedule(f, arg);
    f = nullptr;  // the environment keeps its own
  } else {
    auto f = [P, it, c, seed](void* a) { run_item(P, a, it, c.get(), seed); };
    c.reset();
    if (thread) env->StartThread(std::move(f), arg);
    else env->Schedule(std::move(f), arg);
  }
  --t_handing;
  it->returned = 1;
}
static std::string judge(Program& P, bool final) {
  for (int i = 0; i < kPool; ++i) {
    Item& x = P.pool[i];
    if (!x.handed.load()) break;
    const char* how = x.thread.load() ? "StartThread" : "Schedule";
    if (x.runs.load() > 1 || (final && x.runs.load() != 1)) return fmt("an item given to %s ran %lld times", how, (long long)x.runs.load());
    if (x.wrong_arg.load()) return fmt("an item given to %s got another argument", how);
    if (x.inside_call.load()) return fmt("an item given to %s ran inside the call", how);
    if (x.awaited_in_vain.load()) return fmt("a call of %s did not return while the item it was given ran", how);
    if (x.same_thread.load()) return fmt("an item given to %s ran on the caller's thread", how);
    if (x.dead_capture.load()) return fmt("the function given to %s was destroyed before or while it ran", how);
    if (x.wrong_data.load()) return fmt("what the caller of %s wrote before was not visible to the item", how);
  }
  return "";
}
static void one_program(Rng& r, uint64_t idx, bool fresh) {
  Program* P = new Program;
  static std::vector<Program*>* keep = new std::vector<Program*>;  // late second runs stay visible
  keep->push_back(P);
  g_jseed = (int64_t)r.next();
  g_jitter = !r.one_in(4);
  g_spurious = r.one_in(2) ? (int64_t)r.range(1, 6) + 1 : 0;
  int64_t null_before = g_null_ran.load();
  int callers = (int)r.range(1, 6), bursts = fresh ? 1 : (int)r.range(1, 5);
  uint64_t total = 0;
  std::string desc = fmt("%d callers, %d bursts", callers, bursts);
  for (int b = 0; b < bursts; ++b) {
    // With a gate, an item blocks the background thread while more is handed over.
    bool gated = r.one_in(3);
    Ctr &gate = P->gates[b], finished{0};
    if (gated) {
      hand_over(P, r, 3, false, &gate);
      if (r.one_in(2)) usleep(r.below(500));
    }
    std::vector<std::thread> ts;
    int per = (int)r.range(1, r.one_in(5) ? 200 : 12);
    pthread_barrier_t bar;
    pthread_barrier_init(&bar, nullptr, (unsigned)callers);
    for (int c = 0; c < callers; ++c) {
      uint64_t seed = r.next();
      ts.emplace_back([&, seed] {
        Rng q(seed);
        pthread_barrier_wait(&bar);
        for (int i = 0; i < per; ++i) {
          hand_over(P, q, 0, q.one_in(25), nullptr);
          if (q.one_in(8)) hand_over_plain(P, q);
          if (q.one_in(10)) usleep(q.below(200));
        }
        finished++;
      });
    }
    if (gated) {
      bool stuck = false;
      while (!stuck && finished.load() != callers) {
        const int64_t before = P->used.load();
        stuck = !await([&] { return finished.load() == callers || P->used.load() > before; }, kHang);
      }
      if (stuck) give_up("sched-handover-blocks", fmt("case %llu: handing over work did not return within %d s while an earlier item was still running", (unsigned long long)idx, kHang));
      gate = 1;
    }
    for (auto& t : ts) t.join();
    pthread_barrier_destroy(&bar);
    total += (uint64_t)callers * per;
    auto all_ran = [&] { int64_t n = P->ran.load(), m = P->plain_ran.load(), o = g_null_ran.load() - null_before; return n == P->used.load() && m >= P->plain_handed.load() && o >= P->null_handed.load(); };
    auto how_many = [&] { return P->ran.load() + P->plain_ran.load() + g_null_ran.load(); };
    bool lost = false;
    while (!lost && !all_ran()) {  // progress, however slow, is enough
      const int64_t before = how_many();
      lost = !await([&] { return all_ran() || how_many() > before; }, kHang);
    }
    if (lost) {
      std::string bad = judge(*P, true);
      give_up("sched-lost", fmt("case %llu, burst %d of %s: after %d s without further calls %lld of %lld items had run, and %lld of %lld repeated calls of one function; %s", (unsigned long long)idx, b, desc.c_str(), kHang, (long long)P->ran.load(), (long long)P->used.load(), (long long)(P->plain_ran.load() + g_null_ran.load() - null_before), (long long)(P->plain_handed.load() + P->null_handed.load()), bad.c_str()));
    }
    if (r.one_in(2)) usleep(r.below(1500));  // let the background thread go idle
  }
  if (r.one_in(3)) usleep(500);
  std::string bad = judge(*P, true);
  if (!bad.empty()) vh::viol("sched-wrong", fmt("case %llu: %s: %s", (unsigned long long)idx, desc.c_str(), bad.c_str()));
  if (P->plain_ran.load() != P->plain_handed.load() || g_null_ran.load() - null_before != P->null_handed.load()) vh::viol("sched-wrong", fmt("case %llu: %s: one function given %lld times ran %lld times", (unsigned long long)idx, desc.c_str(), (long long)(P->plain_handed.load() + P->null_handed.load()), (long long)(P->plain_ran.load() + g_null_ran.load() - null_before)));
  for (auto& q : *keep) { bad = judge(*q, false); if (!bad.empty()) { vh::viol("sched-wrong", "later: " + bad); break; } }
  if (keep->size() > 40) {
#ifndef VH_TSAN
    delete[] keep->front()->pool;  // under ThreadSanitizer: never, its items ended unordered with this
    delete keep->front();
#endif
    keep->erase(keep->begin());
  }
  uint64_t nested = 0, thr = 0;
  for (int i = 0; i < kPool && P->pool[i].handed.load(); ++i) nested += P->pool[i].nested.load(), thr += P->pool[i].thread.load();
  vh::count("items_run", (uint64_t)std::min<int64_t>(P->ran.load(), kPool));
  vh::count("items_with_deep_stacks", (uint64_t)g_deep.load());
  g_deep = 0;
  vh::count("repeated_calls", (uint64_t)(P->plain_ran.load() + P->null_handed.load()));
  vh::count("spurious_wakeups", (uint64_t)g_spurious_done.load());
  g_spurious_done = 0;
  vh::count("items_handed_over_by_other_items", nested);
  vh::count("threads_started", thr);
  vh::count("bursts", (uint64_t)bursts);
  vh::evaluated(vh::mix(idx) ^ total ^ (uint64_t)g_jseed.load(), total > 1);
  if (vh::want_sample()) vh::sample(fmt("case %llu: %s, %lld items, %llu nested, %llu threads", (unsigned long long)idx, desc.c_str(), (long long)P->ran.load(), (unsigned long long)nested, (unsigned long long)thr));
}
static void sched_case(Rng& r, uint64_t idx) { one_program(r, idx, false); }

// A long backlog behind one item that does not end.
static void flood_case(Rng& r, uint64_t idx) {
  g_jitter = 0;
  g_spurious = 0;
  size_t n = r.one_in(2) ? r.range(70000, 140000) : r.range(260000, 400000);
#ifdef VH_TSAN
  n = r.range(66000, 80000);
#endif
  std::vector<Ctr>* runs = new std::vector<Ctr>(n);
  Ctr *gate = new Ctr{0}, *ran = new Ctr{0}, *in = new Ctr{0}, *handed = new Ctr{0};
  Env* env = Env::Default();
  ++t_handing;
  env->Schedule([gate, in](void*) { if (t_handing) give_up("sched-wrong", "an item given to Schedule with a null argument ran inside the call"); *in = 1; await([&] { return gate->load() != 0; }, 4 * kHang); }, nullptr);
  --t_handing;
  if (r.one_in(2)) await([&] { return in->load() != 0; }, kHang);
  int callers = (int)r.range(1, 4);
  std::vector<std::thread> ts;
  for (int t = 0; t < callers; ++t)
    ts.emplace_back([&, t] {
      for (size_t i = (size_t)t; i < n; i += (size_t)callers)
        env->Schedule([runs, ran](void* a) { (*runs)[(size_t)(uintptr_t)a]++; (*ran)++; }, (void*)(uintptr_t)i), (*handed)++;
    });
  for (int64_t last; (last = handed->load()) < (int64_t)n;) {  // read once: it may reach n in between
    if (!await([&] { return handed->load() > last; }, kHang)) give_up("sched-handover-blocks", fmt("case %llu: with %lld items waiting for one that runs, handing over another did not return within %d s", (unsigned long long)idx, (long long)last, kHang));
  }
  for (auto& t : ts) t.join();
  if (in->load() && ran->load() && !gate->load()) vh::count("items_run_beside_a_blocked_one");
  *gate = 1;
  for (int64_t last; (last = ran->load()) < (int64_t)n;) {  // progress, however slow, is enough
    if (!await([&] { return ran->load() > last; }, kHang)) {
      size_t lost = 0;
      for (auto& c : *runs) lost += c.load() == 0;
      give_up("sched-lost", fmt("case %llu: of %zu items handed over while another one was running %zu never ran", (unsigned long long)idx, n, lost));
    }
  }
  for (size_t i = 0; i < n; ++i) if ((*runs)[i].load() != 1) { vh::viol("sched-wrong", fmt("case %llu: item %zu of a backlog of %zu ran %lld times", (unsigned long long)idx, i, n, (long long)(*runs)[i].load())); break; }
  vh::count("items_run", n);
  vh::count_max("max_backlog", n);
  vh::evaluated(vh::mix(idx) ^ n, true);
  if (vh::want_sample()) vh::sample(fmt("case %llu: a backlog of %zu items from %d callers", (unsigned long long)idx, n, callers));
}

// Hundreds of started threads alive at once, each waiting for the last of them; scheduled work still runs beside them.
static void crowd_case(Rng& r, uint64_t idx) {
  g_jitter = 0;
  g_spurious = 0;
  size_t n = r.range(60, 400);
  std::vector<Ctr>* runs = new std::vector<Ctr>(n);
  Ctr *gate = new Ctr{0}, *here = new Ctr{0}, *items = new Ctr{0}, *handed = new Ctr{0}, *gone = new Ctr{0};
  Env* env = Env::Default();
  int callers = (int)r.range(1, 4);
  bool inside = r.one_in(2);  // the first caller is itself background work
  auto caller = [=](int t) {
    for (size_t i = (size_t)t; i < n; i += (size_t)callers) {
      env->StartThread([=](void* a) {
        (*runs)[(size_t)(uintptr_t)a]++;
        (*here)++;
        await([=] { return gate->load() != 0; }, 4 * kHang);
        (*gone)++;
      }, (void*)(uintptr_t)i);
      (*handed)++;
    }
  };
  std::vector<std::thread> ts;
  for (int t = 0; t < callers; ++t) {
    if (inside && t == 0) env->Schedule([=](void*) { caller(0); }, nullptr);
    else ts.emplace_back(caller, t);
  }
  for (int64_t last; (last = here->load()) < (int64_t)n;) {
    if (!await([&] { return here->load() > last; }, kHang))
      give_up(handed->load() < (int64_t)n ? "sched-handover-blocks" : "sched-lost", fmt("case %llu: of %zu threads that wait for one another %lld were handed over and only %lld came to run within %d s", (unsigned long long)idx, n, (long long)handed->load(), (long long)last, kHang));
  }
  for (auto& t : ts) t.join();
  env->Schedule([=](void*) { (*items)++; }, nullptr);
  if (!await([&] { return items->load() != 0; }, kHang)) give_up("sched-lost", fmt("an item handed over while %zu started threads wait never ran", n));
  *gate = 1;
  if (!await([&] { return gone->load() == (int64_t)n; }, 2 * kHang)) give_up("sched-lost", "started threads did not go on");
  for (size_t i = 0; i < n; ++i) if ((*runs)[i].load() != 1) { vh::viol("sched-wrong", fmt("case %llu: started thread %zu of %zu ran %lld times", (unsigned long long)idx, i, n, (long long)(*runs)[i].load())); break; }
  vh::count("threads_started", n);
  vh::count_max("max_threads_at_once", n);
  vh::evaluated(vh::mix(idx ^ 0x77) ^ n, true);
}

// The first calls of a process, made by several threads at once.
static void first_case(Rng& r, uint64_t idx) {
  fflush(stdout);
  uint64_t seed = r.next();
  pid_t pid = fork();
  if (pid < 0) vh::broken("fork");
  if (pid == 0) {
    vh::st().out.clear();
    Rng q(seed);
    one_program(q, idx, true);
    fflush(stdout);
    _exit(vh::st().violations ? 3 : 0);
  }
  int st = 0;
  uint64_t t0 = vh::now_ns();
  while (waitpid(pid, &st, WNOHANG) == 0) {
    if (vh::now_ns() - t0 > 3ull * kHang * 1000000000ull) {
      kill(pid, SIGKILL);
      give_up("sched-lost", "a process making its first Schedule calls hung");
    }
    usleep(200);
  }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 66) _exit(66);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 3) { ++vh::st().violations; vh::write_stats(); _exit(3); }
  if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) vh::viol("sched-crash", fmt("a process making its first Schedule calls died (status %d)", st));
  vh::count("fresh_processes");
  vh::evaluated(seed);
}

// ---------------------------------------------------------------- port -----
// Mutual exclusion: plain data only ever touched under the mutex.
struct Guarded { uint64_t a = 0, b = 0; };
static void excl_case(Rng& r, uint64_t idx) {
  g_jseed = (int64_t)r.next();
  g_jitter = r.one_in(2);
  g_spurious = r.one_in(2) ? (int64_t)r.range(2, 9) : 0;
  int n = (int)r.range(2, 6), rounds = (int)r.range(200, 1500);
  Mutex mu, other;
  CondVar cv(&mu);
  Guarded g;
  Ctr inside{0}, overlaps{0}, contended{0}, running{n}, waits{0};
  uint64_t expect = 0;
  std::vector<uint64_t> mine((size_t)n, 0);
  std::vector<std::thread> ts;
  auto enter = [&] { if (++inside != 1) overlaps++; };
  auto leave = [&] { --inside; };
  auto work = [&](int t, Rng& q) {
    uint64_t x = g.a;
    if (g.b != x) overlaps++;
    if (q.one_in(8)) for (volatile int i = 0; i < 50; ++i) {}
    if (q.one_in(64)) sched_yield();
    g.a = x + 1;
    g.b = x + 1;
    mine[t]++;
  };
  for (int t = 0; t < n; ++t) {
    uint64_t seed = r.next();
    ts.emplace_back([&, t, seed] {
      Rng q(seed);
      for (int i = 0; i < rounds; ++i) {
        if (inside.load() > 0) contended++;
        switch (q.below(7)) {
          case 0: case 1: mu.Lock(); mu.AssertHeld(); enter(); work(t, q); leave(); mu.Unlock(); break;
          case 2: { MutexLock l(&mu); enter(); work(t, q); leave(); break; }
          case 3: [&] { MutexLock l(&mu); enter(); work(t, q); leave(); if (q.one_in(2)) return; (void)0; }(); break;
          case 4: try { MutexLock l(&mu); enter(); work(t, q); leave(); throw std::runtime_error("x"); } catch (const std::runtime_error&) {} break;
          case 5: { MutexLock o(&other); for (int k = 0; k < 3; ++k) { MutexLock l(&mu); enter(); work(t, q); leave(); if (q.one_in(3)) break; } break; }
          case 6: {
            // Waiting gives the mutex up and takes it again.
            mu.Lock();
            enter();
            work(t, q);
            if (running.load() > 1 && q.one_in(2)) {
              leave();
              waits++;
              cv.Wait();   // ended by the broadcasts below, or spuriously
              enter();
              work(t, q);
            }
            leave();
            mu.Unlock();
            break;
          }
        }
        if (q.one_in(3)) cv.Signal();
        if (q.one_in(16)) cv.SignalAll();
      }
      running--;
    });
  }
  uint64_t t0 = vh::now_ns();
  while (running.load() > 0) {
    cv.SignalAll();
    usleep(100);
    if (vh::now_ns() - t0 > (uint64_t)kHang * 2000000000ull) give_up("port-hang", fmt("case %llu: %lld of %d threads locking one mutex did not finish", (unsigned long long)idx, (long long)running.load(), n));
  }
  for (auto& t : ts) t.join();
  for (uint64_t m : mine) expect += m;
  if (overlaps.load()) vh::viol("port-exclusion", fmt("case %llu: %lld times two threads were inside one mutex", (unsigned long long)idx, (long long)overlaps.load()));
  if (g.a != expect || g.b != expect) vh::viol("port-exclusion", fmt("case %llu: %llu increments under the mutex left %llu/%llu", (unsigned long long)idx, (unsigned long long)expect, (unsigned long long)g.a, (unsigned long long)g.b));
  vh::count("critical_sections", expect);
  vh::count("entries_begun_while_held", (uint64_t)contended.load());
  vh::count("waits", (uint64_t)waits.load());
  vh::evaluated(vh::mix(idx) ^ expect ^ (uint64_t)contended.load() << 20, contended.load() > 0);
  if (vh::want_sample()) vh::sample(fmt("case %llu: %d threads, %llu critical sections, %lld begun while held", (unsigned long long)idx, n, (unsigned long long)expect, (long long)contended.load()));
}

// Bounded buffer: every token passes exactly once, nobody is left waiting.
static void queue_case(Rng& r, uint64_t idx) {
  g_jseed = (int64_t)r.next();
  g_jitter = r.one_in(2);
  g_spurious = r.one_in(3) ? (int64_t)r.range(2, 9) : 0;
  int np = (int)r.range(1, 4), nc = (int)r.range(1, 4), per = (int)r.range(50, 600);
  size_t cap = r.range(1, 4);
  bool all = r.one_in(3);
  // One condition variable for both sides needs broadcasts.
  bool one_cv = all && r.one_in(2);
  Mutex mu;
  CondVar c1(&mu), c2(&mu);
  CondVar &not_full = c1, &not_empty = one_cv ? c1 : c2;
  std::vector<int> buf;
  int left = np * per, made = 0;
  std::vector<int> got((size_t)left, 0);
  Ctr inside{0}, overlaps{0}, waits{0}, running{np + nc};
  std::vector<std::thread> ts;
  auto wake = [&](CondVar& c) { if (all) c.SignalAll(); else c.Signal(); };
  for (int p = 0; p < np; ++p)
    ts.emplace_back([&, p] {
      for (int i = 0; i < per; ++i) {
        mu.Lock();
        if (++inside != 1) overlaps++;
        while (buf.size() >= cap) { --inside; waits++; not_full.Wait(); if (++inside != 1) overlaps++; }
        buf.push_back(p * per + i);
        ++made;
        wake(not_empty);
        --inside;
        mu.Unlock();
      }
      running--;
    });
  for (int c = 0; c < nc; ++c)
    ts.emplace_back([&] {
      for (;;) {
        MutexLock l(&mu);
        if (++inside != 1) overlaps++;
        while (buf.empty() && left > 0) { --inside; waits++; not_empty.Wait(); if (++inside != 1) overlaps++; }
        if (left == 0) { not_empty.SignalAll(); --inside; break; }
        int x = buf.back();
        buf.pop_back();
        got[x]++;
        if (--left == 0) not_empty.SignalAll();
        wake(not_full);
        --inside;
      }
      running--;
    });
  if (!await([&] { return running.load() == 0; }, kHang)) give_up("port-hang", fmt("case %llu: a producer/consumer program (%d producers, %d consumers, capacity %zu%s) hangs", (unsigned long long)idx, np, nc, cap, all ? ", broadcasts" : ""));
  for (auto& t : ts) t.join();
  if (overlaps.load()) vh::viol("port-exclusion", fmt("case %llu: %lld times two threads were inside one mutex around a wait", (unsigned long long)idx, (long long)overlaps.load()));
  for (int x : got) if (x != 1) { vh::viol("port-exclusion", fmt("case %llu: a token passed %d times", (unsigned long long)idx, x)); break; }
  vh::count("tokens", got.size());
  vh::count("waits", (uint64_t)waits.load());
  vh::evaluated(vh::mix(idx) ^ (uint64_t)waits.load(), waits.load() > 0);
  if (vh::want_sample()) vh::sample(fmt("case %llu: %d producers, %d consumers, capacity %zu%s: %zu tokens, %lld waits", (unsigned long long)idx, np, nc, cap, all ? ", broadcasts" : "", got.size(), (long long)waits.load()));
}

// Waiters known to be waiting; each signal must wake one, a broadcast all.
static void wake_case(Rng& r, uint64_t idx) {
  g_jseed = (int64_t)r.next();
  g_jitter = r.one_in(2);
  g_spurious = 0;
  bool many = r.one_in(25);
  int n = many ? (int)r.range(17, 200) : (int)r.range(1, 8), rounds = many ? (int)r.range(2, 4) : (int)r.range(3, 25);
  Mutex mu;
  CondVar cv(&mu);
  int waiting = 0, gen = 0, go = 0, quit = 0, inside = 0, woken = 0;
  bool bad = false;
  Ctr running{n}, at{0};
  std::vector<std::thread> ts;
  for (int t = 0; t < n; ++t)
    ts.emplace_back([&] {
      mu.Lock();
      while (!quit) {
        ++waiting;
        at++;
        int g = gen;
        (void)g;
        cv.Wait();        // returns when signalled (or spuriously)
        if (inside != 0) bad = true;
        inside = 1;
        ++woken;
        --waiting;
        at--;
        if (go % 3 == 1) sched_yield();
        inside = 0;
        // Come back only when the round is over.
        int my = gen;
        while (gen == my && !quit) { mu.Unlock(); if (many) usleep(200); else sched_yield(); mu.Lock(); }
      }
      mu.Unlock();
      running--;
    });
  uint64_t signals = 0, broadcasts = 0;
  for (int k = 0; k < rounds; ++k) {
    if (!await([&] { mu.Lock(); bool ok = waiting == n; mu.Unlock(); return ok; }, kHang)) give_up("port-hang", fmt("case %llu: a waiter did not come back", (unsigned long long)idx));
    mu.Lock();
    // All n are inside Wait: they counted themselves under this mutex.
    woken = 0;
    go++;
    int s = r.one_in(3) ? n : (int)r.range(1, n);
    bool all = s == n && r.one_in(2);
    bool held = r.one_in(2);
    if (!held) mu.Unlock();
    if (all) { cv.SignalAll(); ++broadcasts; }
    else for (int i = 0; i < s; ++i) { cv.Signal(); ++signals; }
    if (held) mu.Unlock();
    if (!await([&] { mu.Lock(); bool ok = woken >= s; mu.Unlock(); return ok; }, kHang)) {
      mu.Lock();
      give_up("port-wakeup", all ? fmt("case %llu: a broadcast to %d waiting threads woke %d", (unsigned long long)idx, n, woken) : fmt("case %llu: %d signals to %d waiting threads woke %d", (unsigned long long)idx, s, n, woken));
    }
    mu.Lock();
    gen++;
    mu.Unlock();
  }
  mu.Lock();
  quit = 1;
  mu.Unlock();
  if (!await([&] { cv.SignalAll(); return running.load() == 0; }, kHang)) give_up("port-hang", "waiters did not end");
  for (auto& t : ts) t.join();
  if (bad) vh::viol("port-exclusion", fmt("case %llu: a wait returned without holding the mutex", (unsigned long long)idx));
  vh::count_max("max_waiters", (uint64_t)n);
  vh::count("signals_to_known_waiters", signals);
  vh::count("broadcasts_to_known_waiters", broadcasts);
  vh::evaluated(vh::mix(idx) ^ signals, n > 1);
  if (vh::want_sample()) vh::sample(fmt("case %llu: %d waiters, %llu signals, %llu broadcasts", (unsigned long long)idx, n, (unsigned long long)signals, (unsigned long long)broadcasts));
}

int main(int argc, char** argv) {
  vh::parse(argc, argv);
  std::string m = vh::st().mode;
  if (m == "sched") vh::run_cases(sched_case);
  else if (m == "flood") vh::run_cases(flood_case);
  else if (m == "crowd") vh::run_cases(crowd_case);
  else if (m == "first") vh::run_cases(first_case);
  else if (m == "excl") vh::run_cases(excl_case);
  else if (m == "queue") vh::run_cases(queue_case);
  else if (m == "wake") vh::run_cases(wake_case);
  else vh::broken("unknown mode " + m);
  return vh::finish();
}
