// Costs, counted deterministically: basic blocks run (gcc's trace-pc), bytes
// moved and compared, allocations, key comparisons, system calls.  No clock.
#include <malloc.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <cmath>
#include <memory>

#include "db/skiplist.h"
#include "helpers/memenv/memenv.h"
#include "lsmdb/cache.h"
#include "lsmdb/env.h"
#include "lsmdb/slice.h"
#include "lsmdb/status.h"
#include "posixcfg.h"
#include "sysx.h"
#include "util/arena.h"
#include "util/coding.h"
#include "util/hash.h"
#include "util/logging.h"
#include "vh.h"

using namespace lsmdb;
using vh::fmt;
using vh::Rng;

#define NOCOV __attribute__((no_sanitize_coverage))
static uint64_t g_cost;     // single-threaded harness
static bool g_counting;
extern "C" {
NOCOV void __sanitizer_cov_trace_pc() { g_cost += 1; }
NOCOV void* memcpy(void* d, const void* s, size_t n) {
  if (g_counting) g_cost += n / 16;
  void* r = d;
  __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
  return r;
}
NOCOV void* memmove(void* d, const void* s, size_t n) {
  if (g_counting) g_cost += n / 16;
  void* r = d;
  if ((uintptr_t)d - (uintptr_t)s >= n) {
    __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
  } else {
    char* e = (char*)d + n - 1;
    const char* f = (const char*)s + n - 1;
    __asm__ volatile("std\n\trep movsb\n\tcld" : "+D"(e), "+S"(f), "+c"(n) : : "memory");
  }
  return r;
}
NOCOV void* memset(void* d, int v, size_t n) {
  if (g_counting) g_cost += n / 16;
  void* r = d;
  __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(v) : "memory");
  return r;
}
NOCOV int memcmp(const void* a, const void* b, size_t n) {
  const unsigned char *x = (const unsigned char*)a, *y = (const unsigned char*)b;
  size_t i = 0;
  int r = 0;
  for (; i < n; ++i) if (x[i] != y[i]) { r = x[i] < y[i] ? -1 : 1; break; }
  if (g_counting) g_cost += i / 16;
  return r;
}
}
// Every heap block counts, for the cost and for the memory in use.
static std::atomic<int64_t> g_live{0};
extern "C" {
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
void __libc_free(void*);
static NOCOV void* took(void* p) {
  g_cost += 20;
  if (p) g_live.fetch_add((int64_t)malloc_usable_size(p) + 16, std::memory_order_relaxed);
  return p;
}
static NOCOV void gave(void* p) {
  g_cost += 10;
  if (p) g_live.fetch_sub((int64_t)malloc_usable_size(p) + 16, std::memory_order_relaxed);
}
NOCOV void* malloc(size_t n) { return took(__libc_malloc(n)); }
NOCOV void* calloc(size_t k, size_t n) { return took(__libc_calloc(k, n)); }
NOCOV void* realloc(void* p, size_t n) {
  gave(p);
  void* r = __libc_realloc(p, n);
  return r || n == 0 ? took(r) : (took(p), r);
}
NOCOV void* memalign(size_t a, size_t n) { return took(__libc_memalign(a, n)); }
NOCOV void* aligned_alloc(size_t a, size_t n) { return took(__libc_memalign(a, n)); }
NOCOV int posix_memalign(void** p, size_t a, size_t n) {
  void* r = took(__libc_memalign(a, n));
  if (!r) return ENOMEM;
  *p = r;
  return 0;
}
NOCOV void free(void* p) { gave(p); __libc_free(p); }
}

// The average cost of k calls of f(i).
template <class F>
static double cost(size_t k, F f) {
  g_cost = 0;
  g_counting = true;
  for (size_t i = 0; i < k; ++i) f(i);
  g_counting = false;
  return (double)g_cost / (double)k;
}
// One kind of operation measured at growing sizes: the first is the yardstick.
struct Meter {
  std::string what, unit;
  double first = -1, worst = 0;
  size_t at = 0;
  bool add(size_t n, double c) {
    vh::count("measurements");
    if (first < 0) { first = c; at = n; return true; }
    if (c > worst) worst = c;
    vh::count_max("max_percent_of_a_bound", (uint64_t)(100 * c / (4 * first + 100)));
    if (c <= 4 * first + 100) return true;
    vh::viol_once("cost-grows", fmt("%s: %.0f steps per %s at size %zu, %.0f at size %zu", what.c_str(), first, unit.c_str(), at, c, n));
    return false;
  }
};
struct Meters {
  std::map<std::string, Meter> m;
  bool add(const char* what, size_t n, double c, const char* unit = "operation") {
    Meter& x = m[what];
    x.what = what;
    x.unit = unit;
    return x.add(n, c);
  }
};

// ------------------------------------------------------------- skip list ----
static uint64_t g_cmp;
struct Cmp {
  int operator()(const uint64_t& a, const uint64_t& b) const { ++g_cmp; return a < b ? -1 : a > b; }
};
typedef SkipList<uint64_t, Cmp> List;
static void list_case(Rng& r, uint64_t idx) {
  Arena arena;
  List list(Cmp(), &arena);
  int pattern = (int)(idx % 5);
  uint64_t salt = r.next();
  size_t most = idx % 8 == 0 ? (size_t)1 << 20 : (size_t)1 << 17;
  auto key = [&](size_t i) -> uint64_t {
    switch (pattern) {
      case 0: return vh::mix(salt + i);
      case 1: return i * 8 + 8;
      case 2: return ((uint64_t)1 << 40) - i * 8;
      case 3: return (i % 2 ? ((uint64_t)1 << 40) - i : ((uint64_t)1 << 40) + i) * 8;
      default: return (i % 64 << 40) + (i / 64) * 8 + 8;
    }
  };
  static const char* names[] = {"random", "ascending", "descending", "outward", "64 ascending runs"};
  size_t done = 0;
  double last_search = 0;
  uint64_t ops = 0;
  for (size_t n = 256; n <= most; n *= 4) {
    size_t k = std::min<size_t>(n / 4, 2000);
    // A budget for the growth itself, so that a linear insert is not waited for.
    double limit = 8 * log2((double)n) + 40;
    auto judge = [&](const char* what, uint64_t cmps, size_t m) {
      ops += m;
      double avg = (double)cmps / (double)m;
      vh::count("measurements");
      if (avg > limit) {
        vh::viol_once("cost-search", fmt("skip list of %zu keys (%s): %s compares %.0f keys on average", n, names[pattern], what, avg));
        return false;
      }
      last_search = avg;
      return true;
    };
    while (done < n) {
      size_t step = std::min<size_t>(n - done, 1000), before = done;
      g_cmp = 0;
      for (; done < before + step; ++done) list.Insert(key(done));
      if (!judge("Insert", g_cmp, step)) return;
    }
    g_cmp = 0;
    for (size_t i = 0; i < k; ++i) if (!list.Contains(key(r.below(n)))) vh::broken("key lost");
    if (!judge("Contains of a key that is there", g_cmp, k)) return;
    g_cmp = 0;
    for (size_t i = 0; i < k; ++i) list.Contains(key(r.below(n)) + 1 + r.below(3));
    if (!judge("Contains of a key that is not there", g_cmp, k)) return;
    List::Iterator it(&list);
    g_cmp = 0;
    for (size_t i = 0; i < k; ++i) it.Seek(key(r.below(n)) + r.below(3));
    if (!judge("Seek", g_cmp, k)) return;
    g_cmp = 0;
    for (size_t i = 0; i < k; ++i) it.SeekToLast();
    if (!judge("SeekToLast", g_cmp, k)) return;
    g_cmp = 0;
    for (size_t i = 0; i < k && it.Valid(); ++i) it.Prev();
    if (!judge("Prev", g_cmp, k)) return;
    it.SeekToFirst();
    g_cmp = 0;
    double c = cost(k, [&](size_t) { if (it.Valid()) it.Next(); });
    if (g_cmp > k || c > 200) { vh::viol_once("cost-step", fmt("skip list of %zu keys (%s): Next takes %.0f steps and %.1f comparisons on average", n, names[pattern], c, (double)g_cmp / (double)k)); return; }
    c = cost(k, [&](size_t) { it.SeekToFirst(); });
    if (c > 400) { vh::viol_once("cost-step", fmt("skip list of %zu keys (%s): SeekToFirst takes %.0f steps", n, names[pattern], c)); return; }
  }
  vh::count("operations_measured", ops);
  vh::count_max("max_keys_in_a_list", done);
  vh::evaluated(salt ^ idx);
  if (vh::want_sample()) vh::sample(fmt("case %llu: %zu keys, %s: Prev compares %.1f keys on average", (unsigned long long)idx, done, names[pattern], last_search));
}

// ----------------------------------------------------------------- cache ----
static void nop(const Slice&, void*) {}
static std::string ckey(uint64_t salt, uint64_t i) {
  uint64_t a[2] = {vh::mix(salt + i), i};
  return std::string((const char*)a, 16);
}
static void cache_case(Rng& r, uint64_t idx) {
  Meters m;
  uint64_t salt = r.next(), ops = 0;
  std::vector<std::string> keys;
  bool ok = true;
  for (size_t n = 512; n <= ((size_t)1 << (idx % 4 ? 15 : 17)) && ok; n *= 4) {
    while (keys.size() < 2 * n) keys.push_back(ckey(salt, keys.size()));
    auto roomy = NewLRUCache(n * 4);
    // In slices, so that a cost that grows within one run is seen before it is paid in full.
    for (size_t b = 0; b < n && ok; b += n / 8)
      ok = m.add("cache Insert while there is room", b + n / 8, cost(n / 8, [&](size_t i) { roomy->Release(roomy->Insert(keys[b + i], nullptr, 1, nop)); }));
    if (!ok) break;
    size_t k = std::min<size_t>(n, 4000);
    size_t s = r.next() | 1;
    ok = m.add("cache Lookup that hits", n, cost(k, [&](size_t i) { auto h = roomy->Lookup(keys[(i * s) % n]); if (h) roomy->Release(h); })) &&
         m.add("cache Lookup that misses", n, cost(k, [&](size_t i) { roomy->Lookup(keys[n + (i * s) % n]); })) &&
         m.add("cache TotalCharge", n, cost(64, [&](size_t) { roomy->TotalCharge(); })) &&
         m.add("cache NewId", n, cost(64, [&](size_t) { roomy->NewId(); })) &&
         m.add("cache Insert over an entry", n, cost(k, [&](size_t i) { roomy->Release(roomy->Insert(keys[(i * s) % n], nullptr, 1, nop)); }));
    if (!ok) break;
    // With many entries pinned, the others come and go at the same cost.
    {
      std::vector<Cache::Handle*> held(n);
      auto c = NewLRUCache(n + n / 4);
      for (size_t i = 0; i < n; ++i) held[i] = c->Insert(keys[i], nullptr, 1, nop);
      ok = m.add("cache Insert beside many pinned entries", n, cost(k, [&](size_t i) { c->Release(c->Insert(keys[n + i % n], nullptr, 1, nop)); })) &&
           m.add("cache Release of a pinned entry", n, cost(n, [&](size_t i) { c->Release(held[n - 1 - i]); }));
      if (!ok) break;
      ok = m.add("cache Insert that evicts", n, cost(k, [&](size_t i) { c->Release(c->Insert(keys[n + i % n], nullptr, 1, nop)); })) &&
           m.add("cache Erase", n, cost(k, [&](size_t i) { c->Erase(keys[(i * s) % (2 * n)]); })) &&
           m.add("cache Prune per entry", n, cost(1, [&](size_t) { c->Prune(); }) / (double)n, "entry");
      if (!ok) break;
    }
    ok = m.add("cache destruction per entry", n, cost(1, [&](size_t) { roomy.reset(); }) / (double)n, "entry");
    ops += 6 * k + 4 * n;
  }
  vh::count("operations_measured", ops);
  vh::count_max("max_entries_in_a_cache", keys.size() / 2);
  vh::evaluated(salt ^ idx);
  if (vh::want_sample()) { Meter& x = m.m["cache Lookup that hits"]; vh::sample(fmt("case %llu: a hit takes %.1f steps with 512 entries, at most %.1f up to %zu", (unsigned long long)idx, x.first, x.worst, keys.size() / 2)); }
}

// ----------------------------------------------------------------- arena ----
static void arena_case(Rng& r, uint64_t idx) {
  Meters m;
  uint64_t salt = r.next();
  std::unique_ptr<Arena> a(new Arena);
  size_t style = idx % 4, n = 0;
  bool ok = true;
  for (size_t want = 512; want <= ((size_t)1 << 18) && ok; want *= 4) {
    size_t k = want - n;
    n = want;
    ok = m.add("arena allocation", n, cost(k, [&](size_t i) {
           uint64_t x = vh::mix(salt + n + i);
           size_t sz = 1 + x % (style == 0 ? 64 : style == 1 ? 1024 : style == 2 ? 4096 : x % 16 ? 32 : 8192);
           char* p = x >> 40 & 1 ? a->Allocate(sz) : a->AllocateAligned(sz);
           p[0] = 1;
         })) &&
         m.add("arena MemoryUsage", n, cost(16, [&](size_t) { a->MemoryUsage(); }));
  }
  if (ok) m.add("arena destruction per allocation", n, cost(1, [&](size_t) { a.reset(); }) / (double)n);
  vh::count("operations_measured", n);
  vh::evaluated(salt ^ idx);
}

// ------------------------------------------------------------- in memory ----
static void mem_case(Rng& r, uint64_t idx) {
  Meters m;
  std::unique_ptr<Env> env(NewMemEnv(Env::Default()));
  uint64_t salt = r.next(), ops = 0;
  size_t piece = idx % 3 == 0 ? 64 : idx % 3 == 1 ? 1000 : 8192;
  std::string d(piece, 'x');
  std::vector<char> b(piece);
  bool ok = true;
  {
    WritableFile* w = nullptr;
    RandomAccessFile* f = nullptr;
    if (!env->NewWritableFile("/f", &w).ok() || !env->NewRandomAccessFile("/f", &f).ok()) vh::broken("open");
    size_t n = 0;
    for (size_t want = 256; want * piece <= ((size_t)(idx % 6 == 5 ? 160 : 32) << 20) && want <= 65536 && ok; want *= 4) {
      size_t k = want - n, q = std::min<size_t>(k, 2000);
      n = want;
      Slice res;
      ok = m.add("in-memory Append", n, cost(k, [&](size_t) { w->Append(d); })) &&
           m.add("in-memory random read", n, cost(q, [&](size_t i) { f->Read(vh::mix(salt + i) % (n * piece - piece), piece, &res, b.data()); })) &&
           m.add("in-memory GetFileSize", n, cost(64, [&](size_t) { uint64_t z; env->GetFileSize("/f", &z); }));
      SequentialFile* s = nullptr;
      if (!env->NewSequentialFile("/f", &s).ok()) vh::broken("open");
      ok = ok && m.add("in-memory sequential read", n, cost(n / 2, [&](size_t) { s->Read(piece, &res, b.data()); })) &&
           m.add("in-memory Skip", n, cost(n / 4, [&](size_t) { s->Skip(piece); }));
      delete s;
      ops += n;
    }
    delete w;
    delete f;
  }
  // Many names.
  size_t n = 0;
  std::vector<std::string> names;
  for (size_t want = 64; want <= 16384 && ok; want *= 4) {
    while (names.size() < want) names.push_back("/d/" + std::to_string(vh::mix(salt + names.size())));
    size_t k = want - n, from = n;
    n = want;
    ok = m.add("in-memory creation among many names", n, cost(k, [&](size_t i) { WritableFile* w; if (env->NewWritableFile(names[from + i], &w).ok()) delete w; })) &&
         m.add("in-memory FileExists among many names", n, cost(64, [&](size_t i) { env->FileExists(names[i]); env->FileExists(names[i] + "x"); })) &&
         m.add("in-memory open among many names", n, cost(64, [&](size_t i) { SequentialFile* s; if (env->NewSequentialFile(names[i], &s).ok()) delete s; })) &&
         m.add("in-memory rename among many names", n, cost(32, [&](size_t i) { env->RenameFile(names[i], names[i] + "r"); env->RenameFile(names[i] + "r", names[i]); })) &&
         m.add("in-memory listing per name", n, cost(1, [&](size_t) { std::vector<std::string> v; env->GetChildren("/d", &v); }) / (double)n, "name");
    ops += k;
  }
  if (ok) m.add("in-memory removal among many names", n, cost(n, [&](size_t i) { env->RemoveFile(names[i]); }));
  vh::count("operations_measured", ops);
  vh::evaluated(salt ^ idx);
  if (vh::want_sample()) { Meter& x = m.m["in-memory random read"]; vh::sample(fmt("case %llu: a read of %zu bytes takes %.1f steps in a small file, at most %.1f in larger ones", (unsigned long long)idx, piece, x.first, x.worst)); }
}

// ---------------------------------------------------------------- values ----
static void value_case(Rng& r, uint64_t idx) {
  Meters m;
  uint64_t salt = r.next();
  bool ok = true;
  for (size_t n = 1024; n <= ((size_t)1 << 20) && ok; n *= 4) {
    std::string s = idx % 3 == 0 ? std::string(n, 'a') : idx % 3 == 1 ? r.bytes(n) : std::string(n, '\0');
    std::string t = s, digits(n, '0');
    double per = (double)n / 256;  // per 256 bytes
    volatile uint32_t sink = 0;
    (void)sink;
    ok = m.add("Hash", n, cost(1, [&](size_t) { sink = Hash(s.data(), s.size(), 1); }) / per, "256 bytes") &&
         m.add("EscapeString", n, cost(1, [&](size_t) { EscapeString(s); }) / per, "256 bytes") &&
         m.add("Slice comparison", n, cost(1, [&](size_t) { sink = (uint32_t)Slice(s).compare(Slice(t)); }) / per, "256 bytes") &&
         m.add("parsing digits", n, cost(1, [&](size_t) { Slice in(digits); uint64_t v; ConsumeDecimalNumber(&in, &v); }) / per, "256 bytes") &&
         m.add("Status creation and text", n, cost(1, [&](size_t) { Status a = Status::IOError(s, t); Status b(a); b = a; b.ToString(); }) / per, "256 bytes") &&
         m.add("Slice operations", n, cost(64, [&](size_t i) { Slice a(s); a.remove_prefix(i); sink = (uint32_t)a.starts_with("aaa"); a.clear(); })) &&
         m.add("moving a Status", n, [&] { Status a = Status::IOError(s), b; return cost(64, [&](size_t) { b = std::move(a); a = std::move(b); }); }());
    if (!ok) break;
    // A buffer that grows by encodings: its size must not matter.
    std::string buf;
    size_t k = n / 8;
    ok = m.add("PutVarint and PutFixed", n, cost(k, [&](size_t i) { PutVarint64(&buf, vh::mix(salt + i)); PutVarint32(&buf, (uint32_t)i); PutFixed32(&buf, (uint32_t)i); PutFixed64(&buf, i); }));
    Slice in(buf);
    ok = ok && m.add("decoding", n, cost(k, [&](size_t) { uint64_t a; uint32_t b; GetVarint64(&in, &a); GetVarint32(&in, &b); in.remove_prefix(12); }));
    std::string list;
    ok = ok && m.add("PutLengthPrefixedSlice", n, cost(k, [&](size_t) { PutLengthPrefixedSlice(&list, Slice("twenty bytes of text", 20)); }));
    Slice lin(list), one;
    ok = ok && m.add("GetLengthPrefixedSlice", n, cost(k, [&](size_t) { GetLengthPrefixedSlice(&lin, &one); }));
    std::string whole;
    PutLengthPrefixedSlice(&whole, s);
    ok = ok && m.add("GetLengthPrefixedSlice of one long string", n, cost(16, [&](size_t) { Slice w(whole); GetLengthPrefixedSlice(&w, &one); }));
    vh::count("operations_measured", 4 * k);
  }
  vh::evaluated(salt ^ idx);
}

// ---------------------------------------------------------- system calls ----
static std::map<std::string, uint64_t> g_calls;
static uint64_t g_ncalls;
static void count_hook(sysx::Call& c, bool after) {
  if (after) return;
  ++g_calls[c.name];
  ++g_ncalls;
}
static void sys_case(Rng& r, uint64_t idx) {
  Env* env = Env::Default();
  std::string dir = vh::fresh_dir(fmt("sys%llu", (unsigned long long)idx));
  sysx::g_hook = count_hook;
  auto calls = [&](const char* what, uint64_t limit) {
    vh::count("measurements");
    if (g_ncalls > limit) {
      std::string l;
      for (auto& k : g_calls) l += fmt(" %s:%llu", k.first.c_str(), (unsigned long long)k.second);
      vh::viol_once("cost-calls", fmt("%s: %llu system calls, at most %llu expected (%s)", what, (unsigned long long)g_ncalls, (unsigned long long)limit, l.c_str()));
    }
  };
  auto begin = [&] { g_calls.clear(); g_ncalls = 0; };
#define TR(x) [&] { sysx::Traced t; x; }()
  std::string f = dir + (r.one_in(3) ? "/MANIFEST-000001" : "/000001.log");
  bool manifest = f.find("MANIFEST") != std::string::npos;
  // A writer: small appends are collected.
  WritableFile* w = nullptr;
  Status s;
  begin();
  TR(s = env->NewWritableFile(f, &w));
  calls("NewWritableFile", 8);
  if (!s.ok()) vh::broken("open");
  uint64_t bytes = 0, explicit_ = 0, large = 0, n = r.range(1000, 20000), writes = 0, all = 0;
  int style = (int)r.below(3);
  for (uint64_t i = 0; i < n; ++i) {
    size_t sz = style == 0 ? r.below(100) : style == 1 ? r.below(3000) : r.one_in(200) ? r.below(300000) : r.below(200);
    std::string d(sz, (char)('a' + i % 26));
    begin();
    TR(s = w->Append(d));
    if (!s.ok()) vh::broken("append");
    calls("one Append", 4 + sz / 16384);
    writes += g_calls["write"], all += g_ncalls;
    if (sz >= 16384) large += 2;
    bytes += sz;
    if (r.one_in(1000)) {
      begin();
      if (r.one_in(2)) { TR(s = w->Flush()); calls("Flush", 4 + 65536 / 4096); } else { TR(s = w->Sync()); calls("Sync", 12 + 65536 / 4096); }
      writes += g_calls["write"], all += g_ncalls;
      explicit_ += 2;
      if (!s.ok()) vh::broken("sync");
    }
  }
  begin();
  TR(s = w->Close());
  calls("Close", 4 + 65536 / 4096);
  writes += g_calls["write"];
  delete w;
  uint64_t limit = bytes / 4096 + explicit_ + large + 4;
  vh::count("measurements");
  if (writes > limit)
    vh::viol_once("cost-writes", fmt("%llu appends of %llu bytes in all, %llu flushes or syncs: %llu write calls, at most %llu expected", (unsigned long long)n, (unsigned long long)bytes, (unsigned long long)explicit_ / 2, (unsigned long long)writes, (unsigned long long)limit));
  (void)manifest;
  vh::count("appends_measured", n);
  vh::count("write_calls_seen", writes);
  // Readers.
  size_t q = r.range(1, 20000);
  std::vector<char> b(q);
  Slice res;
  SequentialFile* sf = nullptr;
  begin();
  TR(s = env->NewSequentialFile(f, &sf));
  calls("NewSequentialFile", 8);
  for (int i = 0; i < 50; ++i) {
    begin();
    if (i % 5 == 4) { TR(s = sf->Skip(q)); calls("Skip", 8); } else { TR(s = sf->Read(q, &res, b.data())); calls("one sequential Read", 4 + q / 4096); }
  }
  TR(delete sf);
  RandomAccessFile* rf = nullptr;
  begin();
  TR(s = env->NewRandomAccessFile(f, &rf));
  calls("NewRandomAccessFile", 12);
  if (s.ok()) {
    for (int i = 0; i < 50; ++i) { begin(); TR(s = rf->Read(r.below(bytes + 1), q, &res, b.data())); calls("one random Read", 6 + q / 4096); }
    TR(delete rf);
  }
  std::string whole;
  begin();
  TR(s = ReadFileToString(env, f, &whole));
  if (!s.ok() || whole.size() != bytes) vh::broken("whole read");
  calls("ReadFileToString", bytes / 1024 + 12);
  begin();
  TR(s = WriteStringToFile(env, whole, dir + "/copy"));
  calls("WriteStringToFile", bytes / 16384 + 16);
  // Names.
  size_t many = r.range(10, 300);
  for (size_t i = 0; i < many; ++i) sysx::spit(dir + "/n" + std::to_string(i), "");
  std::vector<std::string> v;
  begin();
  TR(s = env->GetChildren(dir, &v));
  calls("GetChildren", 2 * many + 24);
  uint64_t z;
  begin(); TR(env->FileExists(f)); calls("FileExists", 4);
  begin(); TR(env->GetFileSize(f, &z)); calls("GetFileSize", 6);
  begin(); TR(env->RenameFile(dir + "/copy", dir + "/copy2")); calls("RenameFile", 8);
  begin(); TR(env->RemoveFile(dir + "/copy2")); calls("RemoveFile", 6);
  begin(); TR(env->CreateDir(dir + "/sub")); calls("CreateDir", 6);
  begin(); TR(env->RemoveDir(dir + "/sub")); calls("RemoveDir", 6);
  std::vector<FileLock*> locks;
  for (size_t i = 0; i < many; ++i) {
    FileLock* l = nullptr;
    begin();
    TR(s = env->LockFile(dir + "/n" + std::to_string(i), &l));
    calls("LockFile", 8);
    if (s.ok()) locks.push_back(l);
  }
  for (auto l : locks) { begin(); TR(env->UnlockFile(l)); calls("UnlockFile", 8); }
  sysx::g_hook = nullptr;
  vh::rm_tree(dir);
  vh::evaluated(vh::mix(bytes) ^ n ^ idx);
  if (vh::want_sample()) vh::sample(fmt("case %llu: %llu appends of %llu bytes, %llu flushes or syncs: %llu write calls", (unsigned long long)idx, (unsigned long long)n, (unsigned long long)bytes, (unsigned long long)explicit_ / 2, (unsigned long long)writes));
}

// ----------------------------------------------------------------- space ----
// Memory in use above where it stood at the beginning.
struct Space {
  int64_t base = g_live.load();
  bool ok = true;
  int64_t now() const { return g_live.load() - base; }
  bool within(const char* what, double limit) {
    vh::count("measurements");
    int64_t n = now();
    vh::count_max("max_bytes_seen", n > 0 ? (uint64_t)n : 0);
    vh::count_max("max_percent_of_a_bound", n > 0 ? (uint64_t)(100 * (double)n / limit) : 0);
    if ((double)n <= limit) return true;
    if (ok) vh::viol_once("space-grows", fmt("%s: %lld bytes in use, at most %.0f expected", what, (long long)n, limit));
    return ok = false;
  }
};
static const double kRoom = 256 * 1024;
// Many operations on a cache whose contents stay bounded.
static void space_cache(Rng& r, uint64_t idx) {
  Space sp;
  uint64_t salt = r.next(), next = 0, ops = 0;
  size_t cap = (size_t)1 << r.range(4, 13), ksize = r.range(1, 200);
  {
    auto c = NewLRUCache(cap);
    auto key = [&](uint64_t i) { std::string k = ckey(salt, i); k.resize(std::max<size_t>(ksize, 9), 'k'); return k; };
    std::vector<Cache::Handle*> held;
    size_t peak = 0;
    int style = (int)r.below(4);
    for (uint64_t n = 0; n < 150 * cap + 20000; ++n, ++ops) {
      switch (style == 3 ? r.below(3) : style) {
        case 0: c->Release(c->Insert(key(next++), nullptr, 1, nop)); break;
        case 1: { std::string k = key(r.below(2 * cap)); c->Release(c->Insert(k, nullptr, r.below(3), nop)); break; }
        default:
          held.push_back(c->Insert(key(next++ % (4 * cap)), nullptr, 1, nop));
          if (held.size() > cap) { c->Release(held.back()); held.pop_back(); c->Erase(key(r.below(4 * cap))); size_t i = r.below(held.size()); c->Release(held[i]); held[i] = held.back(); held.pop_back(); }
      }
      if (r.one_in(50)) if (auto h = c->Lookup(key(r.below(4 * cap)))) c->Release(h);
      if (r.one_in(5000)) c->Prune();
      // Entries without charge may stay, but only as many as there are keys.
      peak = (style == 0 ? 1 : style == 3 ? 4 : 2) * cap + 64;
      if (n % 1024 == 0 && !sp.within(fmt("a cache of capacity %zu, keys of %zu bytes, after %llu operations", cap, ksize, (unsigned long long)n).c_str(), (double)peak * ((double)std::max<size_t>(ksize, 9) + 300) + kRoom / 2)) break;
    }
    for (auto h : held) c->Release(h);
    held = std::vector<Cache::Handle*>();
  }
  sp.within("after the cache was destroyed", kRoom);
  vh::count("operations_measured", ops);
  vh::evaluated(salt ^ idx);
  if (vh::want_sample()) vh::sample(fmt("case %llu: %llu operations on a cache of capacity %zu with keys of %zu bytes", (unsigned long long)idx, (unsigned long long)ops, cap, ksize));
}
static void space_mem(Rng& r, uint64_t idx) {
  Space sp;
  uint64_t ops = 0;
  std::unique_ptr<Env> env(NewMemEnv(Env::Default()));
  // The model: content sizes by name; deleted files count while handles are open (none is kept here).
  std::map<std::string, uint64_t> files, peak;  // peak: the most the file of that name has held
  uint64_t total = 0, peaks = 0;
  size_t names = r.range(1, 40), rounds = 12000;
  const std::string pre = "/d/" + std::string(r.below(200), 'n');
  std::string last;
  uint64_t big = r.one_in(3) ? 2000000 : 40000;
  for (size_t i = 0; i < rounds && sp.ok; ++i, ++ops) {
    std::string f = pre + std::to_string(r.below(names));
    auto set = [](std::map<std::string, uint64_t>& m, uint64_t& sum, const std::string& n, uint64_t z) { sum -= m.count(n) ? m[n] : 0; m[n] = z; sum += z; };
    auto size_to = [&](const std::string& n, uint64_t z) { set(files, total, n, z); set(peak, peaks, n, std::max(z, peak.count(n) ? peak[n] : 0)); };
    auto gone = [&](const std::string& n) { set(files, total, n, 0); files.erase(n); set(peak, peaks, n, 0); peak.erase(n); };
    switch (r.below(8)) {
      case 0: case 1: case 2: {
        bool app = r.one_in(2);
        WritableFile* w = nullptr;
        Status s = app ? env->NewAppendableFile(f, &w) : env->NewWritableFile(f, &w);
        if (!s.ok()) vh::broken("open");
        uint64_t z = app && files.count(f) ? files[f] : 0;
        if (z < big) for (size_t k = r.below(5); k-- > 0;) { std::string d(r.one_in(5) ? r.below(big / 4) : r.below(300), 'd'); w->Append(d); z += d.size(); }
        delete w;
        size_to(f, z);
        last = "write";
        break;
      }
      case 3: if (env->RemoveFile(f).ok()) gone(f); last = "remove"; break;
      case 4: {
        std::string g = pre + std::to_string(r.below(names));
        if (f != g && env->RenameFile(f, g).ok()) { uint64_t z = files[f], p = peak[f]; gone(f); if (files.count(g)) gone(g); size_to(g, p); size_to(g, z); }
        last = "rename";
        break;
      }
      case 5: {
        SequentialFile* s = nullptr;
        if (env->NewSequentialFile(f, &s).ok()) { char b[1000]; Slice res; for (int k = 0; k < 20; ++k) s->Read(sizeof b, &res, b); s->Skip(100); delete s; }
        last = "read";
        break;
      }
      case 6: {
        RandomAccessFile* s = nullptr;
        if (env->NewRandomAccessFile(f, &s).ok()) { char b[1000]; Slice res; for (int k = 0; k < 20; ++k) s->Read(r.below(files[f] + 1), sizeof b, &res, b); delete s; }
        last = "read";
        break;
      }
      default: {
        FileLock* l = nullptr;
        if (env->LockFile(f, &l).ok()) env->UnlockFile(l);
        std::vector<std::string> v;
        env->GetChildren("/d", &v);
        uint64_t z;
        env->GetFileSize(f, &z);
        env->FileExists(f + "x");
        last = "other";
      }
    }
    sp.within(fmt("%zu in-memory files holding %llu bytes, after %zu operations (%s)", files.size(), (unsigned long long)total, i, last.c_str()).c_str(), 2.2 * (double)peaks + 20000.0 * (double)files.size() + kRoom);
  }
  for (size_t i = 0; i < names; ++i) env->RemoveFile(pre + std::to_string(i));
  files.clear();
  peak.clear();
  sp.within("after every in-memory file was removed", kRoom);
  env.reset();
  vh::count("operations_measured", ops);
  vh::evaluated(r.next() ^ idx);
}
static void space_list(Rng& r, uint64_t idx) {
  Space sp;
  uint64_t salt = r.next();
  {
    Arena arena;
    List list(Cmp(), &arena);
    size_t n = 0;
    for (size_t want = 100; want <= 100000 && sp.ok; want *= 10) {
      for (; n < want; ++n) list.Insert(vh::mix(salt + n));
      vh::count("measurements");
      if (arena.MemoryUsage() > n * 200 + 16384) { sp.ok = false; vh::viol_once("space-list", fmt("a skip list of %zu 8-byte keys takes %zu bytes", n, arena.MemoryUsage())); }
      sp.within("a skip list", (double)n * 300 + kRoom);
      size_t u = arena.MemoryUsage();
      int64_t h = g_live.load();
      for (size_t i = 0; i < 2000; ++i) {
        list.Contains(salt + i);
        List::Iterator it(&list);
        it.Seek(vh::mix(salt + i));
        if (it.Valid()) it.Next();
        it.SeekToLast();
        if (it.Valid()) it.Prev();
        it.SeekToFirst();
      }
      vh::count("measurements");
      if (arena.MemoryUsage() != u || g_live.load() > h + 4096) { sp.ok = false; vh::viol_once("space-list", fmt("2000 searches in a skip list of %zu keys took memory: %zu of the arena, %lld of the heap", n, arena.MemoryUsage() - u, (long long)(g_live.load() - h))); }
    }
    vh::count("operations_measured", n);
  }
  sp.within("after the list and its arena were destroyed", kRoom);
  vh::evaluated(salt ^ idx);
}
static std::atomic<uint64_t> g_ran{0};
static void space_posix(Rng& r, uint64_t idx) {
  Env* env = Env::Default();
  std::string dir = vh::fresh_dir(fmt("space%llu", (unsigned long long)idx));
  uint64_t ops = 0;
  // One round of everything first, so that what is set up once is there.
  for (int round = 0; round < 2; ++round) {
    Space sp;
    int k = round == 0 ? 3 : 1;
    auto check = [&](const char* what, double room = kRoom) { if (round) sp.within(what, room); };
    size_t n = round == 0 ? 100 : 20000;
    for (int kind = 0; kind < 3; ++kind) {
      std::string f = dir + (kind == 1 ? "/MANIFEST-1" : "/f");
      WritableFile* w = nullptr;
      Status s = kind == 2 ? env->NewAppendableFile(f, &w) : env->NewWritableFile(f, &w);
      if (!s.ok()) vh::broken("open");
      std::string d(kind == 0 ? 700 : r.range(1, 3000), 'p');
      for (size_t i = 0; i < n; ++i, ++ops) {
        w->Append(d);
        if (i % 1000 == 999) { check("a POSIX writer while appending", kRoom + 200000); if (i % 5000 == 4999) w->Flush(); }
      }
      if (kind == 1) w->Sync();
      delete w;
      check("after a POSIX writer");
    }
    {
      SequentialFile* s = nullptr;
      RandomAccessFile* a = nullptr;
      if (!env->NewSequentialFile(dir + "/f", &s).ok() || !env->NewRandomAccessFile(dir + "/f", &a).ok()) vh::broken("open");
      char b[4000];
      Slice res;
      for (size_t i = 0; i < n / 4; ++i, ops += 2) { s->Read(sizeof b, &res, b); if (i % 8 == 0) s->Skip(50); a->Read(i * 700, sizeof b, &res, b); }
      check("POSIX readers while reading", kRoom + 200000);
      delete s;
      delete a;
    }
    Logger* log = nullptr;
    if (!env->NewLogger(dir + "/LOG", &log).ok()) vh::broken("logger");
    for (size_t i = 0; i < n / 2; ++i, ++ops) Log(log, "%zu %s", i, std::string(i % 700, 'l').c_str());
    check("a logger while logging", kRoom + 200000);
    delete log;
    for (size_t i = 0; i < n / 2; ++i, ++ops) {
      FileLock* l = nullptr;
      std::string f = dir + "/lock" + std::string(80, 'l') + std::to_string(i);
      if (!env->LockFile(f, &l).ok()) vh::broken("lock");
      env->UnlockFile(l);
      unlink(f.c_str());
    }
    check("after many locks");
    for (size_t i = 0; i < n / 10; ++i, ops += 6) {
      std::string f = dir + "/x" + std::to_string(i % 50 + r.below(100));
      FileLock *l = nullptr, *l2 = nullptr;
      if (!env->LockFile(dir + "/lock" + std::to_string(i), &l).ok()) vh::broken("lock");
      env->LockFile(dir + "/lock" + std::to_string(i), &l2);
      env->UnlockFile(l);
      env->RemoveFile(dir + "/lock" + std::to_string(i));
      if (WriteStringToFile(env, f, f).ok()) { std::string t; ReadFileToString(env, f, &t); }
      env->RenameFile(f, f + "r");
      env->RemoveFile(f + "r");
      uint64_t z;
      env->GetFileSize(f, &z);
      env->FileExists(f);
      std::vector<std::string> v;
      if (i % 20 == 0) env->GetChildren(dir, &v);
      env->CreateDir(dir + "/s");
      env->RemoveDir(dir + "/s");
    }
    check("after locks, names and whole files");
    // Work handed over and done is forgotten.
    for (int b = 0; b < 10; ++b) {
      uint64_t want = g_ran.load() + n;
      for (size_t i = 0; i < n; ++i) env->Schedule([](void*) { g_ran.fetch_add(1); }, nullptr);
      while (g_ran.load() < want) usleep(200);
      ops += n;
    }
    usleep(20000);
    check("after scheduled work", kRoom + 400000);
    for (size_t i = 0; i < n / 100; ++i) { uint64_t want = g_ran.load() + 1; env->StartThread([](void*) { g_ran.fetch_add(1); }, nullptr); while (g_ran.load() < want) usleep(20); ++ops; }
    usleep(50000);
    check("after started threads", kRoom + 400000);
    (void)k;
  }
  vh::rm_tree(dir);
  vh::count("operations_measured", ops);
  vh::evaluated(r.next() ^ idx);
}
static void space_case(Rng& r, uint64_t idx) {
  switch (idx % 8) {
    case 0: case 1: case 2: space_cache(r, idx); break;
    case 3: case 4: case 5: space_mem(r, idx); break;
    case 6: space_list(r, idx); break;
    default: space_posix(r, idx);
  }
}

int main(int argc, char** argv) {
  vh::parse(argc, argv);
  configure_posix();
  const std::string& m = g_mode;
  if (m == "list") vh::run_cases(list_case);
  else if (m == "cache") vh::run_cases(cache_case);
  else if (m == "arena") vh::run_cases(arena_case);
  else if (m == "mem") vh::run_cases(mem_case);
  else if (m == "values") vh::run_cases(value_case);
  else if (m == "sys") vh::run_cases(sys_case);
  else if (m == "space") vh::run_cases(space_case);
  else vh::broken("unknown mode " + m);
  return vh::finish();
}
