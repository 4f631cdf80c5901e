// C03: arena allocations.  Modes seq (one thread), huge (requests of gigabytes), conc (usage read by others).
#include "vh.h"
#include "util/arena.h"

using lsmdb::Arena;
using vh::Rng;

struct Blk { char* p; size_t n; uint64_t tag; bool aligned; };

static unsigned char pat(uint64_t tag, size_t i) { return (unsigned char)(vh::mix(tag + i / 8) >> (8 * (i % 8))); }
static void fill(const Blk& b) { for (size_t i = 0; i < b.n; ++i) b.p[i] = (char)pat(b.tag, i); }
static bool intact(const Blk& b, size_t* at) {
  for (size_t i = 0; i < b.n; ++i)
    if ((unsigned char)b.p[i] != pat(b.tag, i)) { *at = i; return false; }
  return true;
}

static const std::vector<size_t> edge = {1, 2, 7, 8, 9, 15, 16, 1016, 1017, 1020, 1021, 1022, 1023, 1024, 1025, 1026, 1032, 2047, 2048, 2049, 3071, 3072, 3073, 4080, 4088, 4089, 4090, 4095, 4096, 4097, 4104, 8191, 8192, 8193};
static size_t gen_size(Rng& r, int style) {
  switch (style) {
    case 0: return r.range(1, 16);
    case 1: return r.range(1, 300);
    case 2: {
      return r.pick(edge);
    }
    case 3: return r.range(900, 1100);
    case 4: return r.one_in(20) ? r.range(1, 200000) : r.range(1, 5000);
    case 5: return r.one_in(2) ? 1 : 1025;
    default: return 1 + r.skewed(r.one_in(30) ? 20 : 12);
  }
}

// One to three arenas used in turn, one of them possibly replaced on the way.
struct Ar {
  Arena* a = nullptr;
  size_t empty = 0;
  uint64_t prev = 0, sum = 0, padded = 0, n = 0;
  std::vector<Blk> blocks;
};
static void seq_case(Rng& r, uint64_t idx) {
  std::map<uintptr_t, size_t> iv;  // start -> end, over all arenas
  size_t n = r.one_in(6) ? r.range(1, 5) : r.range(20, 700);
  size_t na = r.one_in(2) ? 1 : r.range(2, 3);
  int style = (int)r.below(7);
  int al = (int)r.below(4);
  uint64_t sig = vh::mix(style * 7 + al + na * 100);
  int v0 = vh::st().violations;
  uint64_t total_bytes = 0, all = 0, last_usage = 0;
  std::vector<Ar> ars(na);
  auto open = [&](Ar& x) {
    x = Ar();
    x.blocks.reserve(n);
    x.a = new Arena;
    x.empty = x.a->MemoryUsage();
    x.prev = x.empty;
    VH_CHECK(x.empty < 65536, "arena-usage-overhead", "an empty arena reports %zu bytes", x.empty);
  };
  auto close = [&](Ar& x) {
    for (auto& c : x.blocks) {
      size_t at;
      if (vh::st().violations == v0 && !intact(c, &at)) vh::viol("arena-contents", vh::fmt("byte %zu of a %zu-byte block changed (%zu arenas in use)", at, c.n, na));
      iv.erase((uintptr_t)c.p);
    }
#ifdef VH_ASAN
    size_t held_before = vh::heap_bytes();
#endif
    delete x.a;
#ifdef VH_ASAN
    size_t freed = held_before - vh::heap_bytes();
    VH_CHECK(freed >= x.sum || vh::st().violations != v0, "arena-leak", "destroying the arena returned %zu bytes of the %llu handed out", freed, (unsigned long long)x.sum);
#endif
    x.a = nullptr;
  };
  for (auto& x : ars) open(x);
  for (size_t i = 0; i < n && vh::st().violations == v0; ++i) {
    Ar& x = ars[na == 1 ? 0 : r.below(na)];
    if (na > 1 && r.one_in(150)) { close(x); open(x); vh::count("arenas_replaced_among_others"); }
    size_t sz = gen_size(r, style);
    if (total_bytes > (8u << 20)) sz = 1 + sz % 64;
    bool aligned = al == 0 ? false : al == 1 ? true : r.one_in(2);
    sig = vh::mix(sig ^ (sz * 2 + aligned));
    char* p = aligned ? x.a->AllocateAligned(sz) : x.a->Allocate(sz);
    if (!p) { vh::viol("arena-null", vh::fmt("allocation %zu of %zu bytes gave null", i, sz)); break; }
    if (aligned && (reinterpret_cast<uintptr_t>(p) & 7)) vh::viol("arena-align", vh::fmt("aligned allocation %zu of %zu bytes is at %p", i, sz, (void*)p));
    uintptr_t a = (uintptr_t)p, b = a + sz;
    auto it = iv.upper_bound(a);
    bool clash = (it != iv.end() && it->first < b);
    if (it != iv.begin()) { auto q = std::prev(it); clash = clash || q->second > a; }
    if (clash) { vh::viol("arena-overlap", vh::fmt("allocation %zu of %zu bytes overlaps an earlier block (style %d, %zu arenas)", i, sz, style, na)); break; }
    iv[a] = b;
    Blk blk{p, sz, r.next(), aligned};
    fill(blk);
    x.blocks.push_back(blk);
    x.sum += sz;
    x.padded += sz + (aligned ? 8 : 0);
    x.n++;
    ++all;
    total_bytes += sz;
    size_t u = x.a->MemoryUsage();
    VH_CHECK(u >= x.prev, "arena-usage-decrease", "usage fell from %llu to %zu at allocation %zu of %zu bytes", (unsigned long long)x.prev, u, i, sz);
    VH_CHECK(u >= x.sum, "arena-usage-low", "usage %zu is below the %llu bytes handed out (%llu allocations)", u, (unsigned long long)x.sum, (unsigned long long)x.n);
    VH_CHECK(u - std::min(u, x.empty) <= 2 * x.padded + 16384 + 24 * x.n, "arena-usage-overhead", "usage %zu for %llu bytes in %llu allocations", u, (unsigned long long)x.sum, (unsigned long long)x.n);
    x.prev = last_usage = u;
    if (na > 1 && r.one_in(20)) {
      Ar& y = ars[r.below(na)];
      size_t w = y.a->MemoryUsage();
      VH_CHECK(w == y.prev, "arena-usage-decrease", "the usage of one arena changed from %llu to %zu by allocations in another", (unsigned long long)y.prev, w);
    }
    if (r.one_in(50) && !x.blocks.empty()) {
      const Blk& c = x.blocks[r.below(x.blocks.size())];
      size_t at;
      if (!intact(c, &at)) vh::viol("arena-contents", vh::fmt("byte %zu of a %zu-byte block changed after later allocations", at, c.n));
    }
  }
  for (auto& x : ars) close(x);
  vh::count("allocations", all);
  if (na > 1) vh::count("cases_with_several_arenas");
  vh::evaluated(sig, all >= 2);
  if (vh::want_sample()) vh::sample(vh::fmt("case %llu: %llu allocations in %zu arenas, style %d, alignment mode %d, %llu bytes, last usage %llu", (unsigned long long)idx, (unsigned long long)all, na, style, al, (unsigned long long)total_bytes, (unsigned long long)last_usage));
}

// Requests up to several GiB.  The memory is mapped but almost none of it is
// touched; where the machine does not lend that much, the case says so.
static void huge_case(Rng& r, uint64_t idx) {
  const uint64_t G = 1ull << 30;
  static const std::vector<std::vector<uint64_t>> plans = {
      {3 * G, 3 * G},                                   // two halves beyond 32 bits
      {(1ull << 31) - 1, 1ull << 31, (1ull << 31) + 1}, // around the sign of an int
      {(1ull << 32) - 1}, {1ull << 32}, {(1ull << 32) + 1}, {(1ull << 32) + 5000},
      {G / 2, G / 2, G / 2, G / 2, G / 2, G / 2, G / 2, G / 2, G / 2, G / 2},
      {64 << 20, 1 << 20, 3 << 20, (1ull << 32) + 24, 1 << 24, 7},
  };
  std::vector<uint64_t> plan = plans[idx % plans.size()];
  if (idx >= plans.size()) { uint64_t left = 7 * G; plan.clear(); while (plan.size() < 30) { uint64_t z = 1 + r.skewed(33); if (z > left) break; left -= z; plan.push_back(z); } }
  uint64_t want = 0;
  for (auto z : plan) want += z;
  void* probe = malloc(want + (64 << 20));
  if (!probe) { vh::count("huge_plans_skipped"); vh::evaluated(idx, false); return; }
  free(probe);
  Arena arena;
  std::map<uintptr_t, uintptr_t> iv;
  std::vector<std::pair<char*, uint64_t>> bl;
  uint64_t sum = 0, prev = arena.MemoryUsage();
  size_t cnt = 0;
  bool ok = true;
  auto get = [&](uint64_t z, bool aligned) {
    char* p = aligned ? arena.AllocateAligned(z) : arena.Allocate(z);
    if (!p) { vh::viol("arena-null", vh::fmt("allocation of %llu bytes gave null", (unsigned long long)z)); ok = false; return; }
    if (aligned && ((uintptr_t)p & 7)) { vh::viol("arena-align", vh::fmt("aligned allocation of %llu bytes is at %p", (unsigned long long)z, (void*)p)); ok = false; }
    uintptr_t a = (uintptr_t)p, b = a + z;
    auto it = iv.upper_bound(a);
    bool clash = it != iv.end() && it->first < b;
    if (it != iv.begin()) clash = clash || std::prev(it)->second > a;
    if (clash) { vh::viol("arena-overlap", vh::fmt("allocation of %llu bytes overlaps an earlier block", (unsigned long long)z)); ok = false; return; }
    iv[a] = b;
    p[0] = (char)('A' + cnt % 50);
    p[z - 1] = (char)('A' + cnt % 50);
    p[z / 2] = (char)('A' + cnt % 50);
    bl.push_back({p, z});
    ++cnt;
    sum += z;
    uint64_t u = arena.MemoryUsage();
    if (u < prev) { vh::viol("arena-usage-decrease", vh::fmt("usage fell from %llu to %llu at a request of %llu bytes", (unsigned long long)prev, (unsigned long long)u, (unsigned long long)z)); ok = false; }
    else if (u < sum) { vh::viol("arena-usage-low", vh::fmt("usage %llu is below the %llu bytes handed out", (unsigned long long)u, (unsigned long long)sum)); ok = false; }
    else if (u > 2 * sum + 65536) { vh::viol("arena-usage-overhead", vh::fmt("usage %llu for %llu bytes", (unsigned long long)u, (unsigned long long)sum)); ok = false; }
    prev = u;
  };
  for (auto z : plan) {
    if (!ok) break;
    for (int i = (int)r.below(4); i > 0 && ok; --i) get(r.range(1, 3000), r.one_in(2));
    if (ok) get(z, r.one_in(2));
  }
  for (int i = 0; i < 5 && ok; ++i) get(r.range(1, 3000), r.one_in(2));
  for (size_t i = 0; i < bl.size() && ok; ++i)
    for (uint64_t at : {(uint64_t)0, bl[i].second / 2, bl[i].second - 1})
      if (bl[i].second > 3 && bl[i].first[at] != (char)('A' + i % 50)) { vh::viol("arena-contents", vh::fmt("byte %llu of a block of %llu changed", (unsigned long long)at, (unsigned long long)bl[i].second)); ok = false; break; }
  vh::count("allocations", cnt);
  vh::count("mebibytes_in_huge_requests", sum >> 20);
  vh::evaluated(vh::mix(sum) ^ idx, cnt > 1);
  if (vh::want_sample()) vh::sample(vh::fmt("huge case %llu: %zu allocations, %llu bytes in all, usage %llu", (unsigned long long)idx, cnt, (unsigned long long)sum, (unsigned long long)prev));
}

// The leak check proper: same script with and without harness bookkeeping.
static void leak_case(Rng& r, uint64_t) {
  uint64_t s = r.next();
  size_t n = r.range(1, 400);
  int style = (int)r.below(7);
  size_t before = vh::heap_bytes();
  {
    Rng q(s);
    Arena a;
    for (size_t i = 0; i < n; ++i) {
      size_t sz = gen_size(q, style);
      char* p = q.one_in(2) ? a.AllocateAligned(sz) : a.Allocate(sz);
      p[0] = 1;
      p[sz - 1] = 2;
    }
  }
  size_t after = vh::heap_bytes();
  VH_CHECK(after == before, "arena-leak", "%zu bytes still allocated after destroying an arena with %zu allocations of style %d", after - before, n, style);
  vh::count("destroyed_arenas");
  vh::evaluated(s);
}

static void conc_case(Rng& r, uint64_t idx) {
  Arena arena;
  std::atomic<bool> stop{false};
  std::atomic<uint64_t> handed{0};
  std::atomic<int> ready{0};
  int readers = (int)r.range(1, 4);
  bool strict = r.one_in(2);  // otherwise no ordering but the arena's own
  std::vector<std::thread> ts;
  std::vector<uint64_t> seen(readers, 0);
  for (int q = 0; q < readers; ++q)
    ts.emplace_back([&, q]() {
      size_t prev = 0;
      uint64_t changes = 0;
      ready++;
      while (!stop.load(std::memory_order_relaxed)) {
        uint64_t h = strict ? handed.load(std::memory_order_acquire) : 0;
        size_t u = arena.MemoryUsage();
        if (u < prev) vh::viol_once("arena-usage-decrease", vh::fmt("another thread saw usage fall from %zu to %zu", prev, u));
        if (u < h) vh::viol_once("arena-usage-low", vh::fmt("another thread saw usage %zu after %llu bytes were handed out", u, (unsigned long long)h));
        changes += u != prev;
        prev = u;
      }
      seen[q] = changes;
    });
  // Another arena, in another thread, must not matter.
  std::thread aside;
  if (r.one_in(2)) {
    uint64_t rs = r.next();
    aside = std::thread([&, rs]() {
      Rng q(rs);
      while (!stop.load(std::memory_order_relaxed)) {
        Arena b;
        size_t got = 0;
        std::vector<std::pair<char*, size_t>> v;
        for (int i = 0; i < 200; ++i) {
          size_t sz = q.range(1, 3000);
          char* p = q.one_in(2) ? b.AllocateAligned(sz) : b.Allocate(sz);
          memset(p, i, sz);
          v.push_back({p, sz});
          got += sz;
          if (b.MemoryUsage() < got) vh::viol_once("arena-usage-low", "usage of an arena used beside another is below the bytes handed out");
        }
        for (int i = 0; i < 200; ++i)
          if (v[i].first[0] != (char)i || v[i].first[v[i].second - 1] != (char)i) vh::viol_once("arena-contents", "a block changed by the use of another arena in another thread");
      }
    });
    vh::count("cases_beside_another_arena");
  }
  while (ready.load() < readers) {}
  uint64_t sum = 0;
  size_t n = r.range(500, 4000);
  int style = (int)r.below(7);
  for (size_t i = 0; i < n; ++i) {
    size_t sz = gen_size(r, style);
    if (sz > 9000) sz = 9000;
    char* p = r.one_in(2) ? arena.AllocateAligned(sz) : arena.Allocate(sz);
    p[0] = (char)i;
    p[sz - 1] = (char)i;
    sum += sz;
    if (strict) handed.store(sum, std::memory_order_release);
  }
  stop = true;
  for (auto& t : ts) t.join();
  if (aside.joinable()) aside.join();
  uint64_t ch = 0;
  for (auto c : seen) ch += c;
  vh::count("usage_changes_seen_by_other_threads", ch);
  vh::count("allocations", n);
  vh::evaluated(vh::mix(sum) ^ ch, ch > 1);
  if (vh::want_sample()) vh::sample(vh::fmt("conc case %llu: %zu allocations, %d readers saw %llu changes of the usage figure", (unsigned long long)idx, n, readers, (unsigned long long)ch));
}

int main(int argc, char** argv) {
  vh::parse(argc, argv);
  const std::string& m = vh::st().mode;
  if (m == "seq") vh::run_cases([](Rng& r, uint64_t i) { if (i % 4 == 3 && vh::heap_bytes()) leak_case(r, i); else seq_case(r, i); });
  else if (m == "conc") vh::run_cases(conc_case);
  else if (m == "huge") vh::run_cases(huge_case);
  else vh::broken("unknown mode " + m);
  return vh::finish();
}
