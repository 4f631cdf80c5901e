// C01 (mode seq) and C02 (modes step, fiber, conc): the skip list.
//
// With -DVH_STEP the header's std::atomic is replaced by an instrumented one
// (name lookup inside namespace lsmdb finds lsmdb::std first), so that every
// atomic access of the list is a scheduling point of the harness.
#include "vh.h"

#include <algorithm>
#include <cassert>
#include <climits>
#include <memory>
#include <new>
#include <ucontext.h>

#include "util/arena.h"
#include "util/noncopyable.h"
#include "util/random.h"

// Fresh memory is never conveniently zero.
#if !defined(VH_ASAN) && !defined(VH_TSAN) && !defined(VH_VG)
static void* dirty_new(size_t n) {
  void* p = malloc(n ? n : 1);
  if (!p) abort();
  memset(p, 0xB7, n);
  return p;
}
void* operator new(size_t n) { return dirty_new(n); }
void* operator new[](size_t n) { return dirty_new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
#endif

#ifdef VH_STEP
enum StepKind { kLoad, kStore };
static std::function<void(StepKind)>* g_hook = nullptr;
static inline void step_point(StepKind k) {
  if (g_hook) (*g_hook)(k);
}
namespace lsmdb {
namespace std {
using namespace ::std;
template <class T>
struct atomic {
  ::std::atomic<T> v;
  atomic() = default;
  atomic(T x) : v(x) {}
  T load(::std::memory_order = ::std::memory_order_seq_cst) const {
    step_point(kLoad);
    return v.load();
  }
  void store(T x, ::std::memory_order = ::std::memory_order_seq_cst) {
    v.store(x);
    step_point(kStore);
  }
  operator T() const { return load(); }
  T operator=(T x) { store(x); return x; }
  T exchange(T x, ::std::memory_order = ::std::memory_order_seq_cst) {
    T r = v.exchange(x);
    step_point(kStore);
    return r;
  }
  bool compare_exchange_strong(T& e, T d, ::std::memory_order = ::std::memory_order_seq_cst,
                               ::std::memory_order = ::std::memory_order_seq_cst) {
    bool r = v.compare_exchange_strong(e, d);
    step_point(kStore);
    return r;
  }
  bool compare_exchange_weak(T& e, T d, ::std::memory_order = ::std::memory_order_seq_cst,
                             ::std::memory_order = ::std::memory_order_seq_cst) {
    return compare_exchange_strong(e, d);
  }
  T fetch_add(T x, ::std::memory_order = ::std::memory_order_seq_cst) {
    T r = v.fetch_add(x);
    step_point(kStore);
    return r;
  }
};
}  // namespace std
}  // namespace lsmdb
#endif

#include "db/skiplist.h"

using lsmdb::Arena;
using vh::Rng;

// ------------------------------------------------------------------ keys ---
struct U64Cmp { int operator()(const uint64_t& a, const uint64_t& b) const { return a < b ? -1 : a > b; } };
struct RevCmp { int operator()(const uint64_t& a, const uint64_t& b) const { return a < b ? 5 : (a > b ? -7 : 0); } };
// A total order unrelated to the natural one.
struct MixCmp {
  static uint64_t f(uint64_t x) { return x * 0x9e3779b97f4a7c15ull; }
  int operator()(const uint64_t& a, const uint64_t& b) const { return f(a) < f(b) ? INT_MIN : f(a) > f(b) ? INT_MAX : 0; }
};
// The order depends on the object given to the list.
struct DirCmp {
  int dir;
  explicit DirCmp(int d = 1) : dir(d) {}
  int operator()(const uint64_t& a, const uint64_t& b) const { return a < b ? -dir : a > b ? dir : 0; }
};
struct IntCmp { int operator()(const int& a, const int& b) const { return a < b ? -1 : a > b; } };
// Pointer keys decoded by the comparator, as a memtable does.
struct PtrCmp {
  int operator()(const char* const& a, const char* const& b) const {
    int r = memcmp(a, b, 8);
    return r;
  }
};
struct BigKey {
  uint64_t k, a, b, c, chk;
  BigKey(uint64_t x = 0) : k(x), a(vh::mix(x)), b(~x), c(x * 3), chk(vh::mix(x ^ 77)) {}
  bool good() const { return a == vh::mix(k) && b == ~k && c == k * 3 && chk == vh::mix(k ^ 77); }
};
struct BigCmp { int operator()(const BigKey& x, const BigKey& y) const { return x.k < y.k ? -1 : x.k > y.k; } };

// Converts ids 1.. to keys and back, and orders ids as the comparator does.
struct ConvU64 {
  typedef uint64_t K; typedef U64Cmp C;
  static K to(uint64_t id) { return id * 0x100000001ull; }
  static uint64_t from(const K& k) { return k == (k & 0xffffffffu) * 0x100000001ull ? (k & 0xffffffffu) : ~0ull; }
  static bool less(uint64_t a, uint64_t b) { return a < b; }
  static const char* name() { return "u64"; }
  static C cmp() { return C(); }
};
struct ConvRev {
  typedef uint64_t K; typedef RevCmp C;
  static K to(uint64_t id) { return id; }
  static uint64_t from(const K& k) { return k; }
  static bool less(uint64_t a, uint64_t b) { return a > b; }
  static const char* name() { return "reverse"; }
  static C cmp() { return C(); }
};
struct ConvDir {
  typedef uint64_t K; typedef DirCmp C;
  static K to(uint64_t id) { return id; }
  static uint64_t from(const K& k) { return k; }
  static bool less(uint64_t a, uint64_t b) { return a > b; }
  static const char* name() { return "by-object"; }
  static C cmp() { return C(-3); }
};
struct ConvMix {
  typedef uint64_t K; typedef MixCmp C;
  static K to(uint64_t id) { return id; }
  static uint64_t from(const K& k) { return k; }
  static bool less(uint64_t a, uint64_t b) { return MixCmp::f(a) < MixCmp::f(b); }
  static const char* name() { return "mixed"; }
  static C cmp() { return C(); }
};
struct ConvInt {  // includes negative keys
  typedef int K; typedef IntCmp C;
  static K to(uint64_t id) { return (int)(uint32_t)id; }
  static uint64_t from(const K& k) { return (uint32_t)k; }
  static bool less(uint64_t a, uint64_t b) { return (int)(uint32_t)a < (int)(uint32_t)b; }
  static const char* name() { return "int"; }
  static C cmp() { return C(); }
};
struct ConvPtr {
  typedef const char* K; typedef PtrCmp C;
  static K to(uint64_t id) {
    static std::map<uint64_t, char*>* m = new std::map<uint64_t, char*>;
    char*& p = (*m)[id];
    if (!p) {
      p = new char[8];
      for (int i = 0; i < 8; ++i) p[i] = (char)(id >> (56 - 8 * i));
    }
    return p;
  }
  static uint64_t from(const K& k) {
    uint64_t r = 0;
    for (int i = 0; i < 8; ++i) r = r << 8 | (unsigned char)k[i];
    return r;
  }
  static bool less(uint64_t a, uint64_t b) { return a < b; }
  static const char* name() { return "ptr"; }
  static C cmp() { return C(); }
};
struct ConvBig {
  typedef BigKey K; typedef BigCmp C;
  static K to(uint64_t id) { return BigKey(id); }
  static uint64_t from(const K& k) { return k.good() ? k.k : ~0ull; }
  static bool less(uint64_t a, uint64_t b) { return a < b; }
  static const char* name() { return "big"; }
  static C cmp() { return C(); }
};

#ifndef VH_STEP
// ------------------------------------------------------------------- seq ---
static std::vector<uint64_t> make_ids(Rng& r, size_t n, int pattern) {
  std::vector<uint64_t> v;
  std::set<uint64_t> seen;
  uint64_t cur = r.range(1, 1000000);
  while (v.size() < n) {
    uint64_t x;
    size_t i = v.size();
    switch (pattern) {
      case 0: x = 10 + 3 * i; break;                                  // ascending
      case 1: x = 10 + 3 * (n - i); break;                            // descending
      case 2: x = 1 + (uint32_t)r.next(); break;                      // random
      case 3: x = (i & 1) ? 100000000 + i * 2 : 100000000 - i * 2; break;  // outward zigzag
      case 4: x = 1 + r.below(n * 2 + 4); break;                      // dense
      case 5: if (r.one_in(8)) cur = 1 + (uint32_t)r.next(); x = cur++; break;  // clustered
      default: x = (i & 1) ? 1000 + i : 4000000000u - i; break;       // inward zigzag
    }
    x &= 0xffffffffu;
    if (seen.insert(x).second) v.push_back(x);
  }
  if (n && r.one_in(4) && !seen.count(0)) v[r.below(v.size())] = 0;
  return v;
}

template <class Cv>
static void run_seq(Rng& r, uint64_t idx, size_t n, int pattern) {
  typedef lsmdb::SkipList<typename Cv::K, typename Cv::C> List;
  struct Less { bool operator()(uint64_t a, uint64_t b) const { return Cv::less(a, b); } };
  std::vector<uint64_t> ids = make_ids(r, n, pattern);
  std::set<uint64_t, Less> model;
  Arena arena;
  typename Cv::C cmp = Cv::cmp();
  List list(cmp, &arena);
  struct It { typename List::Iterator it; bool valid; uint64_t id; };
  std::vector<It> its;
  for (int i = 0; i < 3; ++i) its.push_back(It{typename List::Iterator(&list), false, 0});
  uint64_t sig = vh::hash_str(Cv::name()) + pattern;
  uint64_t ops = 0;
  int v0 = vh::st().violations;
  auto chk = [&](It& x, const char* what, uint64_t arg) {
    ++ops;
    bool v = x.it.Valid();
    if (v != x.valid) {
      vh::viol("skiplist-iter-valid", vh::fmt("%s keys, pattern %d, size %zu: after %s(%llu) Valid()=%d, expected %d (key %llu)",
               Cv::name(), pattern, model.size(), what, (unsigned long long)arg, v, x.valid, (unsigned long long)x.id));
      return false;
    }
    if (v) {
      uint64_t got = Cv::from(x.it.key());
      if (got != x.id) {
        vh::viol("skiplist-iter-key", vh::fmt("%s keys, pattern %d, size %zu: after %s(%llu) key()=%llu, expected %llu",
                 Cv::name(), pattern, model.size(), what, (unsigned long long)arg, (unsigned long long)got, (unsigned long long)x.id));
        return false;
      }
    }
    return true;
  };
  auto probe = [&]() -> uint64_t {
    if (!model.empty() && r.one_in(2)) {
      uint64_t b = ids[r.below(model.size())];
      return (b + r.range(0, 2) - 1) & 0xffffffffu;
    }
    if (r.one_in(8)) return r.one_in(2) ? 0xffffffffu : 1;
    return ids[r.below(ids.size())];
  };
  auto full = [&]() {
    typename List::Iterator it(&list);
    VH_CHECK(!it.Valid(), "skiplist-iter-valid", "a new iterator is valid");
    it.SeekToFirst();
    size_t k = 0;
    for (auto e : model) {
      if (!it.Valid() || Cv::from(it.key()) != e) {
        vh::viol("skiplist-forward", vh::fmt("%s keys, pattern %d, size %zu: forward scan differs at position %zu", Cv::name(), pattern, model.size(), k));
        return;
      }
      it.Next();
      ++k;
    }
    VH_CHECK(!it.Valid(), "skiplist-forward", "forward scan goes on after the last key");
    it.SeekToLast();
    for (auto e = model.rbegin(); e != model.rend(); ++e) {
      if (!it.Valid() || Cv::from(it.key()) != *e) {
        vh::viol("skiplist-backward", vh::fmt("%s keys, pattern %d, size %zu: backward scan differs", Cv::name(), pattern, model.size()));
        return;
      }
      it.Prev();
    }
    VH_CHECK(!it.Valid(), "skiplist-backward", "backward scan goes on before the first key");
    vh::count("full_scans");
  };
  full();
  VH_CHECK(!list.Contains(Cv::to(5)) && !list.Contains(Cv::to(0)), "skiplist-contains", "empty list contains a key");
  for (int q = 0; q < 3; ++q) {
    if (q == 0) its[0].it.Seek(Cv::to(5));
    else if (q == 1) its[0].it.SeekToFirst();
    else its[0].it.SeekToLast();
    VH_CHECK(!its[0].it.Valid(), "skiplist-iter-valid", "an iterator on an empty list is valid after a seek");
  }
  int perop = n > 5000 ? 1 : 4;
  // A second list of other keys, sometimes in the same arena, grows along.
  bool twin = n <= 5000 && r.one_in(2);
  Arena arena2;
  std::unique_ptr<List> list2;
  std::set<uint64_t, Less> model2;
  if (twin) list2.reset(new List(cmp, r.one_in(2) ? &arena : &arena2));
  // Other users of the arena, as a memtable's entries are.
  std::vector<std::pair<char*, size_t>> blocks;
  bool noise = n <= 5000 && r.one_in(2);
  for (size_t i = 0; i < n && vh::st().violations == v0; ++i) {
    uint64_t id = ids[i];
    if (noise) {
      size_t sz = r.range(1, 40);
      blocks.push_back({r.one_in(2) ? arena.Allocate(sz) : arena.AllocateAligned(sz), sz});
      memset(blocks.back().first, 0xc3, sz);
    }
    if (n <= 5000 || r.one_in(16)) {
      ++ops;
      VH_CHECK(!list.Contains(Cv::to(id)), "skiplist-contains", "%s keys: contains key %llu before insertion", Cv::name(), (unsigned long long)id);
    }
    list.Insert(Cv::to(id));
    model.insert(id);
    sig = vh::mix(sig ^ id);
    ++ops;
    if (twin && !r.one_in(3)) {
      uint64_t other = (id ^ 0x5bd1e995u) & 0xffffffffu;
      VH_CHECK(!list2->Contains(Cv::to(other)), "skiplist-contains", "%s keys: a second list contains key %llu before insertion", Cv::name(), (unsigned long long)other);
      list2->Insert(Cv::to(other));
      model2.insert(other);
      VH_CHECK(list2->Contains(Cv::to(other)), "skiplist-contains", "%s keys: a second list does not contain key %llu right after insertion", Cv::name(), (unsigned long long)other);
    }
    VH_CHECK(list.Contains(Cv::to(id)), "skiplist-contains", "%s keys, pattern %d: key %llu not found right after insertion %zu", Cv::name(), pattern, (unsigned long long)id, i);
    for (int q = 0; q < perop; ++q) {
      uint64_t p = probe();
      It& x = its[r.below(its.size())];
      switch (r.below(7)) {
        case 0: {
          ++ops;
          bool e = model.count(p) != 0, g = list.Contains(Cv::to(p));
          VH_CHECK(e == g, "skiplist-contains", "%s keys, pattern %d, size %zu: Contains(%llu)=%d", Cv::name(), pattern, model.size(), (unsigned long long)p, g);
          break;
        }
        case 1: {
          x.it.Seek(Cv::to(p));
          auto e = model.lower_bound(p);
          x.valid = e != model.end();
          if (x.valid) x.id = *e;
          chk(x, "Seek", p);
          break;
        }
        case 2: x.it.SeekToFirst(); x.valid = true; x.id = *model.begin(); chk(x, "SeekToFirst", 0); break;
        case 3: x.it.SeekToLast(); x.valid = true; x.id = *model.rbegin(); chk(x, "SeekToLast", 0); break;
        case 4: case 5:
          if (chk(x, "hold", 0) && x.valid) {
            auto e = model.upper_bound(x.id);
            x.it.Next();
            x.valid = e != model.end();
            uint64_t was = x.id;
            if (x.valid) x.id = *e;
            chk(x, "Next", was);
          }
          break;
        default:
          if (chk(x, "hold", 0) && x.valid) {
            auto e = model.lower_bound(x.id);
            x.it.Prev();
            x.valid = e != model.begin();
            uint64_t was = x.id;
            if (x.valid) x.id = *--e;
            chk(x, "Prev", was);
          }
      }
    }
    if ((i + 1) % (n < 64 ? 8 : n / 4) == 0) full();
  }
  full();
  for (auto& b : blocks)
    for (size_t i = 0; i < b.second; ++i)
      if (b.first[i] != (char)0xc3) { vh::viol_once("skiplist-arena", vh::fmt("%s keys, size %zu: inserting wrote into a block that something else took from the arena", Cv::name(), model.size())); break; }
  if (twin) {
    typename List::Iterator it(list2.get());
    it.SeekToFirst();
    for (auto e : model2) {
      if (!it.Valid() || Cv::from(it.key()) != e) { vh::viol("skiplist-forward", vh::fmt("%s keys: the forward scan of a second list used in turn differs (size %zu)", Cv::name(), model2.size())); break; }
      it.Next();
    }
    VH_CHECK(!it.Valid() || vh::st().violations != v0, "skiplist-forward", "%s keys: the scan of a second list goes on after the last key", Cv::name());
    vh::count("second_lists");
  }
  // Iterators are copyable.
  if (!model.empty()) {
    typename List::Iterator a(&list);
    a.SeekToFirst();
    typename List::Iterator b = a;
    a.Next();
    VH_CHECK(b.Valid() && Cv::from(b.key()) == *model.begin(), "skiplist-iter-copy", "copied iterator moved with the original");
  }
  vh::count("inserts", model.size());
  vh::count("operations", ops);
  if (vh::want_sample()) vh::sample(vh::fmt("case %llu: %s keys, pattern %d, %zu insertions, %llu checked operations, last key %llu", (unsigned long long)idx, Cv::name(), pattern, n, (unsigned long long)ops, (unsigned long long)(n ? ids.back() : 0)));
  vh::evaluated(sig, n >= 2);
}

// Lists so large that towers of every height occur.
template <class Cv>
static void run_tall(Rng& r, uint64_t idx, size_t n, int pattern) {
  typedef lsmdb::SkipList<typename Cv::K, typename Cv::C> List;
  Arena arena;
  typename Cv::C cmp = Cv::cmp();
  List list(cmp, &arena);
  uint32_t add = (uint32_t)r.next();
  auto id_of = [&](size_t i) -> uint64_t {
    switch (pattern) {
      case 0: return 2 * (i + 1);                                       // ascending
      case 1: return 2 * (n - i);                                       // descending
      case 2: return (uint32_t)((uint32_t)(2 * i) * 2654435761u + 2 * add);  // scattered, even
      default: return (i & 1) ? 4000000000u - 2 * i : 2 * (i + 1);      // from both ends
    }
  };
  std::vector<uint64_t> ids;
  ids.reserve(n);
  for (size_t i = 0; i < n; ++i) ids.push_back(id_of(i));
  std::vector<uint64_t> sorted = ids;
  int v0 = vh::st().violations;
  uint64_t ops = 0;
  typename List::Iterator it(&list);
  auto less = [](uint64_t a, uint64_t b) { return Cv::less(a, b); };
  // Checks some positions of a list holding the first m ids.
  auto verify = [&](size_t m, size_t samples, bool scan) {
    sorted.assign(ids.begin(), ids.begin() + m);
    std::sort(sorted.begin(), sorted.end(), less);
    if (scan) {
      it.SeekToFirst();
      for (size_t k = 0; k < m; ++k) {
        if (!it.Valid() || Cv::from(it.key()) != sorted[k]) { vh::viol("skiplist-forward", vh::fmt("%s keys, size %zu: forward scan differs at position %zu", Cv::name(), m, k)); return; }
        it.Next();
      }
      VH_CHECK(!it.Valid(), "skiplist-forward", "%s keys, size %zu: forward scan goes on after the last key", Cv::name(), m);
      vh::count("full_scans");
    }
    it.SeekToLast();
    VH_CHECK(it.Valid() && Cv::from(it.key()) == sorted.back(), "skiplist-iter-key", "%s keys, size %zu: SeekToLast is wrong", Cv::name(), m);
    for (size_t q = 0; q < samples && vh::st().violations == v0; ++q) {
      ++ops;
      size_t k = r.below(m);
      uint64_t id = sorted[k], off = id ^ 1;
      VH_CHECK(list.Contains(Cv::to(id)), "skiplist-contains", "%s keys, size %zu: key %llu is not found", Cv::name(), m, (unsigned long long)id);
      VH_CHECK(!list.Contains(Cv::to(off)), "skiplist-contains", "%s keys, size %zu: key %llu was never inserted but is found", Cv::name(), m, (unsigned long long)off);
      it.Seek(Cv::to(off));
      auto e = std::lower_bound(sorted.begin(), sorted.end(), off, less);
      VH_CHECK(it.Valid() == (e != sorted.end()) && (!it.Valid() || Cv::from(it.key()) == *e), "skiplist-iter-key", "%s keys, size %zu: Seek(%llu) is wrong", Cv::name(), m, (unsigned long long)off);
      it.Seek(Cv::to(id));
      VH_CHECK(it.Valid() && Cv::from(it.key()) == id, "skiplist-iter-key", "%s keys, size %zu: Seek(%llu) is wrong", Cv::name(), m, (unsigned long long)id);
      it.Prev();
      VH_CHECK(it.Valid() == (k > 0) && (!k || Cv::from(it.key()) == sorted[k - 1]), "skiplist-iter-key", "%s keys, size %zu: Prev from %llu is wrong", Cv::name(), m, (unsigned long long)id);
    }
  };
  for (size_t i = 0; i < n && vh::st().violations == v0; ++i) {
    list.Insert(Cv::to(ids[i]));
    if ((i & 1023) == 1023) {
      uint64_t p = ids[r.below(i + 1)];
      ++ops;
      VH_CHECK(list.Contains(Cv::to(p)), "skiplist-contains", "%s keys, size %zu: key %llu is not found", Cv::name(), i + 1, (unsigned long long)p);
    }
    if (i == 720000 || i == 1010000) verify(i + 1, 20000, false);
  }
  if (vh::st().violations == v0) verify(n, 60000, true);
  vh::count("inserts", n);
  vh::count("inserts_into_very_large_lists", n);
  vh::count("operations", ops + n);
  if (vh::want_sample()) vh::sample(vh::fmt("case %llu: %s keys, pattern %d, %zu insertions, then every position scanned and %llu sampled operations", (unsigned long long)idx, Cv::name(), pattern, n, (unsigned long long)ops));
  vh::evaluated(vh::mix(vh::hash_str(Cv::name()) ^ n ^ pattern ^ ((uint64_t)add << 20)), true);
}

static void mode_tall() {
  vh::run_cases([](Rng& r, uint64_t i) {
    switch (i % 4) {
      case 0: run_tall<ConvInt>(r, i, 7000000 + r.below(1000), (int)(i / 4) % 2); break;
      case 1: run_tall<ConvU64>(r, i, 1040000 + r.below(100000), 2); break;
      case 2: run_tall<ConvRev>(r, i, 1040000 + r.below(100000), 3); break;
      default: run_tall<ConvInt>(r, i, 1040000 + r.below(100000), 1);
    }
  });
}

static void mode_seq() {
  vh::run_cases([](Rng& r, uint64_t i) {
    size_t n;
    uint64_t k = i % 40;
    if (i == 0) n = 0;
    else if (k < 20) n = r.range(1, 24);
    else if (k < 34) n = r.range(30, 400);
    else if (k < 39) n = r.range(400, 3000);
    else n = vh::st().thorough ? r.range(20000, 400000) : r.range(8000, 40000);
    int pat = (int)r.below(7);
    switch (r.below(7)) {
      case 6: run_seq<ConvDir>(r, i, n, pat); break;
      case 0: run_seq<ConvU64>(r, i, n, pat); break;
      case 1: run_seq<ConvRev>(r, i, n, pat); break;
      case 2: run_seq<ConvMix>(r, i, n, pat); break;
      case 3: run_seq<ConvInt>(r, i, n, pat); break;
      case 4: run_seq<ConvPtr>(r, i, n, pat); break;
      default: run_seq<ConvBig>(r, i, n, pat);
    }
  });
}
#endif  // !VH_STEP

// --------------------------------------------------- reader-side oracle ---
// All keys that the writer of a round will insert, with their insertion index.
typedef lsmdb::SkipList<BigKey, BigCmp> CList;
enum ROp { rContains, rSeek, rFirst, rLast, rNext, rPrev };
static const char* rname[] = {"Contains", "Seek", "SeekToFirst", "SeekToLast", "Next", "Prev"};
static const uint64_t kNone = ~0ull;

struct Universe {
  std::vector<uint64_t> sorted;           // keys ascending
  std::vector<uint32_t> idx;              // insertion index of sorted[i]
  std::vector<std::vector<uint32_t>> rmq;  // range minimum of idx
  std::vector<uint64_t> order;            // order[i] = i-th inserted key
  void build() {
    std::vector<std::pair<uint64_t, uint32_t>> v;
    for (size_t i = 0; i < order.size(); ++i) v.push_back({order[i], (uint32_t)i});
    std::sort(v.begin(), v.end());
    sorted.clear(); idx.clear(); rmq.clear();
    for (auto& p : v) { sorted.push_back(p.first); idx.push_back(p.second); }
    rmq.push_back(idx);
    for (size_t w = 1; w * 2 <= idx.size(); w *= 2) {
      std::vector<uint32_t> n(idx.size() - 2 * w + 1);
      for (size_t i = 0; i < n.size(); ++i) n[i] = std::min(rmq.back()[i], rmq.back()[i + w]);
      rmq.push_back(n);
    }
  }
  // Least insertion index among sorted[a..b), or a huge value when empty.
  uint32_t min_idx(size_t a, size_t b) const {
    if (a >= b) return 0xffffffffu;
    int k = 31 - __builtin_clz((unsigned)(b - a));
    return std::min(rmq[k][a], rmq[k][b - (1u << k)]);
  }
  size_t lb(uint64_t k) const { return std::lower_bound(sorted.begin(), sorted.end(), k) - sorted.begin(); }
  size_t ub(uint64_t k) const { return std::upper_bound(sorted.begin(), sorted.end(), k) - sorted.begin(); }
  // Is `res` right for some prefix of insertions whose length lies in [c0, c1]?
  // Returns null if so, else what is wrong.
  const char* judge(ROp op, uint64_t arg, uint64_t res, uint64_t c0, uint64_t c1) const {
    if (op == rContains) {
      size_t p = lb(arg);
      bool known = p < sorted.size() && sorted[p] == arg;
      if (res) {
        if (!known) return "a key that is never inserted was found";
        return idx[p] + 1 <= c1 ? nullptr : "a key was found before its insertion began";
      }
      return known && idx[p] < c0 ? "a key whose insertion had completed was missed" : nullptr;
    }
    uint64_t n = c0;
    if (res != kNone) {
      size_t p = lb(res);
      if (p >= sorted.size() || sorted[p] != res) return "returned a key that is never inserted";
      n = std::max<uint64_t>(n, idx[p] + 1);
      if (n > c1) return "returned a key before its insertion began";
    }
    size_t a, b;  // keys that must be absent from the prefix
    switch (op) {
      case rSeek:
        if (res != kNone && res < arg) return "landed before the target";
        a = lb(arg); b = res == kNone ? sorted.size() : lb(res); break;
      case rFirst: a = 0; b = res == kNone ? sorted.size() : lb(res); break;
      case rNext:
        if (res != kNone && res <= arg) return "did not advance";
        a = ub(arg); b = res == kNone ? sorted.size() : lb(res); break;
      case rLast: a = res == kNone ? 0 : ub(res); b = sorted.size(); break;
      default:
        if (res != kNone && res >= arg) return "did not step back";
        a = res == kNone ? 0 : ub(res); b = lb(arg);
    }
    return min_idx(a, b) < n ? "skipped a key whose insertion had completed" : nullptr;
  }
};

static uint64_t key_of(const CList::Iterator& it, const char** bad) {
  const BigKey& k = it.key();
  if (!k.good()) *bad = "obtained a key that is not fully constructed";
  return k.k;
}

struct Rec { ROp op; uint64_t arg, res, c0, c1; const char* bad; };
static void report(const Universe& u, const Rec& x, const char* why, const char* where) {
  vh::viol(std::string("skiplist-reader-") + rname[x.op],
           vh::fmt("%s: %s(%llu) gave %s%llu with %llu insertions complete before and %llu begun after: %s (list of %zu)",
                   where, rname[x.op], (unsigned long long)x.arg, x.res == kNone ? "nothing " : "", (unsigned long long)(x.res == kNone ? 0 : x.res),
                   (unsigned long long)x.c0, (unsigned long long)x.c1, why, u.sorted.size()));
}

static std::vector<uint64_t> conc_keys(Rng& r, size_t n) {
  std::vector<uint64_t> v;
  int pat = (int)r.below(5);
  std::set<uint64_t> seen;
  while (v.size() < n) {
    size_t i = v.size();
    uint64_t x;
    switch (pat) {
      case 0: x = 10 + i; break;
      case 1: x = 10 + 2 * (n - i); break;
      case 2: x = 1 + r.below(n * 3); break;
      case 3: x = 1 + r.below(1u << 20); break;
      default: x = 1000 + ((i & 1) ? i : 3 * n - i); break;
    }
    if (seen.insert(x).second) v.push_back(x);
  }
  return v;
}

#ifdef VH_STEP
// ------------------------------------------------------------------ step ---
// (a) A full battery of reads at every atomic step of every insertion.
static void step_case_a(Rng& r, uint64_t i) {
  size_t n = r.range(2, vh::st().thorough ? 28 : 18);
  Universe u;
  u.order = conc_keys(r, n);
  u.build();
  Arena arena;
  CList list(BigCmp(), &arena);
  size_t done = 0, begun = 0;
  uint64_t checks = 0, points = 0;
  bool seen_inflight = false;
  bool busy = false;
  int v0 = vh::st().violations;
  auto battery = [&]() {
    auto one = [&](ROp op, uint64_t arg, uint64_t res, const char* bad) {
      ++checks;
      Rec x{op, arg, res, done, begun, bad};
      const char* why = bad ? bad : u.judge(op, arg, res, done, begun);
      if (why && vh::st().violations == v0) report(u, x, why, "mid-insertion observer");
    };
    CList::Iterator it(&list);
    const char* bad = nullptr;
    it.SeekToFirst();
    uint64_t k = it.Valid() ? key_of(it, &bad) : kNone;
    one(rFirst, 0, k, bad);
    size_t steps = 0;
    bool inflight_here = begun > done && k == u.order[done];
    while (k != kNone && steps++ <= n + 2) {
      uint64_t was = k;
      it.Next();
      k = it.Valid() ? key_of(it, &bad) : kNone;
      one(rNext, was, k, bad);
      if (begun > done && k == u.order[done]) inflight_here = true;
    }
    if (begun > done) {
      if (seen_inflight && !inflight_here) {
        if (vh::st().violations == v0) vh::viol("skiplist-unpublish", "a key seen during its insertion vanished at a later step");
      }
      if (inflight_here) seen_inflight = true;
    }
    it.SeekToLast();
    k = it.Valid() ? key_of(it, &bad) : kNone;
    one(rLast, 0, k, bad);
    steps = 0;
    while (k != kNone && steps++ <= n + 2) {
      uint64_t was = k;
      it.Prev();
      k = it.Valid() ? key_of(it, &bad) : kNone;
      one(rPrev, was, k, bad);
    }
    for (size_t j = 0; j < u.sorted.size(); ++j) {
      uint64_t t = u.sorted[j];
      one(rContains, t, list.Contains(BigKey(t)), nullptr);
      for (uint64_t d = 0; d < 2; ++d) {
        it.Seek(BigKey(t + d));
        k = it.Valid() ? key_of(it, &bad) : kNone;
        one(rSeek, t + d, k, bad);
      }
    }
  };
  std::function<void(StepKind)> hook = [&](StepKind) {
    if (busy || vh::st().violations != v0) return;
    busy = true;
    ++points;
    battery();
    busy = false;
  };
  for (size_t j = 0; j < n && vh::st().violations == v0; ++j) {
    BigKey k(u.order[j]);
    seen_inflight = false;
    g_hook = &hook;
    begun = j + 1;
    list.Insert(k);
    done = j + 1;
    g_hook = nullptr;
    busy = true;
    battery();
    busy = false;
  }
  uint64_t sig = 1;
  for (auto k : u.order) sig = vh::mix(sig ^ k);
  vh::count("insertion_steps_observed", points);
  vh::count("reader_checks", checks);
  vh::evaluated(sig, points > 0);
  if (vh::want_sample()) vh::sample(vh::fmt("step case %llu: %zu insertions, reader battery run at %llu atomic steps, %llu reader results judged", (unsigned long long)i, n, (unsigned long long)points, (unsigned long long)checks));
}

// (b) One or more whole insertions performed inside the j-th load of a reader
// operation, for every j.
static void step_case_b(Rng& r, uint64_t i) {
  size_t n = r.range(1, 20), extra = r.range(1, 3);
  Universe u;
  u.order = conc_keys(r, n + extra);
  u.build();
  uint64_t loads_total = 0, runs = 0;
  int v0 = vh::st().violations;
  for (int op = 0; op <= rPrev; ++op) {
    uint64_t arg = r.one_in(4) ? r.below(u.sorted.back() + 3) : u.order[r.below(n)];
    for (uint64_t at = 1;; ++at) {
      Arena arena;
      CList list(BigCmp(), &arena);
      for (size_t j = 0; j < n; ++j) list.Insert(BigKey(u.order[j]));
      CList::Iterator it(&list);
      if (op == rNext || op == rPrev) { arg = u.order[r.below(n)]; it.Seek(BigKey(arg)); }
      uint64_t loads = 0;
      size_t ins = 0;
      std::function<void(StepKind)> hook = [&](StepKind k) {
        if (k != kLoad) return;
        if (++loads == at || (loads > at && ins < extra && r.one_in(3))) {
          g_hook = nullptr;
          if (ins < extra) { list.Insert(BigKey(u.order[n + ins])); ++ins; }
          g_hook = &hook;
        }
      };
      g_hook = &hook;
      uint64_t res = kNone;
      switch (op) {
        case rContains: res = list.Contains(BigKey(arg)); break;
        case rSeek: it.Seek(BigKey(arg)); break;
        case rFirst: it.SeekToFirst(); break;
        case rLast: it.SeekToLast(); break;
        case rNext: it.Next(); break;
        default: it.Prev();
      }
      g_hook = nullptr;
      const char* bad = nullptr;
      if (op != rContains && it.Valid()) res = key_of(it, &bad);
      Rec x{(ROp)op, arg, res, n, n + ins, bad};
      const char* why = bad ? bad : u.judge(x.op, x.arg, x.res, x.c0, x.c1);
      if (why) { report(u, x, why, "insertion inside a reader's load"); return; }
      ++runs;
      loads_total += loads;
      if (loads < at || at > 200 || vh::st().violations != v0) break;
    }
  }
  uint64_t sig = 2;
  for (auto k : u.order) sig = vh::mix(sig ^ k);
  vh::count("reader_loads_interrupted", runs);
  vh::count("reader_checks", runs);
  vh::evaluated(sig, runs > 0);
}

// ----------------------------------------------------------------- fiber ---
// Random interleavings, at the granularity of atomic accesses, of one writer
// and several readers as coroutines.
struct Fiber {
  ucontext_t ctx;
  std::vector<char> stack;
  std::function<void()> body;
  bool finished = false;
};
static ucontext_t g_main;
static Fiber* g_cur;
static void fiber_entry() {
  g_cur->body();
  g_cur->finished = true;
  swapcontext(&g_cur->ctx, &g_main);
}
static void fiber_case(Rng& r, uint64_t i) {
  size_t n = r.range(3, 40);
  size_t pre = r.below(n);
  int readers = (int)r.range(1, 3);
  Universe u;
  u.order = conc_keys(r, n);
  u.build();
  Arena arena;
  CList list(BigCmp(), &arena);
  for (size_t j = 0; j < pre; ++j) list.Insert(BigKey(u.order[j]));
  size_t done = pre, begun = pre;
  std::vector<Rec> log;
  std::vector<Fiber> fs(readers + 1);
  for (auto& f : fs) {
    f.stack.resize(128 * 1024);
    getcontext(&f.ctx);
    f.ctx.uc_stack.ss_sp = f.stack.data();
    f.ctx.uc_stack.ss_size = f.stack.size();
    f.ctx.uc_link = nullptr;
    makecontext(&f.ctx, fiber_entry, 0);
  }
  fs[0].body = [&]() {
    for (size_t j = pre; j < n; ++j) {
      begun = j + 1;
      list.Insert(BigKey(u.order[j]));
      done = j + 1;
    }
  };
  for (int q = 1; q <= readers; ++q) {
    uint64_t rs = r.next();
    fs[q].body = [&, rs]() {
      Rng rr(rs);
      CList::Iterator it(&list);
      for (int k = 0; k < 40; ++k) {
        bool v = it.Valid();
        ROp op = (ROp)rr.below(6);
        if ((op == rNext || op == rPrev) && !v) op = rr.one_in(2) ? rSeek : rFirst;
        uint64_t arg = rr.one_in(3) ? u.sorted[rr.below(n)] : rr.one_in(2) ? u.order[std::min(n - 1, done)] : rr.below(u.sorted.back() + 2);
        const char* bad = nullptr;
        if (op == rNext || op == rPrev) arg = key_of(it, &bad);
        Rec x{op, arg, kNone, done, 0, nullptr};
        switch (op) {
          case rContains: x.res = list.Contains(BigKey(arg)); break;
          case rSeek: it.Seek(BigKey(arg)); break;
          case rFirst: it.SeekToFirst(); break;
          case rLast: it.SeekToLast(); break;
          case rNext: it.Next(); break;
          default: it.Prev();
        }
        x.c1 = begun;
        if (op != rContains && it.Valid()) x.res = key_of(it, &bad);
        x.bad = bad;
        log.push_back(x);
      }
    };
  }
  uint64_t switches = 0, sig = 3;
  uint64_t steps = 0;
  int burst = (int)r.range(1, 12);
  std::function<void(StepKind)> hook = [&](StepKind) {
    if (++steps > 4000000) { vh::viol("skiplist-nontermination", "a reader or insertion did not finish within 4000000 atomic steps"); vh::finish(); }
    if (r.below(burst) == 0) { ++switches; swapcontext(&g_cur->ctx, &g_main); }
  };
  g_hook = &hook;
  for (;;) {
    std::vector<int> live;
    for (size_t q = 0; q < fs.size(); ++q) if (!fs[q].finished) live.push_back((int)q);
    if (live.empty()) break;
    int q = live[r.below(live.size())];
    sig = vh::mix(sig * 5 + q);
    g_cur = &fs[q];
    swapcontext(&g_main, &fs[q].ctx);
  }
  g_hook = nullptr;
  for (auto& x : log) {
    const char* why = x.bad ? x.bad : u.judge(x.op, x.arg, x.res, x.c0, x.c1);
    if (why) { report(u, x, why, "random interleaving"); break; }
  }
  uint64_t overlap = 0;
  for (auto& x : log) overlap += x.c0 != x.c1;
  vh::count("context_switches", switches);
  vh::count("reader_checks", log.size());
  vh::count("reads_overlapping_an_insertion", overlap);
  vh::evaluated(sig, overlap > 0);
  if (vh::want_sample()) vh::sample(vh::fmt("fiber case %llu: %zu insertions (%zu before), %d readers, %llu switches, %zu reads of which %llu overlapped an insertion", (unsigned long long)i, n, pre, readers, (unsigned long long)switches, log.size(), (unsigned long long)overlap));
}
#else
// ------------------------------------------------------------------ conc ---
static void conc_case(Rng& r, uint64_t i) {
  size_t n = r.range(200, vh::st().thorough ? 8000 : 2500);
  int readers = (int)r.range(2, 6);
  Universe u;
  u.order = conc_keys(r, n);
  u.build();
  Arena arena;
  CList list(BigCmp(), &arena);
  std::atomic<size_t> done{0}, begun{0};
  std::atomic<bool> stop{false};
  std::atomic<int> ready{0};
  std::vector<std::vector<Rec>> logs(readers);
  std::vector<std::thread> ts;
  // The counters are relaxed on purpose: they must not supply the ordering
  // that the list itself has to provide.
  for (int q = 0; q < readers; ++q) {
    uint64_t rs = r.next();
    ts.emplace_back([&, q, rs]() {
      Rng rr(rs);
      CList::Iterator it(&list);
      std::vector<Rec>& log = logs[q];
      log.reserve(60000);
      ready++;
      while (ready.load() < readers) {}
      while (!stop.load(std::memory_order_relaxed) && log.size() < 60000) {
        bool v = it.Valid();
        ROp op = (ROp)rr.below(6);
        if (v && rr.below(3)) op = rr.one_in(4) ? rPrev : rNext;
        if ((op == rNext || op == rPrev) && !v) op = rr.one_in(2) ? rSeek : rFirst;
        size_t d = done.load(std::memory_order_relaxed);
        // Aim near the newest key.
        uint64_t near = u.order[std::min(n - 1, d)];
        uint64_t arg = rr.one_in(3) ? u.sorted[rr.below(n)] : near - (near > 3 ? rr.below(3) : 0);
        const char* bad = nullptr;
        if (op == rNext || op == rPrev) arg = key_of(it, &bad);
        Rec x{op, arg, kNone, 0, 0, nullptr};
        x.c0 = done.load(std::memory_order_relaxed);
        switch (op) {
          case rContains: x.res = list.Contains(BigKey(arg)); break;
          case rSeek: it.Seek(BigKey(arg)); break;
          case rFirst: it.SeekToFirst(); break;
          case rLast: it.SeekToLast(); break;
          case rNext: it.Next(); break;
          default: it.Prev();
        }
        std::atomic_signal_fence(std::memory_order_seq_cst);
        x.c1 = begun.load(std::memory_order_relaxed);
        if (op != rContains && it.Valid()) x.res = key_of(it, &bad);
        x.bad = bad;
        log.push_back(x);
      }
    });
  }
  // Another list, with a writer and arena of its own, must not matter.
  std::thread aside;
  if (r.one_in(2)) {
    uint64_t rs = r.next();
    aside = std::thread([&, rs]() {
      Rng q(rs);
      while (!stop.load(std::memory_order_relaxed)) {
        Arena a2;
        CList l2(BigCmp(), &a2);
        std::set<uint64_t> m2;
        for (int k = 0; k < 300 && !stop.load(std::memory_order_relaxed); ++k) { uint64_t x = q.next(); if (m2.insert(x).second) l2.Insert(BigKey(x)); }
        CList::Iterator it(&l2);
        it.SeekToFirst();
        for (auto e : m2) { if (!it.Valid() || it.key().k != e) { vh::viol_once("skiplist-conc-order", "a list used by one thread alone lost a key beside another list's writer"); break; } it.Next(); }
      }
    });
    vh::count("cases_beside_another_list");
  }
  while (ready.load() < readers) {}
  int spin = (int)r.pick(std::vector<int>{50, 400, 1500});
  for (size_t j = 0; j < n; ++j) {
    begun.store(j + 1, std::memory_order_relaxed);
    list.Insert(BigKey(u.order[j]));
    done.store(j + 1, std::memory_order_relaxed);
    for (volatile int k = (int)r.below(spin); k > 0; k = k - 1) {}
  }
  stop = true;
  for (auto& t : ts) t.join();
  if (aside.joinable()) aside.join();
  uint64_t total = 0, overlap = 0, sig = 4;
  bool told = false;
  for (auto& log : logs) {
    for (auto& x : log) {
      ++total;
      overlap += x.c0 != x.c1;
      sig = vh::mix(sig ^ (x.c0 << 20) ^ x.res);
      const char* why = x.bad ? x.bad : u.judge(x.op, x.arg, x.res, x.c0, x.c1);
      if (why && !told) { report(u, x, why, "real threads"); told = true; }
    }
  }
  vh::count("reader_checks", total);
  vh::count("reads_overlapping_an_insertion", overlap);
  vh::evaluated(sig, overlap > 0);
  if (vh::want_sample()) vh::sample(vh::fmt("conc case %llu: %zu insertions, %d readers, %llu reads of which %llu overlapped an insertion", (unsigned long long)i, n, readers, (unsigned long long)total, (unsigned long long)overlap));
}
#endif

int main(int argc, char** argv) {
  vh::parse(argc, argv);
  const std::string& m = vh::st().mode;
#ifdef VH_STEP
  if (m == "step") vh::run_cases([](Rng& r, uint64_t i) { if (i % 4 == 3) step_case_b(r, i); else step_case_a(r, i); });
  else if (m == "fiber") vh::run_cases(fiber_case);
#else
  if (m == "seq") mode_seq();
  else if (m == "tall") mode_tall();
  else if (m == "conc") vh::run_cases(conc_case);
#endif
  else vh::broken("unknown mode " + m);
  return vh::finish();
}
