// C04 (map), C05 (lru), C06 (del, concdel), C07 (conc, ids), C08 (charge, conccharge): the cache.
#include "vh.h"

#include <algorithm>
#include <limits>
#include <memory>

#include <pthread.h>

#include "lsmdb/cache.h"
#include "lsmdb/slice.h"
#include "util/hash.h"

using lsmdb::Cache;
using lsmdb::Slice;
using vh::Rng;

// ------------------------------------------------------------- delays ------
static std::atomic<int> g_delay{0};
static thread_local uint64_t t_rng = 0x1234567;
static void jitter() {
  int d = g_delay.load(std::memory_order_relaxed);
  if (!d) return;
  t_rng = vh::mix(t_rng + 0x51);
  unsigned x = (unsigned)(t_rng >> 33) % 100;
  if (x < (unsigned)d) {
    if (x % 3 == 0) sched_yield();
    else for (volatile int i = (int)(t_rng & 511); i > 0; i = i - 1) {}
  }
}
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { jitter(); return __real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { int r = __real_pthread_mutex_unlock(m); jitter(); return r; }
}

// --------------------------------------------------------------- keys ------
struct Universe {
  std::vector<std::string> generic, special, collide, twins, bucket, all;
  Universe() {
    for (int i = 0; i < 180; ++i) {
      char b[8];
      for (int j = 0; j < 4; ++j) b[j] = (char)(i >> (8 * j));
      generic.push_back(std::string(b, 4));
    }
    for (int i = 0; i < 60; ++i) generic.push_back("key" + std::to_string(i * 7919));
    special = {"", std::string("\0", 1), std::string("\0\0", 2), std::string("\0\0\0\0\0", 5), "a", std::string("a\0", 2), std::string("a\0b", 3), std::string("a\0c", 3), "ab", "abc", std::string("\xff", 1), std::string("\xff\xff\xff\xff\xff", 5),
               std::string(1000, 'x'), std::string(1000, 'x') + "y", std::string(999, 'x') + "z", std::string(70000, 'q'), "z" + std::string(999, 'x')};
    // Distinct keys with the same full hash, and keys that share part and bucket.
    std::map<uint32_t, std::string> seen;
    Rng r(99);
    for (int i = 0; i < 300000 && collide.size() < 24; ++i) {
      std::string k = r.bytes(6 + r.below(3));
      uint32_t h = lsmdb::Hash(k.data(), k.size(), 0);
      auto it = seen.find(h);
      if (it != seen.end() && it->second != k) { collide.push_back(it->second); collide.push_back(k); }
      else seen[h] = k;
    }
    // The same, among keys that agree up to a NUL byte, in all but one word, or as
    // prefixes of one another (built for the hash as documented, kept if they do collide).
    {
      const uint32_t m = 0xc6a4a793u;
      uint32_t inv = 1;
      for (int i = 0; i < 5; ++i) inv *= 2 - m * inv;
      auto word = [](uint32_t w) { std::string b(4, 0); for (int j = 0; j < 4; ++j) b[j] = (char)(w >> (8 * j)); return b; };
      auto state = [&](const std::string& k, size_t n) {  // after the whole words of k, for total length n
        uint32_t h = (uint32_t)n * m;
        for (size_t i = 0; i + 4 <= k.size(); i += 4) { uint32_t w = 0; for (int j = 0; j < 4; ++j) w |= (uint32_t)(uint8_t)k[i + j] << (8 * j); h += w; h *= m; h ^= h >> 16; }
        return h;
      };
      auto complete = [&](const std::string& p, uint32_t target) {  // p plus the word that gives the hash
        uint32_t t = target ^ (target >> 16);
        return p + word(t * inv - state(p, p.size() + 4));
      };
      const uint32_t targets[] = {0x5a5a1234u, 0u, 0xffffffffu};
      for (uint32_t tg : targets) {
        std::vector<std::string> v;
        v.push_back(complete(std::string("ab\0c", 4), tg));
        v.push_back(complete(std::string("ab\0d", 4), tg));
        v.push_back(complete(std::string("ab\0\0", 4), tg));
        v.push_back(complete(std::string("\0\0\0\1", 4), tg));
        v.push_back(complete("", tg));
        v.push_back(complete("ab", tg).size() == 6 ? complete("abcd", tg) : complete("abce", tg));
        v.push_back(complete(v[0], tg));   // v[0] is a prefix of this one
        v.push_back(complete(v[4], tg));
        v.push_back(complete(v[6], tg));
        std::string far(60, 'p');
        v.push_back(complete(far + "1111", tg));
        v.push_back(complete(far + "2222", tg));
        for (size_t len : {100, 300, 1000, 5000}) { v.push_back(complete(std::string(len, 'p') + "1111", tg)); v.push_back(complete(std::string(len, 'p') + "2222", tg)); }
        for (auto& k : v) if (lsmdb::Hash(k.data(), k.size(), 0) == tg) twins.push_back(k);
      }
      // Keys that differ early and agree in a long tail.
      for (size_t pre : {4, 64, 1000})
        for (size_t tail : {1, 8, 60, 250, 3000}) {
          size_t n = pre + 4 + tail;
          std::vector<std::string> v;
          for (int i = 0; i < 2; ++i) {
            std::string pk(pre, (char)('A' + i));
            v.push_back(pk + word(0x1234567u - state(pk, n)) + std::string(tail, 't'));
          }
          if (lsmdb::Hash(v[0].data(), n, 0) == lsmdb::Hash(v[1].data(), n, 0)) { twins.push_back(v[0]); twins.push_back(v[1]); }
        }
    }
    for (int i = 0; i < 400000 && bucket.size() < 48; ++i) {
      std::string k = "b" + std::to_string(i);
      uint32_t h = lsmdb::Hash(k.data(), k.size(), 0);
      if ((h >> 28) == 5 && (h & 63) == 9) bucket.push_back(k);
    }
    for (auto* v : {&generic, &special, &collide, &twins, &bucket}) all.insert(all.end(), v->begin(), v->end());
    std::set<std::string> s;
    std::vector<std::string> u;
    for (auto& k : all) if (s.insert(k).second) u.push_back(k);
    all = u;
  }
};
static Universe& uni() { static Universe* u = new Universe; return *u; }

static std::vector<std::string> pick_keys(Rng& r) {
  Universe& u = uni();
  switch (r.below(8)) {
    case 0: return u.all;
    case 6: if (!u.twins.empty()) return u.twins; return u.collide;
    case 1: return u.collide.empty() ? u.special : u.collide;
    case 2: return u.bucket.empty() ? u.special : u.bucket;
    case 3: return u.special;
    case 4: { std::vector<std::string> v; for (int i = 0; i < 6; ++i) v.push_back(r.pick(u.all)); return v; }
    case 5: { std::vector<std::string> v = u.bucket; v.insert(v.end(), u.collide.begin(), u.collide.end()); v.push_back(""); return v; }
    default: return u.generic;
  }
}

// ------------------------------------------------------------ entries ------
static const uint64_t kMagic = 0xC0FFEE1234ull;
struct Val { uint64_t magic; int id; };
static Val g_shared{kMagic, -1};  // one value inserted many times
struct Ent {
  int id;
  bool own = true;        // the value belongs to this entry alone
  std::string key;
  size_t charge = 0;
  Val* v = nullptr;
  int deleted = 0;        // deleter calls
  bool visible = false;   // latest under its key and not erased
  bool gone = false;      // a lookup missed it
  uint64_t stamp = 0;
  int cls = 0;
  std::vector<Cache::Handle*> hs;
  std::string bad;
};

struct Sim {
  std::shared_ptr<Cache> c;
  std::vector<std::unique_ptr<Ent>> es;
  std::map<std::string, int> latest;
  std::vector<int> held;          // ids, one per handle
  std::vector<int> newly;         // deleter calls since last taken
  uint64_t clock = 0, sig = 1;
  uint64_t deletes = 0;

  Ent& insert(const std::string& k, size_t charge, Cache::Handle** out, Rng& r) {
    int id = (int)es.size();
    es.emplace_back(new Ent);
    Ent* e = es.back().get();
    e->id = id;
    e->key = k;
    e->charge = charge;
    unsigned vk = (unsigned)r.below(14);
    e->own = vk >= 2;
    e->v = vk == 0 ? nullptr : vk == 1 ? &g_shared : new Val{kMagic, id};
    // The caller's key bytes may go away after the call; the block has the exact size.
    char* kb = new char[k.size() ? k.size() : 1];
    memcpy(kb, k.data(), k.size());
    Val* v = e->v;
    std::function<void(const Slice&, void*)> del;
    auto body = [this, e, v](const Slice& key, void* value) {
      e->deleted++;
      deletes++;
      newly.push_back(e->id);
      if (std::string(key.data(), key.size()) != e->key) e->bad = "deleter called with key \"" + vh::esc(std::string(key.data(), key.size()), 40) + "\" instead of \"" + vh::esc(e->key, 40) + "\"";
      else if (value != v) e->bad = "deleter called with another value";
      if (!e->hs.empty()) e->bad = vh::fmt("deleter called while %zu handles were held", e->hs.size());
      if (e->deleted == 1 && e->own) { v->magic = 0; delete v; e->v = nullptr; }
    };
    if (r.one_in(2)) {
      std::string big(64, 'd');  // a deleter object that does not fit in place
      del = [body, big](const Slice& key, void* value) { if (big.size() == 64) body(key, value); };
    } else {
      del = body;
    }
    auto it = latest.find(k);
    if (it != latest.end()) { es[it->second]->visible = false; }
    latest[k] = id;
    e->visible = true;
    Cache::Handle* h = c->Insert(Slice(kb, k.size()), v, charge, del);
    del = nullptr;
    memset(kb, 0xEE, k.size());
    delete[] kb;
    e->hs.push_back(h);
    held.push_back(id);
    *out = h;
    sig = vh::mix(sig ^ vh::hash_str(k) ^ charge);
    return *e;
  }
  // Ends one handle of entry id.
  void release(size_t held_index) {
    int id = held[held_index];
    held[held_index] = held.back();
    held.pop_back();
    Ent& e = *es[id];
    Cache::Handle* h = e.hs.back();
    e.hs.pop_back();
    if (e.hs.empty()) e.stamp = ++clock;
    sig = vh::mix(sig ^ id);
    c->Release(h);
  }
  size_t find_held(int id) {
    for (size_t i = held.size(); i-- > 0;) if (held[i] == id) return i;
    return 0;
  }
  Cache::Handle* lookup(const std::string& k) {
    std::string kk = k;
    kk.shrink_to_fit();
    return c->Lookup(Slice(kk.data(), kk.size()));
  }
  void erase(const std::string& k) {
    auto it = latest.find(k);
    if (it != latest.end()) { es[it->second]->visible = false; latest.erase(it); }
    sig = vh::mix(sig ^ vh::hash_str(k) ^ 99);
    c->Erase(k);
  }
  void release_all() { while (!held.empty()) release(held.size() - 1); }
};

static std::string kname(const std::string& k) { return "\"" + vh::esc(k, 24) + "\""; }

static size_t gen_capacity(Rng& r) {
  static const std::vector<size_t> caps = {0, 1, 7, 15, 16, 17, 31, 32, 33, 48, 64, 100, 160, 161, 400, 1000, 1600, 4000, 100000, (size_t)1 << 40,
                                           std::numeric_limits<size_t>::max(), std::numeric_limits<size_t>::max() - 1, std::numeric_limits<size_t>::max() - 14, std::numeric_limits<size_t>::max() - 15, std::numeric_limits<size_t>::max() - 16};
  return r.one_in(3) ? r.range(1, 2000) : r.pick(caps);
}
static size_t gen_charge(Rng& r, int style, size_t cap) {
  switch (style) {
    case 0: return 1;
    case 1: return r.below(4);
    case 2: return r.one_in(10) ? std::min<size_t>(cap / 16 + r.below(3), 1ull << 40) : r.range(1, 5);
    case 3: return r.skewed(8);
    case 4: return r.one_in(8) ? (size_t)1 << 50 : r.range(0, 9);
    default: return r.range(1, std::max<size_t>(1, std::min<size_t>(cap / 16, 1000)));
  }
}

// ---------------------------------------------------------------- map ------
// C04.  Removals without being asked (evictions) are learned from misses and
// from deleter calls; what may never happen is checked.
// Many entries: the tables grow to tens of thousands and lose nothing.
static void bulk_case(Rng& r, uint64_t idx) {
  size_t n = vh::st().thorough ? r.range(3000, 300000) : idx % 800 == 150 ? r.range(100000, 200000) : r.range(3000, 30000);
  auto c = lsmdb::NewLRUCache((size_t)1 << 50);
  uint64_t salt = r.next() % 1000, sig = vh::mix(n ^ salt << 32);
  auto key = [&](size_t i) { return "k" + std::to_string(i * 2654435761ull + salt); };
  std::vector<uintptr_t> val(n, 0);
  uint64_t hits = 0;
  int v0 = vh::st().violations;
  auto check = [&](size_t i) {
    std::string k = key(i);
    Cache::Handle* h = c->Lookup(k);
    uintptr_t got = h ? (uintptr_t)c->Value(h) : 0;
    if (h) c->Release(h);
    hits += h != nullptr;
    if (got == val[i]) return;
    if (!got) vh::viol("cache-pinned-missed", vh::fmt("an entry of a cache that is far from full is not found (%zu entries)", n));
    else vh::viol(val[i] ? "cache-wrong-value" : "cache-resurrect", vh::fmt("lookup among %zu entries gave value %llu, expected %llu", n, (unsigned long long)got, (unsigned long long)val[i]));
  };
  std::vector<Cache::Handle*> keep;  // every entry stays pinned, so a miss is never an eviction
  for (size_t i = 0; i < n && vh::st().violations == v0; ++i) {
    val[i] = i + 1;
    keep.push_back(c->Insert(key(i), (void*)(i + 1), 1, [](const Slice&, void*) {}));
    if (r.one_in(8)) check(r.below(i + 1));
    if (r.one_in(16)) { size_t j = r.below(i + 1); c->Erase(key(j)); val[j] = 0; check(j); }
    if (r.one_in(16)) { size_t j = r.below(i + 1); val[j] = n + i + 1; keep.push_back(c->Insert(key(j), (void*)val[j], 1, [](const Slice&, void*) {})); check(j); }
  }
  for (size_t i = 0; i < n && vh::st().violations == v0; ++i) check(i);
  for (size_t i = 0; i < n && vh::st().violations == v0; i += 2) { c->Erase(key(i)); val[i] = 0; }
  for (size_t i = 0; i < n && vh::st().violations == v0; ++i) check(i);
  for (auto h : keep) c->Release(h);
  vh::count("lookup_hits", hits);
  vh::count("insertions", keep.size());
  vh::count("bulk_entries", n);
  vh::evaluated(sig);
  if (vh::want_sample()) vh::sample(vh::fmt("case %llu: %zu entries at once, each checked twice", (unsigned long long)idx, n));
}

static void map_case(Rng& r, uint64_t idx) {
  if (idx % 200 == 150) return bulk_case(r, idx);
  std::vector<std::string> keys = pick_keys(r);
  size_t cap = r.one_in(8) ? 0 : r.one_in(2) ? 1000000 : gen_capacity(r);
  int style = (int)r.below(6);
  Sim s;
  s.c = lsmdb::NewLRUCache(cap);
  size_t n = r.range(30, vh::st().thorough ? 2500 : 900);
  int v0 = vh::st().violations;
  uint64_t hits = 0, misses = 0;
  size_t maxheld = r.one_in(3) ? keys.size() * 2 : r.range(1, 20);
  auto look = [&](const std::string& k, bool hold) {
    Cache::Handle* h = s.lookup(k);
    auto it = s.latest.find(k);
    Ent* e = it == s.latest.end() ? nullptr : s.es[it->second].get();
    if (h) {
      ++hits;
      void* v = s.c->Value(h);
      if (cap == 0) vh::viol("cache-zero-capacity", "a cache of capacity 0 found key " + kname(k));
      else if (!e) vh::viol("cache-resurrect", vh::fmt("lookup of %s found a value although the key was erased or never inserted", kname(k).c_str()));
      else if (v != e->v || e->deleted) vh::viol("cache-wrong-value", vh::fmt("lookup of %s did not return the value inserted last (entry %d, %zu insertions so far)", kname(k).c_str(), e->id, s.es.size()));
      else if (e->gone) vh::viol("cache-resurrect", vh::fmt("lookup of %s found a value that an earlier lookup had missed", kname(k).c_str()));
      else {
        if (e->own && (e->v->magic != kMagic || e->v->id != e->id)) vh::viol("cache-wrong-value", "value content changed");
        e->hs.push_back(h);
        s.held.push_back(e->id);
        if (!hold) s.release(s.find_held(e->id));
        return;
      }
      if (vh::st().violations == v0) s.c->Release(h);
    } else {
      ++misses;
      if (e && !e->hs.empty() && cap > 0) vh::viol("cache-pinned-missed", vh::fmt("lookup of %s missed although a handle is held and it was neither replaced nor erased (%zu insertions, %zu handles held)", kname(k).c_str(), s.es.size(), s.held.size()));
      if (e) e->gone = true;
    }
  };
  // Another cache with the same keys, used in turn, must not matter.
  std::shared_ptr<Cache> other;
  std::map<std::string, uintptr_t> olatest;
  uintptr_t onext = 1;
  if (r.one_in(3)) { other = lsmdb::NewLRUCache(1000000); vh::count("cases_beside_another_cache"); }
  for (size_t i = 0; i < n && vh::st().violations == v0; ++i) {
    const std::string& k = r.pick(keys);
    if (other && r.one_in(3)) {
      const std::string& ok = r.one_in(2) ? k : r.pick(keys);
      switch (r.below(6)) {
        case 0: case 1: olatest[ok] = onext; other->Release(other->Insert(ok, (void*)onext++, 1, [](const Slice&, void*) {})); break;
        case 2: case 3: {
          Cache::Handle* h = other->Lookup(ok);
          uintptr_t got = h ? (uintptr_t)other->Value(h) : 0;
          if (h) other->Release(h);
          if (h && (!olatest.count(ok) || olatest[ok] != got)) vh::viol(olatest.count(ok) ? "cache-wrong-value" : "cache-resurrect", vh::fmt("a second cache used in turn answers for %s with a value it does not hold", kname(ok).c_str()));
          break;
        }
        case 4: olatest.erase(ok); other->Erase(ok); break;
        default: if (r.one_in(20)) { other = lsmdb::NewLRUCache(r.one_in(2) ? 0 : 1000000); olatest.clear(); }
      }
    }
    switch (r.below(12)) {
      case 0: case 1: case 2: case 3: {
        Cache::Handle* h;
        size_t before = s.es.size();
        Ent& e = s.insert(k, gen_charge(r, style, cap), &h, r);
        if (!h) { vh::viol("cache-insert-null", "Insert returned null"); return; }
        if (s.c->Value(h) != e.v) vh::viol("cache-wrong-value", vh::fmt("the handle returned by Insert(%s) has another value", kname(k).c_str()));
        if (r.one_in(3)) look(k, false);
        if (s.held.size() > maxheld || r.one_in(2)) s.release(s.find_held((int)before));
        break;
      }
      case 4: case 5: case 6: case 7: look(k, s.held.size() < maxheld && r.one_in(3)); break;
      case 8: s.erase(k); if (r.one_in(2)) look(k, false); break;
      case 9: case 10: if (!s.held.empty()) s.release(r.below(s.held.size())); break;
      default:
        if (r.one_in(10)) s.c->Prune();
        else if (r.one_in(10)) for (auto& q : keys) look(q, false);
    }
    s.newly.clear();
  }
  if (vh::st().violations == v0) {
    for (auto& q : keys) look(q, false);
    s.release_all();
    s.c.reset();
  } else {
    new std::shared_ptr<Cache>(s.c);  // keep it: handles may be inconsistent
  }
  vh::count("lookup_hits", hits);
  vh::count("lookup_misses", misses);
  vh::count("insertions", s.es.size());
  vh::evaluated(s.sig, hits > 0 || cap == 0);
  if (vh::want_sample()) vh::sample(vh::fmt("case %llu: %zu keys, capacity %zu, %zu operations, %llu hits, %llu misses, %zu insertions", (unsigned long long)idx, keys.size(), cap, n, (unsigned long long)hits, (unsigned long long)misses, s.es.size()));
}

// ---------------------------------------------------------------- lru ------
// C05.  Parts of the cache are discovered by which keys displace each other in
// a cache whose every part holds a charge of 1.
static std::map<std::string, int> g_cls;
static int g_nparts = 0;
static std::vector<std::string> g_reps;
static void nodel(const Slice&, void*) {}
static void discover() {
  std::vector<std::string> reps;
  auto c = lsmdb::NewLRUCache(1);
  for (auto& k : uni().all) {
    int found = -1;
    for (size_t i = 0; i < reps.size() && found < 0; ++i) {
      c->Release(c->Insert(reps[i], nullptr, 1, nodel));
      c->Release(c->Insert(k, nullptr, 1, nodel));
      Cache::Handle* h = c->Lookup(reps[i]);
      if (h) c->Release(h);
      else found = (int)i;
      c->Erase(reps[i]);
      c->Erase(k);
    }
    if (found < 0) { found = (int)reps.size(); reps.push_back(k); }
    g_cls[k] = found;
  }
  g_nparts = (int)reps.size();
  g_reps = reps;
  c->Release(c->Insert(reps[0], nullptr, 1, nodel));
  Cache::Handle* h = c->Lookup(reps[0]);
  if (h) c->Release(h);
  else vh::viol_once("cache-capacity-lost", "a cache of capacity 1 does not hold one entry of charge 1");
}

// Thousands of entries in one part: one insertion that evicts a great many,
// prunes of many, long pinned stretches.

static void big_lru_case(Rng& r, uint64_t idx) {
  static std::vector<std::vector<std::string>> by;  // keys of each part
  if (by.empty()) {
    by.resize(g_nparts);
    auto c = lsmdb::NewLRUCache(1);
    for (auto& k : g_reps) c->Release(c->Insert(k, nullptr, 1, nodel));
    for (int i = 0; i < 40000; ++i) {
      std::string k = "w" + std::to_string(i);
      c->Release(c->Insert(k, nullptr, 1, nodel));
      for (int p = 0; p < g_nparts; ++p) {
        Cache::Handle* h = c->Lookup(g_reps[p]);
        if (h) { c->Release(h); continue; }
        by[p].push_back(k);
        c->Erase(k);
        c->Release(c->Insert(g_reps[p], nullptr, 1, nodel));
        break;
      }
    }
  }
  size_t np = r.one_in(2) ? 1 : r.range(1, g_nparts);
  std::vector<std::pair<std::string, int>> keys;
  int p0 = (int)r.below(g_nparts);
  for (size_t q = 0; q < np; ++q) { int p = (p0 + (int)q) % g_nparts; for (auto& k : by[p]) keys.push_back({k, p}); }
  if (keys.size() < 500) return;
  const size_t P = r.pick(std::vector<size_t>{1500, 2500, 5000, 100000});
  Sim s;
  s.c = lsmdb::NewLRUCache(P * g_nparts);
  int v0 = vh::st().violations;
  std::vector<std::set<std::pair<uint64_t, int>>> idle(g_nparts);
  std::vector<size_t> usage(g_nparts, 0);
  uint64_t evictions = 0, most = 0, pruned = 0;
  auto settle = [&](std::vector<int>& want, const char* op) {
    std::sort(want.begin(), want.end());
    std::sort(s.newly.begin(), s.newly.end());
    if (want != s.newly) {
      std::vector<int> a, b;
      std::set_difference(s.newly.begin(), s.newly.end(), want.begin(), want.end(), std::back_inserter(a));
      std::set_difference(want.begin(), want.end(), s.newly.begin(), s.newly.end(), std::back_inserter(b));
      if (!a.empty()) vh::viol("cache-evict-wrong", vh::fmt("%s among %zu keys: %zu entries left that should have stayed, first entry %d (last in use at %llu); %zu should have left", op, keys.size(), a.size(), a[0], (unsigned long long)s.es[a[0]]->stamp, want.size()));
      else if (!b.empty()) vh::viol("cache-evict-missing", vh::fmt("%s among %zu keys: %zu of the %zu unpinned entries that should have left stayed, first entry %d (last in use at %llu)", op, keys.size(), b.size(), want.size(), b[0], (unsigned long long)s.es[b[0]]->stamp));
    }
    s.newly.clear();
  };
  auto gone = [&](int id) { Ent& e = *s.es[id]; e.visible = false; usage[e.cls] -= e.charge; auto it = s.latest.find(e.key); if (it != s.latest.end() && it->second == id) s.latest.erase(it); };
  auto release = [&](size_t at) {
    int id = s.held[at];
    s.release(at);
    Ent& e = *s.es[id];
    std::vector<int> want;
    if (e.hs.empty()) { if (e.visible) idle[e.cls].insert({e.stamp, id}); else want.push_back(id); }
    settle(want, "Release");
  };
  auto put = [&](const std::pair<std::string, int>& k, size_t ch) {
    int cls = k.second;
    std::vector<int> want, ev;
    auto it = s.latest.find(k.first);
    if (it != s.latest.end()) {
      Ent& o = *s.es[it->second];
      usage[cls] -= o.charge;
      if (o.hs.empty()) { want.push_back(o.id); idle[cls].erase({o.stamp, o.id}); }
    }
    usage[cls] += ch;
    size_t u = usage[cls];
    auto& q = idle[cls];
    for (auto j = q.begin(); u > P && j != q.end(); ++j) { ev.push_back(j->second); u -= s.es[j->second]->charge; }
    Cache::Handle* h;
    Ent& e = s.insert(k.first, ch, &h, r);
    e.cls = cls;
    for (int x : ev) { idle[cls].erase({s.es[x]->stamp, x}); gone(x); }
    evictions += ev.size();
    most = std::max<uint64_t>(most, ev.size());
    want.insert(want.end(), ev.begin(), ev.end());
    settle(want, "Insert");
  };
  size_t maxheld = r.pick(std::vector<size_t>{1, 50, 3000});
  size_t steps = vh::st().thorough ? 60000 : 12000;
  size_t filled = 0, fill = r.one_in(2) ? keys.size() : 0;
  for (size_t i = 0; i < steps && vh::st().violations == v0; ++i) {
    unsigned op = (unsigned)r.below(2000);
    if (filled < fill) {
      put(keys[filled++], 1);
      op = 1990;
    }
    if (op == 0) {
      std::vector<int> want;
      for (auto& q : idle) { for (auto& x : q) want.push_back(x.second); q.clear(); }
      s.c->Prune();
      pruned = std::max<uint64_t>(pruned, want.size());
      for (int x : want) gone(x);
      settle(want, "Prune");
    } else if (op <= 2) {
      put(r.pick(keys), r.one_in(2) ? P : r.range(1, P + P / 2));
    } else if (op < 1200) {
      put(r.pick(keys), r.one_in(4) ? r.below(4) : 1);
    } else if (op < 1900) {
      auto& k = r.pick(keys);
      Cache::Handle* h = s.lookup(k.first);
      auto it = s.latest.find(k.first);
      Ent* e = it == s.latest.end() ? nullptr : s.es[it->second].get();
      if (!h && !e) continue;
      if (!h) { if (e->hs.empty()) vh::viol("cache-evict-wrong", vh::fmt("key %s is gone although no over-full insertion evicted it", kname(k.first).c_str())); break; }
      if (!e || s.c->Value(h) != e->v) { v0 = -1; break; }  // another property's business
      if (e->hs.empty()) idle[e->cls].erase({e->stamp, e->id});
      e->hs.push_back(h);
      s.held.push_back(e->id);
    } else if (op < 1930) {
      auto& k = r.pick(keys);
      auto it = s.latest.find(k.first);
      std::vector<int> want;
      if (it != s.latest.end()) { Ent& e = *s.es[it->second]; usage[e.cls] -= e.charge; if (e.hs.empty()) { want.push_back(e.id); idle[e.cls].erase({e.stamp, e.id}); } }
      s.erase(k.first);
      settle(want, "Erase");
    }
    while (vh::st().violations == v0 && (s.held.size() > maxheld || (!s.held.empty() && r.one_in(3)))) release(r.below(s.held.size()));
    if (r.one_in(1500) || (filled && filled == fill && i == fill)) while (vh::st().violations == v0 && !s.held.empty()) release(r.below(s.held.size()));
  }
  if (vh::st().violations == v0) { s.release_all(); s.c.reset(); }
  else { vh::count("cases_given_up", v0 < 0); new std::shared_ptr<Cache>(s.c); }
  vh::count("evictions", evictions);
  vh::count("insertions", s.es.size());
  vh::count_max("max_victims_of_one_insertion", most);
  vh::count_max("max_entries_pruned_at_once", pruned);
  vh::evaluated(s.sig, evictions > 0);
  if (vh::want_sample()) vh::sample(vh::fmt("big case %llu: %zu keys in %zu parts of %zu, %zu insertions, %llu evictions, up to %llu by one insertion, %llu by one prune", (unsigned long long)idx, keys.size(), np, P, s.es.size(), (unsigned long long)evictions, (unsigned long long)most, (unsigned long long)pruned));
}

static void lru_case(Rng& r, uint64_t idx) {
  if (!g_nparts) discover();
  if (vh::st().violations) return;
  if (idx % 100 == 27) return big_lru_case(r, idx);
  std::vector<std::string> keys = pick_keys(r);
  size_t cap = r.one_in(4) ? r.range(1, 40) * g_nparts : gen_capacity(r);
  const size_t P = cap / g_nparts + (cap % g_nparts != 0);
  int style = (int)r.below(6);
  Sim s;
  s.c = lsmdb::NewLRUCache(cap);
  size_t n = r.range(30, vh::st().thorough ? 3000 : 1000);
  int v0 = vh::st().violations;
  size_t maxheld = r.one_in(4) ? 60 : r.range(1, 8);
  uint64_t evictions = 0, pinned_over = 0;
  bool desync = false;
  // Model: visible entries per part.
  std::vector<std::set<int>> part(g_nparts);
  std::vector<size_t> usage(g_nparts, 0);
  auto drop = [&](Ent& e) { part[e.cls].erase(e.id); usage[e.cls] -= e.charge; e.visible = false; auto it = s.latest.find(e.key); if (it != s.latest.end() && it->second == e.id) s.latest.erase(it); };
  // Compares the deleter calls of the last operation with what the model removed.
  auto settle = [&](const std::vector<int>& leave, const char* op, const std::string& k, const std::set<int>& expl) {
    std::set<int> want(leave.begin(), leave.end()), got(s.newly.begin(), s.newly.end());
    s.newly.clear();
    for (int id : got)
      if (!want.count(id)) {
        if (expl.count(id) || !s.es[id]->visible) { desync = true; continue; }  // not an eviction: another property's business
        Ent& e = *s.es[id];
        vh::viol("cache-evict-wrong", vh::fmt("%s(%s): entry %d (key %s, charge %zu, last in use at %llu) left the cache; capacity %zu of its part, charge %zu, expected victims: %zu", op, kname(k).c_str(), id, kname(e.key).c_str(), e.charge, (unsigned long long)e.stamp, P, usage[e.cls], want.size()));
        return;
      }
    for (int id : want)
      if (!got.count(id)) {
        if (expl.count(id)) { desync = true; continue; }
        Ent& e = *s.es[id];
        vh::viol("cache-evict-missing", vh::fmt("%s(%s): unpinned entry %d (key %s, charge %zu, last in use at %llu) stayed; capacity of the part %zu of %zu requested", op, kname(k).c_str(), id, kname(e.key).c_str(), e.charge, (unsigned long long)e.stamp, P, cap));
        return;
      }
  };
  auto oldest = [&](int cls) {
    int best = -1;
    for (int id : part[cls])
      if (s.es[id]->hs.empty() && (best < 0 || s.es[id]->stamp < s.es[best]->stamp)) best = id;
    return best;
  };
  size_t total = 0;
  for (size_t i = 0; i < n && vh::st().violations == v0 && !desync; ++i) {
    const std::string& k = r.pick(keys);
    unsigned op = (unsigned)r.below(12);
    if (op < 5) {
      size_t ch = gen_charge(r, style, cap);
      if (total > ((size_t)1 << 61)) ch = 1;
      total += ch;
      int cls = g_cls[k];
      std::vector<int> leave;
      std::set<int> expl;
      // Replacement.
      auto it = s.latest.find(k);
      int old = it == s.latest.end() ? -1 : it->second;
      Cache::Handle* h;
      // Model first (the cache calls deleters inside Insert).
      std::vector<int> evict;
      if (P > 0) {
        size_t u = usage[cls] + ch;
        if (old >= 0) u -= s.es[old]->charge;
        std::set<int> rest = part[cls];
        if (old >= 0) rest.erase(old);
        while (u > P) {
          int best = -1;
          for (int id : rest) if (s.es[id]->hs.empty() && (best < 0 || s.es[id]->stamp < s.es[best]->stamp)) best = id;
          if (best < 0) { ++pinned_over; break; }
          rest.erase(best);
          u -= s.es[best]->charge;
          evict.push_back(best);
        }
      }
      int id = (int)s.es.size();
      Ent& e = s.insert(k, ch, &h, r);
      e.cls = cls;
      if (old >= 0) {
        Ent& o = *s.es[old];
        part[cls].erase(old);
        usage[cls] -= o.charge;
        expl.insert(old);
        if (o.hs.empty()) leave.push_back(old);
      }
      if (P > 0) { part[cls].insert(id); usage[cls] += ch; }
      else { e.visible = false; s.latest.erase(k); expl.insert(id); }
      leave.insert(leave.end(), evict.begin(), evict.end());
      settle(leave, "Insert", k, expl);
      for (int x : evict) drop(*s.es[x]);
      evictions += evict.size();
      if (vh::st().violations != v0 || desync) break;
      if (s.held.size() > maxheld || r.one_in(2)) {
        s.release(s.find_held(id));
        settle(P > 0 ? std::vector<int>() : std::vector<int>{id}, "Release", k, P > 0 ? std::set<int>() : std::set<int>{id});
      }
    } else if (op < 9) {
      Cache::Handle* h = s.lookup(k);
      auto it = s.latest.find(k);
      if (h && it != s.latest.end() && s.c->Value(h) == s.es[it->second]->v) {
        Ent& e = *s.es[it->second];
        e.hs.push_back(h);
        s.held.push_back(e.id);
        if (s.held.size() > maxheld || r.one_in(2)) s.release(s.find_held(e.id));
        settle({}, "Lookup/Release", k, {});
      } else if (!h && it != s.latest.end()) {
        Ent& e = *s.es[it->second];
        if (e.hs.empty()) vh::viol("cache-evict-wrong", vh::fmt("key %s (charge %zu) is gone although no over-full insertion evicted it (part charge %zu of %zu)", kname(k).c_str(), e.charge, usage[e.cls], P));
        else desync = true;
      } else if (h) {
        // Found something the model does not hold: a replaced or erased value
        // is another property's business, an entry due for eviction is ours.
        desync = true;
      }
    } else if (op == 9) {
      auto it = s.latest.find(k);
      std::vector<int> leave;
      std::set<int> expl;
      if (it != s.latest.end()) {
        Ent& e = *s.es[it->second];
        expl.insert(e.id);
        if (e.hs.empty()) leave.push_back(e.id);
        part[e.cls].erase(e.id);
        usage[e.cls] -= e.charge;
      }
      s.erase(k);
      settle(leave, "Erase", k, expl);
    } else if (op == 10) {
      if (!s.held.empty()) {
        size_t x = r.below(s.held.size());
        int id = s.held[x];
        s.release(x);
        Ent& e = *s.es[id];
        bool last = e.hs.empty() && !e.visible;
        settle(last ? std::vector<int>{id} : std::vector<int>(), "Release", e.key, last ? std::set<int>{id} : std::set<int>());
      }
    } else if (r.one_in(6)) {
      std::vector<int> leave;
      for (int c = 0; c < g_nparts; ++c)
        for (int id : part[c]) if (s.es[id]->hs.empty()) leave.push_back(id);
      s.c->Prune();
      settle(leave, "Prune", "", {});
      for (int id : leave) drop(*s.es[id]);
      vh::count("prunes");
    }
  }
  if (vh::st().violations == v0 && !desync) {
    // What is left must be exactly what the model holds, pinned or not.
    for (auto& k : keys) {
      Cache::Handle* h = s.lookup(k);
      bool want = s.latest.count(k) != 0;
      if (h) s.c->Release(h);
      if (!h && want && s.es[s.latest[k]]->hs.empty())
        vh::viol("cache-evict-wrong", vh::fmt("key %s should still be cached at the end", kname(k).c_str()));
    }
    s.release_all();
    s.c.reset();
  } else {
    vh::count("cases_given_up", desync);
    new std::shared_ptr<Cache>(s.c);
  }
  vh::count("evictions", evictions);
  vh::count("insertions_left_overfull_by_pins", pinned_over);
  vh::count("insertions", s.es.size());
  vh::evaluated(s.sig, evictions > 0);
  if (vh::want_sample()) vh::sample(vh::fmt("case %llu: %zu keys in %d parts, capacity %zu (%zu each), %zu insertions, %llu evictions checked", (unsigned long long)idx, keys.size(), g_nparts, cap, P, s.es.size(), (unsigned long long)evictions));
}

// ---------------------------------------------------------------- del ------
// C06.
static bool del_body(Rng& r, uint64_t idx, bool quiet, uint64_t* psig, uint64_t* pents) {
  {
    std::vector<std::string> keys = pick_keys(r);
    size_t cap = gen_capacity(r);
    int style = (int)r.below(6);
    Sim s;
    s.c = lsmdb::NewLRUCache(cap);
    size_t n = r.range(20, vh::st().thorough ? 2000 : 700);
    int v0 = vh::st().violations;
    size_t maxheld = r.range(1, 40);
    auto settle = [&](const char* op) {
      for (auto& up : s.newly) {
        Ent& e = *s.es[up];
        if (!e.bad.empty()) { vh::viol(e.hs.empty() ? "cache-deleter-args" : "cache-deleter-early", vh::fmt("during %s: %s", op, e.bad.c_str())); return; }
        if (e.deleted > 1) { vh::viol("cache-deleter-twice", vh::fmt("during %s: deleter of entry %d (%s) called %d times", op, e.id, kname(e.key).c_str(), e.deleted)); return; }
      }
      s.newly.clear();
    };
    // An entry that left by being replaced or erased and has no handle must be deleted by now.
    auto must = [&](int id, const char* op) {
      Ent& e = *s.es[id];
      if (!e.visible && e.hs.empty() && e.deleted == 0)
        vh::viol("cache-deleter-late", vh::fmt("after %s: entry %d (%s) left the cache and has no handle, but its deleter was not called", op, id, kname(e.key).c_str()));
    };
    for (size_t i = 0; i < n && vh::st().violations == v0; ++i) {
      const std::string& k = r.pick(keys);
      switch (r.below(10)) {
        case 0: case 1: case 2: case 3: {
          auto it = s.latest.find(k);
          int old = it == s.latest.end() ? -1 : it->second;
          Cache::Handle* h;
          Ent& e = s.insert(k, gen_charge(r, style, cap), &h, r);
          if (cap == 0) { e.visible = false; s.latest.erase(k); }
          settle("Insert");
          if (old >= 0 && vh::st().violations == v0) must(old, "replacement");
          if (vh::st().violations == v0 && (s.held.size() > maxheld || r.one_in(2))) { s.release(s.find_held(e.id)); settle("Release"); must(e.id, "Release"); }
          break;
        }
        case 4: case 5: {
          Cache::Handle* h = s.lookup(k);
          auto it = s.latest.find(k);
          if (!h) {
            // It left the cache: if nothing holds it, the deleter must have run.
            if (it != s.latest.end()) { s.es[it->second]->visible = false; must(it->second, "leaving the cache unasked"); s.latest.erase(it); }
            break;
          }
          if (it == s.latest.end() || s.c->Value(h) != s.es[it->second]->v) { new std::shared_ptr<Cache>(s.c); vh::count("cases_given_up"); return false; }
          Ent& e = *s.es[it->second];
          e.hs.push_back(h);
          s.held.push_back(e.id);
          if (s.held.size() > maxheld || r.one_in(2)) { s.release(s.find_held(e.id)); settle("Release"); }
          break;
        }
        case 6: {
          auto it = s.latest.find(k);
          int old = it == s.latest.end() ? -1 : it->second;
          s.erase(k);
          settle("Erase");
          if (old >= 0 && vh::st().violations == v0) must(old, "Erase");
          break;
        }
        case 7: case 8:
          if (!s.held.empty()) {
            size_t x = r.below(s.held.size());
            int id = s.held[x];
            if (s.es[id]->own && s.es[id]->v && s.es[id]->v->magic != kMagic) vh::viol("cache-deleter-early", "a held value was destroyed");
            s.release(x);
            settle("Release");
            if (vh::st().violations == v0) must(id, "Release");
          }
          break;
        default:
          if (idx % 16 == 9 && i % 128 == 100 && cap > 0) {
            // Very many handles to one entry.
            auto it = s.latest.find(k);
            if (it == s.latest.end()) break;
            Ent& e = *s.es[it->second];
            size_t many = idx % 64 == 9 ? 66000 : r.range(250, 600);
            size_t got = 0;
            for (; got < many; ++got) {
              Cache::Handle* h = s.lookup(k);
              if (!h || s.c->Value(h) != e.v) { if (h || got) vh::viol("cache-deleter-early", vh::fmt("entry %d disappeared while %zu handles were held", e.id, e.hs.size())); break; }
              e.hs.push_back(h);
              s.held.push_back(e.id);
            }
            if (vh::st().violations != v0) break;
            vh::count("handles_to_one_entry", got);
            settle("Lookup");
            if (r.one_in(2)) s.erase(k); else { Cache::Handle* h; s.insert(k, 1, &h, r); s.release(s.find_held((int)s.es.size() - 1)); }
            settle("removal of a much used entry");
            while (!e.hs.empty() && vh::st().violations == v0) { s.release(s.find_held(e.id)); if ((e.hs.size() & 255) == 0) settle("Release"); }
            if (vh::st().violations == v0) settle("Release");
            if (vh::st().violations == v0) must(e.id, "Release");
          } else if (r.one_in(8)) {
            s.c->Prune();
            settle("Prune");
            // Everything unpinned has left the cache, so it must be deleted.
            for (auto& e : s.es) if (vh::st().violations == v0 && e->hs.empty() && e->deleted == 0) {
              Cache::Handle* h = s.lookup(e->key);
              if (!h) vh::viol("cache-deleter-late", vh::fmt("after Prune: entry %d is not in the cache and has no handle, but was not deleted", e->id));
              else s.c->Release(h);
            }
          }
      }
    }
    if (vh::st().violations == v0) {
      while (!s.held.empty() && vh::st().violations == v0) { int id = s.held.back(); s.release(s.held.size() - 1); settle("Release"); if (vh::st().violations == v0) must(id, "Release"); }
      s.c.reset();
      settle("destruction of the cache");
      for (auto& e : s.es)
        if (vh::st().violations == v0 && e->deleted != 1)
          vh::viol(e->deleted ? "cache-deleter-twice" : "cache-deleter-never", vh::fmt("entry %d (%s, charge %zu): deleter called %d times after the cache was destroyed", e->id, kname(e->key).c_str(), e->charge, e->deleted));
      if (!quiet) vh::count("entries_followed_to_deletion", s.es.size());
    } else {
      new std::shared_ptr<Cache>(s.c);
      return false;
    }
    *psig = s.sig;
    *pents = s.es.size();
    if (!quiet && vh::want_sample()) vh::sample(vh::fmt("case %llu: %zu keys, capacity %zu, %zu entries each followed to exactly one deleter call", (unsigned long long)idx, keys.size(), cap, s.es.size()));
  }
  return true;
}
static void del_case(Rng& r, uint64_t idx) {
  uint64_t sig = 0, ents = 0;
  Rng again = r;
  if (!del_body(r, idx, false, &sig, &ents)) return;
  vh::evaluated(sig, ents > 1);
  if (idx % 3 == 0 && vh::heap_bytes()) {
    // The same history once more: now nothing of the harness is allocated for the first time.
    vh::count("heap_comparisons");
    size_t heap0 = vh::heap_bytes();
    if (!del_body(again, idx, true, &sig, &ents)) return;
    size_t heap1 = vh::heap_bytes();
    VH_CHECK(heap1 == heap0, "cache-leak", "%zu bytes still allocated after the cache was destroyed (%llu entries)", heap1 - heap0, (unsigned long long)ents);
  }
}

// ------------------------------------------------------------- charge ------
// C08.
static bool check_charge(Cache* c, const std::vector<std::string>& keys, const std::map<void*, size_t>& charges, const char* when, uint64_t* found) {
  size_t t0 = c->TotalCharge(), sum = 0;
  *found = 0;
  for (auto& k : keys) {
    Cache::Handle* h = c->Lookup(k);
    if (!h) continue;
    ++*found;
    auto it = charges.find(c->Value(h));
    if (it != charges.end()) sum += it->second;
    c->Release(h);
  }
  size_t t1 = c->TotalCharge();
  if (t0 != sum || t1 != sum) {
    vh::viol("cache-charge", vh::fmt("%s: TotalCharge() is %zu (%zu after lookups), the %llu entries found have charge %zu", when, t0, t1, (unsigned long long)*found, sum));
    return false;
  }
  vh::count("charge_comparisons");
  return true;
}
static void charge_case(Rng& r, uint64_t idx) {
  std::vector<std::string> keys = pick_keys(r);
  std::sort(keys.begin(), keys.end());
  keys.erase(std::unique(keys.begin(), keys.end()), keys.end());
  size_t cap = gen_capacity(r);
  int style = (int)r.below(6);
  auto c = lsmdb::NewLRUCache(cap);
  std::map<void*, size_t> charges;
  std::vector<Cache::Handle*> held;
  size_t n = r.range(20, 500);
  uint64_t sig = cap, found = 0, maxfound = 0;
  size_t total = 0;
  uint64_t next = 1;
  bool ok = true;
  for (size_t i = 0; i < n && ok; ++i) {
    const std::string& k = r.pick(keys);
    switch (r.below(8)) {
      case 0: case 1: case 2: {
        size_t ch = gen_charge(r, style, cap);
        if (total > ((size_t)1 << 61)) ch = 1;
        total += ch;
        void* v = (void*)(uintptr_t)(next++);
        charges[v] = ch;
        held.push_back(c->Insert(k, v, ch, nodel));
        sig = vh::mix(sig ^ ch ^ vh::hash_str(k));
        if (r.one_in(2)) { c->Release(held.back()); held.pop_back(); }
        break;
      }
      case 3: { Cache::Handle* h = c->Lookup(k); if (h) { if (r.one_in(2)) held.push_back(h); else c->Release(h); } break; }
      case 4: c->Erase(k); break;
      case 5: case 6: if (!held.empty()) { size_t x = r.below(held.size()); c->Release(held[x]); held[x] = held.back(); held.pop_back(); } break;
      default: if (r.one_in(6)) c->Prune();
    }
    if (r.one_in(4) || n < 60) ok = check_charge(c.get(), keys, charges, "after an operation", &found);
    if (cap == 0 && c->TotalCharge() != 0) { vh::viol("cache-charge", "entries count in a cache of capacity 0"); ok = false; }
    maxfound = std::max(maxfound, found);
  }
  if (ok) {
    if (r.one_in(2)) { for (auto h : held) c->Release(h); held.clear(); }
    if (r.one_in(2) && held.empty()) {
      c->Prune();
      if (c->TotalCharge() != 0) vh::viol("cache-charge", vh::fmt("total charge %zu after pruning without handles", c->TotalCharge()));
    } else {
      for (auto& k : keys) c->Erase(k);
      if (c->TotalCharge() != 0) vh::viol("cache-charge", vh::fmt("total charge %zu after erasing every key", c->TotalCharge()));
    }
    for (auto h : held) c->Release(h);
    if (c->TotalCharge() != 0) vh::viol("cache-charge", vh::fmt("total charge %zu after everything was removed and released", c->TotalCharge()));
  } else {
    new std::shared_ptr<Cache>(c);
  }
  vh::evaluated(sig, maxfound > 1 || cap == 0);
  if (vh::want_sample()) vh::sample(vh::fmt("case %llu: %zu keys, capacity %zu, %zu operations, up to %llu entries found", (unsigned long long)idx, keys.size(), cap, n, (unsigned long long)maxfound));
}

// --------------------------------------------------------------- conc ------
struct CVal { uint64_t magic; int id; std::atomic<int> held{0}; };
enum CKind { cInsert, cHit, cMiss, cErase };
struct CEv { CKind kind; int key, val; uint64_t t0, t1; };

// Is there an order of these operations on one key, consistent with real time,
// in which every lookup sees the latest insert?  loose: a present entry may
// vanish (eviction, prune), so a miss is always possible and makes it absent.
struct Lin {
  const std::vector<CEv>& ev;
  bool loose;
  std::set<std::pair<uint64_t, int>> dead;
  uint64_t steps = 0;
  bool go(uint64_t done, int cur) {
    if (done == (ev.size() >= 64 ? ~0ull : (1ull << ev.size()) - 1)) return true;
    if (++steps > 3000000) return true;  // too big to decide: not reported
    if (!dead.insert({done, cur}).second) return false;
    uint64_t minend = ~0ull;
    for (size_t i = 0; i < ev.size(); ++i) if (!(done >> i & 1)) minend = std::min(minend, ev[i].t1);
    for (size_t i = 0; i < ev.size(); ++i) {
      if (done >> i & 1 || ev[i].t0 > minend) continue;
      int nxt = cur;
      switch (ev[i].kind) {
        case cInsert: nxt = ev[i].val; break;
        case cErase: nxt = -1; break;
        case cHit: if (cur != ev[i].val) continue; break;
        case cMiss: if (cur != -1 && !loose) continue; nxt = -1; break;
      }
      if (go(done | 1ull << i, nxt)) return true;
    }
    return false;
  }
};

static std::atomic<uint64_t> g_tick{1};
static void conc_case(Rng& r, uint64_t idx) {
  const std::string mode = vh::st().mode;
  int threads = (int)r.range(2, 6);
  int nkeys = (int)r.pick(std::vector<int>{1, 2, 4, 8, 30});
  bool evict = r.one_in(2), prune = r.one_in(4), resize = r.one_in(3);
  size_t cap = evict ? (size_t)r.range(1, 64) : (size_t)1 << 40;
  auto c = lsmdb::NewLRUCache(cap);
  std::vector<std::string> keys;
  Universe& u = uni();
  std::vector<std::string> src = r.one_in(2) && u.bucket.size() >= 30 ? u.bucket : u.generic;
  for (int i = 0; i < nkeys; ++i) keys.push_back(src[i]);
  int rounds = vh::st().thorough ? 60 : 25;
  int per = std::min(24, std::max(4, 48 * std::min(nkeys, 4) / threads / 2));
  g_delay = (int)r.pick(std::vector<int>{0, 10, 60});
  struct Del { std::atomic<int> n{0}; std::atomic<int> bad{0}; size_t charge = 0; };
  int maxv = threads * per * rounds + nkeys + 8;
  std::vector<Del> dels(maxv);
  std::atomic<int> nextv{0};
  uint64_t sig = 7, overlaps = 0, events = 0, undecided = 0;
  std::vector<CVal*> graveyard;
  // State of each key at the start of a round: value id or -1.
  std::vector<int> start(nkeys, -1);
  std::vector<uint64_t> ids;
  std::mutex idmu;
  auto make = [&](int key, size_t charge, Cache* cc, int* idout) {
    int id = nextv.fetch_add(1, std::memory_order_relaxed);
    CVal* v = new CVal;
    v->magic = kMagic;
    v->id = id;
    dels[id].charge = charge;
    std::string k = keys[key];
    *idout = id;
    return cc->Insert(k, v, charge, [&dels, v, id, k](const Slice& dk, void* dv) {
      Del& d = dels[id];
      d.n.fetch_add(1, std::memory_order_relaxed);
      if (dv != v || std::string(dk.data(), dk.size()) != k) d.bad.fetch_or(1, std::memory_order_relaxed);
      else if (v->held.load(std::memory_order_relaxed) > 0) d.bad.fetch_or(2, std::memory_order_relaxed);
      v->magic = 0;
      delete v;
    });
  };
  bool bad = false;
  for (int round = 0; round < rounds && !bad; ++round) {
    std::vector<std::vector<CEv>> logs(threads);
    std::vector<std::thread> ts;
    std::atomic<int> ready{0};
    for (int t = 0; t < threads; ++t) {
      uint64_t rs = r.next();
      ts.emplace_back([&, t, rs]() {
        Rng q(rs);
        t_rng = rs;
        std::vector<CEv>& log = logs[t];
        std::vector<std::pair<Cache::Handle*, CVal*>> held;
        std::vector<uint64_t> myids;
        ready++;
        while (ready.load() < threads) {}
        auto letgo = [&](size_t x) {
          if (held[x].second->magic != kMagic) vh::viol_once("cache-conc-corrupt", "a value changed while its handle was held");
          held[x].second->held.fetch_sub(1, std::memory_order_relaxed);
          c->Release(held[x].first);
          held[x] = held.back();
          held.pop_back();
        };
        for (int i = 0; i < per; ++i) {
          int k = (int)q.below(nkeys);
          unsigned op = (unsigned)q.below(10);
          CEv e{cInsert, k, -1, 0, 0};
          if (op < 3) {
            int id;
            e.t0 = g_tick.fetch_add(1, std::memory_order_relaxed);
            Cache::Handle* h = make(k, q.range(0, 4), c.get(), &id);
            e.t1 = g_tick.fetch_add(1, std::memory_order_relaxed);
            e.val = id;
            CVal* v = (CVal*)c->Value(h);
            if (v->magic != kMagic || v->id != id) vh::viol_once("cache-conc-corrupt", "the handle of an insertion has another value");
            v->held.fetch_add(1, std::memory_order_relaxed);
            held.push_back({h, v});
            log.push_back(e);
          } else if (op < 7) {
            e.t0 = g_tick.fetch_add(1, std::memory_order_relaxed);
            Cache::Handle* h = c->Lookup(keys[k]);
            e.t1 = g_tick.fetch_add(1, std::memory_order_relaxed);
            e.kind = h ? cHit : cMiss;
            if (h) {
              CVal* v = (CVal*)c->Value(h);
              if (v->magic != kMagic) vh::viol_once("cache-conc-corrupt", "a lookup returned a destroyed value");
              e.val = v->id;
              v->held.fetch_add(1, std::memory_order_relaxed);
              held.push_back({h, v});
            }
            log.push_back(e);
          } else if (op == 7) {
            e.kind = cErase;
            e.t0 = g_tick.fetch_add(1, std::memory_order_relaxed);
            c->Erase(keys[k]);
            e.t1 = g_tick.fetch_add(1, std::memory_order_relaxed);
            log.push_back(e);
          } else if (op == 8) {
            if (prune && q.one_in(3)) c->Prune();
            else if (q.one_in(2)) { volatile size_t x = c->TotalCharge(); (void)x; }
            else for (int j = 0; j < 3; ++j) myids.push_back(c->NewId());
          } else if (resize) {
            // Unlogged keys force the tables to grow.
            std::string k2 = "r" + std::to_string(q.below(400));
            c->Release(c->Insert(k2, nullptr, evict ? 1 : 0, nodel));
          }
          while (held.size() > 3 || (!held.empty() && q.one_in(2))) letgo(q.below(held.size()));
        }
        while (!held.empty()) letgo(held.size() - 1);
        std::lock_guard<std::mutex> l(idmu);
        ids.insert(ids.end(), myids.begin(), myids.end());
      });
    }
    for (auto& t : ts) t.join();
    // Per-key check, closed by a lookup at quiescence.
    for (int k = 0; k < nkeys && !bad; ++k) {
      std::vector<CEv> ev;
      if (start[k] >= 0) ev.push_back(CEv{cInsert, k, start[k], 0, 0});
      for (auto& l : logs) for (auto& e : l) if (e.key == k) ev.push_back(e);
      Cache::Handle* h = c->Lookup(keys[k]);
      uint64_t t = g_tick.fetch_add(1);
      CEv fin{h ? cHit : cMiss, k, -1, t, t};
      if (h) { fin.val = ((CVal*)c->Value(h))->id; c->Release(h); }
      ev.push_back(fin);
      start[k] = fin.val;
      events += ev.size();
      for (size_t i = 0; i < ev.size(); ++i) {
        for (size_t j = 0; j < i; ++j) overlaps += ev[i].t0 < ev[j].t1 && ev[j].t0 < ev[i].t1;
        sig = vh::mix(sig ^ (ev[i].t0 * 31 + ev[i].t1) ^ (uint64_t)ev[i].val);
      }
      if (mode != "conc" || ev.size() > 63) { undecided += ev.size() > 63; continue; }
      std::sort(ev.begin(), ev.end(), [](const CEv& a, const CEv& b) { return a.t0 < b.t0; });
      Lin lin{ev, evict || prune, {}, 0};
      if (!lin.go(0, -1)) {
        std::string d;
        static const char* nm[] = {"insert", "hit", "miss", "erase"};
        for (auto& e : ev) d += vh::fmt(" %s%s@%llu-%llu", nm[e.kind], e.val >= 0 ? vh::fmt("(%d)", e.val).c_str() : "", (unsigned long long)e.t0, (unsigned long long)e.t1);
        vh::viol("cache-linearizability", vh::fmt("no order explains the operations on key %d (%d threads, eviction %d):%s", k, threads, evict, d.substr(0, 1500).c_str()));
        bad = true;
      }
      if (lin.steps > 3000000) ++undecided;
    }
    if (mode == "conccharge" && !bad) {
      // Sum over every key used, by lookup.
      size_t t0 = c->TotalCharge(), sum = 0;
      for (auto& k : keys) { Cache::Handle* h = c->Lookup(k); if (h) { sum += dels[((CVal*)c->Value(h))->id].charge; c->Release(h); } }
      for (int j = 0; j < 400; ++j) { Cache::Handle* h = c->Lookup("r" + std::to_string(j)); if (h) { sum += evict ? 1 : 0; c->Release(h); } }
      if (t0 != sum) { vh::viol("cache-charge", vh::fmt("after a concurrent round TotalCharge() is %zu, the entries found have charge %zu", t0, sum)); bad = true; }
      vh::count("charge_comparisons");
    }
  }
  g_delay = 0;
  if (mode == "conc") {
    std::vector<uint64_t> s = ids;
    std::sort(s.begin(), s.end());
    for (size_t i = 1; i < s.size(); ++i) if (s[i] == s[i - 1]) { vh::viol("cache-id", vh::fmt("id %llu was handed out twice", (unsigned long long)s[i])); break; }
    vh::count("ids_compared", s.size());
  }
  if (mode == "conccharge" && !bad) {
    if (r.one_in(2)) c->Prune();
    else { for (auto& k : keys) c->Erase(k); for (int j = 0; j < 400; ++j) c->Erase("r" + std::to_string(j)); }
    VH_CHECK(c->TotalCharge() == 0, "cache-charge", "total charge %zu after a concurrent history and removing everything", c->TotalCharge());
  }
  c.reset();
  if (mode == "concdel") {
    int n = nextv.load();
    for (int i = 0; i < n; ++i) {
      int d = dels[i].n.load(), b = dels[i].bad.load();
      if (d != 1) { vh::viol(d ? "cache-deleter-twice" : "cache-deleter-never", vh::fmt("deleter of entry %d called %d times after a concurrent history and destruction", i, d)); break; }
      if (b) { vh::viol(b & 2 ? "cache-deleter-early" : "cache-deleter-args", vh::fmt("deleter of entry %d %s", i, b & 2 ? "called while a handle was held" : "called with other arguments")); break; }
    }
    vh::count("entries_followed_to_deletion", n);
  }
  vh::count("events", events);
  vh::count("overlapping_event_pairs", overlaps);
  vh::count("histories_too_long_to_decide", undecided);
  vh::evaluated(sig, overlaps > 0);
  if (vh::want_sample()) vh::sample(vh::fmt("conc case %llu: %d threads, %d keys, eviction %d, prune %d, %llu events, %llu overlapping pairs", (unsigned long long)idx, threads, nkeys, evict, prune, (unsigned long long)events, (unsigned long long)overlaps));
}

// Several caches, alive at once and one after the other (often at the same
// address), numbered by the same threads: an id is unique within its cache.
static void ids_case(Rng& r, uint64_t) {
  int threads = (int)r.range(2, 8), nc = (int)r.range(1, 3), phases = (int)r.range(1, 4);
  g_delay = (int)r.pick(std::vector<int>{0, 20});
  int per = 3000 / phases;
  std::vector<std::vector<std::vector<uint64_t>>> got(nc, std::vector<std::vector<uint64_t>>(threads));
  std::vector<std::shared_ptr<Cache>> cs(nc);
  std::atomic<int> arrived{0}, gen{0};
  // The coordinator works between the phases; it orders them, not the calls.
  auto barrier = [&]() {
    int g = gen.load();
    if (arrived.fetch_add(1) + 1 == threads + 1) { arrived = 0; gen.store(g + 1); }
    else while (gen.load() == g) sched_yield();
  };
  std::vector<uint64_t> seeds;
  for (int t = 0; t < threads; ++t) seeds.push_back(r.next());
  std::vector<std::thread> ts;
  for (int t = 0; t < threads; ++t) ts.emplace_back([&, t]() {
    Rng q(seeds[t]);
    for (int ph = 0; ph < phases; ++ph) {
      barrier();
      int c = (int)q.below(nc), left = 0;
      for (int i = 0; i < per; ++i) {
        if (left-- <= 0) { c = (int)q.below(nc); left = (int)q.skewed(9); }
        got[c][t].push_back(cs[c]->NewId());
      }
      barrier();
    }
  });
  uint64_t sig = 0, compared = 0;
  auto judge = [&](int c) {
    std::vector<uint64_t> all;
    for (auto& g : got[c]) {
      all.insert(all.end(), g.begin(), g.end());
      if (!g.empty()) sig = vh::mix(sig ^ g[g.size() / 2]);
      g.clear();
    }
    compared += all.size();
    std::sort(all.begin(), all.end());
    for (size_t i = 1; i < all.size(); ++i) if (all[i] == all[i - 1]) { vh::viol_once("cache-id", vh::fmt("id %llu was handed out twice by one cache to %d threads (%d caches in use)", (unsigned long long)all[i], threads, nc)); break; }
  };
  for (int ph = 0; ph < phases; ++ph) {
    for (int c = 0; c < nc; ++c)
      if (!cs[c] || r.one_in(2)) {
        if (cs[c]) { judge(c); cs[c].reset(); vh::count("caches_replaced_among_id_takers"); }
        cs[c] = lsmdb::NewLRUCache(r.range(0, 100));
      }
    barrier();
    barrier();
  }
  for (auto& t : ts) t.join();
  g_delay = 0;
  for (int c = 0; c < nc; ++c) judge(c);
  vh::count("ids_compared", compared);
  vh::evaluated(sig);
}

int main(int argc, char** argv) {
  vh::parse(argc, argv);
  uni();
  const std::string& m = vh::st().mode;
  if (m == "map") vh::run_cases(map_case);
  else if (m == "lru") vh::run_cases(lru_case);
  else if (m == "del") vh::run_cases(del_case);
  else if (m == "charge") vh::run_cases(charge_case);
  else if (m == "conc" || m == "concdel" || m == "conccharge") vh::run_cases([&](Rng& r, uint64_t i) { if (m == "conc" && i % 8 == 7) ids_case(r, i); else conc_case(r, i); });
  else vh::broken("unknown mode " + m);
  return vh::finish();
}
