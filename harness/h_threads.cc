// Different objects in different threads: each piece of work gives the results
// it gives alone, when others run beside it and when its steps are handed from
// thread to thread.  No locks, counters or allocations shared between the
// workers: races in the code under test stay visible to ThreadSanitizer.
#include <fcntl.h>
#include <unistd.h>

#include <algorithm>
#include <memory>
#include <thread>

#include "db/skiplist.h"
#include "helpers/memenv/memenv.h"
#include "lsmdb/cache.h"
#include "lsmdb/env.h"
#include "lsmdb/slice.h"
#include "lsmdb/status.h"
#include "posixcfg.h"
#include "util/arena.h"
#include "util/coding.h"
#include "util/hash.h"
#include "util/logging.h"
#include "util/mutexlock.h"
#include "util/random.h"
#include "vh.h"

using namespace lsmdb;
using vh::fmt;
using vh::Rng;

struct Cmp {
  int operator()(const uint64_t& a, const uint64_t& b) const { return a < b ? -1 : a > b ? 1 : 0; }
};
typedef SkipList<uint64_t, Cmp> List;

// What all workers may read at the same time, by const calls only.
struct Shared {
  Status status, status2;
  std::string text;
  Slice slice;
  Arena arena;
  List list;
  std::unique_ptr<Env> mem;
  Shared(Rng& r) : text(r.nasty(400)), list(Cmp(), &arena) {
    status = Status::IOError("shared message", text);
    status2 = Status::Corruption(std::string(3000, 'c'));
    slice = Slice(text);
    for (int i = 0; i < 200; ++i) list.Insert(mixkey(i));
  }
  static uint64_t mixkey(uint64_t i) { return i * 0x9E3779B97F4A7C15ull; }
};

struct Work {
  Rng r;
  uint64_t d = 0;
  std::string trace;  // the last few results, for a message
  Shared& sh;
  std::string dir;
  Work(uint64_t seed, Shared& s, const std::string& dr) : r(seed), sh(s), dir(dr) {}
  virtual ~Work() {}
  virtual void step() = 0;
  virtual void end() {}
  std::vector<uint64_t> log;
  void h(uint64_t x) { d = vh::mix(d * 31 + x); log.push_back(d); }
  void h(const std::string& s) { h(vh::hash_str(s) ^ s.size()); }
  void h(const Status& s) { h(s.ToString()); }
};

struct Coding : Work {
  using Work::Work;
  std::string acc;
  void step() override {
    for (int i = 0; i < 20; ++i) {
      uint64_t v = r.skewed(64);
      std::string s = r.nasty(r.below(40));
      size_t from = acc.size();
      PutFixed32(&acc, (uint32_t)v);
      PutFixed64(&acc, v);
      PutVarint32(&acc, (uint32_t)v);
      PutVarint64(&acc, v);
      PutLengthPrefixedSlice(&acc, s);
      h((uint64_t)VarintLength(v));
      Slice in(acc.data() + from + 12, acc.size() - from - 12), out;
      uint32_t a = 0;
      uint64_t b = 0;
      bool ok = GetVarint32(&in, &a) && GetVarint64(&in, &b) && GetLengthPrefixedSlice(&in, &out);
      h(ok);
      h(a);
      h(b);
      h(out.ToString());
      h(DecodeFixed32(acc.data() + from));
      h(DecodeFixed64(acc.data() + from + 4));
      Slice bad(acc.data() + from, r.below(12));
      h(GetLengthPrefixedSlice(&bad, &out));
    }
    h(acc);
    if (acc.size() > 3000) acc.clear();
  }
};

struct Values : Work {
  using Work::Work;
  Status st[3];
  void step() override {
    for (int i = 0; i < 12; ++i) {
      uint64_t v = r.skewed(64);
      std::string s = r.nasty(r.below(60));
      switch (r.below(9)) {
        case 0: h(NumberToString(v)); AppendNumberTo(&s, v); h(s); break;
        case 1: h(EscapeString(s)); AppendEscapedStringTo(&s, sh.slice); h(s); break;
        case 2: { std::string t = std::to_string(v) + s; Slice in(t); uint64_t o = 0; bool k = ConsumeDecimalNumber(&in, &o); h(k); if (k) h(o); h(in.size()); break; }
        case 3: h(Hash(s.data(), s.size(), (uint32_t)v)); h(Hash(sh.text.data(), sh.text.size(), 7)); break;
        case 4: { Slice a(s), b(sh.slice); h((uint64_t)(a.compare(b) > 0)); h((uint64_t)(b.compare(a) > 0)); h(a == b); h(sh.slice.starts_with(a)); h(sh.slice.ToString()); break; }
        case 5: st[r.below(3)] = r.one_in(3) ? Status::NotFound(s, "x") : r.one_in(2) ? Status::InvalidArgument(s) : Status::NotSupported("n", s); break;
        case 6: { int a = (int)r.below(3); st[a] = r.one_in(2) ? sh.status : sh.status2; h(st[a]); h(sh.status.IsIOError()); h(sh.status2); break; }
        case 7: { Status t(st[r.below(3)]); std::swap(st[r.below(3)], t); h(t); break; }
        case 8: { Random g((uint32_t)v); for (int j = 0; j < 5; ++j) { h(g.Next()); h(g.Uniform(1 + (int)(v % 1000))); h(g.OneIn(3)); h(g.Skewed(1 + (int)(v % 20))); } break; }
      }
      h(st[0]);
      h(st[0].ok() + 2 * st[1].IsNotFound() + 4 * st[2].IsCorruption() + 8 * st[1].IsNotSupportedError());
    }
  }
};

struct Lists : Work {
  std::unique_ptr<Arena> arena;
  std::unique_ptr<List> list;
  std::vector<std::pair<char*, size_t>> blocks;
  std::vector<uint64_t> keys;
  using Work::Work;
  void step() override {
    if (!arena || keys.size() > 600) {
      list.reset();
      arena.reset(new Arena);
      list.reset(new List(Cmp(), arena.get()));
      keys.clear();
      blocks.clear();
    }
    for (int i = 0; i < 20; ++i) {
      uint64_t k = r.skewed(40);
      if (!list->Contains(k)) { list->Insert(k); keys.push_back(k); }
      h(list->Contains(r.skewed(40)));
      size_t n = 1 + r.skewed(12);
      char* p = r.one_in(2) ? arena->Allocate(n) : arena->AllocateAligned(n);
      memset(p, (int)(n & 255), n);
      blocks.push_back(std::make_pair(p, n));
      h(sh.list.Contains(r.one_in(2) ? Shared::mixkey(r.below(200)) : r.next()));
    }
    List::Iterator it(list.get());
    for (it.SeekToFirst(); it.Valid(); it.Next()) h(it.key());
    it.Seek(r.skewed(40));
    h(it.Valid());
    if (it.Valid()) { it.Prev(); h(it.Valid() ? it.key() : 1); }
    List::Iterator is(&sh.list);
    is.Seek(r.next());
    for (int i = 0; i < 10 && is.Valid(); ++i) { h(is.key()); if (r.one_in(3)) is.Prev(); else is.Next(); }
    is.SeekToLast();
    h(is.key());
    for (auto& b : blocks) { bool ok = true; for (size_t i = 0; i < b.second; i += 7) ok = ok && (unsigned char)b.first[i] == (b.second & 255); h(ok); }
    size_t sum = 0;
    for (auto& b : blocks) sum += b.second;
    h(arena->MemoryUsage() >= sum);
  }
};

struct Caches : Work {
  std::shared_ptr<Cache> c[2];
  std::vector<std::pair<int, Cache::Handle*>> held;
  uint64_t dels = 0, delsum = 0, ids = 0, lastid[2] = {0, 0};
  using Work::Work;
  ~Caches() override { drop(); }
  void drop() {
    for (auto& x : held) c[x.first]->Release(x.second);
    held.clear();
    c[0].reset();
    c[1].reset();
  }
  void step() override {
    for (int i = 0; i < 2; ++i) if (!c[i]) c[i] = NewLRUCache(r.one_in(5) ? 0 : 16 << r.below(8));
    for (int i = 0; i < 40; ++i) {
      int w = (int)r.below(2);
      std::string k = "k" + std::to_string(r.below(60));
      switch (r.below(8)) {
        case 0: case 1: case 2: {
          uint64_t v = 1 + r.below(1000000);
          auto x = c[w]->Insert(k, (void*)v, 1 + r.below(5), [this](const Slice& kk, void* vv) { dels++; delsum += (uint64_t)vv * 7 + kk.size(); });
          h((uint64_t)c[w]->Value(x));
          if (r.one_in(6)) held.push_back(std::make_pair(w, x)); else c[w]->Release(x);
          break;
        }
        case 3: case 4: if (auto x = c[w]->Lookup(k)) { h((uint64_t)c[w]->Value(x)); c[w]->Release(x); } else h(0); break;
        case 5: c[w]->Erase(k); break;
        case 6: if (!held.empty()) { size_t j = r.below(held.size()); c[held[j].first]->Release(held[j].second); held.erase(held.begin() + j); } break;
        case 7: if (r.one_in(10)) c[w]->Prune(); { uint64_t id = c[w]->NewId(); h(id == lastid[w]); lastid[w] = id; } break;
      }
    }
    h(dels);
    h(delsum);
    h(c[0]->TotalCharge());
    h(c[1]->TotalCharge());
    if (r.one_in(8)) { drop(); h(dels); h(delsum); }
  }
  void end() override { drop(); h(dels); h(delsum); }
};

// Files of an environment: its own in memory, or the default one in a directory of its own.
struct Files : Work {
  std::unique_ptr<Env> own;
  Env* env;
  std::map<std::string, WritableFile*> ws;
  SequentialFile* sf = nullptr;
  RandomAccessFile* ra = nullptr;
  bool posix;
  Files(uint64_t seed, Shared& s, const std::string& dr, bool px) : Work(seed, s, dr), posix(px) {
    if (px) env = Env::Default();
    else { own.reset(NewMemEnv(Env::Default())); env = own.get(); }
    env->CreateDir(dir);
  }
  ~Files() override { fin(); }
  void fin() {
    for (auto& w : ws) delete w.second;
    ws.clear();
    delete sf;
    delete ra;
    sf = nullptr;
    ra = nullptr;
  }
  std::string name() { return dir + "/f" + std::to_string(r.below(5)); }
  void step() override {
    std::string f = name(), g = name(), t;
    std::vector<char> sc(70000);
    Slice res;
    switch (r.below(14)) {
      case 0: case 1: {
        if (ws.count(f)) { delete ws[f]; ws.erase(f); }
        WritableFile* w = nullptr;
        Status s = r.one_in(3) ? env->NewAppendableFile(f, &w) : env->NewWritableFile(f, &w);
        h(s);
        if (s.ok()) ws[f] = w;
        break;
      }
      case 2: case 3: case 4: case 5:
        for (auto& w : ws) {
          for (int i = 0; i < 6; ++i) h(w.second->Append(r.nasty(r.skewed(r.one_in(8) ? 17 : 9))));
          if (r.one_in(3)) h(w.second->Flush());
          if (r.one_in(10)) h(w.second->Sync());
        }
        break;
      case 6:
        for (auto& w : ws) h(w.second->Flush());
        h(ReadFileToString(env, f, &t));
        h(t);
        break;
      case 7:
        for (auto& w : ws) h(w.second->Flush());
        delete sf;
        sf = nullptr;
        h(env->NewSequentialFile(f, &sf));
        break;
      case 8:
        for (int i = 0; i < 6 && sf; ++i) {
          h(sf->Read(r.skewed(16), &res, sc.data()));
          h(res.ToString());
          if (r.one_in(3)) h(sf->Skip(r.skewed(9)));
        }
        break;
      case 9: {
        for (auto& w : ws) h(w.second->Flush());
        delete ra;
        ra = nullptr;
        h(env->NewRandomAccessFile(f, &ra));
        uint64_t z = 0;
        if (ra && env->GetFileSize(f, &z).ok())
          for (int i = 0; i < 6; ++i) { uint64_t at = r.below(z + 1); size_t n = r.below(std::min<uint64_t>(z - at, 60000) + 1); h(ra->Read(at, n, &res, sc.data())); h(res.ToString()); }
        delete ra;  // what a mapped reader sees of later truncation is not defined
        ra = nullptr;
        break;
      }
      case 10: {
        std::vector<std::string> l;
        h(env->GetChildren(dir, &l));
        std::sort(l.begin(), l.end());
        for (auto& n : l) if (n != "." && n != "..") { h(n); uint64_t z = 0; for (auto& w : ws) w.second->Flush(); h(env->GetFileSize(dir + "/" + n, &z)); h(z); }
        h(env->FileExists(f));
        break;
      }
      case 11: if (!ws.count(f)) { h(env->RemoveFile(f)); h(env->FileExists(f)); } break;
      case 12: if (f != g && !ws.count(f) && !ws.count(g)) h(env->RenameFile(f, g)); break;
      case 13: {
        std::string b = r.nasty(r.skewed(16));
        if (ws.count(f)) break;
        h(WriteStringToFile(env, b, f));
        h(ReadFileToString(env, f, &t));
        h(t == b);
        FileLock* l = nullptr;
        h(env->LockFile(dir + "/LOCK", &l));
        h(l != nullptr);
        if (l) h(env->UnlockFile(l));
        break;
      }
    }
  }
  void end() override {
    for (auto& w : ws) h(w.second->Close());
    std::vector<std::string> l;
    env->GetChildren(dir, &l);
    std::sort(l.begin(), l.end());
    for (auto& n : l) if (n != "." && n != "..") { std::string t; h(n); h(ReadFileToString(env, dir + "/" + n, &t)); h(t); }
    fin();
  }
};

struct Logs : Work {
  using Work::Work;
  Logger* lg[2] = {nullptr, nullptr};
  std::string want[2];
  ~Logs() override { delete lg[0]; delete lg[1]; }
  void step() override {
    for (int i = 0; i < 2; ++i) if (!lg[i]) { h(Env::Default()->NewLogger(dir + "/LOG" + std::to_string(i), &lg[i])); if (!lg[i]) return; }
    for (int j = 0; j < 6; ++j) {
      int i = (int)r.below(2);
      // A message is a mark, text without the mark, and a mark; headers are not looked at.
      std::string s(r.skewed(r.one_in(9) ? 15 : 8), (char)('a' + r.below(26)));
      int n = (int)r.below(100000);
      Log(lg[i], "<<%d:%s:%.3f>>%s", n, s.c_str(), n / 8.0, r.one_in(3) ? "\n" : "");
      h(n);
    }
  }
  void end() override {
    for (int i = 0; i < 2; ++i) {
      delete lg[i];
      lg[i] = nullptr;
      std::string t;
      ReadFileToString(Env::Default(), dir + "/LOG" + std::to_string(i), &t);
      size_t lines = 0, p = 0;
      for (; p < t.size();) {
        size_t e = t.find('\n', p);
        if (e == std::string::npos) { h(999); break; }
        ++lines;
        std::string line = t.substr(p, e - p);
        size_t a = line.find("<<");
        h(a == std::string::npos ? "?" + line : line.substr(a));
        p = e + 1;
      }
      h(lines);
    }
  }
};

struct Locks : Work {
  using Work::Work;
  // Mutexes and conditions of its own, used by one thread at a time.
  std::unique_ptr<port::Mutex> m;
  std::unique_ptr<port::CondVar> cv;
  uint64_t n = 0;
  void step() override {
    if (!m || r.one_in(10)) { cv.reset(); m.reset(new port::Mutex); cv.reset(new port::CondVar(m.get())); }
    for (int i = 0; i < 30; ++i) {
      MutexLock l(m.get());
      ++n;
      if (r.one_in(3)) cv->Signal();
      if (r.one_in(5)) cv->SignalAll();
    }
    h(n);
  }
};

static Work* make(const std::string& kind, uint64_t seed, Shared& sh, const std::string& dir) {
  if (kind == "coding") return new Coding(seed, sh, dir);
  if (kind == "values") return new Values(seed, sh, dir);
  if (kind == "list") return new Lists(seed, sh, dir);
  if (kind == "cache") return new Caches(seed, sh, dir);
  if (kind == "mem") return new Files(seed, sh, dir, false);
  if (kind == "posix") return new Files(seed, sh, dir, true);
  if (kind == "log") return new Logs(seed, sh, dir);
  if (kind == "locks") return new Locks(seed, sh, dir);
  vh::broken("kind " + kind);
  return nullptr;
}

static void threads_case(Rng& r, uint64_t idx) {
  static const char* kinds[] = {"coding", "values", "list", "cache", "mem", "posix", "log", "locks"};
  Shared sh(r);
  std::string top = vh::fresh_dir("th");
  struct W { std::string kind, dir; uint64_t seed; uint64_t alone, beside, passed; std::vector<uint64_t> l1, l2; };
  size_t n = r.range(2, 6);
  bool mixed = g_mode == "mixed";
  std::vector<W> ws(n);
  for (size_t i = 0; i < n; ++i) {
    ws[i].kind = mixed ? kinds[r.below(8)] : g_mode;
    ws[i].dir = top + "/w" + std::to_string(i);
    ws[i].seed = r.next();
  }
  int steps = (int)r.range(4, mixed ? 60 : 40);
  auto fresh = [&](const W& w) { vh::rm_tree(w.dir); if (mkdir(w.dir.c_str(), 0755) != 0) vh::broken("mkdir"); };
  auto run = [&](const W& w, std::vector<uint64_t>& log) {
    std::unique_ptr<Work> k(make(w.kind, w.seed, sh, w.dir));
    for (int i = 0; i < steps; ++i) k->step();
    k->end();
    log.swap(k->log);
    return k->d;
  };
  auto differ = [&](const W& w, const std::vector<uint64_t>& l, const char* how) {
    size_t p = 0;
    while (p < l.size() && p < w.l1.size() && l[p] == w.l1[p]) ++p;
    vh::viol_once("threads-differ", fmt("%s work gives other results %s than alone: result %zu of %zu differs (%zu workers, %d steps)", w.kind.c_str(), how, p, w.l1.size(), n, steps));
  };
  uint64_t results = 0, sig = idx;
  auto alone = [&] {
    for (auto& w : ws) {
      fresh(w);
      w.alone = run(w, w.l1);
      results += w.l1.size();
      sig = vh::mix(sig ^ w.alone);
      if (r.one_in(4)) {
        std::vector<uint64_t> l;
        fresh(w);
        if (run(w, l) != w.alone) vh::viol_once("threads-repeat", fmt("%s work gives other results when run once more", w.kind.c_str()));
      }
    }
  };
  // The very first use is concurrent in half of the cases.
  bool first = idx % 2 == 0;
  if (!first) alone();
  for (auto& w : ws) fresh(w);
  std::atomic<int> go{0};
  std::vector<std::thread> ts;
  for (size_t i = 0; i < n; ++i)
    ts.emplace_back([&, i] {
      go.fetch_add(1, std::memory_order_relaxed);
      while (go.load(std::memory_order_relaxed) < (int)n) {}
      ws[i].beside = run(ws[i], ws[i].l2);
    });
  for (auto& t : ts) t.join();
  if (first) alone();
  for (auto& w : ws) if (w.beside != w.alone) differ(w, w.l2, "beside other threads");
  // One worker at a time, its steps in different threads.
  {
    W& w = ws[r.below(n)];
    size_t nt = r.range(2, 4);
    fresh(w);
    std::unique_ptr<Work> k(make(w.kind, w.seed, sh, w.dir));
    std::mutex mu;
    std::condition_variable cv;
    int at = 0, turn = 0;
    uint64_t pick = r.next();
    std::vector<std::thread> hs;
    for (size_t t = 0; t < nt; ++t)
      hs.emplace_back([&, t] {
        std::unique_lock<std::mutex> l(mu);
        for (;;) {
          cv.wait(l, [&] { return at >= steps || turn == (int)t; });
          if (at >= steps) return;
          k->step();
          ++at;
          turn = (int)(vh::mix(pick + at) % nt);
          cv.notify_all();
        }
      });
    for (auto& t : hs) t.join();
    k->end();
    w.passed = k->d;
    std::vector<uint64_t> l;
    l.swap(k->log);
    if (w.passed != w.alone) differ(w, l, "handed from thread to thread");
    vh::count("steps_handed_over", steps);
  }
  vh::rm_tree(top);
  vh::count("results_compared", 2 * results);
  vh::count("threads_run", n);
  vh::count("steps_beside_others", n * steps);
  vh::evaluated(sig, n > 1);
  if (vh::want_sample()) vh::sample(fmt("case %llu: %zu workers (%s first), %d steps each, %llu results", (unsigned long long)idx, n, ws[0].kind.c_str(), steps, (unsigned long long)results));
}

int main(int argc, char** argv) {
  vh::parse(argc, argv);
  configure_posix();
  vh::run_cases(threads_case);
  return vh::finish();
}
