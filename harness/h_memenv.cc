// C16 (model), C17 (pair, conc, stress), C18 (wrap, delegate): in-memory
// environment and environment wrappers.
#include "vh.h"

#include <algorithm>
#include <memory>

#include <pthread.h>
#include <sched.h>

#include "helpers/memenv/memenv.h"
#include "lsmdb/env.h"
#include "lsmdb/slice.h"
#include "lsmdb/status.h"

using lsmdb::Env;
using lsmdb::FileLock;
using lsmdb::Logger;
using lsmdb::RandomAccessFile;
using lsmdb::SequentialFile;
using lsmdb::Slice;
using lsmdb::Status;
using lsmdb::WritableFile;
using vh::esc;
using vh::fmt;
using vh::Rng;

// ------------------------------------------------ mutex boundary hooks -----
static std::atomic<int> g_delay{0};
static thread_local uint64_t t_rng = 0x7654321;
static thread_local int t_role = 0;  // 1: the observed call, 2: the other party
static std::atomic<int> g_target{-1}, g_count{0}, g_b_start{0}, g_b_blocked{0}, g_b_done{0};

static void jitter() {
  int d = g_delay.load(std::memory_order_relaxed);
  if (!d) return;
  t_rng = vh::mix(t_rng + 0x51);
  unsigned x = (unsigned)(t_rng >> 33) % 100;
  if (x < (unsigned)d) {
    if (x % 3 == 0) sched_yield();
    else for (volatile int i = (int)(t_rng & 511); i > 0; i = i - 1) {}
  }
}
// The observed call has reached a lock boundary: at the chosen one the other
// party runs to completion, or until it blocks on a lock held here.
static void boundary() {
  if (t_role != 1) return;
  if (g_count.fetch_add(1) + 1 != g_target.load()) return;
  g_b_start = 1;
  while (!g_b_done.load() && !g_b_blocked.load()) sched_yield();
}
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
  jitter();
  boundary();
  if (t_role == 2 && !g_b_blocked.load()) {
    if (pthread_mutex_trylock(m) == 0) return 0;
    g_b_blocked = 1;
  }
  return __real_pthread_mutex_lock(m);
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
  int r = __real_pthread_mutex_unlock(m);
  jitter();
  boundary();
  return r;
}
}

// A base environment whose file operations must never be called.
static std::string body_of(uint64_t tag, size_t n) {
  std::string s(n, 0);
  uint64_t x = vh::mix(tag);
  for (size_t i = 0; i < n; ++i) {
    if ((i & 7) == 0) x = vh::mix(x);
    s[i] = (char)(x >> (8 * (i & 7)));
  }
  return s;
}
static std::string diff_at(const std::string& got, const std::string& want) {
  size_t i = 0;
  while (i < got.size() && i < want.size() && got[i] == want[i]) ++i;
  return fmt("got %zu bytes, expected %zu, first difference at %zu (got \"%s\", expected \"%s\")", got.size(), want.size(), i,
             esc(got.substr(i, 8)).c_str(), esc(want.substr(i, 8)).c_str());
}

// ---------------------------------------------------------------- model ----
// C16.
struct MFile { std::string d; };
typedef std::shared_ptr<MFile> MF;

static const char* kDirs[] = {"", "/d", "/d1", "/d/e", "rel", "/d1/", "/"};
static std::string gen_name(Rng& r) {
  static const char* base[] = {"a", "b", "ab", "MANIFEST-1", "x.tmp", "c d", "z"};
  std::string n = std::string(base[r.below(7)]);
  switch (r.below(12)) {
    case 0: return n;                       // no directory at all
    case 1: return "/" + n;
    case 2: return "/d1/" + n;
    case 3: return "/d/e/" + n;
    case 4: return "rel/" + n;
    case 5: return "/d1" + n;               // a name that merely starts like a directory
    case 6: case 7: return r.one_in(3) ? std::string("/d/\xff\x80") : r.one_in(2) ? std::string("/d/n\0l", r.pick(std::vector<size_t>{4, 5, 6})) : "/d/" + std::string(300, 'L');
    default: return "/d/" + n;
  }
}

struct MCounts { uint64_t ops = 0, reads = 0, bytes = 0, listings = 0, handles_on_removed = 0, skips = 0, renames_over = 0, kept = 0; };

struct SeqH { MF f; size_t pos; std::unique_ptr<SequentialFile> h; };
struct RndH { MF f; std::unique_ptr<RandomAccessFile> h; };
struct WrH { MF f; std::unique_ptr<WritableFile> h; };

static size_t gen_len(Rng& r) {
  static const size_t edge[] = {0, 1, 2, 8190, 8191, 8192, 8193, 16383, 16384, 16385, 24576};
  if (r.one_in(3)) return edge[r.below(11)];
  if (r.one_in(8)) return r.range(0, 60000);
  return r.range(0, 9000);
}

static bool model_body(Rng& r, uint64_t idx, MCounts* mc, uint64_t* sig) {
  std::unique_ptr<Env> env(lsmdb::NewMemEnv(Env::Default()));
  std::map<std::string, MF> m;
  std::vector<SeqH> sq;
  std::vector<RndH> rn;
  std::vector<WrH> wr;
  vh::Kept<Slice> kept;
  std::string why;
  std::vector<std::string> names;
  size_t nn = r.range(1, 8);
  const bool large = idx % 40 == 13, many = idx % 40 == 27;  // large files; a great many names
  if (large) nn = r.range(1, 3);
  for (size_t i = 0; i < nn; ++i) names.push_back(gen_name(r));
  if (many) for (size_t i = 0, k = r.range(100, 2500); i < k; ++i) names.push_back((r.one_in(3) ? "/d1/" : "/d/") + std::to_string(i * 7919 % 100003) + (r.one_in(4) ? ".sst" : ""));
  size_t maxh = r.range(1, 6);
  size_t n = r.range(10, vh::st().thorough ? 400 : 150);
  if (many) n *= 20;
  int v0 = vh::st().violations;
  uint64_t tag = idx * 1000;
  size_t total = 0;
  std::string last;
  auto fail = [&](const char* key, const std::string& msg) { vh::viol(key, fmt("op %s: %s", last.c_str(), msg.c_str())); };
  // A second environment with the same names, used in turn, must not matter.
  std::unique_ptr<Env> env2(r.one_in(3) ? lsmdb::NewMemEnv(Env::Default()) : nullptr);
  std::map<std::string, std::string> m2;
  auto aside = [&](const std::string& f) {
    last = "in a second environment, on " + esc(f);
    switch (r.below(6)) {
      case 0: { std::string d = body_of(++tag, gen_len(r) % 20000); if (lsmdb::WriteStringToFile(env2.get(), d, f).ok()) m2[f] = d; break; }
      case 1: { std::string d; Status s = lsmdb::ReadFileToString(env2.get(), f, &d); if (s.ok() != (m2.count(f) != 0)) fail("memenv-exists", s.ToString()); else if (s.ok() && d != m2[f]) fail("memenv-read", diff_at(d, m2[f])); break; }
      case 2: { Status s = env2->RemoveFile(f); if (s.ok() != (m2.count(f) != 0)) fail("memenv-remove", s.ToString()); m2.erase(f); break; }
      case 3: { const std::string& g = r.pick(names); Status s = env2->RenameFile(f, g); bool have = m2.count(f) != 0; if (s.ok() != have) fail("memenv-rename", s.ToString()); if (have && f != g) { m2[g] = m2[f]; m2.erase(f); } break; }
      case 4: if (env2->FileExists(f) != (m2.count(f) != 0)) fail("memenv-exists", "wrong"); break;
      default: if (r.one_in(20)) { env2.reset(lsmdb::NewMemEnv(Env::Default())); m2.clear(); }
    }
  };
  for (size_t i = 0; i < n && vh::st().violations == v0; ++i) {
    ++mc->ops;
    const std::string& f = r.pick(names);
    if (env2 && r.one_in(3)) { aside(f); if (vh::st().violations != v0) break; }
    unsigned op = (unsigned)r.below(26);
    *sig = vh::mix(*sig ^ op ^ vh::hash_str(f));
    switch (op) {
      case 0: case 1: {
        last = "NewWritableFile " + esc(f);
        WritableFile* h = nullptr;
        Status s = env->NewWritableFile(f, &h);
        if (!s.ok() || !h) { fail("memenv-create", "failed: " + s.ToString()); break; }
        if (m.count(f)) m[f]->d.clear(); else m[f] = std::make_shared<MFile>();
        wr.push_back(WrH{m[f], std::unique_ptr<WritableFile>(h)});
        break;
      }
      case 2: case 3: {
        last = "NewAppendableFile " + esc(f);
        WritableFile* h = nullptr;
        Status s = env->NewAppendableFile(f, &h);
        if (!s.ok() || !h) { fail("memenv-append-open", "failed: " + s.ToString()); break; }
        if (!m.count(f)) m[f] = std::make_shared<MFile>();
        wr.push_back(WrH{m[f], std::unique_ptr<WritableFile>(h)});
        break;
      }
      case 4: case 5: {
        last = "NewSequentialFile " + esc(f);
        SequentialFile* h = (SequentialFile*)0x8;
        Status s = env->NewSequentialFile(f, &h);
        if (m.count(f)) {
          if (!s.ok() || !h) { fail("memenv-open", "failed on an existing file: " + s.ToString()); break; }
          sq.push_back(SeqH{m[f], 0, std::unique_ptr<SequentialFile>(h)});
        } else if (s.ok() || !s.IsNotFound() || h != nullptr) {
          fail("memenv-open-missing", fmt("missing file: status %s, result %s", s.ToString().c_str(), h ? "not null" : "null"));
        }
        break;
      }
      case 6: case 7: {
        last = "NewRandomAccessFile " + esc(f);
        RandomAccessFile* h = (RandomAccessFile*)0x8;
        Status s = env->NewRandomAccessFile(f, &h);
        if (m.count(f)) {
          if (!s.ok() || !h) { fail("memenv-open", "failed on an existing file: " + s.ToString()); break; }
          rn.push_back(RndH{m[f], std::unique_ptr<RandomAccessFile>(h)});
        } else if (s.ok() || !s.IsNotFound() || h != nullptr) {
          fail("memenv-open-missing", fmt("missing file: status %s, result %s", s.ToString().c_str(), h ? "not null" : "null"));
        }
        break;
      }
      case 8: {
        last = "RemoveFile " + esc(f);
        Status s = env->RemoveFile(f);
        if (s.ok() != (m.count(f) != 0)) fail("memenv-remove", fmt("file %s, status %s", m.count(f) ? "exists" : "missing", s.ToString().c_str()));
        m.erase(f);
        break;
      }
      case 9: case 10: {
        const std::string& g = r.one_in(6) ? f : r.pick(names);
        last = "RenameFile " + esc(f) + " -> " + esc(g);
        bool have = m.count(f) != 0;
        if (have && m.count(g) && f != g) ++mc->renames_over;
        Status s = env->RenameFile(f, g);
        if (s.ok() != have) fail("memenv-rename", fmt("source %s, status %s", have ? "exists" : "missing", s.ToString().c_str()));
        if (have && f != g) { m[g] = m[f]; m.erase(f); }
        break;
      }
      case 11: {
        std::string dir = kDirs[r.below(7)];
        last = "GetChildren " + esc(dir);
        std::vector<std::string> got{"stale", "entries"};
        Status s = env->GetChildren(dir, &got);
        ++mc->listings;
        if (!dir.empty() && dir.back() == '/') break;  // unspecified; must not crash
        if (!s.ok()) { fail("memenv-list", "failed: " + s.ToString()); break; }
        std::vector<std::string> want;
        std::set<std::string> below;
        for (auto& k : m) {
          if (k.first.compare(0, dir.size() + 1, dir + "/") != 0) continue;
          std::string rest = k.first.substr(dir.size() + 1);
          size_t sl = rest.find('/');
          if (sl == std::string::npos) want.push_back(rest);
          else { below.insert(rest); below.insert(rest.substr(0, sl)); }
        }
        // How files in nested directories are listed is unspecified.
        std::vector<std::string> g2;
        std::set<std::string> wset(want.begin(), want.end());
        for (auto& x : got) if (wset.count(x) || !below.count(x)) g2.push_back(x);
        std::sort(g2.begin(), g2.end());
        std::sort(want.begin(), want.end());
        if (g2 != want) fail("memenv-list", fmt("%zu entries listed, %zu expected; first listed \"%s\", first expected \"%s\"", g2.size(), want.size(), g2.empty() ? "" : esc(g2[0]).c_str(), want.empty() ? "" : esc(want[0]).c_str()));
        break;
      }
      case 12: {
        last = "FileExists " + esc(f);
        if (env->FileExists(f) != (m.count(f) != 0)) fail("memenv-exists", fmt("expected %d", (int)m.count(f)));
        break;
      }
      case 13: {
        last = "GetFileSize " + esc(f);
        uint64_t sz = 77777777;
        Status s = env->GetFileSize(f, &sz);
        if (s.ok() != (m.count(f) != 0)) fail("memenv-size", fmt("file %s, status %s", m.count(f) ? "exists" : "missing", s.ToString().c_str()));
        else if (s.ok() && sz != m[f]->d.size()) fail("memenv-size", fmt("size %llu, expected %zu", (unsigned long long)sz, m[f]->d.size()));
        break;
      }
      case 14: case 15: case 16: case 17: {
        if (wr.empty()) break;
        WrH& h = wr[r.below(wr.size())];
        if (r.one_in(10)) {
          last = "Flush/Sync";
          Status s = r.one_in(2) ? h.h->Flush() : h.h->Sync();
          if (!s.ok()) fail("memenv-flush", s.ToString());
          break;
        }
        size_t len = gen_len(r);
        if (large && r.one_in(2)) len = r.range(100000, 3000000);
        if (many) len %= 50;
        if (total > (large ? 12000000u : 600000u)) len %= 100;
        total += len;
        std::string d = body_of(++tag, len);
        char* buf = new char[len ? len : 1];
        memcpy(buf, d.data(), len);
        last = fmt("Append %zu", len);
        Status s = h.h->Append(Slice(buf, len));
        memset(buf, 0x5a, len);
        delete[] buf;
        if (!s.ok()) fail("memenv-append", s.ToString());
        h.f->d += d;
        mc->bytes += len;
        break;
      }
      case 18: case 19: {
        if (sq.empty()) break;
        size_t x = r.below(sq.size());
        SeqH& h = sq[x];
        size_t len = gen_len(r);
        last = fmt("sequential Read %zu at %zu of %zu", len, h.pos, h.f->d.size());
        char* buf = new char[len ? len : 1];
        Slice res("junk");
        Status s = h.h->Read(len, &res, buf);
        ++mc->reads;
        bool past = h.pos > h.f->d.size();
        if (s.ok()) {
          std::string want = past ? "" : h.f->d.substr(h.pos, len);
          std::string got = res.ToString();
          if (got != want) fail("memenv-read", diff_at(got, want));
          h.pos += want.size();
        } else if (!past) {
          fail("memenv-read", s.ToString());
        }
        if (s.ok() && r.one_in(3)) kept.keep(h.h.get(), res, buf);
        else delete[] buf;
        break;
      }
      case 20: {
        if (sq.empty()) break;
        size_t x = r.below(sq.size());
        SeqH& h = sq[x];
        uint64_t len = r.one_in(4) ? (r.one_in(2) ? ~0ull - r.below(3) : (1ull << 63) - 1 + r.below(3)) : r.one_in(4) ? r.next() : gen_len(r);
        last = fmt("Skip %llu at %zu of %zu", (unsigned long long)len, h.pos, h.f->d.size());
        Status s = h.h->Skip(len);
        ++mc->skips;
        if (h.pos > h.f->d.size()) {  // the file shrank below the position: unspecified where a successful skip leaves it
          if (s.ok()) { kept.drop(sq[x].h.get(), &why); sq.erase(sq.begin() + x); }
        } else if (!s.ok()) {
          fail("memenv-skip", s.ToString());
        } else {
          h.pos += (size_t)std::min<uint64_t>(len, h.f->d.size() - h.pos);
        }
        break;
      }
      case 21: case 22: case 23: {
        if (rn.empty()) break;
        RndH& h = rn[r.below(rn.size())];
        size_t len = gen_len(r);
        uint64_t off = r.one_in(12) ? (r.one_in(2) ? ~0ull - r.below(20000) : r.next()) : r.below(h.f->d.size() + (r.one_in(4) ? 20000 : 1));
        if (r.one_in(5) && h.f->d.size() > 8192) off = 8192 * r.below(h.f->d.size() / 8192 + 1) - (r.one_in(2) ? 0 : 1);
        last = fmt("random Read %zu at %llu of %zu", len, (unsigned long long)off, h.f->d.size());
        char* buf = new char[len ? len : 1];
        Slice res("junk");
        Status s = h.h->Read(off, len, &res, buf);
        ++mc->reads;
        bool past = off > h.f->d.size();
        if (s.ok()) {
          std::string want = past ? "" : h.f->d.substr((size_t)off, len);
          std::string got = res.ToString();
          if (got != want) fail("memenv-read", diff_at(got, want));
        } else if (!past) {
          fail("memenv-read", s.ToString());
        }
        if (s.ok() && r.one_in(3)) kept.keep(h.h.get(), res, buf);
        else delete[] buf;
        break;
      }
      case 24: {
        if (r.one_in(2)) {
          last = "WriteStringToFile " + esc(f);
          std::string d = body_of(++tag, gen_len(r));
          Status s = lsmdb::WriteStringToFile(env.get(), d, f);
          if (!s.ok()) { fail("memenv-helper", s.ToString()); break; }
          if (!m.count(f)) m[f] = std::make_shared<MFile>();
          m[f]->d = d;
        } else {
          last = "ReadFileToString " + esc(f);
          std::string d = "old";
          Status s = lsmdb::ReadFileToString(env.get(), f, &d);
          if (s.ok() != (m.count(f) != 0)) { fail("memenv-helper", s.ToString()); break; }
          if (!s.ok() && !s.IsNotFound()) fail("memenv-open-missing", s.ToString());
          if (s.ok() && d != m[f]->d) fail("memenv-read", diff_at(d, m[f]->d));
        }
        break;
      }
      case 25: {
        switch (r.below(5)) {
          case 0: { last = "CreateDir"; Status s = env->CreateDir("/d"); if (!s.ok()) fail("memenv-misc", s.ToString()); break; }
          case 1: {
            last = "LockFile";
            FileLock* l = nullptr;
            Status s = env->LockFile(f, &l);
            if (!s.ok() || !l) { fail("memenv-misc", s.ToString()); break; }
            s = env->UnlockFile(l);
            if (!s.ok()) fail("memenv-misc", s.ToString());
            break;
          }
          case 2: {
            last = "NewLogger";
            Logger* l = nullptr;
            Status s = env->NewLogger(f, &l);
            if (!s.ok() || !l) { fail("memenv-misc", s.ToString()); break; }
            lsmdb::Log(l, "hello %s %d", "world", 5);
            delete l;
            if (env->FileExists(f) != (m.count(f) != 0)) m[f] = std::make_shared<MFile>();  // a log may be a file
            if (m.count(f) && m[f]->d.empty() && env->FileExists(f)) { uint64_t z = 0; if (env->GetFileSize(f, &z).ok() && z) { std::string d; if (lsmdb::ReadFileToString(env.get(), f, &d).ok()) m[f]->d = d; } }
            break;
          }
          case 3: { last = "GetTestDirectory"; std::string d; Status s = env->GetTestDirectory(&d); if (!s.ok() || d.empty()) fail("memenv-misc", s.ToString()); break; }
          case 4: {
            last = "Close";
            if (wr.empty()) break;
            size_t x = r.below(wr.size());
            Status s = wr[x].h->Close();
            if (!s.ok()) fail("memenv-misc", s.ToString());
            wr.erase(wr.begin() + x);
            break;
          }
        }
        break;
      }
    }
    if (vh::st().violations == v0 && !kept.check(&why)) fail("memenv-result", why);
    while (sq.size() > maxh) { size_t x = r.below(sq.size()); kept.drop(sq[x].h.get(), &why); sq.erase(sq.begin() + x); }
    while (rn.size() > maxh) { size_t x = r.below(rn.size()); kept.drop(rn[x].h.get(), &why); rn.erase(rn.begin() + x); }
    while (wr.size() > maxh) wr.erase(wr.begin() + r.below(wr.size()));
  }
  if (vh::st().violations != v0) { env.release(); for (auto& h : sq) h.h.release(); for (auto& h : rn) h.h.release(); for (auto& h : wr) h.h.release(); return false; }
  mc->kept += kept.checks();
  kept.clear();
  // Every name, whole, at the end; then either order of destruction for the handles.
  for (auto& f : names) {
    std::string d;
    last = "final " + esc(f);
    Status s = lsmdb::ReadFileToString(env.get(), f, &d);
    if (s.ok() != (m.count(f) != 0)) fail("memenv-final", s.ToString());
    else if (s.ok() && d != m[f]->d) fail("memenv-read", diff_at(d, m[f]->d));
  }
  for (auto& h : sq) { bool live = false; for (auto& k : m) live |= k.second == h.f; if (!live) ++mc->handles_on_removed; }
  for (auto& h : rn) { bool live = false; for (auto& k : m) live |= k.second == h.f; if (!live) ++mc->handles_on_removed; }
  if (r.one_in(2)) env.reset();  // handles keep their files alive
  for (auto& h : rn) {
    std::string d(h.f->d.size() + 1, 0);
    Slice res;
    Status s = h.h->Read(0, d.size(), &res, &d[0]);
    if (!s.ok() || res.ToString() != h.f->d) fail("memenv-handle", "content of an open handle at the end: " + (s.ok() ? diff_at(res.ToString(), h.f->d) : s.ToString()));
  }
  return true;
}

// One file of more than four gibibytes: no offset or size is cut short.
static void huge_body(Rng& r, uint64_t idx) {
  uint64_t avail_kb = 0;
  if (FILE* f = fopen("/proc/meminfo", "r")) {
    char line[200];
    while (fgets(line, sizeof line, f)) if (sscanf(line, "MemAvailable: %llu", (unsigned long long*)&avail_kb) == 1) break;
    fclose(f);
  }
  if (avail_kb < (9ull << 20)) { vh::count("huge_files_skipped"); vh::evaluated(idx, false); return; }
  std::unique_ptr<Env> env(lsmdb::NewMemEnv(Env::Default()));
  const std::string f = "/d/huge";
  WritableFile* w = nullptr;
  if (!env->NewWritableFile(f, &w).ok()) { vh::viol("memenv-create", "failed"); return; }
  std::unique_ptr<WritableFile> wp(w);
  const size_t chunk = (16 << 20) + 4096 * 3 + 5;  // never in step with a block
  const uint64_t end = (1ull << 32) + (70 << 20);
  std::string buf = body_of(idx, chunk);
  // Bytes 0..7 of each chunk carry its number, so every chunk differs.
  uint64_t size = 0, num = 0;
  bool ok = true;
  while (size < end && ok) {
    for (int j = 0; j < 8; ++j) buf[j] = (char)(num >> (8 * j));
    ok = w->Append(Slice(buf)).ok();
    if (!ok) vh::viol("memenv-append", fmt("failed at %llu", (unsigned long long)size));
    size += chunk;
    ++num;
  }
  auto want = [&](uint64_t at, size_t n) {
    std::string s;
    while (s.size() < n && at < size) {
      uint64_t c = at / chunk;
      size_t o = at % chunk;
      for (int j = 0; j < 8; ++j) buf[j] = (char)(c >> (8 * j));
      std::string part = buf.substr(o, std::min<uint64_t>(n - s.size(), size - at));
      s += part;
      at += part.size();
    }
    return s;
  };
  uint64_t sz = 0;
  if (!env->GetFileSize(f, &sz).ok() || sz != size) vh::viol("memenv-size", fmt("size %llu of a file of %llu bytes", (unsigned long long)sz, (unsigned long long)size));
  RandomAccessFile* ra = nullptr;
  SequentialFile* sf = nullptr;
  if (!env->NewRandomAccessFile(f, &ra).ok() || !env->NewSequentialFile(f, &sf).ok()) { vh::viol("memenv-open", "failed on an existing file"); return; }
  std::unique_ptr<RandomAccessFile> rp(ra);
  std::unique_ptr<SequentialFile> sp(sf);
  std::vector<char> scratch(200000);
  uint64_t reads = 0;
  auto rd = [&](uint64_t at, size_t n) {
    Slice res;
    Status s = ra->Read(at, n, &res, scratch.data());
    ++reads;
    std::string w2 = want(at, n);
    if (!s.ok() || res.ToString() != w2) vh::viol_once("memenv-read", fmt("random Read %zu at %llu of %llu: %s", n, (unsigned long long)at, (unsigned long long)size, s.ok() ? diff_at(res.ToString(), w2).c_str() : s.ToString().c_str()));
  };
  for (uint64_t mark : {1ull << 31, 1ull << 32, (1ull << 32) + (1ull << 25), 3ull << 30})
    for (int d : {-100000, -8192, -1, 0, 1, 5000}) rd(mark + d, r.range(1, 150000));
  for (int i = 0; i < 200; ++i) rd(r.below(size), r.range(0, 60000));
  rd(size - 5, 100);
  rd(size, 10);
  uint64_t pos = 0;
  for (uint64_t to : std::vector<uint64_t>{(1ull << 31) - 3, (1ull << 31) + 9, (1ull << 32) - 4, (1ull << 32) + 70000, size - 3}) {
    if (!sf->Skip(to - pos).ok()) vh::viol_once("memenv-skip", "failed");
    pos = to;
    Slice res;
    Status s = sf->Read(8, &res, scratch.data());
    ++reads;
    std::string w2 = want(pos, 8);
    if (!s.ok() || res.ToString() != w2) vh::viol_once("memenv-read", fmt("sequential Read at %llu of %llu: %s", (unsigned long long)pos, (unsigned long long)size, s.ok() ? diff_at(res.ToString(), w2).c_str() : s.ToString().c_str()));
    pos += w2.size();
  }
  vh::count("reads_compared", reads);
  vh::count("bytes_appended", size);
  vh::count("files_beyond_4_gib");
  vh::evaluated(vh::mix(idx ^ 0x4444), true);
  if (vh::want_sample()) vh::sample(fmt("huge case %llu: a file of %llu bytes, %llu reads", (unsigned long long)idx, (unsigned long long)size, (unsigned long long)reads));
}

// An implementation that keeps content in one piece may need more than this run may use: no answer then.
static void huge_case(Rng& r, uint64_t idx) {
  try {
    huge_body(r, idx);
  } catch (const std::bad_alloc&) {
    vh::count("huge_files_skipped");
    vh::evaluated(idx, false);
  }
}

// Tens of thousands of names (some of them thousands of bytes long), with many
// handles open at once: nothing here may depend on how many there are.
static void crowd_case(Rng& r, uint64_t idx) {
  std::unique_ptr<Env> env(lsmdb::NewMemEnv(Env::Default()));
  std::map<std::string, std::string> m;
  struct Open { std::string what; std::shared_ptr<std::string> want; std::unique_ptr<WritableFile> w; std::unique_ptr<RandomAccessFile> a; };
  std::vector<Open> open;
  size_t n = r.range(20000, vh::st().thorough ? 200000 : 70000), v0 = (size_t)vh::st().violations, handles = 0;
  auto bad = [&](const std::string& w) { vh::viol("memenv-crowd", fmt("%zu files: %s", n, w.c_str())); };
  auto name = [&](uint64_t k) {
    std::string d = k % 3 ? "/d/" : "/d1/", s = std::to_string(k * 7919 % 1000003);
    return k % 97 == 5 ? d + std::string(200 + k % 9000, 'n') + s : d + s;
  };
  std::vector<std::string> names;
  for (size_t k = 0; k < n && (size_t)vh::st().violations == v0; ++k) {
    std::string f = name(k), body = body_of(k, k % 41 == 0 ? r.range(0, 9000) : k % 7);
    WritableFile* w = nullptr;
    Status s = k % 2 ? env->NewAppendableFile(f, &w) : env->NewWritableFile(f, &w);
    if (!s.ok() || !w) { bad("opening \"" + esc(f, 60) + "\": " + s.ToString()); break; }
    s = w->Append(body);
    if (!s.ok()) bad("Append: " + s.ToString());
    m[f] = body;
    names.push_back(f);
    if (k % 19 == 3) {
      open.push_back(Open());
      open.back().what = f;
      open.back().want = std::make_shared<std::string>(body);
      open.back().w.reset(w);
      RandomAccessFile* a = nullptr;
      if (!env->NewRandomAccessFile(f, &a).ok() || !a) bad("opening for reading what was just written");
      open.back().a.reset(a);
      handles += 2;
    } else delete w;
  }
  auto listing = [&](const std::string& d, const char* when) {
    std::vector<std::string> got{"stale"}, want;
    if (!env->GetChildren(d, &got).ok()) bad("GetChildren failed");
    for (auto& x : m) if (x.first.compare(0, d.size() + 1, d + "/") == 0) want.push_back(x.first.substr(d.size() + 1));
    std::sort(got.begin(), got.end());
    std::sort(want.begin(), want.end());
    if (got != want) bad(fmt("%s the listing of %s has %zu names, expected %zu", when, d.c_str(), got.size(), want.size()));
  };
  auto contents = [&](const char* when) {
    uint64_t k = 0;
    for (auto& x : m) {
      if ((size_t)vh::st().violations != v0) return;
      if (++k % 5) continue;
      uint64_t sz = 1;
      if (!env->FileExists(x.first)) return bad(std::string(when) + " a file is missing: " + esc(x.first, 60));
      if (!env->GetFileSize(x.first, &sz).ok() || sz != x.second.size()) return bad(fmt("%s a size is %llu, expected %zu", when, (unsigned long long)sz, x.second.size()));
      SequentialFile* f = nullptr;
      if (!env->NewSequentialFile(x.first, &f).ok() || !f) return bad(std::string(when) + " a file does not open");
      std::unique_ptr<SequentialFile> own(f);
      std::vector<char> scratch(x.second.size() + 1);
      Slice got;
      if (!f->Read(scratch.size(), &got, scratch.data()).ok() || got.ToString() != x.second) return bad(std::string(when) + " a file's content: " + diff_at(got.ToString(), x.second));
    }
  };
  listing("/d", "after creating them");
  listing("/d1", "after creating them");
  contents("after creating them");
  for (size_t k = 0; k < n && (size_t)vh::st().violations == v0; k += 3) {
    const std::string& f = names[k];
    if (!m.count(f)) continue;
    if (k % 2) {
      if (!env->RemoveFile(f).ok()) bad("RemoveFile failed");
      m.erase(f);
    } else {
      std::string t = r.one_in(4) ? names[r.below(n)] : f + "~";
      if (!env->RenameFile(f, t).ok()) bad("RenameFile failed");
      if (t != f) { m[t] = m[f]; m.erase(f); }
    }
  }
  listing("/d", "after removing and renaming");
  listing("/d1", "after removing and renaming");
  contents("after removing and renaming");
  // Handles opened long ago still name the file they were opened on.
  for (auto& o : open) {
    if ((size_t)vh::st().violations != v0) break;
    *o.want += "tail";
    if (!o.w->Append("tail").ok()) bad("a late Append failed");
    std::vector<char> scratch(o.want->size() + 3);
    Slice got;
    if (!o.a->Read(0, scratch.size(), &got, scratch.data()).ok() || got.ToString() != *o.want) bad("a handle opened earlier reads something else: " + diff_at(got.ToString(), *o.want));
  }
  vh::count_max("max_files_at_once", n);
  vh::count_max("max_handles_at_once", handles);
  vh::evaluated(vh::mix(idx ^ n << 20));
  if (vh::want_sample()) vh::sample(fmt("crowd case %llu: %zu files, %zu handles kept open", (unsigned long long)idx, n, handles));
}

static void model_case(Rng& r, uint64_t idx) {
  Rng r1 = r, r2 = r;
  MCounts mc, mc2;
  uint64_t sig = 0, sig2 = 0;
  int v0 = vh::st().violations;
  model_body(r1, idx, &mc, &sig);
  if (vh::st().violations == v0 && vh::heap_bytes()) {
    size_t before = vh::heap_bytes();
    model_body(r2, idx, &mc2, &sig2);
    size_t after = vh::heap_bytes();
    if (vh::st().violations == v0) {
      vh::count("heap_comparisons");
      if (after != before) vh::viol("memenv-leak", fmt("%zu bytes more on the heap after everything was destroyed", after - before));
    }
  }
  vh::count("operations", mc.ops);
  vh::count("reads_compared", mc.reads);
  vh::count("skips", mc.skips);
  vh::count("bytes_appended", mc.bytes);
  vh::count("listings_compared", mc.listings);
  vh::count("renames_over_existing", mc.renames_over);
  vh::count("earlier_results_looked_at_again", mc.kept);
  vh::count("handles_outliving_their_name", mc.handles_on_removed);
  vh::evaluated(sig, mc.reads > 0);
  if (vh::want_sample()) vh::sample(fmt("case %llu: %llu operations, %llu reads, %llu listings, %llu bytes appended", (unsigned long long)idx, (unsigned long long)mc.ops, (unsigned long long)mc.reads, (unsigned long long)mc.listings, (unsigned long long)mc.bytes));
}

// -------------------------------------------------- concurrent histories ---
// C17.  Calls with their results and real-time intervals; a search for an
// order that explains all of them.
enum Kind { kCreate, kAppendOpen, kOpenSeq, kOpenRnd, kRemove, kRename, kSize, kExists, kList, kAppend, kRead, kSkip, kReadAt, kDrop };
static const char* kKind[] = {"NewWritableFile", "NewAppendableFile", "NewSequentialFile", "NewRandomAccessFile", "RemoveFile", "RenameFile", "GetFileSize", "FileExists", "GetChildren", "Append", "Read", "Skip", "ReadAt", "delete handle"};
struct COp {
  Kind k;
  int a = 0, b = 0;      // names, or handle slot
  uint64_t n = 0, off = 0;
  char fill = 0;
  // recorded
  bool ok = false;
  uint64_t val = 0;
  std::string data;      // read bytes
  uint64_t inv = 0, ret = 0;
  int thread = 0;
  bool ran = false;
};
static const char* kNames[] = {"/d/a", "/d/b", "/d/c"};

// Slots hold the handles; each slot is used by one party at a time.
struct Slot { SequentialFile* s = nullptr; RandomAccessFile* r = nullptr; WritableFile* w = nullptr; };
static vh::Ctr g_clock{1};

struct CEnv {
  Env* env;
  std::vector<Slot> slots;
  explicit CEnv(size_t n) : env(lsmdb::NewMemEnv(Env::Default())), slots(n) {}
  ~CEnv() {
    for (auto& s : slots) { delete s.s; delete s.r; delete s.w; }
    delete env;
  }
};

// What an operation needs as its slot: created by open kinds into slot b.
static void perform(CEnv& E, COp& o, int thread) {
  o.thread = thread;
  o.inv = g_clock.fetch_add(1);
  Env* e = E.env;
  switch (o.k) {
    case kCreate: { WritableFile* h = nullptr; o.ok = e->NewWritableFile(kNames[o.a], &h).ok(); E.slots[o.b].w = h; break; }
    case kAppendOpen: { WritableFile* h = nullptr; o.ok = e->NewAppendableFile(kNames[o.a], &h).ok(); E.slots[o.b].w = h; break; }
    case kOpenSeq: { SequentialFile* h = nullptr; Status s = e->NewSequentialFile(kNames[o.a], &h); o.ok = s.ok(); E.slots[o.b].s = h; if ((h != nullptr) != o.ok) o.val = 1; break; }
    case kOpenRnd: { RandomAccessFile* h = nullptr; Status s = e->NewRandomAccessFile(kNames[o.a], &h); o.ok = s.ok(); E.slots[o.b].r = h; if ((h != nullptr) != o.ok) o.val = 1; break; }
    case kRemove: o.ok = e->RemoveFile(kNames[o.a]).ok(); break;
    case kRename: o.ok = e->RenameFile(kNames[o.a], kNames[o.b]).ok(); break;
    case kSize: { uint64_t z = 0; o.ok = e->GetFileSize(kNames[o.a], &z).ok(); o.val = z; break; }
    case kExists: o.ok = true; o.val = e->FileExists(kNames[o.a]); break;
    case kList: {
      std::vector<std::string> v;
      o.ok = e->GetChildren("/d", &v).ok();
      std::sort(v.begin(), v.end());
      for (auto& x : v) o.data += x + "|";
      break;
    }
    case kAppend: {
      WritableFile* w = E.slots[o.a].w;
      if (!w) return;
      std::string d((size_t)o.n, o.fill);
      o.ok = w->Append(d).ok();
      break;
    }
    case kRead: {
      SequentialFile* s = E.slots[o.a].s;
      if (!s) return;
      std::string buf((size_t)o.n + 1, 0);
      Slice res;
      Status st = s->Read((size_t)o.n, &res, &buf[0]);
      o.ok = st.ok();
      if (o.ok) o.data = res.ToString();
      break;
    }
    case kSkip: { SequentialFile* s = E.slots[o.a].s; if (!s) return; o.ok = s->Skip(o.n).ok(); break; }
    case kReadAt: {
      RandomAccessFile* s = E.slots[o.a].r;
      if (!s) return;
      std::string buf((size_t)o.n + 1, 0);
      Slice res;
      Status st = s->Read(o.off, (size_t)o.n, &res, &buf[0]);
      o.ok = st.ok();
      if (o.ok) o.data = res.ToString();
      break;
    }
    case kDrop: {
      Slot& s = E.slots[o.a];
      delete s.s; delete s.r; delete s.w;
      s = Slot();
      o.ok = true;
      break;
    }
  }
  o.ret = g_clock.fetch_add(1);
  o.ran = true;
}

static std::string show(const COp& o) {
  std::string s = fmt("[t%d %llu-%llu %s", o.thread, (unsigned long long)o.inv, (unsigned long long)o.ret, kKind[o.k]);
  switch (o.k) {
    case kRename: s += fmt(" %s->%s %s", kNames[o.a], kNames[o.b], o.ok ? "ok" : "err"); break;
    case kSize: s += fmt(" %s = %s%llu", kNames[o.a], o.ok ? "" : "err ", (unsigned long long)o.val); break;
    case kExists: s += fmt(" %s = %llu", kNames[o.a], (unsigned long long)o.val); break;
    case kList: s += " = " + o.data; break;
    case kAppend: s += fmt(" h%d %llux'%c'", o.a, (unsigned long long)o.n, o.fill); break;
    case kRead: s += fmt(" h%d n=%llu = %s%s", o.a, (unsigned long long)o.n, o.ok ? "" : "err ", esc(o.data, 40).c_str()); break;
    case kSkip: s += fmt(" h%d n=%llu %s", o.a, (unsigned long long)o.n, o.ok ? "ok" : "err"); break;
    case kReadAt: s += fmt(" h%d off=%llu n=%llu = %s%s", o.a, (unsigned long long)o.off, (unsigned long long)o.n, o.ok ? "" : "err ", esc(o.data, 40).c_str()); break;
    case kDrop: s += fmt(" h%d", o.a); break;
    default: s += fmt(" %s h%d %s", kNames[o.a], o.b, o.ok ? "ok" : "err");
  }
  return s + "]";
}

struct CState {
  int name[3] = {-1, -1, -1};
  std::vector<std::string> files;
  std::vector<std::pair<int, uint64_t>> h;  // slot -> file, position
  uint64_t hash() const {
    // File numbers depend on the order; canonicalise by first reference.
    uint64_t x = 7;
    std::vector<int> canon(files.size(), -1);
    int next = 0;
    auto c = [&](int f) { if (f < 0) return -1; if (canon[f] < 0) canon[f] = next++; return canon[f]; };
    std::vector<int> order;
    for (int i = 0; i < 3; ++i) { int f = c(name[i]); x = vh::mix(x ^ (uint64_t)(f + 2)); if (name[i] >= 0) x = vh::mix(x ^ vh::hash_str(files[name[i]])); }
    for (auto& p : h) { int f = c(p.first); x = vh::mix(x ^ (uint64_t)(f + 2)); x = vh::mix(x ^ p.second); if (p.first >= 0) x = vh::mix(x ^ vh::hash_str(files[p.first])); }
    return x;
  }
};

// variant 1: the other permitted outcome where the position is not fully specified.
static bool apply(CState& S, const COp& o, int variant) {
  switch (o.k) {
    case kCreate: case kAppendOpen:
      if (!o.ok) return false;
      if (S.name[o.a] < 0) { S.name[o.a] = (int)S.files.size(); S.files.push_back(""); }
      else if (o.k == kCreate) S.files[S.name[o.a]].clear();
      S.h[o.b] = {S.name[o.a], 0};
      return true;
    case kOpenSeq: case kOpenRnd:
      if (o.val) return false;
      if (o.ok != (S.name[o.a] >= 0)) return false;
      S.h[o.b] = {S.name[o.a], 0};
      return true;
    case kRemove:
      if (o.ok != (S.name[o.a] >= 0)) return false;
      S.name[o.a] = -1;
      return true;
    case kRename:
      if (o.ok != (S.name[o.a] >= 0)) return false;
      if (o.ok && o.a != o.b) { S.name[o.b] = S.name[o.a]; S.name[o.a] = -1; }
      return true;
    case kSize:
      if (o.ok != (S.name[o.a] >= 0)) return false;
      return !o.ok || o.val == S.files[S.name[o.a]].size();
    case kExists: return o.val == (uint64_t)(S.name[o.a] >= 0);
    case kList: {
      if (!o.ok) return false;
      std::string w;
      for (int i = 0; i < 3; ++i) if (S.name[i] >= 0) w += std::string(kNames[i] + 3) + "|";
      return w == o.data;
    }
    case kAppend:
      if (!o.ok) return false;
      S.files[S.h[o.a].first].append((size_t)o.n, o.fill);
      return true;
    case kRead: case kReadAt: {
      const std::string& f = S.files[S.h[o.a].first];
      uint64_t pos = o.k == kRead ? S.h[o.a].second : o.off;
      if (pos > f.size()) return !o.ok || o.data.empty();
      if (!o.ok) return false;
      size_t n = (size_t)std::min<uint64_t>(o.n, f.size() - pos);
      if (o.data.size() != n || f.compare((size_t)pos, n, o.data) != 0) return false;
      if (o.k == kRead) S.h[o.a].second += n;
      return true;
    }
    case kSkip: {
      const std::string& f = S.files[S.h[o.a].first];
      uint64_t& pos = S.h[o.a].second;
      if (pos > f.size()) {  // truncated below the position: refuse, stay, or go back to the end
        if (variant == 1) { if (!o.ok) return false; pos = f.size(); }
        return true;
      }
      if (variant == 1) return false;
      if (!o.ok) return false;
      pos += std::min<uint64_t>(o.n, f.size() - pos);
      return true;
    }
    case kDrop: S.h[o.a] = {-1, 0}; return true;
  }
  return false;
}

struct Lin {
  std::vector<COp> ops;
  std::unordered_set<uint64_t> memo;
  uint64_t nodes = 0, limit;
  explicit Lin(uint64_t lim) : limit(lim) {}
  bool gave_up = false;
  bool dfs(uint64_t done, const CState& S) {
    if (done == (ops.size() == 64 ? ~0ull : (1ull << ops.size()) - 1)) return true;
    if (++nodes > limit) { gave_up = true; return true; }
    if (!memo.insert(vh::mix(done) ^ S.hash()).second) return false;
    uint64_t minret = ~0ull;
    for (size_t i = 0; i < ops.size(); ++i) if (!(done >> i & 1)) minret = std::min(minret, ops[i].ret);
    for (size_t i = 0; i < ops.size(); ++i) {
      if (done >> i & 1 || ops[i].inv > minret) continue;
      for (int variant = 0; variant < (ops[i].k == kSkip ? 2 : 1); ++variant) {
        CState T = S;
        if (apply(T, ops[i], variant) && dfs(done | 1ull << i, T)) return true;
      }
    }
    return false;
  }
};

static bool linearizable(std::vector<COp> ops, size_t nslots, bool* undecided) {
  std::vector<COp> v;
  for (auto& o : ops) if (o.ran) v.push_back(o);
  if (v.size() > 64) { *undecided = true; return true; }
  std::sort(v.begin(), v.end(), [](const COp& a, const COp& b) { return a.inv < b.inv; });
  Lin L(400000);
  L.ops = v;
  CState S;
  S.h.assign(nslots, {-1, 0});
  bool ok = L.dfs(0, S);
  *undecided = L.gave_up;
  return ok;
}

static std::string history(const std::vector<COp>& ops) {
  std::vector<COp> v;
  for (auto& o : ops) if (o.ran) v.push_back(o);
  std::sort(v.begin(), v.end(), [](const COp& a, const COp& b) { return a.inv < b.inv; });
  std::string s;
  for (auto& o : v) s += show(o) + " ";
  return s;
}

// Slots 0..: allocated as the script opens things.
struct Script {
  std::vector<COp> pre, a, b, post;
  int slots = 0;
  char next = 'A';
};
static COp mk(Kind k, int a = 0, int b = 0, uint64_t n = 0, uint64_t off = 0, char fill = 0) {
  COp o;
  o.k = k; o.a = a; o.b = b; o.n = n; o.off = off; o.fill = fill;
  return o;
}
static uint64_t small_len(Rng& r) { return r.one_in(8) ? 8190 + r.below(5) : r.range(1, 5); }

// A random call for one party.  Own handle slots: seqs, wrs; rnds may be shared.
static COp gen_call(Rng& r, Script& s, std::vector<int>& seqs, std::vector<int>& rnds, std::vector<int>& wrs) {
  for (;;) {
    switch (r.below(15)) {
      case 0: { int h = s.slots++; wrs.push_back(h); return mk(kCreate, (int)r.below(3), h); }
      case 1: { int h = s.slots++; wrs.push_back(h); return mk(kAppendOpen, (int)r.below(3), h); }
      case 2: { int h = s.slots++; seqs.push_back(h); return mk(kOpenSeq, (int)r.below(3), h); }
      case 3: { int h = s.slots++; rnds.push_back(h); return mk(kOpenRnd, (int)r.below(3), h); }
      case 4: return mk(kRemove, (int)r.below(3));
      case 5: return mk(kRename, (int)r.below(3), (int)r.below(3));
      case 6: return mk(kSize, (int)r.below(3));
      case 7: return mk(kExists, (int)r.below(3));
      case 8: return mk(kList);
      case 9: case 10: if (wrs.empty()) break; return mk(kAppend, r.pick(wrs), 0, small_len(r), 0, s.next++);
      case 11: if (seqs.empty()) break; return mk(kRead, r.pick(seqs), 0, r.one_in(2) ? r.range(1, 4) : 20000);
      case 12: if (seqs.empty()) break; return mk(kSkip, r.pick(seqs), 0, r.one_in(3) ? ~0ull : r.range(1, 6));
      case 13: if (rnds.empty()) break; return mk(kReadAt, r.pick(rnds), 0, 20000, r.one_in(3) ? r.range(1, 4) : 0);
      case 14: {
        std::vector<int>& v = r.one_in(2) ? seqs : wrs;
        if (v.empty()) break;
        size_t x = r.below(v.size());
        int h = v[x];
        v.erase(v.begin() + x);
        return mk(kDrop, h);
      }
    }
  }
}
static void gen_prefix(Rng& r, Script& s, std::vector<int>* seq, std::vector<int>* wr, std::vector<int>& rnds, int parties) {
  // Some files with content, and handles for every party.
  for (int i = 0; i < 3; ++i) {
    if (r.one_in(4)) continue;
    int h = s.slots++;
    s.pre.push_back(mk(kCreate, i, h));
    if (!r.one_in(4)) s.pre.push_back(mk(kAppend, h, 0, small_len(r), 0, s.next++));
    if (r.one_in(2)) s.pre.push_back(mk(kDrop, h)); else wr[r.below(parties)].push_back(h);
  }
  for (int i = 0; i < parties; ++i) {
    if (r.one_in(2)) { int h = s.slots++; s.pre.push_back(mk(kOpenSeq, (int)r.below(3), h)); if (r.one_in(2)) s.pre.push_back(mk(kRead, h, 0, r.range(1, 3))); seq[i].push_back(h); }
    if (r.one_in(2)) { int h = s.slots++; s.pre.push_back(mk(kAppendOpen, (int)r.below(3), h)); wr[i].push_back(h); }
  }
  if (r.one_in(2)) { int h = s.slots++; s.pre.push_back(mk(kOpenRnd, (int)r.below(3), h)); rnds.push_back(h); }
}
static void gen_post(Script& s, const std::vector<int>& seqs, const std::vector<int>& rnds) {
  s.post.push_back(mk(kList));
  for (int i = 0; i < 3; ++i) {
    s.post.push_back(mk(kSize, i));
    int h = s.slots++;
    s.post.push_back(mk(kOpenRnd, i, h));
    s.post.push_back(mk(kReadAt, h, 0, 60000, 0));
  }
  for (int h : seqs) s.post.push_back(mk(kRead, h, 0, 3));
  for (int h : rnds) s.post.push_back(mk(kReadAt, h, 0, 60000, 0));
}

static void pair_case(Rng& r, uint64_t idx) {
  Script s;
  std::vector<int> seq[2], wr[2], rnds;
  gen_prefix(r, s, seq, wr, rnds, 2);
  std::vector<int> rn[2] = {rnds, rnds};
  size_t na = r.range(1, 2), nb = r.range(1, 3);
  if (r.one_in(6)) {
    // Directed: a skip or read through a positioned handle against truncation of that very file.
    int n = (int)r.below(3), hw = s.slots++, hs = s.slots++;
    s.pre.push_back(mk(kCreate, n, hw));
    s.pre.push_back(mk(kAppend, hw, 0, r.range(4, 9), 0, s.next++));
    s.pre.push_back(mk(kOpenSeq, n, hs));
    if (!r.one_in(3)) s.pre.push_back(mk(kRead, hs, 0, r.range(1, 3)));
    s.a.push_back(mk(r.one_in(3) ? kRead : kSkip, hs, 0, r.range(2, 8)));
    int h2 = s.slots++;
    s.b.push_back(mk(kCreate, n, h2));
    if (r.one_in(2)) s.b.push_back(mk(kAppend, h2, 0, r.range(1, 3), 0, s.next++));
    s.post.push_back(mk(kRead, hs, 0, 2));
    s.post.push_back(mk(kAppend, h2, 0, 12, 0, s.next++));
    s.post.push_back(mk(kRead, hs, 0, 100));
  } else {
    for (size_t i = 0; i < na; ++i) s.a.push_back(gen_call(r, s, seq[0], rn[0], wr[0]));
    for (size_t i = 0; i < nb; ++i) s.b.push_back(gen_call(r, s, seq[1], rn[1], wr[1]));
    std::vector<int> sq = seq[0];
    sq.insert(sq.end(), seq[1].begin(), seq[1].end());
    gen_post(s, sq, rnds);
  }
  uint64_t points = 0, interleaved = 0, blocked = 0;
  int v0 = vh::st().violations;
  for (int k = 1; k < 60 && vh::st().violations == v0; ++k) {
    CEnv E(s.slots);
    std::vector<COp> pre = s.pre, a = s.a, b = s.b, post = s.post;
    for (auto& o : pre) perform(E, o, 0);
    g_target = k;
    g_count = 0;
    g_b_start = g_b_blocked = g_b_done = 0;
    std::thread tb([&] {
      while (!g_b_start.load()) sched_yield();
      t_role = 2;
      for (auto& o : b) perform(E, o, 2);
      t_role = 0;
      g_b_done = 1;
    });
    t_role = 1;
    for (auto& o : a) perform(E, o, 1);
    t_role = 0;
    bool reached = g_b_start.load() != 0;
    blocked += g_b_blocked.load();
    g_b_start = 1;
    tb.join();
    for (auto& o : post) perform(E, o, 3);
    if (!reached) break;
    ++points;
    std::vector<COp> all = pre;
    all.insert(all.end(), a.begin(), a.end());
    all.insert(all.end(), b.begin(), b.end());
    all.insert(all.end(), post.begin(), post.end());
    uint64_t lo = ~0ull, hi = 0;
    for (auto& o : a) if (o.ran) { lo = std::min(lo, o.inv); hi = std::max(hi, o.ret); }
    for (auto& o : b) if (o.ran && o.inv > lo && o.inv < hi) { ++interleaved; break; }
    bool und = false;
    if (!linearizable(all, s.slots, &und)) {
      vh::viol("memenv-not-atomic", fmt("no order of the calls explains the results (interruption point %d): %s", k, history(all).c_str()));
    }
    if (und) vh::count("histories_undecided");
    else vh::count("histories_checked");
  }
  vh::count("interruption_points", points);
  vh::count("calls_run_inside_another", interleaved);
  vh::count("calls_blocked_by_a_lock", blocked);
  uint64_t sig = 1;
  for (auto* v : {&s.pre, &s.a, &s.b}) for (auto& o : *v) sig = vh::mix(sig ^ (uint64_t)o.k ^ (uint64_t)o.a << 8 ^ (uint64_t)o.b << 16 ^ o.n << 24);
  vh::evaluated(sig, interleaved > 0);
  if (vh::want_sample()) {
    std::string d;
    for (auto& o : s.a) d += std::string(kKind[o.k]) + " ";
    d += "interrupted by ";
    for (auto& o : s.b) d += std::string(kKind[o.k]) + " ";
    vh::sample(fmt("case %llu: %sat %llu points", (unsigned long long)idx, d.c_str(), (unsigned long long)points));
  }
}

static void conc_case(Rng& r, uint64_t idx) {
  size_t rounds = vh::st().thorough ? 60 : 25;
  uint64_t overlap = 0, calls = 0, checked = 0, und_n = 0;
  uint64_t sig = 1;
  int v0 = vh::st().violations;
  for (size_t round = 0; round < rounds && vh::st().violations == v0; ++round) {
    Script s;
    int T = (int)r.range(2, 4);
    std::vector<int> seq[4], wr[4], rnds;
    gen_prefix(r, s, seq, wr, rnds, T);
    std::vector<std::vector<COp>> per(T);
    size_t each = r.range(2, T == 4 ? 4 : 6);
    for (int t = 0; t < T; ++t) {
      std::vector<int> rl = rnds;
      for (size_t i = 0; i < each; ++i) {
        COp o = gen_call(r, s, seq[t], rl, wr[t]);
        per[t].push_back(o);
      }
    }
    std::vector<int> none;
    gen_post(s, none, rnds);
    CEnv E(s.slots);
    for (auto& o : s.pre) perform(E, o, 0);
    g_delay = (int)r.below(4) * 25;
    std::atomic<int> ready{0};
    std::vector<std::thread> th;
    for (int t = 0; t < T; ++t)
      th.emplace_back([&, t] {
        t_rng = vh::mix(idx * 131 + round * 7 + t);
        ready++;
        while (ready.load() < T) {}
        for (auto& o : per[t]) perform(E, o, t + 1);
      });
    for (auto& t : th) t.join();
    g_delay = 0;
    for (auto& o : s.post) perform(E, o, 9);
    std::vector<COp> all = s.pre;
    for (auto& p : per) all.insert(all.end(), p.begin(), p.end());
    for (auto& p : per)
      for (auto& q : per)
        if (&p < &q)
          for (auto& x : p) for (auto& y : q) if (x.ran && y.ran && x.inv < y.ret && y.inv < x.ret) { ++overlap; sig = vh::mix(sig ^ x.inv * 31 ^ y.inv); }
    all.insert(all.end(), s.post.begin(), s.post.end());
    calls += all.size();
    bool und = false;
    if (!linearizable(all, s.slots, &und)) vh::viol("memenv-not-atomic", fmt("no order of the calls explains the results: %s", history(all).c_str()));
    if (und) ++und_n; else ++checked;
  }
  vh::count("histories_checked", checked);
  vh::count("histories_undecided", und_n);
  vh::count("overlapping_calls", overlap);
  vh::count("concurrent_calls", calls);
  vh::evaluated(sig, overlap > 0);
  if (vh::want_sample()) vh::sample(fmt("case %llu: %zu histories, %llu calls, %llu overlapping pairs", (unsigned long long)idx, rounds, (unsigned long long)calls, (unsigned long long)overlap));
}

// Long runs with self-describing records.
struct RecHead { uint32_t magic, writer, seq, len; };
static std::string record(uint32_t w, uint32_t seq, uint32_t len) {
  RecHead h{0x5ec0de77u, w, seq, len};
  return std::string((char*)&h, sizeof h) + body_of((uint64_t)w << 32 | seq, len);
}
// Parses whole records; each writer's must be in order.  Returns false with a reason.
static bool parse_records(const std::string& d, std::map<uint32_t, uint32_t>* last, uint64_t* n, std::string* why) {
  size_t p = 0;
  while (p < d.size()) {
    RecHead h;
    if (d.size() - p < sizeof h) { *why = fmt("%zu stray bytes at the end (offset %zu of %zu)", d.size() - p, p, d.size()); return false; }
    memcpy(&h, d.data() + p, sizeof h);
    if (h.magic != 0x5ec0de77u) { *why = fmt("no record at offset %zu of %zu", p, d.size()); return false; }
    if (d.size() - p - sizeof h < h.len) { *why = fmt("record of writer %u at offset %zu is cut (%zu of %u bytes)", h.writer, p, d.size() - p - sizeof h, h.len); return false; }
    if (d.compare(p + sizeof h, h.len, body_of((uint64_t)h.writer << 32 | h.seq, h.len)) != 0) { *why = fmt("record of writer %u at offset %zu is corrupted", h.writer, p); return false; }
    auto it = last->find(h.writer);
    if (it != last->end() && h.seq <= it->second) { *why = fmt("record %u of writer %u after its record %u", h.seq, h.writer, it->second); return false; }
    (*last)[h.writer] = h.seq;
    p += sizeof h + h.len;
    ++*n;
  }
  return true;
}

static void stress_case(Rng& r, uint64_t idx) {
  std::unique_ptr<Env> env(lsmdb::NewMemEnv(Env::Default()));
  const std::string f = "/d/log", g = "/d/other";
  int W = (int)r.range(2, 4), R = (int)r.range(1, 3);
  bool truncating = r.one_in(3), churn = r.one_in(2);
  uint32_t per = vh::st().thorough ? 300 : 120;
  vh::Ctr done_bytes{0};  // bytes whose append has returned
  vh::Ctr running{W};
  vh::Ctr recs{0}, reads{0}, trunc{0}, opens{0}, short_reads{0};
  vh::Ctr bad{false};
  uint64_t base = r.next();
  { WritableFile* w; env->NewWritableFile(f, &w); delete w; }
  g_delay = (int)r.below(3) * 25;
  std::vector<std::thread> th;
  for (int w = 0; w < W; ++w)
    th.emplace_back([&, w] {
      Rng q(vh::mix(base + w));
      t_rng = q.next();
      WritableFile* h = nullptr;
      if (!env->NewAppendableFile(f, &h).ok()) { vh::viol("memenv-append-open", "failed"); running--; return; }
      for (uint32_t i = 1; i <= per && !bad; ++i) {
        uint32_t len = q.one_in(6) ? (uint32_t)q.range(8000, 17000) : (uint32_t)q.below(300);
        std::string d = record((uint32_t)w, i, len);
        if (!h->Append(d).ok()) { vh::viol_once("memenv-append", "Append failed"); bad = true; }
        done_bytes += d.size();
        if (churn && q.one_in(10)) { delete h; h = nullptr; if (!env->NewAppendableFile(f, &h).ok()) { vh::viol_once("memenv-append-open", "failed"); bad = true; break; } ++opens; }
      }
      delete h;
      running--;
    });
  if (truncating)
    th.emplace_back([&] {
      Rng q(vh::mix(base + 77));
      while (running.load() > 0 && !bad) {
        WritableFile* h = nullptr;
        if (env->NewWritableFile(f, &h).ok()) { delete h; ++trunc; }
        for (volatile int i = (int)q.below(20000); i > 0; i = i - 1) {}
      }
    });
  for (int k = 0; k < R; ++k)
    th.emplace_back([&, k] {
      Rng q(vh::mix(base + 1000 + k));
      t_rng = q.next();
      RandomAccessFile* rf = nullptr;
      if (!env->NewRandomAccessFile(f, &rf).ok()) { vh::viol_once("memenv-open", "failed"); return; }
      std::vector<char> buf(1 << 20);
      while (!bad) {
        bool fin = running.load() == 0;
        uint64_t lo = (uint64_t)done_bytes.load();
        Slice res;
        size_t want = buf.size();
        // One read from the start must be whole records only, as of one instant.
        Status s = rf->Read(0, want, &res, buf.data());
        ++reads;
        std::string d = s.ok() ? res.ToString() : std::string();
        if (!s.ok()) { vh::viol_once("memenv-read", s.ToString()); bad = true; break; }
        if (d.size() < want) {
          std::map<uint32_t, uint32_t> last;
          std::string why;
          uint64_t n = 0;
          if (!parse_records(d, &last, &n, &why)) { vh::viol_once("memenv-append-torn", why); bad = true; break; }
          recs += n;
          ++short_reads;
          if (!truncating && d.size() < lo) { vh::viol_once("memenv-append-lost", fmt("%zu bytes read after appends of %llu bytes had returned", d.size(), (unsigned long long)lo)); bad = true; break; }
        } else if (truncating) {
          break;
        }
        // A sequential reader makes its way through while appends go on.
        if (q.one_in(3)) {
          SequentialFile* sf = nullptr;
          if (env->NewSequentialFile(f, &sf).ok()) {
            std::string all;
            for (int i = 0; i < 40; ++i) {
              size_t n = q.range(1, 30000);
              Slice x;
              if (!sf->Read(n, &x, buf.data()).ok()) { all.clear(); break; }
              all += x.ToString();
              if (x.size() < n) break;
            }
            if (!truncating && all.size() && !d.empty()) {
              size_t m = std::min(all.size(), d.size());
              if (all.compare(0, m, d, 0, m) != 0) { vh::viol_once("memenv-read", "sequential and random reads of the same bytes differ"); bad = true; }
            }
            delete sf;
          }
        }
        // Names come and go around the open handles.
        if (churn && q.one_in(4)) {
          ++opens;
          WritableFile* h = nullptr;
          if (env->NewAppendableFile(g, &h).ok()) {
            std::string d2 = record(100 + (uint32_t)k, 1, (uint32_t)q.below(20000));
            h->Append(d2);
            RandomAccessFile* r2 = nullptr;
            if (env->NewRandomAccessFile(g, &r2).ok()) {
              if (q.one_in(2)) env->RemoveFile(g); else env->RenameFile(g, g + "2");
              Slice x;
              Status s2 = r2->Read(0, 400000, &x, buf.data());
              std::map<uint32_t, uint32_t> l2;
              std::string why;
              // Other readers append to the same name with their own numbers; only wholeness is judged.
              if (s2.ok()) {
                size_t p = 0;
                std::string y = x.ToString();
                while (p < y.size() && y.size() < 400000) {
                  RecHead hh;
                  if (y.size() - p < sizeof hh) { why = "stray bytes"; break; }
                  memcpy(&hh, y.data() + p, sizeof hh);
                  if (hh.magic != 0x5ec0de77u || y.size() - p - sizeof hh < hh.len || y.compare(p + sizeof hh, hh.len, body_of((uint64_t)hh.writer << 32 | hh.seq, hh.len))) { why = fmt("no whole record at %zu of %zu", p, y.size()); break; }
                  p += sizeof hh + hh.len;
                }
                if (!why.empty()) { vh::viol_once("memenv-append-torn", "file removed or renamed under its handles: " + why); bad = true; }
              }
              delete r2;
            }
            delete h;
          }
        }
        if (fin) break;
      }
      delete rf;
    });
  for (auto& t : th) t.join();
  g_delay = 0;
  if (!bad) {
    std::string d, why;
    Status s = lsmdb::ReadFileToString(env.get(), f, &d);
    std::map<uint32_t, uint32_t> last;
    uint64_t n = 0;
    if (!s.ok() || !parse_records(d, &last, &n, &why)) vh::viol("memenv-append-torn", "at the end: " + (s.ok() ? why : s.ToString()));
    else if (!truncating && n != (uint64_t)W * per) vh::viol("memenv-append-lost", fmt("%llu of %llu records", (unsigned long long)n, (unsigned long long)W * per));
  }
  vh::count("records_read_back", recs);
  vh::count("whole_file_reads", reads);
  vh::count("truncations", trunc);
  vh::count("handles_opened_meanwhile", opens);
  vh::evaluated(vh::mix(base) ^ recs.load(), short_reads > 0);
  if (vh::want_sample()) vh::sample(fmt("case %llu: %d writers x %u records, %d readers, %llu reads, %llu truncations", (unsigned long long)idx, W, per, R, (unsigned long long)reads.load(), (unsigned long long)trunc.load()));
}

// ----------------------------------------------------------------- wrap ----
// C18.
struct Call {
  std::string op, s1, s2;
  const void* p = nullptr;
  uint64_t n = 0;
  bool operator==(const Call& o) const { return op == o.op && s1 == o.s1 && s2 == o.s2 && p == o.p && n == o.n; }
};
static Status make_status(unsigned k, const std::string& a, const std::string& b) {
  switch (k) {
    case 0: return Status::OK();
    case 1: return Status::NotFound(a, b);
    case 2: return Status::Corruption(a, b);
    case 3: return Status::NotSupported(a, b);
    case 4: return Status::InvalidArgument(a, b);
    default: return Status::IOError(a, b);
  }
}
static int status_kind(const Status& s) {
  return s.ok() ? 0 : s.IsNotFound() ? 1 : s.IsCorruption() ? 2 : s.IsNotSupportedError() ? 3 : s.IsInvalidArgument() ? 4 : s.IsIOError() ? 5 : 9;
}

static std::atomic<int> g_rec_alive{0};
class RecEnv : public Env {
 public:
  std::vector<Call> log;
  // Scripted outcome
  unsigned kind = 0;
  std::string m1, m2;
  void* out = nullptr;
  uint64_t outn = 0;
  std::string outs;
  std::vector<std::string> outv;
  std::function<void(void*)> fn;
  RecEnv() { g_rec_alive++; }
  ~RecEnv() override { g_rec_alive--; }
  Status note(const char* op, const std::string& a = "", const std::string& b = "", const void* p = nullptr, uint64_t n = 0) {
    Call c;
    c.op = op; c.s1 = a; c.s2 = b; c.p = p; c.n = n;
    log.push_back(c);
    return make_status(kind, m1, m2);
  }
  Status NewSequentialFile(const std::string& f, SequentialFile** r) override { *r = (SequentialFile*)out; return note("NewSequentialFile", f, "", r); }
  Status NewRandomAccessFile(const std::string& f, RandomAccessFile** r) override { *r = (RandomAccessFile*)out; return note("NewRandomAccessFile", f, "", r); }
  Status NewWritableFile(const std::string& f, WritableFile** r) override { *r = (WritableFile*)out; return note("NewWritableFile", f, "", r); }
  Status NewAppendableFile(const std::string& f, WritableFile** r) override { *r = (WritableFile*)out; return note("NewAppendableFile", f, "", r); }
  bool FileExists(const std::string& f) override { note("FileExists", f); return outn & 1; }
  Status GetChildren(const std::string& d, std::vector<std::string>* r) override { *r = outv; return note("GetChildren", d, "", r); }
  Status RemoveFile(const std::string& f) override { return note("RemoveFile", f); }
  Status CreateDir(const std::string& f) override { return note("CreateDir", f); }
  Status RemoveDir(const std::string& f) override { return note("RemoveDir", f); }
  Status GetFileSize(const std::string& f, uint64_t* s) override { *s = outn; return note("GetFileSize", f, "", s); }
  Status RenameFile(const std::string& a, const std::string& b) override { return note("RenameFile", a, b); }
  Status LockFile(const std::string& f, FileLock** l) override { *l = (FileLock*)out; return note("LockFile", f, "", l); }
  Status UnlockFile(FileLock* l) override { return note("UnlockFile", "", "", l); }
  void Schedule(std::function<void(void*)> f, void* a) override { fn = f; note("Schedule", "", "", a); }
  void StartThread(std::function<void(void*)> f, void* a) override { fn = f; note("StartThread", "", "", a); }
  Status GetTestDirectory(std::string* p) override { *p = outs; return note("GetTestDirectory", "", "", p); }
  Status NewLogger(const std::string& f, Logger** r) override { *r = (Logger*)out; return note("NewLogger", f, "", r); }
  uint64_t NowMicros() override { note("NowMicros"); return outn; }
  void SleepForMicroseconds(int m) override { note("SleepForMicroseconds", "", "", nullptr, (uint64_t)(int64_t)m); }
};
// Overrides one method only; everything else must still reach the target.
class PartWrap : public lsmdb::EnvWapper {
 public:
  explicit PartWrap(Env* t) : EnvWapper(t) {}
  int mine = 0;
  Status RemoveFile(const std::string&) override { ++mine; return Status::Corruption("mine"); }
};
// No append support of its own.
class PlainEnv : public RecEnv {
 public:
  Status NewAppendableFile(const std::string& f, WritableFile** r) override { return Env::NewAppendableFile(f, r); }
};

static const char* kOps[] = {"NewSequentialFile", "NewRandomAccessFile", "NewWritableFile", "NewAppendableFile", "FileExists", "GetChildren", "RemoveFile", "CreateDir", "RemoveDir", "GetFileSize", "RenameFile", "LockFile", "UnlockFile", "Schedule", "StartThread", "GetTestDirectory", "NewLogger", "NowMicros", "SleepForMicroseconds"};

// Calls operation number op on e; returns what the call must look like at the target.
static std::string one_call(Rng& r, Env* e, RecEnv* rec, unsigned op, bool expect_forward) {
  std::string a = r.one_in(5) ? "" : r.one_in(4) ? r.nasty(r.below(30)) : r.one_in(20) ? std::string(r.below(9000), 'p') : "/x/" + std::to_string(r.below(1000)), b = r.one_in(6) ? a : r.one_in(4) ? r.nasty(r.below(20)) : "/y/" + std::to_string(r.below(1000));
  rec->kind = (unsigned)r.below(6);
  rec->m1 = r.nasty(r.below(20));
  rec->m2 = r.one_in(2) ? "" : r.nasty(r.below(20));
  rec->out = r.one_in(4) ? nullptr : (void*)(uintptr_t)(r.next() | 16);
  rec->outn = r.next();
  rec->outs = r.nasty(r.below(30));
  rec->outv.clear();
  for (uint64_t i = r.below(5); i > 0; --i) rec->outv.push_back(r.nasty(r.below(9)));
  rec->fn = nullptr;
  size_t before = rec->log.size();
  std::string bad;
  Call want;
  want.op = kOps[op];
  bool has_status = true;
  Status s;
  void* in = r.one_in(4) ? nullptr : (void*)(uintptr_t)r.next();
  auto outp = [&](const void* got) { if (got != rec->out) bad = "the result pointer differs from the target's"; };
  switch (op) {
    case 0: { SequentialFile* h = (SequentialFile*)1; s = e->NewSequentialFile(a, &h); want.s1 = a; want.p = &h; if (expect_forward) outp(h); break; }
    case 1: { RandomAccessFile* h = (RandomAccessFile*)1; s = e->NewRandomAccessFile(a, &h); want.s1 = a; want.p = &h; if (expect_forward) outp(h); break; }
    case 2: { WritableFile* h = (WritableFile*)1; s = e->NewWritableFile(a, &h); want.s1 = a; want.p = &h; if (expect_forward) outp(h); break; }
    case 3: { WritableFile* h = (WritableFile*)1; s = e->NewAppendableFile(a, &h); want.s1 = a; want.p = &h; if (expect_forward) outp(h); break; }
    case 4: { bool x = e->FileExists(a); want.s1 = a; has_status = false; if (x != (bool)(rec->outn & 1)) bad = "the answer differs from the target's"; break; }
    case 5: { std::vector<std::string> v{"old"}; s = e->GetChildren(a, &v); want.s1 = a; want.p = &v; if (v != rec->outv) bad = "the listing differs from the target's"; break; }
    case 6: s = e->RemoveFile(a); want.s1 = a; break;
    case 7: s = e->CreateDir(a); want.s1 = a; break;
    case 8: s = e->RemoveDir(a); want.s1 = a; break;
    case 9: { uint64_t z = 5; s = e->GetFileSize(a, &z); want.s1 = a; want.p = &z; if (z != rec->outn) bad = "the size differs from the target's"; break; }
    case 10: s = e->RenameFile(a, b); want.s1 = a; want.s2 = b; break;
    case 11: { FileLock* h = (FileLock*)1; s = e->LockFile(a, &h); want.s1 = a; want.p = &h; outp(h); break; }
    case 12: s = e->UnlockFile((FileLock*)in); want.p = in; break;
    case 13: case 14: {
      int hits = 0;
      void* got = nullptr;
      std::function<void(void*)> f = [&](void* x) { ++hits; got = x; };
      if (op == 13) e->Schedule(f, in); else e->StartThread(f, in);
      want.p = in;
      has_status = false;
      if (hits) bad = "the work ran in the wrapper";
      if (rec->fn) rec->fn(in); else bad = "no function reached the target";
      if (bad.empty() && (hits != 1 || got != in)) bad = "the function that reached the target is not the caller's";
      break;
    }
    case 15: { std::string p = "old"; s = e->GetTestDirectory(&p); want.p = &p; if (p != rec->outs) bad = "the path differs from the target's"; break; }
    case 16: { Logger* h = (Logger*)1; s = e->NewLogger(a, &h); want.s1 = a; want.p = &h; outp(h); break; }
    case 17: { uint64_t z = e->NowMicros(); has_status = false; if (z != rec->outn) bad = "the time differs from the target's"; break; }
    case 18: { int us = r.one_in(5) ? (r.one_in(2) ? INT32_MAX : INT32_MIN) : r.one_in(3) ? -(int)r.below(1000) : (int)r.below(1000000); e->SleepForMicroseconds(us); want.n = (uint64_t)(int64_t)us; has_status = false; break; }
  }
  size_t made = rec->log.size() - before;
  if (made != 1) return fmt("%s: %zu calls reached the target", kOps[op], made);
  if (!(rec->log.back() == want)) return fmt("%s(\"%s\", \"%s\"): the target saw %s(\"%s\", \"%s\", n=%lld)%s", kOps[op], esc(want.s1).c_str(), esc(want.s2).c_str(), rec->log.back().op.c_str(), esc(rec->log.back().s1).c_str(), esc(rec->log.back().s2).c_str(), (long long)rec->log.back().n, rec->log.back().p != want.p ? " with another pointer" : "");
  if (!bad.empty()) return fmt("%s: %s", kOps[op], bad.c_str());
  if (has_status) {
    Status w = make_status(rec->kind, rec->m1, rec->m2);
    if (status_kind(s) != status_kind(w) || s.ToString() != w.ToString()) return fmt("%s: returned \"%s\", the target returned \"%s\"", kOps[op], esc(s.ToString()).c_str(), esc(w.ToString()).c_str());
  }
  return "";
}

static void wrap_case(Rng& r, uint64_t idx) {
  uint64_t sig = 3, calls = 0;
  RecEnv rec;
  {
    lsmdb::EnvWapper w(&rec);
    PartWrap pw(&rec);
    lsmdb::EnvWapper w2(&pw);  // two levels
    if (w.target() != &rec || w2.target() != &pw) vh::viol("wrapper-target", "target() is not the wrapped environment");
    for (int i = 0; i < 60; ++i) {
      unsigned op = i < 19 ? (unsigned)i : (unsigned)r.below(19);
      unsigned lvl = (unsigned)r.below(3);
      sig = vh::mix(sig ^ op ^ lvl << 8 ^ r.s);
      ++calls;
      if (lvl && op == 6) {
        Env* e = lvl == 1 ? (Env*)&pw : (Env*)&w2;
        size_t before = rec.log.size();
        int m = pw.mine;
        Status s = e->RemoveFile("f");
        if (pw.mine != m + 1 || rec.log.size() != before || !s.IsCorruption()) vh::viol("wrapper-override", "an overriding method was not the one called");
        continue;
      }
      std::string why = one_call(r, lvl == 0 ? (Env*)&w : lvl == 1 ? (Env*)&pw : (Env*)&w2, &rec, op, true);
      if (!why.empty()) { vh::viol("wrapper-forward", why); return; }
    }
  }
  if (g_rec_alive.load() != 1) vh::viol("wrapper-owns", "destroying a wrapper destroyed its target");
  {
    PlainEnv p;
    WritableFile* h = (WritableFile*)0x10;
    Status s = p.NewAppendableFile("/nope", &h);
    if (!s.IsNotSupportedError()) vh::viol("wrapper-append-default", "default NewAppendableFile returned " + s.ToString());
    if (h != nullptr) vh::viol("wrapper-append-default", "the failed default NewAppendableFile did not store a null result");
    lsmdb::EnvWapper w(&p);
    h = (WritableFile*)0x10;
    s = w.NewAppendableFile("/nope", &h);
    if (!s.IsNotSupportedError()) vh::viol("wrapper-append-default", "through a wrapper, default NewAppendableFile returned " + s.ToString());
  }
  vh::count("forwarded_calls", calls);
  vh::evaluated(sig);
  if (vh::want_sample()) vh::sample(fmt("case %llu: %llu calls through wrappers, last %s", (unsigned long long)idx, (unsigned long long)calls, rec.log.empty() ? "" : rec.log.back().op.c_str()));
}

static void delegate_case(Rng& r, uint64_t idx) {
  RecEnv rec;
  uint64_t calls = 0, sig = 5;
  int v0 = vh::st().violations;
  {
    std::unique_ptr<Env> env(lsmdb::NewMemEnv(&rec));
    std::vector<std::string> names{"/tmp/x", "/d/a", "rel", "/d/b"};
    for (int i = 0; i < 80 && vh::st().violations == v0; ++i) {
      size_t before = rec.log.size();
      rec.kind = (unsigned)r.below(6);
      std::string f = r.pick(names), g = r.pick(names);
      unsigned op = (unsigned)r.below(19);
      sig = vh::mix(sig ^ op ^ vh::hash_str(f));
      ++calls;
      switch (op) {
        case 0: { WritableFile* h = nullptr; if (env->NewWritableFile(f, &h).ok()) { h->Append("data"); h->Flush(); h->Sync(); h->Close(); delete h; } break; }
        case 1: { WritableFile* h = nullptr; if (env->NewAppendableFile(f, &h).ok()) { h->Append("more"); h->Sync(); delete h; } break; }
        case 2: { SequentialFile* h = nullptr; if (env->NewSequentialFile(f, &h).ok()) { char b[8]; Slice s; h->Read(8, &s, b); h->Skip(3); delete h; } break; }
        case 3: { RandomAccessFile* h = nullptr; if (env->NewRandomAccessFile(f, &h).ok()) { char b[8]; Slice s; h->Read(0, 8, &s, b); delete h; } break; }
        case 4: env->FileExists(f); break;
        case 5: { std::vector<std::string> v; env->GetChildren("/d", &v); break; }
        case 6: env->RemoveFile(f); break;
        case 7: env->CreateDir("/newdir"); break;
        case 8: env->RemoveDir("/newdir"); break;
        case 9: { uint64_t z; env->GetFileSize(f, &z); break; }
        case 10: env->RenameFile(f, g); break;
        case 11: { FileLock* l = nullptr; if (env->LockFile(f, &l).ok()) env->UnlockFile(l); break; }
        case 12: { Logger* l = nullptr; if (env->NewLogger(f, &l).ok()) { lsmdb::Log(l, "x %d", 1); delete l; } break; }
        case 13: { std::string d; env->GetTestDirectory(&d); break; }
        case 14: { lsmdb::WriteStringToFile(env.get(), "zz", f); break; }
        case 15: { std::string why = one_call(r, env.get(), &rec, 13, true); if (!why.empty()) vh::viol("memenv-delegate", why); before = rec.log.size(); break; }
        case 16: { std::string why = one_call(r, env.get(), &rec, 14, true); if (!why.empty()) vh::viol("memenv-delegate", why); before = rec.log.size(); break; }
        case 17: { std::string why = one_call(r, env.get(), &rec, 17, true); if (!why.empty()) vh::viol("memenv-delegate", why); before = rec.log.size(); break; }
        case 18: { std::string why = one_call(r, env.get(), &rec, 18, true); if (!why.empty()) vh::viol("memenv-delegate", why); before = rec.log.size(); break; }
      }
      for (size_t k = before; k < rec.log.size(); ++k)
        if (rec.log[k].op != "NowMicros") vh::viol("memenv-touches-base", fmt("in-memory operation %u reached the underlying environment: %s(\"%s\")", op, rec.log[k].op.c_str(), esc(rec.log[k].s1).c_str()));
    }
  }
  if (g_rec_alive.load() != 1) vh::viol("memenv-owns-base", "destroying the in-memory environment destroyed its base");
  vh::count("memenv_calls_over_recording_base", calls);
  vh::evaluated(sig);
  if (vh::want_sample()) vh::sample(fmt("case %llu: %llu in-memory calls, %zu reached the base", (unsigned long long)idx, (unsigned long long)calls, rec.log.size()));
}

int main(int argc, char** argv) {
  vh::parse(argc, argv);
  const std::string& m = vh::st().mode;
  if (m == "model") vh::run_cases(model_case);
  else if (m == "huge") vh::run_cases(huge_case);
  else if (m == "crowd") vh::run_cases(crowd_case);
  else if (m == "pair") vh::run_cases(pair_case);
  else if (m == "conc") vh::run_cases(conc_case);
  else if (m == "stress") vh::run_cases(stress_case);
  else if (m == "wrap") vh::run_cases(wrap_case);
  else if (m == "delegate") vh::run_cases(delegate_case);
  else vh::broken("unknown mode " + m);
  return vh::finish();
}
