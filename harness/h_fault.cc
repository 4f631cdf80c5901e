// C21 (fault), C22 (shadow, kill): faults and crashes below the POSIX environment.
#include "sysx.h"
#include "posixcfg.h"
#include "lockprobe.h"

#include <algorithm>
#include <memory>

#include "lsmdb/env.h"
#include "lsmdb/slice.h"
#include "lsmdb/status.h"

namespace lsmdb {
Status WriteStringToFileSync(Env* env, const Slice& data, const std::string& fname);
}
using lsmdb::Env;
using lsmdb::FileLock;
using lsmdb::Logger;
using lsmdb::RandomAccessFile;
using lsmdb::SequentialFile;
using lsmdb::Slice;
using lsmdb::Status;
using lsmdb::WritableFile;
using sysx::slurp;
using sysx::spit;
using sysx::Traced;
using vh::esc;
using vh::fmt;
using vh::Rng;

static std::string body_of(uint64_t tag, size_t n) {
  std::string s(n, 0);
  uint64_t x = vh::mix(tag);
  for (size_t i = 0; i < n; ++i) {
    if ((i & 7) == 0) x = vh::mix(x);
    s[i] = (char)(x >> (8 * (i & 7)));
  }
  return s;
}
static std::string diff_at(const std::string& got, const std::string& want) {
  size_t i = 0;
  while (i < got.size() && i < want.size() && got[i] == want[i]) ++i;
  return fmt("got %zu bytes, expected %zu, first difference at %zu", got.size(), want.size(), i);
}

// ------------------------------------------------------------ injection ----
enum FKind { kErr, kShort1, kShortHalf, kShort0 };
struct Fault { int at; FKind kind; int err; };
struct FaultType { const char* call; FKind kind; int err; bool benign; };
static const FaultType kTypes[] = {
    {"open", kErr, EMFILE, false}, {"open", kErr, EACCES, false}, {"open", kErr, ENOENT, false}, {"open", kErr, EINTR, false},
    {"close", kErr, EIO, false}, {"close", kErr, EINTR, false},
    {"read", kErr, EIO, false}, {"read", kErr, EINTR, true}, {"read", kShort1, 0, true}, {"read", kShortHalf, 0, true},
    {"pread", kErr, EIO, false}, {"pread", kErr, EINTR, false}, {"pread", kShortHalf, 0, false},
    {"write", kErr, ENOSPC, false}, {"write", kErr, EIO, false}, {"write", kErr, EINTR, true}, {"write", kShort1, 0, true}, {"write", kShortHalf, 0, true}, {"write", kShort0, 0, true}, {"write", kErr, EAGAIN, false},
    {"fsync", kErr, EIO, false}, {"fsync", kErr, ENOSPC, false}, {"fsync", kErr, EINVAL, false}, {"fsync", kErr, EROFS, false}, {"fsync", kErr, EINTR, false},
    {"lseek", kErr, EINVAL, false}, {"fstat", kErr, EIO, false}, {"stat", kErr, EACCES, false}, {"stat", kErr, ENOENT, false},
    {"mmap", kErr, ENOMEM, false}, {"munmap", kErr, EINVAL, false},
    {"rename", kErr, EXDEV, false}, {"rename", kErr, ENOENT, false}, {"unlink", kErr, EBUSY, false}, {"remove", kErr, EBUSY, false}, {"mkdir", kErr, ENOSPC, false}, {"rmdir", kErr, EBUSY, false},
    {"opendir", kErr, EMFILE, false}, {"opendir", kErr, ENOENT, false}, {"readdir", kErr, EIO, false}, {"closedir", kErr, EIO, false},
    {"fcntl", kErr, EAGAIN, false}, {"fcntl", kErr, ENOLCK, false}, {"fcntl", kErr, EINTR, false}, {"fcntl", kErr, EDEADLK, false}, {"fcntl", kErr, EACCES, false}, {"fdopen", kErr, ENOMEM, false}, {"ftruncate", kErr, EIO, false}, {"dup", kErr, EMFILE, false},
};

struct Plan {
  std::vector<Fault> one;            // at a given call
  std::string persist;               // every call of this name from `from` on
  int from = 0, persist_err = 0;
  std::string nth_name;              // the nth call of this name
  int nth = 0, nth_err = 0;
  int noise = 0;                     // per cent of reads/writes interrupted or shortened
  uint64_t seed = 0;
  bool benign() const { return one.empty() ? persist.empty() : false; }
  std::string describe(const std::vector<std::string>& names) const {
    std::string s;
    for (auto& f : one) {
      s += fmt("call %d (%s) ", f.at, f.at < (int)names.size() ? names[f.at].c_str() : "?");
      s += f.kind == kErr ? strerror(f.err) : f.kind == kShort0 ? "0 bytes only" : f.kind == kShort1 ? "1 byte only" : "half only";
      s += "; ";
    }
    if (!persist.empty()) s += fmt("every %s from call %d on: %s; ", persist.c_str(), from, strerror(persist_err));
    if (!nth_name.empty()) s += fmt("%s number %d: %s; ", nth_name.c_str(), nth, strerror(nth_err));
    if (noise) s += fmt("%d%% of reads and writes interrupted or cut; ", noise);
    return s;
  }
};
static Plan g_plan;
static int g_idx = 0, g_fired = 0, g_nth = 0;
static std::vector<std::string> g_names;
static std::map<const void*, size_t> g_maps;
static uint64_t g_injected = 0;
// Data written through a descriptor but not synced is lost when the
// descriptor's sync or close fails, as with delayed allocation.
struct WFd { off_t synced; };
static std::map<int, WFd> g_wfd;
static bool g_lossy = true;
static std::function<void(sysx::Call&, bool)> g_extra;

static void lose(int fd) {
  auto it = g_wfd.find(fd);
  if (it == g_wfd.end() || !g_lossy) return;
  struct stat sb;
  if (__real_fstat(fd, &sb) == 0 && sb.st_size > it->second.synced) {
    if (__real_ftruncate(fd, it->second.synced) != 0) vh::broken("ftruncate");
  }
}
static void hook(sysx::Call& c, bool after) {
  if (!after) {
    int i = g_idx++;
    g_names.push_back(c.name);
    for (auto& f : g_plan.one)
      if (f.at == i) {
        ++g_fired;
        if (f.kind == kErr) c.fail = true, c.err = f.err;
        else c.limit = f.kind == kShort0 ? 0 : f.kind == kShort1 ? 1 : (c.n + 1) / 2;
      }
    if (!g_plan.persist.empty() && i >= g_plan.from && g_plan.persist == c.name) c.fail = true, c.err = g_plan.persist_err, ++g_fired;
    if (g_plan.nth_name == c.name && g_nth++ == g_plan.nth) c.fail = true, c.err = g_plan.nth_err, ++g_fired;
    if (g_plan.noise && (!strcmp(c.name, "read") || !strcmp(c.name, "write"))) {
      uint64_t x = vh::mix(g_plan.seed ^ (uint64_t)i);
      if ((int)(x % 100) < g_plan.noise) {
        ++g_fired;
        if (x >> 20 & 1) c.fail = true, c.err = EINTR;
        else c.limit = 1 + (x >> 24) % (c.n ? c.n : 1);
      }
    }
    if (c.fail) ++g_injected;
    if (!strcmp(c.name, "close")) { if (c.fail) lose(c.fd); g_wfd.erase(c.fd); }
    if (!strcmp(c.name, "fsync") && c.fail) lose(c.fd);
    if (!strcmp(c.name, "munmap")) g_maps.erase(c.addr);
  } else {
    if (!strcmp(c.name, "open") && c.result >= 0 && (c.flags & O_ACCMODE) != O_RDONLY) {
      struct stat sb;
      if (__real_fstat((int)c.result, &sb) == 0 && S_ISREG(sb.st_mode)) g_wfd[(int)c.result] = WFd{sb.st_size};
    }
    if (!strcmp(c.name, "fsync") && c.result == 0 && g_wfd.count(c.fd)) {
      struct stat sb;
      if (__real_fstat(c.fd, &sb) == 0) g_wfd[c.fd].synced = sb.st_size;
    }
    if (!strcmp(c.name, "mmap") && c.result == 0 && c.fd >= 0) g_maps[c.addr] = c.n;
  }
  if (g_extra) g_extra(c, after);
}
static void reset_plan() {
  g_plan = Plan();
  g_idx = g_fired = g_nth = 0;
  g_names.clear();
  g_wfd.clear();
}

// ------------------------------------------------------------ workloads ----
// Each runs one script under the current plan in a fresh directory and returns
// what contradicts the property, or "".
struct Script {
  int type;
  uint64_t seed;
};
static LockProbe g_probe;
static std::string g_dir;
static bool g_leak_ok;  // an unlock that failed may keep its descriptor

#define TR(expr) ([&] { Traced _t; return (expr); }())

static std::string w_write(Rng r, bool benign) {
  Env* env = Env::Default();
  bool manifest = r.one_in(3), app = r.one_in(2), pre = r.one_in(2);
  std::string f = g_dir + (manifest ? "/MANIFEST-000003" : "/data"), want;
  if (pre) { want = body_of(1, r.below(2000)); spit(f, want); }
  WritableFile* w = (WritableFile*)0x8;
  Status s = app ? TR(env->NewAppendableFile(f, &w)) : TR(env->NewWritableFile(f, &w));
  if (!s.ok()) {
    if (w != nullptr) return "opening failed but stored a result";
    if (slurp(f) != want) return "opening failed but changed the file";
    return benign ? "opening failed: " + s.ToString() : "";
  }
  if (w == nullptr) return "opening succeeded without a result";
  if (!app) want.clear();
  bool ok = true, dir_synced = pre;
  g_extra = [&](sysx::Call& c, bool after) {
    struct stat sb;
    if (after && !strcmp(c.name, "fsync") && c.result == 0 && __real_fstat(c.fd, &sb) == 0 && S_ISDIR(sb.st_mode)) dir_synced = true;
  };
  std::string first;
  auto step = [&](const char* what, const Status& x) { if (!x.ok() && ok) { ok = false; first = std::string(what) + ": " + x.ToString(); } return x.ok(); };
  size_t n = r.range(1, 6);
  uint64_t tag = 9;
  std::string bad;
  for (size_t i = 0; i < n && bad.empty(); ++i) {
    unsigned op = (unsigned)r.below(6);
    if (op < 4) {
      size_t len = r.one_in(3) ? 65530 + r.below(12) : r.one_in(3) ? r.below(200000) : r.below(3000);
      std::string d = body_of(++tag, len);
      step("Append", TR(w->Append(d)));
      want += d;
    } else {
      bool sync = op == 5;
      bool good = step(sync ? "Sync" : "Flush", sync ? TR(w->Sync()) : TR(w->Flush()));
      if (ok && good && sync && manifest && !dir_synced) bad = "Sync of a new manifest succeeded, but its directory was not synced";
      if (ok && good) { std::string d = slurp(f); if (d != want) bad = fmt("%s and everything before it succeeded, but ", sync ? "Sync" : "Flush") + diff_at(d, want); }
    }
  }
  bool closed = !r.one_in(6);
  if (closed && bad.empty()) {
    bool good = step("Close", TR(w->Close()));
    if (ok && good) { std::string d = slurp(f); if (d != want) bad = "every append, flush, sync and close succeeded, but " + diff_at(d, want); }
  }
  { Traced t; delete w; }
  if (!closed && benign && bad.empty()) { std::string d = slurp(f); if (d != want) bad = "after deletion without close: " + diff_at(d, want); }
  if (bad.empty() && benign && !ok) bad = "an interruption or short write was not retried: " + first;
  return bad;
}

static std::string w_seq(Rng r, bool benign) {
  Env* env = Env::Default();
  std::string f = g_dir + "/s", d = body_of(5, r.one_in(3) ? 0 : r.below(20000));
  spit(f, d);
  SequentialFile* h = (SequentialFile*)0x8;
  Status s = TR(env->NewSequentialFile(f, &h));
  if (!s.ok()) return h ? "opening failed but stored a result" : benign ? "opening failed: " + s.ToString() : "";
  if (!h) return "opening succeeded without a result";
  std::string bad;
  size_t pos = 0, n = r.range(2, 10);
  bool ok = true;
  for (size_t i = 0; i < n && bad.empty(); ++i) {
    if (r.one_in(3)) {
      uint64_t k = r.one_in(4) ? ~0ull : r.below(8000);
      Status x = TR(h->Skip(k));
      if (!x.ok()) { if (benign) bad = "Skip: " + x.ToString(); ok = false; }
      else if (ok) pos += (size_t)std::min<uint64_t>(k, d.size() - pos);
    } else {
      size_t k = r.below(6000);
      std::vector<char> b(k + 1);
      Slice res;
      Status x = TR(h->Read(k, &res, b.data()));
      if (!x.ok()) { if (benign) bad = "an interrupted or short read was reported as an error: " + x.ToString(); ok = false; }
      else if (ok) {
        std::string got = res.ToString();
        if (got.size() > k || pos + got.size() > d.size() || d.compare(pos, got.size(), got) != 0) bad = fmt("Read %zu at %zu of %zu returned wrong bytes (%zu)", k, pos, d.size(), got.size());
        else if (got.empty() && k > 0 && pos < d.size()) bad = fmt("Read %zu at %zu of %zu claimed the end of the file", k, pos, d.size());
        pos += got.size();
      }
    }
  }
  { Traced t; delete h; }
  return bad;
}

static std::string w_rand(Rng r, bool benign) {
  Env* env = Env::Default();
  std::string f = g_dir + "/r", d = body_of(6, r.one_in(4) ? 0 : r.below(20000));
  spit(f, d);
  std::vector<RandomAccessFile*> hs;
  std::string bad;
  size_t no = r.range(1, 4);
  for (size_t k = 0; k < no; ++k) {
    RandomAccessFile* h = (RandomAccessFile*)0x8;
    Status s = TR(env->NewRandomAccessFile(f, &h));
    if (!s.ok()) { if (h) bad = "opening failed but stored a result"; else if (benign) bad = "opening failed: " + s.ToString(); continue; }
    if (!h) { bad = "opening succeeded without a result"; continue; }
    hs.push_back(h);
  }
  for (size_t i = 0; i < 5 && bad.empty() && !hs.empty(); ++i) {
    RandomAccessFile* h = hs[r.below(hs.size())];
    size_t k = r.below(3000);
    uint64_t off = r.below(d.size() + 1);
    std::vector<char> b(k + 1);
    Slice res;
    Status x = TR(h->Read(off, k, &res, b.data()));
    if (!x.ok()) { if (benign) bad = "Read: " + x.ToString(); continue; }
    std::string got = res.ToString();
    size_t m = std::min<size_t>(k, d.size() - (size_t)off);
    if (got.size() > m || d.compare((size_t)off, got.size(), got) != 0) bad = fmt("Read %zu at %llu of %zu returned wrong bytes (%zu)", k, (unsigned long long)off, d.size(), got.size());
    else if (got.empty() && m > 0) bad = fmt("Read %zu at %llu of %zu succeeded with nothing", k, (unsigned long long)off, d.size());
  }
  for (auto* h : hs) { Traced t; delete h; }
  return bad;
}

static std::string w_whole(Rng r, bool benign) {
  Env* env = Env::Default();
  std::string f = g_dir + (r.one_in(3) ? "/MANIFEST-9" : "/w"), d = body_of(7, r.one_in(4) ? 0 : r.below(150000));
  if (r.one_in(2)) {
    bool sync = r.one_in(2), removed = true;
    g_extra = [&](sysx::Call& c, bool after) { if (!after && c.fail && (!strcmp(c.name, "unlink") || !strcmp(c.name, "remove"))) removed = false; };
    Status s = sync ? TR(lsmdb::WriteStringToFileSync(env, d, f)) : TR(lsmdb::WriteStringToFile(env, d, f));
    g_extra = nullptr;
    if (s.ok()) { std::string x = slurp(f); return x == d ? "" : "WriteStringToFile succeeded, but " + diff_at(x, d); }
    if (benign) return "WriteStringToFile: " + s.ToString();
    if (removed && __real_access(f.c_str(), F_OK) == 0) return "WriteStringToFile failed and left the file behind: " + s.ToString();
    return "";
  }
  spit(f, d);
  std::string x = "old";
  Status s = TR(lsmdb::ReadFileToString(env, f, &x));
  if (s.ok()) return x == d ? "" : "ReadFileToString succeeded, but " + diff_at(x, d);
  return benign ? "ReadFileToString: " + s.ToString() : "";
}

static std::string w_names(Rng r, bool benign) {
  Env* env = Env::Default();
  std::string bad;
  auto exists = [&](const std::string& p) { return __real_access(p.c_str(), F_OK) == 0; };
  auto seen = [&](const Status& s) { if (benign && !s.ok()) bad = s.ToString(); return s.ok(); };
  for (int i = 0; i < 4 && bad.empty(); ++i) {
    std::string a = g_dir + "/n" + std::to_string(i), b = g_dir + "/m" + std::to_string(i);
    switch (r.below(6)) {
      case 0: spit(a, "x"); if (seen(TR(env->RemoveFile(a)))) { if (exists(a)) bad = "RemoveFile succeeded, the file is there"; } break;
      case 1: if (seen(TR(env->CreateDir(a)))) { if (!exists(a)) bad = "CreateDir succeeded, there is no directory"; } break;
      case 2: __real_mkdir(a.c_str(), 0755); if (seen(TR(env->RemoveDir(a)))) { if (exists(a)) bad = "RemoveDir succeeded, the directory is there"; } break;
      case 3: spit(a, "new"); if (r.one_in(2)) spit(b, "old"); if (seen(TR(env->RenameFile(a, b)))) { if (exists(a) || slurp(b) != "new") bad = "RenameFile succeeded without its effect"; } break;
      case 4: { spit(a, std::string(1234, 'q')); uint64_t z = 7; if (seen(TR(env->GetFileSize(a, &z)))) { if (z != 1234) bad = fmt("GetFileSize succeeded with %llu", (unsigned long long)z); } break; }
      case 5: {
        std::string d = g_dir + "/dir" + std::to_string(i);
        __real_mkdir(d.c_str(), 0755);
        std::vector<std::string> want, v{"stale"};
        for (uint64_t k = r.below(9); k > 0; --k) { want.push_back("e" + std::to_string(k)); spit(d + "/" + want.back(), ""); }
        if (seen(TR(env->GetChildren(d, &v)))) {
          v.erase(std::remove_if(v.begin(), v.end(), [](const std::string& x) { return x == "." || x == ".."; }), v.end());
          std::sort(v.begin(), v.end());
          std::sort(want.begin(), want.end());
          if (v != want) bad = fmt("GetChildren succeeded with %zu of %zu entries", v.size(), want.size());
        }
        break;
      }
    }
  }
  return bad;
}

static std::string w_lock(Rng r, bool benign) {
  Env* env = Env::Default();
  // A name whose unlocking was made to fail stays locked, so names are not reused.
  static int serial = 0;
  std::string a = fmt("%s/LOCK%d", g_dir.c_str(), ++serial), b = fmt("%s/LOCKB%d", g_dir.c_str(), serial), bad;
  if (r.one_in(2)) spit(a, "");
  FileLock *la = (FileLock*)0x8, *lb = (FileLock*)0x8, *lc = (FileLock*)0x8;
  Status sa = TR(env->LockFile(a, &la));
  if (sa.ok() != (la != nullptr)) return "LockFile: result and status disagree";
  if (benign && !sa.ok()) return "LockFile: " + sa.ToString();
  if (sa.ok() && g_probe.ask(a) != 'h') return "LockFile succeeded, but another process can lock the file";
  if (!sa.ok() && g_probe.ask(a) == 'h') return "LockFile failed, but the file is locked";
  Status sb = TR(env->LockFile(b, &lb));
  if (sb.ok() != (lb != nullptr)) return "LockFile: result and status disagree";
  if (sb.ok() && g_probe.ask(b) != 'h') return "LockFile succeeded, but another process can lock the file";
  if (sa.ok()) {
    Status sc = TR(env->LockFile(a, &lc));
    if (sc.ok() || lc != nullptr) return "LockFile succeeded on a file that is already locked";
    if (g_probe.ask(a) != 'h') return "a refused LockFile call dropped the lock that was held";
    Status u = TR(env->UnlockFile(la));
    if (u.ok()) { if (g_probe.ask(a) == 'h') bad = "UnlockFile succeeded, but the file is still locked"; }
    else {
      g_leak_ok = true;
      if (benign) bad = "UnlockFile: " + u.ToString();
      // Not unlocked: while the lock is in force nobody else can have it.
      if (bad.empty() && g_probe.ask(a) == 'h') {
        FileLock* l2 = nullptr;
        Plan p = g_plan;
        g_plan = Plan();
        if (TR(env->LockFile(a, &l2)).ok()) bad = "UnlockFile failed and left the lock in force, and then LockFile gave it out again";
        else if (g_probe.ask(a) != 'h') bad = "a LockFile call that was refused after a failed UnlockFile dropped the lock";
        g_plan = p;
      }
    }
    if (u.ok() && bad.empty()) {
      FileLock* l2 = nullptr;
      Plan p = g_plan;
      g_plan = Plan();
      Status again = TR(env->LockFile(a, &l2));
      if (!again.ok() || !l2) bad = "the file cannot be locked again after a successful UnlockFile: " + again.ToString();
      else { if (g_probe.ask(a) != 'h') bad = "second LockFile succeeded without effect"; TR(env->UnlockFile(l2)); }
      g_plan = p;
    }
  } else {
    FileLock* l2 = nullptr;
    Plan p = g_plan;
    g_plan = Plan();
    Status again = TR(env->LockFile(a, &l2));
    if (!again.ok() || !l2) bad = "a failed LockFile call left the name locked: " + again.ToString();
    else TR(env->UnlockFile(l2));
    g_plan = p;
  }
  if (sb.ok()) {
    if (bad.empty() && g_probe.ask(b) != 'h') bad = "an operation on one lock dropped another file's lock";
    g_plan = Plan();
    TR(env->UnlockFile(lb));
  }
  return bad;
}

static std::string w_logger(Rng r, bool benign) {
  Env* env = Env::Default();
  std::string f = g_dir + "/LOG", bad;
  if (r.one_in(2)) spit(f, "before\n");
  std::string pre = slurp(f);
  Logger* l = (Logger*)0x8;
  Status s = TR(env->NewLogger(f, &l));
  if (!s.ok()) {
    if (l) return "NewLogger failed but stored a result";
    if (slurp(f) != pre) return "NewLogger failed but changed the log";
    return benign ? "NewLogger: " + s.ToString() : "";
  }
  if (!l) return "NewLogger succeeded without a result";
  { Traced t; lsmdb::Log(l, "message %d", 42); }
  std::string x = slurp(f);
  if (x.compare(0, pre.size(), pre) != 0 || x.find("message 42\n") == std::string::npos) bad = "NewLogger succeeded, but the logged line is not in the file";
  { Traced t; delete l; }
  return bad;
}

typedef std::string (*WFn)(Rng, bool);
static const struct { const char* name; WFn fn; int weight; } kW[] = {{"writer", w_write, 5}, {"sequential reader", w_seq, 3}, {"random reader", w_rand, 3}, {"whole-file helper", w_whole, 3}, {"names", w_names, 3}, {"locks", w_lock, 3}, {"logger", w_logger, 1}};

static std::string run_once(const Script& sc, const Plan& p, bool benign) {
  // A cheap fresh directory: emptied rather than remade.
  static std::string base;
  base = vh::st().tmp + "/fault";
  vh::rm_tree(base);
  if (__real_mkdir(base.c_str(), 0755) != 0) vh::broken("mkdir");
  g_dir = base;
  reset_plan();
  g_plan = p;
  g_leak_ok = false;
  g_maps.clear();
  sysx::FdZero z(sc.type != 5 && sc.seed % 5 == 0);
  auto f0 = sysx::open_files();
  std::string bad = kW[sc.type].fn(Rng(sc.seed), benign);
  g_extra = nullptr;
  std::vector<std::string> names = g_names;
  g_plan = Plan();
  if (bad.empty() && !g_leak_ok) {
    auto f1 = sysx::open_files();
    if (f0 != f1) bad = fmt("%zu descriptors were open before, %zu afterwards", f0.size(), f1.size());
    else if (!g_maps.empty()) bad = fmt("%zu mappings are left", g_maps.size());
  }
  g_names = names;
  return bad;
}

static void fault_case(Rng& r, uint64_t idx) {
  static bool first = true;
  if (first) { g_probe.start(); sysx::g_hook = hook; first = false; }
  int total = 0;
  for (auto& w : kW) total += w.weight;
  int x = (int)r.below(total), t = 0;
  while (x >= kW[t].weight) x -= kW[t].weight, ++t;
  if (g_mode == "lockfault") t = 5;
  Script sc{t, r.next()};
  uint64_t runs = 0, singles = 0, multi = 0, inj0 = g_injected, benign_runs = 0;
  int v0 = vh::st().violations;
  auto judge = [&](const Plan& p, bool benign) {
    std::string bad = run_once(sc, p, benign);
    ++runs;
    if (bad.empty() && vh::st().prop == "C29" && vh::heap_bytes() && !g_leak_ok) {
      bad = run_once(sc, p, benign);
      size_t h0 = vh::heap_bytes();
      bad = run_once(sc, p, benign);
      size_t h1 = vh::heap_bytes();
      if (bad.empty() && h0 != h1 && !g_leak_ok) vh::viol("leak-heap", fmt("limits %d/%d, %s workload, %s%zd heap bytes are left", g_mm, g_fd, kW[t].name, p.describe(g_names).c_str(), (ssize_t)(h1 - h0)));
      vh::count("heap_comparisons");
    }
    if (!bad.empty()) {
      std::string key = std::string("fault-") + (t == 0 ? "write" : t == 1 ? "seqread" : t == 2 ? "randread" : t == 3 ? "whole" : t == 4 ? "names" : t == 5 ? "lock" : "logger");
      if (bad.find("descriptors were open") != std::string::npos || bad.find("mappings are left") != std::string::npos) key += "-leak";
      vh::viol(key, fmt("limits %d/%d, %s workload, %s%s", g_mm, g_fd, kW[t].name, p.describe(g_names).c_str(), bad.c_str()));
    }
    return bad.empty();
  };
  if (!judge(Plan(), true)) return;
  std::vector<std::string> names = g_names;
  uint64_t sig = vh::mix(sc.seed);
  // Every single fault at every call.
  for (size_t i = 0; i < names.size() && i < 400; ++i)
    for (auto& ft : kTypes) {
      if (names[i] != ft.call || vh::st().violations != v0) continue;
      Plan p;
      p.one.push_back(Fault{(int)i, ft.kind, ft.err});
      judge(p, ft.benign);
      benign_runs += ft.benign;
      ++singles;
    }
  // And one with some other error.
  static const int kOther[] = {EAGAIN, EBADF, EINVAL, EDQUOT, EROFS, ENOMEM, EPERM, ELOOP, ENOTDIR, EISDIR, ETIMEDOUT, ENXIO, ESTALE, EOVERFLOW, EFBIG, EPIPE, ENFILE, EEXIST, EDEADLK, ENOSYS, EOPNOTSUPP, EFAULT, EBUSY, ETXTBSY, 512};
  for (size_t i = 0, k = 0; i < names.size() && i < 400 && vh::st().violations == v0; k = k == 2 ? ++i, 0 : k + 1) {
    if (std::none_of(std::begin(kTypes), std::end(kTypes), [&](const FaultType& ft) { return ft.kind == kErr && names[i] == ft.call; })) continue;
    Plan p;
    p.one.push_back(Fault{(int)i, kErr, kOther[r.below(sizeof kOther / sizeof *kOther)]});
    judge(p, false);
    ++singles;
  }
  // Persistent failures, pairs, and interruptions sprinkled over everything.
  for (int k = 0; k < (vh::st().thorough ? 120 : 30) && vh::st().violations == v0 && !names.empty(); ++k) {
    Plan p;
    bool benign = false;
    unsigned kind = (unsigned)r.below(4);
    if (kind == 0) { p.noise = (int)r.range(10, 70); p.seed = r.next(); benign = true; }
    else if (kind == 1) {
      size_t i = r.below(names.size());
      for (auto& ft : kTypes) if (names[i] == ft.call && ft.kind == kErr && ft.err != EINTR && (p.persist.empty() || r.one_in(2))) { p.persist = ft.call; p.persist_err = ft.err; p.from = (int)i; }
    } else {
      for (int q = (int)r.range(2, 3); q > 0; --q) {
        const FaultType& ft = kTypes[r.below(sizeof kTypes / sizeof *kTypes)];
        std::vector<int> at;
        for (size_t i = 0; i < names.size(); ++i) if (names[i] == ft.call) at.push_back((int)i);
        if (!at.empty()) p.one.push_back(Fault{r.pick(at), ft.kind, ft.err});
      }
      if (kind == 3) { p.noise = 20; p.seed = r.next(); }
    }
    judge(p, benign);
    benign_runs += benign;
    ++multi;
  }
  vh::count("single_faults", singles);
  vh::count("fault_combinations", multi);
  vh::count("calls_made_to_fail", g_injected - inj0);
  vh::count("runs_with_only_interruptions_or_short_transfers", benign_runs);
  vh::count("system_calls_per_script_total", names.size());
  vh::evaluated(sig, singles > 0);
  if (vh::want_sample()) {
    std::string s;
    for (size_t i = 0; i < names.size() && i < 30; ++i) s += names[i] + " ";
    vh::sample(fmt("case %llu: %s workload, calls %s: %llu single faults, %llu combinations", (unsigned long long)idx, kW[t].name, s.c_str(), (unsigned long long)singles, (unsigned long long)multi));
  }
}

// --------------------------------------------------------------- shadow ----
// C22.  What storage would hold after a power failure: file bytes as of the
// last successful sync of the file, directory entries as of the last
// successful sync of the directory.
struct Shadow {
  std::map<ino_t, std::string> file;
  std::map<ino_t, std::set<std::string>> dir;
};
static std::set<std::string> names_in(const std::string& d) {
  std::set<std::string> s;
  DIR* x = __real_opendir(d.c_str());
  if (!x) return s;
  while (dirent* e = __real_readdir(x)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) s.insert(e->d_name);
  __real_closedir(x);
  return s;
}
static ino_t ino_of(const std::string& p) { struct stat sb; return __real_stat(p.c_str(), &sb) == 0 ? sb.st_ino : 0; }

static void shadow_case(Rng& r, uint64_t idx) {
  sysx::g_hook = hook;
  Env* env = Env::Default();
  std::string top = vh::fresh_dir("shadow");
  if (chdir(top.c_str()) != 0) vh::broken("chdir");
  __real_mkdir((top + "/db").c_str(), 0755);
  static const char* bases[] = {"MANIFEST-000007", "MANIFEST", "MANIFEST-2.tmp", "000009.log", "CURRENT", "xMANIFEST"};
  std::string base = bases[r.below(r.one_in(3) ? 6 : 2)];
  bool manifest = base.compare(0, 8, "MANIFEST") == 0;
  unsigned form = (unsigned)r.below(9);
  std::string dir = form == 0 ? top : form == 5 ? top : top + "/db", path;
  switch (form) {
    case 0: path = base; break;                   // bare name, current directory
    case 1: path = "db/" + base; break;
    case 2: path = "./db/" + base; break;
    case 3: path = "db//" + base; break;
    case 4: path = top + "/db/" + base; break;
    case 6: if (symlink("db", (top + "/ln").c_str()) != 0) vh::broken("symlink"); path = "ln/" + base; break;
    case 7: path = "db/MANIFEST.d/" + base; dir = top + "/db/MANIFEST.d"; __real_mkdir(dir.c_str(), 0755); break;
    case 8: dir = top + "/db/" + std::string(200, 'k'); path = dir + "/../" + std::string(200, 'k') + "/" + base; __real_mkdir(dir.c_str(), 0755); break;
    case 5: path = "/" + base; break;             // the root directory, redirected to the scratch one
  }
  std::string real = dir + "/" + base;
  auto redirect = [&](sysx::Call& c) {
    if (form != 5 || !c.path) return;
    if (!strcmp(c.path, path.c_str())) c.redirect = real;
    else if (!strcmp(c.path, "/")) c.redirect = dir;
    else if (c.path[0] == '/' && strncmp(c.path, top.c_str(), top.size()) != 0) c.redirect = dir + c.path;
  };
  Shadow sh;
  bool in_sync = false;
  std::string at_start, bad;
  uint64_t boundaries = 0, syncs = 0, dirsyncs = 0, ordered = 0;
  auto check_order = [&] {
    ++boundaries;
    if (!in_sync || !manifest || !bad.empty()) return;
    std::string now = slurp(real);
    if (now.size() <= at_start.size()) return;
    ++ordered;
    std::set<std::string> have = names_in(dir);
    for (auto& n : have) if (!sh.dir[ino_of(dir)].count(n)) { bad = fmt("during Sync the manifest's new bytes (%zu) were written while the directory entry of \"%s\" was not durable", now.size() - at_start.size(), n.c_str()); break; }
  };
  bool osync = false;
  g_extra = [&](sysx::Call& c, bool after) {
    if (!after) { redirect(c); check_order(); return; }
    if (!strcmp(c.name, "open") && c.result >= 0 && (c.flags & (O_SYNC | O_DSYNC))) osync = true;
    if (!strcmp(c.name, "fsync") && c.result == 0) {
      struct stat sb;
      if (c.flags == 1) {
        sh.dir[ino_of(dir)] = names_in(dir), ++dirsyncs;
        sh.file[ino_of(real)] = slurp(real), ++syncs;
      } else if (__real_fstat(c.fd, &sb) == 0) {
        if (S_ISDIR(sb.st_mode)) {
          if (sb.st_ino == ino_of(dir)) { sh.dir[sb.st_ino] = names_in(dir); ++dirsyncs; }
        } else if (sb.st_ino == ino_of(real)) {
          sh.file[sb.st_ino] = slurp(real);
          ++syncs;
        }
      }
    }
    if (osync && !strcmp(c.name, "write") && c.result > 0) sh.file[ino_of(real)] = slurp(real);
    check_order();
  };
  std::string want;
  if (r.one_in(3)) { want = body_of(3, r.below(5000)); spit(real, want); }
  reset_plan();
  bool faults = r.one_in(2);
  Plan p;
  static const int errs[] = {EIO, ENOSPC, EINTR, EMFILE, ENFILE, EACCES, EINVAL, EROFS, EAGAIN, ENOENT, EDQUOT, EBADF, ENOSYS, EOPNOTSUPP, EPERM, ENOTDIR, ENOMEM};
  const size_t nerrs = sizeof errs / sizeof *errs;
  if (faults) {
    p.noise = r.one_in(2) ? 20 : 0;
    p.seed = r.next();
    for (int k = (int)r.below(3); k > 0; --k) {
      p.one.push_back(Fault{(int)r.range(1, 25), kErr, errs[r.below(nerrs)]});
    }
    if (r.one_in(4)) { p.persist = "fsync"; p.persist_err = errs[r.below(nerrs)]; p.from = (int)r.below(12); }
    if (r.one_in(2)) { p.nth_name = r.one_in(3) ? "open" : r.one_in(4) ? "close" : r.one_in(3) ? "write" : "fsync"; p.nth = (int)r.below(8); p.nth_err = errs[r.below(nerrs)]; }
  }
  g_plan = p;
  bool hard = !p.one.empty() || !p.persist.empty() || !p.nth_name.empty();
  g_lossy = false;  // unsynced data is lost in the shadow, not on the real disk
  bool app = r.one_in(2);
  WritableFile* w = nullptr;
  Status s = app ? TR(env->NewAppendableFile(path, &w)) : TR(env->NewWritableFile(path, &w));
  int v0 = vh::st().violations;
  std::string last;
  uint64_t ok_syncs = 0;
  auto fail = [&](const std::string& m) { vh::viol("sync-" + std::string(manifest ? "manifest" : "file"), fmt("file \"%s\", %s: %s%s", esc(path).c_str(), last.c_str(), p.describe(g_names).c_str(), m.c_str())); };
  if (s.ok() && w) {
    if (!app) want.clear();
    bool clean = true;
    size_t n = r.range(3, 14);
    uint64_t tag = 50;
    int made = 0;
    for (size_t i = 0; i < n && vh::st().violations == v0; ++i) {
      unsigned op = (unsigned)r.below(9);
      if (op < 3) {
        size_t len = r.one_in(5) ? r.below(150000) : r.below(2000);
        last = fmt("Append %zu", len);
        std::string d = body_of(++tag, len);
        if (!TR(w->Append(d)).ok()) { if (!hard) fail("failed"); clean = false; }
        want += d;
      } else if (op == 3) {
        spit(dir + "/table" + std::to_string(made++), "t");      // a new file the manifest will name
      } else if (op == 4 && made) {
        __real_unlink((dir + "/table" + std::to_string(--made)).c_str());
      } else if (op == 5) {
        last = "Flush";
        Status x = TR(w->Flush());
        if (!x.ok()) { if (!hard) fail(x.ToString()); clean = false; }
        else if (clean && slurp(real) != want) fail("a process crash now would lose data: " + diff_at(slurp(real), want));
      } else if (op >= 6) {
        last = fmt("Sync after %zu bytes", want.size());
        std::set<std::string> must = names_in(dir);
        at_start = slurp(real);
        in_sync = true;
        Status x = TR(w->Sync());
        in_sync = false;
        if (!bad.empty()) { fail(bad); break; }
        if (!x.ok()) { if (!hard) fail("failed without a fault: " + x.ToString()); clean = false; continue; }
        if (!clean) continue;
        ++ok_syncs;
        const std::string& d = sh.file[ino_of(real)];
        if (d != want) { fail("Sync succeeded, but a power failure now leaves other bytes: " + diff_at(d, want)); break; }
        if (manifest) for (auto& nme : must) if (!sh.dir[ino_of(dir)].count(nme)) { fail(fmt("Sync of a manifest succeeded, but the directory entry of \"%s\" is not durable", nme.c_str())); break; }
      }
    }
    bool closed = r.one_in(2);
    if (closed && vh::st().violations == v0) {
      last = "Close";
      Status x = TR(w->Close());
      if (x.ok() && clean && slurp(real) != want) fail("a process crash now would lose data: " + diff_at(slurp(real), want));
      if (!x.ok() && !hard) fail(x.ToString());
    }
    { Traced t; delete w; }
  } else if (!hard) {
    last = "opening";
    fail(s.ToString());
  }
  g_extra = nullptr;
  g_lossy = true;
  reset_plan();
  vh::count("successful_syncs_judged", ok_syncs);
  vh::count("crash_points_evaluated", boundaries);
  vh::count("crash_points_with_new_manifest_bytes", ordered);
  vh::count("directory_syncs_seen", dirsyncs);
  vh::evaluated(vh::mix(idx ^ r.s), ok_syncs > 0);
  if (vh::want_sample()) vh::sample(fmt("case %llu: %s, %llu syncs succeeded, %llu crash points, %llu directory syncs%s", (unsigned long long)idx, esc(path).c_str(), (unsigned long long)ok_syncs, (unsigned long long)boundaries, (unsigned long long)dirsyncs, faults ? ", with faults" : ""));
  if (chdir(vh::st().tmp.c_str()) != 0) vh::broken("chdir");
  vh::rm_tree(top);
}

// ----------------------------------------------------------------- kill ----
// A real process is killed at every system-call boundary of a write workload.
struct Progress { volatile uint64_t safe, appended; volatile int calls, failed; };
static void kill_case(Rng& r, uint64_t idx) {
  sysx::g_hook = hook;
  Progress* pr = (Progress*)__real_mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::string dir = vh::fresh_dir("kill"), f = dir + (r.one_in(2) ? "/MANIFEST-1" : "/log");
  std::string pre = r.one_in(2) ? body_of(2, r.below(3000)) : "";
  bool app = r.one_in(2);
  std::vector<std::pair<int, size_t>> ops;
  for (size_t n = r.range(2, 9); n > 0; --n) ops.push_back({(int)r.below(7), r.one_in(4) ? r.below(150000) : r.below(3000)});
  std::string want = app ? pre : "";
  for (size_t i = 0; i < ops.size(); ++i) if (ops[i].first < 5) want += body_of(100 + i, ops[i].second);
  size_t base = app ? pre.size() : 0;
  uint64_t noise = r.one_in(2) ? r.next() : 0;
  int v0 = vh::st().violations, points = 0;
  for (int k = 0; k < 300 && vh::st().violations == v0; ++k) {
    __real_unlink(f.c_str());
    if (!pre.empty()) spit(f, pre);
    pr->safe = 0;
    pr->appended = 0;
    pr->calls = 0;
    pr->failed = 0;
    fflush(stdout);
    pid_t pid = fork();
    if (pid < 0) vh::broken("fork");
    if (pid == 0) {
      int seen = 0;
      g_extra = [&](sysx::Call&, bool) { if (seen++ == k) { kill(getpid(), SIGKILL); for (;;) pause(); } pr->calls = seen; };
      reset_plan();
      if (noise) { g_plan.noise = 30; g_plan.seed = noise; }
      Env* env = Env::Default();
      WritableFile* w = nullptr;
      Status s = app ? TR(env->NewAppendableFile(f, &w)) : TR(env->NewWritableFile(f, &w));
      if (!s.ok()) { pr->failed = 1; _exit(1); }
      uint64_t len = base;
      pr->safe = base;
      for (size_t i = 0; i < ops.size(); ++i) {
        bool ok = true;
        if (ops[i].first < 5) { ok = TR(w->Append(body_of(100 + i, ops[i].second))).ok(); len += ops[i].second; pr->appended = len; }
        else { ok = ops[i].first == 5 ? TR(w->Flush()).ok() : TR(w->Sync()).ok(); if (ok) pr->safe = len; }
        if (!ok) { pr->failed = 1; _exit(1); }
      }
      if (TR(w->Close()).ok()) pr->safe = len;
      _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    std::string d = slurp(f);
    if (pr->failed) { vh::viol("crash-process", "the workload itself failed"); break; }
    bool opened = pr->safe >= base && (pr->safe > 0 || base == 0);
    (void)opened;
    // Before the file was opened (truncated) its former content may still be there.
    bool ok = (d.size() >= pr->safe && d.size() <= want.size() && want.compare(0, d.size(), d) == 0) || (pr->appended == 0 && d == pre);
    if (!ok) vh::viol("crash-process", fmt("killed at boundary %d: the file should hold at least %llu bytes of %zu; %s", k, (unsigned long long)pr->safe, want.size(), diff_at(d, want).c_str()));
    ++points;
    if (WIFEXITED(st)) break;
  }
  __real_munmap(pr, 4096);
  vh::count("process_crash_points", points);
  vh::evaluated(vh::mix(idx * 3 + 1) ^ want.size(), points > 3);
  if (vh::want_sample()) vh::sample(fmt("case %llu: %zu operations, killed at %d points", (unsigned long long)idx, ops.size(), points));
  vh::rm_tree(dir);
}

int main(int argc, char** argv) {
  vh::parse(argc, argv);
  configure_posix();
  if (g_mode == "fault" || g_mode == "lockfault") vh::run_cases(fault_case);
  else if (g_mode == "shadow") vh::run_cases(shadow_case);
  else if (g_mode == "kill") vh::run_cases(kill_case);
  else vh::broken("unknown mode " + g_mode);
  return vh::finish();
}
