// C19 (rw), C20 (ns), C25 (limits, limconc), C26 (reads): POSIX environment.
#include "sysx.h"
#include "posixcfg.h"

#include <algorithm>
#include <memory>

#include <sched.h>

#include "lsmdb/env.h"
#include "lsmdb/slice.h"
#include "lsmdb/status.h"

namespace lsmdb {
Status WriteStringToFileSync(Env* env, const Slice& data, const std::string& fname);
}
using lsmdb::Env;
using lsmdb::FileLock;
using lsmdb::Logger;
using lsmdb::RandomAccessFile;
using lsmdb::SequentialFile;
using lsmdb::Slice;
using lsmdb::Status;
using lsmdb::WritableFile;
using sysx::slurp;
using sysx::spit;
using vh::esc;
using vh::fmt;
using vh::Rng;

static std::string body_of(uint64_t tag, size_t n) {
  std::string s(n, 0);
  uint64_t x = vh::mix(tag);
  for (size_t i = 0; i < n; ++i) {
    if ((i & 7) == 0) x = vh::mix(x);
    s[i] = (char)(x >> (8 * (i & 7)));
  }
  return s;
}
static std::string diff_at(const std::string& got, const std::string& want) {
  size_t i = 0;
  while (i < got.size() && i < want.size() && got[i] == want[i]) ++i;
  return fmt("got %zu bytes, expected %zu, first difference at %zu (got \"%s\", expected \"%s\")", got.size(), want.size(), i,
             esc(got.substr(i, 8)).c_str(), esc(want.substr(i, 8)).c_str());
}

// ------------------------------------------------------------------- rw ----
// C19.  Single-threaded, so the bytes on disk (read by direct system calls)
// are the truth for every read; the writer is judged against its model.
struct PFile {
  std::string name;
  std::string want;       // former content plus everything appended
  size_t least = 0;       // bytes that must be on disk
  std::unique_ptr<WritableFile> w;
  int readers = 0;
  bool exists = false;
};
struct RdS { int f; uint64_t pos; std::unique_ptr<SequentialFile> h; };
struct RdR { int f; size_t size0; std::unique_ptr<RandomAccessFile> h; };

static size_t wlen(Rng& r) {
  static const size_t edge[] = {0, 1, 2, 4095, 4096, 32768, 65534, 65535, 65536, 65537, 131071, 131072, 131073, 196608};
  if (r.one_in(3)) return edge[r.below(14)];
  if (r.one_in(6)) return r.range(0, 300000);
  return r.range(0, r.one_in(2) ? 300 : 40000);
}
static size_t rlen(Rng& r) {
  static const size_t edge[] = {0, 1, 4096, 8192, 65535, 65536, 65537};
  if (r.one_in(3)) return edge[r.below(7)];
  return r.range(0, r.one_in(2) ? 200 : 30000);
}

struct RwCounts { uint64_t appends = 0, bytes = 0, disk_checks = 0, seq = 0, rnd = 0, skips = 0, beyond = 0, cross = 0, whole = 0, kept = 0; };

static void rw_body(Rng& r, uint64_t idx, const std::string& dir, RwCounts* C, uint64_t* sig) {
  Env* env = Env::Default();
  int nf = (int)r.range(1, 3);
  static const char* names[] = {"a", "MANIFEST-000001", "sub/c", "./rel", "000005.log"};
  mkdir((dir + "/sub").c_str(), 0755);
  std::string deep = "sub";  // a path of more than 2000 bytes
  if (r.one_in(8))
    for (int i = 0; i < 11; ++i) { deep += "/" + std::string(r.range(150, 200), (char)('a' + i)); mkdir((dir + "/" + deep).c_str(), 0755); }
  std::vector<PFile> fs(nf);
  size_t name0 = r.below(5);
  bool relative = r.one_in(3);
  for (int i = 0; i < nf; ++i) {
    std::string n = names[(name0 + i) % 5];
    if (n == "sub/c") n = deep + "/c" + (deep.size() > 10 ? std::string(254, 'z') : "");
    fs[i].name = relative ? n : dir + "/" + n;
    if (r.one_in(3)) { fs[i].want = body_of(idx * 77 + i, r.one_in(3) ? 0 : wlen(r)); spit(fs[i].name, fs[i].want); fs[i].exists = true; fs[i].least = fs[i].want.size(); }
  }
  std::vector<RdS> sq;
  std::vector<RdR> rn;
  vh::Kept<Slice> kept;
  std::string why;
  int v0 = vh::st().violations;
  std::string last;
  auto fail = [&](const char* key, const std::string& m) { vh::viol(key, fmt("limits %d/%d, %s: %s", g_mm, g_fd, last.c_str(), m.c_str())); };
  auto disk = [&](PFile& f, bool exact) {
    ++C->disk_checks;
    std::string d = slurp(f.name);
    if (exact ? d != f.want : (d.size() < f.least || d.size() > f.want.size() || f.want.compare(0, d.size(), d) != 0))
      fail("posix-write", fmt("file on disk (at least %zu bytes due): ", f.least) + diff_at(d, f.want));
  };
  auto opener = [&](PFile& f, bool trunc) {
    WritableFile* h = (WritableFile*)0x8;
    last = (trunc ? "NewWritableFile " : "NewAppendableFile ") + esc(f.name);
    Status s = trunc ? env->NewWritableFile(f.name, &h) : env->NewAppendableFile(f.name, &h);
    if (!s.ok() || !h) { fail("posix-open", s.ToString()); return; }
    if (trunc) f.want.clear();
    f.exists = true;
    f.least = f.want.size();
    f.w.reset(h);
    disk(f, true);
  };
  uint64_t tag = idx * 1000;
  size_t n = r.range(15, vh::st().thorough ? 200 : 80);
  for (size_t i = 0; i < n && vh::st().violations == v0; ++i) {
    int fi = (int)r.below(nf);
    PFile& f = fs[fi];
    unsigned op = (unsigned)r.below(20);
    sysx::stir_errno(r);
    *sig = vh::mix(*sig ^ op ^ (uint64_t)fi << 8);
    switch (op) {
      case 0: case 1: if (!f.w) opener(f, f.readers == 0 && r.one_in(2)); break;
      case 2: case 3: case 4: case 5: case 6: {
        if (!f.w) { if (r.one_in(2)) opener(f, f.readers == 0 && r.one_in(2)); if (!f.w) break; }
        size_t len = wlen(r);
        if (f.want.size() > 1500000) len %= 50;
        std::string d = body_of(++tag, len);
        char* b = new char[len ? len : 1];
        memcpy(b, d.data(), len);
        last = fmt("Append %zu after %zu", len, f.want.size());
        Status s = f.w->Append(Slice(b, len));
        memset(b, 0x5a, len);
        delete[] b;
        if (!s.ok()) { fail("posix-append", s.ToString()); break; }
        f.want += d;
        ++C->appends;
        C->bytes += len;
        *sig = vh::mix(*sig ^ len);
        if (r.one_in(4)) disk(f, false);
        break;
      }
      case 7: case 8: {
        if (!f.w) break;
        bool sync = op == 8;
        last = fmt("%s after %zu", sync ? "Sync" : "Flush", f.want.size());
        Status s = sync ? f.w->Sync() : f.w->Flush();
        if (!s.ok()) { fail("posix-flush", s.ToString()); break; }
        f.least = f.want.size();
        disk(f, true);
        break;
      }
      case 9: {
        if (!f.w) break;
        bool close = !r.one_in(3);
        last = fmt("%s after %zu", close ? "Close" : "delete without Close", f.want.size());
        if (close) { Status s = f.w->Close(); if (!s.ok()) { fail("posix-close", s.ToString()); break; } }
        else f.w.reset();
        f.least = f.want.size();
        disk(f, true);
        f.w.reset();
        disk(f, true);
        break;
      }
      case 10: {
        if (!f.exists) break;
        SequentialFile* h = nullptr;
        last = "NewSequentialFile " + esc(f.name);
        Status s = env->NewSequentialFile(f.name, &h);
        if (!s.ok() || !h) { fail("posix-open", s.ToString()); break; }
        sq.push_back(RdS{fi, 0, std::unique_ptr<SequentialFile>(h)});
        f.readers++;
        break;
      }
      case 11: {
        if (!f.exists) break;
        RandomAccessFile* h = nullptr;
        size_t sz = slurp(f.name).size();
        last = fmt("NewRandomAccessFile %s (%zu bytes)", esc(f.name).c_str(), sz);
        Status s = env->NewRandomAccessFile(f.name, &h);
        if (!s.ok() || !h) { fail("posix-open", s.ToString()); break; }
        rn.push_back(RdR{fi, sz, std::unique_ptr<RandomAccessFile>(h)});
        f.readers++;
        break;
      }
      case 12: case 13: {
        if (sq.empty()) break;
        RdS& h = sq[r.below(sq.size())];
        std::string d = slurp(fs[h.f].name);
        size_t len = rlen(r);
        last = fmt("sequential Read %zu at %llu of %zu", len, (unsigned long long)h.pos, d.size());
        char* b = new char[len ? len : 1];
        Slice res("junk");
        Status s = h.h->Read(len, &res, b);
        ++C->seq;
        std::string want = h.pos > d.size() ? "" : d.substr((size_t)h.pos, len);
        if (!s.ok()) fail("posix-read", s.ToString());
        else if (res.ToString() != want) fail("posix-read", diff_at(res.ToString(), want));
        h.pos += want.size();
        if (s.ok() && r.one_in(3)) kept.keep(h.h.get(), res, b);
        else delete[] b;
        break;
      }
      case 14: {
        if (sq.empty()) break;
        RdS& h = sq[r.below(sq.size())];
        size_t sz = slurp(fs[h.f].name).size();
        uint64_t len = r.one_in(4) ? (r.one_in(2) ? ~0ull - r.below(3) : (1ull << 63) - 1 + r.below(3)) : r.one_in(4) ? r.next() : rlen(r);
        last = fmt("Skip %llu at %llu of %zu", (unsigned long long)len, (unsigned long long)h.pos, sz);
        Status s = h.h->Skip(len);
        ++C->skips;
        if (!s.ok()) fail("posix-skip", s.ToString());
        if (h.pos < sz) h.pos += std::min<uint64_t>(len, sz - h.pos);
        break;
      }
      case 15: case 16: case 17: {
        if (rn.empty()) break;
        RdR& h = rn[r.below(rn.size())];
        std::string d = slurp(fs[h.f].name);
        size_t len = rlen(r);
        uint64_t off;
        if (r.one_in(8)) off = r.one_in(2) ? ~0ull - r.below(70000) : r.one_in(2) ? (1ull << 63) - 2 + r.below(5) : r.next();
        else if (r.one_in(4)) off = h.size0 - std::min<uint64_t>(h.size0, r.below(3)) + r.below(3);
        else off = r.below(h.size0 + 50);
        last = fmt("random Read %zu at %llu of %zu (%zu when opened)", len, (unsigned long long)off, d.size(), h.size0);
        char* b = new char[len ? len : 1];
        Slice res("junk");
        Status s = h.h->Read(off, len, &res, b);
        ++C->rnd;
        if (off > h.size0) {
          // Beyond what was there at opening: nothing, an error, or bytes that do exist now.
          ++C->beyond;
          if (s.ok()) {
            std::string got = res.ToString(), now = off > d.size() ? "" : d.substr((size_t)off, len);
            if (got.size() > now.size() || now.compare(0, got.size(), got) != 0) fail("posix-read", "beyond the end: " + diff_at(got, now));
          }
        } else {
          std::string least = d.substr((size_t)off, (size_t)std::min<uint64_t>(len, h.size0 - off)), most = d.substr((size_t)off, len);
          if (off + len > h.size0) ++C->cross;
          if (!s.ok()) fail("posix-read", s.ToString());
          else {
            std::string got = res.ToString();
            if (got.size() < least.size() || got.size() > most.size() || most.compare(0, got.size(), got) != 0) fail("posix-read", diff_at(got, most));
          }
        }
        if (s.ok() && r.one_in(3)) kept.keep(h.h.get(), res, b);
        else delete[] b;
        break;
      }
      case 18: {
        if (!f.exists) break;
        std::string d = slurp(f.name), got = "old content";
        last = fmt("ReadFileToString (%zu bytes)", d.size());
        Status s = lsmdb::ReadFileToString(env, f.name, &got);
        ++C->whole;
        if (!s.ok()) fail("posix-read", s.ToString());
        else if (got != d) fail("posix-read", diff_at(got, d));
        break;
      }
      case 19: {
        if (f.w || f.readers) break;
        std::string d = body_of(++tag, wlen(r));
        bool sync = r.one_in(2);
        last = fmt("WriteStringToFile%s %zu", sync ? "Sync" : "", d.size());
        Status s = sync ? lsmdb::WriteStringToFileSync(env, d, f.name) : lsmdb::WriteStringToFile(env, d, f.name);
        if (!s.ok()) { fail("posix-write", s.ToString()); break; }
        f.want = d;
        f.least = d.size();
        f.exists = true;
        disk(f, true);
        break;
      }
    }
    if (vh::st().violations == v0 && !kept.check(&why)) fail("posix-result", why);
    if (sq.size() > 3 || (!sq.empty() && r.one_in(12))) { size_t x = r.below(sq.size()); fs[sq[x].f].readers--; kept.drop(sq[x].h.get(), &why); sq.erase(sq.begin() + x); }
    if (rn.size() > 5 || (!rn.empty() && r.one_in(12))) { size_t x = r.below(rn.size()); fs[rn[x].f].readers--; kept.drop(rn[x].h.get(), &why); rn.erase(rn.begin() + x); }
  }
  C->kept += kept.checks();
  kept.clear();
  for (auto& f : fs) if (f.w && vh::st().violations == v0) { f.w.reset(); last = "delete without Close at the end"; disk(f, true); }
}

static void rw_case(Rng& r, uint64_t idx) {
  std::string dir = vh::fresh_dir("rw");
  if (chdir(dir.c_str()) != 0) vh::broken("chdir");
  sysx::FdZero z(r.one_in(6));
  auto before = sysx::open_files();
  RwCounts C;
  uint64_t sig = 0;
  Rng r2 = r;
  rw_body(r, idx, dir, &C, &sig);
  auto after = sysx::open_files();
  if (before != after && vh::st().violations == 0) vh::viol("leak-descriptor", fmt("%zu descriptors open before, %zu after all files were deleted", before.size(), after.size()));
  if (vh::st().prop == "C29" && vh::heap_bytes() && vh::st().violations == 0) {
    dir = vh::fresh_dir("rw");
    if (chdir(dir.c_str()) != 0) vh::broken("chdir");
    RwCounts C2;
    uint64_t s2 = 0;
    size_t h0 = vh::heap_bytes();
    rw_body(r2, idx, dir, &C2, &s2);
    size_t h1 = vh::heap_bytes();
    vh::count("heap_comparisons");
    if (h1 != h0) vh::viol("leak-heap", fmt("%zd bytes more on the heap after all files were deleted", (ssize_t)(h1 - h0)));
  }
  vh::count("earlier_results_looked_at_again", C.kept);
  vh::count("appends", C.appends);
  vh::count("bytes_appended", C.bytes);
  vh::count("disk_comparisons", C.disk_checks);
  vh::count("sequential_reads", C.seq);
  vh::count("random_reads", C.rnd);
  vh::count("reads_beyond_end", C.beyond);
  vh::count("reads_crossing_end", C.cross);
  vh::count("skips", C.skips);
  vh::count("whole_file_reads", C.whole);
  vh::evaluated(sig ^ idx, C.disk_checks + C.seq + C.rnd > 0);
  if (vh::want_sample()) vh::sample(fmt("case %llu, limits %d/%d: %llu appends (%llu bytes), %llu disk comparisons, %llu+%llu reads", (unsigned long long)idx, g_mm, g_fd, (unsigned long long)C.appends, (unsigned long long)C.bytes, (unsigned long long)C.disk_checks, (unsigned long long)C.seq, (unsigned long long)C.rnd));
  if (chdir(vh::st().tmp.c_str()) != 0) vh::broken("chdir");
  vh::rm_tree(dir);
}

// ------------------------------------------------------------------ big ----
// C19 beyond 31 and 32 bits of size and offset.  Files are sparse: known bytes
// at known places, zeros elsewhere; a huge write is carried out by extending
// the file and writing the known bytes only.
typedef std::map<uint64_t, std::string> Islands;  // never overlapping
static std::string isl_get(const Islands& m, uint64_t size, uint64_t off, size_t n) {
  if (off >= size) return "";
  std::string s((size_t)std::min<uint64_t>(n, size - off), 0);
  for (auto& i : m) {
    uint64_t a = std::max(i.first, off), b = std::min<uint64_t>(i.first + i.second.size(), off + s.size());
    if (a < b) memcpy(&s[(size_t)(a - off)], i.second.data() + (a - i.first), (size_t)(b - a));
  }
  return s;
}
static const char* g_huge;      // memory of a huge append, zero but for:
static uint64_t g_huge_n;
static Islands g_huge_isl;
static uint64_t g_huge_writes, g_plain_writes;
static bool g_no_huge;          // writes are not made from the caller's memory: too slow here
static void big_hook(sysx::Call& c, bool after) {
  if (after || strcmp(c.name, "write") || !g_huge) return;
  const char* p = (const char*)c.addr;
  if (p < g_huge || p >= g_huge + g_huge_n || c.n < 100000) { if ((g_plain_writes += c.n) > 100000000) g_no_huge = true; return; }
  uint64_t at = (uint64_t)(p - g_huge), n = std::min<uint64_t>(c.n, 0x7ffff000);  // what the kernel takes at once
  if (at + c.n > g_huge_n) return;  // reads outside: let it
  struct stat sb;
  bool append = __real_fcntl(c.fd, F_GETFL) & O_APPEND;
  if (__real_fstat(c.fd, &sb) != 0) return;
  off_t where = c.off >= 0 && !append ? c.off : append ? sb.st_size : __real_lseek(c.fd, 0, SEEK_CUR);
  if (where < 0) return;
  if (where + (off_t)n > sb.st_size && __real_ftruncate(c.fd, where + (off_t)n) != 0) vh::broken("ftruncate");
  for (auto& i : g_huge_isl) {
    uint64_t a = std::max(i.first, at), b = std::min<uint64_t>(i.first + i.second.size(), at + n);
    if (a >= b) continue;
    std::string path = "/proc/self/fd/" + std::to_string(c.fd);
    int fd = __real_open(path.c_str(), O_WRONLY);
    if (fd < 0 || __real_pwrite(fd, i.second.data() + (a - i.first), (size_t)(b - a), where + (off_t)(a - at)) != (ssize_t)(b - a)) vh::broken("pwrite");
    __real_close(fd);
  }
  if (c.off < 0) __real_lseek(c.fd, where + (off_t)n, SEEK_SET);
  ++g_huge_writes;
  c.replaced = true;
  c.value = (long)n;
}
static void big_case(Rng& r, uint64_t idx) {
  Env* env = Env::Default();
  sysx::g_hook = big_hook;
  std::string dir = vh::fresh_dir("big"), f = dir + "/f", last;
  int v0 = vh::st().violations;
  auto fail = [&](const char* key, const std::string& m) { vh::viol_once(key, fmt("limits %d/%d, %s: %s", g_mm, g_fd, last.c_str(), m.c_str())); };
  static const uint64_t edge[] = {1ull << 31, 1ull << 32, (1ull << 31) + (1ull << 32), 5ull << 30, 1ull << 33};
  Islands m;
  uint64_t size = 0;
  auto put = [&](Islands& is, uint64_t lim) {
    for (uint64_t e : edge)
      for (uint64_t d : {(uint64_t)r.below(70000), (uint64_t)0}) {
        uint64_t at = e - 40000 + (d ? d : 40000);
        std::string b = body_of(r.next(), r.range(1, 300));
        if (at + b.size() > lim) continue;
        auto nx = is.lower_bound(at);
        if (nx != is.end() && nx->first < at + b.size()) continue;
        if (nx != is.begin()) { auto pv = std::prev(nx); if (pv->first + pv->second.size() > at) continue; }
        is[at] = b;
      }
    is[0] = body_of(r.next(), 50);
  };
  auto on_disk = [&](const char* when) {
    struct stat sb;
    int fd = __real_open(f.c_str(), O_RDONLY);
    if (fd < 0 || __real_fstat(fd, &sb) != 0) { fail("posix-write", "the file cannot be opened"); return; }
    if ((uint64_t)sb.st_size != size) fail("posix-write", fmt("%s: %llu bytes on disk, expected %llu", when, (unsigned long long)sb.st_size, (unsigned long long)size));
    std::vector<uint64_t> at{0, size - std::min<uint64_t>(size, 5000)};
    for (auto& i : m) at.push_back(i.first - std::min<uint64_t>(i.first, 2000));
    for (uint64_t a : at) {
      std::string b(5000, 0), want = isl_get(m, size, a, 5000);
      ssize_t n = __real_pread(fd, &b[0], b.size(), (off_t)a);
      b.resize(n < 0 ? 0 : (size_t)n);
      if (b != want) fail("posix-write", fmt("%s, bytes on disk at %llu of %llu: ", when, (unsigned long long)a, (unsigned long long)size) + diff_at(b, want));
    }
    __real_close(fd);
    vh::count("disk_comparisons");
  };
  // Former content, sparse.
  bool app = r.one_in(2);
  if (app || r.one_in(3)) {
    size = edge[r.below(4)] + r.below(200000) - 100000;
    put(m, size);
    int fd = __real_open(f.c_str(), O_CREAT | O_WRONLY, 0644);
    if (fd < 0 || __real_ftruncate(fd, (off_t)size) != 0) vh::broken("sparse file");
    for (auto& i : m) if (__real_pwrite(fd, i.second.data(), i.second.size(), (off_t)i.first) != (ssize_t)i.second.size()) vh::broken("pwrite");
    __real_close(fd);
  }
  // Appends, some huge.
  WritableFile* w = nullptr;
  last = app ? "NewAppendableFile" : "NewWritableFile";
  Status s = app ? env->NewAppendableFile(f, &w) : env->NewWritableFile(f, &w);
  if (!s.ok() || !w) { fail("posix-open", s.ToString()); return; }
  if (!app) size = 0, m.clear();
  int huge_left = 2;
  for (int k = (int)r.range(2, 6); k > 0 && vh::st().violations == v0; --k) {
    if (huge_left && r.one_in(2) && !g_no_huge) {
      g_plain_writes = 0;
      --huge_left;
      g_huge_n = edge[r.below(4)] + r.below(200000) - 100000;
      void* p = __real_mmap(nullptr, g_huge_n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      if (p == MAP_FAILED) vh::broken("mmap");
      g_huge_isl.clear();
      put(g_huge_isl, g_huge_n);
      for (auto& i : g_huge_isl) memcpy((char*)p + i.first, i.second.data(), i.second.size());
      g_huge = (const char*)p;
      last = fmt("Append %llu after %llu", (unsigned long long)g_huge_n, (unsigned long long)size);
      { sysx::Traced t; s = w->Append(Slice(g_huge, (size_t)g_huge_n)); }
      g_huge = nullptr;
      __real_munmap(p, (size_t)g_huge_n);
      for (auto& i : g_huge_isl) m[size + i.first] = i.second;
      size += g_huge_n;
      vh::count("appends_of_more_than_2_GiB", g_huge_n > (1ull << 31));
    } else {
      std::string d = body_of(r.next(), wlen(r));
      last = fmt("Append %zu after %llu", d.size(), (unsigned long long)size);
      { sysx::Traced t; s = w->Append(d); }
      if (!d.empty()) m[size] = d;
      size += d.size();
    }
    if (!s.ok()) { fail("posix-append", s.ToString()); break; }
    if (r.one_in(3)) {
      { sysx::Traced t; s = w->Flush(); }
      last += ", Flush";
      if (!s.ok()) fail("posix-flush", s.ToString());
      else on_disk("after the flush");
    }
  }
  { sysx::Traced t; s = w->Close(); delete w; }
  last += ", Close";
  if (!s.ok()) fail("posix-close", s.ToString());
  if (vh::st().violations != v0) { vh::rm_tree(dir); return; }
  on_disk("after the close");
  uint64_t z = 7;
  last = "GetFileSize";
  s = env->GetFileSize(f, &z);
  if (!s.ok() || z != size) fail("posix-size", fmt("%s, %llu of %llu", s.ToString().c_str(), (unsigned long long)z, (unsigned long long)size));
  // Reads, at random offsets and in sequence.
  std::vector<uint64_t> at{0, size, size - std::min<uint64_t>(size, 3000)};
  for (auto& i : m) at.push_back(i.first);
  std::sort(at.begin(), at.end());
  std::vector<RandomAccessFile*> hs;
  for (int k = 0; k < 4; ++k) {
    RandomAccessFile* h = nullptr;
    last = "NewRandomAccessFile";
    s = env->NewRandomAccessFile(f, &h);
    if (!s.ok() || !h) { fail("posix-open", s.ToString()); break; }
    hs.push_back(h);
  }
  uint64_t reads = 0, skips = 0;
  for (int k = 0; k < 120 && !hs.empty(); ++k) {
    uint64_t off = r.pick(at);
    off -= std::min<uint64_t>(off, r.below(200));
    size_t n = rlen(r);
    std::vector<char> b(n + 1);
    Slice res("junk");
    last = fmt("random Read %zu at %llu of %llu", n, (unsigned long long)off, (unsigned long long)size);
    s = r.pick(hs)->Read(off, n, &res, b.data());
    std::string want = isl_get(m, size, off, n);
    if (!s.ok()) fail("posix-read", s.ToString());
    else if (res.ToString() != want) fail("posix-read", diff_at(res.ToString(), want));
    ++reads;
  }
  for (auto* h : hs) delete h;
  for (int k = 0; k < 2; ++k) {
    SequentialFile* h = nullptr;
    last = "NewSequentialFile";
    s = env->NewSequentialFile(f, &h);
    if (!s.ok() || !h) { fail("posix-open", s.ToString()); break; }
    uint64_t pos = 0;
    for (int q = 0; q < 20 && vh::st().violations == v0; ++q) {
      if (r.one_in(2)) {
        uint64_t to = at[r.below(at.size())], n = to > pos ? to - pos - std::min<uint64_t>(to - pos, r.below(100)) : r.below(1000);
        last = fmt("Skip %llu at %llu of %llu", (unsigned long long)n, (unsigned long long)pos, (unsigned long long)size);
        s = h->Skip(n);
        if (!s.ok()) fail("posix-skip", s.ToString());
        pos += std::min<uint64_t>(n, size - pos);
        ++skips;
      }
      size_t n = r.below(3000);
      std::vector<char> b(n + 1);
      Slice res("junk");
      last = fmt("sequential Read %zu at %llu of %llu", n, (unsigned long long)pos, (unsigned long long)size);
      s = h->Read(n, &res, b.data());
      std::string want = isl_get(m, size, pos, n);
      if (!s.ok()) fail("posix-read", s.ToString());
      else if (res.ToString() != want) fail("posix-read", diff_at(res.ToString(), want));
      pos += want.size();
      ++reads;
    }
    delete h;
  }
  vh::count("reads_of_huge_files", reads);
  vh::count("skips", skips);
  vh::count("writes_over_2_GiB_split", g_huge_writes);
  g_huge_writes = 0;
  vh::evaluated(vh::mix(size) ^ idx, size > (1ull << 31));
  if (vh::want_sample()) vh::sample(fmt("case %llu, limits %d/%d: a file of %llu bytes written and read", (unsigned long long)idx, g_mm, g_fd, (unsigned long long)size));
  vh::rm_tree(dir);
}

// ------------------------------------------------------------------- ns ----
// C20.  Two identical trees: the environment works on one, the direct system
// call with the named meaning on the other.
static void snap(const std::string& d, const std::string& rel, std::string* out) {
  std::vector<std::string> v;
  DIR* dir = __real_opendir(d.c_str());
  if (!dir) return;
  while (dirent* e = __real_readdir(dir)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) v.push_back(e->d_name);
  __real_closedir(dir);
  std::sort(v.begin(), v.end());
  for (auto& n : v) {
    struct stat sb;
    std::string p = d + "/" + n;
    __real_lstat(p.c_str(), &sb);
    *out += rel + n;
    if (S_ISDIR(sb.st_mode)) { *out += "/\n"; snap(p, rel + n + "/", out); }
    else if (S_ISLNK(sb.st_mode)) { char b[300]; ssize_t k = readlink(p.c_str(), b, sizeof b); *out += " -> " + std::string(b, k > 0 ? (size_t)k : 0) + "\n"; }
    else if (!S_ISREG(sb.st_mode)) *out += fmt(" special %x\n", (unsigned)(sb.st_mode & S_IFMT));
    else *out += fmt(" %zu %llx\n", (size_t)sb.st_size, (unsigned long long)vh::hash_str(slurp(p)));
  }
}
// A socket or a pipe with a name: entries of a directory like any other.
static void make_special(const std::string& path, bool fifo) {
  if (mknod(path.c_str(), (fifo ? S_IFIFO : S_IFSOCK) | 0644, 0) != 0) vh::broken("mknod");
}
static std::string snapshot(const std::string& d) { std::string s; snap(d, "", &s); return s; }

static void ns_case(Rng& r, uint64_t idx) {
  Env* env = Env::Default();
  std::string A = vh::fresh_dir("nsA"), B = vh::fresh_dir("nsB");
  for (auto& t : {A, B}) {
    __real_mkdir((t + "/d").c_str(), 0755);
    __real_mkdir((t + "/d/e").c_str(), 0755);
    spit(t + "/a", "hello");
    spit(t + "/d/x", std::string(70000, 'x'));
    if (symlink("a", (t + "/l").c_str()) || symlink("nowhere", (t + "/dang").c_str()) || symlink("loop", (t + "/loop").c_str())) vh::broken("symlink");
    make_special(t + "/fifo", true);
    make_special(t + "/d/fifo", true);
    make_special(t + "/sock", false);
    for (const char* d : {"/priv", "/ro", "/ro/sub", "/sticky"}) __real_mkdir((t + d).c_str(), 0755);
    for (const char* f : {"/priv/x", "/ro/old", "/secret", "/rofile", "/sticky/root"}) spit(t + f, f);
  }
  // Some histories run as an unprivileged user, for whom permissions matter.
  bool user = getuid() == 0 && r.one_in(3);
  if (user)
    for (auto& t : {A, B}) {
      for (const char* f : {"", "/a", "/d", "/d/e", "/d/x", "/l", "/priv", "/priv/x", "/ro", "/ro/old", "/secret"})
        if (lchown((t + f).c_str(), 65534, 65534) != 0) vh::broken("chown");
      chmod((t + "/priv").c_str(), 0);
      chmod((t + "/ro").c_str(), 0555);
      chmod((t + "/secret").c_str(), 0);
      chmod((t + "/rofile").c_str(), 0444);
      chmod((t + "/sticky").c_str(), 01777);
    }
  static const char* paths[] = {"a", "b", "d", "d/x", "d/y", "d/e", "d/e/z", "miss/x", "a/x", "l", "dang", "loop", "d/", "a/", "n w", "d/../b", "f\xff", "", "LONG", "loop/x", "dang/x", "l/x",
                                "d/.hid", "...", "..x", ".", "./", "d/..y", "d/...", "d/y~", "d/#y#", "d/y.tmp", "d/.", "d/..", "d/new\nline", "MAX", "d/MAX", "%s%n", "d/%d", "-", "d//x",
                                "priv", "priv/x", "ro", "ro/old", "ro/new", "ro/sub", "secret", "rofile", "sticky/root", "sticky/new", "sticky", "fifo", "d/fifo", "sock", "fifo/x", "sock/"};
  const size_t kPaths = sizeof paths / sizeof paths[0];
  // Some histories spell every path so that it has a given length, by going
  // through "." again and again: up to the longest the system takes, and beyond.
  static const size_t lengths[] = {127, 128, 255, 256, 257, 511, 512, 1023, 1024, 1025, 2047, 2048, 4000, 4094, 4095, 4096, 4097, 5000, 9000};
  size_t length = r.one_in(3) ? lengths[r.below(sizeof lengths / sizeof lengths[0])] + r.below(3) - 1 : 0, longest = 0;
  auto P = [&](const std::string& root, const std::string& n) {
    std::string t = root;
    size_t have = root.size() + 1 + n.size();
    if (length && n != "LONG" && n != "MAX" && n != "d/MAX" && have < length) {
      for (size_t k = (length - have) / 2; k > 0; --k) t += "/.";
      if ((length - have) % 2) t += "/";
      longest = std::max(longest, length);
    }
    return n.empty() ? std::string() : t + "/" + (n == "LONG" ? std::string(300, 'q') : n == "MAX" ? std::string(255, 'm') : n == "d/MAX" ? "d/" + std::string(255, 'm') : n);
  };
  int v0 = vh::st().violations;
  uint64_t sig = 1, ok_n = 0, fail_n = 0;
  sysx::FdZero z(r.one_in(6));
  auto fds0 = sysx::open_files();
  size_t n = r.range(20, vh::st().thorough ? 150 : 60);
  std::vector<std::pair<std::string, FileLock*>> locks;
  for (size_t i = 0; i < n && vh::st().violations == v0; ++i) {
    std::string f = paths[r.below(r.one_in(2) ? 7 : kPaths)], g = r.one_in(12) ? f : paths[r.below(r.one_in(2) ? 7 : kPaths)];
    std::string pa = P(A, f), pb = P(B, f), qa = P(A, g), qb = P(B, g);
    unsigned op = (unsigned)r.below(14);
    struct stat kind;  // opening a pipe waits for its other end: only its name is used
    if (op >= 9 && __real_stat(pa.c_str(), &kind) == 0 && S_ISFIFO(kind.st_mode)) op = (unsigned)r.below(9);
    int e = 0;           // reference errno
    Status s;
    bool has_status = true;
    std::string what;
    auto mism = [&](const std::string& m) { vh::viol("posix-namespace", fmt("%s: %s", what.c_str(), m.c_str())); };
    std::string before = snapshot(A);
    struct stat src_was;
    bool src_is_file = __real_lstat(pa.c_str(), &src_was) == 0 && !S_ISDIR(src_was.st_mode);
    sysx::stir_errno(r);
    sig = vh::mix(sig ^ op ^ vh::hash_str(f) ^ vh::hash_str(g) << 1);
    std::unique_ptr<sysx::AsUser> as(new sysx::AsUser(user));
    switch (op) {
      case 0: what = "RemoveFile " + f; s = env->RemoveFile(pa); e = __real_unlink(pb.c_str()) ? errno : 0; break;
      case 1: what = "CreateDir " + f; s = env->CreateDir(pa); e = __real_mkdir(pb.c_str(), 0755) ? errno : 0; break;
      case 2: what = "RemoveDir " + f; s = env->RemoveDir(pa); e = __real_rmdir(pb.c_str()) ? errno : 0; break;
      case 3: case 4: {
        what = "RenameFile " + f + " -> " + g;
        s = env->RenameFile(pa, qa);
        e = __real_rename(pb.c_str(), qb.c_str()) ? errno : 0;
        struct stat now;
        if (s.ok() && !e && src_is_file && ((as.reset(), __real_lstat(qa.c_str(), &now)) != 0 || now.st_ino != src_was.st_ino)) mism("the target is another file than the source was");
        break;
      }
      case 5: {
        what = "FileExists " + f;
        bool x = env->FileExists(pa);
        has_status = false;
        bool y = __real_access(pb.c_str(), F_OK) == 0;
        if (x != y) mism(fmt("%d, the file system says %d", x, y));
        break;
      }
      case 6: {
        what = "GetFileSize " + f;
        uint64_t z = 12345;
        s = env->GetFileSize(pa, &z);
        struct stat sb;
        e = __real_stat(pb.c_str(), &sb) ? errno : 0;
        if (!e && s.ok() && !S_ISDIR(sb.st_mode) && z != (uint64_t)sb.st_size) mism(fmt("%llu, the file system says %llu", (unsigned long long)z, (unsigned long long)sb.st_size));
        break;
      }
      case 7: case 8: {
        what = "GetChildren " + f;
        std::vector<std::string> v{"stale1", "stale2"};
        s = env->GetChildren(pa, &v);
        DIR* d = __real_opendir(pb.c_str());
        e = d ? 0 : errno;
        std::vector<std::string> want;
        if (d) { while (dirent* x = __real_readdir(d)) if (strcmp(x->d_name, ".") && strcmp(x->d_name, "..")) want.push_back(x->d_name); __real_closedir(d); }
        v.erase(std::remove_if(v.begin(), v.end(), [](const std::string& x) { return x == "." || x == ".."; }), v.end());
        std::sort(v.begin(), v.end());
        std::sort(want.begin(), want.end());
        if (std::find(v.begin(), v.end(), "stale1") != v.end()) mism("earlier results were kept");
        else if (!e && s.ok() && v != want) mism(fmt("%zu entries, the directory has %zu", v.size(), want.size()));
        break;
      }
      case 9: case 10: {
        bool app = op == 10;
        what = (app ? "NewAppendableFile " : "NewWritableFile ") + f;
        WritableFile* h = (WritableFile*)0x8;
        s = app ? env->NewAppendableFile(pa, &h) : env->NewWritableFile(pa, &h);
        int fd = __real_open(pb.c_str(), O_WRONLY | O_CREAT | (app ? O_APPEND : O_TRUNC), 0644);
        e = fd < 0 ? errno : 0;
        if (s.ok() != (h != nullptr) ) { mism("result and status disagree"); break; }
        std::string d = body_of(i, r.below(100));
        if (h) { Status x = h->Append(d); if (x.ok()) x = h->Close(); if (!x.ok()) mism("writing failed: " + x.ToString()); delete h; }
        if (fd >= 0) { if (__real_write(fd, d.data(), d.size()) != (ssize_t)d.size()) vh::broken("write"); __real_close(fd); }
        break;
      }
      case 11: {
        what = "opening for reading " + f;
        SequentialFile* h = (SequentialFile*)0x8;
        RandomAccessFile* h2 = (RandomAccessFile*)0x8;
        bool ra = r.one_in(2);
        s = ra ? env->NewRandomAccessFile(pa, &h2) : env->NewSequentialFile(pa, &h);
        struct stat sb;
        int fd = __real_open(pb.c_str(), O_RDONLY);
        e = fd < 0 ? errno : 0;
        bool isdir = fd >= 0 && __real_fstat(fd, &sb) == 0 && S_ISDIR(sb.st_mode);
        if (fd >= 0) __real_close(fd);
        if (s.ok() != ((ra ? (void*)h2 : (void*)h) != nullptr)) mism("result and status disagree");
        else {
          if (isdir) has_status = false;  // a directory may be refused at opening or at reading
          if (isdir && s.ok()) { char b[8]; Slice x; Status y = ra ? h2->Read(0, 8, &x, b) : h->Read(8, &x, b); if (y.ok() && x.size()) mism("read bytes from a directory"); }
          if (s.ok()) { if (ra) delete h2; else delete h; }
        }
        break;
      }
      case 12: {
        what = "LockFile " + f;
        bool held = false;
        for (auto& l : locks) held |= l.first == pa;
        FileLock* l = (FileLock*)0x8;
        s = env->LockFile(pa, &l);
        if (s.ok() != (l != nullptr)) { mism("result and status disagree"); break; }
        if (held) e = EAGAIN;
        else { int fd = __real_open(pb.c_str(), O_RDWR | O_CREAT, 0644); e = fd < 0 ? errno : 0; if (fd >= 0) __real_close(fd); }
        // The same file under two names (link, dot-dot) is another property's business.
        if (l) { if (f == "l" || f == "d/../b" || f == "a" || f == "b" || f == "dang" || r.one_in(2)) { Status u = env->UnlockFile(l); if (!u.ok()) mism("UnlockFile: " + u.ToString()); } else locks.push_back({pa, l}); }
        break;
      }
      case 13: {
        if (r.one_in(2)) {
          what = "NewLogger " + f;
          Logger* l = (Logger*)0x8;
          s = env->NewLogger(pa, &l);
          int fd = __real_open(pb.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
          e = fd < 0 ? errno : 0;
          if (fd >= 0) __real_close(fd);
          if (s.ok() != (l != nullptr)) mism("result and status disagree");
          if (l) delete l;
        } else {
          what = "GetTestDirectory";
          setenv("TEST_TMPDIR", (A + "/td").c_str(), 1);
          std::string d1, d2;
          s = env->GetTestDirectory(&d1);
          Status s2 = env->GetTestDirectory(&d2);
          struct stat sb;
          if (d1 != d2 || __real_stat(d1.c_str(), &sb) != 0 || !S_ISDIR(sb.st_mode)) mism(fmt("\"%s\" then \"%s\", not a usable directory", esc(d1).c_str(), esc(d2).c_str()));
          __real_mkdir((B + "/td").c_str(), 0755);
          if (!s2.ok()) mism(s2.ToString());
        }
        break;
      }
    }
    as.reset();
    if (vh::st().violations != v0) break;
    if (has_status) {
      if (s.ok() != (e == 0)) mism(fmt("status %s, the system call says %s", s.ToString().c_str(), e ? strerror(e) : "success"));
      else if (e == ENOENT && !s.IsNotFound()) mism("missing file or path, but the status is " + s.ToString());
      else if (e && e != ENOENT && !s.IsIOError()) mism(fmt("%s, but the status is %s", strerror(e), s.ToString().c_str()));
      else if (e && s.ToString().find(pa) == std::string::npos && (op != 3 && op != 4 ? true : s.ToString().find(qa) == std::string::npos)) mism("the message does not name the path: " + esc(s.ToString()));
      (s.ok() ? ok_n : fail_n)++;
    }
    if (vh::st().violations != v0) break;
    std::string sa = snapshot(A), sb = snapshot(B);
    if (has_status && !s.ok() && sa != before) mism("failed, but changed the file system");
    else if (sa != sb) mism(fmt("left a tree that differs from the system call's (status %s): \"%s\" vs \"%s\"", s.ToString().c_str(), esc(sa, 400).c_str(), esc(sb, 400).c_str()));
  }
  for (auto& l : locks) env->UnlockFile(l.second);
  if (idx % 16 == 3) {
    // Sizes beyond 32 bits, and a directory with many entries.
    std::string big = A + "/big";
    int fd = __real_open(big.c_str(), O_CREAT | O_WRONLY, 0644);
    static const uint64_t sizes[] = {(1ull << 31) - 1, 1ull << 31, (1ull << 32) - 1, (1ull << 32) + 5, (1ull << 40) + 77};
    for (uint64_t z : sizes) {
      uint64_t got = 1;
      if (__real_ftruncate(fd, (off_t)z) != 0) continue;
      Status s = env->GetFileSize(big, &got);
      if (!s.ok() || got != z) vh::viol("posix-namespace", fmt("GetFileSize of a file of %llu bytes: %s, %llu", (unsigned long long)z, s.ToString().c_str(), (unsigned long long)got));
      vh::count("sizes_beyond_31_bits");
    }
    __real_close(fd);
    __real_unlink(big.c_str());
    bool vast = idx % 160 == 19;
    size_t many = vast ? r.range(20000, 70000) : r.range(200, 4000);
    std::string md = A + "/many";
    __real_mkdir(md.c_str(), 0755);
    std::vector<std::string> want{".", ".."}, got{"stale"};
    for (size_t k = 0; k < many; ++k) {
      static const char* before[] = {"", "", "", ".", "..", "...", "#", "-", " ", "\xff", "\n", "LOCK", "MANIFEST-", "CURRENT"};
      static const char* after[] = {"", "", "", "~", ".tmp", ".dbtmp", ".log", ".ldb", ".sst", " ", ".", "#", "\n"};
      want.push_back(before[r.below(14)] + std::string(k % 60, 'n') + std::to_string(k) + after[r.below(13)]); 
      std::string np = md + "/" + want.back();
      if (r.one_in(40)) make_special(np, r.one_in(2));
      else if (r.one_in(40)) __real_mkdir(np.c_str(), 0755);
      else if (r.one_in(40)) { if (symlink(r.one_in(2) ? "nowhere" : ".", np.c_str())) vh::broken("symlink"); }
      else if (vast) { if (mknod(np.c_str(), S_IFREG | 0644, 0) != 0) vh::broken("mknod"); }
      else spit(np, "");
    }
    Status s = env->GetChildren(md, &got);
    for (const char* dot : {".", ".."}) if (std::find(got.begin(), got.end(), dot) == got.end()) got.push_back(dot);
    std::sort(want.begin(), want.end());
    std::sort(got.begin(), got.end());
    if (!s.ok() || want != got) vh::viol("posix-namespace", fmt("GetChildren of a directory with %zu entries: %s, %zu (with . and ..)", many, s.ToString().c_str(), got.size()));
    vh::count("entries_listed_in_large_directories", many);
    vh::count_max("max_entries_in_a_directory", many);
  }
  auto fds1 = sysx::open_files();
  if (vh::st().violations == v0 && fds0 != fds1) vh::viol("leak-descriptor", fmt("%zu descriptors before the history, %zu after", fds0.size(), fds1.size()));
  vh::count("operations_succeeding", ok_n);
  vh::count("operations_failing", fail_n);
  vh::count("trees_compared", n);
  if (user) vh::count("histories_of_an_unprivileged_user");
  if (longest) { vh::count("histories_with_long_paths"); vh::count_max("max_path_length", longest); }
  vh::evaluated(sig, fail_n > 0 && ok_n > 0);
  if (vh::want_sample()) vh::sample(fmt("case %llu: %llu operations succeeded and %llu failed as the system calls did", (unsigned long long)idx, (unsigned long long)ok_n, (unsigned long long)fail_n));
  vh::rm_tree(A);
  vh::rm_tree(B);
}

// --------------------------------------------------------------- limits ----
// C25.
static std::mutex g_lm;                                // never held while the environment runs
static std::map<const void*, size_t> g_maps;           // live mappings of traced calls
static vh::Ctr g_live_maps, g_max_maps, g_live_fds, g_max_fds, g_in_calls, g_over_maps, g_over_fds, g_part_maps;
static bool g_account = true;  // off in concurrent ThreadSanitizer runs: its lock would order the calls
static std::atomic<int> g_fail_mmap{0}, g_fail_fstat{0}, g_fail_open{0}, g_fail_pread{0};
static thread_local int t_opened = 0;
static thread_local std::set<int>* t_fdset = nullptr;
static std::atomic<unsigned char> g_isfd[65536];
static std::atomic<bool> g_slow{false};

static void lim_hook(sysx::Call& c, bool after) {
  if (g_slow && vh::mix((uint64_t)(uintptr_t)&c ^ (uint64_t)vh::now_ns()) % 3 == 0) sched_yield();
  if (!after) {
    if (!strcmp(c.name, "mmap") && g_fail_mmap.load() > 0 && g_fail_mmap.fetch_sub(1) > 0) { c.fail = true; c.err = ENOMEM; }
    if ((!strcmp(c.name, "pread") || !strcmp(c.name, "read")) && g_fail_pread.load() > 0 && g_fail_pread.fetch_sub(1) > 0) { c.fail = true; c.err = EIO; }
    if (!strcmp(c.name, "open") && g_fail_open.load() > 0 && g_fail_open.fetch_sub(1) > 0) { c.fail = true; c.err = EMFILE; }
    if ((!strcmp(c.name, "fstat") || !strcmp(c.name, "stat")) && g_fail_fstat.load() > 0 && g_fail_fstat.fetch_sub(1) > 0) { c.fail = true; c.err = EIO; }
  }
  if (!g_account) return;
  std::lock_guard<std::mutex> l(g_lm);
  if (!after) {
    if (!strcmp(c.name, "close") && c.fd >= 0 && c.fd < 65536 && g_isfd[c.fd].exchange(0)) g_live_fds--;
    if (!strcmp(c.name, "munmap")) {
      // What is left of a mapping, if anything, stays live.
      const char *a = (const char*)c.addr, *b = a + (c.n + 4095) / 4096 * 4096;
      for (auto m = g_maps.lower_bound(a); m != g_maps.end() && m->first < b;) {
        const char *x = (const char*)m->first, *y = x + (m->second + 4095) / 4096 * 4096;
        m = g_maps.erase(m);
        if (y > b) { g_maps[b] = (size_t)(y - b); g_part_maps++; }
        else g_live_maps--;
        (void)x;
      }
    }
    return;
  }
  if (!strcmp(c.name, "open") && c.result >= 0 && c.result < 65536) {
    g_isfd[c.result] = 1;
    int v = (int)++g_live_fds;
    if (v > g_max_fds) g_max_fds = v;
    // Every call in progress may have one descriptor that it is about to close or hand over.
    if (v > g_fd + g_in_calls.load()) g_over_fds = v;
  }
  if (!strcmp(c.name, "mmap") && c.result == 0 && c.fd >= 0) {
    g_maps[c.addr] = c.n;
    int v = (int)++g_live_maps;
    if (v > g_max_maps.load()) g_max_maps = v;
    if (v > g_mm) g_over_maps = v;
  }
}
struct InCall {
  sysx::Traced t;
  InCall() { step(1); }
  ~InCall() { step(-1); }
  static void step(int d) {
    if (!g_account) return;
    std::lock_guard<std::mutex> l(g_lm);
    g_in_calls += d;
  }
};

static std::string g_limdir;
static std::string lim_name(int i) { return g_limdir + "/f" + std::to_string(i); }
static size_t lim_size(int i) {
  // Whole pages and one byte around them, and files from kilobytes to megabytes.
  static const size_t page[] = {4096, 4097, 8192, 12289, 65536, 1048576, 1048577, 3145728 + 77};
  if (i >= 16) return page[i - 16];
  return i % 7 == 6 ? 0 : (size_t)(i * 977 % 9000 + 1);
}
static std::string g_limbody[24];
static void lim_setup() {
  g_limdir = vh::fresh_dir("lim");
  for (int i = 0; i < 24; ++i) spit(lim_name(i), g_limbody[i] = body_of(i, lim_size(i)));
}
// Opens more files than both budgets together; returns (mappings, descriptors) then held.
static std::pair<int, int> lim_probe() {
  std::vector<RandomAccessFile*> v;
  int m, d;
  for (int i = 0; i < g_mm + g_fd + 3; ++i) {
    RandomAccessFile* h = nullptr;
    InCall t;
    Status s = Env::Default()->NewRandomAccessFile(lim_name(i % 6), &h);
    if (!s.ok()) { vh::viol("limit-open", "opening a file failed: " + s.ToString()); break; }
    v.push_back(h);
  }
  m = (int)g_live_maps;
  d = (int)g_live_fds;
  for (auto* h : v) { InCall t; delete h; }
  return {m, d};
}
static bool lim_read(RandomAccessFile* h, int i, Rng& r, std::string* why) {
  size_t sz = lim_size(i);
  uint64_t off = r.below(sz + 1);
  size_t n = r.below(4000);
  std::vector<char> b(n + 1);
  Slice res;
  Status s;
  { InCall t; s = h->Read(off, n, &res, b.data()); }
  std::string want = g_limbody[i].substr((size_t)off, n);
  if (!s.ok()) { *why = s.ToString(); return false; }
  if (res.ToString() != want) { *why = diff_at(res.ToString(), want); return false; }
  return true;
}
static void lim_over(const char* when) {
  if (g_over_maps.load()) vh::viol_once("limit-maps", fmt("%s: %d mappings held at once, the limit is %d", when, (int)g_over_maps, g_mm));
  if (g_over_fds.load()) vh::viol_once("limit-fds", fmt("%s: %d descriptors held at once, the limit is %d", when, (int)g_over_fds, g_fd));
}
static std::pair<int, int> g_full{-1, -1};
static void lim_quiet(const char* when) {
  if (g_live_maps.load() || g_live_fds.load()) vh::viol("limit-leak", fmt("%s: %d mappings%s and %d descriptors left after all files were closed", when, (int)g_live_maps, g_part_maps.load() ? " (some in part)" : "", (int)g_live_fds));
  auto p = lim_probe();
  if (g_full.first < 0) g_full = p;
  if (p != g_full) vh::viol("limit-budget", fmt("%s: with everything closed, opening many files now keeps %d mappings and %d descriptors; at the start it kept %d and %d", when, p.first, p.second, g_full.first, g_full.second));
  // Empty files need no mapping: the first probe must use the budgets fully.
  if (p.first < g_mm || p.second < g_fd) vh::viol("limit-budget", fmt("%s: only %d of %d mappings and %d of %d descriptors are usable", when, p.first, g_mm, p.second, g_fd));
}

static void limits_case(Rng& r, uint64_t idx) {
  Env* env = Env::Default();
  if (g_limdir.empty()) { lim_setup(); sysx::g_hook = lim_hook; lim_quiet("at the start"); }
  std::vector<std::pair<int, RandomAccessFile*>> v;
  int v0 = vh::st().violations;
  uint64_t sig = 1, opens = 0, fails = 0, reads = 0;
  size_t n = r.range(20, vh::st().thorough ? 400 : 150), maxh = (size_t)(g_mm + g_fd) + r.below(6) + 1;
  bool many = g_mode == "limdef";
  if (many) n = r.range(2000, 6000);
  sysx::FdZero z(r.one_in(6));
  auto fds0 = sysx::open_files().size();
  for (size_t i = 0; i < n && vh::st().violations == v0; ++i) {
    unsigned op = (unsigned)r.below(10);
    if (many && op == 9 && !r.one_in(6)) op = 0;
    sysx::stir_errno(r);
    sig = vh::mix(sig ^ op ^ r.s);
    if (op < 4) {
      int k = (int)r.below(24);
      RandomAccessFile* h = (RandomAccessFile*)0x8;
      Status s;
      { InCall t; s = env->NewRandomAccessFile(lim_name(k), &h); }
      if (!s.ok() || !h) { vh::viol("limit-open", s.ToString()); break; }
      v.push_back({k, h});
      ++opens;
    } else if (op == 4) {
      // Openings that fail, for several reasons.
      std::string name = lim_name((int)r.below(6));
      unsigned why = (unsigned)r.below(5);
      if (why == 0) name = g_limdir + "/missing";
      else if (why == 1) g_fail_mmap = 1;
      else if (why == 2) g_fail_fstat = 1;
      else if (why == 3) g_fail_open = 1;
      else name = g_limdir;
      RandomAccessFile* h = (RandomAccessFile*)0x8;
      Status s;
      { InCall t; s = env->NewRandomAccessFile(name, &h); }
      g_fail_mmap = g_fail_fstat = g_fail_open = 0;
      if (s.ok() != (h != nullptr)) { vh::viol("limit-open", "result and status disagree"); break; }
      if (s.ok()) { InCall t; delete h; } else ++fails;
    } else if (op < 8) {
      if (v.empty()) continue;
      auto& p = v[r.below(v.size())];
      std::string why;
      ++reads;
      if (r.one_in(8)) {  // a read that fails keeps nothing
        std::vector<char> b(200);
        Slice res;
        g_fail_pread = 1;
        { InCall t; p.second->Read(r.below(lim_size(p.first) + 1), 200, &res, b.data()); }
        g_fail_pread = 0;
      }
      if (!lim_read(p.second, p.first, r, &why)) vh::viol("limit-read", fmt("with %zu files open: %s", v.size(), why.c_str()));
    } else {
      if (v.empty()) continue;
      size_t x = r.below(v.size());
      { InCall t; delete v[x].second; }
      v.erase(v.begin() + x);
    }
    while (v.size() > maxh) { InCall t; delete v.back().second; v.pop_back(); }
    if (g_live_fds.load() > g_fd) vh::viol_once("limit-fds", fmt("%d descriptors held between calls, the limit is %d", (int)g_live_fds, g_fd));
    lim_over("one thread");
  }
  // The kernel's own count agrees with the one kept here.
  auto fds1 = sysx::open_files().size();
  if (vh::st().violations == v0 && (int)(fds1 - fds0) != g_live_fds.load()) vh::viol("limit-leak", fmt("the process holds %d more descriptors than before, %d are accounted for", (int)(fds1 - fds0), (int)g_live_fds));
  for (auto& p : v) { InCall t; delete p.second; }
  if (vh::st().violations == v0) lim_quiet("after a history");
  vh::count("opens", opens);
  vh::count("failed_opens", fails);
  vh::count("reads", reads);
  vh::count_max("max_mappings_at_once", g_max_maps);
  vh::count_max("max_descriptors_at_once", g_max_fds);
  vh::evaluated(sig ^ (uint64_t)g_mm << 40 ^ (uint64_t)g_fd << 50, opens > 1);
  if (vh::want_sample()) vh::sample(fmt("case %llu, limits %d/%d: %llu opens, %llu failed opens, %llu reads", (unsigned long long)idx, g_mm, g_fd, (unsigned long long)opens, (unsigned long long)fails, (unsigned long long)reads));
}

static void limconc_case(Rng& r, uint64_t idx) {
  Env* env = Env::Default();
  if (g_limdir.empty()) { lim_setup(); sysx::g_hook = lim_hook; lim_quiet("at the start"); }
  int T = (int)r.range(2, 6), v0 = vh::st().violations;
  uint64_t seed = r.next();
  vh::Ctr opens, reads, ready;
  g_slow = r.one_in(2);
#ifdef VH_TSAN
  g_account = false;
#endif
  std::vector<std::thread> th;
  for (int t = 0; t < T; ++t)
    th.emplace_back([&, t] {
      Rng q(vh::mix(seed + t));
      std::vector<std::pair<int, RandomAccessFile*>> v;
      ready++;
      while (ready.load() < T) {}
      int n = vh::st().thorough ? 400 : 150;
      for (int i = 0; i < n && vh::st().violations == v0; ++i) {
        if (v.size() < 3 && q.one_in(2)) {
          int k = (int)q.below(24);
          RandomAccessFile* h = nullptr;
          Status s;
          { InCall c; s = env->NewRandomAccessFile(lim_name(k), &h); }
          if (!s.ok() || !h) { vh::viol_once("limit-open", s.ToString()); break; }
          v.push_back({k, h});
          opens++;
        } else if (!v.empty() && q.one_in(2)) {
          auto& p = v[q.below(v.size())];
          std::string why;
          reads++;
          if (!lim_read(p.second, p.first, q, &why)) vh::viol_once("limit-read", why);
        } else if (!v.empty()) {
          { InCall c; delete v.back().second; }
          v.pop_back();
        }
      }
      for (auto& p : v) { InCall c; delete p.second; }
    });
  for (auto& t : th) t.join();
  g_slow = false;
  g_account = true;
  lim_over("several threads");
  if (vh::st().violations == v0) lim_quiet("after a concurrent run");
  vh::count("opens", opens);
  vh::count("reads", reads);
  vh::count_max("max_mappings_at_once", g_max_maps);
  vh::count_max("max_descriptors_at_once", g_max_fds);
  vh::evaluated(seed, opens.load() > 1);
  if (vh::want_sample()) vh::sample(fmt("case %llu, limits %d/%d: %d threads, %llu opens, at most %d mappings and %d descriptors at once", (unsigned long long)idx, g_mm, g_fd, T, (unsigned long long)opens.load(), (int)g_max_maps, (int)g_max_fds));
}

// ---------------------------------------------------------------- reads ----
// C26.
static void slow_hook(sysx::Call& c, bool after) {
  (void)after;
  uint64_t x = vh::mix((uint64_t)vh::now_ns() ^ (uint64_t)(uintptr_t)&c);
  if (x % 4 == 0) sched_yield();
  else if (x % 4 == 1) for (volatile int i = (int)(x >> 40 & 1023); i > 0; i = i - 1) {}
}
static std::string g_rdata;
static const uint64_t kBigRead = (9ull << 30) + 12345;
static Islands g_rbig;  // what is not zero in the big file
static void reads_case(Rng& r, uint64_t idx) {
  Env* env = Env::Default();
  std::string dir = vh::st().tmp + "/reads", f = dir + "/f";
  if (g_rdata.empty()) {
    vh::fresh_dir("reads");
    g_rdata = body_of(42, 300000);
    spit(f, g_rdata);
    int fd = __real_open((f + "big").c_str(), O_CREAT | O_WRONLY, 0644);
    if (fd < 0 || __real_ftruncate(fd, (off_t)kBigRead) != 0) vh::broken("sparse file");
    for (uint64_t e : {1ull << 31, 1ull << 32, 6ull << 30, 1ull << 33, (unsigned long long)kBigRead - (1ull << 32), (unsigned long long)kBigRead - (1ull << 33), (unsigned long long)kBigRead - 3000, 3000ull}) g_rbig[e - 3000] = body_of(e, 6000);
    for (auto& i : g_rbig) if (__real_pwrite(fd, i.second.data(), i.second.size(), (off_t)i.first) != (ssize_t)i.second.size()) vh::broken("pwrite");
    __real_close(fd);
    sysx::g_hook = slow_hook;
  }
  const bool big = idx % 4 == 3;  // one file beyond 32 bits
  const uint64_t fsize = big ? kBigRead : g_rdata.size();
  if (big) f += "big";
  int T = (int)r.range(2, 6), objs = (int)r.range(1, 3), v0 = vh::st().violations;
  std::vector<RandomAccessFile*> h(objs, nullptr);
  for (auto& x : h) if (!env->NewRandomAccessFile(f, &x).ok()) { vh::viol("reads-open", "failed"); return; }
  uint64_t seed = r.next();
  vh::Ctr reads, overlapped, in, ready, earlier, beyond;
  std::vector<std::thread> th;
  for (int t = 0; t < T; ++t)
    th.emplace_back([&, t] {
      Rng q(vh::mix(seed + t));
      vh::Kept<Slice> kept(5);
      std::string why;
      ready++;
      while (ready.load() < T) {}
      int n = vh::st().thorough ? 600 : 250;
      for (int i = 0; i < n && vh::st().violations == v0; ++i) {
        RandomAccessFile* x = h[q.below(h.size())];
        uint64_t off = q.one_in(8) ? fsize - q.below(100) : q.below(fsize);
        size_t len = q.one_in(5) ? q.below(70000) : q.below(200);
        if (big && !q.one_in(8)) { auto it = g_rbig.begin(); std::advance(it, q.below(g_rbig.size())); off = it->first + q.below(6000); len = q.below(3000); }
        Slice res;
        if (in.fetch_add(1) > 0) overlapped++;
        Status s;
        char* b = new char[len ? len : 1];
        { sysx::Traced tr; s = x->Read(off, len, &res, b); }
        in--;
        reads++;
        std::string from = big ? isl_get(g_rbig, fsize, off, len) : std::string();
        const char* want = big ? from.data() : g_rdata.data() + off;
        size_t m = (size_t)std::min<uint64_t>(len, fsize - off);
        if (!s.ok()) { vh::viol_once("reads-wrong", s.ToString()); break; }
        if (res.size() != m || memcmp(res.data(), want, m) != 0) {
          vh::viol_once("reads-wrong", fmt("limits %d/%d, %d threads, Read %zu at %llu of %llu: %s", g_mm, g_fd, T, len, (unsigned long long)off, (unsigned long long)fsize, diff_at(res.ToString(), std::string(want, m)).c_str()));
          break;
        }
        if (big && off > (1ull << 32)) beyond++;
        if (q.one_in(4)) kept.keep(x, res, b);
        else delete[] b;
        if (!kept.check(&why)) { vh::viol_once("reads-result", fmt("limits %d/%d, %d threads: ", g_mm, g_fd, T) + why); break; }
      }
      earlier += (int64_t)kept.checks();
    });
  for (auto& t : th) t.join();
  for (auto* x : h) delete x;
  vh::count("concurrent_reads", reads);
  vh::count("earlier_results_looked_at_again", earlier);
  vh::count("reads_beyond_4_GiB", beyond);
  vh::count("reads_begun_during_another", overlapped);
  vh::evaluated(seed, overlapped.load() > 0);
  if (vh::want_sample()) vh::sample(fmt("case %llu, limits %d/%d: %d threads on %d objects, %llu reads, %llu begun during another", (unsigned long long)idx, g_mm, g_fd, T, objs, (unsigned long long)reads.load(), (unsigned long long)overlapped.load()));
}

int main(int argc, char** argv) {
  vh::parse(argc, argv);
  configure_posix();
  if (g_mode == "rw") vh::run_cases(rw_case);
  else if (g_mode == "big") vh::run_cases(big_case);
  else if (g_mode == "ns") vh::run_cases(ns_case);
  else if (g_mode == "limits" || g_mode == "limdef") vh::run_cases(limits_case);
  else if (g_mode == "limconc") vh::run_cases(limconc_case);
  else if (g_mode == "reads") vh::run_cases(reads_case);
  else vh::broken("unknown mode " + g_mode);
  return vh::finish();
}
