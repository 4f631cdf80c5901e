// Common support for all harnesses: arguments, PRNG, verdict lines, statistics.
//
// A harness runs numbered cases; case i depends only on (seed, mode, i), so
// "--only i" replays it.  Verdicts go to stdout as "VIOL\t<key>\t<case>\t<message>".
// Exit codes: 0 held, 3 violation reported, 4 harness problem (inconclusive).
#ifndef VH_H_
#define VH_H_

#include <atomic>
#include <chrono>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <locale>
#include <map>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include <unordered_set>
#include <vector>

#include <dirent.h>
#include <signal.h>
#include <sys/stat.h>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__)
#define VH_ASAN 1
extern "C" size_t __sanitizer_get_current_allocated_bytes(void);
#endif
#if defined(__SANITIZE_THREAD__)
#define VH_TSAN 1
#endif

namespace vh {

inline uint64_t mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
inline uint64_t hash_str(const std::string& s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  return mix(h);
}

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) {}
  uint64_t next() { return mix(s += 0x632be59bd9b4e019ull); }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  uint64_t range(uint64_t a, uint64_t b) { return a + below(b - a + 1); }  // inclusive
  bool one_in(uint64_t n) { return below(n) == 0; }
  // Values of very different magnitudes.
  uint64_t skewed(int maxbits) {
    int b = (int)below(maxbits + 1);
    return b == 0 ? 0 : (b >= 64 ? next() : next() & ((1ull << b) - 1));
  }
  std::string bytes(size_t n) {
    std::string r(n, 0);
    for (size_t i = 0; i < n; ++i) r[i] = (char)next();
    return r;
  }
  // Bytes from a small hostile alphabet.
  std::string nasty(size_t n) {
    static const unsigned char a[] = {0, 1, 'a', 'b', '/', 0x7f, 0x80, 0xfe, 0xff, ' '};
    std::string r(n, 0);
    for (size_t i = 0; i < n; ++i) r[i] = (char)a[below(sizeof a)];
    return r;
  }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

struct State {
  std::string prop, mode, out, tmp;
  uint64_t seed = 1, first = 0, cases = 1;
  int64_t only = -1;
  bool thorough = false;
  std::atomic<int64_t> cur_case{-1};
  std::atomic<int> violations{0};
  std::mutex mu;
  std::map<std::string, uint64_t> counters;
  std::unordered_set<uint64_t> sigs;
  std::vector<std::string> samples;
  uint64_t evaluations = 0;
  std::string context;  // last context note, printed with a violation
};
inline State& st() { static State* s = new State; return *s; }

inline void count(const char* name, uint64_t n = 1) {
  std::lock_guard<std::mutex> l(st().mu);
  st().counters[name] += n;
}
inline void count_max(const char* name, uint64_t n) {
  std::lock_guard<std::mutex> l(st().mu);
  uint64_t& v = st().counters[name];
  if (n > v) v = n;
}
inline void evaluated(uint64_t sig, bool nontrivial = true) {
  std::lock_guard<std::mutex> l(st().mu);
  st().evaluations++;
  if (nontrivial && st().sigs.size() < 2000000) st().sigs.insert(mix(sig ^ hash_str(st().mode)));
}
inline void sample(const std::string& s) {
  std::lock_guard<std::mutex> l(st().mu);
  if (st().samples.size() < 4) st().samples.push_back(s);
}
inline bool want_sample() {
  std::lock_guard<std::mutex> l(st().mu);
  return st().samples.size() < 4;
}

inline std::string esc(const std::string& s, size_t maxlen = 200) {
  std::string r;
  for (size_t i = 0; i < s.size() && i < maxlen; ++i) {
    unsigned char c = s[i];
    if (c == '\\' || c == '"' || c < 32 || c > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\x%02x", c);
      r += b;
    } else {
      r += (char)c;
    }
  }
  if (s.size() > maxlen) r += "...(" + std::to_string(s.size()) + " bytes)";
  return r;
}
inline std::string json_str(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
    else if (c == '\n') r += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += (char)c;
  }
  return r + "\"";
}
__attribute__((format(printf, 1, 2))) inline std::string fmt(const char* f, ...) {
  va_list ap;
  va_start(ap, f);
  char* p = nullptr;
  int n = vasprintf(&p, f, ap);
  va_end(ap);
  std::string r = n >= 0 ? std::string(p, n) : std::string(f);
  free(p);
  return r;
}

inline void write_stats();

// Reports a violation.  After a few the harness stops: later ones are usually echoes.
inline void viol(const std::string& key, const std::string& msg) {
  {
    std::lock_guard<std::mutex> l(st().mu);
    std::string m = msg;
    for (char& c : m) if (c == '\n' || c == '\t') c = ' ';
    printf("VIOL\t%s\t%lld\t%s\n", key.c_str(), (long long)st().cur_case.load(), m.c_str());
    fflush(stdout);
  }
  if (++st().violations >= 6) {
    write_stats();
    fflush(stdout);
    _exit(3);
  }
}
// Two violations with the same key are one finding; use this for keys that may repeat.
inline void viol_once(const std::string& key, const std::string& msg) {
  static std::mutex m;
  static std::set<std::string>* seen = new std::set<std::string>;
  {
    std::lock_guard<std::mutex> l(m);
    if (!seen->insert(key).second) return;
  }
  viol(key, msg);
}
[[noreturn]] inline void broken(const std::string& msg) {
  printf("BROKEN\t%s\n", msg.c_str());
  fflush(stdout);
  _exit(4);
}

#define VH_CHECK(cond, key, ...)                        \
  do {                                                  \
    if (!(cond)) ::vh::viol((key), ::vh::fmt(__VA_ARGS__)); \
  } while (0)

inline void write_stats() {
  State& s = st();
  std::lock_guard<std::mutex> l(s.mu);
  if (s.out.empty()) return;
  FILE* f = fopen(s.out.c_str(), "w");
  if (!f) return;
  fprintf(f, "{\"evaluations\":%llu,\"counters\":{", (unsigned long long)s.evaluations);
  bool c = false;
  for (auto& k : s.counters) {
    fprintf(f, "%s%s:%llu", c ? "," : "", json_str(k.first).c_str(), (unsigned long long)k.second);
    c = true;
  }
  fprintf(f, "},\"samples\":[");
  for (size_t i = 0; i < s.samples.size(); ++i) fprintf(f, "%s%s", i ? "," : "", json_str(s.samples[i]).c_str());
  fprintf(f, "],\"violations\":%d}\n", s.violations.load());
  fclose(f);
  f = fopen((s.out + ".sigs").c_str(), "wb");
  if (!f) return;
  for (uint64_t x : s.sigs) fwrite(&x, 8, 1, f);
  fclose(f);
}

inline void parse(int argc, char** argv) {
  State& s = st();
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() -> std::string { if (i + 1 >= argc) broken("missing value for " + a); return argv[++i]; };
    if (a == "--prop") s.prop = val();
    else if (a == "--mode") s.mode = val();
    else if (a == "--seed") s.seed = strtoull(val().c_str(), 0, 10);
    else if (a == "--first") s.first = strtoull(val().c_str(), 0, 10);
    else if (a == "--cases") s.cases = strtoull(val().c_str(), 0, 10);
    else if (a == "--only") s.only = strtoll(val().c_str(), 0, 10);
    else if (a == "--out") s.out = val();
    else if (a == "--tmp") s.tmp = val();
    else if (a == "--thorough") s.thorough = true;
    else broken("unknown argument " + a);
  }
}

// While alive (and wanted), C++ streams print numbers the way of some countries: 1'234'567.
struct Grouped {
  // (A class of its own would need type information, without which the library is built.)
  static std::numpunct<char>* punct() {
    auto* c = new std::__numpunct_cache<char>;
    auto* f = new std::numpunct<char>(c);
    c->_M_grouping = "\3";
    c->_M_grouping_size = 1;
    c->_M_use_grouping = true;
    c->_M_thousands_sep = '\'';
    c->_M_decimal_point = ',';
    return f;
  }
  bool on;
  std::locale before;
  explicit Grouped(bool want) : on(want) {
    if (on) { before = std::locale(); static auto* l = new std::locale(std::locale::classic(), punct()); std::locale::global(*l); }
  }
  ~Grouped() { if (on) std::locale::global(before); }
};

// A case that takes this long hangs (exit code 5; the driver tries once more).
inline void on_alarm(int) {
  static const char m[] = "HANG\ta case did not finish\n";
  ssize_t n = write(1, m, sizeof m - 1);
  (void)n;
  _exit(5);
}

// Runs the cases.  body(rng, index).
inline void run_cases(const std::function<void(Rng&, uint64_t)>& body) {
  State& s = st();
  signal(SIGALRM, on_alarm);
  uint64_t base = mix(s.seed * 1000003ull ^ hash_str(s.mode));
  for (uint64_t i = s.first; i < s.first + s.cases; ++i) {
    if (s.only >= 0 && (uint64_t)s.only != i) continue;
    s.cur_case = (int64_t)i;
    Rng r(mix(base ^ mix(i)));
    alarm(s.thorough ? 400 : 100);
    body(r, i);
  }
  alarm(0);
}

inline int finish() {
  write_stats();
  fflush(stdout);
  // Skip static destructors: background threads of the code under test never end.
  int rc = st().violations ? 3 : 0;
  printf("DONE rc=%d evaluations=%llu\n", rc, (unsigned long long)st().evaluations);
  fflush(stdout);
  _exit(rc);
}

// A shared counter that orders nothing: races in the code under test stay
// visible to ThreadSanitizer.
struct Ctr {
  std::atomic<int64_t> v;
  Ctr(int64_t x = 0) : v(x) {}
  int64_t operator++() { return v.fetch_add(1, std::memory_order_relaxed) + 1; }
  int64_t operator++(int) { return v.fetch_add(1, std::memory_order_relaxed); }
  int64_t operator--() { return v.fetch_sub(1, std::memory_order_relaxed) - 1; }
  int64_t operator--(int) { return v.fetch_sub(1, std::memory_order_relaxed); }
  void operator+=(int64_t d) { v.fetch_add(d, std::memory_order_relaxed); }
  int64_t fetch_add(int64_t d) { return v.fetch_add(d, std::memory_order_relaxed); }
  void operator=(int64_t d) { v.store(d, std::memory_order_relaxed); }
  int64_t load() const { return v.load(std::memory_order_relaxed); }
  operator int64_t() const { return load(); }
};

// Live heap bytes, or 0 where they cannot be observed.
inline size_t heap_bytes() {
#ifdef VH_ASAN
  return __sanitizer_get_current_allocated_bytes();
#else
  return 0;
#endif
}

inline uint64_t now_ns() {
  return std::chrono::duration_cast<std::chrono::nanoseconds>(
             std::chrono::steady_clock::now().time_since_epoch()).count();
}

// ---- scratch directories ----
inline void rm_tree(const std::string& d) {
  DIR* dir = opendir(d.c_str());
  if (dir) {
    while (dirent* e = readdir(dir)) {
      std::string n = e->d_name;
      if (n == "." || n == "..") continue;
      std::string p = d + "/" + n;
      struct stat sb;
      if (lstat(p.c_str(), &sb) == 0 && S_ISDIR(sb.st_mode)) rm_tree(p);
      else unlink(p.c_str());
    }
    closedir(dir);
  }
  rmdir(d.c_str());
}
inline std::string fresh_dir(const std::string& name) {
  if (st().tmp.empty() || st().tmp[0] != '/') broken("needs --tmp");
  std::string d = st().tmp + "/" + name;
  rm_tree(d);
  if (mkdir(d.c_str(), 0755) != 0) broken("mkdir " + d);
  return d;
}

inline int count_fds() {
  int n = 0;
  DIR* d = opendir("/proc/self/fd");
  if (!d) return -1;
  while (readdir(d)) ++n;
  closedir(d);
  return n;  // includes ".", ".." and the directory's own descriptor: constant offset
}

// Results of earlier reads: each stays what it was while its buffer and the
// object it was read from are kept.  Slice needs data() and size().
template <class Slice>
class Kept {
  struct One { const void* owner; Slice res; std::string was; char* buf; };
  std::vector<One> v_;
  size_t most_;
  uint64_t checks_ = 0;
  void drop_at(size_t i) { delete[] v_[i].buf; v_.erase(v_.begin() + (long)i); }

 public:
  explicit Kept(size_t most = 6) : most_(most) {}
  Kept(const Kept&) = delete;
  ~Kept() { clear(); }
  // Takes buf, made by new char[].
  void keep(const void* owner, const Slice& res, char* buf) {
    if (v_.size() >= most_) drop_at(0);
    v_.push_back(One{owner, res, std::string(res.data(), res.size()), buf});
  }
  // The owner is about to be deleted: its results are looked at for the last time.
  bool drop(const void* owner, std::string* why) {
    bool ok = true;
    for (size_t i = v_.size(); i-- > 0;)
      if (v_[i].owner == owner) { ok = look(v_[i], why) && ok; drop_at(i); }
    return ok;
  }
  bool check(std::string* why) {
    for (auto& o : v_) if (!look(o, why)) return false;
    return true;
  }
  void clear() { while (!v_.empty()) drop_at(v_.size() - 1); }
  uint64_t checks() const { return checks_; }

 private:
  bool look(const One& o, std::string* why) {
    ++checks_;
    if (o.res.size() == o.was.size() && memcmp(o.res.data(), o.was.data(), o.was.size()) == 0) return true;
    size_t i = 0;
    while (i < o.was.size() && o.res.data()[i] == o.was[i]) ++i;
    *why = fmt("the result of an earlier read (%zu bytes), whose buffer and file object are kept, has changed at byte %zu", o.was.size(), i);
    return false;
  }
};
}  // namespace vh
#endif
