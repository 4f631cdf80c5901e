#include <chrono>
// C27 (log, logconc, logsys), C28 (helpers, helpenv), C30 (swap, swaploop).
#include "sysx.h"
#include "posixcfg.h"

#include <ctype.h>
#include <pthread.h>
#include <signal.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>

#include <algorithm>
#include <memory>

#include "helpers/memenv/memenv.h"
#include "lsmdb/env.h"
#include "lsmdb/slice.h"
#include "lsmdb/status.h"

namespace lsmdb {
Status WriteStringToFileSync(Env* env, const Slice& data, const std::string& fname);
}
using lsmdb::Env;
using lsmdb::FileLock;
using lsmdb::Logger;
using lsmdb::RandomAccessFile;
using lsmdb::SequentialFile;
using lsmdb::Slice;
using lsmdb::Status;
using lsmdb::WritableFile;
using sysx::slurp;
using sysx::spit;
using sysx::Traced;
using vh::esc;
using vh::fmt;
using vh::Rng;

static std::string body_of(uint64_t tag, size_t n) {
  std::string s(n, 0);
  uint64_t x = vh::mix(tag);
  for (size_t i = 0; i < n; ++i) {
    if ((i & 7) == 0) x = vh::mix(x);
    s[i] = (char)(x >> (8 * (i & 7)));
  }
  return s;
}
static std::string diff_at(const std::string& got, const std::string& want) {
  size_t i = 0;
  while (i < got.size() && i < want.size() && got[i] == want[i]) ++i;
  return fmt("got %zu bytes, expected %zu, first difference at %zu", got.size(), want.size(), i);
}

// ------------------------------------------------------------ boundaries ---
static std::atomic<void (*)()> g_boundary{nullptr};
static thread_local int t_watch = 0, t_in_boundary = 0, t_role = 0;
static std::atomic<int> g_b_blocked{0};
static inline void boundary() {
  void (*f)();
  if (t_watch && !t_in_boundary && (f = g_boundary.load(std::memory_order_relaxed))) {
    ++t_in_boundary;
    f();
    --t_in_boundary;
  }
}
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
  boundary();
  if (t_role == 2 && !g_b_blocked.load()) {
    if (pthread_mutex_trylock(m) == 0) return 0;
    g_b_blocked = 1;
  }
  return __real_pthread_mutex_lock(m);
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
  int r = __real_pthread_mutex_unlock(m);
  boundary();
  return r;
}
}
static void hook(sysx::Call&, bool) { boundary(); }

// ---------------------------------------------------------------- logger ---
struct Entry { std::string thread, msg; int64_t us; };
static bool digits(const std::string& s, size_t a, size_t n) {
  for (size_t i = a; i < a + n; ++i) if (i >= s.size() || !isdigit((unsigned char)s[i])) return false;
  return true;
}
// "YYYY/MM/DD-HH:MM:SS.uuuuuu <thread> " and the message.
static bool parse_header(const std::string& s, size_t at, Entry* e, size_t* body) {
  std::string h = s.substr(at, 27);
  if (h.size() < 27 || h[4] != '/' || h[7] != '/' || h[10] != '-' || h[13] != ':' || h[16] != ':' || h[19] != '.' || h[26] != ' ') return false;
  if (!digits(h, 0, 4) || !digits(h, 5, 2) || !digits(h, 8, 2) || !digits(h, 11, 2) || !digits(h, 14, 2) || !digits(h, 17, 2) || !digits(h, 20, 6)) return false;
  struct tm t;
  memset(&t, 0, sizeof t);
  t.tm_year = atoi(h.substr(0, 4).c_str()) - 1900;
  t.tm_mon = atoi(h.substr(5, 2).c_str()) - 1;
  t.tm_mday = atoi(h.substr(8, 2).c_str());
  t.tm_hour = atoi(h.substr(11, 2).c_str());
  t.tm_min = atoi(h.substr(14, 2).c_str());
  t.tm_sec = atoi(h.substr(17, 2).c_str());
  t.tm_isdst = -1;
  e->us = (int64_t)mktime(&t) * 1000000 + atoi(h.substr(20, 6).c_str());
  size_t p = at + 27, q = p;
  while (q < s.size() && s[q] != ' ' && s[q] != '\n') ++q;
  if (q == p || q >= s.size() || s[q] != ' ') return false;
  e->thread = s.substr(p, q - p);
  *body = q + 1;
  return true;
}
static int64_t now_us() {
  struct timeval tv;
  gettimeofday(&tv, nullptr);
  return (int64_t)tv.tv_sec * 1000000 + tv.tv_usec;
}
// A successful call may leave any value in errno.
static thread_local bool g_spoil_errno;
// The library's clock may be set elsewhere (seconds added to what it reads).
static thread_local int64_t g_shift;
static thread_local uint64_t g_clock_calls;
extern "C" {
int __real_gettimeofday(struct timeval* tv, void* z);
int __real_clock_gettime(clockid_t c, struct timespec* ts);
time_t __real_time(time_t* t);
int __wrap_gettimeofday(struct timeval* tv, void* z) {
  int rc = __real_gettimeofday(tv, z);
  if (rc == 0) { tv->tv_sec += g_shift; ++g_clock_calls; }
  if (g_spoil_errno && rc == 0) errno = EXDEV;
  return rc;
}
int __wrap_clock_gettime(clockid_t c, struct timespec* ts) {
  int rc = __real_clock_gettime(c, ts);
  if (rc == 0 && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) { ts->tv_sec += g_shift; ++g_clock_calls; }
  if (g_spoil_errno && rc == 0) errno = EXDEV;
  return rc;
}
std::chrono::system_clock::time_point __real__ZNSt6chrono3_V212system_clock3nowEv();
std::chrono::system_clock::time_point __wrap__ZNSt6chrono3_V212system_clock3nowEv() {
  ++g_clock_calls;
  return __real__ZNSt6chrono3_V212system_clock3nowEv() + std::chrono::seconds(g_shift);
}
time_t __wrap_time(time_t* t) {
  time_t r = __real_time(nullptr) + g_shift;
  ++g_clock_calls;
  if (t) *t = r;
  return r;
}
}
// Time zones with whole, half and quarter hours and different summer times.
static const char* const kZones[] = {"UTC0", "IST-5:30", "EST5EDT,M3.2.0,M11.1.0", "NPT-5:45", "LHST-10:30LHDT-11,M10.1.0,M4.1.0", "CET-1CEST,M3.5.0,M10.5.0/3", "MART9:30", "XYZ-3:07:11"};
static const size_t kZoneCount = sizeof kZones / sizeof *kZones;
struct LogCall { std::string want; };
// Calls Log with a format chosen by `form` and returns the formatted message.
static std::string do_log(Logger* l, Rng& r, unsigned form, size_t len) {
  char* p = nullptr;
  int n = 0;
#define LOGF(...)                            \
  do {                                       \
    n = asprintf(&p, __VA_ARGS__);           \
    lsmdb::Log(l, __VA_ARGS__);              \
  } while (0)
  std::string a(len, 'a');
  for (char& c : a) c = (char)('!' + r.below(90));
  for (char& c : a) if (c == '%') c = '#';
  const unsigned long long q1 = r.next();   // evaluated once: LOGF uses its arguments twice
  const int i1 = (int)r.below(1000000), last = (int)r.range(1, 255);
  switch (form) {
    case 0: LOGF("%s", a.c_str()); break;
    case 1: LOGF("%s\n", a.c_str()); break;
    case 2: { if (!a.empty()) for (int k = 0; k < 3; ++k) a[r.below(a.size())] = '\n'; LOGF("%s", a.c_str()); break; }
    case 3: LOGF("%d %s %llu %.3f %c %p %x|%s", (int)q1, a.c_str(), q1, (double)i1 / 7, 'q', (void*)0x1234, (unsigned)i1, "end"); break;
    case 4: LOGF("%s%d", a.c_str(), i1); break;
    case 5: LOGF("%*d|%-*s|", (int)len, 7, i1 % 40, "x"); break;
    case 6: LOGF("%s%c%s", a.c_str(), 0, "after a zero byte"); break;
    case 7: LOGF("%.*s", (int)(len / 2), a.c_str()); break;
    case 8: LOGF("%s\n\n", a.c_str()); break;
    case 9: { size_t h = len / 2; std::string b = a.substr(h); a.resize(h); LOGF("%s%lld%s%g", a.c_str(), (long long)q1, b.c_str(), 1.5); break; }
    case 10: { std::string f = a; LOGF(f.c_str(), 0); break; }
    case 11: LOGF("%s%%%s", a.c_str(), ""); break;
    case 12: LOGF("%s%c", a.c_str(), last); break;   // any last byte
    case 13: LOGF("%s%s", a.c_str(), last & 1 ? "\r" : "\r\n"); break;
    case 14: LOGF("%c", last); break;
    case 15: { for (char& c : a) c = (char)r.range(1, 255); LOGF("%s", a.c_str()); break; }
    case 16: {
      // %m is the error in force at the call, in whatever state of the program.
      static const int errs[] = {EACCES, ENOSPC, EIO, ENOENT, EINTR, 0, 12345};
      const int e = errs[(size_t)i1 % 7];
      errno = e;
      n = asprintf(&p, "%s: %m (%d)", a.c_str(), i1);
      errno = e;
      g_spoil_errno = true;
      lsmdb::Log(l, "%s: %m (%d)", a.c_str(), i1);
      g_spoil_errno = false;
      break;
    }
    default: {
      // Wide arguments, and more of them than registers hold.
      LOGF("%d %d %d %d %d %d %d %d %.2f %.2f %.2f %.2f %.2f %.2f %.2f %.2f %.2f %.2f|%s|%lld", i1, 2, 3, 4, 5, 6, 7, 8, .5, 1.5, 2.5, 3.5, 4.5, 5.5, 6.5, 7.5, 8.5, 9.5, a.c_str(), (long long)q1);
      break;
    }
  }
#undef LOGF
  if (n < 0) vh::broken("asprintf");
  std::string m(p, (size_t)n);
  free(p);
  return m;
}
static std::string my_thread_token;
static void log_case(Rng& r, uint64_t idx) {
  Env* env = Env::Default();
  std::string dir = vh::fresh_dir("log"), f = dir + "/LOG", model, bad;
  vh::Grouped locale(idx % 5 == 3);
  if (locale.on) my_thread_token.clear();
  // With a clock of its own: around changes of year, month and summer time, and anywhere.
  const bool zone = g_mode == "logtz";
  int64_t clock = 0;
  uint64_t zone_lines = 0;
  if (zone) {
    static const int64_t at[] = {1772953200, 1793512800, 1774746000, 1792890000, 1775316600, 1790996400, 1798761600, 1835395200, 951782400, 2147483648ll, 4294967296ll, 86400, 4102444800ll};
    clock = r.one_in(4) ? (int64_t)r.below(6000000000ull) : at[r.below(sizeof at / sizeof *at)] + (int64_t)r.below(4000) - 3000;
  }
  if (r.one_in(2)) { model = r.one_in(2) ? "earlier content\n" : "cut lin"; spit(f, model); }
  Logger *l = nullptr, *l2 = nullptr;
  lsmdb::Log(nullptr, "nothing %d %s", 1, "x");
  Status s = env->NewLogger(f, &l);
  if (!s.ok() || !l) { vh::viol("log-open", s.ToString()); return; }
  if (slurp(f) != model) bad = "opening the log changed its earlier content";
  uint64_t lines = 0, longest = 0;
  size_t n = r.range(20, 60), vast = idx % 60 == 7 ? r.range(15000000, 60000000) : 0;
  // Learn where the stack buffer ends from nothing but the header's length.
  size_t sweep = r.below(40);
  for (size_t i = 0; i < n && bad.empty(); ++i) {
    size_t len;
    switch (r.below(8)) {
      case 0: len = r.below(4); break;
      case 1: len = r.below(200); break;
      case 2: case 3: case 4: len = 400 + (sweep + i * 3 + r.below(3)) % 130; break;
      case 5: len = r.one_in(2) ? 4000 + r.below(200) : 1000 + r.below(60); break;
      case 6: len = r.one_in(3) ? r.below(200000) : r.below(3000); break;
      default: len = 470 + r.below(30); break;
    }
    Logger* use = l;
    if (r.one_in(12)) {  // reopen, or use a second logger on the same file
      if (l2) { delete l2; l2 = nullptr; }
      else if (!env->NewLogger(f, &l2).ok()) { bad = "opening a second logger failed"; break; }
    }
    if (l2 && r.one_in(2)) use = l2;
    if (r.one_in(15)) { delete l; l = nullptr; if (!env->NewLogger(f, &l).ok()) { bad = "reopening failed"; break; } if (use != l2) use = l; }
    if (slurp(f) != model) { bad = "reopening changed the log"; break; }
    unsigned form = (unsigned)r.below(18);
    if (vast && i == n - 1) { len = vast; form = (unsigned)r.below(2); }
    if (zone) {
      clock += r.one_in(3) ? 0 : r.one_in(2) ? (int64_t)r.below(90) : r.one_in(2) ? (int64_t)r.below(4000) : r.one_in(3) ? -(int64_t)r.below(4000) : (int64_t)r.below(86400 * 40);
      if (clock < 0) clock = 0;
      g_shift = clock - __real_time(nullptr);
    }
    int64_t t0 = now_us();
    g_clock_calls = 0;
    std::string msg = do_log(use, r, form, len);
    const bool seen = g_clock_calls > 0;
    int64_t t1 = now_us(), shift = g_shift;
    g_shift = 0;
    if (!seen) { t0 -= shift * 1000000; t1 -= shift * 1000000; }   // a clock read by other means
    ++lines;
    longest = std::max<uint64_t>(longest, msg.size());
    std::string d = slurp(f);
    std::string what = fmt("a message of %zu bytes (form %u): ", msg.size(), form);
    if (d.compare(0, model.size(), model) != 0) { bad = what + "earlier content changed"; break; }
    Entry e;
    size_t body;
    if (!parse_header(d, model.size(), &e, &body)) { bad = what + "no header where the entry should start: \"" + esc(d.substr(model.size(), 60)) + "\""; break; }
    if (msg.empty() || msg.back() != '\n') msg += '\n';
    std::string got = d.substr(body);
    if (got != msg) { bad = what + "the entry is not the formatted message and one newline: " + diff_at(got, msg); break; }
    if (zone) {
      // Summer time makes local times ambiguous: print the readings instead of parsing the header.
      bool match = false;
      const int64_t usec = atoi(d.substr(model.size() + 20, 6).c_str());
      for (int64_t sec = (t0 - 200000) / 1000000; sec <= (t1 + 200000) / 1000000 && !match; ++sec) {
        time_t tt = (time_t)sec;
        struct tm tm;
        localtime_r(&tt, &tm);
        match = sec * 1000000 + usec >= t0 - 200000 && sec * 1000000 + usec <= t1 + 200000 && d.substr(model.size(), 19) == fmt("%04d/%02d/%02d-%02d:%02d:%02d", tm.tm_year + 1900, tm.tm_mon + 1, tm.tm_mday, tm.tm_hour, tm.tm_min, tm.tm_sec);
      }
      if (!match) { bad = what + fmt("zone %s, second %lld: the time stamp is \"%s\"", getenv("TZ"), (long long)(t0 / 1000000), d.substr(model.size(), 26).c_str()); break; }
      ++zone_lines;
    } else if (e.us < t0 - 200000 || e.us > t1 + 200000) { bad = what + fmt("the time stamp is %lld microseconds off", (long long)(e.us - t0)); break; }
    if (my_thread_token.empty()) my_thread_token = e.thread;
    else if (my_thread_token != e.thread) { bad = what + "one thread appears as " + my_thread_token + " and " + e.thread; break; }
    model = d;
  }
  if (locale.on) my_thread_token.clear();
  lsmdb::Log(nullptr, "%s", "nothing");
  if (bad.empty() && vh::heap_bytes()) {
    std::string a(r.one_in(3) ? r.below(300) : r.one_in(4) ? r.below(100000) : 300 + r.below(2000), 'y');
    if (r.one_in(2)) a += r.one_in(3) ? "\n\n" : "\n";
    for (int k = 0; k < 2; ++k) lsmdb::Log(l, "%s", a.c_str());
    size_t h0 = vh::heap_bytes();
    for (int k = 0; k < 3; ++k) lsmdb::Log(l, "%s", a.c_str());
    size_t h1 = vh::heap_bytes();
    if (h0 != h1) vh::viol("log-leak", fmt("%zd bytes more on the heap after three messages of %zu bytes", (ssize_t)(h1 - h0), a.size()));
    model = slurp(f);
  }
  delete l;
  delete l2;
  if (bad.empty() && slurp(f) != model) bad = "closing changed the log";
  if (!bad.empty()) vh::viol("log-line", bad);
  // A log that cannot be opened.
  Logger* x = (Logger*)0x8;
  s = env->NewLogger(dir + "/missing/LOG", &x);
  if (s.ok() || x != nullptr) vh::viol("log-open", "opening a log in a missing directory succeeded or left a result");
  vh::count("lines_checked", lines);
  if (zone) vh::count("lines_in_other_zones", zone_lines);
  vh::count_max("max_message_bytes", longest);
  vh::evaluated(vh::mix(idx) ^ model.size(), lines > 1);
  if (vh::want_sample()) vh::sample(fmt("case %llu: %llu lines, longest %llu bytes", (unsigned long long)idx, (unsigned long long)lines, (unsigned long long)longest));
  vh::rm_tree(dir);
}

// One message of hundreds of megabytes, up to the gigabyte, made by a field width and checked as a stream.
static void logvast_case(Rng& r, uint64_t idx) {
  Env* env = Env::Default();
  std::string dir = vh::fresh_dir("logv"), f = dir + "/LOG", bad;
  Logger* l = nullptr;
  if (!env->NewLogger(f, &l).ok()) { vh::viol("log-open", "failed"); return; }
  const int width = idx == 0 ? 1000000000 - (int)r.below(1000) : (int)r.range(1 << 27, 1 << 29), last = (int)r.range(10, 99);
  lsmdb::Log(l, "before");
  lsmdb::Log(l, "%*d", width, last);
  lsmdb::Log(l, "after");
  delete l;
  FILE* in = fopen(f.c_str(), "rb");
  if (!in) vh::broken("fopen");
  std::vector<char> b(1 << 20);
  std::string h, tail;
  uint64_t total = 0, blanks = 0, nl = 0, other = 0;
  for (size_t n; (n = fread(b.data(), 1, b.size(), in)) > 0;) {
    if (total == 0) h.assign(b.data(), std::min<size_t>(n, 300));
    total += n;
    for (size_t i = 0; i < n; ++i) b[i] == ' ' ? ++blanks : b[i] == '\n' ? ++nl : ++other;
    tail.append(b.data() + (n > 200 ? n - 200 : 0), std::min<size_t>(n, 200));
    if (tail.size() > 400) tail.erase(0, tail.size() - 400);
  }
  fclose(in);
  Entry e;
  size_t b1 = 0, b2 = 0, b3 = 0;
  if (!parse_header(h, 0, &e, &b1) || h.compare(b1, 7, "before\n") != 0) bad = "first entry: \"" + esc(h, 80) + "\"";
  else if (!parse_header(h, b1 + 7, &e, &b2)) bad = "no header of the large entry";
  else {
    const size_t head2 = b2 - b1 - 7, at = tail.rfind(fmt("%d\n", last), tail.size() - 5);
    const std::string end = at == std::string::npos ? "" : tail.substr(at + 3);
    if (at == std::string::npos || !parse_header(end, 0, &e, &b3) || end.substr(b3) != "after\n") bad = "the end of the log is \"" + esc(tail.substr(tail.size() > 120 ? tail.size() - 120 : 0)) + "\"";
    else if (total != b1 + 7 + head2 + (uint64_t)width + 1 + b3 + 6) bad = fmt("%llu bytes in the log after a message of %d", (unsigned long long)total, width);
    else if (nl != 3 || blanks != 6 + (uint64_t)width - 2) bad = fmt("%llu newlines and %llu blanks", (unsigned long long)nl, (unsigned long long)blanks);
  }
  if (!bad.empty()) vh::viol("log-vast", fmt("a message of %d bytes: ", width) + bad);
  vh::count("lines_checked", 3);
  vh::count_max("max_message_bytes", (uint64_t)width);
  vh::evaluated(vh::mix((uint64_t)width), true);
  vh::rm_tree(dir);
}

static void logconc_case(Rng& r, uint64_t idx) {
  Env* env = Env::Default();
  std::string dir = vh::fresh_dir("logc"), f = dir + "/LOG", pre = r.one_in(2) ? "before\n" : "";
  if (!pre.empty()) spit(f, pre);
  Logger* l = nullptr;
  if (!env->NewLogger(f, &l).ok()) { vh::viol("log-open", "failed"); return; }
  int T = (int)r.range(2, 6);
  uint32_t per = (uint32_t)r.range(20, 150);
  std::vector<std::thread> th;
  vh::Ctr in{0}, overlap{0};
  for (int t = 0; t < T; ++t) {
    uint64_t seed = r.next();
    th.emplace_back([&, t, seed] {
      Rng q(seed);
      for (uint32_t i = 0; i < per; ++i) {
        size_t len = q.one_in(4) ? q.below(60) : q.one_in(3) ? 380 + q.below(120) : q.one_in(8) ? q.below(20000) : q.below(2000);
        std::string pad(len, (char)('a' + t));
        if (in++ > 0) overlap++;
        lsmdb::Log(l, q.one_in(2) ? "<%d:%u:%zu:%s>" : "<%d:%u:%zu:%s>\n", t, i, len, pad.c_str());
        in--;
        if (q.one_in(10)) sched_yield();
      }
    });
  }
  for (auto& t : th) t.join();
  std::string d = slurp(f), bad;
  delete l;
  if (d != slurp(f)) bad = "closing the log changed it";
  std::vector<uint32_t> next((size_t)T, 0);
  std::vector<std::string> token((size_t)T);
  size_t p = pre.size();
  if (d.compare(0, p, pre) != 0) bad = "earlier content changed";
  uint64_t entries = 0;
  while (bad.empty() && p < d.size()) {
    Entry e;
    size_t b;
    if (!parse_header(d, p, &e, &b)) { bad = fmt("no header at byte %zu: \"%s\"", p, esc(d.substr(p, 60)).c_str()); break; }
    size_t q = d.find('\n', b);
    if (q == std::string::npos) { bad = "the last entry has no newline"; break; }
    std::string m = d.substr(b, q - b);
    int t = -1, off = 0;
    unsigned i = 0;
    size_t len = 0;
    if (sscanf(m.c_str(), "<%d:%u:%zu:%n", &t, &i, &len, &off) != 3 || t < 0 || t >= T || m != fmt("<%d:%u:%zu:", t, i, len) + std::string(len, (char)('a' + t)) + ">") { bad = fmt("an entry at byte %zu is torn or mixed: \"%s\"", p, esc(m, 80).c_str()); break; }
    if (i != next[t]) { bad = fmt("thread %d: entry %u where %u was expected", t, i, next[t]); break; }
    ++next[t];
    if (token[t].empty()) token[t] = e.thread;
    else if (token[t] != e.thread) { bad = fmt("one thread appears as %s and %s", token[t].c_str(), e.thread.c_str()); break; }
    ++entries;
    p = q + 1;
  }
  for (int t = 0; t < T && bad.empty(); ++t) {
    if (next[t] != per) bad = fmt("thread %d: %u of %u entries", t, next[t], per);
    for (int u = 0; u < t; ++u) if (token[u] == token[t]) bad = "two threads appear under one name";
  }
  if (!bad.empty()) vh::viol("log-concurrent", bad);
  vh::count("concurrent_entries", entries);
  vh::count("calls_begun_during_another", (uint64_t)overlap.load());
  vh::evaluated(vh::mix(idx) ^ d.size(), overlap.load() > 0);
  if (vh::want_sample()) vh::sample(fmt("case %llu: %d threads, %llu entries, %zu bytes, %lld calls begun during another", (unsigned long long)idx, T, (unsigned long long)entries, d.size(), (long long)overlap.load()));
  vh::rm_tree(dir);
}

// --------------------------------------------------------------- helpers ---
// An environment that fails the k-th step and watches its file objects.
struct HState {
  std::map<std::string, std::shared_ptr<std::string>> fs;
  int step = 0, fail_at = -1;
  std::string failed;     // text of the injected failure
  std::string failed_step;
  int live = 0, made = 0, syncs = 0;
  bool synced_all = false;
  std::string misuse;
  uint64_t seed = 1;
  std::vector<std::string> steps;
  bool fail(const char* name) {
    steps.push_back(name);
    if (step++ != fail_at) return false;
    failed = fmt("IO error: step %d %s: injected %llu", fail_at, name, (unsigned long long)(seed % 1000));
    failed_step = name;
    return true;
  }
  Status status() { return Status::IOError(failed.substr(10, failed.rfind(": ") - 10), failed.substr(failed.rfind(": ") + 2)); }
};
class HWriter : public WritableFile {
 public:
  HWriter(HState* s, std::shared_ptr<std::string> f) : s_(s), f_(f) { ++s_->live; ++s_->made; }
  ~HWriter() override { if (!closed_) *f_ += buf_; --s_->live; if (dead_ == 77) s_->misuse = "a writer was destroyed twice"; dead_ = 77; }
  Status Append(const Slice& d) override {
    use("Append");
    if (s_->fail("Append")) { buf_.append(d.data(), d.size() / 2); return s_->status(); }
    buf_.append(d.data(), d.size());
    synced_ = false;
    s_->synced_all = false;
    return Status::OK();
  }
  Status Close() override {
    use("Close");
    bool bad = s_->fail("Close");
    closed_ = true;
    *f_ += buf_;
    buf_.clear();
    return bad ? s_->status() : Status::OK();
  }
  Status Flush() override {
    use("Flush");
    if (s_->fail("Flush")) return s_->status();
    *f_ += buf_;
    buf_.clear();
    return Status::OK();
  }
  Status Sync() override {
    use("Sync");
    if (s_->fail("Sync")) return s_->status();
    *f_ += buf_;
    buf_.clear();
    ++s_->syncs;
    s_->synced_all = true;
    return Status::OK();
  }
 private:
  void use(const char* w) { if (closed_) s_->misuse = std::string(w) + " after Close"; }
  HState* s_;
  std::shared_ptr<std::string> f_;
  std::string buf_;
  bool closed_ = false, synced_ = false;
  int dead_ = 0;
};
class HReader : public SequentialFile {
 public:
  HReader(HState* s, std::shared_ptr<std::string> f) : s_(s), f_(f), r_(s->seed) { ++s_->live; ++s_->made; }
  ~HReader() override { --s_->live; }
  Status Read(size_t n, Slice* result, char* scratch) override {
    memset(scratch, 0xee, n);  // the buffer must hold what was asked for
    if (s_->fail("Read")) { if (r_.one_in(2)) *result = Slice(scratch, n / 2); return s_->status(); }
    size_t left = f_->size() - pos_, k = std::min(left, n);
    if (k > 1 && r_.one_in(3)) k = 1 + r_.below(k);    // fewer bytes than asked for
    if (r_.one_in(2)) { memcpy(scratch, f_->data() + pos_, k); *result = Slice(scratch, k); }
    else { own_.reset(new char[k + 1]); memcpy(own_.get(), f_->data() + pos_, k); *result = Slice(own_.get(), k); }
    pos_ += k;
    return Status::OK();
  }
  Status Skip(uint64_t n) override { pos_ += (size_t)std::min<uint64_t>(n, f_->size() - pos_); return Status::OK(); }
 private:
  HState* s_;
  std::shared_ptr<std::string> f_;
  Rng r_;
  size_t pos_ = 0;
  std::unique_ptr<char[]> own_;
};
class HEnv : public Env {
 public:
  HState s;
  Status NewSequentialFile(const std::string& f, SequentialFile** r) override {
    *r = nullptr;
    if (s.fail("NewSequentialFile")) return s.status();
    auto it = s.fs.find(f);
    if (it == s.fs.end()) return Status::NotFound(f, "no such file");
    *r = new HReader(&s, it->second);
    return Status::OK();
  }
  Status NewWritableFile(const std::string& f, WritableFile** r) override {
    *r = nullptr;
    if (s.fail("NewWritableFile")) return s.status();
    auto it = s.fs.find(f);
    if (it == s.fs.end()) it = s.fs.emplace(f, std::make_shared<std::string>()).first;
    it->second->clear();
    *r = new HWriter(&s, it->second);
    return Status::OK();
  }
  Status NewAppendableFile(const std::string& f, WritableFile** r) override { s.misuse = "NewAppendableFile"; *r = nullptr; return Status::IOError("x"); }
  Status RemoveFile(const std::string& f) override {
    bool had = s.fs.erase(f) > 0;
    if (s.seed % 3 == 0) return Status::IOError("removing", "also failed");   // but it is gone
    return had ? Status::OK() : Status::NotFound(f, "gone");
  }
  Status NewRandomAccessFile(const std::string&, RandomAccessFile** r) override { *r = nullptr; return Status::IOError("x"); }
  bool FileExists(const std::string& f) override { return s.fs.count(f) > 0; }
  Status GetChildren(const std::string&, std::vector<std::string>*) override { return Status::OK(); }
  Status CreateDir(const std::string&) override { return Status::OK(); }
  Status RemoveDir(const std::string&) override { return Status::OK(); }
  Status GetFileSize(const std::string& f, uint64_t* z) override { auto it = s.fs.find(f); *z = it == s.fs.end() ? 0 : it->second->size(); return it == s.fs.end() ? Status::NotFound(f) : Status::OK(); }
  Status RenameFile(const std::string& a, const std::string& b) override { auto it = s.fs.find(a); if (it == s.fs.end()) return Status::NotFound(a); auto x = it->second; s.fs.erase(it); s.fs[b] = x; return Status::OK(); }
  Status LockFile(const std::string&, FileLock** l) override { *l = nullptr; return Status::IOError("x"); }
  Status UnlockFile(FileLock*) override { return Status::OK(); }
  void Schedule(std::function<void(void*)>, void*) override {}
  void StartThread(std::function<void(void*)>, void*) override {}
  Status GetTestDirectory(std::string* p) override { *p = "/"; return Status::OK(); }
  Status NewLogger(const std::string&, Logger** r) override { *r = nullptr; return Status::IOError("x"); }
  uint64_t NowMicros() override { return 0; }
  void SleepForMicroseconds(int) override {}
};
static size_t a_size(Rng& r) {
  static const size_t k[] = {0, 1, 2, 8191, 8192, 8193, 16383, 16384, 16385, 65535, 65536, 65537, 131072};
  return r.one_in(2) ? k[r.below(sizeof k / sizeof *k)] : r.one_in(4) ? r.below(300000) : r.below(20000);
}
static uint64_t g_steps_failed, g_ok_runs;
static std::string helper_run(uint64_t seed, int op, int fail_at, int* steps, size_t* heap_left) {
  size_t h0 = vh::heap_bytes();
  std::string bad;
  {
    Rng r(seed);
    HEnv env;
    env.s.seed = r.next();
    env.s.fail_at = fail_at;
    std::string f = r.one_in(2) ? "/d/file" : "f", d = body_of(r.next(), a_size(r));
    bool had = r.one_in(2);
    if (had) env.s.fs[f] = std::make_shared<std::string>(body_of(3, r.below(5000)));
    std::string before = had ? *env.s.fs[f] : "";
    Status s;
    std::string out = body_of(8, r.below(3000));
    if (op == 2) {
      if (!r.one_in(8)) { env.s.fs[f] = std::make_shared<std::string>(d); had = true; before = d; }
      else if (had) d = before;
      s = lsmdb::ReadFileToString(&env, f, &out);
    } else {
      // From an exact-size block, so that no byte beyond it is taken.
      std::unique_ptr<char[]> ex(new char[d.size()]);
      memcpy(ex.get(), d.data(), d.size());
      Slice x(ex.get(), d.size());
      s = op ? lsmdb::WriteStringToFileSync(&env, x, f) : lsmdb::WriteStringToFile(&env, x, f);
    }
    *steps = env.s.step;
    bool injected = !env.s.failed.empty();
    auto it = env.s.fs.find(f);
    if (!env.s.misuse.empty()) bad = env.s.misuse;
    else if (env.s.live) bad = fmt("%d file objects were not released", env.s.live);
    else if (op == 2) {
      if (!had && !injected) { if (s.ok()) bad = "reading a missing file succeeded"; else if (!s.IsNotFound()) bad = "reading a missing file: " + s.ToString(); }
      else if (injected) { if (s.ok()) bad = "succeeded although " + env.s.failed_step + " failed"; else if (s.ToString() != env.s.failed) bad = "the failing step said \"" + env.s.failed + "\", the helper \"" + s.ToString() + "\""; }
      else if (!s.ok()) bad = "failed without a failing step: " + s.ToString();
      else if (out != before) bad = "read " + diff_at(out, before);
      if (bad.empty() && had && (it == env.s.fs.end() || *it->second != before)) bad = "reading changed the file";
    } else if (!injected) {
      if (!s.ok()) bad = "failed without a failing step: " + s.ToString();
      else if (it == env.s.fs.end() || *it->second != d) bad = "succeeded, but the file has other bytes: " + (it == env.s.fs.end() ? std::string("none") : diff_at(*it->second, d));
      else if (op == 1 && (!env.s.syncs || !env.s.synced_all)) bad = "the syncing variant did not sync everything before success";
    } else {
      if (s.ok()) bad = "succeeded although " + env.s.failed_step + " failed";
      else if (s.ToString() != env.s.failed) bad = "the first failing step said \"" + env.s.failed + "\", the helper \"" + s.ToString() + "\"";
      else if (env.s.failed_step == "NewWritableFile") { if (had != (it != env.s.fs.end()) || (had && *it->second != before)) bad = "the file could not be opened, but was changed or removed"; }
      else if (it != env.s.fs.end()) bad = env.s.failed_step + " failed and the file was left behind";
    }
    if (injected) ++g_steps_failed; else ++g_ok_runs;
    if (!bad.empty()) { std::string t; for (auto& x : env.s.steps) t += x + " "; bad += " (steps: " + t.substr(0, 200) + ")"; }
  }
  *heap_left = vh::heap_bytes() - h0;
  return bad;
}
static void helpers_case(Rng& r, uint64_t idx) {
  uint64_t seed = r.next(), runs = 0;
  g_steps_failed = g_ok_runs = 0;
  static const char* opn[] = {"WriteStringToFile", "WriteStringToFileSync", "ReadFileToString"};
  for (int op = 0; op < 3; ++op) {
    int steps = 0, x;
    size_t left = 0;
    std::string bad = helper_run(seed + op, op, -1, &steps, &left);
    for (int k = 0; k <= steps && bad.empty(); ++k) {
      int at = k == steps ? -1 : k;
      bad = helper_run(seed + op, op, at, &x, &left);
      if (bad.empty()) {
        bad = helper_run(seed + op, op, at, &x, &left);
        if (bad.empty() && left != 0) bad = fmt("%zu heap bytes are left", left);
      }
      ++runs;
      if (!bad.empty()) bad = fmt("step %d failing: ", at) + bad;
    }
    if (!bad.empty()) vh::viol("helper", std::string(opn[op]) + ": " + bad);
  }
  vh::count("steps_made_to_fail", g_steps_failed);
  vh::count("runs_without_failure", g_ok_runs);
  vh::evaluated(seed, runs > 3);
  if (vh::want_sample()) vh::sample(fmt("case %llu: %llu runs over the three helpers, %llu with a failing step", (unsigned long long)idx, (unsigned long long)runs, (unsigned long long)g_steps_failed));
}
// The same helpers over the real environments.
static void helpenv_case(Rng& r, uint64_t idx) {
  std::string dir = vh::fresh_dir("he");
  Env* base = Env::Default();
  std::unique_ptr<Env> mem(lsmdb::NewMemEnv(base));
  uint64_t n = 0;
  for (Env* env : {base, mem.get()}) {
    std::map<std::string, std::string> m;
    for (int k = 0; k < 12; ++k) {
      std::string f = dir + "/f" + std::to_string(r.below(3)), d = body_of(r.next(), a_size(r)), out = "old content";
      const char* en = env == base ? "POSIX" : "in-memory";
      if (r.one_in(2)) {
        bool sync = r.one_in(2);
        Status s = sync ? lsmdb::WriteStringToFileSync(env, d, f) : lsmdb::WriteStringToFile(env, d, f);
        if (!s.ok()) { vh::viol("helper-env", fmt("writing %zu bytes to the %s environment: %s", d.size(), en, s.ToString().c_str())); break; }
        m[f] = d;
        if (env == base && slurp(f) != d) { vh::viol("helper-env", fmt("%s environment: ", en) + diff_at(slurp(f), d)); break; }
      }
      Status s = lsmdb::ReadFileToString(env, f, &out);
      if (!m.count(f)) {
        if (s.ok() || !s.IsNotFound()) { vh::viol("helper-env", fmt("%s environment, missing file: %s", en, s.ToString().c_str())); break; }
      } else if (!s.ok() || out != m[f]) {
        vh::viol("helper-env", fmt("%s environment: %s, ", en, s.ToString().c_str()) + diff_at(out, m[f]));
        break;
      }
      ++n;
    }
    // Failures of the real thing.
    std::string out;
    if (lsmdb::WriteStringToFile(base, "x", dir + "/no/f").ok()) vh::viol("helper-env", "writing into a missing directory succeeded");
    if (lsmdb::WriteStringToFile(base, "x", dir).ok()) vh::viol("helper-env", "writing over a directory succeeded");
    if (lsmdb::ReadFileToString(base, dir, &out).ok()) vh::viol("helper-env", "reading a directory as a file succeeded");
    struct stat sb;
    if (stat(dir.c_str(), &sb) != 0) vh::viol("helper-env", "a failed write removed the directory");
  }
  vh::count("whole_files_compared", n);
  vh::evaluated(vh::mix(idx) ^ r.s, n > 4);
  vh::rm_tree(dir);
}

// ----------------------------------------------------------- replacement ---
static Env* g_env;
static std::string g_name;
static std::vector<std::string> g_versions;   // contents, oldest first
static std::vector<size_t> g_next_sizes;
static std::vector<int> g_targets;
static int g_count;
static uint64_t g_waits;
static bool g_is_mem;
static void put_new(const std::string& f, const std::string& d) {
  if (!g_is_mem) { spit(f, d); return; }
  if (!lsmdb::WriteStringToFile(g_env, d, f).ok()) vh::viol("swap-setup", "writing the new file failed");
}
static std::unique_ptr<std::thread> g_repl;
static void replace_now() {
  static std::atomic<bool> done;
  if (g_repl) {
    if (!done) return;   // the first replacement still waits for a mutex held here
    g_repl->join();
    g_repl.reset();
  }
  size_t v = g_versions.size();
  g_versions.push_back(body_of(v + 1, g_next_sizes[v % g_next_sizes.size()]));
  std::string tmp = g_name + ".new" + std::to_string(v), data = g_versions.back();
  done = false;
  g_b_blocked = 0;
  g_repl.reset(new std::thread([tmp, data] {
    t_role = 2;
    put_new(tmp, data);
    Status s = g_env->RenameFile(tmp, g_name);
    if (!s.ok()) vh::viol("swap-rename", s.ToString());
    done = true;
  }));
  while (!done && !g_b_blocked) sched_yield();
  if (!done) ++g_waits;
}
static void swap_boundary() {
  int i = g_count++;
  for (int t : g_targets) if (t == i) replace_now();
}
enum { kSeq, kRand, kWhole, kSize, kExists, kKinds };
static const char* kKindName[] = {"sequential read", "random-access read", "ReadFileToString", "GetFileSize", "FileExists"};
// Returns what is wrong; *content is what was seen.
static std::string read_op(Env* env, const std::string& name, int kind, Rng r, std::string* content, bool* only_size) {
  *only_size = false;
  if (kind == kExists) { *only_size = true; content->assign("?"); return env->FileExists(name) ? "" : "the file was reported missing"; }
  if (kind == kSize) {
    uint64_t z = 0;
    Status s = env->GetFileSize(name, &z);
    if (!s.ok()) return "GetFileSize: " + s.ToString();
    content->assign((size_t)z, 0);
    *only_size = true;
    return "";
  }
  if (kind == kWhole) {
    Status s = lsmdb::ReadFileToString(env, name, content);
    return s.ok() ? "" : "ReadFileToString: " + s.ToString();
  }
  std::vector<char> b(400001);
  Slice res;
  if (kind == kSeq) {
    SequentialFile* h = nullptr;
    Status s = env->NewSequentialFile(name, &h);
    if (!s.ok()) return "opening for sequential reading: " + s.ToString();
    std::string bad;
    size_t n = r.one_in(2) ? 400000 : r.range(300, 30000);
    for (;;) {
      s = h->Read(n, &res, b.data());
      if (!s.ok()) { bad = "reading: " + s.ToString(); break; }
      if (res.empty()) break;
      content->append(res.data(), res.size());
    }
    delete h;
    return bad;
  }
  RandomAccessFile* h = nullptr;
  Status s = env->NewRandomAccessFile(name, &h);
  if (!s.ok()) return "opening for random access: " + s.ToString();
  std::string bad;
  s = h->Read(0, 400000, &res, b.data());
  if (!s.ok()) bad = "reading: " + s.ToString();
  else {
    *content = res.ToString();
    for (int k = 0; k < 4 && bad.empty(); ++k) {
      uint64_t off = r.below(content->size() + 1);
      size_t n = r.below(20000), m = std::min<size_t>(n, content->size() - (size_t)off);
      s = h->Read(off, n, &res, b.data());
      if (!s.ok()) bad = "reading: " + s.ToString();
      else if (res.ToString() != content->substr((size_t)off, m)) bad = "two reads through one object saw different files";
    }
  }
  delete h;
  return bad;
}
static size_t ver_size(Rng& r) {
  static const size_t k[] = {0, 1, 100, 4095, 4096, 4097, 8191, 8192, 8193, 12288, 65536, 100000};
  return r.one_in(3) ? r.below(150000) : k[r.below(sizeof k / sizeof *k)];
}
static void swap_case(Rng& r, uint64_t idx) {
  std::string dir = vh::fresh_dir("swap");
  std::unique_ptr<Env> mem;
  g_is_mem = g_mm == 7;
  if (g_is_mem) { mem.reset(lsmdb::NewMemEnv(Env::Default())); g_env = mem.get(); }
  else g_env = Env::Default();
  sysx::g_hook = hook;
  g_boundary = swap_boundary;
  g_name = dir + "/f";
  int kind = (int)r.below(kKinds);
  if (kind > kWhole && r.one_in(2)) kind = kRand;
  size_t s0 = ver_size(r);
  g_next_sizes = {ver_size(r), ver_size(r), ver_size(r)};
  bool twice = r.one_in(3);
  int gap = (int)r.range(1, 6);
  uint64_t rs = r.next(), points = 0;
  std::string bad;
  for (int at = 0; at < 400 && bad.empty(); ++at) {
    g_versions.clear();
    g_versions.push_back(body_of(999, s0));
    put_new(g_name, g_versions[0]);
    g_targets.clear();
    g_targets.push_back(at);
    if (twice) g_targets.push_back(at + gap);
    g_count = 0;
    std::string got;
    bool only_size = false;
    {
      Traced t;
      ++t_watch;
      bad = read_op(g_env, g_name, kind, Rng(rs), &got, &only_size);
      --t_watch;
    }
    bool fired = g_count > at;
    if (g_repl) { g_repl->join(); g_repl.reset(); }
    if (bad.empty() && kind != kExists) {
      bool ok = false;
      for (auto& v : g_versions) if (only_size ? v.size() == got.size() : v == got) ok = true;
      if (!ok) bad = fmt("%zu bytes that are neither the old (%zu) nor the new (%zu) content", got.size(), g_versions[0].size(), g_versions.back().size());
    }
    if (bad.empty()) {
      // The rename has returned: everybody sees the new file.
      std::string now;
      for (int k : {kSeq, kRand, kWhole, kSize}) {
        bool os;
        now.clear();
        std::string b2 = read_op(g_env, g_name, k, Rng(rs), &now, &os);
        if (!b2.empty()) bad = "after the replacement: " + b2;
        else if (os ? now.size() != g_versions.back().size() : now != g_versions.back()) bad = fmt("after the replacement a %s sees something else than the new file", kKindName[k]);
        if (!bad.empty()) break;
      }
    }
    if (!bad.empty()) vh::viol("swap", fmt("%s, %s, %zu bytes replaced by %zu%s at boundary %d: %s", g_is_mem ? "in-memory" : fmt("limits %d/%d", g_mm, g_fd).c_str(), kKindName[kind], s0, g_next_sizes[1], twice ? " and again" : "", at, bad.c_str()));
    if (!fired) break;
    ++points;
  }
  g_boundary = nullptr;
  vh::count("replacement_points", points);
  vh::count("replacements_that_had_to_wait", g_waits);
  g_waits = 0;
  vh::evaluated(vh::mix(idx) ^ rs, points > 0);
  if (vh::want_sample()) vh::sample(fmt("case %llu: %s of %zu bytes, replaced by %zu bytes at each of %llu points", (unsigned long long)idx, kKindName[kind], s0, g_next_sizes[1], (unsigned long long)points));
  vh::rm_tree(dir);
}

// Replacement loops; every version describes itself.
struct VHead { uint64_t magic, version, size; };
static std::string version_body(uint64_t v, size_t n) {
  VHead h{0x7ea5e11abc0ffeeull, v, n};
  return std::string((char*)&h, sizeof h) + body_of(v * 31 + n, n);
}
static void swaploop_case(Rng& r, uint64_t idx) {
  std::string dir = vh::fresh_dir("loop"), name = dir + "/f";
  std::unique_ptr<Env> mem;
  bool is_mem = g_mm == 7;
  Env* env = Env::Default();
  if (is_mem) { mem.reset(lsmdb::NewMemEnv(env)); env = mem.get(); }
  int R = (int)r.range(1, 4), rounds = (int)r.range(100, 500);
  vh::Ctr begun{1}, returned{1}, running{1}, reads{0}, during{0};
  if (!lsmdb::WriteStringToFile(env, version_body(1, 100), name).ok()) { vh::viol("swap-setup", "writing failed"); return; }
  std::vector<std::thread> th;
  uint64_t base = r.next();
  for (int k = 0; k < R; ++k)
    th.emplace_back([&, k] {
      Rng q(vh::mix(base + k));
      bool last = false;
      while (!last) {
        last = running.load() == 0;
        int kind = (int)q.below(kKinds);
        int64_t lo = returned.load();
        std::string got;
        bool only_size;
        std::string bad = read_op(env, name, kind, Rng(q.next()), &got, &only_size);
        int64_t hi = begun.load();
        reads++;
        if (hi > lo) during++;
        if (bad.empty() && !only_size) {
          VHead h;
          if (got.size() < sizeof h) bad = fmt("%zu bytes only", got.size());
          else {
            memcpy(&h, got.data(), sizeof h);
            if (h.magic != 0x7ea5e11abc0ffeeull || got.size() != sizeof h + h.size || got != version_body(h.version, (size_t)h.size)) bad = fmt("%zu bytes that are no complete version", got.size());
            else if ((int64_t)h.version < lo) bad = fmt("version %llu after the renaming of version %lld had returned", (unsigned long long)h.version, (long long)lo);
            else if ((int64_t)h.version > hi) bad = fmt("version %llu before it was made", (unsigned long long)h.version);
          }
        }
        if (!bad.empty()) { vh::viol_once("swap-loop", fmt("%s, %s: %s", is_mem ? "in-memory" : fmt("limits %d/%d", g_mm, g_fd).c_str(), kKindName[kind], bad.c_str())); return; }
      }
    });
  Rng q(base ^ 77);
  for (int i = 2; i < 2 + rounds && !vh::st().violations.load(); ++i) {
    std::string d = version_body((uint64_t)i, q.one_in(4) ? q.below(150000) : q.one_in(2) ? q.below(9000) : q.below(60)), tmp = name + (i & 1 ? ".a" : ".b");
    begun = i;
    Status s = lsmdb::WriteStringToFile(env, d, tmp);
    if (s.ok()) s = env->RenameFile(tmp, name);
    if (!s.ok()) { vh::viol_once("swap-rename", s.ToString()); break; }
    returned = i;
    if (q.one_in(6)) usleep(q.below(300));
  }
  running = 0;
  for (auto& t : th) t.join();
  vh::count("replacements", (uint64_t)returned.load());
  vh::count("reads_during_replacements", (uint64_t)during.load());
  vh::count("reads_between_replacements", (uint64_t)(reads.load() - during.load()));
  vh::evaluated(vh::mix(idx) ^ (uint64_t)reads.load(), during.load() > 0);
  if (vh::want_sample()) vh::sample(fmt("case %llu: %d readers, %lld replacements, %lld reads, %lld of them during a replacement", (unsigned long long)idx, R, (long long)returned.load(), (long long)reads.load(), (long long)during.load()));
  vh::rm_tree(dir);
}

int main(int argc, char** argv) {
  vh::parse(argc, argv);
  configure_posix();
  if (g_mode == "logtz") {
    setenv("TZ", kZones[(size_t)g_mm % kZoneCount], 1);
    tzset();
  }
  if (g_mode == "log" || g_mode == "logtz") vh::run_cases(log_case);
  else if (g_mode == "logvast") vh::run_cases(logvast_case);
  else if (g_mode == "logconc") vh::run_cases(logconc_case);
  else if (g_mode == "helpers") vh::run_cases(helpers_case);
  else if (g_mode == "helpenv") vh::run_cases(helpenv_case);
  else if (g_mode == "swap") vh::run_cases(swap_case);
  else if (g_mode == "swaploop") vh::run_cases(swaploop_case);
  else vh::broken("unknown mode " + g_mode);
  return vh::finish();
}
