// Calls leave alone what is not theirs: the state of the process, the hidden
// state of the C library, the caller's descriptors, mappings and files; and
// what they create has the permissions the umask leaves.
#include <dirent.h>
#include <fcntl.h>
#include <fenv.h>
#include <grp.h>
#include <locale.h>
#include <pthread.h>
#include <pwd.h>
#include <sched.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <exception>
#include <locale>
#include <map>
#include <memory>
#include <new>
#include <set>
#include <thread>

#include "db/skiplist.h"
#include "helpers/memenv/memenv.h"
#include "lsmdb/cache.h"
#include "lsmdb/env.h"
#include "lsmdb/slice.h"
#include "lsmdb/status.h"
#include "posixcfg.h"
#include "util/arena.h"
#include "util/coding.h"
#include "util/hash.h"
#include "util/logging.h"
#include "util/random.h"
#include "vh.h"

extern char** environ;
extern "C" int optind, opterr;

namespace lsmdb { Status WriteStringToFileSync(Env* env, const Slice& data, const std::string& fname); }
using namespace lsmdb;
using vh::fmt;
using vh::Rng;

// ---- the state of the process ----
typedef std::map<std::string, std::string> State;
static std::string sigset_text(const sigset_t& m) {
  std::string s;
  for (int i = 1; i < 65; ++i) s += sigismember(&m, i) == 1 ? '1' : '0';
  return s;
}
static State observe(bool own_thread) {
  State s;
  char b[4096];
  s["working directory"] = getcwd(b, sizeof b) ? b : "none";
  if (FILE* f = fopen("/proc/self/status", "r")) {
    while (fgets(b, sizeof b, f))
      for (const char* k : {"Umask:", "Uid:", "Gid:", "Groups:", "CapEff:", "NoNewPrivs:", "Seccomp:", "VmLck:", "CoreDumping:"})
        if (!strncmp(b, k, strlen(k))) s[std::string("status ") + k] = b;
    fclose(f);
  }
  std::string sg;
  for (int i = 1; i < 65; ++i) {
    if (i == SIGALRM) continue;
    struct sigaction a;
    if (sigaction(i, nullptr, &a) == 0) sg += fmt("%d:%p:%x:%s;", i, (void*)(a.sa_flags & SA_SIGINFO ? (void*)a.sa_sigaction : (void*)a.sa_handler), (unsigned)a.sa_flags, sigset_text(a.sa_mask).c_str());
  }
  s["signal dispositions"] = sg;
  struct sigaction al;
  sigaction(SIGALRM, nullptr, &al);
  s["alarm handler"] = fmt("%p", (void*)al.sa_handler);
  if (own_thread) {
    sigset_t m;
    pthread_sigmask(SIG_SETMASK, nullptr, &m);
    s["signal mask"] = sigset_text(m);
    s["thread name"] = pthread_getname_np(pthread_self(), b, sizeof b) == 0 ? b : "?";
    s["timer slack"] = fmt("%d", prctl(PR_GET_TIMERSLACK, 0, 0, 0, 0));
    s["rounding mode"] = fmt("%d", fegetround());
    s["thread locale"] = fmt("%p", (void*)uselocale((locale_t)0));
    int cs = -1, ct = -1;
    pthread_setcancelstate(PTHREAD_CANCEL_ENABLE, &cs);
    pthread_setcancelstate(cs, nullptr);
    pthread_setcanceltype(PTHREAD_CANCEL_DEFERRED, &ct);
    pthread_setcanceltype(ct, nullptr);
    s["cancellation"] = fmt("%d %d", cs, ct);
    cpu_set_t cpus;
    CPU_ZERO(&cpus);
    if (sched_getaffinity(0, sizeof cpus, &cpus) == 0) s["processors"] = fmt("%llx", (unsigned long long)vh::hash_str(std::string((const char*)&cpus, sizeof cpus)));
    s["priority"] = fmt("%d %d", getpriority(PRIO_PROCESS, 0), sched_getscheduler(0));
  }
  for (int t : {ITIMER_VIRTUAL, ITIMER_PROF}) {
    itimerval v;
    getitimer((decltype(ITIMER_REAL))t, &v);
    s[fmt("timer %d", t)] = fmt("%d", v.it_value.tv_sec || v.it_value.tv_usec || v.it_interval.tv_sec || v.it_interval.tv_usec);
  }
  itimerval v;
  getitimer(ITIMER_REAL, &v);
  s["alarm"] = fmt("%d %d", v.it_value.tv_sec || v.it_value.tv_usec, v.it_interval.tv_sec || v.it_interval.tv_usec);
  std::string e;
  for (char** p = environ; *p; ++p) e += fmt("%s\n", *p);
  s["environment variables"] = e;
  s["locale"] = std::string(setlocale(LC_ALL, nullptr)) + " " + std::locale().name();
  std::string rl;
  for (int r = 0; r < 16; ++r) { struct rlimit x; if (getrlimit((decltype(RLIMIT_CPU))r, &x) == 0) rl += fmt("%llu/%llu ", (unsigned long long)x.rlim_cur, (unsigned long long)x.rlim_max); }
  s["resource limits"] = rl;
  s["process group"] = fmt("%d %d", (int)getpgrp(), (int)getsid(0));
  s["dumpable"] = fmt("%d", prctl(PR_GET_DUMPABLE, 0, 0, 0, 0));
  s["subreaper"] = [&] { int x = -1; prctl(PR_GET_CHILD_SUBREAPER, &x, 0, 0, 0); return fmt("%d", x); }();
  s["handlers"] = fmt("%p %p", (void*)std::get_terminate(), (void*)std::get_new_handler());
  s["getopt"] = fmt("%d %d", optind, opterr);
  s["tty of standard streams"] = fmt("%d %d", fcntl(1, F_GETFL), fcntl(2, F_GETFL));
  errno = 0;
  int st, w = waitpid(-1, &st, WNOHANG);
  s["child processes"] = w < 0 && errno == ECHILD ? "none" : fmt("%d", w);
  return s;
}

// The hidden state of the C library: every read disturbs it, so it is prepared
// once before a stretch of operations and looked at once after it.
struct Hidden {
  unsigned seed;
  int rand_next;
  long drand_next;
  char words[32];
  char* first;
  struct tm* tm_p;
  struct tm tm_was;
  struct passwd* pw;
  std::string pw_was;
  DIR* dir = nullptr;
  std::string left;
  explicit Hidden(Rng& r, const std::string& d) {
    seed = (unsigned)r.next();
    srand(seed);
    rand_next = rand();
    srand(seed);
    srand48(seed);
    drand_next = lrand48();
    srand48(seed);
    strcpy(words, "one two three");
    first = strtok(words, " ");
    time_t t = (time_t)r.below(2000000000);
    tm_p = gmtime(&t);
    tm_was = *tm_p;
    pw = getpwuid(0);
    if (pw) pw_was = fmt("%s %d %s", pw->pw_name, (int)pw->pw_uid, pw->pw_dir);
    dir = opendir(d.c_str());
    if (!dir) vh::broken("opendir");
    for (int i = 0; i < 3; ++i) readdir(dir);
    long at = telldir(dir);
    left = rest();
    seekdir(dir, at);
  }
  std::string rest() {
    std::string s;
    while (dirent* e = readdir(dir)) s += std::string(e->d_name) + ";";
    return s;
  }
  std::string changed() {
    std::string what;
    if (rand() != rand_next) what = "the sequence of rand()";
    if (lrand48() != drand_next) what = "the sequence of lrand48()";
    char* second = strtok(nullptr, " ");
    if (!second || strcmp(second, "two") || strcmp(first, "one")) what = "the place of strtok()";
    if (memcmp(tm_p, &tm_was, offsetof(struct tm, tm_zone)) != 0) what = "the result of gmtime()";
    if (pw && fmt("%s %d %s", pw->pw_name, (int)pw->pw_uid, pw->pw_dir) != pw_was) what = "the result of getpwuid()";
    if (rest() != left) what = "the place of an open listing";
    closedir(dir);
    dir = nullptr;
    return what;
  }
};

// ---- the caller's own descriptors and mappings ----
struct Mine {
  struct Fd { int fd; dev_t dev; ino_t ino; off_t off; int fl, fdfl; off_t size; };
  struct Map { char* p; size_t n; unsigned char c; };
  std::vector<Fd> fds;
  std::vector<Map> maps;
  std::string dir;
  int serial = 0;
  uint64_t looked = 0;
  explicit Mine(const std::string& d) : dir(d) {}
  ~Mine() {
    for (auto& f : fds) close(f.fd);
    for (auto& m : maps) munmap(m.p, m.n);
  }
  void open_one(Rng& r) {
    std::string p = dir + "/u" + std::to_string(serial++ % 40);
    int fl = r.one_in(4) ? O_RDWR | O_APPEND : r.one_in(4) ? O_RDWR | O_NONBLOCK : O_RDWR;
    int fd = open(p.c_str(), fl | O_CREAT | (r.one_in(2) ? O_CLOEXEC : 0), 0600);
    if (fd < 0) vh::broken("open of the caller's file");
    if (ftruncate(fd, 5000) != 0) vh::broken("ftruncate");
    lseek(fd, (off_t)r.below(5000), SEEK_SET);
    struct stat sb;
    fstat(fd, &sb);
    fds.push_back({fd, sb.st_dev, sb.st_ino, lseek(fd, 0, SEEK_CUR), fcntl(fd, F_GETFL), fcntl(fd, F_GETFD), 5000});
  }
  void pipe_one(Rng& r) {
    int p[2];
    if (pipe2(p, O_NONBLOCK | (r.one_in(2) ? O_CLOEXEC : 0)) != 0) vh::broken("pipe");
    for (int fd : p) {
      struct stat sb;
      fstat(fd, &sb);
      fds.push_back({fd, sb.st_dev, sb.st_ino, -1, fcntl(fd, F_GETFL), fcntl(fd, F_GETFD), -1});
    }
  }
  void map_one(Rng& r) {
    size_t n = 4096 * r.range(1, 5);
    void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) vh::broken("mmap of the caller's memory");
    Map m{(char*)p, n, (unsigned char)(1 + r.below(255))};
    memset(p, m.c, n);
    maps.push_back(m);
  }
  void stir(Rng& r) {
    switch (r.below(6)) {
      case 0: case 1: if (fds.size() < 24) open_one(r); break;
      case 2: if (fds.size() < 24) pipe_one(r); break;
      case 3: if (fds.size() > 2) { size_t i = r.below(fds.size()); close(fds[i].fd); fds.erase(fds.begin() + i); } break;
      case 4: if (maps.size() < 16) map_one(r); break;
      case 5: if (maps.size() > 2) { size_t i = r.below(maps.size()); munmap(maps[i].p, maps[i].n); maps.erase(maps.begin() + i); } break;
    }
  }
  std::string changed() {
    for (auto& f : fds) {
      struct stat sb;
      ++looked;
      if (fstat(f.fd, &sb) != 0) return fmt("descriptor %d of the caller was closed", f.fd);
      if (sb.st_dev != f.dev || sb.st_ino != f.ino) return fmt("descriptor %d of the caller refers to something else", f.fd);
      if (f.off >= 0 && lseek(f.fd, 0, SEEK_CUR) != f.off) return fmt("descriptor %d of the caller was moved from %lld to %lld", f.fd, (long long)f.off, (long long)lseek(f.fd, 0, SEEK_CUR));
      if (fcntl(f.fd, F_GETFL) != f.fl || fcntl(f.fd, F_GETFD) != f.fdfl) return fmt("the flags of descriptor %d of the caller were changed", f.fd);
      if (f.size >= 0 && sb.st_size != f.size) return fmt("the file of descriptor %d of the caller has %lld bytes now", f.fd, (long long)sb.st_size);
    }
    for (auto& m : maps) {
      unsigned char vec[8];
      ++looked;
      if (mincore(m.p, m.n, vec) != 0) return fmt("%zu bytes of the caller's mapped memory are gone", m.n);
      for (size_t i = 0; i < m.n; i += 512) if ((unsigned char)m.p[i] != m.c) return "the caller's mapped memory was changed";
    }
    return "";
  }
};

// ---- the files ----
struct Entry { mode_t mode; uid_t uid; gid_t gid; ino_t ino; off_t size; int64_t mtime; std::string link; };
typedef std::map<std::string, Entry> Tree;
static Tree list_dir(const std::string& d) {
  Tree t;
  DIR* dir = opendir(d.c_str());
  if (!dir) return t;
  while (dirent* e = readdir(dir)) {
    std::string n = e->d_name;
    if (n == "." || n == "..") continue;
    struct stat sb;
    if (lstat((d + "/" + n).c_str(), &sb) != 0) continue;
    t[n] = {sb.st_mode, sb.st_uid, sb.st_gid, sb.st_ino, sb.st_size, (int64_t)sb.st_mtim.tv_sec * 1000000000 + sb.st_mtim.tv_nsec, ""};
  }
  closedir(dir);
  return t;
}
static bool same_entry(const Entry& a, const Entry& b) { return a.mode == b.mode && a.uid == b.uid && a.gid == b.gid && a.ino == b.ino && a.size == b.size && a.mtime == b.mtime; }

static const char* kNames[] = {"f0", "f1", "MANIFEST-000001", "LOCK", "LOG", "d0", "missing/x", "full"};  // "full" takes no bytes
// Names that belong to the caller and look like what a library might make.
static const char* kBystanders[] = {"f0~", "f0.tmp", "f1.bak", ".f0.swp", "f", "CURRENT", "LOG.old", "LOCK.lock", "MANIFEST-000001.tmp", "tmp", "core", "f0.new"};

struct CmpI { int operator()(const uint64_t& a, const uint64_t& b) const { return a < b ? -1 : a > b; } };

// One operation on the library; returns its name and the files it names.
struct Ops {
  Env* env = Env::Default();
  std::unique_ptr<Env> mem{NewMemEnv(Env::Default())};
  std::string dir;
  std::map<int, WritableFile*> ws;
  std::vector<WritableFile*> closed;
  std::vector<SequentialFile*> sf;
  std::vector<RandomAccessFile*> ra;
  Logger* lg = nullptr;
  FileLock* lk = nullptr;
  std::shared_ptr<Cache> cache = NewLRUCache(1000);
  std::set<std::string> named;
  explicit Ops(const std::string& d) : dir(d) {}
  ~Ops() { fin(); }
  void fin() {
    for (auto& w : ws) delete w.second;
    for (auto* x : closed) delete x;
    closed.clear();
    for (auto* x : sf) delete x;
    for (auto* x : ra) delete x;
    delete lg;
    lg = nullptr;
    ws.clear();
    sf.clear();
    ra.clear();
    if (lk) env->UnlockFile(lk);
    lk = nullptr;
  }
  std::string P(int i) { named.insert(kNames[i]); return dir + "/" + kNames[i]; }
  std::string step(Rng& r, bool wait_work) {
    named.clear();
    int i = (int)r.below(r.one_in(6) ? 8 : 3);
    std::string text = r.nasty(r.skewed(r.one_in(4) ? 17 : 8)), got;
    if (r.one_in(4)) text = std::string(4096 * r.range(1, 20), 'p');  // whole pages
    Slice res;
    std::vector<char> sc(70000);
    Status s;
    switch (r.below(26)) {
      case 0: case 1: {
        if (ws.count(i)) { delete ws[i]; ws.erase(i); }
        WritableFile* w = nullptr;
        bool app = r.one_in(2);
        s = app ? env->NewAppendableFile(P(i), &w) : env->NewWritableFile(P(i), &w);
        if (s.ok()) ws[i] = w;
        return app ? "NewAppendableFile" : "NewWritableFile";
      }
      case 2: case 3: for (auto& w : ws) { P(w.first); w.second->Append(text); } return "Append";
      case 4: for (auto& w : ws) { P(w.first); if (r.one_in(2)) w.second->Flush(); else w.second->Sync(); } return "Flush and Sync";
      case 5: if (!ws.empty()) { P(ws.begin()->first); ws.begin()->second->Close(); closed.push_back(ws.begin()->second); ws.erase(ws.begin()); between(r); } return "Close";
      case 6:
        if (!ws.empty() && r.one_in(2)) { P(ws.begin()->first); delete ws.begin()->second; ws.erase(ws.begin()); }
        else if (!closed.empty()) { delete closed.back(); closed.pop_back(); }
        return "deleting a writer";
      case 7: { SequentialFile* x = nullptr; if (env->NewSequentialFile(P(i), &x).ok()) sf.push_back(x); return "NewSequentialFile"; }
      case 8: { RandomAccessFile* x = nullptr; for (int k = 0; k < 3; ++k) { beside(r); if (env->NewRandomAccessFile(P(i), &x).ok()) ra.push_back(x); } beside(r); return "NewRandomAccessFile"; }
      case 9: for (auto* x : sf) { x->Read(r.below(60000), &res, sc.data()); x->Skip(r.below(100)); } return "sequential reading";
      case 10: for (auto* x : ra) x->Read(r.below(70000), r.below(60000), &res, sc.data()); return "random reading";
      case 11: if (!sf.empty()) { delete sf.back(); sf.pop_back(); } if (!ra.empty()) { size_t k = r.below(ra.size()); delete ra[k]; ra.erase(ra.begin() + k); } return "closing a reader";
      case 12: env->FileExists(P(i)); { uint64_t z; env->GetFileSize(P(i), &z); } return "FileExists and GetFileSize";
      case 13: { std::vector<std::string> v; env->GetChildren(r.one_in(3) ? P(i) : dir, &v); return "GetChildren"; }
      case 14: env->RemoveFile(P(i % 7)); return "RemoveFile";
      case 15: if (r.one_in(2)) env->CreateDir(P(5)); else env->RemoveDir(P(r.one_in(3) ? i : 5)); return "CreateDir or RemoveDir";
      case 16: env->RenameFile(P(i % 7), P((int)r.below(3))); return "RenameFile";
      case 17: if (lk) { P(3); env->UnlockFile(lk); lk = nullptr; return "UnlockFile"; } if (!env->LockFile(P(3), &lk).ok()) lk = nullptr; return "LockFile";
      case 18: { FileLock* l2 = nullptr; if (env->LockFile(P(r.one_in(2) ? 3 : 6), &l2).ok()) { if (lk) return "two holders"; lk = l2; } return "LockFile again"; }
      case 19:
        P(4);
        if (!lg && !env->NewLogger(P(4), &lg).ok()) lg = nullptr;
        if (lg) { Log(lg, "%s %d", text.c_str(), 5); Log(lg, "plain"); if (r.one_in(4)) { delete lg; lg = nullptr; } }
        return "logging";
      case 20: {
        std::string f = P(i);
        if (ws.count(i)) { delete ws[i]; ws.erase(i); }
        if (r.one_in(2)) WriteStringToFileSync(env, text, f); else WriteStringToFile(env, text, f);
        if (i != 7) ReadFileToString(env, f, &got);
        return "whole-file calls";
      }
      case 21: env->NowMicros(); env->SleepForMicroseconds((int)r.below(300)); { std::string t; env->GetTestDirectory(&t); } return "clock, sleep and test directory";
      case 22: {
        // The work is over before the state is compared; the threads' ends are not waited for.
        auto done = std::make_shared<vh::Ctr>();
        auto fn = [done](void*) { ++*done; };
        if (r.one_in(2)) env->Schedule(fn, nullptr); else env->StartThread(fn, nullptr);
        if (wait_work) for (int k = 0; k < 30000 && *done == 0; ++k) usleep(200);
        return "Schedule or StartThread";
      }
      case 23: {
        WritableFile* w = nullptr;
        mem->NewWritableFile("m", &w);
        w->Append(text);
        delete w;
        ReadFileToString(mem.get(), "m", &got);
        std::vector<std::string> v;
        mem->GetChildren("", &v);
        mem->RenameFile("m", "n");
        Logger* l = nullptr;
        mem->NewLogger("l", &l);
        Log(l, "%d", 3);
        delete l;
        mem->RemoveFile("n");
        return "the in-memory environment";
      }
      case 24: {
        for (int k = 0; k < 20; ++k) {
          auto h = cache->Insert("k" + std::to_string(r.below(50)), nullptr, 1 + r.below(40), [](const Slice&, void*) {});
          cache->Release(h);
        }
        if (r.one_in(4)) cache->Prune();
        Arena a;
        SkipList<uint64_t, CmpI> l(CmpI(), &a);
        for (uint64_t k = 0; k < 60; ++k) l.Insert(vh::mix(r.next() ^ k));
        a.Allocate(1 + r.below(9000));
        return "cache, arena and skip list";
      }
      default: {
        std::string o;
        PutVarint32(&o, (uint32_t)r.next());
        PutLengthPrefixedSlice(&o, text);
        AppendNumberTo(&o, r.next());
        AppendEscapedStringTo(&o, text);
        Slice in(o);
        uint32_t v;
        GetVarint32(&in, &v);
        GetLengthPrefixedSlice(&in, &res);
        uint64_t n;
        ConsumeDecimalNumber(&in, &n);
        Hash(o.data(), o.size(), 1);
        lsmdb::Random rr((uint32_t)r.next());
        rr.Skewed(10);
        Status a = Status::IOError(text, o), b = a;
        b.ToString();
        return "values";
      }
    }
  }
  std::function<void(Rng&)> between = [](Rng&) {};
  std::function<void(Rng&)> beside = [](Rng&) {};
};

static void handler(int) {}

static void global_case(Rng& r, uint64_t idx) {
  std::string top = vh::fresh_dir(fmt("gl-%llu", (unsigned long long)idx)), dir = top + "/work", cwd = top + "/cwd", home = top + "/home", mine = top + "/mine", listed = top + "/listed";
  for (auto& d : {dir, cwd, home, mine, listed}) if (mkdir(d.c_str(), 0755) != 0) vh::broken("mkdir");
  for (const char* b : kBystanders) {
    int fd = open((dir + "/" + b).c_str(), O_CREAT | O_WRONLY, (mode_t)(0600 | r.below(64)));
    if (fd < 0 || write(fd, b, strlen(b)) < 0) vh::broken("bystander");
    close(fd);
  }
  const std::set<std::string> own(std::begin(kBystanders), std::end(kBystanders));
  if (symlink("/dev/full", (dir + "/full").c_str()) != 0) vh::broken("symlink");
  for (int i = 0; i < 12; ++i) close(open((listed + fmt("/entry%d", i)).c_str(), O_CREAT | O_WRONLY, 0644));
  static const mode_t masks[] = {022, 0, 077, 027, 007, 0777, 0111};
  mode_t mask = masks[r.below(7)];
  // Some files are there before, with permissions of their own.
  std::map<std::string, mode_t> own_mode;
  for (int i = 0; i < 5; ++i)
    if (r.one_in(3)) {
      static const mode_t modes[] = {0600, 0640, 0666, 0755, 0444, 02755, 01644};
      std::string p = dir + "/" + kNames[i];
      close(open(p.c_str(), O_CREAT | O_WRONLY, 0600));
      chmod(p.c_str(), modes[r.below(7)]);
    }
  char was[4096];
  if (!getcwd(was, sizeof was)) vh::broken("getcwd");
  if (chdir(cwd.c_str()) != 0) vh::broken("chdir");
  setenv("HOME", home.c_str(), 1);
  setenv("TMPDIR", home.c_str(), 1);
  setenv("TEST_TMPDIR", (top + "/td").c_str(), 1);
  mkdir((top + "/td").c_str(), 0700);
  mode_t umask_was = umask(mask);
  // Signals: some ignored, some handled, some blocked in this thread.
  std::vector<std::pair<int, struct sigaction>> sig_was;
  for (int g : {SIGUSR1, SIGUSR2, SIGHUP, SIGPIPE, SIGCHLD, SIGWINCH, SIGXFSZ}) {
    struct sigaction a, o;
    memset(&a, 0, sizeof a);
    a.sa_handler = r.one_in(3) && g != SIGCHLD ? SIG_IGN : r.one_in(2) ? handler : SIG_DFL;
    if (r.one_in(2)) a.sa_flags = SA_RESTART;
    sigaction(g, &a, &o);
    sig_was.push_back({g, o});
  }
  sigset_t mset, mold;
  sigemptyset(&mset);
  for (int g : {SIGUSR1, SIGUSR2, SIGTERM, SIGPIPE, SIGIO}) if (r.one_in(2)) sigaddset(&mset, g);
  pthread_sigmask(SIG_SETMASK, &mset, &mold);
  if (r.one_in(2)) fesetround(FE_DOWNWARD);
  fflush(stdout);
  fflush(stderr);
  int out_was = dup(1), err_was = dup(2);
  int outf = open((top + "/stdout").c_str(), O_CREAT | O_RDWR | O_APPEND, 0600);
  dup2(outf, 1);
  dup2(outf, 2);
  std::string problem, last;
  uint64_t sig = mask, ops = 0, made = 0, watched = 0, states = 0, scarce = 0;
  bool conc = idx % 4 == 3;
  {
    Mine m(mine);
    for (int i = 0; i < 3; ++i) { m.open_one(r); m.map_one(r); }
    if (!conc) {
      Ops o(dir);
      // After a close the caller often opens a file, which gets the same number.
      struct rlimit lim;
      getrlimit(RLIMIT_NOFILE, &lim);
      // The caller's memory lies right beside the mapped files.
      o.beside = [&](Rng& rr) { if (m.maps.size() < 40) m.map_one(rr); };
      o.between = [&](Rng& rr) {
        if (!rr.one_in(2)) return;
        struct rlimit cur;
        getrlimit(RLIMIT_NOFILE, &cur);
        setrlimit(RLIMIT_NOFILE, &lim);
        m.open_one(rr);
        setrlimit(RLIMIT_NOFILE, &cur);
      };
      size_t n = r.range(60, vh::st().thorough ? 400 : 160);
      bool tight = r.one_in(3);
      State before = observe(true);
      std::unique_ptr<Hidden> hid(new Hidden(r, listed));
      // (The listing of the caller is of a directory that does not change while it is open.)
      size_t stretch = r.range(5, 20);
      for (size_t i = 0; i < n && problem.empty(); ++i) {
        Tree t0 = list_dir(dir);
        // Sometimes the library finds no descriptor left.
        if (tight && r.one_in(2)) {
          struct rlimit low = lim;
          low.rlim_cur = r.one_in(2) ? 0 : r.range(3, 60);
          if (setrlimit(RLIMIT_NOFILE, &low) != 0) vh::broken("setrlimit");
          last = o.step(r, true) + " with few descriptors left";
          if (setrlimit(RLIMIT_NOFILE, &lim) != 0) vh::broken("setrlimit back");
          ++scarce;
        } else {
          last = o.step(r, true);
        }
        ++ops;
        sig = vh::mix(sig ^ vh::hash_str(last));
        problem = m.changed();
        if (!problem.empty()) break;
        Tree t1 = list_dir(dir);
        for (auto& e : t1) {
          auto x = t0.find(e.first);
          if (x == t0.end()) {
            if (!o.named.count(e.first)) { problem = "made the file " + e.first + ", which it was not given"; break; }
            // Renamed files bring their permissions along.
            bool moved = false;
            for (auto& y : t0) moved = moved || y.second.ino == e.second.ino;
            if (moved) continue;
            ++made;
            mode_t want = (S_ISDIR(e.second.mode) ? 0755 : 0644) & ~mask;
            if ((e.second.mode & 07777) != want) problem = fmt("made %s with mode %o instead of %o (umask %o)", e.first.c_str(), (unsigned)(e.second.mode & 07777), (unsigned)want, (unsigned)mask);
            else if (e.second.uid != geteuid()) problem = "made " + e.first + " for another user";
          } else if (x->second.ino == e.second.ino && (x->second.mode != e.second.mode || x->second.uid != e.second.uid || x->second.gid != e.second.gid)) {
            problem = fmt("changed the permissions of %s from %o to %o", e.first.c_str(), (unsigned)x->second.mode, (unsigned)e.second.mode);
          } else if (own.count(e.first) && !same_entry(x->second, e.second)) {
            // (A handle writes to its file under whatever name it has by now, so only the caller's files are held still.)
            problem = "changed " + e.first + ", which it was not given";
          }
          if (!problem.empty()) break;
        }
        for (auto& e : t0) if (problem.empty() && !t1.count(e.first) && !o.named.count(e.first)) problem = "removed " + e.first + ", which it was not given";
        if (!problem.empty()) break;
        m.stir(r);
        if (i % stretch == stretch - 1 || i + 1 == n) {
          std::string c = hid->changed();
          if (!c.empty()) { problem = "changed " + c; break; }
          hid.reset();
          State now = observe(true);
          ++states;
          for (auto& p : before) if (now[p.first] != p.second) { problem = fmt("changed the %s from \"%s\" to \"%s\"", p.first.c_str(), p.second.substr(0, 150).c_str(), now[p.first].substr(0, 150).c_str()); break; }
          struct stat sb;
          if (problem.empty() && fstat(outf, &sb) == 0 && sb.st_size) {
            std::string txt(200, 0);
            ssize_t k = pread(outf, &txt[0], 200, 0);
            txt.resize(k > 0 ? (size_t)k : 0);
            problem = "wrote to standard output or error: " + txt;
          }
          if (problem.empty() && (!list_dir(cwd).empty() || !list_dir(home).empty() || !list_dir(top + "/td").empty())) problem = "left a file in the working, home or temporary directory";
          if (i + 1 != n) hid.reset(new Hidden(r, listed));
        }
        if (i + 1 == n || !problem.empty()) break;
      }
      if (hid && hid->dir) closedir(hid->dir);
      if (problem.empty()) { o.fin(); last = "closing everything"; problem = m.changed(); }
    } else {
      // Threads of the library's users come and go while this one opens, closes and looks at its own.
      State before = observe(true);
      size_t nt = r.range(2, 4), n = r.range(30, 80);
      std::vector<std::thread> ts;
      std::vector<std::string> masks_after(nt);
      uint64_t made_beside = 0;
      vh::Ctr left((int64_t)nt);
      for (size_t t = 0; t < nt; ++t) {
        std::string d = dir + fmt("/t%zu", t);
        mkdir(d.c_str(), 0777);
        chmod(d.c_str(), 0777);
        if (symlink("/dev/full", (d + "/full").c_str()) != 0) vh::broken("symlink");
        uint64_t s = r.next();
        ts.emplace_back([&, t, d, s] {
          Rng q(s);
          sigset_t m0, m1;
          pthread_sigmask(SIG_SETMASK, nullptr, &m0);
          {
            Ops o(d);
            for (size_t i = 0; i < n; ++i) o.step(q, false);
          }
          pthread_sigmask(SIG_SETMASK, nullptr, &m1);
          masks_after[t] = sigset_text(m0) == sigset_text(m1) ? "" : "changed the signal mask of a thread";
          --left;
        });
      }
      while (left.load() > 0 && problem.empty()) {
        m.stir(r);
        problem = m.changed();
        // A file the caller makes meanwhile gets the permissions it asked for.
        std::string f = mine + "/made";
        int fd = open(f.c_str(), O_CREAT | O_EXCL | O_WRONLY, 0777);
        struct stat sb;
        if (fd < 0 || fstat(fd, &sb) != 0) vh::broken("a file of the caller");
        close(fd);
        unlink(f.c_str());
        ++made_beside;
        if (problem.empty() && (sb.st_mode & 07777) != (0777 & ~mask)) problem = fmt("a file the caller made with mode 777 under umask %o got %o", (unsigned)mask, (unsigned)(sb.st_mode & 07777));
      }
      vh::count("files_made_by_the_caller_beside_threads", made_beside);
      for (auto& t : ts) t.join();
      last = "threads at work";
      ops += nt * n;
      if (problem.empty()) problem = m.changed();
      for (auto& x : masks_after) if (problem.empty()) problem = x;
      State now = observe(true);
      ++states;
      for (auto& p : before) if (problem.empty() && now[p.first] != p.second) problem = fmt("changed the %s from \"%s\" to \"%s\"", p.first.c_str(), p.second.substr(0, 150).c_str(), now[p.first].substr(0, 150).c_str());
      sig = vh::mix(sig ^ r.next());
      vh::count("threads_beside_the_caller", nt);
    }
    watched = m.looked;
  }
  fflush(stdout);
  fflush(stderr);
  dup2(out_was, 1);
  dup2(err_was, 2);
  close(out_was);
  close(err_was);
  close(outf);
  fesetround(FE_TONEAREST);
  pthread_sigmask(SIG_SETMASK, &mold, nullptr);
  for (auto& g : sig_was) sigaction(g.first, &g.second, nullptr);
  umask(umask_was);
  if (chdir(was) != 0) vh::broken("chdir back");
  if (!problem.empty()) vh::viol("global-state", fmt("%s: %s", last.c_str(), problem.c_str()));
  vh::count("operations", ops);
  vh::count("files_and_directories_made", made);
  vh::count("descriptors_and_mappings_watched", watched);
  vh::count("process_states_compared", states);
  vh::count("operations_with_few_descriptors_left", scarce);
  vh::evaluated(sig, ops > 0);
  if (vh::want_sample()) vh::sample(fmt("case %llu: umask %03o, %llu operations%s, %llu files made, %llu looks at the caller's descriptors and mappings", (unsigned long long)idx, (unsigned)mask, (unsigned long long)ops, conc ? " in threads" : "", (unsigned long long)made, (unsigned long long)watched));
  vh::rm_tree(top);
}

// The first use of the library in a process, with its default limits.
static void fresh_case(Rng& r, uint64_t idx) {
  std::string top = vh::fresh_dir(fmt("fr-%llu", (unsigned long long)idx)), dir = top + "/work", listed = top + "/listed";
  for (auto& d : {dir, listed}) if (mkdir(d.c_str(), 0755) != 0) vh::broken("mkdir");
  for (int i = 0; i < 8; ++i) close(open((listed + fmt("/entry%d", i)).c_str(), O_CREAT | O_WRONLY, 0644));
  int p[2];
  if (pipe(p) != 0) vh::broken("pipe");
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    close(p[0]);
    setenv("TEST_TMPDIR", (top + "/td").c_str(), 1);
    mkdir((top + "/td").c_str(), 0700);
    struct rlimit lim;
    getrlimit(RLIMIT_NOFILE, &lim);
    static const rlim_t soft[] = {64, 100, 256, 1000};
    if (r.one_in(2)) { lim.rlim_cur = std::min(lim.rlim_max, soft[r.below(4)]); setrlimit(RLIMIT_NOFILE, &lim); }
    sigset_t m;
    sigemptyset(&m);
    if (r.one_in(2)) sigaddset(&m, SIGUSR1);
    pthread_sigmask(SIG_SETMASK, &m, nullptr);
    umask(r.one_in(2) ? 027 : 0);
    State before = observe(true);
    Hidden hid(r, listed);
    std::string what, last;
    {
      if (r.one_in(2)) { Env::Default(); last = "the first access to the environment"; }
      else { Ops o(dir); int n = (int)r.range(1, 6); for (int i = 0; i < n; ++i) last = o.step(r, true); }
    }
    std::string c = hid.changed();
    if (!c.empty()) what = "changed " + c;
    State now = observe(true);
    for (auto& x : before) if (what.empty() && now[x.first] != x.second) what = fmt("changed the %s from \"%s\" to \"%s\"", x.first.c_str(), x.second.substr(0, 150).c_str(), now[x.first].substr(0, 150).c_str());
    if (!what.empty()) what = last + ", first in the process: " + what;
    else what = "fine";
    ssize_t k = write(p[1], what.data(), what.size());
    (void)k;
    _exit(0);
  }
  close(p[1]);
  std::string got;
  char b[1000];
  ssize_t k;
  while ((k = read(p[0], b, sizeof b)) > 0) got.append(b, (size_t)k);
  close(p[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  if (got != "fine") vh::viol("global-state", got.empty() ? fmt("a process that just started to use the library ended with status %d", st) : got);
  vh::count("fresh_processes");
  vh::count("process_states_compared");
  vh::evaluated(vh::mix(r.next() ^ idx), true);
  if (vh::want_sample()) vh::sample(fmt("case %llu: first use in a process: %s", (unsigned long long)idx, got.c_str()));
  vh::rm_tree(top);
}

int main(int argc, char** argv) {
  vh::parse(argc, argv);
  if (vh::st().mode == "fresh") { vh::run_cases(fresh_case); return vh::finish(); }
  configure_posix();
  vh::run_cases(global_case);
  return vh::finish();
}
