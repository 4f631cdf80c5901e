// Interposed system calls (linked with -Wl,--wrap=...).  On threads that set
// t_traced, every call is shown to a hook, which may let it pass, make it
// fail, shorten it, redirect its path or act before or after it.
#ifndef SYSX_H_
#define SYSX_H_

#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

#include <functional>
#include <set>
#include <string>

#include "vh.h"

namespace sysx {

struct Call {
  const char* name;
  int fd = -1;
  const char* path = nullptr;
  const char* path2 = nullptr;
  size_t n = 0;
  int flags = 0;
  const void* addr = nullptr;
  // decided by the hook before the call
  bool fail = false;       // do not perform (close, munmap, closedir: perform, then report failure)
  int err = 0;
  size_t limit = (size_t)-1;  // perform at most this many bytes
  bool replaced = false;      // the hook has done a write itself; its result:
  long value = 0;
  std::string redirect, redirect2;
  // seen by the hook after the call
  off_t off = -1;  // of a positioned transfer
  long result = 0;
  int errno_after = 0;
};

typedef void (*HookFn)(Call&, bool after);
static std::atomic<HookFn> g_hook{nullptr};
static thread_local int t_traced = 0;
static thread_local int t_depth = 0;

struct Traced {
  // A call must not depend on what errno happens to hold.
  Traced() {
    static thread_local unsigned k;
    static const int v[] = {0, EINTR, ENOENT, EIO, EAGAIN, EBADF, ENOSPC, EEXIST};
    ++t_traced;
    errno = v[++k & 7];
  }
  ~Traced() { --t_traced; }
};

inline bool on() { return t_traced > 0 && t_depth == 0 && g_hook.load(std::memory_order_relaxed) != nullptr; }
inline void before(Call& c) {
  ++t_depth;
  g_hook.load()(c, false);
  --t_depth;
}
inline void after(Call& c, long r, int e) {
  c.result = r;
  c.errno_after = e;
  ++t_depth;
  g_hook.load()(c, true);
  --t_depth;
}

}  // namespace sysx

extern "C" {
int __real_open(const char*, int, ...);
int __real_openat(int, const char*, int, ...);
int __real_creat(const char*, mode_t);
int __real_close(int);
ssize_t __real_read(int, void*, size_t);
ssize_t __real_pread(int, void*, size_t, off_t);
ssize_t __real_pread64(int, void*, size_t, off64_t);
ssize_t __real_readv(int, const struct iovec*, int);
ssize_t __real_write(int, const void*, size_t);
ssize_t __real_pwrite(int, const void*, size_t, off_t);
ssize_t __real_pwrite64(int, const void*, size_t, off64_t);
ssize_t __real_writev(int, const struct iovec*, int);
int __real_fsync(int);
int __real_fdatasync(int);
int __real_syncfs(int);
off_t __real_lseek(int, off_t, int);
off64_t __real_lseek64(int, off64_t, int);
int __real_stat(const char*, struct stat*);
int __real_lstat(const char*, struct stat*);
int __real_fstat(int, struct stat*);
int __real_access(const char*, int);
void* __real_mmap(void*, size_t, int, int, int, off_t);
int __real_munmap(void*, size_t);
int __real_rename(const char*, const char*);
int __real_unlink(const char*);
int __real_remove(const char*);
int __real_mkdir(const char*, mode_t);
int __real_rmdir(const char*);
DIR* __real_opendir(const char*);
DIR* __real_fdopendir(int);
struct dirent* __real_readdir(DIR*);
int __real_closedir(DIR*);
int __real_fcntl(int, int, ...);
int __real_ftruncate(int, off_t);
int __real_dup(int);
FILE* __real_fdopen(int, const char*);
FILE* __real_fopen(const char*, const char*);
int __real_mkdirat(int, const char*, mode_t);
int __real_unlinkat(int, const char*, int);
int __real_renameat(int, const char*, int, const char*);
int __real_renameat2(int, const char*, int, const char*, unsigned);
int __real_faccessat(int, const char*, int, int);
int __real_fstatat(int, const char*, struct stat*, int);
int __real_euidaccess(const char*, int);
int __real_eaccess(const char*, int);
int __real_truncate(const char*, off_t);
int __real_dup3(int, int, int);
int __real_dup2(int, int);
ssize_t __real_preadv(int, const struct iovec*, int, off_t);
ssize_t __real_pwritev(int, const struct iovec*, int, off_t);

#define SYSX_PRE(nm)              \
  sysx::Call c;                   \
  c.name = nm
#define SYSX_FAIL(bad)            \
  do {                            \
    sysx::before(c);              \
    if (c.fail) {                 \
      sysx::after(c, -1, c.err);  \
      errno = c.err;              \
      return bad;                 \
    }                             \
  } while (0)
#define SYSX_DONE(expr, as_long)  \
  auto r = (expr);                \
  int e = errno;                  \
  sysx::after(c, as_long, e);     \
  errno = e;                      \
  return r

int __wrap_open(const char* p, int fl, ...) {
  va_list ap;
  va_start(ap, fl);
  mode_t m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0;
  va_end(ap);
  if (!sysx::on()) return __real_open(p, fl, m);
  SYSX_PRE("open");
  c.path = p;
  c.flags = fl;
  SYSX_FAIL(-1);
  SYSX_DONE(__real_open(c.redirect.empty() ? p : c.redirect.c_str(), fl, m), r);
}
int __wrap_openat(int d, const char* p, int fl, ...) {
  va_list ap;
  va_start(ap, fl);
  mode_t m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0;
  va_end(ap);
  if (!sysx::on()) return __real_openat(d, p, fl, m);
  SYSX_PRE("open");
  c.path = p;
  c.flags = fl;
  SYSX_FAIL(-1);
  SYSX_DONE(__real_openat(d, c.redirect.empty() ? p : c.redirect.c_str(), fl, m), r);
}
int __wrap_creat(const char* p, mode_t m) {
  if (!sysx::on()) return __real_creat(p, m);
  SYSX_PRE("open");
  c.path = p;
  c.flags = O_CREAT | O_WRONLY | O_TRUNC;
  SYSX_FAIL(-1);
  SYSX_DONE(__real_creat(c.redirect.empty() ? p : c.redirect.c_str(), m), r);
}
int __wrap_close(int fd) {
  if (!sysx::on()) return __real_close(fd);
  SYSX_PRE("close");
  c.fd = fd;
  sysx::before(c);
  int r = __real_close(fd);  // a failing close still releases the descriptor
  int e = errno;
  if (c.fail) r = -1, e = c.err;
  sysx::after(c, r, e);
  errno = e;
  return r;
}
ssize_t __wrap_read(int fd, void* b, size_t n) {
  if (!sysx::on()) return __real_read(fd, b, n);
  SYSX_PRE("read");
  c.fd = fd;
  c.n = n;
  c.addr = b;
  SYSX_FAIL(-1);
  SYSX_DONE(__real_read(fd, b, n < c.limit ? n : c.limit), r);
}
ssize_t __wrap_readv(int fd, const struct iovec* v, int k) {
  if (!sysx::on()) return __real_readv(fd, v, k);
  SYSX_PRE("read");
  c.fd = fd;
  SYSX_FAIL(-1);
  SYSX_DONE(__real_readv(fd, v, k), r);
}
ssize_t __wrap_pread(int fd, void* b, size_t n, off_t o) {
  if (!sysx::on()) return __real_pread(fd, b, n, o);
  SYSX_PRE("pread");
  c.fd = fd;
  c.n = n;
  c.addr = b;
  SYSX_FAIL(-1);
  SYSX_DONE(__real_pread(fd, b, n < c.limit ? n : c.limit, o), r);
}
ssize_t __wrap_pread64(int fd, void* b, size_t n, off64_t o) { return __wrap_pread(fd, b, n, o); }
ssize_t __wrap_write(int fd, const void* b, size_t n) {
  if (!sysx::on()) return __real_write(fd, b, n);
  SYSX_PRE("write");
  c.fd = fd;
  c.n = n;
  c.addr = b;
  SYSX_FAIL(-1);
  if (c.replaced) { SYSX_DONE(c.value, r); }
  SYSX_DONE(__real_write(fd, b, n < c.limit ? n : c.limit), r);
}
ssize_t __wrap_pwrite(int fd, const void* b, size_t n, off_t o) {
  if (!sysx::on()) return __real_pwrite(fd, b, n, o);
  SYSX_PRE("write");
  c.fd = fd;
  c.n = n;
  c.addr = b;
  c.off = o;
  SYSX_FAIL(-1);
  if (c.replaced) { SYSX_DONE(c.value, r); }
  SYSX_DONE(__real_pwrite(fd, b, n < c.limit ? n : c.limit, o), r);
}
ssize_t __wrap_pwrite64(int fd, const void* b, size_t n, off64_t o) { return __wrap_pwrite(fd, b, n, o); }
ssize_t __wrap_writev(int fd, const struct iovec* v, int k) {
  if (!sysx::on()) return __real_writev(fd, v, k);
  SYSX_PRE("write");
  c.fd = fd;
  for (int i = 0; i < k; ++i) c.n += v[i].iov_len;
  SYSX_FAIL(-1);
  if (c.limit < c.n) {
    std::string all;
    for (int i = 0; i < k; ++i) all.append((const char*)v[i].iov_base, v[i].iov_len);
    SYSX_DONE(__real_write(fd, all.data(), c.limit), r);
  }
  SYSX_DONE(__real_writev(fd, v, k), r);
}
#define SYSX_FD(nm, label)                     \
  int __wrap_##nm(int fd) {                    \
    if (!sysx::on()) return __real_##nm(fd);   \
    SYSX_PRE(label);                           \
    c.fd = fd;                                 \
    SYSX_FAIL(-1);                             \
    SYSX_DONE(__real_##nm(fd), r);             \
  }
SYSX_FD(fsync, "fsync")
SYSX_FD(fdatasync, "fsync")
int __wrap_syncfs(int fd) {
  if (!sysx::on()) return __real_syncfs(fd);
  SYSX_PRE("fsync");
  c.fd = fd;
  c.flags = 1;  // everything on that file system
  SYSX_FAIL(-1);
  SYSX_DONE(__real_syncfs(fd), r);
}
SYSX_FD(dup, "dup")
int __wrap_dup3(int fd, int to, int fl) {
  if (!sysx::on()) return __real_dup3(fd, to, fl);
  SYSX_PRE("dup");
  c.fd = fd;
  SYSX_FAIL(-1);
  SYSX_DONE(__real_dup3(fd, to, fl), r);
}
ssize_t __wrap_preadv(int fd, const struct iovec* v, int k, off_t o) {
  if (!sysx::on()) return __real_preadv(fd, v, k, o);
  SYSX_PRE("pread");
  c.fd = fd;
  SYSX_FAIL(-1);
  SYSX_DONE(__real_preadv(fd, v, k, o), r);
}
ssize_t __wrap_pwritev(int fd, const struct iovec* v, int k, off_t o) {
  if (!sysx::on()) return __real_pwritev(fd, v, k, o);
  SYSX_PRE("write");
  c.fd = fd;
  c.off = o;
  for (int i = 0; i < k; ++i) c.n += v[i].iov_len;
  SYSX_FAIL(-1);
  SYSX_DONE(__real_pwritev(fd, v, k, o), r);
}
off_t __wrap_lseek(int fd, off_t o, int w) {
  if (!sysx::on()) return __real_lseek(fd, o, w);
  SYSX_PRE("lseek");
  c.fd = fd;
  SYSX_FAIL(-1);
  SYSX_DONE(__real_lseek(fd, o, w), r);
}
off64_t __wrap_lseek64(int fd, off64_t o, int w) { return __wrap_lseek(fd, o, w); }
#define SYSX_STAT(nm)                                  \
  int __wrap_##nm(const char* p, struct stat* s) {     \
    if (!sysx::on()) return __real_##nm(p, s);         \
    SYSX_PRE("stat");                                  \
    c.path = p;                                        \
    SYSX_FAIL(-1);                                     \
    SYSX_DONE(__real_##nm(c.redirect.empty() ? p : c.redirect.c_str(), s), r); \
  }
SYSX_STAT(stat)
SYSX_STAT(lstat)
int __wrap_fstat(int fd, struct stat* s) {
  if (!sysx::on()) return __real_fstat(fd, s);
  SYSX_PRE("fstat");
  c.fd = fd;
  SYSX_FAIL(-1);
  SYSX_DONE(__real_fstat(fd, s), r);
}
int __wrap_access(const char* p, int m) {
  if (!sysx::on()) return __real_access(p, m);
  SYSX_PRE("access");
  c.path = p;
  SYSX_FAIL(-1);
  SYSX_DONE(__real_access(c.redirect.empty() ? p : c.redirect.c_str(), m), r);
}
void* __wrap_mmap(void* a, size_t n, int pr, int fl, int fd, off_t o) {
  if (!sysx::on()) return __real_mmap(a, n, pr, fl, fd, o);
  SYSX_PRE("mmap");
  c.fd = fd;
  c.n = n;
  c.flags = fl;
  SYSX_FAIL(MAP_FAILED);
  void* r = __real_mmap(a, n, pr, fl, fd, o);
  int e = errno;
  c.addr = r;
  sysx::after(c, r == MAP_FAILED ? -1 : 0, e);
  errno = e;
  return r;
}
int __wrap_munmap(void* a, size_t n) {
  if (!sysx::on()) return __real_munmap(a, n);
  SYSX_PRE("munmap");
  c.addr = a;
  c.n = n;
  sysx::before(c);
  int r = __real_munmap(a, n);
  int e = errno;
  sysx::after(c, r, e);
  errno = e;
  return r;
}
int __wrap_rename(const char* a, const char* b) {
  if (!sysx::on()) return __real_rename(a, b);
  SYSX_PRE("rename");
  c.path = a;
  c.path2 = b;
  SYSX_FAIL(-1);
  SYSX_DONE(__real_rename(c.redirect.empty() ? a : c.redirect.c_str(), c.redirect2.empty() ? b : c.redirect2.c_str()), r);
}
#define SYSX_PATH(nm)                              \
  int __wrap_##nm(const char* p) {                 \
    if (!sysx::on()) return __real_##nm(p);        \
    SYSX_PRE(#nm);                                 \
    c.path = p;                                    \
    SYSX_FAIL(-1);                                 \
    SYSX_DONE(__real_##nm(c.redirect.empty() ? p : c.redirect.c_str()), r); \
  }
SYSX_PATH(unlink)
SYSX_PATH(remove)
SYSX_PATH(rmdir)
int __wrap_mkdir(const char* p, mode_t m) {
  if (!sysx::on()) return __real_mkdir(p, m);
  SYSX_PRE("mkdir");
  c.path = p;
  SYSX_FAIL(-1);
  SYSX_DONE(__real_mkdir(c.redirect.empty() ? p : c.redirect.c_str(), m), r);
}
// The variants relative to a directory are reported under the plain names.
#define SYSX_AT(p) (c.redirect.empty() ? p : c.redirect.c_str())
int __wrap_mkdirat(int d, const char* p, mode_t m) {
  if (!sysx::on()) return __real_mkdirat(d, p, m);
  SYSX_PRE("mkdir");
  c.path = p;
  SYSX_FAIL(-1);
  SYSX_DONE(__real_mkdirat(d, SYSX_AT(p), m), r);
}
int __wrap_unlinkat(int d, const char* p, int fl) {
  if (!sysx::on()) return __real_unlinkat(d, p, fl);
  SYSX_PRE((fl & AT_REMOVEDIR) ? "rmdir" : "unlink");
  c.path = p;
  SYSX_FAIL(-1);
  SYSX_DONE(__real_unlinkat(d, SYSX_AT(p), fl), r);
}
int __wrap_renameat(int d, const char* a, int d2, const char* b) {
  if (!sysx::on()) return __real_renameat(d, a, d2, b);
  SYSX_PRE("rename");
  c.path = a;
  c.path2 = b;
  SYSX_FAIL(-1);
  SYSX_DONE(__real_renameat(d, SYSX_AT(a), d2, c.redirect2.empty() ? b : c.redirect2.c_str()), r);
}
int __wrap_renameat2(int d, const char* a, int d2, const char* b, unsigned fl) {
  if (!sysx::on()) return __real_renameat2(d, a, d2, b, fl);
  SYSX_PRE("rename");
  c.path = a;
  c.path2 = b;
  SYSX_FAIL(-1);
  SYSX_DONE(__real_renameat2(d, SYSX_AT(a), d2, c.redirect2.empty() ? b : c.redirect2.c_str(), fl), r);
}
int __wrap_faccessat(int d, const char* p, int m, int fl) {
  if (!sysx::on()) return __real_faccessat(d, p, m, fl);
  SYSX_PRE("access");
  c.path = p;
  SYSX_FAIL(-1);
  SYSX_DONE(__real_faccessat(d, SYSX_AT(p), m, fl), r);
}
int __wrap_euidaccess(const char* p, int m) {
  if (!sysx::on()) return __real_euidaccess(p, m);
  SYSX_PRE("access");
  c.path = p;
  SYSX_FAIL(-1);
  SYSX_DONE(__real_euidaccess(SYSX_AT(p), m), r);
}
int __wrap_eaccess(const char* p, int m) { return __wrap_euidaccess(p, m); }
int __wrap_fstatat(int d, const char* p, struct stat* s, int fl) {
  if (!sysx::on()) return __real_fstatat(d, p, s, fl);
  SYSX_PRE((*p == 0 && (fl & AT_EMPTY_PATH)) ? "fstat" : "stat");
  if (*p) c.path = p; else c.fd = d;
  SYSX_FAIL(-1);
  SYSX_DONE(__real_fstatat(d, SYSX_AT(p), s, fl), r);
}
int __wrap_truncate(const char* p, off_t n) {
  if (!sysx::on()) return __real_truncate(p, n);
  SYSX_PRE("ftruncate");
  c.path = p;
  SYSX_FAIL(-1);
  SYSX_DONE(__real_truncate(SYSX_AT(p), n), r);
}
DIR* __wrap_opendir(const char* p) {
  if (!sysx::on()) return __real_opendir(p);
  SYSX_PRE("opendir");
  c.path = p;
  SYSX_FAIL(nullptr);
  SYSX_DONE(__real_opendir(c.redirect.empty() ? p : c.redirect.c_str()), r ? 0 : -1);
}
DIR* __wrap_fdopendir(int fd) {
  if (!sysx::on()) return __real_fdopendir(fd);
  SYSX_PRE("opendir");
  c.fd = fd;
  SYSX_FAIL(nullptr);
  SYSX_DONE(__real_fdopendir(fd), r ? 0 : -1);
}
struct dirent* __wrap_readdir(DIR* d) {
  if (!sysx::on()) return __real_readdir(d);
  int e0 = errno;
  SYSX_PRE("readdir");
  sysx::before(c);
  if (c.fail) {
    sysx::after(c, -1, c.err);
    errno = c.err;
    return nullptr;
  }
  errno = e0;
  struct dirent* r = __real_readdir(d);
  int e = errno;
  sysx::after(c, 0, e);
  errno = e;
  return r;
}
int __wrap_closedir(DIR* d) {
  if (!sysx::on()) return __real_closedir(d);
  SYSX_PRE("closedir");
  sysx::before(c);
  int r = __real_closedir(d);
  int e = errno;
  if (c.fail) r = -1, e = c.err;
  sysx::after(c, r, e);
  errno = e;
  return r;
}
int __wrap_fcntl(int fd, int cmd, ...) {
  va_list ap;
  va_start(ap, cmd);
  void* arg = va_arg(ap, void*);
  va_end(ap);
  if (!sysx::on()) return __real_fcntl(fd, cmd, arg);
  SYSX_PRE("fcntl");
  c.fd = fd;
  c.flags = cmd;
  c.addr = arg;
  SYSX_FAIL(-1);
  SYSX_DONE(__real_fcntl(fd, cmd, arg), r);
}
int __wrap_ftruncate(int fd, off_t n) {
  if (!sysx::on()) return __real_ftruncate(fd, n);
  SYSX_PRE("ftruncate");
  c.fd = fd;
  SYSX_FAIL(-1);
  SYSX_DONE(__real_ftruncate(fd, n), r);
}
FILE* __wrap_fdopen(int fd, const char* m) {
  if (!sysx::on()) return __real_fdopen(fd, m);
  SYSX_PRE("fdopen");
  c.fd = fd;
  SYSX_FAIL(nullptr);
  SYSX_DONE(__real_fdopen(fd, m), r ? 0 : -1);
}
FILE* __wrap_fopen(const char* p, const char* m) {
  if (!sysx::on()) return __real_fopen(p, m);
  SYSX_PRE("open");
  c.path = p;
  SYSX_FAIL(nullptr);
  SYSX_DONE(__real_fopen(c.redirect.empty() ? p : c.redirect.c_str(), m), r ? 0 : -1);
}
int __wrap_dup2(int fd, int to) {
  if (!sysx::on()) return __real_dup2(fd, to);
  SYSX_PRE("dup");
  c.fd = fd;
  SYSX_FAIL(-1);
  SYSX_DONE(__real_dup2(fd, to), r);
}
// The 64-bit names (the same calls on this platform).
int __wrap_open64(const char* p, int fl, ...) {
  va_list ap;
  va_start(ap, fl);
  mode_t m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0;
  va_end(ap);
  return __wrap_open(p, fl, m);
}
int __wrap_openat64(int d, const char* p, int fl, ...) {
  va_list ap;
  va_start(ap, fl);
  mode_t m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0;
  va_end(ap);
  return __wrap_openat(d, p, fl, m);
}
int __wrap_creat64(const char* p, mode_t m) { return __wrap_creat(p, m); }
void* __wrap_mmap64(void* a, size_t n, int pr, int fl, int fd, off64_t o) { return __wrap_mmap(a, n, pr, fl, fd, o); }
int __wrap_stat64(const char* p, struct stat* s) { return __wrap_stat(p, s); }
int __wrap_lstat64(const char* p, struct stat* s) { return __wrap_lstat(p, s); }
int __wrap_fstat64(int fd, struct stat* s) { return __wrap_fstat(fd, s); }
int __wrap_fstatat64(int d, const char* p, struct stat* s, int fl) { return __wrap_fstatat(d, p, s, fl); }
struct dirent* __wrap_readdir64(DIR* d) { return __wrap_readdir(d); }
FILE* __wrap_fopen64(const char* p, const char* m) { return __wrap_fopen(p, m); }
int __wrap_ftruncate64(int fd, off64_t n) { return __wrap_ftruncate(fd, n); }
int __wrap_truncate64(const char* p, off64_t n) { return __wrap_truncate(p, n); }
ssize_t __wrap_preadv64(int fd, const struct iovec* v, int k, off64_t o) { return __wrap_preadv(fd, v, k, o); }
ssize_t __wrap_pwritev64(int fd, const struct iovec* v, int k, off64_t o) { return __wrap_pwritev(fd, v, k, o); }
}

namespace sysx {
inline std::string slurp(const std::string& p, bool* ok = nullptr) {
  std::string s;
  int fd = __real_open(p.c_str(), O_RDONLY);
  if (ok) *ok = fd >= 0;
  if (fd < 0) return s;
  char b[65536];
  ssize_t n;
  while ((n = __real_read(fd, b, sizeof b)) > 0) s.append(b, (size_t)n);
  __real_close(fd);
  return s;
}
inline void spit(const std::string& p, const std::string& d) {
  int fd = __real_open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (fd < 0) vh::broken("cannot write " + p);
  size_t o = 0;
  while (o < d.size()) {
    ssize_t n = __real_write(fd, d.data() + o, d.size() - o);
    if (n <= 0) vh::broken("cannot write " + p);
    o += (size_t)n;
  }
  __real_close(fd);
}
// Open descriptors of this process, by target.
inline std::multiset<std::string> open_files() {
  std::multiset<std::string> r;
  DIR* d = __real_opendir("/proc/self/fd");
  if (!d) return r;
  int self = dirfd(d);
  while (dirent* e = __real_readdir(d)) {
    int fd = atoi(e->d_name);
    if (e->d_name[0] == '.' || fd == self) continue;
    char b[512];
    ssize_t n = readlink(("/proc/self/fd/" + std::string(e->d_name)).c_str(), b, sizeof b);
    // (A sanitizer's own thread may have something under /proc open for a moment.)
    if (n > 0 && strncmp(b, "/proc/", 6) != 0) r.insert(std::string(b, (size_t)n));
  }
  __real_closedir(d);
  return r;
}
// Calls must not depend on what errno happens to hold.
inline void stir_errno(vh::Rng& r) {
  static const int v[] = {0, EINTR, ENOENT, EIO, EAGAIN, EBADF, ENOSPC, EEXIST};
  errno = v[r.below(8)];
}
// While alive (and wanted), descriptor 0 is free, so that a file may get it.
struct FdZero {
  bool on;
  explicit FdZero(bool want) : on(want) { if (on) __real_close(0); }
  ~FdZero() {
    if (!on) return;
    // (When something leaked it, the descriptor count tells.)
    int fd = __real_open("/dev/null", O_RDONLY);
    if (fd > 0) __real_close(fd);
  }
};
// While alive (and wanted), this thread runs as an unprivileged user.
struct AsUser {
  bool on;
  explicit AsUser(bool want) : on(want) {
    if (on && (syscall(SYS_setresgid, 65534, 65534, 0) != 0 || syscall(SYS_setresuid, 65534, 65534, 0) != 0)) vh::broken("setresuid");
  }
  ~AsUser() {
    int e = errno;
    if (on && (syscall(SYS_setresuid, 0, 0, 0) != 0 || syscall(SYS_setresgid, 0, 0, 0) != 0)) vh::broken("setresuid back");
    errno = e;
  }
};
}  // namespace sysx
#endif
