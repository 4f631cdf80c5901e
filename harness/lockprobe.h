// A helper process that tries file locks on request, as any other process would.
#ifndef LOCKPROBE_H_
#define LOCKPROBE_H_
#include <signal.h>
#include <sys/prctl.h>
#include <sys/wait.h>

#include "sysx.h"

struct LockProbe {
  int to = -1, from = -1;
  pid_t pid = -1;
  std::mutex mu;
  // Call before any thread is started.
  void start() {
    int a[2], b[2];
    if (pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC)) vh::broken("pipe");
    pid = fork();
    if (pid < 0) vh::broken("fork");
    if (pid == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      __real_close(a[1]);
      __real_close(b[0]);
      for (;;) {
        char path[600];
        ssize_t n = __real_read(a[0], path, sizeof path);
        if (n <= 0) _exit(0);
        char r = 'm';
        int fd = __real_open(path, O_RDWR);
        if (fd >= 0) {
          struct flock fl;
          memset(&fl, 0, sizeof fl);
          fl.l_type = F_WRLCK;
          fl.l_whence = SEEK_SET;
          r = __real_fcntl(fd, F_SETLK, &fl) == 0 ? 'f' : 'h';
          __real_close(fd);
        }
        if (__real_write(b[1], &r, 1) != 1) _exit(0);
      }
    }
    __real_close(a[0]);
    __real_close(b[1]);
    to = a[1];
    from = b[0];
  }
  // 'f': another process can lock it; 'h': it cannot; 'm': no such file.
  char ask(const std::string& path) {
    std::lock_guard<std::mutex> l(mu);
    char buf[600];
    memset(buf, 0, sizeof buf);
    if (path.size() >= sizeof buf) vh::broken("path too long");
    memcpy(buf, path.data(), path.size());
    if (__real_write(to, buf, sizeof buf) != (ssize_t)sizeof buf) vh::broken("prober gone");
    char r = 0;
    if (__real_read(from, &r, 1) != 1) vh::broken("prober gone");
    return r;
  }
};
#endif
