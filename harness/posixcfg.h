// Limits of the default environment; set from the mode name "name:<mmaps>:<fds>".
#ifndef POSIXCFG_H_
#define POSIXCFG_H_
#include "util/env_posix_test_helper.h"
#include <sys/resource.h>
#include "vh.h"
namespace lsmdb {
class EnvPosixTest {
 public:
  static void Limits(int mm, int fd) {
    EnvPosixTestHelper::SetReadOnlyFDLimit(fd);
    EnvPosixTestHelper::SetReadOnlyMMapLimit(mm);
  }
};
}  // namespace lsmdb
static int g_mm = 1000, g_fd = 1000;
static std::string g_mode;  // mode without the limits
static inline void configure_posix() {
  g_mode = vh::st().mode;
  size_t p = g_mode.find(':');
  if (p != std::string::npos) {
    if (sscanf(g_mode.c_str() + p, ":%d:%d", &g_mm, &g_fd) != 2) vh::broken("bad limits in " + g_mode);
    g_mode.resize(p);
  }
  if (g_mode == "limdef") {
    // The documented defaults, under this descriptor limit of the process.
    struct rlimit rl;
    if (getrlimit(RLIMIT_NOFILE, &rl) != 0) vh::broken("getrlimit");
    rl.rlim_cur = (rlim_t)g_fd;
    if (setrlimit(RLIMIT_NOFILE, &rl) != 0) vh::broken("setrlimit");
    g_mm = 1000;
    g_fd /= 5;
    return;
  }
  lsmdb::EnvPosixTest::Limits(g_mm, g_fd);
}
#endif
