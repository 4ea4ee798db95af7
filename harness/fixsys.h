// Fixes what the library reads about the machine, so that sizes do not depend on where the check runs.
#pragma once
#include <dlfcn.h>
#include <sys/resource.h>
#include <unistd.h>
static long fix_minsigstksz = 20000;
static unsigned long fix_stack_limit = ~0ul;
extern "C" long sysconf(int name) noexcept {
  if (name == 249 || name == 250) return fix_minsigstksz;
  static long (*real)(int) = (long (*)(int))dlsym(RTLD_NEXT, "sysconf");
  return real(name);
}
