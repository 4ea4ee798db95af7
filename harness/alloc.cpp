// Interpreter for Alloc.tla: the stack allocators, with every stack filled, probed and compared.
#include "drv.h"
#include "fixsys.h"
#include <errno.h>
#include <libcopp/stack/allocator/stack_allocator_malloc.h>
#include <libcopp/stack/allocator/stack_allocator_memory.h>
#include <libcopp/stack/allocator/stack_allocator_posix.h>
#include <libcopp/stack/stack_context.h>
#include <libcopp/stack/stack_traits.h>
#include <sanitizer/asan_interface.h>
#include <memory>
using namespace drv;
extern "C" int getrlimit(__rlimit_resource_t r, struct rlimit *l) noexcept {
  if (r == RLIMIT_STACK) {
    l->rlim_cur = l->rlim_max = fix_stack_limit;
    return 0;
  }
  static int (*real)(__rlimit_resource_t, struct rlimit *) = (int (*)(__rlimit_resource_t, struct rlimit *))dlsym(RTLD_NEXT, "getrlimit");
  return real(r, l);
}
static const size_t PAGE = 4096;
static long nslots, nmems;
static const size_t block_size[] = {0, 65536, 30000, 20480, 20000, 10000, 131073};
static const size_t GUARD = 4096;
static char *block_mem[7];
static copp::allocator::stack_allocator_posix ap;
static copp::allocator::stack_allocator_malloc am;
using Mem = copp::allocator::stack_allocator_memory;
static std::unique_ptr<Mem> mems[8];
struct Slot {
  int kind = 0, m = 0, b = 0;
  copp::stack_context ctx;
  size_t usable = 0;
} slots[8];
// mirror of which object holds which block, for the driver's own legality checks
static int mst[8], musd[8];

static int pfd[2];
// the raw system call: an inaccessible byte gives EFAULT
static ssize_t syscall_write(const void *p) {
  long r;
  __asm__ volatile("syscall" : "=a"(r) : "a"(1L), "D"((long)pfd[1]), "S"(p), "d"(1L) : "rcx", "r11", "memory");
  return r;
}
static bool readable(const void *p) {
  char c;
  ssize_t r = syscall_write(p);
  if (r == 1) {
    if (read(pfd[0], &c, 1) != 1) _exit(94);
    return true;
  }
  return false;
}
static unsigned char pat(int s, size_t k) { return (unsigned char)(s * 41 + k / 64 + 1); }
static char *low(const Slot &s) { return (char *)s.ctx.sp - s.usable; }
static void fill(int i) {
  Slot &s = slots[i];
  for (size_t k = 0; k < s.usable; k += 64) low(s)[k] = (char)pat(i, k);
  low(s)[s.usable - 1] = (char)(i + 3);
}
static bool intact(int i) {
  Slot &s = slots[i];
  for (size_t k = 0; k < s.usable; k += 64)
    if (k != s.usable - 1 && (unsigned char)low(s)[k] != pat(i, k)) return false;
  return low(s)[s.usable - 1] == (char)(i + 3);
}
static void make_blocks() {
  for (int b = 1; b <= 6; ++b) {
    if (!block_mem[b]) block_mem[b] = (char *)aligned_alloc(PAGE, (block_size[b] + 2 * GUARD + PAGE - 1) / PAGE * PAGE) + GUARD;
    memset(block_mem[b] - GUARD, 0x5a, block_size[b] + 2 * GUARD);
  }
}
static bool guards_ok() {
  for (int b = 1; b <= 6; ++b) {
    for (size_t k = 0; k < GUARD; k += 8)
      if (block_mem[b][-(long)GUARD + (long)k] != 0x5a || block_mem[b][block_size[b] + k] != 0x5a) return false;
  }
  return true;
}
static size_t request(long r) {
  if (r == 7) return ~(size_t)0;
  if (r == 8) return ~(size_t)0 - 4096;
  return (size_t)r;
}
static void obs(long ok, size_t sz, bool al, bool dis, bool rel) {
  bool mem = guards_ok();
  for (int i = 1; i <= nslots; ++i)
    if (slots[i].kind && !intact(i)) mem = false;
  size_t mx = copp::stack_traits::is_unbounded() ? 0 : copp::stack_traits::maximum_size();
  if (copp::stack_traits::is_unbounded() && copp::stack_traits::maximum_size() < (size_t(1) << 40)) mx = 1;
  ev_obs(fmt("\"op\":\"ret\",\"ok\":%ld,\"sz\":%zu,\"al\":%d,\"dis\":%d,\"rel\":%d,\"mem\":%d,\"traits\":[%zu,%zu,%zu],\"dsz\":%zu", ok, sz, al, dis, rel, mem,
             copp::stack_traits::minimum_size(), mx, copp::stack_traits::page_size(), copp::stack_traits::default_size()));
}
static int home(const Slot &s) {
  for (int m = 1; m <= nmems; ++m)
    if (mems[m] && mst[m] == s.b && musd[m]) return m;
  return 0;
}
static bool block_free(int b) {
  for (int m = 1; m <= nmems; ++m)
    if (mems[m] && mst[m] == b) return false;
  for (int i = 1; i <= nslots; ++i)
    if (slots[i].kind == 3 && slots[i].b == b) return false;
  return true;
}
static bool legal(const Cmd &c) {
  int a = (int)c.at(0), b = (int)c.at(1);
  if (c.op == "get") return !slots[a].kind && (b != 3 || mems[c.at(2)]);
  if (c.op == "put") return slots[a].kind && (slots[a].kind != 3 || home(slots[a]));
  if (c.op == "forget") return slots[a].kind == 3 && !home(slots[a]);
  if (c.op == "mnew") return !mems[a] && (!b || block_free(b));
  if (c.op == "mattach") return mems[a] && block_free(b);
  if (c.op == "mcopy" || c.op == "mmove") return !mems[a] && mems[b];
  if (c.op == "mdel") return (bool)mems[a];
  return mems[a] && mems[b];
}
static void exec(const Cmd &c) {
  if (!legal(c)) return;
  ev_cmd(c);
  int a = (int)c.at(0), b = (int)c.at(1), m = (int)c.at(2);
  if (c.op == "get") {
    Slot &s = slots[a];
    s.ctx = copp::stack_context();
    s.ctx.size = 12345;
    size_t rq = request(c.at(3));
    if (b == 1)
      ap.allocate(s.ctx, rq);
    else if (b == 2)
      am.allocate(s.ctx, rq);
    else
      mems[m]->allocate(s.ctx, rq);
    if (!s.ctx.sp) {
      obs(0, 0, true, true, true);
      return;
    }
    char *hi = (char *)s.ctx.sp, *lo = hi - s.ctx.size;
    bool al = (uintptr_t)hi % 16 == 0, dis = true;
    s.kind = b;
    s.usable = s.ctx.size;
    if (b == 3) {
      s.m = m;
      s.b = mst[m];
      musd[m] = 1;
      // inside its block
      dis = s.b > 0 && lo >= block_mem[s.b] && hi <= block_mem[s.b] + block_size[s.b];
    }
    if (b == 1) {
      // everything but a low guard area must be accessible
      al = al && (uintptr_t)lo % PAGE == 0 && s.ctx.size % PAGE == 0;
      size_t g = 0;
      while (g < s.ctx.size && !readable(lo + g)) g += PAGE;
      s.usable = s.ctx.size - g;
      if (g == 0) dis = false;  // nothing stops an overflow
      for (size_t k = g; k < s.ctx.size; k += PAGE)
        if (!readable(lo + k)) al = false;
    }
    if (b == 2 && __asan_region_is_poisoned(lo, s.ctx.size)) {
      ev_note("stack outside of allocated memory");
      _exit(95);
    }
    for (int i = 1; i <= nslots; ++i)
      if (i != a && slots[i].kind) {
        char *h2 = (char *)slots[i].ctx.sp, *l2 = h2 - slots[i].ctx.size;
        if (lo < h2 && l2 < hi) dis = false;
      }
    if (dis || b == 1) fill(a);
    obs(1, s.usable, al, dis, true);
    return;
  }
  bool rel = true;
  if (c.op == "put") {
    Slot &s = slots[a];
    int k = s.kind;
    char *hi = (char *)s.ctx.sp, *lo = hi - s.ctx.size;
    size_t sz = s.ctx.size;
    if (k == 1) ap.deallocate(s.ctx);
    if (k == 2) am.deallocate(s.ctx);
    if (k == 3) {
      int h = home(s);
      mems[h]->deallocate(s.ctx);
      musd[h] = 0;
    }
    s = Slot();
    if (k == 1)
      for (size_t g = 0; g < sz; g += PAGE) rel = rel && !readable(lo + g);
    if (k == 2)
      for (size_t g = 0; g < sz; g += 64) rel = rel && __asan_address_is_poisoned(lo + g);
    obs(0, 0, true, true, rel);
    return;
  }
  if (c.op == "forget")
    slots[a] = Slot();
  else if (c.op == "mnew") {
    if (b)
      mems[a].reset(new Mem(block_mem[b], block_size[b]));
    else
      mems[a].reset(new Mem());
    mst[a] = b, musd[a] = 0;
  } else if (c.op == "mattach") {
    mems[a]->attach(block_mem[b], block_size[b]);
    mst[a] = b, musd[a] = 0;
  } else if (c.op == "mcopy" || c.op == "mmove") {
    if (c.op == "mcopy")
      mems[a].reset(new Mem(*mems[b]));
    else
      mems[a].reset(new Mem(std::move(*mems[b])));
    mst[a] = musd[a] = 0;
    if (!musd[b]) std::swap(mst[a], mst[b]);
  } else if (c.op == "mset" || c.op == "mmset" || c.op == "mswap") {
    if (c.op == "mset")
      *mems[a] = *mems[b];
    else if (c.op == "mmset")
      *mems[a] = std::move(*mems[b]);
    else
      mems[a]->swap(*mems[b]);
    if (a != b && (c.op == "mswap" || !musd[b])) std::swap(mst[a], mst[b]), std::swap(musd[a], musd[b]);
  } else if (c.op == "mdel") {
    mems[a].reset();
    mst[a] = -1;
    musd[a] = 0;
  }
  obs(0, 0, true, true, true);
}
int main(int argc, char **argv) {
  nslots = argc > 3 ? atol(argv[3]) : 2;
  nmems = argc > 4 ? atol(argv[4]) : 2;
  if (argc > 5 && atol(argv[5])) fix_stack_limit = (unsigned long)atol(argv[5]);
  if (pipe(pfd)) return 2;
  return main_loop(argc, argv, [] {
    make_blocks();
    while (more()) exec(take());
    for (int i = 1; i <= nslots; ++i) exec(parse(fmt("put %d", i))[0]);
    for (int i = 1; i <= nslots; ++i) exec(parse(fmt("forget %d", i))[0]);
    for (int i = 1; i <= nmems; ++i) exec(parse(fmt("mdel %d", i))[0]);
  });
}
