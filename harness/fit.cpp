// Interpreter for Fit.tla: coroutines, tasks and raw contexts are made with all kinds of sizes on stacks with guard zones.
#include "drv.h"
#include "fixsys.h"
#include <libcopp/coroutine/coroutine_context_container.h>
#include <libcopp/stack/stack_allocator.h>
#include <libcopp/stack/stack_traits.h>
#include <libcotask/task.h>
#include <libcotask/this_task.h>
#include <map>
#include <set>
#include <utility>
using namespace drv;
static const size_t GUARD = 4096;
static const size_t SLACK = 8192;
static const int N = 6;
static int nslots;
static long g_live, g_tok, g_ran, g_bad, g_room = 1;
static std::map<char *, size_t> regions;  // sp -> size
static char *last_sp;
static std::map<char *, int> tags;  // sp -> which allocator
static char *region_new(size_t size) {
  char *p = (char *)malloc(size + 2 * GUARD);
  if (!p) return nullptr;
  memset(p, 0x5a, GUARD);
  memset(p + GUARD + size, 0x5a, GUARD);
  ++g_live;
  regions[p + GUARD + size] = size;
  return last_sp = p + GUARD + size;
}
static bool guards_ok(char *sp) {
  for (size_t i = 0; i < GUARD; ++i)
    if (sp[i] != 0x5a || sp[-(long)regions[sp] - 1 - (long)i] != 0x5a) return false;
  return true;
}
static void region_del(char *sp, size_t size) {
  auto it = regions.find(sp);
  if (it == regions.end() || it->second != size) {
    ++g_bad;
    return;
  }
  if (!guards_ok(sp)) ++g_bad;
  char *p = sp - size - GUARD;
  if (size <= (1 << 20)) memset(p, 0xDB, size + 2 * GUARD);
  regions.erase(it);
  free(p);
  --g_live;
}
struct Alloc {
  int mode = 0;
  int tag = 0;
  void allocate(copp::stack_context &ctx, std::size_t size) noexcept {
    ctx.sp = nullptr;
    ctx.size = 0;
    if (mode == 2) return;
    if (mode == 0 && size > (1 << 20) && size != copp::stack_traits::default_size()) return;
    if (mode == 1 && size > 24576) size = 24576;
    ctx.size = size;
    ctx.sp = region_new(size);
    tags[last_sp] = tag;
  }
  void deallocate(copp::stack_context &ctx) noexcept {
    if (tags[(char *)ctx.sp] != tag) ++g_bad;
    region_del((char *)ctx.sp, ctx.size);
  }
};
struct Macro {
  using stack_allocator_type = Alloc;
  using coroutine_type = copp::coroutine_context_container<Alloc>;
  using value_type = int;
};
using ctx_t = copp::coroutine_context_container<Alloc>;
using task_t = cotask::task<Macro>;
struct Raw : copp::coroutine_context {
  Raw() {}
};
struct Slot {
  int kind = 0;
  bool roomy = false, run = false;
  ctx_t::ptr_type c;
  task_t::ptr_type t;
  Raw *r = nullptr;
  size_t want = 0, extra = 0;
  char *sp = nullptr;
  std::set<int> fol;
};
static Slot *S;
struct Tok {
  Tok() { ++g_tok; }
  Tok(const Tok &) { ++g_tok; }
  Tok(Tok &&) { ++g_tok; }
  ~Tok() { --g_tok; }
};
static unsigned char pat(int i, size_t k) { return (unsigned char)(i * 53 + k * 7 + 1); }
static unsigned char *buf(int i, size_t *n) {
  Slot &s = S[i];
  copp::coroutine_context *c = s.r ? static_cast<copp::coroutine_context *>(s.r) : s.c.get();
  if (s.t) {
    *n = s.t->get_private_buffer_size();
    return (unsigned char *)s.t->get_private_buffer();
  }
  *n = c->get_private_buffer_size();
  return (unsigned char *)c->get_private_buffer();
}
static bool buf_ok(int i) {
  size_t n;
  unsigned char *p = buf(i, &n);
  if (n < S[i].want) return false;
  for (size_t k = 0; k < S[i].want; ++k)
    if (p[k] != pat(i, k)) return false;
  // the room before the object
  if (S[i].c)
    for (size_t k = 1; k <= S[i].extra; ++k)
      if (((unsigned char *)S[i].c.get())[-(long)k] != pat(i, k + 5)) return false;
  return true;
}
// a body: where is it, how much stack is left, and does writing all of it harm anything?
__attribute__((noinline)) static int body(int i) {
  Slot &s = S[i];
  char here;
  char *h = (char *)__builtin_frame_address(0);
  (void)here;
  char *lo = s.sp - regions[s.sp];
  if (h <= lo || h >= s.sp || (size_t)(h - lo) + s.want + s.extra + SLACK < regions[s.sp])
    g_room = 0;
  else
    for (char *p = lo; p < h - 3000; p += 16) *(volatile char *)p = (char)i;
  if (s.kind >= 4 && s.kind <= 6 && s.t && cotask::this_task::get_task() != s.t.get()) g_room = 0;
  s.run = true;
  ++g_ran;
  return 40 + i;
}
struct Fn {
  int i;
  Tok t;
  int operator()(void *) { return body(i); }
};
struct Act : cotask::impl::task_action_impl {
  int i;
  Tok t;
  explicit Act(int x) : i(x) {}
  int operator()(void *) override { return body(i); }
};
struct PtrBody {
  int i;
  int operator()(void *) { return body(i); }
};
static PtrBody pb[N] = {{0}, {1}, {2}, {3}, {4}, {5}};
template <int I>
static int plain(void *) {
  return body(I);
}
static int (*const fb[N])(void *) = {plain<0>, plain<1>, plain<2>, plain<3>, plain<4>, plain<5>};

static size_t dec(long v) { return v >= 500000000 ? ~(size_t)0 - (size_t)(v - 500000000) : (size_t)v; }
static void made(int i, int kind, size_t want, size_t extra, bool roomy) {
  Slot &s = S[i];
  s.kind = kind, s.want = want, s.extra = extra, s.roomy = roomy, s.run = false, s.sp = last_sp;
  size_t n;
  unsigned char *p = buf(i, &n);
  char *lo = s.sp - regions[s.sp];
  if (n < want || (want && ((char *)p < lo || (char *)p + n > s.sp))) {
    ev_note("private buffer outside of the stack");
    _exit(95);
  }
  for (size_t k = 0; k < want; ++k) p[k] = pat(i, k);
  if (s.c) {
    if ((char *)s.c.get() - extra < lo) {
      ev_note("room before the object outside of the stack");
      _exit(95);
    }
    for (size_t k = 1; k <= extra; ++k) ((unsigned char *)s.c.get())[-(long)k] = pat(i, k + 5);
  }
}
static void obs(long rc) {
  long b = 1, g = g_bad ? 0 : 1;
  for (int i = 1; i <= nslots; ++i)
    if (S[i].kind && !buf_ok(i)) b = 0;
  for (auto &r : regions)
    if (!guards_ok(r.first)) g = 0;
  ev_obs(fmt("\"op\":\"ret\",\"rc\":%ld,\"live\":%ld,\"tok\":%ld,\"ran\":%ld,\"buf\":%ld,\"grd\":%ld,\"room\":%ld", rc, g_live, g_tok, g_ran, b, g, g_room));
}
static bool held(int i) {
  for (int j = 1; j <= nslots; ++j)
    if (S[j].fol.count(i)) return true;
  return false;
}
static bool legal(const Cmd &c) {
  Slot &s = S[c.at(0)];
  if (c.op == "new" || c.op == "raw") return !s.kind;
  if (c.op == "run") return s.roomy && !s.run && !held((int)c.at(0));
  if (c.op == "then") return !s.kind && S[c.at(1)].t && S[c.at(1)].roomy;
  if (c.op == "drop") return s.kind && !held((int)c.at(0));
  return false;
}
static long roomy_size(int mode, size_t st) {
  if (mode == 2) return 0;
  if (st == 0) st = 65536;
  if (mode == 0) return st > (1 << 20) ? 0 : (long)st;
  return st > 24576 ? 24576 : (long)st;
}
static long raw_make(int i, int v) {
  Slot &s = S[i];
  size_t csz = (sizeof(Raw) + 63) & ~(size_t)63, priv = 128;
  if (v == 2 || v == 13) priv = 72, csz += 64;
  if (v == 3) priv = 0, csz += 4096;
  size_t off = copp::coroutine_context_base::align_stack_size(priv + csz);
  size_t size = v == 9 ? off : 65536;
  char *sp = region_new(size);
  char *p = sp - priv - ((sizeof(Raw) + 63) & ~(size_t)63);
  if (v == 2) p = sp - off;
  Raw *obj = new (p) Raw();
  copp::coroutine_context *arg = obj;
  copp::stack_context sc;
  sc.sp = sp;
  sc.size = size;
  size_t ac = csz, ap = priv;
  if (v == 4) ap = 100;
  if (v == 5) ac += 4;
  if (v == 6) ac = (sizeof(copp::coroutine_context) & ~(size_t)7) - 8;
  if (v == 7) arg = nullptr;
  if (v == 8) sc.sp = nullptr;
  if (v == 10) arg = (copp::coroutine_context *)sp;
  if (v == 11) arg = (copp::coroutine_context *)(sp + 64);
  if (v == 12) arg = (copp::coroutine_context *)(sp - sizeof(copp::coroutine_context) - priv + 16);
  if (v == 13) arg = (copp::coroutine_context *)(sp - off - 64);
  if (v == 14) ap = ~(size_t)63, ac += 256;
  if (v == 15) ac = ~(size_t)63;
  if (v == 16) ap = (size_t)1 << 40;
  if (v == 17) ap = 65536 - csz;
  int rc = copp::coroutine_context::create(arg, copp::coroutine_context::callback_type(Fn{i}), sc, ac, ap);
  if (rc != 0) {
    obj->~Raw();
    region_del(sp, size);
    return rc;
  }
  if (v > 3) {
    ev_note("impossible context made");
    _exit(95);
  }
  s.r = obj;
  made(i, 7, priv, csz, true);
  return rc;
}
static void drop(int i) {
  Slot &s = S[i];
  ctx_t::ptr_type c;
  task_t::ptr_type t;
  c.swap(s.c);
  t.swap(s.t);
  Raw *r = s.r;
  char *sp = s.sp;
  std::set<int> f;
  f.swap(s.fol);
  bool a = s.run;
  s = Slot();
  c.reset();
  t.reset();
  if (r) {
    r->~Raw();
    region_del(sp, regions[sp]);
  }
  (void)a;
}
static void exec(const Cmd &c) {
  if (!legal(c)) return;
  ev_cmd(c);
  int i = (int)c.at(0);
  Slot &s = S[i];
  long rc = 0;
  if (c.op == "new") {
    int k = (int)c.at(1);
    Alloc al;
    al.mode = (int)c.at(2);
    al.tag = 1 + i;
    size_t st = dec(c.at(3)), pv = dec(c.at(4)), ex = dec(c.at(5));
    if (k == 1) s.c = ctx_t::create(copp::coroutine_context::callback_type(Fn{i}), al, st, pv, ex);
    if (k == 2) s.c = ctx_t::create(&pb[i], al, st, pv, ex);
    if (k == 3) s.c = ctx_t::create(fb[i], al, st, pv, ex);
    if (k == 4) s.t = task_t::create(Fn{i}, al, st, pv);
    if (k == 5) s.t = task_t::create_with<Act>(al, st, pv, i);
    if (k == 6) s.t = task_t::create(fb[i], al, st, pv);
    if (s.c || s.t) {
      rc = 1;
      made(i, k, pv, ex, c.at(3) < 500000000 && c.at(4) + c.at(5) < 500000000 && roomy_size(al.mode, st) >= (long)(pv + ex + SLACK));
    }
  } else if (c.op == "raw") {
    rc = raw_make(i, (int)c.at(1));
  } else if (c.op == "run") {
    if (s.c)
      rc = s.c->start();
    else if (s.r)
      rc = s.r->start();
    else
      rc = s.t->start();
    s.fol.clear();
    for (int j = 1; j <= nslots; ++j)
      if (S[j].run) S[j].fol.clear();
    if (!s.run) rc = 777;
  } else if (c.op == "then") {
    int j = (int)c.at(1);
    Slot &l = S[j];
    last_sp = nullptr;
    // the follower may run right here: its stack is made before that
    s.roomy = true;
    s.want = l.want;
    struct Late {
      int i;
      Tok t;
      int operator()(void *) {
        if (!S[i].sp) S[i].sp = last_sp;
        return body(i);
      }
    };
    bool over = l.run;
    task_t::ptr_type r = l.t->then(Late{i});
    bool ran = s.run;
    if (r && r != l.t) {
      rc = 1;
      s.t = r;
      made(i, 4, l.want, 0, true);
      s.run = ran;
      if (regions[s.sp] != regions[l.sp] || tags[s.sp] != tags[l.sp]) rc = 778;
      if (!over) l.fol.insert(i);
    } else
      s = Slot();
  } else if (c.op == "drop") {
    bool active = !s.run;
    (void)active;
    drop(i);
    for (int j = 1; j <= nslots; ++j)
      if (S[j].run) S[j].fol.clear();
  }
  obs(rc);
}
int main(int argc, char **argv) {
  nslots = argc > 3 ? atoi(argv[3]) : 2;
  return main_loop(argc, argv, [] {
    g_live = g_tok = g_ran = g_bad = 0;
    g_room = 1;
    S = new Slot[N];
    while (more()) exec(take());
    for (int n = 0; n < nslots; ++n)
      for (int i = 1; i <= nslots; ++i) exec(parse(fmt("drop %d", i))[0]);
    delete[] S;
  });
}
