// Interpreter for Ctx.tla: every frame (main program or coroutine body) executes the next command of one global script.
#include "drv.h"
#include <libcopp/coroutine/coroutine_context_container.h>
#include <libcopp/stack/stack_allocator.h>
#include <libcopp/utils/errno.h>
#include <condition_variable>
#include <map>
#include <mutex>
#include <thread>
using namespace drv;

static long g_stacks = 0, g_bad = 0;
struct CountingAlloc {
  CountingAlloc() {}
  static std::map<void *, size_t> &live() {
    static std::map<void *, size_t> m;
    return m;
  }
  void allocate(copp::stack_context &ctx, std::size_t size) noexcept {
    char *p = (char *)malloc(size);
    ctx.sp = p + size;
    ctx.size = size;
    live()[ctx.sp] = size;
    ++g_stacks;
  }
  void deallocate(copp::stack_context &ctx) noexcept {
    auto it = live().find(ctx.sp);
    if (it == live().end() || it->second != ctx.size) {
      ++g_bad;
      return;
    }
    char *p = (char *)ctx.sp - ctx.size;
    memset(p, 0xDB, ctx.size);
    free(p);
    live().erase(it);
    --g_stacks;
  }
};
using ctx_t = copp::coroutine_context_container<CountingAlloc>;
static const int N = 8;
static ctx_t::ptr_type h1[N], h2[N];
static ctx_t *raw_p[N];
static long priv_size[N];
static long g_fns = 0;
struct Boom {
  long x;
};

static long this_id() {
  auto *c = copp::this_coroutine::get_coroutine();
  if (!c) return 0;
  for (int i = 1; i < N; ++i)
    if (raw_p[i] == c) return i;
  return -1;
}
static long mem_ok() {
  if (g_bad) return 0;
  for (int i = 1; i < N; ++i)
    if (h1[i]) {
      if ((long)h1[i]->get_private_buffer_size() < priv_size[i]) return 0;
      unsigned char *p = (unsigned char *)h1[i]->get_private_buffer();
      for (long k = 0; k < priv_size[i]; ++k)
        if (p[k] != (unsigned char)(i * 37 + k)) return 0;
    }
  return 1;
}
// threads run one at a time
static const int NTMAX = 5;
static int g_nt = 1, g_cur = 1;
static long g_depth[NTMAX];
static bool g_end = false;
static std::mutex g_mu;
static std::condition_variable g_cv[NTMAX];
static __attribute__((noinline)) bool wait_turn(int my) {
  std::unique_lock<std::mutex> lk(g_mu);
  g_cv[my].wait(lk, [&] { return g_cur == my || g_end; });
  return g_cur == my && !g_end;
}
static __attribute__((noinline)) void pass_turn(int t) {
  std::lock_guard<std::mutex> lk(g_mu);
  g_cur = t;
  g_cv[t].notify_one();
}

static void obs(const char *op, long who, long rc, long x, long canary_ok = 1) {
  std::string s = fmt("\"op\":\"%s\",\"who\":%ld,\"th\":%d,\"rc\":%ld,\"x\":%ld,\"cur\":%ld,\"s\":[", op, who, g_cur, rc, x, this_id());
  // number of coroutine slots to report = arity of the spec
  extern long g_n;
  for (int i = 1; i <= g_n; ++i) {
    if (i > 1) s += ",";
    if (h1[i])
      s += fmt("[1,%d,%d,%d,%d]", h1[i]->is_finished() ? 1 : 0, h1[i]->get_ret_code(), (int)h1[i]->use_count(),
               (h1[i]->check_flags(256) ? 1 : 0) + (h1[i]->check_flags(512) ? 2 : 0));
    else
      s += "[0,0,0,0,0]";
  }
  s += fmt("],\"stacks\":%ld,\"fns\":%ld,\"mem\":%ld", g_stacks, g_fns, (long)(mem_ok() && canary_ok));
  ev_obs(s);
}
long g_n = 3;

static bool default_cmd(long who, Cmd &c);
static long frame(long who, void *arg);

struct Body {
  int id;
  explicit Body(int i) : id(i) { ++g_fns; }
  Body(const Body &o) : id(o.id) { ++g_fns; }
  Body(Body &&o) : id(o.id) { ++g_fns; }
  ~Body() { --g_fns; }
  int operator()(void *p) const { return (int)frame(id, p); }
};

struct PtrBody {
  int id;
  int operator()(void *p) const { return (int)frame(id, p); }
};
static PtrBody g_pb[N] = {{0}, {1}, {2}, {3}, {4}, {5}, {6}, {7}};
template <int I>
static int fn_body(void *p) {
  return (int)frame(I, p);
}
static int (*const g_fb[N])(void *) = {fn_body<0>, fn_body<1>, fn_body<2>, fn_body<3>,
                                       fn_body<4>, fn_body<5>, fn_body<6>, fn_body<7>};

// returns the return code of a body frame
static long frame(long who, void *arg) {
  volatile long canary[32];
  for (int i = 0; i < 32; ++i) canary[i] = who * 1000 + i;
  auto cok = [&]() -> long {
    for (int i = 0; i < 32; ++i)
      if (canary[i] != who * 1000 + i) return 0;
    return 1;
  };
  if (who) obs("enter", who, who, (long)(intptr_t)arg, cok());
  for (;;) {
    Cmd c;
    if (more())
      c = take();
    else if (!default_cmd(who, c))
      return 0;
    ev_cmd(c);
    const std::string &op = c.op;
    long i = c.at(0);
    if (op == "create") {
      // 0, 1: usable; 2: no room for the stack at all; 3: room for the objects but not for an aligned stack
      const long hdr = (long)copp::coroutine_context_base::align_address_size(sizeof(ctx_t));
      long edge = hdr + 16 + 16;
      while (edge % 64 == 0 || (edge + 16) % 64 == 0) edge += 16;
      const long st[] = {128 * 1024, 64 * 1024, 128, edge + 1};
      const long pv[] = {0, 72, 0, 16};
      const long cs[] = {0, 40, 128, edge - hdr - 16};
      long g = c.at(2);
      CountingAlloc al;
      priv_size[i] = 0;
      if (c.at(1) == 1)
        h1[i] = ctx_t::create(copp::coroutine_context::callback_type(Body((int)i)), al, st[g], pv[g], cs[g]);
      else if (c.at(1) == 2)
        h1[i] = ctx_t::create(&g_pb[i], al, st[g], pv[g], cs[g]);
      else if (c.at(1) == 3)
        h1[i] = ctx_t::create(g_fb[i], al, st[g], pv[g], cs[g]);
      else if (c.at(1) == 4)
        h1[i] = ctx_t::create((PtrBody *)nullptr, al, st[g], pv[g], cs[g]);
      else
        h1[i] = ctx_t::create(copp::coroutine_context::callback_type(), al, st[g], pv[g], cs[g]);
      raw_p[i] = h1[i].get();
      if (h1[i]) {
        priv_size[i] = pv[g];
        for (long k = 0; k < pv[g]; ++k) ((unsigned char *)h1[i]->get_private_buffer())[k] = (unsigned char)(i * 37 + k);
      }
      obs("ret", who, h1[i] ? 1 : 0, 0, cok());
    } else if (op == "setrun") {
      int r = c.at(1) ? h1[i]->set_runner(copp::coroutine_context::callback_type(Body((int)i)))
                      : h1[i]->set_runner(copp::coroutine_context::callback_type());
      obs("ret", who, r, 0, cok());
    } else if (op == "drive") {
      void *v = (void *)(intptr_t)c.at(1);
      long m = c.at(2), r = 0, x = 0;
      const int my = g_cur;
      ++g_depth[my];
      if (m % 2 == 0) {
        try {
          r = m < 2 ? h1[i]->start(v) : h1[i]->resume(v);
        } catch (Boom &b) {
          x = b.x;
        }
      } else {
        std::exception_ptr e;
        r = m < 2 ? h1[i]->start(e, v) : h1[i]->resume(e, v);
        if (e) {
          try {
            std::rethrow_exception(e);
          } catch (Boom &b) {
            x = b.x;
          }
        }
      }
      --g_depth[my];
      obs("ret", who, r, x, cok());
    } else if (op == "yield") {
      void *v = (void *)(intptr_t)-1;
      int r = h1[i]->yield(c.at(1) ? nullptr : &v);
      obs("yret", who, r, (long)(intptr_t)v, cok());
    } else if (op == "tyield") {
      void *v = (void *)(intptr_t)-1;
      int r = copp::this_coroutine::yield(c.at(0) ? nullptr : &v);
      obs("yret", who, r, (long)(intptr_t)v, cok());
    } else if (op == "flag") {
      int f = (c.at(1) & 1 ? 256 : 0) | (c.at(1) & 2 ? 512 : 0) | (c.at(2) ? 2 : 0);
      bool r = c.at(3) ? h1[i]->set_flags(f) : h1[i]->unset_flags(f);
      obs("ret", who, r, 0, cok());
    } else if (op == "switch") {
      const int my = g_cur;
      pass_turn((int)i);
      if (!wait_turn(my)) return 0;
      obs("ret", who, 0, 0, cok());
    } else if (op == "finish") {
      return c.at(0);
    } else if (op == "throw") {
      throw Boom{c.at(0)};
    } else if (op == "dup") {
      h2[i] = h1[i];
      obs("ret", who, 0, 0, cok());
    } else if (op == "drop") {
      if (h2[i])
        h2[i].reset();
      else
        h1[i].reset();
      if (!h1[i]) raw_p[i] = nullptr;
      obs("ret", who, 0, 0, cok());
    } else {
      ev_note("bad command");
      _exit(95);
    }
  }
}
static bool default_cmd(long who, Cmd &c) {
  if (who) {
    c.op = "finish";
    c.a = {7};
    return true;
  }
  int t = 0;
  for (int i = 1; i <= g_nt && !t; ++i)
    if (i != g_cur && g_depth[i]) t = i;
  if (!t && g_cur != 1) t = 1;
  if (t) {
    c.op = "switch";
    c.a = {t};
    return true;
  }
  for (int i = 1; i < N; ++i)
    if (h1[i]) {
      c.op = "drop";
      c.a = {i};
      return true;
    }
  return false;
}
static void worker(int t) {
  if (!wait_turn(t)) return;
  obs("ret", 0, 0, 0);
  frame(0, nullptr);
}
static void run_one() {
  g_bad = 0;
  g_cur = 1;
  g_end = false;
  std::vector<std::thread> ths;
  for (int t = 2; t <= g_nt; ++t) ths.emplace_back(worker, t);
  frame(0, nullptr);
  {
    std::lock_guard<std::mutex> lk(g_mu);
    g_end = true;
    for (auto &c : g_cv) c.notify_all();
  }
  for (auto &t : ths) t.join();
}
int main(int argc, char **argv) {
  if (argc > 3) g_n = atol(argv[3]);
  if (argc > 4) g_nt = atoi(argv[4]);
  return main_loop(argc, argv, run_one);
}
