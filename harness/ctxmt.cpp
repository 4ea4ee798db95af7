// Interpreter for CtxMT.tla: coroutine contexts shared by several threads.
#include "mt.h"
#include <libcopp/coroutine/coroutine_context_container.h>
#include <libcopp/utils/errno.h>
#include <atomic>
#include <map>
using namespace drv;
static long NT = 2, N = 1;
static long g_stacks = 0;
static long g_fns = 0;
static const int NC = 4;
static void *g_sp[NC];  // whose stack
static char *g_mem[NC];
static const size_t STK = 64 * 1024, TOP = 8192;
struct OneAlloc {
  int id = 0;
  OneAlloc() {}
  explicit OneAlloc(int i) : id(i) {}
  void allocate(copp::stack_context &ctx, std::size_t size) noexcept {
    if (!g_mem[id]) g_mem[id] = (char *)malloc(STK);
    mt::Quiet q;
    mt::fresh(g_mem[id] + STK - TOP, TOP);
    ctx.sp = g_mem[id] + STK;
    ctx.size = STK;
    (void)size;
    g_sp[id] = ctx.sp;
    ++g_stacks;
  }
  void deallocate(copp::stack_context &ctx) noexcept {
    {
      mt::Quiet q;
      if (ctx.sp != g_sp[id] || ctx.size != STK) mt::die("a stack was given back that is not in use");
      g_sp[id] = nullptr;
      --g_stacks;
      mt::ev_obs(fmt("\"op\":\"of\",\"t\":%d,\"i\":%d", mt::self(), id));
    }
    mt::retire(g_mem[id] + STK - TOP, TOP);
  }
};
using ctx_t = copp::coroutine_context_container<OneAlloc>;
struct Slot {
  ctx_t::ptr_type p[mt::MAXT];
  ctx_t *raw = nullptr;
  long ny = 0, end = 0, nest = 0;
};
static Slot slots[NC];
struct Boom {
  int i;
};
static long cur() {
  auto *c = copp::this_coroutine::get_coroutine();
  if (!c) return 0;
  for (int i = 1; i < NC; ++i)
    if (slots[i].raw == c) return i;
  return -1;
}
static void call(int t, const char *op, long i, long u) { mt::ev_call(fmt("\"%s\",%d,%ld,%ld", op, t, i, u)); }
static void ret(int t, long rc, long x = 0) { mt::ev_obs(fmt("\"op\":\"ret\",\"t\":%d,\"rc\":%ld,\"x\":%ld,\"cur\":%ld", t, rc, x, cur())); }
static void start(int t, int i) {
  if (!slots[i].p[t]) return;
  call(t, "start", i, t);
  std::exception_ptr e;
  long x = 0;
  int r = t % 2 ? slots[i].p[t]->start(e, (void *)(intptr_t)t) : slots[i].p[t]->resume(e, (void *)(intptr_t)t);
  if (e) {
    mt::Quiet q;
    try {
      std::rethrow_exception(e);
    } catch (Boom &b) {
      x = b.i;
    }
    e = nullptr;
  }
  ret(t, r, x);
}
// the pieces are counted on the coroutine's own stack
static int body(int i, void *arg) {
  long k = 1;
  mt::ev_obs(fmt("\"op\":\"run\",\"t\":%d,\"i\":%d,\"k\":%ld,\"v\":%ld,\"cur\":%ld", mt::self(), i, k, (long)(intptr_t)arg, cur()));
  if (slots[i].nest) start(mt::self(), (int)slots[i].nest);
  for (; k <= slots[i].ny;) {
    mt::ev_obs(fmt("\"op\":\"leave\",\"t\":%d,\"i\":%d,\"how\":0", mt::self(), i));
    void *v = (void *)(intptr_t)-1;
    int r = copp::this_coroutine::yield(&v);
    ++k;
    mt::ev_obs(fmt("\"op\":\"run\",\"t\":%d,\"i\":%d,\"k\":%ld,\"v\":%ld,\"cur\":%ld", mt::self(), i, k, r ? -1000 : (long)(intptr_t)v, cur()));
  }
  mt::ev_obs(fmt("\"op\":\"leave\",\"t\":%d,\"i\":%d,\"how\":%ld", mt::self(), i, 1 + slots[i].end));
  if (slots[i].end) throw Boom{i};
  return 40 + i;
}
struct Body {
  int id;
  char pad[32];
  explicit Body(int i) : id(i) { count(1); }
  Body(const Body &o) : id(o.id) { count(1); }
  Body(Body &&o) : id(o.id) { count(1); }
  ~Body() { count(-1); }
  static void count(int d) {
    mt::Quiet q;
    g_fns += d;
  }
  int operator()(void *p) const { return body(id, p); }
};
static void drop(int t, int i, int u) {
  if (!slots[i].p[u]) return;
  call(t, "drop", i, u);
  slots[i].p[u].reset();
  ret(t, 0);
}
static void exec(int t, const Cmd &c) {
  const std::string &o = c.op;
  int i = (int)c.at(0);
  if (o == "create") {
    slots[i].ny = c.at(2);
    slots[i].end = c.at(3);
    slots[i].nest = c.at(4);
    mt::ev_call(fmt("\"create\",0,%d,%ld,%ld,%ld,%ld", i, c.at(1), c.at(2), c.at(3), c.at(4)));
    OneAlloc a(i);
    auto p = c.at(1) ? ctx_t::create(copp::coroutine_context::callback_type(Body(i)), a, STK) : ctx_t::create(copp::coroutine_context::callback_type(), a, STK);
    if (!p) mt::die("create failed");
    slots[i].raw = p.get();
    for (int u = 0; u <= NT; ++u) slots[i].p[u] = p;
    ret(0, 1);
  } else if (o == "start") {
    start(t, i);
  } else if (o == "drop") {
    drop(t, i, t);
  } else if (slots[i].p[t]) {
    ctx_t *p = slots[i].p[t].get();
    call(t, o.c_str(), i, t);
    if (o == "setrun")
      ret(t, p->set_runner(copp::coroutine_context::callback_type(Body(i))));
    else if (o == "fin")
      ret(t, p->is_finished());
    else if (o == "code")
      ret(t, p->is_finished() ? p->get_ret_code() : -2);
  }
}
int main(int argc, char **argv) {
  if (argc > 8) NT = atol(argv[8]);
  if (argc > 9) N = atol(argv[9]);
  mt::Harness h;
  h.setup = [] {
    g_stacks = 0;
    g_fns = 0;
  };
  h.exec = exec;
  h.ready = [] {};
  h.end = [](int) {};
  h.finish = [] {
    for (int i = 1; i <= N; ++i)
      for (int u = NT; u >= 0; --u) drop(0, i, u);
    mt::Quiet q;
    mt::ev_obs(fmt("\"op\":\"end\",\"stacks\":%ld,\"fns\":%ld", g_stacks, g_fns));
    for (auto &s : slots) s = Slot();
  };
  return mt::main_loop(argc, argv, h);
}
