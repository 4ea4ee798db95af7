// Interpreter for PoolMT.tla: one stack pool, several threads, a recording origin allocator.
#include "mt.h"
#include <libcopp/stack/allocator/stack_allocator_pool.h>
#include <libcopp/stack/stack_pool.h>
#include <libcopp/stack/stack_traits.h>
#include "fixsys.h"
#include <map>
using namespace drv;
static const long UNIT = 24576;
static long NT = 2, K = 2;
struct Origin {
  std::map<int, std::pair<char *, size_t>> live;
  int id_of(char *p) {
    for (auto &e : live)
      if (e.second.first == p) return e.first;
    return 0;
  }
};
static Origin O;
struct RecAlloc {
  void allocate(copp::stack_context &ctx, std::size_t size) noexcept {
    char *p = (char *)malloc(size);
    ctx.size = size;
    ctx.sp = p + size;
    mt::Quiet q;
    int id = 1;
    while (O.live.count(id)) ++id;
    O.live[id] = {p, size};
    mt::ev_obs(fmt("\"op\":\"oa\",\"t\":%d,\"id\":%d,\"b\":%ld", mt::self(), id, (long)(size / UNIT)));
  }
  void deallocate(copp::stack_context &ctx) noexcept {
    char *p = (char *)ctx.sp - ctx.size;
    {
      mt::Quiet q;
      int id = O.id_of(p);
      if (!id || O.live[id].second != ctx.size) mt::die("the pool gave back a stack it does not have");
      O.live.erase(id);
      mt::ev_obs(fmt("\"op\":\"of\",\"t\":%d,\"id\":%d", mt::self(), id));
    }
    free(p);
  }
};
using Pool = copp::stack_pool<RecAlloc>;
using Handle = copp::allocator::stack_allocator_pool<Pool>;
struct Slot {
  std::unique_ptr<Handle> h;
  copp::stack_context ctx;
  char pad[64];
};
static Slot slots[32];
struct Ref {
  std::shared_ptr<Pool> p;
  char pad[64];
};
static Ref refs[8];
static void call(int t, const char *op, long a) { mt::ev_call(fmt("\"%s\",%d,%ld", op, t, a)); }
static void ret(int t, long rc) { mt::ev_obs(fmt("\"op\":\"ret\",\"t\":%d,\"rc\":%ld", t, rc)); }
static char *low(Slot &s) { return (char *)s.ctx.sp - s.ctx.size; }
static void alloc(int t, int i) {
  Slot &s = slots[i];
  call(t, "alloc", i);
  s.h.reset(new Handle(refs[t].p));
  s.ctx = copp::stack_context();
  s.h->allocate(s.ctx, 77);
  long id = 0;
  if (s.ctx.sp) {
    {
      mt::Quiet q;
      id = O.id_of(low(s));
      if (!id || O.live[id].second != s.ctx.size) mt::die("the pool handed out memory it does not own");
    }
    *(long *)low(s) = i;
    *(long *)((char *)s.ctx.sp - 8) = i + 100;
  } else
    s.h.reset();
  ret(t, id);
}
static void give(int t, int i) {
  Slot &s = slots[i];
  call(t, "free", i);
  if (*(long *)low(s) != i || *(long *)((char *)s.ctx.sp - 8) != i + 100) mt::die("the stack was used by somebody else");
  s.h->deallocate(s.ctx);
  s.h.reset();
  s.ctx = copp::stack_context();
  ret(t, 0);
}
static int find(int t, bool used) {
  for (int i = K * (t - 1) + 1; i <= K * t; ++i)
    if ((bool)slots[i].h == used) return i;
  return 0;
}
static void exec(int t, const Cmd &c) {
  const std::string &o = c.op;
  Pool *p = refs[t].p.get();
  if (o == "free") {
    if (int i = find(t, true)) give(t, i);
    return;
  }
  if (!p) return;
  if (o == "alloc") {
    if (int i = find(t, false)) alloc(t, i);
  } else if (o == "gc") {
    call(t, "gc", 0);
    ret(t, (long)p->gc());
  } else if (o == "clear") {
    call(t, "clear", 0);
    p->clear();
    ret(t, 0);
  } else if (o == "size") {
    call(t, "size", c.at(0));
    ret(t, (long)(p->set_stack_size((size_t)(c.at(0) * UNIT)) / UNIT));
  } else if (o == "drop") {
    call(t, "drop", t);
    refs[t].p.reset();
    ret(t, 0);
  } else if (o == "set") {
    long w = c.at(0), v = c.at(1);
    mt::ev_call(fmt("\"set\",0,[%ld,%ld]", w, v));
    if (w == 1) p->set_max_stack_number((size_t)v);
    if (w == 2) p->set_max_stack_size((size_t)(v * UNIT));
    if (w == 3) p->set_min_stack_number((size_t)v);
    if (w == 5) p->set_auto_gc(v != 0);
    if (w == 6) p->set_gc_once_number((size_t)v);
    ret(0, 0);
  } else if (o == "fill") {  // v stacks for every thread
    for (int u = 1; u <= NT; ++u)
      for (int i = K * (u - 1) + 1, k = 0; i <= K * u && k < c.at(0); ++i, ++k)
        if (!slots[i].h) alloc(0, i);
  } else if (o == "give") {  // and back
    for (int u = 1; u <= NT; ++u)
      for (int k = 0; k < c.at(0); ++k)
        if (int i = find(u, true)) give(0, i);
  }
}
int main(int argc, char **argv) {
  if (argc > 8) NT = atol(argv[8]);
  if (argc > 9) K = atol(argv[9]);
  mt::Harness h;
  h.setup = [] {
    auto p = Pool::create();
    p->set_stack_size(UNIT);
    for (int t = 0; t <= NT; ++t) refs[t].p = p;
  };
  h.exec = exec;
  h.finish = [] {
    Pool *p = nullptr;
    for (int t = 0; t <= NT; ++t)
      if (refs[t].p) p = refs[t].p.get();
    if (p) {
      auto &l = p->get_limit();
      mt::ev_obs(fmt("\"op\":\"lim\",\"lim\":[%zu,%ld,%zu,%ld]", l.used_stack_number, (long)(l.used_stack_size / UNIT), l.free_stack_number,
                     (long)(l.free_stack_size / UNIT)));
    }
    for (int i = 1; i <= K * NT; ++i)
      if (slots[i].h) give(0, i);
    for (int t = 0; t <= NT; ++t)
      if (refs[t].p) {
        call(0, "drop", t);
        refs[t].p.reset();
        ret(0, 0);
      }
    mt::Quiet q;
    mt::ev_obs(fmt("\"op\":\"end\",\"out\":%zu", O.live.size()));
    O.live.clear();
  };
  return mt::main_loop(argc, argv, h);
}
