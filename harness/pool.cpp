// Interpreter for Pool.tla: one stack pool in front of a recording origin allocator.
#include "drv.h"
#include "fixsys.h"
#include <libcopp/stack/stack_pool.h>
#include <libcopp/stack/allocator/stack_allocator_malloc.h>
#include <libcopp/stack/allocator/stack_allocator_pool.h>
#include <libcopp/stack/allocator/stack_allocator_posix.h>
#include <libcopp/stack/stack_traits.h>
#include <map>
using namespace drv;
static long UNIT = 65536;
static const long PAGE = 4096;

struct Origin {
  std::map<int, std::pair<char *, size_t>> live;  // id -> low address, size
  std::string log;
  int mode = 0;
  bool fail = false;
  int id_of(char *p) {
    for (auto &e : live)
      if (e.second.first == p) return e.first;
    return 0;
  }
  void note(const char *k, long a, long b) {
    if (!log.empty()) log += ",";
    log += fmt("[\"%s\",%ld,%ld]", k, a, b);
  }
};
static Origin O;
static copp::allocator::stack_allocator_posix real_posix;
static copp::allocator::stack_allocator_malloc real_malloc;

struct RecAlloc {
  void allocate(copp::stack_context &ctx, std::size_t size) noexcept {
    if (O.fail) {
      O.note("f", 0, (long)size);
      ctx.sp = nullptr;
      return;
    }
    if (O.mode == 3)
      real_posix.allocate(ctx, size);
    else if (O.mode == 4)
      real_malloc.allocate(ctx, size);
    else {
      size_t given = size;
      if (O.mode == 1) given = size + PAGE;
      if (O.mode == 2)
        for (given = UNIT; given < size;) given *= 2;
      char *p = (char *)malloc(given);
      ctx.size = given;
      ctx.sp = p + given;
    }
    int id = 1;
    while (O.live.count(id)) ++id;
    O.live[id] = {(char *)ctx.sp - ctx.size, ctx.size};
    O.note("a", id, (long)size);
  }
  void deallocate(copp::stack_context &ctx) noexcept {
    char *p = (char *)ctx.sp - ctx.size;
    int id = O.id_of(p);
    O.note("d", id, (long)ctx.size);
    if (!id) {
      ev_note("the pool gave back a stack it does not have");
      _exit(95);
    }
    O.live.erase(id);
    if (O.mode == 3)
      real_posix.deallocate(ctx);
    else if (O.mode == 4)
      real_malloc.deallocate(ctx);
    else
      free(p);
  }
};
using Pool = copp::stack_pool<RecAlloc>;
using Handle = copp::allocator::stack_allocator_pool<Pool>;
struct Slot {
  std::unique_ptr<Handle> h;
  copp::stack_context ctx;
};
static std::shared_ptr<Pool> pool;
static std::weak_ptr<Pool> wpool;
static long cfg_known[6];
static Slot slots[16];
static long nslots = 3;

static size_t usable_low(const copp::stack_context &c) { return O.mode == 3 ? PAGE : 0; }
static void fill(int i) {
  char *lo = (char *)slots[i].ctx.sp - slots[i].ctx.size;
  for (size_t k = usable_low(slots[i].ctx); k < slots[i].ctx.size; k += 512) lo[k] = (char)(i * 31 + k / 512);
  lo[slots[i].ctx.size - 1] = (char)(i + 7);
}
static bool intact(int i) {
  char *lo = (char *)slots[i].ctx.sp - slots[i].ctx.size;
  for (size_t k = usable_low(slots[i].ctx); k < slots[i].ctx.size; k += 512)
    if (lo[k] != (char)(i * 31 + k / 512)) return false;
  return lo[slots[i].ctx.size - 1] == (char)(i + 7);
}
static void obs(long rc) {
  auto p = wpool.lock();
  std::string s = fmt("\"op\":\"ret\",\"rc\":%ld,\"log\":[", rc) + O.log + "],\"lim\":[";
  O.log.clear();
  if (p) {
    auto &l = p->get_limit();
    s += fmt("%zu,%zu,%zu,%zu],\"conf\":[%zu,%zu,%zu,%zu,%zu,%zu]", l.used_stack_number, l.used_stack_size, l.free_stack_number, l.free_stack_size,
             p->get_stack_size(), p->get_max_stack_number(), p->get_max_stack_size(), p->get_min_stack_number(), p->get_min_stack_size(),
             p->get_gc_once_number());
  } else
    s += "0,0,0,0],\"conf\":[0,0,0,0,0,0]";
  long ok = 1;
  for (int i = 1; i <= nslots; ++i)
    if (slots[i].h && !intact(i)) ok = 0;
  s += fmt(",\"out\":%zu,\"mem\":%ld", O.live.size(), ok);
  ev_obs(s);
}
static size_t bytes(long v) { return (size_t)(v > 100 ? (v - 100) * UNIT - 1 : v * UNIT); }

static bool legal(const Cmd &c) {
  if (c.op == "new") return wpool.expired();
  if (c.op == "alloc") return pool && !slots[c.at(0)].h;
  if (c.op == "free") return (bool)slots[c.at(0)].h;
  return (bool)pool;
}
static void exec(const Cmd &c) {
  if (!legal(c)) return;
  ev_cmd(c);
  long i = c.at(0);
  if (c.op == "new") {
    O.mode = (int)i;
    pool = Pool::create();
    wpool = pool;
    obs(0);
  } else if (c.op == "alloc") {
    O.fail = c.at(1) == 1;
    auto &s = slots[i];
    s.h.reset(new Handle(pool));
    s.ctx = copp::stack_context();
    s.h->allocate(s.ctx, 77);
    O.fail = false;
    long id = 0;
    if (s.ctx.sp) {
      id = O.id_of((char *)s.ctx.sp - s.ctx.size);
      if (!id || O.live[id].second != s.ctx.size) {
        ev_note("the pool handed out memory it does not own");
        _exit(95);
      }
      fill((int)i);
    } else
      s.h.reset();
    obs(id);
  } else if (c.op == "free") {
    auto &s = slots[i];
    s.h->deallocate(s.ctx);
    s.h.reset();
    s.ctx = copp::stack_context();
    obs(0);
  } else if (c.op == "gc")
    obs((long)pool->gc());
  else if (c.op == "clear") {
    pool->clear();
    obs(0);
  } else if (c.op == "size") {
    obs((long)pool->set_stack_size((size_t)(i * UNIT)));
  } else if (c.op == "set") {
    long v = c.at(1);
    if (i == 1) pool->set_max_stack_number((size_t)v);
    if (i == 2) pool->set_max_stack_size(bytes(v));
    if (i == 3) pool->set_min_stack_number((size_t)v);
    if (i == 4) pool->set_min_stack_size(bytes(v));
    if (i == 5) pool->set_auto_gc(v != 0);
    if (i == 6) pool->set_gc_once_number((size_t)v);
    obs(i == 5 && pool->is_auto_gc() != (v != 0));
  } else if (c.op == "drop") {
    pool.reset();
    obs(0);
  }
}
int main(int argc, char **argv) {
  if (argc > 3) nslots = atol(argv[3]);
  if (argc > 4) UNIT = atol(argv[4]);
  return main_loop(argc, argv, [] {
    while (more()) exec(take());
    // teardown, as commands of its own
    auto run = [](const char *t) {
      for (auto &c : parse(t)) exec(c);
    };
    if (script.size() % 2 && pool) run("drop");
    for (int i = 1; i <= nslots; ++i) run(fmt("free %d", i).c_str());
    run("drop");
  });
}
