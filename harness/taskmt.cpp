// Interpreter for TaskMT.tla: stackful tasks and their managers used by several threads.
#include "mt.h"
#include "fixsys.h"
#include <libcotask/task.h>
#include <libcotask/task_manager.h>
using namespace drv;
static const int MT_ = mt::MAXT, MN = 5, MM = 3;
static long NT = 2, N = 2, NM = 0;
static const size_t SLAB = 65536, TOP = 4096;
static char *slabs = nullptr;
static int slot = 0;  // the task being created
struct Alloc {
  int i = 0;
  void allocate(copp::stack_context &ctx, std::size_t size) noexcept;
  void deallocate(copp::stack_context &ctx) noexcept;
};
struct Macro {
  using stack_allocator_type = Alloc;
  using coroutine_type = copp::coroutine_context_container<Alloc>;
  using value_type = int;
};
using task_t = cotask::task<Macro>;
using mgr_t = cotask::task_manager<task_t>;
struct Handle {
  task_t::ptr_type p;
  char pad[56];
};
static Handle h[MT_][MN];
static task_t *rawp[MN];
static uint64_t ids[MN];
static bool gone[MN];
static long left_[MN];
static int live;
static mgr_t::ptr_type mg[MM];
static Cmd bop[MN];
static bool bop_set[MN], bop_done[MN];

void Alloc::allocate(copp::stack_context &ctx, std::size_t size) noexcept {
  if (size > SLAB) mt::die("stack size");
  char *p = slabs + SLAB * (size_t)slot;
  i = slot;
  ctx.sp = p + SLAB;
  ctx.size = size;
  mt::fresh(p + SLAB - TOP, TOP);
  ++live;
}
void Alloc::deallocate(copp::stack_context &ctx) noexcept {
  int k = (int)(((char *)ctx.sp - slabs) / SLAB) - 1;
  {
    mt::Quiet q;
    if (k < 1 || k > N || gone[k]) mt::die("a stack was given back twice");
    gone[k] = true;
    --live;
    mt::ev_obs(fmt("\"op\":\"del\",\"t\":%d,\"i\":%d", mt::self(), k));
  }
  mt::retire(slabs + SLAB * (size_t)(k + 1) - TOP, TOP);
}
static void call(const char *op, const std::vector<long> &a) {
  std::string s = "[";
  for (long x : a) s += (s.size() > 1 ? "," : "") + std::to_string(x);
  mt::ev_call(fmt("\"%s\",%d,", op, mt::self()) + s + "]");
}
static void ret(long rc) { mt::ev_obs(fmt("\"op\":\"ret\",\"t\":%d,\"rc\":%ld", mt::self(), rc)); }
static void exec(int t, const Cmd &c);
static void seen(const char *op, int i) { mt::ev_obs(fmt("\"op\":\"%s\",\"t\":%d,\"i\":%d", op, mt::self(), i)); }
static void in(int i, void *d) { mt::ev_obs(fmt("\"op\":\"in\",\"t\":%d,\"i\":%d,\"d\":%ld", mt::self(), i, (long)d)); }
struct Act : public cotask::impl::task_action_impl {
  int i;
  explicit Act(int k) : i(k) {}
  Act(const Act &o) : i(o.i) {}
  int operator()(void *d) override {
    in(i, d);
    if (bop_set[i] && !bop_done[i]) {
      bop_done[i] = true;
      exec(mt::self(), bop[i]);
    }
    while (left_[i] > 0) {
      --left_[i];
      seen("yd", i);
      void *p = nullptr;
      task_t::this_task()->yield(&p);
      if (task_t::this_task() != rawp[i]) mt::die("a body runs as another task");
      in(i, p);
    }
    seen("be", i);
    return 7;
  }
  int on_finished(cotask::impl::task_impl &x) override {
    if (&x != rawp[i]) mt::die("the completion of another task");
    seen("fin", i);
    return 0;
  }
  bool is_completed() const noexcept { return false; }
};
static void exec(int t, const Cmd &c) {
  const std::string &o = c.op;
  void *d;
  long a0 = c.at(0), a1 = c.at(1), a2 = c.at(2), a3 = c.at(3);
  if (o.compare(0, 2, "b_") == 0) {
    bop[a0] = c;
    bop[a0].op = o.substr(2);
    bop[a0].a.erase(bop[a0].a.begin());
    bop_set[a0] = true;
    return;
  }
  if (o == "set") {
    call("set", {a0, a1});
    left_[a0] = a1;
    ret(0);
    return;
  }
  if (o[0] == 'm') {
    mgr_t *m = mg[a0].get();
    if (!m) return;
    if (o == "madd") {
      if (!h[t][a1].p) return;
      call("madd", {a0, a1, a2});
      ret(m->add_task(h[t][a1].p, a2, 0));
    } else if (o == "mset") {
      call("mset", {a0, a1, a2});
      ret(m->set_timeout(ids[a1], a2, 0));
    } else if (o == "mrem") {
      call("mrem", {a0, a1});
      ret(m->remove_task(ids[a1]));
    } else if (o == "mstart" || o == "mresume") {
      call(o.c_str(), {a0, a1, a2});
      d = (void *)a2;
      ret(o == "mstart" ? m->start(ids[a1], d) : m->resume(ids[a1], d));
    } else if (o == "mcancel") {
      call("mcancel", {a0, a1, a2});
      ret(m->cancel(ids[a1], (void *)a2));
    } else if (o == "mkill") {
      call("mkill", {a0, a1, a2, a3});
      ret(m->kill(ids[a1], (cotask::EN_TASK_STATUS)a3, (void *)a2));
    } else if (o == "mtick") {
      call("mtick", {a0, a1});
      ret(m->tick((time_t)a1, 0));
    } else if (o == "mreset") {
      call("mreset", {a0});
      m->reset();
      ret(0);
    }
    return;
  }
  task_t::ptr_type &p = h[t][a0].p;
  if (!p) return;
  d = (void *)a1;
  if (o == "start") {
    call("start", {a0, a1});
    ret(p->start(d));
  } else if (o == "resume") {
    call("resume", {a0, a1});
    ret(p->resume(d));
  } else if (o == "cancel") {
    call("cancel", {a0, a1});
    ret(p->cancel(d));
  } else if (o == "kill") {
    call("kill", {a0, a1, a2});
    ret(p->kill((cotask::EN_TASK_STATUS)a2, d));
  } else if (o == "next") {
    if (!h[t][a2].p) return;
    call("next", {a0, a1, a2});
    if (p->next(h[t][a2].p, d).get() != rawp[a2]) mt::die("next() returned another task");
    ret(0);
  } else if (o == "status") {
    call("status", {a0});
    ret(p->get_status());
  } else if (o == "drop") {
    call("drop", {a0, t});
    p.reset();
    ret(0);
  }
}
static void drop_of_main(int i) {
  if (!h[0][i].p) return;
  call("drop", {i, 0});
  h[0][i].p.reset();
  ret(0);
}
int main(int argc, char **argv) {
  if (argc > 8) NT = atol(argv[8]);
  if (argc > 9) N = atol(argv[9]);
  if (argc > 10) NM = atol(argv[10]);
  slabs = (char *)mmap(nullptr, SLAB * (MN + 1), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  mt::Harness H;
  H.setup = [] {
    memset(gone, 0, sizeof gone);
    memset(left_, 0, sizeof left_);
    memset(bop_set, 0, sizeof bop_set);
    memset(bop_done, 0, sizeof bop_done);
    live = 0;
    for (int i = 1; i <= N; ++i) {
      slot = i;
      Alloc al;
      al.i = i;
      task_t::ptr_type p = task_t::create(Act(i), al, 49152);
      if (!p) mt::die("no task");
      rawp[i] = p.get();
      ids[i] = p->get_id();
      for (int t = 0; t <= NT; ++t) h[t][i].p = p;
    }
    for (int m = 1; m <= NM; ++m) mg[m] = mgr_t::create();
  };
  H.ready = [] {
    for (int i = 1; i <= N; ++i) drop_of_main(i);
  };
  H.exec = exec;
  H.finish = [] {
    std::string st, ms, ts;
    for (int i = 1; i <= N; ++i) st += (i > 1 ? "," : "") + std::to_string(gone[i] ? -1 : (int)rawp[i]->get_status());
    for (int m = 1; m <= NM; ++m) {
      std::string l;
      for (auto &e : mg[m]->get_container())
        for (int i = 1; i <= N; ++i)
          if (ids[i] == e.first) l += (l.empty() ? "" : ",") + std::to_string(i);
      ms += (m > 1 ? ",[" : "[") + l + "]";
      l.clear();
      for (auto &e : mg[m]->get_checkpoints()) {
        int k = 0;
        for (int i = 1; i <= N; ++i)
          if (ids[i] == e.task_id) k = i;
        l += (l.empty() ? "" : ",") + std::string("[") + std::to_string(k) + "," + std::to_string((long)e.expired_time.tv_sec) + "]";
      }
      ts += (m > 1 ? ",[" : "[") + std::string("[0,") + std::to_string((long)mg[m]->get_last_tick_time().tv_sec) + "]" + (l.empty() ? "" : ",") + l + "]";
    }
    mt::ev_obs("\"op\":\"end\",\"st\":[" + st + "],\"m\":[" + ms + "],\"tm\":[" + ts + "]");
    for (int m = 1; m <= NM; ++m) {
      call("mreset", {m});
      mg[m]->reset();
      ret(0);
    }
    for (int i = 1; i <= N; ++i)
      for (int t = 1; t <= NT; ++t)
        if (h[t][i].p) {
          call("drop", {i, t});
          h[t][i].p.reset();
          ret(0);
        }
    for (int m = 1; m <= NM; ++m) mg[m].reset();
    mt::ev_obs(fmt("\"op\":\"gone\",\"n\":%d", live));
    mt::Quiet q;
    mt::fresh(slabs, SLAB * (MN + 1));
  };
  return mt::main_loop(argc, argv, H);
}
