// Interpreter for StdMT.tla: C++20 tasks and their managers used by several threads.
#include <libcopp/coroutine/generator_promise.h>
#include <libcotask/task_promise.h>
#include <libcotask/task_manager.h>
#include <utility>
#include "mt.h"
using namespace drv;
static const int MT_ = mt::MAXT, MN = 5, MM = 3;
static long NT = 2, N = 2, NM = 0;
using fut_t = cotask::task_future<int, void>;
using mgr_t = cotask::task_manager<fut_t>;
using gen_t = copp::generator_future<int>;
struct Handle {
  fut_t f;
  char pad[48];
};
static Handle h[MT_][MN];
static uint64_t ids[MN];
static bool gone[MN];
static long wait_[MN];
static int live;
static mgr_t::ptr_type mg[MM];
static Cmd bop[MN];
static bool bop_set[MN];
static std::string final_st[MN];

static void call(const char *op, const std::vector<long> &a) {
  std::string s = "[";
  for (long x : a) s += (s.size() > 1 ? "," : "") + std::to_string(x);
  mt::ev_call(fmt("\"%s\",%d,", op, mt::self()) + s + "]");
}
static void ret(long rc) { mt::ev_obs(fmt("\"op\":\"ret\",\"t\":%d,\"rc\":%ld", mt::self(), rc)); }
static void seen(const char *op, int i) { mt::ev_obs(fmt("\"op\":\"%s\",\"t\":%d,\"i\":%d", op, mt::self(), i)); }
static void exec(int t, const Cmd &c);
// lives in the frame of a task
struct Guard {
  int i;
  explicit Guard(int k) : i(k) { ++live; }
  Guard(Guard &&o) : i(o.i) { o.i = 0; }
  Guard(const Guard &) = delete;
  ~Guard() {
    if (!i) return;
    mt::Quiet q;
    if (gone[i]) mt::die("a frame was destroyed twice");
    gone[i] = true;
    --live;
    seen("del", i);
  }
};
static fut_t body(Guard g) {
  int i = g.i;
  seen("in", i);
  if (bop_set[i]) {
    bop_set[i] = false;
    exec(mt::self(), bop[i]);
  }
  if (wait_[i]) {
    wait_[i] = 0;
    gen_t never([](gen_t::context_pointer_type) {});
    seen("wt", i);
    co_await never;
    seen("wk", i);
  }
  seen("be", i);
  co_return 7;
}
static void exec(int t, const Cmd &c) {
  const std::string &o = c.op;
  long a0 = c.at(0), a1 = c.at(1), a2 = c.at(2);
  if (o.compare(0, 2, "b_") == 0) {
    bop[a0] = c;
    bop[a0].op = o.substr(2);
    bop[a0].a.erase(bop[a0].a.begin());
    bop_set[a0] = true;
    return;
  }
  if (o == "set") {
    call("set", {a0});
    wait_[a0] = 1;
    ret(0);
    return;
  }
  if (o[0] == 'm') {
    mgr_t *m = mg[a0].get();
    if (!m) return;
    if (o == "madd") {
      if (!h[t][a1].f.get_context()) return;
      call("madd", {a0, a1, a2});
      ret(m->add_task(h[t][a1].f, a2, 0));
    } else if (o == "mset") {
      call("mset", {a0, a1, a2});
      ret(m->set_timeout(ids[a1], a2, 0));
    } else if (o == "mrem") {
      call("mrem", {a0, a1});
      ret(m->remove_task(ids[a1]));
    } else if (o == "mstart") {
      if (t && wait_[a1]) return;
      call("mstart", {a0, a1});
      ret(m->start(ids[a1]));
    } else if (o == "mkill") {
      call("mkill", {a0, a1, a2});
      ret(a2 == (long)copp::promise_status::kCancle ? m->cancel(ids[a1]) : m->kill(ids[a1], (copp::promise_status)a2));
    } else if (o == "mtick") {
      call("mtick", {a0, a1});
      ret(m->tick((time_t)a1, 0));
    } else if (o == "mreset") {
      call("mreset", {a0});
      m->reset();
      ret(0);
    }
    return;
  }
  fut_t &f = h[t][a0].f;
  if (!f.get_context()) return;
  if (o == "start") {
    if (t && wait_[a0]) return;
    call("start", {a0});
    ret(f.start());
  } else if (o == "kill") {
    call("kill", {a0, a1});
    ret(f.kill((copp::promise_status)a1));
  } else if (o == "drop") {
    call("drop", {a0, t});
    f.reset();
    ret(0);
  }
}
static void drop_of_main(int i) {
  if (!h[0][i].f.get_context()) return;
  call("drop", {i, 0});
  h[0][i].f.reset();
  ret(0);
}
int main(int argc, char **argv) {
  if (argc > 8) NT = atol(argv[8]);
  if (argc > 9) N = atol(argv[9]);
  if (argc > 10) NM = atol(argv[10]);
  mt::Harness H;
  H.setup = [] {
    memset(gone, 0, sizeof gone);
    memset(wait_, 0, sizeof wait_);
    memset(bop_set, 0, sizeof bop_set);
    live = 0;
    for (int i = 1; i <= N; ++i) {
      fut_t f = body(Guard(i));
      ids[i] = f.get_id();
      for (int t = 0; t <= NT; ++t) h[t][i].f = f;
    }
    for (int m = 1; m <= NM; ++m) mg[m] = mgr_t::create();
  };
  H.ready = [] {
    for (int i = 1; i <= N; ++i) drop_of_main(i);
  };
  H.exec = exec;
  H.finish = [] {
    std::string st, ms, ts;
    for (int i = 1; i <= N; ++i) {
      int v = -1;
      if (!gone[i]) {
        for (int t = 0; t <= NT; ++t)
          if (h[t][i].f.get_context()) v = (int)h[t][i].f.get_status();
        for (int m = 1; m <= NM; ++m)
          if (const fut_t *f = mg[m]->find_task(ids[i])) v = (int)f->get_status();
      }
      st += (i > 1 ? "," : "") + std::to_string(v);
    }
    for (int m = 1; m <= NM; ++m) {
      std::string l;
      for (auto &e : mg[m]->get_container())
        for (int i = 1; i <= N; ++i)
          if (ids[i] == e.first) l += (l.empty() ? "" : ",") + std::to_string(i);
      ms += (m > 1 ? ",[" : "[") + l + "]";
      l.clear();
      for (auto &e : mg[m]->get_checkpoints()) {
        int k = 0;
        for (int i = 1; i <= N; ++i)
          if (ids[i] == e.task_id) k = i;
        l += (l.empty() ? "" : ",") + std::string("[") + std::to_string(k) + "," + std::to_string((long)e.expired_time.tv_sec) + "]";
      }
      ts += (m > 1 ? ",[" : "[") + std::string("[0,") + std::to_string((long)mg[m]->get_last_tick_time().tv_sec) + "]" + (l.empty() ? "" : ",") + l + "]";
    }
    mt::ev_obs("\"op\":\"end\",\"st\":[" + st + "],\"m\":[" + ms + "],\"tm\":[" + ts + "]");
    for (int m = 1; m <= NM; ++m) {
      call("mreset", {m});
      mg[m]->reset();
      ret(0);
    }
    for (int i = 1; i <= N; ++i)
      for (int t = 1; t <= NT; ++t)
        if (h[t][i].f.get_context()) {
          call("drop", {i, t});
          h[t][i].f.reset();
          ret(0);
        }
    for (int m = 1; m <= NM; ++m) mg[m].reset();
    mt::ev_obs(fmt("\"op\":\"gone\",\"n\":%d", live));
  };
  return mt::main_loop(argc, argv, H);
}
