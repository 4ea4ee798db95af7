// Interpreter for Task.tla: main program, task bodies, completion callbacks and C++20 watchers take turns executing the
// commands of one script; after every library call everything a user can see is logged.
#include "drv.h"
#include <libcopp/coroutine/callable_promise.h>
#include <libcopp/stack/stack_allocator.h>
#include <libcotask/task.h>
#include <libcotask/task_manager.h>
#include <list>
#include <map>
#include <memory>
using namespace drv;

static const int N = 13, NM = 4, NWX = 4;
static int g_n = 2, g_nm = 1, g_nw = 1;
struct Alloc;
struct Macro {
  using stack_allocator_type = Alloc;
  using coroutine_type = copp::coroutine_context_container<Alloc>;
  using value_type = int;
};
struct World;
static World *W = nullptr;
struct Alloc {
  World *w = nullptr;
  int slot = 0;
  void allocate(copp::stack_context &ctx, std::size_t size) noexcept;
  void deallocate(copp::stack_context &ctx) noexcept;
};
using task_t = cotask::task<Macro>;
using mgr_t = cotask::task_manager<task_t>;
struct Boom {
  long x;
};
struct World {
  task_t::ptr_type h[N];
  task_t *raw[N] = {};
  uint64_t id[N] = {};
  int kd[N] = {};
  int slot = 0;       // the slot being created
  bool fail = false;  // the next stack allocation fails
  long stk[N] = {}, act[N] = {}, body[N] = {}, opc[N] = {};
  long bad = 0;
  std::map<void *, std::pair<size_t, int>> blocks;
  mgr_t::ptr_type m[NM];
  long mopc[NM] = {}, in_mdel = 0;
  std::unique_ptr<copp::callable_future<int>> w[NWX];
  int wst[NWX] = {};  // 1 waiting, 2 running, 3 finished
  // kinds of the live user frames, per coroutine: needed to refuse commands that make no sense
  std::vector<std::pair<int, int>> frames;  // (kind, id) of the frames of the current control stack
};
void Alloc::allocate(copp::stack_context &ctx, std::size_t size) noexcept {
  if (W->fail) {
    ctx.sp = nullptr;
    ctx.size = 0;
    return;
  }
  if (slot == 0 || !w) {
    W->bad |= 128;  // not the allocator that was given
  }
  char *p = (char *)malloc(size);
  ctx.sp = p + size;
  ctx.size = size;
  W->blocks[ctx.sp] = {size, W->slot};
  ++W->stk[W->slot];
}
void Alloc::deallocate(copp::stack_context &ctx) noexcept {
  auto it = w->blocks.find(ctx.sp);
  if (it == w->blocks.end() || it->second.first != ctx.size) {
    w->bad |= 1;
    return;
  }
  --w->stk[it->second.second];
  char *p = (char *)ctx.sp - ctx.size;
  w->blocks.erase(it);
  memset(p, 0xDB, ctx.size);
  free(p);
}
enum Kind { MAIN, BODY, CB, WAKE };
static const char *kind_name[] = {"main", "body", "cb", "wake"};

static int cur_id() {
  auto *t = cotask::this_task::get_task();
  if (!t) return 0;
  for (int i = 1; i <= g_n; ++i)
    if (W->raw[i] == t && W->stk[i]) return i;
  return -1;
}
static void obs(const char *op, Kind k, int who, long rc, long x, const std::vector<long> &ex) {
  std::string s = fmt("\"op\":\"%s\",\"wf\":\"%s\",\"wt\":%d,\"rc\":%ld,\"x\":%ld,\"e\":[", op, kind_name[k], who, rc, x);
  for (size_t i = 0; i < ex.size(); ++i) s += (i ? "," : "") + std::to_string(ex[i]);
  s += fmt("],\"cur\":%d,\"s\":{\"t\":[", cur_id());
  long bad = W->bad;
  for (int i = 1; i <= g_n; ++i) {
    auto &t = W->h[i];
    if (i > 1) s += ",";
    if (!t)
      s += "[0]";
    else {
      s += fmt("[%d,%d,%d,%d,%d,%d,%d]", (int)t->get_status(), (int)t->is_exiting(), (int)t->is_completed(), (int)t->is_canceled(),
               (int)t->is_faulted(), (int)t->is_timeout(), t->get_ret_code());
      if (W->act[i] != (W->kd[i] == 2 || W->kd[i] == 3 ? 0 : 1)) bad |= 2;
      if (t.get() != W->raw[i]) bad |= 4;
    }
    if (!W->stk[i] && W->act[i]) bad |= 8;
    if (W->act[i] < 0 || W->body[i] < 0) bad |= 16;
  }
  s += "],\"o\":[";
  for (int i = 1; i <= g_n; ++i) s += (i > 1 ? "," : "") + std::to_string(W->stk[i]);
  s += "],\"b\":[";
  for (int i = 1; i <= g_n; ++i) s += (i > 1 ? "," : "") + std::to_string(W->body[i]);
  s += "],\"w\":[";
  for (int i = 1; i <= g_nw; ++i) {
    auto &f = W->w[i];
    s += (i > 1 ? "," : "") + (f ? fmt("[%d,%d]", (int)f->is_ready(), (int)f->get_status()) : std::string("[0]"));
  }
  s += "],\"m\":[";
  for (int m = 1; m <= g_nm; ++m) {
    if (m > 1) s += ",";
    auto &g = W->m[m];
    if (!g)
      s += "[0]";
    else {
      long bits = 0;
      for (int i = 1; i <= g_n; ++i)
        if (W->stk[i]) {
          auto p = g->find_task(W->id[i]);
          if (p) {
            if (p.get() == W->raw[i])
              bits |= 1L << (i - 1);
            else
              bad |= 32;
          }
        }
      auto lt = g->get_last_tick_time();
      s += fmt("[1,%d,%d,%ld,%ld,%ld]", (int)g->get_task_size(), (int)g->get_tick_checkpoint_size(), (long)lt.tv_sec, (long)lt.tv_nsec, bits);
    }
  }
  s += fmt("]},\"bad\":%ld", bad);
  ev_obs(s);
}
static long frame(Kind k, int who, const char *op, long rc, long x);

struct BodyGuard {
  World *w;
  int i;
  explicit BodyGuard(int i) : w(W), i(i) { ++w->body[i]; }
  ~BodyGuard() { --w->body[i]; }
};
struct Act : cotask::impl::task_action_impl {
  World *w;
  int i;
  std::unique_ptr<int> alive;  // a destroyed action is noticed when it is used
  explicit Act(int i) : w(W), i(i), alive(new int(i)) { ++w->act[i]; }
  Act(Act &&o) : w(o.w), i(o.i), alive(new int(o.i)) { ++w->act[i]; }
  ~Act() {
    --w->act[i];
    i = -1;
  }
  int operator()(void *p) override {
    BodyGuard g(*alive);
    return (int)frame(BODY, *alive, "enter", *alive, (long)(intptr_t)p);
  }
  int on_finished(cotask::impl::task_impl &t) override {
    if (&t != w->raw[i]) w->bad |= 64;
    frame(CB, *alive, "onfin", *alive, 0);
    return 0;
  }
};
// plain callables
struct Tok {
  World *w;
  int i;
  std::unique_ptr<int> alive;
  explicit Tok(int i) : w(W), i(i), alive(new int(i)) { ++w->act[i]; }
  Tok(Tok &&o) : w(o.w), i(o.i), alive(new int(o.i)) { ++w->act[i]; }
  Tok(const Tok &o) : w(o.w), i(o.i), alive(new int(o.i)) { ++w->act[i]; }
  ~Tok() { --w->act[i]; }
};
struct Fn {
  Tok t;
  int operator()(void *p) {
    BodyGuard g(*t.alive);
    return (int)frame(BODY, *t.alive, "enter", *t.alive, (long)(intptr_t)p);
  }
};
struct Fv {
  Tok t;
  void operator()(void *p) {
    BodyGuard g(*t.alive);
    frame(BODY, *t.alive, "enter", *t.alive, (long)(intptr_t)p);
  }
};
template <int I>
static int plain(void *p) {
  BodyGuard g(I);
  return (int)frame(BODY, I, "enter", I, (long)(intptr_t)p);
}
static int (*const plains[])(void *) = {nullptr, plain<1>, plain<2>, plain<3>, plain<4>, plain<5>, plain<6>, plain<7>, plain<8>, plain<9>, plain<10>, plain<11>, plain<12>};
struct Inst {
  int i;
  int run(void *p) {
    BodyGuard g(i);
    return (int)frame(BODY, i, "enter", i, (long)(intptr_t)p);
  }
};
static Inst insts[] = {{0}, {1}, {2}, {3}, {4}, {5}};
static copp::callable_future<int> watcher(int k, task_t *t) {
  int rc = co_await *t;
  W->wst[k] = 2;
  frame(WAKE, k, "wake", k, rc);
  W->wst[k] = 3;
  co_return 0;
}
struct Count {
  long *p;
  explicit Count(long &x) : p(&x) { ++*p; }
  ~Count() { --*p; }
};
static void *P(long v) { return (void *)(intptr_t)v; }
static long code_of(std::exception_ptr e) {
  if (!e) return -1;
  try {
    std::rethrow_exception(e);
  } catch (Boom &b) {
    return b.x;
  } catch (...) {
    return -2;
  }
}
// run an operation in both exception styles; rc is 0 when the throwing overload threw
template <class A, class B>
static void call(long lst, long &rc, std::vector<long> &ex, A throwing, B listing) {
  if (lst) {
    std::list<std::exception_ptr> l;
    rc = listing(l);
    for (auto &e : l) ex.push_back(code_of(e));
  } else {
    try {
      rc = throwing();
    } catch (Boom &b) {
      rc = 0;
      ex.push_back(b.x);
    }
  }
}
static bool has(long i) { return i >= 1 && i <= g_n && W->h[i]; }
static bool hasm(long m) { return m >= 1 && m <= g_nm && W->m[m]; }
static bool legal(Kind k, int who, const Cmd &c) {
  const std::string &o = c.op;
  long a = c.at(0), b = c.at(1);
  auto known = [&](long i) { return i >= 1 && i <= g_n && W->stk[i]; };
  auto mayrem = [&]() {
    auto p = W->m[a]->find_task(W->id[b]);
    return !p || W->h[b] || !W->opc[b];
  };
  if (o == "create") return a <= g_n && !W->stk[a];
  if (o == "then") return has(a) && b >= 1 && b <= g_n && !W->stk[b] && a != b;
  if (o == "drop") return has(a) && !W->opc[a];
  if (o == "start" || o == "resume" || o == "kill" || o == "cancel") return has(a);
  if (o == "next") return has(a) && (b == 0 || has(b));
  if (o == "await")
    return k != WAKE && (has(a) || (a && cur_id() == a)) && (b == 0 || b == a || has(b));
  if (o == "yield" || o == "yn") return cur_id() > 0 && k != WAKE;
  if (o == "finish") return k == BODY;
  if (o == "throw") {
    // nobody could receive it while an abandoned task is driven to its end
    for (int i = 1; i <= g_n; ++i)
      if (W->stk[i] && !W->h[i]) return false;
    return (k == BODY || k == CB) && !W->in_mdel;
  }
  if (o == "cbret") return k == CB;
  if (o == "wret") return k == WAKE;
  if (o == "watch") return a <= g_nw && !W->wst[a] && has(b);
  if (o == "wkill") return a <= g_nw && W->wst[a] >= 1 && W->w[a];
  if (o == "wdrop") return a <= g_nw && (W->wst[a] == 1 || W->wst[a] == 3) && W->w[a];
  if (o == "mnew") return !hasm(a);
  if (o == "mdel") return hasm(a) && !W->mopc[a];
  if (o == "mreset" || o == "mtick") return hasm(a);
  if (o == "madd") return hasm(a) && has(b);
  if (o == "mset" || o == "mstart" || o == "mresume") return hasm(a) && known(b);
  if (o == "mrem" || o == "mkill" || o == "mcancel") return hasm(a) && known(b) && mayrem();
  return false;
}
static bool default_cmd(Kind k, int who, Cmd &c) {
  if (k == BODY) {
    c = Cmd{"finish", {7}};
    return true;
  }
  if (k == CB) {
    c = Cmd{"cbret", {}};
    return true;
  }
  if (k == WAKE) {
    c = Cmd{"wret", {}};
    return true;
  }
  for (int i = 1; i <= g_n; ++i)
    if (W->h[i] && !W->opc[i]) {
      c = Cmd{"drop", {i}};
      return true;
    }
  for (int m = 1; m <= g_nm; ++m)
    if (W->m[m] && !W->mopc[m]) {
      c = Cmd{"mdel", {m}};
      return true;
    }
  for (int i = 1; i <= g_n; ++i)
    if (W->h[i] && W->h[i]->get_status() == cotask::EN_TS_WAITING) {
      c = Cmd{"kill", {i, 6, 1, 1}};
      return true;
    }
  return false;
}
static long frame(Kind k, int who, const char *op0, long rc0, long x0) {
  World *w = W;
  if (k != MAIN) obs(op0, k, who, rc0, x0, {});
  for (;;) {
    Cmd c;
    bool got = false;
    while (more() && !got) {
      c = take();
      got = legal(k, who, c);
    }
    if (!got && !default_cmd(k, who, c)) return 0;
    ev_cmd(c);
    const std::string &o = c.op;
    long a = c.at(0), b = c.at(1), rc = 0;
    std::vector<long> ex;
    if (o == "create") {
      Alloc al;
      al.w = w;
      al.slot = w->slot = (int)a;
      w->kd[a] = (int)b;
      const size_t sz = 64 * 1024;
      if (b == 0) w->h[a] = task_t::create(Act((int)a), al, sz);
      if (b == 1) w->h[a] = task_t::create(Fn{Tok((int)a)}, al, sz);
      if (b == 2) w->h[a] = task_t::create(plains[a], al, sz);
      if (b == 3) w->h[a] = task_t::create(&Inst::run, &insts[a], al, sz, 32);
      if (b == 4) w->h[a] = task_t::create(Fv{Tok((int)a)}, al, sz, 16);
      if (b == 5) w->h[a] = task_t::create_with<Act>(al, sz, 8, (int)a);
      if (b == 8) w->h[a] = task_t::create(Act((int)a), al, 128);
      if (b == 9) {
        w->fail = true;
        w->h[a] = task_t::create(Act((int)a), al, sz);
        w->fail = false;
      }
      w->raw[a] = w->h[a].get();
      if (w->h[a]) w->id[a] = w->h[a]->get_id();
    } else if (o == "drop") {
      w->h[a].reset();
    } else if (o == "start" || o == "resume") {
      Count g(w->opc[a]);
      task_t *t = w->h[a].get();
      bool st = o == "start";
      call(c.at(2), rc, ex, [&] { return st ? t->start(P(b)) : t->resume(P(b)); },
           [&](std::list<std::exception_ptr> &l) { return st ? t->start(l, P(b)) : t->resume(l, P(b)); });
    } else if (o == "kill") {
      Count g(w->opc[a]);
      task_t *t = w->h[a].get();
      auto st = (cotask::EN_TASK_STATUS)b;
      call(c.at(3), rc, ex, [&] { return t->kill(st, P(c.at(2))); }, [&](std::list<std::exception_ptr> &l) { return t->kill(l, st, P(c.at(2))); });
    } else if (o == "cancel") {
      Count g(w->opc[a]);
      task_t *t = w->h[a].get();
      call(c.at(2), rc, ex, [&] { return t->cancel(P(b)); }, [&](std::list<std::exception_ptr> &l) { return t->cancel(l, P(b)); });
    } else if (o == "next") {
      Count g(w->opc[a]);
      task_t *t = w->h[a].get();
      try {
        auto r = t->next(b ? w->h[b] : task_t::ptr_type(), P(c.at(2)));
        rc = -9;
        for (int i = 1; i <= g_n; ++i)
          if (r && r.get() == w->raw[i] && w->stk[i]) rc = i;
      } catch (Boom &e) {
        ex.push_back(e.x);
      }
    } else if (o == "then") {
      Count g(w->opc[a]);
      task_t *t = w->h[a].get();
      Alloc al;
      al.w = w;
      al.slot = w->slot = (int)b;
      long kind = w->kd[b] = (int)c.at(2);
      void *p = P(c.at(3));
      const size_t sz = 64 * 1024;
      try {
        task_t::ptr_type r;
        if (t->get_status() >= cotask::EN_TS_DONE || t->is_completed()) {
          // the follower starts inside the call: create it first to know its handle
          if (kind == 0) r = task_t::create(Act((int)b), al, sz);
          if (kind == 1) r = task_t::create(Fn{Tok((int)b)}, al, sz);
          if (kind == 2) r = task_t::create(plains[b], al, sz);
          if (kind == 3) r = task_t::create(&Inst::run, &insts[b], al, sz);
          if (kind == 4) r = task_t::create(Fv{Tok((int)b)}, al, sz);
          w->h[b] = r;
          w->raw[b] = r.get();
          w->id[b] = r->get_id();
          r = t->then(r, p);
        } else {
          if (kind == 0) r = t->then(Act((int)b), p);
          if (kind == 1) r = t->next(Fn{Tok((int)b)}, al, p, sz, 24);
          if (kind == 2) r = t->then(plains[b], p);
          if (kind == 3) r = t->next(&Inst::run, &insts[b], al, p, sz);
          if (kind == 4) r = t->then(Fv{Tok((int)b)}, p);
          w->h[b] = r;
          w->raw[b] = r.get();
          w->id[b] = r->get_id();
        }
        rc = -9;
        for (int i = 1; i <= g_n; ++i)
          if (r && r.get() == w->raw[i] && w->stk[i]) rc = i;
      } catch (Boom &e) {
        ex.push_back(e.x);
      }
    } else if (o == "await") {
      task_t *t = has(a) ? w->h[a].get() : w->raw[a];
      rc = t->await_task(b ? (w->h[b] ? w->h[b] : task_t::ptr_type(w->raw[b])) : task_t::ptr_type());
      obs("awret", k, who, rc, 0, ex);
      continue;
    } else if (o == "yn") {
      void *v = nullptr;
      for (long left = a; left > 0; --left) rc = cotask::this_task::get_task()->yield(&v);
      obs("yret", k, who, rc, (long)(intptr_t)v, ex);
      continue;
    } else if (o == "yield") {
      void *v = nullptr;
      rc = cotask::this_task::get_task()->yield(&v);
      obs("yret", k, who, rc, (long)(intptr_t)v, ex);
      continue;
    } else if (o == "finish") {
      return a;
    } else if (o == "throw") {
      throw Boom{a};
    } else if (o == "cbret" || o == "wret") {
      return 0;
    } else if (o == "watch") {
      w->wst[a] = 1;
      w->w[a].reset(new copp::callable_future<int>(watcher((int)a, w->h[b].get())));
    } else if (o == "wkill") {
      rc = w->w[a]->kill((copp::promise_status)b);
    } else if (o == "wdrop") {
      w->w[a].reset();
    } else if (o == "mnew") {
      w->m[a] = mgr_t::create();
    } else if (o == "mdel") {
      Count g(w->mopc[a]);
      Count g2(w->in_mdel);
      mgr_t::ptr_type keep = w->m[a];
      mgr_t *p = keep.get();
      // user code run by the destructor still sees the manager (as a class member would be seen)
      struct Late {
        World *w;
        long a;
        ~Late() { w->m[a].reset(); }
      };
      w->m[a] = mgr_t::ptr_type(p, [](mgr_t *) {});
      Late late{w, a};
      keep.reset();
    } else if (o == "mreset") {
      Count g(w->mopc[a]);
      try {
        w->m[a]->reset();
      } catch (Boom &e) {
        ex.push_back(e.x);
      }
    } else if (o == "mtick") {
      Count g(w->mopc[a]);
      try {
        rc = w->m[a]->tick((time_t)b, (int)c.at(2));
      } catch (Boom &e) {
        ex.push_back(e.x);
      }
    } else if (o == "madd") {
      rc = w->m[a]->add_task(w->h[b], (time_t)c.at(2), (int)c.at(3));
    } else if (o == "mset") {
      rc = w->m[a]->set_timeout(w->id[b], (time_t)c.at(2), (int)c.at(3));
    } else if (o == "mstart" || o == "mresume") {
      Count g(w->mopc[a]);
      mgr_t *m = w->m[a].get();
      bool st = o == "mstart";
      void *p = P(c.at(2));
      uint64_t id = w->id[b];
      call(c.at(3), rc, ex, [&] { return st ? m->start(id, p) : m->resume(id, p); },
           [&](std::list<std::exception_ptr> &l) { return st ? m->start(id, l, p) : m->resume(id, l, p); });
    } else if (o == "mrem") {
      Count g(w->mopc[a]);
      static long other[64];
      mgr_t *m = w->m[a].get();
      try {
        long how = c.at(2);
        rc = how == 0 ? m->remove_task(w->id[b])
                      : m->remove_task(w->id[b], how == 1 ? (const task_t *)w->raw[b] : (const task_t *)(void *)other);
      } catch (Boom &e) {
        ex.push_back(e.x);
      }
    } else if (o == "mkill") {
      Count g(w->mopc[a]);
      mgr_t *m = w->m[a].get();
      auto st = (cotask::EN_TASK_STATUS)c.at(2);
      void *p = P(c.at(3));
      uint64_t id = w->id[b];
      call(c.at(4), rc, ex, [&] { return m->kill(id, st, p); }, [&](std::list<std::exception_ptr> &l) { return m->kill(id, l, st, p); });
    } else if (o == "mcancel") {
      Count g(w->mopc[a]);
      mgr_t *m = w->m[a].get();
      void *p = P(c.at(2));
      uint64_t id = w->id[b];
      call(c.at(3), rc, ex, [&] { return m->cancel(id, p); }, [&](std::list<std::exception_ptr> &l) { return m->cancel(id, l, p); });
    } else {
      ev_note("bad command");
      _exit(95);
    }
    obs("ret", k, who, rc, 0, ex);
  }
}
int main(int argc, char **argv) {
  g_n = (int)atol(argv[3]);
  g_nw = (int)atol(argv[4]);
  g_nm = (int)atol(argv[5]);
  return main_loop(argc, argv, [] {
    // objects that keep each other alive for ever belong to the world of their script
    W = new World;
    frame(MAIN, 0, "", 0, 0);
  });
}
