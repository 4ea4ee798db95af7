// Driver for Std.tla: C++20 callables, tasks, generators, then() and some/any/all.
// and the manager of C++20 tasks.
// usage: std <scripts> <log> <N> <NG> <mode: 0 int 1 class 2 void 3 int with its own error values> <suspend callback 0/1> <resume callback 0/1> <NM>
#include <libcopp/coroutine/algorithm.h>
#include <libcopp/coroutine/callable_promise.h>
#include <libcopp/coroutine/generator_promise.h>
#include <libcotask/task_promise.h>
#include <libcotask/task_manager.h>
#include <memory>
#include <set>
#include <utility>
#include "drv.h"

using copp::promise_status;
static int N, NG, MODE, SCB, RCB, NM;
static bool over = false;  // script exhausted: leave everything as fast as possible, log nothing
static int bad = 0;

struct Track {
  int *c;
  explicit Track(int *p) : c(p) { ++*c; }
  Track(const Track &o) : c(o.c) { ++*c; }
  Track &operator=(const Track &) = delete;
  ~Track() { --*c; }
};

struct Val {
  std::unique_ptr<long> p;
  Val() : p(new long(0)) {}
  explicit Val(long v) : p(new long(v)) {}
  explicit Val(promise_status s) : p(new long(static_cast<int>(s) <= 1 ? -1 : -static_cast<int>(s))) {}
  Val(const Val &o) : p(o.p ? new long(*o.p) : nullptr) {}
  Val(Val &&o) noexcept : p(std::move(o.p)) {}
  Val &operator=(const Val &o) {
    p.reset(o.p ? new long(*o.p) : nullptr);
    return *this;
  }
  Val &operator=(Val &&o) noexcept {
    p = std::move(o.p);
    return *this;
  }
  long get() const { return p ? *p : -99; }
};
static long val_of(int v) { return v; }
static long val_of(const Val &v) { return v.get(); }

enum { MAXID = 12 };

// a user's own translation of a status into a value
struct Own {
  int operator()(promise_status s) const { return -100 - static_cast<int>(s); }
};
template <class V, class ET = copp::promise_error_transform<V>>
struct World {
  using CF = copp::callable_future<V, ET>;
  using TF = cotask::task_future<V, void, ET>;
  using GF = copp::generator_future<V, ET>;
  using GC = typename GF::context_pointer_type;
  using MG = cotask::task_manager<TF>;
  static constexpr bool VOID = std::is_void<V>::value;

  std::unique_ptr<CF> c[MAXID];
  std::vector<TF> t[MAXID];
  std::unique_ptr<GF> gs[MAXID];
  GC gk[MAXID];
  std::weak_ptr<typename GF::context_type> gw[MAXID];
  int gdying[MAXID] = {};
  int P[MAXID] = {}, L[MAXID] = {}, Pf[MAXID] = {};
  bool susp[MAXID] = {}, fin[MAXID] = {}, isthen[MAXID] = {}, infn[MAXID] = {};
  std::set<std::pair<char, int>> won[MAXID];
  int th[MAXID] = {};
  int gaw[MAXID] = {};  // await_resume of a generator in progress
  typename MG::ptr_type mg[MAXID];
  typename TF::id_type id[MAXID] = {};
  bool istask[MAXID] = {};
  int mtk[MAXID] = {}, mopc[MAXID] = {}, held[MAXID] = {};
  struct UF {
    const char *k;
    int t;
  };
  std::vector<UF> ufs;
  int awaiting = 0, resuming = 0, some_rcb = 0;

  World() {
    for (int i = 0; i < MAXID; ++i) t[i].reserve(8);
  }

  // ---------------------------------------------------------------- observation
  static int value(TF &f) {
    if constexpr (std::is_same_v<V, int>) {
      const int *d = f.get_context()->data();
      return d ? *d : 0;
    }
    return 0;
  }
  std::string snap() {
    std::string r = "\"c\":[";
    bool idle = ufs.size() == 1;
    for (int i = 1; i <= N; ++i) {
      if (i > 1) r += ",";
      if (c[i])
        r += drv::fmt("[1,%d,%d]", (int)c[i]->is_ready(), (int)c[i]->get_status());
      else if (!t[i].empty()) {
        TF &f = t[i][0];
        r += drv::fmt("[2,%d,%d,%d,%d,%d,%d,%d,%d]", (int)f.get_status(), (int)f.is_exiting(), (int)f.is_completed(), (int)f.is_faulted(),
                      (int)f.is_canceled(), (int)f.is_timeout(), (int)f.get_context()->is_ready(), value(f));
      } else
        r += "[0]";
    }
    r += "],\"g\":[";
    for (int g = 1; g <= NG; ++g) {
      if (g > 1) r += ",";
      GC x = ctx(g);
      if (!x)
        r += "[0]";
      else {
        bool ready = x->is_ready();
        if (ready == x->is_pending()) bad |= 2;
        if (gs[g] && (gs[g]->is_ready() != ready || gs[g]->is_pending() == ready || (gs[g]->get_status() == promise_status::kDone) != ready)) bad |= 4;
        r += drv::fmt("[1,%d]", (int)ready);
      }
    }
    r += "],\"p\":[";
    for (int i = 1; i <= N; ++i) r += drv::fmt("%s%d", i > 1 ? "," : "", idle ? P[i] : (P[i] > 0 ? 1 : P[i]));
    r += "],\"l\":[";
    for (int i = 1; i <= N; ++i) r += drv::fmt("%s%d", i > 1 ? "," : "", L[i]);
    r += "],\"m\":[";
    for (int m = 1; m <= NM; ++m) {
      if (m > 1) r += ",";
      if (!mg[m]) {
        r += "[0]";
        continue;
      }
      long mask = 0;
      for (int i = 1; i <= N; ++i)
        if (id[i]) {
          auto p = mg[m]->find_task(id[i]);
          if (p && p->get_id() == id[i]) mask |= 1L << (i - 1);
          // nothing can be looked up while a reset is going on, it holds nothing then
          if (mg[m]->get_container().size() && !!p != (mg[m]->get_container().count(id[i]) > 0)) bad |= 8;
        }
      if (mg[m]->get_checkpoints().size() != mg[m]->get_tick_checkpoint_size()) bad |= 16;
      auto l = mg[m]->get_last_tick_time();
      r += drv::fmt("[1,%d,%d,%ld,%ld,%ld]", (int)mg[m]->get_task_size(), (int)mg[m]->get_tick_checkpoint_size(), (long)l.tv_sec, (long)l.tv_nsec, mask);
    }
    int n = 0;
    for (int i = 1; i <= N; ++i) n += Pf[i];
    r += drv::fmt("],\"n\":%d", idle ? n : -1);
    return r;
  }
  GC ctx(int g) { return gs[g] ? gs[g]->get_context() : gk[g]; }
  void emit(const char *op, long rc, long x) {
    if (over) return;
    std::string s = snap();
    drv::ev_obs(drv::fmt("\"op\":\"%s\",\"wf\":\"%s\",\"wt\":%d,\"rc\":%ld,\"x\":%ld,\"bad\":%d,\"s\":{", op, ufs.back().k, ufs.back().t, rc, x, bad) + s + "}");
  }
  void pop(const char *k, int t) {
    if (ufs.empty() || ufs.back().k != k || ufs.back().t != t) {
      // the frame may be deeper when control flows in an unexpected way
      for (size_t q = ufs.size(); q-- > 0;)
        if (ufs[q].k == k && ufs[q].t == t) {
          ufs.erase(ufs.begin() + q);
          return;
        }
      return;
    }
    ufs.pop_back();
  }
  static const char *MAIN, *BODY, *SC, *RC, *FN;

  // ---------------------------------------------------------------- what is a legal call
  bool exists(int i) { return P[i] > 0 || Pf[i] > 0 || c[i] || !t[i].empty(); }
  bool onstack(int i) { return exists(i) && !fin[i] && (isthen[i] ? infn[i] : !susp[i]); }
  bool awaited(int i) {
    for (int x = 1; x <= 2 * N && x < MAXID; ++x)
      if (won[x].count({'c', i}) || won[x].count({'n', i})) return true;
    return false;
  }
  bool reaches(int from, int to, int depth = 0) {
    if (from == to) return true;
    if (depth > N) return false;
    for (auto &e : won[from])
      if (e.first != 'g' && e.first != 'y' && e.first != 'S' && reaches(e.second, to, depth + 1)) return true;
    return false;
  }
  // members of some(): w callables, x tasks, y generators
  bool member(char k, int i) {
    for (int x = 1; x <= N; ++x)
      if (won[x].count({k, i})) return true;
    return false;
  }
  // ending x may not destroy a running coroutine that lives in an awaiting expression
  bool no_run_tmp(int x, int depth = 0) {
    if (depth > N) return true;
    for (auto &e : won[x]) {
      if (e.first == 'n' && susp[x] && onstack(e.second)) return false;
      if (e.first == 'S' && susp[x] && some_rcb) return false;
      if (e.first != 'g' && e.first != 'y' && e.first != 'S' && !no_run_tmp(e.second, depth + 1)) return false;
    }
    return true;
  }
  bool keeps_running(int i) {
    for (int p = th[i], n = 0; p && n < N; p = th[p], ++n)
      if ((onstack(p) && t[p].empty()) || !no_run_tmp(p)) return false;
    return true;
  }
  bool legal_rm(int i) { return no_run_tmp(i) && (!t[i].empty() || (keeps_running(i) && (held[i] || !onstack(i)))); }
  bool in(int m, int i) { return mg[m] && id[i] && mg[m]->get_container().count(id[i]); }
  bool hasm(int m) { return m >= 1 && m <= NM && mg[m]; }
  // a frame that is being taken down still counts as existing while it lets go of the task it was chained to
  bool known(int i) {
    if (i < 1 || i > N || !istask[i] || !id[i]) return false;
    for (int m = 1; m <= NM; ++m)
      if (in(m, i)) return true;
    return !t[i].empty() || (!isthen[i] && P[i] > 0);
  }
  bool legal_mgr(const std::string &o, int a, int b) {
    if (o == "mnew") return a >= 1 && a <= NM && !mg[a];
    if (!hasm(a)) return false;
    if (o == "mdel" || o == "mreset" || o == "mtick") {
      if (o == "mdel" && mopc[a]) return false;
      for (int i = 1; i <= N; ++i)
        if (in(a, i) && !legal_rm(i)) return false;
      return true;
    }
    if (!known(b)) return false;
    if (o == "madd") return !t[b].empty() && (!mtk[a] || legal_rm(b));
    if (o == "mset") return !mtk[a] || legal_rm(b);
    return legal_rm(b);
  }
  bool legal(const drv::Cmd &m) {
    int a = m.at(0), b = m.at(1);
    const std::string &o = m.op;
    bool body = ufs.back().k == BODY;
    int me = ufs.back().t;
    bool hc = a >= 1 && a <= N && c[a], ht = a >= 1 && a <= N && !t[a].empty();
    if (o[0] == 'm') return legal_mgr(o, a, b);
    if (o == "new" || o == "tnew") return !exists(a);
    if (o == "then") return ht && !exists(b);
    if (o == "start") return ht;
    if (o == "kill") return (hc || ht) && (m.at(2) == 0 || !onstack(a)) && no_run_tmp(a);
    if (o == "copy") return ht && t[a].size() < 2;
    if (o == "drop" || o == "dropm") {
      if (!keeps_running(a) || !no_run_tmp(a)) return false;
      if (hc) return !onstack(a) && !awaited(a) && !member('w', a);
      bool kept = held[a];
      for (int q = 1; q <= NM; ++q)
        if (in(q, a) && !mtk[q]) kept = true;
      return ht && (t[a].size() > 1 || ((!onstack(a) || kept) && !member('x', a)));
    }
    if (o == "awn") return body && !exists(a);
    if (o == "awc") return body && hc && !awaited(a) && a != me && !reaches(a, me) && no_run_tmp(a);
    if (o == "awt") return body && ht && a != me && !reaches(a, me);
    if (o == "awg") return body && !!gs[a];
    if (o == "ret" || o == "ys") return body;
    if (o == "gnew") return gw[a].expired() && !gdying[a];
    if (o == "gdrop") return gs[a] && (gk[a] || gaw[a] == 0) && !member('y', a);
    if (o == "gkeep") return gs[a] && !gk[a];
    if (o == "grel") return gk[a] && (gs[a] || gaw[a] == 0);
    if (o == "gset") return ctx(a) && !(member('y', a) && some_rcb);
    if (o == "greset") return ctx(a) && gaw[a] == 0 && !member('y', a);
    if (o == "smc" || o == "smt" || o == "smg") {
      if (!body) return false;
      for (int j = 1; b >> (j - 1); ++j)
        if (b >> (j - 1) & 1) {
          if (j >= MAXID) return false;
          if (o == "smg" ? !gs[j] : o == "smc" ? !c[j] : t[j].empty()) return false;
          if (o != "smg" && (j == me || reaches(j, me))) return false;
        }
      return true;
    }
    if (o == "back") return ufs.back().k == SC || ufs.back().k == RC;
    if (o == "fret") return ufs.back().k == FN;
    return false;
  }
  // next legal command; false when there is none
  bool next(drv::Cmd &m) {
    while (!over) {
      if (!drv::more()) {
        over = true;
        break;
      }
      m = drv::take();
      if (!legal(m)) continue;
      drv::ev_cmd(m);
      return true;
    }
    return false;
  }

  // ---------------------------------------------------------------- commands that are plain calls
  V make(long v) {
    if constexpr (!VOID) return V(v);
  }
  // the last reference always goes away here
  void release(int g, GC &&p) {
    if (p.use_count() == 1) ++gdying[g];
    bool last = p.use_count() == 1;
    GC q(std::move(p));
    q.reset();
    if (last) --gdying[g];
  }
  void gset(int g, long v) {
    GC x = ctx(g);
    gset(x, v);
    release(g, std::move(x));
  }
  void gset(GC &x, long v) {
    if constexpr (VOID)
      x->set_value();
    else
      x->set_value(V(v));
  }
  auto functor(int j) {
    if constexpr (VOID)
      return [this, j, tr = Track(&Pf[j])](typename TF::context_pointer_type) { run_fn(j, 0); };
    else
      return [this, j, tr = Track(&Pf[j])](typename TF::context_pointer_type, V v) -> V { return V(run_fn(j, val_of(v))); };
  }
  // then() takes the default translation unless it is told another one
  template <class FN_T, class... A>
  static auto then(TF &f, FN_T &&fn, A... a) {
    if constexpr (std::is_same_v<ET, Own>) {
      if constexpr (sizeof...(A) == 0)
        return f.template then<FN_T, ET>(std::forward<FN_T>(fn));
      else
        return f.template then<FN_T, ET>(std::forward<FN_T>(fn), a...);
    } else
      return f.then(std::forward<FN_T>(fn), a...);
  }
  long run_fn(int j, long v) {
    ufs.push_back({FN, j});
    infn[j] = true;
    won[j].clear();
    emit("fn", j, v);
    long r = 0;
    drv::Cmd m;
    while (next(m)) {
      if (m.op == "fret") {
        r = m.at(0);
        break;
      }
      exec(m);
    }
    pop(FN, j);
    infn[j] = false;
    fin[j] = true;
    return r;
  }
  void exec(const drv::Cmd &m) {
    int a = m.at(0), b = m.at(1);
    const std::string &o = m.op;
    long rc = 0;
    if (o == "new") {
      fin[a] = susp[a] = isthen[a] = false;
      th[a] = 0;
      istask[a] = false;
      std::unique_ptr<CF> f(new CF(body<CF>(this, a, Track(&P[a]))));
      c[a] = std::move(f);
    } else if (o == "tnew") {
      fin[a] = isthen[a] = false;
      th[a] = 0;
      susp[a] = true;
      id[a] = 0;
      istask[a] = true;
      t[a].push_back(body<TF>(this, a, Track(&P[a])));
      id[a] = t[a][0].get_id();
    } else if (o == "then") {
      fin[b] = susp[b] = false;
      isthen[b] = true;
      istask[b] = m.at(2) != 1;
      id[b] = 0;
      th[b] = a;
      won[b] = {{'t', a}};
      if (m.at(2) == 1) {
        std::unique_ptr<CF> f(new CF(then(t[a][0], functor(b))));
        c[b] = std::move(f);
      } else {
        TF f = then(t[a][0], functor(b), nullptr);
        t[b].push_back(std::move(f));
        id[b] = t[b][0].get_id();
      }
    } else if (o == "start")
      rc = t[a][0].start();
    else if (o == "kill") {
      promise_status st = static_cast<promise_status>(b);
      bool force = m.at(2) != 0;
      if (c[a])
        rc = c[a]->kill(st, force);
      else {
        TF f = t[a][0];
        if (st == promise_status::kCancle)
          rc = f.cancel(force);
        else if (st == promise_status::kKilled)
          rc = f.kill(force);
        else
          rc = f.kill(st, force);
      }
    } else if (o == "copy") {
      TF f;
      f = t[a][0];
      t[a].push_back(std::move(f));
    } else if (o == "drop") {
      if (c[a]) {
        std::unique_ptr<CF> f(std::move(c[a]));
        f.reset();
      } else {
        TF f(std::move(t[a].back()));
        t[a].pop_back();
        f.reset();
      }
    } else if (o == "dropm") {  // something else is assigned to it
      if (c[a]) {
        CF f(std::move(*c[a]));
        c[a].reset();
        CF *self = &f;
        f = std::move(*self);
        f = CF(typename CF::handle_type(nullptr));
      } else {
        TF f(std::move(t[a].back()));
        t[a].pop_back();
        f = TF(f);
        TF g;
        f = std::move(g);
        if (g.valid() || f.valid()) bad |= 32;  // nothing may stay behind in what was moved from
      }
    } else if (o == "gnew") {
      auto sc = [this, a](GC x) {
        World *w = this;
        int g = a;
        if (SCB) w->callback(SC, "scb", g, std::exchange(w->awaiting, 0));
        w->release(g, std::move(x));
      };
      if (RCB)
        gs[a].reset(new GF(sc, [this, a](const typename GF::context_type &) {
          World *w = this;
          int g = a;
          w->callback(RC, "rcb", g, std::exchange(w->resuming, 0));
        }));
      else
        gs[a].reset(new GF(sc));
      gw[a] = gs[a]->get_context();
    } else if (o == "gdrop") {
      std::unique_ptr<GF> f(std::move(gs[a]));
      GC x = f->get_context();
      f.reset();
      release(a, std::move(x));
    } else if (o == "gkeep")
      gk[a] = gs[a]->get_context();
    else if (o == "grel") {
      GC f(std::move(gk[a]));
      gk[a].reset();
      release(a, std::move(f));
    } else if (o == "gset")
      gset(a, b);
    else if (o == "greset")
      ctx(a)->reset_value();
    else if (o[0] == 'm')
      rc = exec_mgr(m);
    emit("ret", rc, 0);
  }
  struct In {
    int &x;
    explicit In(int &y) : x(y) { ++x; }
    ~In() { --x; }
  };
  long exec_mgr(const drv::Cmd &m) {
    const std::string &o = m.op;
    int a = m.at(0), b = m.at(1);
    if (o == "mnew") {
      mg[a] = MG::create();
      return 0;
    }
    In busy(mopc[a]);
    MG *g = mg[a].get();
    if (o == "mdel") {
      // callbacks still see the manager while it goes away
      typename MG::ptr_type last = mg[a];
      mg[a] = typename MG::ptr_type(g, [](MG *) {});
      last.reset();
      mg[a].reset();
      return 0;
    }
    if (o == "mreset") {
      g->reset();
      return 0;
    }
    if (o == "mtick") {
      In tk(mtk[a]);
      return g->tick((time_t)m.at(1), (int)m.at(2));
    }
    if (o == "madd") return m.at(2) || m.at(3) ? g->add_task(t[b][0], (time_t)m.at(2), (int)m.at(3)) : g->add_task(t[b][0]);
    if (o == "mset") return g->set_timeout(id[b], (time_t)m.at(2), (int)m.at(3));
    In hold(held[b]);
    if (o == "mrem") {
      if (m.at(2) == 0) return g->remove_task(id[b]);
      if (m.at(2) == 1) return g->remove_task(id[b], in(a, b) ? g->find_task(id[b])->get_context().get() : nullptr);
      return g->remove_task(id[b], reinterpret_cast<const typename TF::context_type *>(this));
    }
    if (o == "mstart") return g->start(id[b]);
    if (o == "mcancel") return g->cancel(id[b]);
    return b % 2 && m.at(2) == static_cast<int>(promise_status::kKilled) ? g->kill(id[b]) : g->kill(id[b], static_cast<promise_status>(m.at(2)));
  }
  void callback(const char *k, const char *op, int g, int i) {
    bool some = k == RC && i == 0;
    if (some) ++some_rcb;
    ufs.push_back({k, g});
    emit(op, g, i);
    drv::Cmd m;
    while (next(m)) {
      if (m.op == "back") break;
      exec(m);
    }
    if (some) --some_rcb;
    pop(k, g);
  }

  // ---------------------------------------------------------------- bodies
  template <class A>
  struct Wrap {
    World *w;
    int i;
    int g;  // generator or 0
    A a;
    bool sus = false;
    bool await_ready() { return a.await_ready(); }
    template <class PR>
    auto await_suspend(std::coroutine_handle<PR> h) {
      sus = h.promise().get_status() < promise_status::kDone;
      w->awaiting = g ? i : 0;
      if (sus) {
        w->susp[i] = true;
        w->pop(BODY, i);
      }
      World *ww = w;
      if constexpr (std::is_void_v<decltype(a.await_suspend(h))>) {
        a.await_suspend(h);
        ww->awaiting = 0;
      } else {
        auto r = a.await_suspend(h);
        ww->awaiting = 0;
        return r;
      }
    }
    decltype(auto) await_resume() {
      w->susp[i] = false;
      if (sus) w->ufs.push_back({BODY, i});
      w->resuming = g ? i : 0;
      struct G {
        World *w;
        int g;
        ~G() {
          w->resuming = 0;
          if (g) --w->gaw[g];
        }
      } guard{w, g};
      if (g) ++w->gaw[g];
      return a.await_resume();
    }
  };
  template <class CF>
  struct Tmp {
    CF f;
    typename CF::awaitable_type a;
    explicit Tmp(CF &&x) : f(std::move(x)), a(f.operator co_await()) {}
    bool await_ready() { return a.await_ready(); }
    template <class PR>
    auto await_suspend(std::coroutine_handle<PR> h) {
      return a.await_suspend(h);
    }
    decltype(auto) await_resume() { return a.await_resume(); }
  };
  CF make_call(int a) { return body<CF>(this, a, Track(&P[a])); }
  template <class G>
  auto members(long mask, G get, char k, int i) {
    std::vector<std::reference_wrapper<typename std::remove_reference<decltype(get(1))>::type>> r;
    for (int j = 1; mask >> (j - 1); ++j)
      if (mask >> (j - 1) & 1) {
        r.push_back(std::ref(get(j)));
        won[i].insert({k, j});
      }
    return r;
  }
  template <class R, class I>
  static auto start_some(R &r, long n, I &in) {
    if (n == 1) return copp::any(r, in);
    if (n == (long)in.size()) return copp::all(r, copp::gsl::make_span(in));
    return copp::some(r, n, in);
  }
  template <class R, class G>
  long list(R &r, G get) {
    long x = 0;
    for (auto &e : r)
      for (int j = 1; j < MAXID; ++j)
        if ((void *)e.get() == get(j)) x = x * 10 + j;
    return 100 * x;
  }
  void cont(int i, long v) {
    won[i].clear();
    emit("cont", i, v);
  }

#define AWAIT(...)                               \
  do {                                           \
    if constexpr (VOID) {                        \
      co_await __VA_ARGS__;                      \
      w->cont(i, 0);                             \
    } else {                                     \
      auto got = co_await __VA_ARGS__;           \
      w->cont(i, val_of(got));                   \
    }                                            \
  } while (false)

  template <class FUT>
  static FUT body(World *w, int i, Track) {
    Track l(&w->L[i]);
    long result = 0;
    w->susp[i] = false;
    w->ufs.push_back({BODY, i});
    w->emit("enter", i, 0);
    drv::Cmd m;
    while (w->next(m)) {
      int a = m.at(0);
      if (m.op == "ret") {
        result = a;
        break;
      } else if (m.op == "ys") {
        auto st = co_yield FUT::yield_status();
        w->emit("ret", (int)st, 0);
      } else if (m.op == "awc") {
        w->won[i] = {{'c', a}};
        using A = typename CF::awaitable_type;
        AWAIT((Wrap<A>{w, i, 0, w->c[a]->operator co_await()}));
      } else if (m.op == "awt") {
        w->won[i] = {{'t', a}};
        using A = typename TF::awaitable_type;
        AWAIT((Wrap<A>{w, i, 0, w->t[a][0].operator co_await()}));
      } else if (m.op == "awg") {
        w->won[i] = {{'g', a}};
        using A = typename GF::awaitable_type;
        AWAIT((Wrap<A>{w, i, a, w->gs[a]->operator co_await()}));
      } else if (m.op == "awn") {
        w->won[i] = {{'n', a}};
        w->fin[a] = w->susp[a] = w->isthen[a] = false;
        w->th[a] = 0;
        AWAIT((Wrap<Tmp<CF>>{w, i, 0, Tmp<CF>(w->make_call(a))}));
      } else if (m.op == "smc" || m.op == "smt" || m.op == "smg") {
        using SF = copp::callable_future<promise_status>;
        w->won[i] = {{'S', i}};
        long x = 0;
        if (m.op == "smc") {
          typename copp::some_ready<CF>::type r;
          auto in = w->members(m.at(1), [w](int j) -> CF & { return *w->c[j]; }, 'w', i);
          x = (int)co_await (Wrap<Tmp<SF>>{w, i, 0, Tmp<SF>(start_some(r, a, in))});
          x += w->list(r, [w](int j) -> void * { return w->c[j].get(); });
        } else if (m.op == "smt") {
          typename copp::some_ready<TF>::type r;
          auto in = w->members(m.at(1), [w](int j) -> TF & { return w->t[j][0]; }, 'x', i);
          x = (int)co_await (Wrap<Tmp<SF>>{w, i, 0, Tmp<SF>(start_some(r, a, in))});
          x += w->list(r, [w](int j) -> void * { return w->t[j].data(); });
        } else {
          typename copp::some_ready<GF>::type r;
          auto in = w->members(m.at(1), [w](int j) -> GF & { return *w->gs[j]; }, 'y', i);
          x = (int)co_await (Wrap<Tmp<SF>>{w, i, 0, Tmp<SF>(start_some(r, a, in))});
          x += w->list(r, [w](int j) -> void * { return w->gs[j].get(); });
        }
        w->cont(i, x);
      } else
        w->exec(m);
    }
    w->pop(BODY, i);
    w->fin[i] = true;
    if constexpr (VOID)
      co_return;
    else
      co_return V(result);
  }

  void run() {
    ufs.push_back({MAIN, 0});
    drv::Cmd m;
    while (next(m)) exec(m);
    over = true;
    for (int i = 1; i <= N; ++i)  // what some() waits for has to stay until it is over
      for (int x = 1; x <= N; ++x)
        if (won[x].count({'S', x})) {
          if (c[i])
            c[i]->kill(promise_status::kKilled, true);
          else if (!t[i].empty())
            TF(t[i][0]).kill(true);
          break;
        }
    for (int g = 1; g <= NG; ++g)
      if (member('y', g) && !gs[g]->is_ready()) gset(g, 0);
    for (int m = 1; m <= NM; ++m) typename MG::ptr_type last(std::move(mg[m]));
    for (int i = 1; i <= N; ++i)
      while (!t[i].empty()) {
        TF f(std::move(t[i].back()));
        t[i].pop_back();
      }
    for (int g = 1; g <= NG; ++g) {
      std::unique_ptr<GF> f(std::move(gs[g]));
      f.reset();
      GC k(std::move(gk[g]));
    }
    for (int n = 0; n <= N; ++n)  // an awaited callable outlives who awaits it
      for (int i = 1; i <= N; ++i)
        if (n == N || !(awaited(i) || member('w', i))) std::unique_ptr<CF> f(std::move(c[i]));
    for (int i = 1; i <= N; ++i)
      if (P[i] || L[i] || Pf[i]) drv::ev_note("objects left at the end");
  }
};
template <class V, class ET> const char *World<V, ET>::MAIN = "main";
template <class V, class ET> const char *World<V, ET>::BODY = "body";
template <class V, class ET> const char *World<V, ET>::SC = "scb";
template <class V, class ET> const char *World<V, ET>::RC = "rcb";
template <class V, class ET> const char *World<V, ET>::FN = "fn";

template <class V, class ET = copp::promise_error_transform<V>>
static void one() {
  over = false;
  bad = 0;
  std::unique_ptr<World<V, ET>> w(new World<V, ET>());
  w->run();
}
int main(int argc, char **argv) {
  N = atoi(argv[3]);
  NG = atoi(argv[4]);
  MODE = atoi(argv[5]);
  SCB = atoi(argv[6]);
  RCB = atoi(argv[7]);
  NM = atoi(argv[8]);
  return drv::main_loop(argc, argv, MODE == 0 ? one<int> : MODE == 1 ? one<Val> : MODE == 2 ? one<void> : one<int, Own>);
}
