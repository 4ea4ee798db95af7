// Driver for Chain.tla: then() of every shape and private data of C++20 tasks.
// usage: chain <scripts> <log> <N>
#include <libcopp/coroutine/callable_promise.h>
#include <libcotask/task_promise.h>
#include <memory>
#include <set>
#include <utility>
#include <variant>
#include "drv.h"

static int N;
static bool over = false;
static int bad = 0;
enum { MAXID = 8 };
static int npd = 0, nbase[MAXID], nfn[MAXID], nin[MAXID];

struct Track {
  int *c;
  explicit Track(int *p) : c(p) { ++*c; }
  Track(const Track &o) : c(o.c) { ++*c; }
  Track &operator=(const Track &) = delete;
  ~Track() { --*c; }
};
struct World;
struct Pd {
  std::unique_ptr<long> p;
  Pd() : p(new long(0)) { ++npd; }
  explicit Pd(long v) : p(new long(v)) { ++npd; }
  Pd(World *, int, const Track &, long v) : p(new long(v)) { ++npd; }
  Pd(const Pd &o) : p(new long(o.get())) { ++npd; }
  Pd(Pd &&o) : p(std::move(o.p)) { ++npd; }
  Pd &operator=(const Pd &o) {
    if (this != &o) p.reset(new long(o.get()));
    return *this;
  }
  Pd &operator=(Pd &&o) {
    if (this != &o) p = std::move(o.p);
    return *this;
  }
  ~Pd() { --npd; }
  long get() const { return p ? *p : -99; }
};
template <class T>
using CF = copp::callable_future<T>;
template <class T, class P>
using TF = cotask::task_future<T, P>;
template <class T>
struct is_task : std::false_type {};
template <class T, class P>
struct is_task<TF<T, P>> : std::true_type {};
template <class T>
struct has_pd : std::false_type {};
template <class T>
struct has_pd<TF<T, Pd>> : std::true_type {};
using Holder = std::variant<std::monostate, CF<int>, CF<void>, TF<int, Pd>, TF<void, Pd>, TF<int, void>, TF<void, void>>;
static const char *MAIN = "main", *BODY = "body", *FN = "fn", *IN_ = "in";

struct World {
  std::unique_ptr<Holder> h[MAXID];
  bool killed[MAXID] = {}, late[MAXID] = {};
  int rt[MAXID] = {};
  bool base[MAXID] = {}, done[MAXID] = {}, started[MAXID] = {}, pending[MAXID] = {};
  uint64_t ident[MAXID] = {};
  std::coroutine_handle<> gate[MAXID];
  struct UF {
    const char *k;
    int t;
  };
  std::vector<UF> ufs;
  int par[MAXID] = {};

  struct Gate {
    World *w;
    int i;
    bool await_ready() { return false; }
    void await_suspend(std::coroutine_handle<> x) {
      w->gate[i] = x;
      w->pop(w->base[i] ? BODY : IN_, i);
    }
    void await_resume() {}
    ~Gate() { w->gate[i] = nullptr; }
  };
  void pop(const char *k, int t) {
    for (size_t q = ufs.size(); q-- > 0;)
      if (ufs[q].k == k && ufs[q].t == t) {
        ufs.erase(ufs.begin() + q);
        return;
      }
  }
  template <class H>
  void see(int i, H &f, std::string &r) {
    if constexpr (is_task<H>::value) {
      auto &x = f.get_context();
      bool ready = x->is_ready();
      if (ready == x->is_pending()) bad |= 1;
      if (f.get_id() != ident[i] || x->get_id() != ident[i]) bad |= 2;
      for (int j = 1; j <= N; ++j)
        if (j != i && h[j] && ident[j] == ident[i]) bad |= 4;
      long pd = -1, v = 0;
      if constexpr (has_pd<H>::value) {
        pd = f.get_private_data()->get();
        const H &c = f;
        if (c.get_private_data() != f.get_private_data() || &x->get_private_data() != f.get_private_data()) bad |= 8;
        H f2(f);
        if (f2.get_private_data() != f.get_private_data()) bad |= 16;
      }
      if constexpr (std::is_same_v<typename H::value_type, int>)
        if (ready) v = *x->data();
      if (f.is_completed() != ready || f.is_exiting() != ((int)f.get_status() >= 3)) bad |= 32;
      r += drv::fmt("[2,%d,%d,%ld,%ld]", (int)ready, (int)f.get_status(), pd, v);
    } else if constexpr (!std::is_same_v<H, std::monostate>) {
      if (f.is_ready() != ((int)f.get_status() >= 3)) bad |= 64;
      r += drv::fmt("[1,%d]", (int)f.is_ready());
    }
  }
  std::string snap() {
    std::string r = "\"n\":[";
    for (int i = 1; i <= N; ++i) {
      if (i > 1) r += ",";
      if (!h[i])
        r += "[0]";
      else
        std::visit([&](auto &f) { see(i, f, r); }, *h[i]);
    }
    r += "],\"cnt\":[";
    if (ufs.size() == 1) {
      int f = 0, b = 0, n = 0;
      for (int i = 1; i <= N; ++i) f += nfn[i], b += nbase[i], n += nin[i];
      r += drv::fmt("%d,%d,%d,%d", npd, f, b, n);
    }
    return r + "]";
  }
  void emit(const char *op, long rc, long x, long y) {
    if (over) return;
    std::string s = snap();
    drv::ev_obs(drv::fmt("\"op\":\"%s\",\"wf\":\"%s\",\"wt\":%d,\"rc\":%ld,\"x\":%ld,\"y\":%ld,\"bad\":%d,\"s\":{", op, ufs.back().k, ufs.back().t, rc, x, y, bad) + s + "}");
  }
  bool exists(int i) { return h[i] || nbase[i] > 0 || nfn[i] > 0 || pending[i]; }
  bool kept(int a) {
    for (int j = 1; j <= N; ++j)
      if (nfn[j] && par[j] == a) return true;
    return false;
  }
  // would dropping the future of a let go of something that is not over?
  bool frees_unfinished(int a) {
    bool freed[MAXID] = {};
    for (int x = a; x > 0; x = par[x]) {
      if (x != a && h[x]) return false;
      for (int j = 1; j <= N; ++j)
        if (nfn[j] && par[j] == x && !freed[j]) return false;
      if (!done[x]) return true;
      freed[x] = true;
      if (base[x]) return false;
    }
    return false;
  }
  bool legal(const drv::Cmd &m) {
    int a = m.at(0), b = m.at(1);
    const std::string &o = m.op;
    const char *k = ufs.back().k;
    int me = ufs.back().t;
    if (o == "ret") return k == BODY || k == IN_;
    if (o == "ys") return k == BODY || (k == IN_ && !(killed[me] && (rt[me] == 2 || rt[me] == 4)));
    if (o == "fret") return k == FN;
    if (o == "mset" || o == "mget" || o == "mid") return k == BODY;
    if (a < 1 || a > N) return false;
    if (o == "new") return !exists(a);
    if (o == "start") return h[a] && base[a] && !started[a];
    if (o == "then") return h[a] && h[a]->index() >= 3 && b >= 1 && b <= N && !exists(b);
    if (o == "go") return !!gate[a];
    if (o == "drop") return h[a] && k == MAIN && (done[a] || kept(a)) && !frees_unfinished(a);
    if (o == "kill") {
      if (!h[a] || h[a]->index() < 3 || (base[a] && !started[a])) return false;
      if (base[a] || done[a] || killed[a]) return true;
      if (gate[a]) return rt[a] != 2 && rt[a] != 4;
      return !late[a];
    }
    if (o == "pset") return h[a] && (h[a]->index() == 3 || h[a]->index() == 4);
    if (o == "cget") return h[a] && done[a];
    return false;
  }
  bool next(drv::Cmd &m) {
    while (!over) {
      if (!drv::more()) {
        over = true;
        break;
      }
      m = drv::take();
      if (!legal(m)) continue;
      drv::ev_cmd(m);
      return true;
    }
    return false;
  }
  void set(int i, Holder &&x) {
    h[i].reset(new Holder(std::move(x)));
    std::visit(
        [&](auto &f) {
          if constexpr (is_task<std::decay_t<decltype(f)>>::value) ident[i] = f.get_id();
        },
        *h[i]);
  }
  // ---------------------------------------------------------------- coroutines of users
  // commands of a body or of a functor's coroutine that need no suspension
  bool plain(const drv::Cmd &m) { return m.op != "ret" && m.op != "ys" && m.op != "mset" && m.op != "mget" && m.op != "mid"; }
  template <class T>
  static TF<T, Pd> body_of(World *w, int i, Track tr, long) {
    (void)tr;
#define BODY_TEXT                                                                           \
  {                                                                                         \
    long r = 0;                                                                             \
    w->ufs.push_back({BODY, i});                                                            \
    w->emit("enter", i, 0, 0);                                                              \
    drv::Cmd m;                                                                             \
    while (w->next(m)) {                                                                    \
      if (m.op == "ret") {                                                                  \
        r = m.at(0);                                                                        \
        break;                                                                              \
      } else if (m.op == "ys") {                                                            \
        co_await Gate{w, i};                                                                \
        w->ufs.push_back({BODY, i});                                                        \
        w->emit("cont", i, 0, 0);                                                           \
      } else if (m.op == "mset") {                                                          \
        Pd *p = co_yield TF<T, Pd>::yield_private_data();                                   \
        p->p.reset(new long(m.at(0)));                                                      \
        w->emit("ret", 0, 0, 0);                                                            \
      } else if (m.op == "mget") {                                                          \
        Pd *p = co_yield cotask::task_private_data<Pd>();                                   \
        w->emit("ret", 0, p->get(), 0);                                                     \
      } else if (m.op == "mid") {                                                           \
        uint64_t x = co_yield TF<T, Pd>::yield_task_id();                                   \
        uint64_t y = co_yield cotask::task_pick_id<typename TF<T, Pd>::id_type>();          \
        w->emit("ret", x == w->ident[i] && x == y, 0, 0);                                   \
      } else                                                                                \
        w->exec(m);                                                                         \
    }                                                                                       \
    w->pop(BODY, i);                                                                        \
    w->done[i] = true;                                                                      \
    if constexpr (std::is_void_v<T>)                                                        \
      co_return;                                                                            \
    else                                                                                    \
      co_return static_cast<int>(r);                                                        \
  }
    BODY_TEXT
  }
  template <class T>
  static TF<T, Pd> plain_body_of(World *w, int i, Track tr) {
    (void)tr;
    BODY_TEXT
  }
  template <class FUT, class T>
  static FUT inner(World *w, int j, Track tr) {
    (void)tr;
    long r = 0;
    w->ufs.push_back({IN_, j});
    w->emit("in", j, 0, 0);
    drv::Cmd m;
    while (w->next(m)) {
      if (m.op == "ret") {
        r = m.at(0);
        break;
      } else if (m.op == "ys") {
        if (!w->killed[j]) w->late[j] = true;
        co_await Gate{w, j};
        w->ufs.push_back({IN_, j});
        w->emit("cont", j, 0, 0);
      } else
        w->exec(m);
    }
    w->pop(IN_, j);
    w->done[j] = true;
    if constexpr (std::is_void_v<T>)
      co_return;
    else
      co_return static_cast<int>(r);
  }
  // the functor: sees its parent's context and value
  template <class PTR>
  long call(int j, PTR &ctx, long v) {
    ufs.push_back({FN, j});
    long pd = -1;
    if constexpr (requires { ctx->get_private_data(); }) pd = ctx->get_private_data().get();
    if (ctx->get_id() != ident_parent[j]) bad |= 128;
    emit("fn", j + 10 * ctx->is_ready(), v, pd);
    long r = 0;
    drv::Cmd m;
    while (next(m)) {
      if (m.op == "fret") {
        r = m.at(0);
        break;
      }
      exec(m);
    }
    pop(FN, j);
    return r;
  }
  uint64_t ident_parent[MAXID] = {};
  template <class PTR, int RT>
  auto result(int j, PTR &ctx, long v) {
    long r = call(j, ctx, v);
    if constexpr (RT == 0) {
      done[j] = true;
      return static_cast<int>(r);
    } else if constexpr (RT == 1)
      done[j] = true;
    else if constexpr (RT == 2)
      return inner<CF<int>, int>(this, j, Track(&nin[j]));
    else if constexpr (RT == 3)
      return inner<CF<void>, void>(this, j, Track(&nin[j]));
    else if constexpr (RT == 4)
      return inner<TF<int, void>, int>(this, j, Track(&nin[j]));
    else
      return inner<TF<void, Pd>, void>(this, j, Track(&nin[j]));
  }
  template <class H, int RT>
  auto functor(int j) {
    using PTR = typename H::context_pointer_type;
    if constexpr (std::is_void_v<typename H::value_type>)
      return [this, j, tr = Track(&nfn[j])](PTR ctx) { return result<PTR, RT>(j, ctx, 0); };
    else
      return [this, j, tr = Track(&nfn[j])](PTR ctx, int v) { return result<PTR, RT>(j, ctx, v); };
  }
  template <class H, int RT>
  void then(H &f, int j, int hk, long v) {
    if (hk == 0)
      set(j, Holder(f.then(functor<H, RT>(j))));
    else if (hk == 2)
      set(j, Holder(f.then(functor<H, RT>(j), nullptr)));
    else if (v % 2) {
      const Pd pd(v);
      set(j, Holder(f.then(functor<H, RT>(j), pd)));
    } else
      set(j, Holder(f.then(functor<H, RT>(j), Pd(v))));
  }
  template <class H>
  void then_rt(H &f0, int j, int hk, int rt, long v) {
    H f(f0);
    ident_parent[j] = f.get_id();
    if (rt == 0) then<H, 0>(f, j, hk, v);
    if (rt == 1) then<H, 1>(f, j, hk, v);
    if (rt == 2) then<H, 2>(f, j, hk, v);
    if (rt == 3) then<H, 3>(f, j, hk, v);
    if (rt == 4) then<H, 4>(f, j, hk, v);
    if (rt == 5) then<H, 5>(f, j, hk, v);
  }
  template <class H>
  static CF<void> probe(H *f, long *out, int *n) {
    if constexpr (std::is_void_v<typename H::value_type>)
      co_await *f;
    else
      *out = co_await *f;
    ++*n;
    co_return;
  }
  void exec(const drv::Cmd &m) {
    int a = m.at(0), b = m.at(1);
    const std::string &o = m.op;
    long rc = 0, x = 0;
    if (o == "new") {
      done[a] = started[a] = killed[a] = late[a] = false;
      par[a] = rt[a] = 0;
      base[a] = true;
      long v = m.at(3);
      if (b == 0)
        m.at(2) ? set(a, Holder(body_of<int>(this, a, Track(&nbase[a]), v))) : set(a, Holder(plain_body_of<int>(this, a, Track(&nbase[a]))));
      else
        m.at(2) ? set(a, Holder(body_of<void>(this, a, Track(&nbase[a]), v))) : set(a, Holder(plain_body_of<void>(this, a, Track(&nbase[a]))));
    } else if (o == "start") {
      started[a] = true;
      std::visit(
          [&](auto &f) {
            if constexpr (is_task<std::decay_t<decltype(f)>>::value) {
              std::decay_t<decltype(f)> g(f);
              rc = g.start();
            }
          },
          *h[a]);
    } else if (o == "then") {
      done[b] = base[b] = killed[b] = late[b] = false;
      rt[b] = m.at(3);
      pending[b] = true;
      par[b] = a;
      std::visit(
          [&](auto &f) {
            if constexpr (is_task<std::decay_t<decltype(f)>>::value) then_rt(f, b, m.at(2), m.at(3), m.at(4));
          },
          *h[a]);
      pending[b] = false;
    } else if (o == "kill") {
      std::visit(
          [&](auto &f) {
            if constexpr (is_task<std::decay_t<decltype(f)>>::value) {
              std::decay_t<decltype(f)> g(f);
              bool gated = base[a] && gate[a];
              if (!done[a]) killed[a] = true;
              rc = g.kill(copp::promise_status::kKilled, gated);
            }
          },
          *h[a]);
    } else if (o == "go") {
      std::coroutine_handle<> c = std::exchange(gate[a], nullptr);
      c.resume();
    } else if (o == "drop") {
      std::unique_ptr<Holder> f(std::move(h[a]));
      f.reset();
    } else if (o == "pset") {
      std::visit(
          [&](auto &f) {
            if constexpr (has_pd<std::decay_t<decltype(f)>>::value) *f.get_private_data() = Pd(b);
          },
          *h[a]);
    } else if (o == "cget") {
      int n = 0;
      std::visit(
          [&](auto &f) {
            if constexpr (!std::is_same_v<std::decay_t<decltype(f)>, std::monostate>) {
              CF<void> p = probe(&f, &x, &n);
            }
          },
          *h[a]);
      rc = n;
    }
    emit("ret", rc, x, 0);
  }
  void run() {
    ufs.push_back({MAIN, 0});
    drv::Cmd m;
    while (next(m)) exec(m);
    over = true;
    for (int i = 1; i <= N; ++i) {
      std::unique_ptr<Holder> f(std::move(h[i]));
      f.reset();
    }
    for (int i = 1; i <= N; ++i)
      if (nbase[i] || nfn[i] || nin[i]) drv::ev_note("coroutines left at the end");
    if (npd) drv::ev_note("private data left at the end");
  }
};
int main(int argc, char **argv) {
  N = atoi(argv[3]);
  return drv::main_loop(argc, argv, [] {
    over = false;
    bad = 0;
    std::unique_ptr<World> w(new World());
    w->run();
  });
}
