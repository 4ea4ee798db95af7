// Interpreter for Fut.tla.  The payload kind is a compile-time choice, so every kind is instantiated and one picked at run time.
#include "drv.h"
#include <libcopp/future/future.h>
#include <libcopp/future/poller.h>
#include <libcopp/future/storage.h>
#include <memory>
#include <set>
using namespace drv;
namespace fu = LIBCOPP_COPP_NAMESPACE_ID::future;
static long np = 2, nr = 2, pk = 1, rk = 1;
static long live = 0;
template <int N>
struct W {
  long w[N];
  W() = default;
  W(long v) {
    for (int i = 0; i < N; ++i) w[i] = v * 1000 + i;
  }
  W(long v, long chk) : W(v) {
    if (chk != v + 5) w[0] = -1;
  }
  long val() const {
    for (int i = 0; i < N; ++i)
      if (w[i] != w[0] + i) return -7;
    return w[0] / 1000;
  }
};
template <int N>
struct WD : W<N> {
  long extra = 9;
  WD(long v) : W<N>(v) {}
};
struct Owned {
  long v;
  const Owned *self;
  std::unique_ptr<long> heap;
  static std::set<const Owned *> &all() {
    static std::set<const Owned *> s;
    return s;
  }
  Owned(long x) : v(x), self(this), heap(new long(x)) { ++live, all().insert(this); }
  Owned(long x, long chk) : Owned(chk == x + 5 ? x : -3) {}
  Owned(const Owned &) = delete;
  Owned &operator=(const Owned &) = delete;
  virtual ~Owned() {
    if (self != this || !all().erase(this)) {
      ev_note("payload destroyed twice");
      _exit(95);
    }
    self = nullptr, --live;
  }
  long val() const { return self == this && heap && *heap == v ? v : -7; }
  void set(long x) { v = x, *heap = x; }
};
struct OwnedD : Owned {
  std::unique_ptr<long> more{new long(1)};
  OwnedD(long x) : Owned(x) {}
};
template <int N>
static void put(W<N> &w, long v) { w = W<N>(v); }
static void put(Owned &o, long v) { o.set(v); }
template <class T>
struct Drv {
  using D = T;
};
template <int N>
struct Drv<W<N>> {
  using D = typename std::conditional<(N < 4), WD<N>, W<N>>::type;  // the heap kinds have no virtual destructor
};
template <>
struct Drv<Owned> {
  using D = OwnedD;
};
// ---------------------------------------------------------------- results
template <class S, class E>
using Res = fu::result_type<S, E>;
template <class X>
long rval(const X &x) {
  X &m = const_cast<X &>(x);
  if (x.is_success() && x.is_error()) return -5;
  if ((x.get_success() != nullptr) != x.is_success() || (x.get_error() != nullptr) != x.is_error()) return -6;
  if (m.get_success() != x.get_success() || m.get_error() != x.get_error()) return -8;
  if (x.is_success()) return x.get_success()->val();
  if (x.is_error()) return 100 + x.get_error()->val();
  return 50;
}
template <class X>
struct IsTriv {
  static const bool value = fu::default_compact_storage<typename X::success_type>::value && fu::default_compact_storage<typename X::error_type>::value;
};
template <class X>
X mkres(long v) {
  if (v > 100) return X::create_error(v - 100);
  return X::create_success(v);
}
template <class X>
typename X::storage_type mkstore(long v) {
  if (v > 100) return X::make_error(v - 100);
  return X::make_success(v);
}
template <class X>
X unstore(std::unique_ptr<X> &&p) { return std::move(*p); }
template <class X>
X unstore(X &&p) { return std::move(p); }
struct RBase {
  virtual ~RBase() {}
  virtual bool ex(long r) = 0;
  virtual long val(long r) = 0;
  virtual void exec(const Cmd &c) = 0;
  virtual void *raw(long r) = 0;
};
template <class X>
struct RImpl : RBase {
  std::unique_ptr<X> r[8];
  bool ex(long i) override { return (bool)r[i]; }
  long val(long i) override { return r[i] ? rval(*r[i]) : -1; }
  void *raw(long i) override { return r[i].get(); }
  void copy(long p, long q, bool ctor, std::true_type) {
    if (ctor) r[p].reset(new X(static_cast<const X &>(*r[q]))); else *r[p] = static_cast<const X &>(*r[q]);
  }
  void copy(long, long, bool, std::false_type) {}
  void exec(const Cmd &c) override {
    long p = c.at(0), q = c.at(1);
    const std::string &o = c.op;
    if (o == "rnew") {
      r[p].reset(new X());
    } else if (o == "rset") {
      if (r[p]) *r[p] = mkres<X>(q); else r[p].reset(new X(mkres<X>(q)));
    } else if (o == "rmake") {
      if (r[p]) *r[p] = unstore<X>(mkstore<X>(q)); else r[p].reset(new X(unstore<X>(mkstore<X>(q))));
    } else if (o == "rmctor") {
      r[p].reset(new X(std::move(*r[q])));
    } else if (o == "rmass") {
      *r[p] = std::move(*r[q]);
    } else if (o == "rcctor" || o == "rcass") {
      copy(p, q, o == "rcctor", std::integral_constant<bool, IsTriv<X>::value>());
    } else if (o == "rswap") {
      using std::swap;
      swap(*r[p], *r[q]);
    } else if (o == "rmut") {
      if (r[p]->is_success()) put(*r[p]->get_success(), q); else put(*r[p]->get_error(), q);
    } else if (o == "rdel")
      r[p].reset();
  }
};
static RBase *mkR() {
  switch (rk) {
    case 1: return new RImpl<Res<W<1>, W<1>>>();
    case 2: return new RImpl<Res<W<3>, W<1>>>();
    case 3: return new RImpl<Res<W<1>, W<4>>>();
    case 4: return new RImpl<Res<W<4>, W<2>>>();
    case 5: return new RImpl<Res<W<1>, Owned>>();
    case 6: return new RImpl<Res<Owned, W<1>>>();
    case 7: return new RImpl<Res<Owned, Owned>>();
    case 8: return new RImpl<Res<W<12>, W<12>>>();
    default: return new RImpl<Res<W<3>, W<12>>>();
  }
}
static RBase *R;
// ---------------------------------------------------------------- pollers
struct PBase {
  virtual ~PBase() {}
  virtual bool ex(long p) = 0;
  virtual long val(long p) = 0;
  virtual long exec(const Cmd &c) = 0;
};
template <class T>
struct Tr {  // plain payload
  static long val(const T &t) { return t.val(); }
  static void mut(T &t, long v) { put(t, v); }
};
template <class S, class E>
struct Tr<Res<S, E>> {
  static long val(const Res<S, E> &t) { return rval(t); }
  static void mut(Res<S, E> &t, long v) {
    if (t.is_success()) put(*t.get_success(), v); else put(*t.get_error(), v);
  }
};
template <class T, class PTR>
struct PImpl : PBase {
  using F = fu::future<T, PTR>;
  using Po = fu::poller<T, PTR>;
  std::unique_ptr<F> f;
  std::unique_ptr<Po> ps[8];
  Po &P(long p) { return p == 1 ? f->poll_data() : *ps[p]; }
  bool ex(long p) override { return p == 1 ? (bool)f : (bool)ps[p]; }
  static const bool triv = COPP_IS_TIRVIALLY_COPYABLE_V(T);
  static const bool shared = std::is_same<PTR, std::shared_ptr<T>>::value;
  template <class X>
  static long look(X &x) {
    const X &c = x;
    if (c.is_ready() == c.is_pending() || (c.data() != nullptr) != c.is_ready()) return -4;
    if (x.data() != c.data() || (void *)x.raw_ptr().get() != (void *)c.data() || c.raw_ptr().get() != x.raw_ptr().get()) return -8;
    return c.is_ready() ? Tr<T>::val(*c.data()) : 0;
  }
  long val(long p) override {
    if (!ex(p)) return -1;
    if (p > 1) return look(*ps[p]);
    long a = look(*f), b = look(f->poll_data());
    return a == b ? a : -9;
  }
  template <class A>
  void give(long p, A &&a) {
    if (p == 1 && f) f->reset_data(std::forward<A>(a));
    else if (ps[p]) *ps[p] = std::forward<A>(a);
    else ps[p].reset(new Po(std::forward<A>(a)));
  }
  // plain payloads
  template <class U>
  void value(long p, long v, U *, std::true_type) {
    const U u(v);
    if (p % 2) give(p, u); else give(p, U(v));
  }
  template <class U>
  void value(long p, long v, U *, std::false_type) { give(p, v); }
  template <class S, class E>
  void value(long p, long v, Res<S, E> *, std::true_type) { give(p, mkres<Res<S, E>>(v)); }
  template <class S, class E>
  void value(long p, long v, Res<S, E> *, std::false_type) { give(p, mkres<Res<S, E>>(v)); }
  template <class U>
  void owner(long p, long v, U *, std::false_type) {
    using DD = typename Drv<U>::D;
    if (v % 2) give(p, std::unique_ptr<U>(new U(v))); else give(p, std::unique_ptr<DD>(new DD(v)));
  }
  template <class U>
  void owner(long p, long v, U *, std::true_type) {
    using DD = typename Drv<U>::D;
    if (v % 2) give(p, std::make_shared<U>(v)); else if (p % 2) give(p, std::make_shared<DD>(v)); else give(p, std::unique_ptr<U>(new U(v)));
  }
  template <class S, class E>
  void owner(long p, long v, Res<S, E> *, std::false_type) { give(p, mkstore<Res<S, E>>(v)); }
  template <class U>
  void emp(long p, long v, U *) { ps[p].reset(new Po(v, v + 5)); }
  void emp(long, long, W<1> *) {}
  template <class S, class E>
  void emp(long, long, Res<S, E> *) {}
  template <class X>
  void rputx(long, X *) {}
  template <class S, class E>
  void rputx(long p, long r, Res<S, E> *) { give(p, std::move(*static_cast<Res<S, E> *>(R->raw(r)))); }
  template <class S, class E>
  void rtakex(long r, long p, Res<S, E> *) { *static_cast<Res<S, E> *>(R->raw(r)) = std::move(*P(p).data()); }
  template <class U>
  void rputx(long, long, U *) {}
  template <class U>
  void rtakex(long, long, U *) {}
  long exec(const Cmd &c) override {
    long p = c.at(0), q = c.at(1), rc = 0;
    const std::string &o = c.op;
    T *tag = nullptr;
    std::integral_constant<bool, triv> tt;
    std::integral_constant<bool, shared> sh;
    if (o == "new") {
      if (p == 1) f.reset(new F()); else ps[p].reset(new Po());
    } else if (o == "newv" || o == "put")
      value(p, q, tag, tt);
    else if (o == "newp" || o == "putp")
      owner(p, q, tag, sh);
    else if (o == "emp")
      emp(p, q, tag);
    else if (o == "putn")
      give(p, std::unique_ptr<T>());
    else if (o == "newm")
      ps[p].reset(new Po(std::move(P(q))));
    else if (o == "mass") {
      if (p == 1) f->reset_data(std::move(P(q))); else *ps[p] = std::move(P(q));
    } else if (o == "swap") {
      using std::swap;
      if (p % 2) P(p).swap(P(q)); else swap(P(p), P(q));
    } else if (o == "mut") {
      if (p == 1) Tr<T>::mut(*f->data(), q); else Tr<T>::mut(*P(p).data(), q);
    } else if (o == "reset") {
      if (p == 1) f->reset_data(); else ps[p]->reset();
    } else if (o == "take") {
      PTR x = std::move(p == 1 ? f->raw_ptr() : ps[p]->raw_ptr());
      rc = x ? Tr<T>::val(*x) : 0;
    } else if (o == "del") {
      if (p == 1) f.reset(); else ps[p].reset();
    } else if (o == "rput")
      rputx(p, q, tag);
    else if (o == "rtake")
      rtakex(p, q, tag);
    return rc;
  }
};
struct PVoid : PBase {
  using F = fu::future<void>;
  using Po = fu::poller<void>;
  std::unique_ptr<F> f;
  std::unique_ptr<Po> ps[8];
  Po &P(long p) { return p == 1 ? f->poll_data() : *ps[p]; }
  bool ex(long p) override { return p == 1 ? (bool)f : (bool)ps[p]; }
  template <class X>
  static long look(X &x) {
    const X &c = x;
    if (c.is_ready() == c.is_pending() || (c.data() != nullptr) != c.is_ready() || x.data() != c.data()) return -4;
    return c.is_ready() ? 1 : 0;
  }
  long val(long p) override {
    if (!ex(p)) return -1;
    if (p > 1) return look(*ps[p]);
    long a = look(*f), b = look(f->poll_data());
    return a == b ? a : -9;
  }
  template <class A>
  void give(long p, A &&a) {
    if (p == 1 && f) f->reset_data(std::forward<A>(a));
    else if (ps[p]) *ps[p] = std::forward<A>(a);
    else ps[p].reset(new Po(std::forward<A>(a)));
  }
  long exec(const Cmd &c) override {
    long p = c.at(0), q = c.at(1), rc = 0;
    const std::string &o = c.op;
    if (o == "new") {
      if (p == 1) f.reset(new F()); else ps[p].reset(new Po());
    } else if (o == "newv" || o == "put") {
      if (q % 2) give(p, true); else give(p, 5);
    } else if (o == "newp" || o == "putp")
      give(p, std::unique_ptr<bool>(new bool(true)));
    else if (o == "putn") {
      if (p % 2) give(p, std::unique_ptr<bool>()); else give(p, false);
    } else if (o == "newm")
      ps[p].reset(new Po(std::move(P(q))));
    else if (o == "mass") {
      if (p == 1) f->reset_data(std::move(P(q))); else *ps[p] = std::move(P(q));
    } else if (o == "swap") {
      using std::swap;
      if (p % 2) P(p).swap(P(q)); else swap(P(p), P(q));
    } else if (o == "reset") {
      if (p == 1) f->reset_data(); else ps[p]->reset();
    } else if (o == "take") {
      Po::ptr_type x = std::move(p == 1 ? f->raw_ptr() : ps[p]->raw_ptr());
      rc = x ? 1 : 0;
    } else if (o == "del") {
      if (p == 1) f.reset(); else ps[p].reset();
    }
    return rc;
  }
};
template <class T>
static PBase *mkP1() { return new PImpl<T, typename fu::poll_storage_ptr_selector<T>::type>(); }
static PBase *mkP() {
  switch (pk) {
    case 1: return mkP1<W<1>>();
    case 2: return mkP1<W<3>>();
    case 3: return mkP1<W<4>>();
    case 4: return mkP1<W<12>>();
    case 5: return mkP1<Owned>();
    case 6: return new PImpl<Owned, std::shared_ptr<Owned>>();
    case 7: return new PVoid();
    default: break;
  }
  switch (rk) {
    case 1: return mkP1<Res<W<1>, W<1>>>();
    case 2: return mkP1<Res<W<3>, W<1>>>();
    case 3: return mkP1<Res<W<1>, W<4>>>();
    case 4: return mkP1<Res<W<4>, W<2>>>();
    case 5: return mkP1<Res<W<1>, Owned>>();
    case 6: return mkP1<Res<Owned, W<1>>>();
    case 7: return mkP1<Res<Owned, Owned>>();
    case 8: return mkP1<Res<W<12>, W<12>>>();
    default: return mkP1<Res<W<3>, W<12>>>();
  }
}
static PBase *Pp;
static void obs(long rc) {
  std::string s = fmt("\"op\":\"ret\",\"rc\":%ld,\"pl\":[", rc);
  for (int i = 1; i <= np; ++i) s += fmt("%s%ld", i > 1 ? "," : "", Pp->val(i));
  s += "],\"rs\":[";
  for (int i = 1; i <= nr; ++i) s += fmt("%s%ld", i > 1 ? "," : "", R->val(i));
  ev_obs(s + fmt("],\"live\":%ld", live));
}
static bool legal(const Cmd &c) {
  long p = c.at(0), q = c.at(1);
  const std::string &o = c.op;
  bool triv = rk <= 4;
  if (o[0] == 'r' && o != "reset" && o != "rput" && o != "rtake") {
    bool e = R->ex(p);
    if (o == "rnew") return !e && !triv;
    if (o == "rset" || o == "rmake") return true;
    if (o == "rmctor") return !e && R->ex(q);
    if (o == "rmass") return e && R->ex(q) && p != q;
    if (o == "rcctor") return triv && !e && R->ex(q);
    if (o == "rcass") return triv && e && R->ex(q);
    if (o == "rswap") return e && R->ex(q);
    if (o == "rmut") return e && R->val(p) != 50;
    return e;
  }
  if (o == "rput") return pk == 8 && Pp->ex(p) && R->ex(q);
  if (o == "rtake") return pk == 8 && R->ex(p) && Pp->ex(q) && Pp->val(q) != 0;
  bool e = Pp->ex(p);
  if (o == "new") return !e;
  if (o == "newv" || o == "newp") return !e && (q <= 100 || pk == 8) && p != 1;
  if (o == "newm") return !e && Pp->ex(q) && p != 1;
  if (o == "put" || o == "putp") return e && (q <= 100 || pk == 8);
  if (o == "emp") return !e && pk >= 2 && pk <= 6 && p != 1;
  if (o == "mass") return e && Pp->ex(q) && p != q;
  if (o == "swap") return e && Pp->ex(q);
  if (o == "mut") return e && Pp->val(p) != 0 && pk != 7 && Pp->val(p) != 50;
  if (o == "take") return e && pk != 8;
  return e;
}
static void exec(const Cmd &c) {
  if (!legal(c)) return;
  ev_cmd(c);
  long rc = 0;
  const std::string &o = c.op;
  if (o[0] == 'r' && o != "reset" && o != "rput" && o != "rtake") R->exec(c);
  else rc = Pp->exec(c);
  obs(rc);
}
int main(int argc, char **argv) {
  np = argc > 3 ? atol(argv[3]) : 2;
  nr = argc > 4 ? atol(argv[4]) : 2;
  pk = argc > 5 ? atol(argv[5]) : 1;
  rk = argc > 6 ? atol(argv[6]) : 1;
  return main_loop(argc, argv, [] {
    R = mkR(), Pp = mkP();
    while (more()) exec(take());
    for (int i = 1; i <= np; ++i) exec(parse(fmt("del %d", i))[0]);
    for (int i = 1; i <= nr; ++i) exec(parse(fmt("rdel %d", i))[0]);
    delete R;
    delete Pp;
  });
}
