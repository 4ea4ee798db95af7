// Interpreter for Iptr.tla.
#include "drv.h"
#include <assert.h>
#include <libcopp/utils/atomic_int_type.h>
#include <libcopp/utils/intrusive_ptr.h>
#include <map>
#include <memory>
#include <sstream>
using namespace drv;
namespace lu = LIBCOPP_COPP_NAMESPACE_ID::util;
static long no = 2, np = 3, nb = 2;
struct Pad {
  long x = 77;
  virtual ~Pad() {}
};
class Base;
void intrusive_ptr_add_ref(Base *p);
void intrusive_ptr_release(Base *p);
class Base {
 public:
  LIBCOPP_UTIL_INTRUSIVE_PTR_REF_MEMBER_DECL(Base)
  int id;
  lu::intrusive_ptr<Base> next;
  explicit Base(int i) : id(i) { LIBCOPP_UTIL_INTRUSIVE_PTR_REF_MEMBER_INIT(); }
  virtual ~Base();
};
class Derived : public Pad, public Base {
 public:
  explicit Derived(int i) : Base(i) {}
};
static Derived *objs[8];
Base::~Base() {
  if (!id || !objs[id]) {
    ev_note("object destroyed twice");
    _exit(95);
  }
  objs[id] = nullptr;
  id = 0;
}
LIBCOPP_UTIL_INTRUSIVE_PTR_REF_FN_DEFI(Base)
using B = lu::intrusive_ptr<Base>;
using D = lu::intrusive_ptr<Derived>;
static std::unique_ptr<B> pb[8];
static std::unique_ptr<D> pd[8];
static long raws[8];
static bool isb(long p) { return p <= nb; }
static bool ex(long p) { return isb(p) ? (bool)pb[p] : (bool)pd[p]; }
static Base *get(long p) { return isb(p) ? pb[p]->get() : (Base *)pd[p]->get(); }
static int ident(Base *b) {
  if (!b) return 0;
  for (int i = 1; i <= no; ++i)
    if (objs[i] && (Base *)objs[i] == b) return i;
  return -9;
}
static long cmp_ok() {
  // every comparison and conversion must agree with the raw pointers
  for (long p = 1; p <= np; ++p) {
    if (!ex(p)) continue;
    Base *a = get(p);
    bool t = isb(p) ? (bool)*pb[p] : (bool)*pd[p], n = isb(p) ? !*pb[p] : !*pd[p];
    if (t != (a != nullptr) || n != (a == nullptr)) return 0;
    if (isb(p)) {
      B &x = *pb[p];
      if ((x == nullptr) != !a || (nullptr == x) != !a || (x != nullptr) != !!a || get_pointer(x) != a || !(x == a) || !(a == x)) return 0;
      if (a && (&*x != a || x.operator->() != a)) return 0;
      std::ostringstream s1, s2;
      s1 << x;
      s2 << a;
      if (s1.str() != s2.str()) return 0;
      for (long q = 1; q <= nb; ++q)
        if (ex(q)) {
          B &y = *pb[q];
          Base *b = y.get();
          if ((x == y) != (a == b) || (x != y) != (a != b) || (x < y) != (a < b) || (x <= y) != (a <= b) || (x > y) != (a > b) || (x >= y) != (a >= b)) return 0;
        }
      for (long q = nb + 1; q <= np; ++q)
        if (ex(q) && (x == *pd[q]) != (a == (Base *)pd[q]->get())) return 0;
    }
  }
  return 1;
}
static void obs(long rc) {
  std::string s = fmt("\"op\":\"ret\",\"rc\":%ld,\"cnt\":[", rc);
  for (int i = 1; i <= no; ++i) s += fmt("%s%ld", i > 1 ? "," : "", objs[i] ? (long)objs[i]->use_count() : -1);
  s += "],\"ptr\":[";
  for (int i = 1; i <= np; ++i) s += fmt("%s%d", i > 1 ? "," : "", ex(i) ? ident(get(i)) : -1);
  s += "],\"nxt\":[";
  for (int i = 1; i <= no; ++i) s += fmt("%s%d", i > 1 ? "," : "", objs[i] ? ident(objs[i]->next.get()) : 0);
  ev_obs(s + fmt("],\"cmp\":%ld", cmp_ok()));
}
static int fresh() {
  for (int i = 1; i <= no; ++i)
    if (!objs[i]) return i;
  return 0;
}
static bool reach(Base *o, Base *t) {
  for (; o; o = o->next.get())
    if (o == t) return true;
  return false;
}
static bool legal(const Cmd &c) {
  long p = c.at(0), q = c.at(1), k = c.at(2);
  const std::string &o = c.op;
  if (o == "null") return !ex(p);
  if (o == "new") return !ex(p) && fresh();
  if (o == "assnew" || o == "assuniq" || o == "resetnew") return ex(p) && fresh();
  if (o == "ctor" || o == "rawctor" || o == "mctor") return !ex(p) && ex(q) && (!isb(q) || isb(p));
  if (o == "ass" || o == "mass") return ex(p) && ex(q) && (!isb(q) || isb(p)) && (o == "ass" || p != q);
  if (o == "resetraw") return ex(p) && ex(q) && (!isb(q) || isb(p));
  if (o == "cast") return ex(p) && ex(q) && (k == 3 ? isb(p) == isb(q) : isb(q) && !isb(p));
  if (o == "swap") return ex(p) && ex(q) && isb(p) == isb(q);
  if (o == "adopt") return !ex(p) && raws[q] > 0;
  if (o == "resetadopt") return ex(p) && raws[q] > 0;
  if (o == "link" || o == "linkmv") return objs[p] && ex(q) && !reach(get(q), objs[p]) && (o == "link" || isb(q));
  if (o == "adv") return ex(p) && ex(q) && get(q) && isb(p);
  return ex(p);
}
static void exec(const Cmd &c) {
  if (!legal(c)) return;
  ev_cmd(c);
  long p = c.at(0), q = c.at(1), k = c.at(2), rc = 0;
  const std::string &o = c.op;
  auto mk = [] {
    int i = fresh();
    return objs[i] = new Derived(i);
  };
  if (o == "null") {
    if (isb(p)) pb[p].reset(new B()); else pd[p].reset(new D());
  } else if (o == "new") {
    if (isb(p)) pb[p].reset(new B(mk())); else pd[p].reset(new D(mk()));
  } else if (o == "assnew") {
    // the previous object may go away first or last; the new one must not reuse its name in between
    Derived *n = mk();
    if (isb(p)) *pb[p] = B(n); else *pd[p] = D(n);
  } else if (o == "assuniq") {
    std::unique_ptr<Derived> u(mk());
    if (isb(p)) *pb[p] = std::move(u); else *pd[p] = std::move(u);
  } else if (o == "resetnew") {
    Derived *n = mk();
    if (isb(p)) pb[p]->reset(n); else pd[p]->reset(n);
  } else if (o == "ctor") {
    if (isb(p)) pb[p].reset(isb(q) ? new B(*pb[q]) : new B(*pd[q])); else pd[p].reset(new D(*pd[q]));
  } else if (o == "rawctor") {
    if (isb(p)) pb[p].reset(new B(get(q))); else pd[p].reset(new D(pd[q]->get()));
  } else if (o == "mctor") {
    if (isb(p)) pb[p].reset(isb(q) ? new B(std::move(*pb[q])) : new B(std::move(*pd[q]))); else pd[p].reset(new D(std::move(*pd[q])));
  } else if (o == "ass") {
    if (isb(p)) {
      if (isb(q)) *pb[p] = *pb[q]; else *pb[p] = *pd[q];
    } else
      *pd[p] = *pd[q];
  } else if (o == "mass") {
    if (isb(p)) {
      if (isb(q)) *pb[p] = std::move(*pb[q]); else *pb[p] = std::move(*pd[q]);
    } else
      *pd[p] = std::move(*pd[q]);
  } else if (o == "resetraw") {
    if (isb(p)) pb[p]->reset(get(q)); else pd[p]->reset(pd[q]->get());
  } else if (o == "cast") {
    if (k == 1) *pd[p] = lu::static_pointer_cast<Derived>(*pb[q]);
    if (k == 2) *pd[p] = lu::dynamic_pointer_cast<Derived>(*pb[q]);
    if (k == 3) {
      if (isb(p)) *pb[p] = lu::const_pointer_cast<Base>(*pb[q]); else *pd[p] = lu::const_pointer_cast<Derived>(*pd[q]);
    }
  } else if (o == "swap") {
    if ((p + q) % 2) {
      if (isb(p)) pb[p]->swap(*pb[q]); else pd[p]->swap(*pd[q]);
    } else {
      using std::swap;
      if (isb(p)) swap(*pb[p], *pb[q]); else swap(*pd[p], *pd[q]);
    }
  } else if (o == "reset") {
    if (isb(p)) pb[p]->reset(); else pd[p]->reset();
  } else if (o == "del") {
    pb[p].reset(), pd[p].reset();
  } else if (o == "detach") {
    Base *b = isb(p) ? pb[p]->detach() : (Base *)pd[p]->detach();
    rc = ident(b);
    if (b) ++raws[b->id];
  } else if (o == "adopt") {
    --raws[q];
    if (isb(p)) pb[p].reset(new B(objs[q], false)); else pd[p].reset(new D(objs[q], false));
  } else if (o == "resetadopt") {
    --raws[q];
    if (isb(p)) pb[p]->reset(objs[q], false); else pd[p]->reset(objs[q], false);
  } else if (o == "link") {
    if (isb(q)) objs[p]->next = *pb[q]; else objs[p]->next = *pd[q];
  } else if (o == "linkmv")
    objs[p]->next = std::move(*pb[q]);
  else if (o == "adv") {
    Base *s = get(q);
    if (k) *pb[p] = std::move(s->next); else *pb[p] = s->next;
  }
  obs(rc);
}
int main(int argc, char **argv) {
  no = argc > 3 ? atol(argv[3]) : 2;
  np = argc > 4 ? atol(argv[4]) : 3;
  nb = argc > 5 ? atol(argv[5]) : 2;
  return main_loop(argc, argv, [] {
    memset(raws, 0, sizeof raws);
    while (more()) exec(take());
    for (int x = 1; x <= no; ++x)
      while (raws[x]) {
        exec(parse("del 1")[0]);
        exec(parse(fmt("adopt 1 %d", x))[0]);
      }
    for (int i = 1; i <= np; ++i) exec(parse(fmt("del %d", i))[0]);
  });
}
