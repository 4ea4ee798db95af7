// Interpreter for Int.tla.
#include "drv.h"
#include <assert.h>
#include <libcopp/utils/atomic_int_type.h>
#include <memory>
#include <type_traits>
using namespace drv;
namespace lk = LIBCOPP_COPP_NAMESPACE_ID::util::lock;
enum class En : unsigned { zero = 0 };
struct Dev {
  virtual ~Dev() {}
  virtual void run() = 0;
};
template <class T, bool = std::is_enum<T>::value>
struct Under {
  typedef T type;
};
template <class T>
struct Under<T, true> {
  typedef typename std::underlying_type<T>::type type;
};
template <class Ty>
struct D : Dev {
  using A = lk::atomic_int_type<Ty>;
  using V = typename A::value_type;
  using S = typename std::make_signed<typename Under<V>::type>::type;
  std::unique_ptr<A> p;
  static V in(long a) { return (V)(S)(signed char)a; }
  static long out(V v) { return (long)(S)v; }
  template <class X>
  long calc(X &x, const std::string &o, bool ord, long a) {
    if constexpr (!std::is_enum<V>::value) {
      auto m = lk::memory_order_acq_rel;
      if (o == "ppre") return out(++x);
      if (o == "ppost") return out(x++);
      if (o == "mpre") return out(--x);
      if (o == "mpost") return out(x--);
      if (o == "add") return out(ord ? x.fetch_add(in(a), m) : x.fetch_add(in(a)));
      if (o == "sub") return out(ord ? x.fetch_sub(in(a), m) : x.fetch_sub(in(a)));
      if (o == "and") return out(ord ? x.fetch_and(in(a), m) : x.fetch_and(in(a)));
      if (o == "or") return out(ord ? x.fetch_or(in(a), m) : x.fetch_or(in(a)));
      if (o == "xor") return out(ord ? x.fetch_xor(in(a), m) : x.fetch_xor(in(a)));
    }
    abort();
  }
  template <class X>
  void one(X &x, const std::string &o, int k, long a, long d) {
    bool ord = k & 1;
    long rc = 0, e = 0;
    if (o == "st") {
      if (ord) x.store(in(a), lk::memory_order_release); else x.store(in(a));
    } else if (o == "ld")
      rc = out(ord ? x.load(lk::memory_order_acquire) : x.load());
    else if (o == "conv")
      rc = out((V)x);
    else if (o == "ass")
      rc = out(x = in(a));
    else if (o == "exch")
      rc = out(ord ? x.exchange(in(a), lk::memory_order_acq_rel) : x.exchange(in(a)));
    else if (o == "casw" || o == "cass") {
      V v = in(a);
      bool w = o == "casw";
      if (k == 0 || k == 2) rc = w ? x.compare_exchange_weak(v, in(d)) : x.compare_exchange_strong(v, in(d));
      else if (k == 1 || k == 3) rc = w ? x.compare_exchange_weak(v, in(d), lk::memory_order_acq_rel, lk::memory_order_acquire)
                                        : x.compare_exchange_strong(v, in(d), lk::memory_order_acq_rel, lk::memory_order_acquire);
      e = out(v);
    } else
      rc = calc(x, o, ord, a);
    ret(rc, e);
  }
  void ret(long rc, long e) { ev_obs(fmt("\"op\":\"ret\",\"rc\":%ld,\"e\":%ld,\"x\":%ld", rc, e, p ? out(p->load()) : 0)); }
  void run() override {
    while (more()) {
      Cmd c = take();
      long k = c.at(0), a = c.at(1), d = c.at(2);
      if (c.op == "new" ? !!p : !p) continue;
      if (sizeof(V) > 1 && p && c.op != "new") {  // not beyond the numbers of the specification
        long v = out(p->load()), w = (signed char)a;
        v = c.op == "add" ? v + w : c.op == "sub" ? v - w : c.op[0] == 'p' ? v + 1 : c.op[0] == 'm' ? v - 1 : v;
        if (v < -128 || v > 127) continue;
      }
      ev_cmd(c);
      if (c.op == "new") {
        p.reset(k ? new A(in(a)) : new A());
        ret(0, 0);
      } else if (c.op == "del") {
        p.reset();
        ret(0, 0);
      } else if (k < 2)
        one<A>(*p, c.op, (int)k, a, d);
      else
        one<volatile A>(*p, c.op, (int)k, a, d);
    }
    p.reset();
  }
};
int main(int argc, char **argv) {
  long ty = argc > 3 ? atol(argv[3]) : 1;
  return main_loop(argc, argv, [ty] {
    std::unique_ptr<Dev> d;
    switch (ty) {
      case 1: d.reset(new D<signed char>()); break;
      case 2: d.reset(new D<unsigned char>()); break;
      case 3: d.reset(new D<lk::unsafe_int_type<signed char>>()); break;
      case 4: d.reset(new D<lk::unsafe_int_type<unsigned char>>()); break;
      case 5: d.reset(new D<int>()); break;
      case 6: d.reset(new D<uint32_t>()); break;
      case 7: d.reset(new D<size_t>()); break;
      case 8: d.reset(new D<lk::unsafe_int_type<int>>()); break;
      case 9: d.reset(new D<lk::unsafe_int_type<uint32_t>>()); break;
      case 10: d.reset(new D<lk::unsafe_int_type<size_t>>()); break;
      case 11: d.reset(new D<int16_t>()); break;
      case 12: d.reset(new D<uint64_t>()); break;
      case 13: d.reset(new D<En>()); break;
      default: d.reset(new D<lk::unsafe_int_type<En>>());
    }
    d->run();
  });
}
