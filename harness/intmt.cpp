// Interpreter for IntMT.tla.
#include "mt.h"
#include <assert.h>
#include <libcopp/utils/atomic_int_type.h>
#include <memory>
using namespace drv;
namespace lk = LIBCOPP_COPP_NAMESPACE_ID::util::lock;
static std::unique_ptr<lk::atomic_int_type<int>> X;
static long y;
static void ret(int t, long rc) { mt::ev_obs(fmt("\"op\":\"ret\",\"t\":%d,\"rc\":%ld", t, rc)); }
template <class A>
static long run(A &x, const std::string &o, int a, int d) {
  if (o == "add") return x.fetch_add(a);
  if (o == "sub") return x.fetch_sub(a);
  if (o == "ppre") return ++x;
  if (o == "ppost") return x++;
  if (o == "mpre") return --x;
  if (o == "mpost") return x--;
  if (o == "or") return x.fetch_or(a);
  if (o == "clr") return x.fetch_and(~a);
  if (o == "xor") return x.fetch_xor(a);
  if (o == "exch") return x.exchange(a);
  if (o == "st") return x.store(a), 0;
  if (o == "ass") return x = a, 0;
  if (o == "ld") return x.load();
  if (o == "conv") return (int)x;
  if (o == "cass" || o == "casw") {
    int e = a;
    bool r = o == "cass" ? x.compare_exchange_strong(e, d) : x.compare_exchange_weak(e, d);
    return r ? 100 : e;
  }
  if (o == "pub") {
    y = 7;
    int e = 0;
    switch (a) {
      case 0: x.store(1); break;
      case 1: x.store(1, lk::memory_order_release); break;
      case 2: x = 1; break;
      case 3: x.exchange(1); break;
      case 4: ++x; break;
      case 5: x.fetch_add(1, lk::memory_order_acq_rel); break;
      case 6: x.compare_exchange_strong(e, 1); break;
      default: x.compare_exchange_strong(e, 1, lk::memory_order_acq_rel, lk::memory_order_acquire);
    }
    return 0;
  }
  int e = 1, v = 0;
  switch (a) {
    case 0: v = x.load(); break;
    case 1: v = x.load(lk::memory_order_acquire); break;
    case 2: v = x; break;
    case 3: v = x.fetch_or(0); break;
    case 4: v = x.fetch_add(0, lk::memory_order_acq_rel); break;
    case 5: v = x.compare_exchange_strong(e, 1) ? 1 : e; break;
    default: e = 3, x.compare_exchange_strong(e, 3, lk::memory_order_acq_rel, lk::memory_order_acquire), v = e;
  }
  return v ? y : 0;
}
static void exec(int t, const Cmd &c) {
  bool msg = c.op == "pub" || c.op == "see";
  mt::ev_call(fmt("\"%s\",%d,%ld,%ld", c.op.c_str(), t, msg ? 0 : c.at(0), msg ? 0 : c.at(1)));
  ret(t, c.at(2) ? run<volatile lk::atomic_int_type<int>>(*X, c.op, (int)c.at(0), (int)c.at(1))
                 : run<lk::atomic_int_type<int>>(*X, c.op, (int)c.at(0), (int)c.at(1)));
}
int main(int argc, char **argv) {
  mt::Harness h;
  h.setup = [] {
    X.reset(new lk::atomic_int_type<int>());
    y = 0;
  };
  h.exec = exec;
  h.finish = [] {
    mt::ev_obs(fmt("\"op\":\"end\",\"x\":%d", X->load()));
    X.reset();
  };
  return mt::main_loop(argc, argv, h);
}
