// Interpreter for LockMT.tla.
#include "mt.h"
#include <assert.h>
#include <libcopp/utils/lock_holder.h>
#include <libcopp/utils/spin_lock.h>
#include <memory>
using namespace drv;
namespace lk = LIBCOPP_COPP_NAMESPACE_ID::util::lock;
static std::unique_ptr<lk::spin_lock> L;
static long x;
static bool own[8];
static void call(int t, const char *op) { mt::ev_call(fmt("\"%s\",%d", op, t)); }
static void ret(int t, long rc) { mt::ev_obs(fmt("\"op\":\"ret\",\"t\":%d,\"rc\":%ld", t, rc)); }
static void inc(int t) {
  call(t, "inc");
  long v = ++x;
  ret(t, v);
}
static void exec(int t, const Cmd &c) {
  const std::string &o = c.op;
  if (o == "lock") {
    if (own[t]) return;
    call(t, "lock");
    L->lock();
    own[t] = true;
    ret(t, 0);
  } else if (o == "try") {
    call(t, "try");
    bool r = L->try_lock();
    if (r) own[t] = true;
    ret(t, r);
  } else if (o == "unlock") {
    if (!own[t]) return;
    call(t, "unlock");
    own[t] = false;
    L->unlock();
    ret(t, 0);
  } else if (o == "tryun") {
    call(t, "tryun");
    own[t] = false;
    ret(t, L->try_unlock());
  } else if (o == "is") {
    call(t, "is");
    ret(t, L->is_locked());
  } else if (o == "inc") {
    if (own[t]) inc(t);
  } else if (o == "crit") {
    if (own[t]) return;
    call(t, "lock");
    lk::lock_holder<lk::spin_lock> g(*L);
    ret(t, 0);
    inc(t);
    call(t, "unlock");
    g.reset();
    ret(t, 0);
  } else if (o == "gtry") {
    call(t, "try");
    lk::lock_holder<lk::spin_lock, lk::detail::default_try_lock_action<lk::spin_lock>, lk::detail::default_try_unlock_action<lk::spin_lock>> g(*L);
    ret(t, g.is_available());
    if (g.is_available()) {
      inc(t);
      call(t, "tryun");
      bool was = g.is_available();
      g.reset();
      ret(t, was);
    }
  }
}
int main(int argc, char **argv) {
  mt::Harness h;
  h.setup = [] {
    L.reset(new lk::spin_lock());
    x = 0;
    memset(own, 0, sizeof own);
  };
  h.exec = exec;
  h.end = [](int t) {
    if (own[t]) exec(t, parse("unlock")[0]);
  };
  h.finish = [] {
    mt::ev_obs(fmt("\"op\":\"end\",\"x\":%ld,\"locked\":%d", x, L->is_locked() ? 1 : 0));
    L.reset();
  };
  return mt::main_loop(argc, argv, h);
}
