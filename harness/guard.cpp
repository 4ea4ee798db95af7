// Interpreter for Guard.tla.  The lock type forwards to the library's spin lock and checks every action.
#include "drv.h"
#include <libcopp/utils/lock_holder.h>
#include <libcopp/utils/spin_lock.h>
#include <memory>
using namespace drv;
namespace ll = LIBCOPP_COPP_NAMESPACE_ID::util::lock;
static long nl = 2, ng = 2;
struct RW {
  ll::spin_lock s;
  int rd = 0;
  void lock() noexcept {
    if (s.is_locked()) {
      ev_note("blocking lock of a held lock");
      _exit(95);
    }
    s.lock();
  }
  bool try_lock() noexcept { return s.try_lock(); }
  void unlock() noexcept {
    if (!s.is_locked()) {
      ev_note("unlock of a free lock");
      _exit(95);
    }
    s.unlock();
  }
  bool try_unlock() noexcept { return s.try_unlock(); }
  void read_lock() noexcept { ++rd; }
  void read_unlock() noexcept {
    if (--rd < 0) {
      ev_note("read_unlock without a reader");
      _exit(95);
    }
  }
  void write_lock() noexcept { lock(); }
  void write_unlock() noexcept { unlock(); }
};
using G1 = ll::lock_holder<RW>;
using G2 = ll::lock_holder<RW, ll::detail::default_try_lock_action<RW>>;
using G3 = ll::lock_holder<RW, ll::detail::default_try_lock_action<RW>, ll::detail::default_try_unlock_action<RW>>;
using G4 = ll::read_lock_holder<RW>;
using G5 = ll::write_lock_holder<RW>;
struct Any {
  virtual ~Any() {}
  virtual int kind() = 0;
  virtual bool av() = 0;
  virtual void reset() = 0;
  virtual Any *moved() = 0;
  virtual void assign(Any &o) = 0;
};
template <class T, int K>
struct Of : Any {
  T t;
  explicit Of(RW &l) : t(l) {}
  explicit Of(T &&o) : t(std::move(o)) {}
  int kind() override { return K; }
  bool av() override { return t.is_available(); }
  void reset() override { t.reset(); }
  Any *moved() override { return new Of(std::move(t)); }
  void assign(Any &o) override { t = std::move(static_cast<Of &>(o).t); }
};
static RW *locks[6];
static std::unique_ptr<Any> gs[6];
static int owner_of[6];  // lock a guard owns, mirrored for legality
static void obs(long rc) {
  std::string s = fmt("\"op\":\"ret\",\"rc\":%ld,\"locked\":[", rc);
  for (int i = 1; i <= nl; ++i) s += fmt("%s%d", i > 1 ? "," : "", (int)locks[i]->s.is_locked());
  s += "],\"readers\":[";
  for (int i = 1; i <= nl; ++i) s += fmt("%s%d", i > 1 ? "," : "", locks[i]->rd);
  s += "],\"av\":[";
  for (int i = 1; i <= ng; ++i) s += fmt("%s%d", i > 1 ? "," : "", gs[i] ? (int)gs[i]->av() : -1);
  ev_obs(s + "]");
}
static bool owned(int l) {
  for (int i = 1; i <= ng; ++i)
    if (gs[i] && owner_of[i] == l) return true;
  return false;
}
static void exec(const Cmd &c) {
  int a = (int)c.at(0), b = (int)c.at(1), d = (int)c.at(2);
  if (c.op == "lock" && (locks[a]->s.is_locked() || locks[a]->rd)) return;
  if ((c.op == "unlock" || c.op == "tryun") && owned(a)) return;
  if (c.op[0] == 'g' && (c.op == "gnew" || c.op == "gmove" ? (bool)gs[a] : !gs[a])) return;
  ev_cmd(c);
  if (c.op == "lock") {
    locks[a]->s.lock();
    obs(0);
  } else if (c.op == "try")
    obs(locks[a]->s.try_lock());
  else if (c.op == "unlock") {
    locks[a]->s.unlock();
    obs(0);
  } else if (c.op == "tryun")
    obs(locks[a]->s.try_unlock());
  else if (c.op == "gnew") {
    RW &l = *locks[d];
    Any *n = b == 1 ? (Any *)new Of<G1, 1>(l) : b == 2 ? (Any *)new Of<G2, 2>(l) : b == 3 ? (Any *)new Of<G3, 3>(l) : nullptr;
    if (b == 4) n = new Of<G4, 4>(l);
    if (b == 5) n = new Of<G5, 5>(l);
    gs[a].reset(n);
    owner_of[a] = n->av() ? d : 0;
    obs(0);
  } else if (c.op == "gdel") {
    gs[a].reset();
    owner_of[a] = 0;
    obs(0);
  } else if (c.op == "greset") {
    gs[a]->reset();
    owner_of[a] = 0;
    obs(0);
  } else if (c.op == "gmove") {
    gs[a].reset(gs[b]->moved());
    owner_of[a] = owner_of[b];
    owner_of[b] = 0;
    obs(0);
  } else if (c.op == "gassign") {
    gs[a]->assign(*gs[b]);
    if (a != b) owner_of[a] = owner_of[b], owner_of[b] = 0;
    obs(0);
  }
}
int main(int argc, char **argv) {
  nl = argc > 3 ? atol(argv[3]) : 2;
  ng = argc > 4 ? atol(argv[4]) : 2;
  return main_loop(argc, argv, [] {
    for (int i = 1; i <= nl; ++i) {
      delete locks[i];
      locks[i] = new RW;
    }
    while (more()) exec(take());
    for (int i = 1; i <= ng; ++i) exec(parse(fmt("gdel %d", i))[0]);
  });
}
