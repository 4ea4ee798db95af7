// Interpreter for IdMT.tla: identifiers drawn by several threads under a virtual clock.
#include "mt.h"
#include "fixsys.h"
#include <libcotask/task.h>
#include <libcopp/utils/uint64_id_allocator.h>
using namespace drv;
static long near_ = 0;
static long now_ = 1700000000, reads_ = 0, since_ = 0;
// what was drawn before the first program: [first, last] of consecutive ones
static std::vector<std::pair<uint64_t, uint64_t>> before;
static bool was_before(uint64_t x) {
  for (auto &r : before)
    if (x >= r.first && x <= r.second) return true;
  return false;
}
static void draw_before() {
  since_ = 0;
  uint64_t x = copp::util::uint64_id_allocator::allocate();
  if (!before.empty() && before.back().second + 1 == x) before.back().second = x;
  else if (before.size() < 100000) before.push_back({x, x});
}
static const long SPIN = 4;  // readings without any progress before the clock moves by itself
static long clk() {
  mt::Quiet q;
  if (++since_ > 100000) mt::die("no identifier");
  if (++reads_ >= SPIN) {
    ++now_;
    reads_ = 0;
  }
  return now_;
}
static void exec(int, const Cmd &c) {
  int t = mt::self();
  if (c.op == "tick") {
    mt::Quiet q;
    now_ += c.at(0);
    reads_ = 0;
    return;
  }
  long n = c.at(0);
  mt::ev_call(fmt("\"%s\",%d,%ld", c.op.c_str(), t, n));
  std::string v;
  long old = 0;
  for (long k = 0; k < n; ++k) {
    uint64_t id;
    if (c.op == "task") {
      cotask::task<>::ptr_type p = cotask::task<>::create([]() {}, 65536);
      if (!p) mt::die("no task");
      id = p->get_id();
    } else {
      id = copp::util::uint64_id_allocator::allocate();
    }
    mt::Quiet q;
    reads_ = since_ = 0;
    old += was_before(id);
    v += (k ? ",\"" : "\"") + std::to_string(id) + "\"";
  }
  mt::ev_obs(fmt("\"op\":\"ids\",\"t\":%d,\"v\":[", t) + v + fmt("],\"old\":%ld", old));
}
int main(int argc, char **argv) {
  if (argc > 8) near_ = atol(argv[8]);
  mt::clock_hook = clk;
  mt::Harness H;
  H.fork_each = true;
  H.once = [] {
    if (near_ > 0) {
      // use up most of what one second has: 2^24 blocks of 32
      draw_before();
      reads_ = 0;
      for (long k = (1l << 24) - near_; k > 0; --k)
        for (int i = 0; i < 32; ++i) draw_before();
    }
  };
  H.setup = [] {};
  H.exec = exec;
  H.finish = [] {};
  return mt::main_loop(argc, argv, H);
}
