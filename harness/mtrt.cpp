// Runtime for concurrent harnesses.  The library and the harness are compiled with -fsanitize=thread, but not linked with
// libtsan: the instrumentation hooks below hand every shared access to a scheduler that lets exactly one thread run at a time
// and explores schedules (bounded number of preemptions, then random ones).  Not instrumented itself.
//
// Where threads may be preempted: before every atomic operation and every plain access that some other thread touched too
// (atomics: in a conflicting way at all; plain accesses: without a happens-before order), found on the fly and kept per
// instruction; and, for free, between commands.  A thread that repeats an atomic operation that changes nothing waits until
// another thread changes that location.  Freed memory stays marked until the end of the execution.
#include "mt.h"
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <algorithm>
#include <list>
#include <map>
#include <string>
#include <vector>
#include <set>
#include <unordered_map>
#include <unordered_set>

extern "C" {
void *__libc_malloc(size_t);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *__libc_memalign(size_t, size_t);
void __libc_free(void *);
}
namespace mt {
using std::string;
using std::vector;
typedef uint64_t u64;
typedef uint32_t u32;
long (*clock_hook)() = nullptr;

// ------------------------------------------------------------------ threads
struct VC {
  u32 c[MAXT];
};
struct Th {
  int fu = 0;  // baton
  bool alive = false, done = false;
  VC vc;
  const void *np_pc = nullptr, *np_addr = nullptr;  // last operation that changed nothing
  u32 np_ver = 0;
  const void *block = nullptr;  // waiting for a change of this location
  u32 block_ver = 0;
};
static Th th[MAXT];
static thread_local int me = 0;
static thread_local int inside = 0;  // in the runtime: do not track
static int nthreads = 0;
static int cur = 0;
static bool active = false;   // workers are running
static bool track = false;    // an execution is in progress
static u32 epoch = 0;         // execution number
static u64 steps = 0;         // hook calls in this execution
static int rescues = 0;
int self() { return me; }
bool tracking() { return track; }

struct In {
  In() { ++inside; }
  ~In() { --inside; }
};

Quiet::Quiet() { ++inside; }
Quiet::~Quiet() { --inside; }
static void fwait(int *p) {
  while (__atomic_load_n(p, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, p, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  __atomic_store_n(p, 0, __ATOMIC_RELEASE);
}
static void fpost(int *p) {
  __atomic_store_n(p, 1, __ATOMIC_RELEASE);
  syscall(SYS_futex, p, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

// ------------------------------------------------------------------ schedule
struct Choice {
  int pick, n;
};
static vector<Choice> path;      // choices of the current execution
static size_t depth = 0;
static int bound = 2, preempts = 0;
static bool random_mode = false;
static u64 rng = 1;
static int rnd_rate = 8;
static vector<std::pair<u64, int>> switches;  // (step, thread) actually done: the replayable schedule
static bool replay = false;
static vector<std::pair<u64, int>> script_sw;
static size_t sw_pos = 0;
static u64 rnd() {
  rng ^= rng << 13, rng ^= rng >> 7, rng ^= rng << 17;
  return rng;
}
static std::unordered_set<const void *> *hot;
static bool hot_grew = false;
static void mark_hot(const void *pc) {
  if (hot->insert(pc).second) hot_grew = true;
}

static string sched_text();
void die(const char *why) {
  ++inside;
  drv::ev_note(why);
  drv::line("R " + sched_text());
  _exit(95);
}
static void on_signal(int n) {
  ++inside;
  drv::ev_note(("signal " + std::to_string(n)).c_str());
  drv::line("R " + sched_text());
  _exit(94);
}

static void switch_to(int t) {
  if (t == me) return;
  bool wait = !th[me].done;  // the others may start the next execution as soon as they run
  cur = t;
  fpost(&th[t].fu);
  if (wait) fwait(&th[me].fu);
}
static bool enabled(int t);
static int options(int *out, bool include_me, bool &me_enabled) {
  int n = 0;
  me_enabled = include_me && enabled(me);
  if (me_enabled) out[n++] = me;
  for (int t = 1; t <= nthreads; ++t)
    if (t != me && th[t].alive && !th[t].done && enabled(t)) out[n++] = t;
  return n;
}
// pick who runs next.  free: switching costs no preemption
static void reschedule(bool free) {
  if (!active || me == 0) return;
  int o[MAXT];
  bool mine;
  int n = options(o, !th[me].done, mine);
  if (n == 0) {
    // everyone waits for a change: let them all retry, unless that never helps
    bool any = false;
    for (int t = 1; t <= nthreads; ++t)
      if (th[t].alive && !th[t].done) th[t].block = nullptr, any = true;
    if (!any) {
      switch_to(0);
      return;
    }
    if (++rescues > 200) die("hang");
    n = options(o, !th[me].done, mine);
    free = true;
  }
  int pick = 0;
  if (replay) {
    if (sw_pos < script_sw.size() && script_sw[sw_pos].first == steps) {
      for (int i = 0; i < n; ++i)
        if (o[i] == script_sw[sw_pos].second) pick = i;
      ++sw_pos;
    }
  } else if (n > 1) {
    if (random_mode) {
      if (!mine || free || rnd() % rnd_rate == 0) pick = rnd() % n;
    } else if (!mine || free || preempts < bound) {
      if (depth < path.size()) {
        pick = path[depth].pick;
        if (pick >= n) die("schedule diverged");
      } else
        path.push_back({0, n});
      path[depth].n = n;
      ++depth;
    }
  }
  if (mine && !free && pick != 0) ++preempts;
  if (o[pick] != me) {
    switches.push_back({steps, o[pick]});
    switch_to(o[pick]);
  }
}

// ------------------------------------------------------------------ memory
struct Acc {
  u32 clk;
  unsigned char mask;
  const void *pc;
};
struct Word {
  u32 epoch = 0;
  bool freed = false, atomic_seen = false;
  unsigned char aread = 0, awrite = 0;  // threads that touched it atomically
  Acc r[MAXT], w[MAXT];
  const void *apc[MAXT];
};
struct Page {
  Word w[512];
};
static std::unordered_map<u64, Page *> *pages;
static u64 last_pg = ~0ull;
static Page *last_page = nullptr;
static Page *page(u64 a, bool make) {
  u64 p = a >> 12;
  if (p == last_pg) return last_page;
  auto it = pages->find(p);
  if (it == pages->end()) {
    if (!make) return nullptr;
    Page *n = new Page();
    it = pages->emplace(p, n).first;
  }
  last_pg = p, last_page = it->second;
  return it->second;
}
static Word &word(u64 a) {
  Word &w = page(a, true)->w[(a >> 3) & 511];
  if (w.epoch != epoch) {
    bool f = w.freed;
    w = Word();
    w.freed = f;
    w.epoch = epoch;
  }
  return w;
}
struct Sync {
  VC rel;
  u32 ver = 0;
  bool has = false;
};
static std::unordered_map<const void *, Sync> *syncs;
static bool enabled(int t) {
  if (!th[t].block) return true;
  auto it = syncs->find(th[t].block);
  u32 v = it == syncs->end() ? 0 : it->second.ver;
  if (v != th[t].block_ver) {
    th[t].block = nullptr;
    return true;
  }
  return false;
}
static void join(VC &a, const VC &b) {
  for (int i = 0; i < MAXT; ++i)
    if (b.c[i] > a.c[i]) a.c[i] = b.c[i];
}
static bool racy_since(const Acc &x, int t) { return x.mask && x.clk > th[me].vc.c[t]; }
static bool report_races = false;
[[noreturn]] static void race(const void *addr, const void *a, const void *b) {
  // for people: addr2line needs the addresses in the executable
  Dl_info i{};
  u64 base = dladdr((const void *)&race, &i) ? (u64)i.dli_fbase : 0;
  fprintf(stderr, "data race on %p: +0x%llx and +0x%llx\n", addr, (unsigned long long)((u64)a - base), (unsigned long long)((u64)b - base));
  die("data race");
}
static void plain(const void *addr, unsigned size, bool wr, const void *pc) {
  if (!track || inside) return;
  In in;
  ++steps;
  if (active && (replay || hot->count(pc))) reschedule(false);
  if (steps > 3000000) die("endless");
  if (wr) th[me].np_pc = nullptr;
  u64 a = (u64)addr, e = a + size;
  while (a < e) {
    u64 b = (a & ~7ull) + 8;
    if (b > e) b = e;
    unsigned char mask = (unsigned char)(((1u << (b - a)) - 1) << (a & 7));
    Word &w = word(a);
    if (w.freed) die("use after free");
    if (active) {
      for (int t = 1; t <= nthreads; ++t) {
        if (t == me) continue;
        if (racy_since(w.w[t], t) && (w.w[t].mask & mask)) {
          mark_hot(pc), mark_hot(w.w[t].pc);
          if (report_races) race(addr, pc, w.w[t].pc);
        }
        if (wr && racy_since(w.r[t], t) && (w.r[t].mask & mask)) {
          mark_hot(pc), mark_hot(w.r[t].pc);
          if (report_races) race(addr, pc, w.r[t].pc);
        }
      }
      Acc &x = wr ? w.w[me] : w.r[me];
      u32 c = th[me].vc.c[me];
      if (x.mask && x.clk == c && x.pc == pc) x.mask |= mask;
      else x.clk = c, x.mask = mask, x.pc = pc;
    }
    a = b;
  }
}
// before an atomic operation
static Sync &apre(const volatile void *addr, unsigned size, bool wr, const void *pc) {
  ++steps;
  if (steps > 3000000) die("endless");
  if (active && (replay || hot->count(pc))) reschedule(false);
  Word &w = word((u64)addr);
  if (w.freed) die("use after free");
  if (active && me) {
    unsigned char others = (unsigned char)((w.awrite | (wr ? w.aread : 0)) & ~(1u << me));
    if (others) {
      mark_hot(pc);
      for (int t = 1; t <= nthreads; ++t)
        if (others & (1u << t)) mark_hot(w.apc[t]);
    }
    (wr ? w.awrite : w.aread) |= (unsigned char)(1u << me);
    w.apc[me] = pc;
  }
  return (*syncs)[(const void *)addr];
}
static void acquire(Sync &s) {
  if (s.has) join(th[me].vc, s.rel);
}
static void release(Sync &s, bool replace) {
  if (replace || !s.has) s.rel = th[me].vc;
  else join(s.rel, th[me].vc);
  s.has = true;
  ++th[me].vc.c[me];
}
static bool acq(int o) { return o != __ATOMIC_RELAXED && o != __ATOMIC_RELEASE; }
static bool rel(int o) { return o == __ATOMIC_RELEASE || o == __ATOMIC_ACQ_REL || o == __ATOMIC_SEQ_CST; }
// after it: did it change the location?
static void apost(const volatile void *addr, Sync &s, bool changed, const void *pc) {
  if (!active || !me) return;
  Th &t = th[me];
  if (changed) {
    ++s.ver;
    t.np_pc = nullptr;
    return;
  }
  if (t.np_pc == pc && t.np_addr == (const void *)addr && t.np_ver == s.ver) {
    t.block = (const void *)addr;
    t.block_ver = s.ver;
    t.np_pc = nullptr;
    ++steps;
    reschedule(true);
  } else
    t.np_pc = pc, t.np_addr = (const void *)addr, t.np_ver = s.ver;
}
// ------------------------------------------------------------------ allocation
struct Quar {
  void *p;
  size_t n;
};
static vector<Quar> *quar;
static void mark(void *p, size_t n, bool freed) {
  u64 a = (u64)p & ~7ull, e = (u64)p + n;
  for (; a < e;) {
    Page *pg = page(a, freed);
    u64 pe = (a | 4095) + 1;
    if (pe > e) pe = e;
    if (pg)
      for (; a < pe; a += 8) {
        Word &w = pg->w[(a >> 3) & 511];
        if (freed) {
          w.freed = true;
        } else
          w = Word();
      }
    a = pe;
  }
}
static void on_alloc(void *p) {
  if (!p || !track || inside) return;
  In in;
  mark(p, malloc_usable_size(p), false);
}
// true: the block was put aside
static bool on_free(void *p, const void *pc) {
  if (!p || !track || inside) return false;
  size_t n = malloc_usable_size(p);
  plain(p, n < 8 ? n : 8, true, pc);
  In in;
  Word &w = word((u64)p);
  if (w.freed) die("double free");
  mark(p, n, true);
  memset(p, 0xdb, n);
  quar->push_back({p, n});
  return true;
}
void retire(void *p, size_t n) {
  if (track && !inside) plain(p, (unsigned)n, true, __builtin_return_address(0));
  In in;
  mark(p, n, true);
}
void fresh(void *p, size_t n) {
  In in;
  mark(p, n, false);
}
static void drain() {
  In in;
  for (auto &q : *quar) {
    mark(q.p, q.n, false);
    __libc_free(q.p);
  }
  quar->clear();
}

// ------------------------------------------------------------------ log
static size_t log_mark = 0;
void ev_call(const string &b) {
  In in;
  drv::line("{\"k\":\"c\",\"c\":[" + b + "]}");
  if (++drv::trace_events > 5000) die("too long");
}
void ev_obs(const string &b) {
  In in;
  drv::line("{\"k\":\"o\",\"o\":{" + b + "}}");
  if (++drv::trace_events > 5000) die("too long");
}
void boundary() {
  if (!active || !me) return;
  In in;
  ++steps;
  th[me].np_pc = nullptr;
  reschedule(true);
}
// ------------------------------------------------------------------ one execution
static Harness H;
static vector<vector<drv::Cmd>> prog;
static vector<pthread_t> *pth;
static void altstack();
static void *worker(void *arg) {
  inside = 1;
  altstack();
  me = (int)(long)arg;
  for (;;) {
    fwait(&th[me].fu);
    vector<drv::Cmd> cmds = prog[me];
    inside = 0;
    for (size_t i = 0; i < cmds.size(); ++i) {
      if (i) boundary();
      H.exec(me, cmds[i]);
    }
    if (H.end) H.end(me);
    inside = 1;
    th[me].done = true;
    ++steps;
    reschedule(true);
  }
  return nullptr;
}
static void start_threads(int n) {
  In in;
  while ((int)pth->size() < n) {
    pthread_t t;
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 1 << 20);
    if (pthread_create(&t, &at, worker, (void *)(long)(pth->size() + 1))) die("thread");
    pth->push_back(t);
  }
}
static void execute() {
  nthreads = (int)prog.size() - 1;
  start_threads(nthreads);
  ++epoch;
  syncs->clear();
  steps = 0, depth = 0, preempts = 0, rescues = 0, sw_pos = 0;
  switches.clear();
  drv::trace_events = 0;
  for (int t = 0; t < MAXT; ++t) {
    memset(&th[t].vc, 0, sizeof(VC));
    th[t].vc.c[t] = 1;
    th[t].alive = t >= 1 && t <= nthreads;
    th[t].done = false;
    th[t].block = nullptr;
    th[t].np_pc = nullptr;
  }
  int was = inside;
  track = true;
  inside = 0;
  H.setup();
  for (auto &c : prog[0]) H.exec(0, c);
  if (H.ready) H.ready();
  {
    In in;
    for (int t = 1; t <= nthreads; ++t) join(th[t].vc, th[0].vc);
    ++th[0].vc.c[0];
    active = true;
    // who starts is a free choice
    int pick = 1;
    if (replay) {
      if (sw_pos < script_sw.size() && script_sw[sw_pos].first == 0) pick = script_sw[sw_pos++].second;
    } else if (random_mode)
      pick = 1 + rnd() % nthreads;
    else if (nthreads > 1) {
      if (depth < path.size()) pick = path[depth].pick + 1;
      else path.push_back({0, nthreads});
      path[depth].n = nthreads;
      ++depth;
    }
    switches.push_back({0, pick});
    steps = 1;
    cur = pick;
    fpost(&th[pick].fu);
    fwait(&th[0].fu);
    active = false;
    for (int t = 1; t <= nthreads; ++t) join(th[0].vc, th[t].vc);
  }
  H.finish();
  track = false;
  inside = was;
  drain();
}
static string sched_text() {
  string s;
  for (auto &x : switches) s += (s.empty() ? "" : ",") + std::to_string(x.first) + ":" + std::to_string(x.second);
  return s;
}
static std::set<string> *seen;
static long stat_exec = 0;
// Only "call before return" and "return before call" order operations: put neighbouring calls, and neighbouring returns, in one
// order, so that histories that say the same are kept once.
static string canon(const string &b) {
  vector<string> l;
  vector<char> k;
  for (size_t i = 0; i < b.size();) {
    size_t e = b.find('\n', i);
    if (e == string::npos) e = b.size() - 1;
    l.push_back(b.substr(i, e + 1 - i));
    k.push_back(l.back().compare(0, 9, "{\"k\":\"c\",") == 0 ? 'c' : l.back().find("\"op\":\"ret\"") != string::npos ? 'r' : 'o');
    i = e + 1;
  }
  string r;
  for (size_t i = 0; i < l.size();) {
    size_t j = i + 1;
    if (k[i] != 'o')
      while (j < l.size() && k[j] == k[i]) ++j;
    std::sort(l.begin() + i, l.begin() + j);
    for (; i < j; ++i) r += l[i];
  }
  return r;
}
// run once more; keeps the history if it is new
static void one() {
  size_t m0 = drv::map_len;
  if (H.fork_each) {
    pid_t p = fork();
    if (p == 0) {
      // the child writes its log behind a header the parent completes
      drv::line("S -");
      execute();
      In in;
      drv::line("E " + sched_text());
      // hand the state of the exploration back through the shared log
      string st = "P";
      for (size_t i = 0; i < depth; ++i) st += " " + std::to_string(path[i].pick) + " " + std::to_string(path[i].n);
      drv::line(st);
      string hs = "H";
      for (auto x : *hot) hs += " " + std::to_string((u64)x);
      drv::line(hs);
      drv::line("D " + std::to_string(rng));
      _exit(0);
    }
    int stt = 0;
    waitpid(p, &stt, 0);
    // the child's writes are in the shared mapping: find their end
    size_t len = strnlen(drv::map_base + m0, drv::map_cap - m0);
    drv::map_len = m0 + len;
    if (!WIFEXITED(stt) || WEXITSTATUS(stt)) {
      _exit(WIFEXITED(stt) ? WEXITSTATUS(stt) : 94);
    }
    string txt(drv::map_base + m0, len);
    size_t e = txt.rfind("\nE "), pp = txt.rfind("\nP"), hh = txt.rfind("\nH"), dd = txt.rfind("\nD ");
    string body = canon(txt.substr(4, e + 1 - 4)), sch = txt.substr(e + 3, pp - e - 3);
    std::vector<u64> nums;
    auto parse_nums = [&](const string &x) {
      nums.clear();
      const char *q = x.c_str();
      char *end;
      while (*q) {
        u64 v = strtoull(q, &end, 10);
        if (end == q) break;
        nums.push_back(v);
        q = end;
      }
    };
    parse_nums(txt.substr(pp + 2, hh - pp - 2));
    path.clear();
    for (size_t i = 0; i + 1 < nums.size(); i += 2) path.push_back({(int)nums[i], (int)nums[i + 1]});
    depth = path.size();
    parse_nums(txt.substr(hh + 2, dd - hh - 2));
    for (u64 x : nums) mark_hot((const void *)x);
    parse_nums(txt.substr(dd + 2));
    rng = nums[0];
    memset(drv::map_base + m0, 0, len);
    drv::map_len = m0;
    ++stat_exec;
    if (seen->insert(body).second) {
      drv::line("S " + sch);
      drv::raw(body.data(), body.size());
    }
    return;
  }
  drv::line("S -");
  size_t m1 = drv::map_len;
  execute();
  In in;
  ++stat_exec;
  string body = canon(string(drv::map_base + m1, drv::map_len - m1));
  memset(drv::map_base + m0, 0, drv::map_len - m0);
  drv::map_len = m0;
  if (seen->insert(body).second) {
    drv::line("S " + sched_text());
    drv::raw(body.data(), body.size());
  }
}
static bool advance() {
  path.resize(depth);
  while (!path.empty()) {
    if (++path.back().pick < path.back().n) return true;
    path.pop_back();
  }
  return false;
}
static void on_hang(int) {
  ++inside;
  drv::ev_note("hang");
  drv::line("R " + sched_text());
  _exit(96);
}
static void altstack() {
  stack_t ss;
  ss.ss_size = 65536;
  ss.ss_sp = __libc_malloc(ss.ss_size);
  ss.ss_flags = 0;
  sigaltstack(&ss, nullptr);
}
// argv: scripts log bound max_exec random_exec seed races [harness arguments]
int main_loop(int argc, char **argv, const Harness &h) {
  ++inside;
  H = h;
  pages = new std::unordered_map<u64, Page *>();
  syncs = new std::unordered_map<const void *, Sync>();
  hot = new std::unordered_set<const void *>();
  quar = new vector<Quar>();
  pth = new vector<pthread_t>();
  seen = new std::set<string>();
  if (argc < 8) return 2;
  int maxb = atoi(argv[3]);
  long max_exec = atol(argv[4]), rnd_exec = atol(argv[5]);
  u64 seed = strtoull(argv[6], nullptr, 10);
  report_races = atoi(argv[7]) != 0;
  drv::out_fd = open(argv[2], O_RDWR | O_CREAT | O_TRUNC, 0644);
  if (ftruncate(drv::out_fd, drv::map_cap)) return 3;
  drv::map_base = (char *)mmap(nullptr, drv::map_cap, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_NORESERVE, drv::out_fd, 0);
  if (drv::map_base == MAP_FAILED) return 4;
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = on_hang;
  sa.sa_flags = SA_ONSTACK;
  sigaction(SIGALRM, &sa, nullptr);
  altstack();
  sa.sa_handler = on_signal;
  for (int sg : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL}) sigaction(sg, &sa, nullptr);
  // one processor: only one thread runs at any time
  cpu_set_t set, all;
  if (!sched_getaffinity(0, sizeof all, &all)) {
    int k = (int)(getpid() % CPU_COUNT(&all));
    for (int i = 0; i < CPU_SETSIZE; ++i)
      if (CPU_ISSET(i, &all) && k-- == 0) {
        CPU_ZERO(&set);
        CPU_SET(i, &set);
        sched_setaffinity(0, sizeof set, &set);
        break;
      }
  }
  if (H.once) {
    // what goes wrong here counts for the first program
    drv::line("T 0");
    drv::line("S -");
    alarm(240);
    H.once();
    alarm(0);
  }
  std::ifstream in(argv[1]);
  string l;
  long i = 0;
  while (std::getline(in, l)) {
    drv::line("T " + std::to_string(i++));
    string sch;
    size_t at = l.find('@');
    if (at != string::npos) sch = l.substr(at + 1), l = l.substr(0, at);
    prog.clear();
    size_t b = 0;
    for (;;) {
      size_t e = l.find('|', b);
      prog.push_back(drv::parse(l.substr(b, e == string::npos ? string::npos : e - b)));
      if (e == string::npos) break;
      b = e + 1;
    }
    seen->clear();
    replay = !sch.empty();
    random_mode = false;
    path.clear();
    script_sw.clear();
    rng = seed * 0x9E3779B97F4A7C15ull + (u64)i * 7919 + 1;
    alarm(120);
    if (replay) {
      const char *q = sch.c_str();
      while (*q) {
        char *e;
        u64 st = strtoull(q, &e, 10);
        if (*e != ':') break;
        int t = (int)strtol(e + 1, &e, 10);
        script_sw.push_back({st, t});
        q = *e == ',' ? e + 1 : e;
      }
      one();
      alarm(0);
      continue;
    }
    long left = max_exec;
    bool full = false;
    long total0 = stat_exec;
    for (bound = 0; bound <= maxb && left > 0; ++bound) {
      for (int round = 0; round < 8; ++round) {
        path.clear();
        hot_grew = false;
        full = false;
        bool again = false;
        while (left > 0) {
          --left;
          one();
          if (hot_grew) {
            again = true;
            break;
          }
          if (!advance()) {
            full = true;
            break;
          }
        }
        if (!again) break;
      }
    }
    random_mode = true;
    for (long k = 0; k < rnd_exec; ++k) {
      rnd_rate = 2 + k % 12;
      path.clear();
      one();
    }
    alarm(0);
    drv::line("X " + std::to_string(stat_exec - total0) + " " + (full ? "1" : "0"));
  }
  if (ftruncate(drv::out_fd, drv::map_len)) return 5;
  _exit(0);
}
}  // namespace mt

using namespace mt;
#define PC __builtin_return_address(0)
#define EXP extern "C" __attribute__((visibility("default")))
EXP void __tsan_init() {}
EXP void __tsan_func_entry(void *) {}
EXP void __tsan_func_exit() {}
EXP void __tsan_read1(void *a) { plain(a, 1, false, PC); }
EXP void __tsan_read2(void *a) { plain(a, 2, false, PC); }
EXP void __tsan_read4(void *a) { plain(a, 4, false, PC); }
EXP void __tsan_read8(void *a) { plain(a, 8, false, PC); }
EXP void __tsan_read16(void *a) { plain(a, 16, false, PC); }
EXP void __tsan_write1(void *a) { plain(a, 1, true, PC); }
EXP void __tsan_write2(void *a) { plain(a, 2, true, PC); }
EXP void __tsan_write4(void *a) { plain(a, 4, true, PC); }
EXP void __tsan_write8(void *a) { plain(a, 8, true, PC); }
EXP void __tsan_write16(void *a) { plain(a, 16, true, PC); }
EXP void __tsan_unaligned_read2(void *a) { plain(a, 2, false, PC); }
EXP void __tsan_unaligned_read4(void *a) { plain(a, 4, false, PC); }
EXP void __tsan_unaligned_read8(void *a) { plain(a, 8, false, PC); }
EXP void __tsan_unaligned_read16(void *a) { plain(a, 16, false, PC); }
EXP void __tsan_unaligned_write2(void *a) { plain(a, 2, true, PC); }
EXP void __tsan_unaligned_write4(void *a) { plain(a, 4, true, PC); }
EXP void __tsan_unaligned_write8(void *a) { plain(a, 8, true, PC); }
EXP void __tsan_unaligned_write16(void *a) { plain(a, 16, true, PC); }
EXP void __tsan_volatile_read1(void *a) { plain(a, 1, false, PC); }
EXP void __tsan_volatile_read2(void *a) { plain(a, 2, false, PC); }
EXP void __tsan_volatile_read4(void *a) { plain(a, 4, false, PC); }
EXP void __tsan_volatile_read8(void *a) { plain(a, 8, false, PC); }
EXP void __tsan_volatile_write1(void *a) { plain(a, 1, true, PC); }
EXP void __tsan_volatile_write2(void *a) { plain(a, 2, true, PC); }
EXP void __tsan_volatile_write4(void *a) { plain(a, 4, true, PC); }
EXP void __tsan_volatile_write8(void *a) { plain(a, 8, true, PC); }
EXP void __tsan_read_range(void *a, unsigned long n) { plain(a, n, false, PC); }
EXP void __tsan_write_range(void *a, unsigned long n) { plain(a, n, true, PC); }
EXP void __tsan_vptr_update(void **a, void *) { plain(a, 8, true, PC); }
EXP void __tsan_vptr_read(void **a) { plain(a, 8, false, PC); }

template <class T>
static T a_load(const volatile T *p, int o, const void *pc) {
  if (!track || inside) return __atomic_load_n(p, __ATOMIC_SEQ_CST);
  In in;
  Sync &s = apre(p, sizeof(T), false, pc);
  T v = __atomic_load_n(p, __ATOMIC_SEQ_CST);
  if (acq(o)) acquire(s);
  apost(p, s, false, pc);
  return v;
}
template <class T>
static void a_store(volatile T *p, T v, int o, const void *pc) {
  if (!track || inside) return __atomic_store_n(p, v, __ATOMIC_SEQ_CST);
  In in;
  Sync &s = apre(p, sizeof(T), true, pc);
  __atomic_store_n(p, v, __ATOMIC_SEQ_CST);
  if (rel(o)) release(s, true);
  else s.has = false;
  apost(p, s, true, pc);
}
template <class T, class F>
static T a_rmw(volatile T *p, int o, const void *pc, F f) {
  if (!track || inside) {
    T old = __atomic_load_n(p, __ATOMIC_SEQ_CST);
    while (!__atomic_compare_exchange_n(p, &old, f(old), false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) {
    }
    return old;
  }
  In in;
  Sync &s = apre(p, sizeof(T), true, pc);
  T old = *p, nw = f(old);
  *p = nw;
  if (acq(o)) acquire(s);
  if (rel(o)) release(s, false);
  apost(p, s, old != nw, pc);
  return old;
}
template <class T>
static int a_cas(volatile T *p, T *e, T v, int o, int fo, const void *pc) {
  if (!track || inside) return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
  In in;
  Sync &s = apre(p, sizeof(T), true, pc);
  T old = *p;
  if (old == *e) {
    *p = v;
    if (acq(o)) acquire(s);
    if (rel(o)) release(s, false);
    apost(p, s, old != v, pc);
    return 1;
  }
  *e = old;
  if (acq(fo)) acquire(s);
  apost(p, s, false, pc);
  return 0;
}
#define ATOMICS(N, T)                                                                                                          \
  EXP T __tsan_atomic##N##_load(const volatile T *p, int o) { return a_load<T>(p, o, PC); }                                     \
  EXP void __tsan_atomic##N##_store(volatile T *p, T v, int o) { a_store<T>(p, v, o, PC); }                                     \
  EXP T __tsan_atomic##N##_exchange(volatile T *p, T v, int o) { return a_rmw<T>(p, o, PC, [=](T) { return v; }); }             \
  EXP T __tsan_atomic##N##_fetch_add(volatile T *p, T v, int o) { return a_rmw<T>(p, o, PC, [=](T x) { return (T)(x + v); }); } \
  EXP T __tsan_atomic##N##_fetch_sub(volatile T *p, T v, int o) { return a_rmw<T>(p, o, PC, [=](T x) { return (T)(x - v); }); } \
  EXP T __tsan_atomic##N##_fetch_and(volatile T *p, T v, int o) { return a_rmw<T>(p, o, PC, [=](T x) { return (T)(x & v); }); } \
  EXP T __tsan_atomic##N##_fetch_or(volatile T *p, T v, int o) { return a_rmw<T>(p, o, PC, [=](T x) { return (T)(x | v); }); }  \
  EXP T __tsan_atomic##N##_fetch_xor(volatile T *p, T v, int o) { return a_rmw<T>(p, o, PC, [=](T x) { return (T)(x ^ v); }); } \
  EXP T __tsan_atomic##N##_fetch_nand(volatile T *p, T v, int o) { return a_rmw<T>(p, o, PC, [=](T x) { return (T) ~(x & v); }); } \
  EXP int __tsan_atomic##N##_compare_exchange_strong(volatile T *p, T *e, T v, int o, int f) { return a_cas<T>(p, e, v, o, f, PC); } \
  EXP int __tsan_atomic##N##_compare_exchange_weak(volatile T *p, T *e, T v, int o, int f) { return a_cas<T>(p, e, v, o, f, PC); } \
  EXP T __tsan_atomic##N##_compare_exchange_val(volatile T *p, T e, T v, int o, int f) {                                        \
    a_cas<T>(p, &e, v, o, f, PC);                                                                                              \
    return e;                                                                                                                  \
  }
ATOMICS(8, unsigned char)
ATOMICS(16, unsigned short)
ATOMICS(32, unsigned int)
ATOMICS(64, unsigned long)
EXP void __tsan_atomic_thread_fence(int) {}
EXP void __tsan_atomic_signal_fence(int) {}

EXP void *malloc(size_t n) {
  void *p = __libc_malloc(n);
  on_alloc(p);
  return p;
}
EXP void *calloc(size_t a, size_t b) {
  void *p = __libc_calloc(a, b);
  on_alloc(p);
  return p;
}
EXP void *realloc(void *q, size_t n) {
  if (track && !inside && q) {
    void *p = malloc(n);
    if (p) {
      size_t o = malloc_usable_size(q);
      memcpy(p, q, o < n ? o : n);
      free(q);
    }
    return p;
  }
  void *p = __libc_realloc(q, n);
  on_alloc(p);
  return p;
}
EXP void *memalign(size_t a, size_t n) {
  void *p = __libc_memalign(a, n);
  on_alloc(p);
  return p;
}
EXP void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
EXP int posix_memalign(void **o, size_t a, size_t n) {
  *o = memalign(a, n);
  return *o ? 0 : ENOMEM;
}
EXP void free(void *p) {
  if (on_free(p, PC)) return;
  __libc_free(p);
}
// give up the processor
static void lazy() {
  if (!track || inside || !active) return;
  In in;
  ++steps;
  if (steps > 3000000) die("endless");
}
EXP int sched_yield() {
  lazy();
  return 0;
}
EXP int nanosleep(const struct timespec *, struct timespec *) {
  lazy();
  return 0;
}
EXP int clock_nanosleep(clockid_t, int, const struct timespec *, struct timespec *) {
  lazy();
  return 0;
}
// pages given back and handed out again are new memory
EXP void *mmap(void *a, size_t n, int pr, int fl, int fd, off_t o) {
  void *p = (void *)syscall(SYS_mmap, a, n, pr, fl, fd, o);
  if (p != MAP_FAILED && track && !inside) fresh(p, n);
  return p;
}
EXP int munmap(void *a, size_t n) {
  if (track && !inside) fresh(a, n);
  return (int)syscall(SYS_munmap, a, n);
}
// static locals: wait under the scheduler
EXP int __cxa_guard_acquire(u64 *g) {
  volatile unsigned char *b = (volatile unsigned char *)g;
  while (true) {
    if (a_load<unsigned char>(b, __ATOMIC_ACQUIRE, PC)) return 0;
    if (b[0]) continue;
    if (!b[1]) {
      b[1] = 1;
      return 1;
    }
    if (!active || !me) die("static initialisation");
    In in;
    ++steps;
    if (steps > 3000000) die("endless");
    int n = 0;
    for (int t = 1; t <= nthreads; ++t)
      if (t != me && th[t].alive && !th[t].done) ++n;
    if (!n) die("static initialisation");
    reschedule(true);
  }
}
EXP void __cxa_guard_release(u64 *g) {
  a_store<unsigned char>((volatile unsigned char *)g, 1, __ATOMIC_RELEASE, PC);
  ((volatile unsigned char *)g)[1] = 0;
}
EXP void __cxa_guard_abort(u64 *g) { ((volatile unsigned char *)g)[1] = 0; }
EXP time_t time(time_t *p) {
  time_t v = clock_hook ? clock_hook() : 1700000000;
  if (p) *p = v;
  return v;
}

// ------------------------------------------------------------------ the parts of std::list and std::set that are inside libstdc++.so
// (not instrumented there): the same operations, with their accesses made known
#define RD(x) plain(&(x), sizeof(x), false, PC)
#define WR(x) plain(&(x), sizeof(x), true, PC)
namespace std {
namespace __detail {
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept {
  WR(x._M_next), WR(x._M_prev), WR(y._M_next), WR(y._M_prev);
  if (x._M_next != &x) {
    if (y._M_next != &y) {
      std::swap(x._M_next, y._M_next), std::swap(x._M_prev, y._M_prev);
      x._M_next->_M_prev = x._M_prev->_M_next = &x;
    } else {
      y._M_next = x._M_next, y._M_prev = x._M_prev;
      x._M_next = x._M_prev = &x;
    }
    y._M_next->_M_prev = y._M_prev->_M_next = &y;
  } else if (y._M_next != &y) {
    x._M_next = y._M_next, x._M_prev = y._M_prev;
    x._M_next->_M_prev = x._M_prev->_M_next = &x;
    y._M_next = y._M_prev = &y;
  }
}
void _List_node_base::_M_transfer(_List_node_base *const first, _List_node_base *const last) noexcept {
  if (this == last) return;
  WR(_M_prev), WR(first->_M_prev), WR(last->_M_prev);
  last->_M_prev->_M_next = this;
  first->_M_prev->_M_next = last;
  _M_prev->_M_next = first;
  _List_node_base *const tmp = _M_prev;
  _M_prev = last->_M_prev;
  last->_M_prev = first->_M_prev;
  first->_M_prev = tmp;
}
void _List_node_base::_M_hook(_List_node_base *const pos) noexcept {
  WR(pos->_M_prev), WR(pos->_M_prev->_M_next);
  _M_next = pos, _M_prev = pos->_M_prev;
  pos->_M_prev->_M_next = this, pos->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept {
  RD(_M_next), RD(_M_prev), WR(_M_next->_M_prev), WR(_M_prev->_M_next);
  _List_node_base *const n = _M_next, *const p = _M_prev;
  p->_M_next = n, n->_M_prev = p;
}
}  // namespace __detail
}  // namespace std
template <class F>
static F real_fn(const char *n) {
  In in;
  return (F)dlsym(RTLD_NEXT, n);
}
// a tree is one object: its header stands for all of it
EXP void _ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool l, std::_Rb_tree_node_base *x, std::_Rb_tree_node_base *p,
                                                                           std::_Rb_tree_node_base &h) {
  static decltype(real_fn<void (*)(bool, std::_Rb_tree_node_base *, std::_Rb_tree_node_base *, std::_Rb_tree_node_base &)>("")) f = nullptr;
  if (!f) f = real_fn<void (*)(bool, std::_Rb_tree_node_base *, std::_Rb_tree_node_base *, std::_Rb_tree_node_base &)>(
      "_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_");
  WR(h._M_parent), WR(h._M_left), WR(h._M_right), RD(p->_M_parent);
  f(l, x, p, h);
}
EXP std::_Rb_tree_node_base *_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(std::_Rb_tree_node_base *z, std::_Rb_tree_node_base &h) {
  static decltype(real_fn<std::_Rb_tree_node_base *(*)(std::_Rb_tree_node_base *, std::_Rb_tree_node_base &)>("")) f = nullptr;
  if (!f) f = real_fn<std::_Rb_tree_node_base *(*)(std::_Rb_tree_node_base *, std::_Rb_tree_node_base &)>(
      "_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_");
  WR(h._M_parent), WR(h._M_left), WR(h._M_right), RD(z->_M_parent);
  return f(z, h);
}
#define STEP(name)                                                                                   \
  EXP std::_Rb_tree_node_base *name(std::_Rb_tree_node_base *x) {                                    \
    static std::_Rb_tree_node_base *(*f)(std::_Rb_tree_node_base *) = nullptr; if (!f) f = real_fn<std::_Rb_tree_node_base *(*)(std::_Rb_tree_node_base *)>(#name); \
    RD(x->_M_parent), RD(x->_M_left), RD(x->_M_right);                                               \
    return f(x);                                                                                     \
  }
STEP(_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base)
STEP(_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base)
STEP(_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base)
STEP(_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base)
