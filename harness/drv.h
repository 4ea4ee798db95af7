// Shared driver support: script queue, crash-proof event log, watchdog.
#pragma once
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <fstream>
#include <functional>
#include <string>
#include <vector>

namespace drv {
struct Cmd {
  std::string op;
  std::vector<long> a;
  long at(size_t i) const { return i < a.size() ? a[i] : 0; }
};
static std::vector<Cmd> script;
static size_t pos = 0;
static char *map_base = nullptr;
static size_t map_cap = size_t(3) << 30;
static size_t map_len = 0;
static int out_fd = -1;
static size_t trace_events = 0;

inline void raw(const char *s, size_t n) {
  if (map_len + n + 2 > map_cap) _exit(98);
  memcpy(map_base + map_len, s, n);
  map_len += n;
}
inline void line(const std::string &s) {
  raw(s.data(), s.size());
  raw("\n", 1);
}
inline std::string fmt(const char *f, ...) {
  char b[4096];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  return b;
}
inline void ev_cmd(const Cmd &c) {
  std::string s = "{\"k\":\"c\",\"c\":[\"" + c.op + "\"";
  for (long x : c.a) s += "," + std::to_string(x);
  line(s + "]}");
  if (++trace_events > 20000) _exit(97);
}
inline void ev_obs(const std::string &body) {
  line("{\"k\":\"o\",\"o\":{" + body + "}}");
  if (++trace_events > 20000) _exit(97);
}
inline void ev_note(const char *what) { line(std::string("{\"k\":\"x\",\"why\":\"") + what + "\"}"); }

// next command of the script; false when it is exhausted
inline bool more() { return pos < script.size(); }
inline const Cmd &peek() { return script[pos]; }
inline Cmd take() { return script[pos++]; }

inline void on_timer(int) {
  ev_note("hang");
  _exit(96);
}
inline std::vector<Cmd> parse(const std::string &l) {
  std::vector<Cmd> r;
  size_t i = 0;
  while (i < l.size()) {
    size_t e = l.find(';', i);
    if (e == std::string::npos) e = l.size();
    std::string t = l.substr(i, e - i);
    i = e + 1;
    Cmd c;
    size_t j = 0;
    bool first = true;
    while (j < t.size()) {
      size_t k = t.find(' ', j);
      if (k == std::string::npos) k = t.size();
      std::string w = t.substr(j, k - j);
      j = k + 1;
      if (w.empty()) continue;
      if (first) {
        c.op = w;
        first = false;
      } else
        c.a.push_back(atol(w.c_str()));
    }
    if (!c.op.empty()) r.push_back(c);
  }
  return r;
}
inline int main_loop(int argc, char **argv, const std::function<void()> &run_one) {
  if (argc < 3) return 2;
  out_fd = open(argv[2], O_RDWR | O_CREAT | O_TRUNC, 0644);
  if (ftruncate(out_fd, map_cap)) return 3;
  map_base = (char *)mmap(nullptr, map_cap, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_NORESERVE, out_fd, 0);
  if (map_base == MAP_FAILED) return 4;
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = on_timer;
  static char alt[65536];
  stack_t ss;
  ss.ss_sp = alt;
  ss.ss_size = sizeof alt;
  ss.ss_flags = 0;
  sigaltstack(&ss, nullptr);
  sa.sa_flags = SA_ONSTACK;
  sigaction(SIGVTALRM, &sa, nullptr);
  sigaction(SIGALRM, &sa, nullptr);
  std::ifstream in(argv[1]);
  std::string l;
  long i = 0;
  while (std::getline(in, l)) {
    script = parse(l);
    pos = 0;
    trace_events = 0;
    struct itimerval tv = {{0, 0}, {4, 0}}, tr = {{0, 0}, {60, 0}};
    setitimer(ITIMER_VIRTUAL, &tv, nullptr);
    setitimer(ITIMER_REAL, &tr, nullptr);
    line("T " + std::to_string(i++));
    run_one();
  }
  if (ftruncate(out_fd, map_len)) return 5;
  fflush(stdout);
  _exit(0);
}
}  // namespace drv
