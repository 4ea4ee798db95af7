// Controlled scheduling of real threads: interface for the harnesses (implemented in mtrt.cpp).
#pragma once
#include "drv.h"

namespace mt {
static const int MAXT = 6;  // 0 is the main thread (setup and end), 1.. are the workers
// Called by the harness: log one event of the current thread (history order is the order of these calls).
void ev_call(const std::string &body);  // <<"op", thread, args...>> as JSON array text
void ev_obs(const std::string &body);   // members of a JSON object
[[noreturn]] void die(const char *why);
int self();
bool tracking();
// A point where switching threads is free (between commands).
void boundary();
struct Harness {
  std::function<void()> setup;                          // main thread, before the workers start
  std::function<void()> ready;                          // main thread, after its commands
  std::function<void(int, const drv::Cmd &)> exec;      // worker t executes one command
  std::function<void(int)> end;                           // worker t after its last command
  std::function<void()> finish;                         // main thread, after all workers ended
  bool fork_each = false;                               // every execution in its own process
  std::function<void()> once;                           // after the log is open, before the first program
};
int main_loop(int argc, char **argv, const Harness &h);
// No tracking and no switching inside (for bookkeeping of the harness)
struct Quiet {
  Quiet();
  ~Quiet();
};
// Memory the harness manages itself: gone until it is handed out again
void retire(void *p, size_t n);
void fresh(void *p, size_t n);
// A virtual clock that only moves when the harness or a spinning reader needs it
extern long (*clock_hook)();
}  // namespace mt
