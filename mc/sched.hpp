// Controlled scheduler: runs the real multi-threaded code (compiled with -fsanitize=thread, linked
// against this runtime instead of libtsan) on fibers of one OS thread.  Every atomic access, lock,
// wait, thread creation/join and yield is a scheduling point; every plain access is checked for data
// races with vector clocks.
#pragma once
#include <functional>
#include <string>
#include "mc.hpp"

namespace sched {
struct Options {
  int preemptions = 2;        // preemption bound
  long step_limit = 200000;   // horizon (scheduling points) of one execution
  int expiries = 0;           // timed waits that may expire at any moment (others expire only when nothing else can happen)
  bool prune = true;          // stop branching at an already explored happens-before state
};
// One execution of body as thread 0 under the schedule chosen by r.
void run(mc::Run& r, const Options& o, const std::function<void()>& body);

// Callable from inside an execution:
int tid();
void note(const std::string& s);
[[noreturn]] void fail(const std::string& sig, const std::string& msg);
inline void check(bool ok, const char* sig, const std::string& msg) { if (!ok) fail(sig, msg); }
void fail_thread_creation(int nth);   // the nth (0-based) thread creation from now on fails; -1: none
long timeouts();                      // number of timed waits that expired
int live_threads();                   // threads other than thread 0 that have not finished
int created_threads();
uint64_t history();                   // hash of the calling thread's observations so far
void mix_history(uint64_t v);         // make the calling thread's state depend on v

// Call/return history for linearizability checks (kept outside the instrumented program).
struct Ev {
  int thread, op;
  long arg, res;
  long call, ret;   // positions in the global history; ret<0: pending
};
int ev_call(int op, long arg = 0);      // also a scheduling point
void ev_ret(int id, long res);
const std::vector<Ev>& events();
}  // namespace sched
