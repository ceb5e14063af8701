// check: P03 variant=sched sources=threadpool.cpp,assert.cpp
// Launch / add / wait / stop / relaunch / move / destroy in every order, on every schedule, with
// thread creation failing at every position.
#include <memory>
#include <thread>
#include <system_error>
#include <vector>

#include "altro/common/threadpool.hpp"
#include "sched.hpp"

using altro::ThreadPool;

namespace {

enum Op { kAdd, kLaunch1, kLaunch2, kWait, kStop, kFail0, kFail1, kMove, kAssign, kAssignRunning, kAddLong, kEnd };
const char* kNames[] = {"add", "launch(1)", "launch(2)", "wait", "stop", "launch(2) failing at 0", "launch(2) failing at 1",
                        "move-construct", "move-assign", "assign onto a running pool", "add a task that runs until the pool is stopped", "destroy"};

struct Cfg {
  int depth, preempt, max_tasks;
  std::vector<int> alphabet;
};

void body(mc::Run& r, const Cfg& c) {
  // choose a legal program first (pure bookkeeping), then run it under every schedule
  std::vector<int> prog;
  bool running = false, launched = false;
  int pending = 0, tasks = 0, longs = 0;
  for (int d = 0; d < c.depth; ++d) {
    std::vector<int> legal;
    for (int op : c.alphabet) {
      bool ok = true;
      switch (op) {
        case kAdd: ok = tasks < c.max_tasks; break;
        case kAddLong: ok = tasks < c.max_tasks && longs < 2; break;
        case kLaunch1: case kLaunch2: case kFail0: case kFail1: ok = !running; break;
        case kWait: ok = running && longs == 0; break;              // otherwise it waits for its time limit
        case kStop: ok = launched; break;
        case kMove: case kAssign: case kAssignRunning: ok = !running; break;
      }
      if (ok) legal.push_back(op);
    }
    legal.push_back(kEnd);
    int op = legal[legal.size() - 1 - r.choose(static_cast<int>(legal.size()), "op")];
    if (op == kEnd) break;
    prog.push_back(op);
    r.note(kNames[op]);
    switch (op) {
      case kAdd: ++tasks; ++pending; break;
      case kAddLong: ++tasks; ++pending; ++longs; break;
      case kLaunch1: case kLaunch2: running = launched = true; break;
      case kWait: pending = 0; break;
      case kStop: running = false; break;
      default: break;
    }
  }
  if (prog.empty() || !launched) {
    bool faulty = false;
    for (int op : prog) faulty |= op == kFail0 || op == kFail1 || op == kAssignRunning || op == kMove || op == kAssign;
    if (!faulty) return;
  }
  sched::Options o;
  o.preemptions = c.preempt;
  sched::run(r, o, [&]() {
    std::vector<int> started(c.max_tasks, 0), finished(c.max_tasks, 0);
    int added = 0, workers = 0;
    bool running = false;
    std::vector<int> is_long(c.max_tasks, 0), before(c.max_tasks, 0);   // `before`: had started when the pool was launched
    auto total = [&](const std::vector<int>& v) {
      int n = 0;
      for (int x : v) n += x;
      return n;
    };
    auto once = [&](const char* when) {
      for (int i = 0; i < added; ++i) {
        sched::check(started[i] <= 1, "task-ran-twice", mc::str("task ", i, " ran ", started[i], " times (", when, ")"));
        sched::check(started[i] == finished[i], "task-still-running", mc::str("task ", i, " is still running after ", when));
      }
    };
    // a worker that is busy until the stop has begun does not start another task afterwards
    auto kept = [&]() {
      int busy = 0;
      for (int i = 0; i < added; ++i) {
        if (busy >= workers)
          sched::check(started[i] == before[i], "started-after-stop", mc::str("task ", i, " was started although every worker was busy until the pool was stopped"));
        busy += is_long[i] && !before[i];
      }
    };
    auto stopped = [&](ThreadPool& p, const char* when) {
      // reading the plain task records here is a data race unless every worker has been joined
      once(when);
      sched::check(!p.IsRunning(), "still-running", mc::str("pool says it is running after ", when));
      sched::check(sched::live_threads() == 0, "leaked-thread", mc::str(sched::live_threads(), " worker(s) alive after ", when));
      sched::check(p.NumThreads() == 0, "thread-count", mc::str("NumThreads is ", p.NumThreads(), " after ", when));
      sched::check(static_cast<int>(p.NumTasks()) == added - total(started), "lost-task",
                   mc::str("after ", when, " ", p.NumTasks(), " tasks are queued, ", added, " were added and ", total(started), " ran"));
    };
    uint64_t h = 1;
    {
      auto pool = std::make_unique<ThreadPool>();
      for (int op : prog) {
        sched::note(kNames[op]);
        switch (op) {
          case kAdd: {
            int *s = &started[added], *f = &finished[added];
            pool->AddTask([s, f]() {
              ++*s;
              ++*f;
            });
            ++added;
            break;
          }
          case kAddLong: {
            int *s = &started[added], *f = &finished[added];
            std::unique_ptr<ThreadPool>* pp = &pool;
            is_long[added] = 1;
            pool->AddTask([s, f, pp]() {
              ++*s;
              while ((*pp)->IsRunning()) std::this_thread::yield();
              ++*f;
            });
            ++added;
            break;
          }
          case kLaunch1: case kLaunch2: {
            before = started;
            workers = op == kLaunch1 ? 1 : 2;
            int n = op == kLaunch1 ? 1 : 2;
            pool->LaunchThreads(n);
            running = true;
            sched::check(pool->IsRunning() && pool->NumThreads() == static_cast<size_t>(n), "launch", "pool not running with the requested threads after launch");
            break;
          }
          case kFail0: case kFail1: {
            sched::fail_thread_creation(op == kFail0 ? 0 : 1);
            bool thrown = false;
            try {
              pool->LaunchThreads(2);
            } catch (const std::system_error&) {
              thrown = true;
            }
            sched::fail_thread_creation(-1);
            sched::check(thrown, "failure-not-reported", "thread creation failed but LaunchThreads did not throw");
            stopped(*pool, "failed launch");
            break;
          }
          case kWait:
            pool->Wait();
            sched::check(sched::timeouts() == 0, "spurious-timeout", "Wait ran into its time limit");
            for (int i = 0; i < added; ++i)
              sched::check(started[i] == 1 && finished[i] == 1, "task-not-done", mc::str("task ", i, " ran ", started[i], " times before Wait returned"));
            break;
          case kStop:
            pool->StopThreads();
            if (running) { once("stop"); kept(); }
            running = false;
            stopped(*pool, "stop");
            h = mc::mix(h, pool->NumTasks());
            break;
          case kMove: {
            auto p2 = std::make_unique<ThreadPool>(std::move(*pool));
            pool = std::move(p2);
            stopped(*pool, "move");
            break;
          }
          case kAssign: {
            auto p2 = std::make_unique<ThreadPool>();
            *p2 = std::move(*pool);
            pool = std::move(p2);
            stopped(*pool, "move assignment");
            break;
          }
          case kAssignRunning: {
            auto p2 = std::make_unique<ThreadPool>();
            p2->LaunchThreads(1);
            *p2 = std::move(*pool);
            pool = std::move(p2);
            stopped(*pool, "assignment onto a running pool");
            break;
          }
        }
      }
    }
    once("destruction");
    if (running) kept();
    sched::check(sched::live_threads() == 0, "leaked-thread", "a worker is alive after the pool was destroyed");
    sched::check(sched::timeouts() == 0, "spurious-timeout", "a time limit expired");
    h = mc::mix(h, total(started));
    r.outcome(h);
  });
}

void add(mc::Spec& s, const std::string& name, const Cfg& c) {
  mc::Scenario sc;
  sc.name = name;
  sc.bound = mc::str("all legal programs of up to ", c.depth, " of ", c.alphabet.size(), " operations, at most ", c.max_tasks, " tasks, at most ", c.preempt, " preemptions");
  sc.body = [c](mc::Run& r) { body(r, c); };
  sc.warmup = true;
  s.scenarios.push_back(sc);
}

}  // namespace

int main(int argc, char** argv) {
  mc::Spec s;
  s.property = "P03";
  s.unit = "one execution = one legal program of pool operations and one complete schedule of the real ThreadPool; state = distinct happens-before state at a branching point; transition = scheduling decision";
  s.assumptions = {"sequentially consistent interleavings; weak-memory effects only through the happens-before race check",
                   "a moved-from pool is only assigned to or destroyed", "waiting on a stopped pool with queued tasks (which runs into the time limit) is not part of the property"};
  bool q = !mc::thorough();
  std::vector<int> all = {kAdd, kLaunch1, kLaunch2, kWait, kStop, kFail0, kFail1, kMove, kAssign, kAssignRunning};
  std::vector<int> core = {kAdd, kLaunch1, kWait, kStop};
  std::vector<int> mv = {kAdd, kLaunch1, kStop, kMove, kAssign};
  add(s, "all-operations", {q ? 5 : 6, q ? 1 : 2, 2, all});
  add(s, "core-two-workers", {q ? 4 : 6, 2, 2, {kAdd, kLaunch2, kWait, kStop}});
  add(s, "core-one-worker", {q ? 6 : 8, 2, 3, core});
  add(s, "stop-move-relaunch", {q ? 6 : 8, 2, 2, mv});
  add(s, "busy-workers", {q ? 6 : 7, q ? 2 : 3, 3, {kAdd, kAddLong, kLaunch1, kStop}});
  add(s, "two-busy-workers", {q ? 5 : 6, q ? 1 : 2, 4, {kAdd, kAddLong, kLaunch2, kStop}});
  add(s, "creation-faults", {q ? 5 : 7, 2, 2, {kAdd, kLaunch1, kWait, kStop, kFail0, kFail1}});
  return mc::main_driver(argc, argv, s);
}
