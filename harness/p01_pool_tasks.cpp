// check: P01 variant=sched sources=threadpool.cpp,assert.cpp
// Every submitted task runs exactly once; Wait is a barrier.  All schedules up to the preemption bound.
#include <chrono>
#include <memory>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>

#include "altro/common/threadpool.hpp"
#include "sched.hpp"

using altro::ThreadPool;

namespace {

struct Cfg {
  int workers, tasks, rounds;
  bool add_first;     // first round's tasks are added before the threads are launched
  int preempt;
  int throwing;       // bit i: task i of every round throws
};

void body(mc::Run& r, const Cfg& c) {
  sched::Options o;
  o.preemptions = c.preempt;
  sched::run(r, o, [&]() {
    // plain memory: any missing happens-before edge is reported as a data race
    std::vector<int> count(c.rounds * c.tasks, 0), by(c.rounds * c.tasks, 0);
    int order = 0;
    {
      ThreadPool pool;
      if (!c.add_first) pool.LaunchThreads(c.workers);
      for (int round = 0; round < c.rounds; ++round) {
        for (int i = 0; i < c.tasks; ++i) {
          int id = round * c.tasks + i;
          bool thr = c.throwing >> i & 1;
          int *pc = &count[id], *pb = &by[id];
          pool.AddTask([id, pc, pb, thr]() {
            sched::note(mc::str("runs task ", id));
            *pc = *pc + 1;
            *pb = sched::tid();
            if (thr) throw std::runtime_error("task");
          });
        }
        if (c.add_first && round == 0) {
          sched::check(pool.NumTasks() == static_cast<size_t>(c.tasks), "queue-count", "tasks added before launch are not all queued");
          pool.LaunchThreads(c.workers);
        }
        bool thrown = false;
        try {
          pool.Wait();
        } catch (const std::runtime_error& e) {
          thrown = std::string(e.what()) == "task";
        }
        sched::note(thrown ? "wait threw" : "wait returned");
        sched::check(thrown == (c.throwing != 0), "exception-lost", c.throwing ? "a task threw but Wait didn't pass the exception on" : "Wait threw an exception of nobody");
        sched::check(sched::timeouts() == 0, "spurious-timeout", "Wait ran into its time limit although no task was running");
        uint64_t h = 5;
        for (int id = 0; id < c.rounds * c.tasks; ++id) {
          int want = id < (round + 1) * c.tasks ? 1 : 0;
          sched::check(count[id] == want, want ? "task-not-done-after-wait" : "task-ran-early",
                       mc::str("task ", id, " has run ", count[id], " times after wait ", round));
          h = mc::mix(h, by[id]);
          if (by[id] > 0) order = by[id];
        }
        sched::check(pool.NumTasks() == 0, "queue-not-empty", mc::str("queue reports ", pool.NumTasks(), " tasks after Wait"));
        r.outcome(h);
      }
      sched::check(pool.NumThreads() == static_cast<size_t>(c.workers), "thread-count", "wrong number of threads");
    }
    sched::check(sched::live_threads() == 0, "leaked-thread", "a worker is still alive after the pool was destroyed");
    (void)order;
  });
}

// A task that exceeds its time limit is given up on (and reported on the terminal); the others are still waited for.
// Every moment at which a limit can expire while Wait is waiting is explored, up to `expiries` of them.
void limits(mc::Run& r, int workers, int tasks, int rounds, int preempt, int expiries) {
  sched::Options o;
  o.preemptions = preempt;
  o.expiries = expiries;
  mc::CaptureStdout quiet;
  sched::run(r, o, [&]() {
    {
      ThreadPool pool;
      pool.SetTimeoutPerTask(std::chrono::milliseconds(5));
      pool.LaunchThreads(workers);
      for (int round = 0; round < rounds; ++round) {
        for (int i = 0; i < tasks; ++i) {
          int id = round * tasks + i;
          pool.AddTask([id]() {   // recorded outside the program under test: a task given up on may still be running
            int e = sched::ev_call(0, id);
            sched::ev_ret(e, 0);
          });
        }
        pool.Wait();
        sched::note("wait returned");
        std::vector<int> done(rounds * tasks, 0), begun(rounds * tasks, 0);
        for (auto& e : sched::events()) {
          ++begun[e.arg];
          done[e.arg] += e.ret >= 0;
        }
        long missing = 0;
        for (int id = 0; id < (round + 1) * tasks; ++id) {
          sched::check(begun[id] <= 1, "task-ran-twice", mc::str("task ", id, " ran ", begun[id], " times"));
          missing += done[id] == 0;
        }
        sched::check(missing <= sched::timeouts(), "gave-up-early",
                     mc::str("Wait returned with ", missing, " tasks unfinished although only ", sched::timeouts(), " exceeded the time limit"));
        r.outcome(mc::mix(mc::mix(missing, sched::timeouts()), round));
      }
    }
    sched::check(sched::live_threads() == 0, "leaked-thread", "a worker is still alive after the pool was destroyed");
    std::vector<int> begun(rounds * tasks, 0);
    for (auto& e : sched::events()) {
      sched::check(++begun[e.arg] == 1 && e.ret >= 0, "task-ran-twice", mc::str("task ", e.arg, " ran twice or was cut off"));
    }
  });
}

// Tasks that take (virtual) time, each less than its limit, all of them together more: nobody is given up on.
void slow(mc::Run& r, int workers, int tasks, int rounds, int preempt) {
  sched::Options o;
  o.preemptions = preempt;
  mc::CaptureStdout quiet;
  sched::run(r, o, [&]() {
    {
      std::vector<int> done(rounds * tasks, 0);
      ThreadPool pool;
      pool.SetTimeoutPerTask(std::chrono::milliseconds(5));
      pool.LaunchThreads(workers);
      for (int round = 0; round < rounds; ++round) {
        for (int i = 0; i < tasks; ++i) {
          int* p = &done[round * tasks + i];
          int ms = 1 + (i * 2) % 4;
          pool.AddTask([p, ms]() {
            std::this_thread::sleep_for(std::chrono::milliseconds(ms));
            *p = *p + 1;
          });
        }
        pool.Wait();
        sched::note("wait returned");
        sched::check(sched::timeouts() == 0, "spurious-timeout", "Wait ran into a time limit although every task takes less than its limit");
        for (int id = 0; id < rounds * tasks; ++id)
          sched::check(done[id] == (id < (round + 1) * tasks), "task-not-done-after-wait", mc::str("task ", id, " has run ", done[id], " times after wait ", round));
        r.outcome(round);
      }
    }
    sched::check(sched::live_threads() == 0, "leaked-thread", "a worker is still alive after the pool was destroyed");
  });
}

void add(mc::Spec& s, const Cfg& c) {
  mc::Scenario sc;
  sc.name = mc::str("w", c.workers, "-t", c.tasks, "-r", c.rounds, c.add_first ? "-addfirst" : "-launchfirst", c.throwing ? mc::str("-throw", c.throwing) : "");
  sc.bound = mc::str(c.workers, " workers, ", c.tasks, " tasks, ", c.rounds, " wait rounds, at most ", c.preempt, " preemptions");
  sc.body = [c](mc::Run& r) { body(r, c); };
  sc.warmup = true;
  s.scenarios.push_back(sc);
}

}  // namespace

int main(int argc, char** argv) {
  mc::Spec s;
  s.property = "P01";
  s.unit = "one execution = one complete schedule of the real ThreadPool (workers, submitting thread) under the controlled scheduler; state = distinct happens-before state at a branching point; transition = scheduling decision; trace = complete schedule whose oracle agreed";
  s.assumptions = {"sequentially consistent interleavings; weak-memory effects only through the happens-before race check",
                   "a spinning worker's failed poll has no side effect, so it is not repeated until another thread changed something",
                   "time limits expire only when no thread can run, except in the scenarios named limits"};
  bool q = !mc::thorough();
  for (bool first : {true, false}) {
    add(s, {1, 1, 2, first, q ? 3 : 8, 0});
    add(s, {1, 2, 1, first, q ? 4 : 20, 0});
    add(s, {1, 3, 2, first, q ? 2 : 4, 0});
    add(s, {2, 1, 2, first, q ? 3 : 4, 0});
    add(s, {2, 2, 1, first, q ? 3 : 5, 0});
    add(s, {2, 2, 1, first, q ? 2 : 4, 1});
    add(s, {2, 2, 2, first, q ? 1 : 3, 2});
    add(s, {2, 3, 1, first, q ? 1 : 3, 7});
    add(s, {2, 2, 2, first, q ? 2 : 3, 0});
    add(s, {2, 3, 1, first, q ? 2 : 4, 0});
    add(s, {3, 1, 1, first, q ? 2 : 3, 0});
    add(s, {3, 2, 1, first, q ? (first ? 2 : 1) : 3, 0});
    add(s, {3, 3, 1, first, q ? 1 : 2, 0});
    add(s, {4, 4, 1, first, q ? 0 : 1, 0});
  }
  auto lim = [&](int w, int t, int rd, int p, int e) {
    mc::Scenario sc;
    sc.name = mc::str("limits-w", w, "-t", t, "-r", rd);
    sc.bound = mc::str(w, " workers, ", t, " tasks, ", rd, " wait rounds, at most ", p, " preemptions, up to ", e, " time limits expiring at any moment");
    sc.body = [=](mc::Run& r) { limits(r, w, t, rd, p, e); };
    sc.warmup = true;
    s.scenarios.push_back(sc);
  };
  lim(1, 2, 2, q ? 2 : 3, 2);
  lim(1, 3, 1, q ? 2 : 4, 3);
  lim(2, 2, 1, q ? 2 : 3, 2);
  lim(2, 3, 1, q ? 1 : 2, 2);
  auto slo = [&](int w, int t, int rd, int p) {
    mc::Scenario sc;
    sc.name = mc::str("slow-tasks-w", w, "-t", t, "-r", rd);
    sc.bound = mc::str(w, " workers, ", t, " tasks of 1 or 3 ms with a limit of 5 ms, ", rd, " wait rounds, at most ", p, " preemptions");
    sc.body = [=](mc::Run& r) { slow(r, w, t, rd, p); };
    sc.warmup = true;
    s.scenarios.push_back(sc);
  };
  slo(1, 4, 1, q ? 3 : 5);
  slo(1, 3, 2, q ? 2 : 4);
  slo(2, 6, 1, q ? 1 : 2);
  slo(2, 4, 1, q ? 2 : 3);
  return mc::main_driver(argc, argv, s);
}
