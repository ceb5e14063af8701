// check: P05 variant=plain sources=all
// The division of the trajectory into tasks: every horizon / thread count / tasks-per-thread within bounds, and
// every history of supplying divisions, changing options, solving and moving up to a depth.
#include <condition_variable>
#include <memory>
#include <mutex>
#include <set>
#include <thread>

#include "mc.hpp"
#include "simple.hpp"

using altro::VectorXd;
using Solver = altro::ilqr::iLQR<Eigen::Dynamic, Eigen::Dynamic>;
using Traj = altro::Trajectory<Eigen::Dynamic, Eigen::Dynamic>;

// The number of processors is an answer of the environment (0 means unknown).
static unsigned g_hw = 4;
unsigned int std::thread::hardware_concurrency() noexcept { return g_hw; }

namespace {

std::string show(const std::vector<int>& v) {
  std::string s = "[";
  for (int i : v) s += mc::str(i, " ");
  return s + "]";
}

void check_partition(mc::Run& r, const std::vector<int>& w, int N, int requested, const std::string& ctx) {
  r.checkf(w.size() >= 2, "too-short", [&] { return ctx + ": " + show(w); });
  r.checkf(w.front() == 0, "start", [&] { return ctx + ": does not start at step 0: " + show(w); });
  r.checkf(w.back() == N + 1, "end", [&] { return ctx + ": does not end just past the last step: " + show(w); });
  for (size_t i = 1; i < w.size(); ++i)
    r.checkf(w[i] > w[i - 1], "not-increasing", [&] { return ctx + ": not strictly increasing: " + show(w); });
  r.checkf(static_cast<int>(w.size()) - 1 <= std::max(requested, 1), "too-many-tasks",
           [&] { return mc::str(ctx, ": ", w.size() - 1, " tasks, ", requested, " requested: ", show(w)); });
}

// 1. automatic division only (no pool involved)
void grid(mc::Run& r, int nmax, int tmax, int pmax) {
  int N = 1 + r.choose(nmax, "N");
  int ti = r.choose(tmax + 1, "threads");
  int p = 1 + r.choose(pmax, "tasks per thread");
  Solver s(N);
  int threads = ti == tmax ? altro::kPickHardwareThreads : ti + 1;
  g_hw = threads == altro::kPickHardwareThreads ? r.choose(5, "processors") : 4;
  s.GetOptions().nthreads = threads;
  s.GetOptions().tasks_per_thread = p;
  int nt = threads == altro::kPickHardwareThreads ? std::max(g_hw, 1u) : threads;
  std::string ctx = mc::str("N=", N, " threads=", threads, "(hw ", g_hw, ") tasks_per_thread=", p);
  r.note(ctx);
  const std::vector<int> w = s.GetTaskAssignment();
  r.transition();
  check_partition(r, w, N, nt * p, ctx);
  r.checkf(s.NumTasks() == static_cast<int>(w.size()) - 1, "num-tasks", [&] { return ctx + ": NumTasks disagrees with the division"; });
  const std::vector<int> w2 = s.GetTaskAssignment();
  r.checkf(w == w2, "unstable", [&] { return ctx + ": asking twice gives different divisions"; });
  // other settings afterwards: the division must follow
  int p2 = 1 + r.choose(2, "second tasks per thread");
  s.GetOptions().tasks_per_thread = p2;
  const std::vector<int> w3 = s.GetTaskAssignment();
  check_partition(r, w3, N, nt * p2, ctx + mc::str(" then tasks_per_thread=", p2));
  uint64_t h = N;
  for (int i : w) h = mc::mix(h, i);
  for (int i : w3) h = mc::mix(h, i);
  r.state(h);
  r.outcome(mc::mix(w.size(), w3.size()));
}

// 2. histories on real pools: which steps are expanded, how often, and grouped how
struct Watch {
  std::mutex m;
  std::condition_variable cv;
  std::vector<int> grads, hess, jacs;          // evaluations per step
  std::set<std::thread::id> seen;
  std::vector<int> firsts;
  int expect_parallel = 0, arrived = 0;
  bool timeout = false, on = false;
  int N = 0;
  void arm(int N_, int par) {
    N = N_; grads.assign(N + 1, 0); hess.assign(N + 1, 0); jacs.assign(N + 1, 0);
    seen.clear(); firsts.clear(); expect_parallel = par; arrived = 0; timeout = false; on = true;
  }
  void hit(std::vector<int>& c, int k) {
    std::unique_lock<std::mutex> l(m);
    if (!on) return;
    c[k]++;
    if (seen.insert(std::this_thread::get_id()).second) {
      // the first step of the first task taken by this thread: wait until every thread has taken one
      firsts.push_back(k);
      if (++arrived >= expect_parallel) cv.notify_all();
      else if (!cv.wait_for(l, std::chrono::seconds(4), [&] { return arrived >= expect_parallel; })) timeout = true;
    }
  }
};

void history(mc::Run& r, int N, int depth, const std::vector<std::vector<int>>& divs) {
  auto w = std::make_shared<Watch>();
  simple::Prob P(2, 1, N);
  for (int k = 0; k <= N; ++k) {
    P.cost[k]->on_grad = [w, k](const altro::VectorXdRef&, const altro::VectorXdRef&) { w->hit(w->grads, k); };
    P.cost[k]->on_hess = [w, k](const altro::VectorXdRef&, const altro::VectorXdRef&) { w->hit(w->hess, k); };
    if (k < N) P.dyn[k]->on_jac = [w, k](const altro::VectorXdRef&, const altro::VectorXdRef&) { w->hit(w->jacs, k); };
  }
  std::unique_ptr<Solver> s(new Solver(*P.prob));
  s->GetOptions().bp_reg_initial = 0;
  auto Z = std::make_shared<Traj>(2, 1, N);
  Z->SetUniformStep(0.1);
  s->SetTrajectory(Z);
  std::vector<int> custom;     // empty: automatic
  int threads = 1, tpt = 1;
  for (int d = 0; d < depth; ++d) {
    int nops = 7 + static_cast<int>(divs.size());
    int op = r.choose(nops, "operation");
    r.transition();
    if (op < 3) {
      int t = op + 1;
      if (t == threads) return;      // nothing changes: covered by shorter histories
      threads = t; s->GetOptions().nthreads = t; r.note(mc::str("nthreads=", t));
    } else if (op == 3) {
      tpt = 3 - tpt; s->GetOptions().tasks_per_thread = tpt; r.note(mc::str("tasks_per_thread=", tpt));
    } else if (op == 4) {
      r.note("move the solver");
      std::unique_ptr<Solver> t(new Solver(std::move(*s)));
      s = std::move(t);
    } else if (op == 5) {
      r.note("expand via SolveSetup + UpdateExpansions");
      s->SolveSetup();
      std::vector<int> div = custom;
      if (custom.empty()) { div = s->GetTaskAssignment(); check_partition(r, div, N, threads * tpt, "automatic division"); }
      int tasks = static_cast<int>(div.size()) - 1;
      bool par = threads > 1;
      w->arm(N, par ? std::min(threads, tasks) : 1);
      s->Rollout();
      s->UpdateExpansions();
      w->on = false;
      r.check(!w->timeout, "tasks-not-parallel", mc::str("with ", threads, " threads and ", tasks, " tasks fewer tasks were in progress at once"));
      for (int k = 0; k <= N; ++k)
        r.check(w->grads[k] == 1 && w->hess[k] == 1, "step-not-once", mc::str("step ", k, ": gradient ", w->grads[k], " Hessian ", w->hess[k], " times"));
      for (int k = 0; k < N; ++k)
        r.check(w->jacs[k] == 1, "dynamics-not-once", mc::str("step ", k, ": dynamics Jacobian ", w->jacs[k], " times"));
      if (par && tasks <= threads) {
        std::sort(w->firsts.begin(), w->firsts.end());
        std::vector<int> want(div.begin(), div.end() - 1);
        r.check(w->firsts == want, "division-not-used", "tasks start at " + show(w->firsts) + ", division is " + show(div));
        r.cover("grouping observed");
      }
      uint64_t h = threads * 10 + tpt;
      for (int i : div) h = mc::mix(h, i);
      r.outcome(h);
    } else if (op == 6) {
      r.note("query the division");
      check_partition(r, s->GetTaskAssignment(), N, custom.empty() ? threads * tpt : N + 1, "queried division");
    } else {
      custom = divs[op - 7];
      r.note("custom division " + show(custom));
      s->SetTaskAssignment(custom);
    }
    if (!custom.empty()) {
      r.check(s->GetTaskAssignment() == custom, "custom-replaced", "the supplied division " + show(custom) + " became " + show(s->GetTaskAssignment()));
      r.check(s->NumTasks() == static_cast<int>(custom.size()) - 1, "num-tasks", "NumTasks disagrees with the supplied division");
    }
  }
}

// 3. invalid divisions are rejected, valid ones are not
void validate(mc::Run& r, int N, int len, bool running) {
  std::vector<int> v;
  int n = r.choose(len + 1, "length");
  for (int i = 0; i < n; ++i) v.push_back(r.choose(N + 4, "index") - 1);
  bool valid = n >= 2 && v.front() == 0 && v.back() == N + 1;
  for (int i = 1; i < n; ++i) valid = valid && v[i] > v[i - 1];
  r.note(show(v));
  r.transition();
  simple::Prob P(2, 1, N);
  mc::ChildResult c = mc::in_child([&] {
    Solver s(*P.prob);
    if (running) { s.GetOptions().nthreads = 2; s.GetTaskAssignment(); }
    s.SetTaskAssignment(v);
  });
  r.check(!c.timeout, "hang", "SetTaskAssignment hangs for " + show(v));
  if (valid) r.check(c.exited && c.code == 0, "valid-rejected", "valid division " + show(v) + " rejected: " + c.err);
  else r.check(!c.exited && c.err.find("Assert") != std::string::npos, "invalid-accepted", "invalid division " + show(v) + " is not rejected with a diagnostic: " + c.err);
  r.outcome(mc::mix(1, valid));
  r.state(mc::hashs(7, show(v)));
}

}  // namespace

int main(int argc, char** argv) {
  mc::Spec s;
  s.property = "P05";
  s.unit = "one execution = one setting (horizon, threads, tasks per thread) or one history of operations on a real solver; state = distinct resulting division; transition = library call";
  s.assumptions = {"grouping of steps into tasks is observed through the threads' first steps, with as many tasks in progress as threads"};
  int nm = mc::tier(64, 300), tm = mc::tier(16, 32), pm = mc::tier(8, 12);
  s.scenarios.push_back({"grid", mc::str("horizons 1..", nm, ", threads 1..", tm, " and automatic (0..4 processors), tasks per thread 1..", pm, ", one change of setting"),
                         [=](mc::Run& r) { grid(r, nm, tm, pm); }});
  int d = mc::tier(6, 7);
  s.scenarios.push_back({"history-N3", mc::str("all histories of ", d, " operations, horizon 3, 1-3 threads, 1-2 tasks per thread, 2 divisions"),
                         [=](mc::Run& r) { history(r, 3, d, {{0, 1, 4}, {0, 1, 2, 4}}); }});
  s.scenarios.push_back({"history-N2", mc::str("all histories of ", d, " operations, horizon 2"), [=](mc::Run& r) { history(r, 2, d, {{0, 3}, {0, 2, 3}}); }});
  int vl = mc::tier(4, 5);
  s.scenarios.push_back({"validate", mc::str("every list of up to ", vl, " indices from -1 to 4, horizon 2"), [=](mc::Run& r) { validate(r, 2, vl, r.flag("automatic division first")); }});
  return mc::main_driver(argc, argv, s);
}
