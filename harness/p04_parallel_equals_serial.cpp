// check: P04 variant=sched sources=all
// Multi-threaded solves equal the single-threaded solve on every schedule.
#include <memory>
#include <stdexcept>
#include <vector>

#include "altro/problem/discretized_model.hpp"
#include "sched.hpp"
#include "simple.hpp"

using altro::VectorXd;

namespace {

struct Cfg {
  int N, iters, preempt;
  std::vector<int> threads;                 // one solve per entry
  int tasks_per_thread;
  std::vector<int> custom;                  // division supplied before solve custom_at
  int custom_at;
  bool al, move_between, fixed_size;
  bool rk4 = false;                         // one integrated model per step, two constraints of each kind at every step
  int throws = 0;                           // bit k: the cost gradient of step k throws in the second solve
};

// x0' = x1 + 0.2 sin(x0), x1' = u - 0.3 x0 t
class Cont : public altro::problem::ContinuousDynamics {
 public:
  using ContinuousDynamics::Evaluate;
  int StateDimension() const override { return 2; }
  int ControlDimension() const override { return 1; }
  void Evaluate(const altro::VectorXdRef& x, const altro::VectorXdRef& u, float t, Eigen::Ref<VectorXd> o) override { o(0) = x(1) + 0.2 * std::sin(x(0)); o(1) = u(0) - 0.3 * x(0) * t; }
  void Jacobian(const altro::VectorXdRef& x, const altro::VectorXdRef&, float t, Eigen::Ref<altro::MatrixXd> J) override { J.setZero(); J(0, 0) = 0.2 * std::cos(x(0)); J(0, 1) = 1; J(1, 0) = -0.3 * t; J(1, 2) = 1; }
  void Hessian(const altro::VectorXdRef&, const altro::VectorXdRef&, float, const altro::VectorXdRef&, Eigen::Ref<altro::MatrixXd> H) override { H.setZero(); }
  bool HasHessian() const override { return false; }
};

struct Rec { std::vector<double> v; std::vector<std::string> what; };

void put(Rec& r, const char* w, double d) { r.v.push_back(d); r.what.push_back(w); }
template <class M>
void putm(Rec& r, const char* w, const M& m) {
  for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) put(r, w, m(i, j));
}

template <int n, int m>
void record(Rec& r, altro::ilqr::iLQR<n, m>& s, const altro::Trajectory<n, m>& Z, int N) {
  for (int k = 0; k <= N; ++k) {
    putm(r, "state", Z.State(k));
    if (k < N) putm(r, "control", Z.Control(k));
    auto& f = s.GetKnotPointFunction(k);
    putm(r, "lxx", f.GetCostExpansion().dxdx()); putm(r, "lxu", f.GetCostExpansion().dxdu()); putm(r, "luu", f.GetCostExpansion().dudu());
    putm(r, "lx", f.GetCostExpansion().dx()); putm(r, "lu", f.GetCostExpansion().du());
    if (k < N) {
      putm(r, "A", f.GetDynamicsExpansion().GetA()); putm(r, "B", f.GetDynamicsExpansion().GetB());
      putm(r, "K", f.GetFeedbackGain()); putm(r, "d", f.GetFeedforwardGain());
    }
    putm(r, "S", f.GetCostToGoHessian()); putm(r, "s", f.GetCostToGoGradient());
    put(r, "step cost", s.GetCosts()(k));
  }
  const altro::SolverStats& st = s.GetStats();
  put(r, "initial cost", st.initial_cost);
  put(r, "inner iterations", st.iterations_inner);
  put(r, "status", static_cast<int>(s.GetStatus()));
  for (const std::vector<double>* v : {&st.cost, &st.alpha, &st.improvement_ratio, &st.gradient, &st.cost_decrease, &st.regularization}) {
    put(r, "series length", v->size());
    for (double d : *v) put(r, "series", d);
  }
  put(r, "regularization", s.GetRegularization());
}

template <class F>
std::shared_ptr<simple::Prob> problem(const Cfg& c, int m, F) {
  auto P = std::make_shared<simple::Prob>(2, m, c.N);
  if (c.al) {
    P->prob->SetConstraint(std::make_shared<simple::Con<altro::constraints::Inequality>>(VectorXd::Zero(2), VectorXd::Ones(m), VectorXd::Constant(1, 0.2)), 0);
    P->prob->SetConstraint(std::make_shared<simple::Con<altro::constraints::Equality>>(VectorXd::Ones(2), VectorXd::Zero(m), VectorXd::Constant(1, -0.3)), c.N);
  }
  if (c.rk4) {
    for (int k = 0; k < c.N; ++k) {
      if (c.fixed_size) P->prob->SetDynamics(std::make_shared<altro::problem::DiscretizedModel<Cont, altro::problem::RungeKutta4<2, 1>>>(Cont()), k);
      else P->prob->SetDynamics(std::make_shared<altro::problem::DiscretizedModel<Cont>>(Cont()), k);
    }
    if (c.al) for (int k = 0; k <= c.N; ++k) for (int i = 0; i < 2; ++i) {
      VectorXd a(2); a << 0.5 + i, 1 - 0.25 * k;
      VectorXd b = k < c.N ? VectorXd::Constant(m, 0.1 * i) : VectorXd::Zero(m);
      P->prob->SetConstraint(std::make_shared<simple::Con<altro::constraints::Inequality>>(a, b, VectorXd::Constant(1 + i, 0.2 - 0.1 * k), 0.1), k);
      P->prob->SetConstraint(std::make_shared<simple::Con<altro::constraints::Equality>>(-a, b, VectorXd::Constant(2 - i, 0.1 * k), 0.2), k);
    }
  }
  return P;
}

// One solve on the given solver, from the same guess.
template <int n, int m>
void solve(Rec& r, altro::ilqr::iLQR<n, m>& s, const Cfg& c) {
  auto Z = std::make_shared<altro::Trajectory<n, m>>(2, 1, c.N);
  Z->SetUniformStep(0.1F);
  for (int k = 0; k < c.N; ++k) Z->Control(k).setConstant(0.3 - 0.2 * k);
  s.SetTrajectory(Z);
  s.Solve();
  record(r, s, *Z, c.N);
}
template <int n, int m>
void solve(Rec& r, altro::augmented_lagrangian::AugmentedLagrangianiLQR<n, m>& s, const Cfg& c) {
  auto Z = std::make_shared<altro::Trajectory<n, m>>(2, 1, c.N);
  Z->SetUniformStep(0.1F);
  for (int k = 0; k < c.N; ++k) Z->Control(k).setConstant(0.3 - 0.2 * k);
  s.SetTrajectory(Z);
  s.Solve();
  record(r, s.GetiLQRSolver(), *Z, c.N);
  put(r, "al status", static_cast<int>(s.GetStatus()));
  put(r, "outer iterations", s.GetStats().iterations_outer);
  put(r, "total iterations", s.GetStats().iterations_total);
  for (double d : s.GetStats().violations) put(r, "violation", d);
  for (int k = 0; k <= c.N; ++k) {
    for (auto& cv : s.GetALCost(k)->GetEqualityConstraints()) putm(r, "equality dual", cv->GetDuals());
    for (auto& cv : s.GetALCost(k)->GetInequalityConstraints()) putm(r, "inequality dual", cv->GetDuals());
  }
}
template <int n, int m> altro::ilqr::iLQR<n, m>& inner(altro::ilqr::iLQR<n, m>& s) { return s; }
template <int n, int m> altro::ilqr::iLQR<n, m>& inner(altro::augmented_lagrangian::AugmentedLagrangianiLQR<n, m>& s) { return s.GetiLQRSolver(); }

template <class S>
void options(S& s, const Cfg& c, int threads) {
  s.GetOptions().nthreads = threads;
  s.GetOptions().tasks_per_thread = c.tasks_per_thread;
  s.GetOptions().max_iterations_inner = c.iters;
  s.GetOptions().max_iterations_outer = 1;
}

// the exceptions of the user's functions, where the configuration asks for them, are part of the result
template <class S>
void solve_or_throw(Rec& r, S& s, const Cfg& c, simple::Prob& P, bool second) {
  for (int k = 0; k <= c.N; ++k) {
    P.cost[k]->on_grad = nullptr;
    if (second && (c.throws >> k & 1)) P.cost[k]->on_grad = [](const altro::VectorXdRef&, const altro::VectorXdRef&) { throw std::domain_error("user"); };
  }
  if (!second || !c.throws) return solve(r, s, c);
  try {
    solve(r, s, c);
    put(r, "solve ended normally although a user function threw", 0);
  } catch (const std::domain_error& e) {
    r = Rec();
    put(r, "exception", 1);
  }
}

template <class S>
void body_t(mc::Run& r, const Cfg& c) {
  sched::Options o;
  o.preemptions = c.preempt;
  o.step_limit = 2000000;
  sched::run(r, o, [&]() {
    std::vector<Rec> ref;
    {
      auto P = problem(c, 1, 0);
      for (size_t i = 0; i < c.threads.size(); ++i) {
        S s(*P->prob);                       // the reference: a fresh solver with one thread
        options(s, c, 1);
        ref.emplace_back();
        solve_or_throw(ref.back(), s, c, *P, i == 1);
      }
    }
    {
      auto P = problem(c, 1, 0);
      std::unique_ptr<S> s(new S(*P->prob));
      for (size_t i = 0; i < c.threads.size(); ++i) {
        options(*s, c, c.threads[i]);
        if (c.custom_at == static_cast<int>(i)) inner(*s).SetTaskAssignment(c.custom);
        Rec got;
        solve_or_throw(got, *s, c, *P, i == 1);
        // exactly what P04 states: everything equals the single-threaded result
        sched::check(got.v.size() == ref[i].v.size(), "different-shape", mc::str("solve ", i, ": ", got.v.size(), " recorded numbers instead of ", ref[i].v.size()));
        for (size_t j = 0; j < got.v.size(); ++j) {
          double a = got.v[j], b = ref[i].v[j];
          bool same = a == b || std::abs(a - b) <= 1e-9 * (1 + std::abs(b)) || (a != a && b != b);
          sched::check(same, "parallel-differs", mc::str("solve ", i, " with ", c.threads[i], " threads: ", got.what[j], " is ", a, ", single-threaded ", b));
        }
        sched::check(sched::timeouts() == 0, "timeout", "waiting for the expansions timed out");
        uint64_t h = 3;
        for (double d : got.v) h = mc::hashd(h, d);
        r.outcome(h);
        if (c.move_between) { std::unique_ptr<S> t(new S(std::move(*s))); s = std::move(t); }
      }
    }
    sched::check(sched::live_threads() == 0, "leaked-thread", "a worker is still alive after the solver was destroyed");
  });
}

void body(mc::Run& r, const Cfg& c) {
  if (c.al) {
    if (c.fixed_size) body_t<altro::augmented_lagrangian::AugmentedLagrangianiLQR<2, 1>>(r, c);
    else body_t<altro::augmented_lagrangian::AugmentedLagrangianiLQR<Eigen::Dynamic, Eigen::Dynamic>>(r, c);
  } else {
    if (c.fixed_size) body_t<altro::ilqr::iLQR<2, 1>>(r, c);
    else body_t<altro::ilqr::iLQR<Eigen::Dynamic, Eigen::Dynamic>>(r, c);
  }
}

void add(mc::Spec& s, Cfg c) {
  mc::Scenario sc;
  std::string th;
  for (int t : c.threads) th += mc::str(t);
  sc.name = mc::str(c.al ? "al" : "ilqr", c.fixed_size ? "-fixed" : "-dynamic", "-N", c.N, "-it", c.iters, "-threads", th, "-tpt", c.tasks_per_thread,
                    c.custom_at >= 0 ? mc::str("-custom", c.custom_at) : "", c.move_between ? "-move" : "", c.rk4 ? "-rk4" : "", c.throws ? mc::str("-throws", c.throws) : "");
  sc.bound = mc::str("horizon ", c.N, ", ", c.iters, " iterations, threads per solve ", th, ", ", c.tasks_per_thread, " tasks per thread, at most ", c.preempt, " preemptions");
  sc.body = [c](mc::Run& r) { body(r, c); };
  sc.warmup = true;
  sc.exec_limit_s = 60;
  s.scenarios.push_back(sc);
}

}  // namespace

int main(int argc, char** argv) {
  mc::Spec s;
  s.property = "P04";
  s.unit = "one execution = one complete schedule of real solves (worker threads and the solving thread) under the controlled scheduler; state = distinct happens-before state at a branching point; transition = scheduling decision; trace = complete schedule whose results equalled the single-threaded ones";
  s.assumptions = {"sequentially consistent interleavings; weak-memory effects only through the happens-before race check",
                   "user functions are pure and one object per time step, as the library asks"};
  bool q = !mc::thorough();
  for (bool fixed : {true, false}) {
    int d = fixed ? 1 : 0;   // quick: the preemptive bound on one instantiation, the other without preemptions
    add(s, {2, 1, q ? d : 2, {2}, 1, {}, -1, false, false, fixed});
    add(s, {3, 2, q ? d : 2, {2}, 1, {}, -1, false, false, fixed});
    add(s, {3, 1, q ? 1 : 2, {2}, 2, {}, -1, false, false, fixed});
    add(s, {3, 1, q ? d : 1, {3}, 1, {}, -1, false, false, fixed});
    add(s, {3, 1, q ? 0 : 1, {2, 1, 2}, 1, {}, -1, false, false, fixed});
    add(s, {3, 1, q ? 0 : 1, {2, 3}, 1, {}, -1, false, false, fixed});
    add(s, {3, 1, q ? 0 : 1, {2, 2}, 1, {0, 1, 2, 4}, 1, false, false, fixed});
    add(s, {3, 1, q ? d : 2, {2}, 1, {0, 1, 4}, 0, false, false, fixed});
    add(s, {2, 1, q ? d : 1, {2, 2}, 1, {}, -1, false, true, fixed});
    add(s, {2, 1, q ? d : 1, {2}, 1, {}, -1, true, false, fixed});
    add(s, {2, 1, q ? 0 : 1, {2, 2}, 1, {}, -1, true, true, fixed});
    add(s, {2, 1, q ? d : 2, {2}, 1, {}, -1, false, false, fixed, true});
    add(s, {2, 1, q ? d : 2, {2}, 1, {}, -1, true, false, fixed, true});
    add(s, {3, 2, q ? 0 : 1, {2}, 1, {}, -1, true, false, fixed, true});
    add(s, {3, 1, q ? 0 : 1, {3, 2}, 1, {}, -1, true, false, fixed, true});
    for (int mask : {1, 4, 5}) {
      add(s, {2, 1, q ? 0 : 1, {2, 2, 2}, 1, {}, -1, false, false, fixed, false, mask});
      if (!q || (fixed && mask == 4)) add(s, {2, 1, q ? 0 : 1, {2, 2, 3}, 1, {}, -1, true, false, fixed, false, mask});
    }
  }
  return mc::main_driver(argc, argv, s);
}
