// check: P08 variant=plain sources=all
// The final status names something that really happened.
#include "al_env.hpp"
#include "alref.hpp"
using namespace env;

namespace {
// Is the reference problem at p indefinite even with this much regularization?
bool indefinite(Env& e, const Point& p, double rho) {
  Ref g = backward(e, p, rho);
  return !g.ok || g.nan;
}

void judge_ilqr(mc::Run& r, Env& e, const Trace& t) {
  const Opts& o = t.o;
  SolverStatus st = t.status;
  int n = t.inner;
  auto named = [&](const char* what) { return mc::str("status ", status_name(st), " after ", n, " iterations: ", what); };
  r.check(st != SolverStatus::kUnsolved, "undecided", named("no decision"));
  r.check(st != SolverStatus::kCostIncrease, "cost-increase", named("the cost never rises, steps that raise it are refused"));
  r.check(st == SolverStatus::kBackwardPassRegularizationFailed || n >= 1, "no-iteration", named("nothing was done"));
  // every iteration performed had a positive definite problem
  for (int i = 1; i <= n; ++i) {
    Ref g = backward(e, t.Z[i - 1], t.reg[i - 1]);
    if (!g.nan) r.checkf(g.ok, "policy-from-failed-pass", [&] { return named(mc::str("iteration ", i, " used a policy although its problem is indefinite at regularization ", t.reg[i - 1]).c_str()); });
  }
  switch (st) {
    case SolverStatus::kSolved: {
      double dJ = total_cost(e, t.Z[n - 1]) - total_cost(e, t.Z[n]);
      r.checkf(t.dJ[n - 1] < o.cost_tol, "solved-cost", [&] { return named(mc::str("recorded decrease ", t.dJ[n - 1]).c_str()); });
      r.checkf(dJ < o.cost_tol + 1e-9, "solved-cost", [&] { return named(mc::str("true decrease ", dJ).c_str()); });
      r.checkf(t.grad[n - 1] < o.grad_tol, "solved-gradient", [&] { return named(mc::str("recorded gradient ", t.grad[n - 1]).c_str()); });
      Ref g = backward(e, t.Z[n - 1], t.reg[n - 1]);
      if (!g.nan) {
        double m = gradient_measure(g, t.Z[n]);
        r.checkf(m < o.grad_tol + 1e-9, "solved-gradient", [&] { return named(mc::str("true gradient measure ", m).c_str()); });
      }
      break;
    }
    case SolverStatus::kMaxInnerIterations: r.check(n >= o.inner, "limit-not-reached", named("inner limit not reached")); break;
    case SolverStatus::kMaxIterations: r.check(t.total >= o.total, "limit-not-reached", named("total limit not reached")); break;
    case SolverStatus::kStateLimit:
    case SolverStatus::kControlLimit: {
      r.check(same(t.Z[n - 1], t.Z[n]), "limit-after-step", named("but the last line search succeeded"));
      Ref g = backward(e, t.Z[n - 1], t.reg[n - 1]);
      if (g.nan || !g.ok) break;
      auto L = ladder(e, t.Z[n - 1], g, t, total_cost(e, t.Z[n - 1]));
      int want = st == SolverStatus::kStateLimit ? 1 : 2;
      r.checkf(!L.empty() && L.back().limit == want, "limit-not-exceeded", [&] { return named("the final trial stays within it"); });
      break;
    }
    case SolverStatus::kBackwardPassRegularizationFailed: {
      r.check(same(t.Z[n ? n : 0], t.Z.back()), "moved-by-failed-pass", named("the trajectory moved"));
      r.checkf(indefinite(e, t.Z.back(), 0.0) , "regularization-not-exhausted", [&] { return named("the problem is positive definite without any regularization"); });
      if (o.reg_fail >= 2) r.checkf(indefinite(e, t.Z.back(), o.reg_max), "regularization-not-exhausted", [&] { return named("the problem is positive definite at the maximal regularization"); });
      r.checkf(!t.reg.empty() && near(t.reg.back(), o.reg_max), "regularization-not-exhausted", [&] { return named(mc::str("last regularization ", t.reg.empty() ? kNaN : t.reg.back(), ", maximum ", o.reg_max).c_str()); });
      break;
    }
    default: r.fail("foreign-status", named("not a status of an unconstrained solve"));
  }
  // the statuses of the truncated solves: only the limit they were given may change the decision
  for (int j = 1; j < n; ++j) {
    SolverStatus s = t.prefix_status[j];
    r.checkf(s == SolverStatus::kMaxInnerIterations, "went-on-after-end", [&] { return mc::str("cut after ", j, " of ", n, " iterations the solver reports ", status_name(s), " but uncut it goes on"); });
  }
}

void judge_al(mc::Run& r, Env& e, const ALTrace& t) {
  const Opts& o = t.o;
  SolverStatus st = t.status;
  auto named = [&](const std::string& what) { return mc::str("status ", status_name(st), " (inner ", status_name(t.inner_status), ") after ", t.outer, " outer, ", t.total, " total iterations: ", what); };
  r.check(st != SolverStatus::kUnsolved, "undecided", named("no decision"));
  r.check(st != SolverStatus::kCostIncrease, "cost-increase", named("cost increase"));
  r.check(t.outer >= 1, "no-iteration", named("nothing was done"));
  double v = true_violation(e, t.Z);
  switch (st) {
    case SolverStatus::kSolved:
      r.checkf(v < o.con_tol, "solved-violation", [&] { return named(mc::str("true violation ", v)); });
      r.checkf(!t.viol.empty() && t.viol.back() < o.con_tol, "solved-violation", [&] { return named(mc::str("recorded violation ", t.viol.back())); });
      r.check(t.inner_status == SolverStatus::kSolved, "solved-inner", named("the last inner solve did not succeed"));
      r.check(t.total >= 1 && t.dJ[t.total - 1] < o.cost_tol, "solved-cost", named("cost decrease"));
      r.check(t.grad[t.total - 1] < o.grad_tol, "solved-gradient", named("gradient"));
      break;
    case SolverStatus::kMaxPenalty:
      r.checkf(t.max_penalty > o.max_penalty, "limit-not-reached", [&] { return named(mc::str("maximal penalty ", t.max_penalty)); });
      r.checkf(o.penalty0 * std::pow(10.0, t.outer - 1) > o.max_penalty, "limit-not-reached", [&] { return named("penalty after that many updates"); });
      break;
    case SolverStatus::kMaxOuterIterations: r.check(t.outer >= o.outer, "limit-not-reached", named("outer limit")); break;
    case SolverStatus::kMaxIterations: r.check(t.total >= o.total, "limit-not-reached", named("total limit")); break;
    case SolverStatus::kMaxInnerIterations: r.check(t.inner >= o.inner, "limit-not-reached", named("inner limit")); break;
    default: r.check(t.inner_status == st, "status-of-nobody", named("not the status of the inner solve")); break;
  }
  if (t.inner_status != SolverStatus::kSolved) r.check(st == t.inner_status, "inner-failure-hidden", named("the inner failure is not reported"));
}

void add(mc::Spec& s, const char* name, int N, Alphabet a, int budget, bool al) {
  mc::Scenario sc;
  sc.name = name;
  sc.bound = mc::str("horizon ", N, ", at most ", budget, " extraordinary answers of the user functions anywhere, ", al ? 10 : 11, " option sets, 2 initial states");
  sc.body = [=](mc::Run& r) {
    Env e;
    e.r = &r;
    e.a = a;
    Opts o = al ? choose_al_options(r) : choose_options(r);
    double x0 = r.flag("initial state") ? -2.5 : 1;
    r.set_budget(budget);
    if (al) {
      judge_al(r, e, run_al(r, e, o, N, x0));
    } else {
      Trace t = run_ilqr(r, e, o, N, x0, true);
      for (auto& z : t.Z) { uint64_t h = 1; for (double d : z.x) h = mc::hashd(h, d); r.state(h); }
      judge_ilqr(r, e, t);
    }
  };
  s.scenarios.push_back(sc);
}
// ---- vector-valued problems: one or two entries of the user's answers are not (finite) numbers ----
enum Fun { F_DYN, F_COST, F_JAC, F_GX, F_GU, F_HXX, F_HXU, F_HUU, F_INEQ, F_EQ, F_CJAC, NFUN };
struct Fault { int fun = -1, step = 0, i = 0, j = 0; double v = 0; bool only_moved = false; };
struct Faults {
  std::vector<Fault> f;
  double u_guess = 0;
  bool hit(const Fault& x, int fun, int k, double u0) const { return x.fun == fun && x.step == k && (!x.only_moved || u0 != u_guess); }
  template <class A> void vec(int fun, int k, double u0, A&& a) const { for (auto& x : f) if (hit(x, fun, k, u0) && x.i < a.size()) a(x.i) = x.v; }
  template <class A> void mat(int fun, int k, double u0, A&& a) const { for (auto& x : f) if (hit(x, fun, k, u0) && x.i < a.rows() && x.j < a.cols()) a(x.i, x.j) = x.v; }
};
struct FDyn : simple::Dyn {
  const Faults* f; int k;
  FDyn(const Faults* f, int k) : simple::Dyn(2, 2), f(f), k(k) {}
  void Evaluate(const VectorXdRef& x, const VectorXdRef& u, const float t, const float h, Eigen::Ref<VectorXd> xn) override { double u0 = u(0); simple::Dyn::Evaluate(x, u, t, h, xn); f->vec(F_DYN, k, u0, xn); }
  void Jacobian(const VectorXdRef& x, const VectorXdRef& u, const float t, const float h, Eigen::Ref<MatrixXd> J) override { simple::Dyn::Jacobian(x, u, t, h, J); f->mat(F_JAC, k, u(0), J); }
};
struct FCost : simple::Cost {
  const Faults* f; int k;
  FCost(const Faults* f, int k, int N) : simple::Cost(2, 2, k == N ? 5.0 : 1.0, 0.5, 0.2), f(f), k(k) {}
  double Evaluate(const VectorXdRef& x, const VectorXdRef& u) override { VectorXd J(1); J(0) = simple::Cost::Evaluate(x, u); f->vec(F_COST, k, u(0), J); return J(0); }
  void Gradient(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<VectorXd> dx, Eigen::Ref<VectorXd> du) override { simple::Cost::Gradient(x, u, dx, du); f->vec(F_GX, k, u(0), dx); f->vec(F_GU, k, u(0), du); }
  void Hessian(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<MatrixXd> xx, Eigen::Ref<MatrixXd> xu, Eigen::Ref<MatrixXd> uu) override {
    simple::Cost::Hessian(x, u, xx, xu, uu);
    f->mat(F_HXX, k, u(0), xx); f->mat(F_HXU, k, u(0), xu); f->mat(F_HUU, k, u(0), uu);
  }
};
template <class T> std::shared_ptr<alref::Con<T>> fcon(const Faults* f, int fun, int k, int dim, double shift) {
  alref::ConFun c{dim, 2}; c.shift = shift;
  struct C : alref::Con<T> {
    const Faults* f; int fun, k;
    C(alref::ConFun c, const Faults* f, int fun, int k) : alref::Con<T>(c), f(f), fun(fun), k(k) {}
    void Evaluate(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<VectorXd> o) override { alref::Con<T>::Evaluate(x, u, o); f->vec(fun, k, u(0), o); }
    void Jacobian(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<MatrixXd> J) override { alref::Con<T>::Jacobian(x, u, J); f->mat(F_CJAC, k, u(0), J); }
  };
  return std::make_shared<C>(c, f, fun, k);
}
double nanmax(double a, double b) { return a != a || b != b ? kNaN : std::max(a, b); }

template <class S> altro::ilqr::iLQR<Eigen::Dynamic, Eigen::Dynamic>& inner(S& s) { return s.GetiLQRSolver(); }
altro::ilqr::iLQR<Eigen::Dynamic, Eigen::Dynamic>& inner(altro::ilqr::iLQR<Eigen::Dynamic, Eigen::Dynamic>& s) { return s; }

struct CE { std::shared_ptr<altro::FunctionBase> f; int k; bool eq; };
// A solve that reports success: everything its tolerances promise is recomputed at the trajectory returned.
template <class S, class Traj>
void judge_solved(mc::Run& r, S& s, Traj& Z, int N, const std::vector<std::shared_ptr<FCost>>& cost, const std::vector<CE>& cons, bool al) {
  auto& o = s.GetOptions();
  auto& st = s.GetStats();
  r.checkf(st.cost_decrease.back() < o.cost_tolerance && st.gradient.back() < o.gradient_tolerance, "solved-gradient", [&] { return mc::str("solved with recorded decrease ", st.cost_decrease.back(), " and gradient ", st.gradient.back()); });
  double g = 0;
  for (int k = 0; k < N; ++k) {
    auto& d = inner(s).GetKnotPointFunction(k).GetFeedforwardGain();
    double m = 0;
    for (int j = 0; j < 2; ++j) m = nanmax(m, std::abs(d(j)) / (std::abs(Z.Control(k)(j)) + 1));
    g += m / N;
  }
  r.checkf(g < o.gradient_tolerance * (1 + 1e-9), "solved-gradient", [&] { return mc::str("solved although the normalized feedforward gain is ", g); });
  double J = 0, v = 0;
  for (int k = 0; k <= N; ++k) J += cost[k]->Evaluate(Z.State(k), Z.Control(k));
  r.checkf(std::isfinite(J), "solved-cost", [&] { return mc::str("solved with cost ", J); });
  if (!al) return;
  for (auto& c : cons) {
    VectorXd out(c.f->OutputDimension());
    c.f->Evaluate(Z.State(c.k), Z.Control(c.k), out);
    for (int i = 0; i < out.size(); ++i) v = nanmax(v, out(i) != out(i) ? kNaN : alref::dist(c.eq, out(i)) < 0 ? -out(i) : alref::dist(c.eq, out(i)));
  }
  r.checkf(v < o.constraint_tolerance, "solved-violation", [&] { return mc::str("solved with true violation ", v); });
  r.checkf(st.violations.back() < o.constraint_tolerance, "solved-violation", [&] { return mc::str("solved with recorded violation ", st.violations.back()); });
}

template <class S, bool al>
void faulty(mc::Run& r, int nfaults) {
  constexpr int N = 2;
  Faults F;
  F.u_guess = 0.25;
  for (int q = 0; q < nfaults; ++q) {
    Fault x;
    x.fun = r.choose(al ? NFUN : F_INEQ, "function");
    bool terminal = x.fun == F_COST || x.fun == F_GX || x.fun == F_HXX || x.fun >= F_INEQ;
    x.step = r.choose(terminal ? N + 1 : N, "step");
    x.i = x.fun == F_COST ? 0 : x.fun == F_INEQ || x.fun == F_CJAC ? r.choose(3, "entry") : r.choose(2, "entry");
    if (x.fun == F_JAC || x.fun == F_CJAC) x.j = r.choose(4, "column");
    if (x.fun == F_HXX || x.fun == F_HXU || x.fun == F_HUU) x.j = r.choose(2, "column");
    x.v = r.pick<double>({kNaN, 1.0 / 0.0, -1.0 / 0.0}, "value");
    x.only_moved = x.step < N && r.flag("only away from the guess");
    F.f.push_back(x);
    if (r.recording()) r.note(mc::str("function ", x.fun, " step ", x.step, " entry ", x.i, ",", x.j, " = ", x.v, x.only_moved ? " away from the guess" : ""));
  }
  int set = r.choose(3, "options");
  auto P = std::make_shared<altro::problem::Problem>(N);
  std::vector<std::shared_ptr<FCost>> cost;
  for (int k = 0; k <= N; ++k) {
    cost.push_back(std::make_shared<FCost>(&F, k, N));
    P->SetCostFunction(cost[k], k);
    if (k < N) P->SetDynamics(std::make_shared<FDyn>(&F, k), k);
  }
  VectorXd x0(2); x0 << 1.0, -0.5;
  P->SetInitialState(x0);
  std::vector<CE> cons;
  if (al) for (int k = 0; k <= N; ++k) {
    auto in = fcon<altro::constraints::Inequality>(&F, F_INEQ, k, 3, -0.6); P->SetConstraint(in, k); cons.push_back(CE{in, k, false});
    if (k == N) { auto eq = fcon<altro::constraints::Equality>(&F, F_EQ, k, 1, 0.1); P->SetConstraint(eq, k); cons.push_back(CE{eq, k, true}); }
  }
  S s(*P);
  auto& o = s.GetOptions();
  o.max_iterations_inner = 8; o.max_iterations_outer = 6; o.max_iterations_total = 40;
  o.bp_reg_max = 1e3; o.bp_reg_fail_threshold = 4;
  if (set == 1) { o.cost_tolerance = 1e2; o.gradient_tolerance = 10; o.constraint_tolerance = 10; }
  if (set == 2) { o.check_forwardpass_bounds = false; o.line_search_max_iterations = 3; }
  auto Z = std::make_shared<altro::Trajectory<Eigen::Dynamic, Eigen::Dynamic>>(2, 2, N);
  Z->SetUniformStep(0.25F);
  for (int k = 0; k < N; ++k) Z->Control(k).setConstant(F.u_guess);
  s.SetTrajectory(Z);
  s.Solve();
  r.transition();
  r.cover(status_name(s.GetStatus()));
  r.check(s.GetStatus() != SolverStatus::kUnsolved || false, "undecided", "no decision");
  r.outcome(static_cast<int>(s.GetStatus()) * 100 + s.GetStats().iterations_total);
  if (s.GetStatus() == SolverStatus::kSolved) judge_solved(r, s, *Z, N, cost, cons, al);
}

// ---- solves that start from where the previous one ended ----
template <class S, bool al>
void histories(mc::Run& r, int nsolves) {
  constexpr int N = 2;
  Faults F;
  auto P = std::make_shared<altro::problem::Problem>(N);
  std::vector<std::shared_ptr<FCost>> cost;
  for (int k = 0; k <= N; ++k) {
    cost.push_back(std::make_shared<FCost>(&F, k, N));
    P->SetCostFunction(cost[k], k);
    if (k < N) P->SetDynamics(std::make_shared<FDyn>(&F, k), k);
  }
  VectorXd x0(2); x0 << 1.0, -0.5;
  P->SetInitialState(x0);
  std::vector<CE> cons;
  if (al) {
    int which = r.choose(3, "constraints");  // at the end; everywhere; also where nothing can satisfy it
    for (int k = which == 1 ? 0 : N; k <= N; ++k) {
      auto in = fcon<altro::constraints::Inequality>(&F, F_INEQ, k, 3, -0.6); P->SetConstraint(in, k); cons.push_back(CE{in, k, false});
      if (k == N) { auto eq = fcon<altro::constraints::Equality>(&F, F_EQ, k, 1, 0.1); P->SetConstraint(eq, k); cons.push_back(CE{eq, k, true}); }
    }
    if (which == 2) { auto eq = fcon<altro::constraints::Equality>(&F, F_EQ, 0, 1, 0.3); P->SetConstraint(eq, 0); cons.push_back(CE{eq, 0, true}); }
  }
  S s(*P);
  auto Z = std::make_shared<altro::Trajectory<Eigen::Dynamic, Eigen::Dynamic>>(2, 2, N);
  Z->SetUniformStep(0.25F);
  for (int k = 0; k < N; ++k) Z->Control(k).setConstant(0.25);
  s.SetTrajectory(Z);
  auto& o = s.GetOptions();
  const auto defaults = o;
  uint64_t out = 0;
  for (int q = 0; q < nsolves; ++q) {
    int set = r.choose(al ? 9 : 6, "options of the solve");
    int change = q ? r.choose(3, "before the solve") : 0;
    o = defaults;
    o.bp_reg_max = 1e3; o.bp_reg_fail_threshold = 4;
    switch (set) {
      case 0: break;
      case 1: o.max_iterations_inner = 1; break;
      case 2: o.max_iterations_total = 2; break;
      case 3: o.cost_tolerance = 1e2; o.gradient_tolerance = 10; break;
      case 4: o.line_search_max_iterations = 1; o.line_search_lower_bound = 0.9; break;
      case 5: o.control_max = 0.3; break;
      case 6: o.max_iterations_outer = 1; break;
      case 7: o.maximum_penalty = 50; break;
      case 8: o.max_iterations_outer = 2; o.reset_duals = false; break;
    }
    if (change == 1) (*inner(s).GetInitialState())(0) += 0.5;
    if (change == 2) for (int k = 0; k < N; ++k) Z->Control(k).setConstant(-0.5);
    s.Solve();
    r.transition();
    auto& st = s.GetStats();
    auto named = [&](const std::string& what) { return mc::str("solve ", q + 1, " with options ", set, ": status ", status_name(s.GetStatus()), " after ", st.iterations_outer, " outer, ", st.iterations_total, " total iterations: ", what); };
    r.cover(status_name(s.GetStatus()));
    if (q && s.GetStatus() == SolverStatus::kSolved && st.iterations_total == 1) r.cover("solved at once");
    if (r.recording()) r.note(named(mc::str("change ", change)));
    switch (s.GetStatus()) {
      case SolverStatus::kSolved: judge_solved(r, s, *Z, N, cost, cons, al); break;
      case SolverStatus::kMaxInnerIterations: r.check(st.iterations_inner >= o.max_iterations_inner, "limit-not-reached", named("inner limit not reached")); break;
      case SolverStatus::kMaxIterations: r.check(st.iterations_total >= o.max_iterations_total, "limit-not-reached", named("total limit not reached")); break;
      case SolverStatus::kMaxOuterIterations: r.check(al && st.iterations_outer >= o.max_iterations_outer, "limit-not-reached", named("outer limit not reached")); break;
      case SolverStatus::kMaxPenalty: r.check(al && st.max_penalty.back() > o.maximum_penalty, "limit-not-reached", named("penalty not exceeded")); break;
      case SolverStatus::kStateLimit: r.fail("limit-not-exceeded", named("states stay small")); break;
      case SolverStatus::kControlLimit: r.check(set == 5, "limit-not-exceeded", named("controls stay within the limit")); break;
      case SolverStatus::kBackwardPassRegularizationFailed: r.fail("regularization-not-exhausted", named("the problem is convex")); break;
      default: r.fail("undecided", named("no decision, or a decision that is never right")); break;
    }
    if (st.iterations_total < 1 && s.GetStatus() != SolverStatus::kBackwardPassRegularizationFailed) r.fail("no-iteration", named("nothing was done"));
    uint64_t h = 17;
    for (int k = 0; k <= N; ++k) for (int i = 0; i < 2; ++i) h = mc::hashd(h, Z->State(k)(i));
    r.state(h);
    out = out * 31 + static_cast<int>(s.GetStatus()) * 100 + st.iterations_total;
  }
  r.outcome(out);
}
}  // namespace

int main(int argc, char** argv) {
  mc::Spec s;
  s.property = "P08";
  s.unit = "one execution = one real solve against one sequence of environment answers (and, for plain solves, its truncations); state = trajectory held; transition = user-function call";
  s.assumptions = {"scalar states and controls; user functions are functions (same answer at the same point); iteration limits of at least one"};
  Alphabet full;
  full.hess = 5;
  full.con = 2;
  bool q = !mc::thorough();
  add(s, "ilqr-all", 2, full, q ? 2 : 3, false);
  add(s, "ilqr-dynamics-cost", 2, only({DYN, COST}, full), q ? 2 : 3, false);
  add(s, "ilqr-derivatives", 2, only({JAC, GRAD, HESS}, full), 3, false);
  add(s, "ilqr-one-step", 1, full, q ? 2 : 3, false);
  add(s, "ilqr-long", 4, full, 2, false);
  add(s, "al-all", 2, full, q ? 2 : 3, true);
  add(s, "al-constraints", 2, only({CON}, full), q ? 3 : 5, true);
  add(s, "al-constraints-cost", 2, only({CON, COST}, full), q ? 2 : 3, true);
  add(s, "al-long", 3, full, q ? 1 : 2, true);
  using IL = altro::ilqr::iLQR<Eigen::Dynamic, Eigen::Dynamic>;
  using ALS = altro::augmented_lagrangian::AugmentedLagrangianiLQR<Eigen::Dynamic, Eigen::Dynamic>;
  s.scenarios.push_back({"ilqr-not-a-number", "vector-valued problem; every way of making 1 entry of the user's answers not a finite number, 3 option sets", [](mc::Run& r) { faulty<IL, false>(r, 1); }});
  s.scenarios.push_back({"al-not-a-number", "vector-valued problem; every way of making 1 entry of the user's answers not a finite number, 3 option sets", [](mc::Run& r) { faulty<ALS, true>(r, 1); }});
  s.scenarios.push_back({"ilqr-not-a-number-twice", "vector-valued problem; every way of making 2 entries of the user's answers not finite numbers, 3 option sets", [](mc::Run& r) { faulty<IL, false>(r, 2); }});
  if (!q) s.scenarios.push_back({"al-not-a-number-twice", "vector-valued problem; every way of making 2 entries of the user's answers not finite numbers, 3 option sets", [](mc::Run& r) { faulty<ALS, true>(r, 2); }});
  s.scenarios.push_back({"ilqr-again", mc::str("every sequence of ", q ? 4 : 5, " solves of one solver, each with one of 6 option sets and one of 3 changes before it"), [=](mc::Run& r) { histories<IL, false>(r, q ? 4 : 5); }});
  s.scenarios.push_back({"al-again", mc::str("every sequence of ", q ? 3 : 4, " solves of one solver, each with one of 9 option sets and one of 3 changes before it, 3 sets of constraints"), [=](mc::Run& r) { histories<ALS, true>(r, q ? 3 : 4); }});
  return mc::main_driver(argc, argv, s);
}
