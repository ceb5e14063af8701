// One adversarial augmented-Lagrangian solve.
#pragma once
#include "ilqr_env.hpp"

namespace env {
struct ALTrace {
  Opts o;
  SolverStatus status, inner_status;
  int inner = 0, total = 0, outer = 0;
  std::vector<double> cost, dJ, grad, viol, pen, reg;
  double max_violation_fn = 0, max_penalty = 0, final_reg = 0;
  Point Z;
  std::vector<Call> log;
};
// option sets for the outer loop (index 0 first)
inline Opts choose_al_options(mc::Run& r) {
  Opts o;
  o.inner = 4;
  switch (r.choose(10, "options")) {
    case 1: o.outer = 1; break;
    case 2: o.outer = 4; o.max_penalty = 50; break;
    case 3: o.outer = 5; o.inner = 6; o.cost_tol = 1e-3; o.grad_tol = 1; break;
    case 4: o.inner = 6; o.total = 4; o.grad_tol = 1; break;
    case 5: o.inner = 1; break;
    case 6: o.outer = 4; o.con_tol = 10; o.inner = 6; o.grad_tol = 1; o.cost_tol = 1; break;
    case 7: o.outer = 4; o.reg_fail = 1; o.reg_max = 1; o.inner = 6; o.grad_tol = 1; break;
    case 8: o.outer = 3; o.control_max = 0.9; o.inner = 6; o.grad_tol = 1; break;
    case 9: o.outer = 6; o.inner = 6; o.grad_tol = 1; o.cost_tol = 1; o.penalty0 = 100; break;
    default: break;
  }
  return o;
}
inline ALTrace run_al(mc::Run& r, Env& e, const Opts& o, int N, double x0, bool constrained = true) {
  ALTrace t;
  t.o = o;
  auto P = make_problem(&e, N, x0, constrained);
  ALSolver s(*P);
  apply(s.GetOptions(), o);
  auto Z = make_guess(N);
  s.SetTrajectory(Z);
  s.Solve();
  t.status = s.GetStatus();
  t.inner_status = s.GetiLQRSolver().GetStatus();
  const auto& st = s.GetStats();
  t.inner = st.iterations_inner; t.total = st.iterations_total; t.outer = st.iterations_outer;
  t.cost = st.cost; t.dJ = st.cost_decrease; t.grad = st.gradient; t.viol = st.violations; t.pen = st.max_penalty; t.reg = st.regularization;
  t.max_violation_fn = s.GetMaxViolation();
  t.max_penalty = s.GetMaxPenalty();
  t.final_reg = s.GetiLQRSolver().GetRegularization();
  t.Z = snapshot(*Z);
  t.log = e.log;
  e.logging = false;
  e.asking = false;
  uint64_t h = static_cast<int>(t.status);
  for (double d : t.Z.x) h = mc::hashd(h, d);
  r.outcome(h);
  r.state(h);
  r.cover(status_name(t.status));
  return t;
}
// True violation of the problem's constraints by p (make_problem with constrained = true).
inline double true_violation(Env& e, const Point& p) {
  int N = static_cast<int>(p.x.size()) - 1;
  double in = e.c(0, p.x[0], p.u[0]), eq = e.c(N | 1, p.x[N], p.u[N]);
  if (in != in || eq != eq) return kNaN;
  return std::max(std::max(0.0, in), std::abs(eq));
}
}  // namespace env
