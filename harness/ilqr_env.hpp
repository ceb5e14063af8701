// One adversarial iLQR solve plus everything needed to judge it: the trajectory held after every
// iteration (from solves truncated at that iteration against the same memorised environment) and the
// independent reference backward pass and line search for it.
#pragma once
#include "env.hpp"

namespace env {

struct Trace {
  Opts o;
  double x0 = 1;
  SolverStatus status;
  std::vector<double> cost, dJ, grad, alpha, reg, z;
  double initial_cost = 0, final_cost = 0, final_reg = 0;
  int inner = 0, total = 0;
  std::vector<Point> Z;        // Z[i]: after i iterations (Z[0]: the rolled-out guess)
  std::vector<Call> log;       // the user calls of the full solve
  std::vector<SolverStatus> prefix_status;
  std::vector<double> prefix_reg;   // regularization the solver holds after i iterations
};

inline void fill(Trace& t, Solver& s, const Traj& Z) {
  const auto& st = s.GetStats();
  t.status = s.GetStatus();
  t.cost = st.cost; t.dJ = st.cost_decrease; t.grad = st.gradient; t.alpha = st.alpha; t.reg = st.regularization; t.z = st.improvement_ratio;
  t.initial_cost = st.initial_cost;
  t.inner = st.iterations_inner; t.total = st.iterations_total;
  t.final_reg = s.GetRegularization();
  (void)Z;
}

inline Trace run_ilqr(mc::Run& r, Env& e, const Opts& o, int N, double x0, bool prefixes) {
  Trace t;
  t.o = o;
  t.x0 = x0;
  auto P = make_problem(&e, N, x0);
  {
    Solver s(*P);
    apply(s.GetOptions(), o);
    auto Z = make_guess(N);
    s.SetTrajectory(Z);
    s.Solve();
    fill(t, s, *Z);
    t.log = e.log;
    e.logging = false;
    e.asking = false;
    t.final_cost = s.Cost();
    if (prefixes) {
      // the guess, rolled out
      Point g = snapshot(*make_guess(N));
      g.x[0] = x0;
      for (int k = 0; k < N; ++k) g.x[k + 1] = e.f(k, g.x[k], g.u[k], g.t[k], g.h[k]);
      t.Z.push_back(g);
      t.prefix_status.push_back(SolverStatus::kUnsolved);
      t.prefix_reg.push_back(o.reg_init);
      for (int j = 1; j < t.inner; ++j) {
        Solver q(*P);
        Opts oj = o;
        oj.inner = j;
        apply(q.GetOptions(), oj);
        auto Zj = make_guess(N);
        q.SetTrajectory(Zj);
        q.Solve();
        t.Z.push_back(snapshot(*Zj));
        t.prefix_status.push_back(q.GetStatus());
        t.prefix_reg.push_back(q.GetRegularization());
        r.check(q.GetStats().iterations_inner == j, "truncated-solve", mc::str("a solve limited to ", j, " iterations performed ", q.GetStats().iterations_inner));
      }
    }
    t.Z.push_back(snapshot(*Z));
    t.prefix_status.push_back(t.status);
  }
  uint64_t h = static_cast<int>(t.status);
  for (double d : t.Z.back().x) h = mc::hashd(h, d);
  for (double d : t.Z.back().u) h = mc::hashd(h, d);
  r.outcome(h);
  r.cover(status_name(t.status));
  return t;
}

// The line search the reference would do from p with policy g.
struct Trial { double alpha; Point q; int limit; double J, z, expected; bool in_bounds, lower; };
inline std::vector<Trial> ladder(Env& e, const Point& p, const Ref& g, const Trace& t, double J0) {
  std::vector<Trial> out;
  double alpha = 1;
  for (int i = 0; i < t.o.ls; ++i) {
    Trial tr;
    tr.alpha = alpha;
    tr.q = rollout(e, p, g, alpha, t.x0, t.o, tr.limit);
    tr.J = tr.limit ? kNaN : total_cost(e, tr.q);
    double expected = tr.expected = -alpha * (g.dv1 + alpha * g.dv2);
    tr.z = expected > 0 ? (J0 - tr.J) / expected : -1;
    tr.in_bounds = !tr.limit && tr.z >= t.o.ls_lo && tr.z <= t.o.ls_hi;
    tr.lower = !tr.limit && tr.J < J0;
    out.push_back(tr);
    alpha /= t.o.ls_dec;
  }
  return out;
}
// Clearly acceptable / clearly unacceptable, away from rounding.
inline bool clearly_ok(const Trial& t, double J0, const Opts& o) {
  return !t.limit && t.J < J0 - 1e-7 * (1 + std::abs(J0)) && t.z > o.ls_lo + 1e-5 && t.z < o.ls_hi - 1e-3;
}
inline bool clearly_bad(const Trial& t, double J0, const Opts& o) {
  if (t.limit || !(t.J < J0 + 1e-9 * (1 + std::abs(J0)))) return true;
  if (std::abs(t.expected) < 1e-9 * (1 + std::abs(J0))) return false;   // the ratio is all rounding
  return !(t.z > o.ls_lo - 1e-5 && t.z < o.ls_hi + 1e-3);
}
// The solver's measure of the gradient: mean over the steps of |d| / (|u| + 1).
inline double gradient_measure(const Ref& g, const Point& z) {
  double s = 0;
  for (size_t k = 0; k < g.d.size(); ++k) s += std::abs(g.d[k]) / (std::abs(z.u[k]) + 1);
  return g.d.empty() ? 0 : s / g.d.size();
}
}  // namespace env
