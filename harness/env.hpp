// Adversarial environment for the solvers: a scalar problem whose user functions answer
// nondeterministically.  The first time a function is asked at a point the engine chooses the answer
// (0 = the ordinary smooth function, others cost one unit of the deviation budget); the answer is
// remembered, so every function stays a function.  All choice sequences within the budget are explored.
#pragma once
#include <cmath>
#include <limits>
#include <map>
#include <memory>
#include <tuple>
#include <vector>

#include "altro/augmented_lagrangian/al_solver.hpp"
#include "altro/ilqr/ilqr.hpp"
#include "mc.hpp"

namespace env {
using altro::MatrixXd;
using altro::SolverStatus;
using altro::VectorXd;
using altro::VectorXdRef;
using Solver = altro::ilqr::iLQR<Eigen::Dynamic, Eigen::Dynamic>;
using ALSolver = altro::augmented_lagrangian::AugmentedLagrangianiLQR<Eigen::Dynamic, Eigen::Dynamic>;
using Traj = altro::Trajectory<Eigen::Dynamic, Eigen::Dynamic>;
constexpr double kNaN = std::numeric_limits<double>::quiet_NaN();
constexpr double kInf = std::numeric_limits<double>::infinity();

enum Kind { DYN, JAC, COST, GRAD, HESS, CON, NKINDS };
struct Call { Kind kind; int k; double x, u; };

struct Alphabet {            // number of non-default answers offered per function
  int dyn = 3, jac = 2, cost = 4, grad = 2, hess = 4, con = 1;
};

struct Env {
  mc::Run* r = nullptr;
  Alphabet a;
  bool asking = true;        // false: unseen points get the default answer
  bool logging = true;
  std::map<std::tuple<int, int, uint64_t, uint64_t>, int> memo;
  std::vector<Call> log;
  static double unbits(uint64_t u) { double d; std::memcpy(&d, &u, 8); return d; }
  static uint64_t bits(double d) { uint64_t u; if (d == 0) d = 0; std::memcpy(&u, &d, 8); return u; }
  int answer(Kind kind, int k, double x, double u, int extra, const char* label) {
    auto key = std::make_tuple(static_cast<int>(kind), k, bits(x), bits(u));
    auto it = memo.find(key);
    if (it != memo.end()) return it->second;
    if (extra <= 0) return 0;
    // a point already asked up to rounding is the same point (the references reach the solver's points
    // only up to rounding, and so may later iterations of the solver)
    double bd = 1e-9 * (1 + std::abs(x) + std::abs(u));
    auto lo = memo.lower_bound(std::make_tuple(static_cast<int>(kind), k, 0ull, 0ull)), best = memo.end();
    for (auto j = lo; j != memo.end() && std::get<0>(j->first) == kind && std::get<1>(j->first) == k; ++j) {
      double dx = unbits(std::get<2>(j->first)) - x, du = unbits(std::get<3>(j->first)) - u, d = std::abs(dx) + std::abs(du);
      if (d < bd) { bd = d; best = j; }
    }
    if (best != memo.end()) {
      if (asking) memo[key] = best->second;   // stays so when nearer points are asked later
      return best->second;
    }
    if (!asking) return 0;
    int c = r->deviate(extra + 1, label);
    memo[key] = c;
    if (c && r->recording()) r->note(mc::str(label, " at step ", k, " x=", x, " u=", u, " -> answer ", c));
    return c;
  }
  void called(Kind kind, int k, double x, double u) {
    if (logging) log.push_back({kind, k, x, u});
    r->transition();
  }
  // pure functions (also used by the references)
  double f(int k, double x, double u, double t, double h) {
    switch (answer(DYN, k, x, u, a.dyn, "dynamics")) {
      case 1: return 1e9;
      case 2: return x + u * h + 2.0;
      case 3: return kNaN;
      default: return x + u * h + 0.125 * t;
    }
  }
  void fxu(int k, double x, double u, double h, double& A, double& B) {
    A = 1; B = h;
    switch (answer(JAC, k, x, u, a.jac, "dynamics Jacobian")) {
      case 1: A = 1; B = -h; break;
      case 2: A = kNaN; break;
      default: break;
    }
  }
  double base(int k, double x, double u) const { return (1 + k) * x * x + 0.5 * u * u + 0.25 * u + 0.0625 * x * u; }
  double l(int k, double x, double u) {
    double J = base(k, x, u);
    switch (answer(COST, k, x, u, a.cost, "cost")) {
      case 1: return J + 100;
      case 2: return J - 100;
      case 3: return kNaN;
      case 4: return kInf;
      case 5: return J * 0.999999;
      default: return J;
    }
  }
  void lg(int k, double x, double u, double& lx, double& lu) {
    lx = 2 * (1 + k) * x + 0.0625 * u; lu = u + 0.25 + 0.0625 * x;
    switch (answer(GRAD, k, x, u, a.grad, "cost gradient")) {
      case 1: lx = -lx - 1; lu = -lu - 1; break;
      case 2: lx = lu = 0; break;
      case 3: lx = kNaN; break;
      default: break;
    }
  }
  void lh(int k, double x, double u, double& lxx, double& lxu, double& luu) {
    lxx = 2 * (1 + k); lxu = 0.0625; luu = 1;
    switch (answer(HESS, k, x, u, a.hess, "cost Hessian")) {
      case 1: luu = -3; break;
      case 2: lxx = -40; break;
      case 3: luu = kNaN; break;
      case 4: luu = 0; lxx = 0; lxu = 0; break;
      case 5: luu = -1e12; break;
      default: break;
    }
  }
  double c(int k, double x, double u) {
    double v = k % 2 ? x - 0.25 : u + 0.5 * x - 0.1;
    switch (answer(CON, k, x, u, a.con, "constraint")) {
      case 1: return v + 1;
      case 2: return kNaN;
      default: return v;
    }
  }
};

class Dyn : public altro::problem::DiscreteDynamics {
 public:
  using altro::problem::DiscreteDynamics::Evaluate;
  using altro::problem::DiscreteDynamics::Jacobian;
  using altro::problem::DiscreteDynamics::Hessian;
  Dyn(Env* e, int k) : e_(e), k_(k) {}
  int StateDimension() const override { return 1; }
  int ControlDimension() const override { return 1; }
  bool HasHessian() const override { return false; }
  void Evaluate(const VectorXdRef& x, const VectorXdRef& u, const float t, const float h, Eigen::Ref<VectorXd> xn) override {
    double xx = x(0), uu = u(0);
    e_->called(DYN, k_, xx, uu);
    xn(0) = e_->f(k_, xx, uu, t, h);
  }
  void Jacobian(const VectorXdRef& x, const VectorXdRef& u, const float, const float h, Eigen::Ref<MatrixXd> jac) override {
    e_->called(JAC, k_, x(0), u(0));
    double A, B;
    e_->fxu(k_, x(0), u(0), h, A, B);
    jac(0, 0) = A; jac(0, 1) = B;
  }
  void Hessian(const VectorXdRef&, const VectorXdRef&, const float, const float, const VectorXdRef&, Eigen::Ref<MatrixXd>) override {}
 private:
  Env* e_;
  int k_;
};

class Cost : public altro::problem::CostFunction {
 public:
  using altro::problem::CostFunction::Gradient;
  using altro::problem::CostFunction::Hessian;
  Cost(Env* e, int k) : e_(e), k_(k) {}
  int StateDimension() const override { return 1; }
  int ControlDimension() const override { return 1; }
  double Evaluate(const VectorXdRef& x, const VectorXdRef& u) override {
    e_->called(COST, k_, x(0), u(0));
    return e_->l(k_, x(0), u(0));
  }
  void Gradient(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<VectorXd> dx, Eigen::Ref<VectorXd> du) override {
    e_->called(GRAD, k_, x(0), u(0));
    double a, b;
    e_->lg(k_, x(0), u(0), a, b);
    dx(0) = a; du(0) = b;
  }
  void Hessian(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<MatrixXd> dxdx, Eigen::Ref<MatrixXd> dxdu, Eigen::Ref<MatrixXd> dudu) override {
    e_->called(HESS, k_, x(0), u(0));
    double a, b, c;
    e_->lh(k_, x(0), u(0), a, b, c);
    dxdx(0, 0) = a; dxdu(0, 0) = b; dudu(0, 0) = c;
  }
 private:
  Env* e_;
  int k_;
};

template <class Type>
class Con : public altro::constraints::Constraint<Type> {
 public:
  Con(Env* e, int k) : e_(e), k_(k) {}
  int OutputDimension() const override { return 1; }
  void Evaluate(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<VectorXd> c) override {
    e_->called(CON, k_, x(0), u(0));
    c(0) = e_->c(k_, x(0), u(0));
  }
  void Jacobian(const VectorXdRef&, const VectorXdRef&, Eigen::Ref<MatrixXd> jac) override {
    if (k_ % 2) { jac(0, 0) = 1; jac(0, 1) = 0; } else { jac(0, 0) = 0.5; jac(0, 1) = 1; }
  }
 private:
  Env* e_;
  int k_;
};

inline std::shared_ptr<altro::problem::Problem> make_problem(Env* e, int N, double x0, bool constrained = false) {
  auto p = std::make_shared<altro::problem::Problem>(N);
  for (int k = 0; k < N; ++k) p->SetDynamics(std::make_shared<Dyn>(e, k), k);
  for (int k = 0; k <= N; ++k) p->SetCostFunction(std::make_shared<Cost>(e, k), k);
  p->SetInitialState(VectorXd::Constant(1, x0));
  if (constrained) {
    p->SetConstraint(std::make_shared<Con<altro::constraints::Inequality>>(e, 0), 0);
    p->SetConstraint(std::make_shared<Con<altro::constraints::Equality>>(e, N | 1), N);
  }
  return p;
}

inline std::shared_ptr<Traj> make_guess(int N, double u0 = 0.5) {
  auto Z = std::make_shared<Traj>(1, 1, N);
  for (int k = 0; k < N; ++k) {
    Z->SetTime(k, 0.25F * k); Z->SetStep(k, 0.25F);
    Z->Control(k)(0) = u0 - 0.25 * k;
    Z->State(k + 1)(0) = 77 + k;          // stale states: must not matter
  }
  Z->SetTime(N, 0.25F * N);
  Z->SetStep(N, 0.0F);
  return Z;
}

struct Opts {
  int inner = 3, ls = 3, reg_fail = 2, total = 300, outer = 2;
  double reg_init = 0, reg_max = 100, reg_min = 1e-8, reg_factor = 10, state_max = 1e8, control_max = 1e8;
  double cost_tol = 1e-4, grad_tol = 1e-2, con_tol = 1e-4, max_penalty = 1e8, penalty0 = 1;
  double ls_lo = 1e-8, ls_hi = 10, ls_dec = 2;
  bool bounds = true;
};
inline void apply(altro::SolverOptions& o, const Opts& p) {
  o.max_iterations_inner = p.inner; o.line_search_max_iterations = p.ls; o.bp_reg_fail_threshold = p.reg_fail;
  o.max_iterations_total = p.total; o.max_iterations_outer = p.outer;
  o.bp_reg_initial = p.reg_init; o.bp_reg_max = p.reg_max; o.bp_reg_min = p.reg_min; o.bp_reg_increase_factor = p.reg_factor;
  o.state_max = p.state_max; o.control_max = p.control_max; o.check_forwardpass_bounds = p.bounds;
  o.cost_tolerance = p.cost_tol; o.gradient_tolerance = p.grad_tol; o.constraint_tolerance = p.con_tol;
  o.line_search_lower_bound = p.ls_lo; o.line_search_upper_bound = p.ls_hi; o.line_search_decrease_factor = p.ls_dec;
  o.maximum_penalty = p.max_penalty; o.initial_penalty = p.penalty0;
}
// option sets explored (index 0 first)
inline Opts choose_options(mc::Run& r) {
  Opts o;
  switch (r.choose(11, "options")) {
    case 1: o.inner = 1; break;
    case 2: o.ls = 1; break;
    case 3: o.reg_init = 1.0; break;
    case 4: o.control_max = 0.7; break;
    case 5: o.inner = 5; o.total = 2; break;
    case 6: o.reg_fail = 1; o.reg_max = 1; break;
    case 7: o.state_max = 2.5; o.ls = 2; break;
    case 8: o.ls_lo = 0.6; o.ls_hi = 0.9; o.ls_dec = 4; break;
    case 9: o.cost_tol = 0.5; o.grad_tol = 1e-9; break;
    case 10: o.cost_tol = 1e-12; o.grad_tol = 0.5; o.inner = 4; break;
    default: break;
  }
  return o;
}

struct Point { std::vector<double> x, u; std::vector<double> t, h; };
inline Point snapshot(const Traj& Z) {
  Point p;
  for (int k = 0; k <= Z.NumSegments(); ++k) {
    p.x.push_back(Z.State(k)(0)); p.u.push_back(Z.Control(k)(0));
    p.t.push_back(Z.GetTime(k)); p.h.push_back(Z.GetStep(k));
  }
  return p;
}
inline bool same(double a, double b) { return a == b || (a != a && b != b); }
inline bool same(const Point& a, const Point& b) {
  for (size_t i = 0; i < a.x.size(); ++i) if (!same(a.x[i], b.x[i]) || (i + 1 < a.u.size() && !same(a.u[i], b.u[i]))) return false;
  return true;
}
inline bool near(double a, double b, double tol = 1e-9) { return same(a, b) || std::abs(a - b) <= tol * (1 + std::abs(b)); }
inline double total_cost(Env& e, const Point& p) {
  double J = 0;
  for (size_t k = 0; k < p.x.size(); ++k) J += e.l(k, p.x[k], p.u[k]);
  return J;
}

// Independent reference: one backward pass of the regularised scalar LQ problem at p.
struct Ref {
  bool ok = true;            // positive definite at every step
  bool nan = false;          // something was not a number: no prediction
  std::vector<double> K, d;
  double dv1 = 0, dv2 = 0;
};
inline Ref backward(Env& e, const Point& p, double rho) {
  Ref out;
  int N = static_cast<int>(p.x.size()) - 1;
  out.K.assign(N, 0); out.d.assign(N, 0);
  double lx, lu, lxx, lxu, luu;
  e.lg(N, p.x[N], p.u[N], lx, lu);
  e.lh(N, p.x[N], p.u[N], lxx, lxu, luu);
  double S = lxx, s = lx;
  for (int k = N - 1; k >= 0; --k) {
    double A, B;
    e.fxu(k, p.x[k], p.u[k], p.h[k], A, B);
    e.lg(k, p.x[k], p.u[k], lx, lu);
    e.lh(k, p.x[k], p.u[k], lxx, lxu, luu);
    double Qxx = lxx + A * S * A, Qxu = lxu + A * S * B, Quu = luu + B * S * B, Qx = lx + A * s, Qu = lu + B * s;
    double Q = Quu + rho;
    if (Q <= 0) { out.ok = false; return out; }   // NaN is reported by nan
    if (Q != Q || Qu != Qu || Qxu != Qxu) out.nan = true;
    double K = -Qxu / Q, d = -Qu / Q;
    out.K[k] = K; out.d[k] = d;
    s = Qx + K * Quu * d + K * Qu + Qxu * d;
    S = Qxx + K * Quu * K + 2 * K * Qxu;
    out.dv1 += d * Qu;
    out.dv2 += 0.5 * d * Quu * d;
  }
  return out;
}
// Closed-loop rollout of the reference policy; limit: 0 none, 1 state, 2 control.
inline Point rollout(Env& e, const Point& p, const Ref& g, double alpha, double x0, const Opts& o, int& limit) {
  Point q = p;
  int N = static_cast<int>(p.x.size()) - 1;
  limit = 0;
  q.x[0] = x0;
  for (int k = 0; k < N; ++k) {
    q.u[k] = p.u[k] + g.K[k] * (q.x[k] - p.x[k]) + g.d[k] * alpha;
    q.x[k + 1] = e.f(k, q.x[k], q.u[k], p.t[k], p.h[k]);
    if (o.bounds && std::abs(q.x[k + 1]) > o.state_max) { limit = 1; return q; }
    if (o.bounds && std::abs(q.u[k]) > o.control_max) { limit = 2; return q; }
  }
  return q;
}

inline const char* status_name(SolverStatus s) {
  static const char* n[] = {"Solved", "Unsolved", "StateLimit", "ControlLimit", "CostIncrease", "MaxIterations", "MaxOuterIterations",
                            "MaxInnerIterations", "MaxPenalty", "BackwardPassRegularizationFailed"};
  return n[static_cast<int>(s)];
}

// Which functions may answer out of the ordinary in a scenario.
inline Alphabet only(std::initializer_list<Kind> ks, const Alphabet& full = Alphabet()) {
  Alphabet a{0, 0, 0, 0, 0, 0};
  for (Kind k : ks) switch (k) {
    case DYN: a.dyn = full.dyn; break;
    case JAC: a.jac = full.jac; break;
    case COST: a.cost = full.cost; break;
    case GRAD: a.grad = full.grad; break;
    case HESS: a.hess = full.hess; break;
    case CON: a.con = full.con; break;
    default: break;
  }
  return a;
}
}  // namespace env
