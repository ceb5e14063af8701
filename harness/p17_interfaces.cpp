// check: P17 variant=asan sources=all
// Every interface of every kind of function against one reference, into every kind of receiving array; the
// derivative checker on every single wrong entry.
#include <cmath>
#include <limits>
#include <memory>
#include <unistd.h>
#include "altro/augmented_lagrangian/al_cost.hpp"
#include "altro/constraints/constraint_values.hpp"
#include "altro/problem/discretized_model.hpp"
#include "altro/utils/derivative_checker.hpp"
#include "examples/basic_constraints.hpp"
#include "examples/obstacle_constraints.hpp"
#include "examples/quadratic_cost.hpp"
#include "examples/triple_integrator.hpp"
#include "examples/unicycle.hpp"
#include "mc.hpp"
using namespace altro;
namespace cons = altro::constraints;

namespace {
const double kNaN = std::numeric_limits<double>::quiet_NaN(), kInf = std::numeric_limits<double>::infinity(), kGuard = 8642.25;

// ------------------------------------------------------------------ receivers
struct Recv { int kind; double fill; };       // kind 0: its own array, 1: part of a larger one
struct Mat {
  MatrixXd big; int r0, c0, n, m;
  Mat(int n_, int m_, Recv v) : r0(v.kind ? 1 : 0), c0(v.kind ? 2 : 0), n(n_), m(m_) { int e = v.kind ? 3 : 0; big = MatrixXd::Constant(n + e, m + e, kGuard); big.block(r0, c0, n, m).setConstant(v.fill); }
  Eigen::Ref<MatrixXd> ref() { return big.block(r0, c0, n, m); }
  Eigen::Ref<MatrixXd> part(int i, int j, int a, int b) { return big.block(r0 + i, c0 + j, a, b); }
  MatrixXd get() const { return big.block(r0, c0, n, m); }
  bool guards() const { for (int i = 0; i < big.rows(); ++i) for (int j = 0; j < big.cols(); ++j) if ((i < r0 || i >= r0 + n || j < c0 || j >= c0 + m) && big(i, j) != kGuard) return false; return true; }
};
struct Vec {
  VectorXd big; int off, n;
  Vec(int n_, Recv v) : off(v.kind ? 2 : 0), n(n_) { big = VectorXd::Constant(n + (v.kind ? 5 : 0), kGuard); big.segment(off, n).setConstant(v.fill); }
  Eigen::Ref<VectorXd> ref() { return big.segment(off, n); }
  Eigen::Ref<VectorXd> part(int i, int a) { return big.segment(off + i, a); }
  VectorXd get() const { return big.segment(off, n); }
  bool guards() const { for (int i = 0; i < big.size(); ++i) if ((i < off || i >= off + n) && big(i) != kGuard) return false; return true; }
};
bool eq(double a, double b, double s) { return std::abs(a - b) <= 1e-11 * std::max(1.0, std::max(s, std::abs(b))); }
void same(mc::Run& r, const char* sig, const MatrixXd& got, const MatrixXd& want, bool guards, const std::string& how) {
  r.transition();
  r.checkf(guards, "wrote-outside", [&] { return how + ": wrote outside its output"; });
  double s = want.size() ? want.cwiseAbs().maxCoeff() : 0;
  for (int i = 0; i < want.rows(); ++i) for (int j = 0; j < want.cols(); ++j)
    r.checkf(eq(got(i, j), want(i, j), s), sig, [&] { return mc::str(how, ": entry (", i, ",", j, ") is ", got(i, j), ", expected ", want(i, j)); });
}
// A finding about one example class (recorded, not repaired: the examples may not be edited). `alt` is what the
// class is known to do; anything else that differs from `want` is reported as usual. The rest of the execution is still
// checked; the finding itself is reported at its end.
struct Finding {
  const char* sig = nullptr; std::string text;
  void done(mc::Run& r) { if (sig) r.check(false, sig, text); }
};
bool identical(const MatrixXd& a, const MatrixXd& b) {
  for (int i = 0; i < a.rows(); ++i) for (int j = 0; j < a.cols(); ++j)
    if (!(std::isnan(a(i, j)) && std::isnan(b(i, j))) && !eq(a(i, j), b(i, j), 1)) return false;
  return true;
}
void same_or_known(mc::Run& r, Finding& fd, const char* known, const MatrixXd& alt, const char* sig, const MatrixXd& got, const MatrixXd& want, bool guards, const std::string& how) {
  if (guards && !identical(got, want) && identical(got, alt)) { if (!fd.sig) { fd.sig = known; fd.text = how; } r.transition(); return; }
  same(r, sig, got, want, guards, how);
}
Recv receiver(mc::Run& r) { Recv v; v.kind = r.choose(2, "receiver"); v.fill = r.pick({0.0, kNaN, 7.0}, "earlier content"); return v; }
VectorXd values(mc::Run& r, int n) { VectorXd v(n); for (int i = 0; i < n; ++i) v(i) = r.pick({0.5, -1.0, 2.0}, "value"); return v; }

// ------------------------------------------------------------------ costs
struct CostRef { double J; VectorXd g; MatrixXd H; };

class PolyCost : public problem::CostFunction {   // sum of products plus z0^2 * zlast, cross terms everywhere
 public:
  using problem::CostFunction::Gradient;
  using problem::CostFunction::Hessian;
  PolyCost(int n, int m) : n_(n), m_(m) {}
  int StateDimension() const override { return n_; }
  int ControlDimension() const override { return m_; }
  static CostRef ref(int n, int m, const VectorXd& z) {
    int N = n + m; CostRef c; c.J = 0; c.g = VectorXd::Zero(N); c.H = MatrixXd::Zero(N, N);
    for (int i = 0; i < N; ++i) for (int j = i; j < N; ++j) { double w = 1 + 0.25 * (i + 2 * j); c.J += w * z(i) * z(j); c.g(i) += w * z(j); c.g(j) += w * z(i); c.H(i, j) += w; c.H(j, i) += w; }
    c.J += z(0) * z(0) * z(N - 1); c.g(0) += 2 * z(0) * z(N - 1); c.g(N - 1) += z(0) * z(0);
    c.H(0, 0) += 2 * z(N - 1); c.H(0, N - 1) += 2 * z(0); c.H(N - 1, 0) += 2 * z(0);
    return c;
  }
  CostRef at(const VectorXdRef& x, const VectorXdRef& u) const { VectorXd z(n_ + m_); z << x, u; return ref(n_, m_, z); }
  double Evaluate(const VectorXdRef& x, const VectorXdRef& u) override { return at(x, u).J; }
  void Gradient(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<VectorXd> dx, Eigen::Ref<VectorXd> du) override { CostRef c = at(x, u); dx = c.g.head(n_); du = c.g.tail(m_); }
  void Hessian(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<MatrixXd> dxdx, Eigen::Ref<MatrixXd> dxdu, Eigen::Ref<MatrixXd> dudu) override {
    CostRef c = at(x, u); dxdx = c.H.topLeftCorner(n_, n_); dxdu = c.H.topRightCorner(n_, m_); dudu = c.H.bottomRightCorner(m_, m_);
  }
 private:
  int n_, m_;
};
// a scalar function that is not a cost: only the stacked derivative
class Scalar : public ScalarFunction {
 public:
  using ScalarFunction::Hessian;
  Scalar(int n, int m) : n_(n), m_(m) {}
  int StateDimension() const override { return n_; }
  int ControlDimension() const override { return m_; }
  CostRef at(const VectorXdRef& x, const VectorXdRef& u) const { VectorXd z(n_ + m_); z << x, u; return PolyCost::ref(n_, m_, z); }
  double Evaluate(const VectorXdRef& x, const VectorXdRef& u) override { return at(x, u).J; }
  void Gradient(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<VectorXd> g) override { g = at(x, u).g; }
  void Hessian(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<MatrixXd> H) override { H = at(x, u).H; }
 private:
  int n_, m_;
};

void stacked(mc::Run& r, ScalarFunction& f, const VectorXd& x, const VectorXd& u, const CostRef& c, Recv v, const char* what) {
  FunctionBase& base = f;
  const int N = x.size() + u.size();
  std::string w = what;
  { Vec o(1, v); base.Evaluate(x, u, o.ref()); same(r, "value", o.get(), VectorXd::Constant(1, c.J), o.guards(), w + ": value through the stacked interface"); }
  same(r, "value", VectorXd::Constant(1, f.Evaluate(x, u)), VectorXd::Constant(1, c.J), true, w + ": value");
  { Mat o(1, N, v); base.Jacobian(x, u, o.ref()); same(r, "jacobian", o.get(), c.g.transpose(), o.guards(), w + ": Jacobian through the stacked interface"); }
  { Vec o(N, v); f.Gradient(x, u, o.ref()); same(r, "gradient", o.get(), c.g, o.guards(), w + ": stacked gradient"); }
  { Mat o(N, N, v); f.Hessian(x, u, o.ref()); same(r, "hessian", o.get(), c.H, o.guards(), w + ": stacked Hessian"); }
  { Mat o(N, N, v); base.Hessian(x, u, VectorXd::Ones(1), o.ref()); same(r, "hessian", o.get(), c.H, o.guards(), w + ": Hessian through the stacked interface"); }
  r.check(base.OutputDimension() == 1 && base.StateDimension() == x.size() && base.ControlDimension() == u.size() && base.HasHessian(), "dimensions", w + ": dimensions");
}
void split(mc::Run& r, problem::CostFunction& f, const VectorXd& x, const VectorXd& u, const CostRef& c, Recv v, const char* what) {
  const int n = x.size(), m = u.size();
  std::string w = what;
  { Vec o(n + m, v); f.Gradient(x, u, o.part(0, n), o.part(n, m)); same(r, "gradient", o.get(), c.g, o.guards(), w + ": gradient in two parts of one vector"); }
  { Vec a(n, v), b(m, v); f.Gradient(x, u, a.ref(), b.ref()); same(r, "gradient", a.get(), c.g.head(n), a.guards(), w + ": state gradient"); same(r, "gradient", b.get(), c.g.tail(m), b.guards(), w + ": control gradient"); }
  { Mat a(n, n, v), b(n, m, v), d(m, m, v); f.Hessian(x, u, a.ref(), b.ref(), d.ref());
    same(r, "hessian", a.get(), c.H.topLeftCorner(n, n), a.guards(), w + ": state Hessian"); same(r, "hessian", b.get(), c.H.topRightCorner(n, m), b.guards(), w + ": mixed Hessian"); same(r, "hessian", d.get(), c.H.bottomRightCorner(m, m), d.guards(), w + ": control Hessian"); }
  { Mat o(n + m, n + m, v); o.ref().bottomLeftCorner(m, n).setZero(); f.Hessian(x, u, o.part(0, 0, n, n), o.part(0, n, n, m), o.part(n, n, m, m));
    MatrixXd want = c.H; want.bottomLeftCorner(m, n).setZero(); same(r, "hessian", o.get(), want, o.guards(), w + ": Hessian in blocks of one matrix"); }
}

CostRef quad(const MatrixXd& Q, const MatrixXd& R, const MatrixXd& H, const VectorXd& q, const VectorXd& rr, double c, const VectorXd& x, const VectorXd& u) {
  int n = x.size(), m = u.size(); CostRef o; o.J = c; o.g = VectorXd::Zero(n + m); o.H = MatrixXd::Zero(n + m, n + m);
  for (int i = 0; i < n; ++i) { o.J += q(i) * x(i); o.g(i) += q(i); for (int j = 0; j < n; ++j) { o.J += 0.5 * x(i) * Q(i, j) * x(j); o.g(i) += Q(i, j) * x(j); o.H(i, j) = Q(i, j); } }
  for (int i = 0; i < m; ++i) { o.J += rr(i) * u(i); o.g(n + i) += rr(i); for (int j = 0; j < m; ++j) { o.J += 0.5 * u(i) * R(i, j) * u(j); o.g(n + i) += R(i, j) * u(j); o.H(n + i, n + j) = R(i, j); } }
  for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) { o.J += x(i) * H(i, j) * u(j); o.g(i) += H(i, j) * u(j); o.g(n + j) += H(i, j) * x(i); o.H(i, n + j) = o.H(n + j, i) = H(i, j); }
  return o;
}

template <int n, int m>
void costs(mc::Run& r) {
  int kind = r.choose(6, "kind of cost");
  VectorXd x = values(r, n), u = values(r, m);
  Recv v = receiver(r);
  VectorXd z(n + m); z << x, u;
  MatrixXd Q = MatrixXd::Zero(n, n), R = MatrixXd::Zero(m, m), H = MatrixXd::Zero(n, m);
  VectorXd q(n), rr(m);
  for (int i = 0; i < n; ++i) { q(i) = 0.5 - i; Q(i, i) = 2 + i; if (i) Q(i, i - 1) = Q(i - 1, i) = 0.5; }
  for (int i = 0; i < m; ++i) { rr(i) = -1 + 0.5 * i; R(i, i) = 1 + i; if (i) R(i, i - 1) = R(i - 1, i) = 0.25; }
  if (kind == 2) for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) H(i, j) = 0.5 * (i + 1) - 0.25 * j;
  if (kind == 0) { PolyCost f(n, m); CostRef c = f.at(x, u); stacked(r, f, x, u, c, v, "user cost"); split(r, f, x, u, c, v, "user cost"); }
  else if (kind == 1) { Scalar f(n, m); stacked(r, f, x, u, f.at(x, u), v, "scalar function"); }
  else if (kind == 2) { examples::QuadraticCost f(Q, R, H, q, rr, 1.5, false); CostRef c = quad(Q, R, H, q, rr, 1.5, x, u); stacked(r, f, x, u, c, v, "quadratic cost"); split(r, f, x, u, c, v, "quadratic cost"); r.check(!f.IsBlockDiagonal(), "block-diagonal", "a cost with cross terms"); }
  else if (kind == 3) { examples::QuadraticCost f(Q, R * 0, H, q, rr, -2, true); CostRef c = quad(Q, R * 0, H, q, rr, -2, x, u); stacked(r, f, x, u, c, v, "terminal quadratic cost"); split(r, f, x, u, c, v, "terminal quadratic cost"); r.check(f.IsBlockDiagonal(), "block-diagonal", "a cost without cross terms"); }
  else if (kind == 4) {
    VectorXd xr = VectorXd::LinSpaced(n, 0.5, 2), ur = VectorXd::LinSpaced(m, -1, 0.25);
    examples::QuadraticCost f = examples::QuadraticCost::LQRCost(Q, R, xr, ur);
    CostRef c = quad(Q, R, H, VectorXd::Zero(n), VectorXd::Zero(m), 0, x - xr, u - ur);
    stacked(r, f, x, u, c, v, "tracking cost"); split(r, f, x, u, c, v, "tracking cost");
  } else {
    // an augmented cost is a cost like any other; reference from the definition for fixed multipliers and penalties
    class Lin : public cons::Constraint<cons::Equality> {
     public:
      int OutputDimension() const override { return 2; }
      void Evaluate(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<VectorXd> c) override { c(0) = x(0) - 2 * u(0) + 0.25; c(1) = x(n - 1) + u(m - 1); }
      void Jacobian(const VectorXdRef&, const VectorXdRef&, Eigen::Ref<MatrixXd> J) override { J.setZero(); J(0, 0) += 1; J(0, n) += -2; J(1, n - 1) += 1; J(1, n + m - 1) += 1; }
    };
    class Ine : public cons::Constraint<cons::Inequality> {
     public:
      int OutputDimension() const override { return 1; }
      void Evaluate(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<VectorXd> c) override { c(0) = 3 * x(0) + u(0) - 0.75; }
      void Jacobian(const VectorXdRef&, const VectorXdRef&, Eigen::Ref<MatrixXd> J) override { J.setZero(); J(0, 0) = 3; J(0, n) = 1; }
    };
    auto poly = std::make_shared<PolyCost>(n, m);
    augmented_lagrangian::ALCost<n, m> f(n, m);
    f.SetCostFunction(poly);
    std::vector<cons::ConstraintPtr<cons::Equality>> es{std::make_shared<Lin>()};
    std::vector<cons::ConstraintPtr<cons::Inequality>> is{std::make_shared<Ine>()};
    f.SetEqualityConstraints(es.begin(), es.end());
    f.SetInequalityConstraints(is.begin(), is.end());
    f.template SetPenalty<cons::Equality>(2.0, 0);
    f.template SetPenalty<cons::Inequality>(4.0, 0);
    f.GetEqualityConstraints()[0]->GetDuals() << 0.5, -1.0;
    f.GetInequalityConstraints()[0]->GetDuals() << -0.5;
    CostRef c = poly->at(x, u);
    auto add = [&](bool ineq, double lam, double rho, double cv, const VectorXd& g) {
      // J += (|proj(lam - rho c)|^2 - lam^2) / (2 rho); an inequality multiplier is never positive
      double w = lam - rho * cv; bool act = !ineq || w < 0; double p = act ? w : 0;
      c.J += (p * p - lam * lam) / (2 * rho);
      if (act) { c.g -= p * g; c.H += rho * g * g.transpose(); }
    };
    VectorXd g1 = VectorXd::Zero(n + m), g2 = g1, g3 = g1; g1(0) += 1; g1(n) += -2; g2(n - 1) += 1; g2(n + m - 1) += 1; g3(0) = 3; g3(n) = 1;
    add(false, 0.5, 2, x(0) - 2 * u(0) + 0.25, g1); add(false, -1, 2, x(n - 1) + u(m - 1), g2); add(true, -0.5, 4, 3 * x(0) + u(0) - 0.75, g3);
    stacked(r, f, x, u, c, v, "augmented cost"); split(r, f, x, u, c, v, "augmented cost");
  }
  r.state(mc::hashm(mc::mix(kind, v.kind * 4 + (v.fill == 7 ? 1 : v.fill == 0 ? 2 : 3)), z));
  r.outcome(mc::hashm(kind, z));
}

// ------------------------------------------------------------------ constraints
template <int n, int m, class T>
void constraint(mc::Run& r, std::shared_ptr<cons::Constraint<T>> con, const VectorXd& x, const VectorXd& u, const VectorXd& c, const MatrixXd& J, Recv v, const std::string& what, Finding* fd = nullptr, const char* known = "", std::function<MatrixXd(double)> alt = nullptr) {
  cons::ConstraintValues<n, m, T> vals(x.size(), u.size(), con);
  for (int route = 0; route < 2; ++route) {
    FunctionBase& f = route == 0 ? static_cast<FunctionBase&>(*con) : static_cast<FunctionBase&>(vals);
    std::string w = what + (route ? ", through its stored values" : "");
    r.checkf(f.OutputDimension() == c.size(), "dimensions", [&] { return mc::str(w, ": output dimension ", f.OutputDimension(), ", expected ", c.size()); });
    Vec o(c.size(), v); f.Evaluate(x, u, o.ref()); same(r, "value", o.get(), c, o.guards(), w + ": value");
    Mat j(c.size(), x.size() + u.size(), v); f.Jacobian(x, u, j.ref());
    if (fd) same_or_known(r, *fd, known, alt(v.fill), "jacobian", j.get(), J, j.guards(), w + ": Jacobian"); else same(r, "jacobian", j.get(), J, j.guards(), w + ": Jacobian");
  }
  vals.CalcExpansion(x, u);
  same(r, "value", vals.GetConstraintValue(), c, true, what + ": stored value");
}

void bounds(mc::Run& r) {
  const int m = r.choose(2, "controls") + 1, n = 2;
  std::vector<double> lb(m, -kInf), ub(m, kInf);
  auto lows = [&] { std::vector<double> b(m); for (double& d : b) d = r.pick({-1.0, -kInf, 0.0}, "lower"); return b; };
  auto ups = [&] { std::vector<double> b(m); for (double& d : b) d = r.pick({1.0, kInf, 0.0}, "upper"); return b; };
  std::shared_ptr<examples::ControlBound> con;
  if (r.flag("constructor with bounds")) { lb = lows(); ub = ups(); con = std::make_shared<examples::ControlBound>(lb, ub); }
  else con = std::make_shared<examples::ControlBound>(m);
  for (int i = 0; i < 2; ++i) {
    switch (r.choose(5, "setter")) {
      case 0: break;
      case 1: { auto b = lows(); con->SetLowerBound(b); lb = b; break; }
      case 2: { auto b = ups(); con->SetUpperBound(b); ub = b; break; }
      case 3: { auto b = lows(); lb = b; con->SetLowerBound(std::move(b)); break; }
      case 4: { auto b = ups(); ub = b; con->SetUpperBound(std::move(b)); break; }
    }
  }
  Recv v; v.kind = r.choose(2, "receiver"); v.fill = kNaN;
  VectorXd x = VectorXd::Constant(n, 0.5), u(m); for (int i = 0; i < m; ++i) u(i) = i ? -2.0 : 0.5;
  std::vector<std::pair<double, std::pair<int, int>>> rows;
  for (int i = 0; i < m; ++i) if (lb[i] > -kInf) rows.push_back({lb[i] - u(i), {i, -1}});
  for (int i = 0; i < m; ++i) if (ub[i] < kInf) rows.push_back({u(i) - ub[i], {i, 1}});
  VectorXd c(rows.size()); MatrixXd J = MatrixXd::Zero(rows.size(), n + m);
  for (size_t i = 0; i < rows.size(); ++i) { c(i) = rows[i].first; J(i, n + rows[i].second.first) = rows[i].second.second; }
  constraint<-1, -1, cons::Inequality>(r, con, x, u, c, J, v, "control bound");
  r.state(mc::hashm(mc::hashm(m, c), J)); r.outcome(mc::hashm(m, c));
}
void circles(mc::Run& r) {
  const int n = 3, m = 2;
  auto con = std::make_shared<examples::CircleConstraint>();
  std::vector<std::array<double, 3>> obs;
  int a = 0, b = 1;
  for (int i = 0; i < 3; ++i) {
    int o = r.choose(5, "setup");
    if (o == 0) continue;
    if (o == 1) { con->AddObstacle(1.0, 2.0, 0.5); obs.push_back({1.0, 2.0, 0.5}); }
    else if (o == 2) { con->AddObstacle(-1.0, 0.25, 2.0); obs.push_back({-1.0, 0.25, 2.0}); }
    else { a = r.choose(3, "x index"); b = (a + 1 + (o == 3 ? 0 : 1)) % 3; con->SetXYIndices(a, b); }
  }
  VectorXd x = values(r, n), u = VectorXd::Constant(m, 0.5);
  Recv v = receiver(r);
  VectorXd c(obs.size()); MatrixXd J = MatrixXd::Zero(obs.size(), n + m);
  for (size_t i = 0; i < obs.size(); ++i) {
    double px = x(a) - obs[i][0], py = x(b) - obs[i][1];
    c(i) = obs[i][2] * obs[i][2] - px * px - py * py; J(i, a) = -2 * px; J(i, b) = -2 * py;
  }
  // known: the gradient goes to columns 0 and 1 whatever the indices are, and nothing else is written
  auto alt = [&](double fill) { MatrixXd A = MatrixXd::Constant(obs.size(), n + m, fill); A.col(0) = J.col(a); A.col(1) = J.col(b); return A; };
  Finding fd;
  constraint<3, 2, cons::Inequality>(r, con, x, u, c, J, v, mc::str("circles at states ", a, ",", b), &fd, "circle-columns", alt);
  r.state(mc::hashm(mc::hashm(a * 3 + b, J), x)); r.outcome(mc::hashm(1, c));
  fd.done(r);
}
void goals(mc::Run& r) {
  const int n = r.choose(3, "states") + 1, m = r.choose(2, "controls") + 1;
  VectorXd xf = values(r, n), x = values(r, n), u = VectorXd::Constant(m, 0.5);
  Recv v = receiver(r);
  std::shared_ptr<cons::Constraint<cons::Equality>> con = r.flag("factory") ? examples::GoalConstraint::Create(xf) : std::make_shared<examples::GoalConstraint>(xf);
  MatrixXd J = MatrixXd::Zero(n, n + m); J.leftCols(n).setIdentity();
  VectorXd c = x - xf;
  constraint<-1, -1, cons::Equality>(r, con, x, u, c, J, v, "goal");
  if (n == 2 && m == 1) constraint<2, 1, cons::Equality>(r, con, x, u, c, J, v, "goal, fixed size");
  r.state(mc::hashm(mc::hashm(n * 4 + m, x), xf)); r.outcome(mc::hashm(n, c));
}

// ------------------------------------------------------------------ dynamics
struct DynRef {
  VectorXd f; MatrixXd J; std::function<MatrixXd(const VectorXd&)> H;
  // which entries the class writes (empty: all) and how not writing the others is reported
  const char* known = nullptr; Finding* fd = nullptr; MatrixXd wroteJ, wroteH;
  MatrixXd alt(const MatrixXd& want, const MatrixXd& wrote, double fill) const { MatrixXd a = want; for (int i = 0; i < a.rows(); ++i) for (int j = 0; j < a.cols(); ++j) if (!wrote(i, j)) a(i, j) = fill; return a; }
  void jacobian(mc::Run& r, const MatrixXd& got, bool guards, double fill, const std::string& how) const { if (fd) same_or_known(r, *fd, known, alt(J, wroteJ, fill), "jacobian", got, J, guards, how); else same(r, "jacobian", got, J, guards, how); }
  void hessian(mc::Run& r, const MatrixXd& got, const VectorXd& b, bool guards, double fill, const std::string& how) const { MatrixXd want = H(b); if (fd) same_or_known(r, *fd, known, alt(want, wroteH, fill), "hessian", got, want, guards, how); else same(r, "hessian", got, want, guards, how); }
};

class UserCont : public problem::ContinuousDynamics {
 public:
  using ContinuousDynamics::Evaluate;
  int StateDimension() const override { return 2; }
  int ControlDimension() const override { return 1; }
  static DynRef ref(const VectorXd& x, const VectorXd& u, double t) {
    DynRef d; d.f.resize(2); d.f << x(0) * x(1) + t * u(0), x(1) * u(0) * u(0) - 0.5 * t;
    d.J = MatrixXd::Zero(2, 3); d.J << x(1), x(0), t, 0, u(0) * u(0), 2 * x(1) * u(0);
    VectorXd xx = x, uu = u;
    d.H = [xx, uu](const VectorXd& b) { MatrixXd H = MatrixXd::Zero(3, 3); H(0, 1) = H(1, 0) = b(0); H(1, 2) = H(2, 1) = 2 * uu(0) * b(1); H(2, 2) = 2 * xx(1) * b(1); return H; };
    return d;
  }
  void Evaluate(const VectorXdRef& x, const VectorXdRef& u, float t, Eigen::Ref<VectorXd> o) override { o = ref(x, u, t).f; }
  void Jacobian(const VectorXdRef& x, const VectorXdRef& u, float t, Eigen::Ref<MatrixXd> J) override { J = ref(x, u, t).J; }
  void Hessian(const VectorXdRef& x, const VectorXdRef& u, float t, const VectorXdRef& b, Eigen::Ref<MatrixXd> H) override { H = ref(x, u, t).H(b); }
  bool HasHessian() const override { return true; }
};
class UserDisc : public problem::DiscreteDynamics {
 public:
  using DiscreteDynamics::Evaluate;
  int StateDimension() const override { return 2; }
  int ControlDimension() const override { return 1; }
  static DynRef ref(const VectorXd& x, const VectorXd& u, double t, double h) { DynRef d = UserCont::ref(x, u, t); auto H = d.H; d.f = x + h * d.f; d.J *= h; d.J.leftCols(2) += MatrixXd::Identity(2, 2); d.H = [H, h](const VectorXd& b) { return MatrixXd(h * H(b)); }; return d; }
  void Evaluate(const VectorXdRef& x, const VectorXdRef& u, float t, float h, Eigen::Ref<VectorXd> o) override { o = ref(x, u, t, h).f; }
  void Jacobian(const VectorXdRef& x, const VectorXdRef& u, float t, float h, Eigen::Ref<MatrixXd> J) override { J = ref(x, u, t, h).J; }
  void Hessian(const VectorXdRef& x, const VectorXdRef& u, float t, float h, const VectorXdRef& b, Eigen::Ref<MatrixXd> H) override { H = ref(x, u, t, h).H(b); }
  bool HasHessian() const override { return true; }
};
DynRef unicycle(const VectorXd& x, const VectorXd& u) {
  DynRef d; d.f.resize(3); double c = std::cos(x(2)), s = std::sin(x(2)); d.f << u(0) * c, u(0) * s, u(1);
  d.J = MatrixXd::Zero(3, 5); d.J(0, 2) = -u(0) * s; d.J(0, 3) = c; d.J(1, 2) = u(0) * c; d.J(1, 3) = s; d.J(2, 4) = 1;
  double v = u(0);
  d.H = [=](const VectorXd& b) { MatrixXd H = MatrixXd::Zero(5, 5); H(2, 2) = -v * (b(0) * c + b(1) * s); H(2, 3) = H(3, 2) = -b(0) * s + b(1) * c; return H; };
  return d;
}
DynRef triple(int dof, const VectorXd& x, const VectorXd& u) {
  DynRef d; d.f.resize(3 * dof); d.J = MatrixXd::Zero(3 * dof, 4 * dof);
  for (int i = 0; i < dof; ++i) { d.f(i) = x(i + dof); d.f(i + dof) = x(i + 2 * dof); d.f(i + 2 * dof) = u(i); d.J(i, i + dof) = d.J(i + dof, i + 2 * dof) = d.J(i + 2 * dof, i + 3 * dof) = 1; }
  d.H = [=](const VectorXd&) { return MatrixXd(MatrixXd::Zero(4 * dof, 4 * dof)); };
  return d;
}
void dyn_stacked(mc::Run& r, FunctionBase& f, const VectorXd& x, const VectorXd& u, const DynRef& d, Recv v, const std::string& w, bool hess = true) {
  const int n = d.J.rows(), N = d.J.cols();
  { Vec o(n, v); f.Evaluate(x, u, o.ref()); same(r, "value", o.get(), d.f, o.guards(), w + ": value through the stacked interface"); }
  { Mat o(n, N, v); f.Jacobian(x, u, o.ref()); d.jacobian(r, o.get(), o.guards(), v.fill, w + ": Jacobian through the stacked interface"); }
  if (hess && f.HasHessian()) for (int e = 0; e <= n; ++e) { VectorXd b = e == n ? VectorXd(VectorXd::LinSpaced(n, -1, 2)) : VectorXd(VectorXd::Unit(n, e)); Mat o(N, N, v); f.Hessian(x, u, b, o.ref()); d.hessian(r, o.get(), b, o.guards(), v.fill, w + ": Hessian through the stacked interface"); }
}
void continuous(mc::Run& r, problem::ContinuousDynamics& f, const VectorXd& x, const VectorXd& u, float t, const DynRef& d, Recv v, const std::string& w) {
  const int n = d.J.rows(), N = d.J.cols();
  { Vec o(n, v); f.Evaluate(x, u, t, o.ref()); same(r, "value", o.get(), d.f, o.guards(), w + ": value"); }
  same(r, "value", f.Evaluate(x, u, t), d.f, true, w + ": value returned"); same(r, "value", f(x, u, t), d.f, true, w + ": operator()");
  { Mat o(n, N, v); f.Jacobian(x, u, t, o.ref()); d.jacobian(r, o.get(), o.guards(), v.fill, w + ": Jacobian"); }
  if (f.HasHessian()) { VectorXd b = VectorXd::LinSpaced(n, 0.5, 2); Mat o(N, N, v); f.Hessian(x, u, t, b, o.ref()); d.hessian(r, o.get(), b, o.guards(), v.fill, w + ": Hessian"); }
  f.SetTime(t);
  r.check(f.GetTime() == t, "stored-time", w);
  dyn_stacked(r, f, x, u, d, v, w);
  r.check(f.OutputDimension() == n && f.StateDimension() == n && f.StateDimension() + f.ControlDimension() == N, "dimensions", w);
}
void discrete(mc::Run& r, problem::DiscreteDynamics& f, const VectorXd& x, const VectorXd& u, float t, float h, const DynRef& d, Recv v, const std::string& w, bool zero_jac) {
  const int n = d.J.rows(), N = d.J.cols();
  Recv vj = v; if (zero_jac) vj.fill = 0;   // integrators document that the Jacobian must be initialised
  { Vec o(n, v); f.Evaluate(x, u, t, h, o.ref()); same(r, "value", o.get(), d.f, o.guards(), w + ": value"); }
  same(r, "value", f.Evaluate(x, u, t, h), d.f, true, w + ": value returned"); same(r, "value", f(x, u, t, h), d.f, true, w + ": operator()");
  { Mat o(n, N, vj); f.Jacobian(x, u, t, h, o.ref()); same(r, "jacobian", o.get(), d.J, o.guards(), w + ": Jacobian"); }
  if (f.HasHessian()) { VectorXd b = VectorXd::LinSpaced(n, 0.5, 2); Mat o(N, N, v); f.Hessian(x, u, t, h, b, o.ref()); same(r, "hessian", o.get(), d.H(b), o.guards(), w + ": Hessian"); }
  f.SetTime(t); f.SetStep(h);
  r.check(f.GetTime() == t && f.GetStep() == h, "stored-time", w);
  dyn_stacked(r, f, x, u, d, vj, w);
}
template <class M>
DynRef euler(DynRef d, const VectorXd& x, double h) { int n = x.size(); DynRef o; o.f = x + h * d.f; o.J = h * d.J; o.J.leftCols(n) += MatrixXd::Identity(n, n); auto H = d.H; o.H = [H, h](const VectorXd& b) { return MatrixXd(h * H(b)); }; return o; }

void dynamics(mc::Run& r) {
  int kind = r.choose(7, "kind");
  Recv v = receiver(r);
  float t = r.pick({0.0F, 1.5F, -0.25F}, "time"), h = 0.5F;
  int n = kind == 0 || kind == 1 ? 2 : kind == 3 ? 6 : 3, m = kind <= 1 ? 1 : kind == 4 || kind == 6 ? 1 : 2;
  VectorXd x(n), u(m);
  if (n <= 3) x = values(r, n); else for (int i = 0; i < n; ++i) x(i) = 0.5 * i - 1;
  u = values(r, m);
  Finding fd;
  if (kind == 0) { UserCont f; continuous(r, f, x, u, t, UserCont::ref(x, u, t), v, "user continuous dynamics"); }
  if (kind == 1) { UserDisc f; discrete(r, f, x, u, t, h, UserDisc::ref(x, u, t, h), v, "user discrete dynamics", false); }
  if (kind == 2) { examples::Unicycle f; DynRef d = unicycle(x, u); d.known = "unicycle-unwritten"; d.fd = &fd;
    d.wroteJ = MatrixXd::Zero(3, 5); d.wroteJ(0, 2) = d.wroteJ(0, 3) = d.wroteJ(1, 2) = d.wroteJ(1, 3) = d.wroteJ(2, 4) = 1;
    d.wroteH = MatrixXd::Zero(5, 5); d.wroteH(2, 2) = d.wroteH(2, 3) = d.wroteH(3, 2) = 1;
    continuous(r, f, x, u, t, d, v, "unicycle"); }
  if (kind == 3) { examples::TripleIntegrator f(2); continuous(r, f, x, u, t, triple(2, x, u), v, "triple integrator"); }
  if (kind == 4) { examples::TripleIntegrator f(1); continuous(r, f, x, u, t, triple(1, x, u), v, "triple integrator"); }
  if (kind == 5) { problem::DiscretizedModel<examples::Unicycle, problem::ExplicitEuler> f{examples::Unicycle()}; discrete(r, f, x, u, t, h, euler<examples::Unicycle>(unicycle(x, u), x, h), v, "discretized unicycle", true); }
  if (kind == 6) { problem::DiscretizedModel<examples::TripleIntegrator, problem::ExplicitEuler> f{examples::TripleIntegrator(1)}; discrete(r, f, x, u, t, h, euler<examples::TripleIntegrator>(triple(1, x, u), x, h), v, "discretized triple integrator", true); }
  r.state(mc::hashm(mc::hashm(mc::hashd(kind * 8 + v.kind, t), x), u)); r.outcome(mc::hashm(kind, x));
  fd.done(r);
}

// ------------------------------------------------------------------ the derivative checker
// vector function of z = (x, u): quadratic with known derivatives; one entry of one derivative may be wrong
struct Err { int i = -1, j = -1; double d = 0; };
class Checked : public FunctionBase {
 public:
  Checked(int n, int m, int p) : n_(n), m_(m), p_(p) {}
  int StateDimension() const override { return n_; }
  int ControlDimension() const override { return m_; }
  int OutputDimension() const override { return p_; }
  void Evaluate(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<VectorXd> o) override {
    VectorXd z(n_ + m_); z << x, u; int N = n_ + m_;
    for (int i = 0; i < p_; ++i) { o(i) = 0.5 * i; for (int j = 0; j < N; ++j) o(i) += (1 + i - 0.5 * j) * z(j); o(i) += 0.5 * z(i % N) * z((i + 1) % N); }
  }
  void Jacobian(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<MatrixXd> J) override {
    VectorXd z(n_ + m_); z << x, u; int N = n_ + m_;
    for (int i = 0; i < p_; ++i) { for (int j = 0; j < N; ++j) J(i, j) = 1 + i - 0.5 * j; J(i, i % N) += 0.5 * z((i + 1) % N); J(i, (i + 1) % N) += 0.5 * z(i % N); }
    if (je.i >= 0) J(je.i, je.j) += je.d;
  }
  void Hessian(const VectorXdRef&, const VectorXdRef&, const VectorXdRef& b, Eigen::Ref<MatrixXd> H) override {
    int N = n_ + m_; H.setZero();
    for (int i = 0; i < p_; ++i) { H(i % N, (i + 1) % N) += 0.5 * b(i); H((i + 1) % N, i % N) += 0.5 * b(i); }
    if (he.i >= 0) H(he.i, he.j) += he.d;
  }
  bool HasHessian() const override { return true; }
  Err je, he;
 private:
  int n_, m_, p_;
};
class CheckedCost : public PolyCost {
 public:
  using PolyCost::Gradient;
  using PolyCost::Hessian;
  CheckedCost(int n, int m) : PolyCost(n, m), n_(n), m_(m) {}
  void Gradient(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<VectorXd> dx, Eigen::Ref<VectorXd> du) override {
    PolyCost::Gradient(x, u, dx, du); if (ge.i >= 0) (ge.i < n_ ? dx(ge.i) : du(ge.i - n_)) += ge.d;
  }
  void Hessian(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<MatrixXd> a, Eigen::Ref<MatrixXd> b, Eigen::Ref<MatrixXd> c) override {
    PolyCost::Hessian(x, u, a, b, c);
    if (he.i < 0) return;
    if (he.i < n_ && he.j < n_) a(he.i, he.j) += he.d; else if (he.i < n_) b(he.i, he.j - n_) += he.d; else c(he.i - n_, he.j - n_) += he.d;
  }
  Err ge, he;
 private:
  int n_, m_;
};
// amount of a wrong entry relative to the tolerance, and whether the checker must notice
struct Delta { double rel; bool bad; };
const std::vector<Delta> kDeltas = {{0, false}, {5, true}, {-5, true}, {0.3, false}, {-0.3, false}, {1e6, true}, {kNaN, true}, {kInf, true}, {-kInf, true}};

struct Quiet {   // keeps a verbose checker from filling the log
  std::unique_ptr<mc::CaptureStdout> c;
  explicit Quiet(bool on) { if (on) c.reset(new mc::CaptureStdout); }
};
template <class F>
void verdict(mc::Run& r, bool want, bool verbose, F call, const std::string& what) {
  bool got;
  { Quiet q(verbose); got = call(); }
  r.transition();
  r.checkf(got == want, "checker", [&] { return mc::str(what, ": the checker ", got ? "accepts" : "rejects", ", it should ", want ? "accept" : "reject"); });
}
void checker_vector(mc::Run& r) {
  int n = r.choose(3, "n") + 1, m = r.choose(3, "m"), p = r.choose(3, "p") + 1, N = n + m;
  Checked f(n, m, p);
  double eps = r.pick({1e-4, 1e-2, 1e-3}, "tolerance");
  bool jac = r.flag("Jacobian"), verbose = r.flag("verbose");
  Delta d = r.pickv(kDeltas, "error");
  Err e;
  if (d.rel != 0) { e.i = r.choose(jac ? p : N, "row"); e.j = r.choose(N, "column"); e.d = d.rel * eps; }
  (jac ? f.je : f.he) = e;
  VectorXd x = VectorXd::LinSpaced(n, 0.5, 1.5), u = VectorXd::LinSpaced(m, -0.5, 0.75), b = VectorXd::LinSpaced(p, 0.5, 1.5);
  std::string w = mc::str(jac ? "Jacobian" : "Hessian", " n=", n, " m=", m, " p=", p, " entry (", e.i, ",", e.j, ") off by ", e.d, " with tolerance ", eps);
  bool want = !d.bad;
  // one dimension: the product z(0)*z(0) is counted once in Evaluate, its derivative formulas above agree
  if (jac) {
    verdict(r, want, verbose, [&] { return f.CheckJacobian(x, u, eps, verbose); }, w);
    verdict(r, want, verbose, [&] { return f.CheckJacobian(eps, verbose); }, w + ", random point");
    if (eps == 1e-4) verdict(r, want, false, [&] { return f.CheckJacobian(x, u); }, w + ", default tolerance");
    if (eps == 1e-4) verdict(r, want, false, [&] { return f.CheckJacobian(); }, w + ", random point, default tolerance");
  } else {
    verdict(r, want, verbose, [&] { return f.CheckHessian(x, u, b, eps, verbose); }, w);
    verdict(r, want, verbose, [&] { return f.CheckHessian(eps, verbose); }, w + ", random point");
    if (eps == 1e-4) verdict(r, want, false, [&] { return f.CheckHessian(x, u, b); }, w + ", default tolerance");
    if (eps == 1e-4) verdict(r, want, false, [&] { return f.CheckHessian(); }, w + ", random point, default tolerance");
  }
  uint64_t h = mc::hashd(mc::hashd(n * 100 + m * 10 + p, eps), d.rel); h = mc::mix(h, e.i * 64 + e.j * 2 + jac);
  r.state(h); r.outcome(h);
}
void checker_scalar(mc::Run& r) {
  int n = r.choose(2, "n") + 1, m = r.choose(2, "m") + 1, N = n + m;
  CheckedCost f(n, m);
  double eps = r.pick({1e-4, 1e-2, 1e-3}, "tolerance");
  int kind = r.choose(3, "derivative"); bool verbose = r.flag("verbose");
  Delta d = r.pickv(kDeltas, "error");
  Err e;
  if (d.rel != 0) {
    e.d = d.rel * eps; e.i = r.choose(N, "row"); e.j = kind == 2 ? r.choose(N, "column") : 0;
    if (kind == 2 && e.i >= n && e.j < n) e = Err();       // the lower left block follows from the mixed block
    if (kind == 2 && e.i >= 0 && e.i < n && e.j >= n && std::abs(d.rel) == 0.3) e.d *= 0.5;   // counted twice
  }
  bool want = !d.bad || e.i < 0;
  if (kind == 2) f.he = e; else f.ge = e;
  VectorXd x = VectorXd::LinSpaced(n, 0.5, 1.5), u = VectorXd::LinSpaced(m, -0.5, 0.75), one = VectorXd::Ones(1);
  std::string w = mc::str(kind == 0 ? "gradient" : kind == 1 ? "Jacobian" : "Hessian", " of a cost, n=", n, " m=", m, " entry (", e.i, ",", e.j, ") off by ", e.d, " with tolerance ", eps);
  if (kind == 0) {
    verdict(r, want, verbose, [&] { return f.CheckGradient(x, u, eps, verbose); }, w);
    verdict(r, want, verbose, [&] { return f.CheckGradient(eps, verbose); }, w + ", random point");
  } else if (kind == 1) {
    verdict(r, want, verbose, [&] { return f.CheckJacobian(x, u, eps, verbose); }, w);
    verdict(r, want, verbose, [&] { return f.CheckJacobian(eps, verbose); }, w + ", random point");
  } else {
    verdict(r, want, verbose, [&] { return f.CheckHessian(x, u, one, eps, verbose); }, w);
    verdict(r, want, verbose, [&] { return f.CheckHessian(eps, verbose); }, w + ", random point");
  }
  uint64_t h = mc::hashd(mc::hashd(n * 10 + m, eps), d.rel); h = mc::mix(h, e.i * 64 + e.j * 4 + kind);
  r.state(h); r.outcome(h);
}

// finite differences themselves: fixed and run-time sizes, forward and central
struct Quad {
  template <class Z> VectorXd operator()(const Z& z) const { VectorXd o(2); o << z(0) * z(1) + 2 * z(2), z(2) * z(2) * z(0) - z(1); return o; }
};
struct QuadS { template <class Z> double operator()(const Z& z) const { return z(0) * z(1) * z(2) + z(2) * z(2) - 3 * z(0); } };
void finite_diff(mc::Run& r) {
  VectorXd z = values(r, 3);
  double eps = r.pick({1e-6, 1e-4}, "step");
  bool central = r.flag("central");
  MatrixXd J(2, 3); J << z(1), z(0), 2, z(2) * z(2), -1, 2 * z(2) * z(0);
  VectorXd g(3); g << z(1) * z(2) - 3, z(0) * z(2), z(0) * z(1) + 2 * z(2);
  MatrixXd H = MatrixXd::Zero(3, 3); H(0, 1) = H(1, 0) = z(2); H(0, 2) = H(2, 0) = z(1); H(1, 2) = H(2, 1) = z(0); H(2, 2) = 2;
  double tol = central ? 1e-7 : 5 * eps + 1e-7;
  auto ck = [&](const MatrixXd& got, const MatrixXd& want, double tl, const char* what) {
    r.transition();
    r.checkf(got.rows() == want.rows() && got.cols() == want.cols(), "finite-difference", [&] { return std::string(what) + ": wrong size"; });
    r.checkf((got - want).cwiseAbs().maxCoeff() <= tl, "finite-difference", [&] { return mc::str(what, " is\n", got, "\nthe derivative is\n", want); });
  };
  Quad f; QuadS s;
  Eigen::Vector3d zf = z;
  ck(utils::FiniteDiffJacobian<-1, -1>(f, z, eps, central), J, tol, "Jacobian");
  ck(utils::FiniteDiffJacobian(f, z, eps, central), J, tol, "Jacobian");
  ck(utils::FiniteDiffJacobian<2, 3>(f, zf, eps, central), J, tol, "Jacobian, fixed size");
  ck(utils::FiniteDiffGradient(s, z, eps, central), g, tol, "gradient");
  ck(utils::FiniteDiffGradient(s, zf, eps, central), g, tol, "gradient, fixed size");
  ck(utils::FiniteDiffHessian(s, z, 1e-4, central), H, central ? 1e-5 : 1e-2, "Hessian");
  ck(utils::FiniteDiffHessian(s, zf, 1e-4, central), H, central ? 1e-5 : 1e-2, "Hessian, fixed size");
  r.state(mc::hashm(mc::hashd(central, eps), z)); r.outcome(mc::hashm(1, z));
}
}  // namespace


int main(int argc, char** argv) {
  mc::Spec s;
  s.property = "P17";
  s.unit = "state: one function, point and receiving array, or one wrong derivative entry; transition: one value, derivative or verdict";
  s.assumptions = {"user functions of the harness are polynomials with exact derivatives",
                   "a Jacobian of a discretized model is handed over initialised, as documented"};
  s.scenarios.push_back({"costs-1-1", "n=1, m=1: 6 kinds of cost, 3 values per coordinate, 2 receivers x 3 earlier contents, all interfaces", [](mc::Run& r) { costs<1, 1>(r); }});
  s.scenarios.push_back({"costs-2-1", "n=2, m=1: the same", [](mc::Run& r) { costs<2, 1>(r); }});
  s.scenarios.push_back({"costs-3-2", "n=3, m=2: the same", [](mc::Run& r) { costs<3, 2>(r); }});
  if (mc::thorough()) s.scenarios.push_back({"costs-4-3", "n=4, m=3: the same", [](mc::Run& r) { costs<4, 3>(r); }});
  s.scenarios.push_back({"bounds", "control bounds: every constructor and every sequence of 2 bound changes over 3 values per bound, 1 or 2 controls", bounds});
  s.scenarios.push_back({"circles", "circle constraints: every sequence of 3 set-up calls, 27 points, all receivers", circles});
  s.scenarios.push_back({"goals", "goal constraints: 1..3 states, 1..2 controls, 3 values per coordinate, all receivers", goals});
  s.scenarios.push_back({"dynamics", "7 kinds of dynamics, 3 values per coordinate, 3 times, all receivers, all interfaces", dynamics});
  s.scenarios.push_back({"checker-vector", "vector functions n=1..3, m=0..2, p=1..3: every single entry wrong by each of 8 amounts, 3 tolerances, all ways to call the checker", checker_vector});
  s.scenarios.push_back({"checker-cost", "costs n=1..2, m=1..2: every single entry of gradient and Hessian wrong by each of 8 amounts, 3 tolerances", checker_scalar});
  s.scenarios.push_back({"finite-differences", "27 points, 2 steps, forward and central, fixed and run-time sizes", finite_diff});
  return mc::main_driver(argc, argv, s);
}
