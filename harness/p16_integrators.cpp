// check: P16 variant=asan sources=all
// The discrete step against an independently written Runge-Kutta / Euler step and its forward-mode derivative.
#include <cmath>
#include <deque>
#include <limits>
#include <map>
#include <memory>
#include <tuple>
#include "altro/ilqr/dynamics_expansion.hpp"
#include "altro/problem/discretized_model.hpp"
#include "examples/triple_integrator.hpp"
#include "examples/unicycle.hpp"
#include "mc.hpp"
using namespace altro;
using problem::ContinuousDynamics;
using problem::DiscretizedModel;
using problem::ExplicitEuler;
using problem::RungeKutta4;

namespace {
const double kNaN = std::numeric_limits<double>::quiet_NaN(), kGuard = 4711.5;
using V = std::vector<double>;

// ---------------------------------------------------------------- receivers
struct OutV {
  VectorXd big; int off, n;
  OutV(int n_, int kind) : off(kind ? 3 : 0), n(n_) { big = VectorXd::Constant(n + (kind ? 5 : 0), kGuard); big.segment(off, n).setConstant(kind ? kNaN : 7); }
  Eigen::Ref<VectorXd> ref() { return big.segment(off, n); }
  bool guards() const { for (int i = 0; i < big.size(); ++i) if ((i < off || i >= off + n) && big(i) != kGuard) return false; return true; }
};
struct OutM {   // a Jacobian is handed over initialised (zero), as documented; inside a larger matrix its columns are strided
  MatrixXd big; int r0, c0, n, m;
  OutM(int n_, int m_, int kind, double fill) : r0(kind ? 2 : 0), c0(kind ? 1 : 0), n(n_), m(m_) { big = MatrixXd::Constant(n + (kind ? 3 : 0), m + (kind ? 3 : 0), kGuard); big.block(r0, c0, n, m).setConstant(fill); }
  Eigen::Ref<MatrixXd> ref() { return big.block(r0, c0, n, m); }
  bool guards() const { for (int i = 0; i < big.rows(); ++i) for (int j = 0; j < big.cols(); ++j) if ((i < r0 || i >= r0 + n || j < c0 || j >= c0 + m) && big(i, j) != kGuard) return false; return true; }
};

bool near(double a, double b, double scale) { return std::abs(a - b) <= 1e-11 * std::max(1.0, std::max(scale, std::abs(b))); }

// ---------------------------------------------------------------- black box dynamics with enumerated answers
// The value and derivative at every queried point is a free choice, made once per point.
struct Box {
  mc::Run* r = nullptr;
  int n = 1, m = 1;
  std::function<void(Box&, const V&, V&)> value;        // key -> f
  std::function<void(Box&, const V&, MatrixXd&)> deriv; // key -> [A B]
  std::map<V, V> fs;
  std::map<V, MatrixXd> js;
  V key(const VectorXdRef& x, const VectorXdRef& u, double t) const {
    V k; for (int i = 0; i < x.size(); ++i) k.push_back(x(i) + 0.0); for (int i = 0; i < u.size(); ++i) k.push_back(u(i) + 0.0); k.push_back(t + 0.0); return k;
  }
  const V& f(const V& k) { auto it = fs.find(k); if (it == fs.end()) { V v(n); value(*this, k, v); it = fs.emplace(k, v).first; } return it->second; }
  const MatrixXd& j(const V& k) { auto it = js.find(k); if (it == js.end()) { MatrixXd M = MatrixXd::Zero(n, n + m); deriv(*this, k, M); it = js.emplace(k, M).first; } return it->second; }
};
template <int NS, int NC>
class BoxModel : public ContinuousDynamics {
 public:
  static constexpr int NStates = NS;
  static constexpr int NControls = NC;
  explicit BoxModel(Box* b) : b_(b) {}
  int StateDimension() const override { return b_->n; }
  int ControlDimension() const override { return b_->m; }
  void Evaluate(const VectorXdRef& x, const VectorXdRef& u, float t, Eigen::Ref<VectorXd> xdot) override { const V& v = b_->f(b_->key(x, u, t)); for (int i = 0; i < b_->n; ++i) xdot(i) = v[i]; }
  void Jacobian(const VectorXdRef& x, const VectorXdRef& u, float t, Eigen::Ref<MatrixXd> jac) override { jac = b_->j(b_->key(x, u, t)); }
  void Hessian(const VectorXdRef&, const VectorXdRef&, float, const VectorXdRef&, Eigen::Ref<MatrixXd>) override {}
  bool HasHessian() const override { return false; }
 private:
  Box* b_;
};
template <int NS, int NC> constexpr int BoxModel<NS, NC>::NStates;
template <int NS, int NC> constexpr int BoxModel<NS, NC>::NControls;

// reference step with derivative, straight from the Butcher tableau
struct Step { VectorXd x; MatrixXd J; };
Step reference(Box& b, bool rk4, const VectorXd& x, const VectorXd& u, double t, double h, bool jac) {
  const int n = b.n, m = b.m, s = rk4 ? 4 : 1;
  const double c[4] = {0, 0.5, 0.5, 1}, w4[4] = {1 / 6., 2 / 6., 2 / 6., 1 / 6.}, w1[1] = {1};
  const double* w = rk4 ? w4 : w1;
  Step out; out.x = x; out.J = MatrixXd::Zero(n, n + m); out.J.leftCols(n).setIdentity();
  VectorXd k = VectorXd::Zero(n); MatrixXd dk = MatrixXd::Zero(n, n + m);
  for (int i = 0; i < s; ++i) {
    VectorXd xi = x + h * c[i] * k;
    V key = b.key(xi, u, t + c[i] * h);
    if (jac) {
      const MatrixXd& AB = b.j(key);
      MatrixXd dx = MatrixXd::Zero(n, n + m); dx.leftCols(n).setIdentity(); dx += h * c[i] * dk;
      MatrixXd d = AB.leftCols(n) * dx; d.rightCols(m) += AB.rightCols(m);
      dk = d;
      out.J += h * w[i] * dk;
    }
    if (i + 1 < s || !jac) { const V& f = b.f(key); for (int q = 0; q < n; ++q) k(q) = f[q]; }
    if (!jac) out.x += h * w[i] * k;
  }
  return out;
}

template <class Model>
void discrete(mc::Run& r, Model& model, Box& b, const VectorXd& x, const VectorXd& u, float t, float h, bool rk4, bool jac, int recv, const char* what) {
  r.transition();
  if (!jac) {
    OutV o(b.n, recv);
    model.Evaluate(x, u, t, h, o.ref());
    Step s = reference(b, rk4, x, u, t, h, false);
    r.check(o.guards(), "wrote-outside", mc::str(what, ": wrote outside its output"));
    double scale = 0; for (auto& e : b.fs) for (double d : e.second) scale = std::max(scale, std::abs(d * h));
    for (int i = 0; i < b.n; ++i) r.checkf(near(o.ref()(i), s.x(i), scale), "step", [&] { return mc::str(what, ": entry ", i, " of the step from t=", t, " with h=", h, " is ", o.ref()(i), ", the formula gives ", s.x(i)); });
    r.outcome(mc::hashm(rk4, s.x));
  } else {
    OutM o(b.n, b.n + b.m, recv, 0);
    model.Jacobian(x, u, t, h, o.ref());
    Step s = reference(b, rk4, x, u, t, h, true);
    r.check(o.guards(), "wrote-outside", mc::str(what, ": wrote outside its output"));
    for (int i = 0; i < b.n; ++i) for (int q = 0; q < b.n + b.m; ++q)
      r.checkf(near(o.ref()(i, q), s.J(i, q), s.J.cwiseAbs().maxCoeff()), "jacobian", [&] { return mc::str(what, ": entry (", i, ",", q, ") of the Jacobian of the step from t=", t, " with h=", h, " is ", o.ref()(i, q), ", the derivative is ", s.J(i, q)); });
    r.outcome(mc::hashm(rk4, s.J));
  }
}

template <int n, int m>
void all_kinds(mc::Run& r, Box& b, const VectorXd& x, const VectorXd& u, float t, float h, bool jac) {
  {
    DiscretizedModel<BoxModel<n, m>> d{BoxModel<n, m>(&b)};
    discrete(r, d, b, x, u, t, h, true, jac, 0, "RK4, fixed size");
    discrete(r, d, b, x, u, t, h, true, jac, 1, "RK4, fixed size, again");
  }
  {
    DiscretizedModel<BoxModel<-1, -1>> d{BoxModel<-1, -1>(&b)};
    discrete(r, d, b, x, u, t, h, true, jac, 1, "RK4, run-time size");
  }
  {
    DiscretizedModel<BoxModel<n, m>, ExplicitEuler> d{BoxModel<n, m>(&b)};
    discrete(r, d, b, x, u, t, h, false, jac, 0, "Euler");
    discrete(r, d, b, x, u, t, h, false, jac, 1, "Euler, into part of an array");
  }
  {
    struct Direct {
      RungeKutta4<n, m> i; std::shared_ptr<ContinuousDynamics> f;
      void Evaluate(const VectorXdRef& x, const VectorXdRef& u, float t, float h, Eigen::Ref<VectorXd> o) { i.Integrate(f, x, u, t, h, o); }
      void Jacobian(const VectorXdRef& x, const VectorXdRef& u, float t, float h, Eigen::Ref<MatrixXd> o) { i.Jacobian(f, x, u, t, h, o); }
    } d;
    d.f = std::make_shared<BoxModel<n, m>>(&b);
    discrete(r, d, b, x, u, t, h, true, jac, 0, "RK4 integrator made without sizes");
  }
}
const std::vector<float> kTimes = {0.0F, 0.5F, -2.0F, 64.25F}, kSteps = {0.5F, 1.0F, 0.0F, 2.0F, 0.0625F, -0.5F};

// values: every assignment of stage slopes
template <int n, int m>
void stages(mc::Run& r) {
  Box b; b.r = &r; b.n = n; b.m = m;
  const float t = r.pickv(kTimes, "time"), h = r.pickv(kSteps, "step");
  VectorXd x = VectorXd::Constant(n, 1.25), u = VectorXd::Constant(m, -0.5);
  b.value = [&](Box& box, const V&, V& v) { for (int i = 0; i < n; ++i) v[i] = n == 1 ? box.r->pick({0.0, 1.0, -1.0, 3.0}, "slope") : box.r->pick({0.0, 1.0, -2.0}, "slope"); };
  all_kinds<n, m>(r, b, x, u, t, h, false);
  uint64_t hs = mc::hashd(mc::hashd(1, t), h); for (auto& e : b.fs) for (double d : e.second) hs = mc::hashd(hs, d);
  r.state(hs);
}

// Jacobians: the derivative is affine in each stage Jacobian, so zero and the unit matrices decide it
template <int n, int m>
void stage_jacobians(mc::Run& r) {
  Box b; b.r = &r; b.n = n; b.m = m;
  const float t = r.pickv(std::vector<float>{0.5F, 0.0F, -2.0F}, "time"), h = r.pickv(std::vector<float>{0.5F, 1.0F, 4.0F}, "step");
  VectorXd x(n), u = VectorXd::Constant(m, -0.5);
  for (int i = 0; i < n; ++i) x(i) = 1.25 - i;
  // slopes that make the four stages different points, for every stage count
  b.value = [&](Box&, const V& k, V& v) { for (int i = 0; i < n; ++i) v[i] = (i % 2 ? -1 : 1) * (k[(i + 1) % n] + 0.5 * k.back()) + 1 + i; };
  b.deriv = [&](Box& box, const V&, MatrixXd& M) {
    int e = box.r->choose(n * n + 1, "entry of A"); if (e) M((e - 1) % n, (e - 1) / n) = 1;
    int g = box.r->choose(n * m + 1, "entry of B"); if (g) M((g - 1) % n, n + (g - 1) / n) = 1;
  };
  // force the points to be distinct
  all_kinds<n, m>(r, b, x, u, t, h, true);
  r.check(b.js.size() >= 4, "harness", "the stages of the harness coincide");
  uint64_t hs = mc::hashd(mc::hashd(1, t), h); for (auto& e : b.js) hs = mc::hashm(hs, e.second);
  r.state(hs);
}

// ---------------------------------------------------------------- real systems, histories of uses of one object
struct Dual { double v = 0; V d; Dual(double a = 0) : v(a) {} };
V addd(const V& a, double p, const V& b, double q) { V o(std::max(a.size(), b.size()), 0.0); for (size_t i = 0; i < a.size(); ++i) o[i] += p * a[i]; for (size_t i = 0; i < b.size(); ++i) o[i] += q * b[i]; return o; }
Dual operator+(const Dual& a, const Dual& b) { Dual o(a.v + b.v); o.d = addd(a.d, 1, b.d, 1); return o; }
Dual operator-(const Dual& a, const Dual& b) { Dual o(a.v - b.v); o.d = addd(a.d, 1, b.d, -1); return o; }
Dual operator*(const Dual& a, const Dual& b) { Dual o(a.v * b.v); o.d = addd(a.d, b.v, b.d, a.v); return o; }
Dual dsin(const Dual& a) { Dual o(std::sin(a.v)); o.d = addd(a.d, std::cos(a.v), {}, 0); return o; }
Dual dcos(const Dual& a) { Dual o(std::cos(a.v)); o.d = addd(a.d, -std::sin(a.v), {}, 0); return o; }
using DV = std::vector<Dual>;
using Fn = std::function<DV(const DV&, const DV&, double)>;

// a nonlinear time-varying system: the user model below is written by hand, the reference goes through Dual
DV poly_ref(int n, int m, const DV& x, const DV& u, double t) {
  DV o(n);
  for (int i = 0; i < n; ++i) {
    int j = (i + 1) % n, k = i % m;
    o[i] = x[i] * x[j] * Dual(0.5) + u[k] * Dual(t) * x[i] + Dual(t * t * (i + 1)) - u[(k + 1) % m] * u[k] + Dual(0.25) * x[j];
  }
  return o;
}
template <int NS, int NC>
class Poly : public ContinuousDynamics {
 public:
  using ContinuousDynamics::Evaluate;
  using ContinuousDynamics::Jacobian;
  static constexpr int NStates = NS;
  static constexpr int NControls = NC;
  Poly(int n, int m) : n_(n), m_(m) {}
  int StateDimension() const override { return n_; }
  int ControlDimension() const override { return m_; }
  void Evaluate(const VectorXdRef& x, const VectorXdRef& u, float t, Eigen::Ref<VectorXd> o) override {
    for (int i = 0; i < n_; ++i) { int j = (i + 1) % n_, k = i % m_; o(i) = 0.5 * x(i) * x(j) + u(k) * double(t) * x(i) + double(t) * t * (i + 1) - u((k + 1) % m_) * u(k) + 0.25 * x(j); }
  }
  void Jacobian(const VectorXdRef& x, const VectorXdRef& u, float t, Eigen::Ref<MatrixXd> J) override {
    J.setZero();
    for (int i = 0; i < n_; ++i) {
      int j = (i + 1) % n_, k = i % m_, k2 = (k + 1) % m_;
      J(i, i) += 0.5 * x(j) + u(k) * t; J(i, j) += 0.5 * x(i) + 0.25;
      J(i, n_ + k) += double(t) * x(i); J(i, n_ + k) -= u(k2); J(i, n_ + k2) -= u(k);
    }
  }
  void Hessian(const VectorXdRef&, const VectorXdRef&, float, const VectorXdRef&, Eigen::Ref<MatrixXd>) override {}
  bool HasHessian() const override { return false; }
 private:
  int n_, m_;
};
template <int NS, int NC> constexpr int Poly<NS, NC>::NStates;
template <int NS, int NC> constexpr int Poly<NS, NC>::NControls;

struct Point { VectorXd x, u; float t, h; };
Step dual_step(const Fn& f, bool rk4, const Point& p) {
  int n = p.x.size(), m = p.u.size();
  DV x(n), u(m);
  for (int i = 0; i < n; ++i) { x[i] = p.x(i); x[i].d.assign(n + m, 0); x[i].d[i] = 1; }
  for (int i = 0; i < m; ++i) { u[i] = p.u(i); u[i].d.assign(n + m, 0); u[i].d[n + i] = 1; }
  double t = p.t, h = p.h;
  auto ax = [&](const DV& k, double s) { DV o(n); for (int i = 0; i < n; ++i) o[i] = x[i] + k[i] * Dual(s); return o; };
  DV y;
  if (rk4) {
    DV k1 = f(x, u, t), k2 = f(ax(k1, h / 2), u, t + h / 2), k3 = f(ax(k2, h / 2), u, t + h / 2), k4 = f(ax(k3, h), u, t + h);
    DV s(n); for (int i = 0; i < n; ++i) s[i] = (k1[i] + Dual(2) * k2[i] + Dual(2) * k3[i] + k4[i]) * Dual(1 / 6.);
    y = ax(s, h);
  } else y = ax(f(x, u, t), h);
  Step o; o.x.resize(n); o.J = MatrixXd::Zero(n, n + m);
  for (int i = 0; i < n; ++i) { o.x(i) = y[i].v; for (size_t q = 0; q < y[i].d.size(); ++q) o.J(i, q) = y[i].d[q]; }
  return o;
}
// times are handed to the model in single precision
bool close(double a, double b, double scale) { return std::abs(a - b) <= 2e-6 * std::max(1.0, std::max(scale, std::abs(b))) ; }

template <class D>
struct Session {
  mc::Run& r;
  std::vector<std::unique_ptr<D>> models;
  std::deque<std::pair<float, float>> th;   // time and step set through the stacked interface
  Fn f; bool rk4; std::vector<Point> pts; double tol;
  void cmp(const VectorXd& got, const VectorXd& want, const char* how) {
    for (int i = 0; i < want.size(); ++i) r.checkf(std::abs(got(i) - want(i)) <= tol * std::max(1.0, want.cwiseAbs().maxCoeff()), "step", [&] { return mc::str(how, ": entry ", i, " is ", got(i), ", the formula gives ", want(i)); });
  }
  void cmpj(const MatrixXd& got, const MatrixXd& want, const char* how) {
    for (int i = 0; i < want.rows(); ++i) for (int j = 0; j < want.cols(); ++j) r.checkf(std::abs(got(i, j) - want(i, j)) <= tol * std::max(1.0, want.cwiseAbs().maxCoeff()), "jacobian", [&] { return mc::str(how, ": entry (", i, ",", j, ") is ", got(i, j), ", the derivative is ", want(i, j)); });
  }
  void op(int o, int which, int recv) {
    D& d = *models[which];
    const int n = pts[0].x.size(), m = pts[0].u.size();
    auto& T = th[which];
    const Point& p = pts[o % static_cast<int>(pts.size())];
    int kind = o / static_cast<int>(pts.size());
    r.transition();
    switch (kind) {
      case 0: { OutV q(n, recv); static_cast<problem::DiscreteDynamics&>(d).Evaluate(p.x, p.u, p.t, p.h, q.ref()); r.check(q.guards(), "wrote-outside", "Evaluate"); cmp(q.ref(), dual_step(f, rk4, p).x, "Evaluate"); break; }
      case 1: { OutM q(n, n + m, recv, 0); static_cast<problem::DiscreteDynamics&>(d).Jacobian(p.x, p.u, p.t, p.h, q.ref()); r.check(q.guards(), "wrote-outside", "Jacobian"); cmpj(q.ref(), dual_step(f, rk4, p).J, "Jacobian"); break; }
      case 2: { d.SetTime(p.t); d.SetStep(p.h); T = {p.t, p.h}; break; }
      case 3: { Point s = p; s.t = T.first; s.h = T.second; OutV q(n, recv); static_cast<FunctionBase&>(d).Evaluate(p.x, p.u, q.ref()); cmp(q.ref(), dual_step(f, rk4, s).x, "Evaluate with the stored time and step"); break; }
      case 4: { Point s = p; s.t = T.first; s.h = T.second; OutM q(n, n + m, recv, 0); static_cast<FunctionBase&>(d).Jacobian(p.x, p.u, q.ref()); cmpj(q.ref(), dual_step(f, rk4, s).J, "Jacobian with the stored time and step"); break; }
      case 5: { cmp(static_cast<problem::DiscreteDynamics&>(d)(p.x, p.u, p.t, p.h), dual_step(f, rk4, p).x, "operator()"); cmp(static_cast<problem::DiscreteDynamics&>(d).Evaluate(p.x, p.u, p.t, p.h), dual_step(f, rk4, p).x, "Evaluate by value"); break; }
      case 6: { if (models.size() < 3) { models.emplace_back(new D(d)); th.push_back(T); } else { int w = (which + 1) % 3; *models[w] = d; th[w] = T; } break; }
    }
    r.checkf(d.GetTime() == T.first && d.GetStep() == T.second, "stored-time", [&] { return mc::str("stored time ", d.GetTime(), " and step ", d.GetStep(), ", expected ", T.first, " and ", T.second); });
    r.check(d.StateDimension() == n && d.ControlDimension() == m && d.OutputDimension() == n, "dimensions", "dimensions of the discrete model");
  }
};

template <class Model, class Integ>
void history(mc::Run& r, const Model& model, Fn f, bool rk4, std::vector<Point> pts, int depth, double tol) {
  using D = DiscretizedModel<Model, Integ>;
  Session<D> s{r, {}, {}, f, rk4, pts, tol};
  s.models.emplace_back(new D(model)); s.th.push_back({0.0F, 0.0F});
  uint64_t h = 3;
  for (int i = 0; i < depth; ++i) {
    int o = r.choose(7 * static_cast<int>(pts.size()), "operation");
    int w = s.models.size() > 1 ? r.choose(static_cast<int>(s.models.size()), "object") : 0;
    if (r.recording()) r.note(mc::str("operation ", o / pts.size(), " at point ", o % pts.size(), " on object ", w));
    s.op(o, w, o / static_cast<int>(pts.size()) % 2 ? i % 2 : (i + 1) % 2);
    h = mc::mix(mc::mix(h, o), w);
    r.state(h);
  }
  // every object still computes its step
  for (size_t w = 0; w < s.models.size(); ++w) for (int o : {0, 1}) s.op(o * static_cast<int>(pts.size()) + static_cast<int>(w) % static_cast<int>(pts.size()), w, 0);
  r.outcome(h);
}

// two points; those of variants 1-5 agree in all but one or two of state, control, time and step, at time 0 or not
std::vector<Point> points(int n, int m, int variant = 0) {
  std::vector<Point> p(2);
  for (int q = 0; q < 2; ++q) {
    p[q].x.resize(n); p[q].u.resize(m);
    for (int i = 0; i < n; ++i) p[q].x(i) = q == 0 ? 0.5 - 0.25 * i : 0.3 + 0.1 * i;
    for (int i = 0; i < m; ++i) p[q].u(i) = q == 0 ? 1.0 + 0.5 * i : -0.7 + 0.2 * i;
    p[q].t = q == 0 ? 1.5F : 0.1F; p[q].h = q == 0 ? 0.25F : 0.05F;
  }
  switch (variant) {
    case 1: p[0].t = p[1].t = 0.0F; p[0].h = p[1].h = 0.5F; break;                    // state and control differ, time 0
    case 2: p[1].x = p[0].x; p[0].t = p[1].t = 0.0F; p[1].h = p[0].h; break;          // only the control differs
    case 3: p[1].u = p[0].u; p[1].t = p[0].t; p[1].h = p[0].h; break;                 // only the state differs
    case 4: p[1].x = p[0].x; p[1].u = p[0].u; p[0].t = 0.0F; p[1].h = p[0].h; break;  // only the time differs
    case 5: p[1].x = p[0].x; p[1].u = p[0].u; p[1].t = p[0].t = 0.0F; break;          // only the step differs
  }
  return p;
}
Fn unicycle_ref() { return [](const DV& x, const DV& u, double) { return DV{u[0] * dcos(x[2]), u[0] * dsin(x[2]), u[1]}; }; }
Fn triple_ref(int dof) { return [dof](const DV& x, const DV& u, double) { DV o(3 * dof); for (int i = 0; i < dof; ++i) { o[i] = x[i + dof]; o[i + dof] = x[i + 2 * dof]; o[i + 2 * dof] = u[i]; } return o; }; }

void histories(mc::Run& r, int depth, bool variants) {
  int sys = r.choose(8, "system"), v = variants ? 1 + r.choose(5, "what the points have in common") : 0;
  auto pf = [](int n, int m) { return [n, m](const DV& x, const DV& u, double t) { return poly_ref(n, m, x, u, t); }; };
  const double T = 2e-6;   // stage times are single precision numbers
  switch (sys) {
    case 0: history<Poly<2, 1>, RungeKutta4<2, 1>>(r, Poly<2, 1>(2, 1), pf(2, 1), true, points(2, 1, v), depth, T); break;
    case 1: history<Poly<-1, -1>, RungeKutta4<-1, -1>>(r, Poly<-1, -1>(3, 2), pf(3, 2), true, points(3, 2, v), depth, T); break;
    case 2: history<Poly<3, 2>, ExplicitEuler>(r, Poly<3, 2>(3, 2), pf(3, 2), false, points(3, 2, v), depth, T); break;
    case 3: history<examples::Unicycle, RungeKutta4<3, 2>>(r, examples::Unicycle(), unicycle_ref(), true, points(3, 2, v), depth, 1e-11); break;
    case 4: history<examples::TripleIntegrator, RungeKutta4<-1, -1>>(r, examples::TripleIntegrator(2), triple_ref(2), true, points(6, 2, v), depth, 1e-11); break;
    case 5: history<examples::TripleIntegrator, RungeKutta4<3, 1>>(r, examples::TripleIntegrator(1), triple_ref(1), true, points(3, 1, v), depth, 1e-11); break;
    case 6: history<examples::Unicycle, ExplicitEuler>(r, examples::Unicycle(), unicycle_ref(), false, points(3, 2, v), depth, 1e-11); break;
    case 7: history<Poly<1, 3>, RungeKutta4<-1, -1>>(r, Poly<1, 3>(1, 3), pf(1, 3), true, points(1, 3, v), depth, T); break;
  }
}

// The expansion used by the solver: repeated evaluation at changing points through one expansion object
template <int n, int m, class Model, class Integ>
void expansion(mc::Run& r, const Model& model, int nn, int mm, Fn f, bool rk4, double tol) {
  auto d = std::make_shared<DiscretizedModel<Model, Integ>>(model);
  std::shared_ptr<problem::DiscreteDynamics> dp = d;
  ilqr::DynamicsExpansion<n, m> e(nn, mm);
  auto pts = points(nn, mm, r.choose(6, "what the points have in common"));
  KnotPoint<n, m> z(nn, mm);
  for (int i = 0; i < 3; ++i) {
    int o = r.choose(4, "use");
    const Point& p = pts[o % 2];
    if (o / 2 == 0) { e.SetZero(); e.CalcExpansion(dp, p.x, p.u, p.t, p.h); }
    else { z.State() = p.x; z.Control() = p.u; z.SetTime(p.t); z.SetStep(p.h); e.SetZero(); e.CalcExpansion(dp, z); }
    r.transition();
    Step s = dual_step(f, rk4, p);
    MatrixXd A = e.GetA(), B = e.GetB(), J = e.GetJacobian();
    r.check(A.rows() == nn && A.cols() == nn && B.rows() == nn && B.cols() == mm, "expansion", "sizes of the blocks of the expansion");
    double sc = std::max(1.0, s.J.cwiseAbs().maxCoeff());
    r.checkf((A - s.J.leftCols(nn)).cwiseAbs().maxCoeff() <= tol * sc && (B - s.J.rightCols(mm)).cwiseAbs().maxCoeff() <= tol * sc && (J - s.J).cwiseAbs().maxCoeff() <= tol * sc, "expansion", [&] { return mc::str("the expansion holds\n", J, "\nthe derivative is\n", s.J); });
    r.state(mc::mix(i * 4 + o, nn));
  }
  r.outcome(nn);
}
void expansions(mc::Run& r) {
  auto pf = [](int n, int m) { return [n, m](const DV& x, const DV& u, double t) { return poly_ref(n, m, x, u, t); }; };
  switch (r.choose(4, "system")) {
    case 0: expansion<3, 2, examples::Unicycle, RungeKutta4<3, 2>>(r, examples::Unicycle(), 3, 2, unicycle_ref(), true, 1e-11); break;
    case 1: expansion<-1, -1, Poly<-1, -1>, RungeKutta4<-1, -1>>(r, Poly<-1, -1>(3, 2), 3, 2, pf(3, 2), true, 2e-6); break;
    case 2: expansion<6, 2, examples::TripleIntegrator, RungeKutta4<-1, -1>>(r, examples::TripleIntegrator(2), 6, 2, triple_ref(2), true, 1e-11); break;
    case 3: expansion<2, 1, Poly<2, 1>, ExplicitEuler>(r, Poly<2, 1>(2, 1), 2, 1, pf(2, 1), false, 2e-6); break;
  }
}
}  // namespace

int main(int argc, char** argv) {
  mc::Spec s;
  s.property = "P16";
  s.unit = "state: one assignment of stage slopes or stage Jacobians, or one history of uses; transition: one evaluation of a discrete step or its Jacobian";
  s.assumptions = {"the output of a Jacobian evaluation is initialised to zero, as documented for integrators and done by the solver",
                   "inputs and outputs do not overlap (the solver never overlaps them)",
                   "times are single precision in the interface: time-varying systems with times that are not dyadic are compared to 2e-6"};
  s.scenarios.push_back({"slopes-1", "n=1, m=1: every assignment of 4 slope values to the stages, 4 times x 6 steps (0 and negative included), RK4 of fixed, run-time and default size, Euler", [](mc::Run& r) { stages<1, 1>(r); }});
  s.scenarios.push_back({"slopes-2", "n=2, m=2: every assignment of 3 values to each slope entry, 4 times x 6 steps", [](mc::Run& r) { stages<2, 2>(r); }});
  s.scenarios.push_back({"jacobians-1-2", "n=1, m=2: zero and every unit entry for each stage Jacobian (decides a formula affine in each), 3 times x 3 steps", [](mc::Run& r) { stage_jacobians<1, 2>(r); }});
  s.scenarios.push_back({"jacobians-2-1", "n=2, m=1: zero and every unit entry for each stage Jacobian, 3 times x 3 steps", [](mc::Run& r) { stage_jacobians<2, 1>(r); }});
  if (mc::thorough()) s.scenarios.push_back({"jacobians-2-2", "n=2, m=2: zero and every unit entry for each stage Jacobian, 3 times x 3 steps", [](mc::Run& r) { stage_jacobians<2, 2>(r); }});
  int d = mc::tier(3, 5);
  s.scenarios.push_back({"histories", mc::str("8 systems and integrators, every history of ", d, " uses (7 operations x 2 points, up to 3 copies of the object)"), [d](mc::Run& r) { histories(r, d, false); }});
  s.scenarios.push_back({"histories-close", mc::str("8 systems and integrators, every history of ", d - 1, " uses at points that differ in the state, the control, the time or the step only, 5 such pairs"), [d](mc::Run& r) { histories(r, d - 1, true); }});
  s.scenarios.push_back({"expansion", "4 systems, every sequence of 3 evaluations of one dynamics expansion", expansions});
  return mc::main_driver(argc, argv, s);
}
