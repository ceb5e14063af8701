// Small user-side problem functions shared by the harnesses (deterministic, free of side effects).
#pragma once
#include <atomic>
#include <cmath>
#include <functional>
#include <memory>
#include <vector>

#include "altro/augmented_lagrangian/al_solver.hpp"
#include "altro/common/trajectory.hpp"
#include "altro/ilqr/ilqr.hpp"
#include "altro/problem/problem.hpp"

namespace simple {
using altro::MatrixXd;
using altro::VectorXd;
using altro::VectorXdRef;

// x' = A x + B u + h * c * sin(x) + d t : mildly nonlinear and time varying
class Dyn : public altro::problem::DiscreteDynamics {
 public:
  using altro::problem::DiscreteDynamics::Evaluate;
  using altro::problem::DiscreteDynamics::Jacobian;
  using altro::problem::DiscreteDynamics::Hessian;
  Dyn(int n, int m, double nonlin = 0.3, double tv = 0.0) : n_(n), m_(m), nl_(nonlin), tv_(tv) {}
  int StateDimension() const override { return n_; }
  int ControlDimension() const override { return m_; }
  bool HasHessian() const override { return true; }
  double B(int i, int j) const { return i == j ? 1.0 : 0.25 * ((i + 2 * j) % 3); }
  void Evaluate(const VectorXdRef& x, const VectorXdRef& u, const float t, const float h, Eigen::Ref<VectorXd> xn) override {
    if (on_eval) on_eval(x, u);
    VectorXd out(n_);
    for (int i = 0; i < n_; ++i) {
      double s = x(i) + h * (i + 1 < n_ ? x(i + 1) : nl_ * std::sin(x(i))) + h * tv_ * t;
      for (int j = 0; j < m_; ++j) s += h * B(i, j) * u(j);
      out(i) = s;
    }
    xn = out;
  }
  void Jacobian(const VectorXdRef& x, const VectorXdRef& u, const float t, const float h, Eigen::Ref<MatrixXd> jac) override {
    if (on_jac) on_jac(x, u);
    jac.setZero();
    for (int i = 0; i < n_; ++i) {
      jac(i, i) = 1;
      if (i + 1 < n_) jac(i, i + 1) = h; else jac(i, i) += h * nl_ * std::cos(x(i));
      for (int j = 0; j < m_; ++j) jac(i, n_ + j) = h * B(i, j);
    }
  }
  void Hessian(const VectorXdRef&, const VectorXdRef&, const float, const float, const VectorXdRef&, Eigen::Ref<MatrixXd> hess) override { hess.setZero(); }
  std::function<void(const VectorXdRef&, const VectorXdRef&)> on_eval, on_jac;
 private:
  int n_, m_;
  double nl_, tv_;
};

// 0.5 q |x-xf|^2 + 0.5 r |u|^2 + cross x0*u0 + quartic
class Cost : public altro::problem::CostFunction {
 public:
  using altro::problem::CostFunction::Gradient;
  using altro::problem::CostFunction::Hessian;
  Cost(int n, int m, double q, double r, double xf, double h = 0.1, double quart = 0.05) : n_(n), m_(m), q_(q), r_(r), xf_(xf), h_(h), k_(quart) {}
  int StateDimension() const override { return n_; }
  int ControlDimension() const override { return m_; }
  double Evaluate(const VectorXdRef& x, const VectorXdRef& u) override {
    if (on_eval) on_eval(x, u);
    double J = 0.5 * r_ * u.squaredNorm() + (m_ ? h_ * x(0) * u(0) : 0);
    for (int i = 0; i < n_; ++i) { double e = x(i) - xf_; J += 0.5 * q_ * e * e + k_ * e * e * e * e; }
    return J;
  }
  void Gradient(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<VectorXd> dx, Eigen::Ref<VectorXd> du) override {
    if (on_grad) on_grad(x, u);
    for (int i = 0; i < n_; ++i) { double e = x(i) - xf_; dx(i) = q_ * e + 4 * k_ * e * e * e; }
    du = r_ * u;
    dx(0) += h_ * u(0);
    du(0) += h_ * x(0);
  }
  void Hessian(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<MatrixXd> dxdx, Eigen::Ref<MatrixXd> dxdu, Eigen::Ref<MatrixXd> dudu) override {
    if (on_hess) on_hess(x, u);
    dxdx.setZero(); dxdu.setZero(); dudu.setZero();
    for (int i = 0; i < n_; ++i) { double e = x(i) - xf_; dxdx(i, i) = q_ + 12 * k_ * e * e; }
    for (int j = 0; j < m_; ++j) dudu(j, j) = r_;
    dxdu(0, 0) = h_;
  }
  std::function<void(const VectorXdRef&, const VectorXdRef&)> on_eval, on_grad, on_hess;
 private:
  int n_, m_;
  double q_, r_, xf_, h_, k_;
};

struct Prob {
  int n, m, N;
  std::vector<std::shared_ptr<Dyn>> dyn;
  std::vector<std::shared_ptr<Cost>> cost;
  std::shared_ptr<altro::problem::Problem> prob;
  Prob(int n, int m, int N, double x0 = 1.0, double nonlin = 0.3) : n(n), m(m), N(N) {
    prob = std::make_shared<altro::problem::Problem>(N);
    for (int k = 0; k < N; ++k) {
      dyn.push_back(std::make_shared<Dyn>(n, m, nonlin, 0.1));
      cost.push_back(std::make_shared<Cost>(n, m, 1.0 + 0.1 * k, 0.5, 0.2));
      prob->SetDynamics(dyn[k], k);
      prob->SetCostFunction(cost[k], k);
    }
    cost.push_back(std::make_shared<Cost>(n, m, 10.0, 0.5, -0.5));
    prob->SetCostFunction(cost[N], N);
    VectorXd x = VectorXd::Constant(n, x0);
    for (int i = 0; i < n; ++i) x(i) += 0.3 * i;
    prob->SetInitialState(x);
  }
};

// scalar constraint  a.x + b.u + c0 + quad * x0^2
template <class ConType>
class Con : public altro::constraints::Constraint<ConType> {
 public:
  Con(VectorXd a, VectorXd b, VectorXd c, double quad = 0) : a_(a), b_(b), c_(c), quad_(quad) {}
  int OutputDimension() const override { return c_.size(); }
  void Evaluate(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<VectorXd> c) override {
    for (int i = 0; i < c_.size(); ++i) c(i) = (i + 1) * (a_.dot(x) + b_.dot(u)) + c_(i) + quad_ * x(0) * x(0);
  }
  void Jacobian(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<MatrixXd> jac) override {
    jac.setZero();
    for (int i = 0; i < c_.size(); ++i) {
      for (int j = 0; j < x.size(); ++j) jac(i, j) = (i + 1) * a_(j);
      for (int j = 0; j < u.size(); ++j) jac(i, x.size() + j) = (i + 1) * b_(j);
      jac(i, 0) += 2 * quad_ * x(0);
    }
  }
  std::string GetLabel() const override { return label; }
  std::string label = "con";
 private:
  VectorXd a_, b_, c_;
  double quad_;
};
}  // namespace simple
