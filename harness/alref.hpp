// Constraints with plain-number twins, and the augmented-Lagrangian formulas over them.
#pragma once
#include <functional>
#include "mc.hpp"
#include "simple.hpp"

namespace alref {
using altro::MatrixXd; using altro::VectorXd; using altro::VectorXdRef;
namespace cons = altro::constraints;
using V = std::vector<double>;
using M = std::vector<V>;

// c_i(x,u) = e + sum_j a x_j + b u + q x_0 u_0 + w x_last^2 : coefficients from (id, i)
struct ConFun {
  int dim = 1, id = 0;
  double coef(int i, int j) const { return 0.25 * (((id + 1) * (i + 2) + 3 * j) % 7) - 0.625; }
  V value(const V& x, const V& u) const {
    V c(dim);
    for (int i = 0; i < dim; ++i) {
      double s = coef(i, 11) + shift;
      for (size_t j = 0; j < x.size(); ++j) s += coef(i, j) * x[j];
      for (size_t j = 0; j < u.size(); ++j) s += coef(i, 5 + j) * u[j];
      s += quad() * (x[0] * u[0] * (i == 0) + 0.5 * x.back() * x.back());
      c[i] = s;
    }
    return c;
  }
  M jac(const V& x, const V& u) const {
    M J(dim, V(x.size() + u.size(), 0.0));
    for (int i = 0; i < dim; ++i) {
      for (size_t j = 0; j < x.size(); ++j) J[i][j] = coef(i, j);
      for (size_t j = 0; j < u.size(); ++j) J[i][x.size() + j] = coef(i, 5 + j);
      if (i == 0) { J[i][0] += quad() * u[0]; J[i][x.size()] += quad() * x[0]; }
      J[i][x.size() - 1] += quad() * x.back();
    }
    return J;
  }
  double quad() const { return id % 2 ? 0.3 : 0.0; }
  double shift = 0;
};
inline V vec(const VectorXdRef& x) { V v; for (int i = 0; i < x.size(); ++i) v.push_back(x(i)); return v; }

template <class T>
class Con : public cons::Constraint<T> {
 public:
  explicit Con(ConFun f, std::string label = "con") : f(f), label(std::move(label)) {}
  int OutputDimension() const override { return f.dim; }
  void Evaluate(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<VectorXd> c) override {
    V v = f.value(vec(x), vec(u));
    for (int i = 0; i < f.dim; ++i) c(i) = v[i];
    if (hook) hook(x, u, c);
  }
  void Jacobian(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<MatrixXd> J) override {
    M j = f.jac(vec(x), vec(u));
    for (int i = 0; i < f.dim; ++i) for (size_t k = 0; k < j[i].size(); ++k) J(i, k) = j[i][k];
  }
  std::string GetLabel() const override { return label; }
  ConFun f;
  std::string label;
  std::function<void(const VectorXdRef&, const VectorXdRef&, Eigen::Ref<VectorXd>)> hook;
};

struct Entry { bool eq; ConFun f; };
inline double projd(bool eq, double v) { return eq ? v : (v > 0 ? 0.0 : v); }   // dual cone of the constraint
inline double dist(bool eq, double c) { return eq ? c : (c > 0 ? c : 0.0); }     // componentwise violation

struct Terms { double J = 0; V g; M H; double kink = 1e300; };
// penalty terms of one constraint
inline void add_terms(Terms* t, const Entry& e, const V& lam, double rho, const V& x, const V& u) {
  V c = e.f.value(x, u);
  M J = e.f.jac(x, u);
  size_t z = x.size() + u.size();
  if (t->g.empty()) { t->g.assign(z, 0); t->H.assign(z, V(z, 0)); }
  for (int i = 0; i < e.f.dim; ++i) {
    double w = lam[i] - rho * c[i], p = projd(e.eq, w);
    t->J += (p * p - lam[i] * lam[i]) / (2 * rho);
    bool active = e.eq || w < 0;
    if (!e.eq) t->kink = std::min(t->kink, std::abs(w));
    for (size_t a = 0; a < z; ++a) {
      t->g[a] -= J[i][a] * p;
      if (active) for (size_t b = 0; b < z; ++b) t->H[a][b] += rho * J[i][a] * J[i][b];
    }
  }
}
}  // namespace alref
