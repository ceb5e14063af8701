// P25: equivalent descriptions of a problem give the same solution.
// check: P25 variant=asan sources=all
// Every description in a bounded family of ways to state the same problem (order of the calls, grouping of the
// constraint components, path of the problem and solver objects, parts of the guess that don't matter, units, signs
// and order of the coordinates, unit of the cost) is solved and compared with the solution of the plain description.
#include <algorithm>
#include <map>
#include <numeric>
#include "mc.hpp"
#include "simple.hpp"
using namespace altro;

namespace {
constexpr int X = Eigen::Dynamic;
constexpr int kN = 3;
using AL = augmented_lagrangian::AugmentedLagrangianiLQR<X, X>;
using IL = ilqr::iLQR<X, X>;
using Eq = constraints::Equality;
using In = constraints::Inequality;

// how the user's coordinates relate to the plain ones: x(i) = sx(i) * y(px[i]), u(j) = su(j) * v(pu[j])
struct Coord {
  std::vector<int> px, pu;
  std::vector<double> sx, su;
  double unit = 1;   // of the cost
  float shift = 0;   // of the time
  Coord(int n, int m) : px(n), pu(m), sx(n, 1.0), su(m, 1.0) { std::iota(px.begin(), px.end(), 0); std::iota(pu.begin(), pu.end(), 0); }
  VectorXd x(const VectorXd& y) const { VectorXd o(y.size()); for (int i = 0; i < o.size(); ++i) o(i) = sx[i] * y(px[i]); return o; }
  VectorXd u(const VectorXd& v) const { VectorXd o(v.size()); for (int j = 0; j < o.size(); ++j) o(j) = su[j] * v(pu[j]); return o; }
  VectorXd y(const VectorXd& x) const { VectorXd o(x.size()); for (int i = 0; i < o.size(); ++i) o(px[i]) = x(i) / sx[i]; return o; }
  VectorXd v(const VectorXd& u) const { VectorXd o(u.size()); for (int j = 0; j < o.size(); ++j) o(pu[j]) = u(j) / su[j]; return o; }
  int col(int c) const { int n = px.size(); return c < n ? px[c] : n + pu[c - n]; }
  double scale(int c) const { int n = px.size(); return c < n ? sx[c] : su[c - n]; }
};

struct TDyn : problem::DiscreteDynamics {
  using problem::DiscreteDynamics::Evaluate; using problem::DiscreteDynamics::Jacobian; using problem::DiscreteDynamics::Hessian;
  std::shared_ptr<simple::Dyn> f; Coord c;
  TDyn(std::shared_ptr<simple::Dyn> f, Coord c) : f(f), c(c) {}
  int StateDimension() const override { return f->StateDimension(); }
  int ControlDimension() const override { return f->ControlDimension(); }
  bool HasHessian() const override { return true; }
  void Evaluate(const VectorXdRef& y, const VectorXdRef& v, const float t, const float h, Eigen::Ref<VectorXd> yn) override {
    VectorXd xn(y.size());
    f->Evaluate(c.x(y), c.u(v), t - c.shift, h, xn);
    yn = c.y(xn);
  }
  void Jacobian(const VectorXdRef& y, const VectorXdRef& v, const float t, const float h, Eigen::Ref<MatrixXd> J) override {
    int n = y.size(), m = v.size();
    MatrixXd A = MatrixXd::Zero(n, n + m);
    f->Jacobian(c.x(y), c.u(v), t - c.shift, h, A);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n + m; ++j) J(c.px[i], c.col(j)) = A(i, j) * c.scale(j) / c.sx[i];
  }
  void Hessian(const VectorXdRef&, const VectorXdRef&, const float, const float, const VectorXdRef&, Eigen::Ref<MatrixXd> H) override { H.setZero(); }
};

struct TCost : problem::CostFunction {
  using problem::CostFunction::Gradient; using problem::CostFunction::Hessian;
  std::shared_ptr<simple::Cost> f; Coord c;
  TCost(std::shared_ptr<simple::Cost> f, Coord c) : f(f), c(c) {}
  int StateDimension() const override { return f->StateDimension(); }
  int ControlDimension() const override { return f->ControlDimension(); }
  double Evaluate(const VectorXdRef& y, const VectorXdRef& v) override { return c.unit * f->Evaluate(c.x(y), c.u(v)); }
  void Gradient(const VectorXdRef& y, const VectorXdRef& v, Eigen::Ref<VectorXd> dy, Eigen::Ref<VectorXd> dv) override {
    VectorXd dx = VectorXd::Zero(y.size()), du = VectorXd::Zero(v.size());
    f->Gradient(c.x(y), c.u(v), dx, du);
    for (int i = 0; i < dx.size(); ++i) dy(c.px[i]) = c.unit * c.sx[i] * dx(i);
    for (int j = 0; j < du.size(); ++j) dv(c.pu[j]) = c.unit * c.su[j] * du(j);
  }
  void Hessian(const VectorXdRef& y, const VectorXdRef& v, Eigen::Ref<MatrixXd> hxx, Eigen::Ref<MatrixXd> hxu, Eigen::Ref<MatrixXd> huu) override {
    int n = y.size(), m = v.size();
    MatrixXd xx = MatrixXd::Zero(n, n), xu = MatrixXd::Zero(n, m), uu = MatrixXd::Zero(m, m);
    f->Hessian(c.x(y), c.u(v), xx, xu, uu);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) hxx(c.px[i], c.px[j]) = c.unit * c.sx[i] * c.sx[j] * xx(i, j);
    for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) hxu(c.px[i], c.pu[j]) = c.unit * c.sx[i] * c.su[j] * xu(i, j);
    for (int i = 0; i < m; ++i) for (int j = 0; j < m; ++j) huu(c.pu[i], c.pu[j]) = c.unit * c.su[i] * c.su[j] * uu(i, j);
  }
};

// one component of a constraint: a.x + b.u + shift + quad x0^2
struct Comp { int k; bool eq; double a, b, shift, quad; };
double value(const Comp& p, const VectorXd& x, const VectorXd& u) {
  double s = p.shift + p.quad * x(0) * x(0);
  for (int i = 0; i < x.size(); ++i) s += p.a / (i + 1) * x(i);
  for (int j = 0; j < u.size(); ++j) s += p.b / (j + 1) * u(j);
  return s;
}
template <class T>
struct TCon : constraints::Constraint<T> {
  std::vector<Comp> p; Coord c;
  TCon(std::vector<Comp> p, Coord c) : p(p), c(c) {}
  int OutputDimension() const override { return p.size(); }
  void Evaluate(const VectorXdRef& y, const VectorXdRef& v, Eigen::Ref<VectorXd> out) override {
    VectorXd x = c.x(y), u = c.u(v);
    for (size_t i = 0; i < p.size(); ++i) out(i) = value(p[i], x, u);
  }
  void Jacobian(const VectorXdRef& y, const VectorXdRef& v, Eigen::Ref<MatrixXd> J) override {
    VectorXd x = c.x(y);
    int n = y.size(), m = v.size();
    for (size_t r = 0; r < p.size(); ++r)
      for (int j = 0; j < n + m; ++j) {
        double d = j < n ? p[r].a / (j + 1) + (j == 0 ? 2 * p[r].quad * x(0) : 0) : p[r].b / (j - n + 1);
        J(r, c.col(j)) = d * c.scale(j);
      }
  }
};

std::vector<Comp> layout(int which) {
  switch (which) {
    case 1: return {{0, false, 0, 1, -0.2, 0}, {1, false, 0, 1, -0.2, 0}, {2, false, 0.3, 1, -0.1, 0}, {kN, true, 1, 0, -0.3, 0}};
    case 2: return {{1, false, 0.5, 1, -0.6, 0.1}, {1, false, 0, -1, -0.8, 0}, {1, false, 1, 0, -0.9, 0}, {kN, true, 1, 0, -0.2, 0.05}};
    case 3: return {{1, true, 0.2, 1, 0.3, 0}, {1, false, 0, 1, -0.3, 0}, {kN, true, 1, 0, -0.4, 0}, {kN, false, 0.5, 0, -0.1, 0}};
    case 4: return {{0, false, 0, -1, -0.5, 0}, {0, false, 0, 1, 0.1, 0}, {0, true, 0.1, 1, 0.4, 0}, {2, true, 0.5, 0.5, 0, 0}};
    default: return {};
  }
}
constexpr int kLayouts = 5;

void options(SolverOptions& o, int which, double unit) {
  o = SolverOptions();
  o.max_iterations_inner = 8; o.max_iterations_outer = 3; o.max_iterations_total = 16;
  o.cost_tolerance = 1e-3;
  if (which == 1) { o.bp_reg_initial = 0.5; o.initial_penalty = 4; }
  if (which == 2) { o.control_max = 1.0; o.line_search_max_iterations = 3; o.maximum_penalty = 50; }
  o.cost_tolerance *= unit; o.initial_penalty *= unit; o.maximum_penalty *= unit;
  o.bp_reg_initial *= unit; o.bp_reg_min *= unit; o.bp_reg_max *= unit;
}
constexpr int kOptions = 3;

struct Descr {
  Coord c;
  std::vector<std::pair<std::vector<int>, int>> groups;   // components (indices into the layout), in the order they're set
  int path = 0;      // of the problem object
  int init = 0;      // of the solver
  double state_guess = 0;
  bool ilqr = false; // the iLQR solver instead of the AL one (no constraints)
  Descr(int n, int m) : c(n, m) {}
};

struct Out {
  int status = 0, inner = 0, outer = 0, total = 0;
  std::vector<double> x, u, cost, other, duals, pens;   // in the plain coordinates and units
  double viol = 0;
};

Out solve(int n, int m, int lay, int opt, const Descr& d) {
  const std::vector<Comp> comps = layout(lay);
  std::vector<std::shared_ptr<TDyn>> dyn;
  std::vector<std::shared_ptr<TCost>> cost;
  for (int k = 0; k < kN; ++k) dyn.push_back(std::make_shared<TDyn>(std::make_shared<simple::Dyn>(n, m, 0.3, 0.1), d.c));
  for (int k = 0; k <= kN; ++k) cost.push_back(std::make_shared<TCost>(k < kN ? std::make_shared<simple::Cost>(n, m, 1.0 + 0.1 * k, 0.5, 0.2) : std::make_shared<simple::Cost>(n, m, 10.0, 0.5, -0.5), d.c));
  VectorXd x0(n);
  for (int i = 0; i < n; ++i) x0(i) = 1.0 + 0.3 * i;

  problem::Problem first(kN);
  // 0 forward, 1 backward, 2 vectors, 3 constraints before the rest, 4 set twice
  auto constraints = [&] {
    for (auto& g : d.groups) {
      std::vector<Comp> p;
      for (int i : g.first) p.push_back(comps[i]);
      if (p[0].eq) first.SetConstraint(std::make_shared<TCon<Eq>>(p, d.c), p[0].k);
      else first.SetConstraint(std::make_shared<TCon<In>>(p, d.c), p[0].k);
    }
  };
  if (d.path == 3) constraints();
  if (d.path == 1) { for (int k = kN; k >= 0; --k) { first.SetCostFunction(cost[k], k); if (k < kN) first.SetDynamics(dyn[k], k); } }
  else if (d.path == 2) { first.SetDynamics(dyn); first.SetCostFunction(cost); }
  else {
    if (d.path == 4) { first.SetInitialState(VectorXd::Constant(n, 8.0)); for (int k = 0; k < kN; ++k) { first.SetDynamics(dyn[0], k); first.SetCostFunction(cost[kN], k); } }
    for (int k = 0; k < kN; ++k) first.SetDynamics(dyn[k], k);
    for (int k = 0; k <= kN; ++k) first.SetCostFunction(cost[k], k);
  }
  first.SetInitialState(d.c.y(x0));
  if (d.path != 3) constraints();
  std::unique_ptr<problem::Problem> prob;
  if (d.path == 5) prob = std::make_unique<problem::Problem>(first);
  else if (d.path == 6) { prob = std::make_unique<problem::Problem>(kN + 2); *prob = first; }
  else if (d.path == 7) prob = std::make_unique<problem::Problem>(std::move(first));
  else if (d.path == 8) { prob = std::make_unique<problem::Problem>(1); *prob = std::move(first); }
  const problem::Problem& P = prob ? *prob : first;

  auto Z = std::make_shared<Trajectory<X, X>>(n, m, kN);
  float t = d.c.shift;
  for (int k = 0; k <= kN; ++k) {
    float h = k == kN ? 0.0F : 0.125F * (k + 2);
    Z->SetTime(k, t); Z->SetStep(k, h);
    t += h;
    Z->State(k).setConstant(d.state_guess);
    if (k < kN) { VectorXd u(m); for (int j = 0; j < m; ++j) u(j) = 0.1 * k - 0.2 * j; Z->Control(k) = d.c.v(u); }
  }
  Out o;
  auto collect = [&](auto& s, SolverStats& st) {
    o.status = static_cast<int>(s.GetStatus());
    o.inner = st.iterations_inner; o.total = st.iterations_total;
    for (int k = 0; k <= kN; ++k) {
      VectorXd x = d.c.x(Z->State(k)), u = d.c.u(Z->Control(k));
      o.x.insert(o.x.end(), x.data(), x.data() + n);
      o.u.insert(o.u.end(), u.data(), u.data() + m);
    }
    auto series = [&](std::vector<double>& to, const std::vector<double>& v, double unit) { to.push_back(v.size()); for (double e : v) to.push_back(e / unit); };
    series(o.cost, st.cost, d.c.unit);
    series(o.cost, st.cost_decrease, d.c.unit);
    o.cost.push_back(st.initial_cost / d.c.unit);
    series(o.other, st.gradient, 1); series(o.other, st.alpha, 1); series(o.other, st.regularization, d.c.unit);
  };
  if (d.ilqr) {
    IL s(kN);
    options(s.GetOptions(), opt, d.c.unit);
    if (d.init == 0) s.InitializeFromProblem(P);
    else { s.CopyFromProblem(P, 0, d.init); s.CopyFromProblem(P, d.init, kN + 1); s.GetCosts() = VectorXd::Zero(kN + 1); }
    s.SetTrajectory(Z);
    s.Solve();
    collect(s, s.GetStats());
    return o;
  }
  std::unique_ptr<AL> s;
  if (d.init == 0) s = std::make_unique<AL>(P);
  else { s = std::make_unique<AL>(kN); s->InitializeFromProblem(P); }
  options(s->GetOptions(), opt, d.c.unit);
  s->SetTrajectory(Z);
  s->Solve();
  collect(*s, s->GetStats());
  o.outer = s->GetStats().iterations_outer;
  o.other.push_back(-1);
  for (double e : s->GetStats().violations) o.other.push_back(e);
  for (double e : s->GetStats().max_penalty) o.other.push_back(e / d.c.unit);
  o.viol = s->MaxViolation();
  // multipliers and penalties by component
  o.duals.assign(comps.size(), 0); o.pens.assign(comps.size(), 0);
  std::map<std::pair<int, bool>, int> seen;
  for (auto& g : d.groups) {
    const Comp& c0 = comps[g.first[0]];
    int at = seen[{c0.k, c0.eq}]++;
    auto read = [&](auto& list) { for (size_t i = 0; i < g.first.size(); ++i) { o.duals[g.first[i]] = list[at]->GetDuals()(i) / d.c.unit; o.pens[g.first[i]] = list[at]->GetPenalty()(i) / d.c.unit; } };
    if (c0.eq) read(s->GetALCost(c0.k)->GetEqualityConstraints()); else read(s->GetALCost(c0.k)->GetInequalityConstraints());
  }
  return o;
}

Descr plain(int n, int m, int lay) {
  Descr d(n, m);
  for (size_t i = 0; i < layout(lay).size(); ++i) d.groups.push_back({{int(i)}, 0});
  return d;
}
const Out& reference(int n, int m, int lay, int opt) {
  static std::map<std::array<int, 4>, Out> memo;
  auto key = std::array<int, 4>{n, m, lay, opt};
  auto it = memo.find(key);
  if (it == memo.end()) it = memo.emplace(key, solve(n, m, lay, opt, plain(n, m, lay))).first;
  return it->second;
}

void compare(mc::Run& r, const Out& a, const Out& b, bool exact) {
  auto near = [&](double p, double q) { return p == q || (p != p && q != q) || std::abs(p - q) <= (exact ? 1e-9 : 1e-6) * (1 + std::abs(q)); };
  auto list = [&](const std::vector<double>& p, const std::vector<double>& q, const char* what) {
    r.checkf(p.size() == q.size(), what, [&] { return mc::str(what, ": ", p.size(), " numbers instead of ", q.size()); });
    for (size_t i = 0; i < p.size() && i < q.size(); ++i) r.checkf(near(p[i], q[i]), what, [&] { return mc::str(what, ": number ", i, " is ", p[i], ", for the plain description ", q[i]); });
  };
  r.checkf(a.status == b.status, "status", [&] { return mc::str("status ", a.status, ", for the plain description ", b.status); });
  r.checkf(a.total == b.total && a.inner == b.inner && a.outer == b.outer, "iterations", [&] { return mc::str("iterations ", a.inner, "/", a.outer, "/", a.total, ", for the plain description ", b.inner, "/", b.outer, "/", b.total); });
  list(a.x, b.x, "states"); list(a.u, b.u, "controls"); list(a.cost, b.cost, "costs"); list(a.other, b.other, "statistics"); list(a.duals, b.duals, "multipliers"); list(a.pens, b.pens, "penalties");
  r.checkf(near(a.viol, b.viol), "violation", [&] { return mc::str("violation ", a.viol, ", for the plain description ", b.viol); });
}
void finish(mc::Run& r, const Out& a, uint64_t h) {
  r.transition();
  r.state(h);
  h = mc::mix(h, a.status);
  for (double e : a.x) h = mc::hashd(h, e);
  r.outcome(h);
}

// the order in which constraint components are set and their grouping into functions
void grouping(mc::Run& r, int n, int m) {
  int lay = 1 + r.choose(kLayouts - 1, "constraints"), opt = r.choose(kOptions, "options");
  const auto comps = layout(lay);
  std::vector<int> left(comps.size());
  std::iota(left.begin(), left.end(), 0);
  Descr d(n, m);
  uint64_t h = mc::mix(lay, opt * 16 + n * 4 + m);
  while (!left.empty()) {
    int j = r.choose(left.size(), "next component");
    int i = left[j];
    left.erase(left.begin() + j);
    // join one of the functions of the same kind and step set just before
    bool can = !d.groups.empty() && comps[d.groups.back().first[0]].k == comps[i].k && comps[d.groups.back().first[0]].eq == comps[i].eq;
    bool join = can && r.choose(2, "join the function before");
    if (join) d.groups.back().first.push_back(i); else d.groups.push_back({{i}, 0});
    h = mc::mix(h, 2 * i + join);
  }
  mc::CaptureStdout quiet;
  Out a = solve(n, m, lay, opt, d);
  compare(r, a, reference(n, m, lay, opt), false);
  finish(r, a, h);
}

// order, sign and unit of the coordinates
void coordinates(mc::Run& r, int n, int m) {
  int lay = r.choose(kLayouts, "constraints"), opt = r.choose(kOptions, "options");
  Descr d = plain(n, m, lay);
  std::vector<int> p(n), q(m);
  std::iota(p.begin(), p.end(), 0); std::iota(q.begin(), q.end(), 0);
  bool permuted = false;
  for (int i = 0; i + 1 < n; ++i) { int j = r.choose(n - i, "order of the states"); permuted |= j; std::swap(p[i], p[i + j]); }
  for (int i = 0; i + 1 < m; ++i) { int j = r.choose(m - i, "order of the controls"); permuted |= j; std::swap(q[i], q[i + j]); }
  uint64_t h = mc::mix(lay, opt * 16 + n * 4 + m);
  for (int i = 0; i < n; ++i) { d.c.px[i] = p[i]; d.c.sx[i] = r.pick({1.0, -1.0, 4.0, -0.25}, "unit of a state"); h = mc::hashd(mc::mix(h, p[i]), d.c.sx[i]); }
  for (int j = 0; j < m; ++j) { d.c.pu[j] = q[j]; d.c.su[j] = r.choose(2, "sign of a control") ? -1.0 : 1.0; h = mc::hashd(mc::mix(h, q[j]), d.c.su[j]); }
  mc::CaptureStdout quiet;
  Out a = solve(n, m, lay, opt, d);
  compare(r, a, reference(n, m, lay, opt), !permuted);
  finish(r, a, h);
}

// unit of the cost, path of the objects, guess of the states
void paths(mc::Run& r, int n, int m) {
  int lay = r.choose(kLayouts, "constraints"), opt = r.choose(kOptions, "options");
  Descr d = plain(n, m, lay);
  d.c.unit = r.pick({1.0, 4.0, 0.0625, 1024.0}, "unit of the cost");
  d.path = r.choose(9, "how the problem is put together");
  d.init = r.choose(2, "how the solver is initialized");
  d.state_guess = r.pick({0.0, 7.0, -1e3}, "guess of the states");
  d.c.shift = r.choose(2, "start time") ? 64.0F : 0.0F;
  mc::CaptureStdout quiet;
  Out a = solve(n, m, lay, opt, d);
  compare(r, a, reference(n, m, lay, opt), true);
  finish(r, a, mc::hashd(mc::hashd(mc::mix(mc::mix(lay, opt * 16 + n * 4 + m), (d.path * 2 + d.init) * 2 + (d.c.shift > 0)), d.c.unit), d.state_guess));
}

// without constraints: the iLQR solver, initialized at once or in pieces, against the augmented Lagrangian one
void unconstrained(mc::Run& r, int n, int m) {
  int opt = r.choose(kOptions, "options");
  Descr d(n, m);
  d.path = r.choose(9, "how the problem is put together");
  d.init = r.choose(kN + 1, "pieces");
  d.c.unit = r.pick({1.0, 16.0}, "unit of the cost");
  d.state_guess = r.pick({0.0, 7.0}, "guess of the states");
  d.ilqr = true;
  mc::CaptureStdout quiet;
  Out a = solve(n, m, 0, opt, d), b = reference(n, m, 0, opt);
  // iLQR alone ends after one inner solve
  const size_t len = a.cost.empty() ? 0 : a.cost[0];
  auto near = [](double p, double q) { return p == q || (p != p && q != q) || std::abs(p - q) <= 1e-9 * (1 + std::abs(q)); };
  auto same = [&](const std::vector<double>& p, const std::vector<double>& q) {
    if (p.size() != q.size()) return false;
    for (size_t i = 0; i < p.size(); ++i) if (!near(p[i], q[i])) return false;
    return true;
  };
  r.checkf(same(a.x, b.x) || b.outer > 1, "states", [&] { return mc::str("the states differ from those of the augmented Lagrangian solver"); });
  r.checkf(same(a.u, b.u) || b.outer > 1, "controls", [&] { return mc::str("the controls differ from those of the augmented Lagrangian solver"); });
  r.checkf(a.total == b.total || b.outer > 1, "iterations", [&] { return mc::str(a.total, " iterations, the augmented Lagrangian solver needs ", b.total); });
  for (size_t i = 0; i + 1 < len; ++i) r.checkf(near(a.cost[1 + i], b.cost[1 + i]), "costs", [&] { return mc::str("cost ", i, " is ", a.cost[1 + i], ", of the augmented Lagrangian solver ", b.cost[1 + i]); });
  finish(r, a, mc::hashd(mc::hashd(mc::mix(mc::mix(opt, n * 4 + m), d.path * 8 + d.init), d.c.unit), d.state_guess));
}
}  // namespace

int main(int argc, char** argv) {
  mc::Spec s;
  s.property = "P25";
  s.unit = "state: one description of a problem; transition: one solve compared with the plain description's";
  s.assumptions = {"reordering changes sums by rounding only: results agree within 1e-6 relative; within 1e-9 for signs, powers of two and everything else (they change nothing in the arithmetic)"};
  auto add = [&](const char* name, const char* what, void (*f)(mc::Run&, int, int), int n, int m) {
    mc::Scenario sc;
    sc.name = mc::str(name, "-", n, m);
    sc.bound = mc::str(what, "; ", n, " states, ", m, " controls, 3 segments, 3 option sets");
    sc.exec_limit_s = 60;
    sc.body = [=](mc::Run& r) { f(r, n, m); };
    s.scenarios.push_back(sc);
  };
  const bool q = !mc::thorough();
  for (int n = 1; n <= (q ? 2 : 3); ++n)
    for (int m = 1; m <= 2; ++m) {
      add("grouping", "4 sets of 4 constraint components, every order of setting them and every grouping of neighbours into functions", grouping, n, m);
      add("coordinates", "5 sets of constraints, every order of states and controls, 4 units/signs per state, both signs per control", coordinates, n, m);
      add("paths", "5 sets of constraints, 4 units of the cost, 9 ways of putting the problem together, 2 of initializing the solver, 3 guesses of the states, 2 start times", paths, n, m);
      add("unconstrained", "without constraints: iLQR initialized in one or two pieces against the augmented Lagrangian solver", unconstrained, n, m);
    }
  if (q) add("coordinates", "5 sets of constraints, every order of states, 4 units/signs per state, both signs per control", coordinates, 3, 1);
  return mc::main_driver(argc, argv, s);
}
