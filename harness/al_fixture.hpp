// A small constrained problem with every layout of constraints, and histories of uses of its solver.
#pragma once
#include "alref.hpp"
#include "altro/augmented_lagrangian/al_solver.hpp"

namespace alfix {
using namespace altro;
using namespace alref;
constexpr int X = Eigen::Dynamic;
constexpr int kSteps = 2, kn = 2, km = 1;
template <int n, int m> using Solver = augmented_lagrangian::AugmentedLagrangianiLQR<n, m>;

struct Item { int k; Entry e; std::string label; };
// constraints of one layout, in the order in which they are set
inline std::vector<Item> layout(int which) {
  auto eq = [](int k, int dim, int id, double shift = 0) { Item i{k, {true, {dim, id}}, mc::str("eq", id, "d", dim)}; i.e.f.shift = shift; return i; };
  auto in = [](int k, int dim, int id, double shift = 0) { Item i{k, {false, {dim, id}}, mc::str("in", id, "d", dim)}; i.e.f.shift = shift; return i; };
  switch (which) {
    case 0: return {in(0, 1, 0, 0.8), eq(kSteps, 2, 2)};
    case 1: return {eq(0, 1, 0, 0.2), in(1, 1, 2, 0.6), in(2, 1, 4, 0.4)};
    case 2: return {in(1, 2, 0, 0.9), eq(1, 1, 2), in(1, 1, 4, -0.9)};
    case 3: return {in(0, 1, 2, -0.5), in(1, 1, 2, -0.5), in(2, 1, 2, -0.5), eq(2, 1, 0)};     // one shared object
    case 4: return {in(2, 3, 1, 0.5), eq(2, 1, 3), eq(0, 1, 5, 0.1), in(0, 2, 6, 0.7), in(0, 1, 1)};
    case 5: return {eq(2, 1, 0), eq(1, 1, 2)};
    case 6: return {in(0, 1, 0, 5.0)};                                                             // hard to satisfy
    case 7: return {in(0, 1, 0, -50.0), in(2, 2, 2, -50.0)};                                       // always satisfied
    default: return {};
  }
}
constexpr int kLayouts = 9;

// reference order: by step, equalities before inequalities, each in order of insertion
inline std::vector<Item> ordered(const std::vector<Item>& in) {
  std::vector<Item> out;
  for (int k = 0; k <= kSteps; ++k)
    for (int eq = 1; eq >= 0; --eq)
      for (auto& i : in) if (i.k == k && i.e.eq == (eq == 1)) out.push_back(i);
  return out;
}

enum Setting { PLAIN, LOOSE, REFUSED, LIMITED, SHORT, NSETTING };
inline void settings(SolverOptions& o, int which) {
  o.max_iterations_inner = 8; o.max_iterations_outer = 4; o.max_iterations_total = 40;
  if (which == LOOSE) { o.cost_tolerance = 1e3; o.gradient_tolerance = 1e3; o.constraint_tolerance = 1e-9; }
  if (which == REFUSED) { o.line_search_lower_bound = 2.0; o.line_search_upper_bound = 3.0; o.line_search_max_iterations = 3; o.cost_tolerance = 10; o.gradient_tolerance = 1e3; }
  if (which == LIMITED) { o.control_max = 0.4; }
  if (which == SHORT) { o.max_iterations_inner = 1; o.cost_tolerance = 1e3; o.gradient_tolerance = 1e3; o.max_iterations_total = 3; }
}

struct Snapshot {
  std::vector<V> lam, rho;       // in reference order
  std::vector<V> xs, us;         // trajectory held
  int status = 0, inner = 0, outer = 0;
  double stat_viol = 0, stat_pen = 0;
};

template <int n, int m>
struct Fix {
  using T = Trajectory<n, m>;
  simple::Prob P{kn, km, kSteps};
  std::vector<Item> items;
  std::unique_ptr<Solver<n, m>> s;
  std::shared_ptr<T> Z;
  std::vector<V> phi;            // expected scaling, in reference order

  explicit Fix(int lay) {
    std::vector<Item> in = layout(lay);
    std::shared_ptr<Con<cons::Inequality>> shared;
    for (auto& i : in) {
      if (i.e.eq) { P.prob->SetConstraint(std::make_shared<Con<cons::Equality>>(i.e.f, i.label), i.k); continue; }
      std::shared_ptr<Con<cons::Inequality>> c;
      if (lay == 3 && shared) c = shared; else c = std::make_shared<Con<cons::Inequality>>(i.e.f, i.label);
      if (lay == 3) shared = c;
      P.prob->SetConstraint(c, i.k);
    }
    items = ordered(in);
    for (auto& i : items) phi.push_back(V(i.e.f.dim, 10.0));
    s = std::make_unique<Solver<n, m>>(*P.prob);
    fresh_guess(0);
  }
  void fresh_guess(int which) {
    Z = std::make_shared<T>(kn, km, kSteps);
    Z->SetUniformStep(0.25F);
    for (int k = 0; k <= kSteps; ++k) { Z->State(k).setConstant(3.0 + k); if (k < kSteps) Z->Control(k)(0) = which ? 0.8 - 0.5 * k : 0.1 * (k + 1); }
    s->SetTrajectory(Z);
  }
  template <class F> void each(F f) {
    int i = 0;
    for (int k = 0; k <= kSteps; ++k) {
      for (auto& c : s->GetALCost(k)->GetEqualityConstraints()) f(i++, *c);
      for (auto& c : s->GetALCost(k)->GetInequalityConstraints()) f(i++, *c);
    }
  }
  Snapshot snap() {
    Snapshot q;
    each([&](int, auto& c) { q.lam.push_back(vec(c.GetDuals())); q.rho.push_back(vec(c.GetPenalty())); });
    for (int k = 0; k <= kSteps; ++k) { q.xs.push_back(vec(Z->State(k))); q.us.push_back(k < kSteps ? vec(Z->Control(k)) : V(km, 0.0)); if (k == kSteps) q.us.back() = vec(Z->Control(k)); }
    q.status = static_cast<int>(s->GetStatus()); q.inner = static_cast<int>(s->GetiLQRSolver().GetStatus()); q.outer = s->GetStats().iterations_outer;
    auto& st = s->GetStats();
    q.stat_viol = st.violations.empty() ? 0 : st.violations.back();
    q.stat_pen = st.max_penalty.empty() ? 0 : st.max_penalty.back();
    return q;
  }
  // constraint values of the trajectory held
  std::vector<V> values(const Snapshot& q) const { std::vector<V> c; for (auto& i : items) c.push_back(i.e.f.value(q.xs[i.k], q.us[i.k])); return c; }
};

// a use of the solver before the solve under test
constexpr int kUses = 12;
inline const char* use_name(int u) {
  static const char* n[] = {"nothing", "solve", "short solve", "solve from another state", "penalty 7 everywhere", "penalty of step 1/2 constraints 3", "scaling 2 everywhere",
                            "scaling 4 for the constraints of the last step", "violation of another trajectory", "multipliers set by hand", "refused solve of another guess", "keep multipliers and penalties from now on"};
  return n[u];
}
template <int n, int m>
void use(Fix<n, m>& f, int u) {
  auto& s = *f.s;
  auto& o = s.GetOptions();
  switch (u) {
    case 1: settings(o, PLAIN); s.Solve(); break;
    case 2: settings(o, SHORT); s.Solve(); break;
    case 3: { VectorXd x0 = f.P.prob->GetInitialState(); f.P.prob->SetInitialState(VectorXd::Constant(kn, -1.5)); settings(o, PLAIN); s.Solve(); f.P.prob->SetInitialState(x0); break; }
    case 4: s.SetPenalty(7.0); break;
    case 5: for (int k = 1; k <= kSteps; ++k) { s.GetALCost(k)->template SetPenalty<cons::Equality>(3.0); for (int i = 0; i < s.GetALCost(k)->template NumConstraintFunctions<cons::Inequality>(); ++i) s.GetALCost(k)->template SetPenalty<cons::Inequality>(3.0, i); } break;
    case 6: s.SetPenaltyScaling(2.0); for (auto& p : f.phi) for (double& d : p) d = 2.0; break;
    case 7: s.GetALCost(kSteps)->template SetPenaltyScaling<cons::Equality>(4.0); s.GetALCost(kSteps)->template SetPenaltyScaling<cons::Inequality>(4.0);
            for (size_t i = 0; i < f.items.size(); ++i) if (f.items[i].k == kSteps) for (double& d : f.phi[i]) d = 4.0; break;
    case 8: { typename Fix<n, m>::T other(*f.Z); for (int k = 0; k <= kSteps; ++k) { other.State(k).setConstant(9.0); other.Control(k).setConstant(-7.0); } s.MaxViolation(other); break; }
    case 9: f.each([](int i, auto& c) { for (int j = 0; j < c.GetDuals().size(); ++j) c.GetDuals()(j) = -0.4 * (i + 1) - 0.3 * j; }); break;
    case 10: f.fresh_guess(1); settings(o, REFUSED); s.Solve(); break;
    case 11: o.reset_duals = false; o.initial_penalty = 0; break;
    default: break;
  }
  int keep_reset = o.reset_duals; double keep_pen = o.initial_penalty;
  o = SolverOptions();
  o.reset_duals = keep_reset; o.initial_penalty = keep_pen;
}
}  // namespace alfix
