// check: P12 variant=asan sources=all
// Augmented cost, gradient and Gauss-Newton Hessian against the formula, for every combination of constraints,
// multiplier signs, penalties and points; and every history of evaluations and updates up to a depth.
#include "alref.hpp"
#include "altro/augmented_lagrangian/al_solver.hpp"
using namespace altro;
using namespace alref;

namespace {
constexpr int X = Eigen::Dynamic;
template <int n, int m> using ALCost = augmented_lagrangian::ALCost<n, m>;

const Entry kAlphabet[] = {{true, {1, 0}}, {false, {1, 1}}, {true, {2, 2}}, {false, {2, 3}}, {false, {3, 4}}, {true, {3, 5}}, {false, {1, 6}}};

// reference state of one augmented cost
struct Ref {
  int n, m;
  std::shared_ptr<simple::Cost> user;
  std::vector<Entry> cons;                // equalities first, then inequalities, each in order of insertion
  std::vector<V> lam, c;                  // c: values of the last evaluation
  V rho, phi;
};
template <int n, int m>
struct Under {
  std::shared_ptr<ALCost<n, m>> al;
  template <class F> void each(F f) {
    for (auto& c : al->GetEqualityConstraints()) f(c->GetDuals(), c->GetPenalty());
    for (auto& c : al->GetInequalityConstraints()) f(c->GetDuals(), c->GetPenalty());
  }
};

template <int n, int m>
void make(mc::Run& r, int nn, int mm, const std::vector<int>& picks, Ref* ref, Under<n, m>* un) {
  ref->n = nn; ref->m = mm;
  ref->user = std::make_shared<simple::Cost>(nn, mm, 1.25, 0.75, 0.3, 0.4, 0.1);
  std::vector<std::shared_ptr<cons::Constraint<cons::Equality>>> eq;
  std::vector<std::shared_ptr<cons::Constraint<cons::Inequality>>> in;
  std::vector<Entry> a, b;
  for (int p : picks) {
    Entry e = kAlphabet[p];
    if (e.eq) { eq.push_back(std::make_shared<Con<cons::Equality>>(e.f)); a.push_back(e); }
    else { in.push_back(std::make_shared<Con<cons::Inequality>>(e.f)); b.push_back(e); }
    if (r.recording()) r.note(mc::str(e.eq ? "equality" : "inequality", " of dimension ", e.f.dim));
  }
  un->al = std::make_shared<ALCost<n, m>>(nn, mm);
  un->al->SetCostFunction(ref->user);
  un->al->SetInequalityConstraints(in.begin(), in.end());
  un->al->SetEqualityConstraints(eq.begin(), eq.end());
  ref->cons = a;
  ref->cons.insert(ref->cons.end(), b.begin(), b.end());
  for (auto& e : ref->cons) { ref->lam.push_back(V(e.f.dim, 0.0)); ref->c.push_back(V(e.f.dim, 0.0)); ref->rho.push_back(1.0); ref->phi.push_back(10.0); }
}

void point(int which, int n, int m, VectorXd* x, VectorXd* u) {
  x->resize(n); u->resize(m);
  for (int i = 0; i < n; ++i) (*x)(i) = which == 0 ? 0.35 + 0.4 * i : which == 1 ? -1.1 + 0.85 * i : which == 2 ? 3.0 - 2.3 * i : 0.01 * (i + 1);
  for (int j = 0; j < m; ++j) (*u)(j) = which == 0 ? 0.2 - 0.3 * j : which == 1 ? 1.4 : which == 2 ? -2.6 + j : -0.02;
}

bool near(double a, double b, double sc) { return std::abs(a - b) <= 1e-9 * (1 + sc); }

template <int n, int m>
void unchanged(mc::Run& r, Under<n, m>& un, const Ref& ref, const char* after) {
  size_t i = 0;
  un.each([&](VectorXd& lam, VectorXd& pen) {
    for (int j = 0; j < lam.size(); ++j) {
      r.checkf(std::abs(lam(j) - ref.lam[i][j]) <= 1e-9 * (1 + std::abs(ref.lam[i][j])), "multipliers-changed", [&] { return mc::str("after ", after, " multiplier ", j, " of constraint ", i, " is ", lam(j), ", expected ", ref.lam[i][j]); });
      r.checkf(std::abs(pen(j) - ref.rho[i]) <= 1e-12 * ref.rho[i], "penalty-changed", [&] { return mc::str("after ", after, " penalty ", j, " of constraint ", i, " is ", pen(j), ", expected ", ref.rho[i]); });
    }
    ++i;
  });
  r.check(i == ref.cons.size(), "constraint-count", "number of constraints differs");
}

Terms expect(const Ref& ref, const VectorXd& x, const VectorXd& u) {
  Terms t; size_t z = ref.n + ref.m;
  t.g.assign(z, 0); t.H.assign(z, V(z, 0));
  for (size_t i = 0; i < ref.cons.size(); ++i) add_terms(&t, ref.cons[i], ref.lam[i], ref.rho[i], vec(x), vec(u));
  t.J += ref.user->Evaluate(x, u);
  VectorXd dx(ref.n), du(ref.m); MatrixXd xx(ref.n, ref.n), xu(ref.n, ref.m), uu(ref.m, ref.m);
  ref.user->Gradient(x, u, dx, du); ref.user->Hessian(x, u, xx, xu, uu);
  for (int i = 0; i < ref.n; ++i) { t.g[i] += dx(i); for (int j = 0; j < ref.n; ++j) t.H[i][j] += xx(i, j); for (int j = 0; j < ref.m; ++j) { t.H[i][ref.n + j] += xu(i, j); t.H[ref.n + j][i] += xu(i, j); } }
  for (int i = 0; i < ref.m; ++i) { t.g[ref.n + i] += du(i); for (int j = 0; j < ref.m; ++j) t.H[ref.n + i][ref.n + j] += uu(i, j); }
  return t;
}
double size(const Terms& t) { double s = std::abs(t.J); for (auto& row : t.H) for (double d : row) s = std::max(s, std::abs(d)); for (double d : t.g) s = std::max(s, std::abs(d)); return s; }
double psize(const Ref& ref, const VectorXd& x, const VectorXd& u) {
  double s = 0;
  for (size_t i = 0; i < ref.cons.size(); ++i) for (double c : ref.cons[i].f.value(vec(x), vec(u))) s = std::max(s, ref.rho[i] * c * c);
  for (size_t i = 0; i < ref.cons.size(); ++i) for (double l : ref.lam[i]) s = std::max(s, l * l / ref.rho[i]);
  return s;
}
void remember(Ref* ref, const VectorXd& x, const VectorXd& u) { for (size_t i = 0; i < ref->cons.size(); ++i) ref->c[i] = ref->cons[i].f.value(vec(x), vec(u)); }

// what: 0 value, 1 gradient, 2 Hessian.  Outputs are pre-filled and, for some, blocks of larger arrays.
void compare(mc::Run& r, problem::CostFunction& al, Ref& ref, const VectorXd& x, const VectorXd& u, int what, bool blocks) {
  Terms t = expect(ref, x, u);
  double sc = size(t) + psize(ref, x, u);
  int n = ref.n, m = ref.m;
  r.transition();
  if (what == 0) {
    double J = al.Evaluate(x, u);
    r.checkf(near(J, t.J, sc), "value", [&] { return mc::str("augmented cost ", J, ", the formula gives ", t.J); });
    r.outcome(mc::hashd(1, J));
  } else if (what == 1) {
    VectorXd big = VectorXd::Constant(n + m + 3, 777.0);
    VectorXd dx = VectorXd::Constant(n, 777.0), du = VectorXd::Constant(m, -777.0);
    if (blocks) { al.Gradient(x, u, big.segment(1, n), big.segment(n + 2, m)); dx = big.segment(1, n); du = big.segment(n + 2, m);
      r.check(big(0) == 777.0 && big(n + 1) == 777.0 && big(n + m + 2) == 777.0, "wrote-outside", "the gradient wrote outside the arrays it was given"); }
    else al.Gradient(x, u, dx, du);
    if (t.kink < 1e-9) { r.cover("at a kink"); }
    for (int i = 0; i < n + m; ++i) { double g = i < n ? dx(i) : du(i - n); r.checkf(near(g, t.g[i], sc), "gradient", [&] { return mc::str("gradient entry ", i, " is ", g, ", the formula gives ", t.g[i]); }); }
  } else {
    MatrixXd xx = MatrixXd::Constant(n, n, 777.0), xu = MatrixXd::Constant(n, m, 777.0), uu = MatrixXd::Constant(m, m, 777.0);
    if (blocks) {
      MatrixXd big = MatrixXd::Constant(n + m + 2, n + m + 2, 777.0);
      al.Hessian(x, u, big.block(1, 1, n, n), big.block(1, n + 1, n, m), big.block(n + 1, n + 1, m, m));
      xx = big.block(1, 1, n, n); xu = big.block(1, n + 1, n, m); uu = big.block(n + 1, n + 1, m, m);
      big.block(1, 1, n, n).setConstant(777); big.block(1, n + 1, n, m).setConstant(777); big.block(n + 1, n + 1, m, m).setConstant(777);
      r.check((big.array() == 777.0).all(), "wrote-outside", "the Hessian wrote outside the arrays it was given");
    } else al.Hessian(x, u, xx, xu, uu);
    if (t.kink < 1e-9) { r.cover("Hessian at a kink (not compared)"); remember(&ref, x, u); return; }
    auto ck = [&](const char* w, int i, int j, double g, double e) { r.checkf(near(g, e, sc), "hessian", [&] { return mc::str("Hessian ", w, "(", i, ",", j, ") is ", g, ", the formula gives ", e); }); };
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) ck("xx", i, j, xx(i, j), t.H[i][j]);
    for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) ck("xu", i, j, xu(i, j), t.H[i][n + j]);
    for (int i = 0; i < m; ++i) for (int j = 0; j < m; ++j) ck("uu", i, j, uu(i, j), t.H[n + i][n + j]);
  }
  remember(&ref, x, u);
}

// sign patterns of the multipliers: 0 zero, 1 right sign, 2 mixed, 3 exactly at the kink of the first inequality
void set_multipliers(Ref* ref, int pattern, const VectorXd& x, const VectorXd& u) {
  for (size_t i = 0; i < ref->cons.size(); ++i)
    for (int j = 0; j < ref->cons[i].f.dim; ++j) {
      double v = 0;
      if (pattern == 1) v = ref->cons[i].eq ? (j % 2 ? 1.5 : -0.8) : -0.6 * (j + 1);
      if (pattern == 2) v = (i + j) % 2 ? 2.25 : -3.5;
      if (pattern == 3) v = ref->rho[i] * ref->cons[i].f.value(vec(x), vec(u))[j];
      ref->lam[i][j] = v;
    }
}
template <int n, int m> void push_multipliers(Under<n, m>& un, const Ref& ref) {
  size_t i = 0;
  un.each([&](VectorXd& lam, VectorXd&) { for (int j = 0; j < lam.size(); ++j) lam(j) = ref.lam[i][j]; ++i; });
}
template <int n, int m> void set_penalty(Under<n, m>& un, Ref* ref, int i, double rho) {
  int ne = un.al->template NumConstraintFunctions<cons::Equality>();
  if (i < ne) un.al->template SetPenalty<cons::Equality>(rho, i); else un.al->template SetPenalty<cons::Inequality>(rho, i - ne);
  ref->rho[i] = rho;
}
template <int n, int m> void set_scaling(Under<n, m>& un, Ref* ref, int i, double phi) {
  int ne = un.al->template NumConstraintFunctions<cons::Equality>();
  if (i < ne) un.al->template SetPenaltyScaling<cons::Equality>(phi, i); else un.al->template SetPenaltyScaling<cons::Inequality>(phi, i - ne);
  ref->phi[i] = phi;
}

// every multiset-with-order of up to 3 constraints x multiplier patterns x penalty patterns x points
template <int n, int m>
void grid(mc::Run& r, int nn, int mm, int max_cons) {
  int cnt = r.choose(max_cons + 1, "constraints");
  std::vector<int> picks;
  for (int i = 0; i < cnt; ++i) picks.push_back(r.choose(7, "constraint"));
  Ref ref; Under<n, m> un;
  make<n, m>(r, nn, mm, picks, &ref, &un);
  int pens = r.choose(4, "penalties"), pat = r.choose(4, "multipliers"), pt = r.choose(4, "point");
  for (size_t i = 0; i < ref.cons.size(); ++i) {
    if (pens == 1) set_penalty(un, &ref, i, 0.01 * (i + 1));
    if (pens == 2) set_penalty(un, &ref, i, i % 2 ? 1e4 : 3.0);
    if (pens == 3) set_penalty(un, &ref, i, 1e6);
  }
  VectorXd x, u; point(pt, nn, mm, &x, &u);
  set_multipliers(&ref, pat, x, u);
  push_multipliers(un, ref);
  r.note(mc::str("penalties ", pens, ", multipliers ", pat, ", point ", pt));
  for (int what = 0; what < 3; ++what) { compare(r, *un.al, ref, x, u, what, pt % 2); unchanged(r, un, ref, "an evaluation"); }
  int p = 0; for (auto& e : ref.cons) p += e.f.dim;
  r.check(un.al->NumConstraints() == p, "constraint-count", mc::str("NumConstraints() is ", un.al->NumConstraints(), ", expected ", p));
}

// every history of operations up to the depth
template <int n, int m>
void history(mc::Run& r, int nn, int mm, const std::vector<int>& picks, int depth) {
  Ref ref; Under<n, m> un;
  make<n, m>(r, nn, mm, picks, &ref, &un);
  VectorXd x[2], u[2];
  point(0, nn, mm, &x[0], &u[0]); point(1, nn, mm, &x[1], &u[1]);
  for (int d = 0; d < depth; ++d) {
    int op = r.choose(14, "op");
    if (op < 6) { r.note(mc::str(op % 3 == 0 ? "value" : op % 3 == 1 ? "gradient" : "hessian", " at point ", op / 3)); compare(r, *un.al, ref, x[op / 3], u[op / 3], op % 3, op / 3); }
    else r.transition();
    if (op == 6 || op == 7) { r.note(mc::str("multipliers ", op - 5)); set_multipliers(&ref, op - 5, x[0], u[0]); push_multipliers(un, ref); }
    if (op == 8) { r.note("penalty of the last constraint 50"); set_penalty(un, &ref, ref.cons.size() - 1, 50.0); }
    if (op == 9) { r.note("all penalties 0.5"); un.al->template SetPenalty<cons::Equality>(0.5); un.al->template SetPenalty<cons::Inequality>(0.5); for (auto& p : ref.rho) p = 0.5; }
    if (op == 10) { r.note("update duals"); un.al->UpdateDuals(); for (size_t i = 0; i < ref.cons.size(); ++i) for (size_t j = 0; j < ref.lam[i].size(); ++j) ref.lam[i][j] = projd(ref.cons[i].eq, ref.lam[i][j] - ref.rho[i] * ref.c[i][j]); }
    if (op == 11) { r.note("update penalties"); un.al->UpdatePenalties(); for (size_t i = 0; i < ref.cons.size(); ++i) ref.rho[i] *= ref.phi[i]; }
    if (op == 12) { r.note("reset duals, scaling of the first constraint 3"); un.al->ResetDualVariables(); for (auto& l : ref.lam) for (double& v : l) v = 0; set_scaling(un, &ref, 0, 3.0); }
    if (op == 13) { r.note("maximum violation and listing"); un.al->MaxViolation(); std::vector<cons::ConstraintInfo> info; un.al->GetConstraintInfo(&info); un.al->MaxPenalty(); }
    unchanged(r, un, ref, "the operation");
    uint64_t h = 0; for (auto& l : ref.lam) for (double v : l) h = mc::hashd(h, v); for (double v : ref.rho) h = mc::hashd(h, v);
    for (auto& c : ref.c) for (double v : c) h = mc::hashd(h, v);
    r.state(h);
  }
  for (int what = 0; what < 3; ++what) compare(r, *un.al, ref, x[0], u[0], what, false);
}

// the cost functions a solver builds: each step has exactly its own cost and constraints
template <int n, int m>
void whole(mc::Run& r) {
  constexpr int N = 2, nn = 2, mm = 1;
  simple::Prob P(nn, mm, N);
  std::vector<std::vector<Entry>> own(N + 1);
  for (int k = 0; k <= N; ++k) {
    std::vector<Entry> eq, in;
    int cnt = r.choose(3, "constraints");
    for (int i = 0; i < cnt; ++i) {
      Entry e = kAlphabet[r.choose(4, "constraint")];
      e.f.shift = 0.1 * k;
      if (e.eq) { P.prob->SetConstraint(std::make_shared<Con<cons::Equality>>(e.f), k); eq.push_back(e); }
      else { P.prob->SetConstraint(std::make_shared<Con<cons::Inequality>>(e.f), k); in.push_back(e); }
    }
    own[k] = eq; own[k].insert(own[k].end(), in.begin(), in.end());
  }
  augmented_lagrangian::AugmentedLagrangianiLQR<n, m> s(*P.prob);
  VectorXd x, u;
  std::vector<Ref> refs(N + 1);
  for (int k = 0; k <= N; ++k) {
    Ref& ref = refs[k];
    ref.n = nn; ref.m = mm; ref.user = P.cost[k]; ref.cons = own[k];
    Under<n, m> un{s.GetALCost(k)};
    for (size_t i = 0; i < own[k].size(); ++i) { ref.lam.push_back(V(own[k][i].f.dim, 0.0)); ref.c.push_back(ref.lam.back()); ref.rho.push_back(1); ref.phi.push_back(10); }
    point(k, nn, mm, &x, &u);
    set_multipliers(&ref, 2, x, u);
    push_multipliers(un, ref);
    for (size_t i = 0; i < own[k].size(); ++i) set_penalty(un, &ref, i, 2.0 + 3 * k + i);
  }
  for (int k = 0; k <= N; ++k) {
    point(2 - k, nn, mm, &x, &u);
    auto& kpf = s.GetiLQRSolver().GetKnotPointFunction(k);
    double J = kpf.Cost(x, u);
    Terms t = expect(refs[k], x, u);
    double sc = size(t) + psize(refs[k], x, u);
    r.transition(2);
    r.checkf(near(J, t.J, sc), "step-value", [&] { return mc::str("cost of step ", k, " is ", J, ", the formula gives ", t.J); });
    kpf.CalcCostExpansion(x, u);
    auto& e = kpf.GetCostExpansion();
    for (int i = 0; i < nn + mm; ++i) {
      double g = i < nn ? e.dx()(i) : e.du()(i - nn);
      r.checkf(near(g, t.g[i], sc), "step-gradient", [&] { return mc::str("gradient entry ", i, " of step ", k, " is ", g, ", the formula gives ", t.g[i]); });
      if (t.kink < 1e-9) continue;
      for (int j = 0; j < nn + mm; ++j) {
        double h = i < nn ? (j < nn ? e.dxdx()(i, j) : e.dxdu()(i, j - nn)) : (j < nn ? e.dxdu()(j, i - nn) : e.dudu()(i - nn, j - nn));
        r.checkf(near(h, t.H[i][j], sc), "step-hessian", [&] { return mc::str("Hessian entry (", i, ",", j, ") of step ", k, " is ", h, ", the formula gives ", t.H[i][j]); });
      }
    }
    r.outcome(mc::hashd(k, J));
  }
}
}  // namespace

int main(int argc, char** argv) {
  mc::Spec spec;
  spec.property = "P12";
  spec.unit = "execution = one combination of constraints, multipliers, penalties and point, or one history of operations; state = reference (multipliers, penalties, last constraint values)";
  spec.assumptions = {"the penalty is the same for all elements of one constraint (the interface sets it per constraint)", "Hessians are not compared exactly on the boundary between active and inactive", "agreement up to 1e-9 relative to the largest term"};
  int mx = mc::tier(3, 4);
  spec.scenarios.push_back({"grid-fixed-2x1", mc::str("every list of up to ", mx, " of 7 constraints, 4 penalty settings, 4 multiplier settings, 4 points"), [mx](mc::Run& r) { grid<2, 1>(r, 2, 1, mx); }});
  spec.scenarios.push_back({"grid-dynamic-3x2", mc::str("every list of up to ", mx, " of 7 constraints, 4 penalty settings, 4 multiplier settings, 4 points"), [mx](mc::Run& r) { grid<X, X>(r, 3, 2, mx); }});
  spec.scenarios.push_back({"grid-fixed-1x2", "every list of up to 2 of 7 constraints, 4 penalty settings, 4 multiplier settings, 4 points", [](mc::Run& r) { grid<1, 2>(r, 1, 2, 2); }});
  int d = mc::tier(5, 5);
  int d2 = mc::tier(5, 6);
  spec.scenarios.push_back({"history-fixed", mc::str("every history of ", d2, " of 14 operations on a cost with 3 constraints"), [d2](mc::Run& r) { history<2, 1>(r, 2, 1, {0, 3, 1}, d2); }});
  spec.scenarios.push_back({"history-dynamic", mc::str("every history of ", d, " of 14 operations on a cost with 4 constraints"), [d](mc::Run& r) { history<X, X>(r, 2, 2, {2, 1, 0, 4}, d); }});
  spec.scenarios.push_back({"whole-problem-fixed", "every placement of up to 2 constraints per step on a 2 step problem", [](mc::Run& r) { whole<2, 1>(r); }});
  spec.scenarios.push_back({"whole-problem-dynamic", "every placement of up to 2 constraints per step on a 2 step problem", [](mc::Run& r) { whole<X, X>(r); }});
  return mc::main_driver(argc, argv, spec);
}
