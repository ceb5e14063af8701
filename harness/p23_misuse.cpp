// check: P23 variant=plain sources=all
// Every call of the enumerated families, in every state reached by the operations before it, against the documented
// preconditions: calls that satisfy them go through, the others are stopped with a diagnostic.
#include <array>
#include <cmath>
#include <limits>
#include <memory>
#include <vector>
#include "al_fixture.hpp"
#include "altro/common/log_entry.hpp"
#include "altro/common/solver_logger.hpp"
#include "altro/common/threadpool.hpp"
#include "altro/ilqr/cost_expansion.hpp"
#include "altro/ilqr/dynamics_expansion.hpp"
#include "altro/ilqr/ilqr.hpp"
#include "mc.hpp"
using namespace altro;
namespace cons = altro::constraints;
using problem::Problem;

namespace {
constexpr int X = Eigen::Dynamic;
const double kNaN = std::numeric_limits<double>::quiet_NaN(), kInf = std::numeric_limits<double>::infinity();

// One call. Returns true when it went through (as it should); a call that must be stopped is made in a process of its own.
bool call(mc::Run& r, bool ok, const std::string& what, const std::function<void()>& f, bool eigen = false) {
  if (r.recording()) r.note(what + (ok ? "" : "  (not allowed)"));
  r.transition();
  if (ok) {
    try { f(); } catch (const std::exception& e) { r.fail("rejected", what + " is allowed but was refused: " + e.what()); }
    r.cover("calls that go through");
    return true;
  }
  mc::ChildResult c = mc::in_child(f);
  bool diag = !c.timeout && ((c.exited && c.code == 78) || (!c.exited && c.code == 6 && (c.err.find("Assert failed:") != std::string::npos || (eigen && c.err.find("Assertion `") != std::string::npos))));   // Eigen stops it as well
  bool garbage = c.err.find("Sanitizer") != std::string::npos || c.err.find("terminate") != std::string::npos;
  r.checkf(!(c.exited && c.code == 0), "not-stopped", [&] { return what + " breaks a precondition but goes on"; });
  r.checkf(diag && !garbage, "no-diagnostic", [&] { return mc::str(what, " breaks a precondition and ends without a diagnostic (", c.timeout ? "hang" : c.exited ? "exit code " : "signal ", c.code, "): ", c.err.substr(0, 400)); });
  r.cover("calls that are stopped");
  return false;
}

template <class T>
struct Any : cons::Constraint<T> {
  explicit Any(int p) : p(p) {}
  int OutputDimension() const override { return p; }
  void Evaluate(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<VectorXd> c) override { c.setConstant(x(0) - 5.0 + u(0)); }
  void Jacobian(const VectorXdRef& x, const VectorXdRef&, Eigen::Ref<MatrixXd> J) override { J.setZero(); J.col(0).setOnes(); J.col(x.size()).setOnes(); }
  int p;
};

// ---- description of a problem ------------------------------------------------------------------------------------
constexpr int kn = 2, km = 1;
struct Want {   // what a description holds
  int N; std::vector<int> cost, dyn, dyn_n, cons; int x0 = 0;
  explicit Want(int N) : N(N), cost(N + 1), dyn(N), dyn_n(N), cons(N + 1) {}
  bool full() const { for (int c : cost) if (!c) return false; for (int d : dyn) if (!d) return false; return x0 > 0 && x0 == dyn_n[0]; }
};
std::shared_ptr<problem::CostFunction> cost() { return std::make_shared<simple::Cost>(kn, km, 1, 0.5, 0.2); }
std::shared_ptr<problem::DiscreteDynamics> dyn() { return std::make_shared<simple::Dyn>(kn, km); }

template <int n, int m> using iS = ilqr::iLQR<n, m>;
template <int n, int m> using aS = augmented_lagrangian::AugmentedLagrangianiLQR<n, m>;

void descriptions(mc::Run& r, int depth) {
  mc::CaptureStdout cap;
  int N0 = r.pick({2, 1, 3, 0, -1, -2}, "segments");
  if (N0 < 1) { call(r, false, mc::str("Problem(", N0, ")"), [&] { Problem p(N0); }); r.state(N0 + 100); r.outcome(0); return; }
  int N = N0;
  Problem p(N);
  Want w(N);
  int preset = r.choose(4, "preset");   // 0 empty, 1 fully defined, 2 one cost missing, 3 one model missing
  if (preset) {
    for (int k = 0; k <= N; ++k) if (!(preset == 2 && k == N / 2)) { p.SetCostFunction(cost(), k); w.cost[k] = 1; }
    for (int k = 0; k < N; ++k) if (!(preset == 3 && k == N - 1)) { p.SetDynamics(dyn(), k); w.dyn[k] = 1; w.dyn_n[k] = kn; }
    p.SetInitialState(VectorXd::Ones(kn)); w.x0 = kn;
  }
  for (int i = 0; i < depth; ++i) {
    int op = r.choose(15, "operation");
    auto K = [&](const char* l = "k") { return r.choose(N + 5, l) - 2; };
    auto in = [](int k, int hi) { return 0 <= k && k <= hi; };
    bool go = true;
    switch (op) {
      case 0: { int k = K(); go = call(r, in(k, N), mc::str("SetCostFunction(c, ", k, ")"), [&] { p.SetCostFunction(cost(), k); }); if (go) w.cost[k] = 1; break; }
      case 1: { int k = K(); go = call(r, in(k, N - 1), mc::str("SetDynamics(f, ", k, ")"), [&] { p.SetDynamics(dyn(), k); }); if (go) { w.dyn[k] = 1; w.dyn_n[k] = kn; } break; }
      case 2: { int k = K(); go = call(r, in(k, N), mc::str("SetConstraint(equality, ", k, ")"), [&] { p.SetConstraint(std::make_shared<Any<cons::Equality>>(1), k); }); if (go) w.cons[k] += 1; break; }
      case 3: { int k = K(); go = call(r, in(k, N), mc::str("SetConstraint(inequality, ", k, ")"), [&] { p.SetConstraint(std::make_shared<Any<cons::Inequality>>(2), k); }); if (go) w.cons[k] += 2; break; }
      case 4: { int k = K(), c = 0; go = call(r, in(k, N), mc::str("NumConstraints(", k, ")"), [&] { c = p.NumConstraints(k); }); if (go) r.check(c == w.cons[k], "value", mc::str("NumConstraints(", k, ") is ", c)); break; }
      case 5: { int k = K(); std::shared_ptr<problem::CostFunction> c; go = call(r, in(k, N), mc::str("GetCostFunction(", k, ")"), [&] { c = p.GetCostFunction(k); }); if (go) r.check((c != nullptr) == (w.cost[k] != 0), "value", mc::str("GetCostFunction(", k, ")")); break; }
      case 6: { int k = K(); std::shared_ptr<problem::DiscreteDynamics> d; bool def = in(k, N) && w.dyn[k < N ? k : N - 1];
                go = call(r, def, mc::str("GetDynamics(", k, ")"), [&] { d = p.GetDynamics(k); }); if (go) r.check(d != nullptr, "value", mc::str("GetDynamics(", k, ")")); break; }
      case 7: { int k = K(); go = call(r, false, mc::str("SetDynamics(null, ", k, ")"), [&] { p.SetDynamics(nullptr, k); }); break; }
      case 8: { int k = K(); if (r.flag("equality")) go = call(r, false, mc::str("SetConstraint(null equality, ", k, ")"), [&] { p.SetConstraint(std::shared_ptr<cons::Constraint<cons::Equality>>(), k); });
                else go = call(r, false, mc::str("SetConstraint(null inequality, ", k, ")"), [&] { p.SetConstraint(std::shared_ptr<cons::Constraint<cons::Inequality>>(), k); }); break; }
      case 9: { int k = K(), e = -r.choose(2, "outputs"); if (r.flag("equality")) go = call(r, false, mc::str("SetConstraint(equality of length ", e, ", ", k, ")"), [&] { p.SetConstraint(std::make_shared<Any<cons::Equality>>(e), k); });
                else go = call(r, false, mc::str("SetConstraint(inequality of length ", e, ", ", k, ")"), [&] { p.SetConstraint(std::make_shared<Any<cons::Inequality>>(e), k); }); break; }
      case 10: { int len = r.choose(N + 3, "length"), s = K("start"); std::vector<std::shared_ptr<problem::CostFunction>> v; for (int j = 0; j < len; ++j) v.push_back(cost());
                 bool ok = len == 0 || (s >= 0 && s + len - 1 <= N);
                 go = call(r, ok, mc::str("SetCostFunction(", len, " functions, ", s, ")"), [&] { p.SetCostFunction(v, s); }); if (go) for (int j = 0; j < len; ++j) w.cost[s + j] = 1; break; }
      case 11: { int len = r.choose(N + 3, "length"), s = K("start"); std::vector<std::shared_ptr<problem::DiscreteDynamics>> v; for (int j = 0; j < len; ++j) v.push_back(dyn());
                 bool ok = len == 0 || (s >= 0 && s + len - 1 < N);
                 go = call(r, ok, mc::str("SetDynamics(", len, " models, ", s, ")"), [&] { p.SetDynamics(v, s); }); if (go) for (int j = 0; j < len; ++j) { w.dyn[s + j] = 1; w.dyn_n[s + j] = kn; } break; }
      case 12: { int n = r.choose(4, "size of initial state"); p.SetInitialState(VectorXd::Ones(n)); w.x0 = n; r.transition(); if (r.recording()) r.note(mc::str("SetInitialState of size ", n)); break; }
      case 13: { bool d = p.IsFullyDefined(r.flag("verbose")); r.check(d == w.full(), "defined", mc::str("IsFullyDefined() is ", d)); r.transition(); break; }
      case 14: {
        int kind = r.choose(8, "solver");
        auto make = [&](auto* s) { using S = std::remove_pointer_t<decltype(s)>; return [&] { S q(p); }; };
        switch (kind) {
          case 0: go = call(r, w.full(), "iLQR<X,X>(problem)", make(static_cast<iS<X, X>*>(nullptr))); break;
          case 1: go = call(r, w.full(), "iLQR<2,1>(problem)", make(static_cast<iS<2, 1>*>(nullptr))); break;
          case 2: go = call(r, false, "iLQR<3,1>(problem)", make(static_cast<iS<3, 1>*>(nullptr))); break;
          case 3: go = call(r, false, "iLQR<2,2>(problem)", make(static_cast<iS<2, 2>*>(nullptr))); break;
          case 4: go = call(r, w.full(), "AL<X,X>(problem)", make(static_cast<aS<X, X>*>(nullptr))); break;
          case 5: go = call(r, w.full(), "AL<2,1>(problem)", make(static_cast<aS<2, 1>*>(nullptr))); break;
          case 6: go = call(r, false, "AL<1,1>(problem)", make(static_cast<aS<1, 1>*>(nullptr)), true); break;
          case 7: go = call(r, false, "AL<X,2>(problem)", make(static_cast<aS<X, 2>*>(nullptr)), true); break;
        }
        break;
      }
    }
    uint64_t h = mc::mix(mc::mix(N, preset), w.x0); for (int c : w.cost) h = mc::mix(h, c); for (int c : w.dyn) h = mc::mix(h, c); for (int c : w.cons) h = mc::mix(h, c);
    r.state(h); r.outcome(mc::mix(op, go));
    if (!go) return;
  }
}

// ---- the solvers' life -------------------------------------------------------------------------------------------
// problems: 0 fits, 1 not fully defined, 2 one segment more, 3 one segment less, 4 another state dimension
std::shared_ptr<Problem> make_problem(int which, int N) {
  int seg = which == 2 ? N + 1 : which == 3 ? N - 1 : N, n = which == 4 ? kn + 1 : kn;
  if (which == 1) { auto p = std::make_shared<Problem>(N); p->SetInitialState(VectorXd::Ones(kn)); return p; }
  auto p = simple::Prob(n, km, seg).prob;
  p->SetConstraint(std::make_shared<Any<cons::Equality>>(1), seg);
  p->SetConstraint(std::make_shared<Any<cons::Inequality>>(2), 0);
  return p;
}
const char* pname(int w) { static const char* s[] = {"problem", "undefined problem", "longer problem", "shorter problem", "problem with another state dimension"}; return s[w]; }
template <int n, int m> std::shared_ptr<Trajectory<n, m>> make_traj(int len, int dim) {
  if (n != X && dim != n) dim = n;
  auto Z = std::make_shared<Trajectory<n, m>>(dim, km, len); Z->SetUniformStep(0.1F); return Z;
}
void small(SolverOptions& o) { o.max_iterations_inner = 3; o.max_iterations_outer = 2; o.max_iterations_total = 5; }

template <int n, int m>
void ilqr_life(mc::Run& r, int depth, int N, int nth) {
  mc::CaptureStdout cap;
  iS<n, m> s(N);
  small(s.GetOptions());
  s.GetOptions().nthreads = nth;
  std::vector<std::shared_ptr<Problem>> keep;
  std::vector<int> kp; int x0 = 0;             // dimension of every knot point function held, of the initial state
  int tl = -1, td = 0;                          // trajectory held: length (-1 none) and state dimension
  std::shared_ptr<Trajectory<n, m>> Z;
  auto dims = [&](int w) { return w == 4 ? kn + 1 : kn; };
  auto fits = [&](int w) { return w != 1 && (n == X || dims(w) == n); };
  auto same = [&] { if (static_cast<int>(kp.size()) != N + 1) return false; for (int d : kp) if (d != kp[0]) return false; return true; };
  // a start: nothing, initialised, initialised with a trajectory
  int start = r.choose(3, "start");
  if (start) { keep.push_back(make_problem(0, N)); s.InitializeFromProblem(*keep.back()); kp.assign(N + 1, kn); x0 = kn; }
  if (start == 2) { Z = make_traj<n, m>(N, kn); s.SetTrajectory(Z); tl = N; td = kn; }
  for (int i = 0; i < depth; ++i) {
    int op = r.choose(11, "operation");
    bool go = true;
    bool init = same();
    bool tok = tl == N && init && td == kp[0];
    switch (op) {
      case 0: { int w = r.choose(5, "problem"); auto p = make_problem(w, N); keep.push_back(p);
                bool ok = fits(w) && p->NumSegments() == N && kp.empty();
                go = call(r, ok, mc::str("InitializeFromProblem(", pname(w), ")"), [&] { s.InitializeFromProblem(*p); }); if (go) { kp.assign(N + 1, dims(w)); x0 = dims(w); } break; }
      case 1: { int w = r.pick({0, 1, 4}, "problem"); int a = r.choose(N + 4, "start") - 1, b = r.choose(N + 4, "stop") - 1; auto p = make_problem(w, N); keep.push_back(p);
                if (w == 4 && n == X && !kp.empty() && kp[0] != kn + 1) return;   // knot points of different sizes: not promised either way
                if (w == 0 && n == X && !kp.empty() && kp[0] != kn) return;
                if (b > 0 && b <= a && a <= N) return;                 // empty interval: not promised either way
                bool ok = 0 <= a && a <= N && 0 < b && b <= N + 1 && fits(w) && static_cast<int>(kp.size()) + (b - a) <= N + 1;
                go = call(r, ok, mc::str("CopyFromProblem(", pname(w), ", ", a, ", ", b, ")"), [&] { s.CopyFromProblem(*p, a, b); }); if (go) { kp.resize(kp.size() + b - a, dims(w)); x0 = dims(w); } break; }
      case 2: { go = call(r, init, "MakeTrajectory(0.1)", [&] { Z = s.MakeTrajectory(0.1F); }); if (go) { tl = N; td = kp[0]; r.check(Z->NumSegments() == N && Z->StateDimension(0) == td, "value", "MakeTrajectory: wrong size"); } break; }
      case 3: go = call(r, false, "SetTrajectory(null)", [&] { s.SetTrajectory(nullptr); }); break;
      case 4: { int l = r.choose(3, "length") + N - 1, d = n == X ? kn + r.choose(2, "dimension") : n; if (l < 1) return; Z = make_traj<n, m>(l, d);
                // the length and dimensions are checked when the trajectory is used
                go = call(r, true, mc::str("SetTrajectory(", l, " segments, ", d, " states)"), [&] { s.SetTrajectory(Z); }); tl = l; td = d; break; }
      case 5: go = call(r, tok && x0 == kp[0], "Solve()", [&] { s.Solve(); }); break;
      case 6: { double J = 0; go = call(r, tok, "Cost()", [&] { J = s.Cost(); }); break; }
      case 7: { int l = r.choose(3, "length") + N - 1, d = n == X ? kn + r.choose(2, "dimension") : n; if (l < 1) return; auto Q = make_traj<n, m>(l, d); go = call(r, init && l == N && d == kp[0], mc::str("Cost(", l, " segments, ", d, " states)"), [&] { s.Cost(*Q); }); break; }
      case 8: go = call(r, tok, "UpdateExpansions()", [&] { s.UpdateExpansions(); }); break;
      case 9: { int k = r.choose(N + 4, "k") - 2; int d = 0; go = call(r, 0 <= k && k < static_cast<int>(kp.size()), mc::str("GetKnotPointFunction(", k, ")"), [&] { d = s.GetKnotPointFunction(k).StateDimension(); }); if (go) r.check(d == kp[k], "value", "GetKnotPointFunction"); break; }
      case 10: { if (keep.empty() || kp.empty()) return; int d = 1 + r.choose(3, "size"); keep.back()->SetInitialState(VectorXd::Ones(d)); r.transition(); x0 = d; if (r.recording()) r.note(mc::str("initial state of size ", d)); break; }
    }
    uint64_t h = mc::mix(mc::mix(N, nth), mc::mix(x0, tl)); h = mc::mix(h, td); for (int d : kp) h = mc::mix(h, d);
    r.state(h); r.outcome(mc::mix(op, go));
    if (!go) return;
  }
}

template <int n, int m>
void al_life(mc::Run& r, int depth, int N, int nth) {
  mc::CaptureStdout cap;
  aS<n, m> s(N);
  small(s.GetOptions());
  s.GetOptions().nthreads = nth;
  std::vector<std::shared_ptr<Problem>> keep;
  int dim = 0, x0 = 0, tl = -1, td = 0;
  bool zero = false;
  auto dims = [&](int w) { return w == 4 ? kn + 1 : kn; };
  auto fits = [&](int w) { return w != 1 && (n == X || dims(w) == n); };
  int start = r.choose(3, "start");
  if (start) { keep.push_back(make_problem(0, N)); s.InitializeFromProblem(*keep.back()); dim = x0 = kn; }
  if (start == 2) { s.SetTrajectory(make_traj<n, m>(N, kn)); tl = N; td = kn; }
  const std::vector<double> rho = {10.0, 1e-300, 1e8, 0.0, -1e-300, -1.0, kNaN}, phi = {10.0, 1.0001, 0.9999, 0.0, -10.0, kNaN};
  for (int i = 0; i < depth; ++i) {
    int op = r.choose(16, "operation");
    bool go = true, init = dim > 0, tok = init && tl == N && td == dim;
    switch (op) {
      case 0: { int w = r.choose(5, "problem"); auto p = make_problem(w, N); keep.push_back(p);
                go = call(r, !init && fits(w) && p->NumSegments() == N, mc::str("InitializeFromProblem(", pname(w), ")"), [&] { s.InitializeFromProblem(*p); }, true); if (go) dim = x0 = dims(w); break; }
      case 1: { int l = r.choose(4, "length") + N - 2; if (l == N - 2) { go = call(r, false, "SetTrajectory(null)", [&] { s.SetTrajectory(nullptr); }); break; }
                int d = n == X ? kn + r.choose(2, "dimension") : n; if (l < 1) return;
                go = call(r, true, mc::str("SetTrajectory(", l, " segments, ", d, " states)"), [&] { s.SetTrajectory(make_traj<n, m>(l, d)); }); tl = l; td = d; break; }
      case 2: { double v = r.pickv(rho, "penalty"); go = call(r, init && v > 0, mc::str("SetPenalty(", v, ")"), [&] { s.SetPenalty(v); }); if (go) r.check(s.GetMaxPenalty() == v, "value", "GetMaxPenalty"); zero = false; break; }
      case 3: { double v = r.pickv(phi, "scaling"); go = call(r, init && v > 1, mc::str("SetPenaltyScaling(", v, ")"), [&] { s.SetPenaltyScaling(v); }); break; }
      case 4: { int k = r.choose(N + 4, "k") - 2, c = 0; go = call(r, init && 0 <= k && k <= N, mc::str("NumConstraints(", k, ")"), [&] { c = s.NumConstraints(k); }); if (go) r.check(c == (k == 0 ? 2 : 0) + (k == N ? 1 : 0), "value", mc::str("NumConstraints(", k, ")")); break; }
      case 5: { int c = 0; go = call(r, init, "NumConstraints()", [&] { c = s.NumConstraints(); }); if (go) r.check(c == 3, "value", "NumConstraints()"); break; }
      case 6: { int k = r.choose(N + 4, "k") - 2; go = call(r, init && 0 <= k && k <= N, mc::str("GetALCost(", k, ")"), [&] { if (!s.GetALCost(k)) throw mc::Violation{"null", "null"}; }); break; }
      case 7: go = call(r, tok && x0 == dim, "Solve()", [&] { s.Solve(); }); break;
      case 8: go = call(r, tok, "MaxViolation()", [&] { s.MaxViolation(); }); break;
      case 9: { int l = r.choose(3, "length") + N - 1; if (l < 1) return; auto Q = make_traj<n, m>(l, init ? dim : kn); go = call(r, init && l == N, mc::str("MaxViolation(", l, " segments)"), [&] { s.MaxViolation(*Q); }); break; }
      case 10: go = call(r, init, "GetMaxViolation()", [&] { s.GetMaxViolation(); }); break;
      case 11: go = call(r, init, "GetMaxPenalty()", [&] { s.GetMaxPenalty(); }); break;
      case 12: go = call(r, init, "UpdateDuals()", [&] { s.UpdateDuals(); }); break;
      case 13: go = call(r, init, "UpdatePenalties()", [&] { s.UpdatePenalties(); }); break;
      case 14: { bool so = r.flag("sorted"); size_t c = 0; go = call(r, init, mc::str("GetConstraintInfo(", so, ")"), [&] { c = s.GetConstraintInfo(so).size(); }); if (go) r.check(c == 2, "value", "GetConstraintInfo"); break; }
      case 15: { if (keep.empty() || !init) return; int d = 1 + r.choose(3, "size"); keep.back()->SetInitialState(VectorXd::Ones(d)); r.transition(); x0 = d; if (r.recording()) r.note(mc::str("initial state of size ", d)); break; }
    }
    uint64_t h = mc::mix(mc::mix(N, nth), mc::mix(x0, tl)); h = mc::mix(mc::mix(h, td), dim);
    r.state(h); r.outcome(mc::mix(op, go));
    if (!go) return;
  }
}

// all divisions of the knot points up to a length, with entries from outside the range too
void divisions(mc::Run& r, int maxlen) {
  int N = r.pick({2, 3}, "segments");
  iS<2, 1> s(N);
  auto p = make_problem(0, N);
  s.GetOptions().nthreads = r.pick({1, 2}, "threads");
  int state = r.choose(3, "state");
  if (state) { s.InitializeFromProblem(*p); s.SetTrajectory(make_traj<2, 1>(N, kn)); small(s.GetOptions()); }
  if (state == 2) s.Solve();
  int len = r.choose(maxlen + 1, "length");
  std::vector<int> v;
  for (int i = 0; i < len; ++i) v.push_back(r.choose(N + 4, "entry") - 1);
  bool ok = len >= 2 && v[0] == 0 && v.back() == N + 1;
  for (int i = 1; i < len; ++i) ok = ok && v[i] > v[i - 1];
  std::string t; for (int x : v) t += mc::str(" ", x);
  if (call(r, ok, "SetTaskAssignment(" + t + " )", [&] { s.SetTaskAssignment(v); })) {
    r.check(s.GetTaskAssignment() == v && s.NumTasks() == len - 1, "value", "GetTaskAssignment() after" + t);
    if (state) call(r, true, "Solve()", [&] { s.Solve(); });
  }
  r.state(mc::hashs(N * 10 + state, t)); r.outcome(ok);
}

// ---- one object at a time ----------------------------------------------------------------------------------------
void alcosts(mc::Run& r, int depth) {
  using C = augmented_lagrangian::ALCost<2, 1>;
  C c(2, 1);
  int ne = 0, ni = 0; bool has = false;
  const std::vector<double> rho = {10.0, 1e-300, 0.0, -1.0, kNaN}, phi = {10.0, 1.0001, 0.9999, 0.0, kNaN};
  auto x = VectorXd::Ones(2).eval(), u = VectorXd::Ones(1).eval();
  if (r.flag("cost function set")) { c.SetCostFunction(cost()); has = true; }
  for (int i = 0; i < depth; ++i) {
    int op = r.choose(8, "operation");
    bool go = true;
    switch (op) {
      case 0: { bool null = r.flag("null"); go = call(r, !null, mc::str("SetCostFunction(", null ? "null" : "c", ")"), [&] { c.SetCostFunction(null ? nullptr : cost()); }); if (go) has = true; break; }
      case 1: { int k = r.choose(3, "equalities"); std::vector<cons::ConstraintPtr<cons::Equality>> v; for (int j = 0; j < k; ++j) v.push_back(std::make_shared<Any<cons::Equality>>(1 + j)); call(r, true, mc::str("SetEqualityConstraints(", k, ")"), [&] { c.SetEqualityConstraints(v.begin(), v.end()); }); ne = k; break; }
      case 2: { int k = r.choose(3, "inequalities"); std::vector<cons::ConstraintPtr<cons::Inequality>> v; for (int j = 0; j < k; ++j) v.push_back(std::make_shared<Any<cons::Inequality>>(1 + j)); call(r, true, mc::str("SetInequalityConstraints(", k, ")"), [&] { c.SetInequalityConstraints(v.begin(), v.end()); }); ni = k; break; }
      case 3: case 4: { bool eq = r.flag("equality"), pen = op == 3; int j = r.choose(5, "index") - 1; double v = r.pickv(pen ? rho : phi, "value");
                bool ok = 0 <= j && j < (eq ? ne : ni) && (pen ? v > 0 : v > 1);
                go = call(r, ok, mc::str(pen ? "SetPenalty<" : "SetPenaltyScaling<", eq ? "Equality>(" : "Inequality>(", v, ", ", j, ")"), [&] {
                  if (eq) { pen ? c.SetPenalty<cons::Equality>(v, j) : c.SetPenaltyScaling<cons::Equality>(v, j); } else { pen ? c.SetPenalty<cons::Inequality>(v, j) : c.SetPenaltyScaling<cons::Inequality>(v, j); } });
                if (go) {
                  double got = eq ? (pen ? c.GetEqualityConstraints()[j]->GetPenalty()(0) : c.GetEqualityConstraints()[j]->GetPenaltyScaling()) : (pen ? c.GetInequalityConstraints()[j]->GetPenalty()(0) : c.GetInequalityConstraints()[j]->GetPenaltyScaling());
                  r.check(got == v, "value", mc::str("got ", got));
                }
                break; }
      case 5: { double J = 0; go = call(r, has, "Evaluate", [&] { J = c.Evaluate(x, u); }); if (go) r.check(std::isfinite(J), "value", mc::str("cost ", J)); break; }
      case 6: { VectorXd dx = VectorXd::Zero(2), du = VectorXd::Zero(1); go = call(r, has, "Gradient", [&] { c.Gradient(x, u, dx, du); }); break; }
      case 7: { MatrixXd a = MatrixXd::Zero(2, 2), b = MatrixXd::Zero(2, 1), d = MatrixXd::Zero(1, 1); go = call(r, has, "Hessian", [&] { c.Hessian(x, u, a, b, d); }); break; }
    }
    r.state(mc::mix(ne * 3 + ni, has)); r.outcome(mc::mix(op, go));
    if (!go) return;
  }
}

template <class C> void cone(mc::Run& r, const std::string& name, bool square_jac) {
  int f = r.choose(3, "function"), a = r.choose(4, "size of x"), b = r.choose(4, "second size");
  VectorXd x = VectorXd::Constant(a, 0.5), y = VectorXd::Zero(b);
  if (f == 0) { call(r, a == b, mc::str(name, "::Projection sizes ", a, " ", b), [&] { C::Projection(x, y); }); r.state(mc::mix(a, b)); r.outcome(a == b); return; }
  int c = r.choose(4, "third size");
  if (f == 1) {   // Jacobian: b x c
    MatrixXd J = MatrixXd::Zero(b, c);
    if (b == c && b != a) return;                       // square but of another size: the documented check does not say
    if (b != c && !square_jac) return;
    call(r, b == c, mc::str(name, "::Jacobian of ", a, " into ", b, "x", c), [&] { C::Jacobian(x, J); });
  } else {
    int d = r.choose(4, "fourth size");
    MatrixXd H = MatrixXd::Zero(c, d);
    if (c == d && c != a) return;
    call(r, a == b && c == d, mc::str(name, "::Hessian of ", a, " ", b, " into ", c, "x", d), [&] { C::Hessian(x, y, H); });
  }
  r.state(mc::mix(f, mc::mix(a, mc::mix(b, c)))); r.outcome(a == b);
}
struct Scalar : ScalarFunction {
  using ScalarFunction::Evaluate; using ScalarFunction::Hessian; using ScalarFunction::Jacobian;
  int StateDimension() const override { return 2; }
  int ControlDimension() const override { return 1; }
  double Evaluate(const VectorXdRef&, const VectorXdRef&) override { return 3; }
  void Gradient(const VectorXdRef&, const VectorXdRef&, Eigen::Ref<VectorXd> g) override { g.setConstant(2); }
  void Hessian(const VectorXdRef&, const VectorXdRef&, Eigen::Ref<MatrixXd> H) override { H.setConstant(1); }
};
void functions(mc::Run& r) {
  int which = r.choose(4, "function");
  if (which == 0) { cone<cons::ZeroCone>(r, "ZeroCone", false); return; }
  if (which == 1) { cone<cons::IdentityCone>(r, "IdentityCone", true); return; }
  if (which == 2) { cone<cons::NegativeOrthant>(r, "NegativeOrthant", true); return; }
  Scalar f; FunctionBase& g = f;
  VectorXd x = VectorXd::Ones(2), u = VectorXd::Ones(1);
  int what = r.choose(3, "scalar"), a = r.choose(4, "size");
  if (what == 0) { VectorXd o = VectorXd::Zero(a); if (call(r, a == 1, mc::str("scalar Evaluate into ", a), [&] { g.Evaluate(x, u, o); })) r.check(o(0) == 3, "value", "Evaluate"); }
  if (what == 1) { MatrixXd J = MatrixXd::Zero(a, 3); if (call(r, a == 1, mc::str("scalar Jacobian into ", a, " rows"), [&] { g.Jacobian(x, u, J); })) r.check(J(0, 2) == 2, "value", "Jacobian"); }
  if (what == 2) { VectorXd b = VectorXd::Ones(a); if (a > 0) b(a - 1) = r.pick({1.0, 1.01, 0.0, -1.0, 2.0, kNaN}, "last entry of b"); MatrixXd H = MatrixXd::Zero(3, 3);
    if (call(r, a == 1 && b(0) == 1, mc::str("scalar Hessian with b of size ", a, a > 0 ? mc::str(" ending in ", b(a - 1)) : std::string()), [&] { g.Hessian(x, u, b, H); })) r.check(H(1, 2) == 1, "value", "Hessian"); }
  r.state(mc::mix(what, a)); r.outcome(a);
}

void sizes(mc::Run& r) {
  int what = r.choose(9, "object"), a = r.choose(4, "states"), b = r.choose(4, "controls");
  if (what == 0 && a + b > 0) { call(r, a == 2 && b == 1, mc::str("KnotPoint<2,1>(", a, ",", b, ")"), [&] { KnotPoint<2, 1> z(a, b); }); }
  if (what == 1 && a > 0) { call(r, b == 1, mc::str("KnotPoint<X,1>(", a, ",", b, ")"), [&] { KnotPoint<X, 1> z(a, b); }); }
  if (what == 2) { int n = a - 1, m = b - 1; call(r, n > 0 && m > 0, mc::str("IdentityDynamics(", n, ",", m, ")"), [&] { problem::IdentityDynamics d(n, m); }); }
  if (what == 3 && a + b > 0) { call(r, a == 2 && b == 1, mc::str("CostExpansion<2,1>(", a, ",", b, ")"), [&] { ilqr::CostExpansion<2, 1> z(a, b); }); }
  if (what == 4 && a + b > 0) { call(r, a == 2 && b == 1, mc::str("DynamicsExpansion<2,1>(", a, ",", b, ")"), [&] { ilqr::DynamicsExpansion<2, 1> z(a, b); }); }
  if (what == 5 && a > 0 && b > 0) { auto d = std::make_shared<simple::Dyn>(a, b); call(r, a == 2 && b == 1, mc::str("KnotPointFunctions<2,1>(model ", a, ",", b, ")"), [&] { ilqr::KnotPointFunctions<2, 1> k(d, std::make_shared<simple::Cost>(a, b, 1, 1, 1)); }); }
  if (what == 6) { int t = b; bool nm = a == 0, nc = t == 0; if (a > 1 || t > 1) return;
    call(r, !nm && !nc, mc::str("KnotPointFunctions(", nm ? "null" : "model", ", ", nc ? "null" : "cost", ")"), [&] { ilqr::KnotPointFunctions<2, 1> k(nm ? nullptr : dyn(), nc ? nullptr : cost()); }); }
  if (what == 7) { if (a > 1 || b > 0) return; bool nc = a == 0; call(r, !nc, mc::str("KnotPointFunctions(2, 1, ", nc ? "null" : "cost", ")"), [&] { ilqr::KnotPointFunctions<2, 1> k(2, 1, nc ? nullptr : cost()); }); }
  if (what == 8) {   // evaluation of the expansion at a point of another size
    if (a == 0 || b == 0) return;
    ilqr::CostExpansion<X, X> e(2, 1); VectorXd x = VectorXd::Ones(a), u = VectorXd::Ones(b); auto c = cost();
    call(r, a == 2 && b == 1, mc::str("CostExpansion(2,1)::CalcExpansion at a point of size ", a, ",", b), [&] { e.CalcExpansion(c, x, u); });
  }
  r.state(mc::mix(what, a * 4 + b)); r.outcome(mc::mix(what, a == 2 && b == 1));
}

void trajectories(mc::Run& r) {
  int a = r.choose(5, "states"), b = r.choose(5, "controls"), c = r.choose(5, "times");
  std::vector<VectorNd<2>> Xs(a, VectorNd<2>::Ones()); std::vector<VectorNd<1>> Us(b, VectorNd<1>::Ones()); std::vector<float> ts;
  for (int i = 0; i < c; ++i) ts.push_back(0.1F * i);
  bool ok = a == b + 1 && c == a && b > 0;
  if (call(r, ok, mc::str("Trajectory(", a, " states, ", b, " controls, ", c, " times)"), [&] { Trajectory<2, 1> Z(Xs, Us, ts); })) {
    Trajectory<2, 1> Z(Xs, Us, ts); r.check(Z.NumSegments() == b, "value", "NumSegments");
  }
  r.state(a * 25 + b * 5 + c); r.outcome(ok);
}

void tables(mc::Run& r, int depth) {
  mc::CaptureStdout cap;
  SolverLogger lg(LogLevel::kInner);
  LogEntry e("bounded", "{:>10.3g}");
  double lo = -kInf, hi = kInf;
  std::vector<std::string> titles;
  bool fresh = true;
  for (int i = 0; i < depth; ++i) {
    int op = r.choose(6, "operation");
    bool go = true;
    switch (op) {
      case 0: case 1: { double v = r.pick({1.0, 2.0, 0.5, -1.0, kInf, -kInf, kNaN}, "bound");
        // before the other bound has been set, every value is allowed that is on the right side of the default
        if (op == 0) { go = call(r, v <= hi, mc::str("SetLowerBound(", v, ") below ", hi), [&] { e.SetLowerBound(v); }); if (go) lo = v; }
        else { go = call(r, v >= lo, mc::str("SetUpperBound(", v, ") above ", lo), [&] { e.SetUpperBound(v); }); if (go) hi = v; }
        break; }
      case 2: { int col = r.choose(2 * static_cast<int>(titles.size()) + 5, "column") - static_cast<int>(titles.size()) - 2; std::string t = r.flag("new title") || titles.empty() ? mc::str("c", titles.size()) : titles.back();
        int n = titles.size(); bool ok = col <= n && col >= -n - 1; for (auto& s : titles) ok = ok && s != t;
        go = call(r, ok, mc::str("AddEntry(", col, ", ", t, ") to ", n, " columns"), [&] { lg.AddEntry(col, t, "{:>4}"); }); if (go) { titles.push_back(t); r.check(lg.NumEntries() == n + 1, "value", "NumEntries"); } break; }
      case 3: { int fq = r.pick({1, 2, 2147483647, 0, -1, -2147483647 - 1}, "frequency"); go = call(r, fq > 0, mc::str("SetFrequency(", fq, ")"), [&] { lg.SetFrequency(fq); }); break; }
      case 4: { bool k = r.flag("known") && !titles.empty(); std::string t = k ? titles[0] : "nothing"; go = call(r, k, "GetEntry(" + t + ")", [&] { lg.GetEntry(t); }); break; }
      case 5: { call(r, true, "Print()", [&] { lg.Print(); }); break; }
    }
    (void)fresh;
    r.state(mc::hashd(mc::hashd(titles.size(), lo), hi)); r.outcome(mc::mix(op, go));
    if (!go) return;
  }
}

void pools(mc::Run& r, int depth) {
  auto p = std::make_unique<ThreadPool>(), q = std::make_unique<ThreadPool>();
  bool run[2] = {false, false}, gone[2] = {false, false};   // a pool moved from can only be assigned to
  ThreadPool* P[2] = {p.get(), q.get()};
  std::aligned_storage_t<sizeof(ThreadPool), alignof(ThreadPool)> place;
  for (int i = 0; i < depth; ++i) {
    int op = r.choose(5, "operation"), w = r.choose(2, "pool");
    ThreadPool& a = *P[w];
    bool go = true;
    if (op == 3 ? gone[1 - w] : gone[w]) return;
    switch (op) {
      // a call that must be stopped is made on pools in the same state in a process of its own (threads do not survive a fork)
      case 0: { int n = r.pick({1, 2}, "threads"); go = call(r, !run[w], mc::str("LaunchThreads(", n, ") of pool ", w), [&] { a.LaunchThreads(n); }); if (go) run[w] = true; break; }
      case 1: call(r, true, mc::str("StopThreads() of pool ", w), [&] { a.StopThreads(); }); run[w] = false; break;
      case 2: go = call(r, !run[w], mc::str("move construction from pool ", w), [&] { (new (&place) ThreadPool(std::move(a))); }); if (go) { auto* b = reinterpret_cast<ThreadPool*>(&place); a = std::move(*b); b->~ThreadPool(); } break;
      case 3: go = call(r, !run[1 - w], mc::str("assignment to pool ", w), [&] { a = std::move(*P[1 - w]); }); if (go) { run[w] = gone[w] = false; gone[1 - w] = true; } break;
      case 4: { int x = 0; if (!run[w]) return; call(r, true, mc::str("task on pool ", w), [&] { a.AddTask([&x] { x = 1; }); a.Wait(); }); r.check(x == 1, "value", "task not executed"); break; }
    }
    for (int j = 0; j < 2; ++j) r.check(!go || P[j]->IsRunning() == run[j], "value", mc::str("IsRunning() of pool ", j));
    r.state(run[0] * 2 + run[1]); r.outcome(mc::mix(op, go));
    if (!go) return;
  }
}

void refused(mc::Run& r) {   // calls that are never allowed
  int w = r.choose(6, "call");
  VectorXd x = VectorXd::Ones(2), u = VectorXd::Ones(1);
  switch (w) {
    case 0: { ilqr::DynamicsExpansion<2, 1> e(2, 1); std::shared_ptr<problem::ContinuousDynamics> m; call(r, false, "expansion of continuous dynamics", [&] { e.CalcExpansion(m, x, u, 0.0F, 0.1F); }); break; }
    case 1: { Any<cons::Equality> c(1); call(r, false, "StateDimension of a constraint that does not define it", [&] { volatile int d = c.StateDimension(); (void)d; }); break; }
    case 2: { Any<cons::Inequality> c(1); call(r, false, "ControlDimension of a constraint that does not define it", [&] { volatile int d = c.ControlDimension(); (void)d; }); break; }
    case 3: { cons::ConstraintValues<2, 1, cons::Equality> c(2, 1, std::make_shared<Any<cons::Equality>>(1)); MatrixXd a = MatrixXd::Zero(2, 2), b = MatrixXd::Zero(2, 1), d = MatrixXd::Zero(1, 1);
              c.AugLag(x, u); call(r, false, "second-order constraint terms", [&] { c.AugLagHessian(x, u, a, b, d, true); }); break; }
    case 4: { int N = r.pick({0, -1, -2}, "segments"); if (r.flag("AL")) call(r, false, mc::str("AL<2,1>(", N, ")"), [&] { aS<2, 1> s(N); }); else call(r, false, mc::str("iLQR<2,1>(", N, ")"), [&] { iS<2, 1> s(N); }); break; }
    case 5: switch (r.choose(4, "sizes")) {   // without sizes they must be known at compile time
        case 0: call(r, false, "StateControlSized<X,1>()", [&] { StateControlSized<X, 1> s; }); break;
        case 1: call(r, false, "StateControlSized<2,X>()", [&] { StateControlSized<2, X> s; }); break;
        case 2: call(r, false, "StateControlSized<X,X>()", [&] { StateControlSized<X, X> s; }); break;
        case 3: call(r, true, "StateControlSized<2,1>()", [&] { StateControlSized<2, 1> s; r.check(s.StateDimension() == 2 && s.ControlDimension() == 1, "value", "sizes"); }); break;
      } break;
  }
  r.state(w); r.outcome(w);
}
}  // namespace

int main(int argc, char** argv) {
  mc::Spec s;
  s.property = "P23";
  s.unit = "state: what the object holds; transition: one call; trace: calls that are allowed, ended by one that is not (made in a process of its own)";
  s.assumptions = {"built with assertions (no NDEBUG)", "preconditions are those documented or asserted at the interface; indices of the raw trajectory accessors are not checked by design (hot path)", "an exception derived from std::exception counts as a diagnostic"};
  auto add = [&](const std::string& name, const std::string& bound, std::function<void(mc::Run&)> f) {
    mc::Scenario c; c.name = name; c.bound = bound; c.body = f; s.scenarios.push_back(c);
  };
  int d = mc::tier(2, 3);
  add("refused", "calls that are never allowed", refused);
  add("descriptions", mc::str("all sequences of ", d, " calls on problems of 1-3 segments from four starts, indices from -2 to two past the end, eight solvers made from them"), [d](mc::Run& r) { descriptions(r, d); });
  add("ilqr", mc::str("all sequences of ", d, " calls on the iLQR solver from three starts, fixed and dynamic sizes, one and two threads"), [d](mc::Run& r) {
    int t = r.choose(2, "type"), nth = r.pick({1, 2}, "threads"); if (t) ilqr_life<X, X>(r, d, 2, nth); else ilqr_life<2, 1>(r, d, 2, nth); });
  add("al", mc::str("all sequences of ", d, " calls on the augmented Lagrangian solver from three starts, fixed and dynamic sizes"), [d](mc::Run& r) {
    int t = r.choose(2, "type"); if (t) al_life<X, X>(r, d, 2, 1); else al_life<2, 1>(r, d, 2, 1); });
  int ml = mc::tier(4, 5);
  add("divisions", mc::str("all divisions of up to ", ml, " entries from -1 to one past the last allowed, three states of the solver"), [ml](mc::Run& r) { divisions(r, ml); });
  int ad = mc::tier(3, 4);
  add("alcosts", mc::str("all sequences of ", ad, " calls on an augmented Lagrangian cost"), [ad](mc::Run& r) { alcosts(r, ad); });
  add("functions", "cones and scalar functions with all sizes up to three", functions);
  add("sizes", "sized objects with all sizes up to three", sizes);
  add("trajectories", "trajectories from up to four states, controls and times", trajectories);
  add("tables", mc::str("all sequences of ", ad, " calls on a table and a bounded column"), [ad](mc::Run& r) { tables(r, ad); });
  add("pools", mc::str("all sequences of ", ad, " calls on two pools"), [ad](mc::Run& r) { pools(r, ad); });
  return mc::main_driver(argc, argv, s);
}
