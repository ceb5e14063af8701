// check: P18 variant=asan sources=all
// Every sequence of set-up calls, copies and moves of problem descriptions against a plain record of what was given.
#include <array>
#include <memory>
#include <vector>
#include "altro/augmented_lagrangian/al_problem.hpp"
#include "altro/problem/problem.hpp"
#include "mc.hpp"
using namespace altro;
namespace cons = altro::constraints;
using problem::Problem;

namespace {
class Dyn : public problem::DiscreteDynamics {
 public:
  Dyn(int n, int m) : n_(n), m_(m) {}
  int StateDimension() const override { return n_; }
  int ControlDimension() const override { return m_; }
  void Evaluate(const VectorXdRef& x, const VectorXdRef&, float, float, Eigen::Ref<VectorXd> o) override { o = 2 * x; }
  void Jacobian(const VectorXdRef&, const VectorXdRef&, float, float, Eigen::Ref<MatrixXd> J) override { J.setZero(); J.leftCols(n_).setIdentity(); J *= 2; }
  void Hessian(const VectorXdRef&, const VectorXdRef&, float, float, const VectorXdRef&, Eigen::Ref<MatrixXd> H) override { H.setZero(); }
  bool HasHessian() const override { return true; }
 private:
  int n_, m_;
};
class Cost : public problem::CostFunction {
 public:
  int StateDimension() const override { return 2; }
  int ControlDimension() const override { return 1; }
  double Evaluate(const VectorXdRef&, const VectorXdRef&) override { return id; }
  void Gradient(const VectorXdRef&, const VectorXdRef&, Eigen::Ref<VectorXd> dx, Eigen::Ref<VectorXd> du) override { dx.setZero(); du.setZero(); }
  void Hessian(const VectorXdRef&, const VectorXdRef&, Eigen::Ref<MatrixXd> a, Eigen::Ref<MatrixXd> b, Eigen::Ref<MatrixXd> c) override { a.setZero(); b.setZero(); c.setZero(); }
  double id = 0;
};
template <class T>
class Con : public cons::Constraint<T> {
 public:
  explicit Con(int p) : p_(p) {}
  int OutputDimension() const override { return p_; }
  void Evaluate(const VectorXdRef&, const VectorXdRef&, Eigen::Ref<VectorXd> c) override { c.setConstant(1); }
  void Jacobian(const VectorXdRef&, const VectorXdRef&, Eigen::Ref<MatrixXd> J) override { J.setZero(); }
 private:
  int p_;
};
using EqP = cons::ConstraintPtr<cons::Equality>;
using InP = cons::ConstraintPtr<cons::Inequality>;

struct Rec {   // what was given
  int N;
  std::vector<std::shared_ptr<problem::DiscreteDynamics>> dyn;
  std::vector<std::shared_ptr<problem::CostFunction>> cost;
  std::vector<std::vector<EqP>> eq;
  std::vector<std::vector<InP>> in;
  VectorXd x0 = VectorXd(0);
  explicit Rec(int N) : N(N), dyn(N), cost(N + 1), eq(N + 1), in(N + 1) {}
  bool full() const { for (auto& d : dyn) if (!d) return false; for (auto& c : cost) if (!c) return false; return x0.size() > 0 && x0.size() == dyn[0]->StateDimension(); }
  int count(int k) const { int c = 0; for (auto& p : eq[k]) c += p->OutputDimension(); for (auto& p : in[k]) c += p->OutputDimension(); return c; }
};

void compare(mc::Run& r, Problem& p, const Rec& q, const std::string& who) {
  const Problem& cp = p;
  auto ck = [&](bool ok, const char* sig, const std::string& m) { r.checkf(ok, sig, [&] { return who + ": " + m; }); };
  ck(p.NumSegments() == q.N, "horizon", mc::str("the horizon is ", p.NumSegments(), ", expected ", q.N));
  for (int k = 0; k < q.N; ++k) if (q.dyn[k]) ck(cp.GetDynamics(k) == q.dyn[k], "dynamics", mc::str("dynamics at step ", k));
  if (q.dyn[q.N - 1]) {
    auto last = cp.GetDynamics(q.N);
    ck(last != nullptr && last->StateDimension() == q.dyn[q.N - 1]->StateDimension() && last->ControlDimension() == q.dyn[q.N - 1]->ControlDimension(), "dynamics", "dimensions at the last step");
  }
  for (int k = 0; k <= q.N; ++k) ck(cp.GetCostFunction(k) == q.cost[k], "cost", mc::str("cost at step ", k));
  ck(cp.GetEqualityConstraints().size() == static_cast<size_t>(q.N + 1) && cp.GetInequalityConstraints().size() == static_cast<size_t>(q.N + 1), "constraints", "number of steps in the constraint lists");
  int total = 0;
  for (int k = 0; k <= q.N; ++k) {
    ck(cp.GetEqualityConstraints()[k] == q.eq[k], "constraints", mc::str("equality constraints at step ", k));
    ck(cp.GetInequalityConstraints()[k] == q.in[k], "constraints", mc::str("inequality constraints at step ", k));
    ck(p.NumConstraints(k) == q.count(k), "constraint-count", mc::str("NumConstraints(", k, ") is ", p.NumConstraints(k), ", expected ", q.count(k)));
    total += q.count(k);
  }
  ck(p.NumConstraints() == total, "constraint-count", mc::str("NumConstraints() is ", p.NumConstraints(), ", expected ", total));
  ck(cp.GetInitialState().size() == q.x0.size() && cp.GetInitialState() == q.x0, "initial-state", "the initial state");
  ck(cp.GetInitialStatePointer() != nullptr && *cp.GetInitialStatePointer() == q.x0, "initial-state", "the initial state pointer");
  ck(cp.IsFullyDefined() == q.full(), "fully-defined", mc::str("IsFullyDefined() is ", cp.IsFullyDefined(), ", expected ", q.full()));
}

template <int n, int m>
void augmented(mc::Run& r, Problem& p, const Rec& q) {
  std::vector<std::shared_ptr<augmented_lagrangian::ALCost<n, m>>> costs;
  bool ask = r.flag("ask for the costs");
  Problem a = augmented_lagrangian::BuildAugLagProblem<n, m>(p, ask ? &costs : nullptr);
  r.transition();
  auto ck = [&](bool ok, const char* sig, const std::string& msg) { r.checkf(ok, sig, [&] { return "augmented problem: " + msg; }); };
  ck(a.NumSegments() == q.N, "horizon", mc::str("horizon ", a.NumSegments()));
  ck(a.GetInitialState() == q.x0, "initial-state", "the initial state");
  ck(a.NumConstraints() == 0, "constraint-count", "still has constraints of its own");
  ck(a.IsFullyDefined() == q.full(), "fully-defined", "IsFullyDefined");
  if (ask) ck(costs.size() == static_cast<size_t>(q.N + 1), "augmented-costs", mc::str(costs.size(), " costs returned"));
  for (int k = 0; k < q.N; ++k) ck(a.GetDynamics(k) == q.dyn[k], "dynamics", mc::str("dynamics at step ", k));
  for (int k = 0; k <= q.N; ++k) {
    auto c = std::dynamic_pointer_cast<augmented_lagrangian::ALCost<n, m>>(a.GetCostFunction(k));
    ck(c != nullptr, "augmented-costs", mc::str("no augmented cost at step ", k));
    if (ask) ck(c == costs[k], "augmented-costs", mc::str("cost ", k, " of the list is not the one of the problem"));
    ck(c->GetCostFunction() == q.cost[k], "augmented-costs", mc::str("the cost wrapped at step ", k));
    ck(c->NumConstraints() == q.count(k), "constraint-count", mc::str("constraints of the cost at step ", k));
    auto& e = c->GetEqualityConstraints(); auto& i = c->GetInequalityConstraints();
    ck(e.size() == q.eq[k].size() && i.size() == q.in[k].size(), "augmented-constraints", mc::str("number of constraints at step ", k));
    for (size_t j = 0; j < e.size(); ++j) ck(e[j]->GetConstraint() == q.eq[k][j], "augmented-constraints", mc::str("equality constraint ", j, " at step ", k));
    for (size_t j = 0; j < i.size(); ++j) ck(i[j]->GetConstraint() == q.in[k][j], "augmented-constraints", mc::str("inequality constraint ", j, " at step ", k));
    for (int j = 0; j < k; ++j) ck(a.GetCostFunction(j) != a.GetCostFunction(k), "augmented-costs", "two steps share one augmented cost");
  }
  // the original is untouched
  compare(r, p, q, "problem after deriving the augmented one");
}

struct World {
  std::vector<std::unique_ptr<Problem>> p;
  std::vector<Rec> q;
};

void ops(mc::Run& r, int N, int depth, bool small) {
  World w;
  w.p.emplace_back(new Problem(N)); w.q.emplace_back(N);
  auto dyn = [](int id) { return std::make_shared<Dyn>(id == 2 ? 3 : 2, 1); };
  if (r.flag("start complete")) {
    for (int k = 0; k < N; ++k) { auto d = dyn(0); w.p[0]->SetDynamics(d, k); w.q[0].dyn[k] = d; }
    for (int k = 0; k <= N; ++k) { auto c = std::make_shared<Cost>(); w.p[0]->SetCostFunction(c, k); w.q[0].cost[k] = c; }
    VectorXd x = VectorXd::Constant(2, 0.5); w.p[0]->SetInitialState(x); w.q[0].x0 = x;
  }
  compare(r, *w.p[0], w.q[0], "new problem");
  uint64_t h = mc::mix(N, w.q[0].full());
  for (int s = 0; s < depth; ++s) {
    int at = w.p.size() > 1 ? r.choose(static_cast<int>(w.p.size()), "object") : 0;
    Problem& p = *w.p[at]; Rec& q = w.q[at];
    int op = r.choose(12, "operation");
    h = mc::mix(mc::mix(h, op), at);
    std::string what;
    r.transition();
    switch (op) {
      case 0: { int k = r.choose(q.N, "step"), id = r.choose(2, "model"); auto d = dyn(id * 2); p.SetDynamics(d, k); q.dyn[k] = d; what = mc::str("SetDynamics(", k, ")"); h = mc::mix(h, k * 2 + id); break; }
      case 1: {   // a range, as derived or base pointers
        int k0 = r.choose(q.N, "start"), len = r.choose(q.N - k0, "length") + 1; bool base = r.flag("base pointers");
        std::vector<std::shared_ptr<Dyn>> v; for (int i = 0; i < len; ++i) v.push_back(dyn(0));
        if (base) { std::vector<std::shared_ptr<problem::DiscreteDynamics>> b(v.begin(), v.end()); if (k0 == 0) p.SetDynamics(b); else p.SetDynamics(b, k0); } else p.SetDynamics(v, k0);
        for (int i = 0; i < len; ++i) q.dyn[k0 + i] = v[i];
        what = mc::str("SetDynamics(", len, " models from ", k0, ")"); h = mc::mix(h, k0 * 8 + len); break;
      }
      case 2: { int k = r.choose(q.N + 1, "step"); std::shared_ptr<problem::CostFunction> c = r.flag("null") ? nullptr : std::make_shared<Cost>(); p.SetCostFunction(c, k); q.cost[k] = c; what = mc::str("SetCostFunction(", k, ")"); h = mc::mix(h, k * 2 + !c); break; }
      case 3: {
        int k0 = r.choose(q.N + 1, "start"), len = r.choose(q.N + 1 - k0, "length") + 1; bool base = r.flag("base pointers");
        std::vector<std::shared_ptr<Cost>> v; for (int i = 0; i < len; ++i) v.push_back(std::make_shared<Cost>());
        if (base) { std::vector<std::shared_ptr<problem::CostFunction>> b(v.begin(), v.end()); if (k0 == 0) p.SetCostFunction(b); else p.SetCostFunction(b, k0); } else p.SetCostFunction(v, k0);
        for (int i = 0; i < len; ++i) q.cost[k0 + i] = v[i];
        what = mc::str("SetCostFunction(", len, " costs from ", k0, ")"); h = mc::mix(h, k0 * 8 + len); break;
      }
      case 4: case 5: {
        int k = r.choose(q.N + 1, "step"), len = r.choose(2, "length") + 1; bool base = r.flag("base pointer");
        if (op == 4) { auto c = std::make_shared<Con<cons::Equality>>(len); if (base) { EqP b = c; p.SetConstraint(b, k); } else p.SetConstraint(c, k); q.eq[k].push_back(c); }
        else { auto c = std::make_shared<Con<cons::Inequality>>(len); if (base) { InP b = c; p.SetConstraint(b, k); } else p.SetConstraint(c, k); q.in[k].push_back(c); }
        what = mc::str("SetConstraint(", op == 4 ? "equality" : "inequality", ", ", k, ")"); h = mc::mix(h, k * 4 + len); break;
      }
      case 6: { int sz = r.pick({2, 3, 0}, "size"); VectorXd x = VectorXd::Constant(sz, 1.5 + s); p.SetInitialState(x); q.x0 = x; what = mc::str("SetInitialState(", sz, ")"); h = mc::mix(h, sz); break; }
      case 7: { w.q.push_back(q); w.p.emplace_back(new Problem(p)); what = "copy construction"; break; }
      case 8: { Rec t = q; std::unique_ptr<Problem> np(new Problem(std::move(p))); w.p[at] = std::move(np); w.q[at] = t; what = "move construction"; break; }
      case 9: { int M = r.choose(2, "horizon of the target") ? q.N + 1 : 1; Rec t = q; std::unique_ptr<Problem> np(new Problem(M)); if (r.flag("target used before")) { np->SetInitialState(VectorXd::Constant(4, 9)); np->SetCostFunction(std::make_shared<Cost>(), M); np->SetConstraint(std::make_shared<Con<cons::Equality>>(1), 0); } *np = p; w.p.push_back(std::move(np)); w.q.push_back(t); what = "copy assignment"; h = mc::mix(h, M); break; }
      case 10: { int M = r.choose(2, "horizon of the target") ? q.N + 1 : 1; Rec t = q; std::unique_ptr<Problem> np(new Problem(M)); np->SetConstraint(std::make_shared<Con<cons::Equality>>(1), 0); *np = std::move(p); w.p[at] = std::move(np); w.q[at] = t; what = "move assignment"; h = mc::mix(h, M); break; }
      case 11: {
        bool ok = true; for (auto& d : q.dyn) ok = ok && d && d->StateDimension() == 2; for (auto& c : q.cost) ok = ok && c;
        if (!ok || small) { s = depth; break; }
        if (r.flag("fixed size")) augmented<2, 1>(r, p, q); else augmented<-1, -1>(r, p, q);
        what = "derived augmented problem"; break;
      }
    }
    r.note(what);
    for (size_t i = 0; i < w.p.size(); ++i) compare(r, *w.p[i], w.q[i], mc::str("after ", what, ", object ", i));
    r.state(h);
  }
  r.outcome(h);
}

// the stand-in dynamics of the last step
void last(mc::Run& r) {
  int n = r.choose(3, "n") + 1, m = r.choose(3, "m") + 1, N = r.choose(3, "N") + 1;
  Problem p(N);
  for (int k = 0; k < N; ++k) p.SetDynamics(std::make_shared<Dyn>(n, m), k);
  auto d = p.GetDynamics(N);
  VectorXd x = VectorXd::LinSpaced(n, 0.5, 2), u = VectorXd::Ones(m), o = VectorXd::Constant(n, 7);
  d->Evaluate(x, u, 0.5F, 0.1F, o);
  r.transition();
  r.check(o == x, "last-step", "the last step does not keep the state");
  MatrixXd J = MatrixXd::Constant(n, n + m, 7), want = MatrixXd::Zero(n, n + m); want.leftCols(n).setIdentity();
  d->Jacobian(x, u, 0.5F, 0.1F, J);
  r.check(J == want, "last-step", "the Jacobian of the last step");
  r.state(n * 16 + m * 4 + N); r.outcome(n * 16 + m);
}
// the verbose listing agrees
void verbose(mc::Run& r) {
  const int N = 2; Problem p(N); Rec q(N);
  std::vector<bool> pass(N + 1);
  for (int k = 0; k < N; ++k) if (r.flag("dynamics")) { auto d = std::make_shared<Dyn>(2, 1); p.SetDynamics(d, k); q.dyn[k] = d; }
  for (int k = 0; k <= N; ++k) if (r.flag("cost")) { auto c = std::make_shared<Cost>(); p.SetCostFunction(c, k); q.cost[k] = c; }
  int sz = r.pick({0, 2, 3}, "initial state");
  q.x0 = VectorXd::Zero(sz); p.SetInitialState(q.x0);
  bool got; std::string text;
  { mc::CaptureStdout cap; got = p.IsFullyDefined(true); text = cap.get(); }
  r.transition();
  r.check(got == q.full(), "fully-defined", mc::str("IsFullyDefined(true) is ", got, ", expected ", q.full()));
  for (int k = 0; k <= N; ++k) {
    bool ok = q.cost[k] && (k == N || q.dyn[k]) && (k > 0 || (sz && q.dyn[0] && q.dyn[0]->StateDimension() == sz));
    std::string line; size_t a = text.find(mc::str("Index ", k, ":"));
    r.check(a != std::string::npos, "listing", mc::str("no line for step ", k));
    line = text.substr(a, text.find('\n', a) - a);
    r.checkf((line.find("PASS") != std::string::npos) == ok && (line.find("FAIL") != std::string::npos) == !ok, "listing", [&] { return mc::str("step ", k, " is listed as '", line, "'"); });
  }
  compare(r, p, q, "problem");
  r.state(mc::hashs(1, text)); r.outcome(mc::hashs(2, text));
}
}  // namespace

int main(int argc, char** argv) {
  mc::Spec s;
  s.property = "P18";
  s.unit = "state: one sequence of operations; transition: one operation, after which every object is compared in full";
  s.assumptions = {"objects that were moved from are not used again"};
  int d = mc::tier(3, 4);
  s.scenarios.push_back({"operations-1", mc::str("horizon 1, empty or complete at the start, every sequence of ", d, " operations (12 kinds with all their arguments) on up to 4 objects"), [d](mc::Run& r) { ops(r, 1, d, false); }});
  s.scenarios.push_back({"operations-2", "horizon 2, every sequence of 3 operations", [](mc::Run& r) { ops(r, 2, 3, false); }});
  s.scenarios.push_back({"operations-3", "horizon 3, every sequence of 2 operations", [](mc::Run& r) { ops(r, 3, 2, false); }});
  if (mc::thorough()) s.scenarios.push_back({"operations-3-3", "horizon 3, every sequence of 3 operations", [](mc::Run& r) { ops(r, 3, 3, false); }});
  s.scenarios.push_back({"last-step", "1..3 states and controls, horizon 1..3", last});
  s.scenarios.push_back({"verbose", "horizon 2, every combination of missing parts", verbose});
  return mc::main_driver(argc, argv, s);
}
