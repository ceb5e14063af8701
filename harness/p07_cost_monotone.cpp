// check: P07 variant=plain sources=all
// Every accepted step lowers the cost inside the configured line-search bounds, otherwise nothing moves;
// the recorded and the returned costs are those of the trajectory held.
#include "al_env.hpp"
using namespace env;

namespace {
void judge(mc::Run& r, Env& e, const Trace& t) {
  const Opts& o = t.o;
  double J0 = total_cost(e, t.Z[0]);
  r.checkf(near(t.initial_cost, J0), "initial-cost", [&] { return mc::str("initial cost recorded ", t.initial_cost, ", true ", J0); });
  double JN = total_cost(e, t.Z.back());
  r.checkf(near(t.final_cost, JN), "returned-cost", [&] { return mc::str("Cost() returned ", t.final_cost, ", the user's costs sum to ", JN); });
  r.check(static_cast<int>(t.cost.size()) >= t.inner && static_cast<int>(t.dJ.size()) >= t.inner, "history-too-short", "fewer recorded costs than iterations");
  if (t.inner == 0) {
    r.check(same(t.Z[0], t.Z.back()), "moved-without-iteration", "the trajectory changed although no iteration was performed");
    return;
  }
  for (int i = 1; i <= t.inner; ++i) {
    const Point &a = t.Z[i - 1], &b = t.Z[i];
    double Ja = total_cost(e, a), Jb = total_cost(e, b);
    bool moved = !same(a, b);
    auto at = [&](const std::string& s) { return mc::str("iteration ", i, ": ", s); };
    if (r.recording()) r.note(at(mc::str("x1 ", b.x[1], " x2 ", b.x[2], " u ", b.u[0], " ", b.u[1], " Ja ", Ja, " Jb ", Jb, " cost ", t.cost[i-1], " reg ", t.reg[i-1])));
    r.checkf(near(t.cost[i - 1], Jb), "recorded-cost", [&] { return at(mc::str("recorded cost ", t.cost[i - 1], ", cost of the trajectory held ", Jb)); });
    r.checkf(same(t.dJ[i - 1], Ja - Jb) || std::abs(t.dJ[i - 1] - (Ja - Jb)) <= 1e-9 * (1 + std::abs(Ja) + std::abs(Jb)), "recorded-decrease", [&] { return at(mc::str("recorded decrease ", t.dJ[i - 1], ", true decrease ", Ja - Jb)); });
    double prev = i == 1 ? t.initial_cost : t.cost[i - 2];
    if (prev == prev) r.checkf(t.cost[i - 1] <= prev + 1e-12 * (1 + std::abs(prev)), "cost-rises", [&] { return at(mc::str("cost went from ", prev, " to ", t.cost[i - 1])); });
    if (moved) r.checkf(Jb < Ja + 1e-12 * (1 + std::abs(Ja)), "step-does-not-lower-cost", [&] { return at(mc::str("a step was taken from cost ", Ja, " to ", Jb)); });
    Ref g = backward(e, a, t.reg[i - 1]);
    if (!g.ok || g.nan) { r.cover("no reference policy"); continue; }
    auto L = ladder(e, a, g, t, Ja);
    int hit = -1;             // first candidate equal to the new trajectory
    if (moved) {
      bool acceptable = false, length = false;
      double scale = 1;          // the candidates are sums of terms of this size
      for (size_t k = 0; k < a.x.size(); ++k) scale = std::max(scale, std::max(std::abs(a.x[k]), std::abs(a.u[k])));
      auto alike = [&](double p, double q) { return std::abs(p - q) <= 1e-8 * (scale + std::abs(q)); };
      for (size_t j = 0; j < L.size(); ++j) {
        bool eq = !L[j].limit;
        for (size_t k = 0; eq && k < b.x.size(); ++k) if (!alike(L[j].q.x[k], b.x[k]) || (k + 1 < b.u.size() && !alike(L[j].q.u[k], b.u[k]))) eq = false;
        if (!eq) continue;
        if (hit < 0) hit = j;
        if (!clearly_bad(L[j], Ja, o)) acceptable = true;
        if (near(t.alpha[i - 1], L[j].alpha)) length = true;
      }
      r.check(hit >= 0, "step-off-the-ladder", at("the new trajectory is none of the line-search candidates of the optimal policy"));
      r.checkf(acceptable, "step-outside-bounds", [&] { return at(mc::str("accepted a step with ratio ", L[hit].z, " cost ", Ja, " -> ", L[hit].J)); });
      r.checkf(length, "recorded-step-length", [&] { return at(mc::str("recorded step length ", t.alpha[i - 1], ", taken ", L[hit].alpha)); });
      r.cover(hit == 0 ? "full step" : "shortened step");
    } else {
      r.cover("no step");
    }
    int stop = hit < 0 ? static_cast<int>(L.size()) : hit;
    for (int j = 0; j < stop; ++j)
      r.checkf(!clearly_ok(L[j], Ja, o), "good-step-refused", [&] { return at(mc::str("the candidate with step length ", L[j].alpha, " (ratio ", L[j].z, ", cost ", Ja, " -> ", L[j].J, ") was passed over")); });
  }
}

// Augmented-Lagrangian solves: within every inner solve the recorded costs and decreases are those of the augmented
// cost of the trajectory held, with the multipliers and penalties in effect (read from solves limited to the outer
// iterations before), and they never rise.
struct Mult { double ineq = 0, eq = 0, rho_ineq = 1, rho_eq = 1; };
double aug_cost(Env& e, const Point& p, const Mult& m) {
  int N = static_cast<int>(p.x.size()) - 1;
  double in = m.ineq - m.rho_ineq * e.c(0, p.x[0], p.u[0]), eq = m.eq - m.rho_eq * e.c(N | 1, p.x[N], p.u[N]);
  if (in > 0) in = 0;
  return total_cost(e, p) + (in * in - m.ineq * m.ineq) / (2 * m.rho_ineq) + (eq * eq - m.eq * m.eq) / (2 * m.rho_eq);
}
struct Limited { Point Z; int total, outer; Mult m; };
Limited limited(const std::shared_ptr<altro::problem::Problem>& P, const Opts& o, int N) {
  ALSolver s(*P);
  apply(s.GetOptions(), o);
  auto Z = make_guess(N);
  s.SetTrajectory(Z);
  s.Solve();
  Limited l;
  l.Z = snapshot(*Z);
  l.total = s.GetStats().iterations_total;
  l.outer = s.GetStats().iterations_outer;
  auto in = s.GetALCost(0)->GetInequalityConstraints()[0];
  auto eq = s.GetALCost(N)->GetEqualityConstraints()[0];
  l.m.ineq = in->GetDuals()(0); l.m.eq = eq->GetDuals()(0);
  l.m.rho_ineq = in->GetPenalty()(0); l.m.rho_eq = eq->GetPenalty()(0);
  return l;
}
void augmented(mc::Run& r, int N, Alphabet a, int budget) {
  Env e;
  e.r = &r;
  e.a = a;
  Opts o;
  switch (r.choose(4, "options")) {
    case 0: o.outer = 3; o.inner = 6; o.grad_tol = 1; o.cost_tol = 1e-3; break;
    case 1: o.outer = 4; o.inner = 4; o.grad_tol = 1; o.cost_tol = 1; o.penalty0 = 10; break;
    case 2: o.outer = 2; o.inner = 3; break;
    case 3: o.outer = 3; o.inner = 5; o.grad_tol = 10; o.cost_tol = 0.05; o.con_tol = 1e-9; o.penalty0 = 0.5; break;
  }
  r.set_budget(budget);
  const double x0 = 1;
  ALTrace t = run_al(r, e, o, N, x0);
  auto P = make_problem(&e, N, x0, true);
  std::vector<Mult> mult(1);   // in effect during outer iteration j + 1: duals after j, penalty of j + 1
  for (int j = 1; j <= t.outer; ++j) {
    Opts oj = o; oj.outer = j;
    Limited l = limited(P, oj, N);
    mult.back().rho_ineq = l.m.rho_ineq; mult.back().rho_eq = l.m.rho_eq;
    mult.push_back(l.m);
  }
  std::vector<Point> Z;
  std::vector<int> outer;
  { Point g = snapshot(*make_guess(N)); g.x[0] = x0; for (int k = 0; k < N; ++k) g.x[k + 1] = e.f(k, g.x[k], g.u[k], g.t[k], g.h[k]); Z.push_back(g); }
  for (int i = 1; i <= t.total; ++i) {
    Opts oi = o; oi.total = i;
    Limited l = limited(P, oi, N);
    r.checkf(l.total == i, "truncated-solve", [&] { return mc::str("a solve limited to ", i, " iterations performed ", l.total); });
    Z.push_back(l.Z);
    outer.push_back(l.outer);
  }
  r.check(static_cast<int>(t.cost.size()) >= t.total && static_cast<int>(t.dJ.size()) >= t.total, "history-too-short", "fewer recorded costs than iterations");
  for (int i = 1; i <= t.total; ++i) {
    if (outer[i - 1] < 1 || outer[i - 1] >= static_cast<int>(mult.size())) { r.cover("inner solve not finished"); continue; }
    const Mult& m = mult[outer[i - 1] - 1];
    double Ja = aug_cost(e, Z[i - 1], m), Jb = aug_cost(e, Z[i], m);
    auto at = [&](const std::string& s) { return mc::str("iteration ", i, " (outer ", outer[i - 1], "): ", s); };
    if (Ja != Ja || Jb != Jb || std::isinf(Ja) || std::isinf(Jb)) { r.cover("cost not a number"); continue; }
    r.checkf(near(t.cost[i - 1], Jb, 1e-8), "recorded-cost", [&] { return at(mc::str("recorded cost ", t.cost[i - 1], ", augmented cost of the trajectory held ", Jb)); });
    r.checkf(std::abs(t.dJ[i - 1] - (Ja - Jb)) <= 1e-8 * (1 + std::abs(Ja) + std::abs(Jb)), "recorded-decrease", [&] { return at(mc::str("recorded decrease ", t.dJ[i - 1], ", true decrease ", Ja - Jb)); });
    r.checkf(Jb <= Ja + 1e-8 * (1 + std::abs(Ja)), "cost-rises", [&] { return at(mc::str("the augmented cost went from ", Ja, " to ", Jb)); });
    if (!same(Z[i - 1], Z[i])) r.cover(outer[i - 1] > 1 ? "step in a later outer iteration" : "step in the first outer iteration");
  }
}

void add(mc::Spec& s, const char* name, int N, Alphabet a, int budget) {
  mc::Scenario sc;
  sc.name = name;
  sc.bound = mc::str("horizon ", N, ", at most ", budget, " extraordinary answers of the user functions anywhere, 11 option sets, 2 initial states");
  sc.body = [=](mc::Run& r) {
    Env e;
    e.r = &r;
    e.a = a;
    Opts o = choose_options(r);
    double x0 = r.flag("initial state") ? -2.5 : 1;
    r.set_budget(budget);
    Trace t = run_ilqr(r, e, o, N, x0, true);
    uint64_t h = 1;
    for (auto& z : t.Z) { for (double d : z.x) h = mc::hashd(h, d); for (double d : z.u) h = mc::hashd(h, d); r.state(h); }
    judge(r, e, t);
  };
  s.scenarios.push_back(sc);
}
}  // namespace

int main(int argc, char** argv) {
  mc::Spec s;
  s.property = "P07";
  s.unit = "one execution = one real solve against one sequence of environment answers, plus its truncations after every iteration; state = prefix of the sequence of trajectories held; transition = user-function call";
  s.assumptions = {"scalar states and controls; user functions are functions (same answer at the same point); iteration limits of at least one"};
  Alphabet full;
  full.cost = 5;
  bool q = !mc::thorough();
  add(s, "all", 2, full, q ? 2 : 3);
  add(s, "cost", 2, only({COST}, full), q ? 3 : 4);
  add(s, "dynamics-cost", 2, only({DYN, COST}, full), q ? 2 : 3);
  add(s, "derivatives", 2, only({JAC, GRAD, HESS}), 3);
  add(s, "one-step", 1, full, q ? 2 : 3);
  add(s, "long", 4, full, 2);
  add(s, "longer", 6, only({COST, HESS}), 2);
  auto al = [&](const char* name, Alphabet a, int budget) {
    s.scenarios.push_back({name, mc::str("augmented-Lagrangian solves, horizon 2, at most ", budget, " extraordinary answers anywhere, 4 option sets, up to 4 outer iterations"), [=](mc::Run& r) { augmented(r, 2, a, budget); }});
  };
  al("augmented-all", full, q ? 2 : 3);
  al("augmented-cost-constraints", only({COST, CON}, full), q ? 2 : 3);
  return mc::main_driver(argc, argv, s);
}
