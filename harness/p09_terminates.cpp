// check: P09 variant=plain sources=all
// Every solve returns within the configured limits, and the counters and histories say what was done.
// A solve that does not return is a hang: the engine reports it.
#include "al_env.hpp"
using namespace env;

namespace {
struct Counts { int iterations = 0, max_trials = 0, initial = 0; };
// Every iteration evaluates the Jacobian of the first step once, every rollout the dynamics of the first
// step once.
Counts count(const std::vector<Call>& log) {
  Counts c;
  int trials = 0;
  for (auto& x : log) {
    if (x.kind == JAC && x.k == 0) { c.iterations++; trials = 0; }
    if (x.kind == DYN && x.k == 0) {
      if (c.iterations == 0) c.initial++; else trials++;
      if (trials > c.max_trials) c.max_trials = trials;
    }
  }
  return c;
}
template <class T>
void histories(mc::Run& r, const Opts& o, const T& t, bool failed_pass) {
  auto one = [&](const char* name, const std::vector<double>& v) {
    int len = static_cast<int>(v.size());
    r.checkf(len == t.total || len == t.total + 1, "history-length", [&] { return mc::str("series ", name, " has ", len, " entries after ", t.total, " iterations"); });
  };
  one("cost", t.cost); one("cost decrease", t.dJ); one("gradient", t.grad); one("regularization", t.reg);
  double lo = std::min(o.reg_init, o.reg_min), hi = std::max(o.reg_init, o.reg_max);
  for (size_t i = 0; i < t.reg.size(); ++i) r.checkf(t.reg[i] >= lo && t.reg[i] <= hi, "regularization-range", [&] { return mc::str("regularization ", t.reg[i], " recorded in iteration ", i + 1); });
  if (t.total > 0 && o.reg_min <= o.reg_max) r.checkf(t.final_reg >= o.reg_min && t.final_reg <= o.reg_max, "regularization-range", [&] { return mc::str("regularization ", t.final_reg, " after the solve"); });
  (void)failed_pass;
}

// unusual but meaningful option values (index 0: the ordinary sets)
void more_options(mc::Run& r, Opts& o) {
  switch (r.choose(9, "unusual options")) {
    case 1: o.reg_min = 0; break;
    case 2: o.reg_factor = 1; o.reg_init = 1e-3; break;
    case 3: o.ls = 0; break;
    case 4: o.reg_init = 1000; break;
    case 5: o.reg_max = 1e300; o.reg_factor = 1e150; break;
    case 6: o.reg_fail = 0; break;
    case 7: o.cost_tol = 0; o.grad_tol = 0; o.inner = 6; break;
    case 8: o.reg_min = 0; o.reg_factor = 0.5; break;
    default: break;
  }
}

void ilqr(mc::Run& r, Env& e, int N, bool unusual, int budget, bool prefixes) {
  Opts o = choose_options(r);
  if (unusual) more_options(r, o);
  r.set_budget(budget);
  Trace t = run_ilqr(r, e, o, N, 1, prefixes);
  uint64_t h = t.inner;
  for (auto c : t.log) h = mc::hashd(mc::mix(h, c.kind * 16 + c.k), c.x + 3 * c.u);
  r.state(h);
  bool failed = t.status == SolverStatus::kBackwardPassRegularizationFailed;
  Counts c = count(t.log);
  auto what = [&](const std::string& s) { return mc::str(s, " (status ", status_name(t.status), ", recorded iterations ", t.inner, " inner ", t.total, " total, observed ", c.iterations, ")"); };
  r.check(t.inner <= o.inner, "too-many-inner", what(mc::str("limit of ", o.inner, " inner iterations")));
  r.check(t.total <= o.total, "too-many-total", what(mc::str("limit of ", o.total, " total iterations")));
  r.check(c.iterations <= o.inner && c.iterations <= o.total + (failed ? 1 : 0), "too-many-iterations", what(mc::str("limits ", o.inner, " and ", o.total)));
  r.check(t.inner == t.total, "counters-differ", what("inner and total count of a single solve"));
  r.check(t.total == c.iterations - (failed ? 1 : 0), "counter-wrong", what("the counter is not the number of iterations performed"));
  r.check(c.max_trials <= o.ls, "too-many-trials", what(mc::str(c.max_trials, " line-search trials, limit ", o.ls)));
  r.check(c.initial <= 1, "initial-rollouts", what("more than one rollout of the guess"));
  histories(r, o, t, failed);
  // an iteration that had to raise the regularization to its maximum has failed there once
  if (prefixes && o.reg_fail <= 1)
    for (int i = 1; i <= t.inner; ++i)
      r.checkf(!(t.reg[i - 1] > t.prefix_reg[i - 1] * (1 + 1e-9) && t.reg[i - 1] >= o.reg_max), "too-many-failed-passes",
               [&] { return what(mc::str("iteration ", i, " raised the regularization from ", t.prefix_reg[i - 1], " to the maximum and went on, the threshold is ", o.reg_fail)); });
}

void al(mc::Run& r, Env& e, int N, bool unusual, int budget) {
  Opts o = choose_al_options(r);
  if (unusual) more_options(r, o);
  switch (r.choose(3, "limits")) {
    case 1: o.total = 3; break;
    case 2: o.outer = 6; o.inner = 3; o.grad_tol = 1; o.cost_tol = 1; o.max_penalty = 1e30; break;
    default: break;
  }
  r.set_budget(budget);
  ALTrace t = run_al(r, e, o, N, 1);
  bool failed = t.inner_status == SolverStatus::kBackwardPassRegularizationFailed;
  Counts c = count(t.log);
  auto what = [&](const std::string& s) { return mc::str(s, " (status ", status_name(t.status), ", recorded iterations ", t.inner, " inner ", t.total, " total ", t.outer, " outer, observed ", c.iterations, ")"); };
  r.check(t.inner <= o.inner, "too-many-inner", what(mc::str("limit of ", o.inner, " inner iterations")));
  r.check(t.total <= o.total, "too-many-total", what(mc::str("limit of ", o.total, " total iterations")));
  r.check(t.outer <= o.outer, "too-many-outer", what(mc::str("limit of ", o.outer, " outer iterations")));
  r.check(c.iterations <= o.outer * o.inner, "too-many-iterations", what("product of the limits"));
  r.check(t.total == c.iterations - (failed ? 1 : 0), "counter-wrong", what("the counter is not the number of iterations performed"));
  // one trial more can be seen between two Jacobians: the rollout that starts the next inner solve
  r.check(c.max_trials <= o.ls + 1, "too-many-trials", what(mc::str(c.max_trials, " line-search trials, limit ", o.ls)));
  r.check(t.inner <= t.total, "counters-differ", what("more inner than total iterations"));
  r.check(t.total <= t.outer * o.inner, "too-many-inner", what("total exceeds outer times inner limit"));
  histories(r, o, t, failed);
}

void add(mc::Spec& s, const char* name, int N, Alphabet a, int budget, bool is_al, bool unusual, bool prefixes = false) {
  mc::Scenario sc;
  sc.name = name;
  sc.bound = mc::str("horizon ", N, ", at most ", budget, " extraordinary answers of the user functions anywhere, ", is_al ? 30 : 11, " option sets", unusual ? " times 9 unusual ones" : "");
  sc.exec_limit_s = 5;
  sc.body = [=](mc::Run& r) {
    Env e;
    e.r = &r;
    e.a = a;
    if (is_al) al(r, e, N, unusual, budget); else ilqr(r, e, N, unusual, budget, prefixes);
  };
  s.scenarios.push_back(sc);
}
}  // namespace

int main(int argc, char** argv) {
  mc::Spec s;
  s.property = "P09";
  s.unit = "one execution = one real solve against one sequence of environment answers; state = distinct sequence of user-function calls; transition = user-function call";
  s.assumptions = {"scalar states and controls; user functions return; iteration limits of at least one; finite option values",
                   "an iteration is observed as one evaluation of the first step's dynamics Jacobian, a line-search trial as one evaluation of the first step's dynamics"};
  Alphabet full;
  full.hess = 5;
  full.cost = 5;
  full.con = 2;
  full.grad = 3;
  bool q = !mc::thorough();
  add(s, "ilqr-all", 2, full, q ? 2 : 3, false, false);
  add(s, "ilqr-derivatives", 2, only({JAC, GRAD, HESS}, full), 3, false, false, true);
  add(s, "ilqr-unusual", 2, full, 2, false, true);
  add(s, "ilqr-one-step", 1, full, q ? 2 : 3, false, true);
  add(s, "ilqr-long", 5, full, 2, false, false);
  add(s, "al-all", 2, full, 2, true, false);
  add(s, "al-constraints", 2, only({CON, COST}, full), q ? 2 : 3, true, false);
  add(s, "al-unusual", 2, full, q ? 1 : 2, true, true);
  return mc::main_driver(argc, argv, s);
}
