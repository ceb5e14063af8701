// check: P06 variant=plain sources=all
// The returned trajectory obeys the dynamics exactly from the current initial state, whatever happened.
#include "env.hpp"
using namespace env;

namespace {

Point given(const Traj& Z) { return snapshot(Z); }

void check_feasible(mc::Run& r, Env& e, const Traj& Z, const Point& before, double x0, const char* when) {
  Point p = snapshot(Z);
  int N = Z.NumSegments();
  bool a = e.asking;
  e.asking = false;
  r.check(same(p.x[0], x0), "wrong-initial-state", mc::str(when, ": the trajectory starts at ", p.x[0], ", the initial state is ", x0));
  for (int k = 0; k < N; ++k) {
    double want = e.f(k, p.x[k], p.u[k], static_cast<float>(p.t[k]), static_cast<float>(p.h[k]));
    r.checkf(same(want, p.x[k + 1]), "dynamics-violated", [&] { return mc::str(when, ": state ", k + 1, " is ", p.x[k + 1], ", the dynamics give ", want); });
  }
  for (int k = 0; k <= N; ++k) {
    r.checkf(p.t[k] == before.t[k], "time-changed", [&] { return mc::str(when, ": time of step ", k, " is ", p.t[k], ", was ", before.t[k]); });
    r.checkf(p.h[k] == before.h[k], "step-changed", [&] { return mc::str(when, ": step length ", k, " is ", p.h[k], ", was ", before.h[k]); });
  }
  e.asking = a;
}

void rollout(Solver& s) { s.Rollout(); }
void rollout(ALSolver& s) { s.GetiLQRSolver().Rollout(); }
template <class S>
SolverStatus status(S& s) { return s.GetStatus(); }

// first solve, then a change by the user, then another solve
template <class S>
void body(mc::Run& r, int N, const Alphabet& a, int budget, bool constrained, bool again) {
  Env e;
  e.r = &r;
  e.a = a;
  e.logging = false;
  Opts o = choose_options(r);
  double x0 = 1;
  auto P = make_problem(&e, N, x0, constrained);
  S s(*P);
  apply(s.GetOptions(), o);
  auto Z = make_guess(N);
  // irregular time grid
  if (r.flag("irregular grid")) {
    float t = 0.5F;
    for (int k = 0; k <= N; ++k) { float h = k == N ? 0.0F : 0.125F * (k + 1); Z->SetTime(k, t); Z->SetStep(k, h); t += h; }
  }
  // the guess may already start at the initial state, or almost
  switch (again || N > 2 ? 0 : r.choose(3, "first state of the guess")) {
    case 1: Z->State(0)(0) = x0; break;
    case 2: Z->State(0)(0) = x0 * (1 + 1e-9); break;
    default: break;
  }
  int rounds = again ? 2 : 1;
  s.SetTrajectory(Z);
  r.set_budget(budget);
  for (int i = 0; i < rounds; ++i) {
    if (i == 1) {
      switch (r.choose(11, "change between solves")) {
        case 0: x0 = -0.5; P->SetInitialState(VectorXd::Constant(1, x0)); r.note("initial state changed"); break;
        case 1: Z = make_guess(N, -1.0); s.SetTrajectory(Z); r.note("new trajectory object"); break;
        case 2: *Z = *make_guess(N, 2.0); r.note("guess rewritten in place"); break;
        case 3: o.inner = 2; o.control_max = 0.3; apply(s.GetOptions(), o); r.note("options changed"); break;
        case 4: for (int k = 0; k < N; ++k) { Z->SetStep(k, 0.5F); Z->SetTime(k, 0.5F * k); } Z->SetTime(N, 0.5F * N); r.note("time grid changed in place"); break;
        case 5: Z->SetStep(N, 0.75F); Z->SetTime(N, 3.0F); Z->State(N)(0) = 12; r.note("terminal time and step changed in place"); break;
        case 7: for (int k = 0; k < N; ++k) Z->Control(k)(0) += 0.25; r.note("controls changed in place"); break;
        case 8: x0 += 1e-9; P->SetInitialState(VectorXd::Constant(1, x0)); r.note("initial state changed slightly"); break;
        case 9: {   // only a rollout of new controls, then the solve
          for (int k = 0; k < N; ++k) Z->Control(k)(0) += 0.25;
          Point before = given(*Z);
          rollout(s);
          check_feasible(r, e, *Z, before, x0, "rollout");
          for (int k = 0; k < N; ++k) r.check(same(Z->Control(k)(0), before.u[k]), "rollout-changed-controls", "a rollout changed the controls");
          break;
        }
        default: r.note("nothing changed"); break;
      }
    }
    Point before = given(*Z);
    s.Solve();
    check_feasible(r, e, *Z, before, x0, i == 0 ? "first solve" : "second solve");
    r.cover(status_name(status(s)));
    Point p = snapshot(*Z);
    uint64_t h = static_cast<int>(s.GetStatus());
    for (double d : p.x) h = mc::hashd(h, d);
    r.outcome(h);
    r.state(h);
  }
}

void add(mc::Spec& s, const char* name, int N, Alphabet a, int budget, bool al, bool again) {
  mc::Scenario sc;
  sc.name = name;
  sc.bound = mc::str("horizon ", N, ", at most ", budget, " extraordinary answers of the user functions anywhere in ", again ? 2 : 1, " solve(s), 11 option sets, 2 time grids", again || N > 2 ? "" : ", 3 first states of the guess", again ? ", 11 user changes between the solves" : "");
  sc.body = [=](mc::Run& r) {
    if (al) body<ALSolver>(r, N, a, budget, true, again);
    else body<Solver>(r, N, a, budget, false, again);
  };
  s.scenarios.push_back(sc);
}
}  // namespace

int main(int argc, char** argv) {
  mc::Spec s;
  s.property = "P06";
  s.unit = "one execution = one or two real solves against one sequence of environment answers (each user function at each point it is asked), option set, time grid and user action; state = distinct returned trajectory; transition = user-function call";
  s.assumptions = {"scalar states and controls; user functions are functions (same answer at the same point); positive iteration limits"};
  bool q = !mc::thorough();
  Alphabet full;
  add(s, "ilqr-all", 2, full, q ? 2 : 3, false, false);
  add(s, "ilqr-dynamics-cost", 2, only({DYN, COST}), q ? 2 : 3, false, false);
  add(s, "ilqr-derivatives", 2, only({JAC, GRAD, HESS}), q ? 2 : 3, false, false);
  add(s, "ilqr-long", 5, full, 2, false, false);
  add(s, "ilqr-twice", 2, full, 2, false, true);
  add(s, "al-all", 2, full, 2, true, false);
  add(s, "al-constraints-cost", 2, only({CON, COST}), q ? 2 : 3, true, false);
  add(s, "al-twice", 2, full, 1, true, true);
  return mc::main_driver(argc, argv, s);
}
