// check: P10 variant=asan sources=all
// A used solver behaves like a fresh one: every history of uses up to a bound, then the same solve on
// the used solver and on a fresh one.
#include "mc.hpp"
#include "simple.hpp"
using namespace altro;
using simple::Prob;

namespace {
template <int n, int m> using IL = ilqr::iLQR<n, m>;
template <int n, int m> using AL = augmented_lagrangian::AugmentedLagrangianiLQR<n, m>;
constexpr int X = Eigen::Dynamic;
constexpr int kN = 3;

template <class S> struct Traits;
template <int n, int m> struct Traits<IL<n, m>> {
  using T = Trajectory<n, m>;
  static constexpr bool al = false;
  static IL<n, m>& ilqr(IL<n, m>& s) { return s; }
};
template <int n, int m> struct Traits<AL<n, m>> {
  using T = Trajectory<n, m>;
  static constexpr bool al = true;
  static IL<n, m>& ilqr(AL<n, m>& s) { return s.GetiLQRSolver(); }
};

struct Prb {
  Prob p;
  VectorXd x0;
  Prb() : p(2, 1, kN, 1.0), x0(p.prob->GetInitialState()) {
    VectorXd a(2), b(1), c(1), c2(2);
    a << 0.5, -0.25; b << 1.0; c << -0.3; c2 << -0.6, 0.1;
    p.prob->SetConstraint(std::make_shared<simple::Con<constraints::Inequality>>(a, b, c, 0.1), 0);
    p.prob->SetConstraint(std::make_shared<simple::Con<constraints::Inequality>>(a, b, c2), 1);
    p.prob->SetConstraint(std::make_shared<simple::Con<constraints::Equality>>(a, VectorXd::Zero(1), c), kN);
  }
};

template <class T>
std::shared_ptr<T> guess(int which) {
  auto Z = std::make_shared<T>(2, 1, kN);
  float t = 0;
  for (int k = 0; k <= kN; ++k) {
    float h = k == kN ? 0.0F : (which == 1 ? 0.125F * (k + 1) : 0.25F);
    Z->SetTime(k, t); Z->SetStep(k, h);
    t += h;
    Z->State(k).setConstant(which + 9.0);
    if (k < kN) Z->Control(k)(0) = which == 1 ? 1.5 - k : 0.1 * k;
  }
  return Z;
}

enum Alt { PLAIN, SHORT, LIMITED, REG, KEEP, NALT };
void set_options(SolverOptions& o, int alt) {
  o = SolverOptions();
  o.max_iterations_inner = 6; o.max_iterations_outer = 3; o.max_iterations_total = 12;
  if (alt == SHORT) { o.max_iterations_inner = 1; o.max_iterations_total = 2; o.max_iterations_outer = 1; }
  if (alt == LIMITED) { o.control_max = 0.05; o.line_search_max_iterations = 2; o.initial_penalty = 50; }
  if (alt == REG) { o.bp_reg_initial = 5.0; o.bp_reg_increase_factor = 3; o.cost_tolerance = 1e-9; o.max_iterations_total = 5; }
  if (alt == KEEP) { o.reset_duals = false; o.initial_penalty = 0; }
}

struct Result {
  int status = 0, inner_status = 0;
  std::vector<double> v;       // everything numeric
  int counters[3] = {0, 0, 0};
};

template <class S>
Result collect(S& s, typename Traits<S>::T& Z) {
  Result q;
  auto& il = Traits<S>::ilqr(s);
  q.status = static_cast<int>(s.GetStatus());
  q.inner_status = static_cast<int>(il.GetStatus());
  const SolverStats& st = s.GetStats();
  q.counters[0] = st.iterations_inner; q.counters[1] = st.iterations_outer; q.counters[2] = st.iterations_total;
  auto put = [&](double d) { q.v.push_back(d); };
  auto series = [&](const std::vector<double>& v) { put(v.size()); for (double d : v) put(d); };
  series(st.cost); series(st.violations); series(st.cost_decrease); series(st.gradient); series(st.alpha);
  series(st.regularization); series(st.improvement_ratio); series(st.max_penalty);
  put(st.initial_cost);
  put(il.GetRegularization());
  for (int k = 0; k <= kN; ++k) {
    for (int i = 0; i < 2; ++i) put(Z.State(k)(i));
    put(Z.Control(k)(0)); put(Z.GetTime(k)); put(Z.GetStep(k));
    if (k < kN) { put(il.GetKnotPointFunction(k).GetFeedforwardGain()(0)); put(il.GetKnotPointFunction(k).GetFeedbackGain()(0, 0)); put(il.GetKnotPointFunction(k).GetFeedbackGain()(0, 1)); }
  }
  put(il.Cost());
  return q;
}
// multipliers and penalties (read: out, write: in)
template <int n, int m> void duals(IL<n, m>&, std::vector<double>&, bool) {}
template <int n, int m> void duals(AL<n, m>& s, std::vector<double>& v, bool write) {
  size_t i = 0;
  auto each = [&](VectorXd& x) { for (int j = 0; j < x.size(); ++j) { if (write) x(j) = v[i++]; else v.push_back(x(j)); } };
  for (int k = 0; k <= kN; ++k) {
    for (auto& c : s.GetALCost(k)->GetEqualityConstraints()) { each(c->GetDuals()); each(c->GetPenalty()); }
    for (auto& c : s.GetALCost(k)->GetInequalityConstraints()) { each(c->GetDuals()); each(c->GetPenalty()); }
  }
}

bool same(double a, double b) { return a == b || (a != a && b != b); }
bool close(double a, double b) { return same(a, b) || std::abs(a - b) <= 1e-7 * (1 + std::abs(b)); }
void compare(mc::Run& r, const Result& a, const Result& b, bool exact, const char* what) {
  r.checkf(a.status == b.status && a.inner_status == b.inner_status, "status-differs", [&] { return mc::str(what, ": status ", a.status, "/", a.inner_status, ", expected ", b.status, "/", b.inner_status); });
  for (int i = 0; i < 3; ++i) r.checkf(a.counters[i] == b.counters[i], "counter-differs", [&] { return mc::str(what, ": iteration counter ", i, " is ", a.counters[i], ", expected ", b.counters[i]); });
  r.checkf(a.v.size() == b.v.size(), "history-differs", [&] { return mc::str(what, ": lengths of the histories differ"); });
  for (size_t i = 0; i < a.v.size(); ++i)
    r.checkf(exact ? same(a.v[i], b.v[i]) : close(a.v[i], b.v[i]), "result-differs", [&] { return mc::str(what, ": number ", i, " of the results is ", a.v[i], ", expected ", b.v[i]); });
}

template <class S>
std::unique_ptr<S> fresh(const problem::Problem& P) { auto s = std::make_unique<S>(P); set_options(s->GetOptions(), PLAIN); return s; }

// one final solve
template <class S>
Result final_solve(S& s, int alt, int g) {
  set_options(s.GetOptions(), alt);
  auto Z = guess<typename Traits<S>::T>(g);
  s.SetTrajectory(Z);
  s.Solve();
  return collect(s, *Z);
}

template <class S>
void used(mc::Run& r, int depth, bool threads, Result* out) {
  using T = typename Traits<S>::T;
  Prb P;
  auto s = fresh<S>(*P.p.prob);
  std::vector<std::shared_ptr<T>> keep;
  std::vector<std::unique_ptr<S>> others;
  bool linked = false;
  int nthreads = 1;
  auto link = [&](int g) { keep.push_back(guess<T>(g)); s->SetTrajectory(keep.back()); linked = true; };
  auto opts = [&](int a) { set_options(s->GetOptions(), a); s->GetOptions().nthreads = nthreads; };
  mc::CaptureStdout quiet;
  for (int i = 0; i < depth; ++i) {
    int op = threads ? r.choose(8, "use") : r.choose(14, "use");
    if (threads && op >= 3) op += 20;
    switch (op) {
      case 0: r.note("nothing"); i = depth; break;      // shorter histories
      case 1: r.note("solve"); opts(PLAIN); link(0); s->Solve(); break;
      case 2: r.note("moved to a new object"); { auto t = std::make_unique<S>(std::move(*s)); s = std::move(t); } break;
      case 3: r.note("short solve of another guess and time grid"); opts(SHORT); link(1); s->Solve(); break;
      case 4: r.note("solve with tight limits"); opts(LIMITED); link(0); s->Solve(); break;
      case 5: r.note("solve with large regularization"); opts(REG); link(1); s->Solve(); break;
      case 6: r.note("solve from another initial state"); P.p.prob->SetInitialState(VectorXd::Constant(2, -2.0)); opts(PLAIN); link(0); s->Solve(); P.p.prob->SetInitialState(P.x0); break;
      case 7: r.note("verbose solve"); opts(PLAIN); s->GetOptions().verbose = LogLevel::kInnerDebug; link(0); s->Solve(); break;
      case 8: r.note("profiled solve"); opts(PLAIN); s->GetOptions().profiler_enable = true; link(1); s->Solve(); break;
      case 9: r.note("solve keeping multipliers and penalties"); opts(KEEP); link(1); s->Solve(); break;
      case 10: {
        r.note("single steps of the algorithm");
        opts(REG); link(0);
        auto& il = Traits<S>::ilqr(*s);
        il.Rollout(); il.UpdateExpansions(); il.BackwardPass(); il.ForwardPass();
        break;
      }
      case 11: r.note("cost of another trajectory"); if (!linked) link(0); Traits<S>::ilqr(*s).Cost(*guess<T>(1)); break;
      case 12: r.note("another solver of the same problem solves"); others.push_back(fresh<S>(*P.p.prob)); final_solve(*others.back(), REG, 1); break;
      case 13: r.note("another solver is interleaved"); {
        others.push_back(fresh<S>(*P.p.prob));
        S& b = *others.back();
        b.SetTrajectory(guess<T>(1)); opts(PLAIN); link(0);
        auto &x = Traits<S>::ilqr(*s), &y = Traits<S>::ilqr(b);
        x.Rollout(); y.Rollout(); y.UpdateExpansions(); x.UpdateExpansions(); y.BackwardPass(); x.BackwardPass(); y.ForwardPass(); x.ForwardPass();
        break;
      }
      case 23: r.note("two threads"); nthreads = 2; opts(PLAIN); link(0); s->Solve(); break;
      case 24: r.note("three threads, two tasks each"); nthreads = 3; opts(PLAIN); s->GetOptions().tasks_per_thread = 2; link(1); s->Solve(); break;
      case 25: r.note("back to one thread"); nthreads = 1; opts(SHORT); link(1); s->Solve(); break;
      case 26: r.note("own task division"); Traits<S>::ilqr(*s).SetTaskAssignment({0, 1, kN + 1}); break;
      case 27: r.note("single steps"); { opts(PLAIN); link(0); auto& il = Traits<S>::ilqr(*s); il.Rollout(); il.UpdateExpansions(); il.BackwardPass(); } break;
      default: break;
    }
    r.transition();
  }
  int alt = r.choose(NALT, "options of the final solve");
  int g = r.choose(2, "guess of the final solve");
  int fin_threads = threads ? r.choose(2, "threads of the final solve") + 1 : 1;
  std::vector<double> d;
  if (alt == KEEP) duals(*s, d, false);
  auto run = [&](S& q) {
    set_options(q.GetOptions(), alt);
    q.GetOptions().nthreads = fin_threads;
    auto Z = guess<T>(g);
    q.SetTrajectory(Z);
    q.Solve();
    return collect(q, *Z);
  };
  Result a = run(*s);
  Prb P2;
  auto f = fresh<S>(*P2.p.prob);
  if (alt == KEEP) duals(*f, d, true);
  Result b = run(*f);
  compare(r, a, b, true, "used solver against a fresh one");
  uint64_t h = a.status;
  for (double x : a.v) h = mc::hashd(h, x);
  r.state(mc::mix(h, depth));
  r.outcome(h);
  if (out) *out = a;
  // and once more: the very same solve repeated
  if (alt != KEEP) compare(r, run(*s), b, true, "the same solve repeated");
}

template <class S>
void add(mc::Spec& sp, const char* name, int depth, bool threads) {
  mc::Scenario sc;
  sc.name = name;
  sc.bound = mc::str("every history of at most ", depth, " uses out of ", threads ? 7 : 13, ", then 5 option sets x 2 guesses", threads ? " x 2 thread counts" : "", " for the compared solve");
  sc.exec_limit_s = 60;
  sc.body = [=](mc::Run& r) { used<S>(r, depth, threads, nullptr); };
  sp.scenarios.push_back(sc);
}
// First solves that end in every way (limits, penalties, tolerances, options in effect), then the compared one
enum { ENDINGS = 12 };
void ending(SolverOptions& o, int e) {
  set_options(o, PLAIN);
  switch (e) {
    case 0: o.max_iterations_inner = 100; o.max_iterations_outer = 30; o.max_iterations_total = 300; break;      // to convergence
    case 1: o.maximum_penalty = 5; break;
    case 2: o.max_iterations_total = 3; break;
    case 3: o.max_iterations_outer = 1; break;
    case 4: o.max_iterations_inner = 1; o.max_iterations_total = 300; break;
    case 5: o.state_max = 0.5; break;
    case 6: o.control_max = 0.05; break;
    case 7: o.line_search_max_iterations = 1; o.line_search_lower_bound = 0.999; o.cost_tolerance = 0; o.gradient_tolerance = 0; break;
    case 8: o.line_search_max_iterations = 0; o.bp_reg_initial = 1; o.bp_reg_max = 2; break;
    case 9: o.constraint_tolerance = 10; break;
    case 10: o.constraint_tolerance = 1e-12; o.initial_penalty = 100; o.max_iterations_outer = 6; o.max_iterations_total = 100; break;
    case 11: o.max_iterations_total = 0; break;
  }
}
template <class S>
void add_endings(mc::Spec& sp, const char* name, int depth) {
  mc::Scenario sc;
  sc.name = name;
  sc.bound = mc::str("every sequence of at most ", depth, " solves with ", int(ENDINGS), " option sets that end in different ways and 2 guesses, then 4 option sets x 2 guesses for the compared solve");
  sc.exec_limit_s = 60;
  sc.body = [=](mc::Run& r) {
    using T = typename Traits<S>::T;
    Prb P, P2;
    auto s = fresh<S>(*P.p.prob);
    mc::CaptureStdout quiet;
    std::vector<std::shared_ptr<T>> keep;
    uint64_t h = 0;
    for (int i = 0; i < depth; ++i) {
      int e = r.choose(ENDINGS + (i > 0), "options of an earlier solve");
      if (e == ENDINGS) break;
      ending(s->GetOptions(), e);
      keep.push_back(guess<T>(r.choose(2, "guess of an earlier solve")));
      s->SetTrajectory(keep.back());
      s->Solve();
      r.transition();
      h = mc::mix(h, 100 * e + static_cast<int>(s->GetStatus()));
      if (r.recording()) r.note(mc::str("ends with status ", static_cast<int>(s->GetStatus())));
    }
    int alt = r.choose(NALT - 1, "options of the final solve"), g = r.choose(2, "guess of the final solve");   // not KEEP
    auto f = fresh<S>(*P2.p.prob);
    Result a = final_solve(*s, alt, g), b = final_solve(*f, alt, g);
    compare(r, a, b, true, "solver used before against a fresh one");
    r.state(h);
    for (double x : a.v) h = mc::hashd(h, x);
    r.outcome(h);
  };
  sp.scenarios.push_back(sc);
}
// A solve that is ended by an exception of a user function, at any call, then the compared solve
template <class S>
void add_thrown(mc::Spec& sp, const char* name, int calls) {
  mc::Scenario sc;
  sc.name = name;
  sc.bound = mc::str("a solve ended by an exception of the user's function at any of the first ", calls, " calls, with the profiler off or on, then 4 option sets x 2 guesses for the compared solve");
  sc.exec_limit_s = 60;
  sc.body = [=](mc::Run& r) {
    struct Thrown : std::runtime_error { using std::runtime_error::runtime_error; };
    using T = typename Traits<S>::T;
    Prb P, P2;
    int left = 0;
    auto hook = [&left](const VectorXdRef&, const VectorXdRef&) { if (left > 0 && --left == 0) throw Thrown("thrown by the user's function"); };
    for (auto& d : P.p.dyn) { d->on_eval = hook; d->on_jac = hook; }
    for (auto& c : P.p.cost) { c->on_eval = hook; c->on_grad = hook; c->on_hess = hook; }
    mc::CaptureStdout quiet;
    auto s = fresh<S>(*P.p.prob);
    auto Z = guess<T>(1);
    int at = r.choose(calls / 100 + 1, "hundreds"), at2 = r.choose(100, "call");
    at = at * 100 + at2;
    s->GetOptions().profiler_enable = r.choose(2, "profiler");
    s->SetTrajectory(Z);
    left = at + 1;
    bool thrown = false;
    try { s->Solve(); } catch (const Thrown&) { thrown = true; }
    r.check(thrown || left > 0, "exception-lost", "the exception of a user function did not end the solve");
    left = 0;
    r.transition();
    int alt = r.choose(NALT - 1, "options of the final solve"), g = r.choose(2, "guess of the final solve");
    auto f = fresh<S>(*P2.p.prob);
    Result a = final_solve(*s, alt, g), b = final_solve(*f, alt, g);
    compare(r, a, b, true, "solver whose last solve was ended by an exception against a fresh one");
    uint64_t h = mc::mix(at, thrown);
    r.state(h);
    for (double x : a.v) h = mc::hashd(h, x);
    r.outcome(h);
  };
  sp.scenarios.push_back(sc);
}
template <class A, class B>
void add_sizes(mc::Spec& sp, const char* name) {
  mc::Scenario sc;
  sc.name = name;
  sc.bound = "5 option sets x 2 guesses x 3 initial states, fixed-size against run-time-sized solver, trajectories linked or made by the solver";
  sc.body = [=](mc::Run& r) {
    Prb P;
    int x = r.choose(3, "initial state");
    if (x) P.p.prob->SetInitialState(VectorXd::Constant(2, x == 1 ? -1.5 : 3.0));
    int alt = r.choose(NALT, "options"), g = r.choose(2, "guess");
    auto a = fresh<A>(*P.p.prob);
    auto b = fresh<B>(*P.p.prob);
    mc::CaptureStdout quiet;
    Result ra = final_solve(*a, alt, g), rb = final_solve(*b, alt, g);
    r.transition(2);
    compare(r, ra, rb, false, "fixed-size against run-time-sized");
    uint64_t h = 0;
    for (double v : ra.v) h = mc::hashd(h, v);
    r.state(h);
    r.outcome(h);
  };
  sp.scenarios.push_back(sc);
}
template <class S>
void add_made(mc::Spec& sp, const char* name) {
  mc::Scenario sc;
  sc.name = name;
  sc.bound = "5 option sets x 3 step lengths, trajectory made by the solver against one made by the user";
  sc.body = [=](mc::Run& r) {
    using T = typename Traits<S>::T;
    Prb P;
    int alt = r.choose(NALT, "options");
    float h = r.pick({0.25F, 0.1F, 0.5F}, "step");
    auto a = fresh<S>(*P.p.prob), b = fresh<S>(*P.p.prob);
    set_options(a->GetOptions(), alt); set_options(b->GetOptions(), alt);
    auto Z = a->MakeTrajectory(h);
    for (int k = 0; k <= kN; ++k) r.check(Z->State(k).size() == 2 && Z->Control(k).size() == 1 && Z->State(k).norm() == 0 && Z->Control(k).norm() == 0, "made-trajectory", "the trajectory made by the solver is not zero and of the problem's size");
    r.check(a->GetTrajectory() == Z, "made-trajectory", "the trajectory made by the solver is not linked");
    auto Y = std::make_shared<T>(2, 1, kN);
    Y->SetUniformStep(h);
    b->SetTrajectory(Y);
    a->Solve(); b->Solve();
    r.transition(2);
    compare(r, collect(*a, *Z), collect(*b, *Y), true, "made trajectory against given trajectory");
    r.state(mc::hashd(alt, h));
    r.outcome(mc::hashd(alt, Z->State(kN)(0)));
  };
  sp.scenarios.push_back(sc);
}
}  // namespace

int main(int argc, char** argv) {
  mc::Spec s;
  s.property = "P10";
  s.unit = "one execution = one history of uses of a real solver followed by the same solve on it and on a fresh solver; state = distinct result; transition = one use";
  s.assumptions = {"user functions free of side effects; fixed-size and run-time-sized solvers are compared within 1e-7, everything else exactly"};
  bool q = !mc::thorough();
  add<IL<X, X>>(s, "ilqr-histories", q ? 3 : 4, false);
  add<AL<X, X>>(s, "al-histories", 3, false);
  add<IL<2, 1>>(s, "ilqr-fixed-histories", q ? 2 : 3, false);
  add<AL<2, 1>>(s, "al-fixed-histories", q ? 2 : 3, false);
  add<IL<X, X>>(s, "ilqr-threads", q ? 2 : 3, true);
  add<AL<X, X>>(s, "al-threads", 2, true);
  add_endings<IL<X, X>>(s, "ilqr-endings", q ? 2 : 3);
  add_endings<AL<X, X>>(s, "al-endings", q ? 2 : 3);
  add_thrown<IL<X, X>>(s, "ilqr-thrown", q ? 199 : 999);
  add_thrown<AL<X, X>>(s, "al-thrown", q ? 199 : 999);
  add_sizes<IL<2, 1>, IL<X, X>>(s, "ilqr-sizes");
  add_sizes<AL<2, 1>, AL<X, X>>(s, "al-sizes");
  add_made<IL<X, X>>(s, "made-dynamic");
  add_made<IL<2, 1>>(s, "made-fixed");
  return mc::main_driver(argc, argv, s);
}
