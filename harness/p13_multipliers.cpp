// check: P13 variant=plain sources=all
// Multiplier and penalty updates: every outer iteration of the solve under test is observed by re-running the same
// history with the outer iterations cut off, and compared with the update rules applied to the trajectory held then.
#include "al_fixture.hpp"
using namespace alfix;

namespace {
struct Plan { int layout, setting, pen, reset; std::vector<int> uses; };

// runs the history, then the solve with at most `cap` outer iterations
template <int n, int m>
Snapshot execute(const Plan& p, int cap, Snapshot* before, std::vector<V>* phi, std::unique_ptr<Fix<n, m>>* keep = nullptr) {
  auto f = std::make_unique<Fix<n, m>>(p.layout);
  for (int u : p.uses) use(*f, u);
  f->fresh_guess(0);
  if (before) { *before = f->snap(); *phi = f->phi; }
  auto& o = f->s->GetOptions();
  bool keeping = !o.reset_duals;
  settings(o, p.setting);
  if (!keeping) { o.reset_duals = p.reset; o.initial_penalty = p.pen == 0 ? 1.0 : p.pen == 1 ? 5.0 : 0.0; }
  o.max_iterations_outer = std::min(cap, o.max_iterations_outer);
  f->s->Solve();
  Snapshot q = f->snap();
  if (keep) *keep = std::move(f);
  return q;
}
bool near(double a, double b, double sc) { return std::abs(a - b) <= 1e-9 * (1 + sc); }

template <int n, int m>
void follow(mc::Run& r, const Plan& p) {
  Snapshot before; std::vector<V> phi;
  std::unique_ptr<Fix<n, m>> f;
  Snapshot full = execute<n, m>(p, 1000, &before, &phi, &f);
  auto& o = f->s->GetOptions();
  std::vector<V> lam = before.lam, rho = before.rho;
  if (o.reset_duals) for (auto& l : lam) for (double& v : l) v = 0;
  if (o.initial_penalty > 0) for (auto& q : rho) for (double& v : q) v = o.initial_penalty;
  r.cover(mc::str("outer iterations ", full.outer).c_str());
  for (int j = 1; j <= full.outer; ++j) {
    Snapshot q = j == full.outer ? full : execute<n, m>(p, j, nullptr, nullptr);
    r.transition();
    r.checkf(q.outer == j, "outer-count", [&] { return mc::str("the solve cut off after ", j, " outer iterations performed ", q.outer); });
    std::vector<V> c = f->values(q);
    double pmax = 0;
    for (size_t i = 0; i < lam.size(); ++i)
      for (size_t e = 0; e < lam[i].size(); ++e) {
        double want = projd(f->items[i].e.eq, lam[i][e] - rho[i][e] * c[i][e]);
        r.checkf(near(q.lam[i][e], want, std::abs(lam[i][e]) + rho[i][e] * std::abs(c[i][e])), "multiplier-update", [&] {
          return mc::str("after outer iteration ", j, " multiplier ", e, " of ", f->items[i].label, " at step ", f->items[i].k, " is ", q.lam[i][e], ", the rule gives ", want, " (previous ", lam[i][e], ", penalty ", rho[i][e], ", constraint value ", c[i][e], ")"); });
        r.checkf(f->items[i].e.eq || q.lam[i][e] <= 0, "multiplier-sign", [&] { return mc::str("inequality multiplier ", q.lam[i][e], " has the wrong sign"); });
        r.checkf(near(q.rho[i][e], rho[i][e], rho[i][e]), "penalty-value", [&] { return mc::str("penalty of ", f->items[i].label, " in outer iteration ", j, " is ", q.rho[i][e], ", expected ", rho[i][e]); });
        r.checkf(q.rho[i][e] > 0, "penalty-not-positive", [&] { return mc::str("penalty ", q.rho[i][e]); });
        pmax = std::max(pmax, rho[i][e]);
        lam[i][e] = q.lam[i][e];
      }
    r.checkf(near(q.stat_pen, pmax, pmax), "penalty-statistic", [&] { return mc::str("recorded maximum penalty ", q.stat_pen, ", in use ", pmax); });
    r.checkf(near(f->s->GetMaxPenalty(), [&] { double d = 0; for (auto& w : full.rho) for (double v : w) d = std::max(d, v); return d; }(), 0), "penalty-statistic", [&] { return mc::str("GetMaxPenalty() is ", f->s->GetMaxPenalty()); });
    uint64_t h = p.layout; for (auto& l : q.lam) for (double v : l) h = mc::hashd(h, v); for (auto& l : q.rho) for (double v : l) h = mc::hashd(h, v);
    r.state(h); r.outcome(h);
    for (size_t i = 0; i < rho.size(); ++i) for (size_t e = 0; e < rho[i].size(); ++e) rho[i][e] *= phi[i][e];
  }
}

template <int n, int m>
void histories(mc::Run& r, int depth, bool all_settings) {
  Plan p;
  p.layout = r.choose(kLayouts, "layout");
  p.setting = all_settings ? r.choose(NSETTING, "setting") : r.pick<int>({LOOSE, PLAIN}, "setting");
  int po = r.choose(all_settings ? 6 : 3, "penalty option");
  p.pen = po % 3; p.reset = all_settings ? po < 3 : po != 2;
  for (int d = 0; d < depth; ++d) {
    int u = r.choose(kUses, "use");
    if (u == 0) break;
    p.uses.push_back(u);
    if (r.recording()) r.note(use_name(u));
  }
  r.note(mc::str("layout ", p.layout, ", settings ", p.setting, ", initial penalty option ", p.pen, ", reset ", p.reset));
  follow<n, m>(r, p);
}

// the steps of the outer loop called one by one in any order
template <int n, int m>
void manual(mc::Run& r, int depth) {
  int lay = r.pick<int>({0, 3, 4}, "layout");
  Fix<n, m> f(lay);
  settings(f.s->GetOptions(), LOOSE);
  Snapshot q = f.snap();
  std::vector<V> lam = q.lam, rho = q.rho, c;
  for (auto& l : lam) c.push_back(V(l.size(), 0.0));
  for (int d = 0; d < depth; ++d) {
    int op = r.choose(9, "op");
    r.transition();
    switch (op) {
      case 0: r.note("evaluate the violation"); f.s->MaxViolation(); c = f.values(f.snap()); break;
      case 1: r.note("inner solve"); f.s->GetiLQRSolver().Solve(); c = f.values(f.snap()); break;
      case 2: r.note("update duals"); f.s->UpdateDuals(); for (size_t i = 0; i < lam.size(); ++i) for (size_t e = 0; e < lam[i].size(); ++e) lam[i][e] = projd(f.items[i].e.eq, lam[i][e] - rho[i][e] * c[i][e]); break;
      case 3: r.note("update penalties"); f.s->UpdatePenalties(); for (size_t i = 0; i < rho.size(); ++i) for (size_t e = 0; e < rho[i].size(); ++e) rho[i][e] *= f.phi[i][e]; break;
      case 4: r.note("reset duals"); f.s->ResetDualVariables(); for (auto& l : lam) for (double& v : l) v = 0; break;
      case 5: use(f, 4); r.note("penalty 7"); for (auto& l : rho) for (double& v : l) v = 7; break;
      case 6: use(f, 7); r.note("scaling 4 at the last step"); break;
      case 7: r.note("the trajectory is changed and evaluated"); for (int k = 0; k < kSteps; ++k) f.Z->Control(k)(0) += 1.75; f.s->MaxViolation(); c = f.values(f.snap()); break;
      case 8: r.note("Init()"); f.s->GetOptions().initial_penalty = 2.5; f.s->GetOptions().reset_duals = false; f.s->Init(); for (auto& l : rho) for (double& v : l) v = 2.5; c = f.values(f.snap()); break;
    }
    settings(f.s->GetOptions(), LOOSE);
    q = f.snap();
    uint64_t h = 0;
    for (size_t i = 0; i < lam.size(); ++i) for (size_t e = 0; e < lam[i].size(); ++e) {
      r.checkf(near(q.lam[i][e], lam[i][e], std::abs(lam[i][e]) + rho[i][e] * std::abs(c[i][e])), "multiplier-update", [&] { return mc::str("multiplier ", e, " of ", f.items[i].label, " at step ", f.items[i].k, " is ", q.lam[i][e], ", the rule gives ", lam[i][e]); });
      r.checkf(near(q.rho[i][e], rho[i][e], rho[i][e]), "penalty-value", [&] { return mc::str("penalty of ", f.items[i].label, " at step ", f.items[i].k, " is ", q.rho[i][e], ", expected ", rho[i][e]); });
      h = mc::hashd(mc::hashd(h, lam[i][e]), rho[i][e]);
    }
    r.state(h);
  }
}
}  // namespace

int main(int argc, char** argv) {
  mc::Spec spec;
  spec.property = "P13";
  spec.unit = "execution = one history of uses followed by a solve observed after each of its outer iterations; transition = one outer iteration (or one update step) compared with the rules";
  spec.assumptions = {"the penalty is the same for all elements of one constraint when a solve starts (the interface sets it per constraint)", "agreement up to 1e-9 relative"};
  int d = mc::tier(3, 4);
  spec.scenarios.push_back({"settings-fixed", "9 constraint layouts x 5 solver settings x 6 penalty/reset options x every history of at most 2 of 12 uses", [](mc::Run& r) { histories<2, 1>(r, 2, true); }});
  spec.scenarios.push_back({"settings-dynamic", "9 constraint layouts x 5 solver settings x 6 penalty/reset options x every history of at most 2 of 12 uses", [](mc::Run& r) { histories<X, X>(r, 2, true); }});
  spec.scenarios.push_back({"histories-fixed", mc::str("9 constraint layouts x 2 settings x 3 penalty/reset options x every history of at most ", d, " of 12 uses"), [d](mc::Run& r) { histories<2, 1>(r, d, false); }});
  int md = mc::tier(6, 7);
  spec.scenarios.push_back({"manual-fixed", mc::str("every sequence of ", md, " of 9 steps of the outer loop called by hand, 3 layouts"), [md](mc::Run& r) { manual<2, 1>(r, md); }});
  spec.scenarios.push_back({"manual-dynamic", mc::str("every sequence of ", md, " of 9 steps of the outer loop called by hand, 3 layouts"), [md](mc::Run& r) { manual<X, X>(r, md); }});
  return mc::main_driver(argc, argv, spec);
}
