// check: P20 variant=asan sources=common,utils
// Every sequence of operations on statistics objects against a plain record of what was logged.
#include <array>
#include <cmath>
#include <limits>
#include <memory>
#include <string>
#include <vector>
#include "altro/common/solver_stats.hpp"
#include "mc.hpp"
using namespace altro;

namespace {
const std::vector<std::string> kTitles = {"cost", "viol", "dJ", "grad", "alpha", "reg", "z", "pen"};
const std::vector<std::vector<double> SolverStats::*> kSeries = {&SolverStats::cost, &SolverStats::violations, &SolverStats::cost_decrease, &SolverStats::gradient,
                                                              &SolverStats::alpha, &SolverStats::regularization, &SolverStats::improvement_ratio, &SolverStats::max_penalty};
struct Rec {
  std::array<std::vector<double>, 8> s;
  int len = 0, inner = 0, outer = 0, total = 0;
  double initial = 0;
  LogLevel level = LogLevel::kSilent;
  void next() { ++len; for (auto& v : s) v.push_back(v.empty() ? 0.0 : v.back()); }
  void clear() { for (auto& v : s) v.clear(); len = inner = outer = total = 0; initial = 0; }
};
bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }

void compare(mc::Run& r, const SolverStats& s, const Rec& q, const std::string& who) {
  for (size_t i = 0; i < kTitles.size(); ++i) {
    const std::vector<double>& v = s.*kSeries[i];
    r.checkf(static_cast<int>(v.size()) == q.len, "length", [&] { return mc::str(who, ": series ", kTitles[i], " has ", v.size(), " entries after ", q.len, " iterations"); });
    for (int k = 0; k < q.len; ++k)
      r.checkf(same(v[k], q.s[i][k]), "value", [&] { return mc::str(who, ": series ", kTitles[i], " iteration ", k, " is ", v[k], ", expected ", q.s[i][k]); });
  }
  r.checkf(s.iterations_inner == q.inner && s.iterations_outer == q.outer && s.iterations_total == q.total && same(s.initial_cost, q.initial), "counters",
           [&] { return mc::str(who, ": counters ", s.iterations_inner, " ", s.iterations_outer, " ", s.iterations_total, " ", s.initial_cost); });
  r.checkf(s.GetVerbosity() == q.level, "verbosity", [&] { return mc::str(who, ": verbosity ", static_cast<int>(s.GetVerbosity())); });
}

template <class T>
void log(SolverStats& s, Rec& q, const std::string& title, T v) {
  s.Log(title, v);
  if (q.len == 0) q.next();
  for (size_t i = 0; i < kTitles.size(); ++i) if (kTitles[i] == title) q.s[i].back() = static_cast<double>(v);
}

// every name goes to its own series, whatever the value and the verbosity
void names(mc::Run& r) {
  mc::CaptureStdout quiet;
  SolverStats s;
  Rec q;
  int lv = r.choose(6, "verbosity");
  s.SetVerbosity(static_cast<LogLevel>(lv)); q.level = static_cast<LogLevel>(lv);
  const double inf = std::numeric_limits<double>::infinity(), nan = std::numeric_limits<double>::quiet_NaN();
  int n = 1 + r.choose(mc::tier(2, 3), "values");
  for (int i = 0; i < n; ++i) {
    int t = r.choose(12, "name");
    std::string title = t < 8 ? kTitles[t] : (t == 8 ? "iters" : t == 9 ? "iter_al" : t == 10 ? "unknown" : "");
    double v = i > 0 ? 1.5 + i : r.pick({1.5, -0.0, inf, nan, -inf, 1e-300, -1e300}, "value");
    bool adv = r.flag("new iteration first");
    if (adv) { s.NewIteration(); q.next(); }
    if (t == 8 || t == 9) log(s, q, title, 3); else log(s, q, title, v);
    if (r.recording()) r.note(mc::str("Log(", title, ",", v, ")"));
    r.transition();
    s.PrintLast();
    compare(r, s, q, mc::str("after Log(", title, ",", v, ")"));
    r.state(mc::hashd(mc::mix(mc::mix(t, lv), q.len), v));
  }
  r.outcome(mc::mix(q.len, lv));
}

void ops(mc::Run& r, int depth) {
  std::vector<std::unique_ptr<SolverStats>> z;
  std::vector<Rec> q;
  z.emplace_back(new SolverStats); q.emplace_back();
  compare(r, *z[0], q[0], "new statistics");
  double v = 1;
  uint64_t h = 0;
  for (int i = 0; i < depth; ++i) {
    int at = z.size() > 1 ? r.choose(static_cast<int>(z.size()), "object") : 0;
    SolverStats& s = *z[at];
    Rec& e = q[at];
    int op = r.choose(17, "operation");
    auto other = [&]() { return z.size() > 1 ? r.choose(static_cast<int>(z.size()), "other") : 0; };
    std::string what;
    r.transition();
    h = mc::mix(mc::mix(h, op), at);
    switch (op) {
      case 0: log(s, e, "cost", v); what = mc::str("Log(cost,", v, ")"); break;
      case 1: s.NewIteration(); e.next(); what = "NewIteration()"; break;
      case 2: log(s, e, "viol", v); what = mc::str("Log(viol,", v, ")"); break;
      case 3: log(s, e, "nosuch", v); what = "Log(nosuch)"; break;
      case 4: s.Reset(); e.clear(); e.level = s.GetOptions().verbose; what = "Reset()"; break;
      case 5: s.SetCapacity(r.pick({0, 1, 64}, "capacity")); what = "SetCapacity()"; break;
      case 6: s.SetTolerances(1e-3, 1e-4, 1e-5); what = "SetTolerances()"; break;
      case 7: if (z.size() < 3) { z.emplace_back(new SolverStats(s)); Rec c = q[at]; q.push_back(c); what = "copy"; } break;
      case 8: { int o = other(); *z[o] = s; Rec c = q[at]; q[o] = c; what = mc::str("copy-assigned to ", o); h = mc::mix(h, o); break; }
      case 9: z[at].reset(new SolverStats(std::move(*z[at]))); what = "moved into a new object"; break;
      case 10: { int o = other(); if (o != at) { *z[o] = std::move(*z[at]); q[o] = q[at]; z[at].reset(new SolverStats); q[at] = Rec(); } what = mc::str("move-assigned to ", o); h = mc::mix(h, o); break; }
      case 11: s.iterations_inner++; s.iterations_total += 2; s.iterations_outer += 3; s.initial_cost = v; e.inner++; e.total += 2; e.outer += 3; e.initial = v; what = "counters"; break;
      case 12: s.ClearData(); e.clear(); what = "ClearData()"; break;
      case 13: log(s, e, "pen", static_cast<int>(v)); what = "Log(pen, int)"; break;
      case 14: if (z.size() > 1) { z.erase(z.begin() + at); q.erase(q.begin() + at); what = "destroyed"; } break;
      case 15: for (int k = 0; k < 3; ++k) { s.NewIteration(); e.next(); log(s, e, "alpha", v + k); } what = "three iterations"; break;
      case 16: { SolverStats c(s); c.Log("cost", -5.0); c.NewIteration(); c.Reset(); what = "changing a copy that is destroyed"; break; }
    }
    v += 1;
    if (r.recording()) r.note(mc::str("object ", at, ": ", what));
    for (size_t k = 0; k < z.size(); ++k) compare(r, *z[k], q[k], mc::str("object ", k, " after ", what));
    uint64_t g = 5;
    for (auto& p : q) { g = mc::mix(g, p.len); for (auto& y : p.s) for (double d : y) g = mc::hashd(g, d); g = mc::mix(g, p.inner); }
    r.state(g);
    r.outcome(g);
  }
}
}  // namespace

int main(int argc, char** argv) {
  mc::Spec s;
  s.property = "P20";
  s.unit = "state: contents of all live statistics objects; transition: one operation; trace: one sequence of operations";
  s.assumptions = {"the public series and counters are changed through the interface only (the counters are plain numbers the solver sets)"};
  auto add = [&](const std::string& name, const std::string& bound, std::function<void(mc::Run&)> f) {
    mc::Scenario c; c.name = name; c.bound = bound; c.body = f; s.scenarios.push_back(c);
  };
  int d = mc::tier(4, 5);
  add("names", "up to three values under every name (8 recorded, 2 printed only, 2 unknown) at every verbosity, with and without a new iteration, including infinities and NaN", names);
  add("operations", mc::str("all sequences of up to ", d, " operations out of 17 on up to three statistics objects"), [d](mc::Run& r) { ops(r, d); });
  return mc::main_driver(argc, argv, s);
}
