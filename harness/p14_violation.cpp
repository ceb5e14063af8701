// check: P14 variant=asan sources=all
// Every violation the library reports against the distance of the constraint values from their feasible set.
#include <algorithm>
#include <cmath>
#include <limits>
#include "al_fixture.hpp"
using namespace alfix;

namespace {
const double kNaN = std::numeric_limits<double>::quiet_NaN(), kInf = std::numeric_limits<double>::infinity();

double norm(const V& v, int p) {   // p: 1, 2, 0 = infinity; not a number as soon as one entry is
  double s = 0; bool nan = false;
  for (double d : v) { if (d != d) nan = true; double a = std::abs(d); s = p == 1 ? s + a : p == 2 ? s + a * a : std::max(s, a); }
  return nan ? kNaN : p == 2 ? std::sqrt(s) : s;
}
bool same(double a, double b) {
  if (b != b) return a != a;
  if (std::isinf(b)) return a == b;
  if (b == 0) return a == 0;
  return std::abs(a - b) <= 1e-12 * std::abs(b);
}

// Reports of a solver whose stored constraint values should be `c` (reference order)
template <int n, int m>
void reports(mc::Run& r, Solver<n, m>& s, const std::vector<Item>& items, const std::vector<V>& c, const char* when, bool relaxed_order = false) {
  int N = s.NumSegments();
  std::vector<V> v;
  for (size_t i = 0; i < items.size(); ++i) { V w; for (double d : c[i]) w.push_back(d != d ? kNaN : dist(items[i].e.eq, d)); v.push_back(w); }
  auto all = [&](int k, int type) { V w; for (size_t i = 0; i < items.size(); ++i) if ((k < 0 || items[i].k == k) && (type < 0 || items[i].e.eq == (type == 1))) w.insert(w.end(), v[i].begin(), v[i].end()); return w; };
  auto ck = [&](double got, const V& w, int p, const std::string& what) {
    double want = norm(w, p);
    r.checkf(same(got, want), "violation", [&] { return mc::str(when, ": ", what, " is ", got, ", the trajectory has ", want); });
  };
  r.transition();
  ck(s.GetMaxViolation(), all(-1, -1), 0, "GetMaxViolation()");
  ck(s.template GetMaxViolation<1>(), all(-1, -1), 1, "GetMaxViolation<1>()");
  ck(s.template GetMaxViolation<2>(), all(-1, -1), 2, "GetMaxViolation<2>()");
  size_t i = 0;
  for (int k = 0; k <= N; ++k) {
    auto al = s.GetALCost(k);
    ck(al->MaxViolation(), all(k, -1), 0, mc::str("violation of step ", k));
    ck(al->template MaxViolation<1>(), all(k, -1), 1, mc::str("1-norm violation of step ", k));
    ck(al->template MaxViolation<2>(), all(k, -1), 2, mc::str("2-norm violation of step ", k));
    auto one = [&](auto& con) {
      r.check(i < items.size(), "constraint-count", "more constraints than were specified");
      ck(con->MaxViolation(), v[i], 0, mc::str("violation of ", items[i].label, " at step ", k));
      ck(con->template MaxViolation<1>(), v[i], 1, mc::str("1-norm violation of ", items[i].label));
      VectorXd w = con->GetViolation();
      r.check(w.size() == static_cast<int>(v[i].size()), "listing", "length of a violation vector");
      for (int j = 0; j < w.size(); ++j) r.checkf(same(w(j), v[i][j]), "violation", [&] { return mc::str(when, ": violation entry ", j, " of ", items[i].label, " is ", w(j), ", expected ", v[i][j]); });
      ++i;
    };
    auto& eq = al->GetEqualityConstraints(); for (auto& con : eq) one(con);
    auto& in = al->GetInequalityConstraints(); for (auto& con : in) one(con);
  }
  // listings
  auto match = [&](const cons::ConstraintInfo& info, size_t j) {
    if (info.index != items[j].k || info.label != items[j].label || info.violation.size() != static_cast<int>(v[j].size())) return false;
    if (info.type != (items[j].e.eq ? "Equality Constraint" : "Inequality Constraint")) return false;
    for (int e = 0; e < info.violation.size(); ++e) if (!same(info.violation(e), v[j][e])) return false;
    return true;
  };
  std::vector<cons::ConstraintInfo> li = s.GetConstraintInfo();
  r.checkf(li.size() == items.size(), "listing", [&] { return mc::str(when, ": ", li.size(), " constraints listed, ", items.size(), " specified"); });
  for (size_t j = 0; j < li.size(); ++j) r.checkf(match(li[j], j), "listing", [&] { return mc::str(when, ": entry ", j, " of the listing is ", li[j].ToString(17), " (step ", li[j].index, "), expected ", items[j].label, " at step ", items[j].k); });
  // sorted on request; where one that is not a number belongs is not specified, the others must be in order whatever else is listed
  std::vector<cons::ConstraintInfo> so = s.GetConstraintInfo(true);
  r.check(so.size() == items.size(), "sorted-listing", "number of constraints in the sorted listing");
  std::vector<bool> used(items.size(), false);
  double last = kInf;
  for (size_t j = 0; j < so.size(); ++j) {
    bool found = false;
    for (size_t q = 0; q < items.size() && !found; ++q) if (!used[q] && match(so[j], q)) used[q] = found = true;
    r.checkf(found, "sorted-listing", [&] { return mc::str(when, ": entry ", j, " of the sorted listing (", so[j].ToString(17), ") is not a constraint of the problem or appears twice"); });
    if (so[j].violation.hasNaN()) continue;
    double w = so[j].violation.template lpNorm<Eigen::Infinity>();
    r.checkf(last >= w, "sorted-listing", [&] { return mc::str(when, ": the sorted listing is not in order of decreasing violation: ", w, " after ", last); });
    last = w;
  }
}

template <int n, int m>
void printed(mc::Run& r, Solver<n, m>& s, bool sort) {
  std::vector<cons::ConstraintInfo> li = s.GetConstraintInfo(sort);
  std::string want = mc::str("Got ", li.size(), " constraints\n");
  for (auto& i : li) {
    std::ostringstream o;
    o << i.label << " at index " << i.index << ": [";
    for (int e = 0; e < i.violation.size(); ++e) { std::ostringstream q; q.precision(3); q << i.violation(e); o << (e ? ", " : "") << q.str(); }
    o << "]\n";
    want += o.str();
  }
  std::string got;
  { mc::CaptureStdout cap; s.PrintViolations(sort, 3); got = cap.get(); }
  // padding, separators and brackets are a matter of taste
  auto squeeze = [](const std::string& t) {
    std::string o;
    for (char ch : t) {
      bool sep = ch == ' ' || ch == ',' || ch == '[' || ch == ']';
      if (sep) { if (!o.empty() && o.back() != ' ' && o.back() != '\n') o += ' '; continue; }
      if (ch == '\n' && !o.empty() && o.back() == ' ') o.pop_back();
      o += ch;
    }
    return o;
  };
  r.checkf(squeeze(got) == squeeze(want), "printed-listing", [&] { return "printed:\n" + got + "expected:\n" + want; });
}

// after every history of uses and a solve
template <int n, int m>
void solves(mc::Run& r, int depth) {
  int lay = r.choose(kLayouts, "layout"), set = r.choose(NSETTING, "setting");
  Fix<n, m> f(lay);
  for (int d = 0; d < depth; ++d) { int u = r.choose(kUses, "use"); if (u == 0) break; r.note(use_name(u)); use(f, u); }
  f.fresh_guess(set % 2);
  settings(f.s->GetOptions(), set);
  r.note(mc::str("layout ", lay, ", settings ", set));
  f.s->Solve();
  Snapshot q = f.snap();
  std::vector<V> c = f.values(q);
  reports(r, *f.s, f.items, c, "after the solve");
  // the recorded statistic is the violation of the trajectory held
  V all; for (size_t i = 0; i < c.size(); ++i) for (double d : c[i]) all.push_back(dist(f.items[i].e.eq, d));
  r.checkf(same(q.stat_viol, norm(all, 0)), "recorded-violation", [&] { return mc::str("the last recorded violation is ", q.stat_viol, ", the trajectory held has ", norm(all, 0)); });
  r.outcome(mc::hashd(lay, norm(all, 0)));
  // asking for the violation of a trajectory
  double mv = f.s->MaxViolation();
  r.checkf(same(mv, norm(all, 0)), "violation", [&] { return mc::str("MaxViolation() is ", mv, ", expected ", norm(all, 0)); });
  r.checkf(same(f.s->template MaxViolation<1>(), norm(all, 1)), "violation", [&] { return std::string("MaxViolation<1>()"); });
  typename Fix<n, m>::T other(*f.Z);
  Snapshot q2 = q;
  for (int k = 0; k <= kSteps; ++k) { other.State(k)(1) = 0.5 - k; other.Control(k)(0) = 1.5; q2.xs[k][1] = 0.5 - k; q2.us[k][0] = 1.5; }
  std::vector<V> c2 = f.values(q2);
  V all2; for (size_t i = 0; i < c2.size(); ++i) for (double d : c2[i]) all2.push_back(dist(f.items[i].e.eq, d));
  for (int back = 0; back < 2; ++back) {
    double o = f.s->MaxViolation(other);
    r.checkf(same(o, norm(all2, 0)), "violation", [&] { return mc::str("MaxViolation(other) is ", o, ", that trajectory has ", norm(all2, 0)); });
    double o1 = f.s->template MaxViolation<2>(other);
    r.checkf(same(o1, norm(all2, 2)), "violation", [&] { return mc::str("MaxViolation<2>(other) is ", o1, ", that trajectory has ", norm(all2, 2)); });
    double b = f.s->MaxViolation();
    r.checkf(same(b, norm(all, 0)), "violation", [&] { return mc::str("MaxViolation() after another trajectory was evaluated is ", b, ", expected ", norm(all, 0)); });
  }
  reports(r, *f.s, f.items, c, "after MaxViolation()");
  // the user changes the trajectory
  for (int k = 0; k <= kSteps; ++k) { f.Z->State(k) = other.State(k); f.Z->Control(k) = other.Control(k); }
  f.s->MaxViolation();
  reports(r, *f.s, f.items, c2, "after changing the trajectory and MaxViolation()");
  printed(r, *f.s, false);
  printed(r, *f.s, true);
}

// violation recorded after every iteration of the solve: observed by cutting the solve off
template <int n, int m>
void recorded(mc::Run& r) {
  int lay = r.choose(kLayouts, "layout"), set = r.choose(NSETTING, "setting");
  auto go = [&](int cap, std::vector<double>* viol) {
    auto f = std::make_unique<Fix<n, m>>(lay);
    settings(f->s->GetOptions(), set);
    f->s->GetOptions().max_iterations_total = std::min(cap, f->s->GetOptions().max_iterations_total);
    f->s->Solve();
    *viol = f->s->GetStats().violations;
    Snapshot q = f->snap();
    V all; auto c = f->values(q); for (size_t i = 0; i < c.size(); ++i) for (double d : c[i]) all.push_back(dist(f->items[i].e.eq, d));
    return std::make_pair(f->s->GetStats().iterations_total, norm(all, 0));
  };
  std::vector<double> full, cut;
  int total = go(1000, &full).first;
  for (int j = 1; j <= total; ++j) {
    auto q = go(j, &cut);
    r.transition();
    if (q.first != j) { r.cover("cut elsewhere"); continue; }
    r.checkf(static_cast<int>(cut.size()) >= j && same(cut[j - 1], q.second), "recorded-violation", [&] { return mc::str("the violation recorded for iteration ", j, " is ", cut[j - 1], ", the trajectory held then has ", q.second); });
    r.checkf(static_cast<int>(full.size()) >= j && same(full[j - 1], q.second), "recorded-violation", [&] { return mc::str("the violation recorded for iteration ", j, " of the whole solve is ", full[j - 1], ", the trajectory held then has ", q.second); });
  }
}

// prescribed constraint values, every combination
template <int n, int m>
void prescribed(mc::Run& r, const std::vector<double>& alphabet, const std::vector<Item>& in) {
  simple::Prob P(kn, km, kSteps);
  std::vector<Item> items = ordered(in);
  std::vector<V> c(items.size());
  for (size_t i = 0; i < items.size(); ++i) {
    for (int j = 0; j < items[i].e.f.dim; ++j) c[i].push_back(r.pickv(alphabet, "value"));
    V vals = c[i];
    auto hook = [vals](const VectorXdRef&, const VectorXdRef&, Eigen::Ref<VectorXd> out) { for (size_t j = 0; j < vals.size(); ++j) out(j) = vals[j]; };
    if (items[i].e.eq) { auto p = std::make_shared<Con<cons::Equality>>(items[i].e.f, items[i].label); p->hook = hook; P.prob->SetConstraint(p, items[i].k); }
    else { auto p = std::make_shared<Con<cons::Inequality>>(items[i].e.f, items[i].label); p->hook = hook; P.prob->SetConstraint(p, items[i].k); }
    if (r.recording()) { std::string t = items[i].label + " ="; for (double d : vals) t += mc::str(" ", d); r.note(t); }
  }
  Solver<n, m> s(*P.prob);
  auto Z = std::make_shared<Trajectory<n, m>>(kn, km, kSteps);
  Z->SetUniformStep(0.25F);
  s.SetTrajectory(Z);
  double mv = s.MaxViolation();
  V all; for (size_t i = 0; i < items.size(); ++i) for (double d : c[i]) all.push_back(d != d ? kNaN : dist(items[i].e.eq, d));
  double want = norm(all, 0);
  r.checkf(same(mv, want), "violation", [&] { return mc::str("MaxViolation() is ", mv, ", expected ", want); });
  reports(r, s, items, c, "prescribed values");
  r.outcome(mc::hashd(3, want));
}

// long lists: every length, several orders of the violations, up to `odd` of them not a number, anywhere
template <int n, int m>
void long_lists(mc::Run& r, int longest, int odd) {
  int len = 2 + r.choose(longest - 1, "constraints"), order = r.choose(4, "order of the violations");
  simple::Prob P(kn, km, kSteps);
  std::vector<double> v;
  for (int i = 0; i < len; ++i) v.push_back(order == 0 ? i : order == 1 ? len - i : order == 2 ? (i * 7) % len : 1);
  int from = 0;
  for (int q = 0; q < odd && from < len; ++q) { int at = r.choose(len - from + 1, "not a number at"); if (at == len - from) break; v[from + at] = kNaN; from += at + 1; }
  std::vector<Item> items;
  std::vector<V> c;
  for (int i = 0; i < len; ++i) {
    Item it{i * (kSteps + 1) / len, {true, {1, 0}}, mc::str("eq", i)};
    double val = v[i];
    auto p = std::make_shared<Con<cons::Equality>>(it.e.f, it.label);
    p->hook = [val](const VectorXdRef&, const VectorXdRef&, Eigen::Ref<VectorXd> out) { out(0) = val; };
    P.prob->SetConstraint(p, it.k);
    items.push_back(it);
    c.push_back(V{val});
  }
  Solver<n, m> s(*P.prob);
  auto Z = std::make_shared<Trajectory<n, m>>(kn, km, kSteps);
  Z->SetUniformStep(0.25F);
  s.SetTrajectory(Z);
  s.MaxViolation();
  reports(r, s, items, c, "long list");
  r.outcome(len * 4 + order);
}

Item item(int k, bool eq, int dim, int id) { Item i{k, {eq, {dim, id}}, mc::str(eq ? "eq" : "in", id, "d", dim)}; return i; }
}  // namespace

int main(int argc, char** argv) {
  mc::Spec spec;
  spec.property = "P14";
  spec.unit = "execution = one history of uses and solve, or one combination of constraint values; transition = one complete comparison of all reports";
  spec.assumptions = {"violations are read after a solve or after asking for the maximum violation (which is when the library evaluates the constraints)"};
  int d = mc::tier(2, 3);
  spec.scenarios.push_back({"solves-fixed", mc::str("9 layouts x 5 settings x every history of at most ", d, " of 12 uses"), [d](mc::Run& r) { solves<2, 1>(r, d); }});
  spec.scenarios.push_back({"solves-dynamic", mc::str("9 layouts x 5 settings x every history of at most ", d - 1, " of 12 uses"), [d](mc::Run& r) { solves<X, X>(r, d - 1); }});
  spec.scenarios.push_back({"recorded-fixed", "9 layouts x 5 settings, every iteration", [](mc::Run& r) { recorded<2, 1>(r); }});
  std::vector<double> small = {0.0, -1.0, 0.5, 2.0}, odd = {0.0, -1.0, 0.5, kNaN}, inf = {-kInf, 1e-300, kInf, -0.0, kNaN};
  std::vector<Item> a = {item(0, true, 1, 0), item(0, false, 2, 1), item(1, false, 1, 2), item(2, true, 2, 3), item(2, false, 1, 4)};
  std::vector<Item> b = {item(0, false, 1, 0), item(0, false, 1, 1), item(1, true, 1, 2), item(1, true, 1, 3), item(1, false, 2, 4)};
  std::vector<Item> e = {item(2, false, 4, 0), item(0, true, 3, 1)};
  spec.scenarios.push_back({"values-spread", "every combination of 4 values for 7 constraint elements on 3 steps", [=](mc::Run& r) { prescribed<2, 1>(r, small, a); }});
  spec.scenarios.push_back({"values-spread-nan", "every combination of 4 values (one not a number) for 7 constraint elements on 3 steps", [=](mc::Run& r) { prescribed<X, X>(r, odd, a); }});
  spec.scenarios.push_back({"values-dense-nan", "every combination of 4 values (one not a number) for 6 constraint elements on 2 steps", [=](mc::Run& r) { prescribed<2, 1>(r, odd, b); }});
  spec.scenarios.push_back({"values-vector-nan", "every combination of 4 values (one not a number) for vectors of 3 and 4 elements", [=](mc::Run& r) { prescribed<2, 1>(r, odd, e); }});
  spec.scenarios.push_back({"values-extreme", "every combination of 5 extreme values for 6 constraint elements", [=](mc::Run& r) { prescribed<X, X>(r, inf, b); }});
  int len = mc::tier(20, 34), nans = mc::tier(2, 3);
  spec.scenarios.push_back({"long-lists", mc::str("lists of 2 to ", len, " constraints in 4 orders, every way of at most ", nans, " violations not being a number"), [=](mc::Run& r) { long_lists<2, 1>(r, len, nans); }});
  return mc::main_driver(argc, argv, spec);
}
