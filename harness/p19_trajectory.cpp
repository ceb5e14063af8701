// check: P19 variant=asan sources=utils
// Every sequence of trajectory operations against a plain record of what was written; every perturbation of a time grid.
#include <array>
#include <cmath>
#include <iterator>
#include <limits>
#include <memory>
#include <vector>
#include "altro/common/knotpoint.hpp"
#include "altro/common/trajectory.hpp"
#include "mc.hpp"
using namespace altro;

namespace {
constexpr int kDyn = Eigen::Dynamic;
struct Kp { std::vector<double> x, u; float t = 0, h = 0; };
struct Rec { std::vector<Kp> z; };

bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }

template <int n, int m, class T>
struct Traj {
  using Z = Trajectory<n, m, T>;
  using K = KnotPoint<n, m, T>;
  using X = VectorN<n, T>;
  using U = VectorN<m, T>;
  static constexpr int nx = 2, nu = n == 1 ? 2 : 1;

  static void compare(mc::Run& r, Z& z, const Rec& q, const std::string& who) {
    const Z& c = z;
    auto ck = [&](bool ok, const char* sig, const std::string& m_) { r.checkf(ok, sig, [&] { return who + ": " + m_; }); };
    int N = static_cast<int>(q.z.size()) - 1;
    ck(c.NumSegments() == N, "length", mc::str("has ", c.NumSegments(), " segments, expected ", N));
    ck(std::distance(z.begin(), z.end()) == N + 1 && std::distance(c.begin(), c.end()) == N + 1, "length", "number of knot points when iterating");
    auto it = c.begin();
    for (int k = 0; k <= N; ++k, ++it) {
      const Kp& e = q.z[k];
      ck(c.StateDimension(k) == static_cast<int>(e.x.size()) && c.ControlDimension(k) == static_cast<int>(e.u.size()), "dimension", mc::str("dimensions at ", k));
      ck(c.State(k).size() == static_cast<int>(e.x.size()) && c.Control(k).size() == static_cast<int>(e.u.size()), "dimension", mc::str("vector lengths at ", k));
      ck(c.GetKnotPoint(k).StateDimension() == static_cast<int>(e.x.size()) && c.GetKnotPoint(k).ControlDimension() == static_cast<int>(e.u.size()), "dimension", mc::str("knot point dimensions at ", k));
      VectorN<AddSizes(n, m), T> zz = c.GetKnotPoint(k).GetStateControl();
      ck(zz.size() == static_cast<int>(e.x.size() + e.u.size()), "state-control", mc::str("length of GetStateControl() at ", k, " is ", zz.size()));
      for (size_t i = 0; i < e.x.size(); ++i) {
        ck(same(c.State(k)(i), e.x[i]) && same(z.State(k)(i), e.x[i]) && same(it->State()(i), e.x[i]) && same(z[k].State()(i), e.x[i]) && same(c.GetKnotPoint(k).State()(i), e.x[i]), "state",
           mc::str("state ", i, " at ", k, " is ", c.State(k)(i), ", last written ", e.x[i]));
        ck(same(zz(i), e.x[i]), "state-control", mc::str("GetStateControl() at ", k, " entry ", i, " is ", zz(i), ", expected ", e.x[i]));
      }
      for (size_t i = 0; i < e.u.size(); ++i) {
        ck(same(c.Control(k)(i), e.u[i]) && same(z.Control(k)(i), e.u[i]) && same(it->Control()(i), e.u[i]) && same(z[k].Control()(i), e.u[i]) && same(c.GetKnotPoint(k).Control()(i), e.u[i]), "control",
           mc::str("control ", i, " at ", k, " is ", c.Control(k)(i), ", last written ", e.u[i]));
        ck(same(zz(e.x.size() + i), e.u[i]), "state-control", mc::str("GetStateControl() at ", k, " entry ", e.x.size() + i));
      }
      ck(c.GetTime(k) == e.t && c.GetKnotPoint(k).GetTime() == e.t && it->GetTime() == e.t, "time", mc::str("time at ", k, " is ", c.GetTime(k), ", expected ", e.t));
      ck(c.GetStep(k) == e.h && c.GetKnotPoint(k).GetStep() == e.h && it->GetStep() == e.h, "step", mc::str("step at ", k, " is ", c.GetStep(k), ", expected ", e.h));
      ck(c.GetKnotPoint(k).IsTerminal() == (e.h == 0), "terminal", mc::str("IsTerminal() at ", k));
    }
    bool ok = true;
    for (int k = 0; k < N; ++k) ok = ok && static_cast<double>(q.z[k].h) == static_cast<double>(q.z[k + 1].t) - static_cast<double>(q.z[k].t);
    ck(z.CheckTimeConsistency() == ok, "consistency", mc::str("CheckTimeConsistency() is ", z.CheckTimeConsistency(), ", expected ", ok));
  }

  // nx,nu used for run-time sizes
  static X vec(int len, double v, std::vector<double>* e) { X x = X::Zero(len); e->resize(len); for (int i = 0; i < len; ++i) { x(i) = static_cast<T>(v + 0.25 * i); (*e)[i] = x(i); } return x; }
  static U uvec(int len, double v, std::vector<double>* e) { U x = U::Zero(len); e->resize(len); for (int i = 0; i < len; ++i) { x(i) = static_cast<T>(-v - 0.25 * i); (*e)[i] = x(i); } return x; }

  static void ops(mc::Run& r, int N, int depth) {
    const int a = n == kDyn ? 2 : n, b = m == kDyn ? 1 : m;
    std::vector<std::unique_ptr<Z>> z;
    std::vector<Rec> q;
    double v = 1;                       // every written value is different
    auto blank = [&](int N_) { Rec e; e.z.resize(N_ + 1); for (auto& k : e.z) { k.x.assign(a, 0); k.u.assign(b, 0); } return e; };
    uint64_t h = mc::mix(mc::mix(N, n), m);
    switch (r.choose(4, "constructor")) {
      case 0: z.emplace_back(new Z(a, b, N)); q.push_back(blank(N)); break;
      case 1: {
        std::vector<X> xs; std::vector<U> us; std::vector<float> ts; Rec e = blank(N); float t = r.flag("late start") ? 4.f : 0.f;
        for (int k = 0; k <= N; ++k) {
          xs.push_back(vec(a, v, &e.z[k].x)); v += 1;
          if (k < N) { us.push_back(uvec(b, v, &e.z[k].u)); v += 1; }
          ts.push_back(t); e.z[k].t = t;
          float dt = 0.25f * (k + 1); if (k < N) e.z[k].h = dt; t += dt;
        }
        z.emplace_back(new Z(xs, us, ts)); q.push_back(e);
        h = mc::mix(h, 1);
        break;
      }
      case 2: {
        std::vector<K> ks; Rec e = blank(N);
        for (int k = 0; k <= N; ++k) {
          X x = vec(a, v, &e.z[k].x); U u = uvec(b, v + 0.5, &e.z[k].u); v += 1;
          e.z[k].t = 0.5f * k; e.z[k].h = k < N ? 0.5f : 0.f;
          ks.emplace_back(x, u, e.z[k].t, e.z[k].h);
        }
        z.emplace_back(new Z(ks)); q.push_back(e);
        h = mc::mix(h, 2);
        break;
      }
      default: {
        std::vector<K> ks; Rec e = blank(N);   // knot points converted from run-time or compile-time sized ones
        for (int k = 0; k <= N; ++k) {
          convert(r, &ks, &e.z[k], a, b, v); v += 1;
        }
        z.emplace_back(new Z(ks)); q.push_back(e);
        h = mc::mix(h, 3);
      }
    }
    compare(r, *z[0], q[0], "new trajectory");
    for (int s = 0; s < depth; ++s) {
      int at = z.size() > 1 ? r.choose(static_cast<int>(z.size()), "object") : 0;
      Z& t = *z[at]; Rec& e = q[at];
      const int M = static_cast<int>(e.z.size());
      int op = r.choose(19, "operation");
      auto other = [&]() { return z.size() > 1 ? r.choose(static_cast<int>(z.size()), "other") : 0; };
      h = mc::mix(mc::mix(h, op), at);
      std::string what;
      r.transition();
      int k = -1;
      auto idx = [&]() { k = r.choose(M, "k"); h = mc::mix(h, k); return k; };
      switch (op) {
        case 0: { idx(); int i = a - 1; t.State(k)(i) = v; e.z[k].x[i] = v; what = mc::str("State(", k, ")(", i, ") = ", v); break; }
        case 1: { idx(); U u = uvec(b, v, &e.z[k].u); t.Control(k) = u; what = mc::str("Control(", k, ") = ", v); break; }
        case 2: { idx(); X x = vec(a, v, &e.z[k].x); t[k].State() = x; what = mc::str("[", k, "].State() = ", v); break; }
        case 3: { idx(); auto it = t.begin(); std::advance(it, k); it->Control()(0) = v; e.z[k].u[0] = v; what = mc::str("iterator ", k); break; }
        case 4: { idx(); float w = static_cast<float>(v); t.SetTime(k, w); e.z[k].t = w; what = mc::str("SetTime(", k, ")"); break; }
        case 5: { idx(); float w = r.pick({1.f, 0.f, -0.5f}, "step length"); t.SetStep(k, w); e.z[k].h = w; what = mc::str("SetStep(", k, ",", w, ")"); break; }
        case 6: { float w = r.pick({0.5f, 2.f, 0.f}, "step length"); t.SetUniformStep(w); for (int j = 0; j < M; ++j) { e.z[j].t = j * w; e.z[j].h = j + 1 < M ? w : 0; } what = mc::str("SetUniformStep(", w, ")"); h = mc::hashd(h, w); break; }
        case 7: { t.SetZero(); for (auto& p : e.z) { for (auto& d : p.x) d = 0; for (auto& d : p.u) d = 0; } what = "SetZero()"; break; }
        case 8: { idx(); t.GetKnotPoint(k).SetTerminal(); e.z[k].h = 0; for (auto& d : e.z[k].u) d = 0; what = mc::str("SetTerminal at ", k); break; }
        case 9: if (z.size() < 3) { z.emplace_back(new Z(t)); Rec c = q[at]; q.push_back(c); what = "copy"; } break;
        case 10: { int o = other(); *z[o] = t; Rec c = q[at]; q[o] = c; h = mc::mix(h, o); what = mc::str("copy-assigned to ", o); break; }
        case 11: { z[at].reset(new Z(std::move(*z[at]))); what = "moved into a new object"; break; }
        case 12: { int o = other(); if (o != at) { *z[o] = std::move(*z[at]); q[o] = q[at]; z[at].reset(new Z(a, b, N)); q[at] = blank(N); } h = mc::mix(h, o); what = mc::str("move-assigned to ", o); break; }
        case 13: { idx(); int o = other(), j = r.choose(static_cast<int>(q[o].z.size()), "from"); t[k] = z[o]->GetKnotPoint(j); Kp c = q[o].z[j]; e.z[k] = c; h = mc::mix(mc::mix(h, o), j); what = mc::str("knot point ", k, " = ", o, "[", j, "]"); break; }
        case 14: { idx(); int j = r.choose(M, "with"); std::swap(t[k], t[j]); std::swap(e.z[k], e.z[j]); h = mc::mix(h, j); what = mc::str("swap ", k, " ", j); break; }
        case 15: if (z.size() < 3) { z.emplace_back(new Z(a, b, N == 1 ? 2 : 1)); q.push_back(blank(N == 1 ? 2 : 1)); what = "another trajectory of another length"; } break;
        case 16: { std::vector<K> ks(t.begin(), t.end()); if (z.size() < 3) { z.emplace_back(new Z(ks)); Rec c = q[at]; q.push_back(c); what = "list of its knot points"; } break; }
        case 17: { idx(); K c = t.GetKnotPoint(k); c.SetTime(100); c.State().setConstant(77); c.Control().setConstant(78); what = "changing a copy of a knot point"; break; }
        case 18: { const Z c(t); (void)c; K y(t.GetKnotPoint(0)); K w(std::move(y)); t[0] = std::move(w); what = "knot point moved out of a copy and back"; break; }
      }
      v += 1;
      if (r.recording()) r.note(mc::str("object ", at, ": ", what));
      for (size_t i = 0; i < z.size(); ++i) compare(r, *z[i], q[i], mc::str("object ", i, " after ", what));
      uint64_t g = 3;
      for (auto& p : q) { g = mc::mix(g, p.z.size()); for (auto& y : p.z) { for (double d : y.x) g = mc::hashd(g, d); for (double d : y.u) g = mc::hashd(g, d); g = mc::hashd(g, y.t); g = mc::hashd(g, y.h); } }
      r.state(g);
      r.outcome(g);
    }
  }
  // knot points converted between sizes (only double values)
  static void convert(mc::Run& r, std::vector<K>* ks, Kp* e, int a, int b, double v) { convert_(r, ks, e, a, b, v, std::is_same<T, double>()); }
  static void convert_(mc::Run&, std::vector<K>* ks, Kp* e, int a, int b, double v, std::false_type) {
    X x = vec(a, v, &e->x); U u = uvec(b, v, &e->u); ks->emplace_back(x, u);
  }
  static void convert_(mc::Run&, std::vector<K>* ks, Kp* e, int a, int b, double v, std::true_type) {
    constexpr int n2 = n == kDyn ? 2 : kDyn, m2 = m == kDyn ? 1 : kDyn;
    VectorN<n2> x = VectorN<n2>::Constant(a, v); VectorN<m2> u = VectorN<m2>::Constant(b, -v);
    e->x.assign(a, v); e->u.assign(b, -v); e->t = static_cast<float>(v); e->h = 0.5f;
    KnotPoint<n2, m2> y(x, u, e->t, e->h);
    K c(y);
    ks->push_back(c);
    y.State().setConstant(-99);   // the conversion is a copy
  }
};

const std::vector<float> kSteps = {0.5f, 0.1f, 0.05f, 0.01f, 0.001f, 1.f / 3.f, 3.f, 1e-4f};

// Every uniform grid is consistent and exactly where it should be; every single perturbed entry is noticed.
void grids(mc::Run& r) {
  int N = r.pickv(std::vector<int>{1, 2, 3, 4, 5, 8}, "N");
  float h = r.pickv(kSteps, "step");
  bool fixed = r.flag("run-time sized");
  Trajectory<2, 1> a(2, 1, N);
  TrajectoryXXd b(2, 1, N);
  auto time = [&](int k) { return static_cast<double>(fixed ? b.GetTime(k) : a.GetTime(k)); };
  auto step = [&](int k) { return fixed ? b.GetStep(k) : a.GetStep(k); };
  auto st = [&](int k, float v) { fixed ? b.SetTime(k, v) : a.SetTime(k, v); };
  auto ss = [&](int k, float v) { fixed ? b.SetStep(k, v) : a.SetStep(k, v); };
  auto ok = [&]() { return fixed ? b.CheckTimeConsistency() : a.CheckTimeConsistency(); };
  auto oke = [&](double eps) { return fixed ? b.CheckTimeConsistency(eps) : a.CheckTimeConsistency(eps); };
  fixed ? b.SetUniformStep(h) : a.SetUniformStep(h);
  for (int k = 0; k <= N; ++k) {
    double want = static_cast<double>(k) * static_cast<double>(h);
    r.checkf(std::abs(time(k) - want) <= 1e-6 * (1e-30 + want), "uniform-grid", [&] { return mc::str("time at ", k, " is ", time(k), " expected ", want); });
    r.check(step(k) == (k < N ? h : 0.f), "uniform-grid", mc::str("step at ", k, " is ", step(k)));
  }
  r.checkf(ok(), "uniform-rejected", [&] { return mc::str("uniform grid of ", N, " steps of ", h, " counts as inconsistent"); });
  r.transition();
  // one entry changed by clearly more than the tolerance, or to something that is not a number
  bool is_time = r.flag("change a time");
  int k = is_time ? r.choose(N + 1, "index") : r.choose(N, "index");
  const double nan = std::numeric_limits<double>::quiet_NaN(), inf = std::numeric_limits<double>::infinity();
  double d = r.pick({1e-4, -1e-4, 3e-5, -3e-5, 0.5, -0.5, nan, inf, -inf}, "change");
  float old = is_time ? static_cast<float>(time(k)) : step(k);
  float now = static_cast<float>(static_cast<double>(old) + d);
  is_time ? st(k, now) : ss(k, now);
  r.state(mc::hashd(mc::mix(mc::mix(N, k), is_time), now));
  r.outcome(mc::hashd(N, d));
  r.checkf(!ok(), "perturbed-accepted", [&] { return mc::str("grid of ", N, " steps of ", h, " counts as consistent with ", is_time ? "time " : "step ", k, " changed from ", old, " to ", now); });
  if (std::isfinite(d)) {
    r.checkf(oke(std::abs(d) * 4), "tolerance", [&] { return mc::str("a change of ", d, " counts as inconsistent with tolerance ", std::abs(d) * 4); });
    r.checkf(!oke(std::abs(d) / 4), "tolerance", [&] { return mc::str("a change of ", d, " counts as consistent with tolerance ", std::abs(d) / 4); });
  }
  is_time ? st(k, old) : ss(k, old);
  r.check(ok(), "restored-rejected", "the restored grid counts as inconsistent");
}
void long_grids(mc::Run& r) {
  int N = r.pickv(std::vector<int>{10, 50, 100, 300, 1000, 3000, 10000}, "N");
  float h = r.pickv(kSteps, "step");
  Trajectory<1, 1> a(1, 1, N);
  a.SetUniformStep(h);
  r.transition();
  r.state(mc::hashd(N, h)); r.outcome(mc::hashd(N, h));
  for (int k = 0; k <= N; ++k) {
    double want = static_cast<double>(k) * static_cast<double>(h);
    r.checkf(std::abs(a.GetTime(k) - want) <= 1e-6 * (1e-30 + want), "uniform-grid", [&] { return mc::str("time at ", k, " is ", a.GetTime(k), " expected ", want); });
    r.check(a.GetStep(k) == (k < N ? h : 0.f), "uniform-grid", mc::str("step at ", k));
  }
  r.checkf(a.CheckTimeConsistency(), "uniform-rejected", [&] { return mc::str("uniform grid of ", N, " steps of ", h, " counts as inconsistent"); });
  int k = r.pickv(std::vector<int>{0, 1, N / 2, N - 1}, "index");
  a.SetStep(k, h * 1.5f);
  r.check(!a.CheckTimeConsistency() || h < 1e-3f, "perturbed-accepted", mc::str("step ", k, " of ", N, " is half as long again and the grid counts as consistent"));
}
// the last control of a trajectory built from vectors is zero whatever the control before it
void built(mc::Run& r) {
  const double nan = std::numeric_limits<double>::quiet_NaN(), inf = std::numeric_limits<double>::infinity();
  int N = 1 + r.choose(3, "N");
  double v = r.pick({0., 1., inf, nan, -inf}, "last control");
  float t0 = r.pick({0.f, 1.f, -2.f}, "start");
  auto go = [&](auto tag) {
    using Z = decltype(tag);
    std::vector<std::decay_t<decltype(std::declval<Z>().State(0))>> X;
    std::vector<std::decay_t<decltype(std::declval<Z>().Control(0))>> U;
    std::vector<float> ts;
    for (int k = 0; k <= N; ++k) {
      X.emplace_back(2); X.back().setConstant(k);
      if (k < N) { U.emplace_back(1); U.back().setConstant(k + 1 == N ? v : k); }
      ts.push_back(t0 + 0.25f * k * k);
    }
    Z z(X, U, ts);
    r.transition();
    r.check(z.NumSegments() == N, "length", "number of segments");
    for (int k = 0; k <= N; ++k) {
      r.check(z.State(k) == X[k] && z.GetTime(k) == ts[k], "state", mc::str("state or time at ", k));
      if (k < N) r.check(same(z.Control(k)(0), U[k](0)), "control", mc::str("control at ", k));
      if (k < N) r.check(z.GetStep(k) == ts[k + 1] - ts[k], "step", mc::str("step at ", k));
    }
    r.check(z.Control(N).size() == 1 && z.Control(N)(0) == 0, "terminal", mc::str("the control of the last knot point is ", z.Control(N)(0)));
    r.check(z.GetStep(N) == 0 && z.GetKnotPoint(N).IsTerminal(), "terminal", "the last knot point is not terminal");
    r.check(z.CheckTimeConsistency(), "consistency", "counts as inconsistent");
  };
  if (r.flag("run-time sized")) go(TrajectoryXXd(2, 1, 1)); else go(Trajectory<2, 1>(1));
  r.state(mc::hashd(mc::mix(N, t0), v)); r.outcome(mc::hashd(N, v));
}
// knot points of differing dimensions in one run-time-sized trajectory
void mixed(mc::Run& r) {
  int d0 = 1 + r.choose(3, "states 0"), d1 = 1 + r.choose(3, "states 1"), c0 = 1 + r.choose(2, "controls 0"), c1 = 1 + r.choose(2, "controls 1");
  KnotPoint<kDyn, kDyn> a(d0, c0), b(d1, c1);
  a.State().setConstant(3); a.Control().setConstant(4); b.State().setConstant(5); b.Control().setConstant(6);
  a.SetTime(0); a.SetStep(1); b.SetTime(1); b.SetStep(0);
  TrajectoryXXd z(std::vector<KnotPoint<kDyn, kDyn>>{a, b});
  r.transition();
  auto at = [&](const TrajectoryXXd& z, int k, int n, int m, double x, double u, const char* w) {
    r.checkf(z.StateDimension(k) == n && z.ControlDimension(k) == m && z.State(k).size() == n && z.Control(k).size() == m, "dimension", [&] { return mc::str("dimensions at ", k, " ", w); });
    r.checkf((z.State(k).array() == x).all() && (z.Control(k).array() == u).all(), "state", [&] { return mc::str("values at ", k, " ", w); });
    auto s = z.GetKnotPoint(k).GetStateControl();
    r.checkf(s.size() == n + m && (s.head(n).array() == x).all() && (s.tail(m).array() == u).all(), "state-control", [&] { return mc::str("GetStateControl at ", k, " ", w); });
    std::string t = z.GetKnotPoint(k).ToString() + " ";
    int nums = 0; for (size_t i = 0; i + 1 < t.size(); ++i) nums += (isdigit(t[i]) && !isdigit(t[i + 1]) && t[i + 1] != '.') ? 1 : 0;
    r.checkf(nums == n + m + 2, "print", [&] { return "printed as " + t; });
  };
  at(z, 0, d0, c0, 3, 4, "at first"); at(z, 1, d1, c1, 5, 6, "at first");
  switch (r.choose(4, "operation")) {
    case 0: z[0] = z[1]; at(z, 0, d1, c1, 5, 6, "after assignment"); at(z, 1, d1, c1, 5, 6, "after assignment"); break;
    case 1: std::swap(z[0], z[1]); at(z, 0, d1, c1, 5, 6, "after swap"); at(z, 1, d0, c0, 3, 4, "after swap"); break;
    case 2: { TrajectoryXXd y(2, 1, 3); y = z; at(y, 0, d0, c0, 3, 4, "of the copy"); at(y, 1, d1, c1, 5, 6, "of the copy"); r.check(y.NumSegments() == 1, "length", "copy"); z.SetZero(); at(y, 0, d0, c0, 3, 4, "of the copy"); at(z, 1, d1, c1, 0, 0, "after SetZero"); break; }
    default: z.GetKnotPoint(0).SetTerminal(); at(z, 0, d0, c0, 3, 0, "after SetTerminal"); at(z, 1, d1, c1, 5, 6, "after SetTerminal"); break;
  }
  r.state(mc::mix(mc::mix(d0, d1), mc::mix(c0, c1))); r.outcome(mc::mix(d0 * 3 + d1, c0 * 2 + c1));
}
}  // namespace

int main(int argc, char** argv) {
  mc::Spec s;
  s.property = "P19";
  s.unit = "state: contents of all live trajectories; transition: one operation on a trajectory; trace: one sequence of operations";
  s.assumptions = {"values of the operations on histories are exactly representable, so reading back is compared exactly", "a change of the time grid has to be noticed when it is larger than ten times the tolerance; changes below the tolerance are accepted"};
  auto add = [&](const std::string& name, const std::string& bound, std::function<void(mc::Run&)> f) {
    mc::Scenario c; c.name = name; c.bound = bound; c.body = f; s.scenarios.push_back(c);
  };
  int d = mc::tier(2, 3);
  add("fixed", mc::str("2 segments, sizes (2,1) fixed at compile time, four constructions, up to ", d, " operations out of 19 on up to three trajectories"), [d](mc::Run& r) { Traj<2, 1, double>::ops(r, 2, d); });
  add("dynamic", mc::str("2 segments, run-time sizes, four constructions, up to ", d, " operations"), [d](mc::Run& r) { Traj<kDyn, kDyn, double>::ops(r, 2, d); });
  add("half-dynamic", mc::str("1 segment, run-time states and fixed controls, ", d, " operations"), [d](mc::Run& r) { Traj<kDyn, 1, double>::ops(r, 1, d); });
  add("fixed-deep", mc::str("1 segment, sizes (3,2), ", d + 1, " operations"), [d](mc::Run& r) { Traj<3, 2, double>::ops(r, 1, d + 1); });
  add("single-precision", mc::str("2 segments, float values, ", d, " operations"), [d](mc::Run& r) { Traj<2, 1, float>::ops(r, 2, d); });
  add("grids", "uniform grids of 1-8 segments with eight step lengths; every single time or step changed by nine amounts", grids);
  add("long-grids", "uniform grids of 10 to 10000 segments with eight step lengths", long_grids);
  add("built-from-vectors", "1-3 segments, last controls finite, infinite and not a number", built);
  add("mixed-dimensions", "two knot points of all dimensions 1-3 / 1-2 in one trajectory, four operations", mixed);
  return mc::main_driver(argc, argv, s);
}
