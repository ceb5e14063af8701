// check: P11 variant=plain sources=all
// Backward pass against an independent plain-loop Riccati recursion and against the dense (condensed)
// optimum, for every sequence of stage shapes of a small alphabet.
#include "mc.hpp"
#include "simple.hpp"
using namespace altro;

namespace {
constexpr int X = Eigen::Dynamic;
using M = std::vector<std::vector<double>>;
using V = std::vector<double>;
M zeros(int a, int b) { return M(a, V(b, 0.0)); }
M mul(const M& a, const M& b) {
  M c = zeros(a.size(), b[0].size());
  for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b[0].size(); ++j) for (size_t k = 0; k < b.size(); ++k) c[i][j] += a[i][k] * b[k][j];
  return c;
}
M tr(const M& a) { M c = zeros(a[0].size(), a.size()); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < a[0].size(); ++j) c[j][i] = a[i][j]; return c; }
M add(M a, const M& b) { for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < a[0].size(); ++j) a[i][j] += b[i][j]; return a; }
V mv(const M& a, const V& x) { V y(a.size(), 0.0); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < x.size(); ++j) y[i] += a[i][j] * x[j]; return y; }
V tmv(const M& a, const V& x) { V y(a[0].size(), 0.0); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < a[0].size(); ++j) y[j] += a[i][j] * x[i]; return y; }
V add(V a, const V& b) { for (size_t i = 0; i < a.size(); ++i) a[i] += b[i]; return a; }
double dot(const V& a, const V& b) { double s = 0; for (size_t i = 0; i < a.size(); ++i) s += a[i] * b[i]; return s; }
double norm(const M& a) { double s = 0; for (auto& r : a) for (double d : r) s = std::max(s, std::abs(d)); return s; }
double norm(const V& a) { double s = 0; for (double d : a) s = std::max(s, std::abs(d)); return s; }

// LDL^T without pivoting: solves a x = b; min pivot relative to the size of a
struct Ldl {
  M l; V d; double min_pivot = 1e300;
  explicit Ldl(const M& a) {
    int n = a.size();
    l = zeros(n, n); d.assign(n, 0);
    for (int j = 0; j < n; ++j) {
      double s = a[j][j];
      for (int k = 0; k < j; ++k) s -= l[j][k] * l[j][k] * d[k];
      d[j] = s; l[j][j] = 1;
      min_pivot = std::min(min_pivot, s);
      for (int i = j + 1; i < n; ++i) {
        double q = a[i][j];
        for (int k = 0; k < j; ++k) q -= l[i][k] * l[j][k] * d[k];
        l[i][j] = s != 0 ? q / s : 0;
      }
    }
  }
  V solve(V b) const {
    int n = d.size();
    for (int i = 0; i < n; ++i) for (int k = 0; k < i; ++k) b[i] -= l[i][k] * b[k];
    for (int i = 0; i < n; ++i) b[i] /= d[i];
    for (int i = n - 1; i >= 0; --i) for (int k = i + 1; k < n; ++k) b[i] -= l[k][i] * b[k];
    return b;
  }
};

// x+ = A x + B u + c ; cost 0.5 z'Hz + g'z, z=[x;u]
struct Stage {
  M A, B, H; V c, g;
};
enum { CONVEX, FLAT, SADDLE, NEGATIVE, CROSS, SINGULAR, NEGX, NKIND };
const char* kKind[] = {"convex", "zero", "saddle", "very concave", "cross-heavy", "singular", "concave in x"};
enum { GENERIC, ROTATE, NOCONTROL, GROW, NDYN };
const char* kDyn[] = {"generic", "shear", "B=0", "growing"};

Stage make_stage(int n, int m, int kind, int dyn, int k) {
  Stage s;
  s.A = zeros(n, n); s.B = zeros(n, m); s.c.assign(n, 0); s.H = zeros(n + m, n + m); s.g.assign(n + m, 0);
  for (int i = 0; i < n; ++i) {
    s.c[i] = 0.125 * (i + 1) - 0.0625 * k;
    for (int j = 0; j < n; ++j) {
      if (dyn == GENERIC) s.A[i][j] = i == j ? 0.75 : 0.25 * (i - j) - 0.125 * ((i + k) % 2);
      if (dyn == ROTATE) s.A[i][j] = i == j ? 1.0 : (j == i + 1 ? 0.5 : (j == i - 1 ? -0.25 : 0));
      if (dyn == NOCONTROL) s.A[i][j] = (i + 1) % n == j ? 1.0 : 0.125;
      if (dyn == GROW) s.A[i][j] = i == j ? 1.5 + 0.25 * i : 0.125 * (j - 2 * i);
    }
    for (int j = 0; j < m; ++j) {
      if (dyn == GENERIC) s.B[i][j] = 0.5 * (i + 1) - 0.75 * j + 0.125 * k;
      if (dyn == ROTATE) s.B[i][j] = i % m == j ? 1.0 : 0;
      if (dyn == GROW) s.B[i][j] = i == j ? 0.25 : -0.5;
    }
  }
  int z = n + m;
  for (int i = 0; i < z; ++i) {
    s.g[i] = 0.5 - 0.375 * ((i + k) % 3);
    for (int j = 0; j < z; ++j) {
      double d = i == j;
      bool xi = i < n, xj = j < n;
      double off = 0.0625 * (((i + j + k) % 3) - 1);
      switch (kind) {
        case CONVEX: s.H[i][j] = d * (xi ? 1.0 + 0.5 * i : 0.75 + 0.25 * (i - n)) + (1 - d) * off; break;
        case FLAT: break;
        case SADDLE: s.H[i][j] = xi && xj ? d * 1.0 : (!xi && !xj ? d * (i == z - 1 ? -0.5 : 0.5) : off); break;
        case NEGATIVE: s.H[i][j] = d * (xi ? 1.0 : -20.0) + (1 - d) * off; break;
        case CROSS: s.H[i][j] = d * (xi ? 0.5 : 1.0) + (xi != xj ? 1.5 - 0.5 * ((i + j) % 2) : 0); break;
        case SINGULAR: s.H[i][j] = xi && xj ? 1.0 + d : (!xi && !xj ? 1.0 : 0); break;   // rank-one control block
        case NEGX: s.H[i][j] = d * (xi ? -0.75 : 1.5) + (1 - d) * 2 * off; break;
      }
    }
  }
  return s;
}

struct Dynamics : public problem::DiscreteDynamics {
  using problem::DiscreteDynamics::Evaluate; using problem::DiscreteDynamics::Jacobian; using problem::DiscreteDynamics::Hessian;
  std::shared_ptr<Stage> s;
  explicit Dynamics(std::shared_ptr<Stage> s) : s(std::move(s)) {}
  int StateDimension() const override { return s->A.size(); }
  int ControlDimension() const override { return s->B[0].size(); }
  bool HasHessian() const override { return true; }
  void Evaluate(const VectorXdRef& x, const VectorXdRef& u, const float, const float, Eigen::Ref<VectorXd> xn) override {
    VectorXd o(x.size());
    for (int i = 0; i < o.size(); ++i) { o(i) = s->c[i]; for (int j = 0; j < x.size(); ++j) o(i) += s->A[i][j] * x(j); for (int j = 0; j < u.size(); ++j) o(i) += s->B[i][j] * u(j); }
    xn = o;
  }
  void Jacobian(const VectorXdRef& x, const VectorXdRef& u, const float, const float, Eigen::Ref<MatrixXd> J) override {
    for (int i = 0; i < x.size(); ++i) { for (int j = 0; j < x.size(); ++j) J(i, j) = s->A[i][j]; for (int j = 0; j < u.size(); ++j) J(i, x.size() + j) = s->B[i][j]; }
  }
  void Hessian(const VectorXdRef&, const VectorXdRef&, const float, const float, const VectorXdRef&, Eigen::Ref<MatrixXd> h) override { h.setZero(); }
};
struct CostF : public problem::CostFunction {
  using problem::CostFunction::Gradient; using problem::CostFunction::Hessian;
  std::shared_ptr<Stage> s;
  explicit CostF(std::shared_ptr<Stage> s) : s(std::move(s)) {}
  int StateDimension() const override { return s->A.size(); }
  int ControlDimension() const override { return s->B[0].size(); }
  static V z(const VectorXdRef& x, const VectorXdRef& u) { V v; for (int i = 0; i < x.size(); ++i) v.push_back(x(i)); for (int i = 0; i < u.size(); ++i) v.push_back(u(i)); return v; }
  double Evaluate(const VectorXdRef& x, const VectorXdRef& u) override { V v = z(x, u); return 0.5 * dot(v, mv(s->H, v)) + dot(s->g, v); }
  void Gradient(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<VectorXd> dx, Eigen::Ref<VectorXd> du) override {
    V v = z(x, u), g = add(mv(s->H, v), s->g);
    for (int i = 0; i < x.size(); ++i) dx(i) = g[i];
    for (int i = 0; i < u.size(); ++i) du(i) = g[x.size() + i];
  }
  void Hessian(const VectorXdRef& x, const VectorXdRef& u, Eigen::Ref<MatrixXd> xx, Eigen::Ref<MatrixXd> xu, Eigen::Ref<MatrixXd> uu) override {
    int n = x.size(), m = u.size();
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) xx(i, j) = s->H[i][j];
    for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) xu(i, j) = s->H[i][n + j];
    for (int i = 0; i < m; ++i) for (int j = 0; j < m; ++j) uu(i, j) = s->H[n + i][n + j];
  }
};

struct Ric { M K, S, Qxx, Qxu, Quu; V d, s, Qx, Qu; double d0 = 0, d1 = 0; };
struct Reference {
  std::vector<Ric> r;
  bool pd = true;          // every regularized control Hessian positive definite
  double margin = 1e300;   // |smallest pivot| / scale, over the stages reached
  double scale = 1;
};
// gradients / Hessians at (x_k,u_k), backward with regularization rho
Reference riccati(const std::vector<std::shared_ptr<Stage>>& st, const std::vector<V>& xs, const std::vector<V>& us, double rho) {
  int N = st.size() - 1, n = xs[0].size(), m = us[0].size();
  Reference R; R.r.resize(N + 1);
  auto grad = [&](int k) { V z = xs[k]; z.insert(z.end(), us[k].begin(), us[k].end()); return add(mv(st[k]->H, z), st[k]->g); };
  auto blk = [&](const M& H, int r0, int c0, int nr, int nc) { M o = zeros(nr, nc); for (int i = 0; i < nr; ++i) for (int j = 0; j < nc; ++j) o[i][j] = H[r0 + i][c0 + j]; return o; };
  V gN = grad(N);
  R.r[N].S = blk(st[N]->H, 0, 0, n, n); R.r[N].s = V(gN.begin(), gN.begin() + n);
  for (int k = N - 1; k >= 0; --k) {
    Ric& q = R.r[k]; const Ric& p = R.r[k + 1];
    const Stage& s = *st[k];
    V g = grad(k);
    q.Qxx = add(blk(s.H, 0, 0, n, n), mul(tr(s.A), mul(p.S, s.A)));
    q.Qxu = add(blk(s.H, 0, n, n, m), mul(tr(s.A), mul(p.S, s.B)));
    q.Quu = add(blk(s.H, n, n, m, m), mul(tr(s.B), mul(p.S, s.B)));
    q.Qx = add(V(g.begin(), g.begin() + n), tmv(s.A, p.s));
    q.Qu = add(V(g.begin() + n, g.end()), tmv(s.B, p.s));
    M Qr = q.Quu; for (int i = 0; i < m; ++i) Qr[i][i] += rho;
    Ldl f(Qr);
    double sc = std::max(1.0, norm(q.Quu) + norm(p.S));
    R.margin = std::min(R.margin, std::abs(f.min_pivot) / sc);
    R.scale = std::max(R.scale, sc / std::min(1.0, std::abs(f.min_pivot)));
    if (!(f.min_pivot > 0)) { R.pd = false; return R; }
    q.K = zeros(m, n); 
    for (int j = 0; j < n; ++j) { V col(m); for (int i = 0; i < m; ++i) col[i] = -q.Qxu[j][i]; V x = f.solve(col); for (int i = 0; i < m; ++i) q.K[i][j] = x[i]; }
    V mu = q.Qu; for (double& v : mu) v = -v;
    q.d = f.solve(mu);
    M Kt = tr(q.K), KtQuu = mul(Kt, q.Quu);
    q.S = add(add(q.Qxx, mul(KtQuu, q.K)), add(mul(Kt, tr(q.Qxu)), mul(q.Qxu, q.K)));
    q.s = add(add(q.Qx, mv(KtQuu, q.d)), add(mv(Kt, q.Qu), mv(q.Qxu, q.d)));
    q.d0 = dot(q.d, q.Qu); q.d1 = 0.5 * dot(q.d, mv(q.Quu, q.d));
  }
  return R;
}

template <class E>
void cmp(mc::Run& r, const E& got, const M& want, double tol, const char* sig, const char* what, int k) {
  double sc = 1 + norm(want);
  for (size_t i = 0; i < want.size(); ++i) for (size_t j = 0; j < want[0].size(); ++j)
    r.checkf(std::abs(got(i, j) - want[i][j]) <= tol * sc, sig, [&] { return mc::str(what, " at step ", k, " entry (", i, ",", j, ") is ", got(i, j), ", the reference gives ", want[i][j]); });
}
template <class E>
void cmpv(mc::Run& r, const E& got, const V& want, double tol, const char* sig, const char* what, int k) {
  double sc = 1 + norm(want);
  for (size_t i = 0; i < want.size(); ++i)
    r.checkf(std::abs(got(i) - want[i]) <= tol * sc, sig, [&] { return mc::str(what, " at step ", k, " entry ", i, " is ", got(i), ", the reference gives ", want[i]); });
}

// condensed QP: u stacked; returns optimum controls and cost, pd flag
struct Dense { bool pd; double margin; V u; double J; };
double total_cost(const std::vector<std::shared_ptr<Stage>>& st, const V& x0, const V& u, std::vector<V>* xs = nullptr) {
  int N = st.size() - 1, m = st[0]->B[0].size();
  V x = x0; double J = 0;
  for (int k = 0; k <= N; ++k) {
    if (xs) xs->push_back(x);
    V uk(m, 0.0); if (k < N) uk.assign(u.begin() + k * m, u.begin() + (k + 1) * m);
    V z = x; z.insert(z.end(), uk.begin(), uk.end());
    J += 0.5 * dot(z, mv(st[k]->H, z)) + dot(st[k]->g, z);
    if (k < N) x = add(add(mv(st[k]->A, x), mv(st[k]->B, uk)), st[k]->c);
  }
  return J;
}
Dense dense(const std::vector<std::shared_ptr<Stage>>& st, const V& x0) {
  int N = st.size() - 1, n = x0.size(), m = st[0]->B[0].size(), L = N * m;
  // x_k = p_k + G_k U
  std::vector<V> p(N + 1); std::vector<M> G(N + 1);
  p[0] = x0; G[0] = zeros(n, L);
  for (int k = 0; k < N; ++k) {
    p[k + 1] = add(mv(st[k]->A, p[k]), st[k]->c);
    G[k + 1] = mul(st[k]->A, G[k]);
    for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) G[k + 1][i][k * m + j] += st[k]->B[i][j];
  }
  M H = zeros(L, L); V g(L, 0.0);
  for (int k = 0; k <= N; ++k) {
    M Z = G[k]; V z0 = p[k];
    for (int j = 0; j < m; ++j) { V row(L, 0.0); if (k < N) row[k * m + j] = 1; Z.push_back(row); z0.push_back(0); }
    H = add(H, mul(tr(Z), mul(st[k]->H, Z)));
    g = add(g, tmv(Z, add(mv(st[k]->H, z0), st[k]->g)));
  }
  // the last block first, so that pivots are those of the recursion up to order
  Ldl f(H);
  Dense d; d.pd = f.min_pivot > 0; d.margin = std::abs(f.min_pivot) / (1 + norm(H));
  for (double& v : g) v = -v;
  d.u = f.solve(g);
  d.J = total_cost(st, x0, d.u);
  return d;
}

template <int n, int m>
struct Bench {
  int nn, mm, N;
  std::vector<std::shared_ptr<Stage>> st;
  std::shared_ptr<problem::Problem> prob;
  std::unique_ptr<ilqr::iLQR<n, m>> s;
  std::shared_ptr<Trajectory<n, m>> Z;
  V x0;
  Bench(int nn, int mm, int N) : nn(nn), mm(mm), N(N) {
    prob = std::make_shared<problem::Problem>(N);
    VectorXd x(nn);
    for (int i = 0; i < nn; ++i) { x(i) = 0.5 - 0.75 * i; x0.push_back(x(i)); }
    for (int k = 0; k <= N; ++k) {
      st.push_back(std::make_shared<Stage>(make_stage(nn, mm, CONVEX, GENERIC, k)));
      prob->SetCostFunction(std::make_shared<CostF>(st[k]), k);
      if (k < N) prob->SetDynamics(std::make_shared<Dynamics>(st[k]), k);
    }
    prob->SetInitialState(x);
    s = std::make_unique<ilqr::iLQR<n, m>>(*prob);
    Z = std::make_shared<Trajectory<n, m>>(nn, mm, N);
    Z->SetUniformStep(0.5F);
    s->SetTrajectory(Z);
  }
  void guess(double scale) { for (int k = 0; k < N; ++k) for (int j = 0; j < mm; ++j) Z->Control(k)(j) = scale * (0.25 * (k + 1) - 0.5 * j); }
  // reads the reference linearisation points from the trajectory
  void read(std::vector<V>* xs, std::vector<V>* us) {
    for (int k = 0; k <= N; ++k) { V x, u; for (int i = 0; i < nn; ++i) x.push_back(Z->State(k)(i)); for (int j = 0; j < mm; ++j) u.push_back(k < N ? Z->Control(k)(j) : 0.0); xs->push_back(x); us->push_back(u); }
  }
};

// one expansions + backward pass, compared in full
template <int n, int m>
void check_pass(mc::Run& r, Bench<n, m>& b, double rho0) {
  auto& o = b.s->GetOptions();
  o.bp_reg_initial = rho0;
  b.s->SolveSetup();
  b.s->Rollout();
  b.s->UpdateExpansions();
  size_t logged = b.s->GetStats().regularization.size();
  b.s->BackwardPass();
  r.transition();
  auto& reg = b.s->GetStats().regularization;
  r.check(reg.size() >= std::max<size_t>(logged, 1), "reg-not-recorded", "the backward pass recorded no regularization");
  double rho = reg.back();
  std::vector<V> xs, us;
  b.read(&xs, &us);
  Reference ini = riccati(b.st, xs, us, rho0);
  if (ini.margin < 1e-7) { r.cover("borderline"); return; }     // definiteness depends on rounding
  bool failed = b.s->GetStatus() == SolverStatus::kBackwardPassRegularizationFailed;
  if (ini.pd) {
    r.cover("definite at the initial regularization");
    r.checkf(!failed && rho == rho0, "needless-regularization", [&] { return mc::str("the problem is positive definite at regularization ", rho0, " but the pass used ", rho, failed ? " and failed" : ""); });
  } else {
    r.cover("regularization had to grow");
    if (failed) { r.cover("failed"); return; }
    r.checkf(rho > rho0, "indefinite-accepted", [&] { return mc::str("the problem is indefinite at regularization ", rho0, " but the pass ended at ", rho); });
  }
  Reference ref = riccati(b.st, xs, us, rho);
  if (ref.margin < 1e-7) { r.cover("borderline"); return; }
  r.checkf(ref.pd, "indefinite-accepted", [&] { return mc::str("the pass ended at regularization ", rho, " where the problem is indefinite"); });
  double tol = 1e-11 * std::min(ref.scale, 1e4);
  if (ref.scale > 1e6) { r.cover("ill conditioned"); return; }
  r.cover("compared");
  for (int k = 0; k <= b.N; ++k) {
    auto& f = b.s->GetKnotPointFunction(k);
    const Ric& q = ref.r[k];
    cmp(r, f.GetCostToGoHessian(), q.S, tol * 100, "cost-to-go", "cost-to-go Hessian", k);
    cmpv(r, f.GetCostToGoGradient(), q.s, tol * 100, "cost-to-go", "cost-to-go gradient", k);
    if (k == b.N) break;
    cmp(r, f.GetFeedbackGain(), q.K, tol * 100, "gain", "feedback gain", k);
    cmpv(r, f.GetFeedforwardGain(), q.d, tol * 100, "gain", "feedforward gain", k);
    cmp(r, f.GetActionValueExpansion().dxdx(), q.Qxx, tol * 100, "action-value", "Qxx", k);
    cmp(r, f.GetActionValueExpansion().dxdu(), q.Qxu, tol * 100, "action-value", "Qxu", k);
    cmp(r, f.GetActionValueExpansion().dudu(), q.Quu, tol * 100, "action-value", "Quu", k);
    cmpv(r, f.GetActionValueExpansion().dx(), q.Qx, tol * 100, "action-value", "Qx", k);
    cmpv(r, f.GetActionValueExpansion().du(), q.Qu, tol * 100, "action-value", "Qu", k);
    for (double a : {1.0, 0.5, 0.125}) {
      double w = a * q.d0 + a * a * q.d1, g = f.GetCostToGoDelta(a);
      r.checkf(std::abs(g - w) <= 100 * tol * (1 + std::abs(q.d0) + std::abs(q.d1)), "predicted-decrease", [&] { return mc::str("predicted change of step ", k, " at step length ", a, " is ", g, ", the reference gives ", w); });
    }
    r.outcome(mc::hashm(mc::hashm(k, f.GetFeedbackGain()), f.GetFeedforwardGain()));
  }
}

// one iteration of the solver: the decrease predicted for the accepted step is exact on a quadratic
template <int n, int m>
void check_step(mc::Run& r, Bench<n, m>& b, double rho0, double scale) {
  auto& o = b.s->GetOptions();
  o.bp_reg_initial = rho0;
  o.max_iterations_inner = 1;
  b.guess(scale);
  V u0; for (int k = 0; k < b.N; ++k) for (int j = 0; j < b.mm; ++j) u0.push_back(b.Z->Control(k)(j));
  std::vector<V> xs; double J0 = total_cost(b.st, b.x0, u0, &xs);
  std::vector<V> us; for (int k = 0; k <= b.N; ++k) us.push_back(k < b.N ? V(u0.begin() + k * b.mm, u0.begin() + (k + 1) * b.mm) : V(b.mm, 0.0));
  b.s->Solve();
  r.transition();
  auto& st = b.s->GetStats();
  if (b.s->GetStatus() == SolverStatus::kBackwardPassRegularizationFailed) return;
  double rho = st.regularization.back();
  Reference ref = riccati(b.st, xs, us, rho);
  if (ref.margin < 1e-7 || ref.scale > 1e6 || !ref.pd) { r.cover("step skipped"); return; }
  double a = st.alpha.back(), z = st.improvement_ratio.back();
  double J = st.cost.back();
  double d0 = 0, d1 = 0;
  for (int k = 0; k < b.N; ++k) { d0 += ref.r[k].d0; d1 += ref.r[k].d1; }
  double expect = -(a * d0 + a * a * d1);
  double size = 1 + std::abs(J0) + std::abs(d0) + std::abs(d1);
  if (J < J0 && a > 0 && expect > 1e-6 * size) {
    r.cover("step taken");
    // exact on a quadratic, at any regularization: closed-loop rollout of an affine policy
    r.checkf(std::abs((J0 - J) - expect) <= 1e-8 * size, "decrease-not-exact", [&] { return mc::str("step length ", a, " lowers the cost by ", J0 - J, ", the quadratic model gives ", expect, " (regularization ", rho, ")"); });
    r.checkf(std::abs(z - 1) <= 1e-8 * size / expect, "predicted-decrease", [&] { return mc::str("on a quadratic problem the ratio of actual to predicted decrease is ", z, " (step length ", a, ", regularization ", rho, ")"); });
  }
  if (rho == 0) {
    Dense d = dense(b.st, b.x0);
    if (d.margin < 1e-7) { r.cover("dense skipped"); return; }
    r.check(d.pd, "indefinite-accepted", "the unregularized pass succeeded although the condensed problem is indefinite");
    if (J0 - d.J <= 1e-6 * (1 + std::abs(J0))) return;
    r.cover("optimum compared");
    r.checkf(a == 1.0, "full-step-refused", [&] { return mc::str("the full step to the optimum was not taken (step length ", a, ")"); });
    r.checkf(std::abs(J - d.J) <= 1e-7 * (1 + std::abs(d.J) + std::abs(J0)), "not-optimal", [&] { return mc::str("one full step reached cost ", J, ", the optimum is ", d.J); });
    for (int i = 0; i < b.N * b.mm; ++i)
      r.checkf(std::abs(b.Z->Control(i / b.mm)(i % b.mm) - d.u[i]) <= 1e-6 * (1 + norm(d.u)), "not-optimal", [&] { return mc::str("control ", i, " after one full step is ", b.Z->Control(i / b.mm)(i % b.mm), ", optimum ", d.u[i]); });
  }
}

const std::vector<double> kRho = {0.0, 1e-3, 1.0, 30.0};

// every sequence of stage shapes; one solver object used for all of them in turn
template <int n, int m>
void shapes(mc::Run& r, int nn, int mm, int N, const std::vector<int>& kinds, const std::vector<int>& dyns, bool twice) {
  auto b = std::make_unique<Bench<n, m>>(nn, mm, N);
  for (int k = 0; k <= N; ++k) {
    int kind = r.pickv(kinds, "cost"), dyn = k < N ? r.pickv(dyns, "dynamics") : 0;
    *b->st[k] = make_stage(nn, mm, kind, dyn, k);
    if (r.recording()) r.note(mc::str("step ", k, ": ", kKind[kind], " cost", k < N ? mc::str(", ", kDyn[dyn], " dynamics") : ""));
  }
  double rho = r.pickv(kRho, "regularization");
  r.note(mc::str("initial regularization ", rho));
  b->guess(1.0);
  check_pass(r, *b, rho);
  check_step(r, *b, rho, 1.0);
  if (twice) {   // same object, stages swapped for others: nothing of the first pass may remain
    for (int k = 0; k <= N; ++k) *b->st[k] = make_stage(nn, mm, CONVEX, k % 2 ? ROTATE : GROW, k + 1);
    b->guess(-0.5);
    check_pass(r, *b, 0.0);
    check_step(r, *b, 0.0, -0.5);
  }
}

const std::vector<int> kAll = {CONVEX, FLAT, SADDLE, NEGATIVE, CROSS, SINGULAR, NEGX};
const std::vector<int> kAllDyn = {GENERIC, ROTATE, NOCONTROL, GROW};

template <int n, int m>
mc::Scenario scen(const char* name, int nn, int mm, int N, std::vector<int> kinds, std::vector<int> dyns) {
  return {mc::str(name, "-n", nn, "-m", mm, "-N", N), mc::str("every sequence of ", kinds.size(), " cost shapes and ", dyns.size(), " dynamics shapes over N=", N, " steps, 4 initial regularizations, n=", nn, " m=", mm),
          [=](mc::Run& r) { shapes<n, m>(r, nn, mm, N, kinds, dyns, true); }};
}

// single attribute sweeps at longer horizons: one odd stage among convex ones, at every position
template <int n, int m>
void odd_one(mc::Run& r, int nn, int mm, int N) {
  Bench<n, m> b(nn, mm, N);
  int where = r.choose(N + 1, "odd step"), kind = r.choose(NKIND, "cost"), dyn = r.choose(NDYN, "dynamics");
  for (int k = 0; k <= N; ++k) *b.st[k] = make_stage(nn, mm, k == where ? kind : CONVEX, k == where ? dyn : k % 2, k);
  int where2 = r.choose(N + 1, "second odd step"), kind2 = r.pick<int>({CONVEX, SADDLE, NEGATIVE}, "cost2");
  if (kind2 != CONVEX) *b.st[where2] = make_stage(nn, mm, kind2, dyn, where2);
  double rho = r.pickv(kRho, "regularization");
  b.guess(0.7);
  check_pass(r, b, rho);
  check_step(r, b, rho, 0.7);
}
}  // namespace

int main(int argc, char** argv) {
  mc::Spec spec;
  spec.property = "P11";
  spec.unit = "execution = one problem (sequence of stage shapes, regularization); transition = one backward pass or one solver iteration compared with the reference";
  spec.assumptions = {"problems whose definiteness is within 1e-7 of the borderline, or whose conditioning exceeds 1e6, are not compared (rounding decides)", "agreement up to 1e-9 relative"};
  std::vector<int> few = {CONVEX, SADDLE, NEGATIVE, CROSS}, gd = {GENERIC, ROTATE, NOCONTROL};
  spec.scenarios.push_back(scen<X, X>("dyn", 1, 1, 1, kAll, kAllDyn));
  spec.scenarios.push_back(scen<X, X>("dyn", 2, 1, 2, kAll, kAllDyn));
  spec.scenarios.push_back(scen<X, X>("dyn", 2, 2, 2, kAll, kAllDyn));
  spec.scenarios.push_back(scen<2, 1>("fixed", 2, 1, 2, kAll, kAllDyn));
  spec.scenarios.push_back(scen<1, 2>("fixed", 1, 2, 2, kAll, kAllDyn));
  spec.scenarios.push_back(scen<3, 2>("fixed", 3, 2, 2, kAll, gd));
  spec.scenarios.push_back(scen<X, X>("dyn", 3, 1, 3, few, gd));
  spec.scenarios.push_back(scen<2, 3>("fixed", 2, 3, 2, few, gd));
  spec.scenarios.push_back(scen<2, 2>("fixed", 2, 2, 3, kAll, gd));
  spec.scenarios.push_back(scen<X, X>("dyn", 1, 2, 3, kAll, kAllDyn));
  spec.scenarios.push_back(scen<X, X>("dyn", 3, 2, 4, few, {GENERIC, GROW}));
  if (mc::thorough()) {
    spec.scenarios.push_back(scen<2, 2>("fixed", 2, 2, 4, kAll, gd));
    spec.scenarios.push_back(scen<X, X>("dyn", 3, 2, 3, kAll, kAllDyn));
    spec.scenarios.push_back(scen<4, 2>("fixed", 4, 2, 3, kAll, gd));
    spec.scenarios.push_back(scen<X, X>("dyn", 2, 1, 5, few, {GENERIC, GROW}));
  }
  spec.scenarios.push_back({"odd-step-dyn-n2-m2-N6", "one or two unusual steps at every position of a 6 step horizon", [](mc::Run& r) { odd_one<X, X>(r, 2, 2, 6); }});
  spec.scenarios.push_back({"odd-step-fixed-n2-m1-N4", "one or two unusual steps at every position of a 4 step horizon", [](mc::Run& r) { odd_one<2, 1>(r, 2, 1, 4); }});
  spec.scenarios.push_back({"odd-step-fixed-n3-m2-N12", "one or two unusual steps at every position of a 12 step horizon", [](mc::Run& r) { odd_one<3, 2>(r, 3, 2, 12); }});
  return mc::main_driver(argc, argv, spec);
}
