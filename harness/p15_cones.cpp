// check: P15 variant=asan sources=all
// Every vector over a grid that contains the extremes, every cone, every kind of receiving array.
#include <limits>
#include <type_traits>
#include <vector>
#include "altro/constraints/constraint.hpp"
#include "mc.hpp"
using namespace altro;
namespace cons = altro::constraints;

namespace {
const double kInf = std::numeric_limits<double>::infinity(), kTiny = std::numeric_limits<double>::denorm_min();
const double kGuard = 12345.678, kNaN = std::numeric_limits<double>::quiet_NaN();
const std::vector<double> kValues = {1, -1, 0.0, -0.0, 0.1, -0.1, 1e300, -1e300, kInf, -kInf, kTiny, -kTiny, 1e-17, -1e-17};

enum Kind { ZERO, ALL, NEG, POS };
// the cones, by definition: membership of one coordinate, and the nearest point of the cone
double nearest(Kind k, double x) { return k == ZERO ? 0 : k == ALL ? x : k == NEG ? (x < 0 ? x : 0) : (x > 0 ? x : 0); }
Kind polar(Kind k) { return k == ZERO ? ALL : k == ALL ? ZERO : k == NEG ? POS : NEG; }
template <class C> Kind kind();
template <> Kind kind<cons::ZeroCone>() { return ZERO; }
template <> Kind kind<cons::IdentityCone>() { return ALL; }
template <> Kind kind<cons::NegativeOrthant>() { return NEG; }

// A vector that receives a result: alone or inside a larger array whose other entries must survive
struct Out {
  VectorXd big; int off, n;
  Out(int n_, int kind, double fill) : off(kind == 0 ? 0 : 2), n(n_) { big = VectorXd::Constant(n + (kind == 0 ? 0 : 5), kGuard); big.segment(off, n).setConstant(fill); }
  Eigen::Ref<VectorXd> ref() { return big.segment(off, n); }
  bool guards() const { for (int i = 0; i < big.size(); ++i) if ((i < off || i >= off + n) && big(i) != kGuard) return false; return true; }
};
struct OutM {
  MatrixXd big; int r0, c0, n;
  OutM(int n_, int kind, double fill) : r0(kind == 0 ? 0 : 1), c0(kind == 0 ? 0 : 2), n(n_) { int e = kind == 0 ? 0 : 4; big = MatrixXd::Constant(n + e, n + e, kGuard); big.block(r0, c0, n, n).setConstant(fill); }
  Eigen::Ref<MatrixXd> ref() { return big.block(r0, c0, n, n); }
  bool guards() const { for (int i = 0; i < big.rows(); ++i) for (int j = 0; j < big.cols(); ++j) if ((i < r0 || i >= r0 + n || j < c0 || j >= c0 + n) && big(i, j) != kGuard) return false; return true; }
};

template <class C>
VectorXd project(mc::Run& r, const VectorXdRef& x, int recv, double fill, const char* name) {
  VectorXd before = x;
  Out o(x.size(), recv, fill);
  C::Projection(x, o.ref());
  r.transition();
  r.checkf(o.guards(), "wrote-outside", [&] { return mc::str(name, "::Projection wrote outside its output"); });
  for (int i = 0; i < x.size(); ++i) r.checkf(x(i) == before(i), "changed-input", [&] { return mc::str(name, "::Projection changed its input"); });
  return o.ref();
}
std::string show(const VectorXd& x) { std::string s = "["; for (int i = 0; i < x.size(); ++i) s += mc::str(i ? ", " : "", x(i)); return s + "]"; }

template <class C>
void one(mc::Run& r, const VectorXdRef& x, int recv, double fill, const char* name) {
  const Kind K = kind<C>();
  const int n = x.size();
  VectorXd p = project<C>(r, x, recv, fill, name);
  for (int i = 0; i < n; ++i)
    r.checkf(p(i) == nearest(K, x(i)), "projection", [&] { return mc::str(name, ": the projection of ", show(x), " is ", show(p), ", entry ", i, " should be ", nearest(K, x(i))); });
  VectorXd pp = project<C>(r, p, recv, fill, name);
  for (int i = 0; i < n; ++i) r.checkf(pp(i) == p(i), "not-idempotent", [&] { return mc::str(name, ": projecting ", show(p), " again gives ", show(pp)); });
  // the dual cone is {y : y'z >= 0 for all z in the cone}; the polar cone is its negative
  using D = typename C::DualCone;
  VectorXd q = -x;
  VectorXd d = project<D>(r, q, recv, fill, "dual cone");
  for (int i = 0; i < n; ++i) {
    double pol = -d(i);
    r.checkf(pol == nearest(polar(K), x(i)), "dual-cone", [&] { return mc::str(name, ": the projection of ", x(i), " onto the polar cone (through DualCone) is ", pol, ", expected ", nearest(polar(K), x(i))); });
    r.checkf(p(i) + pol == x(i), "decomposition", [&] { return mc::str(name, ": ", x(i), " does not split into ", p(i), " and ", pol); });
    r.checkf(p(i) == 0 || pol == 0, "not-orthogonal", [&] { return mc::str(name, ": the two parts of ", x(i), " are not orthogonal"); });
  }
  OutM J(n, recv, fill);
  C::Jacobian(x, J.ref());
  r.transition();
  r.checkf(J.guards(), "wrote-outside", [&] { return mc::str(name, "::Jacobian wrote outside its output"); });
  MatrixXd j = J.ref();
  for (int a = 0; a < n; ++a)
    for (int b = 0; b < n; ++b) {
      double want = a != b ? 0 : K == ZERO ? 0 : K == ALL ? 1 : x(a) < 0 ? 1 : 0;
      bool kink = a == b && K == NEG && x(a) == 0;
      // off the diagonal the derivative exists as well where another coordinate is at the kink
      bool ok = j(a, b) == want || (kink && j(a, b) >= 0 && j(a, b) <= 1);
      r.checkf(ok, "jacobian", [&] { return mc::str(name, ": entry (", a, ",", b, ") of the projection Jacobian at ", show(x), " is ", j(a, b), ", expected ", want); });
    }
  VectorXd bvec(n);
  for (int i = 0; i < n; ++i) bvec(i) = 1.5 * i - 2;
  OutM H(n, recv, fill);
  C::Hessian(x, bvec, H.ref());
  r.transition();
  r.checkf(H.guards(), "wrote-outside", [&] { return mc::str(name, "::Hessian wrote outside its output"); });
  MatrixXd h = H.ref();
  r.checkf((h.array() == 0).all(), "hessian", [&] { return mc::str(name, ": the projection Hessian at ", show(x), " is not zero"); });
}

void body(mc::Run& r, int nmax) {
  int n = r.choose(nmax + 1, "size");
  VectorXd big = VectorXd::Constant(n + 4, kGuard);
  for (int i = 0; i < n; ++i) big(2 + i) = r.pickv(kValues, "value");
  int recv = r.choose(2, "receiver");
  double fill = r.pick({7.0, kNaN}, "earlier content");
  bool part = recv == 1;
  VectorXd alone = big.segment(2, n);
  auto run = [&](const VectorXdRef& x) {
    one<cons::ZeroCone>(r, x, recv, fill, "ZeroCone");
    one<cons::IdentityCone>(r, x, recv, fill, "IdentityCone");
    one<cons::NegativeOrthant>(r, x, recv, fill, "NegativeOrthant");
  };
  if (part) run(big.segment(2, n)); else run(alone);
  uint64_t h = n;
  for (int i = 0; i < n; ++i) h = mc::hashd(h, std::signbit(big(2 + i)) ? big(2 + i) - (big(2 + i) == 0 ? 1e-5 : 0) : big(2 + i));
  r.state(mc::mix(h, recv * 2 + (fill != fill)));
  r.outcome(h);
}

// The two kinds of constraint name the cone they mean, and say which they are
class Eq : public cons::Constraint<cons::Equality> {
 public:
  int OutputDimension() const override { return 1; }
  void Evaluate(const VectorXdRef&, const VectorXdRef&, Eigen::Ref<VectorXd> c) override { c.setZero(); }
  void Jacobian(const VectorXdRef&, const VectorXdRef&, Eigen::Ref<MatrixXd> j) override { j.setZero(); }
};
class In : public cons::Constraint<cons::Inequality> {
 public:
  int OutputDimension() const override { return 1; }
  void Evaluate(const VectorXdRef&, const VectorXdRef&, Eigen::Ref<VectorXd> c) override { c.setZero(); }
  void Jacobian(const VectorXdRef&, const VectorXdRef&, Eigen::Ref<MatrixXd> j) override { j.setZero(); }
};
void kinds(mc::Run& r) {
  double v = r.pickv(kValues, "value");
  VectorXd x = VectorXd::Constant(1, v), p(1);
  Eq::ConstraintType::Projection(x, p);
  r.transition();
  r.check(p(0) == 0, "equality-cone", "an equality constraint projects onto zero");
  In::ConstraintType::Projection(x, p);
  r.transition();
  r.check(p(0) == (v < 0 ? v : 0), "inequality-cone", "an inequality constraint projects onto the non-positive numbers");
  Eq e; In i;
  r.check(e.GetConstraintType() == "Equality Constraint" && i.GetConstraintType() == "Inequality Constraint", "type-name", "kind of a constraint");
  r.state(mc::hashd(1, v));
  r.outcome(mc::hashd(2, p(0)));
}
}  // namespace

int main(int argc, char** argv) {
  mc::Spec s;
  s.property = "P15";
  s.unit = "state: one input vector with one kind of receiver; transition: one projection, Jacobian or Hessian evaluation";
  s.assumptions = {"entries are numbers (infinite and denormal ones included); at the kink of the inequality cone any element of the generalised derivative is accepted"};
  int n = mc::tier(4, 5);
  s.scenarios.push_back({"vectors", mc::str("every vector of length 0..", n, " over 14 values (0 and -0, +-1, +-0.1, +-1e-17, +-denormal, +-1e300, +-infinity), 2 kinds of receiver x 2 earlier contents, all cones and their duals"), [n](mc::Run& r) { body(r, n); }});
  s.scenarios.push_back({"kinds", "the cone behind each kind of constraint, 14 values", kinds});
  return mc::main_driver(argc, argv, s);
}
