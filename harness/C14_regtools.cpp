// C14: numeric helpers shared by the registration algorithms
#include "pbt.h"
#include <ndt_gslam/registration/ndt_reg_tools.h>
using pbt::angDist;
using pbt::Case;
using namespace pcl::ndt_reg;
typedef Eigen::Vector3d V3;
namespace
{
V3 genPose(Case& c)
{
  double m = c.coin(80) ? 20 : 1000;
  return V3(c.real(-m, m), c.real(-m, m), c.angle());
}
template <typename T>
void poses(Case& c)
{
  typedef Eigen::Matrix<T, 4, 4> M;
  V3 p = genPose(c);
  M m = vecToMat<T>(p);
  double eps = std::numeric_limits<T>::epsilon();
  c.note("pose ", p.transpose());
  c.nontrivial(std::fabs(std::sin(p(2))) > 1e-3 && p.head(2).norm() > 1e-3);
  Eigen::Matrix4d d = m.template cast<double>(), w = Eigen::Matrix4d::Identity();
  w(0, 0) = w(1, 1) = std::cos(p(2));
  w(1, 0) = std::sin(p(2));
  w(0, 1) = -w(1, 0);
  w(0, 3) = p(0);
  w(1, 3) = p(1);
  double tol = 10 * eps * (1 + p.cwiseAbs().maxCoeff());
  PBT_REQUIRE("matrix", (d - w).cwiseAbs().maxCoeff() <= tol, d.row(0), "; ", d.row(1), "; ", d.row(2), "; ", d.row(3));
  V3 b = matToVec<T>(m);
  PBT_REQUIRE("round-trip", (b - p).head(2).cwiseAbs().maxCoeff() <= tol && angDist(b(2), p(2)) <= 2 * tol,
              b.transpose());
  PBT_REQUIRE("angle-range", std::fabs(b(2)) <= M_PI + tol, b(2));
  V3 q = genPose(c);
  M mq = vecToMat<T>(q);
  V3 pq = matToVec<T>(M(m * mq));
  double co = std::cos(p(2)), si = std::sin(p(2));
  V3 want(p(0) + co * q(0) - si * q(1), p(1) + si * q(0) + co * q(1), p(2) + q(2));
  double t2 = 20 * eps * (1 + p.cwiseAbs().maxCoeff() + q.cwiseAbs().maxCoeff());
  PBT_REQUIRE("composition", (pq - want).head(2).cwiseAbs().maxCoeff() <= t2 && angDist(pq(2), want(2)) <= 2 * t2,
              pq.transpose(), " want ", want.transpose());
}
}
PBT_TEST(poses_double, 60000, 2000000)
{
  poses<double>(c);
}
PBT_TEST(poses_float, 60000, 2000000)
{
  poses<float>(c);
}

// the smooth stand-in for the mixture likelihood has the value of the mixture
// at the centre, one deviation away, and far away
PBT_TEST(mixture_fit, 60000, 2000000)
{
  double ratio = c.coin(50) ? 0.55 : c.real(0.01, 0.99);
  double res = c.coin(50) ? c.pick(std::vector<double>{0.25, 0.5, 1, 2, 4}) : c.logreal(0.1, 10);
  FittingParams p(ratio, res);
  c.note("outlier ratio ", ratio, " resolution ", res);
  c.nontrivial(ratio != 0.55);
  double c1 = 10 * (1 - ratio), c2 = ratio / (res * res), d3 = -std::log(c2);
  auto mix = [&](double x) { return -std::log(c1 * std::exp(-x * x / 2) + c2); };
  auto fit = [&](double x) { return p.gauss_d1_ * std::exp(-p.gauss_d2_ * x * x / 2) + d3; };
  PBT_REQUIRE("finite", std::isfinite(p.gauss_d1_) && std::isfinite(p.gauss_d2_), p.gauss_d1_, " ", p.gauss_d2_);
  double tol = 1e-9 * (1 + std::fabs(mix(0)) + std::fabs(d3));
  PBT_REQUIRE("centre", std::fabs(mix(0) - fit(0)) <= tol, fit(0), " want ", mix(0));
  PBT_REQUIRE("one-deviation", std::fabs(mix(1) - fit(1)) <= tol, fit(1), " want ", mix(1));
  PBT_REQUIRE("shape", p.gauss_d1_ < 0 && p.gauss_d2_ > 0, p.gauss_d1_, " ", p.gauss_d2_);
  PBT_REQUIRE("half", std::fabs(p.gauss_d2__half_ - p.gauss_d2_ / 2) <= 1e-15 * (1 + p.gauss_d2_), p.gauss_d2__half_);
}

PBT_TEST(score_sums, 40000, 1000000)
{
  typedef ScoreAndDerivatives<3, double> S;
  auto gen = [&]() {
    S s;
    s.value_ = c.real(-5, 5);
    for (int i = 0; i < 3; ++i) {
      s.gradient_(i) = c.real(-5, 5);
      for (int j = 0; j < 3; ++j)
        s.hessian_(i, j) = c.real(-5, 5);
    }
    return s;
  };
  auto eq = [](const S& a, const S& b, double t) {
    return std::fabs(a.value_ - b.value_) <= t && (a.gradient_ - b.gradient_).cwiseAbs().maxCoeff() <= t &&
           (a.hessian_ - b.hessian_).cwiseAbs().maxCoeff() <= t;
  };
  S a = gen(), b = gen(), d = gen(), z;
  c.nontrivial();
  PBT_REQUIRE("zero", eq(z, S::Zero(), 0) && z.value_ == 0 && z.gradient_.isZero() && z.hessian_.isZero(), "");
  PBT_REQUIRE("neutral", eq(a + z, a, 0) && eq(z + a, a, 0), "");
  PBT_REQUIRE("commutes", eq(a + b, b + a, 0), "");
  S ab = a + b, s = a;
  S w;
  w.value_ = a.value_ + b.value_;
  w.gradient_ = a.gradient_ + b.gradient_;
  w.hessian_ = a.hessian_ + b.hessian_;
  PBT_REQUIRE("sum", eq(ab, w, 1e-13), "");
  PBT_REQUIRE("associates", eq((a + b) + d, a + (b + d), 1e-12), "");
  s += b;
  PBT_REQUIRE("in-place", eq(s, ab, 0), "");
}
PBT_MAIN()
