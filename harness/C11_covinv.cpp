// C11: guarded inversion of covariances
#include "pbt.h"
#include <ndt_gslam/utils/covariance_inverse.h>
using pbt::Case;
namespace
{
template <typename T>
void inversion(Case& c)
{
  typedef Eigen::Matrix<T, 3, 3> M;
  Eigen::Matrix3d q = (Eigen::AngleAxisd(c.angle(), Eigen::Vector3d::UnitZ()) *
                       Eigen::AngleAxisd(c.angle(), Eigen::Vector3d::UnitX()) *
                       Eigen::AngleAxisd(c.angle(), Eigen::Vector3d::UnitZ()))
                          .toRotationMatrix();
  double scale = c.logreal(1e-4, 1e4);
  Eigen::Vector3d e;
  size_t kind = c.weighted({4, 4, 2, 1});
  for (int i = 0; i < 3; ++i)
    switch (kind) {
      case 0:  // harmless
        e(i) = scale * c.real(0.05, 1);
        break;
      case 1:  // stretched
        e(i) = scale * c.logreal(1e-6, 1);
        break;
      case 2:  // singular
        e(i) = c.coin(50) ? 0 : scale * c.logreal(1e-3, 1);
        break;
      default:  // not a covariance
        e(i) = -scale * c.logreal(1e-3, 1) * (c.coin(90) ? 1 : 0);
    }
  if (c.coin(15))
    q.setIdentity();
  Eigen::Matrix3d covd = q * e.asDiagonal() * q.transpose();
  covd = (covd + covd.transpose()).eval() / 2;
  M cov = covd.cast<T>(), adj = M::Constant(T(7)), inv = M::Constant(T(7));
  c.note("variances ", e.transpose(), " cov ", covd.row(0), "; ", covd.row(1), "; ", covd.row(2));
  double sum = e.sum(), mx = e.maxCoeff(), mn = e.minCoeff();
  double eps = std::numeric_limits<T>::epsilon();
  // the sum of the variances decides; not looked at when it is all rounding
  c.assume(kind == 3 || sum > 0 || e.isZero());
  bool ok = slamuk::covarInverse<T>(cov, adj, inv);
  if (e.isZero() || sum < 0) {
    c.label("rejected");
    PBT_REQUIRE("rejects-degenerate", !ok, "");
    return;
  }
  PBT_REQUIRE("accepts", ok, "");
  Eigen::Vector3d want = e.cwiseMax(mx / 100);
  bool limited = mn * 100 < mx;
  c.label(limited ? "limited" : "kept");
  c.nontrivial(limited || std::fabs(q(2, 2)) < 0.999);
  Eigen::Matrix3d ref = q * want.asDiagonal() * q.transpose();
  Eigen::Matrix3d a = adj.template cast<double>(), iv = inv.template cast<double>();
  double tol = 400 * eps;
  PBT_REQUIRE("adjusted", (a - ref).cwiseAbs().maxCoeff() <= tol * mx, a.row(0), "; ", a.row(1), "; ", a.row(2), " want ",
              ref.row(0), "; ", ref.row(1), "; ", ref.row(2));
  PBT_REQUIRE("inverse", (a * iv - Eigen::Matrix3d::Identity()).cwiseAbs().maxCoeff() <= 100 * tol, iv.row(0), "; ",
              iv.row(1), "; ", iv.row(2));
  PBT_REQUIRE("inverse-symmetric", (iv - iv.transpose()).cwiseAbs().maxCoeff() <= 100 * tol * iv.cwiseAbs().maxCoeff(),
              "");
  Eigen::SelfAdjointEigenSolver<Eigen::Matrix3d> s(a);
  PBT_REQUIRE("ratio", s.eigenvalues()(0) * 100 >= s.eigenvalues()(2) * (1 - 1000 * tol), s.eigenvalues().transpose());
  if (mn * 100 > mx * (1 + 100 * tol))
    PBT_REQUIRE("well-conditioned-kept", adj == cov, "");
}
}
PBT_TEST(double_precision, 100000, 3000000)
{
  inversion<double>(c);
}
PBT_TEST(single_precision, 60000, 2000000)
{
  inversion<float>(c);
}
PBT_MAIN()
