// C01, part that needs the matrix -> vector conversions
#include "pbt.h"
#include <ndt_gslam/utils/eigen_tools.h>
using pbt::Case;

PBT_TEST(matrix_to_vector, 40000, 1000000)
{
  double m = c.coin() ? 1000.0 : 10.0;
  Eigen::Vector3d p(c.real(-m, m), c.real(-m, m), c.angle());
  c.note("pose ", p.transpose());
  c.nontrivial(std::fabs(p(2)) > 1e-6 && p.head(2).norm() > 1e-6);
  Eigen::Matrix3d m3 = eigt::vecToMat2d<double>(p);
  Eigen::Matrix4d m4 = eigt::vecToMat3d<double>(p);
  Eigen::Vector3d a = eigt::matToVec2d<double>(m3);
  Eigen::Vector3d b = eigt::matToVec2d<double>(m4);
  double tol = 1e-9 * (1 + m);
  PBT_REQUIRE("3x3", (a - p).head(2).norm() <= tol &&
                         pbt::angDist(a(2), p(2)) <= 1e-9,
              a.transpose());
  PBT_REQUIRE("4x4", (b - p).head(2).norm() <= tol &&
                         pbt::angDist(b(2), p(2)) <= 1e-9,
              b.transpose());
}
