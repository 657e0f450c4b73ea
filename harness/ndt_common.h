#pragma once
// generators and a reference model of the normal-distribution cell
#include "pbt.h"
#include <ndt_gslam/ndt/ndt_cell.h>
using pbt::Case;
typedef slamuk::NDTCell Cell;
typedef Eigen::Vector3d V3;
typedef Eigen::Matrix3d M3;
typedef std::vector<V3> Pts;

inline std::string str(const V3& v)
{
  return pbt::cat("(", v(0), " ", v(1), " ", v(2), ")");
}
inline std::string str(const M3& m)
{
  return pbt::cat("[", m(0, 0), " ", m(0, 1), " ", m(0, 2), "; ", m(1, 1), " ", m(1, 2), "; ", m(2, 2), "]");
}

inline V3 genCentre(Case& c)
{
  double m = c.coin(80) ? 5 : 100;
  return V3(c.real(-m, m), c.real(-m, m), c.coin(80) ? 0 : c.real(-1, 1));
}
// an elongated, rotated blob of points
inline Pts genPts(Case& c, size_t n, const V3& centre)
{
  double th = c.angle(), s1, s2;
  s1 = c.logreal(0.001, 5);
  s2 = c.coin(20) ? 0 : s1 * c.logreal(0.01, 1);
  bool flat = c.coin(75);
  Pts r;
  for (size_t i = 0; i < n; ++i) {
    double u = c.uniform(-1, 1) * s1, v = c.uniform(-1, 1) * s2;
    r.push_back(centre + V3(std::cos(th) * u - std::sin(th) * v, std::sin(th) * u + std::cos(th) * v,
                            flat ? 0 : c.uniform(-1, 1) * s2));
  }
  return r;
}
inline Cell makeCell(const Pts& p)
{
  Cell c;
  for (auto& x : p)
    c.addPoint(x);
  c.computeGaussian();
  return c;
}
// covariance with the ratio of its principal variances limited to 100
inline M3 limitCond(const M3& m)
{
  Eigen::SelfAdjointEigenSolver<M3> s(m);
  V3 e = s.eigenvalues();
  for (int i = 0; i < 2; ++i)
    e(i) = std::max(e(i), 0.01 * e(2));
  return s.eigenvectors() * e.asDiagonal() * s.eigenvectors().transpose();
}
struct Ref {
  size_t n = 0;
  V3 mean = V3::Zero();
  M3 cov = M3::Identity();  // before limiting
};
inline Ref refOf(const Pts& p)
{
  Ref r;
  r.n = p.size();
  double n = static_cast<double>(p.size());
  for (auto& x : p)
    r.mean += x;
  r.mean /= n;
  M3 s = M3::Identity();  // unit scatter prior
  for (auto& x : p)
    s += (x - r.mean) * (x - r.mean).transpose();
  r.cov = (s / n) * ((n - 1) / n);
  return r;
}
inline Ref fuse(const Ref& a, const Ref& b)
{
  Ref r;
  double n1 = static_cast<double>(a.n), n2 = static_cast<double>(b.n), n = n1 + n2;
  r.n = a.n + b.n;
  r.mean = (n1 * a.mean + n2 * b.mean) / n;
  V3 d = a.mean - b.mean;
  r.cov = ((n1 - 1) * a.cov + (n2 - 1) * b.cov + (n1 * n2 / n) * d * d.transpose()) / (n - 1);
  return r;
}
inline Ref stateOf(const Cell& c)
{
  Ref r;
  r.n = c.points();
  r.mean = c.getMean();
  r.cov = c.getCov();
  return r;
}
inline bool near(const V3& a, const V3& b, double tol)
{
  return (a - b).cwiseAbs().maxCoeff() <= tol;
}
inline bool near(const M3& a, const M3& b, double tol)
{
  return (a - b).cwiseAbs().maxCoeff() <= tol * (1 + a.cwiseAbs().maxCoeff());
}
// what every cell with a distribution must satisfy
inline void wellFormed(const Cell& c)
{
  const M3& k = c.getCov();
  PBT_REQUIRE("finite", k.allFinite() && c.getICov().allFinite() && c.getMean().allFinite(), str(k));
  double scale = k.cwiseAbs().maxCoeff();
  PBT_REQUIRE("symmetric", (k - k.transpose()).cwiseAbs().maxCoeff() <= 1e-12 * scale, str(k));
  Eigen::SelfAdjointEigenSolver<M3> s(k);
  V3 e = s.eigenvalues();
  PBT_REQUIRE("positive", e(0) > 0, e.transpose());
  PBT_REQUIRE("conditioning", e(0) >= 0.01 * e(2) * (1 - 1e-7), e.transpose());
  PBT_REQUIRE("inverse", (k * c.getICov() - M3::Identity()).cwiseAbs().maxCoeff() <= 1e-9,
              str(k), " inverse ", str(c.getICov()));
  PBT_REQUIRE("occupancy-range", c.getOccupancyRaw() >= -1 && c.getOccupancyRaw() <= 1, c.getOccupancyRaw());
}
inline bool sameState(const Cell& a, const Cell& b)
{
  return a.hasGaussian() == b.hasGaussian() && a.points() == b.points() && a.getMean() == b.getMean() &&
         a.getCov() == b.getCov() && a.getICov() == b.getICov() && a.getOccupancyRaw() == b.getOccupancyRaw();
}
typedef Cell::Transform T3;
inline T3 genRigid(Case& c, double m)
{
  T3 t = T3::Identity();
  if (c.coin(75))
    t.linear() = Eigen::AngleAxisd(c.angle(), V3::UnitZ()).toRotationMatrix();
  else
    t.linear() = (Eigen::AngleAxisd(c.angle(), V3::UnitZ()) * Eigen::AngleAxisd(c.angle(), V3::UnitX()) *
                  Eigen::AngleAxisd(c.angle(), V3::UnitZ()))
                     .toRotationMatrix();
  t.translation() = V3(c.real(-m, m), c.real(-m, m), c.coin(75) ? 0 : c.real(-2, 2));
  return t;
}
inline std::string str(const T3& t)
{
  return pbt::cat("yaw ", std::atan2(t(1, 0), t(0, 0)), " zz ", t(2, 2), " t ", str(V3(t.translation())));
}
