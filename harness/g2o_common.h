#pragma once
#include "pbt.h"
#include <g2o/core/jacobian_workspace.h>
#include <g2o/core/factory.h>
#include <g2o/core/sparse_optimizer.h>
#include <g2o/types/slam2d/edge_se2.h>
#include <g2o/types/slam2d/edge_se2_pointxy.h>
#include <g2o/types/slam2d/vertex_point_xy.h>
#include <g2o/types/slam2d/vertex_se2.h>
#include <iostream>
#include <memory>
#include <sstream>
using pbt::angDist;
using pbt::Case;
typedef Eigen::Vector3d V3;
typedef Eigen::Vector2d V2;
typedef Eigen::Matrix3d M3;

struct Quiet {
  Quiet()
  {
    std::cerr.setstate(std::ios::badbit);
    std::cout.setstate(std::ios::badbit);
  }
};
inline V3 genPose(Case& c, double m = 10)
{
  return V3(c.real(-m, m), c.real(-m, m), c.angle());
}
inline V3 comp(const V3& a, const V3& b)
{
  double co = std::cos(a(2)), si = std::sin(a(2));
  return V3(a(0) + co * b(0) - si * b(1), a(1) + si * b(0) + co * b(1), pbt::wrapPi(a(2) + b(2)));
}
inline V3 inv(const V3& a)
{
  double co = std::cos(a(2)), si = std::sin(a(2));
  return V3(-co * a(0) - si * a(1), si * a(0) - co * a(1), pbt::wrapPi(-a(2)));
}
inline g2o::SE2 se2(const V3& p)
{
  return g2o::SE2(p(0), p(1), p(2));
}
// what the optimiser does to a pose
inline V3 plus(const V3& p, const V3& d)
{
  g2o::VertexSE2 v;
  v.setEstimate(se2(p));
  v.oplus(d.data());
  return v.estimate().toVector();
}
template <int N>
Eigen::Matrix<double, N, N> genInfo(Case& c)
{
  Eigen::Matrix<double, N, N> a;
  double s = c.logreal(0.03, 30);
  for (int i = 0; i < N; ++i)
    for (int j = 0; j < N; ++j)
      a(i, j) = s * c.real(-1, 1);
  Eigen::Matrix<double, N, N> r = a * a.transpose();
  for (int i = 0; i < N; ++i)
    r(i, i) += s * s * 0.05;
  return r;
}
inline std::string str(const V3& p)
{
  return pbt::cat("(", p(0), " ", p(1), " ", p(2), ")");
}
