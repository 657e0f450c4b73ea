#pragma once
// rooms to register: walls in several directions, seen from two poses
#include "reg_common.h"
struct Room {
  std::vector<V2> pts;
  double w = 0, h = 0;
  void wall(Case& c, const V2& a, const V2& b, double step, double noise)
  {
    double l = (b - a).norm();
    int n = std::max(2, static_cast<int>(l / step));
    for (int i = 0; i < n; ++i)
      pts.push_back(a + (b - a) * ((i + 0.5) / n) + noise * V2(c.uniform(-1, 1), c.uniform(-1, 1)));
  }
};
// a rectangular room, clearly longer than wide, with free-standing walls
inline Room genRoom(Case& c, double step = 0.035, bool lopsided = false)
{
  Room r;
  r.w = c.uniform(3, 3.6);
  r.h = c.uniform(4.4, 5.2);
  double noise = c.coin(50) ? 0 : 0.01;
  std::vector<V2> corners{V2(-r.w, -r.h), V2(r.w, -r.h), V2(r.w, r.h), V2(-r.w, r.h)};
  if (lopsided)  // no turn maps it onto itself
    corners = {V2(-r.w, -r.h), V2(r.w, -r.h), V2(r.w, 0.1 * r.h), V2(-0.1 * r.w, 0.3 * r.h), V2(-r.w, r.h)};
  for (size_t i = 0; i < corners.size(); ++i)
    r.wall(c, corners[i], corners[(i + 1) % corners.size()], step, noise);
  size_t k = static_cast<size_t>(c.range(1, 3));
  for (size_t i = 0; i < k; ++i) {
    V2 a(c.uniform(-0.7, 0.7) * r.w, c.uniform(-0.7, 0.7) * r.h);
    double th = c.angle();
    r.wall(c, a, a + c.uniform(0.8, 2) * V2(std::cos(th), std::sin(th)), step, noise);
  }
  return r;
}
struct Scene {
  Cloud target, source;
  V3 truth;  // moves the source onto the target
};
inline Scene genScene(Case& c, double step = 0.035, bool lopsided = false)
{
  Scene s;
  Room r = genRoom(c, step, lopsided);
  Eigen::Rotation2Dd q(c.angle());
  s.truth = V3(c.real(-1, 1), c.real(-1, 1), c.real(-0.6, 0.6));
  T2 inv = frame(s.truth).inverse();
  for (auto& p : r.pts) {
    V2 a = q * p, b = inv * a;
    s.target.push_back(P(static_cast<float>(a(0)), static_cast<float>(a(1)), 0));
    s.source.push_back(P(static_cast<float>(b(0)), static_cast<float>(b(1)), 0));
  }
  return s;
}
inline double poseError(const V3& a, const V3& b)
{
  return std::hypot(a(0) - b(0), a(1) - b(1)) + 2 * pbt::angDist(a(2), b(2));
}
inline V3 poseOf(const Eigen::Matrix4f& m)
{
  return V3(m(0, 3), m(1, 3), std::atan2(m(1, 0), m(0, 0)));
}
inline Eigen::Matrix4f matOf(const V3& p)
{
  Eigen::Matrix4f m = Eigen::Matrix4f::Identity();
  m(0, 0) = m(1, 1) = static_cast<float>(std::cos(p(2)));
  m(1, 0) = static_cast<float>(std::sin(p(2)));
  m(0, 1) = -m(1, 0);
  m(0, 3) = static_cast<float>(p(0));
  m(1, 3) = static_cast<float>(p(1));
  return m;
}
inline V3 genOffset(Case& c, double m, double a)
{
  return V3(c.real(-m, m), c.real(-m, m), c.real(-a, a));
}
inline boost::shared_ptr<Cloud> shared(const Cloud& c)
{
  return boost::shared_ptr<Cloud>(new Cloud(c));
}
// a rigid motion in the plane
inline void planar(const Eigen::Matrix4f& m)
{
  PBT_REQUIRE("finite", m.allFinite(), "");
  Eigen::Matrix3f r = m.block<3, 3>(0, 0);
  bool rigid = (r * r.transpose() - Eigen::Matrix3f::Identity()).cwiseAbs().maxCoeff() < 1e-4 && r.determinant() > 0;
  PBT_REQUIRE("rigid", rigid, "rotation part ", m(0, 0), " ", m(0, 1), " ", m(1, 0), " ", m(1, 1));
  PBT_REQUIRE("planar", std::fabs(m(2, 2) - 1) < 1e-5 && std::fabs(m(2, 0)) + std::fabs(m(2, 1)) + std::fabs(m(0, 2)) + std::fabs(m(1, 2)) + std::fabs(m(2, 3)) < 1e-5, "");
  PBT_REQUIRE("last-row", m(3, 0) == 0 && m(3, 1) == 0 && m(3, 2) == 0 && m(3, 3) == 1, "");
}
inline void movedBy(const Eigen::Matrix4f& m, const Cloud& in, const Cloud& out)
{
  PBT_REQUIRE("output-size", in.size() == out.size(), out.size(), " want ", in.size());
  V3 p = poseOf(m);
  T2 t = frame(p);
  for (size_t i = 0; i < in.size(); ++i) {
    V2 w = t * V2(in[i].x, in[i].y);
    PBT_REQUIRE("output-points", (V2(out[i].x, out[i].y) - w).norm() < 1e-3 && std::fabs(out[i].z - in[i].z) < 1e-4, "point ", i, " at ", out[i].x, " ",
                out[i].y, " want ", str(w));
  }
}
