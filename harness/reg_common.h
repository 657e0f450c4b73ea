#pragma once
// derivatives of the registration scores by automatic differentiation, and
// scenes to register
#include "ndtgrid_common.h"
#include <ndt_gslam/registration/ndt2d.h>
#include <ndt_gslam/registration/d2d_ndt2d.h>
typedef pcl::ndt_reg::FittingParams Fit;
typedef pcl::ndt_reg::ScoreAndDerivatives<3, double> SD;

// a value with its first and second derivatives by (x, y, angle)
struct Jet {
  double v = 0;
  V3 g = V3::Zero();
  M3 h = M3::Zero();
  Jet()
  {
  }
  Jet(double x) : v(x)
  {
  }
  static Jet var(double x, int i)
  {
    Jet r(x);
    r.g(i) = 1;
    return r;
  }
  // f(this) with the derivatives of f at v
  Jet map(double f, double d1, double d2) const
  {
    Jet r(f);
    r.g = d1 * g;
    r.h = d1 * h + d2 * g * g.transpose();
    return r;
  }
};
inline Jet operator+(const Jet& a, const Jet& b)
{
  Jet r(a.v + b.v);
  r.g = a.g + b.g;
  r.h = a.h + b.h;
  return r;
}
inline Jet operator-(const Jet& a, const Jet& b)
{
  Jet r(a.v - b.v);
  r.g = a.g - b.g;
  r.h = a.h - b.h;
  return r;
}
inline Jet operator*(const Jet& a, const Jet& b)
{
  Jet r(a.v * b.v);
  r.g = a.v * b.g + b.v * a.g;
  r.h = a.v * b.h + b.v * a.h + a.g * b.g.transpose() + b.g * a.g.transpose();
  return r;
}
inline Jet inverse(const Jet& a)
{
  return a.map(1 / a.v, -1 / (a.v * a.v), 2 / (a.v * a.v * a.v));
}
inline Jet jexp(const Jet& a)
{
  double e = std::exp(a.v);
  return a.map(e, e, e);
}
inline Jet jcos(const Jet& a)
{
  return a.map(std::cos(a.v), -std::sin(a.v), -std::cos(a.v));
}
inline Jet jsin(const Jet& a)
{
  return a.map(std::sin(a.v), std::cos(a.v), -std::sin(a.v));
}
// adds a contribution, and how large its parts were before cancelling
struct Sum {
  Jet total;
  double scale = 0;
  void add(const Jet& j, double s)
  {
    total = total + j;
    scale += s;
  }
};
inline void sameScore(const char* key, const SD& got, const Sum& want, double tol, bool hessian = true)
{
  double t = tol * (1e-12 + want.scale);
  PBT_REQUIRE(key, std::fabs(got.value_ - want.total.v) <= t, "value ", got.value_, " want ", want.total.v, " scale ", want.scale);
  PBT_REQUIRE(key, near(V3(got.gradient_), want.total.g, t), "gradient ", str(V3(got.gradient_)), " want ", str(want.total.g), " scale ", want.scale);
  if (hessian)
    PBT_REQUIRE(key, (got.hessian_ - want.total.h).cwiseAbs().maxCoeff() <= t, "hessian ", str(M3(got.hessian_)), " want ", str(want.total.h), " scale ",
                want.scale);
}
// score of a point near a distribution: -d1 exp(-d2/2 |Tp - mean|^2_icov)
inline void addPoint(Sum& s, const Fit& f, double px, double py, const V3& t, const V2& at, const Cell& cell)
{
  // "at" is the transformed point as computed; only its derivatives are ours
  Jet a = Jet::var(t(2), 2), x = Jet::var(0, 0), y = Jet::var(0, 1);
  Jet rx = jcos(a) * px - jsin(a) * py, ry = jsin(a) * px + jcos(a) * py;
  Jet dx = x + rx - Jet(rx.v) + Jet(at(0) - cell.getMean()(0)), dy = y + ry - Jet(ry.v) + Jet(at(1) - cell.getMean()(1));
  M3 i = cell.getICov();
  Jet q = dx * dx * i(0, 0) + dx * dy * (2 * i(0, 1)) + dy * dy * i(1, 1);
  Jet v = Jet(-f.gauss_d1_) * jexp(Jet(-f.gauss_d2_ / 2) * q);
  double n = i.topLeftCorner<2, 2>().cwiseAbs().maxCoeff(), l = 1 + std::hypot(px, py), d = std::hypot(dx.v, dy.v);
  s.add(v, std::fabs(v.v) * (1 + n * l * l * (1 + d) + n * n * d * d * l * l));
}
// score of two distributions: -d1 exp(-d2/2 |Tm - mean|^2_((C + R S R')^-1))
// false: too close to singular to call
inline bool addCells(Sum& s, const Fit& f, const Cell& src, const V3& t, const Cell& dst)
{
  Jet a = Jet::var(t(2), 2), co = jcos(a), si = jsin(a);
  V3 m = src.getMean();
  Jet d[3] = {Jet::var(t(0), 0) + co * m(0) - si * m(1) - Jet(dst.getMean()(0)),
              Jet::var(t(1), 1) + si * m(0) + co * m(1) - Jet(dst.getMean()(1)), Jet(m(2) - dst.getMean()(2))};
  Jet r[3][3] = {{co, Jet(0) - si, 0}, {si, co, 0}, {0, 0, 1}}, k[3][3];
  M3 sc = src.getCov(), dc = dst.getCov();
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) {
      k[i][j] = Jet(dc(i, j));
      for (int u = 0; u < 3; ++u)
        for (int w = 0; w < 3; ++w)
          k[i][j] = k[i][j] + r[i][u] * sc(u, w) * r[j][w];
    }
  auto minor = [&](int i, int j) {
    int a1 = (i + 1) % 3, a2 = (i + 2) % 3, b1 = (j + 1) % 3, b2 = (j + 2) % 3;
    return k[a1][b1] * k[a2][b2] - k[a1][b2] * k[a2][b1];
  };
  Jet det = k[0][0] * minor(0, 0) + k[0][1] * minor(0, 1) + k[0][2] * minor(0, 2);
  if (det.v < 1e-10)
    return false;
  Jet inv = inverse(det), q;
  M3 b;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) {
      Jet e = minor(j, i) * inv;
      b(i, j) = e.v;
      q = q + d[i] * e * d[j];
    }
  Jet v = Jet(-f.gauss_d1_) * jexp(Jet(-f.gauss_d2_ / 2) * q);
  double n = b.cwiseAbs().maxCoeff(), l = 1 + m.head<2>().norm(), dd = std::sqrt(d[0].v * d[0].v + d[1].v * d[1].v + d[2].v * d[2].v);
  double g = n * (l * dd + dd * dd * n * sc.cwiseAbs().maxCoeff());
  s.add(v, std::fabs(v.v) * (1 + g + g * g + n * l * l));
  return true;
}
// the k distributions nearest to p; false: a tie decides
inline bool nearest(const std::vector<Cell*>& all, const V2& p, size_t k, std::vector<Cell*>& out)
{
  std::vector<std::pair<double, Cell*>> v;
  for (auto* x : all)
    v.push_back({(x->getMean().head<2>() - p).norm(), x});
  std::sort(v.begin(), v.end());
  out.clear();
  for (size_t i = 0; i < v.size() && i < k; ++i)
    out.push_back(v[i].second);
  return v.size() <= k || v[k].first - v[k - 1].first > 1e-4;
}
typedef pcl::NormalDistributionsTransform2DEx<P, P> P2D;
typedef pcl::D2DNormalDistributionsTransform2D<P, P> D2D;
struct OpenP2D : P2D {
  using P2D::calcPointScore;
  using P2D::calcScore;
};
struct OpenD2D : D2D {
  using D2D::calcScore;
};
inline Fit genFit(Case& c)
{
  double cell = 0.25 * static_cast<double>(1 << c.range(0, 4));
  return Fit(c.coin(50) ? (c.coin(50) ? 0.3 : 0.55) : c.uniform(0.05, 0.9), 1 / cell);
}
inline Grid gridOf(const std::vector<P>& pts, double cs)
{
  Grid g;
  g.setCellSize(static_cast<float>(cs));
  g.initializeSimple(cloudOf(pts));
  return g;
}
// as genScan, in the plane
inline std::vector<P> flatScan(Case& c, double cs, double reach, size_t maxBlobs = 6, size_t minBlobs = 1)
{
  std::vector<P> v = genScan(c, cs, reach, maxBlobs, minBlobs);
  for (auto& p : v)
    p.z = 0;
  return v;
}
