#pragma once
// a reference model of the NDT grid: a map from cell indices to cells, moved,
// merged and seen through by rays
#include "ndt_common.h"
#include <ndt_gslam/ndt/ndt_grid2d.h>
#include <map>
typedef pcl::PointXYZ P;
typedef pcl::PointCloud<P> Cloud;
typedef slamuk::NDTGrid2D<Cell, P> Grid;
typedef Eigen::Vector2d V2;
typedef Eigen::Transform<double, 2, Eigen::Affine> T2;
typedef std::pair<long, long> Ix;  // x to the right, y up; (0,0) is centred on the origin

inline T2 frame(const V3& p)
{
  T2 t = T2::Identity();
  t.linear() = Eigen::Rotation2Dd(p(2)).toRotationMatrix();
  t.translation() = p.head<2>();
  return t;
}
inline std::string str(const V2& v)
{
  return pbt::cat("(", v(0), " ", v(1), ")");
}
inline Ix cellAt(double cs, const V2& p)
{
  return Ix(static_cast<long>(std::floor(p(0) / cs + 0.5)), static_cast<long>(std::floor(p(1) / cs + 0.5)));
}
inline double borderDist(double cs, const V2& p)
{
  double r = 1e9;
  for (int i = 0; i < 2; ++i) {
    double u = p(i) / cs + 0.5;
    r = std::min(r, std::fabs(u - std::round(u)) * cs);
  }
  return r;
}
struct Tag {
  Ix i;
  Tag& operator+=(const Tag&)
  {
    return *this;
  }
};
struct Shape {  // what the occupancy export tells about the extent of a grid
  long left, right, up, down;
};
inline Shape shapeOf(const Grid& g)
{
  slamuk::OccupancyGrid o = g.createOccupancyGrid();
  double cs = g.getCellSize();
  V2 corner = frame(g.getOrigin()).inverse() * V2(o.origin_(0), o.origin_(1));
  Shape s;
  s.left = std::lround(-corner(0) / cs);
  s.up = std::lround(corner(1) / cs);
  s.right = static_cast<long>(o.width_) - 1 - s.left;
  s.down = static_cast<long>(o.height_) - 1 - s.up;
  return s;
}
inline std::string str(const Shape& s)
{
  return pbt::cat("left ", s.left, " right ", s.right, " up ", s.up, " down ", s.down);
}

struct Model {
  double cs = 0.25;
  V3 origin = V3::Zero();
  bool started = false;
  std::map<Ix, Cell> cells;
  Model()
  {
    cells[Ix(0, 0)];
  }
  V2 centre(Ix i) const
  {
    return V2(static_cast<double>(i.first) * cs, static_cast<double>(i.second) * cs);
  }
  // top row first, left to right: the order cells are stored in
  std::vector<std::pair<Ix, Cell>> ordered() const
  {
    std::vector<std::pair<Ix, Cell>> r(cells.begin(), cells.end());
    std::stable_sort(r.begin(), r.end(), [](const std::pair<Ix, Cell>& a, const std::pair<Ix, Cell>& b) {
      return a.first.second != b.first.second ? a.first.second > b.first.second : a.first.first < b.first.first;
    });
    return r;
  }
  std::vector<Cell> list() const
  {
    std::vector<Cell> r;
    for (auto& x : ordered())
      r.push_back(x.second);
    return r;
  }
  void add(const Cell& c)
  {
    Ix i = cellAt(cs, c.getMean().head<2>());
    auto it = cells.find(i);
    if (it == cells.end())
      cells[i] = c;
    else
      it->second += c;
  }
  // false: some mean is too close to a border to say where it belongs
  bool clear_cut(const std::vector<Cell>& v) const
  {
    for (auto& c : v)
      if (c.hasGaussian() && borderDist(cs, c.getMean().head<2>()) < 1e-6)
        return false;
    return true;
  }
  void merge(const std::vector<Cell>& v, bool resize, const Shape& s)
  {
    bool all = resize || !started;
    started = true;
    for (auto& c : v)
      if (c.hasGaussian()) {
        Ix i = cellAt(cs, c.getMean().head<2>());
        if (all || (i.first >= -s.left && i.first <= s.right && i.second >= -s.down && i.second <= s.up))
          add(c);
      }
  }
  // every cell a ray passes on its way from the observer to a measured cell
  // gets the evidence; rays end at the border of the grid.  Discards the case
  // when a ray runs so close to a cell corner that rounding decides.
  void trace(const std::vector<Cell>& v, const V2& start, const Shape& s)
  {
    slamuk::VoxelGrid2D<Tag> tr;
    tr.setCellSize(static_cast<float>(cs));
    for (long x = -s.left; x <= s.right; ++x)
      for (long y = -s.down; y <= s.up; ++y) {
        Tag t;
        t.i = Ix(x, y);
        tr.addCell(centre(t.i), t, false);
      }
    for (auto& c : v)
      if (c.hasGaussian()) {
        std::vector<Ix> ray;
        V2 end = c.getMean().head<2>();
        for (Tag* t : tr.rayTrace(start, end))
          ray.push_back(t->i);
        for (int k = 0; k < 4; ++k) {
          V2 d = 1e-6 * V2(k & 1 ? 1 : -1, k & 2 ? 1 : -1);
          std::vector<Ix> r2;
          for (Tag* t : tr.rayTrace(start + d, end - 1.01 * d))
            r2.push_back(t->i);
          if (r2 != ray)
            throw pbt::Discard();
        }
        for (Ix i : ray)
          cells[i].updateOccupancy(V3(start(0), start(1), 0), c.getMean(), c.points());
      }
  }
  // distributions of the points of a scan, given in this grid's frame
  std::vector<Cell> scan(const std::vector<P>& pts) const
  {
    std::map<Ix, Pts> bins;
    for (auto& p : pts)
      if (!std::isnan(p.x) && !std::isnan(p.y) && !std::isnan(p.z))
        bins[cellAt(cs, V2(p.x, p.y))].push_back(V3(p.x, p.y, p.z));
    Model m;
    m.cells.clear();
    for (auto& b : bins)
      m.cells[b.first] = makeCell(b.second);
    return m.list();
  }
};
inline std::string str(const Cell& c)
{
  return pbt::cat("[", c.hasGaussian() ? "G" : "-", " n=", c.points(), " occ=", c.getOccupancyRaw(), " mean ", str(c.getMean()),
                  " cov ", str(c.getCov()), "]");
}
inline bool alike(const Cell& a, const Cell& b)
{
  if (a.hasGaussian() != b.hasGaussian() || std::fabs(a.getOccupancyRaw() - b.getOccupancyRaw()) > 1e-4)
    return false;
  if (!a.hasGaussian())
    return true;
  return a.points() == b.points() && near(a.getMean(), b.getMean(), 1e-5) && near(a.getCov(), b.getCov(), 1e-5);
}
// the whole content of the grid is what the model says
inline void sameContent(const char* key, Grid& g, const Model& m)
{
  Shape s = shapeOf(g);
  size_t seen = 0;
  for (long x = -s.left; x <= s.right; ++x)
    for (long y = -s.down; y <= s.up; ++y) {
      Ix i(x, y);
      V2 p = m.centre(i);
      bool has = g.isInside(p);
      auto it = m.cells.find(i);
      PBT_REQUIRE(key, has == (it != m.cells.end()), "cell ", x, ",", y, " exists: ", has);
      if (!has)
        continue;
      ++seen;
      PBT_REQUIRE(key, alike(g[p], it->second), "cell ", x, ",", y, " is ", str(g[p]), " want ", str(it->second));
    }
  PBT_REQUIRE(key, seen == m.cells.size(), "cells in the grid: ", seen, " want ", m.cells.size(), " extent ", str(s));
}

inline double genCellSize(Case& c)
{
  static const double k[] = {0.25, 0.5, 1.0, 2.0, 0.75};
  return k[c.draw(5)];
}
// a scan in its own frame: walls and clutter, dense enough for distributions
inline std::vector<P> genScan(Case& c, double cs, double reach, size_t maxBlobs = 6, size_t minBlobs = 1)
{
  std::vector<P> r;
  size_t blobs = static_cast<size_t>(c.range(static_cast<int64_t>(minBlobs), static_cast<int64_t>(maxBlobs)));
  for (size_t b = 0; b < blobs; ++b) {
    V2 o(c.real(-reach, reach), c.real(-reach, reach));
    double th = c.angle(), len = c.coin(50) ? cs * c.real(0.2, 4) : cs * 0.3;
    size_t n = static_cast<size_t>(c.coin(80) ? c.range(6, 30) : c.range(1, 6));
    double z = c.coin(85) ? 0 : c.real(-1, 1);
    for (size_t i = 0; i < n; ++i) {
      double t = n > 1 ? static_cast<double>(i) / static_cast<double>(n - 1) : 0.5;
      V2 p = o + (t - 0.5) * len * V2(std::cos(th), std::sin(th)) + V2(c.uniform(-0.1, 0.1), c.uniform(-0.1, 0.1)) * cs;
      r.push_back(P(static_cast<float>(p(0)), static_cast<float>(p(1)), static_cast<float>(z)));
    }
  }
  return r;
}
inline V3 genPose(Case& c, double reach)
{
  V3 p(c.real(-reach, reach), c.real(-reach, reach), 0);
  if (c.coin(70))
    p(2) = c.angle();
  return p;
}
inline Cloud cloudOf(const std::vector<P>& v)
{
  Cloud r;
  for (auto& p : v)
    r.push_back(p);
  return r;
}
inline P moved(const T2& t, const P& p)
{
  V2 q = t * V2(p.x, p.y);
  return P(static_cast<float>(q(0)), static_cast<float>(q(1)), p.z);
}
// drops the points that would fall within a hair of a cell border after t
inline std::vector<P> awayFromBorders(const std::vector<P>& v, const T2& t, double cs)
{
  std::vector<P> r;
  for (auto& p : v)
    if (!std::isfinite(p.x) || !std::isfinite(p.y) || borderDist(cs, t * V2(p.x, p.y)) > 1e-4)
      r.push_back(p);
  return r;
}
inline std::vector<Cell> movedCells(std::vector<Cell> v, const T2& t)
{
  T3 t3 = T3::Identity();
  t3.linear().topLeftCorner<2, 2>() = t.linear();
  t3.translation().head<2>() = t.translation();
  for (auto& c : v)
    c.transform(t3);
  return v;
}
