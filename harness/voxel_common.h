#pragma once
#include "pbt.h"
#include <ndt_gslam/ndt/voxel_grid2d.h>
using pbt::Case;
typedef Eigen::Vector2d Pt;

struct Cell {
  long v = 0;
  Cell()
  {
  }
  Cell(long x) : v(x)
  {
  }
  Cell& operator+=(const Cell& o)
  {
    v += o.v;
    return *this;
  }
};
inline std::ostream& operator<<(std::ostream& os, const Cell& c)
{
  return os << c.v;
}
typedef slamuk::VoxelGrid2D<Cell> Grid;
typedef std::pair<long, long> Ix;  // world cell: x to the right, y up

struct Model {
  double cs = 0.25;
  std::map<Ix, long> cells{{Ix(0, 0), 0}};
  long left = 0, right = 0, up = 0, down = 0;
  bool inside(Ix i) const
  {
    return i.first >= -left && i.first <= right && i.second >= -down && i.second <= up;
  }
  void fit(Ix i)
  {
    left = std::max(left, -i.first);
    right = std::max(right, i.first);
    up = std::max(up, i.second);
    down = std::max(down, -i.second);
  }
  // row-major, top row first: the documented order of the cell storage
  std::vector<long> rowMajor(Ix lo, Ix hi) const
  {
    std::vector<long> r;
    for (long y = hi.second; y >= lo.second; --y)
      for (long x = lo.first; x <= hi.first; ++x) {
        auto it = cells.find(Ix(x, y));
        if (it != cells.end())
          r.push_back(it->second);
      }
    return r;
  }
};

static const float kSizes[] = {0.25f, 1.0f, 0.5f, 2.0f, 0.1f, 0.3f, 0.75f};

inline Ix genIx(Case& c, long r)
{
  long x = c.around(-r, r), y = c.around(-r, r);
  return Ix(x, y);
}
// a point clearly inside the given world cell
inline Pt pointIn(Case& c, Ix i, double cs)
{
  double ox = 0, oy = 0;
  if (c.coin(60)) {
    ox = c.real(-0.49, 0.49);
    oy = c.real(-0.49, 0.49);
  }
  return Pt((static_cast<double>(i.first) + ox) * cs, (static_cast<double>(i.second) + oy) * cs);
}
inline Pt centre(Ix i, double cs)
{
  return Pt(static_cast<double>(i.first) * cs, static_cast<double>(i.second) * cs);
}
