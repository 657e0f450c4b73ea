// C23: what an NDT grid hands out
#include "ndtgrid_sim.h"
namespace
{
void build(Case& c, Sim& s)
{
  size_t n = static_cast<size_t>(c.range(1, 4));
  for (size_t i = 0; i < n; ++i)
    switch (c.weighted({5, 2, 2, 1})) {
      case 0: s.mergeScan(); break;
      case 1: s.mergeGrid(); break;
      case 2: s.move(); break;
      default: s.turn();
    }
}
}

PBT_TEST(occupancy, 12000, 400000)
{
  Sim s(c, true);
  build(c, s);
  slamuk::OccupancyGrid o = s.g.createOccupancyGrid();
  Shape sh = shapeOf(s.g);
  PBT_REQUIRE("size", o.cells_.size() == o.width_ * o.height_ && o.width_ > 0, o.cells_.size(), " for ", o.width_, " x ", o.height_);
  PBT_REQUIRE("resolution", o.resolution_ == s.g.getCellSize(), o.resolution_);
  PBT_REQUIRE("heading", pbt::angDist(o.origin_(2), s.m.origin(2)) < 1e-9, o.origin_(2));
  PBT_REQUIRE("contains-centre", sh.left >= 0 && sh.right >= 0 && sh.up >= 0 && sh.down >= 0, str(sh));
  // the corner lies a whole number of cells from the grid's origin
  V2 corner = frame(s.m.origin).inverse() * V2(o.origin_(0), o.origin_(1));
  PBT_REQUIRE("corner", (corner - V2(-static_cast<double>(sh.left), static_cast<double>(sh.up)) * s.m.cs).norm() < 1e-5, str(corner), " ", str(sh));
  size_t full = 0, empty = 0, unknown = 0;
  // every entry describes the cell it stands for in the world
  T2 w = frame(V3(o.origin_(0), o.origin_(1), o.origin_(2)));
  T2 back = frame(s.m.origin).inverse();
  for (size_t r = 0; r < o.height_; ++r)
    for (size_t k = 0; k < o.width_; ++k) {
      V2 p = back * (w * (V2(static_cast<double>(k), -static_cast<double>(r)) * s.m.cs));
      auto it = s.m.cells.find(cellAt(s.m.cs, p));
      int v = o.cells_[r * o.width_ + k];
      if (it == s.m.cells.end()) {
        ++unknown;
        PBT_REQUIRE("unknown", v == -1, "cell at ", str(p), " is ", v);
      } else if (std::fabs(it->second.getOccupancyRaw() - 0.8) > 1e-3) {
        bool occ = it->second.getOccupancyRaw() > 0.8;
        (occ ? full : empty)++;
        PBT_REQUIRE("state", v == (occ ? 99 : 0), "cell at ", str(p), " is ", v, " occupancy ", it->second.getOccupancyRaw());
      }
    }
  c.nontrivial(full && unknown + empty > 0);
  if (empty)
    c.label("free space");
}

PBT_TEST(serialized, 12000, 400000)
{
  Sim s(c, true);
  build(c, s);
  slamuk::OccupancyGrid o = s.g.createOccupancyGrid();
  slamuk::NDTGridMsg msg = s.g.serialize();
  PBT_REQUIRE("origin", (msg.origin_.head<2>() - o.origin_.head<2>()).norm() < 1e-5, str(msg.origin_), " want ", str(o.origin_));
  PBT_REQUIRE("heading", pbt::angDist(msg.origin_(2), s.m.origin(2)) < 1e-9, msg.origin_(2), " want ", s.m.origin(2));
  PBT_REQUIRE("size", std::fabs(msg.size_(0) - static_cast<double>(o.width_) * s.m.cs) < 1e-4 &&
                          std::fabs(msg.size_(1) - static_cast<double>(o.height_) * s.m.cs) < 1e-4 && msg.size_(2) == 0, str(msg.size_));
  PBT_REQUIRE("cell-size", std::fabs(msg.cell_sizes_(0) - s.m.cs) < 1e-6 && std::fabs(msg.cell_sizes_(1) - s.m.cs) < 1e-6, str(msg.cell_sizes_));
  auto want = s.m.ordered();
  PBT_REQUIRE("cells", msg.cells_.size() == want.size(), msg.cells_.size(), " want ", want.size());
  size_t g = 0;
  std::vector<bool> used(want.size(), false);
  for (auto& k : msg.cells_) {
    bool found = false;
    for (size_t i = 0; i < want.size() && !found; ++i) {
      const Cell& x = want[i].second;
      if (!used[i] && std::fabs(k.occupancy_ - x.getOccupancyRaw()) < 1e-4 &&
          (!x.hasGaussian() || (k.points_ == static_cast<long>(x.points()) && near(k.mean_, x.getMean(), 1e-5) && near(k.cov_, x.getCov(), 1e-5)))) {
        used[i] = found = true;
        g += x.hasGaussian();
      }
    }
    PBT_REQUIRE("cell", found, "no cell like n=", k.points_, " occ=", k.occupancy_, " mean ", str(k.mean_));
  }
  c.nontrivial(g >= 2);
}

PBT_TEST(means_in_world, 12000, 400000)
{
  Sim s(c, true);
  build(c, s);
  T2 w = frame(s.m.origin);
  std::vector<V2> want;
  for (auto& x : s.m.cells)
    if (x.second.hasGaussian())
      want.push_back(w * V2(x.second.getMean().head<2>()));
  auto got = s.g.getMeansTransformed();
  PBT_REQUIRE("count", got->size() == want.size(), got->size(), " want ", want.size());
  for (auto& v : want) {
    bool found = false;
    for (auto& p : got->points)
      found = found || (V2(p.x, p.y) - v).norm() < 1e-4;
    PBT_REQUIRE("placed", found, "nothing at ", str(v));
  }
  c.nontrivial(want.size() >= 2 && std::fabs(s.m.origin(2)) > 0.1);
}

// a coarser grid pools the cells it covers
PBT_TEST(coarser, 12000, 400000)
{
  Sim s(c, true);
  build(c, s);
  double f = c.coin(70) ? static_cast<double>(1 << c.range(1, 3)) : c.real(0.5, 5);
  if (f < 0.1)
    f = 0.5;
  float size = static_cast<float>(s.m.cs * f);
  Grid k = s.g.createCoarserGrid(size);
  Model m;
  m.cs = std::max(size, static_cast<float>(s.m.cs));
  m.origin = s.m.origin;
  std::vector<Cell> cells = s.m.list();
  c.assume(m.clear_cut(cells));
  m.merge(cells, true, Shape());
  c.note("coarser ", f, " cells ", s.m.cells.size());
  PBT_REQUIRE("cell-size", std::fabs(k.getCellSize() - m.cs) < 1e-6, k.getCellSize(), " want ", m.cs);
  sameContent("pooled", k, m);
  size_t a = 0, b = 0, n = 0;
  for (auto* x : s.g.getGaussianCells())
    a += x->points();
  for (auto* x : k.getGaussianCells()) {
    b += x->points();
    ++n;
  }
  PBT_REQUIRE("all-points", a == b, "points ", a, " became ", b);
  PBT_REQUIRE("same-frame", (k.getOrigin() - s.m.origin).norm() < 1e-9, "origin ", str(k.getOrigin()), " want ", str(s.m.origin));
  c.nontrivial(n < s.g.getGaussianCells().size() && n > 0);
}

// centre and size of the covered area
PBT_TEST(extent, 8000, 200000)
{
  Sim s(c, true);
  build(c, s);
  Shape sh = shapeOf(s.g);
  slamuk::OccupancyGrid o = s.g.createOccupancyGrid();
  V2 half(0.5 * static_cast<double>(o.width_) * s.m.cs, 0.5 * static_cast<double>(o.height_) * s.m.cs);
  V2 want = 0.5 * s.m.cs * V2(static_cast<double>(sh.right) - static_cast<double>(sh.left), static_cast<double>(sh.up) - static_cast<double>(sh.down));
  V2 got = s.g.getCentroid();
  PBT_REQUIRE("centroid", (got - want).norm() < 1e-5 * (1 + want.norm()), str(got), " want ", str(want), " of ", str(sh));
  double r = s.g.getRadius();
  PBT_REQUIRE("radius", r > half.minCoeff() * (1 - 1e-5) && r < half.norm() * (1 + 1e-5), "radius ", r, " half the sides ", str(half));
  c.nontrivial(sh.left != sh.right && sh.up != sh.down);
}
PBT_MAIN()
