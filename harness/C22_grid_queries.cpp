// C22: neighbourhood queries on an NDT grid
#include "ndtgrid_sim.h"
namespace
{
std::vector<const Cell*> sorted(const std::vector<Cell*>& v)
{
  std::vector<const Cell*> r(v.begin(), v.end());
  std::sort(r.begin(), r.end());
  return r;
}
V2 genQuery(Case& c, Sim& s)
{
  auto cells = s.g.getGaussianCells();
  if (!cells.empty() && c.coin(60)) {
    V2 p = cells[c.draw(cells.size())]->getMean().head<2>();
    return p + V2(c.real(-2, 2), c.real(-2, 2)) * s.m.cs;
  }
  return V2(c.real(-s.span, s.span), c.real(-s.span, s.span));
}
void build(Case& c, Sim& s)
{
  size_t n = static_cast<size_t>(c.range(1, 3));
  for (size_t i = 0; i < n; ++i)
    switch (c.weighted({4, 2, 2, 1})) {
      case 0: s.mergeScan(); break;
      case 1: s.mergeGrid(); break;
      case 2: s.move(); break;
      default: s.turn();
    }
}
}

PBT_TEST(radius, 12000, 400000)
{
  Sim s(c, true);
  build(c, s);
  size_t hits = 0;
  for (int q = 0; q < 4; ++q) {
    V2 p = genQuery(c, s);
    Shape sh = shapeOf(s.g);
    Ix i = cellAt(s.m.cs, p);
    bool inside = i.first >= -sh.left && i.first <= sh.right && i.second >= -sh.down && i.second <= sh.up;
    if (!inside || borderDist(s.m.cs, p) < 1e-6)
      continue;
    float r = static_cast<float>(c.coin(20) ? 0 : c.real(0, 5) * s.m.cs);
    if (r < 0)
      r = -r;
    std::vector<const Cell*> want;
    bool sure = true;
    for (auto* x : s.g.getGaussianCells()) {
      V2 m = x->getMean().head<2>();
      if (r <= 0) {
        if (s.g.isInside(p) && &s.g[p] == x)
          want.push_back(x);
      } else {
        double d = (m - p).norm();
        if (std::fabs(d - r) < 1e-6 || (d < r && borderDist(s.m.cs, m) < 1e-6))
          sure = false;
        if (d <= r)
          want.push_back(x);
      }
    }
    if (!sure)
      continue;
    std::sort(want.begin(), want.end());
    auto got = sorted(s.g.getNeighbors(p, r));
    c.note("query ", str(p), " radius ", r, " found ", got.size());
    PBT_REQUIRE("radius", got == want, "found ", got.size(), " want ", want.size(), " at ", str(p), " radius ", r);
    hits += want.size() >= 2;
  }
  c.nontrivial(hits > 0);
}

PBT_TEST(nearest, 12000, 400000)
{
  Sim s(c, true);
  build(c, s);
  size_t hits = 0;
  for (int q = 0; q < 4; ++q) {
    V2 p = genQuery(c, s);
    size_t k = static_cast<size_t>(c.range(1, 6));
    auto got = s.g.getKNearestNeighbors(p, k);
    auto all = s.g.getGaussianCells();
    std::vector<double> d;
    for (auto* x : all)
      d.push_back((x->getMean() - V3(p(0), p(1), 0)).norm());
    std::sort(d.begin(), d.end());
    c.note("query ", str(p), " k ", k, " found ", got.size(), " of ", all.size());
    PBT_REQUIRE("count", got.size() == std::min(k, all.size()), got.size(), " want ", std::min(k, all.size()));
    std::set<Cell*> seen;
    for (size_t i = 0; i < got.size(); ++i) {
      PBT_REQUIRE("a-cell", got[i] != nullptr && got[i]->hasGaussian(), "neighbour ", i, " is no cell with a distribution");
      PBT_REQUIRE("once", seen.insert(got[i]).second, "neighbour ", i, " twice");
      double di = (got[i]->getMean() - V3(p(0), p(1), 0)).norm();
      PBT_REQUIRE("nearest-first", std::fabs(di - d[i]) < 1e-4 * (1 + d[i]), "neighbour ", i, " at ", di, " want ", d[i]);
    }
    hits += k >= 2 && all.size() > k;
  }
  c.nontrivial(hits > 0);
}

// walls that lie exactly on cell borders, seen from poses at right angles
PBT_TEST(nearest_on_borders, 12000, 400000)
{
  double cs = 0.25;
  V3 at(0.25 * static_cast<double>(c.range(-4, 4)), 0.25 * static_cast<double>(c.range(-4, 4)), 0);
  static const double kPi = 3.14159265358979323846;
  at(2) = kPi / 2 * static_cast<double>(c.range(-2, 2));
  Grid src(at), g(V3(0, 0, 0));
  src.setCellSize(0.25f);
  g.setCellSize(0.25f);
  Cloud cl;
  size_t n = static_cast<size_t>(c.range(1, 6));
  for (size_t i = 0; i < n; ++i) {
    long kx = 2 * c.range(-6, 6) + 1, ky = c.coin() ? 2 * c.range(-6, 6) + 1 : 2 * c.range(-6, 6);
    for (int j = 0; j < 6; ++j)
      cl.push_back(P(0.125f * static_cast<float>(kx), 0.125f * static_cast<float>(ky), 0));
  }
  src.initializeSimple(cl);
  g.mergeIn(src, true, true);
  auto all = g.getGaussianCells();
  c.nontrivial(all.size() >= 2);
  c.note("seen from ", str(at), " cells ", all.size());
  auto got = g.getKNearestNeighbors(V2(c.real(-2, 2), c.real(-2, 2)), all.size());
  PBT_REQUIRE("count", got.size() == all.size(), got.size(), " want ", all.size());
  for (auto* x : got)
    PBT_REQUIRE("a-cell", x != nullptr && x->hasGaussian(), "a neighbour is no cell with a distribution");
  PBT_REQUIRE("same-cells", sorted(got) == sorted(all), "");
}
PBT_MAIN()
