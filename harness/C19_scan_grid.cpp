// C19: a scan becomes the grid of the distributions of its points
#include "ndtgrid_common.h"
namespace
{
void meansMatch(const Grid& g, const Model& m)
{
  std::vector<V3> want, got;
  for (auto& x : m.ordered())
    if (x.second.hasGaussian())
      want.push_back(x.second.getMean());
  for (auto& p : g.getMeans()->points)
    got.push_back(V3(p.x, p.y, p.z));
  PBT_REQUIRE("means-count", want.size() == got.size(), got.size(), " want ", want.size());
  for (auto& w : want) {
    bool found = false;
    for (auto& v : got)
      found = found || near(v, w, 1e-4);
    PBT_REQUIRE("means", found, str(w));
  }
  PBT_REQUIRE("gaussian-cells", g.getGaussianCells().size() == want.size(), g.getGaussianCells().size(), " want ", want.size());
  for (auto* c : g.getGaussianCells())
    PBT_REQUIRE("gaussian-cells", c && c->hasGaussian(), "");
}
std::vector<P> withNans(Case& c, std::vector<P> v)
{
  size_t k = static_cast<size_t>(c.range(0, 4));
  for (size_t i = 0; i < k; ++i) {
    P p(static_cast<float>(c.real(-5, 5)), static_cast<float>(c.real(-5, 5)), 0);
    (c.coin() ? p.x : c.coin() ? p.y : p.z) = std::numeric_limits<float>::quiet_NaN();
    v.insert(v.begin() + static_cast<long>(c.draw(v.size() + 1)), p);
  }
  return v;
}
size_t gaussians(const Model& m)
{
  size_t n = 0;
  for (auto& x : m.cells)
    n += x.second.hasGaussian();
  return n;
}
}

// the scan's own grid
PBT_TEST(own_frame, 10000, 300000)
{
  Model m;
  m.cs = genCellSize(c);
  m.origin = genPose(c, 20);
  bool traced = c.coin(50);
  Grid g(m.origin);
  g.setCellSize(static_cast<float>(m.cs));
  double reach = m.cs * c.real(1, 12);
  if (c.coin(60)) {
    float e = static_cast<float>(reach + 2 * m.cs);
    g.enlarge(-e, -e, e, e);
  }
  std::vector<P> pts = withNans(c, awayFromBorders(genScan(c, m.cs, reach), T2::Identity(), m.cs));
  c.note("cell ", m.cs, " points ", pts.size(), traced ? " traced" : "");
  std::vector<Cell> cells = m.scan(pts);
  m.cells.clear();
  Shape s = shapeOf(g);
  if (traced)
    m.trace(cells, V2(0, 0), s);
  m.merge(cells, true, s);
  if (traced)
    g.initialize(cloudOf(pts));
  else
    g.initializeSimple(cloudOf(pts));
  size_t n = gaussians(m);
  c.nontrivial(n >= 2);
  c.label(n == 0 ? "no distribution" : n < 4 ? "few" : "many");
  sameContent("content", g, m);
  meansMatch(g, m);
  PBT_REQUIRE("origin", g.getOrigin() == m.origin, "");
  // loading another scan starts over
  std::vector<P> pts2 = awayFromBorders(genScan(c, m.cs, reach), T2::Identity(), m.cs);
  Model m2 = m;
  m2.cells.clear();
  cells = m2.scan(pts2);
  m2.merge(cells, true, s);
  g.initializeSimple(cloudOf(pts2));
  sameContent("reload", g, m2);
  meansMatch(g, m2);
}

// a scan taken elsewhere, seen from the grid's frame
PBT_TEST(other_frame, 10000, 300000)
{
  Model m;
  m.cs = genCellSize(c);
  m.origin = genPose(c, 5);
  V3 at = c.coin(25) ? m.origin : genPose(c, 5);
  Grid g(m.origin);
  g.setCellSize(static_cast<float>(m.cs));
  T2 t = frame(m.origin).inverse() * frame(at);
  std::vector<P> pts = withNans(c, awayFromBorders(genScan(c, m.cs, m.cs * 6), t, m.cs));
  std::vector<P> in;
  for (auto& p : pts)
    in.push_back(moved(t, p));
  std::vector<Cell> cells = m.scan(in);
  c.assume(m.clear_cut(cells));
  c.note("cell ", m.cs, " grid at ", str(m.origin), " scan at ", str(at), " points ", pts.size());
  bool traced = c.coin(50);
  Shape s = shapeOf(g);
  if (traced) {
    float e = static_cast<float>(m.cs * 8);
    g.enlarge(-e, -e, e, e);
    s = shapeOf(g);
    m.trace(cells, t.translation(), s);
  }
  m.merge(cells, true, s);
  if (traced)
    g.mergeInTraced(cloudOf(pts), at, true);
  else
    g.mergeIn(cloudOf(pts), at, true);
  c.nontrivial(gaussians(m) >= 2 && std::fabs(at(2) - m.origin(2)) > 0.1);
  sameContent("content", g, m);
  meansMatch(g, m);
}

// the order of the points does not matter, and neither do points elsewhere
PBT_TEST(point_order, 10000, 300000)
{
  double cs = genCellSize(c);
  std::vector<P> pts = genScan(c, cs, cs * 5);
  std::vector<P> mixed = pts;
  for (size_t i = mixed.size(); i > 1; --i)
    std::swap(mixed[i - 1], mixed[c.draw(i)]);
  Grid a, b;
  a.setCellSize(static_cast<float>(cs));
  b.setCellSize(static_cast<float>(cs));
  a.initializeSimple(cloudOf(pts));
  b.initializeSimple(cloudOf(mixed));
  c.nontrivial(a.getGaussianCells().size() >= 2);
  PBT_REQUIRE("same-number", a.getGaussianCells().size() == b.getGaussianCells().size(), "");
  auto ca = a.getGaussianCells();
  for (auto* x : ca) {
    V2 p = x->getMean().head<2>();
    if (borderDist(cs, p) < 1e-6)
      continue;
    PBT_REQUIRE("same-cell", b.isInside(p) && alike(b[p], *x), str(*x));
  }
}
PBT_MAIN()
