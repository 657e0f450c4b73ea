// C24: derivatives of the registration scores
#include "reg_common.h"

namespace
{
Cell genCell(Case& c, const V3& centre)
{
  for (int i = 0; i < 5; ++i) {
    Cell k = makeCell(genPts(c, static_cast<size_t>(c.range(6, 30)), centre));
    if (k.hasGaussian())
      return k;
  }
  throw pbt::Discard();
}
V3 genTrans(Case& c, double m)
{
  V3 t(c.real(-m, m), c.real(-m, m), 0);
  if (c.coin(80))
    t(2) = c.angle();
  if (std::fabs(t(2)) < 1e-3)
    t(2) = 0;  // tiny angles are rounded to zero
  return t;
}
V2 applied(const V3& t, double x, double y)
{
  return V2(std::cos(t(2)) * x - std::sin(t(2)) * y + t(0), std::sin(t(2)) * x + std::cos(t(2)) * y + t(1));
}
}

PBT_TEST(point, 30000, 600000)
{
  Fit f = genFit(c);
  V3 t = genTrans(c, 5);
  P p(static_cast<float>(c.real(-10, 10)), static_cast<float>(c.real(-10, 10)), 0);
  V2 q = applied(t, p.x, p.y);
  Cell k = genCell(c, V3(q(0) + c.real(-2, 2), q(1) + c.real(-2, 2), c.coin(70) ? 0 : c.real(-1, 1)));
  P tp(static_cast<float>(q(0)), static_cast<float>(q(1)), 0);
  Sum want;
  addPoint(want, f, p.x, p.y, t, V2(tp.x, tp.y), k);
  c.note("pose ", str(t), " point ", p.x, " ", p.y, " mean ", str(k.getMean()), " cov ", str(k.getCov()));
  c.assume(f.gauss_d2_ < 0.999);
  OpenP2D reg;
  double co = std::cos(t(2)), si = std::sin(t(2));
  SD got = reg.calcPointScore(p, &k, tp, co, si, f);
  c.nontrivial(std::fabs(t(2)) > 0.1 && want.total.v > 1e-3);
  sameScore("point", got, want, 1e-9);
}

PBT_TEST(cloud, 6000, 100000)
{
  double cs = genCellSize(c);
  Grid g = gridOf(flatScan(c, cs, 4, 6, 2), cs);
  auto cells = g.getGaussianCells();
  Fit f = genFit(c);
  c.assume(f.gauss_d2_ < 0.999);
  V3 t = genTrans(c, 2);
  size_t n = static_cast<size_t>(c.range(1, 12));
  Cloud src, moved;
  for (size_t i = 0; i < n; ++i)
    src.push_back(P(static_cast<float>(c.real(-5, 5)), static_cast<float>(c.real(-5, 5)), 0));
  pcl::transformPointCloud(src, moved, pcl::ndt_reg::vecToMat(t));
  Sum want;
  for (size_t i = 0; i < n; ++i) {
    std::vector<Cell*> nb;
    V2 at(moved[i].x, moved[i].y);
    c.assume(nearest(cells, at, 4, nb));
    for (auto* k : nb)
      addPoint(want, f, src[i].x, src[i].y, t, at, *k);
  }
  c.note("pose ", str(t), " cells ", cells.size(), " points ", n);
  c.nontrivial(cells.size() > 4 && t(2) != 0);
  OpenP2D reg;
  sameScore("cloud", reg.calcScore(g, src, t, f), want, 1e-9);
}

PBT_TEST(cell_pair, 15000, 400000)
{
  Fit f = genFit(c);
  V3 t = genTrans(c, 5);
  double cs = 1;
  V3 ms(c.real(-6, 6), c.real(-6, 6), c.coin(70) ? 0 : c.real(-1, 1));
  Cell a = genCell(c, ms);
  V2 q = applied(t, a.getMean()(0), a.getMean()(1));
  Cell b = genCell(c, V3(q(0) + c.real(-2, 2), q(1) + c.real(-2, 2), c.coin(70) ? 0 : c.real(-1, 1)));
  Grid s, d;
  s.setCellSize(static_cast<float>(cs));
  d.setCellSize(static_cast<float>(cs));
  std::vector<Cell> va(1, a), vb(1, b);
  s.mergeIn(va, true);
  d.mergeIn(vb, true);
  c.assume(s.getGaussianCells().size() == 1 && d.getGaussianCells().size() == 1);
  Sum want;
  c.assume(addCells(want, f, *s.getGaussianCells()[0], t, *d.getGaussianCells()[0]));
  c.note("pose ", str(t), " source ", str(a), " target ", str(b));
  c.nontrivial(std::fabs(t(2)) > 0.1 && std::hypot(t(0), t(1)) > 0.1 && want.total.v > 1e-3);
  OpenD2D reg;
  reg.enableMultithreading(1);
  SD got = reg.calcScore(f, s, t, d, true);
  double tol = 1e-8;
  sameScore("cells", got, want, tol);
  SD half = reg.calcScore(f, s, t, d, false);
  sameScore("cells-without-hessian", half, want, tol, false);
}

PBT_TEST(grids, 3000, 50000)
{
  double cs = genCellSize(c);
  Grid g = gridOf(flatScan(c, cs, 4, 6, 2), cs);
  Grid s = gridOf(flatScan(c, cs, 4, 6, 2), cs);
  Fit f = genFit(c);
  V3 t = genTrans(c, 2);
  Sum want;
  auto cells = g.getGaussianCells();
  for (auto* k : s.getGaussianCells()) {
    std::vector<Cell*> nb;
    c.assume(nearest(cells, applied(t, k->getMean()(0), k->getMean()(1)), 2, nb));
    for (auto* n : nb)
      c.assume(addCells(want, f, *k, t, *n));
  }
  unsigned threads = static_cast<unsigned>(c.coin(70) ? 1 : c.range(2, 5));
  c.note("pose ", str(t), " source cells ", s.getGaussianCells().size(), " target cells ", cells.size(), " threads ", threads);
  c.nontrivial(cells.size() > 2 && s.getGaussianCells().size() > 1 && t(2) != 0);
  OpenD2D reg;
  reg.enableMultithreading(threads);
  SD got = reg.calcScore(f, s, t, g, true);
  sameScore("grids", got, want, 1e-8);
  reg.enableMultithreading(1);
  SD one = reg.calcScore(f, s, t, g, true);
  Sum w1;
  w1.total.v = one.value_;
  w1.total.g = one.gradient_;
  w1.total.h = one.hessian_;
  w1.scale = want.scale;
  sameScore("thread-count", got, w1, 1e-10);
}
PBT_MAIN()
