// C10: rigid motion of cells
#include "ndt_common.h"
namespace
{
Pts moved(const T3& t, const Pts& p)
{
  Pts r;
  for (auto& x : p)
    r.push_back(t * x);
  return r;
}
void same(const char* key, const Cell& a, const Cell& b, double m)
{
  PBT_REQUIRE(key, a.hasGaussian() == b.hasGaussian() && a.points() == b.points() &&
                       std::fabs(a.getOccupancyRaw() - b.getOccupancyRaw()) < 1e-5 &&
                       near(a.getMean(), b.getMean(), 1e-11 * m) && near(a.getCov(), b.getCov(), 1e-10 * m * m) &&
                       near(a.getICov(), b.getICov(), 1e-7 * m * m),
              "mean ", str(a.getMean()), " vs ", str(b.getMean()), " cov ", str(a.getCov()), " vs ", str(b.getCov()));
}
}

PBT_TEST(moves_with_its_points, 50000, 1500000)
{
  V3 centre = genCentre(c);
  size_t n = static_cast<size_t>(c.range(6, 20));
  Pts p = genPts(c, n, centre);
  T3 t = genRigid(c, 50);
  Cell a = makeCell(p), b = makeCell(moved(t, p));
  a.transform(t);
  c.note(n, " points around ", str(centre), " moved by ", str(t));
  c.nontrivial((t.linear() - M3::Identity()).norm() > 1e-3);
  wellFormed(a);
  same("equivariant", a, b, 60 + centre.norm());
}

PBT_TEST(composition_and_inverse, 40000, 1200000)
{
  V3 centre = genCentre(c);
  Cell cell = makeCell(genPts(c, static_cast<size_t>(c.range(0, 20)), centre));
  size_t k = static_cast<size_t>(c.range(1, 12));
  T3 all = T3::Identity();
  Cell a = cell, b = cell;
  for (size_t i = 0; i < k; ++i) {
    T3 t = genRigid(c, 5);
    a.transform(t);
    all = t * all;
    c.note("move ", str(t));
  }
  double m = 70 + centre.norm();
  b.transform(all);
  c.nontrivial(k > 1 && cell.hasGaussian());
  if (!cell.hasGaussian()) {
    PBT_REQUIRE("nothing-to-move", sameState(a, cell) && sameState(b, cell), "");
    return;
  }
  same("composition", a, b, m);
  wellFormed(a);
  a.transform(all.inverse());
  same("inverse", a, cell, m);
}

PBT_TEST(motion_commutes_with_fusion_and_rays, 40000, 1200000)
{
  V3 centre = genCentre(c);
  V3 off(c.real(-2, 2), c.real(-2, 2), 0);
  Cell a = makeCell(genPts(c, static_cast<size_t>(c.range(6, 16)), centre));
  Cell b = makeCell(genPts(c, static_cast<size_t>(c.range(6, 16)), centre + off));
  T3 t = genRigid(c, 20);
  double m = 50 + centre.norm();
  Cell f = a;
  f += b;
  f.transform(t);
  Cell ta = a, tb = b, g;
  ta.transform(t);
  tb.transform(t);
  g = ta;
  g += tb;
  c.nontrivial((t.linear() - M3::Identity()).norm() > 1e-3);
  c.note("moved by ", str(t));
  same("fusion", f, g, m);
  V3 s = centre + V3(c.real(-5, 5), c.real(-5, 5), 0), e = centre + V3(c.real(-5, 5), c.real(-5, 5), 0);
  c.assume((s - e).norm() > 0.05 && std::fabs((a.getMean() - e).norm()) > 0.1);
  // ends of rays are recognised in a box that is not turned with the cell
  size_t n = static_cast<size_t>(c.range(1, 5));
  Cell ra = a;
  ra.updateOccupancy(s, e, n);
  c.assume(std::fabs(ra.getOccupancyRaw()) > 1e-4);
  Cell rb = ta;
  rb.updateOccupancy(t * s, t * e, n);
  c.note("ray ", str(s), " -> ", str(e), " weight ", n);
  PBT_REQUIRE("ray", std::fabs(ra.getOccupancyRaw() - rb.getOccupancyRaw()) < 1e-4 && ra.hasGaussian() == rb.hasGaussian(),
              ra.getOccupancyRaw(), " vs ", rb.getOccupancyRaw());
}
PBT_MAIN()
