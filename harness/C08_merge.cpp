// C08: fusing two cells
#include "ndt_common.h"
namespace
{
Cell genCell(Case& c, const V3& centre, size_t lo = 6)
{
  V3 ctr = centre + V3(c.real(-2, 2), c.real(-2, 2), c.coin(80) ? 0 : c.real(-1, 1));
  return makeCell(genPts(c, static_cast<size_t>(c.range(static_cast<int64_t>(lo), 24)), ctr));
}
// thin the occupancy of a cell without (usually) losing its distribution
void seeThrough(Case& c, Cell& cell)
{
  V3 m = cell.getMean();
  V3 d(std::cos(c.angle()), std::sin(c.angle()), 0);
  cell.updateOccupancy(m - 2 * d, m + 2 * d, static_cast<size_t>(c.range(1, 2)));
}
}

PBT_TEST(fusion_reference, 60000, 2000000)
{
  V3 centre = genCentre(c);
  Cell a = genCell(c, centre), b = genCell(c, centre);
  if (c.coin(40))
    seeThrough(c, a);
  if (c.coin(40))
    seeThrough(c, b);
  if (!a.hasGaussian() || !b.hasGaussian())
    c.assume(false);
  Ref want = fuse(stateOf(a), stateOf(b));
  Cell b0 = b, ab = a, ba = b;
  c.note("a ", a.points(), " points, mean ", str(a.getMean()), " cov ", str(a.getCov()));
  c.note("b ", b.points(), " points, mean ", str(b.getMean()), " cov ", str(b.getCov()));
  c.nontrivial((a.getMean() - b.getMean()).norm() > 1e-3 && a.points() != b.points());
  ab += b;
  ba += a;
  double m = 10 + centre.cwiseAbs().maxCoeff();
  PBT_REQUIRE("other-untouched", sameState(b, b0), "");
  PBT_REQUIRE("keeps-distribution", ab.hasGaussian(), "");
  wellFormed(ab);
  PBT_REQUIRE("point-count", ab.points() == want.n, ab.points(), " want ", want.n);
  PBT_REQUIRE("mean", near(ab.getMean(), want.mean, 1e-12 * m), str(ab.getMean()), " want ", str(want.mean));
  PBT_REQUIRE("covariance", near(ab.getCov(), limitCond(want.cov), 1e-12 * m * m), str(ab.getCov()), " want ",
              str(limitCond(want.cov)));
  float occ = std::min(1.0f, a.getOccupancyRaw() + static_cast<float>(b.points()) * 0.405465108f);
  PBT_REQUIRE("occupancy", std::fabs(ab.getOccupancyRaw() - occ) < 1e-6, ab.getOccupancyRaw(), " want ", occ);
  PBT_REQUIRE("commutes", ba.points() == ab.points() && near(ab.getMean(), ba.getMean(), 1e-12 * m) &&
                              near(ab.getCov(), ba.getCov(), 1e-12 * m * m) && ba.hasGaussian(),
              str(ab.getCov()), " vs ", str(ba.getCov()));
}

// cells without a distribution
PBT_TEST(fusion_without_distribution, 40000, 1000000)
{
  V3 centre = genCentre(c);
  bool ga = c.coin(50), gb = !ga || c.coin(20);
  auto mk = [&](bool g) {
    if (g)
      return genCell(c, centre);
    Cell x = makeCell(genPts(c, static_cast<size_t>(c.range(0, 5)), centre));
    if (c.coin(30))
      x.updateOccupancy(centre, centre + V3(1, 1, 0), static_cast<size_t>(c.range(1, 20)));
    return x;
  };
  Cell a = mk(ga), b = mk(gb && !ga);
  Cell a0 = a;
  c.note("a has distribution ", a.hasGaussian(), " b ", b.hasGaussian());
  c.nontrivial(a.hasGaussian() != b.hasGaussian());
  a += b;
  if (!b.hasGaussian()) {
    c.label("other has none");
    PBT_REQUIRE("unchanged", sameState(a, a0), "points ", a.points(), " was ", a0.points());
  } else {
    c.label("this has none");
    PBT_REQUIRE("adopted", a.hasGaussian() && a.points() == b.points() && near(a.getMean(), b.getMean(), 1e-12) &&
                               near(a.getCov(), b.getCov(), 1e-12) && near(a.getICov(), b.getICov(), 1e-12),
                "");
  }
}

// many cells fused in two different orders; mean and count are those of all
// the points together
PBT_TEST(fusion_of_many, 30000, 800000)
{
  V3 centre = genCentre(c);
  size_t k = static_cast<size_t>(c.range(2, 7));
  std::vector<Cell> cells;
  std::vector<Pts> ps;
  Pts all;
  for (size_t i = 0; i < k; ++i) {
    V3 ctr = centre + V3(c.real(-2, 2), c.real(-2, 2), 0);
    ps.push_back(genPts(c, static_cast<size_t>(c.range(6, 14)), ctr));
    all.insert(all.end(), ps.back().begin(), ps.back().end());
    cells.push_back(makeCell(ps.back()));
  }
  std::vector<size_t> order(k);
  for (size_t i = 0; i < k; ++i)
    order[i] = i;
  for (size_t i = k - 1; i > 0; --i)
    std::swap(order[i], order[c.draw(i + 1)]);
  Cell f = cells[0], g = cells[order[0]];
  for (size_t i = 1; i < k; ++i) {
    f += cells[i];
    g += cells[order[i]];
    wellFormed(f);
    wellFormed(g);
  }
  Ref r = refOf(all);
  double m = 10 + centre.cwiseAbs().maxCoeff();
  c.note(k, " cells, ", all.size(), " points");
  c.nontrivial(k >= 3);
  PBT_REQUIRE("all-points", f.points() == all.size() && g.points() == all.size(), f.points(), " ", g.points(), " of ",
              all.size());
  PBT_REQUIRE("mean-of-all", near(f.getMean(), r.mean, 1e-11 * m) && near(g.getMean(), r.mean, 1e-11 * m),
              str(f.getMean()), " ", str(g.getMean()), " want ", str(r.mean));
  // the fused spread can never be smaller than what the means alone show
  V3 d;
  M3 between = M3::Zero();
  for (size_t i = 0; i < k; ++i) {
    d = cells[i].getMean() - f.getMean();
    between += static_cast<double>(ps[i].size()) * d * d.transpose();
  }
  between /= static_cast<double>(all.size() - 1);
  Eigen::SelfAdjointEigenSolver<M3> s(f.getCov() - between);
  PBT_REQUIRE("spread", s.eigenvalues()(0) >= -1e-9 * m * m, s.eigenvalues().transpose());
}

// the number of points a cell accounts for saturates; its distribution stays
// the one of the points
PBT_TEST(point_count_saturates, 6000, 100000)
{
  V3 centre = genCentre(c);
  double m = 10 + centre.cwiseAbs().maxCoeff();
  Cell a = genCell(c, centre);
  size_t k = static_cast<size_t>(c.coin(70) ? c.range(24, 36) : c.range(0, 36)), mixed = 0;
  c.note(a.points(), " points, ", k, " times");
  for (size_t i = 0; i < k; ++i) {
    bool other = c.coin(a.points() >= 1000000000 ? 40 : 10);
    Cell b = other ? genCell(c, centre) : a;
    if (!b.hasGaussian())
      c.assume(false);
    mixed += other;
    Ref want = fuse(stateOf(a), stateOf(b));
    want.n = std::min<size_t>(want.n, 1000000000);
    if (c.coin(50)) {
      b += a;
      a = b;
    } else
      a += b;
    PBT_REQUIRE("count", a.points() == want.n, a.points(), " want ", want.n);
    PBT_REQUIRE("mean-kept", near(a.getMean(), want.mean, 1e-11 * m), str(a.getMean()), " want ", str(want.mean));
    PBT_REQUIRE("covariance-kept", near(a.getCov(), limitCond(want.cov), 1e-10 * m * m), str(a.getCov()), " want ", str(limitCond(want.cov)), " with ",
                want.n, " points");
    wellFormed(a);
  }
  c.nontrivial(a.points() >= 1000000000 && mixed > 0);
}
PBT_MAIN()
