// C07: the normal distribution of a cell is the one of the points put into it
#include "ndt_common.h"

PBT_TEST(gaussian_of_points, 60000, 2000000)
{
  size_t n = static_cast<size_t>(c.range(0, c.coin(80) ? 25 : 200));
  V3 centre = genCentre(c);
  Pts p = genPts(c, n, centre);
  c.note("points ", n, " around ", str(centre));
  if (n <= 8)
    for (auto& x : p)
      c.note("  ", str(x));
  Cell cell = makeCell(p);
  PBT_REQUIRE("has-distribution", cell.hasGaussian() == (n >= 6), "points ", n);
  PBT_REQUIRE("point-count", cell.points() == n, cell.points(), " of ", n);
  float occ = std::min(1.0f, static_cast<float>(n) * 0.405465108f);
  PBT_REQUIRE("occupancy", std::fabs(cell.getOccupancyRaw() - occ) <= 1e-6, cell.getOccupancyRaw(), " want ", occ);
  c.label(n >= 6 ? "distribution" : "too few points");
  if (n < 6)
    return;
  c.nontrivial();
  wellFormed(cell);
  Ref r = refOf(p);
  double m = 1 + centre.cwiseAbs().maxCoeff() + 5;
  PBT_REQUIRE("mean", near(cell.getMean(), r.mean, 1e-12 * m), str(cell.getMean()), " want ", str(r.mean));
  PBT_REQUIRE("covariance", near(cell.getCov(), limitCond(r.cov), 1e-12 * m * m), str(cell.getCov()), " want ",
              str(limitCond(r.cov)));
  if (!near(r.cov, limitCond(r.cov), 1e-9))
    c.label("conditioning limited");
}

PBT_TEST(order_of_points_irrelevant, 40000, 1000000)
{
  size_t n = static_cast<size_t>(c.range(6, 30));
  V3 centre = genCentre(c);
  Pts p = genPts(c, n, centre), q = p;
  for (size_t i = n - 1; i > 0; --i)
    std::swap(q[i], q[c.draw(i + 1)]);
  Cell a = makeCell(p), b = makeCell(q);
  c.nontrivial();
  double m = 6 + centre.cwiseAbs().maxCoeff();
  PBT_REQUIRE("order", a.points() == b.points() && near(a.getMean(), b.getMean(), 1e-12 * m) &&
                           near(a.getCov(), b.getCov(), 1e-12 * m * m),
              str(a.getCov()), " vs ", str(b.getCov()));
}

// batches: points that were too few to make a distribution are kept for later,
// later batches refine the existing distribution
PBT_TEST(batches_accumulate, 40000, 1000000)
{
  V3 centre = genCentre(c);
  Cell cell;
  Pts pending;
  Ref ref;
  bool has = false;
  size_t batches = static_cast<size_t>(c.range(1, 6)), refined = 0;
  double m = 10 + centre.cwiseAbs().maxCoeff();
  for (size_t b = 0; b < batches; ++b) {
    size_t n = static_cast<size_t>(has ? c.range(6, 20) : c.range(1, 14));
    V3 ctr = centre + V3(c.real(-1, 1), c.real(-1, 1), 0);
    Pts p = genPts(c, n, ctr);
    c.note("batch of ", n, " around ", str(ctr));
    for (auto& x : p)
      cell.addPoint(x);
    cell.computeGaussian();
    pending.insert(pending.end(), p.begin(), p.end());
    if (pending.size() < 6) {
      PBT_REQUIRE("too-few", !cell.hasGaussian() && cell.points() == pending.size(), "points ", cell.points());
      continue;
    }
    Ref r = refOf(pending);
    if (has) {
      r = fuse(ref, r);
      ++refined;
    }
    pending.clear();
    has = true;
    PBT_REQUIRE("has-distribution", cell.hasGaussian(), "");
    PBT_REQUIRE("point-count", cell.points() == r.n, cell.points(), " want ", r.n);
    wellFormed(cell);
    PBT_REQUIRE("mean", near(cell.getMean(), r.mean, 1e-11 * m), str(cell.getMean()), " want ", str(r.mean));
    PBT_REQUIRE("covariance", near(cell.getCov(), limitCond(r.cov), 1e-11 * m * m), str(cell.getCov()), " want ",
                str(limitCond(r.cov)));
    ref = stateOf(cell);
  }
  c.nontrivial(refined > 0);
}

// a cell that accounts for as many points as one can is still refined by more
PBT_TEST(batches_at_capacity, 4000, 100000)
{
  V3 centre = genCentre(c);
  double m = 10 + centre.cwiseAbs().maxCoeff();
  Cell cell = makeCell(genPts(c, static_cast<size_t>(c.range(6, 24)), centre));
  size_t k = static_cast<size_t>(c.range(20, 30)), batches = static_cast<size_t>(c.range(1, 5));
  for (size_t i = 0; i < k; ++i) {
    Cell b = cell;
    cell += b;
  }
  c.note(cell.points(), " points, then ", batches, " batches");
  for (size_t i = 0; i < batches; ++i) {
    Pts p = genPts(c, static_cast<size_t>(c.range(6, 24)), centre + V3(c.real(-1, 1), c.real(-1, 1), 0));
    Ref want = fuse(stateOf(cell), refOf(p));
    want.n = std::min<size_t>(want.n, 1000000000);
    for (auto& x : p)
      cell.addPoint(x);
    cell.computeGaussian();
    PBT_REQUIRE("has-distribution", cell.hasGaussian(), "");
    PBT_REQUIRE("point-count", cell.points() == want.n, cell.points(), " want ", want.n);
    PBT_REQUIRE("mean", near(cell.getMean(), want.mean, 1e-11 * m), str(cell.getMean()), " want ", str(want.mean));
    PBT_REQUIRE("covariance", near(cell.getCov(), limitCond(want.cov), 1e-10 * m * m), str(cell.getCov()), " want ", str(limitCond(want.cov)));
    wellFormed(cell);
  }
  c.nontrivial(cell.points() == 1000000000);
}

// a cell described by a message says what the cell says
PBT_TEST(message, 20000, 500000)
{
  V3 centre = genCentre(c);
  size_t n = static_cast<size_t>(c.range(0, 20));
  Cell cell = makeCell(genPts(c, n, centre));
  if (c.coin(40))
    cell.updateOccupancy(centre + V3(1, 2, 0), centre + V3(c.real(-3, 3), c.real(-3, 3), 0),
                         static_cast<size_t>(c.range(1, 5)));
  slamuk::NDTCellMsg m = cell.serialize();
  c.nontrivial(n >= 6);
  PBT_REQUIRE("message", m.mean_ == cell.getMean() && m.cov_ == cell.getCov() &&
                             m.points_ == static_cast<long>(cell.points()) &&
                             m.occupancy_ == static_cast<double>(cell.getOccupancyRaw()),
              "points ", m.points_, " occupancy ", m.occupancy_);
}
PBT_MAIN()
