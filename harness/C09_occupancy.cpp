// C09: occupancy evidence of a cell
#include "ndt_common.h"
namespace
{
// smallest squared Mahalanobis distance of a point of the line to the cell,
// and that point
double onLine(const Cell& cell, const V3& a, const V3& b, V3& pt)
{
  typedef Eigen::Matrix<long double, 3, 1> L3;
  typedef Eigen::Matrix<long double, 3, 3> LM;
  LM ic = cell.getICov().cast<long double>();
  L3 m = cell.getMean().cast<long double>(), p = b.cast<long double>(), d = (b - a).cast<long double>();
  if (d.norm() > 0) {
    long double t = -d.dot(ic * (p - m)) / d.dot(ic * d);
    p += t * d;
  }
  pt = p.cast<double>();
  return static_cast<double>((p - m).dot(ic * (p - m)));
}
struct Want {
  float occ;
  bool sure;  // false: on the edge between two outcomes
};
Want refRay(const Cell& cell, const V3& a, const V3& b, size_t n)
{
  double delta;
  Want w;
  w.sure = true;
  if (!cell.hasGaussian())
    delta = -0.2 * static_cast<double>(n);
  else {
    double l1 = (cell.getMean() - b).cwiseAbs().sum();
    if (std::fabs(l1 - 0.01) < 1e-8)
      w.sure = false;
    if (l1 < 0.01)
      delta = 1;
    else {
      V3 pt;
      double m2 = onLine(cell, a, b, pt);
      double thr = std::exp(-0.5 * (pt - b).squaredNorm() / (0.01 * 0.01));
      double lik = std::exp(-0.5 * m2) * (1 - thr);
      lik = 0.1 * lik + 0.5;
      delta = static_cast<double>(n) * std::log((1 - lik) / lik);
    }
  }
  w.occ = static_cast<float>(std::min(1.0, std::max(-1.0, static_cast<double>(cell.getOccupancyRaw()) + delta)));
  return w;
}
void genRay(Case& c, const Cell& cell, const V3& centre, V3& a, V3& b)
{
  V3 m = cell.hasGaussian() ? cell.getMean() : centre;
  double th = c.angle();
  V3 d(std::cos(th), std::sin(th), 0);
  switch (c.weighted({4, 3, 3, 2, 2, 1})) {
    case 0:  // right through
      a = m - c.real(0.1, 5) * d;
      b = m + c.real(0.02, 5) * d;
      c.label("through");
      break;
    case 1: {  // passes at a distance
      V3 o(-d(1), d(0), 0);
      double off = c.real(-3, 3);
      a = m - c.real(0.1, 5) * d + off * o;
      b = m + c.real(0.1, 5) * d + off * o;
      c.label("beside");
      break;
    }
    case 2:  // ends at or near the mean
      a = m - c.real(0.5, 6) * d;
      b = m + c.real(-0.03, 0.03) * d;
      c.label("ends near mean");
      break;
    case 3:  // anything
      a = genCentre(c);
      b = centre + V3(c.real(-4, 4), c.real(-4, 4), c.coin(80) ? 0 : c.real(-1, 1));
      c.label("any");
      break;
    case 4:  // ends at the mean exactly
      a = m - c.real(0.5, 6) * d;
      b = m;
      c.label("ends at mean");
      break;
    default:  // no length
      a = b = m + c.real(-2, 2) * d;
      c.label("zero length");
  }
}
}

PBT_TEST(ray_evidence, 80000, 2500000)
{
  V3 centre = genCentre(c);
  Cell cell = makeCell(genPts(c, static_cast<size_t>(c.coin(85) ? c.range(6, 16) : c.range(0, 5)), centre));
  size_t k = static_cast<size_t>(c.range(1, 8)), checked = 0;
  for (size_t i = 0; i < k; ++i) {
    V3 a, b;
    genRay(c, cell, centre, a, b);
    size_t n = static_cast<size_t>(c.coin(85) ? c.range(0, 10) : c.range(10, 100000));
    Want w = refRay(cell, a, b, n);
    Cell before = cell;
    c.note("occupancy ", cell.getOccupancyRaw(), " has ", cell.hasGaussian(), " ray ", str(a), " -> ", str(b), " weight ", n);
    cell.updateOccupancy(a, b, n);
    float o = cell.getOccupancyRaw();
    PBT_REQUIRE("range", o >= -1 && o <= 1, o);
    PBT_REQUIRE("only-occupancy", cell.points() == before.points() && cell.getMean() == before.getMean() &&
                                      cell.getCov() == before.getCov(), "");
    if (!w.sure)
      return;
    double l1 = (before.getMean() - b).cwiseAbs().sum();
    bool at_end = before.hasGaussian() && l1 < 0.01;
    if (!at_end)
      PBT_REQUIRE("see-through-never-raises", o <= before.getOccupancyRaw(), o, " was ", before.getOccupancyRaw());
    else
      PBT_REQUIRE("hit-confirms", o == 1, o);
    double tol = 1e-5 + 2e-6 * static_cast<double>(n);
    PBT_REQUIRE("evidence", std::fabs(o - w.occ) <= tol, o, " want ", w.occ, " was ", before.getOccupancyRaw());
    PBT_REQUIRE("kept-while-occupied", cell.hasGaussian() == (before.hasGaussian() && (at_end || o > 0)), "occupancy ", o);
    if (before.hasGaussian() && !at_end && n > 0)
      ++checked;
    if (before.hasGaussian() && !cell.hasGaussian())
      c.label("distribution lost");
  }
  c.nontrivial(checked > 0);
}

// a ray weighs as much as the same ray seen once per point
PBT_TEST(weights_add_up, 40000, 1000000)
{
  V3 centre = genCentre(c);
  Cell cell = makeCell(genPts(c, static_cast<size_t>(c.range(6, 16)), centre));
  V3 a, b;
  genRay(c, cell, centre, a, b);
  size_t n1 = static_cast<size_t>(c.range(0, 3)), n2 = static_cast<size_t>(c.range(0, 3));
  Cell one = cell, two = cell;
  one.updateOccupancy(a, b, n1 + n2);
  two.updateOccupancy(a, b, n1);
  c.assume(two.hasGaussian());
  two.updateOccupancy(a, b, n2);
  c.nontrivial(n1 && n2 && one.getOccupancyRaw() < 0.99f);
  c.note("weights ", n1, " + ", n2, " ray ", str(a), " -> ", str(b));
  PBT_REQUIRE("additive", std::fabs(one.getOccupancyRaw() - two.getOccupancyRaw()) < 2e-6 &&
                              one.hasGaussian() == two.hasGaussian(),
              one.getOccupancyRaw(), " vs ", two.getOccupancyRaw());
  // rays do not care about the direction they are looked at, nor how far away
  // the observer is
  Cell rev = cell;
  V3 d = b - a;
  double s = c.logreal(0.1, 10);
  if (d.norm() > 1e-3) {
    rev.updateOccupancy(b - s * d, b, n1 + n2);
    PBT_REQUIRE("observer-distance", std::fabs(rev.getOccupancyRaw() - one.getOccupancyRaw()) < 1e-5,
                rev.getOccupancyRaw(), " vs ", one.getOccupancyRaw());
  }
}

// the closer to the distribution a ray passes the more it contradicts it
PBT_TEST(closer_rays_count_more, 40000, 1000000)
{
  V3 centre = genCentre(c);
  Cell cell = makeCell(genPts(c, static_cast<size_t>(c.range(6, 16)), centre));
  double th = c.angle();
  V3 d(std::cos(th), std::sin(th), 0), o(-d(1), d(0), 0);
  double s1 = c.real(0, 3), s2 = c.real(0, 3), sg = c.coin(50) ? 1 : -1;
  if (s1 > s2)
    std::swap(s1, s2);
  size_t n = static_cast<size_t>(c.range(1, 4));
  Cell nearer = cell, farther = cell;
  V3 m = cell.getMean();
  nearer.updateOccupancy(m - 4 * d + sg * s1 * o, m + 40 * d + sg * s1 * o, n);
  farther.updateOccupancy(m - 4 * d + sg * s2 * o, m + 40 * d + sg * s2 * o, n);
  c.nontrivial(s2 - s1 > 0.01);
  c.note("offsets ", s1, " ", s2, " direction ", th);
  PBT_REQUIRE("monotone", nearer.getOccupancyRaw() <= farther.getOccupancyRaw() + 1e-6,
              nearer.getOccupancyRaw(), " at ", s1, "  ", farther.getOccupancyRaw(), " at ", s2);
  PBT_REQUIRE("contradicts", s1 > 0 || nearer.getOccupancyRaw() < cell.getOccupancyRaw(), "");
}

// reported occupancy in percent
PBT_TEST(percent, 20000, 400000)
{
  Cell cell;
  int v = static_cast<int>(c.range(-1, 100));
  cell.setOccupancy(static_cast<int8_t>(v));
  c.note("set ", v);
  int got = cell.getOccupancy();
  PBT_REQUIRE("set-get", std::abs(got - v) <= (v < 0 ? 0 : 1), got, " want ", v);
  // histories of evidence
  V3 centre = genCentre(c);
  size_t k = static_cast<size_t>(c.range(1, 6));
  for (size_t i = 0; i < k; ++i) {
    if (c.coin(50)) {
      cell.addPoint(centre);
      cell.computeGaussian();
    } else
      cell.updateOccupancy(centre, centre + V3(1, 0, 0), static_cast<size_t>(c.range(0, 9)));
    float raw = cell.getOccupancyRaw();
    int pc = cell.getOccupancy();
    PBT_REQUIRE("percent", raw < 0 ? pc == -1 : std::fabs(pc - 100 * raw) <= 1.0001, pc, " raw ", raw);
    if (raw > 0 && raw < 1)
      c.nontrivial();
  }
}
PBT_MAIN()
