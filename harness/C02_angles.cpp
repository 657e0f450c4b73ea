// C02: angles stay normalised and differences take the shorter way round
#include "pbt.h"
#include <ndt_gslam/slam_optimizer/pose_graph.h>
#include <ndt_gslam/slam_optimizer/slam2d_policy.h>
#include <ndt_gslam/utils/eigen_tools.h>
using pbt::angDist;
using pbt::Case;
typedef Eigen::Vector3d V3;

static double bigAngle(Case& c)
{
  double a = c.angle();
  switch (c.draw(5)) {
    case 0: break;
    case 1: a += 2 * M_PI * static_cast<double>(c.around(-5, 5)); break;
    case 2: a = c.real(-20, 20); break;
    case 3: a = c.uniform(-1e4, 1e4); break;
    default: {
      // odd and even multiples of pi with a small offset
      static const double e[] = {0, 1e-12, -1e-12, 1e-7, -1e-7, 0.01, -0.01};
      a = M_PI * static_cast<double>(c.around(-9, 9)) + e[c.draw(7)];
      c.label("near a multiple of pi");
    }
  }
  if (std::fabs(a) > M_PI)
    c.label("outside [-pi,pi]");
  return a;
}
static double tolFor(double a)
{
  return 1e-12 + 4e-16 * std::fabs(a) * 4;
}

PBT_TEST(normalise, 200000, 5000000)
{
  double a = bigAngle(c);
  c.note("angle ", a);
  c.nontrivial(std::fabs(a) > M_PI);
  double n = eigt::normalizeAngle(a);
  PBT_REQUIRE("range", n >= -M_PI - 1e-12 && n <= M_PI + 1e-12, n);
  // congruent modulo 2 pi, computed without trigonometric functions
  double k = std::round((a - n) / (2 * M_PI));
  PBT_REQUIRE("congruent", std::fabs((a - n) - k * 2 * M_PI) <= 1e-9 + tolFor(a) * 10,
              "normalise(", a, ") = ", n);
  double nn = eigt::normalizeAngle(n);
  PBT_REQUIRE("idempotent", std::fabs(nn - n) <= 1e-9 || angDist(nn, n) <= 1e-9, nn);
  float f = eigt::normalizeAngle(static_cast<float>(n));
  PBT_REQUIRE("float", std::fabs(f) <= 3.1415930f && angDist(f, n) <= 1e-5, f);
}

PBT_TEST(difference, 200000, 5000000)
{
  V3 p(c.real(-10, 10), c.real(-10, 10), bigAngle(c));
  V3 q(c.real(-10, 10), c.real(-10, 10), bigAngle(c));
  c.note("angles ", p(2), " -> ", q(2));
  c.nontrivial(std::fabs(p(2) - q(2)) > M_PI);
  double d = eigt::getAngleDiffrence(p, q);
  double raw = q(2) - p(2);
  double k = std::round((raw - d) / (2 * M_PI));
  double tol = 1e-9 + 1e-14 * (std::fabs(p(2)) + std::fabs(q(2)));
  PBT_REQUIRE("short-way", std::fabs(d) <= M_PI + 1e-12, d);
  PBT_REQUIRE("congruent", std::fabs(raw - d - k * 2 * M_PI) <= tol,
              "difference from ", p(2), " to ", q(2), " is ", d);
  double e = eigt::getAngleDiffrence(q, p);
  PBT_REQUIRE("antisymmetric", angDist(d, -e) <= tol, d, " ", e);
}

PBT_TEST(pose_updates_stay_normalised, 100000, 3000000)
{
  // any history of additive updates keeps every heading in [-pi, pi] and equal
  // to the running sum modulo 2 pi
  typedef slamuk::Graph<Slam2d_Policy, int> G;
  G g;
  V3 start(c.real(-10, 10), c.real(-10, 10), c.angle());
  G::N node(start, 7);
  size_t n = static_cast<size_t>(c.range(1, 12));
  V3 sum = start;
  V3 viaTransform = start;
  bool wrapped = false;
  for (size_t i = 0; i < n; ++i) {
    V3 d(c.real(-10, 10), c.real(-10, 10), c.coin(70) ? c.angle() : c.real(-20, 20));
    c.note("add ", d.transpose());
    V3 before = node.getPose();
    if (c.coin())
      node.addToPose(d);
    else
      node.addToPose(V3(d));
    sum += d;
    V3 pol = Slam2d_Policy::addPoses(before, d);
    V3 got = node.getPose();
    if (std::fabs(before(2) + d(2)) > M_PI)
      wrapped = true;
    PBT_REQUIRE("range", std::fabs(got(2)) <= M_PI + 1e-12, got.transpose());
    PBT_REQUIRE("sum", (got - sum).head(2).norm() <= 1e-9 * (1 + sum.head(2).norm()) &&
                           angDist(got(2), sum(2)) <= 1e-8,
                got.transpose(), " want ", sum.transpose());
    PBT_REQUIRE("policy", (pol - got).norm() <= 1e-12, pol.transpose());
    viaTransform = eigt::transformPose(viaTransform, eigt::getTransFromPose(d));
    PBT_REQUIRE("transformPose", std::fabs(viaTransform(2)) <= M_PI + 1e-12 &&
                                     angDist(viaTransform(2), sum(2)) <= 1e-8,
                viaTransform.transpose());
  }
  c.nontrivial(wrapped);
  PBT_REQUIRE("payload", node.getDataObj() == 7, node.getDataObj());
}
PBT_MAIN()
