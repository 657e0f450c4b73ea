// C01: planar pose / transform algebra
#include "pbt.h"
#include <ndt_gslam/utils/eigen_tools.h>

using pbt::angDist;
using pbt::Case;
typedef Eigen::Vector3d V3;
typedef Eigen::Vector2d V2;
typedef eigt::transform2d_t<double> Tr;

namespace
{
double mag(Case& c)
{
  static const double m[] = {10, 1, 100, 1000, 50000};
  return m[c.draw(5)];
}
V3 genPose(Case& c, double m, bool wide_angle = false)
{
  V3 p;
  p(0) = c.real(-m, m);
  p(1) = c.real(-m, m);
  p(2) = c.angle();
  if (wide_angle && c.coin(30)) {
    p(2) += 2 * M_PI * static_cast<double>(c.around(-6, 6));
    c.label("angle outside (-pi,pi]");
  }
  if (std::fabs(std::fabs(p(2)) - M_PI) < 0.2)
    c.label("angle near +-pi");
  return p;
}
std::string str(const V3& p)
{
  return pbt::cat("(", p(0), ", ", p(1), ", ", p(2), ")");
}
// independent reference: rotation and translation written out
V2 ref(const V3& p, const V2& q)
{
  double co = std::cos(p(2)), si = std::sin(p(2));
  return V2(co * q(0) - si * q(1) + p(0), si * q(0) + co * q(1) + p(1));
}
V2 refInv(const V3& p, const V2& q)
{
  double co = std::cos(p(2)), si = std::sin(p(2));
  double x = q(0) - p(0), y = q(1) - p(1);
  return V2(co * x + si * y, -si * x + co * y);
}
void same(const char* key, const V3& got, const V3& want, double tol)
{
  PBT_REQUIRE(key, std::fabs(got(0) - want(0)) <= tol &&
                       std::fabs(got(1) - want(1)) <= tol &&
                       angDist(got(2), want(2)) <= 1e-9,
              "got ", str(got), " want ", str(want));
}
bool moved(const V3& p)
{
  return std::fabs(p(2)) > 1e-6 && p.head(2).norm() > 1e-6;
}
}

PBT_TEST(pose_transform_round_trip, 60000, 2000000)
{
  double m = mag(c);
  V3 p = genPose(c, m, true);
  V2 q(c.real(-m, m), c.real(-m, m));
  c.note("pose ", str(p), " point ", q.transpose());
  c.nontrivial(moved(p));
  double tol = 1e-9 * (1 + m);
  Tr t = eigt::getTransFromPose(p);
  V2 tq = t * q;
  PBT_REQUIRE("trans-acts", (tq - ref(p, q)).norm() <= tol, "transform of ",
              q.transpose(), " by ", str(p), " gives ", tq.transpose(),
              " want ", ref(p, q).transpose());
  Eigen::Matrix3d mt = t.matrix();
  PBT_REQUIRE("affine-row", mt(2, 0) == 0 && mt(2, 1) == 0 && mt(2, 2) == 1,
              mt);
  same("pose-round-trip", eigt::getPoseFromTransform(t), p, tol);
  double a = eigt::getAngle(t);
  PBT_REQUIRE("angle", angDist(a, p(2)) <= 1e-9 && std::fabs(a) <= M_PI + 1e-12,
              a);
  double d = eigt::getDisplacement(t);
  double want = std::hypot(p(0), p(1));
  PBT_REQUIRE("displacement", std::fabs(d - want) <= tol, d, " want ", want);
}

PBT_TEST(concat_is_composition, 60000, 2000000)
{
  double m = mag(c);
  V3 p = genPose(c, m, true), d = genPose(c, m), e = genPose(c, m);
  V2 q(c.real(-m, m), c.real(-m, m));
  c.note("pose ", str(p), " increment ", str(d), " second ", str(e), " point ",
         q.transpose());
  c.nontrivial(moved(p) && moved(d));
  double tol = 1e-9 * (1 + 3 * m);
  Tr td = eigt::getTransFromPose(d), te = eigt::getTransFromPose(e);
  V3 r = eigt::transformConcat(p, td);
  V2 got = ref(r, q), want = ref(p, ref(d, q));
  PBT_REQUIRE("concat", (got - want).norm() <= tol, "concat ", str(r),
              " maps the point to ", got.transpose(), " want ",
              want.transpose());
  PBT_REQUIRE("concat-angle",
              angDist(r(2), p(2) + d(2)) <= 1e-9 && std::fabs(r(2)) <= M_PI + 1e-12,
              str(r));
  // associativity, identity, inverse
  same("concat-assoc", eigt::transformConcat(r, te),
       eigt::transformConcat(p, Tr(td * te)), tol);
  same("concat-identity", eigt::transformConcat(p, Tr(Tr::Identity())), p, tol);
  same("concat-inverse", eigt::transformConcat(r, Tr(td.inverse())), p,
       3 * tol);
}

PBT_TEST(pose_difference_round_trip, 60000, 2000000)
{
  double m = mag(c);
  V3 a = genPose(c, m), b = genPose(c, m);
  c.note("from ", str(a), " to ", str(b));
  c.nontrivial(moved(a) && moved(b));
  if (std::fabs(b(2) - a(2)) > M_PI)
    c.label("difference wraps");
  double tol = 1e-9 * (1 + 2 * m);
  Tr t = eigt::transBtwPoses(a, b);
  V3 diff = eigt::getPoseFromTransform(t);
  same("difference", diff, V3(b(0) - a(0), b(1) - a(1), b(2) - a(2)), tol);
  V3 back = eigt::transformPose(a, t);
  same("apply-difference", back, b, tol);
  PBT_REQUIRE("apply-normalised", std::fabs(back(2)) <= M_PI + 1e-12, str(back));
  // applying any increment and asking for the difference returns it
  V3 d = genPose(c, m);
  Tr td = eigt::getTransFromPose(d);
  V3 moved_pose = eigt::transformPose(a, td);
  same("difference-of-applied",
       eigt::getPoseFromTransform(eigt::transBtwPoses(a, moved_pose)), d, tol);
}

PBT_TEST(frame_change, 60000, 2000000)
{
  double m = mag(c);
  V3 a = genPose(c, m), b = genPose(c, m), d = genPose(c, m);
  V2 q(c.real(-m, m), c.real(-m, m));
  c.note("frames ", str(a), " ", str(b), " ", str(d), " point ", q.transpose());
  c.nontrivial(moved(a) && moved(b));
  double tol = 1e-9 * (1 + 4 * m);
  // a point known in frame a is the same world point in frame b
  Tr ab = eigt::transBtwFrames(a, b);
  V2 got = ab * q, want = refInv(b, ref(a, q));
  PBT_REQUIRE("frame-change", (got - want).norm() <= tol, "got ",
              got.transpose(), " want ", want.transpose());
  Eigen::Matrix3d row = ab.matrix();
  PBT_REQUIRE("frame-affine", row(2, 0) == 0 && row(2, 1) == 0 && row(2, 2) == 1,
              row);
  V2 there = eigt::transBtwFrames(b, a) * got;
  PBT_REQUIRE("frame-inverse", (there - q).norm() <= tol, there.transpose(),
              " want ", q.transpose());
  V2 chain = eigt::transBtwFrames(b, d) * got;
  V2 direct = eigt::transBtwFrames(a, d) * q;
  PBT_REQUIRE("frame-chain", (chain - direct).norm() <= 2 * tol,
              chain.transpose(), " want ", direct.transpose());
}

PBT_TEST(matrix_conversions, 50000, 1500000)
{
  double m = mag(c);
  V3 p = genPose(c, m, true);
  double x = c.real(-m, m), y = c.real(-m, m), z = c.real(-5, 5);
  c.note("pose ", str(p));
  c.nontrivial(moved(p));
  double tol = 1e-9 * (1 + 2 * m);
  Tr t = eigt::getTransFromPose(p);
  Eigen::Matrix4d m4 = eigt::convertFromTransform(t);
  Eigen::Vector4d h = m4 * Eigen::Vector4d(x, y, z, 1);
  V2 want = ref(p, V2(x, y));
  PBT_REQUIRE("to-4x4", (h.head(2) - want).norm() <= tol &&
                            std::fabs(h(2) - z) <= tol && h(3) == 1,
              "4x4 maps to ", h.transpose(), " want ", want.transpose());
  Tr back = eigt::convertToTransform(m4);
  same("4x4-round-trip", eigt::getPoseFromTransform(back), p, tol);
  PBT_REQUIRE("4x4-round-trip-matrix",
              (back.matrix() - t.matrix()).cwiseAbs().maxCoeff() <= tol,
              back.matrix());
  Eigen::Matrix3d m2 = eigt::vecToMat2d<double>(p);
  PBT_REQUIRE("vec-to-3x3", (m2 - t.matrix()).cwiseAbs().maxCoeff() <= tol, m2);
  Eigen::Matrix4d m3 = eigt::vecToMat3d<double>(p);
  PBT_REQUIRE("vec-to-4x4", (m3 - m4).cwiseAbs().maxCoeff() <= tol, m3);
}

PBT_TEST(single_precision, 30000, 800000)
{
  // the same algebra instantiated for float, as the registration code uses it
  double m = c.coin() ? 100.0 : 10.0;
  V3 p = genPose(c, m), d = genPose(c, m);
  c.note("pose ", str(p), " increment ", str(d));
  c.nontrivial(moved(p) && moved(d));
  Eigen::Vector3f pf = p.cast<float>(), df = d.cast<float>();
  p = pf.cast<double>();
  d = df.cast<double>();
  double tol = 2e-5 * (1 + 2 * m);
  eigt::transform2d_t<float> tf = eigt::getTransFromPose<float>(df);
  Eigen::Vector3f r = eigt::transformConcat<float>(pf, tf);
  V2 want = ref(p, d.head(2));
  PBT_REQUIRE("float-concat", (r.head(2).cast<double>() - want).norm() <= tol &&
                                  angDist(r(2), p(2) + d(2)) <= 1e-4,
              r.transpose(), " want ", want.transpose());
  Eigen::Vector3f b =
      eigt::transformPose<float>(pf, eigt::transBtwPoses<float>(pf, df));
  PBT_REQUIRE("float-difference", (b.head(2).cast<double>() - d.head(2)).norm() <= tol &&
                                      angDist(b(2), d(2)) <= 1e-4,
              b.transpose());
  V2 fq = (eigt::transBtwFrames<float>(pf, df) * Eigen::Vector2f(1.f, -2.f)).cast<double>();
  V2 fw = refInv(d, ref(p, V2(1, -2)));
  PBT_REQUIRE("float-frame", (fq - fw).norm() <= 2 * tol, fq.transpose(),
              " want ", fw.transpose());
}

PBT_MAIN()
