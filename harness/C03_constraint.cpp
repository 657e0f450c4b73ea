// C03: relative-pose constraints: residual and its Jacobians
#include "pbt.h"
#include <ndt_gslam/slam_optimizer/pose_graph.h>
#include <ndt_gslam/slam_optimizer/slam2d_policy.h>
using pbt::angDist;
using pbt::Case;
typedef Eigen::Vector3d V3;
typedef Slam2d_Policy P;
namespace
{
V3 pose(Case& c, double m)
{
  return V3(c.real(-m, m), c.real(-m, m), c.angle());
}
std::string str(const V3& p)
{
  return pbt::cat("(", p(0), ", ", p(1), ", ", p(2), ")");
}
V3 compose(const V3& a, const V3& b)
{
  double co = std::cos(a(2)), si = std::sin(a(2));
  return V3(a(0) + co * b(0) - si * b(1), a(1) + si * b(0) + co * b(1),
            pbt::wrapPi(a(2) + b(2)));
}
V3 inverse(const V3& a)
{
  double co = std::cos(a(2)), si = std::sin(a(2));
  return V3(-co * a(0) - si * a(1), si * a(0) - co * a(1), -a(2));
}
bool nontriv(const V3& a, const V3& z)
{
  return std::fabs(a(2)) > 1e-3 && std::fabs(z(2)) > 1e-3 &&
         z.head(2).norm() > 1e-3;
}
}

PBT_TEST(zero_iff_consistent, 80000, 2500000)
{
  double m = c.coin(80) ? 20 : 2000;
  V3 xi = pose(c, m), z = pose(c, m), off = V3::Zero();
  bool consistent = c.coin(50);
  if (!consistent)
    off = V3(c.real(-3, 3), c.real(-3, 3), c.angle());
  V3 xj = compose(compose(xi, z), off);
  if (c.coin(20))
    xj(2) += 2 * M_PI * static_cast<double>(c.around(-2, 2));
  c.note("xi ", str(xi), " xj ", str(xj), " z ", str(z), " residual ", str(off));
  c.label(consistent ? "consistent" : "inconsistent");
  c.nontrivial(nontriv(xi, z));
  V3 e = P::calcError(xi, xj, z);
  double tol = 1e-9 * (1 + 3 * m);
  PBT_REQUIRE("residual", (e - off).head(2).norm() <= tol &&
                              angDist(e(2), off(2)) <= 1e-9,
              "error ", str(e), " want ", str(off));
  PBT_REQUIRE("residual-normalised", std::fabs(e(2)) <= M_PI + 1e-12, str(e));
}

PBT_TEST(invariant_under_common_motion, 60000, 2000000)
{
  double m = c.coin(80) ? 20 : 500;
  V3 xi = pose(c, m), xj = pose(c, m), z = pose(c, m), g = pose(c, m);
  c.note("xi ", str(xi), " xj ", str(xj), " z ", str(z), " world motion ", str(g));
  c.nontrivial(nontriv(g, z));
  V3 a = P::calcError(xi, xj, z);
  V3 b = P::calcError(compose(g, xi), compose(g, xj), z);
  double tol = 1e-9 * (1 + 6 * m);
  PBT_REQUIRE("invariance", (a - b).head(2).norm() <= tol && angDist(a(2), b(2)) <= 1e-9,
              str(a), " vs ", str(b));
  // reversing a constraint: z^-1 between xj and xi is consistent exactly when
  // z between xi and xj is
  V3 r = P::calcError(xj, xi, inverse(z));
  V3 want = compose(compose(z, inverse(compose(inverse(xi), xj))), V3::Zero());
  PBT_REQUIRE("reverse", (r - want).head(2).norm() <= tol && angDist(r(2), want(2)) <= 1e-9,
              str(r), " want ", str(want));
}

PBT_TEST(jacobian_matches_residual, 60000, 2000000)
{
  double m = c.coin(80) ? 20 : 200;
  V3 xi = pose(c, m), xj = pose(c, m), z = pose(c, m);
  c.note("xi ", str(xi), " xj ", str(xj), " z ", str(z));
  c.nontrivial(nontriv(xi, z) && (xi - xj).head(2).norm() > 1e-3);
  auto J = P::calcJacobianBlocks(xi, xj, z);
  double h = 1e-4;
  for (int side = 0; side < 2; ++side) {
    const Eigen::Matrix3d& A = side == 0 ? J.first : J.second;
    for (int k = 0; k < 3; ++k) {
      auto f = [&](double s) {
        V3 a = xi, b = xj;
        (side == 0 ? a : b)(k) += s;
        return V3(P::calcError(a, b, z));
      };
      auto diff = [&](double s) {
        V3 d = f(s) - f(-s);
        d(2) = pbt::wrapPi(d(2));
        return V3(d / (2 * s));
      };
      V3 num = (4 * diff(h / 2) - diff(h)) / 3;  // Richardson
      double tol = 1e-6 * (1 + m);
      PBT_REQUIRE("jacobian", (num - A.col(k)).norm() <= tol, "side ", side,
                  " column ", k, " analytic ", A.col(k).transpose(),
                  " numeric ", num.transpose());
    }
  }
}

PBT_TEST(graph_edges_use_their_nodes, 30000, 800000)
{
  typedef slamuk::Graph<P, int> G;
  double m = 20;
  G g;
  std::vector<V3> poses;
  size_t n = static_cast<size_t>(c.range(2, 5));
  for (size_t i = 0; i < n; ++i) {
    poses.push_back(pose(c, m));
    g.addNode(G::N(poses.back(), static_cast<int>(i)));
  }
  size_t k = static_cast<size_t>(c.range(1, 6));
  struct Ed {
    size_t a, b;
    V3 z;
    Eigen::Matrix3d inf;
    size_t id;
  };
  std::vector<Ed> es;
  for (size_t i = 0; i < k; ++i) {
    Ed e;
    e.a = c.draw(n);
    e.b = c.draw(n);
    e.z = pose(c, m);
    e.inf = Eigen::Matrix3d::Identity() * c.real(0.5, 9);
    e.inf(0, 1) = e.inf(1, 0) = c.real(-0.4, 0.4);
    G::E edge(&g.getNode(e.a), &g.getNode(e.b), e.z, e.inf);
    e.id = g.addEdge(std::move(edge));
    es.push_back(e);
  }
  // poses change after the edges exist
  size_t which = c.draw(n);
  poses[which] = pose(c, m);
  g.getNode(which).setPose(poses[which]);
  bool nt = false;
  for (auto& e : es) {
    c.note("edge ", e.a, "->", e.b, " z ", str(e.z));
    nt = nt || e.a != e.b;
    const G::E& ed = g.getEdge(e.id);
    V3 err = ed.getError();
    V3 want = compose(inverse(e.z), compose(inverse(poses[e.a]), poses[e.b]));
    PBT_REQUIRE("edge-error", (err - want).head(2).norm() <= 1e-7 && angDist(err(2), want(2)) <= 1e-9,
                str(err), " want ", str(want));
    auto J = ed.getJacobianBlocks();
    auto K = P::calcJacobianBlocks(poses[e.a], poses[e.b], e.z);
    PBT_REQUIRE("edge-jacobian", (J.first - K.first).norm() <= 1e-9 && (J.second - K.second).norm() <= 1e-9,
                J.first, " ", J.second);
    PBT_REQUIRE("edge-data", (ed.getTransform() - e.z).norm() == 0 &&
                                 (ed.getInformationMatrix() - e.inf).norm() == 0,
                ed.getTransform().transpose());
    Eigen::Vector2d q(1.5, -0.5);
    Eigen::Vector2d tq = ed.getTransMatrix() * q;
    V3 w = compose(e.z, V3(q(0), q(1), 0));
    PBT_REQUIRE("edge-matrix", (tq - w.head(2)).norm() <= 1e-9, tq.transpose());
  }
  c.nontrivial(nt);
}
PBT_MAIN()
