// C12: uncertainty of concatenated motions
#include "pbt.h"
#include <ndt_gslam/utils/covariance_wrapper.h>
using pbt::Case;
typedef Eigen::Vector3d V3;
typedef Eigen::Matrix3d M3;
typedef slamuk::CovarianceWrapper W;
namespace
{
M3 genCov(Case& c)
{
  M3 a;
  double s = c.logreal(1e-3, 3);
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j)
      a(i, j) = s * c.real(-1, 1);
  if (c.coin(15))
    a.row(c.draw(3)).setZero();
  return a * a.transpose();
}
V3 genMotion(Case& c)
{
  return V3(c.real(-5, 5), c.real(-5, 5), c.angle());
}
W::Transform toT(const V3& p)
{
  W::Transform t = W::Transform::Identity();
  t.linear() << std::cos(p(2)), -std::sin(p(2)), std::sin(p(2)), std::cos(p(2));
  t.translation() << p(0), p(1);
  return t;
}
V3 comp(const V3& a, const V3& b)
{
  double co = std::cos(a(2)), si = std::sin(a(2));
  return V3(a(0) + co * b(0) - si * b(1), a(1) + si * b(0) + co * b(1), a(2) + b(2));
}
std::string str(const M3& m)
{
  return pbt::cat("[", m.row(0), "; ", m.row(1), "; ", m.row(2), "]");
}
}

// one step, against differentiated composition: the heading of the step
// displaces what it is concatenated with
PBT_TEST(one_step, 60000, 2000000)
{
  M3 s0 = genCov(c), s1 = genCov(c);
  V3 m = genMotion(c);
  W w(s0);
  w.addToCovar(s1, toT(m));
  c.note("motion ", m.transpose(), " covariances ", str(s0), " ", str(s1));
  c.nontrivial(std::fabs(std::sin(m(2))) > 1e-3 && m.head(2).norm() > 1e-3);
  // position = R(heading + noise) applied to the translation, linearised
  // numerically in the noise of both parts
  M3 j1, j2;
  double h = 1e-6;
  auto f = [&](const V3& n0, const V3& n1) {
    double a = m(2) + n0(2);
    V3 r;
    r(0) = n0(0) + std::cos(a) * (m(0)) - std::sin(a) * (m(1));
    r(1) = n0(1) + std::sin(a) * (m(0)) + std::cos(a) * (m(1));
    r(0) += std::cos(m(2)) * n1(0) - std::sin(m(2)) * n1(1);
    r(1) += std::sin(m(2)) * n1(0) + std::cos(m(2)) * n1(1);
    r(2) = n0(2) + n1(2);
    return r;
  };
  for (int i = 0; i < 3; ++i) {
    V3 d = V3::Zero();
    d(i) = h;
    j1.col(i) = (f(d, V3::Zero()) - f(-d, V3::Zero())) / (2 * h);
    j2.col(i) = (f(V3::Zero(), d) - f(V3::Zero(), -d)) / (2 * h);
  }
  M3 want = j1 * s0 * j1.transpose() + j2 * s1 * j2.transpose();
  double tol = 1e-7 * (1 + want.cwiseAbs().maxCoeff());
  PBT_REQUIRE("propagation", (w.covar_ - want).cwiseAbs().maxCoeff() <= tol, str(w.covar_), " want ", str(want));
}

PBT_TEST(stays_a_covariance_and_grows, 40000, 1200000)
{
  size_t k = static_cast<size_t>(c.range(1, 20));
  W w(genCov(c));
  c.nontrivial(k > 2);
  for (size_t i = 0; i < k; ++i) {
    M3 before = w.covar_, s = genCov(c);
    V3 m = genMotion(c);
    c.note("motion ", m.transpose(), " adds ", str(s));
    w.addToCovar(s, toT(m));
    const M3& a = w.covar_;
    double n = a.cwiseAbs().maxCoeff();
    PBT_REQUIRE("symmetric", (a - a.transpose()).cwiseAbs().maxCoeff() <= 1e-9 * (1 + n), str(a));
    Eigen::SelfAdjointEigenSolver<M3> e((a + a.transpose()) / 2);
    PBT_REQUIRE("semi-definite", e.eigenvalues()(0) >= -1e-9 * (1 + n), e.eigenvalues().transpose());
    PBT_REQUIRE("heading-adds-up", std::fabs(a(2, 2) - before(2, 2) - s(2, 2)) <= 1e-9 * (1 + a(2, 2)), a(2, 2), " from ",
                before(2, 2), " + ", s(2, 2));
    Eigen::SelfAdjointEigenSolver<M3> sb((before + before.transpose()) / 2);
    PBT_REQUIRE("determinant-grows", a.determinant() >= before.determinant() * (1 - 1e-7) - 1e-12 * (1 + n * n * n),
                a.determinant(), " was ", before.determinant());
  }
}

// what is added for a motion does not depend on what came before: two
// uncertainties added together are the sum of the two added alone
PBT_TEST(superposition, 40000, 1200000)
{
  M3 s0 = genCov(c), s1 = genCov(c), t0 = genCov(c), t1 = genCov(c);
  V3 m = genMotion(c);
  W a(s0), b(t0), ab(s0 + t0);
  a.addToCovar(s1, toT(m));
  b.addToCovar(t1, toT(m));
  ab.addToCovar(s1 + t1, toT(m));
  double n = 1 + ab.covar_.cwiseAbs().maxCoeff();
  c.nontrivial(std::fabs(m(2)) > 1e-3);
  c.note("motion ", m.transpose());
  PBT_REQUIRE("additive", (a.covar_ + b.covar_ - ab.covar_).cwiseAbs().maxCoeff() <= 1e-10 * n, str(ab.covar_));
  // standing still adds the new uncertainty unchanged; default start is unit
  W u;
  PBT_REQUIRE("default", u.covar_ == M3::Identity(), str(u.covar_));
  W v(s0);
  v.addToCovar(s1, toT(V3::Zero()));
  PBT_REQUIRE("standing-still", (v.covar_ - s0 - s1).cwiseAbs().maxCoeff() <= 1e-12 * (1 + n), str(v.covar_));
}

// turning the whole history turns the uncertainty
PBT_TEST(frame_independence, 30000, 1000000)
{
  M3 s0 = genCov(c), s1 = genCov(c);
  V3 m = genMotion(c), half = V3(m(0) * 0, m(1) * 0, 0);
  (void)half;
  double g = c.angle();
  // the step seen by a sensor mounted at angle g
  M3 G = M3::Identity();
  G.topLeftCorner(2, 2) << std::cos(g), -std::sin(g), std::sin(g), std::cos(g);
  W a(s0), b(G * s0 * G.transpose());
  a.addToCovar(s1, toT(m));
  V3 mg = m;
  mg.head(2) = G.topLeftCorner(2, 2) * m.head(2);
  b.addToCovar(G * s1 * G.transpose(), toT(mg));
  c.nontrivial(std::fabs(std::sin(g)) > 1e-3);
  c.note("motion ", m.transpose(), " mounting angle ", g);
  M3 want = G * a.covar_ * G.transpose();
  PBT_REQUIRE("mounting", (b.covar_ - want).cwiseAbs().maxCoeff() <= 1e-10 * (1 + want.cwiseAbs().maxCoeff()),
              str(b.covar_), " want ", str(want));
}
PBT_MAIN()
