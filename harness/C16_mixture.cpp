// C16: max-mixture constraints behave as their most likely component
#include "g2o_common.h"
#include <ndt_gslam/slam_optimizer/max_mixture/edge_se2_mixture.h>
#include <ndt_gslam/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.h>

namespace
{
// both kinds of edges behind one face
struct Pose2 {
  typedef EdgeSE2Mixture Mix;
  typedef g2o::EdgeSE2 Comp;
  typedef g2o::VertexSE2 To;
  static const int N = 3;
  typedef V3 Vec;
  static To* vertex(const V3& p)
  {
    To* v = new To;
    v->setEstimate(se2(p));
    return v;
  }
  static void move(To* v, const V3& p)
  {
    v->setEstimate(se2(p));
  }
  static Vec predict(const V3& a, const V3& b)
  {
    return comp(inv(a), b);
  }
  static void measure(Comp* e, const Vec& z)
  {
    e->setMeasurement(se2(z));
  }
  static Vec residual(const V3& a, const V3& b, const Vec& z)
  {
    return comp(inv(z), comp(inv(a), b));
  }
  static Vec measurement(const Mix& e)
  {
    return e.measurement().toVector();
  }
  static Vec noise(Case& c, double s)
  {
    return Vec(s * c.real(-1, 1), s * c.real(-1, 1), 0.5 * s * c.real(-1, 1));
  }
  static Vec disturb(const Vec& z, const Vec& n)
  {
    return comp(z, n);
  }
  static bool sane(const Vec& r)
  {
    return std::fabs(std::fabs(r(2)) - M_PI) > 1e-4;
  }
};
struct Point2 {
  typedef EdgeSE2PointXYMixture Mix;
  typedef g2o::EdgeSE2PointXY Comp;
  typedef g2o::VertexPointXY To;
  static const int N = 2;
  typedef V2 Vec;
  static To* vertex(const V3& p)
  {
    To* v = new To;
    v->setEstimate(p.head(2));
    return v;
  }
  static void move(To* v, const V3& p)
  {
    v->setEstimate(p.head(2));
  }
  static Vec predict(const V3& a, const V3& b)
  {
    V3 q = b;
    q(2) = 0;
    return comp(inv(a), q).head(2);
  }
  static void measure(Comp* e, const Vec& z)
  {
    e->setMeasurement(z);
  }
  static Vec residual(const V3& a, const V3& b, const Vec& z)
  {
    return predict(a, b) - z;
  }
  static Vec measurement(const Mix& e)
  {
    return e.measurement();
  }
  static Vec noise(Case& c, double s)
  {
    return Vec(s * c.real(-1, 1), s * c.real(-1, 1));
  }
  static Vec disturb(const Vec& z, const Vec& n)
  {
    return z + n;
  }
  static bool sane(const Vec&)
  {
    return true;
  }
};

template <class K>
struct Scene {
  typedef typename K::Vec Vec;
  typedef Eigen::Matrix<double, K::N, K::N> Inf;
  std::vector<std::unique_ptr<g2o::VertexSE2>> from;
  std::vector<std::unique_ptr<typename K::To>> to;
  std::vector<V3> pf, pt;
  std::vector<std::unique_ptr<typename K::Comp>> owned;
  std::vector<typename K::Comp*> comps;
  std::vector<double> w;
  std::vector<size_t> ia, ib;
  std::vector<Vec> z;
  std::vector<Inf> inf;

  explicit Scene(Case& c)
  {
    size_t nv = static_cast<size_t>(c.range(1, 3));
    for (size_t i = 0; i < nv; ++i) {
      pf.push_back(genPose(c));
      pt.push_back(genPose(c));
      g2o::VertexSE2* v = new g2o::VertexSE2;
      v->setEstimate(se2(pf[i]));
      v->setId(static_cast<int>(2 * i));
      from.emplace_back(v);
      to.emplace_back(K::vertex(pt[i]));
      to.back()->setId(static_cast<int>(2 * i + 1));
    }
    size_t n = static_cast<size_t>(c.range(1, 5));
    for (size_t i = 0; i < n; ++i)
      add(c, c.draw(nv), c.draw(nv));
  }
  void add(Case& c, size_t a, size_t b)
  {
    ia.push_back(a);
    ib.push_back(b);
    double s = c.pick(std::vector<double>{0, 0.05, 0.5, 5});
    z.push_back(K::disturb(K::predict(pf[a], pt[b]), K::noise(c, s)));
    inf.push_back(genInfo<K::N>(c));
    if (inf.size() > 1 && c.coin(40))
      inf.back() = inf[c.draw(inf.size() - 1)];  // as reliable as another one
    if (z.size() > 1 && c.coin(15))
      z.back() = z[c.draw(z.size() - 1)];
    if (c.coin(20))
      inf.back() *= 1e-6;  // a nearly flat outlier hypothesis
    w.push_back(c.coin(30) ? 1 : c.logreal(1e-4, 1));
    typename K::Comp* e = new typename K::Comp;
    e->setVertex(0, from[a].get());
    e->setVertex(1, to[b].get());
    K::measure(e, z.back());
    e->setInformation(inf.back());
    owned.emplace_back(e);
    comps.push_back(e);
    c.note("component ", i(), ": ", str(pf[a]), " -> ", str(pt[b]), " z ", z.back().transpose(), " weight ", w.back(),
           " information ", inf.back().row(0), " ...");
  }
  size_t i() const
  {
    return comps.size() - 1;
  }
  double cost(size_t k) const
  {
    Vec r = K::residual(pf[ia[k]], pt[ib[k]], z[k]);
    return -std::log(w[k]) - 0.5 * std::log(inf[k].determinant()) + 0.5 * r.dot(inf[k] * r);
  }
  // the most likely component; gap to the runner-up
  size_t best(double& gap) const
  {
    size_t b = 0;
    for (size_t k = 1; k < comps.size(); ++k)
      if (cost(k) < cost(b))
        b = k;
    gap = 1e300;
    for (size_t k = 0; k < comps.size(); ++k)
      if (k != b)
        gap = std::min(gap, cost(k) - cost(b));
    return b;
  }
  bool sane() const
  {
    for (size_t k = 0; k < comps.size(); ++k)
      if (!K::sane(K::residual(pf[ia[k]], pt[ib[k]], z[k])))
        return false;
    return true;
  }
  void check(typename K::Mix& m, const char* when)
  {
    double gap;
    size_t b = best(gap);
    double scale = 1 + std::fabs(cost(b));
    if (!sane() || gap < 1e-7 * scale)
      return;
    PBT_REQUIRE("most-likely", m.getBestComponent() == static_cast<int>(b), when, ": component ", m.getBestComponent(),
                " chosen, want ", b, " cost ", cost(static_cast<size_t>(std::max(0, m.getBestComponent()))), " vs ", cost(b));
    Vec r = K::residual(pf[ia[b]], pt[ib[b]], z[b]);
    Vec e = m.error();
    PBT_REQUIRE("residual", (e - r).cwiseAbs().maxCoeff() <= 1e-9 * (1 + r.cwiseAbs().maxCoeff()), when, ": ",
                e.transpose(), " want ", r.transpose());
    PBT_REQUIRE("vertices", m.vertex(0) == from[ia[b]].get() && m.vertex(1) == to[ib[b]].get(), when);
    PBT_REQUIRE("information", m.information() == inf[b], when);
    double chi = r.dot(inf[b] * r);
    PBT_REQUIRE("chi2", std::fabs(m.chi2() - chi) <= 1e-7 * (1 + chi), when, ": ", m.chi2(), " want ", chi);
    Vec zz = K::measurement(m);
    PBT_REQUIRE("measurement", (zz - z[b]).cwiseAbs().maxCoeff() <= 1e-12 * (1 + z[b].cwiseAbs().maxCoeff()) ||
                                   (K::N == 3 && angDist(zz(K::N - 1), z[b](K::N - 1)) < 1e-9),
                when);
  }
  void moveVertices(Case& c)
  {
    for (size_t i = 0; i < from.size(); ++i) {
      if (c.coin(60)) {
        pf[i] = c.coin(50) ? genPose(c) : comp(pf[i], V3(c.real(-1, 1), c.real(-1, 1), c.real(-0.5, 0.5)));
        from[i]->setEstimate(se2(pf[i]));
      }
      if (c.coin(60)) {
        pt[i] = c.coin(50) ? genPose(c) : comp(pt[i], V3(c.real(-1, 1), c.real(-1, 1), c.real(-0.5, 0.5)));
        K::move(to[i].get(), pt[i]);
      }
    }
  }
};

template <class K>
void selection(Case& c)
{
  Quiet q;
  Scene<K> s(c);
  typename K::Mix m(s.comps, s.w);
  PBT_REQUIRE("count", m.numberComponents == static_cast<int>(s.comps.size()), m.numberComponents);
  for (size_t k = 0; k < s.comps.size(); ++k)
    PBT_REQUIRE("components", m.getComponent(static_cast<int>(k)) == s.comps[k], k);
  s.check(m, "on creation");
  double gap;
  size_t first = s.best(gap), changes = 0;
  size_t steps = static_cast<size_t>(c.range(0, 4));
  for (size_t i = 0; i < steps; ++i) {
    s.moveVertices(c);
    c.note("vertices moved");
    m.computeError();
    s.check(m, "after moving");
    size_t b = s.best(gap);
    changes += b != first;
    first = b;
  }
  if (c.coin(20)) {  // fresh set of components on the same edge
    Scene<K> t(c);
    m.initializeComponents(t.comps, t.w);
    c.label("reinitialised");
    PBT_REQUIRE("count", m.numberComponents == static_cast<int>(t.comps.size()), m.numberComponents);
    t.check(m, "reinitialised");
  }
  c.nontrivial(s.comps.size() > 1 && changes > 0);
  if (changes)
    c.label("choice changed");
}

template <class K>
void derivative(Case& c)
{
  Quiet q;
  Scene<K> s(c);
  typename K::Mix m(s.comps, s.w);
  s.moveVertices(c);
  m.computeError();
  double gap;
  size_t b = s.best(gap);
  c.assume(s.sane() && gap > 1e-6);
  g2o::JacobianWorkspace ws;
  ws.updateSize(&m);
  ws.allocate();
  g2o::OptimizableGraph::Edge& e = m;
  e.linearizeOplus(ws);
  s.check(m, "after linearising");
  typedef Eigen::Matrix<double, K::N, 3> J0;
  typedef Eigen::Matrix<double, K::N, K::N> J1;
  Eigen::Map<J0> a(ws.workspaceForVertex(0));
  Eigen::Map<J1> bb(ws.workspaceForVertex(1));
  J0 na;
  J1 nb;
  double h = 1e-6;
  auto res = [&](const V3& p, const V3& t) { return K::residual(p, t, s.z[b]); };
  V3 p0 = s.pf[s.ia[b]], t0 = s.pt[s.ib[b]];
  auto diff = [&](typename K::Vec x) {
    if (K::N == 3)
      x(K::N - 1) = pbt::wrapPi(x(K::N - 1));
    return x;
  };
  for (int i = 0; i < 3; ++i) {
    V3 d = V3::Zero();
    d(i) = h;
    na.col(i) = diff(res(plus(p0, d), t0) - res(plus(p0, -d), t0)) / (2 * h);
  }
  for (int i = 0; i < K::N; ++i) {
    V3 d = V3::Zero();
    d(i) = h;
    V3 hi = K::N == 3 ? plus(t0, d) : V3(t0 + d), lo = K::N == 3 ? plus(t0, -d) : V3(t0 - d);
    nb.col(i) = diff(res(p0, hi) - res(p0, lo)) / (2 * h);
  }
  c.nontrivial(s.comps.size() > 1);
  double tol = 1e-5 * (1 + na.cwiseAbs().maxCoeff());
  PBT_REQUIRE("jacobian-from", (a - na).cwiseAbs().maxCoeff() <= tol, a, " want ", na);
  PBT_REQUIRE("jacobian-to", (bb - nb).cwiseAbs().maxCoeff() <= tol, bb, " want ", nb);
}

// the order in which hypotheses are listed does not matter; a hypothesis that
// is worse than the chosen one does not matter at all
template <class K>
void relations(Case& c)
{
  Quiet q;
  Scene<K> s(c);
  double gap;
  s.best(gap);
  c.assume(s.sane() && gap > 1e-6);
  typename K::Mix m(s.comps, s.w);
  std::vector<typename K::Comp*> r(s.comps.rbegin(), s.comps.rend());
  std::vector<double> w(s.w.rbegin(), s.w.rend());
  size_t rot = c.draw(r.size());
  std::rotate(r.begin(), r.begin() + static_cast<long>(rot), r.end());
  std::rotate(w.begin(), w.begin() + static_cast<long>(rot), w.end());
  typename K::Mix m2(r, w);
  c.nontrivial(r.size() > 2);
  PBT_REQUIRE("order", m.getComponent(m.getBestComponent()) == m2.getComponent(m2.getBestComponent()) &&
                           m.error() == m2.error(),
              "");
  // scaling all weights changes nothing
  double k = c.logreal(1e-3, 1e3);
  for (auto& x : w)
    x *= k;
  typename K::Mix m3(r, w);
  PBT_REQUIRE("common-weight", m3.getBestComponent() == m2.getBestComponent(), "");
  if (r.size() > 1) {
    size_t drop = c.draw(r.size());
    if (static_cast<int>(drop) != m2.getBestComponent()) {
      auto keep = m2.getComponent(m2.getBestComponent());
      r.erase(r.begin() + static_cast<long>(drop));
      w.erase(w.begin() + static_cast<long>(drop));
      typename K::Mix m4(r, w);
      PBT_REQUIRE("irrelevant-alternative", m4.getComponent(m4.getBestComponent()) == keep, "");
    }
  }
}
}
PBT_TEST(pose_selection, 30000, 800000)
{
  selection<Pose2>(c);
}
PBT_TEST(point_selection, 30000, 800000)
{
  selection<Point2>(c);
}
PBT_TEST(pose_jacobian, 20000, 500000)
{
  derivative<Pose2>(c);
}
PBT_TEST(point_jacobian, 20000, 500000)
{
  derivative<Point2>(c);
}
PBT_TEST(pose_relations, 15000, 400000)
{
  relations<Pose2>(c);
}
PBT_TEST(point_relations, 15000, 400000)
{
  relations<Point2>(c);
}
// an edge without components has chosen none
PBT_TEST(empty, 300, 3000)
{
  size_t n = sizeof(EdgeSE2Mixture), k = sizeof(EdgeSE2PointXYMixture);
  int fill = static_cast<int>(c.draw(256));
  void *a = ::operator new(n), *b = ::operator new(k);
  std::memset(a, fill, n);
  std::memset(b, fill, k);
  EdgeSE2Mixture* x = new (a) EdgeSE2Mixture;
  EdgeSE2PointXYMixture* y = new (b) EdgeSE2PointXYMixture;
  c.nontrivial(fill != 0);
  PBT_REQUIRE("empty", x->numberComponents == 0 && y->numberComponents == 0 && x->getBestComponent() == -1 &&
                           y->getBestComponent() == -1,
              x->getBestComponent(), " ", y->getBestComponent());
  x->~EdgeSE2Mixture();
  y->~EdgeSE2PointXYMixture();
  ::operator delete(a);
  ::operator delete(b);
}
PBT_MAIN()
