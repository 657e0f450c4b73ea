// C33: robust constraints between poses in space
#include "g2o_common.h"
#include <g2o/types/slam3d/edge_se3.h>
#include <g2o/types/slam3d/isometry3d_mappings.h>
#include <g2o/types/slam3d/vertex_se3.h>
#include <ndt_gslam/slam_optimizer/max_mixture/edge_se3_mixture.h>
#include <ndt_gslam/slam_optimizer/switchable_constraints/edge_se3Switchable.h>
#include <ndt_gslam/slam_optimizer/switchable_constraints/vertex_switchLinear.h>
#include <cstring>
namespace
{
typedef Eigen::Isometry3d Iso;
typedef Eigen::Matrix<double, 6, 1> V6;
typedef Eigen::Matrix<double, 6, 6> M6;
struct Register {
  Register()
  {
    auto* f = g2o::Factory::instance();
    f->registerType("EDGE_SE3_MIXTURE", std::make_unique<g2o::HyperGraphElementCreator<EdgeSE3Mixture>>());
    f->registerType("EDGE_SE3:QUAT", std::make_unique<g2o::HyperGraphElementCreator<g2o::EdgeSE3>>());
  }
} g_register;

Iso turned(double x, double y, double z, double a, double b, double g)
{
  Iso t = Iso::Identity();
  t.linear() = (Eigen::AngleAxisd(g, V3::UnitZ()) * Eigen::AngleAxisd(b, V3::UnitY()) * Eigen::AngleAxisd(a, V3::UnitX()))
                   .toRotationMatrix();
  t.translation() = V3(x, y, z);
  return t;
}
Iso gen(Case& c, double m = 10)
{
  return turned(c.real(-m, m), c.real(-m, m), c.real(-m, m), c.angle(), c.real(-1.5, 1.5), c.angle());
}
Iso near(Case& c, double s)
{
  return turned(s * c.real(-1, 1), s * c.real(-1, 1), s * c.real(-1, 1), 0.5 * s * c.real(-1, 1), 0.5 * s * c.real(-1, 1),
                0.5 * s * c.real(-1, 1));
}
// translation and vector part of the rotation's quaternion with w >= 0
V6 logq(const Iso& t)
{
  Eigen::AngleAxisd aa(t.linear());
  double h = aa.angle() / 2, k = std::sin(h);
  if (std::cos(h) < 0)
    k = -k;
  V6 r;
  r << t.translation(), aa.axis() * k;
  return r;
}
Iso expq(const V6& d)
{
  Iso t = Iso::Identity();
  V3 v = d.tail(3);
  t.linear() = Eigen::Quaterniond(std::sqrt(std::max(0.0, 1 - v.squaredNorm())), v(0), v(1), v(2)).toRotationMatrix();
  t.translation() = d.head(3);
  return t;
}
Iso rel(const Iso& a, const Iso& b, const Iso& z)
{
  return z.inverse() * (a.inverse() * b);
}
// away from half a turn, where the residual jumps
bool sane(const Iso& e)
{
  return std::fabs(Eigen::AngleAxisd(e.linear()).angle()) < M_PI - 0.3;
}
std::string st(const Iso& t)
{
  V6 l = logq(t);
  return pbt::cat("(", l(0), " ", l(1), " ", l(2), "; ", l(3), " ", l(4), " ", l(5), ")");
}
void same(const Iso& a, const Iso& b, const char* key, const std::string& when, double tol = 1e-9)
{
  PBT_REQUIRE(key, (a.matrix() - b.matrix()).cwiseAbs().maxCoeff() <= tol * (1 + b.translation().cwiseAbs().maxCoeff()), when,
              ": ", st(a), " want ", st(b));
}

struct Scene {
  std::vector<std::unique_ptr<g2o::VertexSE3>> v;
  std::vector<Iso> p;
  g2o::SparseOptimizer* graph = nullptr;
  std::vector<std::unique_ptr<g2o::EdgeSE3>> owned;
  std::vector<g2o::EdgeSE3*> comps;
  std::vector<double> w;
  std::vector<size_t> ia, ib;
  std::vector<Iso> z;
  std::vector<M6> inf;
  explicit Scene(Case& c)
  {
    size_t nv = static_cast<size_t>(c.range(2, 5));
    for (size_t i = 0; i < nv; ++i) {
      p.push_back(gen(c));
      v.emplace_back(new g2o::VertexSE3);
      v[i]->setEstimate(p[i]);
      v[i]->setId(static_cast<int>(i));
    }
    size_t n = static_cast<size_t>(c.range(1, 4));
    for (size_t i = 0; i < n; ++i) {
      size_t a = c.draw(nv), b = (a + 1 + c.draw(nv - 1)) % nv;
      if (i && c.coin(50)) {
        a = ia[0];
        b = ib[0];
      }
      add(c, a, b);
    }
  }
  void add(Case& c, size_t a, size_t b)
  {
    ia.push_back(a);
    ib.push_back(b);
    double s = c.pick(std::vector<double>{0, 0.05, 0.5, 2});
    z.push_back(p[a].inverse() * p[b] * near(c, s));
    inf.push_back(genInfo<6>(c));
    if (inf.size() > 1 && c.coin(40))
      inf.back() = inf[c.draw(inf.size() - 1)];
    if (c.coin(20))
      inf.back() *= 1e-3;
    w.push_back(c.coin(30) ? 1 : c.logreal(1e-4, 1));
    owned.emplace_back(new g2o::EdgeSE3);
    g2o::EdgeSE3* e = owned.back().get();
    e->setVertex(0, v[a].get());
    e->setVertex(1, v[b].get());
    e->setMeasurement(z.back());
    e->setInformation(inf.back());
    comps.push_back(e);
    c.note("component ", comps.size() - 1, ": ", a, " ", st(p[a]), " -> ", b, " ", st(p[b]), " z ", st(z.back()), " weight ",
           w.back());
  }
  double cost(size_t k) const
  {
    V6 r = logq(rel(p[ia[k]], p[ib[k]], z[k]));
    return -std::log(w[k]) - 0.5 * std::log(inf[k].determinant()) + 0.5 * r.dot(inf[k] * r);
  }
  size_t best(double& gap) const
  {
    size_t b = 0;
    for (size_t k = 1; k < comps.size(); ++k)
      if (cost(k) < cost(b))
        b = k;
    gap = 1e300;
    for (size_t k = 0; k < comps.size(); ++k)
      if (k != b)
        gap = std::min(gap, cost(k) - cost(b));
    return b;
  }
  bool clear() const
  {
    double gap;
    size_t b = best(gap);
    for (size_t k = 0; k < comps.size(); ++k)
      if (!sane(rel(p[ia[k]], p[ib[k]], z[k])))
        return false;
    return gap >= 1e-6 * (1 + std::fabs(cost(b)));
  }
  void check(EdgeSE3Mixture& m, const char* when)
  {
    if (!clear())
      return;
    double gap;
    size_t b = best(gap);
    PBT_REQUIRE("most-likely", m.getBestComponent() == static_cast<int>(b), when, ": component ", m.getBestComponent(),
                " chosen, want ", b);
    V6 r = logq(rel(p[ia[b]], p[ib[b]], z[b])), e = m.error();
    PBT_REQUIRE("residual", (e - r).cwiseAbs().maxCoeff() <= 1e-7 * (1 + r.cwiseAbs().maxCoeff()), when, ": ", e.transpose(),
                " want ", r.transpose());
    PBT_REQUIRE("vertices", m.vertex(0) == v[ia[b]].get() && m.vertex(1) == v[ib[b]].get(), when);
    PBT_REQUIRE("information", m.information() == inf[b], when);
    double chi = r.dot(inf[b] * r);
    PBT_REQUIRE("chi2", std::fabs(m.chi2() - chi) <= 1e-6 * (1 + chi), when, ": ", m.chi2(), " want ", chi);
    same(m.measurement(), z[b], "measurement", when);
  }
  void moveVertices(Case& c)
  {
    for (size_t i = 0; i < v.size(); ++i)
      if (c.coin(60)) {
        p[i] = c.coin(30) ? gen(c) : p[i] * near(c, 1);
        v[i]->setEstimate(p[i]);
      }
  }
};
std::string written(const g2o::OptimizableGraph::Edge& e)
{
  std::ostringstream os;
  os.precision(17);
  bool ok = e.write(os);
  PBT_REQUIRE("write-succeeds", ok, "");
  return os.str();
}
std::vector<std::string> tokens(const std::string& s)
{
  std::istringstream is(s);
  std::vector<std::string> r;
  std::string t;
  while (is >> t)
    r.push_back(t);
  return r;
}
std::string firstTokens(const std::vector<std::string>& t, size_t n)
{
  std::string r;
  for (size_t i = 0; i < n; ++i)
    r += t[i] + " ";
  return r;
}
}

PBT_TEST(mixture_selection, 20000, 500000)
{
  Quiet q;
  Scene s(c);
  EdgeSE3Mixture m(s.comps, s.w);
  PBT_REQUIRE("count", m.numberComponents == static_cast<int>(s.comps.size()), m.numberComponents);
  for (size_t k = 0; k < s.comps.size(); ++k)
    PBT_REQUIRE("components", m.getComponent(static_cast<int>(k)) == s.comps[k], k);
  s.check(m, "on creation");
  double gap;
  size_t first = s.best(gap), changes = 0;
  size_t steps = static_cast<size_t>(c.range(0, 4));
  for (size_t i = 0; i < steps; ++i) {
    s.moveVertices(c);
    m.computeError();
    s.check(m, "after moving");
    size_t b = s.best(gap);
    changes += b != first;
    first = b;
  }
  if (c.coin(20)) {
    Scene t(c);
    m.initializeComponents(t.comps, t.w);
    c.label("reinitialised");
    PBT_REQUIRE("count", m.numberComponents == static_cast<int>(t.comps.size()), m.numberComponents);
    t.check(m, "reinitialised");
  }
  c.nontrivial(s.comps.size() > 1 && changes > 0);
}

PBT_TEST(mixture_jacobian, 10000, 300000)
{
  Quiet q;
  Scene s(c);
  EdgeSE3Mixture m(s.comps, s.w);
  if (c.coin(60))
    s.moveVertices(c);
  // linearising picks the hypothesis for where the poses are by then
  if (c.coin(70))
    m.computeError();
  c.assume(s.clear());
  double gap;
  size_t b = s.best(gap);
  Iso A = s.p[s.ia[b]], B = s.p[s.ib[b]];
  // g2o's own gradient is that of the quaternion; steer clear of its branches
  g2o::JacobianWorkspace ws;
  ws.updateSize(&m);
  ws.allocate();
  static_cast<g2o::OptimizableGraph::Edge&>(m).linearizeOplus(ws);
  s.check(m, "after linearising");
  Eigen::Map<M6> j0(ws.workspaceForVertex(0)), j1(ws.workspaceForVertex(1));
  double h = 1e-6;
  M6 n0, n1;
  for (int i = 0; i < 6; ++i) {
    V6 d = V6::Zero();
    d(i) = h;
    n0.col(i) = (logq(rel(A * expq(d), B, s.z[b])) - logq(rel(A * expq(-d), B, s.z[b]))) / (2 * h);
    n1.col(i) = (logq(rel(A, B * expq(d), s.z[b])) - logq(rel(A, B * expq(-d), s.z[b]))) / (2 * h);
  }
  c.nontrivial(s.comps.size() > 1);
  double tol = 1e-4 * (1 + n0.cwiseAbs().maxCoeff());
  PBT_REQUIRE("jacobian-from", (j0 - n0).cwiseAbs().maxCoeff() <= tol, j0, " want ", n0);
  PBT_REQUIRE("jacobian-to", (j1 - n1).cwiseAbs().maxCoeff() <= tol, j1, " want ", n1);
}

PBT_TEST(mixture_relations, 8000, 200000)
{
  Quiet q;
  Scene s(c);
  c.assume(s.clear());
  EdgeSE3Mixture m(s.comps, s.w);
  std::vector<g2o::EdgeSE3*> r(s.comps.rbegin(), s.comps.rend());
  std::vector<double> w(s.w.rbegin(), s.w.rend());
  size_t rot = c.draw(r.size());
  std::rotate(r.begin(), r.begin() + static_cast<long>(rot), r.end());
  std::rotate(w.begin(), w.begin() + static_cast<long>(rot), w.end());
  double k = c.coin(50) ? 1 : c.logreal(1e-3, 1e3);
  for (auto& x : w)
    x *= k;
  EdgeSE3Mixture m2(r, w);
  c.nontrivial(r.size() > 1);
  PBT_REQUIRE("order", m.getComponent(m.getBestComponent()) == m2.getComponent(m2.getBestComponent()) && m.error() == m2.error(),
              "weights times ", k);
}

PBT_TEST(mixture_record, 10000, 300000)
{
  Quiet q;
  Scene s(c);
  g2o::SparseOptimizer g;
  std::vector<g2o::VertexSE3*> gv;
  for (size_t i = 0; i < s.v.size(); ++i) {
    auto* x = new g2o::VertexSE3;
    x->setId(static_cast<int>(i));
    x->setEstimate(s.p[i]);
    g.addVertex(x);
  }
  EdgeSE3Mixture m(s.comps, s.w);
  std::string rec = written(m);
  c.note("record ", rec);
  c.nontrivial(s.comps.size() > 1);
  EdgeSE3Mixture r;
  r.setVertex(0, g.vertex(0));
  r.setVertex(1, g.vertex(1));
  std::istringstream is(rec);
  PBT_REQUIRE("read-succeeds", r.read(is), rec);
  PBT_REQUIRE("count", r.numberComponents == static_cast<int>(s.comps.size()), r.numberComponents);
  for (size_t i = 0; i < s.comps.size(); ++i) {
    g2o::EdgeSE3* x = r.getComponent(static_cast<int>(i));
    PBT_REQUIRE("component-vertices", x->vertex(0) == g.vertex(static_cast<int>(s.ia[i])) &&
                                          x->vertex(1) == g.vertex(static_cast<int>(s.ib[i])),
                i);
    same(x->measurement(), s.z[i], "component-measurement", pbt::cat("component ", i));
    PBT_REQUIRE("component-information", x->information() == s.inf[i], i);
  }
  if (s.clear())
    PBT_REQUIRE("same-choice", r.getBestComponent() == m.getBestComponent() &&
                                   std::fabs(r.chi2() - m.chi2()) <= 1e-6 * (1 + m.chi2()),
                r.getBestComponent(), " vs ", m.getBestComponent());
  auto t = tokens(rec), t2 = tokens(written(r));
  bool eq = t.size() == t2.size();
  for (size_t i = 0; eq && i < t.size(); ++i)
    if (t[i] != t2[i]) {
      double x = std::atof(t[i].c_str()), y = std::atof(t2[i].c_str());
      eq = std::fabs(x - y) <= 1e-9 * (1 + std::fabs(x));
    }
  PBT_REQUIRE("written-again", eq, "");
  size_t cut = c.draw(t.size());
  c.note("cut after ", cut, " of ", t.size());
  EdgeSE3Mixture d;
  d.setVertex(0, g.vertex(0));
  d.setVertex(1, g.vertex(1));
  std::istringstream part(firstTokens(t, cut));
  PBT_REQUIRE("incomplete-record", !d.read(part), "accepted ", cut, " of ", t.size(), " values");
  // a record about a vertex the graph does not have
  size_t pos = 0, which = c.draw(s.comps.size());
  for (size_t i = 0; i < which; ++i)
    pos += 4 + 7 + 21;
  auto bad = t;
  bad[1 + pos + 2 + c.draw(2)] = "77";
  EdgeSE3Mixture f;
  f.setVertex(0, g.vertex(0));
  f.setVertex(1, g.vertex(1));
  std::istringstream other(firstTokens(bad, bad.size()) + "\n");
  PBT_REQUIRE("unknown-vertex", !f.read(other), "");
  // a record without a hypothesis
  bad = t;
  bad[0] = std::to_string(c.range(-3, 0));
  EdgeSE3Mixture h;
  h.setVertex(0, g.vertex(0));
  h.setVertex(1, g.vertex(1));
  std::istringstream none(firstTokens(bad, c.coin(50) ? 1 : bad.size()) + "\n");
  PBT_REQUIRE("no-hypothesis", !h.read(none), "a record of ", bad[0], " hypotheses accepted");
  for (size_t i = 0; i < s.comps.size(); ++i)
    delete r.getComponent(static_cast<int>(i));
}

PBT_TEST(mixture_empty, 300, 3000)
{
  size_t n = sizeof(EdgeSE3Mixture);
  int fill = static_cast<int>(c.draw(256));
  void* a = ::operator new(n, std::align_val_t(64));
  std::memset(a, fill, n);
  EdgeSE3Mixture* x = ::new (a) EdgeSE3Mixture;
  c.nontrivial(fill != 0);
  PBT_REQUIRE("empty", x->numberComponents == 0 && x->getBestComponent() == -1, x->getBestComponent());
  x->~EdgeSE3Mixture();
  ::operator delete(a, std::align_val_t(64));
}

PBT_TEST(switchable, 20000, 600000)
{
  Quiet q;
  Iso a = gen(c), b = gen(c), z = c.coin(70) ? Iso(a.inverse() * b * near(c, 1)) : gen(c);
  double s = c.coin(30) ? (c.coin(50) ? 0 : 1) : c.unit();
  g2o::VertexSE3 va, vb;
  VertexSwitchLinear vs;
  va.setEstimate(a);
  vb.setEstimate(b);
  vs.setEstimate(s);
  va.setId(0);
  vb.setId(1);
  vs.setId(2);
  EdgeSE3Switchable e;
  M6 info = genInfo<6>(c);
  if (c.coin(30))
    e.setMeasurement(gen(c));
  e.setMeasurement(z);
  e.setInformation(info);
  e.setVertex(0, &va);
  e.setVertex(1, &vb);
  e.setVertex(2, &vs);
  c.assume(sane(rel(a, b, z)));
  c.note("from ", st(a), " to ", st(b), " z ", st(z), " switch ", s);
  c.nontrivial(s > 0 && s < 1);
  V6 r = logq(rel(a, b, z));
  e.computeError();
  V6 err = e.error();
  PBT_REQUIRE("residual", (err - s * r).cwiseAbs().maxCoeff() <= 1e-7 * (1 + r.cwiseAbs().maxCoeff()), err.transpose(),
              " want ", (s * r).transpose());
  g2o::JacobianWorkspace ws;
  ws.updateSize(&e);
  ws.allocate();
  static_cast<g2o::OptimizableGraph::Edge&>(e).linearizeOplus(ws);
  Eigen::Map<M6> j0(ws.workspaceForVertex(0)), j1(ws.workspaceForVertex(1));
  Eigen::Map<V6> j2(ws.workspaceForVertex(2));
  M6 n0, n1;
  double h = 1e-6;
  for (int i = 0; i < 6; ++i) {
    V6 d = V6::Zero();
    d(i) = h;
    n0.col(i) = s * (logq(rel(a * expq(d), b, z)) - logq(rel(a * expq(-d), b, z))) / (2 * h);
    n1.col(i) = s * (logq(rel(a, b * expq(d), z)) - logq(rel(a, b * expq(-d), z))) / (2 * h);
  }
  double tol = 1e-4 * (1 + n0.cwiseAbs().maxCoeff() + r.norm());
  PBT_REQUIRE("jacobian-from", (j0 - n0).cwiseAbs().maxCoeff() <= tol, j0, " want ", n0);
  PBT_REQUIRE("jacobian-to", (j1 - n1).cwiseAbs().maxCoeff() <= tol, j1, " want ", n1);
  PBT_REQUIRE("jacobian-switch", (j2 - r).cwiseAbs().maxCoeff() <= tol, j2.transpose(), " want ", r.transpose());
  std::string rec = written(e);
  EdgeSE3Switchable f;
  std::istringstream is(rec);
  PBT_REQUIRE("read-succeeds", f.read(is), rec);
  same(f.measurement(), z, "record-measurement", rec);
  PBT_REQUIRE("record-information", f.information() == info, "");
  f.setVertex(0, &va);
  f.setVertex(1, &vb);
  f.setVertex(2, &vs);
  f.computeError();
  PBT_REQUIRE("record-same-constraint", std::fabs(f.chi2() - e.chi2()) <= 1e-7 * (1 + e.chi2()), f.chi2(), " vs ", e.chi2());
  auto t = tokens(rec);
  size_t cut = c.draw(t.size());
  std::istringstream part(firstTokens(t, cut));
  EdgeSE3Switchable d;
  PBT_REQUIRE("incomplete-record", !d.read(part), "accepted ", cut, " of ", t.size(), " values");
}
PBT_MAIN()
