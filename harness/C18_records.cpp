// C18: text records of robust constraints
#include "g2o_common.h"
#include <g2o/core/factory.h>
#include <ndt_gslam/slam_optimizer/max_mixture/edge_se2_mixture.h>
#include <ndt_gslam/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.h>
#include <ndt_gslam/slam_optimizer/switchable_constraints/edge_se2Switchable.h>
#include <ndt_gslam/slam_optimizer/switchable_constraints/edge_switchPrior.h>
#include <ndt_gslam/slam_optimizer/switchable_constraints/vertex_switchLinear.h>

G2O_USE_TYPE_GROUP(slam2d);
namespace
{
struct Register {
  Register()
  {
    auto* f = g2o::Factory::instance();
    f->registerType("EDGE_SE2_MIXTURE", std::make_unique<g2o::HyperGraphElementCreator<EdgeSE2Mixture>>());
    f->registerType("EDGE_SE2_XY_MIXTURE", std::make_unique<g2o::HyperGraphElementCreator<EdgeSE2PointXYMixture>>());
  }
} g_register;

template <class E>
std::string written(const E& e)
{
  std::ostringstream os;
  os.precision(17);
  bool ok = e.write(os);
  PBT_REQUIRE("write-succeeds", ok, "");
  return os.str();
}
std::vector<std::string> tokens(const std::string& s)
{
  std::istringstream is(s);
  std::vector<std::string> r;
  std::string t;
  while (is >> t)
    r.push_back(t);
  return r;
}
std::string firstTokens(const std::vector<std::string>& t, size_t n)
{
  std::string r;
  for (size_t i = 0; i < n; ++i)
    r += t[i] + " ";
  return r;
}
struct World {
  g2o::SparseOptimizer g;
  size_t nv = 0;
  explicit World(Case& c)
  {
    nv = static_cast<size_t>(c.range(2, 4));
    for (size_t i = 0; i < nv; ++i) {
      auto* v = new g2o::VertexSE2;
      v->setId(static_cast<int>(i));
      v->setEstimate(se2(genPose(c)));
      g.addVertex(v);
      auto* p = new g2o::VertexPointXY;
      p->setId(static_cast<int>(100 + i));
      p->setEstimate(genPose(c).head(2));
      g.addVertex(p);
    }
  }
};
}

PBT_TEST(switchable_edge, 30000, 800000)
{
  Quiet q;
  EdgeSE2Switchable a, b;
  V3 z = genPose(c, c.coin(80) ? 10 : 1e4);
  M3 info = genInfo<3>(c);
  a.setMeasurement(se2(z));
  a.setInformation(info);
  std::string rec = written(a);
  c.note("record ", rec);
  c.nontrivial(std::fabs(std::sin(z(2))) > 1e-3);
  std::istringstream is(rec);
  PBT_REQUIRE("read-succeeds", b.read(is), rec);
  V3 za = a.measurement().toVector(), zb = b.measurement().toVector();
  PBT_REQUIRE("measurement", (za - zb).head(2).cwiseAbs().maxCoeff() == 0 && angDist(za(2), zb(2)) < 1e-14, str(zb),
              " want ", str(za));
  PBT_REQUIRE("information", (b.information() - info).cwiseAbs().maxCoeff() <= 1e-14 * info.cwiseAbs().maxCoeff(),
              b.information());
  // what was read measures what was written
  g2o::VertexSE2 u, v;
  VertexSwitchLinear s;
  u.setEstimate(se2(genPose(c)));
  v.setEstimate(se2(genPose(c)));
  s.setEstimate(c.real(0, 1));
  for (auto* e : {&a, &b}) {
    e->setVertex(0, &u);
    e->setVertex(1, &v);
    e->setVertex(2, &s);
    e->computeError();
  }
  PBT_REQUIRE("same-constraint", std::fabs(a.chi2() - b.chi2()) <= 1e-9 * (1 + a.chi2()), a.chi2(), " vs ", b.chi2());
  auto t = tokens(rec);
  size_t cut = c.draw(t.size());
  std::istringstream part(firstTokens(t, cut));
  EdgeSE2Switchable d;
  c.note("cut after ", cut, " of ", t.size());
  PBT_REQUIRE("incomplete-record", !d.read(part), "accepted ", cut, " of ", t.size(), " values");
}

PBT_TEST(switch_and_prior, 30000, 800000)
{
  Quiet q;
  VertexSwitchLinear a, b;
  double x = c.real(0, 1);
  a.setEstimate(x);
  std::string rec = written(a);
  std::istringstream is(rec);
  PBT_REQUIRE("read-switch", b.read(is) && b.estimate() == x && b.x() == x, rec, " read as ", b.estimate());
  EdgeSwitchPrior p, r;
  double m = c.real(0, 1), w = c.logreal(1e-3, 1e3);
  p.setMeasurement(m);
  p.setInformation(Eigen::Matrix<double, 1, 1>::Constant(w));
  std::string rp = written(p);
  c.note("switch ", rec, " prior ", rp);
  c.nontrivial(m > 0 && m < 1);
  std::istringstream ip(rp);
  PBT_REQUIRE("read-prior", r.read(ip) && r.measurement() == m && r.information()(0, 0) == w, rp);
  auto t = tokens(rp);
  std::istringstream part(firstTokens(t, c.draw(t.size())));
  EdgeSwitchPrior d;
  PBT_REQUIRE("incomplete-prior", !d.read(part), "");
  std::istringstream none("");
  PBT_REQUIRE("incomplete-switch", !b.read(none), "");
}

namespace
{
template <class Mix, class Comp, int N, class Meas>
void mixtureRecord(Case& c, World& w, Meas setMeas, int to_base)
{
  std::vector<std::unique_ptr<Comp>> own;
  std::vector<Comp*> comps;
  std::vector<double> wts;
  size_t n = static_cast<size_t>(c.range(1, 4));
  for (size_t i = 0; i < n; ++i) {
    own.emplace_back(new Comp);
    Comp* e = own.back().get();
    int a = static_cast<int>(c.draw(w.nv)), b = to_base + static_cast<int>(c.draw(w.nv));
    e->setVertex(0, w.g.vertex(a));
    e->setVertex(1, w.g.vertex(b));
    setMeas(e);
    e->setInformation(genInfo<N>(c));
    comps.push_back(e);
    wts.push_back(c.logreal(1e-3, 1));
  }
  Mix m(comps, wts);
  std::string rec = written(m);
  c.note("record ", rec);
  c.nontrivial(n > 1);
  Mix r;
  r.setVertex(0, w.g.vertex(0));
  r.setVertex(1, w.g.vertex(to_base));
  std::istringstream is(rec);
  PBT_REQUIRE("read-succeeds", r.read(is), rec);
  PBT_REQUIRE("count", r.numberComponents == static_cast<int>(n), r.numberComponents);
  for (size_t i = 0; i < n; ++i) {
    Comp* x = r.getComponent(static_cast<int>(i));
    double za[N], zb[N];
    comps[i]->getMeasurementData(za);
    x->getMeasurementData(zb);
    bool same = x->vertex(0) == comps[i]->vertex(0) && x->vertex(1) == comps[i]->vertex(1);
    for (int k = 0; k < N; ++k)
      same = same && (std::fabs(za[k] - zb[k]) <= 1e-14 * (1 + std::fabs(za[k])) || (k == 2 && angDist(za[k], zb[k]) < 1e-14));
    PBT_REQUIRE("component", same, "component ", i);
    PBT_REQUIRE("component-information", (x->information() - comps[i]->information()).cwiseAbs().maxCoeff() <=
                                             1e-14 * comps[i]->information().cwiseAbs().maxCoeff(),
                "component ", i);
  }
  PBT_REQUIRE("same-choice", r.getBestComponent() == m.getBestComponent() &&
                                 std::fabs(r.chi2() - m.chi2()) <= 1e-9 * (1 + m.chi2()),
              r.getBestComponent(), " vs ", m.getBestComponent());
  std::string again = written(r);
  auto ta = tokens(rec), tb = tokens(again);
  bool same = ta.size() == tb.size();
  for (size_t i = 0; same && i < ta.size(); ++i)
    if (ta[i] != tb[i]) {
      double u = std::atof(ta[i].c_str()), v = std::atof(tb[i].c_str());
      same = std::fabs(u - v) <= 1e-12 * (1 + std::fabs(u)) || angDist(u, v) < 1e-12;
    }
  PBT_REQUIRE("written-again", same, again);
  size_t cut = c.draw(ta.size());
  Mix d;
  d.setVertex(0, w.g.vertex(0));
  d.setVertex(1, w.g.vertex(to_base));
  std::istringstream part(firstTokens(ta, cut));
  c.note("cut after ", cut, " of ", ta.size());
  PBT_REQUIRE("incomplete-record", !d.read(part), "accepted ", cut, " of ", ta.size(), " values");
  // a record about a vertex the graph does not have
  size_t pos = 1, which = c.draw(n);
  pos += which * (4 + N + N * (N + 1) / 2) + 2 + c.draw(2);
  auto bad = ta;
  bad[pos] = c.coin(50) ? "77" : "-3";
  Mix f;
  f.setVertex(0, w.g.vertex(0));
  f.setVertex(1, w.g.vertex(to_base));
  std::istringstream other(firstTokens(bad, bad.size()) + "\n");
  PBT_REQUIRE("unknown-vertex", !f.read(other), "vertex ", bad[pos], " accepted");
  // a record without a hypothesis
  bad = ta;
  bad[0] = std::to_string(c.range(-3, 0));
  Mix h;
  h.setVertex(0, w.g.vertex(0));
  h.setVertex(1, w.g.vertex(to_base));
  std::istringstream none(firstTokens(bad, c.coin(50) ? 1 : bad.size()) + "\n");
  PBT_REQUIRE("no-hypothesis", !h.read(none), "a record of ", bad[0], " hypotheses accepted");
  for (size_t i = 0; i < n; ++i)
    delete r.getComponent(static_cast<int>(i));
}
}
PBT_TEST(pose_mixture, 15000, 400000)
{
  Quiet q;
  World w(c);
  mixtureRecord<EdgeSE2Mixture, g2o::EdgeSE2, 3>(c, w, [&](g2o::EdgeSE2* e) { e->setMeasurement(se2(genPose(c))); }, 0);
}
PBT_TEST(point_mixture, 15000, 400000)
{
  Quiet q;
  World w(c);
  mixtureRecord<EdgeSE2PointXYMixture, g2o::EdgeSE2PointXY, 2>(
      c, w, [&](g2o::EdgeSE2PointXY* e) { e->setMeasurement(genPose(c).head(2)); }, 100);
}

// a whole graph saved and loaded again has the same vertices and cost
PBT_TEST(whole_graph, 4000, 120000)
{
  Quiet q;
  World w(c);
  size_t k = static_cast<size_t>(c.range(1, 5));
  for (size_t i = 0; i < k; ++i) {
    int a = static_cast<int>(c.draw(w.nv)), b = static_cast<int>((static_cast<size_t>(a) + 1 + c.draw(w.nv - 1)) % w.nv);
    switch (c.draw(2)) {
      case 0: {
        auto* s = new VertexSwitchLinear;
        s->setId(static_cast<int>(200 + i));
        s->setEstimate(c.real(0, 1));
        w.g.addVertex(s);
        auto* p = new EdgeSwitchPrior;
        p->setVertex(0, s);
        p->setMeasurement(c.real(0, 1));
        p->setInformation(Eigen::Matrix<double, 1, 1>::Constant(c.logreal(0.1, 10)));
        w.g.addEdge(p);
        auto* e = new EdgeSE2Switchable;
        e->setVertex(0, w.g.vertex(a));
        e->setVertex(1, w.g.vertex(b));
        e->setVertex(2, s);
        e->setMeasurement(se2(genPose(c)));
        e->setInformation(genInfo<3>(c));
        w.g.addEdge(e);
        c.label("switchable");
        break;
      }
      default: {
        std::vector<g2o::EdgeSE2*> comps;
        std::vector<double> wts;
        for (int j = 0; j < 2; ++j) {
          auto* e = new g2o::EdgeSE2;
          e->setVertex(0, w.g.vertex(a));
          e->setVertex(1, w.g.vertex(b));
          e->setMeasurement(se2(genPose(c)));
          e->setInformation(genInfo<3>(c));
          comps.push_back(e);
          wts.push_back(c.logreal(1e-3, 1));
        }
        auto* m = new EdgeSE2Mixture(comps, wts);
        w.g.addEdge(m);
        c.label("mixture");
      }
    }
  }
  std::stringstream ss;
  ss.precision(17);
  PBT_REQUIRE("save", w.g.save(ss), "");
  g2o::SparseOptimizer l;
  std::string text = ss.str();
  c.note(text);
  c.nontrivial(k > 1);
  PBT_REQUIRE("load", l.load(ss), text);
  // g2o leaves out vertices without a constraint
  size_t want = 0;
  for (auto& v : w.g.vertices())
    if (!v.second->edges().empty()) {
      ++want;
      PBT_REQUIRE("vertex", l.vertex(v.first) != nullptr, v.first);
    }
  PBT_REQUIRE("size", l.vertices().size() == want && l.edges().size() == w.g.edges().size(),
              l.vertices().size(), " vertices ", l.edges().size(), " edges");
  double ca = 0, cb = 0;
  auto cost = [](g2o::SparseOptimizer& g) {
    double s = 0;
    for (auto* e : g.edges()) {
      auto* o = static_cast<g2o::OptimizableGraph::Edge*>(e);
      o->computeError();
      s += o->chi2();
    }
    return s;
  };
  ca = cost(w.g);
  cb = cost(l);
  PBT_REQUIRE("same-cost", std::fabs(ca - cb) <= 1e-8 * (1 + ca), cb, " want ", ca);
}
PBT_MAIN()
