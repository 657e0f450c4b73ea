// C17: switchable constraints
#include "g2o_common.h"
#include <ndt_gslam/slam_optimizer/switchable_constraints/edge_se2Switchable.h>
#include <ndt_gslam/slam_optimizer/switchable_constraints/edge_switchPrior.h>
#include <ndt_gslam/slam_optimizer/switchable_constraints/vertex_switchLinear.h>
#include <g2o/core/block_solver.h>
#include <g2o/core/optimization_algorithm_levenberg.h>
#include <cstring>
#include <g2o/solvers/dense/linear_solver_dense.h>
namespace
{
V3 resid(const V3& a, const V3& b, const V3& z)
{
  return comp(inv(z), comp(inv(a), b));
}
}

PBT_TEST(scaled_residual_and_jacobian, 60000, 1500000)
{
  Quiet q;
  V3 a = genPose(c), b = genPose(c), z = c.coin(50) ? comp(comp(inv(a), b), V3(c.real(-1, 1), c.real(-1, 1), c.real(-1, 1))) : genPose(c);
  double s = c.pick(std::vector<double>{0, 1, 0.5, 2}) == 2 ? c.real(0, 1) : c.unit();
  if (c.coin(30))
    s = c.coin(50) ? 0 : 1;
  g2o::VertexSE2 va, vb;
  VertexSwitchLinear vs;
  va.setEstimate(se2(a));
  vb.setEstimate(se2(b));
  vs.setEstimate(s);
  va.setId(0);
  vb.setId(1);
  vs.setId(2);
  EdgeSE2Switchable e;
  M3 info = genInfo<3>(c);
  if (c.coin(30))
    e.setMeasurement(se2(genPose(c)));  // overwritten below
  e.setMeasurement(se2(z));
  e.setInformation(info);
  e.setVertex(0, &va);
  e.setVertex(1, &vb);
  e.setVertex(2, &vs);
  V3 r = resid(a, b, z);
  c.assume(std::fabs(std::fabs(r(2)) - M_PI) > 1e-5);
  c.note("from ", str(a), " to ", str(b), " z ", str(z), " switch ", s);
  c.nontrivial(s > 0 && s < 1 && std::fabs(std::sin(a(2))) > 1e-3);
  e.computeError();
  V3 err = e.error();
  PBT_REQUIRE("residual", (err - s * r).cwiseAbs().maxCoeff() <= 1e-9 * (1 + r.cwiseAbs().maxCoeff()), str(err), " want ",
              str(V3(s * r)));
  double chi = s * s * r.dot(info * r);
  PBT_REQUIRE("cost", std::fabs(e.chi2() - chi) <= 1e-7 * (1 + chi), e.chi2(), " want ", chi);
  g2o::JacobianWorkspace ws;
  ws.updateSize(&e);
  ws.allocate();
  static_cast<g2o::OptimizableGraph::Edge&>(e).linearizeOplus(ws);
  Eigen::Map<M3> j0(ws.workspaceForVertex(0)), j1(ws.workspaceForVertex(1));
  Eigen::Map<V3> j2(ws.workspaceForVertex(2));
  M3 n0, n1;
  double h = 1e-6;
  for (int i = 0; i < 3; ++i) {
    V3 d = V3::Zero();
    d(i) = h;
    n0.col(i) = s * (resid(plus(a, d), b, z) - resid(plus(a, -d), b, z)) / (2 * h);
    n1.col(i) = s * (resid(a, plus(b, d), z) - resid(a, plus(b, -d), z)) / (2 * h);
  }
  double tol = 1e-5 * (1 + n0.cwiseAbs().maxCoeff() + r.norm());
  PBT_REQUIRE("jacobian-from", (j0 - n0).cwiseAbs().maxCoeff() <= tol, j0, " want ", n0);
  PBT_REQUIRE("jacobian-to", (j1 - n1).cwiseAbs().maxCoeff() <= tol, j1, " want ", n1);
  PBT_REQUIRE("jacobian-switch", (j2 - r).cwiseAbs().maxCoeff() <= tol, j2.transpose(), " want ", str(r));
}

PBT_TEST(prior, 40000, 1000000)
{
  Quiet q;
  double g = c.coin(50) ? 1 : c.real(0, 1), s = c.real(0, 1), w = c.logreal(0.01, 100);
  VertexSwitchLinear v;
  v.setId(0);
  v.setEstimate(s);
  EdgeSwitchPrior p;
  p.setVertex(0, &v);
  p.setMeasurement(g);
  p.setInformation(Eigen::Matrix<double, 1, 1>::Constant(w));
  p.computeError();
  c.note("prior ", g, " switch ", s, " weight ", w);
  c.nontrivial(g != s);
  PBT_REQUIRE("residual", std::fabs(p.error()[0] - (g - s)) <= 1e-12, p.error()[0]);
  PBT_REQUIRE("cost", std::fabs(p.chi2() - w * (g - s) * (g - s)) <= 1e-9 * w, p.chi2());
  g2o::JacobianWorkspace ws;
  ws.updateSize(&p);
  ws.allocate();
  static_cast<g2o::OptimizableGraph::Edge&>(p).linearizeOplus(ws);
  PBT_REQUIRE("jacobian", std::fabs(ws.workspaceForVertex(0)[0] + 1) < 1e-12, ws.workspaceForVertex(0)[0]);
}

// histories of updates, some of them taken back
PBT_TEST(switch_history, 60000, 1500000)
{
  Quiet q;
  // whatever the memory held before
  struct Place {
    void* mem;
    VertexSwitchLinear* v;
    explicit Place(int fill) : mem(::operator new(sizeof(VertexSwitchLinear), std::align_val_t(64)))
    {
      std::memset(mem, fill, sizeof(VertexSwitchLinear));
      v = ::new (mem) VertexSwitchLinear;
    }
    ~Place()
    {
      v->~VertexSwitchLinear();
      ::operator delete(mem, std::align_val_t(64));
    }
  } place(static_cast<int>(c.draw(256)));
  VertexSwitchLinear& v = *place.v;
  v.setId(0);
  PBT_REQUIRE("starts-open", v.estimate() == 0 && v.x() == 0, v.estimate());
  double m = 0;
  std::vector<double> stack;
  size_t k = static_cast<size_t>(c.range(1, 20)), popped = 0;
  for (size_t i = 0; i < k; ++i) {
    switch (c.weighted({6, 3, 3, 1, 1, 1})) {
      case 0: {
        double d = c.coin(80) ? c.real(-0.7, 0.7) : c.real(-50, 50);
        v.oplus(&d);
        m = std::min(1.0, std::max(0.0, m + d));
        c.note("update ", d);
        break;
      }
      case 1:
        v.push();
        stack.push_back(m);
        c.note("push");
        break;
      case 2:
        if (!stack.empty()) {
          v.pop();
          popped += m != stack.back();
          m = stack.back();
          stack.pop_back();
          c.note("pop");
        }
        break;
      case 3:
        m = c.real(0, 1);
        v.setEstimate(m);
        c.note("set ", m);
        break;
      case 4:
        v.setToOrigin();
        m = 0;
        c.note("origin");
        break;
      default:
        if (!stack.empty()) {
          v.discardTop();
          stack.pop_back();
          c.note("discard");
        }
    }
    PBT_REQUIRE("value", std::fabs(v.estimate() - m) <= 1e-9, v.estimate(), " want ", m);
    PBT_REQUIRE("one-value", v.x() == v.estimate(), v.x(), " vs ", v.estimate());
    PBT_REQUIRE("range", v.estimate() >= 0 && v.estimate() <= 1, v.estimate());
    EdgeSwitchPrior p;
    p.setVertex(0, &v);
    p.setMeasurement(1);
    p.setInformation(Eigen::Matrix<double, 1, 1>::Constant(1));
    p.computeError();
    PBT_REQUIRE("prior-sees-it", std::fabs(p.error()[0] - (1 - m)) <= 1e-9, p.error()[0]);
  }
  c.nontrivial(popped > 0);
}

// a loop of odometry with good and bad closures: bad ones are switched off,
// good ones stay, all switches stay in range, and the cost goes down
PBT_TEST(outliers_are_switched_off, 1500, 60000)
{
  Quiet q;
  typedef g2o::BlockSolver<g2o::BlockSolverTraits<-1, -1>> BS;
  typedef g2o::LinearSolverDense<BS::PoseMatrixType> LS;
  g2o::SparseOptimizer opt;
  opt.setAlgorithm(new g2o::OptimizationAlgorithmLevenberg(std::make_unique<BS>(std::make_unique<LS>())));
  size_t n = static_cast<size_t>(c.range(5, 9));
  std::vector<V3> truth;
  for (size_t i = 0; i < n; ++i) {
    truth.push_back(i ? comp(truth.back(), V3(1 + c.real(-0.3, 0.3), c.real(-0.3, 0.3), 2 * M_PI / static_cast<double>(n) + c.real(-0.1, 0.1))) : V3::Zero());
    auto* v = new g2o::VertexSE2;
    v->setId(static_cast<int>(i));
    v->setEstimate(se2(truth[i]));
    v->setFixed(i == 0);
    opt.addVertex(v);
  }
  M3 info = M3::Identity() * 100;
  for (size_t i = 0; i + 1 < n; ++i) {
    auto* e = new g2o::EdgeSE2;
    e->setVertex(0, opt.vertex(static_cast<int>(i)));
    e->setVertex(1, opt.vertex(static_cast<int>(i + 1)));
    e->setMeasurement(se2(comp(inv(truth[i]), truth[i + 1])));
    e->setInformation(info);
    opt.addEdge(e);
  }
  size_t k = static_cast<size_t>(c.range(1, 4));
  std::vector<bool> bad;
  std::vector<VertexSwitchLinear*> sw;
  for (size_t j = 0; j < k; ++j) {
    size_t a = c.draw(n - 2), b = a + 2 + c.draw(n - a - 2);
    bad.push_back(c.coin(50));
    V3 z = comp(inv(truth[a]), truth[b]);
    if (bad[j])
      z = comp(z, V3(c.coin(50) ? 4 : -4, c.real(-3, 3), c.real(-1, 1)));
    auto* s = new VertexSwitchLinear;
    s->setId(static_cast<int>(n + j));
    s->setEstimate(1);
    opt.addVertex(s);
    sw.push_back(s);
    auto* p = new EdgeSwitchPrior;
    p->setVertex(0, s);
    p->setMeasurement(1);
    p->setInformation(Eigen::Matrix<double, 1, 1>::Constant(1));
    opt.addEdge(p);
    auto* e = new EdgeSE2Switchable;
    e->setVertex(0, opt.vertex(static_cast<int>(a)));
    e->setVertex(1, opt.vertex(static_cast<int>(b)));
    e->setVertex(2, s);
    e->setMeasurement(se2(z));
    e->setInformation(info);
    opt.addEdge(e);
    c.note("closure ", a, " -> ", b, bad[j] ? " wrong " : " right ", str(z));
  }
  size_t nb = static_cast<size_t>(std::count(bad.begin(), bad.end(), true));
  c.nontrivial(nb > 0 && nb < k);
  opt.initializeOptimization();
  opt.computeActiveErrors();
  double before = opt.activeChi2();
  opt.optimize(60);
  opt.computeActiveErrors();
  double after = opt.activeChi2();
  PBT_REQUIRE("cost-goes-down", after <= before * (1 + 1e-6) + 1e-9, after, " was ", before);
  for (size_t j = 0; j < k; ++j)
    PBT_REQUIRE("range", sw[j]->estimate() >= 0 && sw[j]->estimate() <= 1, sw[j]->estimate());
  if (nb == 0) {
    for (size_t j = 0; j < k; ++j)
      PBT_REQUIRE("right-closures-stay", sw[j]->estimate() > 0.99, sw[j]->estimate());
    for (size_t i = 0; i < n; ++i) {
      V3 p = static_cast<g2o::VertexSE2*>(opt.vertex(static_cast<int>(i)))->estimate().toVector();
      PBT_REQUIRE("consistent-graph-unmoved", (p - truth[i]).head(2).norm() < 1e-5 && angDist(p(2), truth[i](2)) < 1e-5,
                  str(p), " was ", str(truth[i]));
    }
  }
  // switching every wrong closure off at the true poses costs one prior each:
  // an optimiser with true derivatives ends no higher than it started and, for
  // a single wrong closure, at most at that
  if (k == 1 && nb == 1)
    PBT_REQUIRE("wrong-closure-gives-way", after <= 1.5, "cost ", after, " switch ", sw[0]->estimate());
}
PBT_MAIN()
