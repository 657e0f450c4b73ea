// C29: search for loop closures in a pose graph
#include "pbt.h"
#include <iostream>
#include <ndt_gslam/slam_optimizer/loop_detector.h>
#include <ndt_gslam/slam_optimizer/slam2d_policy.h>
using pbt::Case;
typedef Eigen::Vector3d V3;
typedef Eigen::Vector2d V2;
typedef Eigen::Matrix3d M3;
namespace
{
struct Mute {
  std::stringstream sink;
  std::streambuf* old;
  Mute() : old(std::cout.rdbuf(sink.rdbuf()))
  {
  }
  ~Mute()
  {
    std::cout.rdbuf(old);
  }
};
struct Data {
  size_t id;
  double radius;
  V2 centroid;
  double getRadius() const
  {
    return radius;
  }
  V2 getCentroid() const
  {
    return centroid;
  }
};
typedef slamuk::Graph<Slam2d_Policy, Data> G;
typedef slamuk::internal::EdgeCov EC;
typedef slamuk::LoopClosure<Slam2d_Policy> Loop;

V3 comp(const V3& a, const V3& b)
{
  double co = std::cos(a(2)), si = std::sin(a(2));
  return V3(a(0) + co * b(0) - si * b(1), a(1) + si * b(0) + co * b(1), pbt::wrapPi(a(2) + b(2)));
}
V3 inv(const V3& a)
{
  double co = std::cos(a(2)), si = std::sin(a(2));
  return V3(-co * a(0) - si * a(1), si * a(0) - co * a(1), pbt::wrapPi(-a(2)));
}
M3 genInfo(Case& c)
{
  M3 a;
  double s = c.logreal(0.1, 30);
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j)
      a(i, j) = s * c.real(-1, 1);
  return a * a.transpose() + M3::Identity() * s * s * c.logreal(0.05, 1);
}
V3 genTrans(Case& c, double m)
{
  return V3(c.real(-m, m), c.real(-m, m), c.angle());
}
// what a match says is fixed by the pair, so that a repeated search sees the same
struct Answer {
  bool ok;
  V3 t;
  M3 inf;
};
struct Match : public slamuk::IScanmatcher2d<Data> {
  struct Call {
    size_t source, target;
    M3 guess;
  };
  std::map<std::pair<size_t, size_t>, Answer>* answers;
  std::vector<Call> calls;
  slamuk::MatchResult match(const Data& s, const Data& t, const M3& guess) override
  {
    calls.push_back({s.id, t.id, guess});
    const Answer& a = answers->at({s.id, t.id});
    slamuk::MatchResult r(a.ok, 0.5, eigt::getTransFromPose(a.t));
    r.inform_ = a.inf;
    return r;
  }
  void setScoreThreshold(float) override
  {
  }
};
struct Det : public slamuk::LoopDetector<Slam2d_Policy, Data> {
  using slamuk::LoopDetector<Slam2d_Policy, Data>::LoopDetector;
  size_t depth() const
  {
    return max_search_depth_;
  }
};
struct ME {
  size_t from, to;
  V3 z;
  M3 inf;
};
struct World {
  G g;
  std::vector<V3> poses;
  std::map<size_t, ME> edges;  // by id
  std::map<std::pair<size_t, size_t>, Answer> answers;
  void link(Case& c, size_t a, size_t b, double far)
  {
    ME e{a, b, genTrans(c, far), genInfo(c)};
    size_t id = g.addEdge(G::E(&g.getNode(a), &g.getNode(b), e.z, e.inf));
    edges[id] = e;
  }
};
struct Item {
  size_t node;
  V3 t;
  M3 cov;
  double det, dist;
};
// first-order propagation of uncertainty along a chain of constraints
Item extend(const Item& a, const ME& e)
{
  Item r;
  V3 back = inv(e.z);
  double co = std::cos(a.t(2)), si = std::sin(a.t(2));
  M3 j1, j2;
  j1 << 1, 0, -si * back(0) - co * back(1), 0, 1, co * back(0) - si * back(1), 0, 0, 1;
  j2 << co, -si, 0, si, co, 0, 0, 0, 1;
  r.node = e.from;
  r.t = comp(a.t, back);
  r.cov = j1 * a.cov * j1.transpose() + j2 * e.inf.inverse() * j2.transpose();
  r.det = r.cov.determinant();
  r.dist = a.dist + back.head<2>().norm();
  return r;
}
struct Reached {
  size_t node;
  double dist;
};
// places in the order a search along the least uncertain chains reaches them
std::vector<Reached> reference(const World& w, size_t start)
{
  std::vector<Reached> out;
  std::set<size_t> done{start};
  std::vector<Item> open;
  auto expand = [&](const Item& at) {
    for (auto& e : w.edges)
      if (e.second.to == at.node && !done.count(e.second.from))
        open.push_back(extend(at, e.second));
  };
  expand({start, V3::Zero(), M3::Zero(), 0, 0});
  while (!open.empty()) {
    size_t best = 0;
    for (size_t i = 1; i < open.size(); ++i)
      if (open[i].det < open[best].det)
        best = i;
    for (size_t i = 0; i < open.size(); ++i)
      if (i != best && open[i].det < open[best].det * (1 + 1e-7))
        throw pbt::Discard();
    Item it = open[best];
    open.erase(open.begin() + static_cast<long>(best));
    if (!done.insert(it.node).second)
      continue;
    out.push_back({it.node, it.dist});
    expand(it);
  }
  return out;
}
void build(Case& c, World& w)
{
  size_t kind = c.weighted({3, 3, 2, 2});
  size_t n = static_cast<size_t>(c.range(1, c.thorough ? 120 : c.coin(20) ? 75 : 25));
  double step = c.real(0.5, 4);
  V3 at = genTrans(c, 3);
  for (size_t i = 0; i < n; ++i) {
    w.poses.push_back(at);
    Data d{i, c.real(0.1, 20), V2(c.real(-5, 5), c.real(-5, 5))};
    w.g.addNode(G::N(at, d));
    at = c.coin(90) ? comp(at, V3(c.real(0, step), c.real(-step, step) / 3, c.real(-0.5, 0.5))) : genTrans(c, 15);
  }
  auto any = [&]() { return static_cast<size_t>(c.draw(n)); };
  for (size_t i = 1; i < n; ++i) {
    if (kind == 0 || kind == 1)
      w.link(c, i - 1, i, step);  // a drive
    else if (kind == 2)
      w.link(c, static_cast<size_t>(c.draw(i)), i, step);  // branches
    else if (c.coin(70))
      w.link(c, any(), any(), step);  // anything, also unreachable or back to itself
  }
  if (kind == 1) {
    size_t k = static_cast<size_t>(c.range(0, 8));
    for (size_t i = 0; i < k; ++i)
      w.link(c, any(), any(), step);  // loops closed before
  }
  // constraints come and go
  size_t gone = c.coin(25) ? static_cast<size_t>(c.range(1, 3)) : 0;
  for (size_t i = 0; i < gone && !w.edges.empty(); ++i) {
    auto it = w.edges.begin();
    std::advance(it, static_cast<long>(c.draw(w.edges.size())));
    w.g.removeEdge(it->first);
    w.edges.erase(it);
  }
  c.note("nodes ", n, " kind ", kind, " constraints ", w.edges.size());
}
void checkLoop(const Loop& l, size_t start, size_t node, const Answer& a)
{
  PBT_REQUIRE("loop-ends", l.vertices_.first == start && l.vertices_.second == node, l.vertices_.first, " -> ", l.vertices_.second, " want ", start, " -> ",
              node);
  PBT_REQUIRE("loop-information", l.information_ == a.inf, "");
  PBT_REQUIRE("loop-transform", l.t_.matrix() == eigt::getTransFromPose(a.t).matrix(), l.t_.matrix());
}
}

// exactly the places near enough, far enough along the least uncertain chain, are tried
PBT_TEST(search, 4000, 60000)
{
  Mute mute;
  World w;
  build(c, w);
  size_t n = w.poses.size();
  Match m;
  m.answers = &w.answers;
  int yes = static_cast<int>(c.range(0, 100));
  Det det(&w.g, &m);
  double mn = 20, mx = 15;
  if (c.coin(85)) {
    mn = static_cast<float>(c.logreal(0.05, 40));
    det.setMinLoopDistance(static_cast<float>(mn));
  }
  if (c.coin(85)) {
    mx = static_cast<float>(c.logreal(0.5, 60));
    det.setMaxLoopDistance(static_cast<float>(mx));
  }
  size_t rounds = static_cast<size_t>(c.range(1, 3)), tried = 0, left = 0, loops = 0;
  size_t start = 0;
  for (size_t r = 0; r < rounds; ++r) {
    if (r == 0 || c.coin(50))
      start = c.coin(60) ? n - 1 : static_cast<size_t>(c.draw(n));
    for (size_t i = 0; i < n; ++i)
      if (!w.answers.count({i, start}))
        w.answers[{i, start}] = Answer{c.coin(yes), genTrans(c, 4), genInfo(c)};
    auto all = reference(w, start);
    std::vector<size_t> want;
    for (auto& x : all) {
      double d = (w.poses[x.node] - w.poses[start]).head<2>().norm();
      c.assume(std::fabs(d - mx) > 1e-9 && std::fabs(x.dist - mn) > 1e-9);
      if (d < mx && x.dist >= mn)
        want.push_back(x.node);
      else
        ++left;
    }
    bool many = want.size() > det.depth();
    if (many)
      want.resize(det.depth());
    c.note("from ", start, " window ", mn, " ", mx, " candidates ", want.size(), many ? " (limited)" : "");
    m.calls.clear();
    std::vector<Loop> got = det.genLoopClosures(start);
    std::set<size_t> a, b(want.begin(), want.end());
    for (auto& x : m.calls) {
      PBT_REQUIRE("match-roles", x.target == start, "matched against ", x.target, " not ", start);
      PBT_REQUIRE("tried-once", a.insert(x.source).second, "node ", x.source, " tried twice");
      PBT_REQUIRE("tried-wrong", b.count(x.source), "node ", x.source, " tried");
      double turn = pbt::wrapPi(w.poses[x.source](2) - w.poses[start](2));
      M3 guess;
      guess << std::cos(turn), -std::sin(turn), 0, std::sin(turn), std::cos(turn), 0, 0, 0, 1;
      PBT_REQUIRE("guess", (guess - x.guess).norm() < 1e-9, x.guess, " want ", guess);
    }
    for (size_t x : want)
      PBT_REQUIRE("not-tried", a.count(x), "node ", x, " not tried");
    size_t k = 0;
    for (auto& x : m.calls) {
      const Answer& ans = w.answers[{x.source, start}];
      if (!ans.ok)
        continue;
      PBT_REQUIRE("loop-missing", k < got.size(), "accepted match of ", x.source, " is not reported");
      checkLoop(got[k++], start, x.source, ans);
    }
    PBT_REQUIRE("loop-unfounded", k == got.size(), got.size(), " loops, ", k, " accepted");
    tried += want.size();
    loops += got.size();
    // nothing is left marked
    for (auto it = w.g.beginNode(); it != w.g.endNode(); ++it) {
      PBT_REQUIRE("marks", !it->isVisited(), "node ", it->getId(), " stays visited");
      PBT_REQUIRE("pose-kept", it->getPose() == w.poses[it->getId()], "");
    }
    for (auto it = w.g.beginEdge(); it != w.g.endEdge(); ++it)
      PBT_REQUIRE("marks", !it->isUsed(), "edge ", it->getId(), " stays used");
    PBT_REQUIRE("graph-kept", w.g.edgeCount() == w.edges.size(), "");
    // closures found may be put in, and taken out, before the next search
    if (c.coin(50) && !got.empty()) {
      std::vector<size_t> ids = det.addToGraph(got);
      PBT_REQUIRE("added", ids.size() == got.size() && w.g.edgeCount() == w.edges.size() + got.size(), ids.size());
      for (size_t i = 0; i < ids.size(); ++i) {
        const G::E& e = w.g.getEdge(ids[i]);
        PBT_REQUIRE("added-ends", e.getFrom()->getId() == got[i].vertices_.first && e.getTo()->getId() == got[i].vertices_.second, "");
        V3 z = w.answers[{got[i].vertices_.second, start}].t;
        PBT_REQUIRE("added-transform", (e.getTransform() - z).head<2>().norm() < 1e-9 && pbt::angDist(e.getTransform()(2), z(2)) < 1e-9,
                    e.getTransform().transpose());
        PBT_REQUIRE("added-information", e.getInformationMatrix() == got[i].information_, "");
        PBT_REQUIRE("added-kind", e.getType() == G::E::LOOP && e.getState() == G::E::TEMP, "");
        PBT_REQUIRE("added-new", !w.edges.count(ids[i]), "id ", ids[i], " was taken");
      }
      if (c.coin(50)) {
        det.removeFromGraph(ids);
        PBT_REQUIRE("removed", w.g.edgeCount() == w.edges.size(), "");
      } else {
        for (size_t i = 0; i < ids.size(); ++i)
          w.edges[ids[i]] = ME{start, got[i].vertices_.second, w.g.getEdge(ids[i]).getTransform(), got[i].information_};
      }
    }
  }
  c.nontrivial(tried >= 2 && left >= 1 && loops >= 1);
  if (tried >= det.depth())
    c.label("limited");
}

// chaining constraints composes the motion and its uncertainty
PBT_TEST(chain, 20000, 400000)
{
  size_t n = static_cast<size_t>(c.range(1, 6)), start = static_cast<size_t>(c.draw(100));
  EC at(start);
  Item ref{start, V3::Zero(), M3::Zero(), 0, 0};
  PBT_REQUIRE("start", at.start_id_ == start && at.hop_ == 0 && at.cov_ == M3::Zero() && at.distance_ == 0, "");
  for (size_t i = 0; i < n; ++i) {
    ME e{static_cast<size_t>(c.draw(100)), 0, genTrans(c, 5), genInfo(c)};
    EC s;
    s.node_id_ = e.from;
    s.cov_ = e.inf.inverse();
    s.t_ = eigt::getTransFromPose(e.z).inverse();
    s.distance_ = e.z.head<2>().norm();
    EC next = at + s;
    ref = extend(ref, e);
    PBT_REQUIRE("node", next.node_id_ == e.from && next.start_id_ == start && next.hop_ == i + 1, next.node_id_, " ", next.start_id_, " ", next.hop_);
    V3 t = eigt::getPoseFromTransform(next.t_);
    PBT_REQUIRE("motion", (t - ref.t).head<2>().norm() < 1e-9 && pbt::angDist(t(2), ref.t(2)) < 1e-9, t.transpose(), " want ", ref.t.transpose());
    PBT_REQUIRE("uncertainty", (next.cov_ - ref.cov).norm() <= 1e-9 * ref.cov.norm(), next.cov_, " want ", ref.cov);
    PBT_REQUIRE("length", std::fabs(next.distance_ - ref.dist) < 1e-9, next.distance_, " want ", ref.dist);
    if (i > 0) {
      double before = at.cov_.determinant(), after = next.cov_.determinant();
      if (after > before * (1 + 1e-6))
        PBT_REQUIRE("order", at < next && !(next < at), before, " ", after);
    }
    at = next;
  }
  c.nontrivial(n >= 2);
}
PBT_MAIN()
