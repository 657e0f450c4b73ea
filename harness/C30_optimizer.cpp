// C30: the pose graph optimiser
#include "pbt.h"
#include <iostream>
#include <ndt_gslam/slam_optimizer/slam2d.h>
using pbt::Case;
typedef Eigen::Vector3d V3;
typedef Eigen::Vector2d V2;
typedef Eigen::Matrix3d M3;
namespace
{
struct Mute {
  std::stringstream sink;
  std::streambuf* old;
  Mute() : old(std::cout.rdbuf(sink.rdbuf()))
  {
    std::cerr.setstate(std::ios::badbit);
  }
  ~Mute()
  {
    std::cout.rdbuf(old);
    std::cerr.clear();
  }
};
struct Shown {
  size_t times = 0;
  V3 last = V3::Zero();
};
struct Data {
  size_t id;
  std::shared_ptr<Shown> shown;
  double getRadius() const
  {
    return 5;
  }
  V2 getCentroid() const
  {
    return V2(0, 0);
  }
  void updatePosition(const V3& p)
  {
    ++shown->times;
    shown->last = p;
  }
};
V3 comp(const V3& a, const V3& b)
{
  double co = std::cos(a(2)), si = std::sin(a(2));
  return V3(a(0) + co * b(0) - si * b(1), a(1) + si * b(0) + co * b(1), pbt::wrapPi(a(2) + b(2)));
}
V3 inv(const V3& a)
{
  double co = std::cos(a(2)), si = std::sin(a(2));
  return V3(-co * a(0) - si * a(1), si * a(0) - co * a(1), pbt::wrapPi(-a(2)));
}
double apart(const V3& a, const V3& b)
{
  return (a - b).head<2>().norm() + pbt::angDist(a(2), b(2));
}
std::string str(const V3& p)
{
  return pbt::cat("(", p(0), " ", p(1), " ", p(2), ")");
}
V3 genPose(Case& c, double m)
{
  return V3(c.real(-m, m), c.real(-m, m), c.angle());
}
M3 genInfo(Case& c)
{
  M3 a;
  double s = c.logreal(1, 30);
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j)
      a(i, j) = s * c.real(-1, 1);
  return a * a.transpose() + M3::Identity() * s * s * c.logreal(0.05, 1);
}
struct Match : public slamuk::IScanmatcher2d<Data> {
  struct Answer {
    bool ok;
    V3 t;
  };
  std::map<std::pair<size_t, size_t>, Answer> answers;  // (candidate, place)
  std::vector<std::pair<size_t, size_t>> calls;
  float threshold = -1;
  slamuk::MatchResult match(const Data& s, const Data& t, const M3&) override
  {
    calls.push_back({s.id, t.id});
    auto it = answers.find({s.id, t.id});
    if (it == answers.end())
      return slamuk::MatchResult();
    slamuk::MatchResult r(it->second.ok, 0.5, eigt::getTransFromPose(it->second.t));
    r.inform_ = M3::Identity();
    return r;
  }
  void setScoreThreshold(float t) override
  {
    threshold = t;
  }
};
struct Slam : public slamuk::Slam2D<Data> {
  Match* matcher;
  static std::unique_ptr<slamuk::IScanmatcher2d<Data>> make(Match*& m)
  {
    m = new Match();
    return std::unique_ptr<slamuk::IScanmatcher2d<Data>>(m);
  }
  explicit Slam(Match* m = nullptr) : slamuk::Slam2D<Data>(make(m)), matcher(m)
  {
  }
};
struct Con {
  size_t from, to;
  V3 z;
  bool loop;
};
V3 error(const V3& a, const V3& b, const V3& z)
{
  return comp(inv(z), comp(inv(a), b));
}
double cost(const std::vector<V3>& x, const std::vector<Con>& cs, const std::vector<M3>& inf)
{
  double s = 0;
  for (size_t i = 0; i < cs.size(); ++i) {
    V3 e = error(x[cs[i].from], x[cs[i].to], cs[i].z);
    s += e.dot(inf[i] * e);
  }
  return s;
}
std::vector<V3> poses(const Slam& s, size_t n)
{
  std::vector<V3> x;
  for (size_t i = 0; i < n; ++i) {
    x.push_back(s.getPoseLocation(i));
    PBT_REQUIRE("finite", x.back().allFinite(), "pose ", i, " is ", str(x.back()));
  }
  return x;
}
// a drive with some places seen again, all constraints bent by some noise
struct Problem {
  std::vector<V3> truth, start;
  std::vector<Con> cons;  // in order of time
};
Problem genProblem(Case& c, double noise, bool drive)
{
  Problem p;
  size_t n = static_cast<size_t>(c.range(2, c.thorough ? 60 : 20));
  double step = c.real(0.3, 2), turn = c.real(0, 1.2);
  p.truth.push_back(genPose(c, 20));
  auto bent = [&](const V3& z) {
    return V3(z(0) + noise * c.real(-1, 1), z(1) + noise * c.real(-1, 1), pbt::wrapPi(z(2) + 0.4 * noise * c.real(-1, 1)));
  };
  for (size_t i = 1; i < n; ++i)
    p.truth.push_back(comp(p.truth.back(), V3(c.real(0, step), c.real(-step, step) / 2, c.real(-turn, turn))));
  for (size_t i = 0; i < n; ++i)
    if (i == 0)
      p.start.push_back(p.truth[0]);
    else if (drive)
      p.start.push_back(genPose(c, 20));  // the drive tells, not the first estimate
    else
      p.start.push_back(bent(p.truth[i]));
  auto link = [&](size_t a, size_t b, bool loop) { p.cons.push_back({a, b, bent(comp(inv(p.truth[a]), p.truth[b])), loop}); };
  for (size_t i = 1; i < n; ++i) {
    if (drive || c.coin(50))
      link(i - 1, i, false);
    else
      link(static_cast<size_t>(c.draw(i)), i, false);
    if (i >= 2 && c.coin(30))
      link(i, static_cast<size_t>(c.draw(i - 1)), true);  // from the newest to an old one
  }
  return p;
}
void fill(Slam& s, const Problem& p, const V3& by, const std::vector<size_t>& order)
{
  for (size_t i = 0; i < p.start.size(); ++i) {
    Data d{i, std::make_shared<Shown>()};
    s.addPose(comp(by, p.start[i]), d);
  }
  for (size_t k : order)
    s.addConstrain(p.cons[k].from, p.cons[k].to, p.cons[k].z, M3::Identity());
}
std::vector<size_t> upTo(size_t n)
{
  std::vector<size_t> o(n);
  for (size_t i = 0; i < n; ++i)
    o[i] = i;
  return o;
}
size_t loopsOf(const Problem& p)
{
  size_t k = 0;
  for (auto& x : p.cons)
    k += x.loop;
  return k;
}
}

// every node and constraint is kept as it was entered, whatever else happens
PBT_TEST(book, 3000, 40000)
{
  Mute mute;
  Slam s;
  std::vector<V3> at;
  std::vector<std::shared_ptr<Shown>> shown;
  std::vector<Con> cons;
  size_t n = static_cast<size_t>(c.range(1, 25));
  for (size_t i = 0; i < n; ++i) {
    switch (at.size() < 2 ? 0 : c.weighted({5, 3, 4, 1, 2, 1})) {
      case 0: {
        V3 p = genPose(c, 20);
        Data d{at.size(), std::make_shared<Shown>()};
        size_t id = s.addPose(p, d);
        PBT_REQUIRE("pose-id", id == at.size(), id, " want ", at.size());
        at.push_back(p);
        shown.push_back(d.shown);
        break;
      }
      case 1: {
        V3 z = genPose(c, 3);
        size_t id = s.addLastConstrain(z, genInfo(c));
        PBT_REQUIRE("constraint-id", id == cons.size(), id);
        cons.push_back({at.size() - 2, at.size() - 1, z, false});
        break;
      }
      case 2: {
        size_t a = static_cast<size_t>(c.draw(at.size())), b = static_cast<size_t>(c.draw(at.size() - 1));
        b += b >= a;
        V3 z = genPose(c, 3);
        size_t id = s.addConstrain(a, b, z, genInfo(c));
        PBT_REQUIRE("constraint-id", id == cons.size(), id);
        cons.push_back({a, b, z, false});
        break;
      }
      case 3: {
        // only graphs hanging together can be solved
        std::vector<size_t> part = upTo(at.size());
        for (size_t k = 0; k < at.size(); ++k)
          for (auto& x : cons) {
            size_t m = std::min(part[x.from], part[x.to]);
            part[x.from] = part[x.to] = m;
          }
        bool whole = true;
        for (size_t k : part)
          whole = whole && k == 0;
        if (!whole)
          break;
        s.optimalize();
        PBT_REQUIRE("first-fixed", apart(s.getPoseLocation(0), at[0]) < 1e-9, str(s.getPoseLocation(0)), " was ", str(at[0]));
        for (size_t k = 0; k < at.size(); ++k) {
          at[k] = s.getPoseLocation(k);
          PBT_REQUIRE("data-told", shown[k]->times > 0, "data of node ", k, " told ", shown[k]->times, " times");
          PBT_REQUIRE("data-place", shown[k]->last == at[k], str(shown[k]->last), " want ", str(at[k]));
        }
        for (size_t k = 0; k < at.size(); ++k)
          if (!at[k].allFinite())
            throw pbt::Discard();  // wild constraints need not be solvable
        break;
      }
      case 4: {
        size_t bad = at.size() + static_cast<size_t>(c.draw(3)), badc = cons.size() + static_cast<size_t>(c.draw(3));
        int thrown = 0;
        auto tries = [&](std::function<void()> f) {
          try {
            f();
          } catch (const std::out_of_range&) {
            ++thrown;
          }
        };
        tries([&] { s.getPoseLocation(bad); });
        tries([&] { s.getPoseData(bad); });
        tries([&] { s.getConstrainTransform(badc); });
        tries([&] { s.getConstrainInformMat(badc); });
        tries([&] { s.getConstrainPoses(badc); });
        tries([&] { s.addConstrain(bad, 0, V3::Zero(), M3::Identity()); });
        tries([&] { s.addConstrain(0, bad, V3::Zero(), M3::Identity()); });
        tries([&] { s.tryLoopClose(bad); });
        PBT_REQUIRE("unknown-refused", thrown == 8, thrown, " of 8 refused");
        break;
      }
      default: {
        float f = static_cast<float>(c.real(0, 1));
        s.setLoopRegistrationScore(f);
        PBT_REQUIRE("score-passed", s.matcher->threshold == f, "");
      }
    }
    for (size_t k = 0; k < at.size(); ++k) {
      PBT_REQUIRE("pose", s.getPoseLocation(k) == at[k], "node ", k, " is ", str(s.getPoseLocation(k)), " want ", str(at[k]));
      PBT_REQUIRE("data", s.getPoseData(k).id == k && s.getPoseData(k).shown == shown[k], "");
    }
    for (size_t k = 0; k < cons.size(); ++k) {
      auto ends = s.getConstrainPoses(k);
      PBT_REQUIRE("ends", ends.first == cons[k].from && ends.second == cons[k].to, ends.first, " ", ends.second);
      PBT_REQUIRE("transform", s.getConstrainTransform(k) == cons[k].z, str(s.getConstrainTransform(k)));
    }
  }
  // drawn: one arrow for every constraint
  auto m = s.getGraphSerialized("the_frame").markers;
  PBT_REQUIRE("arrows", m.size() == cons.size(), m.size(), " want ", cons.size());
  std::set<int> ids;
  for (size_t k = 0; k < m.size(); ++k) {
    PBT_REQUIRE("arrow-kind", m[k].type == visualization_msgs::Marker::ARROW && m[k].action == visualization_msgs::Marker::ADD && m[k].points.size() == 2 && m[k].color.a > 0 && m[k].scale.x > 0, "");
    PBT_REQUIRE("arrow-frame", m[k].header.frame_id == "the_frame", m[k].header.frame_id);
    PBT_REQUIRE("arrow-id", ids.insert(m[k].id).second && m[k].ns == m[0].ns, m[k].id, " twice");
    const V3 &a = at[cons[k].from], &b = at[cons[k].to];
    PBT_REQUIRE("arrow-ends",
                m[k].points[0].x == a(0) && m[k].points[0].y == a(1) && m[k].points[1].x == b(0) && m[k].points[1].y == b(1) && m[k].points[0].z == 0 && m[k].points[1].z == 0, "arrow ", k);
  }
  std::stringstream dot;
  dot.precision(17);
  s.getGraphSerialized(dot);
  std::string line;
  size_t nodes = 0, edges = 0;
  while (std::getline(dot, line)) {
    size_t a = 0, b = 0;
    double x = 0, y = 0;
    if (std::sscanf(line.c_str(), "p%zu->p%zu", &a, &b) == 2) {
      PBT_REQUIRE("dot-edge", edges < cons.size() && cons[edges].from == a && cons[edges].to == b, line);
      ++edges;
    } else {
      PBT_REQUIRE("dot-line", std::sscanf(line.c_str(), "p%zu[ pose = \"%lf,%lf!\"]", &a, &x, &y) == 3, line);
      PBT_REQUIRE("dot-node", a == nodes && a < at.size() && std::fabs(x - at[a](0)) < 1e-12 && std::fabs(y - at[a](1)) < 1e-12, line);
      ++nodes;
    }
  }
  PBT_REQUIRE("dot-all", nodes == at.size() && edges == cons.size(), nodes, " ", edges);
  c.nontrivial(cons.size() >= 3);
}

// constraints that agree are met exactly
PBT_TEST(consistent, 2000, 20000)
{
  Mute mute;
  bool drive = c.coin(70);
  Problem p = genProblem(c, 0, drive);
  if (!drive)
    for (size_t i = 1; i < p.start.size(); ++i)
      for (int k = 0; k < 3; ++k)
        p.start[i](k) += 0.1 * c.real(-1, 1);
  Slam s;
  fill(s, p, V3::Zero(), upTo(p.cons.size()));
  s.optimalize();
  auto x = poses(s, p.start.size());
  PBT_REQUIRE("first-fixed", apart(x[0], p.start[0]) < 1e-9, str(x[0]), " was ", str(p.start[0]));
  double worst = 0;
  for (size_t i = 0; i < x.size(); ++i)
    worst = std::max(worst, apart(x[i], p.truth[i]));
  c.note("places ", x.size(), " loops ", loopsOf(p), drive ? " drive" : " tree", " off by ", worst);
  PBT_REQUIRE("exact", worst < 1e-5, "off by ", worst);
  PBT_REQUIRE("no-error", s.calcTotalGraphError() < 1e-6, s.calcTotalGraphError());
  c.nontrivial(loopsOf(p) >= 1 && x.size() >= 4);
}

// what disagrees is balanced: no small change of any pose fits better, and
// the result fits at least as well as the truth
PBT_TEST(balanced, 2000, 20000)
{
  Mute mute;
  Problem p = genProblem(c, c.logreal(1e-3, 0.15), c.coin(70));
  Slam s;
  fill(s, p, V3::Zero(), upTo(p.cons.size()));
  std::vector<M3> inf;
  for (size_t i = 0; i < p.cons.size(); ++i)
    inf.push_back(s.getConstrainInformMat(i));
  PBT_REQUIRE("error-before", std::fabs(s.calcTotalGraphError() - cost(p.start, p.cons, inf)) <= 1e-9 * (1 + s.calcTotalGraphError()), s.calcTotalGraphError(), " want ",
              cost(p.start, p.cons, inf));
  s.optimalize();
  auto x = poses(s, p.start.size());
  double got = cost(x, p.cons, inf), truth = cost(p.truth, p.cons, inf);
  c.note("places ", x.size(), " loops ", loopsOf(p), " cost ", got, " of the truth ", truth);
  PBT_REQUIRE("first-fixed", apart(x[0], p.start[0]) < 1e-9, str(x[0]));
  PBT_REQUIRE("error-after", std::fabs(s.calcTotalGraphError() - got) <= 1e-9 * (1 + got), s.calcTotalGraphError(), " want ", got);
  PBT_REQUIRE("better-than-truth", got <= truth * (1 + 1e-4) + 1e-9, got, " truth ", truth);
  for (size_t i = 1; i < x.size(); ++i)
    for (int k = 0; k < 3; ++k) {
      const double h = 1e-4;
      auto y = x;
      y[i](k) += h;
      double up = cost(y, p.cons, inf);
      y[i](k) -= 2 * h;
      double down = cost(y, p.cons, inf);
      double g = (up - down) / (2 * h), hh = (up - 2 * got + down) / (h * h);
      PBT_REQUIRE("curvature", hh > 0, "pose ", i, " coordinate ", k);
      PBT_REQUIRE("stationary", g * g / (2 * hh) <= 1e-3 * got + 1e-7, "pose ", i, " coordinate ", k, " could gain ", g * g / (2 * hh), " of ", got);
    }
  c.nontrivial(loopsOf(p) >= 1 && got > 1e-3);
}

// the result depends on places and constraints only
PBT_TEST(same_result, 1500, 15000)
{
  Mute mute;
  Problem p = genProblem(c, c.logreal(1e-3, 0.1), true);
  std::vector<size_t> order = upTo(p.cons.size());
  Slam s;
  fill(s, p, V3::Zero(), order);
  s.optimalize();
  auto x = poses(s, p.start.size());
  V3 by = V3::Zero();
  Slam t;
  int how = static_cast<int>(c.draw(4));
  c.note("way ", how, " places ", x.size(), " loops ", loopsOf(p));
  switch (how) {
    case 0:  // constraints in another order
      for (size_t i = order.size(); i > 1; --i)
        std::swap(order[i - 1], order[c.draw(i)]);
      fill(t, p, by, order);
      break;
    case 1:  // elsewhere in the world
      by = genPose(c, 30);
      fill(t, p, by, order);
      break;
    case 2:  // as it grew
      {
        size_t k = 0;
        for (size_t i = 0; i < p.start.size(); ++i) {
          Data d{i, std::make_shared<Shown>()};
          t.addPose(p.start[i], d);
          while (k < p.cons.size() && std::max(p.cons[k].from, p.cons[k].to) <= i) {
            t.addConstrain(p.cons[k].from, p.cons[k].to, p.cons[k].z, M3::Identity());
            ++k;
          }
          if (i > 0 && c.coin(40))
            t.optimalizeIterationaly();
        }
      }
      break;
    default:  // asked twice
      fill(t, p, by, order);
      t.optimalize();
  }
  t.optimalize();
  auto y = poses(t, x.size());
  double worst = 0;
  for (size_t i = 0; i < x.size(); ++i)
    worst = std::max(worst, apart(comp(by, x[i]), y[i]));
  PBT_REQUIRE("same", worst < 1e-6, "way ", how, " differs by ", worst);
  c.nontrivial(loopsOf(p) >= 1);
}

// places recognised again become constraints, and correct the drift
PBT_TEST(loop_closing, 1500, 15000)
{
  Mute mute;
  Problem p = genProblem(c, 0.05, true);
  size_t n = p.start.size();
  Slam s;
  double mn = static_cast<float>(c.logreal(0.1, 10)), mx = static_cast<float>(c.logreal(1, 40));
  s.setLoopGenerationMinDist(static_cast<float>(mn));
  s.setLoopGenerationMaxDist(static_cast<float>(mx));
  std::vector<Con> cons;
  std::vector<V3> at;
  size_t found = 0, tries = 0;
  int yes = static_cast<int>(c.range(0, 60));
  for (size_t i = 0; i < n; ++i) {
    Data d{i, std::make_shared<Shown>()};
    V3 where = i == 0 ? p.truth[0] : comp(at.back(), p.cons[0].z);
    const Con* odo = nullptr;
    for (auto& x : p.cons)
      if (!x.loop && x.to == i)
        odo = &x;
    if (odo)
      where = comp(at.back(), odo->z);
    s.addPose(where, d);
    at.push_back(where);
    if (odo) {
      s.addLastConstrain(odo->z, M3::Identity());
      cons.push_back(*odo);
    }
    if (i < 2 || !c.coin(40))
      continue;
    for (size_t k = 0; k < i; ++k)
      s.matcher->answers[{k, i}] = {c.coin(yes), comp(inv(p.truth[i]), p.truth[k])};
    s.matcher->calls.clear();
    ++tries;
    bool got = c.coin(50) ? s.tryLoopClose() : s.tryLoopClose(i);
    size_t ok = 0;
    for (auto& x : s.matcher->calls) {
      double d2 = (at[x.first] - at[i]).head<2>().norm();
      PBT_REQUIRE("loop-window", x.second == i && d2 < mx + 1e-9, "tried ", x.first, " ", d2, " away");
      if (!s.matcher->answers[x].ok)
        continue;
      ++ok;
      cons.push_back({i, x.first, s.matcher->answers[x].t, true});
    }
    PBT_REQUIRE("loop-told", got == (ok > 0), got, " with ", ok);
    found += ok;
    auto m = s.getGraphSerialized("w").markers;
    PBT_REQUIRE("loop-added", m.size() == cons.size(), m.size(), " want ", cons.size());
    for (size_t k = 0; k < m.size(); ++k) {
      auto ends = s.getConstrainPoses(k);
      PBT_REQUIRE("loop-ends", ends.first == cons[k].from && ends.second == cons[k].to, ends.first, " ", ends.second);
      V3 z = s.getConstrainTransform(k);
      PBT_REQUIRE("loop-transform", apart(z, cons[k].z) < 1e-9, str(z), " want ", str(cons[k].z));
      PBT_REQUIRE("loop-colour", m[k].color.b == 0 && m[k].color.r == (cons[k].loop ? 0 : 1) && m[k].color.g == (cons[k].loop ? 1 : 0), "constraint ", k);
    }
    if (got) {
      PBT_REQUIRE("changed", s.optimalizeIterationaly(), "");
      std::vector<M3> inf;
      for (size_t k = 0; k < cons.size(); ++k)
        inf.push_back(s.getConstrainInformMat(k));
      at = poses(s, at.size());
      double have = cost(at, cons, inf), truth = cost(p.truth, cons, inf);
      PBT_REQUIRE("drift", have <= truth * (1 + 1e-4) + 1e-9, have, " truth ", truth);
    }
  }
  c.nontrivial(found >= 2 && tries >= 2);
}

// the limit on iterations holds: without any, only the drive is laid out
PBT_TEST(iterations, 1000, 10000)
{
  Mute mute;
  Problem p = genProblem(c, 0.05, true);
  Slam s, t;
  size_t k = c.coin(40) ? 0 : static_cast<size_t>(c.range(30, 60));
  s.setMaxIterations(k);
  fill(s, p, V3::Zero(), upTo(p.cons.size()));
  fill(t, p, V3::Zero(), upTo(p.cons.size()));
  s.optimalize();
  t.optimalize();
  auto x = poses(s, p.start.size()), y = poses(t, p.start.size());
  // more iterations than usual end at the same place
  std::vector<M3> inf;
  for (size_t i = 0; i < p.cons.size(); ++i)
    inf.push_back(s.getConstrainInformMat(i));
  double a = cost(x, p.cons, inf), b = cost(y, p.cons, inf);
  if (k > 0)
    PBT_REQUIRE("more", a <= b * (1 + 1e-6) + 1e-9, a, " with ", k, " iterations, ", b, " with the default");
  std::set<std::pair<size_t, size_t>> seen;
  for (auto& z : p.cons)
    if (z.from + 1 == z.to || z.to + 1 == z.from)
      if (!seen.insert({std::min(z.from, z.to), std::max(z.from, z.to)}).second)
        return;
  if (k == 0) {
    V3 at = p.start[0];
    for (auto& z : p.cons)
      if (z.from + 1 == z.to) {
        at = comp(at, z.z);
        PBT_REQUIRE("none", apart(x[z.to], at) < 1e-9, "place ", z.to, " is ", str(x[z.to]), " want ", str(at));
      }
  }
  c.nontrivial(loopsOf(p) >= 1);
}

// constraints weigh by the information given with them: one fixed case
PBT_KNOWN(information)
{
  Mute mute;
  Slam s;
  for (size_t i = 0; i < 2; ++i) {
    Data d{i, std::make_shared<Shown>()};
    s.addPose(V3::Zero(), d);
  }
  M3 inf = V3(100, 200, 300).asDiagonal();
  size_t id = s.addConstrain(0, 1, V3(1, 2, 0.5), inf);
  PBT_REQUIRE("information", (s.getConstrainInformMat(id) - inf).norm() <= 1e-9 * inf.norm(), s.getConstrainInformMat(id), " want ", inf);
  c.nontrivial();
}
PBT_MAIN()
