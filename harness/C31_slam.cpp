// C31: the SLAM algorithm, as the node drives it
#include "slam_common.h"
#include <map>
#include <memory>
typedef slamuk::NdtSlamAlgortihm Slam;
namespace
{
// its destructors print
struct Quiet {
  void operator()(Slam* s) const
  {
    MuteAll m;
    delete s;
  }
};
typedef std::unique_ptr<Slam, Quiet> SlamPtr;
struct Drive {
  House house;
  V3 first, at;
  size_t beams;
  double noise;
};
Drive genDrive(Case& c, size_t beams)
{
  Drive d;
  d.house = genHouse(c);
  d.beams = beams;
  d.noise = 0.01;
  int tries = 0;
  do {
    d.at = V3(c.uniform(-0.8, 0.8) * d.house.w, c.uniform(-0.8, 0.8) * d.house.h, c.angle());
    if (++tries > 60)
      throw pbt::Discard();
  } while (d.house.clearance(d.at.head<2>()) < 0.6);
  d.first = d.at;
  return d;
}
// next step of the robot, from where it is, without touching a wall
bool step(Case& c, Drive& d, double far, V3& m, double turn = 0.3)
{
  V3 next;
  int tries = 0;
  do {
    m = V3(c.uniform(0, far), c.uniform(-0.1, 0.1) * far, c.uniform(-turn, turn) + (tries > 5 ? c.uniform(-1, 1) : 0));
    next = comp(d.at, m);
    if (++tries > 60)
      return false;
  } while (d.house.clearance(next.head<2>()) < 0.4);
  d.at = next;
  return true;
}
Cloud look(Case& c, const Drive& d)
{
  return d.house.scan(c, d.at, d.beams, d.noise);
}
V3 off(Case& c, const V3& m, double odn)
{
  return V3(m(0) + odn * c.uniform(-1, 1), m(1) + odn * c.uniform(-1, 1), m(2) + 0.5 * odn * c.uniform(-1, 1));
}
M3 cov()
{
  return M3::Identity() * 1e-4;
}
T2 tr(const V3& p)
{
  return eigt::getTransFromPose(p);
}
V3 run(Slam& s, const T2& motion, const Cloud& scan, double t)
{
  MuteAll m;
  return s.update(motion, cov(), scan, ros::Time(t));
}
V3 run(Slam& s, const V3& motion, const Cloud& scan, double t)
{
  return run(s, tr(motion), scan, t);
}
bool same(const V3& a, const V3& b, double tol)
{
  return pbt::close(a(0), b(0), tol) && pbt::close(a(1), b(1), tol) && pbt::angDist(a(2), b(2)) <= tol;
}
std::string posStr(const V3& p)
{
  return pbt::cat("(", p(0), ", ", p(1), ", ", p(2), ")");
}
bool small(const V3& m)
{
  return m.head<2>().norm() <= 0.2 && std::fabs(pbt::wrapPi(m(2))) <= 0.1;
}
bool nearLimit(const V3& m)
{
  return std::fabs(m.head<2>().norm() - 0.2) < 1e-6 || std::fabs(std::fabs(pbt::wrapPi(m(2))) - 0.1) < 1e-6;
}
void noLoops(Slam& s)
{
  MuteAll m;
  s.setLoopClosureMinDist(50);
  s.setLoopClosureMaxDist(60);
}
}

// the pose stays with the robot although odometry drifts away
PBT_TEST(tracks, 20, 20)
{
  Drive d = genDrive(c, 1440);
  SlamPtr s(new Slam());
  noLoops(*s);
  double win = c.weighted({1, 1, 1}) == 0 ? c.uniform(6, 10) : c.uniform(10, 30);
  s->setRunWindowRadius(static_cast<float>(win));
  s->setGenerationDistance(static_cast<float>(c.uniform(0.5, 3)));
  V3 bias(c.uniform(-0.05, 0.05), c.uniform(-0.05, 0.05), c.uniform(-0.035, 0.035));
  V3 dead(0, 0, 0);
  V3 p = run(*s, V3(c.uniform(-3, 3), c.uniform(-3, 3), c.angle()), look(c, d), 1);
  PBT_REQUIRE("start", p.norm() == 0, "the first scan is taken at ", posStr(p));
  size_t n = static_cast<size_t>(c.range(15, c.thorough ? 60 : 40));
  double worst = 0, worst_dead = 0;
  for (size_t i = 0; i < n; ++i) {
    V3 m;
    if (!step(c, d, 0.3, m))
      break;
    V3 od = comp(off(c, m, 0.02), bias);
    dead = comp(dead, od);
    p = run(*s, od, look(c, d), 2 + static_cast<double>(i));
    V3 want = comp(inv(d.first), d.at);
    worst = std::max(worst, poseError(p, want));
    worst_dead = std::max(worst_dead, poseError(dead, want));
    if (i % 10 == 9)
      c.note(pbt::cat("scan ", i + 1, ": slam ", posStr(p), " robot ", posStr(want), " odometry ", posStr(dead)));
    PBT_REQUIRE("lost", poseError(p, want) < 1.3, "after ", i + 1, " scans at ", posStr(p), " but the robot is at ", posStr(want), " (odometry ", posStr(dead), ")");
  }
  if (worst_dead > 2)
    c.nontrivial();
}

// motions too small to use are added up, whatever the scans between
PBT_TEST(small_motions, 60, 60)
{
  Drive d = genDrive(c, 720);
  SlamPtr a(new Slam()), b(new Slam());
  noLoops(*a);
  noLoops(*b);
  a->setRunWindowRadius(15);
  b->setRunWindowRadius(15);
  Cloud s = look(c, d);
  run(*a, V3(0, 0, 0), s, 1);
  V3 base = run(*b, V3(0, 0, 0), s, 1);
  size_t n = static_cast<size_t>(c.range(1, 5));
  double t = 2;
  bool many = false;
  for (size_t i = 0; i < n; ++i) {
    T2 all = T2::Identity();
    size_t k = 0;
    while (true) {
      V3 m;
      if (!step(c, d, c.coin(50) ? 0.09 : 0.25, m, 0.06))
        throw pbt::Discard();
      T2 next = all * tr(m);
      V3 sum = eigt::getPoseFromTransform(next);
      if (nearLimit(sum))
        throw pbt::Discard();
      all = next;
      Cloud seen = c.coin(80) ? look(c, d) : Cloud();
      bool use = !small(sum) && !seen.empty();
      if (!small(sum) && seen.empty())
        seen = look(c, d);
      use = !small(sum);
      V3 pa = run(*a, m, seen, t);
      if (!use) {
        V3 want = comp(base, sum);
        PBT_REQUIRE("not_added", same(pa, want, 1e-9), "after small motions adding up to ", posStr(sum), " from ", posStr(base), ": ", posStr(pa), " instead of ", posStr(want));
        t += 1;
        ++k;
        continue;
      }
      V3 pb = run(*b, all, seen, t);
      c.note(pbt::cat("motion ", posStr(sum), " in ", k + 1, " parts: at ", posStr(pa)));
      PBT_REQUIRE("split", same(pa, pb, 1e-9), "motion in ", k + 1, " parts ends at ", posStr(pa), ", in one at ", posStr(pb));
      base = pa;
      t += 1;
      break;
    }
    if (k > 0)
      many = true;
  }
  if (many && n > 1)
    c.nontrivial();
}

// scans nothing can be matched with: the robot goes where odometry says
PBT_TEST(blind, 60, 60)
{
  Drive d = genDrive(c, 720);
  SlamPtr s(new Slam());
  noLoops(*s);
  s->setRunWindowRadius(20);
  s->setGenerationDistance(static_cast<float>(c.uniform(0.3, 2)));
  V3 p = run(*s, V3(0, 0, 0), look(c, d), 1);
  double t = 2;
  size_t n = static_cast<size_t>(c.range(4, 10));
  bool was_blind = false, recovered = false;
  size_t used = 0, blind = 0, row = 0;
  ros::Time last(1);
  for (size_t i = 0; i < n; ++i, t += 1) {
    V3 m;
    if (!step(c, d, 0.3, m))
      break;
    if (small(m) || nearLimit(m)) {
      // keep every motion large enough to be used
      V3 more(0.25, 0, 0);
      V3 next = comp(d.at, more);
      if (d.house.clearance(next.head<2>()) < 0.3)
        throw pbt::Discard();
      m = comp(m, more);
      d.at = next;
      if (small(m) || nearLimit(m))
        throw pbt::Discard();
    }
    if (row < 2 && c.coin(55)) {
      ++row;
      Cloud few;
      size_t k = c.coin(50) ? 0 : static_cast<size_t>(c.range(1, 5));
      for (size_t j = 0; j < k; ++j)
        few.push_back(P(static_cast<float>(c.uniform(-2, 2)), static_cast<float>(c.uniform(-2, 2)), 0));
      V3 want = comp(p, m);
      p = run(*s, m, few, t);
      c.note(pbt::cat("scan of ", k, " points, motion ", posStr(m), ": at ", posStr(p)));
      PBT_REQUIRE("motion", same(p, want, 1e-6), "scan of ", k, " points: at ", posStr(p), " instead of ", posStr(want));
      was_blind = true;
      ++blind;
    } else {
      row = 0;
      p = run(*s, m, look(c, d), t);
      if (was_blind)
        recovered = true;
      ++used;
      last = ros::Time(t);
    }
    MuteAll mute;
    ndt_gslam::NDTMapMsg w = s->getNDTMap("x");
    PBT_REQUIRE("stamp", w.header.stamp == last && w.header.seq == used, "window of time ", w.header.stamp.toSec(), " after ", w.header.seq, " scans; last used at ",
                last.toSec(), ", ", used, " used");
  }
  if (recovered && blind > 1)
    c.nontrivial();
}

// and that motion counts once when scans can be matched again
PBT_TEST(blind_start, 40, 40)
{
  Drive d = genDrive(c, 1440);
  SlamPtr a(new Slam()), b(new Slam());
  float gen = static_cast<float>(c.uniform(0.2, 1));
  for (Slam* s : {a.get(), b.get()}) {
    noLoops(*s);
    s->setRunWindowRadius(15);
    s->setGenerationDistance(gen);
  }
  Cloud s0 = look(c, d);
  run(*a, V3(0, 0, 0), s0, 1);
  run(*b, V3(0, 0, 0), s0, 1);
  size_t k = static_cast<size_t>(c.range(1, 4));
  T2 all = T2::Identity(), waiting = T2::Identity();
  double t = 2;
  for (size_t i = 0; i < k; ++i, t += 1) {
    V3 m;
    if (!step(c, d, 0.25, m, 0.1))
      throw pbt::Discard();
    all = all * tr(m);
    waiting = waiting * tr(m);
    c.assume(!nearLimit(eigt::getPoseFromTransform(waiting)));
    if (!small(eigt::getPoseFromTransform(waiting)))
      waiting.setIdentity();
    run(*a, m, Cloud(), t);
  }
  size_t n = static_cast<size_t>(c.range(1, 4));
  for (size_t i = 0; i < n; ++i, t += 1) {
    V3 m;
    if (!step(c, d, 0.3, m))
      throw pbt::Discard();
    V3 od = off(c, m, 0.02);
    for (const T2& used : {tr(od), T2(waiting * tr(od)), T2(all * tr(od))}) {
      V3 u = eigt::getPoseFromTransform(used);
      c.assume(!small(u) && !nearLimit(u));
    }
    Cloud s = look(c, d);
    V3 pa = run(*a, od, s, t);
    waiting.setIdentity();
    T2 once = i == 0 ? T2(all * tr(od)) : tr(od);
    V3 pb = run(*b, once, s, t);
    c.note(pbt::cat("scan ", i, " after ", k, " unmatched: at ", posStr(pa), " and ", posStr(pb)));
    PBT_REQUIRE("counted", same(pa, pb, 1e-6), "scan ", i, " after ", k, " that could not be matched: at ", posStr(pa), ", but at ", posStr(pb),
                " when all the motion comes with the first scan that can be");
  }
  if (k > 1 && eigt::getDisplacement(all) > 0.2)
    c.nontrivial();
}

// the same history gives the same poses and maps
PBT_TEST(repeatable, 20, 20)
{
  Drive d = genDrive(c, 720);
  SlamPtr a(new Slam()), b(new Slam());
  float win = static_cast<float>(c.uniform(6, 20)), gen = static_cast<float>(c.uniform(0.5, 2));
  for (Slam* s : {a.get(), b.get()}) {
    MuteAll m;
    s->setRunWindowRadius(win);
    s->setGenerationDistance(gen);
    s->setLoopClosureMinDist(3);
    s->setLoopClosureMaxDist(15);
    s->setLoopClosureScoreThreshold(0.6f);
  }
  size_t n = static_cast<size_t>(c.range(5, 20));
  for (size_t i = 0; i < n; ++i) {
    V3 m(0, 0, 0);
    if (i > 0 && !step(c, d, 0.35, m))
      break;
    V3 od = off(c, m, 0.02);
    Cloud s = look(c, d);
    V3 pa = run(*a, od, s, static_cast<double>(i + 1));
    if (c.coin(30)) {
      // looking does not change anything
      MuteAll mute;
      a->getNDTMap("m");
      a->getOccupancyGrid("m");
      a->getPclMap("m");
      a->getPclMap2("m");
      a->getGraphSerialized("m");
    }
    V3 pb = run(*b, od, s, static_cast<double>(i + 1));
    PBT_REQUIRE("pose", same(pa, pb, 1e-9), "step ", i, ": ", posStr(pa), " and ", posStr(pb));
  }
  MuteAll mute;
  c.note(pbt::cat(n, " scans, window ", win, " frames of ", gen));
  nav_msgs::OccupancyGrid ga = a->getOccupancyGrid("m"), gb = b->getOccupancyGrid("m");
  PBT_REQUIRE("map", ga.data == gb.data && ga.info.width == gb.info.width, "maps differ");
  if (n > 8 && ga.data.size() > 1)
    c.nontrivial();
}

// what is published agrees with where the robot went and what it saw
PBT_TEST(outputs, 20, 20)
{
  Drive d = genDrive(c, 1440);
  SlamPtr s(new Slam());
  noLoops(*s);
  float win = static_cast<float>(c.uniform(6, 20));
  double gen = static_cast<double>(static_cast<float>(c.uniform(0.3, 1.5)));
  {
    MuteAll m;
    s->setRunWindowRadius(win);
    s->setGenerationDistance(static_cast<float>(gen));
  }
  size_t n = static_cast<size_t>(c.range(5, 25));
  V3 sum(0, 0, 0), p(0, 0, 0);
  std::vector<V3> path;  // where the scans in closed frames were taken
  std::vector<V3> open;  // and in the current one
  slamuk::NDTMapper<Cell, P> ref;
  Grid::Ptr g(new Grid(V3(0, 0, 0)));
  g->setCellSize(0.25f);
  std::vector<V3> frames{V3(0, 0, 0)};  // where frames start; the last one is open
  double drift = 0;
  std::string world = c.coin(50) ? "map" : "robot/map";
  for (size_t i = 0; i < n; ++i) {
    V3 m(0, 0, 0);
    if (i > 0 && !step(c, d, 0.35, m))
      break;
    V3 od = off(c, m, 0.02);
    Cloud seen = look(c, d);
    p = run(*s, od, seen, static_cast<double>(i + 1));
    drift = std::max(drift, poseError(p, comp(inv(d.first), d.at)));
    if (i == 0) {
      g->initialize(seen);
      continue;
    }
    sum = comp(sum, od);
    if (nearLimit(sum))
      throw pbt::Discard();
    if (small(sum))
      continue;
    sum = V3(0, 0, 0);
    double away = comp(inv(frames.back()), p).head<2>().norm();
    if (std::fabs(away - gen) < 1e-5)
      throw pbt::Discard();
    if (away > gen) {
      frames.push_back(p);
      MuteAll mute;
      ref.addFrame(g, ros::Time(static_cast<double>(i + 1)));
      g.reset(new Grid(p));
      g->setCellSize(0.25f);
      path.insert(path.end(), open.begin(), open.end());
      open.clear();
    }
    open.push_back(p);
    g->mergeInTraced(seen, p, true);
  }
  MuteAll mute;
  size_t closed = frames.size() - 1;
  c.note(pbt::cat(n, " scans, window ", win, " frames of ", gen, ": ", closed, " frames done, ", path.size(), " more scans in them, at ", posStr(p), " off by ", drift));
  // graph: one arrow from each closed frame to the next
  visualization_msgs::MarkerArray gm = s->getGraphSerialized(world);
  std::vector<bool> seen(closed, false);
  size_t arrows = 0;
  for (auto& x : gm.markers) {
    if (x.points.size() != 2)
      continue;
    PBT_REQUIRE("graph_frame", x.header.frame_id == world, x.header.frame_id);
    ++arrows;
    for (size_t k = 0; k + 1 < closed; ++k)
      if (!seen[k] && std::fabs(x.points[0].x - frames[k](0)) < 1e-6 && std::fabs(x.points[0].y - frames[k](1)) < 1e-6 &&
          std::fabs(x.points[1].x - frames[k + 1](0)) < 1e-6 && std::fabs(x.points[1].y - frames[k + 1](1)) < 1e-6) {
        seen[k] = true;
        break;
      }
  }
  size_t matched = static_cast<size_t>(std::count(seen.begin(), seen.end(), true));
  PBT_REQUIRE("graph", arrows == (closed > 0 ? closed - 1 : 0) && matched == arrows, arrows, " arrows, ", matched, " of them between frames, for ", closed, " frames");
  // occupancy map
  nav_msgs::OccupancyGrid o = s->getOccupancyGrid(world);
  PBT_REQUIRE("map_frame", o.header.frame_id == world, o.header.frame_id);
  PBT_REQUIRE("map_size", o.data.size() == static_cast<size_t>(o.info.width) * o.info.height, o.data.size(), " for ", o.info.width, " x ", o.info.height);
  auto wallDist = [&](double x, double y) { return d.house.clearance(comp(d.first, V3(x, y, 0)).head<2>()); };
  auto wallCells = [&](const nav_msgs::OccupancyGrid& og, size_t& occ, size_t& off_wall, std::map<std::pair<long, long>, int>& at) {
    V3 org(og.info.origin.position.x, og.info.origin.position.y, 2 * std::atan2(og.info.origin.orientation.z, og.info.origin.orientation.w));
    double cs = static_cast<double>(og.info.resolution);
    for (size_t r = 0; r < og.info.height; ++r)
      for (size_t k = 0; k < og.info.width; ++k) {
        int v = og.data[r * og.info.width + k];
        V3 q = comp(org, V3(static_cast<double>(k) * cs, -static_cast<double>(r) * cs, 0));
        if (v >= 0)
          at[std::make_pair(std::lround(q(0) / cs), std::lround(q(1) / cs))] = v;
        if (v > 70) {
          ++occ;
          if (wallDist(q(0), q(1)) > drift * 1.5 + 0.45)
            ++off_wall;
        }
      }
  };
  size_t occ = 0, off_wall = 0;
  std::map<std::pair<long, long>, int> at;
  wallCells(o, occ, off_wall, at);
  if (closed > 0) {
    PBT_REQUIRE("map_walls", occ > 20 && off_wall == 0, off_wall, " of ", occ, " occupied cells are away from walls (pose error ", drift, ")");
    // the places the robot drove through are not occupied
    for (auto& q : path) {
      auto f = at.find(std::make_pair(std::lround(q(0) / 0.25), std::lround(q(1) / 0.25)));
      if (f != at.end())
        PBT_REQUIRE("map_path", f->second <= 70, "the robot was at ", posStr(q), " but the map has ", f->second, " there");
    }
    // and it is the one those scans draw, taken where the algorithm says
    nav_msgs::OccupancyGrid want = ref.calcOccupancyGridMsg();
    PBT_REQUIRE("map_extent", o.info.width == want.info.width && o.info.height == want.info.height, o.info.width, " x ", o.info.height, " instead of ",
                want.info.width, " x ", want.info.height);
    size_t other = 0;
    for (size_t k = 0; k < o.data.size(); ++k)
      if (std::abs(o.data[k] - want.data[k]) > 1)
        ++other;
PBT_REQUIRE("map", other <= 2, other, " of ", o.data.size(), " cells differ from those its scans draw where the algorithm says they were taken");
  }
  // clouds
  for (int which = 0; which < 2; ++which) {
    Cloud::Ptr q = which == 0 ? s->getPclMap(world) : s->getPclMap2(world);
    PBT_REQUIRE("cloud_frame", q->header.frame_id == world, q->header.frame_id);
    if (which == 0 && closed == 0) {
      PBT_REQUIRE("cloud_empty", q->empty(), q->size(), " means before any frame is done");
      continue;
    }
    size_t bad = 0;
    for (auto& x : *q)
      if (wallDist(static_cast<double>(x.x), static_cast<double>(x.y)) > drift * 1.5 + 0.3)
        ++bad;
    PBT_REQUIRE("cloud", q->size() > 10 && bad == 0, which == 0 ? "map: " : "window: ", bad, " of ", q->size(), " means are away from walls (pose error ", drift, ")");
  }
  // window
  ndt_gslam::NDTMapMsg w = s->getNDTMap(world);
  PBT_REQUIRE("window_frame", w.header.frame_id == world, w.header.frame_id);
  PBT_REQUIRE("window_cells", w.x_cell_size == 0.25 && w.y_cell_size == 0.25, w.x_cell_size);
  double half = static_cast<double>(win), left = p(0) - w.x_cen, right = w.x_cen + w.x_size - p(0), up = w.y_cen - p(1), down = p(1) - (w.y_cen - w.y_size);
  // the window keeps its radius around the robot; scans reaching further may widen it
  double spare = half > 15 ? 1 : 40;
  for (double x : {left, right, up, down})
    PBT_REQUIRE("window", x > half - 1 && x < half + spare, "window reaches ", left, ", ", right, ", ", up, ", ", down, " from the robot, for a radius of ", win);
  for (auto& cell : w.cells) {
    PBT_REQUIRE("cell", cell.cov_matrix.size() == 9 && cell.N >= 0, "cell with ", cell.cov_matrix.size(), " values of covariance");
  }
  if (closed > 2)
    c.nontrivial();
}

// with loops closed, most drives still end where the robot is
PBT_TEST(closes_loops, 1, 1)
{
  // a second of work per drive
  size_t lost = 0, looped = 0, loops = 0;
#ifdef __SANITIZE_ADDRESS__
  size_t sessions = 2;
#else
  size_t sessions = 10;
#endif
  for (size_t k = 0; k < sessions; ++k) {
    Drive d = genDrive(c, 900);
    SlamPtr s(new Slam());
    {
      MuteAll m;
      s->setRunWindowRadius(20);
      s->setGenerationDistance(0.5f);
      s->setLoopClosureMinDist(3);
      s->setLoopClosureMaxDist(15);
      s->setLoopClosureScoreThreshold(0.6f);
    }
    V3 p = run(*s, V3(0, 0, 0), look(c, d), 1);
    for (size_t i = 0; i < 50; ++i) {
      V3 m;
      if (!step(c, d, 0.6, m))
        break;
      p = run(*s, off(c, m, 0.02), look(c, d), 2 + static_cast<double>(i));
    }
    if (poseError(p, comp(inv(d.first), d.at)) > 1.2)
      ++lost;
    MuteAll m;
    // chained frames are drawn red, closed loops green
    size_t n = 0;
    for (auto& x : s->getGraphSerialized("map").markers)
      if (x.color.g > 0.5f)
        ++n;
    loops += n;
    if (n > 0)
      ++looped;
  }
  c.note(pbt::cat(sessions, " drives, ", loops, " loops closed in ", looped, ", ", lost, " ended elsewhere"));
  PBT_REQUIRE("lost", lost <= 4, lost, " of ", sessions, " drives end elsewhere, ", loops, " loops closed in ", looped);
  if (looped > sessions / 3)
    c.nontrivial();
}

PBT_MAIN()
