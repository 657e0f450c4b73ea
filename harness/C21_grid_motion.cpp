// C21: moving and turning an NDT grid
#include "ndtgrid_sim.h"

namespace
{
std::vector<P> worldMeans(const Grid& g)
{
  auto p = g.getMeansTransformed();
  return std::vector<P>(p->points.begin(), p->points.end());
}
}

PBT_TEST(history, 12000, 400000)
{
  Sim s(c, c.coin(25));
  s.mergeScan();
  size_t n = static_cast<size_t>(c.range(1, c.thorough ? 10 : 6));
  for (size_t i = 0; i < n; ++i) {
    switch (c.weighted({5, 3, 2, 1})) {
      case 0: s.move(); break;
      case 1: s.turn(); break;
      case 2: s.mergeScan(); break;
      default: s.mergeGrid();
    }
    s.check();
  }
  c.nontrivial(s.merged > 0 && s.moves + s.turns > 0);
  if (s.dropped)
    c.label("cells left the extent");
  if (s.moves && s.turns)
    c.label("moved and turned");
}

// the local window follows the robot: whatever the history, the pose of the
// robot in the world and everything still in the window stay where they are
PBT_TEST(window, 12000, 400000)
{
  Sim s(c, false);
  s.mergeScan();
  T2 pose = T2::Identity();  // of the robot, in the window
  T2 world = frame(s.m.origin);
  size_t n = static_cast<size_t>(c.range(1, 12)), shifts = 0;
  for (size_t i = 0; i < n; ++i) {
    T2 step = T2::Identity();
    step.linear() = Eigen::Rotation2Dd(c.real(-0.6, 0.6)).toRotationMatrix();
    step.translation() = s.m.cs * V2(c.real(-1.5, 1.5), c.real(-1.5, 1.5));
    c.note("step ", str(V2(step.translation())));
    pose = pose * step;
    world = world * step;
    std::vector<V2> before;
    for (auto& p : worldMeans(s.g))
      before.push_back(V2(p.x, p.y));
    V3 o = s.g.getOrigin();
    pose = s.g.move(pose);
    V3 o2 = s.g.getOrigin();
    shifts += (o - o2).norm() > 0;
    T2 now = frame(o2) * pose;
    PBT_REQUIRE("robot", (now.matrix() - world.matrix()).norm() < 1e-5, "robot at ", str(V2(now.translation())), " want ", str(V2(world.translation())));
    PBT_REQUIRE("near-origin", std::fabs(pose.translation()(0)) < s.m.cs + 1e-6 && std::fabs(pose.translation()(1)) < s.m.cs + 1e-6,
                "residual ", str(V2(pose.translation())), " cell ", s.m.cs);
    V2 k = (o2 - o).head<2>() / s.m.cs;
    PBT_REQUIRE("whole-cells", (k - V2(std::round(k(0)), std::round(k(1)))).norm() < 1e-4, str(k));
    for (auto& p : worldMeans(s.g)) {
      bool found = false;
      for (auto& q : before)
        found = found || (q - V2(p.x, p.y)).norm() < 1e-4;
      PBT_REQUIRE("stays-in-world", found, "mean ", p.x, " ", p.y);
    }
    for (auto* x : s.g.getGaussianCells()) {
      V2 p = x->getMean().head<2>();
      if (borderDist(s.m.cs, p) > 1e-4)
        PBT_REQUIRE("mean-in-its-cell", s.g.isInside(p) && &s.g[p] == x, str(p));
    }
  }
  c.nontrivial(shifts >= 2 && s.merged > 0);
}

// going there and back again inside a large enough window changes nothing
PBT_TEST(round_trip, 10000, 300000)
{
  Sim s(c, false);
  s.mergeScan();
  s.mergeScan();
  float e = static_cast<float>(s.span * 3 + 12 * s.m.cs);
  s.g.enlarge(-e, -e, e, e);
  Model old = s.m;
  long kx = c.range(-5, 5), ky = c.range(-5, 5);
  T2 t = T2::Identity(), r = T2::Identity();
  t.translation() = s.m.cs * V2(static_cast<double>(kx) + (kx < 0 ? -0.25 : 0.25), static_cast<double>(ky) + (ky < 0 ? -0.25 : 0.25));
  r.translation() = -t.translation();
  c.note("there and back ", kx, " ", ky);
  c.nontrivial((kx || ky) && s.merged > 0);
  s.g.move(t);
  s.g.move(r);
  sameContent("round-trip", s.g, old);
  PBT_REQUIRE("origin", (s.g.getOrigin() - old.origin).norm() < 1e-9, "");
}
PBT_MAIN()
