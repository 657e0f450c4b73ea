// C20: merging observations into an NDT grid
#include "ndtgrid_sim.h"

PBT_TEST(history, 12000, 400000)
{
  Sim s(c, true);
  size_t n = static_cast<size_t>(c.range(1, c.thorough ? 10 : 6));
  for (size_t i = 0; i < n; ++i) {
    switch (c.weighted({6, 4, 3, 1})) {
      case 0: s.mergeScan(); break;
      case 1: s.mergeGrid(); break;
      case 2: s.mergeCells(); break;
      default: s.clear();
    }
    s.check();
  }
  c.nontrivial(s.fused > 0);
  c.label(s.fused == 0 ? "no cell met another" : s.fused < 4 ? "some met" : "many met");
  if (s.traced)
    c.label("with rays");
}

// what is merged in without growing stays within the extent; growing never
// loses a distribution
PBT_TEST(extent, 10000, 300000)
{
  Sim s(c, true);
  s.mergeScan();
  size_t n = static_cast<size_t>(c.range(1, 4));
  for (size_t i = 0; i < n; ++i) {
    Shape a = shapeOf(s.g);
    std::vector<P> pts = genScan(c, s.m.cs, s.span * 1.6, 4);
    V3 at = c.coin(30) ? s.m.origin : V3(s.m.origin + genPose(c, s.span * 0.5));
    bool tr = c.coin(50), resize = c.coin(40);
    size_t before = s.g.getGaussianCells().size(), total = 0;
    for (auto* x : s.g.getGaussianCells())
      total += x->points();
    c.note(tr ? "traced scan" : "scan", " from ", str(at), " points ", pts.size(), resize ? " growing" : " clipped");
    if (tr)
      s.g.mergeInTraced(cloudOf(pts), at, resize);
    else
      s.g.mergeIn(cloudOf(pts), at, resize);
    Shape b = shapeOf(s.g);
    bool same = a.left == b.left && a.right == b.right && a.up == b.up && a.down == b.down;
    if (!resize)
      PBT_REQUIRE("clipped", same, "extent ", str(a), " became ", str(b));
    else
      PBT_REQUIRE("never-shrinks", a.left <= b.left && a.right <= b.right && a.up <= b.up && a.down <= b.down, str(a), " became ", str(b));
    if (!tr) {
      size_t after = s.g.getGaussianCells().size(), total2 = 0;
      for (auto* x : s.g.getGaussianCells())
        total2 += x->points();
      PBT_REQUIRE("nothing-lost", after >= before && total2 >= total, "distributions ", before, " -> ", after, " points ", total, " -> ", total2);
    }
    if (!same)
      c.label("grown");
    c.nontrivial(!same || !resize);
  }
}

// copies are independent
PBT_TEST(copies, 8000, 200000)
{
  Sim s(c, true);
  s.mergeScan();
  Grid::Ptr copy = s.g.makeShared();
  Model old = s.m;
  s.mergeScan();
  s.check();
  sameContent("copy-kept", *copy, old);
  size_t n = 0;
  for (auto& x : old.cells)
    n += x.second.hasGaussian();
  PBT_REQUIRE("copy-means", copy->getMeans()->size() == n, copy->getMeans()->size(), " want ", n);
  Grid assigned;
  assigned = *copy;
  copy->clear();
  sameContent("assigned-kept", assigned, old);
  c.nontrivial(n > 0);
}
PBT_MAIN()
