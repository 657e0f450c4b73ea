// C25: registering scans by their distributions
#include "scene_common.h"
namespace
{
struct Outcome {
  bool ok = false;
  Eigen::Matrix4f t = Eigen::Matrix4f::Identity();
  Cloud out;
};
// target and source given as clouds, or as grids of their distributions
template <class R>
Outcome run(R& r, const Eigen::Matrix4f& guess)
{
  Outcome o;
  r.align(o.out, guess);
  o.ok = r.hasConverged();
  o.t = r.getFinalTransformation();
  return o;
}
Grid::Ptr gridPtr(const Cloud& c, double cs)
{
  Grid::Ptr g(new Grid());
  g->setCellSize(static_cast<float>(cs));
  g->initializeSimple(c);
  return g;
}
}

// distribution to distribution: a known motion is found again
PBT_TEST(d2d_finds_motion, 400, 12000)
{
  Scene s = genScene(c);
  V3 off = genOffset(c, 0.4, 0.2);
  D2D r;
  r.enableMultithreading(1);
  bool grids = c.coin(40);
  Grid::Ptr gs, gt;
  if (grids) {
    gs = gridPtr(s.source, 0.25);
    gt = gridPtr(s.target, 0.25);
    r.setInputSource(Grid::ConstPtr(gs));
    r.setInputTarget(Grid::ConstPtr(gt));
  } else {
    r.setInputSource(Cloud::ConstPtr(shared(s.source)));
    r.setInputTarget(Cloud::ConstPtr(shared(s.target)));
  }
  Outcome o = run(r, matOf(s.truth + off));
  V3 got = poseOf(o.t);
  c.note("points ", s.source.size(), " truth ", str(s.truth), " guess off by ", str(off), " result off by ", poseError(got, s.truth));
  c.nontrivial(poseError(s.truth + off, s.truth) > 0.4);
  PBT_REQUIRE("converged", o.ok, "no convergence from a close guess");
  planar(o.t);
  movedBy(o.t, grids ? *gs->getMeans() : s.source, o.out);
  PBT_REQUIRE("found", poseError(got, s.truth) < 0.4, "result ", str(got), " want ", str(s.truth), " guess off by ", str(off));
}

// points to distributions
PBT_TEST(points_find_motion, 30, 1500)
{
  Scene s = genScene(c);
  Cloud few;  // every k-th point
  size_t k = static_cast<size_t>(c.range(3, 8));
  for (size_t i = 0; i < s.source.size(); i += k)
    few.push_back(s.source[i]);
  s.source = few;
  V3 off = genOffset(c, 0.25, 0.12);
  P2D r;
  r.setInputTarget(Cloud::ConstPtr(shared(s.target)));
  r.setInputSource(Cloud::ConstPtr(shared(s.source)));
  Outcome o = run(r, matOf(s.truth + off));
  V3 got = poseOf(o.t);
  double before = poseError(s.truth + off, s.truth), after = poseError(got, s.truth);
  c.note("points ", s.source.size(), " truth ", str(s.truth), " guess off by ", str(off), " ", before, " result off by ", after);
  c.nontrivial(before > 0.25);
  PBT_REQUIRE("converged", o.ok, "no convergence from a close guess");
  planar(o.t);
  movedBy(o.t, s.source, o.out);
  PBT_REQUIRE("found", after < 0.2 + 0.35 * before, "result ", str(got), " want ", str(s.truth), " guess off by ", str(off));
}

// the number of threads does not matter, nor how often the matcher was used
PBT_TEST(d2d_reuse_and_threads, 250, 8000)
{
  Scene s = genScene(c), other = genScene(c);
  V3 off = genOffset(c, 0.4, 0.2);
  Eigen::Matrix4f guess = matOf(s.truth + off);
  D2D a, b;
  a.enableMultithreading(1);
  unsigned n = static_cast<unsigned>(c.coin(60) ? 1 : c.range(2, 4));
  b.enableMultithreading(n);
  bool used = c.coin(60);
  c.note("threads ", n, used ? " used before" : "");
  if (used) {
    b.setInputSource(Cloud::ConstPtr(shared(other.source)));
    b.setInputTarget(Cloud::ConstPtr(shared(other.target)));
    run(b, matOf(other.truth));
  }
  for (D2D* r : {&a, &b}) {
    r->setInputSource(Cloud::ConstPtr(shared(s.source)));
    r->setInputTarget(Cloud::ConstPtr(shared(s.target)));
  }
  Outcome x = run(a, guess), y = run(b, guess);
  c.nontrivial(used || n > 1);
  PBT_REQUIRE("same-verdict", x.ok == y.ok, x.ok, " ", y.ok);
  PBT_REQUIRE("same-result", poseError(poseOf(x.t), poseOf(y.t)) < 2e-3, str(poseOf(x.t)), " ", str(poseOf(y.t)));
}

// the layers are matched from coarse to fine, each twice as fine as the one
// before, the finest with the cell size asked for; however the settings came
// about
template <class R>
void layersChain(Case& c, R& r, const std::vector<size_t>& sizes, const Scene& s, const V3& guess)
{
  Grid::Ptr gs = gridPtr(s.source, 0.25), gt = gridPtr(s.target, 0.25);
  auto give = [&](R& m) {
    m.setInputTarget(Grid::ConstPtr(gt));
    if constexpr (std::is_same<R, D2D>::value)
      m.setInputSource(Grid::ConstPtr(gs));
    else
      m.setInputSource(Cloud::ConstPtr(shared(s.source)));
  };
  double ratio = c.coin(30) ? c.uniform(0.2, 0.6) : r.getOulierRatio();
  double eps = c.coin(30) ? c.uniform(0.02, 0.1) : 0.1;
  int iter = c.coin(30) ? static_cast<int>(c.range(2, 35)) : 35;
  size_t n = 4;
  double cs = 0.25;
  auto ratioSet = [&]() { r.setOulierRatio(ratio); };
  if (c.coin(30))
    ratioSet();
  size_t k = static_cast<size_t>(c.range(0, 4));
  for (size_t i = 0; i < k; ++i)
    if (c.coin(60)) {
      n = sizes[c.draw(sizes.size())];
      r.setNumLayers(n);
      c.note("layers ", n);
    } else {
      cs = 0.25 * static_cast<double>(1 << c.draw(2));
      r.setCellSize(static_cast<float>(cs));
      c.note("cell size ", cs);
    }
  ratioSet();
  r.setTransformationEpsilon(eps);
  r.setMaximumIterations(iter);
  PBT_REQUIRE("settings", r.getNumLayers() == n && r.getCellSize() == static_cast<float>(cs) && r.getOulierRatio() == ratio, r.getNumLayers(), " layers of ",
              r.getCellSize(), " outliers ", r.getOulierRatio());
  give(r);
  Outcome got = run(r, matOf(guess));
  Outcome want;
  want.t = matOf(guess);
  for (size_t i = 0; i < n; ++i) {
    R one;
    if constexpr (std::is_same<R, D2D>::value)
      one.enableMultithreading(1);
    one.setOulierRatio(ratio);
    one.setTransformationEpsilon(eps);
    one.setMaximumIterations(iter);
    one.setNumLayers(1);
    one.setCellSize(77);
    one.setCellSize(static_cast<float>(cs * std::pow(2, static_cast<double>(n - 1 - i))));
    give(one);
    want = run(one, want.t);
    if (!want.ok)
      break;
  }
  PBT_REQUIRE("same-verdict", got.ok == want.ok, "converged ", got.ok, " layer by layer ", want.ok);
  c.label(got.ok ? "converged" : "refused");
  c.nontrivial(got.ok && k > 0 && n > 1);
  if (got.ok)
    PBT_REQUIRE("layer-by-layer", poseError(poseOf(got.t), poseOf(want.t)) < 1e-3, str(poseOf(got.t)), " layer by layer ", str(poseOf(want.t)), " with ", n,
                " layers down to ", cs);
}
PBT_TEST(d2d_layers, 150, 5000)
{
  Scene s = genScene(c);
  D2D r;
  r.enableMultithreading(1);
  layersChain(c, r, {1, 2, 3, 4, 5}, s, s.truth + genOffset(c, 0.4, 0.2));
}
PBT_TEST(points_layers, 40, 1000)
{
  Scene s = genScene(c);
  Cloud few;
  size_t k = static_cast<size_t>(c.range(10, 25));
  for (size_t i = 0; i < s.source.size(); i += k)
    few.push_back(s.source[i]);
  s.source = few;
  P2D r;
  layersChain(c, r, {1, 2, 3, 4, 5}, s, s.truth + genOffset(c, 0.25, 0.12));
}

// clouds are matched as the grids of the finest layer would be
PBT_TEST(clouds_as_grids, 120, 4000)
{
  Scene s = genScene(c);
  V3 g = s.truth + genOffset(c, 0.4, 0.2);
  double cs = 0.25 * static_cast<double>(c.range(1, 2));
  D2D a, b;
  for (D2D* r : {&a, &b}) {
    r->enableMultithreading(1);
    r->setCellSize(static_cast<float>(cs));
  }
  bool source = c.coin(50), target = !source || c.coin(50);
  c.note("cells of ", cs, " guess ", str(g));
  for (D2D* r : {&a, &b}) {
    if (r == &b && source)
      r->setInputSource(Grid::ConstPtr(gridPtr(s.source, cs)));
    else
      r->setInputSource(Cloud::ConstPtr(shared(s.source)));
    if (r == &b && target)
      r->setInputTarget(Grid::ConstPtr(gridPtr(s.target, cs)));
    else
      r->setInputTarget(Cloud::ConstPtr(shared(s.target)));
  }
  Outcome x = run(a, matOf(g)), y = run(b, matOf(g));
  PBT_REQUIRE("same-verdict", x.ok == y.ok, x.ok, " ", y.ok);
  PBT_REQUIRE("same-result", poseError(poseOf(x.t), poseOf(y.t)) < 1e-3, str(poseOf(x.t)), " ", str(poseOf(y.t)));
  c.nontrivial(x.ok && cs != 0.25);
}

// nothing to match against: reported, without touching what is not there
PBT_TEST(nothing_to_match, 800, 20000)
{
  int kind = static_cast<int>(c.draw(5));
  Cloud some, none;
  size_t n = static_cast<size_t>(c.range(8, 40));
  V2 at(c.real(-5, 5), c.real(-5, 5));
  for (size_t i = 0; i < n; ++i)
    some.push_back(P(static_cast<float>(at(0) + 0.1 * c.uniform(0, 1)), static_cast<float>(at(1) + 0.1 * c.uniform(0, 1)), 0));
  for (size_t i = 0; i < 5; ++i)  // too few for a distribution
    none.push_back(P(static_cast<float>(i), static_cast<float>(c.real(-5, 5)), 0));
  V3 g = genPose(c, 3);
  static const char* what[] = {"no target", "no source", "no input", "target without distributions", "far apart"};
  c.note(what[kind], " guess ", str(g));
  c.nontrivial(kind >= 3);
  bool points = c.coin(40);
  bool target = kind != 0 && kind != 2, source = kind != 1 && kind != 2;
  Cloud::ConstPtr t = shared(kind == 3 ? none : some), s = shared(some);
  Outcome o;
  if (kind == 4) {
    V2 d(400 + c.uniform(0, 100), c.uniform(-200, 200));
    Cloud far;
    for (auto& p : some)
      far.push_back(P(p.x + static_cast<float>(d(0)), p.y + static_cast<float>(d(1)), 0));
    t = shared(far);
  }
  if (points) {
    P2D r;
    if (target)
      r.setInputTarget(t);
    if (source)
      r.setInputSource(s);
    o = run(r, matOf(g));
  } else {
    D2D r;
    r.enableMultithreading(1);
    if (target)
      r.setInputTarget(t);
    if (source)
      r.setInputSource(s);
    o = run(r, matOf(g));
  }
  PBT_REQUIRE("refused", !o.ok, what[kind], points ? " (points)" : " (distributions)");
  PBT_REQUIRE("finite", o.t.allFinite(), "");
}
PBT_MAIN()
