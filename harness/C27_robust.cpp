// C27: registration that survives a bad starting guess, and scan matching
#include "scene_common.h"
#include <ndt_gslam/ndt_grid2d_holder.h>
#include <ndt_gslam/registration/d2d_ndt2d_robust.h>
#include <ndt_gslam/slam_optimizer/ndt_scanmatcher.h>
typedef pcl::D2DNormalDistributionsTransform2DRobust<P, P> Robust;
typedef slamuk::NDTGrid2DHolder<Cell, P> Frame;
typedef slamuk::NdtScanmatcher<Frame> Matcher;
namespace
{
Grid::Ptr gridPtr(const Cloud& c, double cs = 0.25)
{
  Grid::Ptr g(new Grid());
  g->setCellSize(static_cast<float>(cs));
  g->initializeSimple(c);
  return g;
}
struct Outcome {
  bool ok = false;
  double quality = 0;
  Eigen::Matrix4f t = Eigen::Matrix4f::Identity();
  Cloud out;
};
Outcome run(Robust& r, const Eigen::Matrix4f& guess)
{
  Outcome o;
  r.align(o.out, guess);
  o.ok = r.hasConverged();
  o.quality = r.getAlignmentQuality();
  o.t = r.getFinalTransformation();
  return o;
}
void give(Robust& r, const Grid::Ptr& s, const Grid::Ptr& t)
{
  r.setInputSource(Grid::ConstPtr(s));
  r.setInputTarget(Grid::ConstPtr(t));
}
// what the source moved by m scores against the target
double quality(const Cloud& source, const Cloud& target, double cell, const Eigen::Matrix4f& m)
{
  pcl::ml_corr::LookUpTable<P> t;
  t.initGrid(target, static_cast<float>(cell), 0.5);
  Cloud moved;
  pcl::transformPointCloud(source, moved, m);
  return t.getScore(moved);
}
bool sameQuality(double a, double b)
{
  return std::fabs(a - b) < 0.03;  // a point or two on another side of a cell border
}
struct Mute {
  std::stringstream sink;
  std::streambuf* old;
  Mute() : old(std::cout.rdbuf(sink.rdbuf()))
  {
  }
  ~Mute()
  {
    std::cout.rdbuf(old);
  }
};
// a success must be worth its limit, and what is reported must be true
void honest(const Outcome& o, const Cloud& source, const Cloud& target, double cell, double limit)
{
  planar(o.t);
  if (!o.ok)
    return;
  double q = quality(source, target, cell, o.t);
  PBT_REQUIRE("quality", sameQuality(o.quality, q), "reported ", o.quality, " moved source scores ", q);
  PBT_REQUIRE("limit", q >= limit - 0.03, "accepted with ", q, " limit ", limit);
  movedBy(o.t, source, o.out);
}
}

// a guess off by metres is no obstacle
PBT_TEST(finds_motion, 40, 2000)
{
  Scene s = genScene(c);
  V3 off = c.coin(70) ? genOffset(c, 1.5, 0.8) : genOffset(c, 0.3, 0.2);
  Robust r;
  r.enableMultithreading(1);
  double limit = 0.4;
  if (c.coin(50)) {
    limit = c.pick(std::vector<double>{0.1, 0.3, 0.5, 0.6});
    r.setRejectionLimit(static_cast<float>(limit));
  }
  Grid::Ptr gs = gridPtr(s.source), gt = gridPtr(s.target);
  give(r, gs, gt);
  Outcome o = run(r, matOf(s.truth + off));
  V3 got = poseOf(o.t);
  c.note("truth ", str(s.truth), " guess off by ", str(off), " result off by ", poseError(got, s.truth), " quality ", o.quality, " limit ", limit);
  c.nontrivial(poseError(s.truth + off, s.truth) > 1);
  honest(o, *gs->getMeans(), *gt->getMeans(), 0.25, limit);
  double q = quality(*gs->getMeans(), *gt->getMeans(), 0.25, o.t);
  PBT_REQUIRE("verdict", o.ok || q < limit + 0.03, "refused though it scores ", q, " limit ", limit);
  PBT_REQUIRE("found", poseError(got, s.truth) < 0.4, "result ", str(got), " want ", str(s.truth), " guess off by ", str(off));
}

// nothing is claimed that does not fit, whatever is matched
PBT_TEST(claims_are_earned, 60, 3000)
{
  Scene a = genScene(c), b = genScene(c);
  static const char* what[] = {"same place", "other place", "part of it", "scattered", "far guess"};
  int kind = static_cast<int>(c.draw(5));
  Cloud src = a.source, dst = a.target;
  if (kind == 1)
    dst = b.target;
  if (kind == 2) {  // only what lies on one side
    double th = c.angle();
    Cloud part;
    for (auto& p : src)
      if (p.x * std::cos(th) + p.y * std::sin(th) > 0)
        part.push_back(p);
    src = part;
  }
  if (kind == 3) {
    src.clear();
    int n = static_cast<int>(c.range(20, 60));
    for (int i = 0; i < n; ++i) {
      V2 at(c.uniform(-6, 6), c.uniform(-6, 6));
      for (int k = 0; k < 8; ++k)
        src.push_back(P(static_cast<float>(at(0) + 0.1 * c.uniform(0, 1)), static_cast<float>(at(1) + 0.1 * c.uniform(0, 1)), 0));
    }
  }
  V3 off = kind == 4 ? genOffset(c, 30, 3) : genOffset(c, 2, 1.5);
  double limit = c.pick(std::vector<double>{0.2, 0.4, 0.6, 0.75, 0.85, 0.95});
  bool clouds = c.coin(30);
  unsigned n = c.coin(70) ? 1 : static_cast<unsigned>(c.range(2, 4));
  double cell = clouds ? c.pick(std::vector<double>{0.25, 0.35}) : 0.25;
  Robust r;
  r.enableMultithreading(n);
  r.setRejectionLimit(static_cast<float>(limit));
  Cloud in = src, tg = dst;
  if (clouds) {
    r.setCellSize(static_cast<float>(cell));
    r.setInputSource(Cloud::ConstPtr(shared(src)));
    r.setInputTarget(Cloud::ConstPtr(shared(dst)));
  } else {
    Grid::Ptr gs = gridPtr(src), gt = gridPtr(dst);
    if (!gs->getMeans()->size())
      throw pbt::Discard();
    give(r, gs, gt);
    in = *gs->getMeans();
    tg = *gt->getMeans();
  }
  Outcome o = run(r, matOf(a.truth + off));
  c.note(what[kind], clouds ? " clouds" : " grids", " threads ", n, " guess off by ", str(off), " limit ", limit, " ok ", o.ok, " quality ", o.quality);
  c.label(what[kind]);
  c.label(o.ok ? "accepted" : "rejected");
  c.nontrivial(kind != 0 && o.ok || kind == 0 && !o.ok);
  honest(o, in, tg, cell, limit);
}

// the same question gets the same answer, whatever was asked before
PBT_TEST(reuse, 30, 1500)
{
  Scene s = genScene(c), other = genScene(c);
  V3 off = genOffset(c, 1.2, 0.6), off2 = genOffset(c, 1.2, 0.6);
  Robust a, b;
  unsigned n = c.coin(60) ? 1 : static_cast<unsigned>(c.range(2, 4));
  a.enableMultithreading(1);
  b.enableMultithreading(n);
  Grid::Ptr gs = gridPtr(s.source), gt = gridPtr(s.target);
  Grid::Ptr os = gridPtr(other.source, 0.25), ot = gridPtr(other.target, c.coin(30) ? 0.4 : 0.25);
  int used = static_cast<int>(c.range(0, 2));
  for (int i = 0; i < used; ++i) {
    give(b, os, ot);
    run(b, matOf(other.truth + off2));
  }
  give(a, gs, gt);
  give(b, gs, gt);
  Outcome x = run(a, matOf(s.truth + off)), y = run(b, matOf(s.truth + off));
  c.note("used ", used, " threads ", n, " guess off by ", str(off));
  c.nontrivial(used > 0 || n > 1);
  for (auto* o : {&x, &y})
    PBT_REQUIRE("found", poseError(poseOf(o->t), s.truth) < 0.4, "result ", str(poseOf(o->t)), " want ", str(s.truth));
  if (n == 1) {
    PBT_REQUIRE("same-verdict", x.ok == y.ok, x.ok, " ", y.ok);
    PBT_REQUIRE("same-result", poseError(poseOf(x.t), poseOf(y.t)) < 1e-4, str(poseOf(x.t)), " ", str(poseOf(y.t)));
    PBT_REQUIRE("same-quality", std::fabs(x.quality - y.quality) < 1e-4, x.quality, " ", y.quality);
  }
}

// limits outside (0, 1) are refused and change nothing
PBT_TEST(settings, 2000, 100000)
{
  Robust r;
  double limit = 0.4;
  int n = static_cast<int>(c.range(1, 6));
  bool refused = false, accepted = false;
  for (int i = 0; i < n; ++i) {
    float v = c.pick(std::vector<float>{0.f, 1.f, -1.f, 0.5f, 0.01f, 0.99f, 2.f, 1e-30f, static_cast<float>(c.uniform(-1, 2)), std::nanf("")});
    bool want = v > 0 && v < 1, got = true;
    try {
      r.setRejectionLimit(v);
    } catch (const std::invalid_argument&) {
      got = false;
    }
    PBT_REQUIRE("limit", got == want, "limit ", v, got ? " accepted" : " refused");
    (want ? accepted : refused) = true;
    if (want)
      limit = v;
  }
  double ratio = c.uniform(0.05, 0.95), step = c.uniform(0.01, 1), cs = c.uniform(0.1, 1);
  size_t layers = static_cast<size_t>(c.range(1, 5));
  r.setOulierRatio(ratio);
  r.setStepSize(step);
  r.setCellSize(static_cast<float>(cs));
  r.setNumLayers(layers);
  PBT_REQUIRE("settings", r.getOutlierRatio() == ratio && r.getStepSize() == step && r.getNumLayers() == layers, "");
  PBT_REQUIRE("cell-size", r.getCellSize() == static_cast<float>(cs), r.getCellSize());
  c.nontrivial(refused && accepted);
}

// the scan matcher reports where the source frame lies in the target frame
PBT_TEST(scanmatcher, 40, 2000)
{
  Mute mute;
  Matcher m;
  double limit = 0.6;
  // with turns of any size allowed, one may be taken for another; not always
  int n = static_cast<int>(c.range(2, 8)), found = 0, asked = 0;
  for (int i = 0; i < n; ++i) {
    if (c.coin(50)) {
      limit = c.pick(std::vector<double>{0.2, 0.4, 0.7, 0.9, 0.97});
      m.setScoreThreshold(static_cast<float>(limit));
    }
    Scene s = genScene(c, 0.035, true);
    bool same = c.coin(80);
    if (!same)
      s.target = genScene(c).target;
    V3 off = genOffset(c, 0.6, 0.4);
    Frame src(gridPtr(s.source)), dst(gridPtr(s.target));
    Cloud in = *src.getData()->getMeans(), tg = *dst.getData()->getMeans();
    // where the frames are in the world is no business of the matcher
    if (c.coin(30))
      src.updatePosition(genPose(c, 5));
    V3 g = s.truth + off;
    Eigen::Matrix3d guess = frame(g).matrix();
    slamuk::MatchResult r = m.match(src, dst, guess);
    V3 got(r.transform_(0, 2), r.transform_(1, 2), std::atan2(r.transform_(1, 0), r.transform_(0, 0)));
    c.note(same ? "same" : "other", " place, guess off by ", str(off), " limit ", limit, " success ", r.success_, " score ", r.score_, " result off by ",
           poseError(got, s.truth));
    c.nontrivial(poseError(g, s.truth) > 0.4);
    PBT_REQUIRE("rigid", near(M3(frame(got).matrix()), M3(r.transform_.matrix()), 1e-4), "");
    PBT_REQUIRE("information", r.inform_.allFinite() && (r.inform_ - r.inform_.transpose()).norm() == 0 && r.inform_.selfadjointView<Eigen::Lower>().eigenvalues().minCoeff() > 0,
                "");
    if (r.success_) {
      double q = quality(in, tg, 0.25, matOf(got));
      PBT_REQUIRE("score", sameQuality(r.score_, q), "reported ", r.score_, " is ", q);
      PBT_REQUIRE("limit", r.score_ >= limit - 1e-6, "accepted with ", r.score_, " limit ", limit);
    }
    if (same) {
      double q = quality(in, tg, 0.25, matOf(got));
      PBT_REQUIRE("success", r.success_ || q < limit + 0.03, "refused though it scores ", q, " limit ", limit);
      if (poseError(got, s.truth) < 0.4)
        ++found;
      ++asked;
    }
  }
  PBT_REQUIRE("found", asked < 5 || 3 * found >= asked, found, " of ", asked, " motions found from close guesses");
}

// an empty frame matches nothing, also after a good match
PBT_TEST(empty_frames, 30, 1500)
{
  Mute mute;
  Scene s = genScene(c);
  Frame src(gridPtr(s.source)), dst(gridPtr(s.target));
  Cloud few;
  int n = static_cast<int>(c.range(0, 5));
  for (int i = 0; i < n; ++i)
    few.push_back(P(static_cast<float>(i), static_cast<float>(c.real(-5, 5)), 0));
  Frame none(gridPtr(few));
  Matcher m;
  m.setScoreThreshold(0.05f);
  bool before = c.coin(60);
  if (before)
    m.match(src, dst, frame(s.truth).matrix());
  bool source = c.coin(50);
  c.note(before ? "used before, " : "", source ? "empty source" : "empty target");
  c.nontrivial(before);
  slamuk::MatchResult r = source ? m.match(none, dst, frame(s.truth).matrix()) : m.match(src, none, frame(s.truth).matrix());
  PBT_REQUIRE("refused", !r.success_, "");
  // and it still works
  r = m.match(src, dst, frame(s.truth).matrix());
  PBT_REQUIRE("works-after", r.success_, "");
}
PBT_MAIN()
