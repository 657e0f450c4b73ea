// C26: look-up table of a scan, and the exhaustive search over it
#include "scene_common.h"
#include <ndt_gslam/registration/correlative_estimation2d.h>
#include <set>
namespace
{
typedef pcl::ml_corr::LookUpTable<P> Table;
typedef pcl::ml_corr::SmoothingKernel Kernel;
typedef std::vector<pcl::ml_corr::IndexPoint> Indexes;

struct RefTable {  // cells with a target point, smoothed by the best kernel value
  double step, minx = 0, maxx = 0, miny = 0, maxy = 0;
  std::set<Ix> cells;
  Kernel kernel;
  size_t n = 0;
  RefTable(double s, double std) : step(s), kernel(static_cast<float>(1 / s), static_cast<float>(std), 100)
  {
  }
  Ix cell(double x, double y) const
  {
    return Ix(static_cast<long>(std::floor((x - minx) / step + 0.5)), static_cast<long>(std::floor((maxy - y) / step + 0.5)));
  }
  double margin(double x, double y) const
  {
    double r = 1;
    for (double u : {(x - minx) / step + 0.5, (maxy - y) / step + 0.5})
      r = std::min(r, std::fabs(u - std::round(u)));
    return r;
  }
  void init(const Cloud& c)
  {
    n = c.size();
    for (auto& p : c) {
      minx = std::min<double>(minx, p.x);
      maxx = std::max<double>(maxx, p.x);
      miny = std::min<double>(miny, p.y);
      maxy = std::max<double>(maxy, p.y);
    }
    for (auto& p : c)
      cells.insert(cell(p.x, p.y));
  }
  double at(Ix i) const
  {
    double best = 0;
    long h = kernel.halfSize();
    for (long r = -h; r <= h; ++r)
      for (long k = -h; k <= h; ++k)
        if (cells.count(Ix(i.first + k, i.second + r)))
          best = std::max<double>(best, kernel(static_cast<int>(r), static_cast<int>(k)));
    return best;
  }
  bool inside(double x, double y) const
  {
    return x >= minx && x <= maxx && y >= miny && y <= maxy;
  }
};
Cloud genCloud(Case& c, double step, size_t lo, size_t hi, double reach)
{
  Cloud r;
  size_t n = static_cast<size_t>(c.range(static_cast<int64_t>(lo), static_cast<int64_t>(hi)));
  bool lattice = c.coin(40);  // many points share coordinates, as walls along an axis do
  for (size_t i = 0; i < n; ++i) {
    double x = c.real(-reach, reach), y = c.real(-reach, reach);
    if (lattice) {
      x = std::round(x / step) * step;
      y = std::round(y / step) * step;
    }
    r.push_back(P(static_cast<float>(x), static_cast<float>(y), 0));
  }
  return r;
}
double genStep(Case& c)
{
  static const double k[] = {0.25, 0.5, 0.125, 1.0, 2.0};
  return k[c.draw(5)];
}
}

PBT_TEST(kernel, 4000, 60000)
{
  float res = static_cast<float>(c.logreal(0.05, 20)), std = static_cast<float>(c.logreal(0.01, 50));
  if (c.coin(50))
    std = static_cast<float>(res * c.uniform(0.5, 3));
  short occ = static_cast<short>(c.coin(60) ? 100 : c.range(1, 254));
  Kernel k(res, std, occ);
  int h = k.halfSize();
  c.note("resolution ", res, " deviation ", std, " peak ", occ, " half size ", h);
  c.nontrivial(h >= 2);
  PBT_REQUIRE("size", h >= 1 && k.size() == 2 * h + 1, k.size());
  PBT_REQUIRE("peak", k(0, 0) == occ, k(0, 0));
  double s = std::min<double>(std::max<double>(std, 0.5 * res), 10.0 * res);
  PBT_REQUIRE("covers-two-deviations", std::fabs(h * res - 2 * s) <= 0.51 * res, h, " cells of ", res, " deviation ", s);
  for (int r = -h; r <= h; ++r)
    for (int q = -h; q <= h; ++q) {
      PBT_REQUIRE("symmetric", k(r, q) == k(-r, q) && k(r, q) == k(q, r), r, " ", q);
      double w = occ * std::exp(-0.5 * (r * r + q * q) * double(res) * res / (s * s));
      PBT_REQUIRE("normal", std::fabs(k(r, q) - w) <= 0.51, "at ", r, " ", q, " is ", k(r, q), " want ", w);
      PBT_REQUIRE("row-major", k[static_cast<size_t>((r + h) * k.size() + q + h)] == k(r, q), "");
    }
}

PBT_TEST(scores, 8000, 200000)
{
  double step = genStep(c), std = c.coin(80) ? 0.5 : c.logreal(0.05, 10);
  Cloud target = genCloud(c, step, 0, 20, 12 * step), query = genCloud(c, step, 0, 10, 16 * step);
  for (auto& p : target)
    if (c.coin(40))
      query.push_back(p);
  RefTable ref(step, std);
  ref.init(target);
  for (auto& p : target)
    c.assume(ref.margin(p.x, p.y) > 1e-3);
  Cloud use;
  for (auto& p : query)
    if (ref.margin(p.x, p.y) > 1e-3)
      use.push_back(p);
  Table t;
  if (c.coin(20))
    PBT_REQUIRE("unset", t.getScore(Cloud()) == 0, "");
  if (c.coin(30))
    t.initGrid(genCloud(c, step, 0, 10, 5), static_cast<float>(genStep(c)), 0.5f);
  t.initGrid(target, static_cast<float>(step), static_cast<float>(std));
  int sx = static_cast<int>(c.range(-6, 6)), sy = static_cast<int>(c.range(-6, 6));
  double want = 0, wantIdx = 0, wantMoved = 0;
  size_t hit = 0;
  for (auto& p : use) {
    Ix i = ref.cell(p.x, p.y);
    double v = ref.at(i);
    wantIdx += v;
    wantMoved += ref.at(Ix(i.first + sx, i.second - sy));
    hit += v > 0;
    if (ref.inside(p.x, p.y))
      want += v;
  }
  double f = ref.n ? 1 / (100.0 * static_cast<double>(ref.n)) : 0;
  c.note("step ", step, " deviation ", std, " target ", target.size(), " query ", use.size(), " hits ", hit);
  c.nontrivial(hit > 0 && hit < use.size());
  PBT_REQUIRE("cloud-score", std::fabs(t.getScore(use) - want * f) < 1e-9, t.getScore(use), " want ", want * f);
  Indexes idx = t.toIndexes(use), moved;
  PBT_REQUIRE("index-count", idx.size() == use.size(), idx.size());
  PBT_REQUIRE("index-score", std::fabs(t.getScore(idx) - wantIdx * f) < 1e-9, t.getScore(idx), " want ", wantIdx * f);
  t.transformIndexes(idx, moved, static_cast<float>((sx + 0.25) * step), static_cast<float>((sy + 0.25) * step));
  PBT_REQUIRE("translated-score", std::fabs(t.getScore(moved) - wantMoved * f) < 1e-9, t.getScore(moved), " want ", wantMoved * f, " by ", sx, " ", sy);
  Indexes in = idx;
  t.moveIndexes(in, sx, -sy);
  PBT_REQUIRE("moved-score", std::fabs(t.getScore(in) - wantMoved * f) < 1e-9, t.getScore(in), " want ", wantMoved * f);
  double sum = 0;
  long h = ref.kernel.halfSize();
  Ix far = ref.cell(ref.maxx, ref.miny);
  for (long x = -h - 1; x <= far.first + h + 1; ++x)
    for (long y = -h - 1; y <= far.second + h + 1; ++y)
      sum += ref.at(Ix(x, y));
  PBT_REQUIRE("table-sum", std::fabs(t.getMaxScore() - sum) < 1e-6, t.getMaxScore(), " want ", sum);
  if (target.size())
    PBT_REQUIRE("itself", std::fabs(t.getScore(target) - 1) < 1e-9, "a scan scores ", t.getScore(target), " against itself");
}

PBT_TEST(cloud_motion, 3000, 60000)
{
  Cloud in = genCloud(c, 0.5, 0, 12, 20), r, m;
  float a = static_cast<float>(c.angle()), dx = static_cast<float>(c.real(-5, 5)), dy = static_cast<float>(c.real(-5, 5));
  pcl::ml_corr::rotatePointCloud(in, r, a);
  pcl::ml_corr::translatePointCloud(in, m, dx, dy);
  PBT_REQUIRE("counts", r.size() == in.size() && m.size() == in.size(), "");
  c.nontrivial(in.size() > 2 && std::fabs(a) > 0.1);
  for (size_t i = 0; i < in.size(); ++i) {
    V2 w = Eigen::Rotation2Dd(a) * V2(in[i].x, in[i].y);
    PBT_REQUIRE("turned", (V2(r[i].x, r[i].y) - w).norm() < 1e-4, i);
    PBT_REQUIRE("shifted", std::fabs(m[i].x - in[i].x - dx) < 1e-4 && std::fabs(m[i].y - in[i].y - dy) < 1e-4, i);
  }
}

// no candidate of the search window beats the one returned
PBT_TEST(search_is_exhaustive, 500, 12000)
{
  double step = c.coin(70) ? 0.25 : 0.5;
  Cloud target = genCloud(c, step, 1, 25, 2.5);
  V3 t = genOffset(c, 1, 0.5);
  T2 inv = frame(t).inverse();
  Cloud source;
  for (auto& p : target)
    if (c.coin(85)) {
      V2 q = inv * V2(p.x, p.y);
      source.push_back(P(static_cast<float>(q(0)), static_cast<float>(q(1)), 0));
    }
  Cloud extra = genCloud(c, step, 1, 4, 3);
  for (auto& p : extra)
    source.push_back(p);
  V3 g = c.coin(30) ? V3(V3::Zero()) : genOffset(c, 0.6, 0.3);
  float range = static_cast<float>(step * static_cast<double>(c.range(1, 5))), turn = static_cast<float>(0.2 * c.uniform(0.5, 4));
  unsigned threads = static_cast<unsigned>(c.coin(70) ? 1 : c.range(2, 4));
  c.note("target ", target.size(), " source ", source.size(), " true ", str(t), " guess ", str(g), " range ", range, " turn ", turn, " threads ", threads);
  pcl::CorrelativeEstimation<P, P> e;
  e.setCoarseStep(static_cast<float>(step));
  e.setTranslationRange(range);
  e.setRotationRange(turn);
  e.enableMultithreading(threads);
  e.setInputSource(Cloud::ConstPtr(shared(source)));
  e.setInputTarget(Cloud::ConstPtr(shared(target)));
  Cloud out;
  e.align(out, matOf(g));
  PBT_REQUIRE("found-something", e.hasConverged(), "");
  Eigen::Matrix4f fin = e.getFinalTransformation();
  planar(fin);
  movedBy(fin, source, out);
  Cloud guessed;
  pcl::transformPointCloud(source, guessed, matOf(g));
  Table table;
  table.initGrid(target, static_cast<float>(step), 0.5f);
  T2 d = frame(poseOf(fin)) * frame(g).inverse();
  V3 got(d.translation()(0), d.translation()(1), std::atan2(d(1, 0), d(0, 0)));
  double best = 0, mine = -1;
  size_t n = 0, better = 0;
  for (float a = -turn; a < turn; a += 0.2f) {
    Cloud rot;
    pcl::ml_corr::rotatePointCloud(guessed, rot, a);
    Indexes idx = table.toIndexes(rot), moved;
    for (float dx = -range; dx < range; dx += static_cast<float>(step))
      for (float dy = -range; dy < range; dy += static_cast<float>(step)) {
        table.transformIndexes(idx, moved, dx, dy);
        double s = table.getScore(moved);
        ++n;
        better += s > best;
        best = std::max(best, s);
        if (pbt::angDist(a, got(2)) < 1e-3 && std::hypot(dx - got(0), dy - got(1)) < 1e-3)
          mine = s;
      }
  }
  c.nontrivial(better >= 3);
  PBT_REQUIRE("candidate", mine >= 0, "result is ", str(got), " after the guess, which is no candidate");
  PBT_REQUIRE("best", mine >= best - 1e-9, "score ", mine, " of ", n, " candidates the best has ", best);
}
PBT_MAIN()
