// C28: the map built from frames
#include "ndtgrid_common.h"
#include <ndt_gslam/ndt/ndt_mapper.h>
typedef slamuk::NDTMapper<Cell, P> Mapper;
namespace
{
struct Mute {
  std::stringstream sink;
  std::streambuf* old;
  Mute() : old(std::cout.rdbuf(sink.rdbuf()))
  {
  }
  ~Mute()
  {
    std::cout.rdbuf(old);
  }
};
const double CS = 0.25;
Grid::Ptr genFrame(Case& c)
{
  V3 at = genPose(c, 4);
  Grid::Ptr g(new Grid(at));
  g->setCellSize(static_cast<float>(CS));
  size_t k = static_cast<size_t>(c.range(1, 2));
  for (size_t i = 0; i < k; ++i) {
    Cloud s = cloudOf(awayFromBorders(genScan(c, CS, 2, 4), T2::Identity(), CS));
    g->mergeInTraced(s, at, true);
  }
  return g;
}
// distributions close to a border of the map's cells are left to rounding
void clearCut(const Grid& g)
{
  T2 t = frame(g.getOrigin());
  for (auto* x : g.getGaussianCells())
    if (borderDist(CS, t * V2(x->getMean().head<2>())) < 1e-5)
      throw pbt::Discard();
}
struct World {
  std::map<Ix, int> at;  // known cells by their place in the world
  static World of(const nav_msgs::OccupancyGrid& o)
  {
    World w;
    const auto& p = o.info.origin;
    double th = std::atan2(2 * (p.orientation.w * p.orientation.z + p.orientation.x * p.orientation.y),
                           1 - 2 * (p.orientation.y * p.orientation.y + p.orientation.z * p.orientation.z));
    double n = p.orientation.w * p.orientation.w + p.orientation.x * p.orientation.x + p.orientation.y * p.orientation.y + p.orientation.z * p.orientation.z;
    PBT_REQUIRE("orientation", std::fabs(n - 1) < 1e-9, "not a rotation: ", n);
    PBT_REQUIRE("size", o.data.size() == static_cast<size_t>(o.info.width) * o.info.height && o.data.size() > 0, o.data.size(), " for ", o.info.width, " x ",
                o.info.height);
    PBT_REQUIRE("resolution", o.info.resolution == static_cast<float>(CS), o.info.resolution);
    T2 t = frame(V3(p.position.x, p.position.y, th));
    for (size_t r = 0; r < o.info.height; ++r)
      for (size_t k = 0; k < o.info.width; ++k) {
        int v = o.data[r * o.info.width + k];
        if (v >= 0)
          w.at[cellAt(CS, t * V2(static_cast<double>(k) * CS, -static_cast<double>(r) * CS))] = v;
      }
    return w;
  }
};
void compare(const char* key, const Mapper& m, Grid& ref)
{
  slamuk::OccupancyGrid o = ref.createOccupancyGrid();
  nav_msgs::OccupancyGrid want;
  want.info.width = static_cast<std::uint32_t>(o.width_);
  want.info.height = static_cast<std::uint32_t>(o.height_);
  want.info.resolution = o.resolution_;
  want.info.origin.position.x = o.origin_(0);
  want.info.origin.position.y = o.origin_(1);
  want.info.origin.orientation.z = std::sin(o.origin_(2) / 2);
  want.info.origin.orientation.w = std::cos(o.origin_(2) / 2);
  want.data = std::vector<std::int8_t>(o.cells_.begin(), o.cells_.end());
  World a = World::of(m.calcOccupancyGridMsg()), b = World::of(want);
  for (auto& x : b.at) {
    auto it = a.at.find(x.first);
    PBT_REQUIRE(key, it != a.at.end(), "cell ", x.first.first, ",", x.first.second, " is missing from the map");
    PBT_REQUIRE(key, it->second == x.second, "cell ", x.first.first, ",", x.first.second, " is ", it->second, " want ", x.second);
  }
  PBT_REQUIRE(key, a.at.size() == b.at.size(), "known cells ", a.at.size(), " want ", b.at.size());
  auto pa = m.getPclMap();
  auto pb = ref.getMeansTransformed();
  PBT_REQUIRE(key, pa->size() == pb->size(), "means ", pa->size(), " want ", pb->size());
  for (auto& p : pb->points) {
    bool found = false;
    for (auto& q : pa->points)
      found = found || std::fabs(p.x - q.x) + std::fabs(p.y - q.y) < 1e-3;
    PBT_REQUIRE(key, found, "no mean at ", p.x, " ", p.y);
  }
}
Grid emptyMap()
{
  Grid g(V3(0, 0, 0));
  g.setCellSize(static_cast<float>(CS));
  return g;
}
}

// adding frames extends the map; redrawing gives what the frames, wherever
// they lie by now, would have given from scratch
PBT_TEST(history, 3000, 60000)
{
  Mute mute;
  Mapper m;
  Grid ref = emptyMap();
  std::vector<Grid::Ptr> frames;
  size_t n = static_cast<size_t>(c.range(2, c.thorough ? 12 : 8)), redrawn = 0, changed = 0;
  double time = 0;
  auto pick = [&]() { return static_cast<size_t>(c.draw(frames.size())); };
  auto rebuild = [&]() {
    std::sort(frames.begin(), frames.end(), [](const Grid::Ptr& a, const Grid::Ptr& b) { return a->getTimestamp() < b->getTimestamp(); });
    ref.clear();  // keeps its extent, as the map does: free space is only drawn within it
    for (auto& f : frames) {
      clearCut(*f);
      ref.mergeInTraced(*f, true, true);
    }
  };
  for (size_t i = 0; i < n; ++i) {
    size_t op = frames.empty() ? 0 : c.weighted({5, 3, 1, 1, 3});
    switch (op) {
      case 0: {
        Grid::Ptr f = genFrame(c);
        clearCut(*f);
        time += c.uniform(0.1, 2);
        // scans need not come in the order they were taken
        double t = c.coin(80) ? time : c.uniform(0.01, 1) + static_cast<double>(i) * 1e-3;
        c.note("add at ", t, " origin ", str(f->getOrigin()));
        size_t cells = f->getGaussianCells().size();
        if (c.coin(50))
          m.addFrame(f, ros::Time(t));
        else {
          Grid::Ptr give = f;
          m.addFrame(std::move(give), ros::Time(t));
        }
        PBT_REQUIRE("stamped", f->getTimestamp() == t, f->getTimestamp(), " want ", t);
        PBT_REQUIRE("frame-kept", f->getGaussianCells().size() == cells, "");
        frames.push_back(f);
        ref.mergeInTraced(*f, true, true);
        compare("added", m, ref);
        break;
      }
      case 1: {
        size_t k = pick();
        V3 at = genPose(c, 4);
        c.note("frame ", k, " moves to ", str(at));
        if (c.coin(50))
          m.updateFrame(frames[k], at);
        else
          frames[k]->setOrigin(at);  // as the optimiser does
        PBT_REQUIRE("moved", (frames[k]->getOrigin() - at).norm() == 0, str(frames[k]->getOrigin()));
        ++changed;
        compare("not-redrawn", m, ref);
        break;
      }
      case 2: {
        size_t k = pick();
        c.note("remove ", k);
        m.removeFrame(frames[k]);
        frames.erase(frames.begin() + static_cast<long>(k));
        ++changed;
        compare("not-redrawn", m, ref);
        break;
      }
      case 3: {
        if (frames.size() < 2)
          break;
        size_t a = pick(), b = pick();
        if (a == b)
          break;
        c.note("combine ", a, " with ", b);
        Grid want(*frames[a]);
        T2 t = frame(want.getOrigin()).inverse() * frame(frames[b]->getOrigin());
        for (auto* x : frames[b]->getGaussianCells())
          if (borderDist(CS, t * V2(x->getMean().head<2>())) < 1e-5)
            throw pbt::Discard();
        want.mergeInTraced(*frames[b], true, true);
        double when = frames[b]->getTimestamp();
        Grid::Ptr got = m.combineFrames(frames[a], frames[b]);
        PBT_REQUIRE("combined", got && got == frames[a], "not the frame used in the map");
        PBT_REQUIRE("combined-time", got->getTimestamp() == when, got->getTimestamp(), " want ", when);
        PBT_REQUIRE("combined-cells", got->getGaussianCells().size() == want.getGaussianCells().size(), got->getGaussianCells().size(), " want ",
                    want.getGaussianCells().size());
        frames.erase(frames.begin() + static_cast<long>(b));
        ++changed;
        compare("not-redrawn", m, ref);
        break;
      }
      default: {
        // the stamp is only a stamp: it may lie before that of the last redraw
        ros::Time now(c.coin(60) ? time + 5 : c.uniform(0, time + 1));
        c.note("redraw at ", now.toSec());
        rebuild();
        m.recalc(now);
        compare("redrawn", m, ref);
        PBT_REQUIRE("redraw-time", m.calcOccupancyGridMsg().info.map_load_time == now, "");
        redrawn += changed > 0;
      }
    }
  }
  c.nontrivial(redrawn > 0 && frames.size() >= 2);
}

// frames the map does not know are refused
PBT_TEST(unknown_frames, 2000, 20000)
{
  Mute mute;
  Mapper m;
  Grid ref = emptyMap();
  Grid::Ptr f = genFrame(c), g = genFrame(c);
  clearCut(*f);
  bool empty = c.coin(30);
  if (!empty) {
    m.addFrame(f, ros::Time(1));
    ref.mergeInTraced(*f, true, true);
  }
  V3 at = g->getOrigin();
  int op = static_cast<int>(c.draw(3));
  bool threw = false;
  try {
    if (op == 0)
      m.removeFrame(g);
    else if (op == 1)
      m.updateFrame(g, V3(1, 2, 3));
    else
      m.combineFrames(empty ? g : f, g);
  } catch (const std::invalid_argument&) {
    threw = true;
  }
  PBT_REQUIRE("refused", threw, "operation ", op, " on a frame that is not in the map");
  PBT_REQUIRE("untouched", (g->getOrigin() - at).norm() == 0, "");
  if (!empty)
    compare("map-untouched", m, ref);
  c.nontrivial(!empty);
}
PBT_MAIN()
