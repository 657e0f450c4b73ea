// C32: the ROS node: what goes from messages into the algorithm, and what comes out
#include "pbt.h"
#include <Eigen/Dense>
#include <cmath>
#include <iostream>
#include <memory>
#include <random>
#include <set>
#define main node_main
#include <../src/graph_slam2d_node.cpp>
#undef main
using pbt::Case;
typedef Eigen::Vector3d V3;
typedef Eigen::Matrix3d M3;
namespace
{
V3 comp(const V3& a, const V3& b)
{
  double co = std::cos(a(2)), si = std::sin(a(2));
  return V3(a(0) + co * b(0) - si * b(1), a(1) + si * b(0) + co * b(1), pbt::wrapPi(a(2) + b(2)));
}
V3 inv(const V3& a)
{
  double co = std::cos(a(2)), si = std::sin(a(2));
  return V3(-co * a(0) - si * a(1), si * a(0) - co * a(1), pbt::wrapPi(-a(2)));
}
std::string posStr(const V3& p)
{
  return pbt::cat("(", p(0), ", ", p(1), ", ", p(2), ")");
}
bool same(const V3& a, const V3& b, double tol)
{
  return pbt::close(a(0), b(0), tol) && pbt::close(a(1), b(1), tol) && pbt::angDist(a(2), b(2)) <= tol;
}
V3 genPose(Case& c)
{
  if (c.coin(15))
    return V3(0, 0, 0);
  return V3(c.uniform(-20, 20), c.uniform(-20, 20), c.coin(10) ? (c.coin(50) ? M_PI : -M_PI) : c.angle());
}
tf::Transform planar(const V3& p)
{
  return tf::Transform(Eigen::Affine3d(Eigen::Translation3d(p(0), p(1), 0) * Eigen::AngleAxisd(p(2), V3::UnitZ())));
}
// records what it is given; says what it is told to say
struct Fake : slamuk::ISlamAlgorithm {
  struct Call {
    V3 motion;
    M3 covar;
    PointCloud cloud;
    double time;
  };
  std::vector<Call> calls;
  V3 next = V3(0, 0, 0);
  std::map<std::string, float> set;
  Pose update(const Transform& motion, const Covar& covariance, const PointCloud& pcl, const ros::Time& t) override
  {
    Eigen::Matrix2d r = motion.linear();
    PBT_REQUIRE("rigid", (r * r.transpose() - Eigen::Matrix2d::Identity()).norm() < 1e-9 && r.determinant() > 0, "motion is not rigid");
    calls.push_back(Call{V3(motion.translation()(0), motion.translation()(1), std::atan2(r(1, 0), r(0, 0))), covariance, pcl, t.toSec()});
    return next;
  }
  nav_msgs::OccupancyGrid getOccupancyGrid(const std::string& f) const override
  {
    nav_msgs::OccupancyGrid m;
    m.header.frame_id = f;
    return m;
  }
  visualization_msgs::MarkerArray getGraphSerialized(const std::string& f) const override
  {
    visualization_msgs::MarkerArray m;
    m.markers.resize(1);
    m.markers[0].header.frame_id = f;
    return m;
  }
  ndt_gslam::NDTMapMsg getNDTMap(const std::string& f) const override
  {
    ndt_gslam::NDTMapMsg m;
    m.header.frame_id = f;
    return m;
  }
  PointCloud::Ptr getPclMap(const std::string& f) const override
  {
    PointCloud::Ptr m(new PointCloud());
    m->header.frame_id = f;
    return m;
  }
  PointCloud::Ptr getPclMap2(const std::string& f) const override
  {
    return getPclMap(f);
  }
  void setRunWindowRadius(float v) override
  {
    set["window"] = v;
  }
  void setGenerationDistance(float v) override
  {
    set["generation"] = v;
  }
  void setLoopClosureMaxDist(float v) override
  {
    set["max"] = v;
  }
  void setLoopClosureMinDist(float v) override
  {
    set["min"] = v;
  }
  void setLoopClosureScoreThreshold(float v) override
  {
    set["score"] = v;
  }
};
typedef slamuk::GraphSlamNode Node;
struct Rig {
  std::string fixed = "map", odom = "odom", base = "base_link", mode = "NON";
  bool graph = true;
  std::map<std::string, float> want{{"window", 40.f}, {"generation", 2.f}, {"max", 30.f}, {"min", 14.f}, {"score", 0.6f}};
  Fake alg;
  std::unique_ptr<Node> node;
};
void setUp(Case& c, Rig& r)
{
  ros::recorder() = ros::Recorder();
  tf::TransformBroadcaster::sent().clear();
  auto& rec = ros::recorder();
  size_t k = static_cast<size_t>(c.range(0, 3));
  if (k < 3) {
    r.mode = k == 0 ? "ODOM" : k == 1 ? "POSE" : "NON";
    rec.strings["subscribe_mode"] = r.mode;
  }
  if (c.coin(50))
    rec.strings["robot_base_frame_id"] = r.base = "base_footprint";
  if (c.coin(50))
    rec.strings["odom_farme_id"] = r.odom = "odom_combined";
  if (c.coin(50))
    rec.strings["map_farme_id"] = r.fixed = "world";
  if (c.coin(50)) {
    r.graph = c.coin(50);
    rec.numbers["serialize_graph"] = r.graph;
  }
  const char* names[][2] = {{"window", "scanmatch_window_radius"}, {"generation", "node_gen_distance"}, {"max", "loop_max_distance"}, {"min", "loop_min_distance"}, {"score", "loop_score_threshold"}};
  for (auto& n : names)
    if (c.coin(50)) {
      double v = c.uniform(0.1, 50);
      rec.numbers[n[1]] = v;
      r.want[n[0]] = static_cast<float>(v);
    }
  if (c.coin(40)) {
    std::string p = c.coin(50) ? "p3dx_0" : "r";
    rec.strings["/up/tf_prefix"] = p;
    r.base = p + "/" + r.base;
    r.odom = p + "/" + r.odom;
    r.fixed = p + "/" + r.fixed;
  }
  ros::NodeHandle a, b("~");
  r.node.reset(new Node(a, b, r.alg));
}
// the message as a subscriber gets it; A is odometry or a pose
template <typename A>
void deliver(const boost::shared_ptr<const A>& a, const sensor_msgs::LaserScan::ConstPtr& l)
{
  typedef message_filters::Synchronizer<message_filters::sync_policies::ApproximateTime<A, sensor_msgs::LaserScan>> S;
  PBT_REQUIRE("connected", S::last() != nullptr && S::last()->callback, "nobody listens to pairs");
  S::last()->callback(a, l);
}
}

PBT_TEST(session, 1000, 1000)
{
  Rig r;
  setUp(c, r);
  auto& rec = ros::recorder();
  typedef message_filters::Synchronizer<message_filters::sync_policies::ApproximateTime<nav_msgs::Odometry, sensor_msgs::LaserScan>> OdomSync;
  typedef message_filters::Synchronizer<message_filters::sync_policies::ApproximateTime<geometry_msgs::PoseWithCovarianceStamped, sensor_msgs::LaserScan>> PoseSync;
  std::multiset<std::string> subs(rec.subscribed.begin(), rec.subscribed.end()), want_subs{"/scan"};
  if (r.mode != "NON")
    want_subs.insert(r.mode == "ODOM" ? "odom" : "pose");
  PBT_REQUIRE("subscribed", subs == want_subs, "mode ", r.mode, ", ", subs.size(), " subscriptions");
  PBT_REQUIRE("listens", (r.mode == "NON") == (rec.callbacks.size() == 1), "mode ", r.mode);
  if (r.mode == "ODOM")
    PBT_REQUIRE("pairs", OdomSync::last() && OdomSync::last()->topics == std::make_pair(std::string("odom"), std::string("/scan")), "odometry and scans are not joined");
  if (r.mode == "POSE")
    PBT_REQUIRE("pairs", PoseSync::last() && PoseSync::last()->topics == std::make_pair(std::string("pose"), std::string("/scan")), "poses and scans are not joined");
  PBT_REQUIRE("parameters", r.alg.set == r.want, "window ", r.alg.set["window"], " generation ", r.alg.set["generation"], " max ", r.alg.set["max"], " min ",
              r.alg.set["min"], " score ", r.alg.set["score"]);

  // how the laser is mounted; maybe upside down
  std::string laser_frame = c.coin(50) ? "laser" : "p3dx_0/laser";
  V3 mount = c.coin(30) ? V3(0, 0, 0) : V3(c.uniform(-1, 1), c.uniform(-1, 1), c.angle());
  bool flipped = c.coin(30);
  Eigen::Affine3d on_base = Eigen::Translation3d(mount(0), mount(1), c.uniform(0, 1)) * Eigen::AngleAxisd(mount(2), V3::UnitZ()) *
                            Eigen::AngleAxisd(flipped ? M_PI : 0, V3::UnitX());
  std::map<double, V3> odom_at;
  bool know_laser = true, know_odom = true;
  tf::TransformListener::source() = [&](const std::string& target, const std::string& source, const ros::Time& t) -> tf::Transform {
    if (target == r.base && source == laser_frame && know_laser)
      return tf::Transform(on_base);
    if (target == laser_frame && source == r.base && know_laser)
      return tf::Transform(Eigen::Affine3d(on_base.inverse()));
    auto it = odom_at.find(t.toSec());
    if (it != odom_at.end() && know_odom) {
      if (target == r.odom && source == r.base)
        return planar(it->second);
      if (target == r.base && source == r.odom)
        return planar(it->second).inverse();
    }
    throw tf::TransformException("unknown " + target + " <- " + source);
  };

  size_t n = static_cast<size_t>(c.range(1, 10));
  bool started = false, rejected = false, moved_rejected = false;
  V3 last(0, 0, 0), slam(0, 0, 0), odom(0, 0, 0), base_odom(0, 0, 0);
  size_t used = 0;
  for (size_t i = 0; i < n; ++i) {
    double t = 100 + static_cast<double>(i) * 0.5;
    odom = i == 0 || c.coin(10) ? genPose(c) : comp(odom, V3(c.uniform(-1, 1), c.uniform(-1, 1), c.uniform(-1, 1)));
    odom_at[t] = odom;
    know_laser = !c.coin(8);
    know_odom = !c.coin(8);
    // the scan
    boost::shared_ptr<sensor_msgs::LaserScan> scan(new sensor_msgs::LaserScan());
    scan->header.frame_id = laser_frame;
    // paired messages are not taken at quite the same time
    scan->header.stamp = ros::Time(r.mode == "NON" ? t : t + (c.coin(50) ? 0.01 : 0));
    odom_at[scan->header.stamp.toSec()] = comp(odom, r.mode == "NON" || scan->header.stamp.toSec() == t ? V3(0, 0, 0) : V3(0.1, 0, 0.05));
    scan->range_min = 0.1f;
    scan->range_max = static_cast<float>(c.uniform(5, 60));
    scan->angle_min = static_cast<float>(c.uniform(-3, 0));
    size_t valid = c.coin(70) ? static_cast<size_t>(c.range(400, 500)) : static_cast<size_t>(c.coin(50) ? c.range(398, 401) : c.range(1, 399)), bad = static_cast<size_t>(c.range(0, 40));
    scan->angle_increment = static_cast<float>(6.0 / static_cast<double>(valid + bad));
    std::mt19937_64 rng(c.draw(1u << 30));
    std::vector<bool> is_bad(valid + bad, false);
    std::fill(is_bad.begin(), is_bad.begin() + static_cast<long>(bad), true);
    std::shuffle(is_bad.begin(), is_bad.end(), rng);
    std::uniform_real_distribution<float> range(0.2f, scan->range_max * 0.99f);
    std::vector<V3> points;
    for (size_t k = 0; k < is_bad.size(); ++k) {
      float d = range(rng);
      if (is_bad[k])
        d = k % 3 == 0 ? 0.f : k % 3 == 1 ? scan->range_max * 2 : std::numeric_limits<float>::quiet_NaN();
      scan->ranges.push_back(d);
      if (!is_bad[k]) {
        double a = static_cast<double>(scan->angle_min) + static_cast<double>(k) * static_cast<double>(scan->angle_increment);
        points.push_back(on_base * V3(static_cast<double>(d) * std::cos(a), static_cast<double>(d) * std::sin(a), 0));
      }
    }
    boost::array<double, 36> cov;
    for (auto& x : cov)
      x = c.real(0, 1);
    M3 want_cov;
    const int at[] = {0, 1, 5};
    for (int a = 0; a < 3; ++a)
      for (int b = 0; b < 3; ++b)
        want_cov(a, b) = cov[static_cast<size_t>(6 * at[a] + at[b])];
    if (r.mode == "NON")
      want_cov = M3::Identity() * 1e-4;
    bool ok = know_laser && know_odom && valid >= 400;
    r.alg.next = started ? genPose(c) : V3(0, 0, 0);
    size_t calls = r.alg.calls.size(), sent = tf::TransformBroadcaster::sent().size();
    rec.published.clear();

    geometry_msgs::Pose pose;
    pose.position.x = odom(0);
    pose.position.y = odom(1);
    pose.orientation.z = std::sin(odom(2) / 2);
    pose.orientation.w = std::cos(odom(2) / 2);
    if (r.mode == "ODOM") {
      boost::shared_ptr<nav_msgs::Odometry> m(new nav_msgs::Odometry());
      m->header.stamp = ros::Time(t);
      m->header.frame_id = r.odom;
      m->pose.pose = pose;
      m->pose.covariance = cov;
      deliver<nav_msgs::Odometry>(m, scan);
    } else if (r.mode == "POSE") {
      boost::shared_ptr<geometry_msgs::PoseWithCovarianceStamped> m(new geometry_msgs::PoseWithCovarianceStamped());
      m->header.stamp = ros::Time(t);
      m->header.frame_id = r.odom;
      m->pose.pose = pose;
      m->pose.covariance = cov;
      deliver<geometry_msgs::PoseWithCovarianceStamped>(m, scan);
    } else {
      boost::shared_ptr<const sensor_msgs::LaserScan> p = scan;
      rec.callbacks.at(0)(&p);
    }

    // what reached the algorithm
    PBT_REQUIRE("calls", r.alg.calls.size() == calls + (ok ? 1 : 0), r.alg.calls.size() - calls, " updates for a scan of ", valid, " points", know_laser ? "" : ", laser unknown",
                know_odom ? "" : ", odometry unknown");
    bool first = ok && !started;
    if (ok) {
      const Fake::Call& u = r.alg.calls.back();
      V3 want = first ? V3(0, 0, 0) : comp(inv(last), odom);
      PBT_REQUIRE("motion", same(u.motion, want, 1e-9), "motion ", posStr(u.motion), " instead of ", posStr(want));
      PBT_REQUIRE("covariance", u.covar == want_cov, "covariance was altered");
      PBT_REQUIRE("time", u.time == t, u.time, " instead of ", t);
      PBT_REQUIRE("points", u.cloud.size() == points.size(), u.cloud.size(), " instead of ", points.size());
      for (size_t k = 0; k < points.size(); ++k) {
        double e = std::hypot(static_cast<double>(u.cloud[k].x) - points[k](0), static_cast<double>(u.cloud[k].y) - points[k](1));
        PBT_REQUIRE("point", e < 1e-3, "point ", k, " at ", u.cloud[k].x, ", ", u.cloud[k].y, " instead of ", points[k](0), ", ", points[k](1));
      }
      last = odom;
      slam = r.alg.next;
      base_odom = odom;
      started = true;
      ++used;
      if (rejected)
        moved_rejected = true;
    } else
      rejected = true;

    // where the robot is said to be
    auto& out = tf::TransformBroadcaster::sent();
    PBT_REQUIRE("tf", out.size() == sent + 1, out.size() - sent, " transforms for one scan");
    const tf::StampedTransform& s = out.back();
    PBT_REQUIRE("tf_frames", s.frame_id_ == r.fixed && s.child_frame_id_ == r.odom, s.frame_id_, " -> ", s.child_frame_id_);
    PBT_REQUIRE("tf_time", s.stamp_.toSec() == t, s.stamp_.toSec(), " instead of ", t);
    Eigen::Matrix4d m = s.e.matrix();
    PBT_REQUIRE("tf_proper", m.allFinite() && (m.topLeftCorner<3, 3>() * m.topLeftCorner<3, 3>().transpose() - M3::Identity()).norm() < 1e-9 &&
                                 std::fabs(m.topLeftCorner<3, 3>().determinant() - 1) < 1e-9 && std::fabs(m(2, 2) - 1) < 1e-9 && std::fabs(m(2, 3)) < 1e-9,
                "scan ", i, ", ", used, " used: broadcast is no motion in the plane");
    if (started) {
      Eigen::Matrix4d b = m * planar(base_odom).e.matrix();
      V3 got(b(0, 3), b(1, 3), std::atan2(b(1, 0), b(0, 0)));
      PBT_REQUIRE("tf_pose", same(got, slam, 1e-8), "scan ", i, ", ", used, " used: puts the robot at ", posStr(got), " instead of ", posStr(slam));
    }
    // what is published
    std::map<std::string, std::string> seen;
    for (auto& p : rec.published) {
      PBT_REQUIRE("published_once", seen.count(p.first) == 0, p.first, " twice for one scan");
      seen[p.first] = p.second;
    }
    if (!ok)
      PBT_REQUIRE("published_rejected", seen.empty(), seen.size(), " messages for a scan that was not used");
    if (ok && !first) {
      for (const char* topic : {"map", "win_ndt", "map_pcl", "win_pcl"}) {
        PBT_REQUIRE("published", seen.count(topic) == 1, "no ", topic);
        PBT_REQUIRE("published_frame", seen[topic] == r.fixed, topic, " in frame ", seen[topic]);
      }
      PBT_REQUIRE("published_graph", seen.count("graph") == (r.graph ? 1u : 0u), "graph ", r.graph ? "missing" : "not wanted");
      if (r.graph)
        PBT_REQUIRE("graph_frame", seen["graph"] == r.fixed, "graph in frame ", seen["graph"]);
    }
    c.note(pbt::cat(r.mode, " scan of ", valid, " points, odometry ", posStr(odom), ok ? ": used" : ": refused", ", slam ", posStr(slam)));
  }
  if (used > 2 && moved_rejected)
    c.nontrivial();
}

PBT_MAIN()
