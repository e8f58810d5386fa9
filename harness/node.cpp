// C41, C42: the ROS node, run inside the harness against recorded topics, parameters and transforms.
#include "common.h"
#include "minigomp.h"
#include "g2o_compat.h"
#include <ros/node.h>
#define main node_main
#include NODE_CPP
#undef main
using vf::Case;
using vf::Rng;
typedef Eigen::Vector2d V2;
typedef Eigen::Vector3d V3;
typedef Eigen::Matrix3d M3;
typedef Eigen::Matrix4d M4;
static M3 H(const V3 &p)
{
  M3 m;
  m << std::cos(p(2)), -std::sin(p(2)), p(0), std::sin(p(2)), std::cos(p(2)), p(1), 0, 0, 1;
  return m;
}
static V3 unH(const M3 &m) { return V3(m(0, 2), m(1, 2), std::atan2(m(1, 0), m(0, 0))); }
static V3 plus(const V3 &a, const V3 &b) { return unH(H(a) * H(b)); }
static V3 minus(const V3 &a, const V3 &b) { return unH(H(a).inverse() * H(b)); }
static M4 T3(const V3 &p, double z)
{
  M4 m = M4::Identity();
  m(0, 0) = m(1, 1) = std::cos(p(2));
  m(1, 0) = std::sin(p(2));
  m(0, 1) = -m(1, 0);
  m(0, 3) = p(0);
  m(1, 3) = p(1);
  m(2, 3) = z;
  return m;
}
#include "room.h"

// Stands in for the algorithm: remembers what it was told and answers as scripted.
struct Recorder : ISlamAlgorithm {
  struct Call { M3 motion; Covar cov; PointCloud pc; ros::Time t; };
  std::vector<Call> calls;
  std::vector<V3> answers;
  std::map<std::string, std::vector<float>> set;
  V3 next = V3::Zero();
  Pose update(const Transform &m, const Covar &cv, const PointCloud &pc, const ros::Time &t) override
  {
    calls.push_back({M3(m.matrix()), cv, pc, t});
    answers.push_back(next);
    return next;
  }
  nav_msgs::OccupancyGrid getOccupancyGrid(const std::string &f) const override
  {
    nav_msgs::OccupancyGrid g;
    g.header.frame_id = f;
    g.info.width = calls.size();
    return g;
  }
  visualization_msgs::MarkerArray getGraphSerialized(const std::string &f) const override
  {
    visualization_msgs::MarkerArray a;
    a.markers.resize(calls.size());
    for (auto &m : a.markers) m.header.frame_id = f;
    return a;
  }
  ndt_gslam::NDTMapMsg getNDTMap(const std::string &f) const override
  {
    ndt_gslam::NDTMapMsg m;
    m.header.frame_id = f;
    m.cells.resize(calls.size());
    return m;
  }
  PointCloud::Ptr cloud(const std::string &f, float v) const
  {
    PointCloud::Ptr p(new PointCloud());
    p->header.frame_id = f;
    p->push_back(PointType(v, calls.size(), 0));
    return p;
  }
  PointCloud::Ptr getPclMap(const std::string &f) const override { return cloud(f, 1); }
  PointCloud::Ptr getPclMap2(const std::string &f) const override { return cloud(f, 2); }
  void setRunWindowRadius(float v) override { set["scanmatch_window_radius"].push_back(v); }
  void setGenerationDistance(float v) override { set["node_gen_distance"].push_back(v); }
  void setLoopClosureMaxDist(float v) override { set["loop_max_distance"].push_back(v); }
  void setLoopClosureMinDist(float v) override { set["loop_min_distance"].push_back(v); }
  void setLoopClosureScoreThreshold(float v) override { set["loop_score_threshold"].push_back(v); }
};

static void one(Case &c)
{
  auto &w = ros_shim::world();
  w.reset();
  tf_shim::state().reset();
  auto &sent = tf_shim::state().sent;
  bool real = PROP == 42 && c.index % 61 == 7;
  // the parameters
  std::string mode = c.rng.pick(std::vector<std::string>{"ODOM", "POSE", "NON", "", "other"}), prefix;
  if (!mode.empty()) w.params["subscribe_mode"] = mode;
  std::string base = "base_link", odomf = "odom", fixed = "map";
  auto name = [&](const char *key, std::string &v) { if (c.rng.chance(0.5)) { v = "f" + std::to_string(c.rng.below(1000)) + key; w.params[key] = v; } };
  name("robot_base_frame_id", base);
  name("odom_farme_id", odomf);
  name("map_farme_id", fixed);
  switch (c.rng.below(4)) {
    case 0: w.params["tf_prefix"] = prefix = "robot" + std::to_string(c.rng.below(9)); break;
    case 1: w.outer["tf_prefix"] = prefix = "fleet" + std::to_string(c.rng.below(9)); break;
    case 2: w.params["tf_prefix"] = std::string(""); break;
  }
  if (!prefix.empty()) { base = prefix + "/" + base; odomf = prefix + "/" + odomf; fixed = prefix + "/" + fixed; }
  std::map<std::string, double> want = {{"scanmatch_window_radius", 40}, {"node_gen_distance", 2}, {"loop_max_distance", 30}, {"loop_min_distance", 14}, {"loop_score_threshold", 0.6}};
  for (auto &p : want)
    if (!real && c.rng.chance(0.5)) {
      if (c.rng.chance(0.3)) { int v = (int)c.rng.range(1, 60); w.params[p.first] = v; p.second = v; }
      else { p.second = c.rng.uni(0.1, 60); w.params[p.first] = p.second; }
    }
  bool graph = true;
  if (c.rng.chance(0.6)) w.params["serialize_graph"] = graph = c.rng.chance(0.5);
  c.trace << "mode " << mode << " frames " << fixed << ' ' << odomf << ' ' << base << (real ? " with the algorithm " : " ");

  std::unique_ptr<NdtSlamAlgortihm> full;
  if (real) full.reset(new NdtSlamAlgortihm());
  Recorder rec;
  ISlamAlgorithm &alg = real ? static_cast<ISlamAlgorithm &>(*full) : rec;
  vf::family("construct");
  ros::NodeHandle n, np("~");
  GraphSlamNode node(n, np, alg);
  node.start();
  c.check(w.spun, "spins", "starting does not spin");
#if PROP == 41
  for (auto &p : want) {
    auto &got = rec.set[p.first];
    c.check(!got.empty() && std::fabs(got.back() - p.second) < 1e-5 * p.second, "parameters", p.first, "is", p.second, "and told as", got.empty() ? -1 : got.back());
  }
#endif
  bool odo = mode == "ODOM", pos = mode == "POSE";
  std::set<std::string> topics, expect = {"/scan"};
  if (odo) expect.insert("/odom");
  if (pos) expect.insert("/pose");
  for (auto &s : w.subs) topics.insert(s->topic);
  c.check(topics == expect && w.subs.size() == expect.size(), "topics", "listens to", w.subs.size(), "topics in mode", mode);

  // the world
  Rng &r = c.rng;
  V3 mount(r.uni(-0.5, 0.5), r.uni(-0.5, 0.5), r.chance(0.3) ? 0 : r.uni(-3, 3)), odom(r.uni(-20, 20), r.uni(-20, 20), r.uni(-3.1, 3.1)), est(0, 0, 0), used = odom, place(0, 0, 0);
  if (r.chance(0.2)) odom.setZero();
  double height = r.uni(0, 1);
  Room room(r, 2.2);
  bool base_ok = true, odom_ok = true, started = false;
  ros::Time stamps[2];
  std::string laser = r.chance(0.5) ? "laser" : base;
  if (laser == base) { mount.setZero(); height = 0; }
  tf_shim::state().lookup = [&](const std::string &target, const std::string &source, const ros::Time &t) {
    if (!(t == stamps[0] || t == stamps[1])) throw tf::TransformException("no transform at that time");
    if (target == base && source == laser && base_ok) return tf::StampedTransform(tf::Transform(T3(mount, height)), t, target, source);
    if (target == laser && source == base && base_ok) return tf::StampedTransform(tf::Transform(T3(mount, height)).inverse(), t, target, source);
    if (target == odomf && source == base && odom_ok) return tf::StampedTransform(tf::Transform(T3(odom, 0)), t, target, source);
    if (target == base && source == odomf && odom_ok) return tf::StampedTransform(tf::Transform(T3(odom, 0)).inverse(), t, target, source);
    throw tf::TransformException("no such transform: " + source + " to " + target);
  };
  double clock = r.uni(1, 1e6);
  int total = (int)(real ? 25 : r.range(3, 30));
  tf::StampedTransform lastTF;
  bool anyTF = false;
  for (int k = 0; k < total; ++k) {
    // the robot moves
    V3 m = k == 0 ? V3(0, 0, 0) : real ? V3(0.15, 0, 0.2) : r.chance(0.1) ? V3(0, 0, 0) : V3(r.uni(-2, 2), r.uni(-2, 2), r.uni(-3, 3));
    odom = plus(odom, m);
    place = plus(place, m);
    if (r.chance(0.5)) odom(2) = std::remainder(odom(2), 2 * M_PI);
    clock += r.uni(0.01, 0.5);
    double other = clock + r.uni(-0.02, 0.02);
    stamps[0] = ros::Time(clock);
    stamps[1] = odo || pos ? ros::Time(other) : stamps[0];
    base_ok = real || !r.chance(0.07);
    odom_ok = real || !r.chance(0.07);
    if (real && k && r.chance(0.1)) odom_ok = false;
    // what the laser sees
    auto scan = boost::make_shared<sensor_msgs::LaserScan>();
    scan->header.stamp = stamps[1];
    scan->header.frame_id = laser;
    scan->range_min = 0.05f;
    scan->range_max = 30;
    size_t beams = real ? 1440 : r.pick(std::vector<size_t>{500, 720, 1000}), good = real ? beams : r.pick(std::vector<size_t>{beams, 400, 399, 401, 100, 0, beams - 10});
    scan->angle_min = (float)r.uni(-3.14, -1);
    if (real) scan->angle_min = -3.1f;
    scan->angle_increment = (float)((real ? 6.28 : r.uni(1, 2 * std::fabs(scan->angle_min))) / beams);
    scan->ranges.resize(beams);
    std::vector<size_t> order(beams);
    for (size_t i = 0; i < beams; ++i) order[i] = i;
    for (size_t i = 0; i + 1 < beams; ++i) std::swap(order[i], order[i + r.below(beams - i)]);
    std::vector<V2> points;
    V3 eye = plus(place, mount);
    for (size_t i = 0; i < beams; ++i) {
      float &x = scan->ranges[order[i]];
      if (i >= good) { x = r.pick(std::vector<float>{NAN, INFINITY, 0.01f, 31.f, -1.f}); continue; }
      double a = scan->angle_min + order[i] * (double)scan->angle_increment;
      x = real ? (float)(100 * room.blocked(eye.head<2>(), V2(eye.head<2>() + 100 * V2(std::cos(eye(2) + a), std::sin(eye(2) + a)))) + 0.01 * r.gauss()) : (float)r.uni(0.1, 29);
      if (real && !(x < 30)) continue;
      points.push_back(mul(H(mount), V2(x * std::cos(a), x * std::sin(a))));
    }
    bool usable = base_ok && odom_ok && points.size() >= 400;
    if (!real) rec.next = !started ? V3(0, 0, 0) : V3(r.uni(-30, 30), r.uni(-30, 30), r.uni(-3.1, 3.1));
    boost::array<double, 36> cov;
    for (auto &x : cov) x = r.uni(-1, 1);
    size_t calls = rec.calls.size(), tfs = sent.size();
    w.published.clear();
    vf::family("message");
    auto tell = [&](bool scanPart) {
      if (scanPart) { c.check(w.deliver<sensor_msgs::LaserScan>("/scan", scan) == 1, "topics", "nobody took the scan"); return; }
      if (odo) {
        auto o = boost::make_shared<nav_msgs::Odometry>();
        o->header.stamp = stamps[0];
        o->pose.covariance = cov;
        w.deliver<nav_msgs::Odometry>("/odom", o);
      } else if (pos) {
        auto o = boost::make_shared<geometry_msgs::PoseWithCovarianceStamped>();
        o->header.stamp = stamps[0];
        o->pose.covariance = cov;
        w.deliver<geometry_msgs::PoseWithCovarianceStamped>("/pose", o);
      }
    };
    bool first = r.chance(0.5);
    tell(first);
    tell(!first);
    c.ev(usable ? "usable" : base_ok && odom_ok ? "too_few_points" : "no_transform");
    if (!real) {
#if PROP == 41
      c.check(rec.calls.size() == calls + usable, "once", "message", k, usable ? "usable" : "unusable", "with", points.size(), "points:", rec.calls.size() - calls, "updates");
      if (usable && rec.calls.size() == calls + 1) {
        auto &u = rec.calls.back();
        M3 want = started ? M3(H(used).inverse() * H(odom)) : M3(M3::Identity());
        c.check((u.motion - want).cwiseAbs().maxCoeff() < 1e-6, "motion", "message", k, "motion", unH(u.motion).transpose(), "instead of", unH(want).transpose());
        c.check(u.t == stamps[0] || u.t == stamps[1], "stamp", "message", k, "update at", u.t.toSec());
        if (odo || pos) {
          const int at[9] = {0, 1, 5, 6, 7, 11, 30, 31, 35};
          for (int i = 0; i < 9; ++i) c.check(u.cov(i / 3, i % 3) == cov[at[i]], "covariance", "entry", i);
        } else c.check((u.cov - u.cov.transpose()).norm() == 0 && u.cov.ldlt().isPositive() && u.cov.determinant() > 0, "covariance", "not positive");
        c.check(u.pc.size() == points.size(), "cloud", u.pc.size(), "points instead of", points.size());
        // in whichever order
        std::vector<std::pair<float, float>> a, b;
        std::vector<std::pair<double, size_t>> ka, kb;
        for (size_t i = 0; i < u.pc.size(); ++i) ka.push_back({u.pc.points[i].x + 1.7 * u.pc.points[i].y, i});
        for (size_t i = 0; i < points.size(); ++i) kb.push_back({points[i](0) + 1.7 * points[i](1), i});
        std::sort(ka.begin(), ka.end());
        std::sort(kb.begin(), kb.end());
        double worst = 0;
        for (size_t i = 0; i < ka.size() && i < kb.size(); ++i) worst = std::max(worst, std::fabs(ka[i].first - kb[i].first));
        c.check(worst < 1e-3, "cloud", "points off by", worst);
        for (size_t i = 0; i < u.pc.size(); ++i) c.check(std::fabs(u.pc.points[i].z - height) < 1e-5, "cloud", "height", u.pc.points[i].z);
        if (started && calls && minus(used, odom).norm() > 1e-9) c.ev("motions");
      }
#endif
    }
#if PROP == 42
    bool had = started;
#endif
    if (usable) { used = odom; started = true; }
#if PROP == 42
    c.check(sent.size() == tfs + 1, "one-transform", "message", k, sent.size() - tfs, "transforms");
    if (sent.size() > tfs) {
      auto &t = sent.back();
      c.check(t.frame_id_ == fixed && t.child_frame_id_ == odomf, "frames", t.frame_id_, t.child_frame_id_);
      c.check(t.stamp_ == stamps[0] || t.stamp_ == stamps[1], "stamp", "transform at", t.stamp_.toSec());
      c.check(t.m.allFinite(), "finite", "message", k, "the transform published is not initialised");
      M4 R = t.m;
      c.check((R.topLeftCorner<3, 3>() * R.topLeftCorner<3, 3>().transpose() - M3::Identity()).norm() < 1e-6 && std::fabs(R(2, 3)) < 1e-9 && std::fabs(R(2, 2) - 1) < 1e-9, "rigid", "message", k);
      M4 now = R * T3(odom, 0);
      V3 shown(now(0, 3), now(1, 3), std::atan2(now(1, 0), now(0, 0)));
      if (usable) {
        V3 e = real ? est : rec.answers.empty() ? V3(0, 0, 0) : rec.answers.back();
        if (!real) {
          c.check((shown - e).head<2>().norm() < 1e-6 && vf::angdiff(shown(2), e(2)) < 1e-6, "place", "message", k, "the transforms put the robot at", shown.transpose(), "the estimate is", e.transpose());
          c.ev(had ? "places" : "first_places");
        } else {
          V3 tr = minus(V3(0, 0, 0), place);
          c.check((shown - tr).head<2>().norm() < 0.5 && vf::angdiff(shown(2), tr(2)) < 0.2, "follows", "message", k, "shown at", shown.transpose(), "and really at", tr.transpose());
          c.ev("real_places");
        }
      } else if (anyTF) {
        c.check((R - lastTF.m).cwiseAbs().maxCoeff() < 1e-9, "kept", "message", k, "an unused scan changed the correction");
        c.ev("kept");
      }
      lastTF = t;
      anyTF = true;
    }
    // what is published with it
    std::map<std::string, int> count;
    for (auto &p : w.published) ++count[p.topic];
    if (!usable) c.check(w.published.empty(), "published", "message", k, "maps without an update");
    else if (had) {
      for (const char *t : {"/win_ndt", "/map", "/win_pcl", "/map_pcl"}) c.check(count[t] == 1, "published", "message", k, count[t], "messages on", t);
      c.check(count["/graph"] == (graph ? 1 : 0), "published", count["/graph"], "graphs, told", graph);
      for (auto &p : w.published) {
        if (p.topic == "/map") {
          auto g = std::any_cast<nav_msgs::OccupancyGrid>(&p.message);
          c.check(g && g->header.frame_id == fixed && (real || g->info.width == rec.calls.size()), "published", "map of another time or frame");
        } else if (p.topic == "/win_ndt") {
          auto g = std::any_cast<ndt_gslam::NDTMapMsg>(&p.message);
          c.check(g && g->header.frame_id == fixed && (real || g->cells.size() == rec.calls.size()), "published", "window of another time or frame");
        } else if (p.topic == "/graph") {
          auto g = std::any_cast<visualization_msgs::MarkerArray>(&p.message);
          c.check(g && (real || (g->markers.size() == rec.calls.size() && g->markers[0].header.frame_id == fixed)), "published", "graph of another time or frame");
        } else {
          auto g = std::any_cast<pcl::PointCloud<pcl::PointXYZ>::Ptr>(&p.message);
          c.check(g && (*g)->header.frame_id == fixed && (real || ((*g)->points.at(0).y == rec.calls.size() && (*g)->points[0].x == (p.topic == "/map_pcl" ? 1 : 2))), "published", "cloud of another time, kind or frame on", p.topic);
        }
      }
      c.ev("publications");
    }
    for (auto &p : w.published) c.check(w.advertised.count(p.topic) > 0, "published", "not advertised", p.topic);
#endif
  }
  c.nontrivial = started;
  c.sigadd(odom(0));
  tf_shim::state().reset();
}
void run_case(Case &c) { one(c); }
