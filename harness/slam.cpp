// C37..C39: loop detection, the optimised pose graph, and the whole SLAM algorithm. PROP selects the oracle.
#include "common.h"
#include "minigomp.h"
#include "g2o_compat.h"
#if PROP >= 39
#include <ndt_gslam/ndt_slam_algorithm.h>
#endif
#include <fstream>
using namespace slamuk;
typedef Eigen::Vector2d V2;
typedef Eigen::Vector3d V3;
typedef Eigen::Matrix3d M3;
static M3 H(const V3 &p)
{
  M3 m;
  m << std::cos(p(2)), -std::sin(p(2)), p(0), std::sin(p(2)), std::cos(p(2)), p(1), 0, 0, 1;
  return m;
}
static V3 unH(const M3 &m) { return V3(m(0, 2), m(1, 2), std::atan2(m(1, 0), m(0, 0))); }
static V3 plus(const V3 &a, const V3 &b) { return unH(H(a) * H(b)); }
static V3 minus(const V3 &a, const V3 &b) { return unH(H(a).inverse() * H(b)); }  // b seen from a
static M3 randomInfo(Rng &r)
{
  M3 a;
  for (int i = 0; i < 9; ++i) a(i / 3, i % 3) = r.uni(-1, 1);
  M3 m = a * a.transpose() + 0.3 * M3::Identity();
  return M3(50 * (m + m.transpose()) / 2);
}

#if PROP <= 38
struct Frame {
  long id = -1;
  V3 pos = V3::Zero();
  int updates = 0;
  double getRadius() const { return 3; }
  Eigen::Vector2d getCentroid() const { return V2(0.1, 0.2); }
  void updatePosition(const V3 &p) { pos = p; ++updates; }
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
};
// a scan matcher which answers from a script and remembers what it was asked
struct Script {
  struct Ask { long source, target; M3 guess; };
  std::vector<Ask> asked;
  std::function<MatchResult(long, long)> answer;
  float threshold = -1;
};
struct Matcher : IScanmatcher2d<Frame> {
  Script *s;
  explicit Matcher(Script *sc) : s(sc) {}
  MatchResult match(const Frame &source, const Frame &target, const M3 &guess) override
  {
    s->asked.push_back({source.id, target.id, guess});
    return s->answer(source.id, target.id);
  }
  void setScoreThreshold(float t) override { s->threshold = t; }
};
static MatchResult answerFor(uint64_t salt, long source, long target, const V3 &truth, double p)
{
  Rng r(salt, source * 1000003 + target);
  MatchResult m(r.chance(p), r.unit(), MatchResult::transform_t::Identity());
  m.transform_.matrix() = H(truth);
  m.inform_ = randomInfo(r);
  return m;
}
#endif

#if PROP == 37
typedef Graph<Slam2d_Policy, Frame> G;
typedef Edge<Slam2d_Policy, Frame> E;
typedef Node<Slam2d_Policy, Frame> N;
struct Link { size_t from, to; double len; };
static void one(Case &c)
{
  // a path through the plane, with constraints between consecutive poses and some earlier loop closures
  size_t n = c.rng.chance(0.1) ? c.rng.range(1, 3) : c.rng.chance(0.1) ? c.rng.range(60, 90) : c.rng.range(4, 25);
  double step = c.rng.uni(0.5, 3), turn = c.rng.uni(0.05, 0.8);
  std::vector<V3> pose(n);
  pose[0] = V3(c.rng.uni(-5, 5), c.rng.uni(-5, 5), c.rng.uni(-3, 3));
  for (size_t i = 1; i < n; ++i) pose[i] = plus(pose[i - 1], V3(step * c.rng.uni(0.5, 1.5), c.rng.uni(-0.2, 0.2), turn + c.rng.uni(-0.3, 0.3)));
  G g;
  for (size_t i = 0; i < n; ++i) {
    Frame f;
    f.id = i;
    size_t id = g.addNode(N(pose[i], f));
    c.check(id == i, "setup", "node id", id);
  }
  std::vector<Link> links;
  auto link = [&](size_t a, size_t b, bool loop) {
    V3 t = minus(pose[a], pose[b]);
    if (c.rng.chance(0.5)) t += V3(0.05 * c.rng.gauss(), 0.05 * c.rng.gauss(), 0.02 * c.rng.gauss());
    E e(&g.getNode(a), &g.getNode(b), t, randomInfo(c.rng));
    size_t id = g.addEdge(std::move(e));
    g.getEdge(id).setType(loop ? E::Type::LOOP : E::Type::ODOM);
    links.push_back({a, b, t.head<2>().norm()});
  };
  bool broken = c.rng.chance(0.15);  // some nodes are not linked
  for (size_t i = 1; i < n; ++i)
    if (!broken || !c.rng.chance(0.15)) link(i - 1, i, false);
  int loops = n > 3 ? (int)c.rng.range(0, 5) : 0;
  for (int i = 0; i < loops; ++i) {
    size_t a = c.rng.range(2, n - 1), b = c.rng.below(a - 1);
    if (c.rng.chance(0.8)) link(a, b, true);
    else link(b, a, true);
  }
  if (c.rng.chance(0.1) && n > 2) { size_t a = c.rng.range(1, n - 1); link(a - 1, a, false); }  // measured twice
  size_t start = c.rng.chance(0.7) ? n - 1 : c.rng.below(n);
  float minD = c.rng.pick(std::vector<float>{0, 3, 8, 20}), maxD = c.rng.pick(std::vector<float>{2, 6, 15, 1000});
  c.trace << "nodes " << n << " links " << links.size() << " start " << start << " min " << minD << " max " << maxD << ' ';
  for (auto &l : links) c.trace << l.from << ">" << l.to << ' ';
  Script s;
  uint64_t salt = c.rng.u64();
  double ps = c.rng.uni(0, 1);
  s.answer = [&](long a, long b) { return answerFor(salt, a, b, minus(pose[b], pose[a]) + V3(0.01, 0.02, 0.005), ps); };
  Matcher m(&s);
  LoopDetector<Slam2d_Policy, Frame> det(&g, &m);
  det.setMinLoopDistance(minD);
  det.setMaxLoopDistance(maxD);
  vf::family("loop-detector");
  auto found = det.genLoopClosures(start);
  // the lengths of the ways into the past of `start`
  std::vector<double> shortest(n, -1), longest(n, -1);
  std::vector<char> on(n, 0);
  size_t budget = 200000;
  bool exact = true;
  std::function<void(size_t, double)> walk = [&](size_t v, double d) {
    if (!budget) { exact = false; return; }
    --budget;
    if (v != start) {
      if (shortest[v] < 0 || d < shortest[v]) shortest[v] = d;
      longest[v] = std::max(longest[v], d);
    }
    on[v] = 1;
    for (auto &l : links)
      if (l.to == v && !on[l.from]) walk(l.from, d + l.len);
    on[v] = 0;
  };
  walk(start, 0);
  size_t must = 0;
  std::set<long> seen;
  for (auto &a : s.asked) {
    c.check(a.target == (long)start, "pairs", "matched against node", a.target, "instead of", start);
    c.check(a.source != (long)start, "pairs", "node", start, "matched with itself");
    c.check(seen.insert(a.source).second, "twice", "node", a.source, "was matched twice");
    c.check(a.source >= 0 && a.source < (long)n && longest[a.source] >= 0, "unreachable", "node", a.source, "does not lie in the past of", start);
    double d = (pose[a.source] - pose[start]).head<2>().norm();
    c.check(d < maxD, "far", "node", a.source, "at", d, "is farther than", maxD);
    if (exact) c.check(longest[a.source] >= minD - 1e-9, "near", "node", a.source, "is only", longest[a.source], "back on any way, less than", minD);
    c.check(vf::angdiff(std::atan2(a.guess(1, 0), a.guess(0, 0)), pose[a.source](2) - pose[start](2)) < 1e-9, "guess", "heading of the guess\n", a.guess);
  }
  c.check(seen.size() <= 50, "bounded", seen.size(), "scans matched");
  for (size_t v = 0; v < n && exact; ++v)
    if (v != start && shortest[v] > minD + 1e-9 && (pose[v] - pose[start]).head<2>().norm() < maxD - 1e-9) {
      ++must;
      if (seen.size() < 50) c.check(seen.count(v), "missed", "node", v, "was never tried: distance", (pose[v] - pose[start]).head<2>().norm(), "way", shortest[v]);
    }
  c.ev("candidates", seen.size());
  c.ev("required_candidates", must);
  if (seen.size() == 50) c.ev("bound_reached");
  if (start != n - 1 || broken) c.ev("not_all_reachable");
  if (loops) c.ev("earlier_loops");
  // the closures are what the matcher accepted
  size_t k = 0;
  for (auto &a : s.asked) {
    MatchResult r = s.answer(a.source, a.target);
    if (!r.success_) continue;
    c.check(k < found.size(), "closures", "an accepted match is missing");
    auto &f = found[k++];
    c.check(f.vertices_.first == start && (long)f.vertices_.second == a.source, "closures", "closure", f.vertices_.first, f.vertices_.second);
    c.check(f.t_.matrix() == r.transform_.matrix() && f.information_ == r.inform_, "closures", "transformation or information is not the matcher's");
    c.ev("closures");
  }
  c.check(k == found.size(), "closures", found.size(), "closures from", k, "accepted matches");
  for (size_t i = 0; i < n; ++i) c.check(!g.getNode(i).isVisited(), "flags", "node", i, "is left marked");
  for (size_t i = 0; i < links.size(); ++i) c.check(!g.getEdge(i).isUsed(), "flags", "edge", i, "is left marked");
  c.check(g.nodeCount() == n && g.edgeCount() == links.size(), "unchanged", "searching changed the graph");
  for (size_t i = 0; i < n; ++i) c.check(g.getNode(i).getPose() == pose[i], "unchanged", "searching moved node", i);
  // the same question again, of a fresh and of the used detector
  auto first = s.asked;
  for (int rep = 0; rep < 2; ++rep) {
    s.asked.clear();
    LoopDetector<Slam2d_Policy, Frame> fresh(&g, &m);
    fresh.setMinLoopDistance(minD);
    fresh.setMaxLoopDistance(maxD);
    auto again = rep ? det.genLoopClosures(start) : fresh.genLoopClosures(start);
    bool same = again.size() == found.size() && first.size() == s.asked.size();
    for (size_t i = 0; same && i < first.size(); ++i) same = first[i].source == s.asked[i].source;
    c.check(same, "repeatable", "asked again the search differs");
  }
  // adding and removing the closures
  auto ids = det.addToGraph(found);
  c.check(ids.size() == found.size() && g.edgeCount() == links.size() + found.size(), "added", ids.size(), "edges for", found.size(), "closures");
  for (size_t i = 0; i < ids.size(); ++i) {
    auto &e = g.getEdge(ids[i]);
    c.check(e.getFrom()->getId() == start && e.getTo()->getId() == found[i].vertices_.second && e.getType() == E::Type::LOOP, "added", "edge", ids[i]);
    c.check((H(e.getTransform()) - found[i].t_.matrix()).norm() < 1e-9 && e.getInformationMatrix() == found[i].information_, "added", "edge", ids[i], "carries other values");
  }
  det.removeFromGraph(ids);
  c.check(g.edgeCount() == links.size(), "removed", g.edgeCount(), "edges left of", links.size());
  c.nontrivial = links.size() > 3;
  c.sigadd((double)n); c.sigadd((double)links.size()); c.sigadd((double)seen.size()); c.sigadd(pose[n - 1](0));
}
#endif

#if PROP == 38
struct Con { size_t from, to; V3 t; M3 info; bool loop; };
static V3 residual(const V3 &a, const V3 &b, const V3 &t) { return unH(H(t).inverse() * H(a).inverse() * H(b)); }
static double chi2(const std::vector<V3> &x, const std::vector<Con> &cs)
{
  double s = 0;
  for (auto &k : cs) { V3 e = residual(x[k.from], x[k.to], k.t); s += e.dot(k.info * e); }
  return s;
}
// Levenberg-Marquardt with numerical derivatives, first pose fixed
static std::vector<V3> solve(std::vector<V3> x, const std::vector<Con> &cs)
{
  size_t n = x.size();
  double lambda = 1e-6, cur = chi2(x, cs);
  for (int it = 0; it < 60; ++it) {
    Eigen::MatrixXd A = Eigen::MatrixXd::Zero(3 * n, 3 * n);
    Eigen::VectorXd b = Eigen::VectorXd::Zero(3 * n);
    for (auto &k : cs) {
      V3 e = residual(x[k.from], x[k.to], k.t);
      M3 J[2];
      for (int w = 0; w < 2; ++w)
        for (int d = 0; d < 3; ++d) {
          V3 p = x[k.from], q = x[k.to], p2 = p, q2 = q;
          (w ? q : p)(d) += 1e-6;
          (w ? q2 : p2)(d) -= 1e-6;
          V3 de = residual(p, q, k.t) - residual(p2, q2, k.t);
          de(2) = std::remainder(de(2), 2 * M_PI);
          J[w].col(d) = de / 2e-6;
        }
      size_t v[2] = {k.from, k.to};
      for (int i = 0; i < 2; ++i) {
        b.segment<3>(3 * v[i]) -= J[i].transpose() * k.info * e;
        for (int j = 0; j < 2; ++j) A.block<3, 3>(3 * v[i], 3 * v[j]) += J[i].transpose() * k.info * J[j];
      }
    }
    for (size_t i = 0; i < n; ++i)
      for (int d = 0; d < 3; ++d)
        if (i == 0 || A(3 * i + d, 3 * i + d) == 0) { A.row(3 * i + d).setZero(); A.col(3 * i + d).setZero(); A(3 * i + d, 3 * i + d) = 1; b(3 * i + d) = 0; }
    Eigen::MatrixXd L = A;
    L.diagonal() *= 1 + lambda;
    Eigen::VectorXd dx = L.ldlt().solve(b);
    std::vector<V3> y = x;
    for (size_t i = 1; i < n; ++i) y[i] += dx.segment<3>(3 * i);
    double nc = chi2(y, cs);
    if (nc <= cur) { x = y; lambda *= 0.1; if (cur - nc < 1e-12 * (1 + cur)) break; cur = nc; }
    else lambda *= 10;
  }
  return x;
}
static void one(Case &c)
{
  Script s;
  Slam2D<Frame> slam(std::unique_ptr<IScanmatcher2d<Frame>>(new Matcher(&s)));
  std::vector<V3> truth, given;  // true poses and those told
  std::vector<Con> cons;
  std::vector<int> updates;
  std::vector<V3> now;  // what Slam2D holds
  bool exact = c.rng.chance(0.4), fixed_info_seen = false;
  double noise = exact ? 0 : c.rng.uni(0.001, 0.02);
  double step = c.rng.uni(0.5, 2), turn = c.rng.uni(-0.6, 0.6);
  c.trace << "noise " << noise << " turn " << turn << ' ';
  float thr = c.rng.unit();
  slam.setLoopRegistrationScore(thr);
  c.check(s.threshold == thr, "threshold", "matcher was told", s.threshold);
  uint64_t salt = c.rng.u64();
  double ps = c.rng.uni(0.3, 1);
  s.answer = [&](long a, long b) {
    Rng r(salt + 1, a * 7919 + b);
    V3 t = minus(truth[b], truth[a]);
    if (!exact) t += V3(noise * r.gauss(), noise * r.gauss(), 0.5 * noise * r.gauss());
    return answerFor(salt, a, b, t, ps);
  };
  float minD = c.rng.pick(std::vector<float>{0, 3, 6}), maxD = c.rng.pick(std::vector<float>{3, 8, 50});
  slam.setLoopGenerationMinDist(minD);
  slam.setLoopGenerationMaxDist(maxD);
  auto verify = [&](const char *when) {
    for (size_t i = 0; i < now.size(); ++i) {
      V3 p = slam.getPoseLocation(i);
      c.check((p - now[i]).head<2>().norm() < 1e-9 && vf::angdiff(p(2), now[i](2)) < 1e-9, "poses", when, "pose", i, "is", p.transpose(), "expected", now[i].transpose());
      const Frame &f = slam.getPoseData(i);
      c.check(f.id == (long)i, "data", when, "data of pose", i, "is that of", f.id);
    }
  };
  auto record = [&](size_t id, size_t a, size_t b, const V3 &t, const M3 &info, bool loop) {
    c.check(id == cons.size(), "constraint-ids", "constraint", cons.size(), "got id", id);
    auto pr = slam.getConstrainPoses(id);
    c.check(pr.first == a && pr.second == b, "constraints", "constraint", id, "links", pr.first, pr.second, "instead of", a, b);
    V3 got = slam.getConstrainTransform(id);
    c.check((H(got) - H(t)).norm() < 1e-9, "constraints", "constraint", id, "measures", got.transpose(), "instead of", t.transpose());
    M3 I = slam.getConstrainInformMat(id);
    if (I != info) {
      M3 F = M3::Zero();
      F.diagonal() << 500, 500, 5000;
      c.check(I == F, "information", "constraint", id, "has information\n", I, "\nbut was given\n", info);
      fixed_info_seen = true;
    }
    cons.push_back({a, b, t, I, loop});
  };
  size_t total = c.rng.range(1, 22), rounds = 0;
  while (truth.size() < total || rounds == 0) {
    size_t grow = std::min<size_t>(total - truth.size(), c.rng.range(1, 10));
    for (size_t g = 0; g < grow; ++g) {
      size_t i = truth.size();
      truth.push_back(i ? plus(truth[i - 1], V3(step * c.rng.uni(0.7, 1.3), c.rng.uni(-0.2, 0.2), turn + c.rng.uni(-0.2, 0.2))) : V3(c.rng.uni(-5, 5), c.rng.uni(-5, 5), c.rng.uni(-3, 3)));
      V3 t;
      if (i) {
        t = minus(truth[i - 1], truth[i]);
        if (!exact) t += V3(noise * c.rng.gauss(), noise * c.rng.gauss(), 0.5 * noise * c.rng.gauss());
      }
      // the place told: the truth, somewhat off, or by dead reckoning
      V3 p = i == 0 ? truth[0] : c.rng.chance(0.3) ? plus(now[i - 1], t) : V3(truth[i] + c.rng.pick(std::vector<double>{0, 0.05, 0.2}) * V3(c.rng.uni(-1, 1), c.rng.uni(-1, 1), c.rng.uni(-1, 1)));
      Frame f;
      f.id = i;
      f.pos = p;
      vf::family("slam2d-add");
      size_t id = slam.addPose(p, f);
      c.check(id == i, "pose-ids", "pose", i, "got id", id);
      now.push_back(p);
      updates.push_back(0);
      if (i) {
        M3 info = randomInfo(c.rng);
        record(c.rng.chance(0.5) ? slam.addLastConstrain(t, info) : slam.addConstrain(i - 1, i, t, info), i - 1, i, t, info, false);
        if (i > 2 && c.rng.chance(0.2)) {
          size_t a = c.rng.below(i), b = c.rng.below(i);
          if (a != b) {
            V3 u = minus(truth[a], truth[b]);
            if (!exact) u += V3(noise * c.rng.gauss(), noise * c.rng.gauss(), 0.5 * noise * c.rng.gauss());
            M3 in2 = randomInfo(c.rng);
            record(slam.addConstrain(a, b, u, in2), a, b, u, in2, false);
          }
        }
      }
    }
    verify("after adding");
    if (c.rng.chance(0.6)) {
      s.asked.clear();
      size_t last = truth.size() - 1, v = c.rng.chance(0.8) ? last : c.rng.below(truth.size());
      vf::family("slam2d-loops");
      bool any = v == last && c.rng.chance(0.5) ? slam.tryLoopClose() : slam.tryLoopClose(v);
      size_t k = 0;
      for (auto &a : s.asked) {
        c.check(a.target == (long)v, "loops", "matched with pose", a.target, "instead of", v);
        MatchResult r = s.answer(a.source, a.target);
        if (!r.success_) continue;
        ++k;
        record(cons.size(), v, a.source, unH(r.transform_.matrix()), r.inform_, true);
        c.ev("loops");
      }
      c.check(any == (k > 0), "loops", "reported", any, "for", k, "closures");
      verify("after loop closing");
    }
    if (c.rng.chance(0.7) || truth.size() == total) {
      vf::family("slam2d-optimize");
      double before = chi2(now, cons);
      if (c.rng.chance(0.5)) slam.optimalize();
      else slam.optimalizeIterationaly();
      std::vector<V3> x(now.size());
      for (size_t i = 0; i < x.size(); ++i) x[i] = slam.getPoseLocation(i);
      double after = chi2(x, cons);
      c.check((x[0] - now[0]).head<2>().norm() < 1e-9 && vf::angdiff(x[0](2), now[0](2)) < 1e-9, "anchor", "the first pose moved to", x[0].transpose());
      std::vector<V3> ref = solve(now, cons);
      double best = chi2(ref, cons), best2 = 0;
      if (best > 1e-9) { auto r2 = solve(truth, cons); best2 = chi2(r2, cons); (void)best2; }
      if (cons.size()) {
        c.check(after <= before + 1e-9 * (1 + before), "worse", "error grew from", before, "to", after);
        c.check(after <= best * 1.001 + 1e-6, "optimal", "error", after, "from", before, "but", best, "is attainable");
        for (size_t i = 0; i < x.size(); ++i)
          c.check((x[i] - ref[i]).head<2>().norm() < 1e-3 && vf::angdiff(x[i](2), ref[i](2)) < 1e-3, "solution", "pose", i, "at", x[i].transpose(), "instead of", ref[i].transpose());
      } else c.check((x[0] - now[0]).norm() < 1e-9, "poses", "a lonely pose moved");
      if (exact)
        for (size_t i = 0; i < x.size(); ++i) {
          V3 d = minus(truth[0], truth[i]), w = plus(now[0], d);
          c.check((x[i] - w).head<2>().norm() < 1e-3 && vf::angdiff(x[i](2), w(2)) < 1e-3, "recovers", "pose", i, "at", x[i].transpose(), "instead of", w.transpose());
        }
      now = x;
      for (size_t i = 0; i < x.size(); ++i) {
        const Frame &f = slam.getPoseData(i);
        c.check(f.updates == ++updates[i] && (f.pos - x[i]).norm() < 1e-12, "frames", "frame", i, "was told", f.pos.transpose(), "in", f.updates, "updates; its pose is", x[i].transpose());
      }
      if (cons.size() >= truth.size()) c.ev("overdetermined");
      c.ev("optimized");
      if (rounds) c.ev("optimized_again");
      verify("after optimizing");
    }
    // what is published
    auto ms = slam.getGraphSerialized("world");
    c.check(ms.markers.size() == cons.size(), "markers", ms.markers.size(), "arrows for", cons.size(), "constraints");
    std::set<int> ids;
    for (size_t i = 0; i < ms.markers.size() && i < cons.size(); ++i) {
      auto &m = ms.markers[i];
      auto &k = cons[i];
      ids.insert(m.id);
      c.check(m.header.frame_id == "world" && m.points.size() == 2 && m.type == visualization_msgs::Marker::ARROW, "markers", "arrow", i);
      c.check(V2(m.points[0].x - now[k.from](0), m.points[0].y - now[k.from](1)).norm() < 1e-9 && V2(m.points[1].x - now[k.to](0), m.points[1].y - now[k.to](1)).norm() < 1e-9,
              "markers", "arrow", i, "does not lead from pose", k.from, "to", k.to);
      c.check(k.loop ? m.color.g == 1 && m.color.r == 0 : m.color.r == 1 && m.color.g == 0, "markers", "colour of arrow", i);
      c.check(m.color.a == 1 && m.scale.x > 0, "markers", "arrow", i, "is invisible");
    }
    c.check(ids.size() == cons.size(), "markers", "ids repeat");
    std::ostringstream os;
    slam.getGraphSerialized(os);
    std::istringstream is(os.str());
    std::string line;
    size_t nn = 0, ne = 0;
    while (std::getline(is, line)) {
      size_t a, b;
      double x, y;
      if (sscanf(line.c_str(), "p%zu->p%zu", &a, &b) == 2) {
        c.check(ne < cons.size() && cons[ne].from == a && cons[ne].to == b, "dot", "edge", line);
        ++ne;
      } else if (sscanf(line.c_str(), "p%zu[ pose = \"%lf,%lf", &a, &x, &y) == 3) {
        c.check(a == nn && a < now.size() && (V2(x, y) - now[a].head<2>()).norm() < 1e-4 * (1 + now[a].norm()), "dot", "node", line);
        ++nn;
      }
    }
    c.check(nn == now.size() && ne == cons.size(), "dot", nn, "nodes and", ne, "edges");
    ++rounds;
    c.ev("rounds");
  }
  c.nontrivial = cons.size() > 3;
  c.sigadd((double)cons.size()); c.sigadd(truth.back()(0));
  c.check(!fixed_info_seen, "information-fixed", "constraints have the information 500, 500, 5000 whatever is given");
}
#endif

#if PROP >= 39
#include "room.h"
typedef NdtSlamAlgortihm Alg;
static Eigen::Transform<double, 2, Eigen::Affine> tr(const V3 &p)
{
  Eigen::Transform<double, 2, Eigen::Affine> t;
  t.matrix() = H(p);
  return t;
}
// A robot wandering in a room, told its motions with errors.
struct Robot {
  V3 start, pos;
  double step, noise;
  explicit Robot(Rng &r) : start(r.uni(-1, 1), r.uni(-1, 1), r.uni(-3, 3)), pos(start) {}
  double radius = 0;
  // starts on a circle around the origin and stays on it
  void circle(Rng &r, double rad)
  {
    double a = r.uni(-3, 3);
    radius = rad;
    start = pos = V3(rad * std::cos(a), rad * std::sin(a), a + M_PI / 2);
  }
  // moves on and returns the motion
  V3 move(Rng &r)
  {
    if (radius > 0) {
      double s = step * r.uni(0.5, 1), now = pos.head<2>().norm();
      double want = std::atan2(pos(1), pos(0)) + M_PI / 2 + std::max(-0.5, std::min(0.5, now - radius)) + 0.5 * s / radius;
      V3 m(s, 0, std::max(-0.3, std::min(0.3, std::remainder(want + 0.5 * s / radius - pos(2), 2 * M_PI))));
      pos = plus(pos, m);
      return m;
    }
    // around the centre, in changing circles
    double want = std::atan2(-pos(1), -pos(0)) + (pos.head<2>().norm() > 1.8 ? 0.5 : 1.5);
    double dt = std::remainder(want - pos(2), 2 * M_PI), most = std::min(0.3, std::max(0.01, 1.5 * step));
    V3 m(step * r.uni(0.3, 1), 0, std::max(-most, std::min(most, dt)) * r.uni(0.3, 1));
    pos = plus(pos, m);
    return m;
  }
  V3 told(const V3 &m, Rng &r) const
  {
    return m + V3(noise * m(0) * r.gauss(), noise * m(0) * r.gauss(), noise * (0.3 * std::fabs(m(2)) + 0.1 * std::fabs(m(0))) * r.gauss());
  }
  V3 truth() const { return minus(start, pos); }
};
#endif

#if PROP == 39
static void one(Case &c)
{
  Room room(c.rng);
  Robot bot(c.rng);
  bot.step = c.rng.chance(0.4) ? c.rng.uni(0.02, 0.1) : c.rng.uni(0.1, 0.5);
  bot.noise = c.rng.pick(std::vector<double>{0, 0.02, 0.1, 0.3});
  int n = (int)c.rng.range(20, 60);
  bool drops = c.rng.chance(0.4);
  float win = c.rng.pick(std::vector<float>{12, 20, 30}), gen = c.rng.uni(0.5, 2), minD = c.rng.pick(std::vector<float>{2, 4, 1000}), maxD = c.rng.pick(std::vector<float>{2, 5, 20});
  c.trace << "step " << bot.step << " noise " << bot.noise << " window " << win << " frames every " << gen << " loops from " << minD << " to " << maxD << (drops ? " with blind times" : "") << ' ';
  Alg alg;
  alg.setRunWindowRadius(win);
  alg.setGenerationDistance(gen);
  alg.setLoopClosureMinDist(minD);
  alg.setLoopClosureMaxDist(maxD);
  alg.setLoopClosureScoreThreshold(0.6);
  Alg twin;
  bool doubled = c.rng.chance(0.15);
  twin.setRunWindowRadius(win);
  twin.setGenerationDistance(gen);
  twin.setLoopClosureMinDist(minD);
  twin.setLoopClosureMaxDist(maxD);
  twin.setLoopClosureScoreThreshold(0.6);
  V3 est(0, 0, 0), odom(0, 0, 0), acc(0, 0, 0), base(0, 0, 0);
  double blind_error = 0, blind_angle = 0;
  int blind = 0, blinds = 0;
  bool small = true;  // no motion since then that asks for a match
  for (int i = 0; i < n; ++i) {
    V3 m = i ? bot.move(c.rng) : V3(0, 0, 0), told = i ? bot.told(m, c.rng) : V3(0, 0, 0);
    if (i && c.rng.chance(0.05)) { bot.pos = plus(bot.pos, V3(minus(m, V3(0, 0, 0)))); m = told = V3(0, 0, 0); }  // stands still
    odom = plus(odom, told);
    acc = plus(acc, told);
    if (drops && i > 5 && blind == 0 && blinds < 3 && c.rng.chance(0.1)) { blind = (int)c.rng.range(1, 8); ++blinds; }
    Cloud pc;
    bool sees = blind == 0;
    if (sees) pc = room.see(bot.pos, 0.03, 0.01, c.rng);
    else {
      --blind;
      blind_error += 3 * bot.noise * m(0) + 0.01;
      blind_angle += 3 * bot.noise * (0.3 * std::fabs(m(2)) + 0.1 * m(0));
      if (c.rng.chance(0.5)) for (int k = 0; k < 5; ++k) pc.push_back(P3(c.rng.uni(-5, 5), c.rng.uni(-5, 5), 0));
      c.ev("blind");
    }
    vf::family("update");
    est = alg.update(tr(told), M3::Identity() * 1e-4, pc, ros::Time(i + 1.0));
    c.check(est.allFinite(), "finite", "update", i, "estimates", est.transpose());
    if (i == 0) c.check(est.norm() == 0, "start", "starts at", est.transpose());
    // by dead reckoning since the last estimate that used a scan
    V3 dead = plus(base, acc);
    bool same = (est - dead).head<2>().norm() < 1e-5 && vf::angdiff(est(2), dead(2)) < 1e-5;
    if (acc.head<2>().norm() > 0.15 || std::fabs(acc(2)) > 0.07) small = false;
    if (i && small) { c.check(same, "dead-reckoning", "update", i, "estimate", est.transpose(), "but the odometry says", dead.transpose()); c.ev("dead_reckoned"); }
    if (i && !sees && minD > 100) { c.check(same, "blind-odometry", "update", i, "estimate", est.transpose(), "but the odometry says", dead.transpose()); c.ev("blind_exact"); }
    if (!same) { base = est; acc.setZero(); small = true; c.ev("matched"); }
    V3 truth = bot.truth();
    double e = (est - truth).head<2>().norm(), a = vf::angdiff(est(2), truth(2)), eo = (odom - truth).head<2>().norm();
    if (eo > 0.5) c.ev("odometry_far_off");
    c.check(e < 0.4 + 2 * blind_error && a < 0.15 + 2 * blind_angle, "track", "update", i, "estimate", est.transpose(), "but the robot is at", truth.transpose(), "odometry says", odom.transpose());
    if (doubled) {
      V3 e2 = twin.update(tr(told), M3::Identity() * 1e-4, pc, ros::Time(i + 1.0));
      c.check((est - e2).head<2>().norm() < 0.02 && vf::angdiff(est(2), e2(2)) < 0.02, "repeatable", "update", i, "estimates", est.transpose(), "and", e2.transpose(), "for the same inputs");
      c.ev("repeated");
    }
  }
  size_t closed = 0;
  for (auto &k : alg.getGraphSerialized("map").markers) closed += k.color.g > 0.5;
  if (closed) c.ev("loops_closed", closed);
  c.nontrivial = true;
  c.sigadd(est(0)); c.sigadd(est(1));
}
#endif

#if PROP == 40
// Every wall must be seen as a wall, every free place seen, and nothing else shown.
static void one(Case &c)
{
  bool pillar = c.rng.chance(0.2);
  double half = c.rng.uni(1.1, 1.4);
  Room room = pillar ? Room::around(c.rng, half) : Room(c.rng, 2.2);
  Robot bot(c.rng);
  bot.step = c.rng.uni(0.15, 0.5);
  bot.noise = c.rng.pick(std::vector<double>{0, 0.02, 0.1});
  if (pillar) bot.circle(c.rng, half * 1.415 + c.rng.uni(0.4, 0.7));
  int n = (int)c.rng.range(25, 60), beams = (int)(pillar ? c.rng.range(1500, 2000) : c.rng.range(1000, 1800));
  float win = c.rng.pick(std::vector<float>{12, 20, 30}), gen = pillar ? c.rng.uni(0.5, 3.5) : c.rng.uni(0.5, 2), minD = c.rng.pick(std::vector<float>{2, 4, 1000}), maxD = c.rng.pick(std::vector<float>{2, 5, 20});
  c.trace << (pillar ? "pillar " : "room ") << "step " << bot.step << " noise " << bot.noise << " beams " << beams << " window " << win << " frames every " << gen << " loops from " << minD << " to " << maxD << ' ';
  Alg alg;
  alg.setRunWindowRadius(win);
  alg.setGenerationDistance(gen);
  alg.setLoopClosureMinDist(minD);
  alg.setLoopClosureMaxDist(maxD);
  alg.setLoopClosureScoreThreshold(0.6);
  M3 W = H(bot.start);
  auto world = [&](const V2 &p) { return mul(W, p); };
  std::vector<V3> path;
  double worst = 0, worsta = 0;
  size_t before = 0, closed = 0, loops = 0;
  for (int i = 0; i < n; ++i) {
    V3 m = i ? bot.move(c.rng) : V3(0, 0, 0), told = i ? bot.told(m, c.rng) : V3(0, 0, 0);
    Cloud pc = room.scan(bot.pos, beams, 0.01, c.rng);
    vf::family("update");
    V3 est = alg.update(tr(told), M3::Identity() * 1e-4, pc, ros::Time(i + 1.0));
    path.push_back(bot.pos);
    worst = std::max(worst, (est - bot.truth()).head<2>().norm());
    worsta = std::max(worsta, vf::angdiff(est(2), bot.truth()(2)));
    vf::family("published");
    std::string fid = "map" + std::to_string(i);
    auto pcl1 = alg.getPclMap(fid);
    if (pcl1->size() != before) { before = pcl1->size(); closed = i; c.ev("frames_closed"); }
    if (i + 1 < n && !c.rng.chance(0.05)) continue;
    auto pcl2 = alg.getPclMap2(fid);
    auto map = alg.getOccupancyGrid(fid);
    auto ndt = alg.getNDTMap(fid);
    auto graph = alg.getGraphSerialized(fid);
    c.check(map.header.frame_id == fid && pcl1->header.frame_id == fid && pcl2->header.frame_id == fid && ndt.header.frame_id == fid, "frame-ids", "frames", map.header.frame_id, pcl1->header.frame_id, pcl2->header.frame_id, ndt.header.frame_id);
    // how far things may be off: discretisation, and the errors of position and heading so far
    auto allowed = [&](const V2 &p) { return 0.4 + worst + worsta * (p - bot.start.head<2>()).norm(); };
    double dmax = -1, dmax2 = -1;
    for (auto &p : *pcl1) dmax = std::max(dmax, room.distance(world(V2(p.x, p.y))) - allowed(world(V2(p.x, p.y))));
    for (auto &p : *pcl2) dmax2 = std::max(dmax2, room.distance(world(V2(p.x, p.y))) - allowed(world(V2(p.x, p.y))));
    auto &in = map.info;
    double yaw = 2 * std::atan2(in.origin.orientation.z, in.origin.orientation.w);
    M3 O = H(V3(in.origin.position.x, in.origin.position.y, yaw));
    size_t occ = 0, fre = 0, hidden = 0, offwall = 0;
    std::vector<V2> occupied;
    V2 off, unseen;
    c.check(map.data.size() == (size_t)in.width * in.height, "map-size", map.data.size(), "values for", in.width, "x", in.height);
    for (size_t k = 0; k < map.data.size(); ++k) {
      V2 p = world(mul(O, V2((k % in.width + 0.5) * in.resolution, (k / in.width + 0.5) * in.resolution)));
      if (map.data[k] > 50) { ++occ; occupied.push_back(p); if (room.distance(p) > allowed(p)) ++offwall, off = p; }
      else if (map.data[k] >= 0) {
        ++fre;
        if (room.distance(p) <= allowed(p)) continue;
        bool seen = false;
        for (auto &q : path) {
          for (int z = 0; z < 9 && !seen; ++z) seen = room.blocked(q.head<2>(), V2(p + 0.5 * V2(z % 3 - 1, z / 3 - 1))) > 1;
          if (seen) break;
        }
        if (!seen) ++hidden, unseen = p;
      }
    }
    size_t gone = 0, walls = 0;
    V2 missing;
    for (size_t wi = 0; wi < (pillar ? room.walls.size() : room.outline); ++wi) {
      auto &w = room.walls[wi];
      double l = (w.second - w.first).norm();
      V2 e = (w.second - w.first) / l;
      for (double d = 0.3; d < l - 0.3; d += 0.2) {
        V2 p = w.first + d * e;
        int seen = 0;
        for (size_t q = 0; q < closed; ++q) {
          V2 v = p - path[q].head<2>();
          double across = std::fabs(v(0) * e(1) - v(1) * e(0)), r = v.norm();
          if (r < 6 && across > 0.4 * r) seen += room.blocked(path[q].head<2>(), V2(path[q].head<2>() + 0.98 * v)) > 1;
        }
        if (seen < 5) continue;
        ++walls;
        double best = 1e9;
        for (auto &o : occupied) best = std::min(best, (o - p).norm());
        if (best > allowed(p)) ++gone, missing = p;
      }
    }
    double dpos = 0;
    size_t green = 0;
    for (auto &k : graph.markers) {
      c.check(k.header.frame_id == fid, "frame-ids", "marker", k.header.frame_id);
      green += k.color.g > 0.5;
      for (auto &p : k.points) {
        double best = 1e9;
        for (auto &q : path) best = std::min(best, (q.head<2>() - world(V2(p.x, p.y))).norm());
        dpos = std::max(dpos, best);
      }
    }
    loops = std::max(loops, green);
    // the distributions around the robot
    c.check(ndt.cells.size() >= pcl2->size(), "window", ndt.cells.size(), "cells for", pcl2->size(), "means");
    c.check(std::fabs(ndt.x_cell_size - 0.25) < 1e-6 && std::fabs(ndt.y_cell_size - 0.25) < 1e-6 && ndt.x_size >= 2 * win && ndt.y_size >= 2 * win, "window", "sizes", ndt.x_size, ndt.y_size, ndt.x_cell_size);
    for (auto &l : ndt.cells) c.check(l.cov_matrix.size() == 9, "window", "covariance with", l.cov_matrix.size(), "entries");
    // means are relative to the origin of the window, a whole number of cells away
    if (!pcl2->empty()) {
      bool all = false;
      for (size_t k = 0; k < ndt.cells.size() && !all; ++k) {
        V2 d((*pcl2)[0].x - ndt.cells[k].mean_x, (*pcl2)[0].y - ndt.cells[k].mean_y), w = 4 * d;
        if (std::fabs(w(0) - std::round(w(0))) > 1e-3 || std::fabs(w(1) - std::round(w(1))) > 1e-3) continue;
        all = true;
        for (auto &p : *pcl2) {
          bool any = false;
          for (auto &l : ndt.cells) any = any || (std::fabs(l.mean_x + d(0) - p.x) < 1e-3 && std::fabs(l.mean_y + d(1) - p.y) < 1e-3 && l.occupancy > 0);
          if (!any) { all = false; break; }
        }
      }
      c.check(all, "window", "the means published are not among the cells published");
    }
    c.ev("maps");
    if (worst > 0.25 || worsta > 0.12) { c.ev("lost_track"); continue; }
    c.ev("maps_judged");
    if (pillar) c.ev("maps_with_pillar");
    c.ev("walls_judged", walls);
    c.ev("free_judged", fre);
    c.check(dpos < 0.2 + worst, "poses", "an edge ends", dpos, "m from where the robot was");
    c.check(dmax <= 0 && dmax2 <= 0, "distributions", "shown", dmax, dmax2, "m too far from any wall");
    c.check(offwall <= (pillar ? 4 : 1), "occupied", offwall, "obstacles shown where nothing is, one at", off.transpose());
    c.check(closed == 0 || fre > 100, "free", "only", fre, "free squares");
    // finding: the map traces the content of a frame from the origin of the frame, wherever the robot was
    c.check(hidden <= (pillar ? 0 : 4), pillar ? "traced-from-frame-origin" : "hidden", hidden, "squares nobody saw shown free, one at", unseen.transpose());
    c.check(gone <= 0.1 * walls + 5, pillar ? "traced-from-frame-origin" : "missing", gone, "of", walls, "places of walls not shown, one at", missing.transpose());
  }
  if (loops) c.ev("loops_closed", loops);
  c.sigadd(worst);
  c.nontrivial = closed > 0;
}
#endif

#if PROP >= 44
static void settings(Alg &a, float win, float gen, float minD, float maxD)
{
  a.setRunWindowRadius(win);
  a.setGenerationDistance(gen);
  a.setLoopClosureMinDist(minD);
  a.setLoopClosureMaxDist(maxD);
  a.setLoopClosureScoreThreshold(0.6);
}
#endif

#if PROP == 44
#include <signal.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
// everything published, in sections
typedef std::vector<std::vector<double>> Sheets;
static const char *sheet_name[] = {"links", "map layout", "map", "distributions of the map", "distributions of the window", "window"};
static Sheets published(const Alg &a, double late)
{
  Sheets s(6);
  auto g = a.getGraphSerialized("map");
  auto p1 = a.getPclMap("map"), p2 = a.getPclMap2("map");
  for (auto &k : g.markers) for (auto &p : k.points) { s[0].push_back(p.x); s[0].push_back(p.y); }
  auto m = a.getOccupancyGrid("map");
  s[1] = {(double)m.info.width, (double)m.info.height, m.info.resolution, m.info.origin.position.x, m.info.origin.position.y};
  s[2].assign(m.data.begin(), m.data.end());
  for (auto &p : *p1) { s[3].push_back(p.x); s[3].push_back(p.y); }
  for (auto &p : *p2) { s[4].push_back(p.x); s[4].push_back(p.y); }
  auto n = a.getNDTMap("map");
  s[5] = {(double)n.header.seq, n.header.stamp.toSec() - late, (double)n.cells.size(), n.x_cen, n.y_cen, n.x_size, n.y_size};
  return s;
}
// A drive: what the algorithm is told.
struct Drive {
  double step, noise;
  bool loops;
  float win, gen, minD, maxD;
  std::vector<V3> told;
  std::vector<Cloud> scans;
  explicit Drive(Rng r)
  {
    Room room(r);
    Robot bot(r);
    step = bot.step = r.chance(0.4) ? r.uni(0.02, 0.1) : r.uni(0.1, 0.5);
    noise = bot.noise = r.pick(std::vector<double>{0, 0.02, 0.1});
    int n = (int)r.range(15, 45);
    loops = r.chance(0.3);
    win = r.pick(std::vector<float>{12, 20});
    gen = r.uni(0.5, 2);
    minD = loops ? r.pick(std::vector<float>{2, 4}) : 1000;
    maxD = r.pick(std::vector<float>{2, 5, 20});
    for (int i = 0; i < n; ++i) {
      V3 m = i ? bot.move(r) : V3(0, 0, 0);
      told.push_back(i ? bot.told(m, r) : V3(0, 0, 0));
      scans.push_back(room.see(bot.pos, 0.03, 0.01, r));
      if (i && r.chance(0.05)) scans.back().clear();
    }
  }
  void set(Alg &a) const { settings(a, win, gen, minD, maxD); }
  V3 go(Alg &a, size_t i) const { return a.update(tr(told[i]), M3::Identity() * 1e-4, scans[i], ros::Time(i + 1.0)); }
};
// A process in which nothing ever ran; it starts a new one for every drive it is asked for.
struct Pristine {
  int in = -1, out = -1;
  static void put(int fd, const void *p, size_t n) { while (n) { ssize_t k = ::write(fd, p, n); if (k <= 0) _exit(1); p = (const char *)p + k; n -= k; } }
  static bool get(int fd, void *p, size_t n) { while (n) { ssize_t k = ::read(fd, p, n); if (k <= 0) return false; p = (char *)p + k; n -= k; } return true; }
  static void put(int fd, const std::vector<double> &v) { size_t n = v.size(); put(fd, &n, sizeof n); put(fd, v.data(), n * sizeof(double)); }
  static bool get(int fd, std::vector<double> &v) { size_t n; if (!get(fd, &n, sizeof n)) return false; v.resize(n); return get(fd, v.data(), n * sizeof(double)); }
  Pristine()
  {
    int a[2], b[2];
    if (pipe(a) || pipe(b)) return;
    if (fork() == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      ::close(a[1]);
      ::close(b[0]);
      Rng r(0, 0);
      while (get(a[0], &r, sizeof r)) {
        pid_t p = fork();
        if (p == 0) {
          rlimit most{60, 61};
          setrlimit(RLIMIT_CPU, &most);
          Drive d(r);
          Alg alg;
          d.set(alg);
          std::vector<double> est;
          for (size_t i = 0; i < d.told.size(); ++i) { V3 e = d.go(alg, i); est.insert(est.end(), e.data(), e.data() + 3); }
          auto s = published(alg, 0);
          char ok = 1;
          put(b[1], &ok, 1);
          put(b[1], est);
          for (auto &v : s) put(b[1], v);
          _exit(0);
        }
        int st = 0;
        waitpid(p, &st, 0);
        char ok = 0;
        if (!WIFEXITED(st) || WEXITSTATUS(st)) put(b[1], &ok, 1);
      }
      _exit(0);
    }
    ::close(a[0]);
    ::close(b[1]);
    out = a[1];
    in = b[0];
  }
  bool ask(const Rng &r, std::vector<double> &est, Sheets &s)
  {
    put(out, &r, sizeof r);
    char ok = 0;
    if (!get(in, &ok, 1) || !ok || !get(in, est)) return false;
    s.resize(6);
    for (auto &v : s) if (!get(in, v)) return false;
    return true;
  }
};
// Two algorithms are driven the same way; the second differs in ways that must not matter.
static void one(Case &c)
{
  static_assert(std::is_trivially_copyable<Rng>::value, "sent to another process");
  static Pristine pristine;
  const Rng start = c.rng;
  for (int k = 0; k < 5; ++k) c.rng.uni(0, 1);
  Drive d(start);
  Rng other_rng(c.rng.range(1, 1 << 30), 44);
  // 0 in a used process  1 another algorithm works in between  2 other times  3 points without coordinates  4 other order of the points
  // 5 motions told in pieces  6 the maps are asked for all the time
  Rng &r = other_rng;
  int kind = (int)r.range(0, 6);
  static const char *names[] = {"again", "in_company", "other_times", "blank_points", "shuffled", "in_pieces", "watched"};
  c.trace << names[kind] << " step " << d.step << " noise " << d.noise << " window " << d.win << " frames every " << d.gen << " loops from " << d.minD << " to " << d.maxD << ' ';
  const double late = kind == 2 ? r.uni(0.5, 5000) : 0;
  std::vector<double> ests;
  Sheets want;
  bool apart = kind < 2;
  Alg first;
  d.set(first);
  if (apart && !pristine.ask(start, ests, want)) c.fail("pristine", "the drive failed in a process of its own");
  std::unique_ptr<Alg> other;
  Room room2(r);
  Robot bot2(r);
  bot2.step = 0.4;
  if (kind == 1) {
    // one that is gone before the second starts
    other.reset(new Alg);
    settings(*other, 15, r.uni(0.3, 3), 3, 10);
    for (int i = 0; i < 6; ++i) other->update(tr(i ? bot2.move(r) : V3(0, 0, 0)), M3::Identity() * 1e-4, room2.see(bot2.pos, 0.03, 0.01, r), ros::Time(500 + i));
    other.reset();
  }
  Alg second;
  d.set(second);
  if (kind == 1) { other.reset(new Alg); settings(*other, 10, r.uni(0.3, 3), 2, 5); bot2 = Robot(r); bot2.step = 0.3; }
  const double tol = d.loops || kind == 4 ? 0.02 : 1e-5;
  V3 e1(0, 0, 0), e2(0, 0, 0), acc(0, 0, 0);
  for (size_t i = 0; i < d.told.size(); ++i) {
    Cloud pc2 = d.scans[i];
    V3 told = d.told[i], rest = told;
    vf::family("update");
    if (kind == 1 && r.chance(0.7)) other->update(tr(bot2.move(r)), M3::Identity() * 1e-4, room2.see(bot2.pos, 0.03, 0.01, r), ros::Time(i + 7.0));
    if (kind == 3) {
      float q = std::numeric_limits<float>::quiet_NaN();
      for (int k = (int)r.range(1, 30); k > 0; --k) {
        float x = r.uni(-9, 9), y = r.uni(-9, 9);
        P3 p(r.chance(0.6) ? q : x, r.chance(0.6) ? q : y, 0);
        if (std::isfinite(p.x) && std::isfinite(p.y)) p.z = q;
        pc2.points.insert(pc2.points.begin() + r.range(0, pc2.size()), p);
      }
    }
    if (kind == 4) for (size_t k = pc2.size(); k > 1; --k) std::swap(pc2[k - 1], pc2[r.range(0, k - 1)]);
    e1 = apart ? V3(ests.at(3 * i), ests.at(3 * i + 1), ests.at(3 * i + 2)) : d.go(first, i);
    if (kind == 5 && i) {
      V3 piece = r.uni(0.05, 0.9) * told, sum = plus(acc, piece);
      // not enough to look at the scan
      if (sum.head<2>().norm() < 0.15 && std::fabs(sum(2)) < 0.07) {
        second.update(tr(piece), M3::Identity() * 1e-4, r.chance(0.5) ? pc2 : Cloud(), ros::Time(i + 0.5));
        rest = minus(piece, told);
        c.ev("pieces");
      }
    }
    e2 = second.update(tr(rest), M3::Identity() * 1e-4, pc2, ros::Time(i + 1.0 + late));
    acc = plus(acc, told);
    if (acc.head<2>().norm() > 0.2 || std::fabs(acc(2)) > 0.1) acc.setZero();
    c.check(e1.allFinite() && (e1 - e2).head<2>().norm() <= tol && vf::angdiff(e1(2), e2(2)) <= tol, names[kind], "update", i, "estimates", e1.transpose(), "and", e2.transpose(), "for the same drive");
    if (kind == 6 && r.chance(0.5)) {
      vf::family("published");
      second.getOccupancyGrid("a");
      second.getNDTMap("b");
      second.getPclMap("c");
      second.getPclMap2("d");
      second.getGraphSerialized("e");
    }
  }
  vf::family("published");
  c.ev(names[kind]);
  c.nontrivial = true;
  c.sigadd(e1(0)); c.sigadd(e1(1));
  if (d.loops) { c.ev("with_loops"); return; }
  if (!apart) want = published(first, 0);
  Sheets got = published(second, late);
  if (kind == 4) {
    // sums in another order: cells at a border may go either way
    auto close = [&](double a, double b, const char *what) { c.check(std::fabs(a - b) <= 3 + 0.05 * a, names[kind], a, "and", b, what, "for the same drive"); };
    close(want[3].size() / 2, got[3].size() / 2, sheet_name[3]);
    close(want[4].size() / 2, got[4].size() / 2, sheet_name[4]);
    double o1 = 0, o2 = 0, f1 = 0, f2 = 0;
    for (double v : want[2]) o1 += v > 50, f1 += v >= 0 && v <= 50;
    for (double v : got[2]) o2 += v > 50, f2 += v >= 0 && v <= 50;
    close(o1, o2, "obstacles");
    close(f1, f2, "free squares");
    c.check(want[0].size() == got[0].size(), names[kind], want[0].size() / 4, "and", got[0].size() / 4, "links for the same drive");
  } else {
    for (int k = 0; k < 6; ++k) {
      c.check(want[k].size() == got[k].size(), names[kind], sheet_name[k], ":", want[k].size(), "and", got[k].size(), "numbers for the same drive");
      size_t differ = 0, at = 0;
      for (size_t z = 0; z < want[k].size(); ++z)
        if (!(std::fabs(want[k][z] - got[k][z]) <= (k == 2 ? 1.5 : 1e-3))) ++differ, at = z;
      if (differ) c.check(differ <= (k == 2 ? 2 : 0), names[kind], sheet_name[k], ":", differ, "of", want[k].size(), "numbers differ for the same drive, e.g.", want[k][at], "and", got[k][at]);
    }
  }
  c.ev("maps_compared");
}
#endif

#if PROP == 45
// The frames a drive must be cut into, replayed from the estimates.
static void one(Case &c)
{
  Room room(c.rng);
  Robot bot(c.rng);
  bot.step = c.rng.chance(0.3) ? c.rng.uni(0.05, 0.1) : c.rng.uni(0.1, 0.5);
  bot.noise = c.rng.pick(std::vector<double>{0, 0.02, 0.1});
  int n = (int)c.rng.range(15, 60);
  bool loops = c.rng.chance(0.3);
  float win = c.rng.pick(std::vector<float>{8, 12, 20}), gen = c.rng.pick(std::vector<float>{0.3, 0.5, 1, 1.5, 2}) * c.rng.uni(0.9, 1.1), minD = loops ? c.rng.pick(std::vector<float>{2, 4}) : 1000, maxD = c.rng.pick(std::vector<float>{2, 5, 20});
  c.trace << "step " << bot.step << " noise " << bot.noise << " window " << win << " frames every " << gen << " loops from " << minD << " to " << maxD << ' ';
  Alg alg;
  settings(alg, win, gen, minD, maxD);
  V3 last(0, 0, 0), acc(0, 0, 0), frame(0, 0, 0), used(0, 0, 0);
  std::vector<V3> starts;
  size_t points = 0;
  unsigned seq = 0;
  double stamp = 0;
  for (int i = 0; i < n; ++i) {
    V3 m = i ? bot.move(c.rng) : V3(0, 0, 0), told = i ? bot.told(m, c.rng) : V3(0, 0, 0);
    Cloud pc = room.see(bot.pos, 0.03, 0.01, c.rng);
    bool blind = i && c.rng.chance(0.08);
    if (blind) pc.clear();
    double now = c.rng.uni(0, 0.9) + i + 1;
    vf::family("update");
    V3 est = alg.update(tr(told), M3::Identity() * 1e-4, pc, ros::Time(now));
    acc = plus(acc, told);
    double d = acc.head<2>().norm(), a = std::fabs(std::remainder(acc(2), 2 * M_PI));
    bool look = i && (d > 0.2 || a > 0.1);
    auto graph = alg.getGraphSerialized("map");
    size_t odom = 0, green = 0;
    for (auto &k : graph.markers) (k.color.g > 0.5 ? green : odom) += 1;
    if (green && loops) { c.ev("loops_closed"); break; }  // corrections move frames
    if (std::fabs(d - 0.2) < 1e-9 || std::fabs(a - 0.1) < 1e-9) return;
    V3 dead = plus(used, acc);
    bool cut = false;
    double gone = minus(frame, est).head<2>().norm();
    if (look) {
      acc.setZero();
      if (std::fabs(gone - gen) < 1e-6) return;
      cut = gone > gen;
    }
    vf::family("published");
    auto ndt = alg.getNDTMap("map");
    auto map = alg.getPclMap("map");
    // the window: renewed by the scans that were matched
    bool fresh = ndt.header.seq != seq;
    if (i == 0) {
      c.check(ndt.header.seq == 0 && std::fabs(ndt.header.stamp.toSec() - now) < 1e-6, "window-time", "first window", ndt.header.seq, ndt.header.stamp.toSec(), "at", now);
    } else if (fresh) {
      c.check(look && !blind && ndt.header.seq == seq + 1 && std::fabs(ndt.header.stamp.toSec() - now) < 1e-6, "window-time", "update", i, "window", seq, "->", ndt.header.seq, "of", ndt.header.stamp.toSec(), "at", now, look, blind);
      c.ev("windows");
    } else {
      c.check(std::fabs(ndt.header.stamp.toSec() - stamp) < 1e-6, "window-time", "update", i, "window", seq, "of", ndt.header.stamp.toSec(), "and before of", stamp);
      // a scan that was not matched is odometry
      if (!loops) c.check((est - dead).head<2>().norm() < 1e-5 && vf::angdiff(est(2), dead(2)) < 1e-5, "unmatched", "update", i, "estimate", est.transpose(), "but the odometry says", dead.transpose());
    }
    seq = ndt.header.seq;
    stamp = ndt.header.stamp.toSec();
    if (!loops) {
      // the window reaches as far as it was told to in every direction
      double side = std::min(std::min(est(0) - ndt.x_cen, ndt.x_cen + ndt.x_size - est(0)), std::min(ndt.y_cen - est(1), est(1) - ndt.y_cen + ndt.y_size));
      if (look && !blind && fresh) c.check(side > win - 0.65, "window-place", "update", i, "the window ends", side, "m from the robot, it has radius", win);
    }
    if (look) used = est;
    if (cut) {
      // the frame that ends started at frame
      starts.push_back(frame);
      frame = est;
      c.ev("frames");
    }
    size_t want = starts.size() < 2 ? 0 : starts.size() - 1;
    c.check(odom == want, cut ? "not-cut" : "cut", "update", i, odom, "links for", starts.size(), "frames, driven", gone, "of", gen);
    if (!cut) c.check(map->size() == points, "map-grew", "update", i, "distributions", points, "->", map->size(), "without a new frame");
    else if (points == 0 && starts.size() == 1) c.check(map->size() > 0, "map-empty", "update", i, "nothing in the map after a frame");
    points = map->size();
    if (!loops) {
      c.check(green == 0, "loops", green, "loops closed though none are far enough apart");
      size_t at = 0;
      for (auto &k : graph.markers) {
        V2 p(k.points[0].x, k.points[0].y), q(k.points[1].x, k.points[1].y);
        c.check((p - starts[at].head<2>()).norm() < 1e-4 && (q - starts[at + 1].head<2>()).norm() < 1e-4, "links", "update", i, "link", at, "from", p.transpose(), "to", q.transpose(), "but frames started at", starts[at].transpose(), "and", starts[at + 1].transpose());
        ++at;
      }
      c.ev("links", at);
    }
    last = est;
  }
  c.nontrivial = starts.size() > 1;
  c.sigadd(last(0)); c.sigadd(starts.size());
}
#endif

void run_case(Case &c) { one(c); }
