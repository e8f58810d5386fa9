// C26..C32: the NDT grid on scans, grids, rays, motions, queries and messages. PROP selects the oracle:
// 26 built from a scan, 27 merging, 28 traced merging, 29 move/transform, 30 queries and copies, 31 messages,
// 32 the mapper.
#include "common.h"
#include <ndt_gslam/ndt/ndt_cell.h>
#include <ndt_gslam/ndt/ndt_grid2d.h>
#include <ndt_gslam/ndt_grid2d_holder.h>
#include <ndt_gslam/utils/msgs_conversions.h>
#if PROP == 32
#include <ndt_gslam/ndt/ndt_mapper.h>
#endif
using namespace slamuk;
typedef pcl::PointXYZ P3;
typedef pcl::PointCloud<P3> Cloud;
typedef NDTGrid2D<NDTCell, P3> Base;
typedef std::pair<long, long> Pos;  // cells to the right of / above the origin's cell
typedef Eigen::Vector2d V2;
typedef Eigen::Vector3d V3;

// opens the protected storage for looking at it
struct Grid : Base {
  Grid() {}
  explicit Grid(const Base &b) : Base(b) {}
  VoxelGrid2D<NDTCell> &vox() { return grid_; }
  const VoxelGrid2D<NDTCell> &vox() const { return grid_; }
};
typedef std::map<Pos, NDTCell> Cells;

struct Ext { long l, r, u, d; };
static Ext extent(const Grid &g) { return {(long)g.vox().left(), (long)g.vox().right(), (long)g.vox().up(), (long)g.vox().down()}; }
static Cells dump(const Grid &g)
{
  Cells m;
  Ext e = extent(g);
  long w = e.l + e.r + 1, i = 0;
  for (const auto &p : g.vox()) {
    if (p) m.emplace(Pos(i % w - e.l, e.u - i / w), *p);
    ++i;
  }
  return m;
}
static Pos posOf(const V2 &p, double cs) { return {(long)std::floor(p(0) / cs + 0.5), (long)std::floor(p(1) / cs + 0.5)}; }
// distance of a point to the nearest border between cells, in cells
static double margin(const V2 &p, double cs)
{
  auto f = [&](double x) { double t = x / cs + 0.5; t -= std::floor(t); return std::min(t, 1 - t); };
  return std::min(f(p(0)), f(p(1)));
}
static Eigen::Matrix3d H(const V3 &p)
{
  Eigen::Matrix3d m;
  m << std::cos(p(2)), -std::sin(p(2)), p(0), std::sin(p(2)), std::cos(p(2)), p(1), 0, 0, 1;
  return m;
}
static V2 mul(const Eigen::Matrix3d &m, const V2 &p) { V3 r = m * V3(p(0), p(1), 1); return V2(r(0), r(1)); }
static NDTCell::Transform lift(const Eigen::Matrix3d &m)
{
  Eigen::Matrix4d t = Eigen::Matrix4d::Identity();
  t.block<2, 2>(0, 0) = m.block<2, 2>(0, 0);
  t.block<2, 1>(0, 3) = m.block<2, 1>(0, 2);
  return NDTCell::Transform(t);
}
static Base::Transform flat(const Eigen::Matrix3d &m) { Base::Transform t; t.matrix() = m; return t; }
static bool same(const NDTCell &a, const NDTCell &b)
{
  return a.hasGaussian() == b.hasGaussian() && a.points() == b.points() && a.getOccupancyRaw() == b.getOccupancyRaw() &&
         a.getMean() == b.getMean() && a.getCov() == b.getCov();
}
static std::string show(const Pos &p) { return "(" + std::to_string(p.first) + "," + std::to_string(p.second) + ")"; }

struct World {
  Case &c;
  double cs;
  float csf;
  explicit World(Case &cc) : c(cc)
  {
    std::vector<float> s = {0.25f, 0.5f, 1.f, 0.2f, 0.3f, 0.7f};
    csf = c.rng.pick(s);
    cs = csf;
    c.trace << "cs " << cs << ' ';
  }
  V3 pose(double span)
  {
    V3 p(c.rng.uni(-span, span) * cs, c.rng.uni(-span, span) * cs, c.rng.chance(0.3) ? 0 : c.rng.uni(-3.1, 3.1));
    if (c.rng.chance(0.15)) p.head<2>().setZero();
    return p;
  }
  typedef std::map<Pos, std::vector<V3>> Scan;
  // points well inside their cells, given in the frame of the grid that will store them
  Scan scan(int voxels, long span)
  {
    Scan s;
    for (int i = 0; i < voxels; ++i) {
      Pos p{c.rng.range(-span, span), c.rng.range(-span, span)};
      int n = c.rng.chance(0.25) ? (int)c.rng.range(1, 5) : c.rng.chance(0.2) ? 6 : (int)c.rng.range(6, 40);
      double ax = c.rng.uni(-0.4, 0.4), ay = c.rng.uni(-0.4, 0.4), bx = c.rng.uni(-0.4, 0.4), by = c.rng.uni(-0.4, 0.4);
      bool line = c.rng.chance(0.4);
      auto &v = s[p];
      for (int k = 0; k < n; ++k) {
        double t = c.rng.unit();
        double x = line ? ax + t * (bx - ax) : c.rng.uni(-0.4, 0.4), y = line ? ay + t * (by - ay) : c.rng.uni(-0.4, 0.4);
        v.push_back(V3((p.first + x) * cs, (p.second + y) * cs, c.rng.chance(0.2) ? c.rng.uni(-0.1, 0.1) : 0));
      }
    }
    return s;
  }
  // the scan as a sensor at `at` (both frames in the world) reports it, in random order, with invalid points
  Cloud cloud(const Scan &s, const V3 &grid, const V3 &at, bool invalid = true)
  {
    Eigen::Matrix3d m = H(at).inverse() * H(grid);
    std::vector<V3> all;
    for (auto &v : s)
      for (auto &p : v.second) { V2 q = mul(m, p.head<2>()); all.push_back(V3(q(0), q(1), p(2))); }
    for (size_t i = all.size(); i > 1; --i) std::swap(all[i - 1], all[c.rng.below(i)]);
    Cloud out;
    for (auto &p : all) {
      if (invalid && c.rng.chance(0.03)) {
        float q = std::numeric_limits<float>::quiet_NaN();
        P3 bad(c.rng.chance(0.5) ? q : 1.f, q, 0.f);
        if (c.rng.chance(0.3)) bad = P3(0.3f, 0.2f, q);
        out.push_back(bad);
        out.is_dense = false;
        c.ev("invalid_points");
      }
      P3 x;
      x.x = p(0); x.y = p(1); x.z = p(2);
      out.push_back(x);
    }
    return out;
  }
  Cells expect(const Scan &s)
  {
    Cells m;
    for (auto &v : s) {
      if (v.second.size() < 6) { c.ev("sparse_voxels"); continue; }
      NDTCell k;
      for (auto &p : v.second) k.addPoint(p);
      k.computeGaussian();
      m.emplace(v.first, k);
    }
    return m;
  }
  void alike(const NDTCell &a, const NDTCell &b, const char *key, const Pos &p, double tol)
  {
    c.check(a.points() == b.points(), key, "points", a.points(), "expected", b.points(), "at", show(p));
    double s = 1 + b.getMean().norm();
    c.check((a.getMean() - b.getMean()).norm() <= tol * s, key, "mean", a.getMean().transpose(), "expected", b.getMean().transpose(), "at", show(p));
    c.check((a.getCov() - b.getCov()).norm() <= tol * (1 + b.getCov().norm()) * s, key, "covariance\n", a.getCov(), "\nexpected\n", b.getCov(), "at", show(p));
    c.check(std::fabs(a.getOccupancyRaw() - b.getOccupancyRaw()) < 1e-4, key, "occupancy", a.getOccupancyRaw(), "expected", b.getOccupancyRaw(), "at", show(p));
    c.ev("cells_compared");
  }
  // the cells with a distribution are exactly the expected ones
  void gaussians(const Grid &g, const Cells &want, const char *key, double tol)
  {
    Cells have = dump(g);
    for (auto &h : have)
      if (h.second.hasGaussian()) {
        c.check(want.count(h.first), key, "a distribution nobody put there at", show(h.first), h.second.getMean().transpose());
        c.check(posOf(h.second.getMean().head<2>(), cs) == h.first || margin(h.second.getMean().head<2>(), cs) < 1e-5, key,
                "mean", h.second.getMean().transpose(), "stored in the wrong cell", show(h.first));
      }
    for (auto &w : want) {
      auto it = have.find(w.first);
      c.check(it != have.end() && it->second.hasGaussian(), key, "no distribution at", show(w.first), "with", w.second.points(), "points");
      alike(it->second, w.second, key, w.first, tol);
    }
  }
  void sanity(const Grid &g)
  {
    Ext e = extent(g);
    c.check((long)(g.vox().end() - g.vox().begin()) == (e.l + e.r + 1) * (e.u + e.d + 1), "storage", "size does not match the extent");
  }
};

// ---------------------------------------------------------------- 26
static void built(Case &c)
{
  World w(c);
  Grid g;
  g.setCellSize(w.csf);
  V3 o = w.pose(20);
  g.setOrigin(o);
  double stamp = c.rng.uni(0, 100);
  g.setTimestamp(stamp);
  int rounds = c.rng.range(1, 3);
  for (int r = 0; r < rounds; ++r) {
    auto s = w.scan(c.rng.chance(0.05) ? 0 : c.rng.range(1, 25), c.rng.pick(std::vector<long>{2, 8, 30}));
    Cells want = w.expect(s);
    V3 at = o;
    c.trace << "scan " << s.size() << ' ';
    for (auto &v : s) c.sigadd((uint64_t)(v.first.first * 1000 + v.first.second + 50 * v.second.size()));
    switch (c.rng.below(3)) {
      case 0:
        vf::family("initializeSimple");
        g.initializeSimple(w.cloud(s, o, at));
        c.ev("initialized_simple");
        {
          Cells have = dump(g);
          for (auto &h : have) c.check(want.count(h.first), "extra-cell", "cell at", show(h.first), "holds no six points of the scan");
        }
        break;
      case 1:
        vf::family("initialize");
        g.initialize(w.cloud(s, o, at));
        c.ev("initialized_traced");
        break;
      default: {
        vf::family("mergeIn");
        Grid f;
        f.setCellSize(w.csf);
        f.setOrigin(o);
        f.setTimestamp(stamp);
        at = w.pose(30);
        f.mergeIn(w.cloud(s, o, at), at, true);
        g = f;
        c.ev("merged_from_pose");
      }
    }
    if (r) c.ev("reinitialized");
    w.gaussians(g, want, "scan-statistics", 2e-5);
    w.sanity(g);
    c.check(g.getOrigin() == o && g.getCellSize() == w.csf && g.getTimestamp() == stamp, "settings", "origin, cell size or time-stamp changed");
    if (want.size() > 1) c.nontrivial = true;
    // independent of the cells: means and counts from the points alone
    for (auto &v : s) {
      if (v.second.size() < 6) continue;
      V3 m = V3::Zero();
      for (auto &p : v.second) m += p;
      m /= (double)v.second.size();
      const NDTCell &k = g[V2(m.head<2>())];
      c.check((k.getMean() - m).norm() < 2e-5 * (1 + m.norm()), "scan-statistics", "mean", k.getMean().transpose(), "of points", m.transpose());
    }
    // two grids sort by time-stamp
    Grid other;
    other.setTimestamp(stamp + (c.rng.chance(0.5) ? 1 : -1));
    c.check((g < other) == (stamp < other.getTimestamp()) && !(g < g), "order", "operator< does not compare time-stamps");
  }
}

// ---------------------------------------------------------------- 27
struct History {
  World w;
  Case &c;
  Grid g;
  V3 o;
  Cells model;  // only cells with a distribution
  bool first = true;
  explicit History(Case &cc) : w(cc), c(cc)
  {
    g.setCellSize(w.csf);
    o = w.pose(15);
    if (PROP == 29 && c.rng.chance(0.7)) o(2) = 0;
    g.setOrigin(o);
  }
  void pool(const Pos &p, const NDTCell &k)
  {
    auto it = model.find(p);
    if (it == model.end()) model.emplace(p, k);
    else { it->second += k; c.ev("pooled"); }
  }
  void put(const std::vector<NDTCell> &cells, bool resize)
  {
    Ext e = extent(g);
    if (first) resize = true;
    first = false;
    for (auto &k : cells) {
      Pos p = posOf(k.getMean().head<2>(), w.cs);
      bool in = p.first >= -e.l && p.first <= e.r && p.second >= -e.d && p.second <= e.u;
      if (!resize && !in) { c.ev("outside_dropped"); continue; }
      if (!in) c.ev("grown");
      pool(p, k);
    }
  }
  void untouched(const Cells &before, const Cells &want)
  {
    // what did not receive anything is bit for bit the same
    Cells now = dump(g);
    for (auto &b : before) {
      auto it = now.find(b.first);
      c.check(it != now.end(), "cell-lost", "cell at", show(b.first), "vanished");
      auto wi = want.find(b.first);
      if (wi != want.end() && wi->second.points() != b.second.points()) continue;
      if (wi != want.end() && !same(wi->second, b.second)) continue;
      c.check(same(it->second, b.second), "bystander-changed", "cell at", show(b.first), "changed without receiving anything");
    }
  }
  void cloud(bool traced = false)
  {
    auto s = w.scan(c.rng.range(1, 14), c.rng.pick(std::vector<long>{3, 6, 20}));
    bool resize = c.rng.chance(0.5);
    V3 at = w.pose(25);
    Cloud pc = w.cloud(s, o, at);
    Cells before = dump(g), in = w.expect(s);
    std::vector<NDTCell> v;
    for (auto &k : in) v.push_back(k.second);
    put(v, resize);
    c.trace << "cloud(" << in.size() << (resize ? ",resize) " : ") ");
    vf::family("mergeIn-cloud");
    g.mergeIn(pc, at, resize);
    (void)traced;
    w.gaussians(g, model, "merged-scan", 5e-5);
    if (PROP == 27) untouched(before, model);
    c.ev("clouds_merged");
    c.sigadd((uint64_t)in.size());
  }
  bool grid()
  {
    // another grid with content of its own
    Grid b;
    b.setCellSize(c.rng.chance(0.8) ? w.csf : 2 * w.csf);
    V3 ob = w.pose(25);
    bool tr = c.rng.chance(0.7), resize = c.rng.chance(0.5);
    b.setOrigin(ob);
    World wb(w);
    wb.cs = b.getCellSize();
    auto s = wb.scan(c.rng.range(1, 10), 8);
    b.mergeIn(wb.cloud(s, ob, ob), ob, true);
    if (c.rng.chance(0.3)) { auto s2 = wb.scan(c.rng.range(1, 6), 8); b.mergeIn(wb.cloud(s2, ob, ob), ob, true); }
    Eigen::Matrix3d m = H(o).inverse() * H(ob);
    std::vector<NDTCell> v;
    for (auto &k : dump(b)) {
      if (!k.second.hasGaussian()) continue;
      NDTCell x = k.second;
      if (tr) x.transform(lift(m));
      if (margin(x.getMean().head<2>(), w.cs) < 1e-5) return false;
      if (!x.hasGaussian()) return false;
      v.push_back(x);
    }
    // pooling several cells into one is only associative up to the lifted eigenvalues: keep storage order
    std::vector<NDTCell> ordered;
    for (auto &p : b.vox())
      if (p && p->hasGaussian()) {
        NDTCell x = *p;
        if (tr) x.transform(lift(m));
        ordered.push_back(x);
      }
    Cells before = dump(g), keep = dump(b);
    put(ordered, resize);
    c.trace << "grid(" << v.size() << (tr ? ",transform" : "") << (resize ? ",resize) " : ") ");
    vf::family("mergeIn-grid");
    g.mergeIn(b, tr, resize);
    w.gaussians(g, model, "merged-grid", 5e-5);
    if (PROP == 27) {
      untouched(before, model);
      Cells after = dump(b);
      c.check(after.size() == keep.size() && b.getOrigin() == ob, "source-changed", "the merged-in grid changed");
      for (auto &k : keep) c.check(same(after.at(k.first), k.second), "source-changed", "the merged-in grid changed");
    }
    c.ev(tr ? "grids_merged_transformed" : "grids_merged_as_is");
    return true;
  }
  void coarser()
  {
    float f = c.rng.pick(std::vector<float>{1.f, 2.f, 3.f, 4.f, 0.5f, 1.7f});
    float want_cs = std::max(w.csf * f, w.csf);
    vf::family("createCoarserGrid");
    Cells want;
    for (auto &p : g.vox()) {
      if (!p || !p->hasGaussian()) continue;
      V2 mu = p->getMean().head<2>();
      if (margin(mu, want_cs) < 1e-5) return;
      Pos q = posOf(mu, want_cs);
      auto it = want.find(q);
      if (it == want.end()) want.emplace(q, *p);
      else { it->second += *p; c.ev("coarse_pooled"); }
    }
    Grid k(g.createCoarserGrid(w.csf * f));
    c.check(k.getCellSize() == want_cs, "coarse-cell-size", k.getCellSize(), "expected", want_cs);
    World wk(w);
    wk.cs = k.getCellSize();
    wk.gaussians(k, want, "coarser-grid", 5e-5);
    size_t n = 0, m = 0;
    for (auto &x : dump(k)) if (x.second.hasGaussian()) n += x.second.points();
    for (auto &x : dump(g)) if (x.second.hasGaussian()) m += x.second.points();
    c.check(n == m, "coarser-grid", "points lost:", m, "became", n);
    c.check(k.getOrigin() == g.getOrigin(), "coarser-origin", "the coarser grid lies at", k.getOrigin().transpose(), "not", g.getOrigin().transpose());
    c.ev("coarser_grids");
  }
  // ---- 28
  double segDist(const V2 &p, const V2 &a, const V2 &b)
  {
    V2 d = b - a;
    double l = d.squaredNorm(), t = l > 0 ? (p - a).dot(d) / l : 0;
    t = std::max(0.0, std::min(1.0, t));
    return (a + t * d - p).norm();
  }
  // length of the part of segment a-b inside cell p
  double inCell(const Pos &p, const V2 &a, const V2 &b)
  {
    double t0 = 0, t1 = 1;
    V2 d = b - a;
    for (int k = 0; k < 2; ++k) {
      double lo = ((k ? p.second : p.first) - 0.5) * w.cs, hi = lo + w.cs;
      if (std::fabs(d(k)) < 1e-12) { if (a(k) < lo || a(k) > hi) return 0; continue; }
      double u = (lo - a(k)) / d(k), v = (hi - a(k)) / d(k);
      if (u > v) std::swap(u, v);
      t0 = std::max(t0, u);
      t1 = std::min(t1, v);
    }
    return t1 > t0 ? (t1 - t0) * d.norm() : 0;
  }
  void traced()
  {
    bool asGrid = c.rng.chance(0.4), resize = c.rng.chance(0.5), tr = true;
    auto s = w.scan(c.rng.range(1, 8), c.rng.pick(std::vector<long>{3, 6, 12}));
    V3 at = o + V3(c.rng.uni(-5, 5) * w.cs, c.rng.uni(-5, 5) * w.cs, c.rng.uni(-1, 1));
    if (c.rng.chance(0.15)) at = w.pose(30);
    Cells before = dump(g);
    Ext e0 = extent(g);
    std::vector<NDTCell> in;
    V2 eye = mul(H(o).inverse() * H(at), V2(0, 0));
    if (margin(eye, w.cs) < 1e-4) return;
    bool fresh = first;
    if (asGrid) {
      Grid b;
      b.setCellSize(w.csf);
      b.setOrigin(at);
      auto sl = w.scan(c.rng.range(1, 8), 8);
      b.mergeIn(w.cloud(sl, at, at), at, true);
      tr = c.rng.chance(0.7);
      for (auto &p : b.vox())
        if (p && p->hasGaussian()) {
          NDTCell x = *p;
          if (tr) x.transform(lift(H(o).inverse() * H(at)));
          if (margin(x.getMean().head<2>(), w.cs) < 1e-5) return;
          in.push_back(x);
        }
      c.trace << "tracedGrid(" << in.size() << (tr ? ",tr" : "") << (resize ? ",resize) " : ") ");
      vf::family("mergeInTraced-grid");
      g.mergeInTraced(b, tr, resize);
    } else {
      Cells ex = w.expect(s);
      for (auto &k : ex) in.push_back(k.second);
      Cloud pc = w.cloud(s, o, at);
      c.trace << "tracedCloud(" << in.size() << (resize ? ",resize) " : ") ");
      vf::family("mergeInTraced-cloud");
      if (fresh && c.rng.chance(0.5)) {
        eye = V2(0, 0);
        g.initialize(w.cloud(s, o, o));
        before.clear();
        resize = true;
        c.ev("traced_initializations");
      } else
        g.mergeInTraced(pc, at, resize);
    }
    c.trace << "eye " << eye.transpose() << ' ';
    first = false;
    Cells now = dump(g);
    Ext e1 = extent(g);
    bool grow = resize || fresh;
    Ext reach = grow ? e1 : e0;  // rays are drawn in all the space the grid has after growing
    auto in_ext = [&](const Pos &p, const Ext &e) { return p.first >= -e.l && p.first <= e.r && p.second >= -e.d && p.second <= e.u; };
    if (!grow) c.check(e1.l == e0.l && e1.r == e0.r && e1.u == e0.u && e1.d == e0.d, "grew", "the grid grew although it must not");
    std::map<Pos, std::vector<NDTCell>> recv;
    for (auto &k : in) {
      Pos p = posOf(k.getMean().head<2>(), w.cs);
      if (grow) c.check(in_ext(p, e1), "grow", "the grid does not cover", show(p));
      if (in_ext(p, e1)) recv[p].push_back(k);
    }
    // incoming distributions arrive: alone or pooled with what was there
    for (auto &r : recv) {
      auto it = now.find(r.first);
      c.check(it != now.end() && it->second.hasGaussian(), "traced-lost", "no distribution at", show(r.first));
      if (r.second.size() != 1) continue;
      const NDTCell &k = r.second[0];
      auto b = before.find(r.first);
      if (b == before.end() || !b->second.hasGaussian()) { w.alike(it->second, k, "traced-cell", r.first, 5e-5); continue; }
      size_t np = it->second.points();
      if (np == k.points()) { c.ev("replaced_after_emptied"); continue; }
      NDTCell sum = b->second;
      sum += k;
      c.check(np == sum.points(), "traced-cell", "points", np, "neither", k.points(), "nor pooled", sum.points());
      c.check((it->second.getMean() - sum.getMean()).norm() < 5e-5 * (1 + sum.getMean().norm()), "traced-cell", "mean not pooled at", show(r.first));
      c.ev("traced_pooled");
    }
    bool eyeIn = in_ext(posOf(eye, w.cs), reach);
    // cells off every ray keep their state; none appears there
    for (auto &n : now) {
      if (recv.count(n.first)) continue;
      double d = 1e300;
      V2 ctr(n.first.first * w.cs, n.first.second * w.cs);
      double half = w.cs * 0.75;  // centre to corner is 0.707
      for (auto &k : in) d = std::min(d, segDist(ctr, eye, k.getMean().head<2>()));
      auto b = before.find(n.first);
      bool off = d > half || !eyeIn;
      if (b == before.end()) {
        if (!(fresh && n.first == Pos(0, 0))) c.check(!off, "cell-off-rays", "a cell appeared at", show(n.first), "away from all rays");
        c.check(!n.second.hasGaussian() && n.second.getOccupancyRaw() < 0.0001f, "free-cell", "a new cell on a ray is not free:", n.second.getOccupancyRaw());
        c.ev("free_cells_created");
        continue;
      }
      if (off) {
        c.check(same(n.second, b->second), "bystander-changed", "cell", show(n.first), "changed away from all rays");
        c.ev("cells_off_rays");
        continue;
      }
      // on a ray and not the end of any: it can only get emptier, and its distribution stays or is dropped
      double near_end = 1e300;
      for (auto &k : in) near_end = std::min(near_end, (k.getMean().head<2>() - b->second.getMean().head<2>()).norm());
      if (near_end > 0.05) c.check(n.second.getOccupancyRaw() <= b->second.getOccupancyRaw() + 1e-6f, "occupancy-raised", "a passing ray raised the occupancy of", show(n.first));
      if (b->second.hasGaussian() && n.second.hasGaussian())
        c.check(n.second.getMean() == b->second.getMean() && n.second.getCov() == b->second.getCov() && n.second.points() == b->second.points(), "bystander-changed", "distribution changed by a ray");
      if (b->second.hasGaussian() && !n.second.hasGaussian()) c.ev("distributions_emptied");
      c.check(b->second.hasGaussian() || !n.second.hasGaussian(), "ghost", "a ray created a distribution at", show(n.first));
    }
    for (auto &b : before) c.check(now.count(b.first), "cell-lost", "cell at", show(b.first), "vanished");
    // cells a ray clearly crosses well before its end have been seen as free
    if (eyeIn)
      for (auto &k : in) {
        V2 end = k.getMean().head<2>();
        double len = (end - eye).norm();
        int n = (int)std::ceil(len / (0.3 * w.cs));
        double cut = len - 3 * w.cs;  // the last cells belong to the obstacle
        if (cut <= 0) continue;
        V2 stop = eye + (end - eye) * (cut / len);
        // a ray that leaves the grid ends there
        bool left = false;
        Pos last{1 << 20, 0};
        for (int i = 0; i <= n && !left; ++i) {
          V2 q = eye + (stop - eye) * (double(i) / n);
          Pos p = posOf(q, w.cs);
          if (!in_ext(p, reach)) { left = true; break; }
          if (p == last) continue;
          last = p;
          if (inCell(p, eye, stop) < 0.75 * w.cs || recv.count(p)) continue;
          auto it = now.find(p);
          c.check(it != now.end(), "ray-missing", "nothing known at", show(p), "which the ray to", end.transpose(), "crosses");
          auto b = before.find(p);
          if (!it->second.hasGaussian()) {
            c.check(it->second.getOccupancyRaw() < 0 || (b != before.end() && b->second.hasGaussian()), "ray-not-free", "crossed cell", show(p), "occupancy", it->second.getOccupancyRaw());
            if (b != before.end() && !b->second.hasGaussian() && b->second.getOccupancyRaw() > -1)
              c.check(it->second.getOccupancyRaw() < b->second.getOccupancyRaw(), "ray-not-free", "crossing did not lower", show(p));
          }
          c.ev("crossed_cells");
        }
      }
    c.ev("traced");
    model.clear();
    for (auto &n : now) if (n.second.hasGaussian()) model.emplace(n.first, n.second);
  }
  // ---- 29
  void move()
  {
    double ax = 0, ay = 0;
    switch (c.rng.below(5)) {
      case 0: ax = c.rng.uni(-0.9, 0.9); ay = c.rng.uni(-0.9, 0.9); break;
      case 1: ax = c.rng.uni(-6, 6); break;
      case 2: ay = c.rng.uni(-6, 6); break;
      case 3: ax = c.rng.uni(-6, 6); ay = c.rng.uni(-6, 6); break;
      default: ax = c.rng.uni(-60, 60); ay = c.rng.uni(-60, 60);
    }
    // stay clear of exact multiples of the cell size
    auto off = [](double x) { double f = x - std::floor(x); return f < 0.01 ? x + 0.02 : f > 0.99 ? x - 0.02 : x; };
    ax = off(ax); ay = off(ay);
    double th = c.rng.uni(-3, 3);
    Eigen::Matrix3d t = H(V3(ax * w.cs, ay * w.cs, th));
    Cells before = dump(g);
    Ext e = extent(g);
    vf::family("move");
    auto out = g.move(flat(t));
    c.trace << "move(" << ax << ',' << ay << ',' << th << ") ";
    if (std::fabs(o(2)) > 1e-7) {
      c.check(out.matrix() == t && g.getOrigin() == o, "move-refused", "a rotated grid must not be moved");
      Cells now = dump(g);
      c.check(now.size() == before.size(), "move-refused", "a rotated grid must not be moved");
      for (auto &b : before) c.check(now.count(b.first) && same(now.at(b.first), b.second), "move-refused", "content changed");
      c.ev("moves_refused");
      return;
    }
    long sx = (long)std::trunc(ax), sy = (long)std::trunc(ay);
    V3 no = o + V3(sx * w.cs, sy * w.cs, 0);
    double tol = 1e-5 * (1 + std::fabs(ax) + std::fabs(ay)) * (1 + o.norm());
    c.check((g.getOrigin() - no).norm() < tol, "move-origin", "origin", g.getOrigin().transpose(), "expected", no.transpose());
    c.check(std::fabs(out(0, 2) - (ax - sx) * w.cs) < tol && std::fabs(out(1, 2) - (ay - sy) * w.cs) < tol, "move-residual",
            "residual", out(0, 2), out(1, 2), "expected", (ax - sx) * w.cs, (ay - sy) * w.cs);
    c.check((out.matrix().block<2, 2>(0, 0) - t.block<2, 2>(0, 0)).norm() < 1e-12, "move-residual", "rotation of the residual changed");
    Ext e1 = extent(g);
    c.check(e1.l == e.l && e1.r == e.r && e1.u == e.u && e1.d == e.d, "move-extent", "moving changed the extent");
    Cells now = dump(g);
    size_t kept = 0;
    for (auto &b : before) {
      Pos p{b.first.first - sx, b.first.second - sy};
      bool in = p.first >= -e.l && p.first <= e.r && p.second >= -e.d && p.second <= e.u;
      if (!in) { c.ev("left_the_window"); continue; }
      ++kept;
      auto it = now.find(p);
      c.check(it != now.end(), "move-lost", "cell", show(b.first), "did not arrive at", show(p));
      const NDTCell &k = it->second;
      c.check(k.hasGaussian() == b.second.hasGaussian() && k.points() == b.second.points() && k.getOccupancyRaw() == b.second.getOccupancyRaw() && k.getCov() == b.second.getCov(),
              "move-content", "content of a moved cell changed");
      if (k.hasGaussian()) {
        V2 wa = mul(H(o), b.second.getMean().head<2>()), wb = mul(H(g.getOrigin()), k.getMean().head<2>());
        c.check((wa - wb).norm() < tol && k.getMean()(2) == b.second.getMean()(2), "move-world", "cell moved in the world from", wa.transpose(), "to", wb.transpose());
      }
    }
    c.check(now.size() == kept, "move-extra", now.size(), "cells after moving, expected", kept);
    o = g.getOrigin();
    model.clear();
    for (auto &n : now) if (n.second.hasGaussian()) model.emplace(n.first, n.second);
    c.ev(sx || sy ? "moves" : "moves_too_small");
  }
  void transform()
  {
    V3 p(c.rng.uni(-10, 10), c.rng.uni(-10, 10), c.rng.uni(-3.1, 3.1));
    if (c.rng.chance(0.2)) p(2) = 0;
    if (c.rng.chance(0.2)) p.head<2>().setZero();
    Eigen::Matrix3d rot = H(V3(0, 0, p(2)));
    Cells want;
    for (auto &q : g.vox()) {
      if (!q || !q->hasGaussian()) continue;
      NDTCell k = *q;
      k.transform(lift(rot));
      V2 mu = k.getMean().head<2>();
      if (margin(mu, w.cs) < 1e-5) return;
      if (!k.hasGaussian()) return;
      Pos t = posOf(mu, w.cs);
      auto it = want.find(t);
      if (it == want.end()) want.emplace(t, k);
      else { it->second += k; c.ev("pooled"); }
    }
    vf::family("transform");
    c.trace << "transform(" << p.transpose() << ") ";
    g.transform(flat(H(p)));
    w.gaussians(g, want, "transformed", 1e-7);
    // the content turns about the origin, which advances by the translation; its heading stays
    V3 no = g.getOrigin();
    V2 eo = o.head<2>() + p.head<2>();
    c.check((no.head<2>() - eo).norm() < 1e-8 * (1 + eo.norm()) && vf::angdiff(no(2), o(2)) < 1e-9, "transform-origin", "origin", no.transpose(), "expected", eo.transpose(), o(2));
    o = no;
    model.clear();
    for (auto &n : dump(g)) if (n.second.hasGaussian()) model.emplace(n.first, n.second);
    c.ev("transforms");
  }
  // ---- 30
  void queries()
  {
    Cells now = dump(g);
    std::map<NDTCell *, Pos> where;
    {
      Ext e = extent(g);
      long wd = e.l + e.r + 1, i = 0;
      for (auto &p : g.vox()) { if (p) where[p.get()] = Pos(i % wd - e.l, e.u - i / wd); ++i; }
    }
    std::vector<V2> means;
    std::set<NDTCell *> gauss;
    for (auto &k : where)
      if (k.first->hasGaussian()) { gauss.insert(k.first); means.push_back(k.first->getMean().head<2>()); }
    vf::family("getGaussianCells");
    auto gc = g.getGaussianCells();
    c.check(std::set<NDTCell *>(gc.begin(), gc.end()) == gauss && gc.size() == gauss.size(), "gaussian-cells", gc.size(), "listed, stored", gauss.size());
    vf::family("getMeans");
    // the cloud of means is the set of means
    auto cloud = g.getMeans();
    c.check(cloud.get() != nullptr && cloud->size() == means.size(), "means", cloud ? cloud->size() : 0, "means listed, stored", means.size());
    auto key = [](double x, double y) { return std::make_pair(std::llround(x * 1e3), std::llround(y * 1e3)); };
    auto closest = [&](const V2 &q) {
      double d = 1e300;
      for (auto &m : means) d = std::min(d, (m - q).norm());
      return d;
    };
    (void)key;
    for (auto &p : *cloud) c.check(closest(V2(p.x, p.y)) < 1e-5 * (1 + std::fabs(p.x) + std::fabs(p.y)), "means", "listed mean", p.x, p.y, "is nobody's");
    for (auto &m : means) {
      double d = 1e300;
      for (auto &p : *cloud) d = std::min(d, (V2(p.x, p.y) - m).norm());
      c.check(d < 1e-5 * (1 + m.norm()), "means", "mean", m.transpose(), "not listed");
    }
    auto tc = g.getMeansTransformed();
    c.check(tc->size() == cloud->size(), "means-world", "sizes differ");
    for (size_t i = 0; i < tc->size(); ++i) {
      V2 q = mul(H(o), V2((*cloud)[i].x, (*cloud)[i].y));
      c.check((V2((*tc)[i].x, (*tc)[i].y) - q).norm() < 1e-4 * (1 + q.norm()), "means-world", "mean in the world", (*tc)[i].x, (*tc)[i].y, "expected", q.transpose());
    }
    Ext e = extent(g);
    for (int q = 0; q < 6; ++q) {
      V2 pt(c.rng.uni(-e.l - 0.45, e.r + 0.45) * w.cs, c.rng.uni(-e.d - 0.45, e.u + 0.45) * w.cs);
      if (!means.empty() && c.rng.chance(0.4)) pt = means[c.rng.below(means.size())] + V2(c.rng.uni(-1, 1), c.rng.uni(-1, 1)) * w.cs;
      bool inside = posOf(pt, w.cs).first >= -e.l && posOf(pt, w.cs).first <= e.r && posOf(pt, w.cs).second >= -e.d && posOf(pt, w.cs).second <= e.u;
      if (margin(pt, w.cs) < 1e-4) continue;
      auto own = now.find(posOf(pt, w.cs));
      vf::family("cell-at");
      if (own != now.end()) {
        c.check(g.isInside(pt), "cell-at", "stored cell not found at", pt.transpose());
        P3 pp(pt(0), pt(1), 0);
        const Base &cg = g;
        if (margin(V2(pp.x, pp.y), w.cs) > 1e-4)
          c.check(&g[pt] == &g[pp] && &cg[pt] == &cg[pp] && &g[pt] == &cg[pt] && where.at(&g[pt]) == posOf(pt, w.cs), "cell-at", "lookup returned another cell");
      }
      double r = c.rng.chance(0.2) ? 0 : c.rng.uni(0.05, 8) * w.cs;
      if (c.rng.chance(0.1)) r = c.rng.range(1, 4) * w.cs;
      vf::family("getNeighbors");
      auto nb = g.getNeighbors(pt, (float)r);
      std::set<NDTCell *> set(nb.begin(), nb.end());
      c.check(set.size() == nb.size(), "neighbours", "a cell listed twice");
      for (auto *k : set) c.check(gauss.count(k), "neighbours", "lists a cell without distribution or not of this grid");
      if (inside)
        for (auto *k : gauss) {
          double d = (k->getMean().head<2>() - pt).norm();
          bool mine = where[k] == posOf(pt, w.cs);
          if (r == 0) { c.check(set.count(k) == (mine ? 1u : 0u), "neighbours", "radius 0 at", pt.transpose()); continue; }
          if (std::fabs(d - r) < 1e-5 * (1 + r)) continue;
          if (d < r) c.check(set.count(k), "neighbours", "cell at distance", d, "missing within", r);
          else if (!mine) c.check(!set.count(k), "neighbours", "cell at distance", d, "listed within", r);
        }
      c.ev("radius_queries");
      size_t K = c.rng.pick(std::vector<size_t>{1, 2, 3, 5, 12, 60});
      vf::family("getKNearestNeighbors");
      auto kn = g.getKNearestNeighbors(pt, K);
      c.check(kn.size() == std::min(K, gauss.size()), "nearest", kn.size(), "returned of", gauss.size(), "for", K);
      std::set<NDTCell *> ks(kn.begin(), kn.end());
      for (auto *k : ks) c.check(gauss.count(k), "nearest", "not a cell with a distribution");
      c.check(ks.size() == kn.size(), "nearest", "a cell listed twice");
      std::vector<double> ds;
      for (auto *k : gauss) { V3 a = k->getMean(); a.head<2>() -= pt; ds.push_back(a.norm()); }
      std::sort(ds.begin(), ds.end());
      for (size_t i = 0; i < kn.size(); ++i) {
        V3 a = kn[i]->getMean();
        a.head<2>() -= pt;
        c.check(std::fabs(a.norm() - ds[i]) < 1e-4 * (1 + pt.norm()), "nearest", "number", i, "at distance", a.norm(), "expected", ds[i]);
      }
      c.ev("nearest_queries");
      c.ev("neighbours_returned", nb.size() + kn.size());
    }
  }
  // a distribution whose mean lies a hair's breadth from a border between cells
  void borderline()
  {
    Grid b;
    b.setCellSize(w.csf);
    Cloud pc;
    double ax = c.rng.uni(0.05, 0.3) * w.cs, ay = c.rng.uni(0.05, 0.3) * w.cs;
    for (int i = 0; i < 4; ++i)
      for (int k = -1; k <= 1; k += 2) pc.push_back(P3((i & 1 ? ax : -ax) * k, (i & 2 ? ay : -ay) * k, 0));
    b.mergeIn(pc, V3(0, 0, 0), true);
    V2 off((c.rng.range(-5, 5) + 0.5) * w.cs, c.rng.uni(-5, 5) * w.cs);
    off(0) += c.rng.pick(std::vector<double>{-1e-9, 1e-9, -1e-12, 1e-12, 0});
    if (c.rng.chance(0.5)) std::swap(off(0), off(1));
    V2 at = mul(H(o), off);
    b.setOrigin(V3(at(0), at(1), o(2)));
    vf::family("mergeIn-border");
    g.mergeIn(b, true, true);
    first = false;
    model.clear();
    for (auto &n : dump(g)) if (n.second.hasGaussian()) model.emplace(n.first, n.second);
    c.trace << "border(" << off.transpose() << ") ";
    c.ev("border_means");
  }
  void copies()
  {
    vf::family("copy");
    Cells a = dump(g);
    Base::Ptr cp = g.makeShared();
    Grid h(*cp);
    Cells b = dump(h);
    c.check(a.size() == b.size() && h.getOrigin() == g.getOrigin() && h.getTimestamp() == g.getTimestamp() && h.getCellSize() == g.getCellSize(), "copy", "the copy differs");
    for (auto &k : a) c.check(b.count(k.first) && same(b.at(k.first), k.second), "copy", "the copy differs at", show(k.first));
    c.check(h.getMeans()->size() == g.getMeans()->size(), "copy", "means differ");
    // changing the copy leaves the original alone, also what its queries answer
    size_t before = g.getMeans()->size();
    auto s = w.scan(5, 6);
    h.setOrigin(V3(1, 2, 0.5));
    h.mergeIn(w.cloud(s, h.getOrigin(), h.getOrigin()), h.getOrigin(), true);
    if (c.rng.chance(0.5)) h.transform(flat(H(V3(1, 1, 1))));
    if (c.rng.chance(0.3)) h.clear();
    Cells a2 = dump(g);
    c.check(a2.size() == a.size() && g.getMeans()->size() == before && g.getOrigin() == o, "copy-aliased", "changing the copy changed the original");
    for (auto &k : a) c.check(same(a2.at(k.first), k.second), "copy-aliased", "changing the copy changed the original");
    queries();
    c.ev("copies");
  }
  void clear()
  {
    vf::family("clear");
    g.clear();
    model.clear();
    first = true;
    c.check(dump(g).empty(), "clear", "cells left after clearing");
    c.check(g.getOrigin() == o && g.getCellSize() == w.csf, "clear", "settings changed");
    c.ev("cleared");
    c.trace << "clear ";
    if (PROP == 30) queries();
  }
  // ---- 31
  void messages()
  {
    vf::family("createOccupancyGrid");
    OccupancyGrid m = g.createOccupancyGrid();
    Ext e = extent(g);
    Cells now = dump(g);
    c.check((long)m.width_ == e.l + e.r + 1 && (long)m.height_ == e.u + e.d + 1 && m.cells_.size() == m.width_ * m.height_, "map-size", m.width_, "x", m.height_, m.cells_.size());
    c.check(m.resolution_ == w.csf, "map-size", "resolution", m.resolution_);
    // the first entry is the top left cell
    V2 corner = mul(H(o), V2(-e.l * w.cs, e.u * w.cs));
    c.check((m.origin_.head<2>() - corner).norm() < 1e-5 * (1 + corner.norm()) && vf::angdiff(m.origin_(2), o(2)) < 1e-9, "map-origin", "origin", m.origin_.transpose(), "expected", corner.transpose());
    c.check((m.centroid_ - V2(e.l * w.cs, e.u * w.cs)).norm() < 1e-4 * (1 + corner.norm()), "map-centroid", m.centroid_.transpose());
    size_t i = 0;
    for (long row = e.u; row >= -e.d; --row)
      for (long col = -e.l; col <= e.r; ++col, ++i) {
        auto it = now.find(Pos(col, row));
        int want = it == now.end() ? -1 : it->second.getOccupancyRaw() > 0.8 ? 99 : 0;
        c.check(m.cells_[i] == want, "map-cell", "cell", show(Pos(col, row)), "is", (int)m.cells_[i], "expected", want);
        c.ev(want < 0 ? "map_unknown" : want ? "map_occupied" : "map_free");
      }
    vf::family("serialize");
    NDTGridMsg s = g.serialize();
    c.check((s.origin_.head<2>() - corner).norm() < 1e-5 * (1 + corner.norm()), "message-origin", "origin", s.origin_.transpose(), "expected", corner.transpose());
    c.check(vf::angdiff(s.origin_(2), o(2)) < 1e-9, "message-origin", "heading", s.origin_(2), "expected", o(2));
    c.check((s.size_ - V3(m.width_ * w.cs, m.height_ * w.cs, 0)).norm() < 1e-4 * (1 + m.width_), "message-size", s.size_.transpose());
    c.check((s.cell_sizes_ - V3(w.cs, w.cs, 0)).norm() < 1e-6, "message-size", s.cell_sizes_.transpose());
    c.check(s.cells_.size() == now.size(), "message-cells", s.cells_.size(), "cells, stored", now.size());
    std::vector<bool> used(s.cells_.size());
    for (auto &k : now) {
      bool found = false;
      for (size_t q = 0; q < s.cells_.size() && !found; ++q)
        if (!used[q] && s.cells_[q].mean_ == k.second.getMean() && s.cells_[q].cov_ == k.second.getCov() && s.cells_[q].points_ == (long)k.second.points() && s.cells_[q].occupancy_ == k.second.getOccupancyRaw())
          used[q] = found = true;
      c.check(found, "message-cells", "cell", show(k.first), "not in the message");
    }
    vf::family("geometry");
    // centre and extent used to look for loop closures
    V2 ctr((e.r - e.l) * w.cs / 2, (e.u - e.d) * w.cs / 2);
    c.check((g.getCentroid() - ctr).norm() < 1e-4 * (1 + ctr.norm()), "centroid", "centre", g.getCentroid().transpose(), "expected", ctr.transpose());
    double R = g.getRadius();
    // the centre of no stored cell lies farther than the radius
    for (auto &k : now) {
      double d = (V2(k.first.first * w.cs, k.first.second * w.cs) - ctr).norm();
      c.check(R >= d - 1e-4, "radius", "radius", R, "but cell", show(k.first), "is", d, "from the centre");
    }
    NDTGrid2DHolder<NDTCell, P3> holder(g.makeShared());
    c.check(holder.getCentroid() == g.getCentroid() && holder.getRadius() == R, "holder", "centre or radius differ from the grid's");
    V3 np = w.pose(9);
    holder.updatePosition(np);
    c.check(holder.getData()->getOrigin() == np && g.getOrigin() == o, "holder", "updatePosition");
    vf::family("pose-message");
    V3 ps(c.rng.uni(-100, 100), c.rng.uni(-100, 100), c.rng.angle());
    auto pm = EigenToPoseMsg(ps);
    auto &q = pm.orientation;
    double yaw = std::atan2(2 * (q.w * q.z + q.x * q.y), 1 - 2 * (q.y * q.y + q.z * q.z));
    c.check(pm.position.x == ps(0) && pm.position.y == ps(1) && pm.position.z == 0, "pose-message", "position");
    c.check(vf::angdiff(yaw, ps(2)) < 1e-9 && std::fabs(q.x * q.x + q.y * q.y + q.z * q.z + q.w * q.w - 1) < 1e-12, "pose-message", "heading", yaw, "expected", ps(2));
    c.ev("messages");
  }
};

#if PROP == 32
// ---------------------------------------------------------------- 32
typedef NDTMapper<NDTCell, P3> Mapper;
struct Maps {
  Case &c;
  World w;
  std::vector<std::pair<double, Base::Ptr>> frames;  // by time of capture
  double t = 1;
  explicit Maps(Case &cc) : c(cc), w(cc) { w.csf = 0.25f; w.cs = 0.25; }
  Base::Ptr frame()
  {
    Grid f;
    f.setCellSize(w.csf);
    V3 o = w.pose(40);
    f.setOrigin(o);
    auto s = w.scan(c.rng.range(1, 10), 10);
    // something on all four sides, so that the sensor never lies outside of what it sees
    for (long q : {-12, 12})
      for (int k = 0; k < 2; ++k) {
        auto &v = s[k ? Pos(q, c.rng.range(-12, 12)) : Pos(c.rng.range(-12, 12), q)];
        v.clear();
      }
    for (auto &v : s)
      if (v.second.empty())
        for (int i = 0; i < 8; ++i) v.second.push_back(V3((v.first.first + c.rng.uni(-.4, .4)) * w.cs, (v.first.second + c.rng.uni(-.4, .4)) * w.cs, 0));
    if (c.rng.chance(0.7)) f.initialize(w.cloud(s, o, o)); else f.initializeSimple(w.cloud(s, o, o));
    return f.makeShared();
  }
  typedef std::map<std::pair<long, long>, int> World2;  // rounded world position -> value
  // what the message shows, as the message type defines it: row by row from the lower left corner
  static V2 centre(const nav_msgs::OccupancyGrid &m, size_t i)
  {
    auto &q = m.info.origin.orientation;
    double yaw = std::atan2(2 * (q.w * q.z + q.x * q.y), 1 - 2 * (q.y * q.y + q.z * q.z));
    return mul(H(V3(m.info.origin.position.x, m.info.origin.position.y, yaw)),
               V2((i % m.info.width + 0.5) * m.info.resolution, (i / m.info.width + 0.5) * m.info.resolution));
  }
  World2 shown(const nav_msgs::OccupancyGrid &m)
  {
    World2 r;
    c.check(m.data.size() == (size_t)m.info.width * m.info.height, "map-size", "data", m.data.size(), m.info.width, "x", m.info.height);
    c.check(m.info.resolution == w.csf, "map-size", "resolution", m.info.resolution);
    for (size_t i = 0; i < m.data.size(); ++i) {
      V2 p = centre(m, i);
      Pos k = posOf(p, w.cs);
      c.check((p - V2(k.first * w.cs, k.second * w.cs)).norm() < 1e-3, "map-geometry", "centre of entry", i, "is not the centre of a cell:", p.transpose());
      if (m.data[i] != -1) r[k] = m.data[i];
    }
    return r;
  }
  // false: some mean is too close to a border to say where it belongs
  bool clear(const Base::Ptr &f)
  {
    for (auto *k : f->getGaussianCells()) {
      V2 p = mul(H(f->getOrigin()), k->getMean().head<2>());
      if (margin(p, w.cs) < 1e-4) return false;
    }
    return margin(f->getOrigin().head<2>(), w.cs) > 1e-4;
  }
  void compare(const Mapper &m, const char *key)
  {
    // the same frames drawn from scratch in the order of their capture
    auto sorted = frames;
    std::stable_sort(sorted.begin(), sorted.end(), [](auto &a, auto &b) { return a.first < b.first; });
    Mapper ref;
    for (auto &f : sorted) ref.addFrame(f.second, ros::Time(f.first));
    World2 a = shown(m.calcOccupancyGridMsg()), b = shown(ref.calcOccupancyGridMsg());
    for (auto &k : a) {
      auto it = b.find(k.first);
      if (it == b.end()) { c.check(k.second == 0 && k.first == Pos(0, 0), key, "entry", show(k.first), "shows", k.second, "for nothing"); continue; }
      c.check(it->second == k.second, key, "entry", show(k.first), "shows", k.second, "redrawn", it->second);
    }
    for (auto &k : b) c.check(a.count(k.first) || (k.first == Pos(0, 0) && k.second == 0), key, "entry", show(k.first), "missing");
    c.check(m.getPclMap()->size() == ref.getPclMap()->size(), key, "points of the map", m.getPclMap()->size(), "redrawn", ref.getPclMap()->size());
    std::vector<V2> pa, pb;
    for (auto &p : *m.getPclMap()) pa.push_back(V2(p.x, p.y));
    for (auto &p : *ref.getPclMap()) pb.push_back(V2(p.x, p.y));
    for (auto &p : pa) {
      double d = 1e300;
      for (auto &q : pb) d = std::min(d, (p - q).norm());
      c.check(d < 1e-3, key, "point of the map", p.transpose(), "not in the redrawn one");
      auto it = a.find(posOf(p, w.cs));
      if (margin(p, w.cs) > 1e-3) c.check(it != a.end(), key, "point", p.transpose(), "where the occupancy map shows nothing");
    }
    // independent of merging: what the last frame saw is there, and nothing lies where no frame saw anything
    if (!sorted.empty())
      for (auto *k : sorted.back().second->getGaussianCells()) {
        V2 p = mul(H(sorted.back().second->getOrigin()), k->getMean().head<2>());
        auto it = a.find(posOf(p, w.cs));
        c.check(it != a.end() && it->second == 99, "map-last-frame", "obstacle of the last frame at", p.transpose(), "is not shown occupied but", it == a.end() ? -1 : it->second);
        c.ev("last_frame_obstacles");
      }
    std::set<Pos> seen;
    for (auto &f : frames)
      for (auto *k : f.second->getGaussianCells()) seen.insert(posOf(mul(H(f.second->getOrigin()), k->getMean().head<2>()), w.cs));
    for (auto &k : a)
      if (k.second == 99) c.check(seen.count(k.first), "map-ghost", "obstacle", show(k.first), "which no frame saw");
    c.ev("maps_compared");
    c.ev("map_entries", a.size());
  }
  void run()
  {
    Mapper m;
    auto empty = m.calcOccupancyGridMsg();
    c.check(empty.data.size() == (size_t)empty.info.width * empty.info.height, "map-size", "of the empty map");
    int steps = c.rng.range(2, c.thorough ? 14 : 8);
    bool dirty = false;
    for (int i = 0; i < steps; ++i) {
      int op = frames.empty() ? 0 : (int)c.rng.below(10);
      if (op <= 3) {
        Base::Ptr f = frame();
        if (!clear(f)) continue;
        if (dirty) { vf::family("recalc"); m.recalc(ros::Time(t)); dirty = false; }
        vf::family("addFrame");
        t += c.rng.uni(0.1, 2);
        Base::Ptr give = f;
        if (c.rng.chance(0.5)) m.addFrame(std::move(give), ros::Time(t)); else m.addFrame(f, ros::Time(t));
        c.check(std::fabs(f->getTimestamp() - t) < 1e-6, "frame-time", "time-stamp", f->getTimestamp(), "expected", t);
        frames.push_back({t, f});
        c.trace << "add ";
        compare(m, "map-incremental");
        c.ev("frames_added");
      } else if (op <= 6) {
        // an optimised pose arrives, through the shared frame or through the mapper
        auto &f = frames[c.rng.below(frames.size())].second;
        V3 old = f->getOrigin();
        V3 np = old + V3(c.rng.uni(-1, 1), c.rng.uni(-1, 1), c.rng.uni(-0.5, 0.5));
#ifdef USE_UPDATEFRAME
        vf::family("updateFrame");
        if (c.rng.chance(0.5)) m.updateFrame(f, np); else
#endif
        f->setOrigin(np);
        c.check(f->getOrigin() == np, "frame-origin", "not updated");
        if (!clear(f)) { f->setOrigin(old); continue; }
        c.trace << "shift ";
        dirty = true;
        c.ev("frames_shifted");
      } else if (op == 7 && frames.size() > 1) {
#ifdef USE_REMOVEFRAME
        size_t k = c.rng.below(frames.size());
        vf::family("removeFrame");
        Base::Ptr f = frames[k].second;
        m.removeFrame(f);
        frames.erase(frames.begin() + k);
        dirty = true;
        c.trace << "remove ";
        c.ev("frames_removed");
        bool threw = false;
        try { m.removeFrame(f); } catch (const std::invalid_argument &) { threw = true; }
        c.check(threw, "remove-refused", "a frame not in the map was removed");
#endif
      } else if (op == 8 && frames.size() > 1) {
#ifdef USE_COMBINEFRAMES
        size_t a = c.rng.below(frames.size()), b = c.rng.below(frames.size());
        if (a == b) continue;
        vf::family("combineFrames");
        Base::Ptr fa = frames[a].second, fb = frames[b].second;
        double tb = fb->getTimestamp();
        Base::Ptr expect = fa->makeShared();
        expect->mergeInTraced(*fb, true, true);
        Base::Ptr got = m.combineFrames(fa, fb);
        c.check(got == fa, "combine", "returned another frame");
        c.check(fa->getTimestamp() == tb, "combine", "time-stamp not taken over");
        c.check(fa->getGaussianCells().size() == expect->getGaussianCells().size(), "combine", "content");
        frames[a].first = tb;
        frames.erase(frames.begin() + b);
        dirty = true;
        c.trace << "combine ";
        c.ev("frames_combined");
        bool ok = true;
        for (auto &f : frames) ok = ok && clear(f.second);
        if (!ok) return;
#endif
      } else {
        vf::family("recalc");
        m.recalc(ros::Time(t + 0.5));
        dirty = false;
        c.trace << "recalc ";
        compare(m, "map-redrawn");
        c.check(std::fabs(m.calcOccupancyGridMsg().info.map_load_time.toSec() - (t + 0.5)) < 1e-6, "map-time", "time of the last redrawing");
        c.ev("redrawn");
      }
    }
    if (dirty) {
      m.recalc(ros::Time(t));
      compare(m, "map-redrawn");
      c.ev("redrawn");
    }
    c.nontrivial = frames.size() > 1;
    for (auto &f : frames) c.sigadd(f.second->getOrigin()(0));
  }
};
#endif

void run_case(Case &c)
{
#if PROP == 32
  Maps(c).run();
  return;
#endif
  if (PROP == 26) { built(c); return; }
  History h(c);
  int steps = c.rng.range(1, c.thorough ? 14 : 7);
  int merges = 0;
  for (int i = 0; i < steps; ++i) {
    switch (PROP) {
      case 27:
        switch (c.rng.below(8)) {
          case 0: case 1: case 2: h.cloud(); ++merges; break;
          case 3: case 4: case 5: if (h.grid()) ++merges; break;
          case 6: h.coarser(); break;
          default: if (c.rng.chance(0.3)) h.clear(); else h.coarser();
        }
        c.nontrivial = merges > 1;
        break;
      case 28:
        if (c.rng.chance(0.2)) h.cloud(); else { h.traced(); ++merges; }
        c.nontrivial = merges > 0 && h.model.size() > 1;
        break;
      case 29:
        switch (c.rng.below(6)) {
          case 0: h.cloud(); break;
          case 1: h.traced(); break;
          case 2: h.transform(); break;
          default: h.move();
        }
        if (i == 0) h.cloud();
        c.nontrivial = h.model.size() > 1;
        break;
      default:
        switch (c.rng.below(7)) {
          case 0: h.cloud(); break;
          case 1: h.grid(); break;
          case 2: h.traced(); break;
          case 3: h.move(); break;
          case 4: h.transform(); break;
          case 5: if (c.rng.chance(0.15)) h.clear(); else if (PROP == 30) h.borderline(); else h.cloud(); break;
          default: if (c.rng.chance(0.3)) { h.g.enlarge(-10, -8, 12, 6); c.ev("enlarged"); }
        }
        if (PROP == 30) { if (c.rng.chance(0.6)) h.queries(); if (c.rng.chance(0.15)) h.copies(); }
        else h.messages();
        c.nontrivial = h.model.size() > 1;
    }
    h.w.sanity(h.g);
    c.sigadd((uint64_t)h.model.size());
  }
}
