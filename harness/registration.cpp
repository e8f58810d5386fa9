// C33..C36: registration of scans. PROP selects the oracle:
// 33 scores and their derivatives, 34 alignment by D2D and NDT2D, 35 correlative search, 36 the robust matcher.
#include "common.h"
#include "minigomp.h"
#include <ndt_gslam/ndt/ndt_cell.h>
#include <ndt_gslam/ndt/ndt_grid2d.h>
#include <ndt_gslam/registration/d2d_ndt2d.h>
#include <ndt_gslam/registration/ndt2d.h>
#if PROP >= 35
#include <ndt_gslam/registration/correlative_estimation2d.h>
#endif
#if PROP == 36
#include <ndt_gslam/registration/d2d_ndt2d_robust.h>
#include <ndt_gslam/slam_optimizer/ndt_scanmatcher.h>
#include <ndt_gslam/ndt_grid2d_holder.h>
#endif
using namespace slamuk;
typedef NDTGrid2D<NDTCell, pcl::PointXYZ> Grid;
typedef Eigen::Vector2d V2;
typedef Eigen::Vector3d V3;
typedef Eigen::Matrix3d M3;
typedef pcl::ndt_reg::ScoreAndDerivatives<3, double> Score;
typedef pcl::ndt_reg::FittingParams Fit;

static M3 H(const V3 &p)
{
  M3 m;
  m << std::cos(p(2)), -std::sin(p(2)), p(0), std::sin(p(2)), std::cos(p(2)), p(1), 0, 0, 1;
  return m;
}
static V3 unH(const M3 &m) { return V3(m(0, 2), m(1, 2), std::atan2(m(1, 0), m(0, 0))); }
static Eigen::Matrix4f mat4(const V3 &p)
{
  Eigen::Matrix4f m = Eigen::Matrix4f::Identity();
  M3 h = H(p);
  m.block<2, 2>(0, 0) = h.block<2, 2>(0, 0).cast<float>();
  m.block<2, 1>(0, 3) = h.block<2, 1>(0, 2).cast<float>();
  return m;
}
static V3 vec(const Eigen::Matrix4f &m) { return V3(m(0, 3), m(1, 3), std::atan2((double)m(1, 0), (double)m(0, 0))); }

#include "room.h"
// under the thread sanitizer: the interleavings seen so far
static void interleavings(Case &c)
{
#ifdef __SANITIZE_THREAD__
  static size_t orders = 0, regions = 0;
  c.ev("parallel_regions", minigomp::regions - regions);
  c.ev("distinct_finishing_orders", minigomp::orders.size() - orders);
  orders = minigomp::orders.size();
  regions = minigomp::regions;
#endif
}
static Grid::Ptr gridOf(const Cloud &pc, float cs)
{
  Grid::Ptr g(new Grid());
  g->setCellSize(cs);
  g->initializeSimple(pc);
  return g;
}
static Cloud::Ptr ptr(const Cloud &c) { return Cloud::Ptr(new Cloud(c)); }

// opens the protected scores
struct D2D : pcl::D2DNormalDistributionsTransform2D<P3, P3> {
  Score score(const Fit &f, const Grid &s, const V3 &t, const Grid &tg, bool h) { return calcScore(f, s, t, tg, h); }
};
struct P2D : pcl::NormalDistributionsTransform2DEx<P3, P3> {
  Score score(const Grid &tg, const Cloud &s, const V3 &t, const Fit &f) { return calcScore(tg, s, t, f); }
};

// the scores as defined, for chosen pairs of source elements and target cells
struct Pair { V3 m; M3 c; const NDTCell *t; };
static double d2dScore(const Fit &f, const std::vector<Pair> &ps, const V3 &x)
{
  M3 R = Eigen::AngleAxisd(x(2), V3::UnitZ()).toRotationMatrix();
  V3 t(x(0), x(1), 0);
  double s = 0;
  for (auto &p : ps) {
    V3 d = R * p.m + t - p.t->getMean();
    M3 C = R * p.c * R.transpose() + p.t->getCov();
    s += -f.gauss_d1_ * std::exp(-0.5 * f.gauss_d2_ * d.dot(C.inverse() * d));
  }
  return s;
}
static double p2dScore(const Fit &f, const std::vector<Pair> &ps, const V3 &x)
{
  M3 h = H(x);
  double s = 0;
  for (auto &p : ps) {
    V2 d = mul(h, p.m.head<2>()) - p.t->getMean().head<2>();
    Eigen::Matrix2d I = p.t->getICov().block<2, 2>(0, 0);
    s += -f.gauss_d1_ * std::exp(-0.5 * f.gauss_d2_ * d.dot(I * d));
  }
  return s;
}
template <typename F> static void derivatives(F f, const V3 &x, V3 &g, M3 &h)
{
  double e = 1e-5, E = 2e-4;
  for (int i = 0; i < 3; ++i) {
    V3 d = V3::Zero();
    d(i) = e;
    g(i) = (f(x + d) - f(x - d)) / (2 * e);
    for (int j = 0; j < 3; ++j) {
      V3 a = V3::Zero(), b = V3::Zero();
      a(i) = E; b(j) = E;
      h(i, j) = (f(x + a + b) - f(x + a - b) - f(x - a + b) + f(x - a - b)) / (4 * E * E);
    }
  }
}

#if PROP == 33
static void compare(Case &c, const char *what, const Score &s, double v, const V3 &g, const M3 &h, double tol, bool hess, size_t n)
{
  double gs = 0.02 * n + g.norm(), hs = 0.5 * n + h.norm();
  c.check(std::fabs(s.value_ - v) <= tol * (std::fabs(v) + 1), what, "score", s.value_, "expected", v);
  c.check((s.gradient_ - g).norm() <= tol * gs, what, "gradient", s.gradient_.transpose(), "numerically", g.transpose(), "of", n, "pairs");
  if (hess)
    c.check((s.hessian_ - h).norm() <= 3 * tol * hs, what, "Hessian\n", s.hessian_, "\nnumerically\n", h, "\nof", n, "pairs");
}
static void one(Case &c)
{
  Room room(c.rng);
  float cs = c.rng.pick(std::vector<float>{0.25f, 0.5f, 1.f, 2.f});
  double step = c.rng.uni(0.02, 0.06);
  V3 at(c.rng.uni(-1.5, 1.5), c.rng.uni(-1.5, 1.5), c.rng.uni(-3, 3));
  V3 rel(c.rng.uni(-1, 1), c.rng.uni(-1, 1), c.rng.uni(-1, 1));
  V3 at2 = unH(H(at) * H(rel));  // the source is seen from `rel` in the target's frame
  c.trace << "cs " << cs << " at " << at.transpose() << " rel " << rel.transpose() << ' ';
  Cloud tc = room.see(at, step, 0.02, c.rng), sc = room.see(at2, step, 0.02, c.rng);
  Grid::Ptr tg = gridOf(tc, cs), sg = gridOf(sc, cs);
  Fit fit(c.rng.uni(0.1, 0.9), 1.0 / cs);
  bool p2d = c.rng.chance(0.5);
  for (int k = 0; k < 3; ++k) {
    double spread = c.rng.pick(std::vector<double>{0, 0.05, 0.3, 1});
    V3 x = rel + spread * V3(c.rng.uni(-1, 1), c.rng.uni(-1, 1), c.rng.uni(-1, 1));
    if (c.rng.chance(0.15)) x(2) = c.rng.chance(0.5) ? 0 : c.rng.uni(-1e-4, 1e-4);
    if (c.rng.chance(0.1)) x(2) += 6.283185307179586 * c.rng.range(-2, 2);
    std::vector<Pair> ps;
    if (!p2d) {
      vf::family("d2d-score");
      M3 R = Eigen::AngleAxisd(x(2), V3::UnitZ()).toRotationMatrix();
      for (const NDTCell *s : sg->getGaussianCells())
        for (const NDTCell *t : tg->getKNearestNeighbors(V2((R * s->getMean()).head<2>() + x.head<2>()), 2)) ps.push_back({s->getMean(), s->getCov(), t});
      unsigned th[2] = {(unsigned)c.rng.range(1, 8), (unsigned)c.rng.range(1, 8)};
      D2D m;
      m.enableMultithreading(th[0]);
      Score a = m.score(fit, *sg, x, *tg, true);
      m.enableMultithreading(th[1]);
      Score b = m.score(fit, *sg, x, *tg, false);
      auto f = [&](const V3 &y) { return d2dScore(fit, ps, y); };
      V3 g; M3 h;
      derivatives(f, x, g, h);
      // the tree compares in single precision: with a tie another cell may have been taken
      compare(c, "d2d", a, f(x), g, h, 1e-4, true, ps.size());
      c.check((a.gradient_ - b.gradient_).norm() <= 1e-9 * (1 + a.gradient_.norm()) && std::fabs(a.value_ - b.value_) <= 1e-9 * (1 + std::fabs(a.value_)), "d2d-threads",
              "score depends on the number of threads or the Hessian:", a.value_, "with", th[0], "threads,", b.value_, "with", th[1]);
      c.check(b.hessian_.norm() == 0, "d2d", "Hessian calculated although not asked for");
      c.ev("d2d_scores");
      c.ev("d2d_pairs", ps.size());
      if (std::fabs(g.norm()) > 1e-3) c.ev("sloped");
    } else {
      vf::family("ndt2d-score");
      Cloud thin;
      for (size_t i = 0; i < sc.size(); i += 7) thin.push_back(sc[i]);
      M3 h0 = H(x);
      for (auto &p : thin)
        for (const NDTCell *t : tg->getKNearestNeighbors(mul(h0, V2(p.x, p.y)), 4)) ps.push_back({V3(p.x, p.y, 0), M3::Zero(), t});
      P2D m;
      Score a = m.score(*tg, thin, x, fit);
      auto f = [&](const V3 &y) { return p2dScore(fit, ps, y); };
      V3 g; M3 h;
      derivatives(f, x, g, h);
      compare(c, "ndt2d", a, f(x), g, h, 2e-3, true, ps.size());
      c.ev("ndt2d_scores");
      c.ev("ndt2d_pairs", ps.size());
      if (std::fabs(g.norm()) > 1e-3) c.ev("sloped");
    }
    if (x.head<2>().norm() > 0.3) c.ev("displaced");
    c.sigadd(x(0)); c.sigadd(x(2));
    c.nontrivial = c.nontrivial || ps.size() > 20;
  }
}
#endif

#if PROP == 34
static bool rigid(const Eigen::Matrix4f &m, double tol)
{
  Eigen::Matrix4f e = mat4(vec(m));
  return (m - e).norm() < tol;
}
struct Result { Eigen::Matrix4f t; bool conv; int it; Cloud out; M3 cov, inf; double prob; };
template <typename M> static Result finish(M &m, const V3 &guess)
{
  Result r;
  m.align(r.out, mat4(guess));
  r.t = m.getFinalTransformation();
  r.conv = m.hasConverged();
  r.it = m.getFinalNumIteration();
  r.cov = m.getCovariance();
  r.inf = m.getInformMatrix();
  r.prob = m.getTransformationProbability();
  return r;
}
struct Setting { float cs; int layers, maxit; double eps, outliers; unsigned threads; };
static Result d2d(const Setting &s, const Cloud &src, const Cloud &tgt, const V3 &guess, bool grids)
{
  D2D m;
  m.setCellSize(s.cs);
  m.setNumLayers(s.layers);
  m.setOulierRatio(s.outliers);
  m.setTransformationEpsilon(s.eps);
  m.setMaximumIterations(s.maxit);
  m.enableMultithreading(s.threads);
  if (grids) { m.setInputSource(Grid::ConstPtr(gridOf(src, s.cs))); m.setInputTarget(Grid::ConstPtr(gridOf(tgt, s.cs))); }
  else { m.setInputSource(ptr(src)); m.setInputTarget(ptr(tgt)); }
  return finish(m, guess);
}
static Result p2d(const Setting &s, const Cloud &src, const Cloud &tgt, const V3 &guess, bool grids)
{
  P2D m;
  m.setCellSize(s.cs);
  m.setNumLayers(s.layers);
  m.setOulierRatio(s.outliers);
  m.setTransformationEpsilon(s.eps);
  m.setMaximumIterations(s.maxit);
  m.setInputSource(ptr(src));
  if (grids) m.setInputTarget(Grid::ConstPtr(gridOf(tgt, s.cs)));
  else m.setInputTarget(ptr(tgt));
  return finish(m, guess);
}
static void one(Case &c)
{
  bool points = c.rng.chance(0.4);
  std::vector<double> errs, angs;
  double worst_eps = 0;
  int lost = 0;  // the search is local: a single one may be trapped
  for (int k = 0; k < 7; ++k) {
    Room room(c.rng);
    double step = c.rng.uni(0.02, 0.05), noise = c.rng.pick(std::vector<double>{0, 0.01, 0.02});
    V3 at(c.rng.uni(-1.5, 1.5), c.rng.uni(-1.5, 1.5), c.rng.uni(-3, 3));
    V3 rel(c.rng.uni(-1, 1), c.rng.uni(-1, 1), c.rng.chance(0.2) ? c.rng.uni(-3.1, 3.1) : c.rng.uni(-1, 1));
    V3 at2 = unH(H(at) * H(rel));
    Cloud tc = room.see(at, step, noise, c.rng), sc = room.see(at2, step, noise, c.rng);
    if (points) {
      Cloud thin;
      for (size_t i = 0; i < sc.size(); i += 5) thin.push_back(sc[i]);
      sc = thin;
    }
    double off = c.rng.uni(0, 0.3), offa = c.rng.uni(-0.15, 0.15), dir = c.rng.uni(0, 6.28);
    V3 guess = rel + V3(off * std::cos(dir), off * std::sin(dir), offa);
    Setting s;
    s.cs = c.rng.pick(std::vector<float>{0.25f, 0.5f});
    s.layers = (int)c.rng.range(1, 4);
    s.eps = c.rng.pick(std::vector<double>{0.1, 0.01, 0.001});
    s.maxit = c.rng.chance(0.1) ? (int)c.rng.range(1, 3) : 35;
    s.outliers = points ? c.rng.uni(0.2, 0.4) : c.rng.uni(0.4, 0.65);
    s.threads = (unsigned)c.rng.range(1, 6);
    bool grids = c.rng.chance(0.5);
    c.trace << (points ? "ndt2d" : "d2d") << " cs " << s.cs << " layers " << s.layers << " eps " << s.eps << " max " << s.maxit << " rel " << rel.transpose()
            << " guess " << guess.transpose() << ' ';
    Cloud before = sc;
    vf::family(points ? "ndt2d" : "d2d");
    auto run = points ? p2d : d2d;
    Result r = run(s, sc, tc, guess, grids);
    c.check(r.conv, "converged", "not converged although the scans overlap");
    c.check(r.it >= 1 && r.it <= s.maxit + (points ? 2 : 0), "iterations", r.it, "of at most", s.maxit);
    c.check(rigid(r.t, 1e-4), "rigid", "transformation\n", r.t, "is not a planar motion");
    // the output is the input moved by the transformation: the points given, or the means of the source grid
    Cloud in = !points && grids ? *gridOf(sc, s.cs)->getMeans() : before;
    c.check(r.out.size() == in.size(), "output", r.out.size(), "points of", in.size());
    M3 T = H(vec(r.t));
    for (size_t i = 0; i < in.size(); ++i) {
      V2 p = mul(T, V2(in[i].x, in[i].y));
      c.check((p - V2(r.out[i].x, r.out[i].y)).norm() < 1e-3, "output", "point", i, "is not the input moved by the result");
    }
    c.check((r.cov * r.inf - M3::Identity()).norm() < 1e-3, "covariance", "covariance times information is\n", r.cov * r.inf);
    c.check((r.cov - r.cov.transpose()).norm() <= 1e-6 * (1e-9 + r.cov.norm()), "covariance", "not symmetric\n", r.cov);
    c.check(std::isfinite(r.prob) && r.prob > 0, "probability", r.prob);
    V3 x = vec(r.t);
    double e = (x - rel).head<2>().norm(), a = vf::angdiff(x(2), rel(2));
    lost += !(e < 0.75 && a < 0.35);
    if (s.maxit == 35) {
      errs.push_back(e); angs.push_back(a);
      worst_eps = std::max(worst_eps, s.eps);
      if (s.eps < 0.05 && e < 0.05) {
        // at the maximum of the score the information is positive
        Eigen::SelfAdjointEigenSolver<M3> es(r.inf);
        if (es.eigenvalues()(0) > 0) c.ev("positive_information");
        c.check(es.eigenvalues()(2) > 0, "information", "negative definite\n", r.inf);
        c.check(r.inf(0, 0) + r.inf(1, 1) > 0, "information", "negative for translation\n", r.inf);
      }
      if (r.it > 1) c.ev("iterated");
    } else c.ev("cut_short");
    // the same question has the same answer, whatever the number of threads and the kind of input
    if (k == 0) {
      Result q = run(s, sc, tc, guess, grids);
      c.check(q.t == r.t && q.it == r.it, "repeatable", "second run differs");
      s.threads = (unsigned)c.rng.range(1, 8);
      q = run(s, sc, tc, guess, !grids);
      c.check((q.t - r.t).norm() < 2e-3, "inputs", "result\n", q.t, "\nfrom", grids ? "clouds" : "grids", "with", s.threads, "threads, otherwise\n", r.t);
      c.ev("repeated");
    }
    if (k == 1) {
      // nothing overlaps far away
      Result q = run(s, sc, tc, rel + V3(300 * std::cos(dir), 300 * std::sin(dir), 0), grids);
      c.check(!q.conv, "no-overlap", "converged without overlap");
      if (!points) {
        // ... nor is anything left of what was found before
        D2D m;
        m.setCellSize(s.cs);
        m.setNumLayers(s.layers);
        m.setInputSource(ptr(sc));
        m.setInputTarget(ptr(tc));
        Result a = finish(m, guess), b = finish(m, rel + V3(300 * std::cos(dir), 300 * std::sin(dir), 0));
        c.check(!b.conv, "no-overlap", "a used matcher converged without overlap");
        c.check(b.inf != a.inf && b.cov != a.cov, "no-overlap", "reports the information of the alignment before\n", a.inf);
      }
      c.ev("no_overlap");
    }
    c.ev(points ? "ndt2d" : "d2d");
    c.sigadd(x(0)); c.sigadd(x(1));
  }
  std::sort(errs.begin(), errs.end());
  std::sort(angs.begin(), angs.end());
  if (errs.size() >= 5) {
    double m = errs[errs.size() / 2], n = angs[angs.size() / 2];
    c.check(m < 0.15 + worst_eps && n < 0.05 + 0.5 * worst_eps, "accuracy", "median errors", m, n);
    c.check(lost < 3, "lost", lost, "of 7 alignments ended up far away from the truth");
    c.ev("accuracy_judged");
    if (getenv("STAT")) printf("%g %g %g\n", worst_eps, m, n);
  }
  c.nontrivial = true;
}
#endif

#if PROP >= 35
// the table as documented: cells occupied by the target, smeared by a Gaussian kernel
struct Table {
  double cs, minx = 0, maxy = 0, maxx = 0, miny = 0, n;
  std::map<std::pair<long, long>, int> v;
  bool knife = false;  // a point lies between two squares: rounding decides which one is occupied
  static constexpr double KERNEL[3] = {100, 0, 0};
  std::pair<long, long> pos(const V2 &p) const { return {(long)std::floor((p(0) - minx) / cs + 0.5), (long)std::floor((maxy - p(1)) / cs + 0.5)}; }
  Table(const Cloud &pc, double step, double sigma) : cs(step), n(pc.size())
  {
    for (auto &p : pc) {
      minx = std::min(minx, (double)p.x); maxx = std::max(maxx, (double)p.x);
      miny = std::min(miny, (double)p.y); maxy = std::max(maxy, (double)p.y);
    }
    // deviation and reach of the kernel as the tables define it
    double res = 1 / step, sd = std::min(std::max(sigma, 0.5 * res), 10 * res);
    long half = std::lround(2 * sd / res);
    std::set<std::pair<long, long>> occ;
    for (auto &p : pc) {
      occ.insert(pos(V2(p.x, p.y)));
      double fx = (p.x - minx) / cs + 0.5, fy = (maxy - p.y) / cs + 0.5;
      if (std::fabs(fx - std::round(fx)) < 1e-5 || std::fabs(fy - std::round(fy)) < 1e-5) knife = true;
    }
    for (auto &o : occ)
      for (long r = -half; r <= half; ++r)
        for (long q = -half; q <= half; ++q) {
          int k = (int)std::lround(100 * std::exp(-0.5 * (double)(r * r + q * q) * res * res / (sd * sd)));
          int &x = v[{o.first + r, o.second + q}];
          x = std::max(x, k);
        }
  }
  bool inside(const V2 &p, double m) const { return p(0) <= maxx - m && p(0) >= minx + m && p(1) <= maxy - m && p(1) >= miny + m; }
  double at(const V2 &p) const { auto i = v.find(pos(p)); return i == v.end() ? 0 : i->second; }
  // smallest and largest value within rounding of p
  void range(const V2 &p, double e, double &lo, double &hi) const
  {
    lo = 1e9; hi = -1;
    for (int i = -1; i <= 1; i += 2)
      for (int j = -1; j <= 1; j += 2) { double x = at(p + V2(i * e, j * e)); lo = std::min(lo, x); hi = std::max(hi, x); }
  }
};

typedef pcl::ml_corr::LookUpTable<P3> LUT;
static Cloud moved(const Cloud &in, const V3 &x)
{
  Cloud o;
  M3 m = H(x);
  for (auto &p : in) { V2 q = mul(m, V2(p.x, p.y)); o.push_back(P3(q(0), q(1), 0)); }
  return o;
}
#endif

#if PROP == 35
static void table(Case &c)
{
  Room room(c.rng);
  float step = c.rng.pick(std::vector<float>{0.25f, 0.5f, 1.f, 0.2f, 0.3f, 2.f, 3.f});
  double sd = 0.5;
  Cloud tc = room.see(V3(c.rng.uni(-1.5, 1.5), c.rng.uni(-1.5, 1.5), c.rng.uni(-3, 3)), c.rng.uni(0.05, 0.3), 0.01, c.rng);
  if (c.rng.chance(0.2)) tc = moved(tc, V3(c.rng.uni(-30, 30), c.rng.uni(-30, 30), 0));  // away from the origin
  c.trace << "table step " << step << " points " << tc.size() << ' ';
  Table want(tc, step, sd);
  if (want.knife) { c.ev("knife_edge"); return; }
  LUT lut;
  if (c.rng.chance(0.3)) lut.initGrid(room.see(V3(0, 0, 0), 0.5, 0, c.rng), 0.7f, sd);  // something else before
  vf::family("lookup");
  lut.initGrid(tc, step, sd);
  c.check(std::fabs(lut.getScore(tc) - 1) < 1e-9, "itself", "the target scores", lut.getScore(tc), "on itself");
  c.check(std::fabs(lut.getScore(lut.toIndexes(tc)) - 1) < 1e-9, "itself", "the target scores", lut.getScore(lut.toIndexes(tc)), "on itself by indexes");
  c.check(lut.getScore(Cloud()) == 0 && lut.getScore(std::vector<pcl::ml_corr::IndexPoint>()) == 0, "empty", "an empty cloud scores");
  for (int k = 0; k < 4; ++k) {
    V3 x(c.rng.logmag(-2, 1), c.rng.logmag(-2, 1), c.rng.chance(0.3) ? 0 : c.rng.uni(-0.5, 0.5));
    if (c.rng.chance(0.1)) x(0) += 1e4;
    Cloud q = moved(tc, x);
    if (c.rng.chance(0.3)) q.points.resize(c.rng.range(1, q.size()));
    long a = c.rng.range(-12, 12), b = c.rng.range(-12, 12);
    float dx = 0, dy = 0;  // summed up as a search does
    for (long i = 0; i < std::labs(a); ++i) dx += a > 0 ? step : -step;
    for (long i = 0; i < std::labs(b); ++i) dy += b > 0 ? step : -step;
    double lo = 0, hi = 0, ilo = 0, ihi = 0, tlo = 0, thi = 0, e = 1e-3 * step + (x(0) > 1e3 ? 2e-3 : 0);
    for (auto &p : q) {
      V2 z(p.x, p.y);
      double l, h;
      want.range(z, e, l, h);
      ilo += l; ihi += h;
      if (want.inside(z, e)) { lo += l; hi += h; }
      else hi += h;  // beyond the target's extent only the indexes see the smear
      want.range(z + V2(a * want.cs, b * want.cs), e, l, h);
      tlo += l; thi += h;
    }
    double n = 100.0 * tc.size();
    double s = lut.getScore(q);
    c.check(s >= lo / n - 1e-9 && s <= hi / n + 1e-9, "score", "cloud scores", s, "expected", lo / n, "to", hi / n);
    auto idx = lut.toIndexes(q);
    s = lut.getScore(idx);
    c.check(s >= ilo / n - 1e-9 && s <= ihi / n + 1e-9, "index-score", "indexes score", s, "expected", ilo / n, "to", ihi / n);
    std::vector<pcl::ml_corr::IndexPoint> out(3);
    lut.transformIndexes(idx, out, dx, dy);
    s = lut.getScore(out);
    c.check(out.size() == idx.size() && s >= tlo / n - 1e-9 && s <= thi / n + 1e-9, "moved-score", "indexes moved by", a, b, "cells score", s, "expected", tlo / n, "to", thi / n);
    c.ev("table_scores", 3);
    if (hi > 0) c.ev("table_hits");
  }
  Cloud src = tc, rot, tr;
  float al = c.rng.uni(-3, 3);
  pcl::ml_corr::rotatePointCloud(src, rot, al);
  pcl::ml_corr::translatePointCloud(src, tr, 1.5f, -2.f);
  Cloud w = moved(tc, V3(0, 0, al));
  for (size_t i = 0; i < tc.size(); ++i) {
    c.check((V2(rot[i].x, rot[i].y) - V2(w[i].x, w[i].y)).norm() < 1e-4, "rotate", "point", i);
    c.check((V2(tr[i].x, tr[i].y) - V2(tc[i].x + 1.5, tc[i].y - 2)).norm() < 1e-4, "translate", "point", i);
  }
  c.sigadd((double)step); c.sigadd((double)tc.size());
}
static void search(Case &c)
{
  std::vector<double> errs;
  for (int k = 0; k < 3; ++k) {
    Room room(c.rng);
    float step = c.rng.pick(std::vector<float>{0.25f, 0.5f, 0.2f});
    float range = step * c.rng.range(2, 5), rr = c.rng.pick(std::vector<float>{0.2f, 0.4f, 0.6f, 1.6f});
    V3 at(c.rng.uni(-1.5, 1.5), c.rng.uni(-1.5, 1.5), c.rng.uni(-3, 3));
    V3 rel(c.rng.uni(-1, 1), c.rng.uni(-1, 1), c.rng.uni(-3, 3));
    V3 guess = c.rng.chance(0.2) ? V3(0, 0, 0) : rel + V3(c.rng.uni(-1, 1) * (range - step), c.rng.uni(-1, 1) * (range - step), c.rng.uni(-1, 1) * (rr - 0.2));
    if (guess.isZero()) rel = V3(c.rng.uni(-1, 1) * (range - step), c.rng.uni(-1, 1) * (range - step), c.rng.uni(-1, 1) * (rr - 0.2));
    V3 at2 = unH(H(at) * H(rel));
    double gap = c.rng.uni(0.05, 0.15);
    Cloud tc = room.see(at, gap, 0.01, c.rng), sc = room.see(at2, gap, 0.01, c.rng);
    c.trace << "search step " << step << " range " << range << ' ' << rr << " rel " << rel.transpose() << " guess " << guess.transpose() << ' ';
    unsigned threads = (unsigned)c.rng.range(1, 6);
    pcl::CorrelativeEstimation<P3, P3> m;
    m.setCoarseStep(step);
    m.setTranslationRange(range);
    m.setRotationRange(rr);
    m.enableMultithreading(threads);
    m.setInputSource(ptr(sc));
    m.setInputTarget(ptr(tc));
    c.check(m.getCoarseStep() == step, "step", m.getCoarseStep());
    Cloud out;
    vf::family("search");
    if (guess.isZero() && c.rng.chance(0.5)) m.align(out);
    else m.align(out, mat4(guess));
    c.check(m.hasConverged(), "converged", "search failed");
    V3 res = vec(m.getFinalTransformation());
    c.check((m.getFinalTransformation() - mat4(res)).norm() < 1e-4, "rigid", "not a planar motion\n", m.getFinalTransformation());
    Cloud in = moved(sc, res);
    for (size_t i = 0; i < in.size(); ++i)
      c.check(out.size() == in.size() && (V2(in[i].x, in[i].y) - V2(out[i].x, out[i].y)).norm() < 1e-3, "output", "point", i, "is not the input moved by the result");
    // the result is one of the candidates around the guess ...
    Table want(tc, step, 0.5);
    if (want.knife) { c.ev("knife_edge"); return; }
    V3 d = unH(H(res) * H(guess).inverse());
    double kx = d(0) / want.cs, ky = d(1) / want.cs;
    c.check(std::fabs(kx - std::round(kx)) < 0.01 && std::fabs(ky - std::round(ky)) < 0.01, "candidate", "displacement from the guess", d.transpose(), "is not on the search grid");
    c.check(std::fabs(kx) < range / want.cs + 0.01 && std::fabs(ky) < range / want.cs + 0.01 && std::fabs(d(2)) < rr + 0.01, "candidate", "displacement from the guess", d.transpose(), "out of range");
    // ... and none scores better
    double best = -1, mine_hi = -1;
    V3 best_d;
    for (float th = -rr; th < rr; th += 0.2f) {
      Cloud q = moved(moved(sc, guess), V3(0, 0, th));
      std::vector<std::pair<long, long>> lo;
      for (auto &p : q) lo.push_back(want.pos(V2(p.x, p.y)));
      std::vector<long> steps;
      for (float dx = -range; dx < range; dx += step) steps.push_back(std::lround(dx / step));
      for (long a : steps)
        for (long b : steps) {
          // values that rounding cannot take away
          double s = 0, h = 0;
          bool mine = std::fabs(th - d(2)) < 0.01 && a == std::lround(kx) && b == std::lround(ky);
          for (auto &p : q) {
            double l, g;
            if (mine || best < 0) want.range(V2(p.x + a * want.cs, p.y + b * want.cs), 1e-3 * step, l, g);
            else { l = g = want.at(V2(p.x + a * want.cs, p.y + b * want.cs)); }
            s += l; h += g;
          }
          if (mine) mine_hi = h;
          if (s > best) { best = s; best_d = V3(a * step, b * step, th); }
        }
    }
    c.check(mine_hi >= 0, "candidate", "rotation from the guess", d(2), "is not on the search grid");
    c.check(mine_hi >= best * 0.995 - 200, "best", "result", d.transpose(), "scores at most", mine_hi, "but", best_d.transpose(), "scores", best);
    errs.push_back(std::max((res - rel).head<2>().norm() / want.cs, vf::angdiff(res(2), rel(2)) / 0.2));
    c.ev("searches");
    if (!guess.isZero()) c.ev("guessed");
    c.sigadd(res(0)); c.sigadd(rel(0));
  }
  std::sort(errs.begin(), errs.end());
  if (getenv("STAT")) printf("%g %g\n", errs[1], errs[2]);
  c.check(errs[1] < 5, "recovery", "median error of", errs[1], "search steps");
}
static void one(Case &c)
{
  c.nontrivial = true;
  if (c.rng.chance(0.5)) table(c);
  else search(c);
}
#endif

#if PROP == 36
typedef pcl::D2DNormalDistributionsTransform2DRobust<P3, P3> Robust;
static Eigen::Matrix4f poison() { return Eigen::Matrix4f::Constant(std::nanf("")); }
static void one(Case &c)
{
  std::vector<double> good, bad, far;
  int fooled = 0;
  int kind = (int)c.rng.below(4);  // good guesses, bad ones, other places, worse ones with a wider search
  bool grids = c.rng.chance(0.6);
  bool by_turn = c.rng.chance(0.5);
  Robust reused;
  {
    Robust r;
    c.check(r.getAlignmentQuality() == 0, "settings", "a matcher never used reports quality", r.getAlignmentQuality());
    double so = c.rng.uni(0.05, 0.95), st = c.rng.uni(0.01, 1);
    size_t la = (size_t)c.rng.range(1, 6);
    float ce = (float)c.rng.uni(0.1, 2);
    r.setOulierRatio(so); r.setStepSize(st); r.setNumLayers(la); r.setCellSize(ce);
    c.check(std::fabs(r.getOutlierRatio() - so) < 1e-6 && std::fabs(r.getStepSize() - st) < 1e-6 && r.getNumLayers() == la && r.getCellSize() == ce, "settings", "outlier ratio, step, layers, cell set to", so, st, la, ce, "are", r.getOutlierRatio(), r.getStepSize(), r.getNumLayers(), r.getCellSize());
    for (float bad_limit : {-0.1f, -1.f, 1.2f, 7.f}) {
      bool threw = false;
      try { r.setRejectionLimit(bad_limit); } catch (const std::invalid_argument &) { threw = true; }
      c.check(threw, "settings", "the rejection limit", bad_limit, "was taken");
    }
  }
  std::unique_ptr<NdtScanmatcher<NDTGrid2DHolder<NDTCell, P3>>> sm(new NdtScanmatcher<NDTGrid2DHolder<NDTCell, P3>>());
  for (int k = 0; k < 9; ++k) {
    Room room(c.rng), other(c.rng);
    float cs = c.rng.pick(std::vector<float>{0.25f, 0.25f, 0.5f});
    double step = c.rng.uni(0.02, 0.04), noise = 0.01;
    V3 at(c.rng.uni(-1.5, 1.5), c.rng.uni(-1.5, 1.5), c.rng.uni(-3, 3));
    V3 rel(c.rng.uni(-1, 1), c.rng.uni(-1, 1), c.rng.uni(-1, 1));
    V3 at2 = unH(H(at) * H(rel));
    Cloud tc = room.see(at, step, noise, c.rng), sc = (kind == 2 ? other : room).see(at2, step, noise, c.rng);
    double off = kind == 3 ? (by_turn ? 0.3 : c.rng.uni(6, 6.3)) : kind == 1 ? c.rng.uni(1, 2.5) : c.rng.uni(0, 0.15), dir = kind == 3 ? 1.5707963 * (double)c.rng.below(4) : c.rng.uni(0, 6.28), offa = kind == 3 ? (by_turn ? c.rng.uni(1.9, 2.3) : 0.3) : kind == 1 ? c.rng.uni(-1, 1) : c.rng.uni(-0.1, 0.1);
    V3 guess = rel + V3(off * std::cos(dir), off * std::sin(dir), offa);
    float limit = c.rng.pick(std::vector<float>{0.2f, 0.4f, 0.6f, 0.75f, 0.9f, 0.99f});
    if (kind == 3 || (kind < 2 && c.rng.chance(0.8))) limit = c.rng.pick(std::vector<float>{0.2f, 0.4f, 0.6f});
    bool again = c.rng.chance(0.5);
    c.trace << "kind " << kind << " cs " << cs << " limit " << limit << " rel " << rel.transpose() << " guess " << guess.transpose() << (grids ? " grids " : " clouds ");
    Grid::Ptr sg = gridOf(sc, cs), tg = gridOf(tc, cs);
    Robust fresh;
    Robust &m = again ? reused : fresh;
    auto ask = [&](Robust &r, Cloud &out) {
      r.setCellSize(cs);
      r.setRejectionLimit(limit);
      if (kind == 3 && !by_turn) r.setTranslationRange(7);
      if (kind == 3 && by_turn) r.setRotationRange(3);
      r.enableMultithreading((unsigned)c.rng.range(1, 4));
      if (grids) { r.setInputSource(Grid::ConstPtr(sg)); r.setInputTarget(Grid::ConstPtr(tg)); }
      else { r.setInputSource(ptr(sc)); r.setInputTarget(ptr(tc)); }
      vf::family("robust");
      r.align(out, mat4(guess));
    };
    Cloud out;
    ask(m, out);
    c.check(m.getCellSize() == cs, "cell-size", m.getCellSize());
    bool conv = m.hasConverged();
    double q = m.getAlignmentQuality();
    Eigen::Matrix4f t = m.getFinalTransformation();
    c.check((t - mat4(vec(t))).norm() < 1e-3, "rigid", "not a planar motion\n", t);
    Cloud in = grids ? *sg->getMeans() : sc, want_cloud = grids ? *tg->getMeans() : tc;
    if (conv) {
      Cloud w = moved(in, vec(t));
      c.check(out.size() == w.size(), "output", out.size(), "points of", w.size());
      for (size_t i = 0; i < w.size(); ++i) c.check((V2(w[i].x, w[i].y) - V2(out[i].x, out[i].y)).norm() < 2e-3, "output", "point", i, "is not the input moved by the result");
      // the quality reported is the score of the transformation reported
      Table tab(want_cloud, cs, 0.5);
      double lo = 0, hi = 0;
      for (auto &p : w) {
        double l, h;
        tab.range(V2(p.x, p.y), 3e-3 * cs, l, h);
        if (tab.inside(V2(p.x, p.y), 3e-3 * cs)) lo += l;
        hi += h;
      }
      double n = 100.0 * want_cloud.size();
      if (tab.knife) c.ev("knife_edge");
      else if (q > 0) c.check(q >= lo / n - 1e-4 && q <= hi / n + 1e-4, "quality", "quality", q, "but the transformation scores", lo / n, "to", hi / n);
      c.check(q >= std::min(limit, 0.6f) - 1e-4, "accepted", "accepted with quality", q, "and limit", limit);
      c.ev("accepted");
    } else c.ev("rejected");
    double e = std::max((vec(t) - rel).head<2>().norm(), vf::angdiff(t.block<2, 1>(0, 0).size() ? vec(t)(2) : 0, rel(2)) * 2);
    if (kind == 0) { c.ev("good_guesses"); if (limit < 0.7) good.push_back(conv ? e : 9); }
    if (kind == 1) { c.ev("bad_guesses"); if (limit < 0.7) bad.push_back(conv ? e : 9); }
    if (kind == 3) { c.ev("beyond_range"); far.push_back(conv ? e : 9); }
    if (kind == 2) {
      c.ev("foreign_places");
      fooled += conv && limit > 0.7;
    }
    if (getenv("STAT")) fprintf(stderr, "STAT %d %d %.2f %d %.3f %.3f %d\n", kind, grids, limit, conv, q, e, by_turn);
    // what was asked before makes no difference
    if (again && grids) {  // (grids also set the step of the search)
      Robust f2;
      Cloud o2;
      ask(f2, o2);
      c.check(f2.hasConverged() == conv && (!conv || (f2.getFinalTransformation() - t).norm() < 0.02), "stateless", "a matcher used before answers differently");
      c.ev("reused");
    }
    // the scan matcher reports what the registration found
    if (grids && k == 0) {
      NDTGrid2DHolder<NDTCell, P3> hs(sg), ht(tg);
      sm->setScoreThreshold(limit);
      MatchResult r = sm->match(hs, ht, H(guess));
      Robust f;
      f.setStepSize(0.1);
      f.setOulierRatio(0.55);
      f.setRejectionLimit(limit);
      f.setRotationRange(3);
      f.setInputSource(Grid::ConstPtr(sg));
      f.setInputTarget(Grid::ConstPtr(tg));
      Cloud o;
      f.align(o, mat4(guess));
      c.check(r.success_ == f.hasConverged(), "matcher", "success", r.success_);
      c.check(std::fabs(r.score_ - f.getAlignmentQuality()) < 1e-6, "matcher", "score", r.score_, "expected", f.getAlignmentQuality());
      Eigen::Matrix3d want = H(vec(f.getFinalTransformation()));
      c.check((r.transform_.matrix() - want).norm() < 1e-4, "matcher", "transformation\n", r.transform_.matrix(), "\nexpected\n", want);
      c.check((r.inform_ - r.inform_.transpose()).norm() == 0 && r.inform_.llt().info() == Eigen::Success, "matcher", "information not positive\n", r.inform_);
      c.ev("matched");
    }
    c.sigadd(e);
  }
  // (rooms can resemble each other)
  c.check(fooled < 2, "fooled", fooled, "scans of other places were accepted although the limit was at least 0.75");
  auto judge = [&](const std::vector<double> &v, const char *key, const char *ev) {
    size_t lost = 0;
    for (double x : v) lost += !(x < 0.3);
    if (v.size() < 6) return;
    c.check(lost <= 3, key, lost, "of", v.size(), grids ? "grids" : "clouds", "ended away from the truth or were refused", by_turn);
    c.ev(ev);
  };
  judge(good, "accuracy", "good_judged");
  judge(bad, "recovery", "recovery_judged");
  judge(far, "search-range", "range_judged");
  c.nontrivial = true;
}
#endif

void run_case(Case &c)
{
  struct Counted { Case &c; ~Counted() { interleavings(c); } } counted{c};
  one(c);
}
