// C12..C16: NDT cells against a reference computed from the raw points.
// 12 statistics, 13 merging, 14 conditioning, 15 occupancy, 16 rigid motion and message.
#include "common.h"
#include <ndt_gslam/ndt/ndt_cell.h>
using slamuk::NDTCell;
typedef Eigen::Vector3d V3;
typedef Eigen::Matrix3d M3;
static const double LOGODD = 0.405465108;

struct Ref {
  bool g = false;
  double n = 0;         // points in the distribution
  V3 mean = V3::Zero();
  M3 cov = M3::Identity();
  double occ = 0;
  std::vector<V3> pend; // points not yet absorbed
  double slack = 1e-12; // accumulated relative rounding allowance
  static double clamp(double o) { return std::max(-1.0, std::min(1.0, o)); }
  void floorEig()
  {
    Eigen::SelfAdjointEigenSolver<M3> s((cov + cov.transpose()) / 2);
    V3 e = s.eigenvalues();
    for (int i = 0; i < 2; ++i) e(i) = std::max(e(i), 0.01 * e(2));
    cov = s.eigenvectors() * e.asDiagonal() * s.eigenvectors().transpose();
  }
  // two-pass batch statistics
  static void batch(const std::vector<V3> &p, V3 &m, M3 &c)
  {
    double n = (double)p.size();
    m.setZero();
    for (auto &q : p) m += q;
    m /= n;
    c.setZero();
    for (auto &q : p) c += (q - m) * (q - m).transpose();
    c = (c + M3::Identity()) / n * (n - 1) / n;
  }
  void pool(double n2, const V3 &m2, const M3 &c2)
  {
    double N = n + n2;
    V3 d = mean - m2;
    cov = ((n - 1) * cov + (n2 - 1) * c2 + (n * n2 / N) * d * d.transpose()) / (N - 1);
    mean = (n * mean + n2 * m2) / N;
    n = N;
  }
  void compute()
  {
    occ = clamp(occ + LOGODD * pend.size());
    if (occ <= 0 || pend.size() < 6) { g = false; n = (double)pend.size(); return; }
    V3 m2; M3 c2;
    batch(pend, m2, c2);
    if (!g) { mean = m2; cov = c2; n = (double)pend.size(); g = true; }
    else pool((double)pend.size(), m2, c2);
    floorEig();
    pend.clear();
  }
  void merge(const Ref &o)
  {
    if (o.n <= 2 || !o.g) return;
    if (!g) { *this = o; return; }
    pool(o.n, o.mean, o.cov);
    if (n > 1e9) n = 1e9;
    occ = clamp(occ + o.n * LOGODD);
    floorEig();
    slack = std::max(slack, o.slack) * 2;
  }
  void transform(const Eigen::Affine3d &t)
  {
    if (!g) return;
    mean = t * mean;
    cov = t.linear() * cov * t.linear().transpose();
    floorEig();
  }
};

struct Pair { NDTCell c; Ref r; double far = 0; };

static std::vector<V3> cloud(Case &c, size_t n, double offset, int shape)
{
  V3 o(c.rng.uni(-1, 1) * offset, c.rng.uni(-1, 1) * offset, shape == 4 ? c.rng.uni(-1, 1) * offset : 0);
  double s = c.rng.pick<double>({0.02, 0.25, 1.0, 3.0});
  V3 dir(c.rng.gauss(), c.rng.gauss(), shape == 4 ? c.rng.gauss() : 0);
  dir /= std::max(1e-9, dir.norm());
  std::vector<V3> p;
  for (size_t i = 0; i < n; ++i) {
    switch (shape) {
      case 0: p.push_back(o + V3(c.rng.uni(-s, s), c.rng.uni(-s, s), 0)); break;                 // scan patch
      case 1: p.push_back(o + dir * c.rng.uni(-s, s)); break;                                     // wall: degenerate
      case 2: p.push_back(o); break;                                                              // one spot
      case 3: p.push_back(o + dir * c.rng.uni(-s, s) + V3(c.rng.gauss(), c.rng.gauss(), 0) * 0.01); break;
      default: p.push_back(o + V3(c.rng.gauss(), c.rng.gauss(), c.rng.gauss()) * s); break;       // 3-D blob
    }
  }
  return p;
}

static void same(Case &c, const Pair &p, const char *key)
{
  const NDTCell &k = p.c;
  const Ref &r = p.r;
  c.check(k.hasGaussian() == r.g, key, "has a distribution:", k.hasGaussian(), "want", r.g);
  c.check((double)k.points() == r.n, key, "points", k.points(), "want", r.n);
  if (r.g) {
    double s = 1 + p.far + r.cov.cwiseAbs().maxCoeff();
    double tm = 1e-11 * s, tc = (1e-12 * s * s + 1e-9 * r.cov.cwiseAbs().maxCoeff()) * 40;
    c.check((k.getMean() - r.mean).cwiseAbs().maxCoeff() < tm, key, "mean", k.getMean().transpose(), "want", r.mean.transpose());
    c.check((k.getCov() - r.cov).cwiseAbs().maxCoeff() < tc, key, "covariance\n", k.getCov(), "\nwant\n", r.cov);
    c.ev("distributions_compared");
  }
  c.check(std::fabs(k.getOccupancyRaw() - r.occ) < 2e-5, key, "occupancy", k.getOccupancyRaw(), "want", r.occ);
}

static void conditioned(Case &c, const NDTCell &k)
{
  if (!k.hasGaussian()) return;
  const M3 &C = k.getCov(), &I = k.getICov();
  c.check(C.allFinite() && I.allFinite() && k.getMean().allFinite(), "not-finite", "distribution with non-finite numbers");
  double mx = C.cwiseAbs().maxCoeff();
  c.check((C - C.transpose()).cwiseAbs().maxCoeff() <= 1e-9 * mx, "asymmetric", C);
  Eigen::SelfAdjointEigenSolver<M3> s((C + C.transpose()) / 2);
  c.check(s.eigenvalues()(2) > 0, "not-positive", s.eigenvalues().transpose());
  c.check(s.eigenvalues()(0) >= 0.01 * s.eigenvalues()(2) * (1 - 1e-6), "ill-conditioned", "eigenvalues", s.eigenvalues().transpose());
  c.check((C * I - M3::Identity()).cwiseAbs().maxCoeff() < 1e-8, "not-inverse", "C*C^-1\n", C * I);
  c.check(k.points() >= 3, "too-few-points", k.points());
  c.check(k.getOccupancyRaw() > 0, "gaussian-unoccupied", k.getOccupancyRaw());
  c.ev("distributions_conditioned");
  if (s.eigenvalues()(0) < 0.0101 * s.eigenvalues()(2)) c.ev("eigenvalues_lifted");
}

static void occBounds(Case &c, const NDTCell &k)
{
  float o = k.getOccupancyRaw();
  c.check(o >= -1.f && o <= 1.f, "occupancy-range", o);
  int s = k.getOccupancy();
  c.check(s <= 100 && s >= -100, "occupancy-scaled", s);
  c.check(std::abs(s - (int)std::floor(o * 100.0 + 1e-6)) <= 1, "occupancy-scaled", "raw", o, "scaled", s);
  if (o >= 1.f) c.check(s == 100, "occupancy-scaled", "raw", o, "scaled", s);
}

static void addBatch(Case &c, Pair &p, size_t n, double offset, int shape)
{
  vf::family("addPoint");
  auto pts = cloud(c, n, offset, shape);
  for (auto &q : pts) { p.c.addPoint(q); p.r.pend.push_back(q); p.far = std::max(p.far, q.cwiseAbs().maxCoeff()); }
  vf::family("computeGaussian");
  float before = p.c.getOccupancyRaw();
  p.c.computeGaussian();
  p.r.compute();
  if (PROP == 15) c.check(p.c.getOccupancyRaw() >= before, "points-lower-occupancy", before, p.c.getOccupancyRaw());
  c.trace << "batch n=" << n << " shape=" << shape << ' ';
  c.sigadd(pts.empty() ? 0.0 : pts[0](0));
}
static size_t batchSize(Case &c) { return c.rng.chance(0.8) ? c.rng.range(6, 60) : c.rng.pick<size_t>({6, 6, 7, 200, 1500}); }

static Pair fresh(Case &c, double offset, int batches)
{
  Pair p;
  for (int i = 0; i < batches; ++i) addBatch(c, p, batchSize(c), offset, (int)c.rng.below(5));
  return p;
}
static Eigen::Affine3d rigid(Case &c, bool planar)
{
  Eigen::Affine3d t = Eigen::Affine3d::Identity();
  if (planar) t.rotate(Eigen::AngleAxisd(c.rng.angle(), V3::UnitZ()));
  else t.rotate(Eigen::AngleAxisd(c.rng.angle(), V3(c.rng.gauss(), c.rng.gauss(), c.rng.gauss()).normalized()));
  t.pretranslate(V3(c.rng.uni(-20, 20), c.rng.uni(-20, 20), planar ? 0 : c.rng.uni(-5, 5)));
  return t;
}

static void ray(Case &c, Pair &p)
{
  vf::family("updateOccupancy");
  V3 m = p.c.hasGaussian() ? p.c.getMean() : V3(c.rng.uni(-3, 3), c.rng.uni(-3, 3), 0);
  V3 s, e;
  size_t n = c.rng.pick<size_t>({1, 2, 3, 6, 10, 50, 1000});
  double sd = std::sqrt(p.r.cov.trace());
  int kind = (int)c.rng.below(6);
  V3 dir(c.rng.gauss(), c.rng.gauss(), 0);
  dir /= std::max(1e-6, dir.norm());
  s = m - dir * c.rng.uni(0.5, 20);
  switch (kind) {
    case 0: e = m + dir * c.rng.uni(0.5, 10); break;                            // straight through the mean
    case 1: e = m + V3(c.rng.uni(-.003, .003), c.rng.uni(-.003, .003), 0); break; // ends here
    case 2: e = m + dir * c.rng.uni(0.5, 10) + V3(-dir(1), dir(0), 0) * c.rng.uni(-3, 3) * sd; break;
    case 3: e = V3(c.rng.uni(-9, 9), c.rng.uni(-9, 9), 0); break;
    case 4: e = m + dir * c.rng.uni(0.02, 0.5) * sd; break;                     // ends close behind
    default: e = s; break;                                                      // no direction at all
  }
  if (kind == 5) e = s;
  const NDTCell b = p.c;
  p.c.updateOccupancy(s, e, n);
  float o0 = b.getOccupancyRaw(), o1 = p.c.getOccupancyRaw();
  c.trace << "ray kind=" << kind << " n=" << n << " occ " << o0 << "->" << o1 << ' ';
  c.check(!std::isnan(o1), "occupancy-nan", "ray", s.transpose(), "->", e.transpose());
  occBounds(c, p.c);
  c.check(p.c.points() == b.points() && (p.c.getMean() - b.getMean()).norm() == 0 && (p.c.getCov() - b.getCov()).norm() == 0,
          "ray-changes-distribution", "a ray changed points, mean or covariance");
  if (!b.hasGaussian()) c.check(!p.c.hasGaussian(), "ray-creates-gaussian", "");
  bool ends = b.hasGaussian() && (m - e).cwiseAbs().sum() < 0.01;
  if (ends) {
    c.check(o1 >= 1.f && p.c.hasGaussian(), "endpoint-occupancy", "ray ending at the mean left", o1);
    p.r.occ = 1;
    c.ev("rays_ending");
    return;
  }
  c.check(o1 <= o0, "ray-raises-occupancy", o0, "->", o1);
  if (b.hasGaussian()) c.check(p.c.hasGaussian() == (o1 > 0), "gaussian-unoccupied", "gaussian", p.c.hasGaussian(), "occupancy", o1);
  double want;
  if (!b.hasGaussian()) { want = o0 - 0.2 * n; c.ev("rays_empty_cell"); }
  else if (e == s) { want = o0; c.ev("rays_degenerate"); }
  else {
    V3 l = (e - s).normalized();
    M3 ic = b.getCov().inverse();
    double t = -(ic * l).dot(e - m) / l.dot(ic * l);
    V3 near = e + t * l;
    double lik = std::exp(-0.5 * (near - m).dot(ic * (near - m)));
    double d = (near - e).norm();
    lik *= 1 - std::exp(-0.5 * d * d / 1e-4);
    lik = 0.1 * lik + 0.5;
    want = o0 + n * std::log((1 - lik) / lik);
    c.ev("rays_through");
    if (o1 < o0) c.ev("rays_lowering");
    if (!p.c.hasGaussian()) c.ev("gaussians_dropped_by_rays");
  }
  want = Ref::clamp(want);
  c.check(std::fabs(o1 - want) < 1e-4, "ray-occupancy", "got", o1, "want", want, "from", o0, "points", n);
  p.r.occ = o1;
  if (o1 <= 0) p.r.g = false;
}

void run_case(Case &c)
{
  Rng &r = c.rng;
  double offset = r.pick<double>({0, 1, 10, 100});
  if (PROP == 14 && r.chance(0.3)) offset = r.pick<double>({1e3, 1e5, 1e7, 1e8});
  c.nontrivial = true;
  if (PROP == 12) {
    Pair p;
    c.check(!p.c.hasGaussian() && p.c.points() == 0 && p.c.getOccupancyRaw() == 0, "empty-cell", "a new cell is not empty");
    // small batches first: nothing may get lost until six points are there
    int small = (int)r.below(4);
    for (int i = 0; i < small; ++i) {
      if (p.r.g) break;
      addBatch(c, p, r.below(4), offset, (int)r.below(5));
      same(c, p, "small-batch");
      c.ev("small_batches");
      conditioned(c, p.c);
    }
    int nb = (int)r.range(1, 5);
    std::vector<V3> all;
    for (int i = 0; i < nb; ++i) {
      addBatch(c, p, batchSize(c), offset, (int)r.below(5));
      same(c, p, i ? "incremental" : "first-batch");
      if (i) c.ev("incremental_updates");
    }
    // order of the points is irrelevant
    size_t n = batchSize(c);
    auto pts = cloud(c, n, offset, (int)r.below(5));
    NDTCell a, b;
    for (auto &q : pts) a.addPoint(q);
    for (size_t i = pts.size(); i-- > 0;) b.addPoint(pts[i]);
    a.computeGaussian(); b.computeGaussian();
    double s = 1 + offset;
    c.check((a.getMean() - b.getMean()).cwiseAbs().maxCoeff() < 1e-10 * s && (a.getCov() - b.getCov()).cwiseAbs().maxCoeff() < 1e-9 * s * s, "point-order", "");
    // regularisation fades: close to the sample covariance for many points
    V3 mm; M3 cc; Ref::batch(pts, mm, cc);
    c.check((a.getMean() - mm).cwiseAbs().maxCoeff() < 1e-10 * s, "mean", a.getMean().transpose(), mm.transpose());
    return;
  }
  if (PROP == 13) {
    Pair a = fresh(c, offset, (int)r.range(1, 2)), b = fresh(c, offset, (int)r.range(1, 2));
    same(c, a, "setup");
    Pair e;  // empty, and one with too few points
    if (r.chance(0.5)) addBatch(c, e, r.range(0, 5), offset, 0);
    vf::family("merge");
    Pair x = a; x.c += b.c; x.r.merge(b.r); x.far = std::max(a.far, b.far);
    same(c, x, "merge");
    c.ev("merges");
    Pair y = b; y.c += a.c; y.r.merge(a.r); y.far = x.far;
    same(c, y, "merge");
    double tc = 1e-7 * (1 + x.far * x.far * 1e-3 + x.r.cov.cwiseAbs().maxCoeff());
    c.check((x.c.getMean() - y.c.getMean()).cwiseAbs().maxCoeff() < 1e-9 * (1 + x.far) && (x.c.getCov() - y.c.getCov()).cwiseAbs().maxCoeff() < tc && x.c.points() == y.c.points(),
            "merge-order", "a+b differs from b+a");
    // merging something without a distribution changes nothing
    Pair z = a; z.c += e.c;
    same(c, {z.c, a.r, a.far}, "merge-empty");
    // merging into an empty cell adopts the other distribution
    Pair w = e; w.c += a.c; w.r = a.r; w.far = a.far;
    same(c, w, "merge-into-empty");
    c.ev("merge_empty");
    // the operand is untouched
    same(c, b, "merge-operand");
    // chains, with itself too: up to the cap on the number of points
    int n = (int)r.range(1, 6);
    for (int i = 0; i < n; ++i) {
      if (r.chance(0.3)) { Ref o = x.r; x.c += x.c; x.r.merge(o); c.ev("self_merges"); }
      else { Pair q = fresh(c, offset, 1); x.c += q.c; x.r.merge(q.r); x.far = std::max(x.far, q.far); }
      same(c, x, "merge-chain");
    }
    if (r.chance(0.05)) {
      V3 m0 = x.c.getMean();
      for (int i = 0; i < 40; ++i) { NDTCell o = x.c; x.c += o; }
      c.check(x.c.points() == 1000000000u, "point-cap", x.c.points());
      c.check((x.c.getMean() - m0).cwiseAbs().maxCoeff() < 1e-9 * (1 + x.far), "merge-cap", "mean moved");
      // pooling a full cell with a small one still weighs by points
      conditioned(c, x.c);
      c.ev("capped");
    }
    return;
  }
  // 14, 15, 16: random histories
  Pair p = fresh(c, offset, (int)r.below(3));
  int ops = (int)r.range(3, 12);
  for (int i = 0; i < ops; ++i) {
    switch (r.below(PROP == 15 ? 8 : 6)) {
      case 0: addBatch(c, p, p.r.g ? batchSize(c) : r.range(0, 30), offset, (int)r.below(5)); break;
      case 1: { vf::family("merge"); Pair q = fresh(c, offset, (int)r.below(2)); p.c += q.c; p.r.merge(q.r); p.far = std::max(p.far, q.far); c.ev("merges"); break; }
      case 2: {
        vf::family("transform");
        Eigen::Affine3d t = rigid(c, r.chance(0.7));
        p.c.transform(NDTCell::Transform(t));
        p.r.transform(t);
        p.far = p.far * 2 + 40;
        for (auto &q : p.r.pend) (void)q;
        c.ev("transforms");
        break;
      }
      case 3: if (PROP == 14) { vf::family("merge"); p.c += p.c; Ref o = p.r; p.r.merge(o); break; }  // fallthrough
      default:
        if (PROP == 15) { if (offset <= 100) ray(c, p); }
        else if (PROP == 14) { V3 m = p.c.getMean(); V3 d(r.gauss(), r.gauss(), 0); vf::family("updateOccupancy"); p.c.updateOccupancy(m - d * 3, m + d * 2, r.range(1, 5)); p.r.occ = p.c.getOccupancyRaw(); p.r.g = p.c.hasGaussian(); c.ev("rays"); }
    }
    if (PROP == 14) conditioned(c, p.c);
    if (PROP == 15) {
      occBounds(c, p.c);
      if (p.c.hasGaussian()) c.check(p.c.getOccupancyRaw() > 0, "gaussian-unoccupied", p.c.getOccupancyRaw());
      c.check(std::fabs(p.c.getOccupancyRaw() - p.r.occ) < 1e-3, "occupancy", "got", p.c.getOccupancyRaw(), "want", p.r.occ);
      c.ev("occupancies_checked");
    }
    if (PROP == 16) {
      same(c, p, "history");
      vf::family("serialize");
      auto m = p.c.serialize();
      c.check((m.mean_ - p.c.getMean()).norm() == 0 && (m.cov_ - p.c.getCov()).norm() == 0 && m.points_ == (long)p.c.points() && std::fabs(m.occupancy_ - p.c.getOccupancyRaw()) < 1e-7,
              "message", "message differs from the cell");
      c.ev("messages");
    }
  }
  if (PROP == 16) {
    // moving a cell == building it from moved points; merging commutes with moving
    vf::family("transform");
    auto pts = cloud(c, batchSize(c), std::min(offset, 10.0), (int)r.below(5));
    auto pt2 = cloud(c, batchSize(c), std::min(offset, 10.0), (int)r.below(5));
    Eigen::Affine3d t = rigid(c, r.chance(0.7));
    NDTCell a, b, a2, b2;
    for (auto &q : pts) { a.addPoint(q); b.addPoint(t * q); }
    for (auto &q : pt2) { a2.addPoint(q); b2.addPoint(t * q); }
    a.computeGaussian(); b.computeGaussian(); a2.computeGaussian(); b2.computeGaussian();
    NDTCell am = a;
    am += a2;
    a.transform(NDTCell::Transform(t));
    double s = 1000;
    auto eq = [&](const NDTCell &x, const NDTCell &y, const char *key) {
      double mc = y.getCov().cwiseAbs().maxCoeff();
      c.check((x.getMean() - y.getMean()).cwiseAbs().maxCoeff() < 1e-10 * s, key, "mean", x.getMean().transpose(), y.getMean().transpose());
      c.check((x.getCov() - y.getCov()).cwiseAbs().maxCoeff() < 1e-9 * (1 + mc) , key, "covariance\n", x.getCov(), "\n", y.getCov());
      c.check((x.getICov() - y.getICov()).cwiseAbs().maxCoeff() < 1e-5 * (1 + y.getICov().cwiseAbs().maxCoeff()), key, "inverse covariance");
      c.check(x.points() == y.points() && std::fabs(x.getOccupancyRaw() - y.getOccupancyRaw()) < 1e-6 && x.hasGaussian() == y.hasGaussian(), key, "points/occupancy");
    };
    eq(a, b, "equivariance");
    a2.transform(NDTCell::Transform(t));
    a += a2;
    am.transform(NDTCell::Transform(t));
    eq(a, am, "merge-equivariance");
    am.transform(NDTCell::Transform(t.inverse()));
    NDTCell back; for (auto &q : pts) back.addPoint(q);
    back.computeGaussian();
    NDTCell k2; for (auto &q : pt2) k2.addPoint(q);
    k2.computeGaussian();
    back += k2;
    eq(am, back, "there-and-back");
    c.ev("equivariance_checks");
  }
}
