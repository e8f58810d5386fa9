// C17 covariance inversion, C18 covariance concatenation, C19 string splitting,
// C20 registration constants/accumulators/encodings, C21 line-search steps.
#include "common.h"
#include <Eigen/Dense>
#include <ndt_gslam/registration/ndt_reg_tools.h>
#include <ndt_gslam/utils/covariance_inverse.h>
#include <ndt_gslam/utils/covariance_wrapper.h>
#include <ndt_gslam/utils/string_tools.h>
using namespace slamuk;
typedef Eigen::Matrix3d M3;
typedef Eigen::Vector3d V3;

static M3 randRot(Rng &r)
{
  Eigen::Quaterniond q(r.gauss(), r.gauss(), r.gauss(), r.gauss());
  q.normalize();
  return q.toRotationMatrix();
}
static M3 randCov(Rng &r, double lo, double hi)
{
  V3 e(std::pow(10, r.uni(lo, hi)), std::pow(10, r.uni(lo, hi)), std::pow(10, r.uni(lo, hi)));
  M3 q = r.chance(0.2) ? M3(M3::Identity()) : randRot(r);
  M3 c = q * e.asDiagonal() * q.transpose();
  return M3((c + c.transpose()) / 2);
}

template <typename S> void covInverse(Case &c)
{
  Rng &r = c.rng;
  typedef Eigen::Matrix<S, 3, 3> M;
  const double eps = std::numeric_limits<S>::epsilon();
  // eigenvalues chosen first: well conditioned, near the limit, singular, negative, zero
  double scale = std::pow(10, r.uni(-6, 6));
  V3 e;
  int kind = r.below(8);
  for (int i = 0; i < 3; ++i) e(i) = r.uni(0.02, 1);
  bool plain = kind <= 1;
  if (kind == 2) e(r.below(3)) = std::pow(10, r.uni(-14, -2));
  if (kind == 3) { e(0) = std::pow(10, r.uni(-14, -2)); e(1) = std::pow(10, r.uni(-14, -2)); }
  if (kind == 4) e(r.below(3)) = 0;
  if (kind == 5) e(r.below(3)) = -r.uni(0, 0.5);
  if (kind == 6) { e = -e; if (r.chance(0.5)) e(r.below(3)) = r.uni(0, 3); }
  if (kind == 7) { if (r.chance(0.5)) e.setZero(); else e(1) = e(2) = e(0); }
  M3 q = r.chance(0.25) ? M3(M3::Identity()) : randRot(r);
  M3 cd = q * (scale * e).asDiagonal() * q.transpose();
  cd = M3((cd + cd.transpose()) / 2);
  M cov = cd.cast<S>();
  cov = M((cov + cov.transpose()) / 2);
  c.trace << "cov " << Eigen::Map<Eigen::Matrix<double, 1, 9>>(cd.data()) << "\n";
  Eigen::SelfAdjointEigenSolver<M3> es(cov.template cast<double>());
  V3 ev = es.eigenvalues();
  double sum = ev.sum(), mx = ev.maxCoeff(), absmax = ev.cwiseAbs().maxCoeff();
  M adj, icov;
  const S mark = S(12345.5);
  adj.setConstant(mark);
  icov.setConstant(mark);
  vf::family("covar-inverse");
  bool ok = covarInverse<S>(cov, adj, icov);
  c.sigadd(cov(0, 0) * 1.0);
  c.sigadd(cov(0, 1) * 1.0);
  if (std::fabs(sum) <= 200 * eps * absmax && absmax > 0) return;  // undecided sign
  if (sum <= 0) {
    c.ev("rejected");
    c.check(!ok, "accepted-nonpositive", "eigenvalues", ev.transpose());
    return;
  }
  c.check(ok, "refused-positive", "eigenvalues", ev.transpose());
  c.nontrivial = true;
  c.ev("inverted");
  M3 A = adj.template cast<double>(), I = icov.template cast<double>();
  c.check(A.allFinite() && I.allFinite(), "not-finite", A, I);
  double tol = 300 * eps;
  c.check((A - A.transpose()).norm() <= tol * mx * 3, "adjusted-not-symmetric", A);
  V3 want;
  bool near_limit = false, lifted = false;
  for (int i = 0; i < 3; ++i) {
    want(i) = std::max(ev(i), mx / 100);
    if (ev(i) < mx / 100) lifted = true;
    if (std::fabs(ev(i) - mx / 100) < 1e3 * eps * mx) near_limit = true;
  }
  M3 ref = es.eigenvectors() * want.asDiagonal() * es.eigenvectors().transpose();
  c.check((A - ref).norm() <= tol * mx * 10, "adjusted-wrong", "got\n", A, "\nwant\n", ref);
  if (!lifted && !near_limit) {
    c.ev("unchanged");
    c.check((A - cov.template cast<double>()).norm() == 0, "well-conditioned-changed", A);
  }
  if (lifted) c.ev("lifted");
  M3 iref = es.eigenvectors() * want.cwiseInverse().asDiagonal() * es.eigenvectors().transpose();
  c.check((I - iref).norm() <= tol * 100 * 30 / mx, "inverse-wrong", "got\n", I, "\nwant\n", iref);
  c.check((A * I - M3::Identity()).norm() <= 3e4 * eps, "not-inverse-of-adjusted", A * I);
  (void)plain;
}

// first-order propagation of a pose (heading th) followed by a displacement t, by numerical derivatives
static void concatRef(double th, const Eigen::Vector2d &t, M3 &ja, M3 &jb)
{
  auto f = [&](const V3 &a, const V3 &b) {
    return V3(a(0) + std::cos(a(2)) * b(0) - std::sin(a(2)) * b(1), a(1) + std::sin(a(2)) * b(0) + std::cos(a(2)) * b(1),
              a(2) + b(2));
  };
  V3 a(0, 0, th), b(t(0), t(1), 0);
  double h = 1e-5;
  for (int i = 0; i < 3; ++i) {
    V3 d = V3::Zero();
    d(i) = h;
    ja.col(i) = (f(a + d, b) - f(a - d, b)) / (2 * h);
    jb.col(i) = (f(a, b + d) - f(a, b - d)) / (2 * h);
  }
}
static void covWrapper(Case &c)
{
  Rng &r = c.rng;
  M3 start = randCov(r, -4, 1);
  CovarianceWrapper w = r.chance(0.2) ? CovarianceWrapper() : CovarianceWrapper(start);
  if (r.chance(0.1)) { start = M3::Identity(); w = CovarianceWrapper(); c.ev("default_start"); }
  M3 ref = w.covar_;
  int n = r.range(1, 12);
  std::ostringstream sg;
  for (int k = 0; k < n; ++k) {
    double th = r.angle();
    Eigen::Vector2d t(r.logmag(-2, 1), r.logmag(-2, 1));
    if (r.chance(0.15)) t.setZero();
    if (r.chance(0.15)) th = 0;
    M3 o = r.chance(0.1) ? M3(M3::Zero()) : randCov(r, -4, 1);
    CovarianceWrapper::Transform tr = CovarianceWrapper::Transform::Identity();
    tr.linear() = Eigen::Rotation2Dd(th).toRotationMatrix();
    tr.translation() = t;
    c.trace << "add th=" << th << " t=" << t.transpose() << "\n";
    vf::family("covar-concat");
    M3 before = w.covar_;
    w.addToCovar(o, tr);
    c.ev("concatenated");
    c.sigadd(th);
    c.sigadd(t(0));
    M3 ja, jb;
    concatRef(th, t, ja, jb);
    ref = ja * before * ja.transpose() + jb * o * jb.transpose();
    double sc = ref.norm() + 1e-12;
    c.check((w.covar_ - ref).norm() <= 1e-7 * sc, "concatenation", "step", k, "got\n", w.covar_, "\nwant\n", ref);
    c.check((w.covar_ - w.covar_.transpose()).norm() <= 1e-10 * sc, "asymmetric", w.covar_);
    Eigen::SelfAdjointEigenSolver<M3> es(w.covar_);
    c.check(es.eigenvalues()(0) >= -1e-9 * sc, "not-psd", es.eigenvalues().transpose());
    c.check(std::fabs(w.covar_(2, 2) - before(2, 2) - o(2, 2)) <= 1e-10 * sc, "heading-variance", w.covar_(2, 2));
    if (o.norm() == 0 && t.norm() == 0) {
      c.ev("null_steps");
      c.check((w.covar_ - before).norm() <= 1e-12 * sc, "null-step-changed", w.covar_);
    }
    c.nontrivial = true;
  }
}

static void splitting(Case &c)
{
  Rng &r = c.rng;
  std::string alpha = r.chance(0.5) ? "ab" : std::string("a,;\0b", 5);
  auto rs = [&](int n) { std::string s; for (int i = 0; i < n; ++i) s += alpha[r.below(alpha.size())]; return s; };
  std::string tok = rs(r.range(1, 3)), s;
  if (r.chance(0.5)) {
    int n = r.range(0, 8);
    for (int i = 0; i < n; ++i) s += r.chance(0.4) ? tok : rs(r.below(4));
  } else
    s = rs(r.below(30));
  if (r.chance(0.05)) s = tok;
  if (r.chance(0.05)) s = "";
  bool empty_tok = r.chance(0.05);
  if (empty_tok) tok = "";
  c.trace << "split '" << s << "' by '" << tok << "'\n";
  vf::family(empty_tok ? "split-empty-token" : "split");
  std::vector<std::string> p = split(s, tok);
  c.ev("split");
  for (char ch : s) c.sigadd((uint64_t)ch);
  c.sigadd((uint64_t)tok.size());
  if (empty_tok) {
    c.ev("empty_token");
    std::string j;
    for (auto &x : p) j += x;
    c.check(j == s, "empty-token-loses", j);
    return;
  }
  std::vector<std::string> ref;
  size_t b = 0;
  for (;;) {
    size_t q = s.find(tok, b);
    if (q == std::string::npos) { ref.push_back(s.substr(b)); break; }
    ref.push_back(s.substr(b, q - b));
    b = q + tok.size();
  }
  if (ref.size() > 1) { c.nontrivial = true; c.ev("tokens_found"); }
  std::string j;
  for (size_t i = 0; i < p.size(); ++i) j += (i ? tok : "") + p[i];
  c.check(j == s, "join-differs", "'" + j + "'");
  c.check(p == ref, "parts-differ", "got", p.size(), "want", ref.size());
}

template <unsigned N, typename T> void accumulators(Case &c)
{
  Rng &r = c.rng;
  using SD = pcl::ndt_reg::ScoreAndDerivatives<N, T>;
  auto rnd = [&]() {
    SD s;
    for (unsigned i = 0; i < N; ++i) {
      s.gradient_(i) = T((double)r.range(-1000, 1000));
      for (unsigned j = 0; j < N; ++j) s.hessian_(i, j) = T((double)r.range(-1000, 1000));
    }
    s.value_ = T((double)r.range(-1000, 1000));
    return s;
  };
  auto eq = [](const SD &a, const SD &b) { return a.hessian_ == b.hessian_ && a.gradient_ == b.gradient_ && a.value_ == b.value_; };
  vf::family("accumulators");
  SD z = SD::Zero(), d;
  c.check(eq(z, d) && z.value_ == 0 && z.gradient_.isZero(0) && z.hessian_.isZero(0), "zero-not-zero");
  SD a = rnd(), b = rnd(), e = rnd(), a0 = a, b0 = b;
  c.check(eq(a + z, a) && eq(z + a, a), "zero-not-neutral");
  c.check(eq(a + b, b + a), "sum-not-commutative");
  c.check(eq((a + b) + e, a + (b + e)), "sum-not-associative");
  SD s = a + b;
  for (unsigned i = 0; i < N; ++i) {
    c.check(s.gradient_(i) == a.gradient_(i) + b.gradient_(i), "gradient-sum");
    for (unsigned j = 0; j < N; ++j) c.check(s.hessian_(i, j) == a.hessian_(i, j) + b.hessian_(i, j), "hessian-sum");
  }
  c.check(s.value_ == a.value_ + b.value_, "value-sum");
  c.check(eq(a, a0) && eq(b, b0), "operands-changed");
  SD i = a;
  SD &ret = (i += b);
  c.check(eq(i, s) && &ret == &i, "in-place-sum");
  // the same parts in two different orders and groupings give the same whole (integers: exact)
  std::vector<SD> parts;
  for (int k = r.range(2, 20); k > 0; --k) parts.push_back(rnd());
  SD fwd, grp[3], all;
  for (size_t k = 0; k < parts.size(); ++k) {
    fwd += parts[k];
    grp[r.below(3)] += parts[k];
  }
  all = grp[2] + (grp[0] + grp[1]);
  c.check(eq(fwd, all), "partition-dependent");
  c.ev("accumulated", parts.size());
  c.sigadd((double)fwd.value_);
}
template <typename T> void encodings(Case &c)
{
  Rng &r = c.rng;
  double tol = std::is_same<T, float>::value ? 1e-5 : 1e-12;
  V3 v(r.logmag(-4, 4), r.logmag(-4, 4), r.angle());
  c.trace << "vec " << v.transpose() << "\n";
  vf::family("encodings");
  Eigen::Matrix<T, 4, 4> m = pcl::ndt_reg::vecToMat<T>(v);
  M3 R = m.template block<3, 3>(0, 0).template cast<double>();
  double sc = 1 + std::fabs(v(0)) + std::fabs(v(1));
  double atol = tol * (1 + std::fabs(v(2)));
  c.check((R.transpose() * R - M3::Identity()).norm() < 10 * tol && std::fabs(R.determinant() - 1) < 10 * tol, "not-rigid", R);
  c.check(std::fabs(R(0, 0) - std::cos(v(2))) < 5 * atol && std::fabs(R(1, 0) - std::sin(v(2))) < 5 * atol &&
              std::fabs(R(0, 1) + std::sin(v(2))) < 5 * atol,
          "rotation-entries", R);
  c.check(std::fabs(m(0, 3) - v(0)) <= tol * sc && std::fabs(m(1, 3) - v(1)) <= tol * sc && m(2, 3) == 0 && m(3, 3) == 1 &&
              m(3, 0) == 0 && m(3, 1) == 0 && m(3, 2) == 0 && std::fabs(m(2, 2) - 1) <= tol,
          "layout", m);
  V3 b = pcl::ndt_reg::matToVec<T>(m);
  c.check(std::fabs(b(0) - v(0)) <= tol * sc && std::fabs(b(1) - v(1)) <= tol * sc, "translation-lost", b.transpose());
  c.check(vf::angdiff(b(2), v(2)) < 20 * atol && std::fabs(b(2)) < 3.1415928, "angle-lost", b.transpose());
  c.ev("encoded");
  c.sigadd(v(0));
  c.sigadd(v(2));
  c.nontrivial = true;
}
static void fitting(Case &c)
{
  Rng &r = c.rng;
  double o = r.chance(0.2) ? 0.55 : r.chance(0.3) ? r.uni(1e-6, 0.05) : r.uni(0.001, 0.95);
  double res = r.chance(0.3) ? r.pick(std::vector<double>{0.25, 0.5, 1, 2, 4}) : std::pow(10, r.uni(-1, 1.3));
  c.trace << "fit outliers=" << o << " resolution=" << res << "\n";
  vf::family("fitting");
  pcl::ndt_reg::FittingParams p(o, res);
  double c1 = 10 * (1 - o), c2 = o / (res * res), d3 = -std::log(c2);
  auto mix = [&](double x) { return -std::log(c1 * std::exp(-x * x / 2) + c2); };
  auto fit = [&](double x) { return p.gauss_d1_ * std::exp(-p.gauss_d2_ / 2 * x * x) + d3; };
  double s = 1 + std::fabs(d3) + std::fabs(mix(0));
  c.check(std::isfinite(p.gauss_d1_) && std::isfinite(p.gauss_d2_), "fit-not-finite");
  c.check(std::fabs(fit(0) - mix(0)) < 1e-9 * s, "fit-at-centre", fit(0), mix(0));
  c.check(std::fabs(fit(1) - mix(1)) < 1e-9 * s, "fit-at-one-sigma", fit(1), mix(1));
  c.check(std::fabs(p.gauss_d2__half_ - p.gauss_d2_ / 2) <= 1e-15 * std::fabs(p.gauss_d2_), "half-differs");
  c.check(p.gauss_d1_ < 0 && p.gauss_d2_ > 0, "fit-shape", p.gauss_d1_, p.gauss_d2_);
  // a point of a distribution scores better than one away from it, and all scores improve on the outlier level
  double prev = fit(0);
  for (double x = 0.25; x < 6; x += 0.25) {
    double f = fit(x);
    c.check(f >= prev && f <= d3 + 1e-12 * s, "fit-not-monotone", x);
    prev = f;
  }
  c.ev("fitted");
  c.sigadd(o);
  c.sigadd(res);
}

// More-Thuente steps: reference from coefficients of the interpolating polynomials
typedef long double LD;
static bool cubicMin(LD a, LD fa, LD ga, LD b, LD fb, LD gb, LD &out)
{
  // p(x) = fa + ga u + k2 u^2 + k3 u^3, u = x - a
  LD h = b - a;
  LD k2 = (3 * (fb - fa) / h - 2 * ga - gb) / h;
  LD k3 = (ga + gb - 2 * (fb - fa) / h) / (h * h);
  LD disc = k2 * k2 - 3 * k3 * ga;
  if (disc < 0) return false;
  LD sq = sqrtl(disc);
  // the root with p'' = 2 sqrt(disc) > 0, in the form which does not cancel
  LD u;
  if (k2 >= 0) {
    if (k2 + sq == 0) return false;
    u = -ga / (k2 + sq);
  } else {
    if (k3 == 0) return false;
    u = (-k2 + sq) / (3 * k3);
  }
  out = a + u;
  return true;
}
static void lineSearch(Case &c)
{
  Rng &r = c.rng;
  // a polynomial of degree 2..4 (or a sine) supplies consistent values and slopes
  double k[5], w = r.uni(0.3, 3), amp = r.uni(0.1, 2);
  int deg = r.range(2, 4);
  bool osc = r.chance(0.4);
  for (int i = 0; i < 5; ++i) k[i] = i <= deg ? r.uni(-2, 2) : 0;
  auto f = [&](double x) { double s = 0; for (int i = 4; i >= 0; --i) s = s * x + k[i]; return osc ? s * 0.1 + amp * std::sin(w * x) : s; };
  auto g = [&](double x) { double s = 0; for (int i = 4; i >= 1; --i) s = s * x + i * k[i]; return osc ? s * 0.1 + amp * w * std::cos(w * x) : s; };
  for (int rep = 0; rep < 12; ++rep) {
    double al = r.uni(-3, 3), au = r.uni(-3, 3);
    if (std::fabs(al - au) < 0.05) continue;
    double at = al + (au - al) * r.uni(0.05, 0.95);
    double fl = f(al), gl = g(al), fu = f(au), gu = g(au), ft = f(at), gt = g(at);
    if (!(gl * (au - al) < 0)) continue;  // the algorithm's standing assumption: descent from the best point
    if (!(fu > fl || gu * (au - al) > 0)) continue;  // ... and a minimizer between the two ends
    c.trace << "l(" << al << ',' << fl << ',' << gl << ") u(" << au << ',' << fu << ',' << gu << ") t(" << at << ',' << ft << ',' << gt << ")\n";
    c.sigadd(al);
    c.sigadd(at);
    c.nontrivial = true;
    // ---- interval update
    double l[3] = {al, fl, gl}, u[3] = {au, fu, gu};
    vf::family("line-search-update");
    bool conv = pcl::ndt_reg::updateIntervalMT(l[0], l[1], l[2], u[0], u[1], u[2], at, ft, gt);
    c.ev("interval_updates");
    c.check(conv == (!(ft > fl) && gt * (al - at) == 0), "convergence-flag", conv);
    auto is = [](const double *p, double a, double b, double d) { return p[0] == a && p[1] == b && p[2] == d; };
    if (!conv) {
      c.check(is(l, al, fl, gl) || is(l, at, ft, gt), "best-end-mixed");
      c.check(is(u, au, fu, gu) || is(u, at, ft, gt) || is(u, al, fl, gl), "other-end-mixed");
      c.check(l[1] <= fl && l[1] <= ft, "best-end-worse", l[1]);
      double lo = std::min(al, au), hi = std::max(al, au);
      c.check(l[0] >= lo && l[0] <= hi && u[0] >= lo && u[0] <= hi && std::fabs(u[0] - l[0]) < hi - lo, "interval-not-shrunk", l[0], u[0]);
      c.check(l[0] == at || u[0] == at, "trial-not-an-end");
      c.check(l[2] * (u[0] - l[0]) < 0, "best-end-not-descending", l[2], u[0] - l[0]);
      // a minimizer is still bracketed: f or slope at the far end turns up
      c.check(u[1] >= l[1] || u[2] * (u[0] - l[0]) > 0, "minimizer-lost");
    } else
      c.ev("interval_converged");
    // ---- next trial
    if (gt == 0) continue;
    vf::family("line-search-trial");
    double nx = pcl::ndt_reg::trialValueSelectionMT(al, fl, gl, au, fu, gu, at, ft, gt);
    LD cub, quad, sec = al - (al - at) / ((LD)gl - gt) * gl, want;
    bool hc = cubicMin(al, fl, gl, at, ft, gt, cub);
    quad = al - 0.5L * ((LD)al - at) * gl / (gl - ((LD)fl - ft) / ((LD)al - at));
    bool tie = false;
    double inlo = std::min(al, au), inhi = std::max(al, au);
    if (ft > fl) {
      c.ev("trial_case1");
      if (!hc) continue;
      tie = fabsl(fabsl(cub - al) - fabsl(quad - al)) < 1e-7;
      want = fabsl(cub - al) < fabsl(quad - al) ? cub : (quad + cub) / 2;
      c.check(nx >= std::min(al, at) - 1e-6 && nx <= std::max(al, at) + 1e-6, "trial1-outside", nx);
    } else if (gt * gl < 0) {
      c.ev("trial_case2");
      if (!hc) continue;
      tie = fabsl(fabsl(cub - at) - fabsl(sec - at)) < 1e-7;
      want = fabsl(cub - at) >= fabsl(sec - at) ? cub : sec;
      c.check(nx >= std::min(al, at) - 1e-6 && nx <= std::max(al, at) + 1e-6, "trial2-outside", nx);
    } else if (std::fabs(gt) <= std::fabs(gl)) {
      c.ev("trial_case3");
      if (std::fabs(gt - gl) < 1e-6) continue;
      LD lim = at + 0.66L * ((LD)au - at);
      // only where the published rule is unambiguous: the cubic has a minimizer and it lies beyond the trial
      bool beyond = hc && (cub - at) * (at - al) > 0;
      LD pick = beyond ? (fabsl(cub - at) < fabsl(sec - at) ? cub : sec) : sec;
      want = at > al ? std::min(lim, pick) : std::max(lim, pick);
      bool progress = (nx - at) * (au - at) > -1e-9;
      (void)progress;
      c.check(at > al ? nx <= (double)lim + 1e-9 : nx >= (double)lim - 1e-9, "trial3-not-safeguarded", nx, (double)lim);
      if (!beyond) { c.ev("trial_case3_nocubic"); if (hc) continue; }
      tie = hc && fabsl(fabsl(cub - at) - fabsl(sec - at)) < 1e-7;
    } else {
      c.ev("trial_case4");
      if (!cubicMin(au, fu, gu, at, ft, gt, want)) continue;
    }
    if (tie) continue;
    LD sc = 1 + fabsl(want);
    if (fabsl(want) > 1e3) continue;
    c.ev("trials_compared");
    c.check(std::isfinite(nx) && fabsl(nx - want) < 1e-5L * sc, "trial-differs", "got", nx, "want", (double)want, "interval", inlo, inhi);
  }
  // helpers
  double a = r.uni(-3, 3), fa = r.uni(-3, 3), f0 = r.uni(-3, 3), g0 = r.uni(-3, 3), mu = r.uni(1e-5, 0.5);
  c.check(std::fabs(pcl::ndt_reg::auxilaryFunction_PsiMT(a, fa, f0, g0, mu) - (fa - f0 - mu * g0 * a)) < 1e-12, "psi");
  c.check(std::fabs(pcl::ndt_reg::auxilaryFunction_PsiMT(a, fa, f0, g0) - (fa - f0 - 1e-4 * g0 * a)) < 1e-12, "psi-default");
  c.check(std::fabs(pcl::ndt_reg::auxilaryFunction_dPsiMT(fa, g0, mu) - (fa - mu * g0)) < 1e-12, "dpsi");
  c.check(std::fabs(pcl::ndt_reg::auxilaryFunction_dPsiMT(fa, g0) - (fa - 1e-4 * g0)) < 1e-12, "dpsi-default");
}

void run_case(Case &c)
{
#if PROP == 17
  if (c.rng.chance(0.6)) { c.ev("double"); covInverse<double>(c); } else { c.ev("float"); covInverse<float>(c); }
#elif PROP == 18
  covWrapper(c);
#elif PROP == 19
  splitting(c);
#elif PROP == 20
  encodings<float>(c);
  encodings<double>(c);
  accumulators<3, double>(c);
  accumulators<3, float>(c);
  fitting(c);
  pcl::ndt_reg::JacobianHessianDerivatives j, z = pcl::ndt_reg::JacobianHessianDerivatives::Zero();
  c.check(j.Jest.isZero(0) && j.Hest.isZero(0) && j.Zest.isZero(0) && j.ZHest.isZero(0), "derivatives-not-zeroed");
  c.check(z.Jest.isZero(0) && z.Hest.isZero(0) && z.Zest.isZero(0) && z.ZHest.isZero(0), "derivatives-zero");
#elif PROP == 21
  lineSearch(c);
#endif
}
