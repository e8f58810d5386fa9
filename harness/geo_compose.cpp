// C02: relative transforms and composition obey the group laws of planar rigid motion.
#include "common.h"
#include <ndt_gslam/utils/eigen_tools.h>

struct M { double x, y, a; };
static M comp(const M &p, const M &q)
{
  double co = std::cos(p.a), si = std::sin(p.a);
  return {p.x + co * q.x - si * q.y, p.y + si * q.x + co * q.y, p.a + q.a};
}
static M inv(const M &p)
{
  double co = std::cos(p.a), si = std::sin(p.a);
  return {-co * p.x - si * p.y, si * p.x - co * p.y, -p.a};
}

template <typename T> static void one(Case &c, const char *ty, double eps)
{
  typedef eigt::pose2d_t<T> Pose;
  typedef eigt::transform2d_t<T> Tr;
  Rng &r = c.rng;
  double mag = r.pick<double>({0, 1, 2, 3});
  auto mk = [&]() { return Pose((T)r.logmag(-4, mag), (T)r.logmag(-4, mag), (T)r.angle()); };
  auto m = [](const Pose &p) { return M{(double)p(0), (double)p(1), (double)p(2)}; };
  Pose a = mk(), b = mk(), d = mk();
  if (r.chance(0.1)) b = a;
  c.trace << ty << " a " << a.transpose() << " b " << b.transpose() << " d " << d.transpose() << "\n";
  double scale = 1 + a.template cast<double>().cwiseAbs().sum() + b.template cast<double>().cwiseAbs().sum() +
                 d.template cast<double>().cwiseAbs().sum();
  double angs = 1 + std::fabs(a(2)) + std::fabs(b(2)) + std::fabs(d(2));
  double et = eps * scale * angs * 8, ea = eps * angs * 8;
  c.sigadd((double)a(0)); c.sigadd((double)b(1)); c.sigadd((double)d(2));
  c.nontrivial = true;
  auto eq = [&](const Pose &got, const M &w, const char *key, const char *what) {
    c.check(std::fabs(got(0) - w.x) < et && std::fabs(got(1) - w.y) < et, key, what, "position", got.transpose(), "want",
            w.x, w.y);
    c.check(vf::angdiff(got(2), w.a) < ea, key, what, "angle", got(2), "want", w.a);
    c.check(std::fabs(got(2)) <= M_PI + 1e-6, key, what, "angle range", got(2));
  };
  auto eqt = [&](const Tr &got, const M &w, const char *key, const char *what) {
    double co = std::cos(w.a), si = std::sin(w.a);
    auto &g = got.matrix();
    c.check(std::fabs(g(0, 0) - co) < ea && std::fabs(g(1, 1) - co) < ea && std::fabs(g(1, 0) - si) < ea &&
                std::fabs(g(0, 1) + si) < ea && std::fabs(g(0, 2) - w.x) < et && std::fabs(g(1, 2) - w.y) < et,
            key, what, "\n", g, "\nwant", w.x, w.y, w.a);
    c.check(g(2, 0) == 0 && g(2, 1) == 0 && g(2, 2) == 1, key, what, "bottom row", g);
  };

  // pose composition
  vf::family("transformConcat");
  Tr tb = eigt::getTransFromPose<T>(b), td = eigt::getTransFromPose<T>(d);
  Pose ab = eigt::transformConcat<T>(a, tb);
  eq(ab, comp(m(a), m(b)), "concat", "a*b");
  // associativity through the library alone
  Pose ab_d = eigt::transformConcat<T>(ab, td);
  Pose bd = eigt::transformConcat<T>(b, td);
  Pose a_bd = eigt::transformConcat<T>(a, eigt::getTransFromPose<T>(bd));
  eq(ab_d, m(a_bd), "concat-associative", "(a*b)*d vs a*(b*d)");
  // identity and inverse
  Pose zero(0, 0, 0);
  eq(eigt::transformConcat<T>(a, eigt::getTransFromPose<T>(zero)), m(a), "concat-identity", "a*1");
  eq(eigt::transformConcat<T>(a, Tr(eigt::getTransFromPose<T>(a).inverse())), M{0, 0, 0}, "concat-inverse", "a*a^-1");

  // frames
  vf::family("transBtwFrames");
  Tr f = eigt::transBtwFrames<T>(a, b);
  eqt(f, comp(inv(m(b)), m(a)), "frames", "from a into b");
  // a point known in frame a, expressed in frame b, is the same world point
  Eigen::Matrix<T, 2, 1> q((T)r.uni(-5, 5), (T)r.uni(-5, 5));
  Eigen::Matrix<T, 2, 1> w1 = eigt::getTransFromPose<T>(a) * q;
  Eigen::Matrix<T, 2, 1> w2 = tb * (f * q);
  c.check((w1 - w2).cwiseAbs().sum() < et * 8, "frames", "world point differs", w1.transpose(), w2.transpose());
  Tr fr = eigt::transBtwFrames<T>(b, a);
  eqt(Tr(f * fr), M{0, 0, 0}, "frames-inverse", "a->b->a");
  Tr fbd = eigt::transBtwFrames<T>(b, d), fad = eigt::transBtwFrames<T>(a, d);
  eqt(Tr(fbd * f), m(eigt::getPoseFromTransform<T>(fad)), "frames-chain", "a->b->d");

  // world-frame increments
  vf::family("transBtwPoses");
  Tr inc = eigt::transBtwPoses<T>(a, b);
  Pose pinc = eigt::getPoseFromTransform<T>(inc);
  eq(pinc, M{(double)b(0) - a(0), (double)b(1) - a(1), (double)b(2) - a(2)}, "increment", "b-a");
  vf::family("transformPose");
  eq(eigt::transformPose<T>(a, inc), m(b), "increment-apply", "a+(b-a)");
  eq(eigt::transformPose<T>(a, td), M{(double)a(0) + d(0), (double)a(1) + d(1), (double)a(2) + d(2)}, "increment-apply", "a+d");
  vf::family("getAngleDiffrence");
  T ad = eigt::getAngleDiffrence<T>(a, b);
  c.check(vf::angdiff(ad, (double)b(2) - a(2)) < ea || vf::angdiff(-ad, (double)b(2) - a(2)) < ea, "angle-difference", ad);
  c.check(std::fabs(ad) <= M_PI + 1e-6, "angle-difference", "not the shorter angle", ad);
  c.check(vf::angdiff(ad, (double)b(2) - a(2)) < ea, "angle-difference", "sign", ad, b(2) - a(2));
  c.ev(ty);
}

void run_case(Case &c)
{
  for (int k = 0; k < 6; ++k) {
    if (c.rng.chance(0.6)) one<double>(c, "double", 1e-13); else one<float>(c, "float", 5e-7);
  }
}
