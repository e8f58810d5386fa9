// C01: pose <-> transform encodings are lossless and rigid.
#include "common.h"
#include <ndt_gslam/utils/eigen_tools.h>

template <typename T> struct Tol { static double eps(); };
template <> double Tol<double>::eps() { return 1e-12; }
template <> double Tol<float>::eps() { return 3e-6; }

template <typename T> static void one(Case &c, const char *ty)
{
  typedef eigt::pose2d_t<T> Pose;
  typedef eigt::transform2d_t<T> Tr;
  Rng &r = c.rng;
  double mag = r.pick<double>({-3, 0, 1, 2, 4});
  T x = (T)r.logmag(-6, mag), y = (T)r.logmag(-6, mag), th = (T)r.angle();
  Pose p(x, y, th);
  c.trace << ty << " pose " << x << ' ' << y << ' ' << th << "\n";
  double X = x, Y = y, A = th;
  double scale = 1 + std::fabs(X) + std::fabs(Y);
  double et = Tol<T>::eps() * scale;                    // translations
  double ea = Tol<T>::eps() * (1 + std::fabs(A)) * 4;   // angles
  double co = std::cos(A), si = std::sin(A);
  c.sigadd(X); c.sigadd(Y); c.sigadd(A);
  if (std::fabs(std::sin(A)) > 1e-3 && std::hypot(X, Y) > 1e-3) c.nontrivial = true;

  vf::family("getTransFromPose");
  Tr t = eigt::getTransFromPose<T>(p);
  auto rigid = [&](const Eigen::Matrix<T, 3, 3> &m, const char *key) {
    c.check(std::fabs(m(0, 0) - co) < ea && std::fabs(m(1, 1) - co) < ea && std::fabs(m(1, 0) - si) < ea &&
                std::fabs(m(0, 1) + si) < ea, key, "rotation block differs from the pose angle", A, "\n", m);
    c.check(std::fabs(m(0, 2) - X) < et && std::fabs(m(1, 2) - Y) < et, key, "translation differs", m);
    c.check(m(2, 0) == 0 && m(2, 1) == 0 && m(2, 2) == 1, key, "bottom row", m);
  };
  rigid(t.matrix(), "pose-to-transform");
  // acts on points as rotate-then-shift
  T px = (T)r.uni(-10, 10), py = (T)r.uni(-10, 10);
  Eigen::Matrix<T, 2, 1> q = t * Eigen::Matrix<T, 2, 1>(px, py);
  double pt = Tol<T>::eps() * (scale + 20) * (1 + std::fabs(A));
  c.check(std::fabs(q(0) - (co * px - si * py + X)) < 4 * pt && std::fabs(q(1) - (si * px + co * py + Y)) < 4 * pt,
          "pose-to-transform", "point image");

  vf::family("getPoseFromTransform");
  Pose back = eigt::getPoseFromTransform<T>(t);
  c.check(std::fabs(back(0) - X) < et && std::fabs(back(1) - Y) < et, "transform-to-pose", "position", back.transpose());
  c.check(vf::angdiff(back(2), A) < ea, "transform-to-pose", "angle", back(2), A);
  c.check(std::fabs(back(2)) <= M_PI + 1e-6, "transform-to-pose", "angle out of range", back(2));

  vf::family("getAngle");
  T ang = eigt::getAngle<T>(t);
  c.check(vf::angdiff(ang, A) < ea && std::fabs(ang) <= M_PI + 1e-6, "transform-angle", ang, A);
  vf::family("getDisplacement");
  T disp = eigt::getDisplacement<T>(t);
  c.check(std::fabs(disp - std::hypot(X, Y)) < 4 * et, "transform-displacement", disp, std::hypot(X, Y));

  vf::family("normalizeAngle");
  T na = eigt::normalizeAngle<T>(th);
  c.check(vf::angdiff(na, A) < ea, "normalize-angle", "not the same direction", na, A);
  c.check(std::fabs(na) <= M_PI + 1e-6, "normalize-angle", "out of range", na, A);
  T na2 = eigt::normalizeAngle<T>(na);
  c.check(vf::angdiff(na2, na) < ea, "normalize-angle", "not idempotent", na2, na);

  vf::family("convertFromTransform");
  Eigen::Matrix<T, 4, 4> m4 = eigt::convertFromTransform<T>(t);
  auto check4 = [&](const Eigen::Matrix<T, 4, 4> &m, const char *key) {
    Eigen::Matrix<double, 4, 4> e;
    e << co, -si, 0, X, si, co, 0, Y, 0, 0, 1, 0, 0, 0, 0, 1;
    for (int i = 0; i < 4; ++i)
      for (int j = 0; j < 4; ++j) {
        double tol = (j == 3 && i < 2) ? et : 2 * ea;
        c.check(std::fabs(m(i, j) - e(i, j)) < tol, key, "entry", i, j, m(i, j), "want", e(i, j));
      }
  };
  check4(m4, "embed-3d");
  vf::family("convertToTransform");
  Tr t2 = eigt::convertToTransform<T>(m4);
  rigid(t2.matrix(), "project-2d");
  vf::family("vecToMat");
  check4(eigt::vecToMat3d<T>(p), "vec-to-mat3d");
  rigid(eigt::vecToMat2d<T>(p), "vec-to-mat2d");
  check4((eigt::vecToMat3d<double, T>(Eigen::Vector3d(X, Y, A))), "vec-to-mat3d");
  rigid((eigt::vecToMat2d<double, T>(Eigen::Vector3d(X, Y, A))), "vec-to-mat2d");
#ifdef USE_MATTOVEC
  vf::family("matToVec2d");
  auto checkv = [&](double a, double b, double th2, const char *key, double k) {
    c.check(std::fabs(a - X) < et * k && std::fabs(b - Y) < et * k && vf::angdiff(th2, A) < 2 * ea * k &&
                std::fabs(th2) <= M_PI + 1e-6, key, a, b, th2, "want", X, Y, A);
  };
  Eigen::Matrix<T, 3, 3> m3 = t.matrix();
  auto v1 = eigt::matToVec2d<T>(m3);
  checkv(v1(0), v1(1), v1(2), "mat3-to-vec", 1);
  auto v2 = eigt::matToVec2d<T>(m4);
  checkv(v2(0), v2(1), v2(2), "mat4-to-vec", 1);
#endif
  c.ev(ty);
}

void run_case(Case &c)
{
  for (int k = 0; k < 8; ++k) {
    if (c.rng.chance(0.6)) one<double>(c, "double"); else one<float>(c, "float");
  }
}
