// C03: residual and Jacobians of a planar constraint; pose increments.
#include "common.h"
#include <ndt_gslam/slam_optimizer/pose_graph.h>
#include <ndt_gslam/slam_optimizer/slam2d_policy.h>
typedef Slam2d_Policy P;
typedef slamuk::Graph<P, int> G;
typedef slamuk::Node<P, int> N;
typedef slamuk::Edge<P, int> E;

static P::Pose rp(Case &c, double mag)
{
  return P::Pose(c.rng.logmag(-3, mag), c.rng.logmag(-3, mag), c.rng.angle());
}
static Eigen::Vector3d res(const P::Pose &x, const P::Pose &y, const P::Pose &z)
{
  // textbook residual, angles not wrapped
  double ci = std::cos(x(2)), si = std::sin(x(2)), cz = std::cos(z(2)), sz = std::sin(z(2));
  double dx = y(0) - x(0), dy = y(1) - x(1);
  double lx = ci * dx + si * dy - z(0), ly = -si * dx + ci * dy - z(1);
  return Eigen::Vector3d(cz * lx + sz * ly, -sz * lx + cz * ly, y(2) - x(2) - z(2));
}

void run_case(Case &c)
{
  Rng &r = c.rng;
  double mag = r.pick<double>({0, 1, 2});
  P::Pose x = rp(c, mag), y = rp(c, mag), z = rp(c, mag);
  bool consistent = r.chance(0.3);
  if (consistent) {
    double ci = std::cos(x(2)), si = std::sin(x(2));
    y = P::Pose(x(0) + ci * z(0) - si * z(1), x(1) + si * z(0) + ci * z(1), x(2) + z(2) + 2 * M_PI * r.range(-2, 2));
  }
  c.trace << "x " << x.transpose() << " y " << y.transpose() << " z " << z.transpose() << (consistent ? " consistent" : "") << "\n";
  c.sigadd(x(0)); c.sigadd(y(1)); c.sigadd(z(2));
  c.nontrivial = true;
  double s = 1 + x.cwiseAbs().sum() + y.cwiseAbs().sum() + z.cwiseAbs().sum();
  double tol = 1e-12 * s * s;
  vf::family("calcError");
  Eigen::Vector3d e = P::calcError(x, y, z), w = res(x, y, z);
  c.check((e - w).head<2>().cwiseAbs().maxCoeff() < tol, "residual", "translation", e.transpose(), "want", w.transpose());
  c.check(vf::angdiff(e(2), w(2)) < tol, "residual", "angle", e.transpose(), "want", w.transpose());
  c.check(std::fabs(e(2)) <= M_PI + 1e-9, "residual", "angle range", e(2));
  if (consistent) {
    c.ev("consistent");
    c.check(e.head<2>().cwiseAbs().maxCoeff() < tol && vf::angdiff(e(2), 0) < tol, "residual-zero", e.transpose());
  }
  // same motion applied to both ends leaves the residual alone
  P::Pose g = rp(c, mag);
  auto move = [&](const P::Pose &p) {
    double co = std::cos(g(2)), si = std::sin(g(2));
    return P::Pose(g(0) + co * p(0) - si * p(1), g(1) + si * p(0) + co * p(1), p(2) + g(2));
  };
  Eigen::Vector3d e2 = P::calcError(move(x), move(y), z);
  double s2 = s + g.cwiseAbs().sum();
  c.check((e2 - e).head<2>().cwiseAbs().maxCoeff() < 1e-12 * s2 * s2 && vf::angdiff(e2(2), e(2)) < 1e-12 * s2 * s2,
          "residual-frame", "residual depends on the world frame", e.transpose(), e2.transpose());

  vf::family("calcJacobianBlocks");
  P::JacobianPair j = P::calcJacobianBlocks(x, y, z);
  // independent derivative of the residual (central differences on the reference)
  for (int side = 0; side < 2; ++side)
    for (int k = 0; k < 3; ++k) {
      double h = 1e-5;
      P::Pose xp = x, xm = x, yp = y, ym = y;
      if (side == 0) { xp(k) += h; xm(k) -= h; } else { yp(k) += h; ym(k) -= h; }
      Eigen::Vector3d num = (P::calcError(xp, yp, z) - P::calcError(xm, ym, z));
      num(2) = std::remainder(num(2), 2 * M_PI);
      num /= 2 * h;
      Eigen::Vector3d ana = side == 0 ? j.first.col(k) : j.second.col(k);
      double jt = 1e-6 * s;
      c.check((num - ana).cwiseAbs().maxCoeff() < jt, "jacobian", side ? "second" : "first", "pose, column", k,
              "analytic", ana.transpose(), "numeric", num.transpose());
    }

  // the same through a graph edge, and node pose updates
  vf::family("edge");
  G gr;
  gr.addNode(N(x, 1));
  gr.addNode(N(y, 2));
  P::InformMatrix inf;
  for (int i = 0; i < 9; ++i) inf(i) = r.uni(-1, 1);
  inf = (inf * inf.transpose()).eval() + P::InformMatrix::Identity();
  size_t id = gr.addEdge(E(&gr.getNode(0), &gr.getNode(1), z, inf));
  const E &ed = gr.getEdge(id);
  Eigen::Vector3d ee = ed.getError();
  c.check((ee - e).head<2>().cwiseAbs().maxCoeff() < tol && vf::angdiff(ee(2), e(2)) < tol, "edge-residual", ee.transpose(), e.transpose());
  P::JacobianPair ej = ed.getJacobianBlocks();
  c.check((ej.first - j.first).cwiseAbs().maxCoeff() < tol && (ej.second - j.second).cwiseAbs().maxCoeff() < tol, "edge-jacobian");
  c.check((ed.getTransform() - z).cwiseAbs().maxCoeff() == 0, "edge-data", "transform");
  c.check((ed.getInformationMatrix() - inf).cwiseAbs().maxCoeff() == 0, "edge-data", "information");
  auto tm = ed.getTransMatrix();
  c.check(std::fabs(tm.matrix()(0, 2) - z(0)) < tol && std::fabs(tm.matrix()(1, 2) - z(1)) < tol &&
              std::fabs(tm.matrix()(0, 0) - std::cos(z(2))) < 1e-12 * s && std::fabs(tm.matrix()(1, 0) - std::sin(z(2))) < 1e-12 * s,
          "edge-data", "transform matrix");
  vf::family("addPoses");
  P::Pose sum = P::addPoses(x, y);
  c.check(std::fabs(sum(0) - x(0) - y(0)) < tol && std::fabs(sum(1) - x(1) - y(1)) < tol && vf::angdiff(sum(2), x(2) + y(2)) < tol &&
              std::fabs(sum(2)) <= M_PI + 1e-9, "add-poses", sum.transpose());
  if (r.chance(0.5)) gr.getNode(0).addToPose(y); else gr.getNode(0).addToPose(P::Pose(y));
  P::Pose np = gr.getNode(0).getPose();
  c.check((np - sum).cwiseAbs().maxCoeff() < tol || ((np - sum).head<2>().cwiseAbs().maxCoeff() < tol && vf::angdiff(np(2), sum(2)) < tol),
          "add-poses", "node update", np.transpose(), sum.transpose());
  c.check((gr.getNode(1).getPose() - y).cwiseAbs().maxCoeff() == 0, "add-poses", "other node moved");
  Eigen::Vector3d e3 = ed.getError(), w3 = res(np, y, z);
  double t3 = 1e-12 * (s + s) * (s + s);
  c.check((e3 - w3).head<2>().cwiseAbs().maxCoeff() < t3 && vf::angdiff(e3(2), w3(2)) < t3, "edge-residual", "stale after pose update");
  // a Gauss-Newton solve of one constraint reaches zero residual
  vf::family("gauss-newton");
  P::Pose yy = y;
  double last = 0;
  for (int it = 0; it < 6; ++it) {
    auto jj = P::calcJacobianBlocks(x, yy, z);
    Eigen::Vector3d er = P::calcError(x, yy, z);
    last = er.cwiseAbs().maxCoeff();
    yy = P::addPoses(yy, jj.second.fullPivLu().solve(-er));
  }
  c.check(last < 1e-9 * s * s, "gauss-newton", "residual not driven to zero", last);
  c.ev("constraints");
}
