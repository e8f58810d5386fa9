// C22 switchable edge/switch variable/prior, C23 max-mixture edges, C24 persistence, C25 optimization.
#include "common.h"
#include <g2o/core/block_solver.h>
#include <g2o/core/factory.h>
#include <g2o/core/jacobian_workspace.h>
#include <g2o/core/optimization_algorithm_gauss_newton.h>
#include <g2o/core/optimization_algorithm_levenberg.h>
#include <g2o/core/sparse_optimizer.h>
#include <g2o/solvers/dense/linear_solver_dense.h>
#include <g2o/solvers/eigen/linear_solver_eigen.h>
#include <g2o/types/slam2d/types_slam2d.h>
#include <ndt_gslam/slam_optimizer/max_mixture/edge_se2_mixture.h>
#include <ndt_gslam/slam_optimizer/max_mixture/edge_se2_pointxy_mixture.h>
#include <ndt_gslam/slam_optimizer/switchable_constraints/edge_se2Switchable.h>
#include <ndt_gslam/slam_optimizer/switchable_constraints/edge_switchPrior.h>
#include <ndt_gslam/slam_optimizer/switchable_constraints/vertex_switchLinear.h>
#include <iostream>
using g2o::EdgeSE2;
using g2o::EdgeSE2PointXY;
using g2o::SE2;
using g2o::VertexPointXY;
using g2o::VertexSE2;
typedef Eigen::Vector3d V3;
typedef Eigen::Matrix3d M3;
typedef g2o::OptimizableGraph::Edge OEdge;

struct Quiet {
  Quiet() { std::cerr.rdbuf(nullptr); }
} quiet;

struct SwitchProbe : EdgeSE2Switchable {
  Eigen::MatrixXd J(int i) { return _jacobianOplus[i]; }
};
struct PriorProbe : EdgeSwitchPrior {
  double J() { return _jacobianOplusXi(0, 0); }
};
struct MixProbe : EdgeSE2Mixture {
  Eigen::MatrixXd J(int i) { return i ? Eigen::MatrixXd(_jacobianOplusXj) : Eigen::MatrixXd(_jacobianOplusXi); }
};
struct MixXYProbe : EdgeSE2PointXYMixture {
  Eigen::MatrixXd J(int i) { return i ? Eigen::MatrixXd(_jacobianOplusXj) : Eigen::MatrixXd(_jacobianOplusXi); }
};
struct SE2Probe : EdgeSE2 {
  Eigen::MatrixXd J(int i) { return i ? Eigen::MatrixXd(_jacobianOplusXj) : Eigen::MatrixXd(_jacobianOplusXi); }
};
struct XYProbe : EdgeSE2PointXY {
  Eigen::MatrixXd J(int i) { return i ? Eigen::MatrixXd(_jacobianOplusXj) : Eigen::MatrixXd(_jacobianOplusXi); }
};
static void linearize(OEdge *e, g2o::JacobianWorkspace &ws)
{
  ws.updateSize(e, true);
  ws.allocate();
  e->linearizeOplus(ws);
}
static SE2 rpose(Rng &r) { return SE2(r.logmag(-2, 2), r.logmag(-2, 2), r.angle()); }
static M3 rinfo(Rng &r)
{
  M3 a;
  for (int i = 0; i < 9; ++i) a.data()[i] = r.gauss();
  M3 m = a * a.transpose() + M3::Identity() * 0.05;
  m *= std::pow(10, r.uni(-2, 4));
  return M3((m + m.transpose()) / 2);
}
static Eigen::Matrix2d rinfo2(Rng &r) { M3 m = rinfo(r); return m.block<2, 2>(0, 0); }
static double nrm(double a) { return std::remainder(a, 2 * M_PI); }
// closed form of the SE(2) residual z^-1 (a^-1 b)
static V3 residual(const SE2 &a, const SE2 &b, const SE2 &z)
{
  double ta = a.rotation().angle(), tz = z.rotation().angle();
  Eigen::Vector2d d = b.translation() - a.translation();
  Eigen::Vector2d l(std::cos(ta) * d(0) + std::sin(ta) * d(1), -std::sin(ta) * d(0) + std::cos(ta) * d(1));
  l -= z.translation();
  return V3(std::cos(tz) * l(0) + std::sin(tz) * l(1), -std::sin(tz) * l(0) + std::cos(tz) * l(1),
            nrm(b.rotation().angle() - ta - tz));
}
static double resdiff(const V3 &a, const V3 &b)
{
  return std::max({std::fabs(a(0) - b(0)), std::fabs(a(1) - b(1)), vf::angdiff(a(2), b(2))});
}

#if PROP == 22
static void switchVertex(Case &c)
{
  Rng &r = c.rng;
  VertexSwitchLinear v;
  c.check(v.estimate() == 0 && v.x() == 0, "initial-switch", v.estimate());
  double cur = 0;
  std::vector<double> stack;
  int n = r.range(5, 40);
  for (int k = 0; k < n; ++k) {
    int op = r.below(10);
    vf::family("switch-vertex");
    if (op < 5) {
      double u = r.chance(0.3) ? r.uni(-5, 5) : r.uni(-0.4, 0.4);
      c.trace << "plus " << u << "\n";
      v.oplus(&u);
      double raw = cur + u;
      if (raw < 0 || raw > 1) c.ev("clamped");
      cur = std::min(1.0, std::max(0.0, raw));
    } else if (op < 6) {
      double s = r.unit();
      c.trace << "set " << s << "\n";
      if (r.chance(0.3)) v.g2o::BaseVertex<1, double>::setEstimate(s);
      else v.setEstimate(s);
      cur = s;
    } else if (op < 8) {
      c.trace << "push\n";
      v.push();
      stack.push_back(cur);
    } else if (op < 9 && !stack.empty()) {
      c.trace << "pop\n";
      v.pop();
      cur = stack.back();
      stack.pop_back();
      c.ev("restored");
    } else if (r.chance(0.2)) {
      c.trace << "origin\n";
      v.setToOrigin();
      cur = 0;
    } else if (!stack.empty()) {
      v.discardTop();
      stack.pop_back();
      c.trace << "discard\n";
    }
    c.check(std::fabs(v.estimate() - cur) < 1e-12, "switch-value", v.estimate(), cur);
    c.check(v.estimate() >= 0 && v.estimate() <= 1, "switch-range", v.estimate());
    c.check(v.x() == v.estimate(), "switch-two-values", v.x(), v.estimate());
    PriorProbe p;
    double m = r.unit();
    p.setMeasurement(m);
    p.vertices()[0] = &v;
    p.computeError();
    c.check(std::fabs(p.error()(0) - (m - cur)) < 1e-12, "prior-error", p.error()(0), m - cur);
    g2o::JacobianWorkspace ws;
    linearize(&p, ws);
    c.check(p.J() == -1, "prior-jacobian", p.J());
    c.ev("switch_steps");
  }
}
static void switchEdge(Case &c)
{
  Rng &r = c.rng;
  VertexSE2 a, b;
  VertexSwitchLinear s;
  SwitchProbe e;
  SE2Probe plain;
  e.vertices()[0] = &a;
  e.vertices()[1] = &b;
  e.vertices()[2] = &s;
  plain.vertices()[0] = &a;
  plain.vertices()[1] = &b;
  for (int k = 0; k < 6; ++k) {
    SE2 pa = rpose(r), pb = rpose(r), z = r.chance(0.3) ? pa.inverse() * pb : rpose(r);
    M3 inf = rinfo(r);
    double sv = r.chance(0.2) ? 1 : r.chance(0.2) ? 0 : r.unit();
    c.trace << "a " << pa.toVector().transpose() << " b " << pb.toVector().transpose() << " z " << z.toVector().transpose() << " s " << sv << "\n";
    c.sigadd(pa[0]);
    c.sigadd(z[2]);
    a.setEstimate(pa);
    b.setEstimate(pb);
    s.setEstimate(sv);
    OEdge *oe = &e;
    if (k % 2) e.setMeasurement(z);
    else static_cast<g2o::BaseEdge<3, SE2> *>(&e)->setMeasurement(z);
    e.setInformation(inf);
    plain.setMeasurement(z);
    plain.setInformation(inf);
    vf::family("switchable-error");
    oe->computeError();
    plain.computeError();
    V3 ref = residual(pa, pb, z), got = e.error();
    double sc = 1 + pa.translation().norm() + pb.translation().norm() + z.translation().norm();
    bool wrap = std::fabs(std::fabs(ref(2)) - M_PI) < 1e-5;
    c.ev("errors");
    if (!wrap) {
      c.check((got - sv * ref).norm() < 1e-9 * sc, "switchable-error", "got", got.transpose(), "want", (sv * ref).transpose());
      c.check((got - sv * plain.error()).norm() < 1e-9 * sc, "differs-from-plain");
      double chi = sv * sv * ref.dot(inf * ref);
      c.check(std::fabs(e.chi2() - chi) <= 1e-8 * inf.norm() * sc * sc, "chi2", e.chi2(), chi);
    }
    if (sv == 0) { c.ev("switched_off"); c.check(got.norm() == 0, "off-still-pulls", got.transpose()); }
    if (sv == 1) c.ev("switched_on");
    g2o::JacobianWorkspace ws, ws2;
    vf::family("switchable-jacobian");
    linearize(oe, ws);
    linearize(&plain, ws2);
    if (wrap || std::fabs(std::fabs(ref(2)) - M_PI) < 1e-3) continue;
    double h = 1e-6;
    // central differences through the vertices' own increments
    for (int v = 0; v < 2; ++v) {
      VertexSE2 &vx = v ? b : a;
      SE2 keep = vx.estimate();
      for (int i = 0; i < 3; ++i) {
        double u[3] = {0, 0, 0};
        u[i] = h;
        vx.oplus(u);
        oe->computeError();
        V3 ep = e.error();
        vx.setEstimate(keep);
        u[i] = -h;
        vx.oplus(u);
        oe->computeError();
        V3 em = e.error();
        vx.setEstimate(keep);
        V3 num = (ep - em) / (2 * h);
        c.check((num - e.J(v).col(i)).norm() < 1e-5 * sc, "pose-jacobian", "vertex", v, "column", i, "analytic",
                V3(e.J(v).col(i)).transpose(), "numeric", num.transpose());
        c.ev("jacobian_columns");
      }
      c.check((e.J(v) - sv * plain.J(v)).norm() < 1e-9 * sc, "jacobian-differs-from-plain");
    }
    s.setEstimate(0.5);
    V3 e0, e1;
    s.setEstimate(0.25);
    oe->computeError();
    e0 = e.error();
    s.setEstimate(0.75);
    oe->computeError();
    e1 = e.error();
    s.setEstimate(sv);
    V3 num = (e1 - e0) / 0.5;
    c.check((num - e.J(2).col(0)).norm() < 1e-8 * sc, "switch-jacobian", V3(e.J(2).col(0)).transpose(), num.transpose());
    c.check(s.gradient() == 1, "gradient");
    c.nontrivial = true;
  }
}
void run_case(Case &c)
{
  switchVertex(c);
  switchEdge(c);
}
#endif

#if PROP == 23
// Edge type glue
struct TSE2 {
  typedef EdgeSE2 Comp;
  typedef MixProbe Mix;
  typedef VertexSE2 To;
  typedef SE2Probe Plain;
  static void setTo(To &v, Rng &r) { v.setEstimate(rpose(r)); }
  static void meas(Comp &e, Rng &r, VertexSE2 *a, To *b)
  {
    SE2 z = a->estimate().inverse() * b->estimate();
    e.setMeasurement(r.chance(0.5) ? rpose(r) : z * SE2(r.gauss() * 0.3, r.gauss() * 0.3, r.gauss() * 0.2));
    e.setInformation(rinfo(r));
  }
  static V3 err(const VertexSE2 *a, const To *b, const Comp &e) { return residual(a->estimate(), b->estimate(), e.measurement()); }
  static double ediff(const V3 &a, const V3 &b) { return resdiff(a, b); }
  static bool same(const Comp &a, const Comp &b) { return (a.measurement().toVector() - b.measurement().toVector()).norm() < 1e-12 * (1 + a.measurement().toVector().norm()); }
  static bool wraps(const V3 &e) { return std::fabs(std::fabs(e(2)) - M_PI) < 1e-4; }
};
struct TXY {
  typedef EdgeSE2PointXY Comp;
  typedef MixXYProbe Mix;
  typedef VertexPointXY To;
  typedef XYProbe Plain;
  typedef Eigen::Vector2d V2;
  static void setTo(To &v, Rng &r) { v.setEstimate(V2(r.logmag(-2, 2), r.logmag(-2, 2))); }
  static void meas(Comp &e, Rng &r, VertexSE2 *a, To *b)
  {
    V2 z = a->estimate().inverse() * b->estimate();
    e.setMeasurement(r.chance(0.5) ? V2(r.logmag(-2, 2), r.logmag(-2, 2)) : V2(z + 0.3 * V2(r.gauss(), r.gauss())));
    e.setInformation(rinfo2(r));
  }
  static V2 err(const VertexSE2 *a, const To *b, const Comp &e)
  {
    double t = a->estimate().rotation().angle();
    V2 d = b->estimate() - a->estimate().translation();
    return V2(std::cos(t) * d(0) + std::sin(t) * d(1), -std::sin(t) * d(0) + std::cos(t) * d(1)) - e.measurement();
  }
  static double ediff(const V2 &a, const V2 &b) { return (a - b).norm(); }
  static bool same(const Comp &a, const Comp &b) { return a.measurement() == b.measurement(); }
  static bool wraps(const V2 &) { return false; }
};
template <typename T> void mixture(Case &c)
{
  Rng &r = c.rng;
  typedef typename T::Comp Comp;
  std::vector<std::unique_ptr<VertexSE2>> from;
  std::vector<std::unique_ptr<typename T::To>> to;
  for (int i = 0; i < 3; ++i) {
    from.emplace_back(new VertexSE2);
    from.back()->setId(i);
    from.back()->setEstimate(rpose(r));
    to.emplace_back(new typename T::To);
    to.back()->setId(10 + i);
    T::setTo(*to.back(), r);
  }
  std::unique_ptr<typename T::Mix> mix(new typename T::Mix);
  c.check(mix->numberComponents == 0 && mix->getBestComponent() == -1, "empty-mixture", mix->getBestComponent());
  std::vector<std::unique_ptr<Comp>> comps;
  std::vector<Comp *> ptrs;
  std::vector<double> w;
  std::set<int> winners;
  for (int round = 0; round < 2; ++round) {
    comps.clear();
    ptrs.clear();
    w.clear();
    int n = r.range(1, 5);
    bool multi = r.chance(0.4);
    bool nullh = r.chance(0.4) && n >= 2;
    for (int i = 0; i < n; ++i) {
      comps.emplace_back(new Comp);
      VertexSE2 *a = from[multi ? r.below(3) : 0].get();
      typename T::To *b = to[multi ? r.below(3) : 0].get();
      comps[i]->vertices()[0] = a;
      comps[i]->vertices()[1] = b;
      T::meas(*comps[i], r, a, b);
      if (nullh && i == 1) {
        comps[1]->setMeasurement(comps[0]->measurement());
        comps[1]->setInformation(typename Comp::InformationType(comps[0]->information() * std::pow(10, r.uni(-9, -2))));
        c.ev("null_hypotheses");
      }
      ptrs.push_back(comps[i].get());
      w.push_back(r.chance(0.5) ? std::pow(10, r.uni(-6, 0)) : 1.0);
    }
    vf::family("mixture-init");
    mix->initializeComponents(ptrs, w);
    if (round) c.ev("reinitialised");
    OEdge *oe = mix.get();
    for (int k = 0; k < 5; ++k) {
      if (k) {
        for (auto &v : from) if (r.chance(0.6)) v->setEstimate(rpose(r));
        for (auto &v : to) if (r.chance(0.6)) T::setTo(*v, r);
      }
      if (k && r.chance(0.3)) {  // consistent with one component
        int j = r.below(n);
        T::meas(*comps[j], r, (VertexSE2 *)comps[j]->vertex(0), (typename T::To *)comps[j]->vertex(1));
        comps[j]->setInformation(typename Comp::InformationType(comps[j]->information()));
        // the information (and with it the determinant) was fixed when the mixture was built
        mix->initializeComponents(ptrs, w);
      }
      vf::family("mixture-error");
      if (r.chance(0.3)) mix->computeBestEdge();
      else oe->computeError();
      c.check(mix->numberComponents == n, "component-count", mix->numberComponents);
      std::vector<double> cost;
      int best = 0;
      bool wrap = false;
      for (int i = 0; i < n; ++i) {
        auto e = T::err((VertexSE2 *)ptrs[i]->vertex(0), (typename T::To *)ptrs[i]->vertex(1), *ptrs[i]);
        wrap |= T::wraps(e);
        double q = -std::log(w[i]) - 0.5 * std::log(ptrs[i]->information().determinant()) + 0.5 * e.dot(ptrs[i]->information() * e);
        cost.push_back(q);
        if (q < cost[best]) best = i;
        c.trace << "comp " << i << " w " << w[i] << " cost " << q << "\n";
      }
      if (wrap) { c.ev("near_wrap_skipped"); continue; }
      bool tie = false;
      for (int i = 0; i < n; ++i)
        if (i != best && cost[i] - cost[best] < 1e-6 * (1 + std::fabs(cost[best]))) tie = true;
      if (tie) { c.ev("ties_skipped"); continue; }
      c.ev("selections");
      if (best != 0) c.ev("not_first");
      if (best == n - 1 && n > 1) c.ev("last_wins");
      winners.insert(best);
      Comp *p = ptrs[best];
      auto agrees = [&](const char *when) {
        c.check(mix->getBestComponent() == best, "wrong-component", when, "got", mix->getBestComponent(), "want", best);
        c.check(mix->vertex(0) == p->vertex(0) && mix->vertex(1) == p->vertex(1), "vertices-not-adopted", when);
        c.check(T::same(*mix, *p), "measurement-not-adopted", when);
        c.check((mix->information() - p->information()).norm() == 0, "information-not-adopted", when);
        auto e = T::err((VertexSE2 *)p->vertex(0), (typename T::To *)p->vertex(1), *p);
        double sc = 1 + e.norm();
        c.check(T::ediff(mix->error(), e) < 1e-8 * (sc + 300), "error-differs", when, mix->error().transpose());
        double chi = e.dot(p->information() * e);
        c.check(std::fabs(mix->chi2() - chi) <= 1e-7 * (chi + p->information().norm() * (sc + 300)), "chi2-differs", when);
      };
      agrees("after computeError");
      for (int i = 0; i < n; ++i) c.check(mix->getComponent(i) == ptrs[i], "component-lost", i);
      g2o::JacobianWorkspace ws, ws2;
      vf::family("mixture-linearize");
      linearize(oe, ws);
      agrees("after linearization");
      typename T::Plain plain;
      plain.vertices()[0] = p->vertex(0);
      plain.vertices()[1] = p->vertex(1);
      plain.setMeasurement(p->measurement());
      plain.setInformation(p->information());
      plain.computeError();
      linearize(&plain, ws2);
      for (int v = 0; v < 2; ++v)
        c.check((mix->J(v) - plain.J(v)).norm() < 1e-9 * (1 + plain.J(v).norm()), "jacobian-differs", v);
      c.sigadd(cost[best]);
      c.nontrivial = n > 1;
    }
  }
  if (winners.size() > 1) c.ev("winner_changed");
}
void run_case(Case &c)
{
  if (c.rng.chance(0.5)) { c.ev("se2"); mixture<TSE2>(c); }
  else { c.ev("pointxy"); mixture<TXY>(c); }
}
#endif

#if PROP == 24 || PROP == 25
static void registerAll()
{
  static bool done = false;
  if (done) return;
  done = true;
  auto *f = g2o::Factory::instance();
  auto reg = [&](const char *tag, auto *dummy) {
    typedef typename std::remove_pointer<decltype(dummy)>::type T;
    if (!f->knowsTag(tag)) f->registerType(tag, std::make_shared<g2o::HyperGraphElementCreator<T>>());
  };
  reg("EDGE_SE2_MIXTURE", (EdgeSE2Mixture *)nullptr);
  reg("EDGE_SE2_XY_MIXTURE", (EdgeSE2PointXYMixture *)nullptr);
}
#endif

#if PROP == 24
static std::string saveText(g2o::OptimizableGraph &g)
{
  std::ostringstream os;
  os.precision(17);
  g.save(os);
  return os.str();
}
void run_case(Case &c)
{
  registerAll();
  Rng &r = c.rng;
  auto *f = g2o::Factory::instance();
  for (const char *t : {"EDGE_SWITCH_PRIOR", "EDGE_SE2_SWITCHABLE", "VERTEX_SWITCH"})
    c.check(f->knowsTag(t), "type-not-registered", t);
  g2o::SparseOptimizer g;
  int np = r.range(2, 6), nl = r.range(1, 3);
  std::vector<VertexSE2 *> ps;
  std::vector<VertexPointXY *> ls;
  std::vector<VertexSwitchLinear *> ss;
  int id = r.below(5);
  for (int i = 0; i < np; ++i) {
    auto *v = new VertexSE2;
    v->setId(id++);
    v->setEstimate(rpose(r));
    g.addVertex(v);
    ps.push_back(v);
  }
  for (int i = 0; i < nl; ++i) {
    auto *v = new VertexPointXY;
    v->setId(id++);
    v->setEstimate(Eigen::Vector2d(r.logmag(-2, 2), r.logmag(-2, 2)));
    g.addVertex(v);
    ls.push_back(v);
  }
  int ne = r.range(1, 8);
  // components may lead to different vertices; g2o saves vertices which some edge uses
  bool modes = r.chance(0.6);
  if (modes) {
    for (int i = 0; i + 1 < np; ++i) {
      auto *e = new EdgeSE2;
      e->vertices()[0] = ps[i];
      e->vertices()[1] = ps[i + 1];
      e->setMeasurement(rpose(r));
      e->setInformation(rinfo(r));
      g.addEdge(e);
    }
    for (auto *l : ls) {
      auto *e = new EdgeSE2PointXY;
      e->vertices()[0] = r.pick(ps);
      e->vertices()[1] = l;
      e->setMeasurement(Eigen::Vector2d(r.logmag(-2, 2), r.logmag(-2, 2)));
      e->setInformation(rinfo2(r));
      g.addEdge(e);
    }
  }
  std::vector<std::unique_ptr<EdgeSE2>> own;
  std::vector<std::unique_ptr<EdgeSE2PointXY>> ownxy;
  for (int k = 0; k < ne; ++k) {
    auto *a = r.pick(ps), *b = r.pick(ps);
    while (b == a) b = r.pick(ps);
    int kind = r.below(3);
    if (kind == 0) {
      auto *s = new VertexSwitchLinear;
      s->setEstimate(r.chance(0.3) ? 1.0 : r.unit());
      s->setId(id++);
      g.addVertex(s);
      ss.push_back(s);
      auto *e = new EdgeSE2Switchable;
      e->setMeasurement(rpose(r));
      e->setInformation(rinfo(r));
      e->vertices()[0] = a;
      e->vertices()[1] = b;
      e->vertices()[2] = s;
      g.addEdge(e);
      auto *p = new EdgeSwitchPrior;
      p->setMeasurement(r.unit());
      Eigen::Matrix<double, 1, 1> one;
      one << std::pow(10, r.uni(-2, 2));
      p->setInformation(one);
      p->vertices()[0] = s;
      g.addEdge(p);
      c.ev("switchable_edges");
    } else if (kind == 1) {
      std::vector<EdgeSE2 *> cs;
      std::vector<double> w;
      int n = r.range(1, 4);
      for (int i = 0; i < n; ++i) {
        own.emplace_back(new EdgeSE2);
        own.back()->vertices()[0] = a;
        own.back()->vertices()[1] = b;
        if (modes && r.chance(0.5)) {
          VertexSE2 *x = r.pick(ps), *y = r.pick(ps);
          if (x != y) {
            if (r.chance(0.5)) own.back()->vertices()[0] = x, own.back()->vertices()[1] = y;
            else if (x != a) own.back()->vertices()[1] = x;
            c.ev("multimodal_components");
          }
        }
        own.back()->setMeasurement(rpose(r));
        own.back()->setInformation(rinfo(r));
        cs.push_back(own.back().get());
        w.push_back(std::pow(10, r.uni(-4, 0)));
      }
      auto *e = new EdgeSE2Mixture(cs, w);
      g.addEdge(e);
      c.ev("mixture_edges");
    } else {
      std::vector<EdgeSE2PointXY *> cs;
      std::vector<double> w;
      int n = r.range(1, 4);
      auto *l = r.pick(ls);
      for (int i = 0; i < n; ++i) {
        ownxy.emplace_back(new EdgeSE2PointXY);
        ownxy.back()->vertices()[0] = a;
        ownxy.back()->vertices()[1] = l;
        if (modes && r.chance(0.5)) {
          ownxy.back()->vertices()[1] = r.pick(ls);
          if (r.chance(0.5)) ownxy.back()->vertices()[0] = r.pick(ps);
          c.ev("multimodal_components");
        }
        ownxy.back()->setMeasurement(Eigen::Vector2d(r.logmag(-2, 2), r.logmag(-2, 2)));
        ownxy.back()->setInformation(rinfo2(r));
        cs.push_back(ownxy.back().get());
        w.push_back(std::pow(10, r.uni(-4, 0)));
      }
      auto *e = new EdgeSE2PointXYMixture(cs, w);
      g.addEdge(e);
      c.ev("pointxy_mixture_edges");
    }
  }
  c.nontrivial = true;
  vf::family("save");
  std::string text = saveText(g);
  c.trace << text;
  for (char ch : text) c.sigadd((uint64_t)(unsigned char)ch);
  g2o::SparseOptimizer h;
  std::istringstream in(text);
  vf::family("load");
  h.load(in);
  c.ev("graphs_reloaded");
  size_t linked = 0;  // g2o writes the vertices its edges use
  for (auto &v : g.vertices()) linked += !v.second->edges().empty();
  c.check(h.vertices().size() == linked, "vertices-lost", h.vertices().size(), linked);
  c.check(h.edges().size() == g.edges().size(), "edges-lost", h.edges().size(), g.edges().size());
  auto close = [](double a, double b) { return std::fabs(a - b) <= 1e-12 * (1 + std::fabs(a)); };
  for (auto *s : ss) {
    auto *t = dynamic_cast<VertexSwitchLinear *>(h.vertex(s->id()));
    c.check(t && t->estimate() == s->estimate() && t->x() == s->x(), "switch-value-lost");
  }
  auto sorted = [](g2o::HyperGraph &g) {
    // records are compared as a multiset of (type, vertices, numbers), independent of the order of the file
    std::vector<OEdge *> es;
    for (auto *e : g.edges()) es.push_back(static_cast<OEdge *>(e));
    return es;
  };
  auto describe = [&](OEdge *e) {
    std::ostringstream os;
    os.precision(15);
    e->computeError();
    os << g2o::Factory::instance()->tag(e);
    for (auto *v : e->vertices()) os << ' ' << v->id();
    std::vector<double> nums;
    if (auto *s = dynamic_cast<EdgeSE2Switchable *>(e)) {
      V3 m = s->measurement().toVector();
      nums = {m(0), m(1), m(2)};
      for (int i = 0; i < 9; ++i) nums.push_back(s->information().data()[i]);
    } else if (auto *p = dynamic_cast<EdgeSwitchPrior *>(e)) {
      nums = {p->measurement(), p->information()(0, 0)};
    } else if (auto *m = dynamic_cast<EdgeSE2Mixture *>(e)) {
      os << " n" << m->numberComponents << " b" << m->getBestComponent();
      for (int k = 0; k < m->numberComponents; ++k) {
        auto *q = m->getComponent(k);
        os << " (" << q->vertex(0)->id() << ',' << q->vertex(1)->id() << ')';
        V3 z = q->measurement().toVector();
        nums.insert(nums.end(), {z(0), z(1), z(2)});
        for (int i = 0; i < 9; ++i) nums.push_back(q->information().data()[i]);
      }
    } else if (auto *x = dynamic_cast<EdgeSE2PointXYMixture *>(e)) {
      os << " n" << x->numberComponents << " b" << x->getBestComponent();
      for (int k = 0; k < x->numberComponents; ++k) {
        auto *q = x->getComponent(k);
        os << " (" << q->vertex(0)->id() << ',' << q->vertex(1)->id() << ')';
        nums.insert(nums.end(), {q->measurement()(0), q->measurement()(1)});
        for (int i = 0; i < 4; ++i) nums.push_back(q->information().data()[i]);
      }
    }
    nums.push_back(e->chi2());
    return std::make_pair(os.str(), nums);
  };
  std::vector<std::pair<std::string, std::vector<double>>> A, B;
  for (auto *e : sorted(g)) A.push_back(describe(e));
  for (auto *e : sorted(h)) B.push_back(describe(e));
  // match greedily within equal headers
  std::vector<char> used(B.size(), 0);
  for (auto &a : A) {
    bool found = false;
    for (size_t j = 0; j < B.size() && !found; ++j) {
      if (used[j] || B[j].first != a.first || B[j].second.size() != a.second.size()) continue;
      bool eq = true;
      for (size_t i = 0; i + 1 < a.second.size() && eq; ++i) eq = close(a.second[i], B[j].second[i]);
      double x = a.second.back(), y = B[j].second.back();
      if (eq && std::fabs(x - y) > 1e-6 * (1 + std::fabs(x))) {
        // an angle difference of exactly pi may fall on either side
        c.ev("chi2_mismatch");
        eq = false;
      }
      if (eq) { used[j] = 1; found = true; }
    }
    c.check(found, "edge-not-restored", a.first);
    c.ev("edges_restored");
  }
  // weights are observable through a second save
  std::string again = saveText(h);
  auto multiset = [](const std::string &s) {
    std::multiset<std::string> m;
    std::istringstream is(s);
    std::string l;
    while (std::getline(is, l)) {
      std::istringstream ls(l);
      std::string w, o;
      while (ls >> w) {
        char *end;
        double d = strtod(w.c_str(), &end);
        if (*end) o += w + " ";
        else { char b[40]; snprintf(b, sizeof b, "%.9g ", std::fabs(d) < 1e-13 ? 0.0 : d); o += b; }
      }
      m.insert(o);
    }
    return m;
  };
  c.check(multiset(text) == multiset(again), "second-save-differs", again.substr(0, 800));
  // records cut short are refused
  for (auto *e0 : g.edges()) {
    auto *e = static_cast<OEdge *>(e0);
    if (typeid(*e) == typeid(EdgeSE2) || typeid(*e) == typeid(EdgeSE2PointXY)) continue;  // not part of this repository
    std::ostringstream os;
    os.precision(17);
    c.check(e->write(os), "write-fails");
    std::istringstream is(os.str());
    std::vector<std::string> tok;
    std::string t;
    while (is >> t) tok.push_back(t);
    size_t keep = r.below(tok.size());
    std::string cut;
    for (size_t i = 0; i < keep; ++i) cut += tok[i] + " ";
    std::unique_ptr<OEdge> n(static_cast<OEdge *>(g2o::Factory::instance()->construct(g2o::Factory::instance()->tag(e))));
    for (size_t i = 0; i < e->vertices().size(); ++i) n->setVertex(i, e->vertex(i));
    std::istringstream ci(cut);
    vf::family("truncated");
    c.check(!n->read(ci), "truncated-accepted", g2o::Factory::instance()->tag(e), "kept", keep, "of", tok.size());
    c.ev("truncated_refused");
    // and complete ones accepted, with or without a trailing blank
    std::string full;
    for (size_t i = 0; i < tok.size(); ++i) full += (i ? " " : "") + tok[i];
    if (r.chance(0.5)) full += " ";
    std::istringstream fi(full);
    std::unique_ptr<OEdge> m(static_cast<OEdge *>(g2o::Factory::instance()->construct(g2o::Factory::instance()->tag(e))));
    for (size_t i = 0; i < e->vertices().size(); ++i) m->setVertex(i, e->vertex(i));
    vf::family("complete");
    c.check(m->read(fi), "complete-refused", full);
  }
  {
    VertexSwitchLinear v;
    std::istringstream e1(""), e2("0.25");
    c.check(!v.read(e1), "truncated-accepted", "VERTEX_SWITCH");
    c.check(v.read(e2) && v.estimate() == 0.25, "complete-refused", "VERTEX_SWITCH");
  }
}
#endif

#if PROP == 25
typedef g2o::BlockSolver<g2o::BlockSolverTraits<-1, -1>> Solver;
typedef g2o::LinearSolverEigen<Solver::PoseMatrixType> Linear;
void run_case(Case &c)
{
  registerAll();
  Rng &r = c.rng;
  bool lm = r.chance(0.5);
  int mode = r.below(2);  // 0 switchable, 1 mixture
  bool outliers = r.chance(0.6);
  g2o::SparseOptimizer g;
  g.setVerbose(false);
  auto solver = std::make_unique<Solver>(std::make_unique<Linear>());
  if (lm) g.setAlgorithm(new g2o::OptimizationAlgorithmLevenberg(std::move(solver)));
  else g.setAlgorithm(new g2o::OptimizationAlgorithmGaussNewton(std::move(solver)));
  // a square loop driven twice: true poses, odometry with small noise
  int n = r.range(12, 40);
  std::vector<SE2> truth;
  SE2 cur;
  double side = r.uni(2, 5);
  for (int i = 0; i < n; ++i) {
    truth.push_back(cur);
    cur = cur * SE2(side / 3, r.uni(-0.1, 0.1), (i % 3 == 2) ? M_PI / 2 : 0);
  }
  double noise = 0.005;
  auto noisy = [&](const SE2 &t) { return t * SE2(noise * r.gauss(), noise * r.gauss(), 0.3 * noise * r.gauss()); };
  std::vector<VertexSE2 *> vs;
  SE2 est;
  for (int i = 0; i < n; ++i) {
    auto *v = new VertexSE2;
    v->setId(i);
    if (i == 0) v->setFixed(true);
    SE2 z;
    if (i) {
      z = noisy(truth[i - 1].inverse() * truth[i]);
      est = est * z;
    }
    v->setEstimate(est);
    g.addVertex(v);
    vs.push_back(v);
    if (i) {
      auto *e = new EdgeSE2;
      e->vertices()[0] = vs[i - 1];
      e->vertices()[1] = v;
      e->setMeasurement(z);
      M3 inf = M3::Identity() * 500;
      inf(2, 2) = 5000;
      e->setInformation(inf);
      g.addEdge(e);
    }
  }
  struct Loop {
    bool bad;
    VertexSwitchLinear *s;
    EdgeSE2Mixture *m;
  };
  std::vector<Loop> loops;
  std::vector<std::unique_ptr<EdgeSE2>> own;
  int id = n;
  int nloops = r.range(2, 5);
  for (int k = 0; k < nloops; ++k) {
    int i = r.below(n / 2), j = i + 6 + r.below(n / 2 - 5);
    if (j >= n) continue;
    bool bad = outliers && r.chance(0.5);
    SE2 z = noisy(truth[i].inverse() * truth[j]);
    if (bad) z = z * SE2((r.chance(0.5) ? 1 : -1) * r.uni(8, 15), r.uni(-4, 4), r.uni(-0.3, 0.3));
    M3 inf = M3::Identity() * 500;
    inf(2, 2) = 5000;
    Loop l{bad, nullptr, nullptr};
    if (mode == 0) {
      l.s = new VertexSwitchLinear;
      l.s->setEstimate(1.0);
      l.s->setId(id++);
      g.addVertex(l.s);
      auto *p = new EdgeSwitchPrior;
      p->setMeasurement(1.0);
      p->setInformation(Eigen::Matrix<double, 1, 1>(1));
      p->vertices()[0] = l.s;
      g.addEdge(p);
      auto *e = new EdgeSE2Switchable;
      e->setMeasurement(z);
      e->setInformation(inf);
      e->vertices()[0] = vs[i];
      e->vertices()[1] = vs[j];
      e->vertices()[2] = l.s;
      g.addEdge(e);
    } else {
      std::vector<EdgeSE2 *> cs;
      std::vector<double> w = {1, 0.0001};
      for (int q = 0; q < 2; ++q) {
        own.emplace_back(new EdgeSE2);
        own.back()->vertices()[0] = vs[i];
        own.back()->vertices()[1] = vs[j];
        own.back()->setMeasurement(z);
        M3 weak = M3::Identity() * 5e-9;
        weak(2, 2) = 1e-9;
        own.back()->setInformation(q ? weak : inf);
        cs.push_back(own.back().get());
      }
      l.m = new EdgeSE2Mixture(cs, w);
      g.addEdge(l.m);
    }
    loops.push_back(l);
    c.trace << "loop " << i << "->" << j << (bad ? " outlier" : "") << "\n";
  }
  if (loops.empty()) return;
  c.trace << (lm ? "LM " : "GN ") << (mode ? "mixture " : "switchable ") << "n=" << n << "\n";
  c.sigadd(est[0]);
  c.nontrivial = true;
  vf::family("optimize");
  g.initializeOptimization();
  g.computeActiveErrors();
  double chi0 = g.activeChi2();
  double prev = chi0;
  int iters = 25;
  for (int it = 0; it < iters; ++it) {
    int done = g.optimize(1);
    g.computeActiveErrors();
    double chi = g.activeChi2();
    c.check(std::isfinite(chi), "not-finite", "iteration", it);
    for (auto &l : loops)
      if (l.s) c.check(l.s->estimate() >= 0 && l.s->estimate() <= 1 && l.s->x() == l.s->estimate(), "switch-range", l.s->estimate(), l.s->x());
    if (lm && mode == 0) {
      c.ev("lm_steps");
      c.check(chi <= prev * (1 + 1e-9) + 1e-9, "lm-increased", "iteration", it, prev, "->", chi);
    }
    if (!done) break;
    prev = chi;
  }
  c.ev("optimized");
  c.check(vs[0]->estimate().toVector().norm() == 0, "fixed-pose-moved");
  double worst = 0;
  for (int i = 0; i < n; ++i) worst = std::max(worst, (vs[i]->estimate().translation() - truth[i].translation()).norm());
  c.trace << "chi " << chi0 << " -> " << prev << " worst " << worst << "\n";
  for (auto &l : loops) {
    c.trace << (l.bad ? "bad " : "good ") << (l.s ? l.s->estimate() : l.m->getBestComponent()) << "\n";
    if (l.bad) {
      c.ev("outlier_loops");
      if (l.s) c.check(l.s->estimate() < 0.3, "outlier-kept", l.s->estimate());
      else c.check(l.m->getBestComponent() == 1, "outlier-kept");
    } else {
      c.ev("good_loops");
      if (l.s) c.check(l.s->estimate() > 0.5, "inlier-dropped", l.s->estimate());
      else c.check(l.m->getBestComponent() == 0, "inlier-dropped");
    }
  }
  c.check(worst < 1.0, "trajectory-wrong", worst);
}
#endif
