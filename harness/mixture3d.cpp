// C43 three-dimensional mixture constraints: selection, adoption, persistence, registration.
#include "common.h"
#include <g2o/core/factory.h>
#include <g2o/core/jacobian_workspace.h>
#include <g2o/core/sparse_optimizer.h>
#include <g2o/types/slam3d/edge_se3.h>
#include <g2o/types/slam3d/vertex_se3.h>
#include <ndt_gslam/slam_optimizer/max_mixture/edge_se3_mixture.h>
#include <iostream>
using g2o::EdgeSE3;
using g2o::VertexSE3;
typedef Eigen::Isometry3d Iso;
typedef Eigen::Matrix<double, 6, 1> V6;
typedef Eigen::Matrix<double, 6, 6> M6;
typedef Eigen::Vector3d V3;
typedef g2o::OptimizableGraph::Edge OEdge;
void init_types_mixture(void);
struct Quiet {
  Quiet() { std::cerr.rdbuf(nullptr); }
} quiet;
struct MixProbe : EdgeSE3Mixture {
  Eigen::MatrixXd J(int i) { return i ? Eigen::MatrixXd(_jacobianOplusXj) : Eigen::MatrixXd(_jacobianOplusXi); }
};
struct Plain : EdgeSE3 {
  Eigen::MatrixXd J(int i) { return i ? Eigen::MatrixXd(_jacobianOplusXj) : Eigen::MatrixXd(_jacobianOplusXi); }
};
static Iso rpose(Rng &r)
{
  Iso t = Iso::Identity();
  t.linear() = Eigen::Quaterniond(r.gauss(), r.gauss(), r.gauss(), r.gauss()).normalized().toRotationMatrix();
  if (r.chance(0.2)) t.linear() = Eigen::AngleAxisd(r.angle(), V3::UnitZ()).toRotationMatrix();
  t.translation() = V3(r.logmag(-2, 2), r.logmag(-2, 2), r.logmag(-2, 2));
  return t;
}
static Iso nudge(Rng &r)
{
  Iso t = Iso::Identity();
  t.linear() = Eigen::AngleAxisd(r.gauss() * 0.2, V3(r.gauss(), r.gauss(), r.gauss()).normalized()).toRotationMatrix();
  t.translation() = V3(r.gauss(), r.gauss(), r.gauss()) * 0.3;
  return t;
}
static M6 rinfo(Rng &r)
{
  M6 a;
  for (int i = 0; i < 36; ++i) a.data()[i] = r.gauss();
  M6 m = (a * a.transpose() + M6::Identity() * 0.1) * std::pow(10, r.uni(-1, 3));
  return M6((m + m.transpose()) / 2);
}
// translation and vector part of the quaternion of z^-1 a^-1 b
static V6 residual(const Iso &a, const Iso &b, const Iso &z, double &w)
{
  Iso d = z.inverse() * a.inverse() * b;
  Eigen::Quaterniond q(d.linear());
  if (q.w() < 0) q.coeffs() *= -1;
  w = q.w();
  V6 e;
  e << d.translation(), q.x(), q.y(), q.z();
  return e;
}
static void linearize(OEdge *e, g2o::JacobianWorkspace &ws)
{
  ws.updateSize(e, true);
  ws.allocate();
  e->linearizeOplus(ws);
}

static void selection(Case &c)
{
  Rng &r = c.rng;
  std::vector<std::unique_ptr<VertexSE3>> vs;
  for (int i = 0; i < 4; ++i) {
    vs.emplace_back(new VertexSE3);
    vs.back()->setId(i);
    vs.back()->setEstimate(rpose(r));
  }
  std::unique_ptr<MixProbe> mix(new MixProbe);
  c.check(mix->numberComponents == 0 && mix->getBestComponent() == -1, "empty-mixture", mix->getBestComponent());
  std::vector<std::unique_ptr<EdgeSE3>> comps;
  std::vector<EdgeSE3 *> ptrs;
  std::vector<double> w;
  std::set<int> winners;
  for (int round = 0; round < 2; ++round) {
    comps.clear(); ptrs.clear(); w.clear();
    int n = r.range(1, 5);
    bool multi = r.chance(0.4), nullh = n >= 2 && r.chance(0.4);
    auto meas = [&](EdgeSE3 &e) {
      Iso z = ((VertexSE3 *)e.vertex(0))->estimate().inverse() * ((VertexSE3 *)e.vertex(1))->estimate();
      e.setMeasurement(r.chance(0.3) ? rpose(r) : z * nudge(r));
      e.setInformation(rinfo(r));
    };
    for (int i = 0; i < n; ++i) {
      comps.emplace_back(new EdgeSE3);
      size_t a = multi ? r.below(4) : 0, b = multi ? (a + 1 + r.below(3)) % 4 : 1;
      comps[i]->vertices()[0] = vs[a].get();
      comps[i]->vertices()[1] = vs[b].get();
      meas(*comps[i]);
      if (nullh && i == 1) {
        comps[1]->vertices()[0] = comps[0]->vertex(0);
        comps[1]->vertices()[1] = comps[0]->vertex(1);
        comps[1]->setMeasurement(comps[0]->measurement());
        comps[1]->setInformation(M6(comps[0]->information() * std::pow(10, r.uni(-9, -2))));
        c.ev("null_hypotheses");
      }
      ptrs.push_back(comps[i].get());
      w.push_back(r.chance(0.5) ? std::pow(10, r.uni(-6, 0)) : 1.0);
    }
    vf::family("mixture3d-init");
    mix->initializeComponents(ptrs, w);
    if (round) c.ev("reinitialised");
    for (int k = 0; k < 5; ++k) {
      if (k) for (auto &v : vs) if (r.chance(0.5)) v->setEstimate(r.chance(0.5) ? rpose(r) : v->estimate() * nudge(r));
      if (k && r.chance(0.3)) {  // consistent with one component
        meas(*comps[r.below(n)]);
        mix->initializeComponents(ptrs, w);
      }
      vf::family("mixture3d-error");
      OEdge *oe = mix.get();
      if (r.chance(0.3)) mix->computeBestEdge();
      else oe->computeError();
      c.check(mix->numberComponents == n, "component-count", mix->numberComponents);
      std::vector<double> cost;
      int best = 0;
      bool edge_case = false;
      for (int i = 0; i < n; ++i) {
        double qw;
        V6 e = residual(((VertexSE3 *)ptrs[i]->vertex(0))->estimate(), ((VertexSE3 *)ptrs[i]->vertex(1))->estimate(), ptrs[i]->measurement(), qw);
        edge_case |= qw < 1e-4;
        cost.push_back(-std::log(w[i]) - 0.5 * std::log(ptrs[i]->information().determinant()) + 0.5 * e.dot(ptrs[i]->information() * e));
        if (cost[i] < cost[best]) best = i;
        c.trace << "component " << i << " weight " << w[i] << " cost " << cost[i] << "\n";
      }
      if (edge_case) { c.ev("half_turns_skipped"); continue; }
      bool tie = false;
      for (int i = 0; i < n; ++i) tie |= i != best && cost[i] - cost[best] < 1e-5 * (1 + std::fabs(cost[best]));
      if (tie) { c.ev("ties_skipped"); continue; }
      c.ev("selections");
      if (best) c.ev("not_first");
      winners.insert(best);
      EdgeSE3 *p = ptrs[best];
      auto agrees = [&](const char *when) {
        c.check(mix->getBestComponent() == best, "wrong-component", when, "got", mix->getBestComponent(), "want", best);
        c.check(mix->vertex(0) == p->vertex(0) && mix->vertex(1) == p->vertex(1), "vertices-not-adopted", when);
        c.check((mix->measurement().matrix() - p->measurement().matrix()).norm() < 1e-9 * (1 + p->measurement().matrix().norm()), "measurement-not-adopted", when);
        c.check((mix->information() - p->information()).norm() == 0, "information-not-adopted", when);
        double qw;
        V6 e = residual(((VertexSE3 *)p->vertex(0))->estimate(), ((VertexSE3 *)p->vertex(1))->estimate(), p->measurement(), qw);
        c.check((mix->error() - e).norm() < 1e-8 * (300 + e.norm()), "error-differs", when, mix->error().transpose(), "expected", e.transpose());
        double chi = e.dot(p->information() * e);
        c.check(std::fabs(mix->chi2() - chi) <= 1e-7 * (chi + p->information().norm() * (e.norm() + 300)), "chi2-differs", when, mix->chi2(), "expected", chi);
      };
      agrees("after computeError");
      for (int i = 0; i < n; ++i) c.check(mix->getComponent(i) == ptrs[i], "component-lost", i);
      g2o::JacobianWorkspace ws, ws2;
      vf::family("mixture3d-linearize");
      linearize(oe, ws);
      agrees("after linearization");
      Plain plain;
      plain.vertices()[0] = p->vertex(0);
      plain.vertices()[1] = p->vertex(1);
      plain.setMeasurement(p->measurement());
      plain.setInformation(p->information());
      plain.computeError();
      linearize(&plain, ws2);
      for (int v = 0; v < 2; ++v) c.check((mix->J(v) - plain.J(v)).norm() < 1e-6 * (1 + plain.J(v).norm()), "jacobian-differs", v);
      c.sigadd(cost[best]);
      c.nontrivial |= n > 1;
    }
  }
  if (winners.size() > 1) c.ev("winner_changed");
}

static std::string saveText(g2o::OptimizableGraph &g)
{
  std::ostringstream os;
  os.precision(17);
  g.save(os);
  return os.str();
}
static EdgeSE3Mixture *mixOf(OEdge *e) { return dynamic_cast<EdgeSE3Mixture *>(e); }
static void persistence(Case &c)
{
  Rng &r = c.rng;
  g2o::SparseOptimizer g;
  int np = r.range(3, 6), id = (int)r.below(5);
  std::vector<VertexSE3 *> ps;
  for (int i = 0; i < np; ++i) {
    auto *v = new VertexSE3;
    v->setId(id++);
    v->setEstimate(rpose(r));
    g.addVertex(v);
    ps.push_back(v);
  }
  for (int i = 0; i + 1 < np; ++i) {
    auto *e = new EdgeSE3;
    e->vertices()[0] = ps[i];
    e->vertices()[1] = ps[i + 1];
    e->setMeasurement(rpose(r));
    e->setInformation(rinfo(r));
    g.addEdge(e);
  }
  std::vector<std::unique_ptr<EdgeSE3>> own;
  int ne = r.range(1, 5);
  for (int k = 0; k < ne; ++k) {
    std::vector<EdgeSE3 *> cs;
    std::vector<double> w;
    size_t a = r.below(np), b = (a + 1 + r.below(np - 1)) % np;
    int n = r.range(1, 4);
    for (int i = 0; i < n; ++i) {
      own.emplace_back(new EdgeSE3);
      size_t x = a, y = b;
      if (r.chance(0.3)) { x = r.below(np); y = (x + 1 + r.below(np - 1)) % np; c.ev("multimodal_components"); }
      own.back()->vertices()[0] = ps[x];
      own.back()->vertices()[1] = ps[y];
      own.back()->setMeasurement(rpose(r));
      own.back()->setInformation(rinfo(r));
      cs.push_back(own.back().get());
      w.push_back(std::pow(10, r.uni(-4, 0)));
    }
    g.addEdge(new EdgeSE3Mixture(cs, w));
    c.ev("mixture_edges");
  }
  c.nontrivial = true;
  vf::family("save3d");
  std::string text = saveText(g);
  c.trace << text;
  for (char ch : text) c.sigadd((uint64_t)(unsigned char)ch);
  g2o::SparseOptimizer h;
  std::istringstream in(text);
  vf::family("load3d");
  h.load(in);
  c.ev("graphs_reloaded");
  c.check(h.vertices().size() == g.vertices().size() && h.edges().size() == g.edges().size(), "graph-lost", h.vertices().size(), "vertices", h.edges().size(), "edges; saved", g.vertices().size(), g.edges().size());
  auto mixes = [](g2o::OptimizableGraph &g) {
    std::vector<EdgeSE3Mixture *> m;
    for (auto *e : g.edges()) if (auto *x = mixOf(static_cast<OEdge *>(e))) m.push_back(x);
    return m;
  };
  auto ma = mixes(g), mb = mixes(h);
  c.check((int)ma.size() == ne && mb.size() == ma.size(), "mixtures-lost", mb.size(), "of", ma.size());
  std::vector<char> used(mb.size(), 0);
  for (auto *a : ma) {
    ((OEdge *)a)->computeError();
    bool found = false;
    for (size_t j = 0; j < mb.size() && !found; ++j) {
      auto *b = mb[j];
      if (used[j] || b->numberComponents != a->numberComponents) continue;
      bool eq = true;
      for (int k = 0; k < a->numberComponents && eq; ++k) {
        EdgeSE3 *p = a->getComponent(k), *q = b->getComponent(k);
        eq = p->vertex(0)->id() == q->vertex(0)->id() && p->vertex(1)->id() == q->vertex(1)->id() &&
             (p->measurement().matrix() - q->measurement().matrix()).norm() < 1e-9 * (1 + p->measurement().matrix().norm()) &&
             (p->information() - q->information()).norm() <= 1e-12 * p->information().norm();
      }
      if (!eq) continue;
      ((OEdge *)b)->computeError();
      eq = a->getBestComponent() == b->getBestComponent() && std::fabs(a->chi2() - b->chi2()) < 1e-6 * (1 + a->chi2()) + 1e-7 * a->information().norm();
      if (eq) used[j] = found = true;
    }
    c.check(found, "mixture-not-restored", "components", a->numberComponents);
    c.ev("edges_restored");
  }
  for (auto *a : ma) {
    // the whole record, with the weights
    std::ostringstream os;
    os.precision(12);
    a->write(os);
    EdgeSE3Mixture *b = nullptr;
    for (size_t j = 0; j < mb.size(); ++j) {
      std::ostringstream t;
      t.precision(12);
      mb[j]->write(t);
      std::istringstream x(os.str()), y(t.str());
      std::string u, v;
      bool eq = true;
      while (eq && (x >> u)) {
        eq = bool(y >> v);
        char *eu, *ev;
        double du = strtod(u.c_str(), &eu), dv = strtod(v.c_str(), &ev);
        if (eq) eq = *eu || *ev ? u == v : std::fabs(du - dv) <= 1e-8 * (1 + std::fabs(du));
      }
      if (eq && !(y >> v)) b = mb[j];
    }
    c.check(b != nullptr, "record-differs", os.str().substr(0, 300));
  }
  // a record cut short is refused, and does no harm
  std::ostringstream os;
  os.precision(17);
  auto *m = r.pick(ma);
  m->write(os);
  std::vector<std::string> tok;
  std::istringstream ts(os.str());
  for (std::string t; ts >> t;) tok.push_back(t);
  size_t cut = r.below(tok.size());
  std::string part;
  for (size_t i = 0; i < cut; ++i) part += tok[i] + " ";
  EdgeSE3Mixture t;
  t.vertices()[0] = m->vertex(0);
  t.vertices()[1] = m->vertex(1);
  std::istringstream is(part);
  vf::family("read3d-truncated");
  c.check(!t.read(is), "truncated-accepted", "cut after", cut, "of", tok.size());
  c.ev("truncated_refused");
  std::istringstream whole(os.str());
  EdgeSE3Mixture t2;
  t2.vertices()[0] = m->vertex(0);
  t2.vertices()[1] = m->vertex(1);
  vf::family("read3d");
  c.check(t2.read(whole), "record-refused");
  // ... also into an object which holds components already
  std::istringstream more(os.str());
  c.check(t2.read(more) && t2.numberComponents == m->numberComponents, "record-refused", "second time");
  ((OEdge *)&t2)->computeError();
  ((OEdge *)m)->computeError();
  c.check(t2.getBestComponent() == m->getBestComponent(), "reread", "component", t2.getBestComponent(), "instead of", m->getBestComponent());
  for (int k = 0; k < m->numberComponents; ++k)
    c.check((t2.getComponent(k)->information() - m->getComponent(k)->information()).norm() <= 1e-12 * m->getComponent(k)->information().norm(), "reread", "component", k);
}
void run_case(Case &c)
{
  // linking the types is enough to load graphs which hold them (g2o reads plugins this way); calling the initialiser does no harm
  const char *tags[] = {"EDGE_SE2_MIXTURE", "EDGE_SE2_XY_MIXTURE", "EDGE_SE3:QUAT_MIXTURE"};
  static bool known[3], first = true;
  if (first) {
    for (int i = 0; i < 3; ++i) known[i] = g2o::Factory::instance()->knowsTag(tags[i]);
    first = false;
    init_types_mixture();
  }
  for (int i = 0; i < 3; ++i) c.check(known[i] && g2o::Factory::instance()->knowsTag(tags[i]), "type-not-registered", tags[i]);
  if (c.rng.chance(0.6)) { c.ev("selection_cases"); selection(c); }
  else { c.ev("persistence_cases"); persistence(c); }
}
