// C04/C05/C06: histories of graph operations against a reference model.
// PROP selects the oracle: 4 bookkeeping, 5 iteration, 6 adjacency.
#include "common.h"
#include <ndt_gslam/slam_optimizer/pose_graph.h>
#include <ndt_gslam/slam_optimizer/slam2d_policy.h>
typedef Slam2d_Policy P;
struct Payload { long id = -1; std::vector<int> v; };
typedef slamuk::Graph<P, Payload> G;
typedef slamuk::Node<P, Payload> N;
typedef slamuk::Edge<P, Payload> E;

struct MN { P::Pose pose; long data; bool visited = false; N *addr; };
struct ME { size_t from, to; P::Pose t; P::InformMatrix inf; E::State st; E::Type ty; bool used; E *addr; };

struct World {
  Case &c;
  std::unique_ptr<G> g{new G};
  std::vector<MN> nodes;
  std::map<size_t, ME> edges;
  std::set<size_t> freed;
  size_t extent = 0;
  long stamp = 0;
  explicit World(Case &cc) : c(cc) {}

  void addNode()
  {
    vf::family("addNode");
    P::Pose p(c.rng.uni(-9, 9), c.rng.uni(-9, 9), c.rng.uni(-3, 3));
    Payload d; d.id = ++stamp; d.v.assign(c.rng.below(5), (int)stamp);
    size_t id = g->addNode(N(p, d));
    c.trace << "addNode=" << id << ' ';
    if (PROP == 4) c.check(id == nodes.size(), "node-id", id, "want", nodes.size());
    if (id >= nodes.size() + 1) c.fail("node-id", "id out of range");
    nodes.push_back({p, stamp, false, &g->getNode(nodes.size())});
    c.ev("addNode");
  }
  void addEdge()
  {
    if (nodes.empty()) return;
    vf::family("addEdge");
    size_t a = c.rng.below(nodes.size()), b = c.rng.below(nodes.size());
    if (c.rng.chance(0.3)) b = std::min(nodes.size() - 1, a + 1);
    P::Pose t(++stamp, c.rng.uni(-9, 9), c.rng.uni(-3, 3));
    P::InformMatrix inf = P::InformMatrix::Identity() * (double)stamp;
    if (!edges.empty() && c.rng.chance(0.15)) {
      // the same relative pose measured again
      const ME &o = std::next(edges.begin(), c.rng.below(edges.size()))->second;
      a = o.from; b = o.to; t = o.t;
      if (c.rng.chance(0.5)) inf = o.inf;
      c.ev("parallel_equal_edges");
    }
    E e(&g->getNode(a), &g->getNode(b), t, inf);
    ME m{a, b, t, inf, E::CONSTRUCTED, E::ODOM, false, nullptr};
    if (c.rng.chance(0.3)) { e.setState(m.st = E::ACTIVE); }
    if (c.rng.chance(0.3)) { e.setType(m.ty = E::LOOP); }
    if (c.rng.chance(0.3)) { e.setUsed(m.used = true); }
    size_t id = g->addEdge(std::move(e));
    c.trace << "addEdge(" << a << ',' << b << ")=" << id << ' ';
    c.sigadd((uint64_t)(a * 131 + b));
    if (PROP == 4) {
      c.check(!edges.count(id), "edge-id-live", "id of a live edge handed out again", id);
      if (freed.empty()) c.check(id == extent, "edge-id", "fresh id", id, "want", extent);
      else c.check(freed.count(id) == 1, "edge-id", "freed ids exist but got", id);
    }
    if (freed.count(id)) { freed.erase(id); c.ev("edge_id_reused"); }
    else extent = std::max(extent, id + 1);
    m.addr = &g->getEdge(id);
    edges[id] = m;
    c.ev("addEdge");
  }
  void removeEdge()
  {
    vf::family("removeEdge");
    size_t id;
    switch (c.rng.below(8)) {
      case 0: id = extent; break;
      case 1: id = extent + 1 + c.rng.below(3); break;
      case 2: id = c.rng.chance(0.5) ? (size_t)-1 : 200 + extent; break;
      case 3: id = freed.empty() ? extent : *std::next(freed.begin(), c.rng.below(freed.size())); break;
      default: id = c.rng.below(extent + 1); break;
    }
    bool live = edges.count(id);
    bool r = g->removeEdge(id);
    c.trace << "removeEdge(" << id << ")=" << r << ' ';
    c.sigadd((uint64_t)(id + 7777));
    if (PROP == 4) c.check(r == live, "remove-result", "removeEdge", id, "returned", r, "live", live);
    if (live) { edges.erase(id); freed.insert(id); c.ev("edge_removed"); c.nontrivial = true; }
    else c.ev("remove_refused");
  }
  void mutate()
  {
    vf::family("mutate");
    if (nodes.empty()) return;
    size_t a = c.rng.below(nodes.size());
    N &n = g->getNode(a);
    switch (c.rng.below(5)) {
      case 0: nodes[a].pose = P::Pose(c.rng.uni(-9, 9), c.rng.uni(-9, 9), c.rng.uni(-3, 3)); n.setPose(nodes[a].pose); break;
      case 1: n.setVisited(nodes[a].visited = c.rng.chance(0.5)); break;
      case 2: n.getDataObj().id = nodes[a].data = ++stamp; break;
      default:
        if (!edges.empty()) {
          auto it = std::next(edges.begin(), c.rng.below(edges.size()));
          E &e = g->getEdge(it->first);
          e.setState(it->second.st = c.rng.chance(0.5) ? E::TEMP : E::REMOVED);
          e.setType(it->second.ty = c.rng.chance(0.5) ? E::LOOP : E::ODOM);
          e.setUsed(it->second.used = c.rng.chance(0.5));
        }
    }
    c.ev("mutations");
  }
  void moveGraph()
  {
    vf::family("moveGraph");
    std::unique_ptr<G> h(new G(std::move(*g)));
    if (c.rng.chance(0.5)) { G other; other = std::move(*h); *h = std::move(other); }
    g = std::move(h);
    c.trace << "move ";
    c.ev("graph_moved");
  }

  void checkBooks()
  {
    vf::family("bookkeeping");
    const G &cg = *g;
    c.check(g->nodeCount() == nodes.size(), "node-count", g->nodeCount(), nodes.size());
    c.check(g->edgeCount() == edges.size(), "edge-count", g->edgeCount(), "want", edges.size());
    for (size_t i = 0; i < nodes.size(); ++i) {
      N &n = g->getNode(i);
      c.check(&n == nodes[i].addr && &cg.getNode(i) == &n, "node-moved", "node", i, "changed its address");
      c.check(n.getId() == i, "node-content", "id", n.getId(), i);
      c.check((n.getPose() - nodes[i].pose).cwiseAbs().sum() == 0, "node-content", "pose of", i);
      c.check(cg.getNode(i).getDataObj().id == nodes[i].data, "node-content", "data of", i);
      c.check(n.isVisited() == nodes[i].visited, "node-content", "visited of", i);
    }
    for (size_t i = 0; i < extent + 3; ++i) {
      auto it = edges.find(i);
      bool t1 = false, t2 = false;
      E *p1 = nullptr; const E *p2 = nullptr;
      try { p1 = &g->getEdge(i); } catch (const std::out_of_range &) { t1 = true; }
      try { p2 = &cg.getEdge(i); } catch (const std::out_of_range &) { t2 = true; }
      bool live = it != edges.end();
      c.check(t1 == !live && t2 == !live, "edge-lookup", "edge", i, "live", live, "lookup threw", t1, t2);
      if (!live) { c.ev("lookup_refused"); continue; }
      const ME &m = it->second;
      c.check(p1 == p2 && p1 == m.addr, "edge-lookup", "edge", i, "changed its address");
      c.check(p1->getId() == i, "edge-content", "id", p1->getId(), "want", i);
      c.check((p1->getTransform() - m.t).cwiseAbs().sum() == 0, "edge-content", "transform of", i);
      c.check((p1->getInformationMatrix() - m.inf).cwiseAbs().sum() == 0, "edge-content", "information of", i);
      c.check(p1->getState() == m.st && p1->getType() == m.ty && p1->isUsed() == m.used, "edge-content", "flags of", i);
      c.check(p1->getFrom() == nodes[m.from].addr && p1->getTo() == nodes[m.to].addr, "edge-content", "ends of", i);
    }
    bool t = false;
    try { g->getNode(nodes.size()); } catch (const std::out_of_range &) { t = true; }
    bool t2 = false;
    try { cg.getNode(nodes.size() + c.rng.below(1000)); } catch (const std::out_of_range &) { t2 = true; }
    c.check(t && t2, "node-lookup", "no exception past the last node");
    c.ev("full_checks");
  }
  template <typename It> void walk(It b, It e, int style, const char *key)
  {
    auto m = edges.begin();
    size_t n = 0;
    c.check((b == e) == edges.empty(), key, "empty range iff no live edge; live", edges.size());
    while (b != e) {
      c.check(m != edges.end(), key, "visits more than the", edges.size(), "live edges");
      c.check(&*b == m->second.addr, key, "position", n, "want edge", m->first);
      c.check(b->getId() == m->first, key, "position", n, "id", b->getId(), "want", m->first);
      if (style) ++b; else b++;
      ++m; ++n;
      c.ev("iterated");
    }
    c.check(m == edges.end(), key, "stopped after", n, "of", edges.size(), "live edges");
  }
  template <typename It> void walkN(It b, It e, int style, const char *key)
  {
    size_t n = 0;
    while (b != e) {
      c.check(n < nodes.size(), key, "visits more nodes than exist");
      c.check(&*b == nodes[n].addr && b->getId() == n, key, "node position", n);
      if (style) ++b; else b++;
      ++n;
      c.ev("iterated");
    }
    c.check(n == nodes.size(), key, "visited", n, "of", nodes.size(), "nodes");
  }
  void checkIter()
  {
    const G &cg = *g;
    for (int st = 0; st < 2; ++st) {
      vf::family("edge-iterator");
      walk(g->beginEdge(), g->endEdge(), st, "edge-iteration");
      vf::family("const-edge-iterator");
      walk(cg.cbeginEdge(), cg.cendEdge(), st, "const-edge-iteration");
      vf::family("node-iterator");
      walkN(g->beginNode(), g->endNode(), st, "node-iteration");
      vf::family("const-node-iterator");
      walkN(cg.cbeginNode(), cg.cendNode(), st, "const-node-iteration");
    }
    c.ev("full_checks");
    if (!edges.empty() && freed.count(0)) c.ev("first_edge_removed");
    if (extent && freed.count(extent - 1)) c.ev("last_edge_removed");
    if (edges.empty() && extent) c.ev("all_edges_removed");
    // writing through an iterator reaches the graph
    if (!edges.empty() && c.rng.chance(0.3)) {
      size_t k = c.rng.below(edges.size());
      auto it = g->beginEdge();
      for (size_t i = 0; i < k; ++i) ++it;
      auto m = std::next(edges.begin(), k);
      it->setUsed(!m->second.used);
      m->second.used = !m->second.used;
      c.check(g->getEdge(m->first).isUsed() == m->second.used, "edge-iteration", "write through iterator lost");
    }
  }
  void checkAdj()
  {
    vf::family("adjacency");
    std::vector<std::set<const E *>> out(nodes.size()), in(nodes.size());
    for (auto &kv : edges) {
      out[kv.second.from].insert(kv.second.addr);
      in[kv.second.to].insert(kv.second.addr);
      const E &e = g->getEdge(kv.first);
      c.check(e.getFrom() == &g->getNode(kv.second.from) && e.getTo() == &g->getNode(kv.second.to), "edge-ends",
              "edge", kv.first);
      c.check(e.getFrom()->getId() == kv.second.from && e.getTo()->getId() == kv.second.to, "edge-ends", "node ids of edge", kv.first);
    }
    for (size_t i = 0; i < nodes.size(); ++i)
      for (int side = 0; side < 2; ++side) {
        auto &lst = side ? g->getNode(i).getEdgesIn() : g->getNode(i).getEdgesOut();
        auto &want = side ? in[i] : out[i];
        const char *nm = side ? "incoming" : "outgoing";
        std::set<const E *> got;
        for (auto *e : lst) {
          c.check(want.count(e) == 1, "stale-adjacency", "node", i, "lists an", nm, "edge that does not exist any more or is not its own");
          c.check(got.insert(e).second, "duplicate-adjacency", "node", i, nm);
          // dereference: a freed edge is a sanitizer report
          auto it = edges.find(e->getId());
          c.check(it != edges.end() && it->second.addr == e, "stale-adjacency", "edge id", e->getId());
          c.ev("adjacent_edges_seen");
        }
        c.check(got.size() == want.size(), "missing-adjacency", "node", i, nm, got.size(), "of", want.size());
      }
    c.ev("full_checks");
  }
  void checkAll()
  {
    if (PROP == 4) checkBooks();
    if (PROP == 5) checkIter();
    if (PROP == 6) checkAdj();
  }
};

void run_case(Case &c)
{
  World w(c);
  int style = (int)c.rng.below(4);
  size_t ops = c.rng.range(5, c.thorough ? 150 : 60);
  double rem = style == 0 ? 0.1 : style == 1 ? 0.35 : style == 2 ? 0.5 : 0.25;
  w.checkAll();
  for (size_t i = 0; i < ops; ++i) {
    double u = c.rng.unit();
    if (u < rem) w.removeEdge();
    else if (u < rem + 0.12 || w.nodes.empty()) w.addNode();
    else if (u < rem + 0.22) w.mutate();
    else if (u < rem + 0.24) w.moveGraph();
    else w.addEdge();
    if (c.rng.chance(0.4)) w.checkAll();
  }
  if (style == 3) {
    // tear everything down, then fill up again: all ids are reused
    c.trace << "| drain ";
    while (!w.edges.empty()) {
      size_t id = c.rng.chance(0.5) ? w.edges.begin()->first : w.edges.rbegin()->first;
      vf::family("removeEdge");
      bool r = w.g->removeEdge(id);
      if (PROP == 4) c.check(r, "remove-result", "live edge", id, "not removed");
      w.edges.erase(id); w.freed.insert(id);
      w.checkAll();
    }
    size_t n = w.extent + 2;
    for (size_t i = 0; i < n; ++i) { w.addEdge(); w.checkAll(); }
  }
  w.checkAll();
  c.ev("histories");
}
