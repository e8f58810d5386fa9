// C07..C11: the voxel grid against a map model. PROP selects the oracle:
// 7 content, 8 translation, 9 queries, 10 copies, 11 rays.
#include "common.h"
#include <ndt_gslam/ndt/voxel_grid2d.h>
using slamuk::VoxelGrid2D;

// A cell which remembers how it was built, and counts its instances.
struct Cell {
  static long &live() { static long n = 0; return n; }
  std::vector<long> h;  // merge history
  Cell() { ++live(); }
  explicit Cell(long v) : h(1, v) { ++live(); }
  Cell(const Cell &o) : h(o.h) { ++live(); }
  Cell(Cell &&o) : h(std::move(o.h)) { ++live(); }
  Cell &operator=(const Cell &) = default;
  Cell &operator=(Cell &&) = default;
  ~Cell() { --live(); }
  Cell &operator+=(const Cell &o)
  {
    std::vector<long> add = o.h;  // also right for o == *this
    h.insert(h.end(), add.begin(), add.end());
    return *this;
  }
  bool operator==(const Cell &o) const { return h == o.h; }
};
typedef VoxelGrid2D<Cell> Grid;
typedef Grid::Point Pt;
typedef std::pair<long, long> Pos;  // cells to the right of / above the centre cell

struct Model {
  std::map<Pos, std::vector<long>> cells;
  long l = 0, r = 0, u = 0, d = 0;
  bool inside(const Pos &p) const { return p.first >= -l && p.first <= r && p.second >= -d && p.second <= u; }
  void cover(const Pos &p)
  {
    l = std::max(l, -p.first); r = std::max(r, p.first);
    d = std::max(d, -p.second); u = std::max(u, p.second);
  }
};

struct World {
  Case &c;
  std::unique_ptr<Grid> g{new Grid};
  Model m;
  double cs;
  bool exact;
  long stamp = 0;
  int xtie = 0, ytie = 0;  // learned owner of border points: 1 = lower cell, 2 = upper cell
  explicit World(Case &cc) : c(cc)
  {
    std::vector<float> ex = {1.f, 0.5f, 0.25f, 2.f, 0.125f}, in = {0.1f, 0.3f, 0.7f, 0.15f, 1.3f};
    exact = c.rng.chance(0.6);
    float f = exact ? c.rng.pick(ex) : c.rng.pick(in);
    g->setCellSize(f);
    cs = f;
    m.cells[{0, 0}] = {};
    c.trace << "cs " << cs << ' ';
  }
  Pt at(const Pos &p, bool centre = false)
  {
    double u = centre ? 0 : c.rng.uni(-0.45, 0.45), v = centre ? 0 : c.rng.uni(-0.45, 0.45);
    return Pt((p.first + u) * cs, (p.second + v) * cs);
  }
  Pos anyPos(long span) { return {c.rng.range(-span, span), c.rng.range(-span, span)}; }
  Pos insidePos() { return {c.rng.range(-m.l, m.r), c.rng.range(-m.d, m.u)}; }

  void add(Pos p)
  {
    vf::family("addCell");
    long v = ++stamp;
    bool merging = c.rng.chance(0.6);
    bool existed = m.cells.count(p);
    Pt pt = at(p);
    Cell cell(v);
    switch (c.rng.below(merging ? 3 : 2)) {
      case 0: g->addCell(pt, cell, merging); break;
      case 1: g->addCell(pt, std::move(cell), merging); break;
      default: g->addCell(pt, cell); break;  // merging is the default
    }
    auto &h = m.cells[p];
    if (!merging) h.clear();
    h.push_back(v);
    if (existed) c.ev(merging ? "merged" : "replaced"); else c.ev("created");
    if (!m.inside(p)) c.ev("grown");
    m.cover(p);
    c.trace << (merging ? "+" : "=") << p.first << ',' << p.second << ' ';
    c.sigadd((uint64_t)(p.first * 1000 + p.second));
  }
  void addBorder()
  {
    // a point exactly on a border: one of the two neighbours must get it, always the same one
    if (!exact) return;
    vf::family("addCell-border");
    Pos p = c.rng.chance(0.5) ? insidePos() : anyPos(6);
    if (c.rng.chance(0.5)) p.first = c.rng.chance(0.5) ? -m.l : m.r + 1;
    if (c.rng.chance(0.5)) p.second = c.rng.chance(0.5) ? -m.d : m.u + 1;
    bool bx = c.rng.chance(0.6), by = !bx || c.rng.chance(0.4);
    Pt pt = at(p);
    if (bx) pt(0) = (p.first - 0.5) * cs;   // between p.first-1 and p.first
    if (by) pt(1) = (p.second - 0.5) * cs;
    long v = ++stamp;
    g->addCell(pt, Cell(v), false);
    c.trace << "border(" << pt.transpose() << ") ";
    c.check(g->isInside(pt) && g->cellExists(pt), "border-lost", "the point just added is outside", pt.transpose());
    c.check((*g)[pt].h == std::vector<long>{v}, "border-lost", "lookup returns another cell");
    std::vector<Pos> owners;
    for (long dx = bx ? -1 : 0; dx <= 0; ++dx)
      for (long dy = by ? -1 : 0; dy <= 0; ++dy) {
        Pos q{p.first + dx, p.second + dy};
        Pt qc = at(q, true);
        if (g->isInside(qc) && g->cellExists(qc) && (*g)[qc].h == std::vector<long>{v}) owners.push_back(q);
      }
    c.check(owners.size() == 1, "border-owner", owners.size(), "cells own the point", pt.transpose());
    Pos q = owners[0];
    if (bx) { int t = q.first == p.first ? 2 : 1; c.check(!xtie || xtie == t, "border-owner", "owner depends on history (x)"); xtie = t; }
    if (by) { int t = q.second == p.second ? 2 : 1; c.check(!ytie || ytie == t, "border-owner", "owner depends on history (y)"); ytie = t; }
    m.cells[q] = {v};
    m.cover(q);
    c.ev("border_points");
  }
  void remove()
  {
    vf::family("removeCell");
    Pos p = c.rng.chance(0.6) && !m.cells.empty() ? std::next(m.cells.begin(), c.rng.below(m.cells.size()))->first : anyPos(8);
    bool had = m.cells.count(p), in = m.inside(p);
    bool r = g->removeCell(at(p));
    if (PROP == 7) c.check(r == had, "remove-result", "cell existed", had, "inside", in, "returned", r);
    m.cells.erase(p);
    c.trace << "-" << p.first << ',' << p.second << ' ';
    c.ev(had ? "removed" : "remove_refused");
  }
  void enlarge()
  {
    vf::family("enlarge");
    Pos a = anyPos(9), b = anyPos(9);
    Pt pa = at(a), pb = at(b);
    g->enlarge((float)pa(0), (float)pa(1), (float)pb(0), (float)pb(1));
    // only growth, each side to its own argument
    m.l = std::max(m.l, -a.first); m.d = std::max(m.d, -a.second);
    m.r = std::max(m.r, b.first); m.u = std::max(m.u, b.second);
    c.trace << "enlarge " << a.first << ',' << a.second << ',' << b.first << ',' << b.second << ' ';
    c.ev("enlarged");
  }
  void translate()
  {
    vf::family("translate");
    long w = m.l + m.r + 1, h = m.u + m.d + 1;
    auto amount = [&](long n) -> long {
      switch (c.rng.below(6)) {
        case 0: return 0;
        case 1: return c.rng.chance(0.5) ? n : -n;
        case 2: return (c.rng.chance(0.5) ? 1 : -1) * (n + c.rng.range(1, 5));
        default: return c.rng.range(-n, n);
      }
    };
    long tx = amount(std::min(w, 14L)), ty = amount(std::min(h, 14L));
    if (c.rng.chance(0.2)) tx = 0;
    if (c.rng.chance(0.2)) ty = 0;
    bool discard = c.rng.chance(0.6) || w > 40 || h > 40;
    g->translate(Eigen::Vector2i((int)tx, (int)ty), discard);
    if (!discard) {
      if (tx < 0) m.l -= tx; else m.r += tx;
      if (ty < 0) m.d -= ty; else m.u += ty;
    }
    std::map<Pos, std::vector<long>> n;
    size_t before = m.cells.size();
    for (auto &kv : m.cells) {
      Pos q{kv.first.first + tx, kv.first.second + ty};
      if (m.inside(q)) n[q] = std::move(kv.second);
    }
    m.cells.swap(n);
    if (m.cells.size() < before) { c.ev("cells_discarded"); if (discard == false) c.fail("model", "model lost cells"); }
    if (!m.cells.empty()) c.ev(discard ? "shifted" : "shifted_growing");
    c.trace << "translate " << tx << ',' << ty << (discard ? " discard " : " grow ");
    c.sigadd((uint64_t)(tx * 77 + ty));
  }
  void clear()
  {
    vf::family("clear");
    g->clear();
    m.cells.clear();
    c.trace << "clear ";
    c.ev("cleared");
  }
  void writeThrough()
  {
    vf::family("write");
    if (m.cells.empty()) return;
    auto it = std::next(m.cells.begin(), c.rng.below(m.cells.size()));
    long v = ++stamp;
    if (c.rng.chance(0.5)) (*g)[at(it->first)].h.push_back(v); else g->getCellPtr(at(it->first))->h.push_back(v);
    it->second.push_back(v);
    c.ev("written_through");
  }

  void compare(const Grid &gg, const Model &mm, const char *key)
  {
    c.check((long)gg.left() == mm.l && (long)gg.right() == mm.r && (long)gg.up() == mm.u && (long)gg.down() == mm.d, key,
            "extents l r u d", gg.left(), gg.right(), gg.up(), gg.down(), "want", mm.l, mm.r, mm.u, mm.d);
    c.check((long)gg.width() == mm.l + mm.r + 1 && (long)gg.height() == mm.u + mm.d + 1, key, "size", gg.width(), gg.height());
    c.check(gg.getCellSize() == (float)cs, key, "cell size");
    long margin = 2;
    for (long x = -mm.l - margin; x <= mm.r + margin; ++x)
      for (long y = -mm.d - margin; y <= mm.u + margin; ++y) {
        Pos p{x, y};
        Pt pt = at(p);
        bool in = mm.inside(p);
        c.check(gg.isInside(pt) == in, key, "isInside of cell", x, y, "is", !in);
        auto it = mm.cells.find(p);
        c.check(gg.cellExists(pt) == (it != mm.cells.end()), key, "cell", x, y, it == mm.cells.end() ? "appeared" : "lost");
        if (in) {
          Cell *q = gg.getCellPtr(pt);
          c.check((q != nullptr) == (it != mm.cells.end()), key, "pointer of cell", x, y);
          if (q) { c.check(q->h == it->second, key, "content of cell", x, y); c.ev("cells_compared"); }
        }
      }
  }
  void queries()
  {
    vf::family("queries");
    const Grid &cg = *g;
    c.check(cg.validCells() == m.cells.size(), "valid-count", cg.validCells(), "want", m.cells.size());
    // row-major from the top left
    std::vector<Pos> order;
    for (auto &kv : m.cells) order.push_back(kv.first);
    std::sort(order.begin(), order.end(), [](const Pos &a, const Pos &b) {
      return a.second != b.second ? a.second > b.second : a.first < b.first;
    });
    auto byval = cg.getValidCells();
    auto byptr = cg.getValidCellsPtr();
    c.check(byval.size() == order.size() && byptr.size() == order.size(), "valid-list", byval.size(), byptr.size(), "want", order.size());
    for (size_t i = 0; i < order.size(); ++i) {
      c.check(byval[i].h == m.cells[order[i]], "valid-list", "value", i);
      c.check(byptr[i] == cg.getCellPtr(at(order[i])), "valid-list", "pointer", i);
    }
    size_t i = 0, w = (size_t)(m.l + m.r + 1);
    for (auto it = g->begin(); it != g->end(); ++it, ++i) {
      Pos p{(long)(i % w) - m.l, m.u - (long)(i / w)};
      bool has = m.cells.count(p);
      c.check(((*it).get() != nullptr) == has, "storage-order", "slot", i);
      if (has) c.check((*it)->h == m.cells[p], "storage-order", "content of slot", i);
    }
    c.check(i == (size_t)((m.l + m.r + 1) * (m.u + m.d + 1)), "storage-order", "slots", i);
    c.check(std::distance(cg.begin(), cg.end()) == (long)i && std::distance(cg.cbegin(), cg.cend()) == (long)i, "storage-order", "const range");
    for (int k = 0; k < 6; ++k) {
      bool out = c.rng.chance(0.15);
      Pos p = out ? anyPos(12) : insidePos();
      size_t rad = c.rng.pick<size_t>({0, 1, 1, 2, 3, 5, 40});
      auto nb = cg.getNeighbors(at(p), rad);
      std::vector<Pos> want;
      if (m.inside(p))
        for (auto &q : order)
          if (std::labs(q.first - p.first) <= (long)rad && std::labs(q.second - p.second) <= (long)rad) want.push_back(q);
      c.check(nb.size() == want.size(), "neighbours", "around", p.first, p.second, "radius", rad, "got", nb.size(), "want", want.size());
      for (size_t j = 0; j < nb.size(); ++j) c.check(nb[j] == cg.getCellPtr(at(want[j])), "neighbours", "order/identity at", j);
      c.ev("neighbour_queries");
      c.ev("neighbours_returned", nb.size());
#ifdef USE_GETCENTROID
      Pos q = insidePos();
      auto ctr = cg.getCentroid(at(q));
      c.check(std::fabs(ctr.first - q.first * cs) < 1e-5 * (1 + std::fabs(ctr.first)) && std::fabs(ctr.second - q.second * cs) < 1e-5 * (1 + std::fabs(ctr.second)),
              "centroid", ctr.first, ctr.second, "of cell", q.first, q.second);
#endif
    }
  }
  void ray();
  void copies();
  void checkAll()
  {
    if (PROP == 7) { vf::family("compare"); compare(*g, m, "content"); }
    if (PROP == 8) { vf::family("compare"); compare(*g, m, "translated-content"); c.check(g->validCells() == m.cells.size(), "translated-count"); }
    if (PROP == 9) queries();
    if (PROP == 10) copies();
    if (PROP == 11) { size_t n = c.thorough ? 4 : 3; for (size_t i = 0; i < n; ++i) ray(); }
  }
};

void World::copies()
{
  vf::family("copy");
  Model snap = m;
  Grid a(*g);
  compare(a, snap, "copy-content");
  compare(*g, m, "copy-source");
  c.check(a.validCells() == snap.cells.size(), "copy-count", a.validCells(), snap.cells.size());
  // independence, both directions
  std::set<Cell *> mine;
  for (auto *p : g->getValidCellsPtr()) mine.insert(p);
  for (auto *p : a.getValidCellsPtr()) c.check(!mine.count(p), "copy-aliases", "copy shares a cell with its source");
  Model ma = snap;
  for (int k = 0; k < 4; ++k) {
    Pos p = anyPos(6);
    long v = ++stamp;
    a.addCell(at(p), Cell(v), true);
    ma.cells[p].push_back(v); ma.cover(p);
  }
  compare(*g, m, "copy-aliases");
  compare(a, ma, "copy-content");
  vf::family("assign");
  Grid b;
  if (c.rng.chance(0.5)) { b.setCellSize(9); for (int k = 0; k < 5; ++k) b.addCell(Pt(c.rng.uni(-40, 40), c.rng.uni(-40, 40)), Cell(-1), false); }
  b = *g;
  compare(b, snap, "assign-content");
  b = *&b;  // self
  compare(b, snap, "self-assign");
  b.clear();
  compare(*g, m, "assign-aliases");
  Model gm = m;
  add(anyPos(7));
  { Model e = snap; e.cells.clear(); compare(b, e, "assign-aliases"); }
  b = a;
  compare(b, ma, "assign-content");
  vf::family("move");
  Grid d(std::move(a));
  compare(d, ma, "move-content");
  Grid e;
  e = std::move(d);
  compare(e, ma, "move-content");
  vf::family("clone");
  Grid f = g->clone();
  Model fm; fm.cells[{0, 0}] = {};
  compare(f, fm, "clone");
  compare(*g, m, "clone-source");
  c.ev("copies_compared");
  if (snap.cells.size() < (size_t)((snap.l + snap.r + 1) * (snap.u + snap.d + 1))) c.ev("copied_with_empty_cells");
}

void World::ray()
{
  vf::family("rayTrace");
  Pos sp = c.rng.chance(0.9) ? insidePos() : anyPos(14);
  Pt s = at(sp, c.rng.chance(0.25)), e;
  switch (c.rng.below(7)) {
    case 0: e = s; break;
    case 1: e = s + Pt(c.rng.uni(-1, 1), c.rng.uni(-1, 1)) * cs; break;              // shorter than a cell
    case 2: e = s + Pt(c.rng.range(-12, 12), 0) * cs; if (c.rng.chance(0.5)) e = s + Pt(0, c.rng.range(-12, 12)) * cs; break;
    case 3: { double k = (double)c.rng.range(-9, 9); e = s + Pt(k, c.rng.chance(0.5) ? k : -k) * cs; break; }
    case 4: e = s + Pt(c.rng.logmag(0, 3), c.rng.logmag(0, 3)) * cs; break;          // far outside
    default: e = at(anyPos(12)); break;
  }
  bool fromOrigin = c.rng.chance(0.15);
  if (fromOrigin) { s = Pt(0, 0); sp = {0, 0}; }
  c.trace << "ray " << s.transpose() << " -> " << e.transpose() << ' ';
  std::map<Pos, std::vector<long>> before = m.cells;
  auto res = fromOrigin ? g->rayTrace(e) : g->rayTrace(s, e);
  c.check((long)g->left() == m.l && (long)g->right() == m.r && (long)g->up() == m.u && (long)g->down() == m.d, "ray-extents", "ray changed the grid extents");
  if (!m.inside(sp)) {
    c.check(res.empty(), "ray-outside", "start outside, got", res.size());
    compare(*g, m, "ray-outside");
    c.ev("ray_start_outside");
    return;
  }
  // where are the returned cells?
  std::map<const Cell *, Pos> where;
  for (long x = -m.l; x <= m.r; ++x)
    for (long y = -m.d; y <= m.u; ++y)
      if (const Cell *p = g->getCellPtr(at({x, y}, true))) where[p] = {x, y};
  c.check(!res.empty(), "ray-start", "no cell returned");
  std::vector<Pos> path;
  std::set<Pos> seen;
  for (auto *p : res) {
    auto it = where.find(p);
    c.check(it != where.end(), "ray-foreign", "a returned cell is not in the grid");
    c.check(seen.insert(it->second).second, "ray-repeats", "cell", it->second.first, it->second.second, "twice");
    path.push_back(it->second);
  }
  c.check(path[0] == sp, "ray-start", "first cell", path[0].first, path[0].second, "want", sp.first, sp.second);
  Pt dv = (e - s) / cs;
  double L = dv.cwiseAbs().maxCoeff();
  // progress, contiguity, closeness to the segment
  auto clip = [&](const Pos &p, double &t0, double &t1) {
    t0 = 0; t1 = 1;
    for (int k = 0; k < 2; ++k) {
      double o = s(k) / cs - (k ? p.second : p.first), d = dv(k), eps = 1e-6;
      if (std::fabs(d) < 1e-12) { if (std::fabs(o) > 0.5 + eps) return false; continue; }
      double a = (-0.5 - eps - o) / d, b = (0.5 + eps - o) / d;
      if (a > b) std::swap(a, b);
      t0 = std::max(t0, a); t1 = std::min(t1, b);
    }
    return t0 <= t1 + 1e-9;
  };
  for (size_t i = 0; i < path.size(); ++i) {
    double t0, t1;
    c.check(clip(path[i], t0, t1), "ray-off-line", "cell", path[i].first, path[i].second, "is not on the segment", i, "of", path.size());
    if (i) {
      long dx = path[i].first - path[i - 1].first, dy = path[i].second - path[i - 1].second;
      c.check(std::labs(dx) <= 1 && std::labs(dy) <= 1, "ray-gap", "jump", dx, dy, "after", i);
      c.check(dx * dv(0) >= 0 && dy * dv(1) >= 0, "ray-backwards", "step", dx, dy);
    }
  }
  // nothing substantial is skipped: a cell crossed over more than half a cell of the
  // leading axis, more than two cells before the end and inside the grid, is reported
  if (L >= 2) {
    std::set<Pos> cross;
    size_t n = (size_t)std::min(40000.0, std::ceil(std::min(L, 60.0) * 20));
    double tmax = std::min(1.0, 60.0 / L);
    for (size_t i = 0; i <= n; ++i) {
      Pt p = s / cs + dv * (tmax * (double)i / (double)n);
      Pos q{(long)std::floor(p(0) + 0.5), (long)std::floor(p(1) + 0.5)};
      if (!m.inside(q)) break;
      cross.insert(q);
    }
    for (auto &q : cross) {
      double t0, t1;
      if (!clip(q, t0, t1)) continue;
      if ((t1 - t0) * L > 0.6 && t1 * L <= L - 2) {
        c.check(seen.count(q) == 1, "ray-skips", "cell", q.first, q.second, "crossed over", (t1 - t0) * L, "cells, not reported; length", L);
        c.ev("ray_cells_required");
      }
    }
  }
  // effect on the grid: cells on the path created with the default value, all else unchanged
  for (auto &p : path)
    if (!m.cells.count(p)) { m.cells[p] = {}; c.ev("ray_created"); }
  compare(*g, m, "ray-effect");
  c.check(g->validCells() == m.cells.size(), "ray-count", g->validCells(), m.cells.size());
  c.ev("rays");
  c.ev("ray_cells", path.size());
  if (L < 1) c.ev("short_rays");
  if (s == e) c.ev("zero_rays");
  if (!m.inside({(long)std::floor(e(0) / cs + 0.5), (long)std::floor(e(1) / cs + 0.5)})) c.ev("rays_leaving");
  c.sigadd((uint64_t)(path.size() * 1000 + path.back().first * 31 + path.back().second));
  if (path.size() > 2) c.nontrivial = true;
}

void run_case(Case &c)
{
  long base = Cell::live();
  {
    World w(c);
    size_t ops = c.rng.range(3, PROP == 10 || PROP == 11 ? 25 : 45);
    long span = c.rng.pick<long>({2, 4, 7, 10});
    w.checkAll();
    for (size_t i = 0; i < ops; ++i) {
      double u = c.rng.unit();
      if (u < 0.5) w.add(w.anyPos(span));
      else if (u < 0.56 && PROP != 11) w.addBorder();
      else if (u < 0.66) w.remove();
      else if (u < 0.72) w.enlarge();
      else if (u < 0.75) w.writeThrough();
      else if (u < 0.76) w.clear();
      else if (u < (PROP == 8 ? 0.95 : 0.82)) w.translate();
      else w.add(w.insidePos());
      if (c.rng.chance(PROP == 10 ? 0.15 : 0.35)) w.checkAll();
    }
    w.checkAll();
    if (PROP != 11) c.nontrivial = w.m.cells.size() > 2 || ops > 10;
    if (PROP == 7 || PROP == 10) {
      // exactly one live instance per stored cell: nothing leaked, nothing shared
      c.check(Cell::live() - base == (long)w.m.cells.size(), "instances", Cell::live() - base, "live cells for", w.m.cells.size());
    }
  }
  c.check(Cell::live() == base, "instances", "cells left after the grid is gone", Cell::live() - base);
  c.ev("histories");
}
