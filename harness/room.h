// A simulated room and what a laser sees of it. Needs V2, V3, M3, H() and common.h.
#ifndef VERIF_ROOM_H
#define VERIF_ROOM_H
typedef pcl::PointXYZ P3;
typedef pcl::PointCloud<P3> Cloud;
static V2 mul(const M3 &m, const V2 &p) { V3 r = m * V3(p(0), p(1), 1); return V2(r(0), r(1)); }
// a room of walls, seen from a place inside
struct Room {
  std::vector<std::pair<V2, V2>> walls;
  // a room whose middle is free, with furniture that hides what is behind it
  Room(Rng &r, double free)
  {
    *this = Room(r);
    walls.resize(outline);
    for (int i = (int)r.range(2, 5); i > 0; --i) {
      double a = r.uni(0, 6.28), t = r.uni(0, 6.28), l = r.uni(0.5, 1.5);
      V2 m = r.uni(free + 0.9, free + 1.6) * V2(std::cos(a), std::sin(a)), d = 0.5 * l * V2(std::cos(t), std::sin(t));
      walls.push_back({m - d, m + d});
    }
  }
  // a wide room around a pillar nobody sees into
  static Room around(Rng &r, double half)
  {
    Room room(r);
    room.walls.resize(room.outline);
    for (auto &w : room.walls) { w.first *= 1.5; w.second *= 1.5; }
    double t = r.uni(0, 6.28);
    V2 x(half * std::cos(t), half * std::sin(t)), y(-x(1), x(0));
    V2 c[4] = {x + y, y - x, -x - y, x - y};
    for (int i = 0; i < 4; ++i) room.walls.push_back({c[i], c[(i + 1) % 4]});
    return room;
  }
  size_t outline = 0;
  explicit Room(Rng &r)
  {
    // an irregular outline around the centre and some pieces of furniture
    int n = (int)r.range(5, 9);
    std::vector<V2> c;
    double off = r.uni(0, 6.28);
    for (int i = 0; i < n; ++i) {
      double a = off + (i + r.uni(-0.3, 0.3)) * 6.283185307 / n, d = r.uni(3, 7);
      c.push_back(V2(d * std::cos(a), d * std::sin(a)));
    }
    for (int i = 0; i < n; ++i) walls.push_back({c[i], c[(i + 1) % n]});
    outline = walls.size();
    for (int i = (int)r.range(1, 4); i > 0; --i) {
      V2 a(r.uni(-3, 3), r.uni(-3, 3));
      double t = r.uni(0, 6.28), l = r.uni(0.5, 2);
      walls.push_back({a, a + l * V2(std::cos(t), std::sin(t))});
      walls.push_back({a, a + 0.7 * l * V2(-std::sin(t), std::cos(t))});
    }
  }
  // the first wall from p towards q (a fraction of the way), or 2
  double blocked(const V2 &p, const V2 &q) const
  {
    double best = 2;
    V2 d = q - p;
    for (auto &w : walls) {
      V2 e = w.second - w.first, f = w.first - p;
      double det = d(0) * e(1) - d(1) * e(0);
      if (std::fabs(det) < 1e-12) continue;
      double t = (f(0) * e(1) - f(1) * e(0)) / det, u = (f(0) * d(1) - f(1) * d(0)) / det;
      if (t > 1e-9 && u >= 0 && u <= 1) best = std::min(best, t);
    }
    return best;
  }
  double distance(const V2 &p) const
  {
    double best = 1e9;
    for (auto &w : walls) {
      V2 e = w.second - w.first;
      double t = std::max(0.0, std::min(1.0, e.dot(p - w.first) / e.squaredNorm()));
      best = std::min(best, (w.first + t * e - p).norm());
    }
    return best;
  }
  // what a laser with so many beams sees, in the frame of `at`
  Cloud scan(const V3 &at, int beams, double noise, Rng &r) const
  {
    Cloud pc;
    for (int i = 0; i < beams; ++i) {
      double b = 2 * M_PI * i / beams;
      V2 d(std::cos(at(2) + b), std::sin(at(2) + b));
      double t = blocked(at.head<2>(), V2(at.head<2>() + 100 * d)) * 100;
      if (t > 50) continue;
      t += noise * r.gauss();
      pc.push_back(P3(t * std::cos(b), t * std::sin(b), 0));
    }
    return pc;
  }
  // points every `step` metres along the walls, in the frame of `at`
  Cloud see(const V3 &at, double step, double noise, Rng &r) const
  {
    M3 inv = H(at).inverse();
    Cloud pc;
    for (auto &w : walls) {
      double l = (w.second - w.first).norm();
      V2 d = (w.second - w.first) / l;
      for (double s = r.uni(0, step); s < l; s += step) {
        V2 p = mul(inv, V2(w.first + s * d + noise * V2(r.gauss(), r.gauss())));
        pc.push_back(P3(p(0), p(1), 0));
      }
    }
    return pc;
  }
};
#endif
