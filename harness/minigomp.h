// An OpenMP runtime of plain threads for builds with the thread sanitizer, which cannot see the synchronisation
// inside libgomp. Teams start in random order with random delays; the orders in which they finish are counted.
#ifndef VERIF_MINIGOMP_H
#define VERIF_MINIGOMP_H
#ifdef __SANITIZE_THREAD__
#include <condition_variable>
#include <mutex>
#include <set>
#include <thread>
#include <unistd.h>
#include <vector>
namespace minigomp
{
struct Team {
  unsigned n, waiting = 0, round = 0;
  std::mutex m;
  std::condition_variable cv;
};
inline thread_local int id = 0;
inline thread_local Team *team = nullptr;
inline std::mutex order_m;
inline std::vector<int> order;
inline std::set<std::vector<int>> orders;
inline unsigned long regions = 0, rnd = 88172645463325252ull;
inline unsigned next()
{
  std::lock_guard<std::mutex> l(order_m);
  rnd ^= rnd << 13; rnd ^= rnd >> 7; rnd ^= rnd << 17;
  return (unsigned)(rnd >> 20);
}
}
extern "C" {
void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned)
{
  using namespace minigomp;
  if (n == 0) n = 4;
  Team t;
  t.n = n;
  { std::lock_guard<std::mutex> l(order_m); order.clear(); }
  auto go = [&](int i) {
    int oid = id; Team *ot = team;
    id = i; team = &t;
    unsigned r = next();
    if (r % 3) usleep(r % 150);
    fn(data);
    id = oid; team = ot;
    std::lock_guard<std::mutex> l(order_m);
    order.push_back(i);
  };
  std::vector<std::thread> ts;
  for (unsigned i = 1; i < n; ++i) ts.emplace_back(go, (int)i);
  go(0);
  for (auto &x : ts) x.join();
  std::lock_guard<std::mutex> l(order_m);
  orders.insert(order);
  ++regions;
}
void GOMP_barrier()
{
  using namespace minigomp;
  Team *t = team;
  if (!t) return;
  std::unique_lock<std::mutex> l(t->m);
  unsigned r = t->round;
  if (++t->waiting == t->n) { t->waiting = 0; ++t->round; t->cv.notify_all(); }
  else t->cv.wait(l, [&] { return t->round != r; });
}
int omp_get_thread_num() noexcept { return minigomp::id; }
int omp_get_num_threads() noexcept { return minigomp::team ? (int)minigomp::team->n : 1; }
}
#endif
#endif
