#ifndef SHIM_MF_SYNC
#define SHIM_MF_SYNC
#include <deque>
#include <message_filters/subscriber.h>
namespace message_filters
{
// pairs the oldest messages of both inputs (the harness sends what belongs together in pairs)
template <typename Policy> class Synchronizer
{
  typedef typename Policy::First A;
  typedef typename Policy::Second B;

public:
  explicit Synchronizer(const Policy &p) : policy_(p) {}
  void connectInput(Subscriber<A> &a, Subscriber<B> &b)
  {
    a.out = [this](const boost::shared_ptr<const A> &m) { a_.push_back(m); match(); };
    b.out = [this](const boost::shared_ptr<const B> &m) { b_.push_back(m); match(); };
  }
  template <typename F> void registerCallback(F f) { f_ = f; }

private:
  Policy policy_;
  std::deque<boost::shared_ptr<const A>> a_;
  std::deque<boost::shared_ptr<const B>> b_;
  std::function<void(const boost::shared_ptr<const A> &, const boost::shared_ptr<const B> &)> f_;
  void match()
  {
    while (!a_.empty() && !b_.empty()) {
      auto a = a_.front();
      auto b = b_.front();
      a_.pop_front();
      b_.pop_front();
      if (f_) f_(a, b);
    }
    while (a_.size() > policy_.queue_size) a_.pop_front();
    while (b_.size() > policy_.queue_size) b_.pop_front();
  }
};
}
#endif
