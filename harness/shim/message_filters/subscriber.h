#ifndef SHIM_MF_SUB
#define SHIM_MF_SUB
#include <ros/node.h>
namespace message_filters
{
template <typename M> class Subscriber
{
public:
  void subscribe(ros::NodeHandle &nh, const std::string &topic, std::uint32_t n)
  {
    sub_ = nh.subscribe<M>(topic, n, [this](const boost::shared_ptr<const M> &m) { if (out) out(m); });
  }
  std::function<void(const boost::shared_ptr<const M> &)> out;

private:
  ros::Subscriber sub_;
};
}
#endif
