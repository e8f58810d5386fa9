#ifndef SHIM_TFL
#define SHIM_TFL
#include <tf/tf.h>
namespace tf
{
class TransformListener
{
public:
  bool waitForTransform(const std::string &target, const std::string &source, const ros::Time &t, const ros::Duration &) const
  {
    try { tf_shim::state().lookup(target, source, t); } catch (const TransformException &) { return false; }
    return true;
  }
  bool canTransform(const std::string &target, const std::string &source, const ros::Time &t) const { return waitForTransform(target, source, t, ros::Duration()); }
  void lookupTransform(const std::string &target, const std::string &source, const ros::Time &t, StampedTransform &out) const { out = tf_shim::state().lookup(target, source, t); }
};
}
#endif
