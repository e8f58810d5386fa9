#ifndef SHIM_TFB
#define SHIM_TFB
#include <tf/tf.h>
namespace tf
{
class TransformBroadcaster
{
public:
  void sendTransform(const StampedTransform &t) { tf_shim::state().sent.push_back(t); }
};
}
#endif
