#ifndef SHIM_MF_APPROX
#define SHIM_MF_APPROX
namespace message_filters
{
namespace sync_policies
{
template <typename A, typename B> struct ApproximateTime {
  typedef A First;
  typedef B Second;
  explicit ApproximateTime(unsigned queue) : queue_size(queue) {}
  unsigned queue_size;
};
}
}
#endif
