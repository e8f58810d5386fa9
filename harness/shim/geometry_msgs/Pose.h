#ifndef SHIM_GPOSE
#define SHIM_GPOSE
#include <geometry_msgs/Point.h>
namespace geometry_msgs
{
struct Pose {
  Point position;
  Quaternion orientation;
};
}
#endif
