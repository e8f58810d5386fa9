#ifndef SHIM_PC2
#define SHIM_PC2
#include <array>
#include <vector>
#include <boost/shared_ptr.hpp>
#include <std_msgs/Header.h>
namespace sensor_msgs
{
// the fields x, y, z only
struct PointCloud2 {
  std_msgs::Header header;
  std::vector<std::array<float, 3>> xyz;
};
}
#endif
