#ifndef SHIM_OCC
#define SHIM_OCC
#include <cstdint>
#include <vector>
#include <geometry_msgs/Pose.h>
#include <std_msgs/Header.h>
namespace nav_msgs
{
struct MapMetaData {
  ros::Time map_load_time;
  float resolution = 0;
  std::uint32_t width = 0, height = 0;
  geometry_msgs::Pose origin;
};
struct OccupancyGrid {
  std_msgs::Header header;
  MapMetaData info;
  std::vector<std::int8_t> data;
};
}
#endif
