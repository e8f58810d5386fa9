#ifndef SHIM_STD_HEADER
#define SHIM_STD_HEADER
#include <string>
#include <ros/ros.h>
namespace std_msgs
{
struct Header {
  std::uint32_t seq = 0;
  ros::Time stamp;
  std::string frame_id;
};
}
#endif
