#ifndef SHIM_PCLCONV
#define SHIM_PCLCONV
#include <pcl/point_cloud.h>
#include <sensor_msgs/PointCloud2.h>
namespace pcl
{
template <typename P> void moveFromROSMsg(sensor_msgs::PointCloud2 &m, PointCloud<P> &pc)
{
  pc.points.clear();
  for (auto &x : m.xyz) pc.points.push_back(P(x[0], x[1], x[2]));
  pc.width = (std::uint32_t)pc.points.size();
  pc.height = 1;
  pc.header.frame_id = m.header.frame_id;
  pc.header.seq = m.header.seq;
  pc.header.stamp = m.header.stamp.toNSec() / 1000ull;
  m.xyz.clear();
}
}
#endif
