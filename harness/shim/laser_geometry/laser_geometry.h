#ifndef SHIM_LASERGEO
#define SHIM_LASERGEO
#include <cmath>
#include <sensor_msgs/LaserScan.h>
#include <sensor_msgs/PointCloud2.h>
namespace laser_geometry
{
class LaserProjection
{
public:
  // readings out of range (or not numbers) leave no point
  void projectLaser(const sensor_msgs::LaserScan &in, sensor_msgs::PointCloud2 &out)
  {
    out.header = in.header;
    out.xyz.clear();
    for (std::size_t i = 0; i < in.ranges.size(); ++i) {
      float r = in.ranges[i];
      if (!(r < in.range_max) || !(r >= in.range_min)) continue;
      double a = in.angle_min + i * (double)in.angle_increment;
      out.xyz.push_back({(float)(r * std::cos(a)), (float)(r * std::sin(a)), 0.f});
    }
  }
};
}
#endif
