#ifndef SHIM_PCL_VIS
#define SHIM_PCL_VIS
#include <string>
#include <boost/date_time/posix_time/posix_time_types.hpp>
#include <boost/thread/thread.hpp>
#include <pcl/point_cloud.h>
namespace pcl
{
namespace visualization
{
enum { PCL_VISUALIZER_POINT_SIZE };
template <typename P> struct PointCloudColorHandlerCustom {
  PointCloudColorHandlerCustom(const typename PointCloud<P>::ConstPtr &, double, double, double) {}
};
struct PCLVisualizer {
  PCLVisualizer(const std::string &) {}
  void setBackgroundColor(double, double, double) {}
  template <typename P> bool addPointCloud(const typename PointCloud<P>::ConstPtr &, const PointCloudColorHandlerCustom<P> &, const std::string &) { return true; }
  bool setPointCloudRenderingProperties(int, double, const std::string &) { return true; }
  void addCoordinateSystem(double, const std::string &) {}
  bool wasStopped() const { return true; }
  void spinOnce(int) {}
  void close() {}
};
}
}
#endif
