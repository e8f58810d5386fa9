#ifndef SHIM_PCL_PCD_IO
#define SHIM_PCL_PCD_IO
#include <string>
#include <pcl/point_cloud.h>
namespace pcl
{
namespace io
{
// recorded, never written
inline unsigned long &savedFiles() { static unsigned long n = 0; return n; }
template <typename PointT> int savePCDFile(const std::string &, const PointCloud<PointT> &, bool = false)
{
  ++savedFiles();
  return 0;
}
}
}
#endif
