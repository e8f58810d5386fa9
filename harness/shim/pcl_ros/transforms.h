#ifndef SHIM_PCLROS_TR
#define SHIM_PCLROS_TR
#include <pcl/common/transforms.h>
#include <pcl/point_cloud.h>
#include <tf/tf.h>
namespace pcl_ros
{
template <typename P> void transformPointCloud(const pcl::PointCloud<P> &in, pcl::PointCloud<P> &out, const tf::Transform &t)
{
  pcl::transformPointCloud<P, float>(in, out, Eigen::Matrix4f(t.m.cast<float>()));
}
}
#endif
