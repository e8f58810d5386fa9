#ifndef SHIM_PCL_TRANSFORMS
#define SHIM_PCL_TRANSFORMS
#include <pcl/point_cloud.h>
namespace pcl
{
// homogeneous transform of all points; computed in Scalar, stored as float. Safe for in == out.
template <typename PointT, typename Scalar>
void transformPointCloud(const PointCloud<PointT> &in, PointCloud<PointT> &out,
                         const Eigen::Matrix<Scalar, 4, 4> &t, bool = true)
{
  if (&in != &out) {
    out.header = in.header;
    out.is_dense = in.is_dense;
    out.points = in.points;
    out.width = in.width;
    out.height = in.height;
    out.sensor_origin_ = in.sensor_origin_;
    out.sensor_orientation_ = in.sensor_orientation_;
  }
  for (std::size_t i = 0; i < out.points.size(); ++i) {
    PointT &p = out.points[i];
    if (!out.is_dense && !isFinite(in.points[i])) continue;
    const Scalar x = p.x, y = p.y, z = p.z;
    p.x = static_cast<float>(t(0, 0) * x + t(0, 1) * y + t(0, 2) * z + t(0, 3));
    p.y = static_cast<float>(t(1, 0) * x + t(1, 1) * y + t(1, 2) * z + t(1, 3));
    p.z = static_cast<float>(t(2, 0) * x + t(2, 1) * y + t(2, 2) * z + t(2, 3));
  }
}
template <typename PointT, typename Scalar>
void transformPointCloud(const PointCloud<PointT> &in, PointCloud<PointT> &out,
                         const Eigen::Transform<Scalar, 3, Eigen::Affine> &t, bool c = true)
{
  Eigen::Matrix<Scalar, 4, 4> m = t.matrix();
  transformPointCloud<PointT, Scalar>(in, out, m, c);
}
template <typename PointT>
inline PointT transformPoint(const PointT &p, const Eigen::Affine3f &t)
{
  PointT r = p;
  Eigen::Vector3f v = t * Eigen::Vector3f(p.x, p.y, p.z);
  r.x = v(0); r.y = v(1); r.z = v(2);
  return r;
}
}
#endif
