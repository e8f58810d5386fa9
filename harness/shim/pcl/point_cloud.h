#ifndef SHIM_PCL_POINT_CLOUD
#define SHIM_PCL_POINT_CLOUD
#include <cassert>
#include <cstdint>
#include <vector>
#include <memory>
#include <string>
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <boost/shared_ptr.hpp>
#include <boost/make_shared.hpp>
#include <pcl/PCLHeader.h>
#include <pcl/point_types.h>
namespace pcl
{
struct PointIndices {
  typedef boost::shared_ptr<PointIndices> Ptr;
  typedef boost::shared_ptr<const PointIndices> ConstPtr;
  PCLHeader header;
  std::vector<int> indices;
};
typedef boost::shared_ptr<std::vector<int>> IndicesPtr;
typedef boost::shared_ptr<const std::vector<int>> IndicesConstPtr;
template <typename PointT> class PointCloud
{
public:
  typedef PointT PointType;
  typedef std::vector<PointT, Eigen::aligned_allocator<PointT>> VectorType;
  typedef boost::shared_ptr<PointCloud<PointT>> Ptr;
  typedef boost::shared_ptr<const PointCloud<PointT>> ConstPtr;
  typedef typename VectorType::iterator iterator;
  typedef typename VectorType::const_iterator const_iterator;
  PCLHeader header;
  VectorType points;
  std::uint32_t width = 0, height = 0;
  bool is_dense = true;
  Eigen::Vector4f sensor_origin_ = Eigen::Vector4f::Zero();
  Eigen::Quaternionf sensor_orientation_ = Eigen::Quaternionf::Identity();
  PointCloud() {}
  PointCloud(std::uint32_t w, std::uint32_t h, const PointT &v = PointT()) : points(w * h, v), width(w), height(h) {}
  PointCloud &operator+=(const PointCloud &rhs)
  {
    if (rhs.header.stamp > header.stamp) header.stamp = rhs.header.stamp;
    points.insert(points.end(), rhs.points.begin(), rhs.points.end());
    width = (std::uint32_t)points.size();
    height = 1;
    is_dense = is_dense && rhs.is_dense;
    return *this;
  }
  const PointCloud operator+(const PointCloud &rhs) { return PointCloud(*this) += rhs; }
  iterator begin() { return points.begin(); }
  iterator end() { return points.end(); }
  const_iterator begin() const { return points.begin(); }
  const_iterator end() const { return points.end(); }
  std::size_t size() const { return points.size(); }
  bool empty() const { return points.empty(); }
  void reserve(std::size_t n) { points.reserve(n); }
  void resize(std::size_t n)
  {
    points.resize(n);
    if (width * height != n) {
      width = (std::uint32_t)n;
      height = 1;
    }
  }
  const PointT &operator[](std::size_t n) const { return points[n]; }
  PointT &operator[](std::size_t n) { return points[n]; }
  const PointT &at(std::size_t n) const { return points.at(n); }
  PointT &at(std::size_t n) { return points.at(n); }
  const PointT &front() const { return points.front(); }
  const PointT &back() const { return points.back(); }
  void push_back(const PointT &p)
  {
    points.push_back(p);
    width = (std::uint32_t)points.size();
    height = 1;
  }
  void clear()
  {
    points.clear();
    width = height = 0;
  }
  Ptr makeShared() const { return Ptr(new PointCloud<PointT>(*this)); }
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
};
}
#endif
