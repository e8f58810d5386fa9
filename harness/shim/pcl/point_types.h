#ifndef SHIM_PCL_POINT_TYPES
#define SHIM_PCL_POINT_TYPES
#include <cmath>
#include <cstdint>
#include <ostream>
#include <Eigen/Core>
namespace pcl
{
struct alignas(16) PointXYZ {
  union {
    float data[4];
    struct {
      float x, y, z;
    };
  };
  PointXYZ() : data{0, 0, 0, 1} {}
  PointXYZ(float _x, float _y, float _z) : data{_x, _y, _z, 1} {}
  Eigen::Map<Eigen::Vector3f> getVector3fMap() { return Eigen::Map<Eigen::Vector3f>(data); }
  Eigen::Map<const Eigen::Vector3f> getVector3fMap() const { return Eigen::Map<const Eigen::Vector3f>(data); }
};
struct alignas(16) PointXYZRGB {
  union {
    float data[4];
    struct {
      float x, y, z;
    };
  };
  std::uint8_t r, g, b, a;
  PointXYZRGB() : data{0, 0, 0, 1}, r(0), g(0), b(0), a(255) {}
  PointXYZRGB(std::uint8_t _r, std::uint8_t _g, std::uint8_t _b) : data{0, 0, 0, 1}, r(_r), g(_g), b(_b), a(255) {}
};
inline std::ostream &operator<<(std::ostream &os, const PointXYZ &p)
{
  return os << "(" << p.x << "," << p.y << "," << p.z << ")";
}
template <typename PointT> inline bool isFinite(const PointT &p)
{
  return std::isfinite(p.x) && std::isfinite(p.y) && std::isfinite(p.z);
}
}
#endif
