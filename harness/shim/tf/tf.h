#ifndef SHIM_TF
#define SHIM_TF
#include <functional>
#include <limits>
#include <stdexcept>
#include <string>
#include <vector>
#include <Eigen/Geometry>
#include <geometry_msgs/Pose.h>
#include <ros/ros.h>
namespace tf
{
struct TransformException : std::runtime_error {
  explicit TransformException(const std::string &s) : std::runtime_error(s) {}
};
// A default constructed tf::Transform is not initialised; here that shows as NaN.
class Transform
{
public:
  Eigen::Matrix4d m;
  Transform() { m.setConstant(std::numeric_limits<double>::quiet_NaN()); }
  explicit Transform(const Eigen::Matrix4d &x) : m(x) {}
  static const Transform &getIdentity() { static const Transform t(Eigen::Matrix4d(Eigen::Matrix4d::Identity())); return t; }
  void setIdentity() { m.setIdentity(); }
  Transform inverse() const
  {
    Eigen::Matrix4d r = Eigen::Matrix4d::Identity();
    r.topLeftCorner<3, 3>() = m.topLeftCorner<3, 3>().transpose();
    r.topRightCorner<3, 1>() = -r.topLeftCorner<3, 3>() * m.topRightCorner<3, 1>();
    return Transform(r);
  }
  Transform inverseTimes(const Transform &o) const { return inverse() * o; }
  Transform operator*(const Transform &o) const { return Transform(Eigen::Matrix4d(m * o.m)); }
  Transform &operator*=(const Transform &o) { m = m * o.m; return *this; }
};
class StampedTransform : public Transform
{
public:
  ros::Time stamp_;
  std::string frame_id_, child_frame_id_;
  StampedTransform() {}
  StampedTransform(const Transform &t, const ros::Time &s, const std::string &f, const std::string &c) : Transform(t), stamp_(s), frame_id_(f), child_frame_id_(c) {}
  void setData(const Transform &t) { m = t.m; }
};
inline void poseMsgToTF(const geometry_msgs::Pose &p, Transform &t)
{
  Eigen::Quaterniond q(p.orientation.w, p.orientation.x, p.orientation.y, p.orientation.z);
  t.m.setIdentity();
  t.m.topLeftCorner<3, 3>() = q.normalized().toRotationMatrix();
  t.m.topRightCorner<3, 1>() = Eigen::Vector3d(p.position.x, p.position.y, p.position.z);
}
}
namespace tf_shim
{
struct State {
  std::function<tf::StampedTransform(const std::string &, const std::string &, const ros::Time &)> lookup;  // throws TransformException
  std::vector<tf::StampedTransform> sent;
  void reset() { *this = State(); }
};
inline State &state() { static State s; return s; }
}
#endif
