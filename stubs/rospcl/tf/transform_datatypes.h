#pragma once
// rigid transformations of space, as tf has them
#include <geometry_msgs/Pose.h>
#include <ros/ros.h>
#include <Eigen/Dense>
#include <Eigen/Geometry>
#include <limits>
namespace tf
{
class Transform
{
public:
  Eigen::Affine3d e;
  // tf leaves it uninitialised
  Transform()
  {
    e.matrix().setConstant(std::numeric_limits<double>::quiet_NaN());
  }
  static Transform getIdentity()
  {
    return Transform(Eigen::Affine3d(Eigen::Affine3d::Identity()));
  }
  void setIdentity()
  {
    e.setIdentity();
  }
  explicit Transform(const Eigen::Affine3d &a) : e(a)
  {
  }
  Transform inverse() const
  {
    return Transform(Eigen::Affine3d(e.inverse()));
  }
  Transform operator*(const Transform &o) const
  {
    return Transform(Eigen::Affine3d(e * o.e));
  }
};
class StampedTransform : public Transform
{
public:
  ros::Time stamp_;
  std::string frame_id_, child_frame_id_;
  StampedTransform() {}
  StampedTransform(const Transform &t, const ros::Time &s, const std::string &f, const std::string &c)
    : Transform(t), stamp_(s), frame_id_(f), child_frame_id_(c)
  {
  }
};
struct TransformException : std::runtime_error {
  using std::runtime_error::runtime_error;
};
inline void poseMsgToTF(const geometry_msgs::Pose &p, Transform &t)
{
  Eigen::Quaterniond q(p.orientation.w, p.orientation.x, p.orientation.y, p.orientation.z);
  t.e = Eigen::Translation3d(p.position.x, p.position.y, p.position.z) * q.normalized();
}
}
