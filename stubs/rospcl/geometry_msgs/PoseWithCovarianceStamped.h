#pragma once
#include <geometry_msgs/Pose.h>
#include <std_msgs/Header.h>
namespace geometry_msgs
{
struct PoseWithCovariance {
  Pose pose;
  boost::array<double, 36> covariance;
  PoseWithCovariance()
  {
    covariance.fill(0);
  }
};
struct PoseWithCovarianceStamped {
  typedef boost::shared_ptr<const PoseWithCovarianceStamped> ConstPtr;
  std_msgs::Header header;
  PoseWithCovariance pose;
};
}
