#pragma once
#include <geometry_msgs/PoseWithCovarianceStamped.h>
namespace nav_msgs
{
struct Odometry {
  typedef boost::shared_ptr<const Odometry> ConstPtr;
  std_msgs::Header header;
  geometry_msgs::PoseWithCovariance pose;
};
}
