#pragma once
#include <std_msgs/Header.h>
namespace sensor_msgs
{
struct LaserScan {
  typedef boost::shared_ptr<const LaserScan> ConstPtr;
  std_msgs::Header header;
  float angle_min = 0, angle_increment = 0, range_min = 0, range_max = 100;
  std::vector<float> ranges;
};
struct PointCloud2 {
  std_msgs::Header header;
  std::vector<float> xyz;
};
}
