#pragma once
#include <sensor_msgs/LaserScan.h>
namespace laser_geometry
{
// ranges outside of the limits give no point
struct LaserProjection {
  void projectLaser(const sensor_msgs::LaserScan &s, sensor_msgs::PointCloud2 &out)
  {
    out.header = s.header;
    out.xyz.clear();
    for (std::size_t i = 0; i < s.ranges.size(); ++i) {
      float r = s.ranges[i], a = s.angle_min + static_cast<float>(i) * s.angle_increment;
      if (!(r >= s.range_min && r < s.range_max))
        continue;
      out.xyz.push_back(r * std::cos(a));
      out.xyz.push_back(r * std::sin(a));
      out.xyz.push_back(0);
    }
  }
};
}
