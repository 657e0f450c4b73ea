#pragma once
#include <pcl/point_cloud.h>
#include <sensor_msgs/LaserScan.h>
namespace pcl
{
template <typename P>
void moveFromROSMsg(sensor_msgs::PointCloud2 &m, PointCloud<P> &out)
{
  out.clear();
  out.header.frame_id = m.header.frame_id;
  for (std::size_t i = 0; i + 2 < m.xyz.size(); i += 3)
    out.push_back(P(m.xyz[i], m.xyz[i + 1], m.xyz[i + 2]));
  m.xyz.clear();
}
}
