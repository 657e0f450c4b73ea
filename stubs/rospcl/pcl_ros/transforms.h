#pragma once
#include <pcl/common/transforms.h>
#include <tf/transform_datatypes.h>
namespace pcl_ros
{
template <typename P>
void transformPointCloud(const pcl::PointCloud<P> &in, pcl::PointCloud<P> &out, const tf::Transform &t)
{
  Eigen::Matrix4f m = t.e.matrix().cast<float>();
  pcl::transformPointCloud(in, out, m);
}
}
