#pragma once
#include <pcl/point_cloud.h>
#include <Eigen/Dense>
namespace pcl
{
template <typename PointT, typename Scalar>
unsigned int compute3DCentroid(const PointCloud<PointT> &cloud, Eigen::Matrix<Scalar, 4, 1> &c)
{
  c.setZero();
  for (auto &p : cloud.points)
    c += Eigen::Matrix<Scalar, 4, 1>(p.x, p.y, p.z, 0);
  if (cloud.size())
    c /= static_cast<Scalar>(cloud.size());
  c(3) = 1;
  return static_cast<unsigned int>(cloud.size());
}
}
