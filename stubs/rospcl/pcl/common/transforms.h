#pragma once
#include <pcl/point_cloud.h>
#include <Eigen/Dense>
namespace pcl
{
template <typename PointT, typename Scalar>
void transformPointCloud(const PointCloud<PointT> &in, PointCloud<PointT> &out,
                         const Eigen::Transform<Scalar, 3, Eigen::Affine> &t)
{
  if (&in != &out) {
    out.header = in.header;
    out.is_dense = in.is_dense;
    out.width = in.width;
    out.height = in.height;
    out.points = in.points;
  }
  for (auto &p : out.points) {
    Scalar x = p.x, y = p.y, z = p.z;
    p.x = static_cast<float>(t(0, 0) * x + t(0, 1) * y + t(0, 2) * z + t(0, 3));
    p.y = static_cast<float>(t(1, 0) * x + t(1, 1) * y + t(1, 2) * z + t(1, 3));
    p.z = static_cast<float>(t(2, 0) * x + t(2, 1) * y + t(2, 2) * z + t(2, 3));
  }
}
template <typename PointT, typename Scalar>
void transformPointCloud(const PointCloud<PointT> &in, PointCloud<PointT> &out,
                         const Eigen::Matrix<Scalar, 4, 4> &t)
{
  Eigen::Transform<Scalar, 3, Eigen::Affine> a(t);
  transformPointCloud(in, out, a);
}
}
