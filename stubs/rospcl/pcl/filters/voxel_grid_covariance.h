#pragma once
#include <pcl/point_cloud.h>
namespace pcl
{
template <typename PointT>
class VoxelGridCovariance
{
public:
  struct Leaf {
  };
  typedef const Leaf *LeafConstPtr;
};
}
