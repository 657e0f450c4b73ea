#pragma once
// exact nearest neighbours, nearest first; asking for more than there are gives all
#include <pcl/point_cloud.h>
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <utility>
namespace pcl
{
template <typename PointT>
class KdTreeFLANN
{
public:
  typedef typename PointCloud<PointT>::ConstPtr PointCloudConstPtr;
  typedef boost::shared_ptr<const std::vector<int>> IndicesConstPtr;
  void setInputCloud(const PointCloudConstPtr &cloud, const IndicesConstPtr & = IndicesConstPtr())
  {
    cloud_ = cloud;
    pts_.clear();
    if (cloud_)
      for (std::size_t i = 0; i < cloud_->size(); ++i)
        if (std::isfinite(cloud_->points[i].x) && std::isfinite(cloud_->points[i].y) &&
            std::isfinite(cloud_->points[i].z))
          pts_.push_back(static_cast<int>(i));
  }
  int nearestKSearch(const PointT &p, int k, std::vector<int> &idx, std::vector<float> &dist) const
  {
    std::size_t n = std::min<std::size_t>(k < 0 ? 0 : static_cast<std::size_t>(k), pts_.size());
    std::vector<std::pair<float, int>> all;
    all.reserve(pts_.size());
    for (int i : pts_) {
      const PointT &q = cloud_->points[static_cast<std::size_t>(i)];
      float dx = q.x - p.x, dy = q.y - p.y, dz = q.z - p.z;
      all.emplace_back(dx * dx + dy * dy + dz * dz, i);
    }
    std::partial_sort(all.begin(), all.begin() + static_cast<long>(n), all.end());
    idx.resize(n);
    dist.resize(n);
    for (std::size_t i = 0; i < n; ++i) {
      dist[i] = all[i].first;
      idx[i] = all[i].second;
    }
    return static_cast<int>(n);
  }

private:
  PointCloudConstPtr cloud_;
  std::vector<int> pts_;
};
}
