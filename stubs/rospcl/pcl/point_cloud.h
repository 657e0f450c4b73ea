#pragma once
#include <pcl/point_types.h>
#include <boost/shared_ptr.hpp>
#include <string>
#include <vector>
namespace pcl
{
struct PCLHeader {
  std::uint32_t seq = 0;
  std::uint64_t stamp = 0;
  std::string frame_id;
};
template <typename PointT>
class PointCloud
{
public:
  typedef PointT PointType;
  typedef std::vector<PointT> VectorType;
  typedef boost::shared_ptr<PointCloud<PointT>> Ptr;
  typedef boost::shared_ptr<const PointCloud<PointT>> ConstPtr;
  typedef typename VectorType::iterator iterator;
  typedef typename VectorType::const_iterator const_iterator;

  PCLHeader header;
  VectorType points;
  std::uint32_t width = 0, height = 0;
  bool is_dense = true;

  std::size_t size() const
  {
    return points.size();
  }
  bool empty() const
  {
    return points.empty();
  }
  void reserve(std::size_t n)
  {
    points.reserve(n);
  }
  void resize(std::size_t n)
  {
    points.resize(n);
    width = static_cast<std::uint32_t>(n);
    height = 1;
  }
  void clear()
  {
    points.clear();
    width = height = 0;
  }
  void push_back(const PointT &p)
  {
    points.push_back(p);
    width = static_cast<std::uint32_t>(points.size());
    height = 1;
  }
  const PointT &operator[](std::size_t i) const
  {
    return points[i];
  }
  PointT &operator[](std::size_t i)
  {
    return points[i];
  }
  const PointT &at(std::size_t i) const
  {
    return points.at(i);
  }
  PointT &at(std::size_t i)
  {
    return points.at(i);
  }
  iterator begin()
  {
    return points.begin();
  }
  iterator end()
  {
    return points.end();
  }
  const_iterator begin() const
  {
    return points.begin();
  }
  const_iterator end() const
  {
    return points.end();
  }
  Ptr makeShared() const
  {
    return Ptr(new PointCloud<PointT>(*this));
  }
};
}
