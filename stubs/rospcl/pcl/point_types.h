#pragma once
#include <Eigen/Core>
#include <cstdint>
#include <vector>
#include <boost/shared_ptr.hpp>

namespace pcl
{
struct PointXYZ {
  union {
    float data[4];
    struct {
      float x, y, z;
    };
  };
  PointXYZ() : data{ 0, 0, 0, 1 }
  {
  }
  PointXYZ(float x_, float y_, float z_) : data{ x_, y_, z_, 1 }
  {
  }
};
struct PointXYZRGB {
  union {
    float data[4];
    struct {
      float x, y, z;
    };
  };
  std::uint8_t r, g, b;
  PointXYZRGB() : data{ 0, 0, 0, 1 }, r(0), g(0), b(0)
  {
  }
  PointXYZRGB(std::uint8_t r_, std::uint8_t g_, std::uint8_t b_)
    : data{ 0, 0, 0, 1 }, r(r_), g(g_), b(b_)
  {
  }
};
struct PointIndices {
  typedef boost::shared_ptr<PointIndices> Ptr;
  typedef boost::shared_ptr<const PointIndices> ConstPtr;
  std::vector<int> indices;
};
}
