#pragma once
#include <pcl/point_cloud.h>
#include <string>
namespace boost
{
namespace posix_time
{
struct microseconds {
  explicit microseconds(long) {}
};
}
namespace this_thread
{
template <typename T>
void sleep(const T &)
{
}
}
}
namespace pcl
{
namespace visualization
{
enum { PCL_VISUALIZER_POINT_SIZE };
template <typename P>
struct PointCloudColorHandlerCustom {
  template <typename C>
  PointCloudColorHandlerCustom(const C &, double, double, double)
  {
  }
};
struct PCLVisualizer {
  explicit PCLVisualizer(const std::string &) {}
  void setBackgroundColor(double, double, double) {}
  template <typename P, typename C, typename H>
  void addPointCloud(const C &, const H &, const std::string &)
  {
  }
  void setPointCloudRenderingProperties(int, double, const std::string &) {}
  void addCoordinateSystem(double, const std::string &) {}
  bool wasStopped()
  {
    return true;
  }
  void spinOnce(int) {}
  void close() {}
};
}
}
