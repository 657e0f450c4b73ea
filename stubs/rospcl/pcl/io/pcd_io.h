#pragma once
// nothing is written: the names of the files are only remembered
#include <pcl/point_cloud.h>
#include <string>
namespace pcl
{
namespace io
{
inline std::vector<std::string> &savedFiles()
{
  static std::vector<std::string> f;
  return f;
}
template <typename PointT>
int savePCDFile(const std::string &name, const PointCloud<PointT> &)
{
  if (savedFiles().size() < 1000)
    savedFiles().push_back(name);
  return 0;
}
}
}
