#pragma once
#include <string>
namespace pcl
{
class ScopeTime
{
public:
  ScopeTime(const char *) {}
};
}
