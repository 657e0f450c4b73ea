#pragma once
#include <tf/transform_datatypes.h>
namespace tf
{
struct TransformBroadcaster {
  static std::vector<StampedTransform> &sent()
  {
    static std::vector<StampedTransform> s;
    return s;
  }
  void sendTransform(const StampedTransform &t)
  {
    sent().push_back(t);
  }
};
}
