#pragma once
#include <tf/transform_datatypes.h>
namespace tf
{
// answers from a function of (target, source, time); it throws for what is not known
struct TransformListener {
  typedef std::function<Transform(const std::string &, const std::string &, const ros::Time &)> Source;
  static Source &source()
  {
    static Source t;
    return t;
  }
  bool waitForTransform(const std::string &, const std::string &, const ros::Time &, const ros::Duration &)
  {
    return true;
  }
  void lookupTransform(const std::string &target, const std::string &source_frame, const ros::Time &t, StampedTransform &out)
  {
    out = StampedTransform(source()(target, source_frame, t), t, target, source_frame);
  }
};
}
