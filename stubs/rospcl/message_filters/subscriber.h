#pragma once
#include <ros/ros.h>
namespace message_filters
{
template <typename M>
struct Subscriber {
  std::string topic;
  void subscribe(ros::NodeHandle &, const std::string &t, int)
  {
    topic = t;
    ros::recorder().subscribed.push_back(t);
  }
};
}
