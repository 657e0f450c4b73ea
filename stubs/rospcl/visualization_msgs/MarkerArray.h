#pragma once
#include <geometry_msgs/Pose.h>
#include <std_msgs/ColorRGBA.h>
#include <std_msgs/Header.h>
#include <array>
namespace visualization_msgs
{
struct Marker {
  enum { ARROW = 0, LINE_LIST = 5 };
  enum { ADD = 0 };
  std_msgs::Header header;
  std::string ns;
  int id = 0, type = 0, action = 0;
  geometry_msgs::Pose pose;
  geometry_msgs::Vector3 scale;
  std_msgs::ColorRGBA color;
  std::vector<geometry_msgs::Point> points;
  std::vector<std_msgs::ColorRGBA> colors;
};
struct MarkerArray {
  std::vector<Marker> markers;
};
}
