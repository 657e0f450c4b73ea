#pragma once
#include <boost/array.hpp>
#include <boost/bind/bind.hpp>
#include <boost/shared_ptr.hpp>
#include <cmath>
#include <functional>
#include <iostream>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
using namespace boost::placeholders;
#define ROS_STUB_SKIP(x)        \
  do {                          \
    if (ros::logging()) {       \
      std::ostringstream ros_os; \
      ros_os << x;              \
    }                           \
  } while (0)
#define ROS_DEBUG_STREAM(x) ROS_STUB_SKIP(x)
#define ROS_INFO_STREAM(x) ROS_STUB_SKIP(x)
#define ROS_WARN_STREAM(x) ROS_STUB_SKIP(x)
#define ROS_ERROR_STREAM(x) ROS_STUB_SKIP(x)
#define ROS_INFO(...) ROS_STUB_SKIP("")
#define ROS_DEBUG(...) ROS_STUB_SKIP("")
#define ROS_ERROR(...) ROS_STUB_SKIP("")
namespace ros
{
// arguments of log lines are evaluated so that they cannot fail unnoticed
inline bool &logging()
{
  static bool on = true;
  return on;
}
class Time
{
public:
  double sec_;
  explicit Time(double s = 0) : sec_(s)
  {
  }
  double toSec() const
  {
    return sec_;
  }
  static Time now()
  {
    return Time(0);
  }
  bool operator==(const Time &o) const
  {
    return sec_ == o.sec_;
  }
};
class Duration
{
public:
  explicit Duration(double = 0)
  {
  }
};
// what the node does with the outside is written down here
struct Recorder {
  std::vector<std::pair<std::string, std::string>> published;  // topic, frame of the message
  std::vector<std::string> advertised, subscribed;
  std::vector<std::function<void(const void *)>> callbacks;  // of plain subscriptions; get a pointer to a shared pointer
  std::map<std::string, std::string> strings;
  std::map<std::string, double> numbers;
};
inline Recorder &recorder()
{
  static Recorder r;
  return r;
}
struct Publisher {
  std::string topic;
  template <typename M>
  void publish(const M &m) const
  {
    recorder().published.emplace_back(topic, frameOf(m, 0));
  }

private:
  template <typename M>
  static auto frameOf(const M &m, int) -> typename std::decay<decltype(m.header.frame_id)>::type
  {
    return m.header.frame_id;
  }
  template <typename M>
  static auto frameOf(const M &m, int) -> typename std::decay<decltype(m->header.frame_id)>::type
  {
    return m->header.frame_id;
  }
  template <typename M>
  static auto frameOf(const M &m, int) -> typename std::decay<decltype(m.markers.front().header.frame_id)>::type
  {
    return m.markers.empty() ? "" : m.markers.front().header.frame_id;
  }
  template <typename M>
  static std::string frameOf(const M &, long)
  {
    return "";
  }
};
struct Subscriber {
};
class NodeHandle
{
public:
  NodeHandle() {}
  explicit NodeHandle(const std::string &) {}
  template <typename M>
  Publisher advertise(const std::string &t, int, bool = false)
  {
    recorder().advertised.push_back(t);
    Publisher p;
    p.topic = t;
    return p;
  }
  template <typename M, typename F>
  Subscriber subscribe(const std::string &t, int, const F &f)
  {
    recorder().subscribed.push_back(t);
    std::function<void(const boost::shared_ptr<const M> &)> g = f;
    recorder().callbacks.push_back([g](const void *m) { g(*static_cast<const boost::shared_ptr<const M> *>(m)); });
    return Subscriber();
  }
  // finds the name somewhere above the namespace of the node
  bool searchParam(const std::string &n, std::string &out)
  {
    if (recorder().strings.count("/up/" + n) == 0)
      return false;
    out = "/up/" + n;
    return true;
  }
  bool getParam(const std::string &n, std::string &out)
  {
    auto it = recorder().strings.find(n);
    if (it == recorder().strings.end())
      return false;
    out = it->second;
    return true;
  }
  template <typename T>
  T param(const std::string &n, const T &def)
  {
    return get(n, def);
  }

private:
  static std::string get(const std::string &n, const std::string &def)
  {
    auto it = recorder().strings.find(n);
    return it == recorder().strings.end() ? def : it->second;
  }
  static double get(const std::string &n, double def)
  {
    auto it = recorder().numbers.find(n);
    return it == recorder().numbers.end() ? def : it->second;
  }
  static bool get(const std::string &n, bool def)
  {
    auto it = recorder().numbers.find(n);
    return it == recorder().numbers.end() ? def : it->second != 0;
  }
};
inline void init(int, char **, const std::string &)
{
}
inline void spin()
{
}
}
