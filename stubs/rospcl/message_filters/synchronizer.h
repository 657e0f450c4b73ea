#pragma once
#include <message_filters/subscriber.h>
namespace message_filters
{
template <typename Policy>
struct Synchronizer {
  typedef std::function<void(const boost::shared_ptr<const typename Policy::A> &,
                             const boost::shared_ptr<const typename Policy::B> &)>
      Fn;
  Fn callback;
  std::pair<std::string, std::string> topics;
  static Synchronizer *&last()
  {
    static Synchronizer *p = nullptr;
    return p;
  }
  ~Synchronizer()
  {
    if (last() == this)
      last() = nullptr;
  }
  explicit Synchronizer(const Policy &)
  {
  }
  template <typename X, typename Y>
  void connectInput(X &x, Y &y)
  {
    topics = std::make_pair(x.topic, y.topic);
  }
  template <typename F>
  void registerCallback(const F &f)
  {
    callback = f;
    last() = this;
  }
};
}
