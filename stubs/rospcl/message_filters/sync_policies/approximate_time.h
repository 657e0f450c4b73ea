#pragma once
namespace message_filters
{
namespace sync_policies
{
template <typename X, typename Y>
struct ApproximateTime {
  typedef X A;
  typedef Y B;
  explicit ApproximateTime(int)
  {
  }
};
}
}
