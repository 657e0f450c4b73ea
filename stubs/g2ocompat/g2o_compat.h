#pragma once
// names g2o had in 2016 and the installed one gave up
#ifdef __cplusplus
#include <g2o/core/eigen_types.h>
namespace g2o
{
typedef Vector7 Vector7d;
}
#endif
