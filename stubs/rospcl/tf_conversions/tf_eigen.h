#pragma once
#include <tf/transform_datatypes.h>
namespace tf
{
inline void transformTFToEigen(const Transform &t, Eigen::Affine3d &e)
{
  e = t.e;
}
}
