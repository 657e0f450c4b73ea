#pragma once
// see block_solver.h
#include_next <g2o/core/optimization_algorithm_gauss_newton.h>
namespace g2o
{
class OptimizationAlgorithmGaussNewtonPlain : public OptimizationAlgorithmGaussNewton
{
public:
  explicit OptimizationAlgorithmGaussNewtonPlain(Solver* s) : OptimizationAlgorithmGaussNewton(std::unique_ptr<Solver>(s))
  {
  }
};
}
#define OptimizationAlgorithmGaussNewton OptimizationAlgorithmGaussNewtonPlain
