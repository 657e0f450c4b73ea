#pragma once
// The optimiser was written for a g2o whose solvers took plain pointers.
#define BlockSolver BlockSolverOwning
#include_next <g2o/core/block_solver.h>
#undef BlockSolver
namespace g2o
{
template <typename Traits>
class BlockSolver : public BlockSolverOwning<Traits>
{
public:
  typedef typename BlockSolverOwning<Traits>::LinearSolverType LinearSolverType;
  typedef typename BlockSolverOwning<Traits>::PoseMatrixType PoseMatrixType;
  explicit BlockSolver(LinearSolverType* p) : BlockSolverOwning<Traits>(std::unique_ptr<LinearSolverType>(p))
  {
  }
};
}
