// slam2d.h is written against the g2o of 2014-2016, where block solvers and algorithms took raw
// pointers. The installed g2o takes unique_ptrs. This header gives slam2d.h classes with the old
// constructors which build the real g2o objects, so that Slam2D's own code runs unchanged on the
// real optimizer. (The old API handed ownership over while Slam2D keeps unique_ptrs to the same
// objects; that double ownership is outside what can be observed here, see DESIGN.md.)
#ifndef VERIF_G2O_COMPAT_H
#define VERIF_G2O_COMPAT_H
#include <g2o/core/block_solver.h>
#include <g2o/core/estimate_propagator.h>
#include <g2o/core/factory.h>
#include <g2o/core/optimization_algorithm_gauss_newton.h>
#include <g2o/core/sparse_optimizer.h>
#include <g2o/core/sparse_optimizer_terminate_action.h>
#include <g2o/solvers/csparse/linear_solver_csparse.h>
#include <g2o/stuff/macros.h>
#include <g2o/types/slam2d/edge_se2.h>
#include <g2o/types/slam2d/vertex_se2.h>
#include <g2o/types/slam3d/edge_se3.h>
#include <g2o/types/slam3d/vertex_se3.h>
namespace g2o
{
using Vector7d = Vector7;
template <typename M> struct VerifLinearSolver {
  bool block_ordering = true;
  void setBlockOrdering(bool b) { block_ordering = b; }
};
template <typename Traits> struct VerifBlockSolver {
  typedef typename BlockSolver<Traits>::PoseMatrixType PoseMatrixType;
  VerifLinearSolver<PoseMatrixType> *linear;
  explicit VerifBlockSolver(VerifLinearSolver<PoseMatrixType> *l) : linear(l) {}
};
struct VerifGaussNewton {
  std::function<OptimizationAlgorithm *()> make;
  template <typename Traits> explicit VerifGaussNewton(VerifBlockSolver<Traits> *b)
  {
    make = [b]() -> OptimizationAlgorithm * {
      typedef typename BlockSolver<Traits>::PoseMatrixType M;
      auto lin = std::make_unique<LinearSolverCSparse<M>>();
      lin->setBlockOrdering(b->linear->block_ordering);
      return new OptimizationAlgorithmGaussNewton(std::make_unique<BlockSolver<Traits>>(std::move(lin)));
    };
  }
};
struct VerifSparseOptimizer : public SparseOptimizer {
  using SparseOptimizer::setAlgorithm;
  void setAlgorithm(VerifGaussNewton *gn) { SparseOptimizer::setAlgorithm(gn->make()); }
};
}
#define LinearSolverCSparse VerifLinearSolver
#define BlockSolver VerifBlockSolver
#define OptimizationAlgorithmGaussNewton VerifGaussNewton
#define SparseOptimizer VerifSparseOptimizer
#include <ndt_gslam/slam_optimizer/slam2d.h>
#undef LinearSolverCSparse
#undef BlockSolver
#undef OptimizationAlgorithmGaussNewton
#undef SparseOptimizer
#endif
