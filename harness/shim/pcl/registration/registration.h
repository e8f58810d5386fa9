#ifndef SHIM_PCL_REGISTRATION
#define SHIM_PCL_REGISTRATION
#include <functional>
#include <limits>
#include <string>
#include <vector>
#include <omp.h>  // PCL brings it in through FLANN
#include <pcl/common/transforms.h>
#include <pcl/kdtree/kdtree_flann.h>
namespace pcl
{
template <typename PointSource, typename PointTarget, typename Scalar = float> class Registration
{
public:
  typedef Eigen::Matrix<Scalar, 4, 4> Matrix4;
  typedef boost::shared_ptr<Registration<PointSource, PointTarget, Scalar>> Ptr;
  typedef boost::shared_ptr<const Registration<PointSource, PointTarget, Scalar>> ConstPtr;
  typedef PointCloud<PointSource> PointCloudSource;
  typedef typename PointCloudSource::Ptr PointCloudSourcePtr;
  typedef typename PointCloudSource::ConstPtr PointCloudSourceConstPtr;
  typedef PointCloud<PointTarget> PointCloudTarget;
  typedef typename PointCloudTarget::Ptr PointCloudTargetPtr;
  typedef typename PointCloudTarget::ConstPtr PointCloudTargetConstPtr;
  Registration() {}
  virtual ~Registration() {}
  virtual void setInputSource(const PointCloudSourceConstPtr &cloud)
  {
    if (cloud->points.empty()) return;  // PCL logs an error and ignores it
    source_cloud_updated_ = true;
    input_ = cloud;
  }
  PointCloudSourceConstPtr const getInputSource() { return input_; }
  virtual void setInputTarget(const PointCloudTargetConstPtr &cloud)
  {
    if (cloud->points.empty()) return;
    target_ = cloud;
    target_cloud_updated_ = true;
  }
  PointCloudTargetConstPtr const getInputTarget() { return target_; }
  Matrix4 getFinalTransformation() { return final_transformation_; }
  Matrix4 getLastIncrementalTransformation() { return transformation_; }
  void setMaximumIterations(int n) { max_iterations_ = n; }
  int getMaximumIterations() { return max_iterations_; }
  void setTransformationEpsilon(double e) { transformation_epsilon_ = e; }
  double getTransformationEpsilon() { return transformation_epsilon_; }
  void setMaxCorrespondenceDistance(double d) { corr_dist_threshold_ = d; }
  bool hasConverged() { return converged_; }
  const std::string &getClassName() const { return reg_name_; }
  void align(PointCloudSource &output) { align(output, Matrix4::Identity()); }
  void align(PointCloudSource &output, const Matrix4 &guess)
  {
    if (!target_ || !input_) return;  // initCompute()
    target_cloud_updated_ = source_cloud_updated_ = false;
    if (!indices_ || indices_->size() != input_->size()) {
      indices_.reset(new std::vector<int>(input_->size()));
      for (std::size_t i = 0; i < indices_->size(); ++i) (*indices_)[i] = (int)i;
    }
    output.points.resize(indices_->size());
    output.header = input_->header;
    output.width = (std::uint32_t)input_->size();
    output.height = 1;
    output.is_dense = input_->is_dense;
    for (std::size_t i = 0; i < indices_->size(); ++i) output.points[i] = input_->points[(*indices_)[i]];
    converged_ = false;
    final_transformation_ = transformation_ = previous_transformation_ = Matrix4::Identity();
    for (std::size_t i = 0; i < indices_->size(); ++i) output.points[i].data[3] = 1.0;
    computeTransformation(output, guess);
  }

protected:
  std::string reg_name_;
  PointCloudSourceConstPtr input_;
  IndicesPtr indices_;
  int nr_iterations_ = 0;
  int max_iterations_ = 10;
  int ransac_iterations_ = 0;
  PointCloudTargetConstPtr target_;
  Matrix4 final_transformation_ = Matrix4::Identity();
  Matrix4 transformation_ = Matrix4::Identity();
  Matrix4 previous_transformation_ = Matrix4::Identity();
  double transformation_epsilon_ = 0.0;
  double euclidean_fitness_epsilon_ = -std::numeric_limits<double>::max();
  double corr_dist_threshold_ = std::sqrt(std::numeric_limits<double>::max());
  double inlier_threshold_ = 0.05;
  bool converged_ = false;
  std::function<void(const PointCloudSource &, const std::vector<int> &, const PointCloudTarget &,
                     const std::vector<int> &)> update_visualizer_;
  bool target_cloud_updated_ = true, source_cloud_updated_ = true;
  virtual void computeTransformation(PointCloudSource &output, const Matrix4 &guess) = 0;

public:
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
};
}
#endif
