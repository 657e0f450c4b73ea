#pragma once
// the part of pcl::Registration that the package builds on
#include <pcl/common/transforms.h>
#include <pcl/point_cloud.h>
#include <omp.h>
#include <Eigen/Dense>
#include <functional>
#include <limits>
#include <string>
namespace pcl
{
template <typename PointSource, typename PointTarget>
class Registration
{
public:
  typedef Eigen::Matrix4f Matrix4;
  typedef pcl::PointCloud<PointSource> PointCloudSource;
  typedef typename PointCloudSource::Ptr PointCloudSourcePtr;
  typedef typename PointCloudSource::ConstPtr PointCloudSourceConstPtr;
  typedef pcl::PointCloud<PointTarget> PointCloudTarget;
  typedef typename PointCloudTarget::Ptr PointCloudTargetPtr;
  typedef typename PointCloudTarget::ConstPtr PointCloudTargetConstPtr;
  typedef boost::shared_ptr<std::vector<int>> IndicesPtr;

  Registration()
    : nr_iterations_(0)
    , max_iterations_(10)
    , final_transformation_(Matrix4::Identity())
    , transformation_(Matrix4::Identity())
    , previous_transformation_(Matrix4::Identity())
    , transformation_epsilon_(0.0)
    , inlier_threshold_(0.05)
    , converged_(false)
    , corr_dist_threshold_(std::sqrt(std::numeric_limits<double>::max()))
    , target_cloud_updated_(true)
    , source_cloud_updated_(true)
    , update_visualizer_(nullptr)
  {
  }
  virtual ~Registration()
  {
  }
  virtual void setInputSource(const PointCloudSourceConstPtr &cloud)
  {
    source_cloud_updated_ = true;
    input_ = cloud;
  }
  virtual void setInputTarget(const PointCloudTargetConstPtr &cloud)
  {
    if (!cloud || cloud->points.empty())
      return;  // PCL: "Invalid or empty point cloud dataset given!"
    target_ = cloud;
    target_cloud_updated_ = true;
  }
  PointCloudSourceConstPtr const getInputSource()
  {
    return input_;
  }
  PointCloudTargetConstPtr const getInputTarget()
  {
    return target_;
  }
  Matrix4 getFinalTransformation()
  {
    return final_transformation_;
  }
  void setMaximumIterations(int n)
  {
    max_iterations_ = n;
  }
  int getMaximumIterations()
  {
    return max_iterations_;
  }
  void setTransformationEpsilon(double e)
  {
    transformation_epsilon_ = e;
  }
  double getTransformationEpsilon()
  {
    return transformation_epsilon_;
  }
  bool hasConverged()
  {
    return converged_;
  }
  const std::string &getClassName() const
  {
    return reg_name_;
  }
  void align(PointCloudSource &output)
  {
    align(output, Matrix4::Identity());
  }
  void align(PointCloudSource &output, const Matrix4 &guess)
  {
    if (!target_ || !input_)
      return;  // PCL: initCompute () fails
    output.header = input_->header;
    output.points = input_->points;
    output.width = input_->width;
    output.height = input_->height;
    output.is_dense = input_->is_dense;
    converged_ = false;
    final_transformation_ = transformation_ = previous_transformation_ = Matrix4::Identity();
    computeTransformation(output, guess);
  }

protected:
  virtual void computeTransformation(PointCloudSource &output, const Matrix4 &guess) = 0;

  std::string reg_name_;
  int nr_iterations_;
  int max_iterations_;
  PointCloudSourceConstPtr input_;
  IndicesPtr indices_;
  PointCloudTargetConstPtr target_;
  Matrix4 final_transformation_;
  Matrix4 transformation_;
  Matrix4 previous_transformation_;
  double transformation_epsilon_;
  double inlier_threshold_;
  bool converged_;
  double corr_dist_threshold_;
  bool target_cloud_updated_;
  bool source_cloud_updated_;
  std::function<void(const PointCloudSource &, const std::vector<int> &, const PointCloudTarget &,
                     const std::vector<int> &)>
      update_visualizer_;
};
}
