#ifndef SHIM_PCL_KDTREE
#define SHIM_PCL_KDTREE
#include <algorithm>
#include <pcl/point_cloud.h>
namespace pcl
{
// Exact k-NN by exhaustive search (the FLANN index PCL uses by default is exact, too).
// Like PCL's: invalid points are left out, results are sorted by distance, distances are squared,
// k is cut to the number of points. An empty tree answers 0.
template <typename PointT> class KdTreeFLANN
{
public:
  typedef typename PointCloud<PointT>::ConstPtr PointCloudConstPtr;
  typedef boost::shared_ptr<KdTreeFLANN<PointT>> Ptr;
  void setInputCloud(const PointCloudConstPtr &cloud, const IndicesConstPtr &indices = IndicesConstPtr())
  {
    auto data = boost::make_shared<std::vector<std::pair<int, Eigen::Vector3f>>>();
    if (cloud) {
      auto add = [&](int i) {
        const PointT &p = (*cloud)[i];
        if (isFinite(p)) data->push_back({i, Eigen::Vector3f(p.x, p.y, p.z)});
      };
      if (indices)
        for (int i : *indices) add(i);
      else
        for (std::size_t i = 0; i < cloud->size(); ++i) add((int)i);
    }
    input_ = cloud;
    data_ = data;
  }
  PointCloudConstPtr getInputCloud() const { return input_; }
  int nearestKSearch(const PointT &pt, int k, std::vector<int> &idx, std::vector<float> &dist) const
  {
    assert(isFinite(pt) && "Invalid (NaN, Inf) point coordinates given to nearestKSearch!");
    idx.clear();
    dist.clear();
    if (!data_ || k <= 0) return 0;
    std::vector<std::pair<float, int>> all;
    all.reserve(data_->size());
    const Eigen::Vector3f q(pt.x, pt.y, pt.z);
    for (auto &p : *data_) all.push_back({(p.second - q).squaredNorm(), p.first});
    const std::size_t n = std::min<std::size_t>((std::size_t)k, all.size());
    std::partial_sort(all.begin(), all.begin() + n, all.end());
    for (std::size_t i = 0; i < n; ++i) {
      idx.push_back(all[i].second);
      dist.push_back(all[i].first);
    }
    return (int)n;
  }
  int nearestKSearch(int i, int k, std::vector<int> &idx, std::vector<float> &dist) const
  {
    return nearestKSearch((*input_)[i], k, idx, dist);
  }

private:
  PointCloudConstPtr input_;
  boost::shared_ptr<std::vector<std::pair<int, Eigen::Vector3f>>> data_;
};
}
#endif
