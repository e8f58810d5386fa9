#ifndef SHIM_PCL_VGC
#define SHIM_PCL_VGC
#include <pcl/point_cloud.h>
namespace pcl
{
template <typename PointT> class VoxelGridCovariance  // only named, never used
{
public:
  struct Leaf {
  };
  typedef Leaf *LeafPtr;
  typedef const Leaf *LeafConstPtr;
};
}
#endif
