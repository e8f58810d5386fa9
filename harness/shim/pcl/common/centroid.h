#ifndef SHIM_PCL_CENTROID
#define SHIM_PCL_CENTROID
#include <pcl/point_cloud.h>
#endif
