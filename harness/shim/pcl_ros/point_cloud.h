#include <pcl/point_cloud.h>
