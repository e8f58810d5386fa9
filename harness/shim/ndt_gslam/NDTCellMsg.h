#ifndef SHIM_NDTCELLMSG
#define SHIM_NDTCELLMSG
#include <cstdint>
#include <vector>
namespace ndt_gslam
{
struct NDTCellMsg {  // /repo/ndt_gslam/msg/NDTCellMsg.msg
  double mean_x = 0, mean_y = 0, mean_z = 0;
  std::vector<double> cov_matrix;
  double occupancy = 0;
  std::int64_t N = 0;
};
}
#endif
