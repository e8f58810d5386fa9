#ifndef SHIM_PCL_HEADER
#define SHIM_PCL_HEADER
#include <cstdint>
#include <string>
namespace pcl
{
struct PCLHeader {
  std::uint32_t seq = 0;
  std::uint64_t stamp = 0;
  std::string frame_id;
};
}
#endif
