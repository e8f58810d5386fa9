#ifndef SHIM_PCL_TIME
#define SHIM_PCL_TIME
namespace pcl
{
struct ScopeTime {
  ScopeTime(const char * = "") {}
};
}
#endif
