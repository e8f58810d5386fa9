#ifndef SHIM_TFEIGEN
#define SHIM_TFEIGEN
#include <tf/tf.h>
namespace tf
{
inline void transformTFToEigen(const Transform &t, Eigen::Affine3d &e) { e.matrix() = t.m; }
inline void transformEigenToTF(const Eigen::Affine3d &e, Transform &t) { t.m = e.matrix(); }
}
#endif
