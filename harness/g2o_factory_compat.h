// types_g2o_mixture.cpp hands raw pointers to the factory, as g2o took them in 2014; the installed g2o takes shared_ptrs.
#ifndef VERIF_G2O_FACTORY_COMPAT_H
#define VERIF_G2O_FACTORY_COMPAT_H
#include <g2o/core/factory.h>
#include <g2o/types/slam3d/vertex_se3.h>
#include <memory>
namespace g2o { using Vector7d = Vector7; }
#define registerType(tag, creator) registerType(tag, std::shared_ptr<g2o::AbstractHyperGraphElementCreator>(creator))
#endif
