#ifndef VERIF_PINOCCHIO_FWD
#define VERIF_PINOCCHIO_FWD
#include <Eigen/Dense>
namespace pinocchio {}
#endif
