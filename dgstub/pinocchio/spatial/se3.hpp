// Stand-in for pinocchio's spatial algebra: placements, forces and motions as (linear, angular).
#ifndef DGSTUB_PINOCCHIO_SPATIAL
#define DGSTUB_PINOCCHIO_SPATIAL
#include <Eigen/Core>
#include <Eigen/Geometry>
namespace pinocchio {
struct Spatial {
  Eigen::Matrix<double, 6, 1> v;
  template <class D> explicit Spatial(const Eigen::MatrixBase<D> &x) { eigen_assert(x.size() == 6); v = x; }
  const Eigen::Matrix<double, 6, 1> &toVector() const { return v; }
};
struct Force : Spatial { template <class D> explicit Force(const Eigen::MatrixBase<D> &x) : Spatial(x) {} };
struct Motion : Spatial { template <class D> explicit Motion(const Eigen::MatrixBase<D> &x) : Spatial(x) {} };
struct SE3 {
  Eigen::Matrix3d R; Eigen::Vector3d p;
  explicit SE3(const Eigen::Matrix4d &m) : R(m.topLeftCorner<3, 3>()), p(m.topRightCorner<3, 1>()) {}
  Force act(const Force &f) const { Eigen::Matrix<double, 6, 1> r; r.head<3>() = R * f.v.head<3>(); r.tail<3>() = R * f.v.tail<3>() + p.cross(Eigen::Vector3d(r.head<3>())); return Force(r); }
  Motion actInv(const Motion &m) const { Eigen::Matrix<double, 6, 1> r; r.head<3>() = R.transpose() * (m.v.head<3>() - p.cross(Eigen::Vector3d(m.v.tail<3>()))); r.tail<3>() = R.transpose() * m.v.tail<3>(); return Motion(r); }
};
}  // namespace pinocchio
#endif
