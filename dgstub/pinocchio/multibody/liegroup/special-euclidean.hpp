// Stand-in for pinocchio's SE(3) Lie group: q = (translation, quaternion xyzw).
#ifndef VERIF_PINOCCHIO_SE3
#define VERIF_PINOCCHIO_SE3
#include <Eigen/Dense>
namespace pinocchio {
template <int Dim, class Scalar> struct SpecialEuclideanOperationTpl {
  template <class Q, class V, class O> void integrate(const Eigen::MatrixBase<Q>& q, const Eigen::MatrixBase<V>& vel, const Eigen::MatrixBase<O>& out_) const {
    Eigen::MatrixBase<O>& out = const_cast<Eigen::MatrixBase<O>&>(out_);
    Eigen::Vector3d v = vel.template head<3>(), w = vel.template tail<3>();
    double t2 = w.squaredNorm(), t = std::sqrt(t2), a, b, c;
    if (t < 1e-4) { a = 1 - t2 / 6; b = 0.5 - t2 / 24; c = 1. / 6 - t2 / 120; }
    else { a = std::sin(t) / t; b = (1 - std::cos(t)) / t2; c = (t - std::sin(t)) / (t2 * t); }
    Eigen::Matrix3d W; W << 0, -w(2), w(1), w(2), 0, -w(0), -w(1), w(0), 0;
    Eigen::Matrix3d R = Eigen::Matrix3d::Identity() + a * W + b * W * W, V3 = Eigen::Matrix3d::Identity() + b * W + c * W * W;
    Eigen::Quaterniond q0(q[6], q[3], q[4], q[5]);
    Eigen::Vector3d p = Eigen::Vector3d(q[0], q[1], q[2]) + q0.toRotationMatrix() * (V3 * v);
    Eigen::Quaterniond q1 = q0 * Eigen::Quaterniond(R); q1.normalize();
    out[0] = p[0]; out[1] = p[1]; out[2] = p[2]; out[3] = q1.x(); out[4] = q1.y(); out[5] = q1.z(); out[6] = q1.w();
  }
};
}
#endif
