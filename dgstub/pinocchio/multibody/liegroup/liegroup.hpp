// Stand-in for the two Lie groups of pinocchio that sot-core uses (the library is not installed here).
#ifndef DGSTUB_PINOCCHIO_LIEGROUP
#define DGSTUB_PINOCCHIO_LIEGROUP
#include <Eigen/Dense>
#include <cmath>
namespace pinocchio {
enum ArgumentPosition { ARG0 = 0, ARG1 = 1 };
namespace stub {
typedef Eigen::Vector3d V3; typedef Eigen::Matrix3d M3; typedef Eigen::Matrix<double, 6, 1> V6; typedef Eigen::Matrix<double, 6, 6> M6;
inline M3 skew(const V3& w) { M3 m; m << 0, -w(2), w(1), w(2), 0, -w(0), -w(1), w(0), 0; return m; }
inline V3 log3(Eigen::Quaterniond q) {
  q.normalize(); if (q.w() < 0) q.coeffs() *= -1;
  double n = q.vec().norm(); return n < 1e-12 ? V3(2 * q.vec()) : V3(q.vec() * (2 * std::atan2(n, q.w()) / n));
}
template <int N> Eigen::Matrix<double, N, N> rightJacobian(const Eigen::Matrix<double, N, N>& ad) {   // sum (-ad)^k/(k+1)!
  Eigen::Matrix<double, N, N> s, t; s.setIdentity(); t.setIdentity();
  for (int k = 1; k < 60; ++k) { t = -t * ad / (k + 1); s += t; }
  return s;
}
inline M6 ad6(const V6& x) { M6 m; m.setZero(); m.topLeftCorner<3, 3>() = m.bottomRightCorner<3, 3>() = skew(x.tail<3>()); m.topRightCorner<3, 3>() = skew(x.head<3>()); return m; }
struct SE3 { M3 R; V3 t; };
template <class Q> SE3 pose(const Q& q) { SE3 m; m.R = Eigen::Quaterniond(q(6), q(3), q(4), q(5)).toRotationMatrix(); m.t = q.template head<3>(); return m; }
inline V6 log6(const SE3& m) {
  V3 w = log3(Eigen::Quaterniond(m.R)); M3 left = rightJacobian<3>(M3(-skew(w)));   // left Jacobian of SO(3)
  V6 r; r.head<3>() = left.inverse() * m.t; r.tail<3>() = w; return r;
}
}  // namespace stub
template <int N, class S, int O = 0> struct VectorSpaceOperationTpl {
  enum { NQ = N, NV = N };
  template <class A, class B, class C> void difference(const A& a, const B& b, C& d) const { d = b - a; }
  template <ArgumentPosition P, class A, class B, class C> void dDifference(const A&, const B&, C& J) const { J.setIdentity(); if (P == ARG0) J *= -1; }
};
template <int N, class S, int O = 0> struct SpecialOrthogonalOperationTpl {
  enum { NQ = 4, NV = 3 };
  template <class Q> static Eigen::Quaterniond quat(const Q& q) { return Eigen::Quaterniond(q(3), q(0), q(1), q(2)); }
  template <class A, class B, class C> void difference(const A& a, const B& b, C& d) const { d = stub::log3(quat(a).conjugate() * quat(b)); }
  template <ArgumentPosition P, class A, class B, class C> void dDifference(const A& a, const B& b, C& J) const {
    Eigen::Quaterniond r = quat(a).conjugate() * quat(b); stub::M3 j = stub::rightJacobian<3>(stub::skew(stub::log3(r))).inverse();
    if (P == ARG0) J = -j * r.toRotationMatrix().transpose(); else J = j;
  }
};
template <int N, class S, int O = 0> struct SpecialEuclideanOperationTpl {
  enum { NQ = 7, NV = 6 };
  template <class A, class B> static stub::SE3 rel(const A& a, const B& b) { stub::SE3 x = stub::pose(a), y = stub::pose(b), r; r.R = x.R.transpose() * y.R; r.t = x.R.transpose() * (y.t - x.t); return r; }
  template <class A, class B, class C> void difference(const A& a, const B& b, C& d) const { d = stub::log6(rel(a, b)); }
  template <ArgumentPosition P, class A, class B, class C> void dDifference(const A& a, const B& b, C& J) const {
    stub::SE3 r = rel(a, b); stub::M6 j = stub::rightJacobian<6>(stub::ad6(stub::log6(r))).inverse();
    if (P == ARG0) {
      stub::M6 x; x.setZero(); stub::M3 rt = r.R.transpose(); x.topLeftCorner<3, 3>() = x.bottomRightCorner<3, 3>() = rt; x.topRightCorner<3, 3>() = -rt * stub::skew(r.t); J = -j * x;
    } else J = j;
  }
};
template <class A1, class B1> struct CartesianProductOperation {
  template <class A, class B, class C> void difference(const A& a, const B& b, C& d) const {
    Eigen::Vector3d x, y; A1().difference(a.template head<3>(), b.template head<3>(), x); B1().difference(a.template tail<4>(), b.template tail<4>(), y); d.template head<3>() = x; d.template tail<3>() = y;
  }
  template <ArgumentPosition P, class A, class B, class C> void dDifference(const A& a, const B& b, C& J) const {
    Eigen::Matrix3d x, y; A1().template dDifference<P>(a.template head<3>(), b.template head<3>(), x); B1().template dDifference<P>(a.template tail<4>(), b.template tail<4>(), y);
    J.setZero(); J.template topLeftCorner<3, 3>() = x; J.template bottomRightCorner<3, 3>() = y;
  }
};
}  // namespace pinocchio
#endif
