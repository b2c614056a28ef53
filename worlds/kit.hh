// Helpers for worlds in which entities with input and output signals go through cycles.
#ifndef VERIF_WORLDS_KIT
#define VERIF_WORLDS_KIT
#include "dg.hh"
#include <sot/core/matrix-geometry.hh>
#include <sot/core/flags.hh>
#include <sot/core/multi-bound.hh>
namespace kit {
using namespace sim;
using namespace dgw;
using dynamicgraph::sot::MatrixHomogeneous;
inline double u(uint64_t k) { return (double)(mix(k, 91) >> 11) * (2.0 / 9007199254740992.0) - 1; }
template <class T> struct Conv;
template <> struct Conv<double> { static double from(const Mat& m) { return m(0, 0); } static Mat to(double d) { return Mat::Constant(1, 1, d); } };
template <> struct Conv<int> { static int from(const Mat& m) { return (int)m(0, 0); } static Mat to(int d) { return Mat::Constant(1, 1, d); } };
template <> struct Conv<unsigned> { static unsigned from(const Mat& m) { return (unsigned)m(0, 0); } static Mat to(unsigned d) { return Mat::Constant(1, 1, d); } };
template <> struct Conv<bool> { static bool from(const Mat& m) { return m(0, 0) != 0; } static Mat to(bool d) { return Mat::Constant(1, 1, d); } };
template <> struct Conv<Vec> { static Vec from(const Mat& m) { return m; } static Mat to(const Vec& v) { return v; } };
template <> struct Conv<Mat> { static Mat from(const Mat& m) { return m; } static Mat to(const Mat& v) { return v; } };
template <> struct Conv<MatrixHomogeneous> { static MatrixHomogeneous from(const Mat& m) { MatrixHomogeneous h; h.matrix() = m; return h; } static Mat to(const MatrixHomogeneous& v) { return v.matrix(); } };
template <> struct Conv<dynamicgraph::sot::Flags> { static dynamicgraph::sot::Flags from(const Mat& m) { std::vector<bool> b; for (long i = 0; i < m.size(); ++i) b.push_back(m(i) != 0); return dynamicgraph::sot::Flags(b); } };
template <> struct Conv<dynamicgraph::sot::VectorMultiBound> {
  // one row per component: mode (0 single, 1 double, 2 inf only, 3 sup only), values
  static Mat to(const dynamicgraph::sot::VectorMultiBound& v) {
    Mat m = Mat::Zero((long)v.size(), 3); typedef dynamicgraph::sot::MultiBound B;
    for (size_t i = 0; i < v.size(); ++i) { const B& b = v[i]; if (b.getMode() == B::MODE_SINGLE) { m((long)i, 1) = b.getSingleBound(); continue; } bool lo = b.getDoubleBoundSetup(B::BOUND_INF), hi = b.getDoubleBoundSetup(B::BOUND_SUP); m((long)i, 0) = lo && hi ? 1 : lo ? 2 : 3; if (lo) m((long)i, 1) = b.getDoubleBound(B::BOUND_INF); if (hi) m((long)i, 2) = b.getDoubleBound(B::BOUND_SUP); }
    return m;
  }
};
// An input of the entity under test: value(t), or a failure, or a constant.
struct Port {
  std::string name; std::function<Mat(int)> value; bool fails = false, out = false, held = false, used = false; int wrong = 0; long asked = 0; Mat keep;
  virtual ~Port() {}
  virtual void plug(bool yes) = 0;          // connected to the source or to nothing
  virtual void hold(const Mat& m) = 0;      // given a constant
  bool works() const { return held ? true : !fails && !out; }
  Mat at(int t) const { if (held) return keep; Mat m = value(t); if (wrong && m.cols() == 1) { Mat w = Mat::Constant(std::max<long>(0, m.rows() + wrong), 1, 0.5); long k = std::min(w.rows(), m.rows()); w.topRows(k) = m.topRows(k); return w; } return m; }
};
template <class T> struct PortOf : Port {
  dg::SignalTimeDependent<T, int> src; dg::SignalPtr<T, int>& pin;
  PortOf(dg::SignalPtr<T, int>& p, std::function<Mat(int)> v) : src("source"), pin(p) {
    name = p.shortName(); value = v;
    src.setFunction([this](T& r, int t) -> T& { ++asked; used = true; if (fails) throw std::runtime_error("input"); Mat m = at(t); r = Conv<T>::from(m); return r; });
    src.setDependencyType(dg::TimeDependency<int>::ALWAYS_READY); pin.plug(&src);
  }
  void plug(bool yes) override { out = !yes; held = false; if (yes) pin.plug(&src); else pin.unplug(); }
  void hold(const Mat& m) override { held = true; out = false; keep = m; pin.setConstant(Conv<T>::from(m)); }
};
typedef std::function<Mat(int)> Out;
template <class T> Out outOf(dg::SignalTimeDependent<T, int>& s) { auto* p = &s; return [p](int t) { return Conv<T>::to((*p)(t)); }; }
}  // namespace kit
#endif
