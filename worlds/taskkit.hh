// Harness features for the task and stack worlds: a feature whose error,
// derivative and Jacobian are given by the plan, and which may fail.
#ifndef VERIF_TASKKIT
#define VERIF_TASKKIT
#include "dg.hh"
#include <sot/core/feature-abstract.hh>
#include <sot/core/task.hh>
namespace dgw {
struct Clock1 : dg::SignalTimeDependent<int, int> {     // needs an update at each new control time
  Clock1() : dg::Signal<int, int>("tick"), dg::SignalTimeDependent<int, int>("tick") { setFunction([](int& r, int t) -> int& { r = t; return r; }); setNeedUpdateFromAllChildren(true); }
};
struct Feat : dg::sot::FeatureAbstract {
  static const std::string CLASS_NAME;
  virtual const std::string& getClassName() const { return CLASS_NAME; }
  Clock1 tick; dg::Signal<int, int> still; Vec e, de; Mat J; int failE = 0, failJ = 0, failD = 0; int nE = 0, nJ = 0;
  Feat(const std::string& n, bool live = true) : FeatureAbstract(n), still("still") {
    if (live) { errorSOUT.addDependency(tick); errordotSOUT.addDependency(tick); jacobianSOUT.addDependency(tick); dimensionSOUT.addDependency(tick); }
    else { still = 0; still.setReady(false); errorSOUT.clearDependencies(); errordotSOUT.clearDependencies(); jacobianSOUT.clearDependencies();
      errorSOUT.addDependency(still); errordotSOUT.addDependency(still); jacobianSOUT.addDependency(still); errorSOUT.setConstant(Vec()); jacobianSOUT.setConstant(Mat()); errordotSOUT.setConstant(Vec()); }
  }
  void boom(int k) { if (k == 1) throw std::runtime_error("feature"); if (k == 2) throw dg::ExceptionSignal(dg::ExceptionSignal::GENERIC, "feature"); if (k == 3) throw 7; }
  unsigned int& getDimension(unsigned int& r, int) override { r = (unsigned)e.size(); return r; }
  Vec& computeError(Vec& r, int) override { ++nE; boom(failE); r = e; return r; }
  Mat& computeJacobian(Mat& r, int) override { ++nJ; boom(failJ); r = J; return r; }
  Vec& computeErrorDot(Vec& r, int) override { boom(failD); r = de; return r; }
  void setReference(FeatureAbstract*) override {}
  const FeatureAbstract* getReferenceAbstract() const override { return NULL; }
  FeatureAbstract* getReferenceAbstract() override { return NULL; }
  void addDependenciesFromReference() override {}
  void removeDependenciesFromReference() override {}
};
inline Vec rndVec(sim::Rng& r, int n, double a = 1) { Vec v(n); for (int k = 0; k < n; ++k) v[k] = r.uniform(-a, a); return v; }
inline Mat rndMat(sim::Rng& r, int n, int m, double a = 1) { Mat v(n, m); for (int k = 0; k < n; ++k) for (int q = 0; q < m; ++q) v(k, q) = r.uniform(-a, a); return v; }
}  // namespace dgw
#endif
