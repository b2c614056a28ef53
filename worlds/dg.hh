// Helpers shared by the worlds that drive dynamic-graph entities.
#ifndef VERIF_WORLDS_DG
#define VERIF_WORLDS_DG
#include "sim.hh"
#include <cmath>
#include <memory>
#include <dynamic-graph/entity.h>
#include <dynamic-graph/all-signals.h>
#include <dynamic-graph/all-commands.h>
#include <dynamic-graph/factory.h>
#include <dynamic-graph/pool.h>
namespace dgw {
namespace dg = dynamicgraph;
typedef Eigen::VectorXd Vec;
typedef Eigen::MatrixXd Mat;
using dg::command::Value;
// Runs a command by name, as the Python bindings do.
inline Value cmd(dg::Entity& e, const std::string& n, const std::vector<Value>& a = {}) {
  dg::command::Command* c = e.getNewStyleCommand(n);
  c->setParameterValues(a);
  return c->execute();
}
// Runs f; true when it raised (any type).
template <class F> bool raises(F f, std::string* what = NULL) {
  try { f(); } catch (const std::exception& e) { if (what) *what = e.what(); return true; }
  catch (const char* s) { if (what) *what = s; return true; } catch (...) { return true; }
  return false;
}
inline bool near(double a, double b, double tol) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  if (a == b) return true;
  return std::fabs(a - b) <= tol * (1 + std::fabs(a) + std::fabs(b));
}
inline bool near(const Eigen::Ref<const Mat>& a, const Eigen::Ref<const Mat>& b, double tol) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
  for (int r = 0; r < a.rows(); ++r) for (int c = 0; c < a.cols(); ++c) if (!near(a(r, c), b(r, c), tol)) return false;
  return true;
}
inline std::string str(const Eigen::Ref<const Mat>& v) {
  std::ostringstream o; o.precision(17);
  for (int r = 0; r < v.rows(); ++r) for (int c = 0; c < v.cols(); ++c) o << (r + c ? " " : "") << v(r, c);
  return o.str();
}
inline uint64_t hash(const Eigen::Ref<const Mat>& v) { return sim::hashStr(str(v)); }
struct Silence {   // the entities print
  std::streambuf *o, *e;
  Silence() : o(std::cout.rdbuf(NULL)), e(std::cerr.rdbuf(NULL)) {}
  ~Silence() { std::cout.rdbuf(o); std::cerr.rdbuf(e); std::cout.clear(); std::cerr.clear(); }
};
}  // namespace dgw
#endif
