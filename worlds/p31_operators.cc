// P31: the operators of the graph give the mathematical operation on the inputs and settings of the cycle, or refuse.
#include "units.hh"
#include <sot/core/variadic-op.hh>
#include "matrix/operator.hh"
using namespace kit;
using namespace dynamicgraph::sot;

namespace kit {
template <> struct Conv<MatrixRotation> { static MatrixRotation from(const Mat& m) { return m; } static Mat to(const MatrixRotation& v) { return v; } };
template <> struct Conv<MatrixTwist> { static MatrixTwist from(const Mat& m) { return m; } static Mat to(const MatrixTwist& v) { return v; } };
template <> struct Conv<VectorQuaternion> { static VectorQuaternion from(const Mat& m) { return VectorQuaternion(Eigen::Vector4d(m)); } static Mat to(const VectorQuaternion& v) { return v.coeffs(); } };
template <> struct Conv<Eigen::Vector3d> { static Eigen::Vector3d from(const Mat& m) { return m; } static Mat to(const Eigen::Vector3d& v) { return v; } };
template <> struct Conv<VectorUTheta> { static VectorUTheta from(const Mat& m) { double a = m.norm(); return a > 0 ? VectorUTheta(a, Eigen::Vector3d(m / a)) : VectorUTheta(0, Eigen::Vector3d::UnitX()); } static Mat to(const VectorUTheta& v) { return v.axis() * v.angle(); } };
}  // namespace kit
namespace {
Mat cross(const Mat& a) { Mat m(3, 3); m << 0, -a(2), a(1), a(2), 0, -a(0), -a(1), a(0), 0; return m; }
Mat turn(const Mat& w) { double a = w.norm(); Mat k = cross(w), I = Mat::Identity(3, 3); if (a < 1e-12) return I + k; return I + k * (std::sin(a) / a) + k * k * ((1 - std::cos(a)) / (a * a)); }
Mat ofRpy(const Mat& r) { double a = r(0), b = r(1), c = r(2); Mat x(3, 3), y(3, 3), z(3, 3); x << 1, 0, 0, 0, cos(a), -sin(a), 0, sin(a), cos(a); y << cos(b), 0, sin(b), 0, 1, 0, -sin(b), 0, cos(b); z << cos(c), -sin(c), 0, sin(c), cos(c), 0, 0, 0, 1; return z * y * x; }
Mat ofQuat(const Mat& q) { double x = q(0), y = q(1), z = q(2), w = q(3); Mat v = q.topRows(3); return Mat::Identity(3, 3) * (w * w - x * x - y * y - z * z) + 2 * v * v.transpose() + 2 * w * cross(v); }
Mat rigid(const Mat& r, const Mat& p) { Mat m = Mat::Identity(4, 4); m.topLeftCorner(3, 3) = r; m.topRightCorner(3, 1) = p; return m; }
Mat rot(const Mat& h) { return h.topLeftCorner(3, 3); }
Mat pos(const Mat& h) { return h.topRightCorner(3, 1); }
Mat quatMul(const Mat& a, const Mat& b) { Mat r(4, 1); Mat u = a.topRows(3), v = b.topRows(3); r.topRows(3) = a(3) * v + b(3) * u + cross(u) * v; r(3) = a(3) * b(3) - (u.transpose() * v)(0, 0); return r; }
struct Oper;
typedef std::vector<Mat> In;
typedef std::function<Res(Oper&, const In&, Mat&)> Law;
typedef std::function<bool(Oper&, const Op&, bool&)> Set;
// in: d double, v vector, m matrix, H R T Q U Y (rigid, rotation, twist, quaternion, axis and angle, roll-pitch-yaw), b bool; out: the same, then how it is read
struct Def { const char* cls; std::string in, out; Law law; Set set; Def(const char* c, const char* i, const char* o, Law l, Set s = Set()) : cls(c), in(i), out(o), law(l), set(s) {} };
struct Oper : Unit {
  const Def& d; bool variadic; std::vector<long> a; Mat coeffs; std::deque<Mat> memory; int cycle = -1; double g1 = 1, g2 = 1; std::string inType; long flavour;
  bool frozen() const { for (auto& p : in) if (!p->held) return false; return true; }
  long size(uint64_t salt, int t) const { (void)salt; return n + (long)(mix(key, (uint64_t)(t / 12)) % 3); }
  Mat gen(char ty, int k, int t) {
    uint64_t s = mix((uint64_t)k + 1, (uint64_t)t); long z = size(1, t), w = z; int bad = in.size() > (size_t)k ? in[(size_t)k]->wrong : 0; std::string c = d.cls;
    switch (ty) {
      case 'd': return rnd(s, 1, 1, flavour == 3 ? 0 : 3);
      case 'b': return Mat::Constant(1, 1, mix(key, s) % 3 != 0);
      case 'v': {
        if (c == "ConvolutionTemporal" || c.find("Compose") == 0) z = c[0] == 'C' && c[3] == 'p' ? 3 : n; if (c.find("PoseUTheta") == 0 || c.find("PoseRoll") == 0 || c.find("matrixTwist") != c.npos) z = 6; if (c.find("PoseQuat") == 0) z = 7; if (c.find("SE3Vec") == 0) z = 12; if (c.find("matrixHomo_") != c.npos) z = 4; if (c == "Multiply_matrix_vector") z = 1 + (long)(mix(key, (uint64_t)(t / 9)) % 4);
        if (c == "PoseQuaternionToMatrixHomo") { Mat v(7, 1); v << rnd(s, 3), rnd(mix(s, 2), 4).normalized(); return v; } if (c == "SE3VectorToMatrixHomo") { Mat v(12, 1), r = turn(rnd(mix(s, 2), 3, 1, 3)); v << rnd(s, 3), r.row(0).transpose(), r.row(1).transpose(), r.row(2).transpose(); return v; }
        Mat v = rnd(s, z, 1, 2); if (c == "PoseUThetaToMatrixHomo" && mix(key, s) % 4 == 0) v.bottomRows(3) *= 0; if (c == "CompareVector" && k && mix(key, s) % 2) { Mat o = in[0]->at(t); v = o; if (v.size() && mix(key, s) % 3) v((long)(s % (uint64_t)v.size())) += mix(key, s) % 5 ? 1 : -1; } return v;
      }
      case 'm': {
        if (c == "SkewSymToVector" || c == "Compose_R_and_T") z = w = 3; else if (c == "MatrixToHomo") z = w = 4; else if (c == "ConvolutionTemporal") { z = n; w = (long)(mix(key, (uint64_t)(t / 15)) % 5); } else if (c == "Multiply_matrix_vector") w = 1 + (long)(mix(key, (uint64_t)(t / 9)) % 4); else if (c == "Inverse_of_matrix" || c == "Multiply_of_matrix") {} else w = 1 + (long)(mix(key, (uint64_t)(t / 9)) % 5);
        if (bad > 0) ++z; if (bad < 0) ++w; if (bad == 0 || z != w) { if (c == "SkewSymToVector" && !bad) return cross(rnd(s, 3)); if (c == "Compose_R_and_T" && !bad) return turn(rnd(s, 3, 1, 3)); if (c == "MatrixToHomo" && !bad) return rigid(turn(rnd(s, 3, 1, 3)), rnd(mix(s, 3), 3)); }
        Mat m = rnd(s, z, w); if (c == "Inverse_of_matrix" && z == w) m += 3.0 * (double)z * Mat::Identity(z, z); return m;
      }
      case 'H': return rigid(turn(rnd(s, 3, 1, flavour ? 1.7 : 1e-3)), rnd(mix(s, 3), 3, 1, 2));
      case 'R': return turn(rnd(s, 3, 1, flavour ? 1.7 : 1e-3));
      case 'T': { if (flavour == 1) { Mat m = rnd(s, 6, 6); return Mat(m + 8 * Mat::Identity(6, 6)); } Mat r = turn(rnd(s, 3, 1, 3)), m = Mat::Zero(6, 6); m.topLeftCorner(3, 3) = m.bottomRightCorner(3, 3) = r; m.topRightCorner(3, 3) = cross(rnd(mix(s, 3), 3)) * r; return m; }
      case 'Q': return rnd(s, 4).normalized();
      case 'U': return rnd(s, 3, 1, flavour ? 1.7 : 1e-9);
      case 'Y': return rnd(s, 3, 1, flavour ? 3 : 1e-3);
    }
    return Mat();
  }
  template <class T> bool plugIn(dg::SignalBase<int>& s, char ty) { auto* p = dynamic_cast<dg::SignalPtr<T, int>*>(&s); if (!p) return false; int k = (int)in.size(); port<T>(*p, [this, ty, k](int t) { return gen(ty, k, t); }); return true; }
  bool plugAny(dg::SignalBase<int>& s, char ty) { switch (ty) { case 'd': return plugIn<double>(s, ty); case 'b': return plugIn<bool>(s, ty); case 'v': return plugIn<Vec>(s, ty); case 'm': return plugIn<Mat>(s, ty); case 'H': return plugIn<MatrixHomogeneous>(s, ty); case 'R': return plugIn<MatrixRotation>(s, ty); case 'T': return plugIn<MatrixTwist>(s, ty); case 'Q': return plugIn<VectorQuaternion>(s, ty); case 'U': return plugIn<VectorUTheta>(s, ty); case 'Y': return plugIn<Eigen::Vector3d>(s, ty); } return false; }
  template <class T> bool plugOut(dg::SignalBase<int>& s) {
    auto* p = dynamic_cast<dg::SignalTimeDependent<T, int>*>(&s); if (!p) return false; std::string how = d.out.substr(1);
    out.push_back({"sout", [p, how](int t) { Mat m = Conv<T>::to((*p)(t)); if (how == "quat") { if (m.size() != 4 || std::fabs(m.norm() - 1) > 1e-9) return m; return ofQuat(m); } if (how == "rpy") return ofRpy(m); if (how == "utheta") return turn(m);
      if (how == "pose-utheta" && m.size() == 6) return rigid(turn(m.bottomRows(3)), m.topRows(3)); if (how == "pose-rpy" && m.size() == 6) return rigid(ofRpy(m.bottomRows(3)), m.topRows(3)); if (how == "pose-quat" && m.size() == 7) return rigid(ofQuat(m.bottomRows(4)), m.topRows(3)); return m; }}); val.push_back(Mat()); return true;   // rotations are compared as matrices: their coordinates are not unique
  }
  template <class T> dg::SignalBase<int>* more(int count) { auto* v = dynamic_cast<VariadicAbstract<T, T, int>*>(ent.get()); if (!v) return nullptr; variadic = true; v->setSignalNumber(count); for (int i = 0; i < count; ++i) plugAny(*v->getSignalIn(i), d.in[0]); return &v->SOUT; }
  Oper(const Def& df, const Op& s) : d(df), variadic(false) {
    key = (uint64_t)s.I(3); n = (int)s.I(1); flavour = s.I(2); name = d.cls; pure = name != "ConvolutionTemporal"; a.assign(4, 0); ent.reset(dg::FactoryStorage::getInstance()->newEntity(d.cls, "op")); if (name == "Selec_of_vector") a.clear();
    auto none = [&](const char* w) { fail("signals", "the operator %s has no %s of the announced type", d.cls, w); };
    if (d.in.size() > 1 && d.in[1] == '*') { int c = n - (flavour == 2 && name.find("matrix") == name.npos && name.find("Add") == name.npos); coeffs = Mat::Ones(c, 1); dg::SignalBase<int>* o = nullptr; switch (d.in[0]) { case 'd': o = more<double>(c); break; case 'v': o = more<Vec>(c); break; case 'm': o = more<Mat>(c); break; case 'b': o = more<bool>(c); break; case 'R': o = more<MatrixRotation>(c); break; case 'H': o = more<MatrixHomogeneous>(c); break; case 'T': o = more<MatrixTwist>(c); break; case 'Q': o = more<VectorQuaternion>(c); break; } if (!o) none("inputs"); }
    else for (size_t i = 0; i < d.in.size(); ++i) if (!plugAny(ent->getSignal(d.in.size() == 1 ? "sin" : i ? "sin2" : "sin1"), d.in[i])) none("input");
    dg::SignalBase<int>& o = ent->getSignal("sout"); bool ok = false; switch (d.out[0]) { case 'd': ok = plugOut<double>(o); break; case 'b': ok = plugOut<bool>(o); break; case 'v': ok = plugOut<Vec>(o); break; case 'm': ok = plugOut<Mat>(o); break; case 'H': ok = plugOut<MatrixHomogeneous>(o); break; case 'R': ok = plugOut<MatrixRotation>(o); break; case 'T': ok = plugOut<MatrixTwist>(o); break; case 'Q': ok = plugOut<VectorQuaternion>(o); break; case 'U': ok = plugOut<VectorUTheta>(o); break; case 'Y': ok = plugOut<Eigen::Vector3d>(o); break; } if (!ok) none("output");
  }
  int badSize(size_t i, int w) override { char c = variadic ? d.in[0] : d.in[i]; return c == 'v' || c == 'm' ? w : 0; }
  Res step(int t, int) override { cycle = t; if (!works()) return RAISE; In x; for (auto& p : in) x.push_back(p->at(t)); Mat r; Res e = d.law(*this, x, r); if (e == RAISE && frozen() && !in.empty()) return SKIP; val[0] = r; return e; }   // nothing announces itself after a failure
  template <class T> bool renumber(int count, bool bad) {   // operands added or removed
    auto* v = dynamic_cast<VariadicAbstract<T, T, int>*>(ent.get()); if (!v) return false; if (bad) { if (!raises([&] { v->setSignalNumber(-1); })) fail("command", "a negative number of inputs of %s was accepted", d.cls); return true; }
    while (in.size() > (size_t)count) in.pop_back(); bool r = raises([&] { v->setSignalNumber(count); }); if (r || v->getSignalNumber() != count) fail("command", "%d inputs of %s were refused", count, d.cls); while (in.size() < (size_t)count) plugAny(*v->getSignalIn((int)in.size()), d.in[0]); coeffs = Mat::Ones(count, 1); return true;
  }
  bool command(const Op& o, bool& bad) override {
    if (variadic && o.I(0) == 2) { int least = name.find("matrix") == name.npos && name.find("Add") == name.npos ? 0 : 1, c = std::max(least, (int)(o.I(1) % 4)); bad = o.I(2) >= 8; switch (d.in[0]) { case 'd': return renumber<double>(c, bad); case 'b': return renumber<bool>(c, bad); case 'v': return renumber<Vec>(c, bad); case 'm': return renumber<Mat>(c, bad); case 'R': return renumber<MatrixRotation>(c, bad); case 'H': return renumber<MatrixHomogeneous>(c, bad); case 'T': return renumber<MatrixTwist>(c, bad); case 'Q': return renumber<VectorQuaternion>(c, bad); } }
    return d.set && d.set(*this, o, bad);
  }
  bool range(const char* c, const Op& o, bool& bad, long& m, long& M) { m = o.I(1) % 4; M = m + (o.I(1) / 4) % 4; if (o.I(2) == 9) m = -1; if (o.I(2) == 8) { m = M; M = m - 1 - o.I(1) % 3; } bad = o.I(2) >= 8; return order(c, {Value((int)m), Value((int)M)}, bad); }
  bool number(const char* c, const Op& o, bool& bad, long& i) { long k = o.I(2) == 9 ? -1 - o.I(1) % 2 : o.I(1) % 4; bad = k < 0; if (!order(c, {Value((int)k)}, bad)) return false; i = k; return true; }
};
Mat one(double d) { return Mat::Constant(1, 1, d); }
const std::vector<Def>& table() {
  auto same = [](const Mat& a, const Mat& b) { return a.rows() == b.rows() && a.cols() == b.cols(); };
  auto sub = [same](Oper&, const In& x, Mat& r) { if (!same(x[0], x[1])) return RAISE; r = x[0] - x[1]; return OK; };
  auto weighted = [same](Oper& o, const In& x, Mat& r) { if (!same(x[0], x[1])) return RAISE; r = o.g1 * x[0] + o.g2 * x[1]; return OK; };
  auto gains = [](Oper& o, const Op& c, bool&) { if (c.I(0) == 2) { if (cmd(*o.ent, "getGain1").doubleValue() != o.g1 || cmd(*o.ent, "getGain2").doubleValue() != o.g2) fail("settings", "the gains of %s do not read back", o.d.cls); return true; } double g = 0.25 * (double)(c.I(1) - 50); (c.I(0) ? o.g2 : o.g1) = g; return o.order(c.I(0) ? "setGain2" : "setGain1", {Value(g)}, false); };
  auto add = [same](Oper& o, const In& x, Mat& r) { r = o.coeffs(0) * x[0]; for (size_t i = 1; i < x.size(); ++i) { if (!same(x[0], x[i])) return RAISE; r += o.coeffs((long)i) * x[i]; } return OK; };
  auto mul = [](Oper& o, const In& x, Mat& r) { if (x.empty()) { if (o.d.in[0] == 'v') r = Mat(0, 1); else if (o.d.in[0] == 'd') r = one(1); else if (o.d.in[0] == 'm') return SKIP; else { long z = o.d.in[0] == 'R' ? 3 : o.d.in[0] == 'H' ? 4 : 6; r = Mat::Identity(z, z); } return OK; } r = x[0]; for (size_t i = 1; i < x.size(); ++i) { if (r.cols() != x[i].rows()) return RAISE; r = Mat(r * x[i]); } return OK; };
  static const std::vector<Def> t = {
    {"Selec_of_vector", "v", "v", [](Oper& o, const In& x, Mat& r) { long z = 0; for (size_t i = 0; i < o.a.size(); i += 2) z += o.a[i + 1] - o.a[i]; r = Mat(z, 1); z = 0; for (size_t i = 0; i < o.a.size(); i += 2) { if (o.a[i + 1] > x[0].rows()) return RAISE; for (long k = o.a[i]; k < o.a[i + 1]; ++k) r(z++) = x[0](k); } return OK; },
      [](Oper& o, const Op& c, bool& bad) { long m, M; if (o.range(c.I(0) == 1 ? "addSelec" : "selec", c, bad, m, M)) { if (c.I(0) != 1) o.a.clear(); o.a.push_back(m); o.a.push_back(M); } return true; }},
    {"Component_of_vector", "v", "d", [](Oper& o, const In& x, Mat& r) { if (o.a[0] >= x[0].rows()) return RAISE; r = one(x[0](o.a[0])); return OK; }, [](Oper& o, const Op& c, bool& bad) { o.number("setIndex", c, bad, o.a[0]); return true; }},
    {"Selec_of_matrix", "m", "m", [](Oper& o, const In& x, Mat& r) { if (o.a[1] > x[0].rows() || o.a[3] > x[0].cols()) return RAISE; r = x[0].block(o.a[0], o.a[2], o.a[1] - o.a[0], o.a[3] - o.a[2]); return OK; },
      [](Oper& o, const Op& c, bool& bad) { long m, M; int k = c.I(0) & 1; if (o.range(k ? "selecCols" : "selecRows", c, bad, m, M)) { o.a[(size_t)k * 2] = m; o.a[(size_t)k * 2 + 1] = M; } return true; }},
    {"Selec_column_of_matrix", "m", "v", [](Oper& o, const In& x, Mat& r) { if (o.a[1] > x[0].rows() || o.a[2] >= x[0].cols()) return RAISE; r = x[0].block(o.a[0], o.a[2], o.a[1] - o.a[0], 1); return OK; },
      [](Oper& o, const Op& c, bool& bad) { long m, M; if (c.I(0) & 1) o.number("selecCols", c, bad, o.a[2]); else if (o.range("selecRows", c, bad, m, M)) { o.a[0] = m; o.a[1] = M; } return true; }},
    {"MatrixTranspose", "m", "m", [](Oper&, const In& x, Mat& r) { r = x[0].transpose(); return OK; }},
    {"MatrixDiagonal", "v", "m", [](Oper& o, const In& x, Mat& r) { long a = x[0].rows(), b = a; if (o.a[0] && o.a[1]) { a = o.a[0]; b = o.a[1]; } if (x[0].rows() < std::min(a, b)) return RAISE; if (x[0].rows() > std::max(a, b)) return SKIP; r = Mat::Zero(a, b); for (long i = 0; i < std::min(a, b); ++i) r(i, i) = x[0](i); return OK; },
      [](Oper& o, const Op& c, bool& bad) { long a = c.I(1) % 5, b = c.I(1) % 3 ? a : (c.I(1) / 5) % 5; if (!a || !b) a = b = 0; bad = c.I(2) >= 8; if (c.I(2) == 8) a = -1; if (c.I(2) == 9) b = -2; if (o.order("resize", {Value((int)a), Value((int)b)}, bad)) { o.a[0] = a; o.a[1] = b; } return true; }},
    {"Inverse_of_matrix", "m", "m", [](Oper&, const In& x, Mat& r) { if (x[0].rows() != x[0].cols()) return RAISE; r = x[0].partialPivLu().inverse(); return OK; }},
    {"Inverse_of_matrixHomo", "H", "H", [](Oper&, const In& x, Mat& r) { r = rigid(rot(x[0]).transpose(), -rot(x[0]).transpose() * pos(x[0])); return OK; }},
    {"Inverse_of_matrixtwist", "T", "T", [](Oper&, const In& x, Mat& r) { r = x[0].fullPivLu().inverse(); return OK; }},
    {"Norm_of_vector", "v", "d", [](Oper&, const In& x, Mat& r) { double s = 0; for (long i = 0; i < x[0].size(); ++i) s += x[0](i) * x[0](i); r = one(std::sqrt(s)); return OK; }},
    {"Inverse_of_matrixrotation", "R", "R", [](Oper&, const In& x, Mat& r) { r = x[0].transpose(); return OK; }},
    {"Inverse_of_unitquat", "Q", "Q", [](Oper&, const In& x, Mat& r) { r = -x[0]; r(3) = x[0](3); return OK; }},
    {"MatrixHomoToPoseUTheta", "H", "vpose-utheta", [](Oper&, const In& x, Mat& r) { r = x[0]; return OK; }},
    {"MatrixHomoToSE3Vector", "H", "v", [](Oper&, const In& x, Mat& r) { r = Mat(12, 1); for (int i = 0; i < 3; ++i) { r(i) = x[0](i, 3); for (int j = 0; j < 3; ++j) r(3 + 3 * i + j) = x[0](i, j); } return OK; }},
    {"SE3VectorToMatrixHomo", "v", "H", [](Oper&, const In& x, Mat& r) { if (x[0].rows() < 12) return RAISE; if (x[0].rows() > 12) return SKIP; r = Mat::Identity(4, 4); for (int i = 0; i < 3; ++i) { r(i, 3) = x[0](i); for (int j = 0; j < 3; ++j) r(i, j) = x[0](3 + 3 * i + j); } return OK; }},
    {"SkewSymToVector", "m", "v", [](Oper&, const In& x, Mat& r) { if (x[0].rows() != 3 || x[0].cols() != 3) return RAISE; r = Mat(3, 1); r << x[0](2, 1), x[0](0, 2), x[0](1, 0); return OK; }},
    {"PoseUThetaToMatrixHomo", "v", "H", [](Oper&, const In& x, Mat& r) { if (x[0].rows() < 6) return RAISE; if (x[0].rows() > 6) return SKIP; r = rigid(turn(x[0].bottomRows(3)), x[0].topRows(3)); return OK; }},
    {"MatrixHomoToPoseQuaternion", "H", "vpose-quat", [](Oper&, const In& x, Mat& r) { r = x[0]; return OK; }},
    {"PoseQuaternionToMatrixHomo", "v", "H", [](Oper&, const In& x, Mat& r) { if (x[0].rows() < 7) return RAISE; if (x[0].rows() > 7) return SKIP; r = rigid(ofQuat(x[0].bottomRows(4)), x[0].topRows(3)); return OK; }},
    {"MatrixHomoToPoseRollPitchYaw", "H", "vpose-rpy", [](Oper&, const In& x, Mat& r) { r = x[0]; return OK; }},
    {"PoseRollPitchYawToMatrixHomo", "v", "H", [](Oper&, const In& x, Mat& r) { if (x[0].rows() < 6) return RAISE; if (x[0].rows() > 6) return SKIP; r = rigid(ofRpy(x[0].bottomRows(3)), x[0].topRows(3)); return OK; }},
    {"PoseRollPitchYawToPoseUTheta", "v", "vpose-utheta", [](Oper&, const In& x, Mat& r) { if (x[0].rows() < 6) return RAISE; if (x[0].rows() > 6) return SKIP; r = rigid(ofRpy(x[0].bottomRows(3)), x[0].topRows(3)); return OK; }},
    {"HomoToMatrix", "H", "m", [](Oper&, const In& x, Mat& r) { r = x[0]; return OK; }},
    {"MatrixToHomo", "m", "H", [](Oper&, const In& x, Mat& r) { if (x[0].rows() != 4 || x[0].cols() != 4) return RAISE; r = x[0]; return OK; }},
    {"HomoToTwist", "H", "T", [](Oper&, const In& x, Mat& r) { r = Mat::Zero(6, 6); r.topLeftCorner(3, 3) = r.bottomRightCorner(3, 3) = rot(x[0]); r.topRightCorner(3, 3) = cross(pos(x[0])) * rot(x[0]); return OK; }},
    {"HomoToRotation", "H", "R", [](Oper&, const In& x, Mat& r) { r = rot(x[0]); return OK; }},
    {"MatrixHomoToPose", "H", "v", [](Oper&, const In& x, Mat& r) { r = pos(x[0]); return OK; }},
    {"RPYToMatrix", "Y", "R", [](Oper&, const In& x, Mat& r) { r = ofRpy(x[0]); return OK; }},
    {"MatrixToRPY", "R", "Yrpy", [](Oper&, const In& x, Mat& r) { r = x[0]; return OK; }},
    {"RPYToQuaternion", "Y", "Qquat", [](Oper&, const In& x, Mat& r) { r = ofRpy(x[0]); return OK; }},
    {"QuaternionToRPY", "Q", "Yrpy", [](Oper&, const In& x, Mat& r) { r = ofQuat(x[0]); return OK; }},
    {"QuaternionToMatrix", "Q", "R", [](Oper&, const In& x, Mat& r) { r = ofQuat(x[0]); return OK; }},
    {"MatrixToQuaternion", "R", "Qquat", [](Oper&, const In& x, Mat& r) { r = x[0]; return OK; }},
    {"MatrixToUTheta", "R", "Uutheta", [](Oper&, const In& x, Mat& r) { r = x[0]; return OK; }},
    {"UThetaToQuaternion", "U", "Qquat", [](Oper&, const In& x, Mat& r) { r = turn(x[0]); return OK; }},
    {"Multiply_double_vector", "dv", "v", [](Oper&, const In& x, Mat& r) { r = x[0](0) * x[1]; return OK; }},
    {"Multiply_matrix_vector", "mv", "v", [](Oper&, const In& x, Mat& r) { if (x[0].cols() != x[1].rows()) return RAISE; r = x[0] * x[1]; return OK; }},
    {"Multiply_matrixHomo_vector", "Hv", "v", [](Oper&, const In& x, Mat& r) { if (x[1].rows() != 4) return x[1].rows() == 3 ? SKIP : RAISE; r = x[0] * x[1]; return OK; }},
    {"Multiply_matrixTwist_vector", "Tv", "v", [](Oper&, const In& x, Mat& r) { if (x[1].rows() != 6) return RAISE; r = x[0] * x[1]; return OK; }},
    {"Substract_of_matrix", "mm", "m", sub}, {"Substract_of_vector", "vv", "v", sub}, {"Substract_of_double", "dd", "d", sub},
    {"Stack_of_vector", "vv", "v", [](Oper& o, const In& x, Mat& r) { if (o.a[1] > x[0].rows() || o.a[3] > x[1].rows()) return RAISE; r = Mat(o.a[1] - o.a[0] + o.a[3] - o.a[2], 1); r << x[0].middleRows(o.a[0], o.a[1] - o.a[0]), x[1].middleRows(o.a[2], o.a[3] - o.a[2]); return OK; },
      [](Oper& o, const Op& c, bool& bad) { long m, M; int k = c.I(0) & 1; if (o.range(k ? "selec2" : "selec1", c, bad, m, M)) { o.a[(size_t)k * 2] = m; o.a[(size_t)k * 2 + 1] = M; } return true; }},
    {"Compose_R_and_T", "mv", "H", [](Oper&, const In& x, Mat& r) { if (x[0].rows() != 3 || x[0].cols() != 3 || x[1].rows() != 3) return RAISE; r = rigid(x[0], x[1]); return OK; }},
    {"ConvolutionTemporal", "vm", "v", [](Oper& o, const In& x, Mat& r) { if (x[0].rows() != x[1].rows()) return RAISE; if (!o.memory.empty() && o.memory[0].rows() != x[0].rows()) o.memory.clear(); o.memory.push_front(x[0]); while ((long)o.memory.size() > x[1].cols()) o.memory.pop_back(); r = Mat::Zero(x[1].rows(), 1); for (size_t j = 0; j < o.memory.size(); ++j) r += x[1].col((long)j).cwiseProduct(o.memory[j]); return OK; }},
    {"CompareDouble", "dd", "b", [](Oper&, const In& x, Mat& r) { r = one(x[0](0) < x[1](0)); return OK; }},
    {"CompareVector", "vv", "b", [](Oper& o, const In& x, Mat& r) { if (x[0].rows() != x[1].rows()) return RAISE; bool any = o.a[0] == 0, s = !any; for (long i = 0; i < x[0].size(); ++i) { bool b = o.a[1] ? x[0](i) <= x[1](i) : x[0](i) < x[1](i); s = any ? s || b : s && b; } r = one(s); return OK; },
      [](Oper& o, const Op& c, bool&) { bool b = c.I(1) & 1; if (c.I(0) == 2) { if (cmd(*o.ent, "getTrueIfAny").boolValue() != (o.a[0] == 0) || cmd(*o.ent, "getEqual").boolValue() != (o.a[1] != 0)) fail("settings", "the mode of CompareVector does not read back"); return true; } if (c.I(0)) o.a[1] = b; else o.a[0] = !b; return o.order(c.I(0) ? "setEqual" : "setTrueIfAny", {Value(b)}, false); }},
    {"WeightAdd_of_matrix", "mm", "m", weighted, gains}, {"WeightAdd_of_vector", "vv", "v", weighted, gains}, {"WeightAdd_of_double", "dd", "d", weighted, gains},
    {"Add_of_matrix", "m*", "m", add}, {"Add_of_vector", "v*", "v", add}, {"Add_of_double", "d*", "d", add},
    {"Multiply_of_matrix", "m*", "m", mul}, {"Multiply_of_vector", "v*", "v", [same](Oper&, const In& x, Mat& r) { r = x.empty() ? Mat(0, 1) : x[0]; for (size_t i = 1; i < x.size(); ++i) { if (!same(r, x[i])) return RAISE; r = Mat(r.cwiseProduct(x[i])); } return OK; }},
    {"Multiply_of_matrixrotation", "R*", "R", mul}, {"Multiply_of_matrixHomo", "H*", "H", mul}, {"Multiply_of_matrixtwist", "T*", "T", mul},
    {"Multiply_of_quaternion", "Q*", "Q", [](Oper&, const In& x, Mat& r) { r = Mat::Zero(4, 1); r(3) = 1; for (size_t i = 0; i < x.size(); ++i) r = i ? quatMul(r, x[i]) : x[i]; return OK; }}, {"Multiply_of_double", "d*", "d", mul},
    {"VectorConstant", "", "v", [](Oper& o, const In&, Mat& r) { if (!o.a[0]) return SKIP; r = o.coeffs; return OK; }, [](Oper& o, const Op& c, bool&) { long z = c.I(1) % 5; o.a[0] = 1; if (c.I(0) & 1) { o.coeffs = Mat::Zero(z, 1); return o.order("resize", {Value((unsigned)z)}, false); } o.coeffs = o.rnd(mix(91, (uint64_t)c.I(1)), z); return o.order("set", {Value(Vec(o.coeffs))}, false); }},
    {"MatrixConstant", "", "m", [](Oper& o, const In&, Mat& r) { if (!o.a[0]) return SKIP; r = o.coeffs; return OK; }, [](Oper& o, const Op& c, bool&) { long z = c.I(1) % 5, w = (c.I(1) / 5) % 4; o.a[0] = 1; if (c.I(0) & 1) { o.coeffs = Mat::Zero(z, w); return o.order("resize", {Value((unsigned)z), Value((unsigned)w)}, false); } o.coeffs = o.rnd(mix(91, (uint64_t)c.I(1)), z, w); return o.order("set", {Value(o.coeffs)}, false); }},
    {"And", "b*", "b", [](Oper&, const In& x, Mat& r) { bool b = true; for (auto& m : x) b = b && m(0) != 0; r = one(b); return OK; }}, {"Or", "b*", "b", [](Oper&, const In& x, Mat& r) { bool b = false; for (auto& m : x) b = b || m(0) != 0; r = one(b); return OK; }},
  };
  return t;
}
template <class T> bool weigh(Oper& o, const Vec& c, bool& done) { auto* v = dynamic_cast<VariadicOp<AdderVariadic<T>>*>(o.ent.get()); if (!v) return false; done = !raises([&] { v->op.setCoeffs(c); }); return true; }
struct Adder : Oper {
  using Oper::Oper;
  bool command(const Op& o, bool& bad) override { if (o.I(0) == 2) return Oper::command(o, bad); bad = o.I(2) >= 8; long z = (long)in.size() + (o.I(2) == 9 ? 1 : o.I(2) == 8 ? -1 : 0); Mat c = rnd(mix(77, (uint64_t)o.I(1)), z, 1, 2); bool done = false; if (!weigh<Mat>(*this, c, done) && !weigh<Vec>(*this, c, done) && !weigh<double>(*this, c, done)) return false; if (done == bad) fail("command", "coefficients of %s were %s", d.cls, done ? "accepted" : "refused"); if (!bad) coeffs = c; return true; }
};
struct W : UnitsWorld {
  const char* property() const override { return "P31"; }
  const char* rule() const override { return "seeded histories of 10-400 operations on one of the registered operators: skipped cycles, repeated reads, failing, missing, ill-sized and constant inputs, changes of size, operands added or removed, settings (valid or not) between cycles; non-trivial when a fault fired"; }
  std::vector<std::string> realComponents() const override { return {"src/matrix/operator.hh", "src/matrix/operator.cpp", "include/sot/core/unary-op.hh", "include/sot/core/binary-op.hh", "include/sot/core/variadic-op.hh"}; }
  std::vector<std::string> stubComponents() const override { return {"dynamic-graph (stand-in)", "input signals"}; }
  std::vector<std::string> assumptions() const override { return {"a failed evaluation is not tried again within its cycle", "cycles go forward", "rotations are orthonormal, quaternions have norm one, matrices to invert are regular", "a pose given by a vector that is too long is unspecified", "the product of no matrix is unspecified"}; }
  int kinds() const override { return (int)table().size(); }
  std::unique_ptr<Unit> make(const Op& s) override { const Def& d = table()[(size_t)s.I(0) % table().size()]; return std::unique_ptr<Unit>(std::string(d.cls).find("Add_of_") == 0 ? new Adder(d, s) : new Oper(d, s)); }
};
}  // namespace
sim::World* sim::makeWorld() { return new W; }
