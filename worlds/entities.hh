// Entities of all classes with sources for their inputs (P34, P35).
#pragma once
#include "kit.hh"
#include <sys/time.h>
#include <sot/core/trajectory.hh>
using namespace kit;
using namespace dynamicgraph::sot;
typedef dg::SignalBase<int> Sig;
struct ApiRow { const char *cls, *signals, *commands; };
extern const ApiRow apiTable[];
extern const size_t apiRows;

namespace {
struct Shape { int rows, cols; };
template <class T> struct Gen;
template <> struct Gen<double> { static double of(uint64_t k, Shape) { return mix(k, 3) % 9 == 0 ? 0. : 2 * u(k); } };
template <> struct Gen<int> { static int of(uint64_t k, Shape) { return (int)(mix(k, 4) % 9); } };
template <> struct Gen<unsigned> { static unsigned of(uint64_t k, Shape) { return (unsigned)(mix(k, 4) % 9); } };
template <> struct Gen<bool> { static bool of(uint64_t k, Shape) { return mix(k, 5) & 1; } };
template <> struct Gen<Vec> { static Vec of(uint64_t k, Shape s) { Vec v(s.rows); for (int i = 0; i < s.rows; ++i) v(i) = u(mix(k, (uint64_t)i)); return v; } };
template <> struct Gen<Mat> { static Mat of(uint64_t k, Shape s) { Mat m(s.rows, s.cols); for (int i = 0; i < s.rows; ++i) for (int j = 0; j < s.cols; ++j) m(i, j) = u(mix(k, (uint64_t)(i * 64 + j))); return m; } };
template <> struct Gen<MatrixHomogeneous> { static MatrixHomogeneous of(uint64_t k, Shape) { MatrixHomogeneous m; m.setIdentity(); Eigen::Vector3d a(u(mix(k, 1)), u(mix(k, 2)), u(mix(k, 3))); if (a.norm() < 1e-3) a << 1, 0, 0; a.normalize(); m.linear() = Eigen::AngleAxisd(1.4 * u(mix(k, 4)), a).toRotationMatrix(); m.translation() << u(mix(k, 5)), u(mix(k, 6)), u(mix(k, 7)); return m; } };
template <> struct Gen<MatrixRotation> { static MatrixRotation of(uint64_t k, Shape s) { return Gen<MatrixHomogeneous>::of(k, s).linear(); } };
template <> struct Gen<Eigen::Matrix4d> { static Eigen::Matrix4d of(uint64_t k, Shape s) { return Gen<MatrixHomogeneous>::of(k, s).matrix(); } };
template <> struct Gen<VectorQuaternion> { static VectorQuaternion of(uint64_t k, Shape s) { return VectorQuaternion(Gen<MatrixHomogeneous>::of(k, s).linear()); } };
template <> struct Gen<VectorUTheta> { static VectorUTheta of(uint64_t k, Shape s) { return VectorUTheta(Gen<MatrixHomogeneous>::of(k, s).linear()); } };
template <> struct Gen<VectorRollPitchYaw> { static VectorRollPitchYaw of(uint64_t k, Shape) { return VectorRollPitchYaw(u(mix(k, 1)), u(mix(k, 2)), u(mix(k, 3))); } };
template <> struct Gen<MatrixTwist> { static MatrixTwist of(uint64_t k, Shape) { return MatrixTwist(Gen<Mat>::of(k, {6, 6})); } };
template <> struct Gen<Flags> { static Flags of(uint64_t k, Shape) { if (mix(k, 8) % 3 == 0) return Flags(true); std::string s; int n = (int)(mix(k, 9) % 9); for (int j = 0; j < n; ++j) s += mix(k, (uint64_t)(40 + j)) % 3 ? '1' : '0'; return Flags(s.c_str()); } };
template <> struct Gen<Eigen::Matrix<double, 7, 1>> { static Eigen::Matrix<double, 7, 1> of(uint64_t k, Shape s) { Eigen::Matrix<double, 7, 1> r; auto h = Gen<MatrixHomogeneous>::of(k, s); r.head<3>() = h.translation(); r.tail<4>() = Eigen::Quaterniond(h.linear()).coeffs(); return r; } };
template <> struct Gen<VectorMultiBound> { static VectorMultiBound of(uint64_t k, Shape s) { VectorMultiBound v; for (int i = 0; i < s.rows; ++i) { double a = u(mix(k, (uint64_t)i)); if (mix(k, (uint64_t)(i + 70)) & 1) v.push_back(MultiBound(a)); else v.push_back(MultiBound(a - 1, a + 1)); } return v; } };
template <> struct Gen<std::string> { static std::string of(uint64_t k, Shape) { return mix(k, 1) & 1 ? "1" : "011"; } };
template <> struct Gen<Trajectory> { static Trajectory of(uint64_t k, Shape s) { Trajectory t; t.header_.seq_ = 3 + (unsigned)(mix(k, 1) % 50); t.header_.stamp_.secs_ = mix(k, 2) % 5; int n = 1 + (int)(mix(k, 3) % 4); for (int i = 0; i < n; ++i) { JointTrajectoryPoint q; for (int j = 0; j < 5 + s.rows; ++j) q.positions_.push_back(u(mix(k, (uint64_t)(i * 32 + j)))); t.points_.push_back(q); } return t; } };

struct Src { virtual ~Src() {} virtual Sig& sig() = 0; virtual void prime() = 0; bool fails = false, moving = true; long long version = 0; uint64_t key = 0; Shape sh{1, 1}; long* count = NULL; };
template <class T> struct SrcOf : Src {
  dg::SignalTimeDependent<T, int> s;
  explicit SrcOf(bool mv) : s("source") { moving = mv; s.setDependencyType(mv ? dg::TimeDependency<int>::ALWAYS_READY : dg::TimeDependency<int>::BOOL_DEPENDENT); } 
  void prime() override { s.setConstant(Gen<T>::of(mix(key, 12345), sh)); s.setFunction([this](T& r, int t) -> T& { if (count) ++*count; if (fails) throw std::runtime_error("input"); r = Gen<T>::of(mix(key, mix((uint64_t)version, (uint64_t)(moving ? t : -1))), sh); return r; }); s.setReady(); }
  Sig& sig() override { return s; }
};
template <class T> bool tryPlug(Sig& s, bool mv, std::unique_ptr<Src>& out) { if (!dynamic_cast<dg::SignalPtr<T, int>*>(&s)) return false; out.reset(new SrcOf<T>(mv)); s.plug(&out->sig()); return true; }
template <class T> bool is(Sig& s) { return dynamic_cast<dg::SignalPtr<T, int>*>(&s) != NULL; }
bool isPin(Sig& s) {
  return is<double>(s) || is<int>(s) || is<unsigned>(s) || is<bool>(s) || is<Vec>(s) || is<Mat>(s) || is<MatrixHomogeneous>(s) || is<MatrixRotation>(s) || is<Eigen::Matrix4d>(s) || is<VectorQuaternion>(s) || is<VectorUTheta>(s) || is<VectorRollPitchYaw>(s) || is<MatrixTwist>(s) || is<Flags>(s) ||
         is<Eigen::Matrix<double, 7, 1>>(s) || is<VectorMultiBound>(s) || is<std::string>(s) || is<Trajectory>(s);
}
bool plugAny(Sig& s, bool mv, std::unique_ptr<Src>& o) {
  return tryPlug<double>(s, mv, o) || tryPlug<int>(s, mv, o) || tryPlug<unsigned>(s, mv, o) || tryPlug<bool>(s, mv, o) || tryPlug<Vec>(s, mv, o) || tryPlug<Mat>(s, mv, o) || tryPlug<MatrixHomogeneous>(s, mv, o) || tryPlug<MatrixRotation>(s, mv, o) ||
         tryPlug<Eigen::Matrix4d>(s, mv, o) || tryPlug<VectorQuaternion>(s, mv, o) || tryPlug<VectorUTheta>(s, mv, o) || tryPlug<VectorRollPitchYaw>(s, mv, o) || tryPlug<MatrixTwist>(s, mv, o) || tryPlug<Flags>(s, mv, o) || tryPlug<Eigen::Matrix<double, 7, 1>>(s, mv, o) || tryPlug<VectorMultiBound>(s, mv, o) || tryPlug<std::string>(s, mv, o) || tryPlug<Trajectory>(s, mv, o);
}
std::string show(Sig& s) { std::ostringstream o; o.precision(17); try { s.get(o); } catch (const std::logic_error&) { return "unprintable"; } return o.str(); }
std::string showValue(const Value& v) {
  std::ostringstream o; o.precision(17);
  switch (v.type()) {
    case Value::BOOL: o << v.boolValue(); break; case Value::UNSIGNED: o << v.unsignedValue(); break; case Value::INT: o << v.intValue(); break; case Value::DOUBLE: case Value::FLOAT: o << v.doubleValue(); break; case Value::STRING: o << v.stringValue(); break;
    case Value::VECTOR: o << v.vectorValue().transpose(); break; case Value::MATRIX: o << v.matrixXdValue(); break; case Value::MATRIX4D: o << v.matrix4dValue(); break; case Value::VALUES: for (auto& x : v.valuesValue()) o << showValue(x) << ";"; break; default: break;
  }
  return o.str();
}
int gMode = 0; uint64_t gKey = 0;
struct Inst {                 // an entity with sources for all its inputs
  std::string cls, name; std::unique_ptr<dg::Entity> e; std::map<std::string, std::unique_ptr<Src>> src; std::vector<std::unique_ptr<Src>> old; std::vector<std::string> ins, outs, cmds; long evals = 0; uint64_t key; int n, mode; bool side = false; uint64_t runKey = gKey;   // side: has its own friends
  Inst(const std::string& c, const std::string& nm, uint64_t k, int n_) : cls(c), name(nm), key(k), n(n_), mode(gMode) { e.reset(dg::FactoryStorage::getInstance()->newEntity(c, nm)); list(); }
  ~Inst() { e.reset(); }
  void list() {
    ins.clear(); outs.clear(); cmds.clear();
    for (auto& p : e->getSignalMap()) { bool isIn = isPin(*p.second); (isIn ? ins : outs).push_back(p.first); }
    for (auto& c : e->getNewStyleCommandMap()) cmds.push_back(c.first);
  }
  Shape shape(uint64_t k) const { switch (mode) { case 0: case 1: return {n, n}; case 2: return {6, 6}; case 3: return {3, 3}; case 4: return {6, n}; default: break; } int r = n, c = n; switch (mix(k, 11) % 12) { case 0: r = 6; break; case 1: r = 3; break; case 2: r = n + 1; break; case 3: r = 6; c = 6; break; case 4: r = 6; break; case 5: r = 7; break; case 6: r = 1; break; default: break; } if (mix(k, 12) % 9 == 0) c = 3; return {r, c}; }
  Shape usual(const std::string& in, Shape d) const {        // the sizes these inputs need to be of use
    if (in == "Jq" || in == "JqRef" || in == "jbJjb" || in == "jaJja") return {6, n};
    if (cls == "FeatureVisualPoint" && in == "xy") return {2, 1}; if (cls == "FeatureLineDistance") return {in == "positionRef" ? 6 : 3, 1};
    if (cls == "NeckLimitation") return {20, 1}; if (cls == "SE3VectorToMatrixHomo") return {12, 1}; if (cls == "FeatureVector3" && (in == "vector" || in == "positionRef")) return {3, 1};
    return d;
  }
  void plug(const std::string& in, uint64_t k, bool moving) {
    Sig& s = e->getSignal(in); std::unique_ptr<Src> o; if (!plugAny(s, moving, o)) return;
    o->key = mix(key, mix(hashStr(in), k)); o->sh = shape(o->key); if (mix(o->key, 5) % 6) o->sh = usual(in, o->sh); o->count = &evals; o->prime();
    auto& q = src[in]; if (q) old.push_back(std::move(q)); q = std::move(o);
  }
};
const char* const kOmit[] = {"ParameterServer"};   // writes what all share, by design: P15
bool omitted(const std::string& c) { for (auto* o : kOmit) if (c == o) return true; return false; }
std::vector<std::string> classes() { std::vector<std::string> r; for (auto& p : dg::FactoryStorage::getInstance()->m) if (!omitted(p.first)) r.push_back(p.first); for (size_t k = 0; k < apiRows; ++k) if (std::find(r.begin(), r.end(), apiTable[k].cls) == r.end()) r.push_back(apiTable[k].cls); std::sort(r.begin(), r.end()); return r; }
std::string join(const std::vector<std::string>& v) { std::string r; for (auto& x : v) r += (r.empty() ? "" : " ") + x; return r; }

void setRun(uint64_t key) { gMode = (int)(mix(key, 99) % 8); gKey = key; }
Value arg(Value::Type t, uint64_t k, const Inst& x) {
  Shape s = x.shape(mix(k, 21)); uint64_t h = mix(k, 31);
  switch (t) {
    case Value::BOOL: return Value((bool)(h & 1)); case Value::UNSIGNED: return Value((unsigned)(h % 9)); case Value::INT: return Value((int)(h % 9)); case Value::FLOAT: return Value((float)(2 * u(h))); case Value::DOUBLE: return Value(h % 7 == 0 ? 0. : 2 * u(h));
    case Value::VECTOR: return Value(Gen<Vec>::of(h, s)); case Value::MATRIX: return h % 3 == 0 ? Value(Mat(Gen<Eigen::Matrix4d>::of(h, s))) : Value(Gen<Mat>::of(h, s)); case Value::MATRIX4D: return Value(Gen<Eigen::Matrix4d>::of(h, s));
    case Value::STRING: { std::vector<std::string> w = {"helper_f", "helper_t", "helper_f2", "nobody", "1", "0110", "desired", "current", "oneInteg", "twoInteg", "noInteg", "helper_f.error", "helper_t.task", "a", "b", "X", "true", "helper_r"}; for (auto& o : x.outs) w.push_back("helper_r." + o); for (auto& o : x.ins) w.push_back(o); std::string g = w[h % w.size()]; if (x.side && g.compare(0, 7, "helper_") == 0) g = "friend_" + g.substr(7); return Value(g); }
    case Value::VALUES: { std::vector<Value> v; for (int i = 0; i < (int)(h % 4); ++i) v.push_back(Value((int)(mix(h, (uint64_t)i) % 9))); return Value(v); }
    default: return Value();
  }
}
std::string command(Inst& x, long long a, uint64_t k) {
  if (x.cmds.empty()) return "";
  const std::string& c = x.cmds[(size_t)a % x.cmds.size()]; std::vector<Value> v; auto* q = x.e->getNewStyleCommand(c); for (size_t i = 0; i < q->valueTypes().size(); ++i) v.push_back(arg(q->valueTypes()[i], mix(k, i), x));
  note("command %s.%s", x.name.c_str(), c.c_str()); std::string res, what; bool r = raises([&] { q->setParameterValues(v); res = showValue(q->execute()); }, &what); x.list();
  if (r) { faultFired("command_refused"); return c + " refused"; }
  return c + " -> " + res;
}
void ready(Inst& x) {           // what some classes need before they can answer at all
  const std::string& cls = x.cls; uint64_t key = x.runKey; int n = x.n;
  int d = gMode == 2 || gMode == 4 ? 6 : gMode == 3 ? 3 : n; Vec z = Vec::Constant(d, .5); Mat m = Mat::Identity(d, d);
  if (cls.find("Feature") == 0 && x.name != "helper_r" && x.name != "friend_r" && key % 2) { raises([&] { cmd(*x.e, "setReference", {Value(std::string(x.side ? "friend_r" : "helper_r"))}); }); }
  if (cls == "SOT") { raises([&] { cmd(*x.e, "setSize", {Value((unsigned)d)}); }); if (key & 1) raises([&] { cmd(*x.e, "push", {Value(std::string(x.side ? "friend_t" : "helper_t"))}); }); }
  else if (cls == "Kalman") { raises([&] { cmd(*x.e, "setInitialState", {Value(z)}); cmd(*x.e, "setInitialVariance", {Value(m)}); }); }
  else if (cls == "RobotSimu") { raises([&] { cmd(*x.e, "resize", {Value((unsigned)d)}); }); }
  else if (cls == "FilterDifferentiator") { raises([&] { cmd(*x.e, "init", {Value(.1), Value(d), Value(Vec(Vec::Constant(2, .5))), Value(Vec(Vec::Constant(2, .5)))}); }); }
  else if (cls == "FeaturePosture") { raises([&] { for (int i = 6; i < d; ++i) cmd(*x.e, "selectDof", {Value((unsigned)i), Value(true)}); }); }
  else if (cls == "SmoothReach") { raises([&] { cmd(*x.e, "set", {Value(z), Value(5)}); }); }
  else if (cls == "AdmittanceControlOpPoint") { raises([&] { cmd(*x.e, "init", {Value(.005)}); }); }
  else if (cls.find("Task") == 0 || cls == "MemoryTaskSOT") { raises([&] { cmd(*x.e, "add", {Value(std::string(x.side ? "friend_f" : "helper_f"))}); }); if (key / 2 % 3 == 0) raises([&] { cmd(*x.e, "setWithDerivative", {Value(true)}); }); if (key / 6 % 3 == 0 && !x.side) raises([&] { cmd(*x.e, "add", {Value(std::string("helper_f2"))}); }); }
}
}  // namespace
