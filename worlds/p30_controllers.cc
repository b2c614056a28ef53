// P30: controllers and moved operational points follow their law at each cycle, from the inputs and settings of that cycle.
#include "units.hh"
#include <sot/core/control-gr.hh>
#include <sot/core/control-pd.hh>
#include <sot/core/admittance-control-op-point.hh>
#include <sot/core/op-point-modifier.hh>
using namespace kit;
using namespace dynamicgraph::sot;

namespace {
Mat cross(const Mat& a) { Mat m(3, 3); m << 0, -a(2), a(1), a(2), 0, -a(0), -a(1), a(0), 0; return m; }
struct Posed : Unit {
  bool frozen() const { for (auto& p : in) if (!p->held) return false; return true; }   // nothing announces itself after a failure
  Mat pose(uint64_t salt) const { Mat a = rnd(mix(salt, 1), 3, 1, 3), m = Mat::Identity(4, 4); double w = a.norm(); if (w > 1e-9) m.topLeftCorner(3, 3) = Eigen::AngleAxisd(w, Eigen::Vector3d(a / w)).toRotationMatrix(); m.topRightCorner(3, 1) = rnd(mix(salt, 2), 3); return m; }
  static Mat blocks(const Mat& r, const Mat& s) { Mat m = Mat::Zero(6, 6); m.topLeftCorner(3, 3) = m.bottomRightCorner(3, 3) = r; m.topRightCorner(3, 3) = s; return m; }   // moves (linear, angular) velocities
};
struct Pd : Posed {
  ControlPD* e;
  Pd(int k) {
    name = "PD controller"; n = k; pure = chained = true; e = new ControlPD("pd"); ent.reset(e); dg::SignalPtr<Vec, int>* s[] = {&e->KpSIN, &e->KdSIN, &e->positionSIN, &e->desiredpositionSIN, &e->velocitySIN, &e->desiredvelocitySIN};
    for (uint64_t i = 0; i < 6; ++i) port<Vec>(*s[i], [this, i](int t) { return rnd(mix(i + 1, (uint64_t)t), n + (int)(mix(key, (uint64_t)(t / 20)) % 2), 1, 3); });
    gives("control", e->controlSOUT); gives("position_error", e->positionErrorSOUT); gives("velocity_error", e->velocityErrorSOUT);
  }
  Res step(int t, int) override {
    if (!works()) return RAISE; Mat v[6]; for (size_t i = 0; i < 6; ++i) { v[i] = in[i]->at(t); if (v[i].size() != v[0].size()) return frozen() ? SKIP : RAISE; }
    val[1] = v[3] - v[2]; val[2] = v[5] - v[4]; val[0] = v[0].cwiseProduct(val[1]) + v[1].cwiseProduct(val[2]); return OK;
  }
};
struct Gr : Posed {
  ControlGR* e;
  Gr(int k) { name = "gravity compensation"; n = k; pure = true; e = new ControlGR("gr"); ent.reset(e); port<Mat>(e->matrixASIN, [this](int t) { return rnd(mix(1, (uint64_t)t), n, size(t)); }); port<Vec>(e->accelerationSIN, [this](int t) { return rnd(mix(2, (uint64_t)t), size(t)); }); port<Vec>(e->gravitySIN, [this](int t) { return rnd(mix(3, (uint64_t)t), n); }); gives("control", e->controlSOUT); }
  long size(int t) const { return n + (int)(mix(key, (uint64_t)(t / 15)) % 3); }
  int badSize(size_t i, int w) override { return i ? w : 0; }
  Res step(int t, int) override { if (!works()) return RAISE; Mat a = in[0]->at(t), x = in[1]->at(t), g = in[2]->at(t); if (a.cols() != x.size() || a.rows() != g.size()) return frozen() ? SKIP : RAISE; val[0] = a * x + g; return OK; }
};
struct Adm : Posed {
  core::AdmittanceControlOpPoint* e; bool ready = false, stepped = false; double dt = 0; Mat v, f; int at = -1, early[3] = {-1, -1, -1};
  Adm() {
    name = "admittance controller"; chained = true; e = new core::AdmittanceControlOpPoint("admittance"); ent.reset(e); v = Mat::Zero(6, 1);
    port<Vec>(e->m_KpSIN, [this](int t) { return step_(1, t, 6, 2); }); port<Vec>(e->m_KdSIN, [this](int t) { return Mat(step_(2, t, 6).cwiseAbs()); }); port<Vec>(e->m_dqSaturationSIN, [this](int t) { return Mat(step_(3, t, 6).cwiseAbs() * (mix(key, (uint64_t)(t / 7)) % 3 ? 1 : 0.05)); });
    port<Vec>(e->m_forceSIN, [this](int t) { return rnd(mix(4, (uint64_t)t), 6, 1, 10); }); port<Vec>(e->m_w_forceDesSIN, [this](int t) { return step_(5, t, 6, 5); }); port<MatrixHomogeneous>(e->m_opPoseSIN, [this](int t) { return pose(mix(6, (uint64_t)t)); }); port<MatrixHomogeneous>(e->m_sensorPoseSIN, [this](int t) { return pose(mix(7, (uint64_t)t)); });
    gives("dq", e->m_dqSOUT); gives("w_force", e->m_w_forceSINNER); gives("w_dq", e->m_w_dqSINNER);
  }
  bool holds(size_t i) override { return i != 6; }                  // the sensor moves: each cycle is computed
  int badSize(size_t i, int w) override { return i < 5 ? w : 0; }
  bool force(int t) { if (early[1] == t || !works({3, 6})) return false; Mat x = in[3]->at(t), m = in[6]->at(t); if (x.size() != 6) return false; Mat r = m.topLeftCorner(3, 3); f = blocks(r, Mat::Zero(3, 3)) * x; f.bottomRows(3) += cross(m.topRightCorner(3, 1)) * f.topRows(3); return true; }
  bool advance(int t) {
    if (at == t) return stepped; at = t; stepped = false; if (early[2] == t || !works({0, 1, 2, 4}) || !force(t)) return false; Mat p = in[0]->at(t), d = in[1]->at(t), s = in[2]->at(t), g = in[4]->at(t); if (p.size() != 6 || d.size() != 6 || s.size() != 6 || g.size() != 6) return false;
    v = v + dt * p.cwiseProduct(g - f) - d.cwiseProduct(v); v = v.cwiseMin(s).cwiseMax(-s); val[2] = v; return stepped = true;
  }
  Res step(int t, int w) override {
    if (!ready) { early[w] = t; return OK; } if (w == 1) { if (!force(t)) return RAISE; val[1] = f; return OK; }
    if (!advance(t)) return RAISE; if (w == 2) return OK; const Mat& v = val[2]; if (!works({5})) return RAISE; Mat m = in[5]->at(t), r = m.topLeftCorner(3, 3).transpose(); val[0] = Mat(6, 1); val[0].bottomRows(3) = r * v.bottomRows(3); val[0].topRows(3) = r * (v.topRows(3) - cross(m.topRightCorner(3, 1)) * v.bottomRows(3)); return OK;
  }
  void check(int w, const Mat& g) override { if (ready && w == 2) { Mat s = in[2]->at(at); for (int i = 0; i < 6; ++i) if (!(std::fabs(g(i)) <= s(i))) fail("saturation", "the velocity %g exceeds its saturation %g", g(i), s(i)); } }
  bool command(const Op& o, bool& bad) override {
    if (o.I(0) == 2) { order("resetDq", {}, bad = false); v.setZero(); return true; } if (o.I(0) == 1 && ready) return false;
    double d = 0.01 * (double)(1 + o.I(1) % 9); for (auto& q : in) if (q->out) bad = true; std::string what; bool r = raises([&] { cmd(*ent, "init", {Value(d)}); }, &what); if (r) fail("command", "init raises %s", what.c_str());   // refused by a message
    if (!bad) { ready = true; dt = d; v.setZero(); } return true;
  }
};
struct Modifier : Posed {
  OpPointModifier* e; Mat T; bool end = true; int cols;
  Modifier(int k) : cols(k) { name = "operational point modifier"; pure = true; e = new OpPointModifier("modifier"); ent.reset(e); T = Mat::Identity(4, 4); port<Mat>(e->jacobianSIN, [this](int t) { return rnd(mix(1, (uint64_t)t), cols > 1 ? 6 + in[0]->wrong : 6, cols); }); port<MatrixHomogeneous>(e->positionSIN, [this](int t) { return pose(mix(2, (uint64_t)t)); }); gives("jacobian", e->jacobianSOUT); gives("position", e->positionSOUT); }
  int badSize(size_t i, int w) override { return i ? 0 : w; }
  Res step(int t, int w) override {
    if (w == 1) { if (!works({1})) return RAISE; val[1] = in[1]->at(t) * T; return OK; }
    if (!works({0})) return RAISE; if (in[0]->at(t).rows() != 6) return RAISE; Mat r = T.topLeftCorner(3, 3), p = T.topRightCorner(3, 1);
    if (end) { Mat q = r.transpose(); val[0] = blocks(q, -q * cross(p)) * in[0]->at(t); return OK; }   // velocity of the moved point in its own frame
    if (!works({1})) return RAISE; Mat R = in[1]->at(t).topLeftCorner(3, 3); val[0] = blocks(Mat::Identity(3, 3), -cross(R * p)) * in[0]->at(t); return OK;   // in the frame of the world
  }
  bool command(const Op& o, bool&) override {
    if (o.I(0) == 1) { end = o.I(1) & 1; return order("setEndEffector", {Value(end)}, false); }
    if (o.I(0) == 0) { T = pose(mix(3, (uint64_t)o.I(1))); return order("setTransformation", {Value(Eigen::Matrix4d(T))}, false); }
    Eigen::Matrix4d g = cmd(*ent, "getTransformation").matrix4dValue(); bool b = cmd(*ent, "getEndEffector").boolValue(); if (!near(Mat(g), T, 1e-12) || b != end) fail("settings", "the transformation or the mode is not the one given"); return true;
  }
};
struct W : UnitsWorld {
  const char* property() const override { return "P30"; }
  const char* rule() const override { return "seeded histories of 10-400 operations on a PD controller, a gravity compensation, an admittance controller or an operational point modifier: skipped cycles, repeated reads, failing, missing, ill-sized and constant inputs, changes of size, settings, resets and refused initialisations between cycles; non-trivial when a fault fired"; }
  std::vector<std::string> realComponents() const override { return {"src/control/control-pd.cpp", "src/control/control-gr.cpp", "src/control/admittance-control-op-point.cpp", "src/math/op-point-modifier.cpp"}; }
  std::vector<std::string> stubComponents() const override { return {"dynamic-graph (stand-in)", "pinocchio's spatial algebra (stand-in)", "input signals"}; }
  std::vector<std::string> assumptions() const override { return {"a failed evaluation is not tried again within its cycle", "cycles go forward", "poses are rigid", "the pose of the force sensor changes at each cycle"}; }
  int kinds() const override { return 4; }
  std::unique_ptr<Unit> make(const Op& s) override { Unit* x; int k = (int)s.I(1); switch (s.I(0) % 4) { case 0: x = new Pd(k); break; case 1: x = new Gr(k); break; case 2: x = new Adm; break; default: x = new Modifier(k); } return std::unique_ptr<Unit>(x); }
};
}  // namespace
sim::World* sim::makeWorld() { return new W; }
