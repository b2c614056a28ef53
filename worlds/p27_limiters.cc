// P27: limiters keep their output inside the limits, generators of references go where they are told.
#include "units.hh"
#define private public
#include <sot/core/clamp-workspace.hh>
#undef private
#include <sot/core/binary-int-to-uint.hh>
#include <sot/core/com-freezer.hh>
#include <sot/core/gradient-ascent.hh>
#include <sot/core/gripper-control.hh>
#include <sot/core/joint-limitator.hh>
#include <sot/core/matrix-geometry.hh>
#include <sot/core/motion-period.hh>
#include <sot/core/neck-limitation.hh>
#include <sot/core/smooth-reach.hh>
using namespace kit;
using namespace dynamicgraph::sot;

namespace {
struct Limits : Unit {
  JointLimitator* e; bool free;
  Limits(int k, bool ff) : free(ff) {
    name = "joint limitator"; pure = true; n = k; e = new JointLimitator("limits"); ent.reset(e); int q = n + (free ? 6 : 0);
    port<Vec>(e->jointSIN, [this, q](int t) { return rnd(mix(1, (uint64_t)t), q); }); port<Vec>(e->upperJlSIN, [this, q](int t) { return Mat(rnd(mix(2, (uint64_t)t), q).array() * 0.5 + 0.4); });
    port<Vec>(e->lowerJlSIN, [this, q](int t) { return Mat(rnd(mix(3, (uint64_t)t), q).array() * 0.5 - 0.4); }); port<Vec>(e->controlSIN, [this](int t) { return rnd(mix(4, (uint64_t)t), n, 1, 60); });
    gives("control", e->controlSOUT); gives("width", e->widthJlSINTERN);
  }
  Res step(int t, int w) override {
    if (w == 1) { if (!works({1, 2})) return RAISE; Mat U = in[1]->at(t), L = in[2]->at(t); if (L.size() < U.size()) return RAISE; val[1] = U - L.topRows(U.size()); return OK; }
    if (!works()) return RAISE; Mat q = in[0]->at(t), U = in[1]->at(t), L = in[2]->at(t), c = in[3]->at(t); long d = q.size() - c.size(); if (d < 0 || U.size() < q.size() || L.size() < q.size()) return RAISE;
    val[0] = c; for (long i = 0; i < c.size(); ++i) { double x = q(i + d) + c(i) * 0.005; if (i + d >= 6 && !(x < U(i + d) && x > L(i + d))) val[0](i) = 0; } return OK;
  }
};
struct Neck : Unit {
  NeckLimitation* e;
  Neck() { name = "neck limitation"; pure = true; e = new NeckLimitation("neck"); ent.reset(e); port<Vec>(e->jointSIN, [this](int t) { Mat q = rnd(mix(1, (uint64_t)t), 16 + (key % 3 == 0 ? 2 : 0)); if (mix(key, (uint64_t)t) % 5 == 0) q(14) *= 2e-3; return q; }); gives("joint", e->jointSOUT); }
  Res step(int t, int) override { if (!works()) return RAISE; Mat q = in[0]->at(t); if (q.size() < 16) return RAISE; double top = 0.6981 - (std::fabs(q(14)) < 1e-3 ? 0 : 25.0 / 42.0 * std::fabs(q(14))); if (q(15) > top) q(15) = top; val[0] = q; return OK; }
};
struct Space : Unit {
  ClampWorkspace* e; int at = -1;   // the cycle of the last evaluation, which serves the three outputs
  static Mat pose(const Mat& v, const Mat& w) { Mat m = Mat::Identity(4, 4); m.topLeftCorner(3, 3) = (Eigen::AngleAxisd(3 * w(0), Eigen::Vector3d::UnitZ()) * Eigen::AngleAxisd(1.5 * w(1), Eigen::Vector3d::UnitY()) * Eigen::AngleAxisd(3 * w(2), Eigen::Vector3d::UnitX())).toRotationMatrix(); m.topRightCorner(3, 1) = v; return m; }
  Space(int md, bool ref) {
    name = "workspace clamp"; pure = true; e = new ClampWorkspace("clamp"); ent.reset(e); tol = 1e-7; e->mode = md; if (ref) e->frame = ClampWorkspace::FRAME_REF;
    for (int i = 0; i < 2; ++i) { auto f = [this, i](int t) { if (i) { Mat w = rnd(mix(7, (uint64_t)t), 3, 1, 0.3); w(0) += 0.3; w(1) -= 0.3; w(2) += 0.3; Mat b = pose(rnd(mix(2, (uint64_t)in[0]->held ? 5 : (uint64_t)t), 3), rnd(mix(3, (uint64_t)t), 3)); return Mat(b * pose(w, rnd(mix(4, (uint64_t)t), 3, 1, 0.5))); } return pose(rnd(mix(2, (uint64_t)t), 3), rnd(mix(3, (uint64_t)t), 3)); }; if (i) port<MatrixHomogeneous>(e->positionSIN, f); else port<MatrixHomogeneous>(e->positionrefSIN, f); }
    gives("alpha", e->alphaSOUT); gives("alphabar", e->alphabarSOUT); gives("ref", e->handrefSOUT);
  }
  int badSize(size_t, int) override { return 0; }
  static double ramp(double d, double lo, double hi) { double y = std::min(1.0, std::max(0.0, (d - lo) / (hi - lo))); return 0.5 * (1 + std::tanh(1 / y - 1 / (1 - y))); }
  Res step(int t, int w) override {
    if (!works() && at != t) return RAISE; Mat p = in[0]->at(t).inverse() * in[1]->at(t); at = t; double lo[] = {0.15, -0.4, 0.15}, hi[] = {0.5, -0.25, 0.55};
    if (w == 2) { Mat r(4, 4); double yaw = -30. * 3.14159 / 180. + 35. * 3.14159 / 180. * (p(1, 3) - lo[1]) / (hi[1] - lo[1]); r.setIdentity(); r.topLeftCorner(3, 3) = (Eigen::AngleAxisd(yaw, Eigen::Vector3d::UnitZ()) * Eigen::AngleAxisd(-3.14159256 / 2, Eigen::Vector3d::UnitY())).toRotationMatrix(); for (int i = 0; i < 3; ++i) r(i, 3) = (lo[i] + hi[i]) / 2; val[2] = r; return OK; }
    Mat a = Mat::Zero(6, 6); for (int i = 0; i < 3; ++i) { double d = std::min(std::max(p(i, 3) - lo[i], 0.), std::max(hi[i] - p(i, 3), 0.)); a(i, i) = e->mode == 0 ? 0 : e->mode == 1 ? 1 : ramp(d, 0.019, 0.025); if (i == 2 && e->mode == 2) a(5, 5) = ramp(d, 0.019, 0.119); }
    if (w == 1) a = Mat::Identity(6, 6) - a;
    if (e->frame == ClampWorkspace::FRAME_POINT) { Mat R = Mat::Zero(6, 6); R.topLeftCorner(3, 3) = R.bottomRightCorner(3, 3) = p.topLeftCorner(3, 3); a = R.transpose() * a * R; }
    val[(size_t)w] = a; return OK;
  }
};
struct Reach : Unit {
  SmoothReach* e; Mat goal, start; int t0 = 0, len = -1, mode = 2; double beta = 1.2; bool asked = false, on = false;
  Reach(int k) { name = "smooth reach"; n = k; e = new SmoothReach("reach"); ent.reset(e); port<Vec>(e->startSIN, [this](int t) { return rnd(mix(1, (uint64_t)t), n); }); gives("goal", e->goalSOUT); }
  Res step(int t, int) override {
    if (asked) { if (!works()) return RAISE; Mat s = in[0]->at(t); if (s.size() != goal.size()) return RAISE; start = s; t0 = t; asked = false; on = true; }
    if (!on) { val[0] = Mat(); return OK; }
    double x = len <= 0 ? 1 : std::min(1.0, double(t - t0) / len), f = mode == 0 ? x : mode == 1 ? std::tanh(beta / (1 - x) - beta / x) / 2 + 0.5 : std::atan(beta / (1 - x) - beta / x) / M_PI + 0.5; val[0] = start * (1 - f) + goal * f; return OK;
  }
  void check(int, const Mat& g) override { if (!on) return; for (long i = 0; i < g.size(); ++i) if (!(g(i) >= std::min(start(i), goal(i)) - 1e-9 && g(i) <= std::max(start(i), goal(i)) + 1e-9)) fail("overshoot", "the reference leaves the way from the start to the goal"); }
  bool command(const Op& o, bool& bad) override {
    if (o.I(0) == 0) { int m = (int)(o.I(1) % 3); double b = 0.1 * (double)(1 + o.I(1) % 20); if (o.I(2) == 9) m = 3; if (o.I(2) == 8) m = -1; if (o.I(2) == 7) b = o.I(1) & 1 ? 0 : NAN; bad = m < 0 || m > 2 || (m && !(b > 0)); if (order("param", {Value(m), Value(b)}, bad)) { mode = m; beta = b; } return true; }
    long sz = o.I(2) == 9 ? n + 1 : o.I(2) == 8 ? n - 1 : n; goal = rnd(mix(9, (uint64_t)o.I(1)), sz); len = o.I(2) == 7 ? (o.I(1) & 1 ? 0 : -3) : (int)(1 + o.I(1) % 40); if (o.I(2) >= 7) faultFired(o.I(2) == 7 ? "no_duration" : "goal_ill_sized"); asked = true; order("set", {Value(Vec(goal)), Value(len)}, false);
    if (e->getGoal() != Vec(goal) || e->getLength() != len) fail("settings", "the goal does not read back"); return true;
  }
};
struct Freeze : Unit {
  CoMFreezer* e; Mat com; bool walking = false; int stop = -1;
  Freeze() { name = "center of mass freezer"; e = new CoMFreezer("freezer"); ent.reset(e); port<Vec>(e->CoMRefSIN, [this](int t) { return rnd(mix(1, (uint64_t)t), 3); }); port<unsigned>(e->PGInProcessSIN, [this](int t) { return Mat::Constant(1, 1, (double)(mix(key, (uint64_t)(t / (5 + (int)(key % 250)))) % 2)); }); gives("com", e->freezedCoMSOUT); com = Mat::Zero(3, 1); }
  int badSize(size_t, int) override { return 0; }
  Res step(int t, int) override {
    if (!in[1]->works()) return RAISE; bool pg = in[1]->at(t)(0) != 0;
    bool stops = !pg && walking, follow = pg || stops || t < stop + 200 || stop < 0; if (stops || (stop < 0 && in[0]->works())) stop = t; if (follow) { if (!in[0]->works()) return RAISE; com = in[0]->at(t); walking = pg; } val[0] = com; return OK;
  }
};
struct Grip : Unit {
  GripperControlPlugin* e; Mat factor; double offset = 0.9;
  Grip(int k, int deep) { name = "gripper control"; n = k + 1; e = new GripperControlPlugin("gripper"); ent.reset(e); tol = 1e-7; bool all = deep == 3;
    auto slow = [this](uint64_t s, int t, double a) { Mat m = rnd(mix(s, (uint64_t)(t / (key % 4 == 0 ? 700 : 9))), n, 1, a); return key % 2 ? m : Mat((m.array() * 2).round() / 2); };   // on a grid half of the time: values meet their limits
    port<Vec>(e->positionFullSizeSIN, [slow](int t) { return slow(1, t, 1); }); port<Vec>(e->torqueFullSizeSIN, [this, slow](int t) { return key % 11 == 5 ? Mat(0, 1) : slow(2, t, 2); }); port<Vec>(e->torqueLimitFullSizeSIN, [slow](int t) { return Mat(slow(3, t, 0.4).array() + 0.5); });
    port<Flags>(e->selectionSIN, [this, all](int t) { Mat f = Mat::Constant(n, 1, 1); if (!all) for (int i = 0; i < n; ++i) f(i) = (double)(mix(key, mix((uint64_t)(t / 300), (uint64_t)i)) % 3 != 0); return f; });
    port<Vec>(e->positionDesSIN, [this](int t) { Mat f = in[3]->at(t); long k = (f.array() != 0).count(); Mat m = rnd(mix(5, (uint64_t)(t / 9)), k, 1, 2); return key % 2 ? m : Mat((m.array() * 2).round() / 2); }); gives("reference", e->desiredPositionSOUT); }
  int badSize(size_t i, int w) override { return i == 3 ? 0 : w; }
  Mat pick(int i, int t) { Mat f = in[3]->at(t), v = in[(size_t)i]->at(t); std::vector<double> r; for (long j = 0; j < v.size(); ++j) if (j < f.size() && f(j)) r.push_back(v(j)); return Eigen::Map<Vec>(r.data(), (long)r.size()); }
  Res step(int t, int) override {
    if (!works()) return RAISE; Mat q = pick(0, t), T = pick(1, t), L = pick(2, t), d = in[4]->at(t); long k = q.size(); if (d.size() != k) return RAISE; if (T.size() && (T.size() < k || L.size() < k)) return RAISE;
    if (factor.size() != k) factor = Mat::Constant(k, 1, 1.0); val[0] = q;
    for (long i = 0; i < k; ++i) { if (T.size()) { bool over = (T(i) > L(i) && d(i) > q(i)) || (T(i) < -L(i) && d(i) < q(i)); factor(i) = over ? std::max(factor(i) * offset, std::numeric_limits<double>::min()) : std::min(1.0, factor(i) / offset); } val[0](i) = q(i) + (d(i) - q(i)) * factor(i); }
    return OK;
  }
  bool command(const Op& o, bool& bad) override { double v = o.I(2) == 9 ? NAN : o.I(2) == 8 ? 0 : o.I(2) == 7 ? 1 : o.I(0) == 0 ? 1e-100 : 0.09 * (double)(1 + o.I(1) % 10); bad = !(v > 0 && v < 1); if (order("offset", {Value(v)}, bad)) offset = v; return true; }
};
struct Climb : Unit {
  GradientAscent* e; bool on = false;
  Climb(int k) { name = "gradient ascent"; n = k; e = new GradientAscent("climb"); ent.reset(e); port<Vec>(e->gradientSIN, [this](int t) { return rnd(mix(1, (uint64_t)t), n); }); port<double>(e->learningRateSIN, [this](int t) { return rnd(mix(2, (uint64_t)t), 1); }); gives("value", e->valueSOUT); }
  bool holds(size_t) override { return true; }   // it climbs at every cycle even so
  int badSize(size_t i, int w) override { return i ? 0 : w; }
  Res step(int t, int) override { if (!works()) return RAISE; Mat g = in[0]->at(t); if (on && g.size() != val[0].size()) return RAISE; if (!on) val[0] = Mat::Zero(g.size(), 1); on = true; val[0] += in[1]->at(t)(0) * g; return OK; }
};
struct Motion : Unit {
  struct Open : MotionPeriod { Open() : MotionPeriod("motion") {} void put(uint64_t k, int n) { resize((unsigned)n); for (int i = 0; i < n; ++i) { auto& p = motionParams[(size_t)i]; uint64_t h = mix(k, (uint64_t)i); p.motionType = (MotionPeriodType)(h % 3); p.period = (unsigned)(1 + h / 3 % 17); p.initPeriod = (unsigned)(h / 100 % 30); p.amplitude = u(h); p.initAmplitude = u(h + 1); } }
    double at(int i, int t) const { auto& p = motionParams[(size_t)i]; double x = 2 * M_PI * (t - (int)p.initPeriod) / (double)p.period; return p.initAmplitude + p.amplitude * (p.motionType == MOTION_CONSTANT ? 1 : p.motionType == MOTION_SIN ? std::sin(x) : std::cos(x)); } } *e;
  Motion(int k) { name = "periodic motion"; n = k; e = new Open; ent.reset(e); tol = 1e-7; gives("motion", e->motionSOUT); e->put((uint64_t)k, n); }
  Res step(int t, int) override { val[0] = Mat(n, 1); for (int i = 0; i < n; ++i) val[0](i) = e->at(i, t); return OK; }
  bool command(const Op& o, bool&) override { n = (int)(o.I(2) % 5); e->put((uint64_t)o.I(1), n); return true; }
};
struct Sign : Unit {
  BinaryIntToUint* e; Sign() { name = "sign"; pure = true; e = new BinaryIntToUint("sign"); ent.reset(e); port<int>(e->binaryIntSIN, [this](int t) { return Mat::Constant(1, 1, (double)((int)(mix(key, (uint64_t)t) % 7) - 3)); }); gives("sout", e->binaryUintSOUT); }
  int badSize(size_t, int) override { return 0; }
  Res step(int t, int) override { if (!works()) return RAISE; val[0] = Mat::Constant(1, 1, in[0]->at(t)(0) < 0 ? 0 : 1); return OK; }
};
struct W : UnitsWorld {
  const char* property() const override { return "P27"; }
  const char* rule() const override { return "seeded histories of 10-400 operations on one of nine limiters and reference generators: skipped cycles, repeated reads in any order, failing, missing, ill-sized and constant inputs, settings and refused settings in the middle of a motion; non-trivial when a fault fired"; }
  std::vector<std::string> realComponents() const override { return {"src/tools/joint-limitator.cpp", "src/tools/neck-limitation.cpp", "src/tools/clamp-workspace.cpp", "src/tools/smooth-reach.cpp", "src/tools/com-freezer.cpp", "src/tools/gripper-control.cpp", "src/tools/gradient-ascent.cpp", "src/tools/motion-period.cpp", "src/tools/binary-int-to-uint.cpp", "src/sot/flags.cpp"}; }
  std::vector<std::string> stubComponents() const override { return {"dynamic-graph (stand-in)", "input signals"}; }
  std::vector<std::string> assumptions() const override { return {"a failed evaluation is not tried again within its cycle", "cycles go forward", "poses are rigid transformations", "the modes of the workspace clamp that no command selects are set in memory"}; }
  int kinds() const override { return 9; }
  std::unique_ptr<Unit> make(const Op& s) override {
    Unit* x; int k = (int)s.I(1), v = (int)s.I(2);
    switch (s.I(0) % 9) { case 0: x = new Limits(k, v & 1); break; case 1: x = new Neck; break; case 2: x = new Space(v == 0 ? 0 : v == 3 ? 2 : 1, k & 1); break; case 3: x = new Reach(k); break; case 4: x = new Freeze; break; case 5: x = new Grip(k, v); break; case 6: x = new Climb(k); break; case 7: x = new Motion(k); break; default: x = new Sign; }
    return std::unique_ptr<Unit>(x);
  }
};
}  // namespace
sim::World* sim::makeWorld() { return new W; }
