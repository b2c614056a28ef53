// P28: estimators advance by one step of their recursion at each cycle computed, from the measurements of that cycle.
#include "kit.hh"
#include <fstream>
#include <sot/core/causal-filter.hh>
#include <sot/core/exp-moving-avg.hh>
#include <sot/core/filter-differentiator.hh>
#include <sot/core/kalman.hh>
#include <sot/core/madgwickahrs.hh>
// the log of the differentiator goes to a stand-in of the file
static bool diskFails = false; static long logged = 0;
namespace std { struct ofstream_sim : ofstream { void open(const char*, ios_base::openmode) { ++logged; setstate(diskFails ? ios_base::failbit : ios_base::badbit); } }; }
#define ofstream ofstream_sim
#include "../src/filters/filter-differentiator.cpp"
#undef ofstream
using namespace kit;
using namespace dynamicgraph::sot;

namespace {
enum Res { OK, RAISE, SAME };                // a step of the model: computed, must raise, gives its last value
struct Unit {
  std::vector<std::unique_ptr<Port>> in; std::vector<std::pair<std::string, Out>> out; std::unique_ptr<dg::Entity> ent; uint64_t key = 0; int n = 2; std::vector<Mat> val; double tol = 1e-9;
  virtual ~Unit() {}
  virtual Res step(int t, int which) = 0;
  virtual bool command(const std::string& w, const Op& o, bool& refused) { (void)w; (void)o; (void)refused; return false; }   // true: it was one of ours
  virtual void got(int, const Mat&) {}
  bool works() const { for (auto& p : in) if (!p->works()) return false; return true; }
  Mat rnd(uint64_t salt, long r, long c = 1, double s = 1) const { Mat m(r, c); for (long i = 0; i < m.size(); ++i) m(i) = s * u(mix(key, mix(salt, (uint64_t)i))); return m; }
  template <class T> void port(dg::SignalPtr<T, int>& s, std::function<Mat(int)> f) { in.emplace_back(new PortOf<T>(s, f)); }
};
struct Ema : Unit {
  ExpMovingAvg* e; double a = 0; bool started = false;
  Ema(int k) { n = k; e = new ExpMovingAvg("ema"); ent.reset(e); port<Vec>(e->updateSIN, [this](int t) { return rnd(mix(1, (uint64_t)t), n); }); out.push_back({"average", outOf(e->averageSOUT)}); val.resize(1); }
  Res step(int t, int) override { if (!works()) return RAISE; Mat x = in[0]->at(t); if (started && x.size() != val[0].size()) return RAISE; if (!started) val[0] = Mat::Zero(x.size(), 1); started = true; val[0] = a * val[0] + (1 - a) * x; return OK; }
  bool command(const std::string& w, const Op& o, bool& bad) override { if (w != "set") return false; double v = o.I(1) == 9 ? NAN : o.I(1) == 8 ? -0.25 : o.I(1) == 7 ? 1.25 : 0.25 * (double)(o.I(0) % 5); bad = !(v >= 0 && v <= 1);
    bool r = raises([&] { cmd(*ent, "setAlpha", {Value(v)}); }); if (r != bad) fail("command", "an alpha of %g was %s", v, r ? "refused" : "accepted"); if (!r) a = v; return true; }
};
struct Kal : Unit {
  Kalman* e; Mat x, P, K; int m, lastP = -1, lastPok = 0;
  Kal(int k, int mm, bool zero) : m(mm) {
    n = k; e = new Kalman("kalman"); ent.reset(e); tol = 1e-7;
    port<Vec>(e->measureSIN, [this](int t) { return rnd(mix(1, (uint64_t)t), m); }); port<Vec>(e->statePredictedSIN, [this](int t) { return rnd(mix(2, (uint64_t)t), n); }); port<Vec>(e->observationPredictedSIN, [this](int t) { return rnd(mix(3, (uint64_t)t), m); });
    port<Mat>(e->modelTransitionSIN, [this](int t) { return rnd(mix(4, (uint64_t)t), n, n, 0.6); }); port<Mat>(e->modelMeasureSIN, [this](int t) { return rnd(mix(5, (uint64_t)t), m, n); });
    port<Mat>(e->noiseTransitionSIN, [this](int t) { Mat a = rnd(mix(6, (uint64_t)t), n, n); return Mat(a * a.transpose() + 0.1 * Mat::Identity(n, n)); }); port<Mat>(e->noiseMeasureSIN, [this](int t) { Mat a = rnd(mix(7, (uint64_t)t), m, m); return Mat(a * a.transpose() + 0.5 * Mat::Identity(m, m)); });
    out.push_back({"x_est", outOf(e->stateUpdateSOUT)}); out.push_back({"P", outOf(e->varianceUpdateSOUT)}); val.resize(2);
    if (zero) { e->stateUpdateSOUT.setTime(-1); e->varianceUpdateSOUT.setTime(-1); }   // the outputs have never been computed, the initial ones are those of time 0
    initial(0); variance(0); val[0] = x; val[1] = P;
  }
  void initial(uint64_t k) { x = rnd(mix(8, k), n); cmd(*ent, "setInitialState", {Value(Vec(x))}); }
  void variance(uint64_t k) { Mat a = rnd(mix(9, k), n, n); P = a * a.transpose() + 0.2 * Mat::Identity(n, n); cmd(*ent, "setInitialVariance", {Value(dg::Matrix(P))}); }
  Res step(int t, int which) override {
    if (t == 0) return OK;
    if (lastP != t) {
      lastP = t; lastPok = in[3]->works() && in[4]->works() && in[5]->works() && in[6]->works(); if (!lastPok) return RAISE;
      Mat F = in[3]->at(t), H = in[4]->at(t), Q = in[5]->at(t), R = in[6]->at(t); Mat p = F * P * F.transpose() + Q, S = H * p * H.transpose() + R; K = S.ldlt().solve(H * p.transpose()).transpose(); P = (Mat::Identity(n, n) - K * H) * p; val[1] = P;
    }
    if (!lastPok) return SAME;                 // a failed evaluation is not tried again within its cycle
    if (which == 1) return OK;
    if (!in[0]->works() || !in[1]->works() || !in[2]->works()) return RAISE;
    Mat xp = in[1]->at(t); x = xp + K * (in[0]->at(t) - in[2]->at(t)); val[0] = x; return OK;
  }
  bool command(const std::string& w, const Op& o, bool&) override { if (w == "set") { variance((uint64_t)o.I(0)); return true; } if (w == "init") { initial((uint64_t)o.I(0)); return true; } return false; }
};
struct Diff : Unit {
  FilterDifferentiator* e; bool ready = false; double dt = 0.1; Mat num, den; std::vector<Mat> xs, ys; bool first = true; int size = 0;
  Diff(int k) { n = k; e = new FilterDifferentiator("diff"); ent.reset(e); port<Vec>(e->m_xSIN, [this](int t) { return rnd(mix(1, (uint64_t)t), n); }); out.push_back({"x_filtered", outOf(e->m_x_filteredSOUT)}); out.push_back({"dx", outOf(e->m_dxSOUT)}); out.push_back({"ddx", outOf(e->m_ddxSOUT)}); val.resize(3); tol = 1e-7; }
  Mat coefs(long long s, bool d) { Mat c = rnd(mix(20, (uint64_t)s), 1 + s % 4, 1, d ? 0.2 : 1); if (d) c(0) = 1; return c; }
  void restart(const Mat& at) { xs.assign(8, at); ys.assign(8, Mat(at * (num.sum() / den.sum()))); }
  Mat cur;
  Res step(int t, int which) override {
    if (which) { }
    if (done == t) return ok ? OK : SAME;
    done = t; ok = false; if (!ready || !works()) return RAISE; Mat x = in[0]->at(t); if (x.rows() != size) return RAISE;
    if (first) { restart(x); first = false; }
    xs.insert(xs.begin(), x); cur = x; Mat y = Mat::Zero(size, 1); for (long i = 0; i < num.size(); ++i) y += num(i) * xs[(size_t)i]; for (long i = 1; i < den.size(); ++i) y -= den(i) * ys[(size_t)i - 1]; y /= den(0);
    val[0] = y; val[1] = (y - ys[0]) / dt; val[2] = (y - 2 * ys[0] + ys[1]) / dt / dt; ys.insert(ys.begin(), y); xs.resize(8); ys.resize(8); ok = true; return OK;
  }
  int done = -1; bool ok = false;
  bool command(const std::string& w, const Op& o, bool& bad) override {
    Mat a = coefs(o.I(0), false), b = coefs(o.I(1), true); diskFails = o.I(2) == 3; if (diskFails) faultFired("log_disk_fails");
    if (w == "init") { double d = 0.01 * (double)(1 + o.I(0) % 7); int s = o.I(1) % 5 == 4 ? n + 1 : n; bad = false; bool r = raises([&] { cmd(*ent, "init", {Value(d), Value(s), Value(Vec(a)), Value(Vec(b))}); }); if (r) fail("command", "init was refused"); ready = true; first = true; size = s; dt = d; num = a; den = b; val.assign(3, Mat());
      if (cmd(*ent, "getTimestep").doubleValue() != d || cmd(*ent, "getSize").intValue() != s) fail("settings", "the time step or the size does not read back"); diskFails = false; return true; }
    if (w == "set") { bad = !ready; bool r = raises([&] { cmd(*ent, "switch_filter", {Value(Vec(a)), Value(Vec(b))}); }); diskFails = false; if (r != bad) fail("command", "a filter switch %s was %s", ready ? "of an initialised entity" : "before initialisation", r ? "refused" : "accepted"); if (!r) { num = a; den = b; if (!first) restart(cur); } return true; }
    return false;
  }
};
struct Imu : Unit {
  MadgwickAHRS* e; Eigen::Vector4d q; double beta = betaDef, dt = 0; bool ready = false, loose = false;
  Imu() : q(1, 0, 0, 0) { e = new MadgwickAHRS("imu"); ent.reset(e); port<Vec>(e->m_accelerometerSIN, [this](int t) { Mat a = rnd(mix(1, (uint64_t)t), 3, 1, 10); if (mix(key, (uint64_t)t) % 9 == 0) a.setZero(); return a; }); port<Vec>(e->m_gyroscopeSIN, [this](int t) { return rnd(mix(2, (uint64_t)t), 3, 1, 2); }); out.push_back({"imu_quat", outOf(e->m_imu_quatSOUT)}); val.resize(1); tol = 1e-8; }
  Res step(int t, int) override {
    if (!ready) return SAME; if (!works()) return RAISE; Mat a = in[0]->at(t), g = in[1]->at(t); if (a.rows() < 3 || g.rows() < 3) return RAISE;
    Eigen::Vector4d d(-q(1) * g(0) - q(2) * g(1) - q(3) * g(2), q(0) * g(0) + q(2) * g(2) - q(3) * g(1), q(0) * g(1) - q(1) * g(2) + q(3) * g(0), q(0) * g(2) + q(1) * g(1) - q(2) * g(0)); d *= 0.5; loose = false;
    if (a(0) || a(1) || a(2)) {
      Eigen::Vector3d v = Mat(a.topRows(3)); v.normalize(); Eigen::Vector3d f(2 * (q(1) * q(3) - q(0) * q(2)) - v(0), 2 * (q(0) * q(1) + q(2) * q(3)) - v(1), 2 * (0.5 - q(1) * q(1) - q(2) * q(2)) - v(2));
      Eigen::Matrix<double, 3, 4> J; J << -2 * q(2), 2 * q(3), -2 * q(0), 2 * q(1), 2 * q(1), 2 * q(0), 2 * q(3), 2 * q(2), 0, -4 * q(1), -4 * q(2), 0; Eigen::Vector4d s = J.transpose() * f; if (s.norm() > 1e-6) d -= beta * s.normalized(); else loose = true;
    }
    q += d * dt; q.normalize(); val[0] = q; return OK;
  }
  void got(int, const Mat& g) override { if (g.size() == 4) q = g; }
  bool command(const std::string& w, const Op& o, bool& bad) override {
    if (w == "init") { double d = o.I(1) == 9 ? NAN : o.I(1) == 8 ? 0 : o.I(1) == 7 ? -0.1 : 0.001 * (double)(1 + o.I(0)); bad = !(d > 0); raises([&] { cmd(*ent, "init", {Value(d)}); }); if (!bad) { dt = d; ready = true; } return true; }
    if (w == "set") { double b = o.I(1) == 9 ? NAN : o.I(1) == 8 ? -0.25 : o.I(1) == 7 ? 1.25 : 0.25 * (double)(o.I(0) % 5); bad = !(b >= 0 && b <= 1); raises([&] { cmd(*ent, "setBeta", {Value(b)}); }); if (!bad) beta = b; if (cmd(*ent, "getBeta").doubleValue() != beta) fail("settings", "beta reads %g, it was set to %g", cmd(*ent, "getBeta").doubleValue(), beta); return true; }
    if (w == "quat") { long k = o.I(1) >= 8 ? 3 : 4; Mat v = rnd(mix(30, (uint64_t)o.I(0)), k); v.normalize(); bad = k != 4; std::string what; raises([&] { cmd(*ent, "set_imu_quat", {Value(Vec(v))}); }, &what); if (what.find("eigen_assert") != std::string::npos) fail("out-of-bounds", "an orientation of %ld numbers is read out of bounds", k); if (!bad) q = v; return true; }
    return false;
  }
};
struct W : World {
  const char* property() const override { return "P28"; }
  const char* rule() const override {
    return "seeded histories of 10-100 cycles of one of four estimators (moving average, Kalman, differentiator, attitude): skipped cycles, repeated reads in any order, failing, missing, ill-sized and constant inputs, settings, refused settings, reinitialisations, log disk errors; "
           "non-trivial when a fault fired";
  }
  const char* simTimeMeaning() const override { return "control cycles"; }
  std::vector<std::string> realComponents() const override { return {"src/tools/exp-moving-avg.cpp", "src/tools/kalman.cpp", "src/filters/filter-differentiator.cpp", "src/filters/causal-filter.cpp", "src/filters/madgwickahrs.cpp"}; }
  std::vector<std::string> stubComponents() const override { return {"dynamic-graph (stand-in)", "input signals", "log file of the differentiator", "clock of the profiler"}; }
  std::vector<std::string> assumptions() const override { return {"a failed evaluation is not tried again within its cycle", "matrices of the Kalman filter fit together", "filter coefficients are well formed (P18)", "inputs are finite"}; }
  void generate(Rng& r, Plan& p) override {
    bool clean = r.chance(1, 6); int n = (int)r.range(10, 100); long long k = r.range(0, 3);
    p.ops.push_back(Op("setup", {k, r.range(1, 4), r.range(1, 3), r.range(0, 1), r.range(0, 1000000), r.range(1, 3)}));
    if (k == 1 && r.chance(1, 2)) for (int i = 3; i < 7; ++i) if (r.chance(2, 3)) p.ops.push_back(Op("hold", {i, r.range(0, 99)}));
    if (r.chance(7, 8)) p.ops.push_back(Op("init", {r.range(0, 99), r.range(0, 3), 0}));
    for (int i = 0; i < n; ++i) switch (r.weighted({30, clean ? 0 : 5, 4, 3, 1, 2})) {
      case 0: p.ops.push_back(Op("read", {r.chance(1, 3) ? 0 : r.chance(1, 5) ? r.range(2, 9) : 1, r.range(0, 2)})); break;
      case 1: p.ops.push_back(Op("fault", {r.range(0, 6), r.range(0, 3), r.range(0, 1)})); break;
      case 2: p.ops.push_back(Op("heal")); break;
      case 3: p.ops.push_back(Op("set", {r.range(0, 99), r.range(0, clean ? 6 : 9), r.range(0, 3)})); break;
      case 4: p.ops.push_back(Op("init", {r.range(0, 99), r.range(0, clean ? 6 : 9), r.range(0, 3)})); break;
      case 5: p.ops.push_back(Op(r.chance(1, 2) ? "quat" : "hold", {r.range(0, 99), r.range(0, clean ? 6 : 9)})); break;
    }
  }
  void execute(const Plan& p) override {
    Silence quiet; clk.on = true; clk.perCallNs = 1000; if (p.ops.empty() || p.ops[0].name != "setup") return;
    const Op& s = p.ops[0]; std::unique_ptr<Unit> x; int kind = (int)s.I(0) % 4; bool zero = kind == 1 && s.I(3);
    switch (kind) { case 0: x.reset(new Ema((int)s.I(1))); break; case 1: x.reset(new Kal((int)s.I(1), (int)s.I(2), zero)); break; case 2: x.reset(new Diff((int)s.I(1))); break; default: x.reset(new Imu()); }
    x->key = (uint64_t)s.I(4); int t = zero ? 0 : (int)s.I(5); static const char* names[] = {"moving average", "Kalman filter", "differentiator", "attitude estimator"};
    size_t no = x->out.size(); std::vector<int> done(no, -1); std::vector<char> good(no, 0); std::vector<Mat> given(no);
    auto read = [&](size_t o) {
      if (done[o] == t && !good[o]) return; std::string what; Mat g; bool repeat = done[o] == t; Res e = repeat ? OK : x->step(t, (int)o); if (!repeat && e == SAME && kind != 3) { done[o] = t; good[o] = 0; if (kind != 1) raises([&] { g = x->out[o].second(t); }); return; }
      bool r = raises([&] { g = x->out[o].second(t); }, &what); checks(); ev("%s %d raised %d", x->out[o].first.c_str(), t, r); done[o] = t; good[o] = e == OK;
      if (what.find("eigen_assert") != std::string::npos) fail("out-of-bounds", "cycle %d of the %s goes outside its data", t, names[kind]);
      if (e == RAISE) { if (!r) fail("failure-hidden", "cycle %d of the %s gives a value without a proper input", t, names[kind]); return; }
      if (r) fail("raised", "cycle %d of the %s: %s", t, names[kind], what.c_str());
      const Mat& w = e == SAME ? given[o] : x->val[o];
      if (kind == 3 && e == OK && !repeat && static_cast<Imu&>(*x).loose) { if (g.size() != 4 || !((g - w).norm() < 1e-2 * 50) || !near(g.norm(), 1, 1e-9)) fail("value", "the attitude is %s", str(g).c_str()); }
      else if (w.size() + g.size() == 0) {}
      else if (w.rows() != g.rows() || w.cols() != g.cols() || !near(g, w, x->tol)) fail("value", "%s of the %s at cycle %d is %s, its recursion gives %s", x->out[o].first.c_str(), names[kind], t, str(g).c_str(), str(w).c_str());
      given[o] = g; if (e == OK && !repeat) x->got((int)o, g);
    };
    for (auto& o : p.ops) {
      if (o.name == "read") { t += (int)o.I(0); simTime((double)o.I(0)); read((size_t)o.I(1) % no); if (kind == 1 && !good[0] && done[0] == t) read(1); uint64_t c = (uint64_t)kind; for (auto& q : x->in) c = mix(c, (uint64_t)(q->held * 4 + q->fails * 2 + q->out + 8 * (q->wrong != 0))); cover(mix(c, (uint64_t)o.I(1) % no)); }
      else if (o.name == "fault") { Port& q = *x->in[(size_t)o.I(0) % x->in.size()]; bool sized = kind != 1; switch (o.I(1)) { case 0: case 1: q.fails = true; if (q.held) q.plug(true); faultFired("input_fails"); break; case 2: q.plug(false); faultFired("input_missing"); break; default: if (sized) { if (q.held) q.plug(true); q.wrong = o.I(2) ? 1 : -1; if (kind == 3 && q.wrong > 0) q.wrong = -1; faultFired("input_ill_sized"); } } ev("fault %s", q.name.c_str()); }
      else if (o.name == "heal") { for (auto& q : x->in) { q->fails = false; q->wrong = 0; if (q->out) q->plug(true); } ev("heal"); }
      else if (o.name == "hold") { Port& q = *x->in[(size_t)o.I(0) % x->in.size()]; Mat v; { int w = q.wrong; q.wrong = 0; v = q.held ? q.keep : q.value((int)o.I(1)); q.wrong = w; } if (kind == 0 || kind == 2 || (kind == 3 && &q != x->in[0].get())) continue; q.hold(v); ev("hold"); }
      else if (o.name == "set" || o.name == "init" || o.name == "quat") { bool bad = false; if (x->command(o.name, o, bad)) { checks(); if (bad) faultFired("setting_refused"); ev("%s bad %d", o.name.c_str(), bad); for (auto& d : done) if (kind == 2 && o.name == "init") d = -1; if (kind == 2 && o.name == "init") { t += 1; } } }
    }
  }
};
}  // namespace
sim::World* sim::makeWorld() { return new W; }
