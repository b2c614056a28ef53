// P01 / P02: the simulated device over histories of cycles, mode switches,
// state resets, configuration changes and faulty controls or callbacks.
#include "dg.hh"
#include <sot/core/device.hh>
#include <sot/core/robot-simu.hh>
#include <pinocchio/multibody/liegroup/special-euclidean.hpp>
using namespace sim;
using namespace dgw;
using namespace dynamicgraph::sot;

namespace {
struct Dev : Device { Dev(const std::string& n) : Device(n) { timestep_ = 0.005; } };
enum { NO = 0, ONE = 1, TWO = 2 };
struct Ref {
  Vec q, v; int mode = ONE; bool sanity = true; int time = 0; Vec published_v;
  Vec lp, up, lv, uv, lt, ut;
};
struct W : World {
  bool limits;   // P02
  W() { limits = std::string(SIM_PROPERTY) == "P02"; }
  const char* property() const override { return SIM_PROPERTY; }
  const char* rule() const override {
    return limits ? "seeded histories of 10-80 device cycles under any order of bounds, mode, size, state and sanity-check commands, with "
                    "oversized, not-a-number and infinite controls; non-trivial when a faulty control or a refused command occurred"
                  : "seeded histories of 10-80 device cycles with failing controls, failing periodic signals, mode switches, "
                    "state/velocity/root resets, resizes and refused commands; non-trivial when a failure or reset occurred";
  }
  const char* simTimeMeaning() const override { return "seconds of robot motion integrated"; }
  std::vector<std::string> realComponents() const override { return {"src/tools/device.cpp", "include/sot/core/device.hh", "src/tools/robot-simu.cpp", "src/tools/periodic-call.cpp", "src/debug/debug.cpp"}; }
  std::vector<std::string> stubComponents() const override { return {"dynamic-graph (stand-in)", "pinocchio SE(3) integration (stand-in)", "controller and periodic signals (generated, failing on command)"}; }
  std::vector<std::string> assumptions() const override { return {"the control has the size of the state or six less (free flyer not controlled)", "lower bounds do not exceed upper bounds", "a coordinate whose bounds were not configured for the current size is not limited"}; }

  static double val(Rng& r) { return std::round(r.uniform(-2, 2) * 1024) / 1024; }
  void generate(Rng& r, Plan& p) override {
    int n = (int)r.range(10, 80); bool clean = r.chance(1, 10);
    int size = (int)r.range(6, 12);
    p.ops.push_back(Op("resize", {size, r.chance(1, 3)}));   // a device, or the simulated robot of the scripts
    bool full = r.chance(1, 2);
    auto bounds = [&](const char* w, bool bad) {
      int s = bad ? size + (r.chance(1, 2) ? 1 : -1) : size; std::vector<double> d;
      for (int k = 0; k < 2 * s; ++k) d.push_back(0);
      double c = r.chance(1, 3) ? 0.3 : 2.0;
      for (int k = 0; k < s; ++k) { double a = -r.uniform(0.05, c), b = r.uniform(0.05, c); if (r.chance(1, 8)) a = b; d[k] = a; d[s + k] = b; }
      p.ops.push_back(Op("bounds", {s}, d, {w}));
    };
    if (r.chance(3, 4)) bounds("setVelocityBounds", false);
    if (r.chance(2, 3)) bounds("setPositionBounds", false);
    if (r.chance(1, 3)) bounds("setTorqueBounds", false);
    for (int k = 0; k < n; ++k) {
      auto vec = [&](int s, double sc) { std::vector<double> d; for (int q = 0; q < s; ++q) d.push_back(val(r) * sc); return d; };
      switch (r.weighted({limits ? 60 : 50, 3, 3, 4, 2, limits ? 6 : 3, limits ? 2 : 1, limits ? 5 : 2, 2, 1, limits ? 0 : 8, 2})) {
        case 0: {
          // cycle: kind 0 plain 1 nan 2 inf 3 huge 4 raises
          int kind = 0;
          if (!clean) kind = limits ? r.weighted({14, 3, 2, 5, 1}) : r.weighted({20, 1, 0, 1, 3});
          if (r.chance(1, 20)) full = !full;
          int cs = full ? size : size - 6; static const double dts[] = {0.001, 0.005, 0.05, 0.25};
          std::vector<double> d = vec(cs, r.chance(1, 4) ? 4.0 : 0.5);
          if (cs == 0) { cs = size; d = vec(cs, 0.5); }
          size_t at = r.below(d.size());
          if (kind == 1) d[at] = NAN; else if (kind == 2) d[at] = r.chance(1, 2) ? INFINITY : -INFINITY; else if (kind == 3) d[at] = r.uniform(-1e5, 1e5);
          d.insert(d.begin(), dts[r.below(4)]);
          p.ops.push_back(Op("cycle", {kind, r.range(0, 2)}, d)); break;
        }
        case 1: p.ops.push_back(Op("setState", {}, vec(r.chance(1, 8) ? size + 1 : size, r.chance(1, 4) ? 3.0 : 0.5))); break;
        case 2: p.ops.push_back(Op("setVelocity", {}, vec(size, 0.5))); break;
        case 3: { static const char* m[] = {"noInteg", "oneInteg", "twoInteg", "bogus"}; p.ops.push_back(Op("mode", {}, {}, {m[r.weighted({2, 4, 4, 1})]})); break; }
        case 4: p.ops.push_back(Op(r.chance(1, 2) ? "second" : "none")); break;
        case 5: { static const char* b[] = {"setPositionBounds", "setVelocityBounds", "setTorqueBounds"}; bounds(b[r.below(3)], r.chance(1, 5)); break; }
        case 6: size = (int)r.range(6, 12); p.ops.push_back(Op("resize", {size})); break;
        case 7: p.ops.push_back(Op("sanity", {r.chance(2, 3)})); break;
        case 8: { double c[3]; for (double& x : c) x = r.uniform(-1.4, 1.4); p.ops.push_back(Op("setRoot", {}, {val(r), val(r), val(r), c[0], c[1], c[2]})); break; }
        case 9: p.ops.push_back(Op("force", {r.range(0, 3)})); break;
        case 10: { // a periodic signal: place, failure kind (0 none), down-sampling
          p.ops.push_back(Op("periodic", {r.range(0, 1), r.range(0, 3), clean ? 0 : r.weighted({4, 2, 2, 1}), r.range(1, 3)})); break; }
        case 11: p.ops.push_back(Op("unperiodic", {r.range(0, 1), r.range(0, 3)})); break;
      }
    }
  }

  void execute(const Plan& p) override {
    Silence quiet;
    bool simu = !p.ops.empty() && p.ops[0].I(1); std::unique_ptr<Device> dev(simu ? (Device*)new RobotSimu("robot") : new Dev("robot")); Device& d = *dev; double stepSet = simu ? cmd(d, "getTimeStep").doubleValue() : 0.005; Ref m; m.q = Vec::Zero(6); m.v = Vec::Zero(6); m.published_v = Vec::Zero(6);
    int calls = 0, ctlTime = -999; int kind = 0; Vec u; bool ctlRaises = false; int raiseKind = 0;
    std::vector<std::pair<int, int> > order;    // (place, time) of periodic refreshes, 2 = control
    std::string bad;
    dg::Signal<Vec, int> ctl("ctl");
    ctl.setFunction([&](Vec& r, int t) -> Vec& {
      ++calls; ctlTime = t; order.push_back({2, t});
      if (ctlRaises) { if (raiseKind == 0) throw std::runtime_error("controller"); if (raiseKind == 1) throw "controller"; throw 3; }
      r = u; return r; });
    d.controlSIN.plug(&ctl);
    struct Per { std::unique_ptr<dg::Signal<int, int> > s; int fail, down, n = 0; };
    std::map<std::pair<int, int>, std::shared_ptr<Per> > per;
    std::function<void(int, int)> seen;
    // freed signals must not be used any more; keep them
    std::vector<std::shared_ptr<Per> > grave;
    Eigen::Vector3d ffPos; bool haveFf = false;
    auto publish = [&](const char* when) {
      checks(4);
      if (!near(d.stateSOUT.accessCopy(), m.q, 1e-9)) fail("published-state", "%s: state is [%s], the history gives [%s]", when, str(d.stateSOUT.accessCopy()).c_str(), str(m.q).c_str());
      if (d.stateSOUT.getTime() != m.time) fail("published-time", "%s: state time is %d, %d cycles were completed", when, d.stateSOUT.getTime(), m.time);
    };
    for (auto& o : p.ops) {
      if (o.name == "resize") {
        int s = (int)o.I(0); cmd(d, "resize", {Value((unsigned)s)});
        m.q = Vec::Zero(s); m.v = Vec::Zero(s); m.published_v = m.v; ev("resize %d", s);
      } else if (o.name == "bounds") {
        int s = (int)o.I(0); Vec lo(s), up(s); for (int k = 0; k < s; ++k) { lo[k] = o.D(k); up[k] = o.D(s + k); }
        bool r = raises([&] { cmd(d, o.S(0), {Value(lo), Value(up)}); });
        if (s == m.q.size()) {
          if (r) fail("command-refused", "%s of the right size was refused", o.S(0).c_str());
          if (o.S(0) == "setPositionBounds") m.lp = lo, m.up = up; else if (o.S(0) == "setVelocityBounds") m.lv = lo, m.uv = up; else m.lt = lo, m.ut = up;
        } else { if (!r) fail("command-accepted", "%s of size %d for a state of %d was accepted", o.S(0).c_str(), s, (int)m.q.size()); faultFired("refused_command"); }
        ev("%s %d %s", o.S(0).c_str(), s, r ? "refused" : "ok");
      } else if (o.name == "setState") {
        Vec q = Eigen::Map<const Vec>(o.d.data(), (long)o.d.size()); long s = q.size();
        if (s != m.q.size() && !m.sanity) continue;      // unchecked resizing is the caller's choice
        bool r = raises([&] { cmd(d, "set", {Value(q)}); });
        bool want = false;
        if (m.sanity && m.mode == TWO && (s != m.lt.size() || s != m.ut.size())) want = true;
        if (m.sanity && m.mode >= ONE && (s != m.lv.size() || s != m.uv.size())) want = true;
        if (s != m.q.size() && !r) { m.q = q; ev("setState resized"); m.v = d.velocitySOUT.accessCopy(); if (m.v.size() != s) { d.setVelocitySize((unsigned)s); m.v = Vec::Zero(s); } m.published_v = m.v; continue; }
        if (r != want) fail("state-command", "setting the state was %s", r ? "refused though bounds agree with its size" : "accepted without bounds of its size");
        if (!r) m.q = q; else faultFired("refused_command");
        ev("setState %s", r ? "refused" : "ok"); probe("state_set");
        publish("after set"); if (!r) { checks(); if (!near(d.motorcontrolSOUT.accessCopy(), m.q, 1e-9)) fail("motor-control", "motor control does not follow the state that was set"); }
      } else if (o.name == "setVelocity") {
        Vec v = Eigen::Map<const Vec>(o.d.data(), (long)o.d.size()); if (v.size() != m.q.size()) continue;
        cmd(d, "setVelocity", {Value(v)}); m.v = v; m.published_v = v; ev("setVelocity");
      } else if (o.name == "mode") {
        cmd(d, "setControlInputType", {Value(o.S(0))});
        if (o.S(0) == "noInteg") m.mode = NO; else if (o.S(0) == "oneInteg") m.mode = ONE; else if (o.S(0) == "twoInteg") m.mode = TWO; else faultFired("refused_command");
        ev("mode %s", o.S(0).c_str()); probe("mode_switch");
      } else if (o.name == "second" || o.name == "none") {
        if (o.name == "second") cmd(d, "setSecondOrderIntegration"); else d.setNoIntegration();
        m.mode = o.name == "second" ? TWO : NO; m.v = Vec::Zero(m.q.size()); m.published_v = m.v; ev("%s", o.name.c_str()); probe("mode_switch");
      } else if (o.name == "sanity") {
        bool on = o.I(0) != 0, want = false; long s = m.q.size();
        if (on) {
          if (m.mode == TWO && (s != m.lt.size() || s != m.ut.size())) want = true;
          if (m.mode >= ONE && (s != m.lv.size() || s != m.uv.size())) want = true;
          if (s != m.lp.size() || s != m.up.size()) want = true;
        }
        bool r = raises([&] { cmd(d, "setSanityCheck", {Value(on)}); });
        if (r != want) fail("sanity-command", "switching sanity checks %s was %s", on ? "on" : "off", r ? "refused" : "accepted without the bounds it needs");
        if (!r) m.sanity = on; else faultFired("refused_command");
        ev("sanity %d %s", (int)on, r ? "refused" : "ok");
      } else if (o.name == "setRoot") {
        MatrixHomogeneous h; h.setIdentity();
        h.linear() = (Eigen::AngleAxisd(o.D(5), Eigen::Vector3d::UnitZ()) * Eigen::AngleAxisd(o.D(4), Eigen::Vector3d::UnitY()) * Eigen::AngleAxisd(o.D(3), Eigen::Vector3d::UnitX())).toRotationMatrix();
        h.translation() << o.D(0), o.D(1), o.D(2);
        Mat hm = h.matrix(); cmd(d, "setRoot", {Value(hm)});
        m.q.head<3>() = h.translation(); m.q.segment<3>(3) = h.linear().eulerAngles(2, 1, 0).reverse();
        ev("setRoot"); publish("after setRoot"); probe("root_set");
      } else if (o.name == "force") {
        Vec f = Vec::Ones(6); d.forcesSOUT[o.I(0)]->setConstant(f); ev("force %lld", o.I(0));
      } else if (o.name == "periodic") {
        auto key = std::make_pair((int)o.I(0), (int)o.I(1)); auto it = per.find(key); if (it != per.end()) grave.push_back(it->second);
        auto q = std::make_shared<Per>(); q->fail = (int)o.I(2); q->down = (int)o.I(3);
        q->s.reset(new dg::Signal<int, int>("per")); Per* raw = q.get(); int place = key.first;
        q->s->setFunction([&, raw, place](int& r, int t) -> int& {
          ++raw->n; order.push_back({place, t}); r = t;
          // a callback sees the published state of its side of the cycle
          if (place == 1 && d.stateSOUT.getTime() != t) bad = fmt("an after-period callback at time %d saw a state of time %d", t, d.stateSOUT.getTime());
          if (place == 0 && d.stateSOUT.getTime() != t - 1) bad = fmt("a before-period callback at time %d saw a state of time %d", t, d.stateSOUT.getTime());
          if (raw->fail == 1) { faultFired("periodic_raises"); throw std::runtime_error("periodic"); }
          if (raw->fail == 2) { faultFired("periodic_raises"); throw "periodic"; }
          if (raw->fail == 3) { faultFired("periodic_raises"); throw 7; }
          return r; });
        std::string name = fmt("%d", key.second);
        (place ? d.periodicCallAfter() : d.periodicCallBefore()).addDownsampledSignal(name, *q->s, (unsigned)q->down);
        per[key] = q; ev("periodic %d/%d fail %d every %d", place, key.second, q->fail, q->down);
      } else if (o.name == "unperiodic") {
        auto key = std::make_pair((int)o.I(0), (int)o.I(1)); auto it = per.find(key);
        (key.first ? d.periodicCallAfter() : d.periodicCallBefore()).rmSignal(fmt("%d", key.second));
        if (it != per.end()) { grave.push_back(it->second); per.erase(it); }
        ev("unperiodic %d/%d", key.first, key.second);
      } else if (o.name == "cycle") {
        kind = (int)o.I(0); double dt = o.D(0); u = Eigen::Map<const Vec>(o.d.data() + 1, (long)o.d.size() - 1); long s = m.q.size(), c = u.size();
        if (c != s && c != s - 6) continue;              // left over from a removed resize
        ctlRaises = kind == 4; raiseKind = (int)o.I(1); calls = 0; order.clear(); bad.clear(); for (auto& q : per) q.second->n = 0;
        if (simu && o.I(1) == 0) { cmd(d, "setTimeStep", {Value(dt)}); stepSet = dt; }
        if (cmd(d, "getTimeStep").doubleValue() != stepSet) fail("time-step", "the time step does not read back");
        bool r = raises([&] { if (simu) cmd(d, "increment", {Value(dt)}); else d.increment(dt); });
        if (kind == 1) faultFired("control_nan"); if (kind == 2) faultFired("control_inf"); if (kind == 3) faultFired("control_huge"); if (kind == 4) faultFired("control_raises");
        ev("cycle %d kind %d mode %d -> %s q %016llx", m.time + 1, kind, m.mode, r ? "raised" : "ok", (unsigned long long)hash(d.stateSOUT.accessCopy()));
        checks(5);
        if (calls != 1) fail("control-evaluations", "the control was evaluated %d times in a cycle", calls);
        else if (ctlTime != m.time) fail("control-time", "the control was evaluated for time %d, %d cycles were completed", ctlTime, m.time);
        // the order: before callbacks, control, after callbacks, each at its time
        int stage = 0;
        for (auto& x : order) {
          int st = x.first == 0 ? 0 : x.first == 2 ? 1 : 2;
          if (st < stage) fail("cycle-order", "a periodic callback or the control ran out of order in its cycle"); stage = st;
          if (x.first != 2 && x.second != m.time + 1) fail("periodic-time", "a periodic signal was refreshed for time %d in cycle %d", x.second, m.time + 1);
        }
        if (!bad.empty()) fail("callback-view", "%s", bad.c_str());
        if (ctlRaises) {
          if (!r) fail("failure-hidden", "a failing control did not stop its cycle");
          publish("after a failing control"); continue;
        }
        if (r) { fail("cycle-raised", "a cycle with a sound control raised an error"); continue; }
        // every registered periodic signal whose turn it was ran once; a failing one may cut its own list short
        for (int place = 0; place < 2; ++place) {
          bool failing = false; for (auto& q : per) if (q.first.first == place && q.second->fail && (m.time + 1) % q.second->down == 0) failing = true;
          for (auto& q : per) if (q.first.first == place) {
            int want = (m.time + 1) % q.second->down == 0; checks();
            if (failing ? q.second->n > want : q.second->n != want) fail("periodic-refresh", "periodic signal %d/%d was refreshed %d times at time %d (one in %d)", place, q.first.second, q.second->n, m.time + 1, q.second->down);
          }
          if (failing) probe("contained_failure");
        }
        step(m, u, dt);
        m.time++; simTime(dt);
        publish("after a cycle");
        if (m.q.allFinite()) m.q = d.stateSOUT.accessCopy();   // no drift of rounding between model and device
        checks(6);
        if (!near(d.motorcontrolSOUT.accessCopy(), m.q, 1e-9)) fail("motor-control", "motor control is [%s], the state is [%s]", str(d.motorcontrolSOUT.accessCopy()).c_str(), str(m.q).c_str());
        bool fin = u.allFinite();
        if (m.mode == TWO) { if (!near(d.velocitySOUT.accessCopy(), m.v, 1e-9)) fail("published-velocity", "velocity is [%s], the history gives [%s]", str(d.velocitySOUT.accessCopy()).c_str(), str(m.v).c_str()); m.published_v = m.v; }
        else if (m.mode == ONE && fin) { if (!near(d.velocitySOUT.accessCopy(), u, 1e-9)) fail("published-velocity", "the published velocity is not the control of this cycle"); m.published_v = u; }
        else if (m.mode == NO && fin) { if (!near(d.velocitySOUT.accessCopy(), m.published_v, 1e-9)) fail("published-velocity", "the velocity changed though nothing is integrated"); }
        else m.published_v = d.velocitySOUT.accessCopy();
        for (int k = 0; k < 4; ++k) if (!near(d.forcesSOUT[k]->accessCopy(), Vec::Zero(6), 0)) fail("force", "force sensor %d is not zero in simulation", k);
        if (m.sanity) {
          const Vec& q = d.stateSOUT.accessCopy();
          for (long k = 0; k < q.size(); ++k) {
            checks();
            if (!std::isfinite(q[k]) && m.q.allFinite()) fail("state-not-finite", "coordinate %ld of the published state is %s", k, dstr(q[k]).c_str());
            if (fin && m.lp.size() == s && (q[k] < m.lp[k] || q[k] > m.up[k])) fail("position-bounds", "coordinate %ld is %.17g, outside [%g, %g]", k, q[k], m.lp[k], m.up[k]);
            if (fin && m.mode == TWO && m.lv.size() == s) { double v = d.velocitySOUT.accessCopy()[k]; if (v < m.lv[k] || v > m.uv[k]) fail("velocity-bounds", "velocity %ld is %.17g, outside [%g, %g]", k, v, m.lv[k], m.uv[k]); }
          }
          if (!fin) probe("refused_control");
        }
        cover(mix((uint64_t)m.mode, mix((uint64_t)kind, mix(m.sanity, mix((uint64_t)(c == s), mix((uint64_t)(m.lp.size() == s), per.size()))))));
        if (!m.q.allFinite()) return;     // sanity checks were off: nothing more to compare
      }
    }
  }
  static void clampv(Vec& x, const Vec& lo, const Vec& up) {
    if (lo.size() != x.size() || up.size() != x.size()) return;
    for (long k = 0; k < x.size(); ++k) { if (x[k] < lo[k]) { x[k] = lo[k]; probe("saturated"); } else if (x[k] > up[k]) { x[k] = up[k]; probe("saturated"); } }
  }
  static void step(Ref& m, const Vec& u, double dt) {
    if (m.sanity && !u.allFinite()) return;
    long c = u.size(), s = m.q.size();
    if (m.mode == NO) { m.q.tail(c) = u; if (m.sanity) clampv(m.q, m.lp, m.up); return; }
    Vec vel = u;
    if (m.mode == TWO) { vel = m.v.tail(c) + 0.5 * dt * u; m.v.tail(c) += u * dt; }
    if (m.sanity) clampv(m.v, m.lv, m.uv);
    if (c == s) {
      Eigen::Matrix<double, 7, 1> a, b; a.head<3>() = m.q.head<3>();
      Eigen::Quaterniond o = Eigen::AngleAxisd(m.q[5], Eigen::Vector3d::UnitZ()) * Eigen::AngleAxisd(m.q[4], Eigen::Vector3d::UnitY()) * Eigen::AngleAxisd(m.q[3], Eigen::Vector3d::UnitX());
      a.tail<4>() << o.x(), o.y(), o.z(), o.w();
      Vec h = vel.head<6>() * dt;
      pinocchio::SpecialEuclideanOperationTpl<3, double>().integrate(a, h, b);
      m.q.head<3>() = b.head<3>(); Eigen::Quaterniond e(b[6], b[3], b[4], b[5]);
      m.q.segment<3>(3) = e.toRotationMatrix().eulerAngles(2, 1, 0).reverse();
      for (long k = 6; k < s; ++k) m.q[k] += vel[k] * dt;
    } else m.q.tail(c) += vel * dt;
    if (m.sanity) clampv(m.q, m.lp, m.up);
  }
};
}  // namespace
sim::World* sim::makeWorld() { return new W; }
