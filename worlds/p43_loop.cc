// P43: the whole loop (device, stack, tasks, features, operators, gains) moves the robot as the tasks ask, and gets there once faults stop.
#include "dg.hh"
#include <sot/core/device.hh>
#include <sot/core/robot-simu.hh>
#include <sot/core/sot.hh>
#include <sot/core/task.hh>
#include <sot/core/feature-generic.hh>
#include <sot/core/feature-posture.hh>
#include <sot/core/gain-adaptive.hh>
#include <sot/core/matrix-constant.hh>
#include <Eigen/SVD>
#include <algorithm>
using namespace sim;
using namespace dgw;
using namespace dynamicgraph::sot;

namespace {
struct Source {   // a value of the outside world; fails when told
  dg::Signal<Vec, int> s; std::function<Vec()> get; int fail = 0, kind = 0;
  Source(const char* n) : s(n) {
    s.setFunction([this](Vec& r, int) -> Vec& { if (fail) { faultFired("input_fails"); if (kind == 0) throw std::runtime_error("no value"); if (kind == 1) throw "no value"; throw 5; } r = get(); return r; });
  }
};
struct Gain { bool adaptive = false; double k = 1, inf = 1, x = 1, p = 1; double at(double e) const { return adaptive ? (k - inf) * std::pow(p, e / x) + inf : k; } };
struct W : World {
  const char* property() const override { return "P43"; }
  const char* rule() const override {
    return "seeded histories of 10-80 operations on a simulated robot regulated by two tasks (a linear function of the joints computed by the graph, and a posture): control cycles, new references, gains, features, "
           "selections, states, orders of the stack, failing inputs, refused commands, empty tasks and stacks, followed by 90 cycles without faults; non-trivial when a fault fired";
  }
  const char* simTimeMeaning() const override { return "seconds of robot motion"; }
  std::vector<std::string> realComponents() const override { return {"src/tools/device.cpp", "src/tools/robot-simu.cpp", "src/sot/sot.cpp", "src/task/task.cpp", "src/task/gain-adaptive.cpp", "src/feature/feature-generic.cpp", "src/feature/feature-posture.cpp", "src/matrix/operator.cpp", "src/matrix/matrix-constant.cpp"}; }
  std::vector<std::string> stubComponents() const override { return {"dynamic-graph (stand-in)", "pinocchio SE(3) integration (stand-in)", "sensors and references (generated, failing on command)"}; }
  std::vector<std::string> assumptions() const override { return {"the evaluation that follows a cycle that failed has the same time, for which dynamic-graph reuses what it had computed: it is not compared", "cycles where a singular value is within two decades of its threshold are not compared"}; }
  void generate(Rng& r, Plan& p) override {
    int nj = (int)r.range(2, 6), m = (int)r.range(1, nj); bool clean = r.chance(1, 8);
    std::vector<double> a; for (int k = 0; k < m * nj; ++k) a.push_back(r.uniform(-1, 1));
    p.ops.push_back(Op("setup", {nj, m, r.chance(1, 2), (long long)(r.range(0, 3))}, a));
    auto vec = [&](int z, double s) { std::vector<double> d; for (int k = 0; k < z; ++k) d.push_back(std::round(r.uniform(-s, s) * 1024) / 1024); return d; };
    int n = (int)r.range(10, 80);
    for (int k = 0; k < n; ++k) switch (r.weighted({30, 4, 4, 5, 2, 3, 3, 6, clean ? 0 : 5, clean ? 0 : 2, 2, 2, 2})) {
      case 0: p.ops.push_back(Op("cycle", {r.range(1, 4)}, {r.chance(1, 2) ? 0.05 : 0.02})); break;
      case 1: p.ops.push_back(Op("target", {}, vec(m, 1))); break;
      case 2: p.ops.push_back(Op("posture", {}, vec(nj, 1))); break;
      case 3: p.ops.push_back(Op("gain", {r.range(0, 1), r.range(0, 3)}, {r.uniform(1, 9), r.uniform(0.5, 9), r.uniform(0.1, 2), r.uniform(0.05, 1)})); break;
      case 4: p.ops.push_back(Op("state", {}, vec(nj, 1))); break;
      case 5: p.ops.push_back(Op("dof", {r.range(0, nj - 1), r.chance(2, 3)})); break;
      case 6: p.ops.push_back(Op("rows", {r.range(1, (1 << m) - 1)})); break;
      case 7: p.ops.push_back(Op("stack", {r.range(0, 3), r.range(0, 1)})); break;
      case 8: p.ops.push_back(Op("fail", {r.range(0, 2), r.range(1, 3), r.range(0, 2)})); break;
      case 9: p.ops.push_back(Op("refused", {r.range(0, 4)})); break;
      case 10: p.ops.push_back(Op("accelerate", {r.range(0, 1)})); break;
      case 11: p.ops.push_back(Op("reference", {r.range(0, 2)}, vec(m, 1))); break;
      case 12: p.ops.push_back(Op("features", {r.range(0, 1), r.chance(1, 4)})); break;
    }
    p.ops.push_back(Op("heal", {}, {r.uniform(4, 10), r.uniform(4, 10)}));
  }
  void execute(const Plan& p) override {
    if (p.ops.empty() || p.ops[0].name != "setup") return;
    Silence quiet; const Op& u = p.ops[0]; int nj = (int)u.I(0), m = (int)u.I(1), n = nj + 6; 
    std::unique_ptr<Device> dev(u.I(2) ? (Device*)new RobotSimu("robot") : new Device("robot")); Device& d = *dev; cmd(d, "resize", {Value((unsigned)n)}); cmd(d, "setSanityCheck", {Value(false)});
    Mat A = Mat::Zero(m, n); for (int i = 0; i < m; ++i) for (int j = 0; j < nj; ++j) A(i, 6 + j) = u.D((size_t)(i * nj + j));
    Vec target = Vec::Zero(m), posture = Vec::Zero(n); std::vector<bool> dof((size_t)nj, true); unsigned rows = (1u << m) - 1;
    Source sensor("sensor"), goal("goal"), pose("pose"); sensor.get = [&] { return Vec(d.stateSOUT.accessCopy()); }; goal.get = [&] { return target; }; pose.get = [&] { return posture; };
    MatrixConstant jac("jac"); cmd(jac, "set", {Value(A)}); std::unique_ptr<dg::Entity> prod(dg::FactoryStorage::getInstance()->newEntity("Multiply_matrix_vector", "prod"));
    prod->getSignal("sin1").plug(&jac.getSignal("sout")); prod->getSignal("sin2").plug(&sensor.s);
    FeatureGeneric fa("fa"), fd("fd"), fd2("fd2"); Source goal2("goal2"); Vec target2 = Vec::Zero(m); goal2.get = [&] { return target2; }; fd2.errorSIN.plug(&goal2.s); int ref = 0; bool has[2] = {true, true}; fa.errorSIN.plug(dynamic_cast<dg::Signal<Vec, int>*>(&prod->getSignal("sout"))); fa.jacobianSIN.plug(dynamic_cast<dg::Signal<Mat, int>*>(&jac.getSignal("sout"))); fd.errorSIN.plug(&goal.s); cmd(fa, "setReference", {Value(std::string("fd"))}); fa.selectionSIN = Flags(true);
    FeaturePosture fb("fb"); fb.getSignal("state").plug(&sensor.s); fb.getSignal("posture").plug(&pose.s); sensor.s.recompute(0); pose.s.recompute(0); sensor.s.setReady(); pose.s.setReady();
    for (int j = 0; j < nj; ++j) cmd(fb, "selectDof", {Value((unsigned)(6 + j)), Value(true)});
    Task ta("ta"), tb("tb"); Task* t[2] = {&ta, &tb}; cmd(ta, "add", {Value(std::string("fa"))}); cmd(tb, "add", {Value(std::string("fb"))});
    GainAdaptive ga("ga"), gb("gb"); GainAdaptive* g[2] = {&ga, &gb}; Gain gain[2]; for (int k = 0; k < 2; ++k) { g[k]->errorSIN.plug(&t[k]->errorSOUT); t[k]->controlGainSIN = 1.; }
    Sot sot("sot"); cmd(sot, "setSize", {Value((unsigned)n)}); std::vector<int> st; d.controlSIN.plug(&sot.controlSOUT);
    auto push = [&](int k) { cmd(sot, "push", {Value(t[k]->getName())}); if (!std::count(st.begin(), st.end(), k)) st.push_back(k); };
    push((int)u.I(3) & 1); if (u.I(3) & 2) push(1 - ((int)u.I(3) & 1));
    bool failed = false; const double th = sot.inversionThresholdSIN.accessCopy();
    auto problem = [&](int k, const Vec& q, Mat& J, Vec& e) {
      if (!has[k]) { J = Mat(0, n); e = Vec(0); return; }
      int c = 0; if (k == 0) { Vec all = A * q; if (ref == 0) all -= target; else if (ref == 1) all -= target2; for (int i = 0; i < m; ++i) c += rows >> i & 1; J = Mat(c, n); e = Vec(c); c = 0; for (int i = 0; i < m; ++i) if (rows >> i & 1) { J.row(c) = A.row(i); e(c++) = all(i); } }
      else { for (bool b : dof) c += b; J = Mat::Zero(c, n); e = Vec(c); c = 0; for (int j = 0; j < nj; ++j) if (dof[(size_t)j]) { J(c, 6 + j) = 1; e(c++) = q(6 + j) - posture(6 + j); } }
    };
    auto law = [&](const Vec& q, bool& sharp) {   // strict priorities
      Vec x = Vec::Zero(n); Mat P = Mat::Identity(n, n); sharp = true;
      for (int k : st) {
        Mat J; Vec e; problem(k, q, J, e); if (!e.size()) continue; Mat JP = J * P; Eigen::JacobiSVD<Mat> s(JP, Eigen::ComputeFullU | Eigen::ComputeFullV); Mat inv = Mat::Zero(n, J.rows());
        for (long i = 0; i < s.singularValues().size(); ++i) { double v = s.singularValues()(i); if (v > th / 100 && v < th * 100) sharp = false; if (v > th) { inv += s.matrixV().col(i) * s.matrixU().col(i).transpose() / v; } }
        x += inv * (-gain[k].at(e.norm()) * e - J * x); Mat Q = Mat::Identity(n, n); for (long i = 0; i < s.singularValues().size(); ++i) if (s.singularValues()(i) > th) Q -= s.matrixV().col(i) * s.matrixV().col(i).transpose(); P = P * Q;
      }
      return x;
    };
    d.increment(0.); int time = 1; Vec q = d.stateSOUT.accessCopy();
    auto cycle = [&](double dt, bool healed) {
      q = d.stateSOUT.accessCopy(); bool used[3] = {false, false, false}; for (int k : st) { if (!has[(size_t)k]) continue; used[0] = true; if (k || ref == 0) used[k ? 2 : 1] = true; }
      Source* src[3] = {&sensor, &goal, &pose}; bool down = st.empty(); for (int k : st) if (!has[k]) { down = true; faultFired("empty_task"); } for (int k = 0; k < 3; ++k) if (used[k] && src[k]->fail) down = true;
      bool sharp; Vec x = law(q, sharp); bool r = raises([&] { d.increment(dt); }); checks(2); (void)healed;
      const Vec& now = d.stateSOUT.accessCopy();
      if (r) {
        if (!down && !failed) fail("cycle-raised", "a cycle whose inputs are all available raised an error");
        if (!near(now, q, 0)) fail("moved", "a cycle that failed moved the robot"); if (st.empty()) faultFired("empty_stack"); failed = true; for (Source* s : src) if (s->fail) --s->fail; ev("failed"); return false;
      }
      if (down && !failed) fail("failure-hidden", "a cycle whose inputs are not available moved the robot");
      bool compare = sharp && !failed && !down; failed = false; ++time; simTime(dt);
      for (Source* s : src) if (s->fail) --s->fail;
      Vec want = q + dt * x; want.head(6) = q.head(6); ev("cycle %016llx", (unsigned long long)hash(now)); cover(mix((uint64_t)st.size(), mix(rows, mix((uint64_t)(st.empty() ? 9 : st[0]), mix((uint64_t)gain[0].adaptive, (uint64_t)gain[1].adaptive * 2 + (uint64_t)compare)))));
      if (compare) { checks(); auto rot = [](const Vec& v) -> Mat { return (Eigen::AngleAxisd(v(5), Eigen::Vector3d::UnitZ()) * Eigen::AngleAxisd(v(4), Eigen::Vector3d::UnitY()) * Eigen::AngleAxisd(v(3), Eigen::Vector3d::UnitX())).toRotationMatrix(); };
        if (!near(Vec(now.tail(nj)), Vec(want.tail(nj)), 1e-7) || !near(Vec(now.head(3)), Vec(want.head(3)), 1e-7) || (rot(now) - rot(want)).norm() > 1e-7) fail("motion", "at time %d the robot moved from [%s] to [%s], its tasks ask for [%s]", time, str(q).c_str(), str(now).c_str(), str(want).c_str()); probe("compared"); }
      return true;
    };
        for (size_t i = 1; i < p.ops.size(); ++i) {
      const Op& o = p.ops[i]; const std::string& c = o.name; ev("%s", c.c_str());
      if (c == "cycle") { for (int k = 0; k < (int)o.I(0); ++k) cycle(o.D(0), false); continue; }
      if (c == "fail") { Source* s = o.I(0) == 0 ? &sensor : o.I(0) == 1 ? &goal : &pose; s->fail = (int)o.I(1); s->kind = (int)o.I(2); continue; }
      if (c == "target") { for (int k = 0; k < m && k < (int)o.d.size(); ++k) target(k) = o.D((size_t)k); }
      else if (c == "posture") { for (int k = 0; k < nj && k < (int)o.d.size(); ++k) posture(6 + k) = o.D((size_t)k); }
      else if (c == "gain") {
        int k = (int)o.I(0); Gain& a = gain[k]; a.k = o.D(0); a.inf = o.D(1); a.x = o.D(2); a.p = o.D(3); a.adaptive = o.I(1) == 2;
        if (o.I(1) == 0) t[k]->controlGainSIN = a.k; else { t[k]->controlGainSIN.plug(&g[k]->gainSOUT); if (a.adaptive) cmd(*g[k], "setByPoint", {Value(a.k), Value(a.inf), Value(a.x), Value(a.p)}); else cmd(*g[k], "setConstant", {Value(a.k)}); }
      } else if (c == "state") { Vec s = d.stateSOUT.accessCopy(); for (int k = 0; k < nj && k < (int)o.d.size(); ++k) s(6 + k) = o.D((size_t)k); cmd(d, "set", {Value(s)}); probe("state_set"); }
      else if (c == "dof") { bool r = raises([&] { cmd(fb, "selectDof", {Value((unsigned)(6 + o.I(0))), Value((bool)o.I(1))}); }); if (r) fail("select", "a joint was refused"); dof[(size_t)o.I(0)] = o.I(1); }
      else if (c == "rows") { rows = (unsigned)o.I(0) & ((1u << m) - 1); if (!rows) rows = 1; std::string b; for (int k = 0; k < m; ++k) b += rows >> k & 1 ? '1' : '0'; fa.selectionSIN = Flags(b.c_str()); }
      else if (c == "stack") {
        int k = (int)o.I(1); auto it = std::find(st.begin(), st.end(), k);
        switch (o.I(0)) { case 0: push(k); break; case 1: cmd(sot, "remove", {Value(t[k]->getName())}); if (it != st.end()) st.erase(it); break; case 2: cmd(sot, "up", {Value(t[k]->getName())}); if (it != st.end() && it != st.begin()) std::iter_swap(it, it - 1); break; case 3: cmd(sot, "down", {Value(t[k]->getName())}); if (it != st.end() && it + 1 != st.end()) std::iter_swap(it, it + 1); break; }
      } else if (c == "refused") {
        bool r = raises([&] { switch (o.I(0)) { case 0: cmd(sot, "push", {Value(std::string("nobody"))}); break; case 1: cmd(ta, "add", {Value(std::string("nothing"))}); break; case 2: cmd(fa, "setReference", {Value(std::string("nowhere"))}); break; case 3: cmd(fb, "selectDof", {Value((unsigned)(n + 3)), Value(true)}); break; case 4: cmd(ga, "setByPoint", {Value(1.), Value(2.), Value(-1.), Value(.5)}); break; } });
        if (!r) fail("command", "an impossible command was accepted"); faultFired("command_refused");
      } else if (c == "accelerate") cmd(sot, "enablePostureTaskAcceleration", {Value((bool)o.I(0))});
      else if (c == "reference") {   // another desired feature, or none
        ref = (int)o.I(0); for (int k = 0; k < m && k < (int)o.d.size(); ++k) target2(k) = o.D((size_t)k);
        if (ref == 2) fa.setReference(NULL); else cmd(fa, "setReference", {Value(std::string(ref ? "fd2" : "fd"))});
      } else if (c == "features") {
        int k = (int)o.I(0); if (has[k]) cmd(*t[k], "clear"); if (!o.I(1)) cmd(*t[k], "add", {Value(std::string(k ? "fb" : "fa"))}); has[k] = !o.I(1);
      } else if (c == "heal") {
        for (int k = 0; k < 2; ++k) if (!has[k]) { cmd(*t[k], "add", {Value(std::string(k ? "fb" : "fa"))}); has[k] = true; }
        for (Source* s : {&sensor, &goal, &pose}) s->fail = 0; for (int k = 0; k < 2; ++k) { gain[k].adaptive = false; gain[k].k = o.D((size_t)k); t[k]->controlGainSIN = gain[k].k; if (!std::count(st.begin(), st.end(), k)) push(k); }
        bool ok = true; for (int k = 0; k < 90; ++k) ok = cycle(0.05, true) && ok; checks(2); bool sharp; q = d.stateSOUT.accessCopy(); Vec x = law(q, sharp); Mat J; Vec e; problem(st[0], q, J, e);
        if (!ok) fail("no-progress", "cycles failed after faults had stopped");
        bool full = !e.size() || (J.rows() <= nj && Eigen::JacobiSVD<Mat>(J).singularValues().minCoeff() > th * 100);
        if (sharp && x.norm() > 1e-4) fail("no-convergence", "90 cycles after the last fault the tasks still ask for a motion of %g", x.norm());
        if (full && e.norm() > 1e-4) fail("no-convergence", "90 cycles after the last fault the error of the first task is %g", e.norm()); probe("converged");
      }
    }
  }
};
}  // namespace
sim::World* sim::makeWorld() { return new W; }
