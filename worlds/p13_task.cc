// P13: a task is the stack of its current features, at every cycle.
#include "taskkit.hh"
using namespace sim;
using namespace dgw;
using namespace dynamicgraph::sot;
const std::string dgw::Feat::CLASS_NAME = "Feat";

namespace {
struct W : World {
  const char* property() const override { return "P13"; }
  const char* rule() const override {
    return "seeded histories of 8-80 operations on one or two tasks over 1-6 features (evaluated each cycle, or constant between changes): "
           "additions (repeated ones too), clears, changes of size and of number of joints, gains, derivatives, unknown features, cycles reading the "
           "outputs in any order and at skipped times, failing features; non-trivial when a feature failed or an addition was refused";
  }
  const char* simTimeMeaning() const override { return "control cycles"; }
  std::vector<std::string> realComponents() const override { return {"src/task/task.cpp", "src/task/task-abstract.cpp", "src/task/multi-bound.cpp", "src/feature/feature-abstract.cpp", "src/factory/pool.cpp"}; }
  std::vector<std::string> stubComponents() const override { return {"dynamic-graph (stand-in)", "features (values and failures from the plan)"}; }
  std::vector<std::string> assumptions() const override { return {"error, derivative and Jacobian of one feature have the same number of rows", "the outputs asked for again in a cycle that failed are not specified"}; }
  void generate(Rng& r, Plan& p) override {
    int nf = (int)r.range(1, 6), nt = r.chance(1, 4) ? 2 : 1, n = (int)r.range(8, 80); bool clean = r.chance(1, 8); long long t = r.range(1, 9);
    p.ops.push_back(Op("setup", {nf, nt, (long long)r.below(1u << 6), r.range(1, 8)}));
    for (int k = 0; k < nf; ++k) p.ops.push_back(Op("dim", {k, r.range(0, 6)}));
    for (int q = 0; q < nt; ++q) if (!r.chance(1, 6)) for (int k = (int)r.range(1, nf); k > 0; --k) p.ops.push_back(Op("add", {q, r.range(0, nf - 1), r.range(0, 1)}));
    for (int k = 0; k < n; ++k) {
      long long f = r.range(0, nf - 1), q = r.range(0, nt - 1);
      switch (r.weighted({6, 1, 4, 1, 3, 2, clean ? 0 : 3, clean ? 0 : 1, 30, 2, 2})) {
        case 0: p.ops.push_back(Op("add", {q, f, r.range(0, 1)})); break;
        case 1: p.ops.push_back(Op("clear", {q, r.range(0, 1)})); break;
        case 2: p.ops.push_back(Op("dim", {f, r.chance(1, 3) ? r.range(0, 20) : r.range(0, 6)})); break;
        case 3: p.ops.push_back(Op("joints", {r.range(1, 12)})); break;
        case 4: p.ops.push_back(Op("gain", {q}, {r.chance(1, 6) ? 0 : r.uniform(-2, 3)})); break;
        case 5: p.ops.push_back(Op("derivative", {q, r.range(0, 1), r.range(0, 1)})); break;
        case 6: p.ops.push_back(Op("fail", {f, r.range(0, 3), r.range(0, 2)})); break;
        case 7: p.ops.push_back(Op("addUnknown", {q})); break;
        case 8: p.ops.push_back(Op("cycle", {t, q, r.range(0, 23), (long long)r.below(1u << 30)})); t += r.chance(1, 8) ? r.range(2, 30) : 1; break;
        case 9: p.ops.push_back(Op("part", {f, r.range(0, 2)})); break;
        case 10: p.ops.push_back(Op("replace", {f})); break;
      }
    }
  }
  void execute(const Plan& p) override {
    Silence quiet; std::vector<Feat*> f; std::vector<Task*> task; int nq = 6, generation = 0; std::vector<std::vector<int>> ref; std::vector<double> gain; std::vector<bool> hasGain, der; std::vector<bool> live;
    std::vector<int> dim, fe, fj, fd;
    auto renew = [&](Feat& x, bool l, int d, Rng& r) {
      x.e = rndVec(r, d, 3); x.de = rndVec(r, d, 2); x.J = rndMat(r, d, nq);
      if (!l) { x.errorSOUT.setConstant(x.e); x.errordotSOUT.setConstant(x.de); x.jacobianSOUT.setConstant(x.J); }
    };
    Rng vr(p.seed ^ 0x7a5c);
    for (auto& o : p.ops) {
      if (o.name == "setup") {
        nq = (int)o.I(3);
        for (int k = 0; k < (int)o.I(0); ++k) { live.push_back(!((o.I(2) >> k) & 1)); f.push_back(new Feat(fmt("f%d", k), live.back())); dim.push_back(0); f.back()->J = Mat(0, nq); if (!live.back()) renew(*f.back(), false, 0, vr); }
        for (int k = 0; k < (int)o.I(1); ++k) { task.push_back(new Task(fmt("task%d", k))); ref.push_back({}); gain.push_back(0); hasGain.push_back(false); der.push_back(false); }
      } else if (f.empty() || task.empty()) continue;
      else if (o.name == "dim") { size_t k = (size_t)o.I(0); dim[k] = (int)o.I(1); renew(*f[k], live[k], dim[k], vr); ev("dim %lld", o.I(1)); }
      else if (o.name == "part") {   // only one of the outputs of the feature changes
        size_t k = (size_t)o.I(0); Feat& x = *f[k]; int w = (int)o.I(1);
        if (w == 0) { x.e = rndVec(vr, dim[k], 3); if (!live[k]) x.errorSOUT.setConstant(x.e); }
        if (w == 1) { x.de = rndVec(vr, dim[k], 2); if (!live[k]) x.errordotSOUT.setConstant(x.de); }
        if (w == 2) { x.J = rndMat(vr, dim[k], nq); if (!live[k]) x.jacobianSOUT.setConstant(x.J); }
        ev("part %d", w);
      } else if (o.name == "replace") {   // a feature no task uses is deleted, another takes its name
        size_t k = (size_t)o.I(0); bool used = false; for (auto& l : ref) for (int x : l) used |= x == (int)k;
        if (used) continue;
        delete f[k]; f[k] = new Feat(fmt("f%d_%d", (int)k, ++generation), live[k]); renew(*f[k], live[k], dim[k], vr); probe("feature_replaced"); ev("replace");
      }
      else if (o.name == "joints") { nq = (int)o.I(0); for (size_t k = 0; k < f.size(); ++k) renew(*f[k], live[k], dim[k], vr); ev("joints"); }
      else if (o.name == "add") { size_t q = (size_t)o.I(0), k = (size_t)o.I(1); if (o.I(2)) task[q]->addFeature(*f[k]); else cmd(*task[q], "add", {Value(f[k]->getName())}); ref[q].push_back((int)k); ev("add"); }
      else if (o.name == "addUnknown") { bool r = raises([&] { cmd(*task[(size_t)o.I(0)], "add", {Value(std::string("nobody"))}); }); faultFired("unknown_feature"); if (!r) fail("unknown-accepted", "an unknown feature was added"); ev("addUnknown"); }
      else if (o.name == "clear") { size_t q = (size_t)o.I(0); if (o.I(1)) task[q]->clearFeatureList(); else cmd(*task[q], "clear"); ref[q].clear(); ev("clear"); }
      else if (o.name == "gain") { task[(size_t)o.I(0)]->controlGainSIN = o.D(0); gain[(size_t)o.I(0)] = o.D(0); hasGain[(size_t)o.I(0)] = true; ev("gain"); }
      else if (o.name == "derivative") { if (o.I(2)) task[(size_t)o.I(0)]->setWithDerivative(o.I(1)); else cmd(*task[(size_t)o.I(0)], "setWithDerivative", {Value((bool)o.I(1))}); der[(size_t)o.I(0)] = o.I(1); ev("derivative"); for (size_t k = 0; k < der.size(); ++k) if (task[k] && cmd(*task[k], "getWithDerivative").boolValue() != (bool)der[k]) fail("settings", "the use of the derivative by task %d does not read back", (int)k); }
      else if (o.name == "fail") { Feat& x = *f[(size_t)o.I(0)]; (o.I(2) == 0 ? x.failE : o.I(2) == 1 ? x.failJ : x.failD) = (int)o.I(1); ev("fail"); }
      else if (o.name == "cycle") {
        int t = (int)o.I(0); size_t q = (size_t)o.I(1); Rng r((uint64_t)o.I(3) + 5);
        for (size_t k = 0; k < f.size(); ++k) if (live[k]) renew(*f[k], true, dim[k], r);
        // the definition
        int n = 0; bool eFail = ref[q].empty(), jFail = ref[q].empty(), dFail = false;
        for (int k : ref[q]) { n += dim[(size_t)k]; if (live[(size_t)k]) { eFail |= f[(size_t)k]->failE != 0; jFail |= f[(size_t)k]->failJ != 0; dFail |= f[(size_t)k]->failD != 0; } }
        Vec e(n), de(n); Mat J(n, nq); int at = 0;
        for (int k : ref[q]) { Feat& x = *f[(size_t)k]; int d = dim[(size_t)k]; e.segment(at, d) = x.e; de.segment(at, d) = x.de; J.middleRows(at, d) = x.J; at += d; }
        // the outputs, in one of the orders; the first that fails ends the cycle
        static const int perm[24][4] = {{0,1,2,3},{0,1,3,2},{0,2,1,3},{0,2,3,1},{0,3,1,2},{0,3,2,1},{1,0,2,3},{1,0,3,2},{1,2,0,3},{1,2,3,0},{1,3,0,2},{1,3,2,0},
                                        {2,0,1,3},{2,0,3,1},{2,1,0,3},{2,1,3,0},{2,3,0,1},{2,3,1,0},{3,0,1,2},{3,0,2,1},{3,1,0,2},{3,1,2,0},{3,2,0,1},{3,2,1,0}};
        simTime(1);
        for (int s = 0; s < 4; ++s) {
          int which = perm[o.I(2)][s]; bool want = false; Vec ve; Mat vJ; VectorMultiBound vt; bool raised = false; checks();
          if (which == 3 && !hasGain[q]) continue;
          if (which == 0) { want = eFail; raised = raises([&] { ve = task[q]->errorSOUT(t); }); }
          if (which == 1) { want = jFail; raised = raises([&] { vJ = task[q]->jacobianSOUT(t); }); }
          if (which == 2) { want = eFail || dFail; raised = raises([&] { ve = task[q]->errorTimeDerivativeSOUT(t); }); }
          if (which == 3) { want = eFail || (der[q] && dFail); raised = raises([&] { vt = task[q]->taskSOUT(t); }); }
          static const char* nm[] = {"error", "Jacobian", "error derivative", "task"};
          if (want != raised) {
            if (!want && ref[q].empty()) { break; }
            fail(raised ? "cycle-raised" : "failure-hidden", "cycle %d: the %s %s", t, nm[which], raised ? "raised though no feature fails" : "hid the failure of a feature");
          }
          if (raised) { faultFired(ref[q].empty() ? "empty_task" : "feature_raises"); break; }
          if (which == 0 && !near(ve, e, 0)) fail("error", "cycle %d: the error is %s, that of its features %s", t, str(ve).c_str(), str(e).c_str());
          if (which == 1 && !near(vJ, J, 0)) fail("jacobian", "cycle %d: the Jacobian (%dx%d) is %s, that of its features (%dx%d) %s", t, (int)vJ.rows(), (int)vJ.cols(), str(vJ).substr(0, 160).c_str(), n, nq, str(J).substr(0, 160).c_str());
          if (which == 2 && !near(ve, de, 0)) fail("derivative", "cycle %d: the error derivative is %s, that of its features %s", t, str(ve).c_str(), str(de).c_str());
          if (which == 3) {
            Vec v(vt.size()); for (size_t k = 0; k < vt.size(); ++k) { if (vt[k].getMode() != MultiBound::MODE_SINGLE) fail("task-bounds", "the task is not an equality"); v[(int)k] = vt[k].getSingleBound(); }
            Vec w = -gain[q] * e; if (der[q]) w -= de;
            if (!near(v, w, 1e-12)) fail("task", "cycle %d: the desired velocity is %s, the definition gives %s", t, str(v).c_str(), str(w).c_str());
          }
          ev("cycle %d %s %016llx", t, nm[which], (unsigned long long)(which == 1 ? hash(vJ) : hash(ve)));
          cover(mix((uint64_t)which, mix((uint64_t)n, mix((uint64_t)ref[q].size(), (uint64_t)nq))));
        }
        std::string l = cmd(*task[q], "list").value(), w = "["; for (int k : ref[q]) w += "'" + f[(size_t)k]->getName() + "',"; w += "]";
        if (l != w) fail("list", "the feature list is %s, the additions give %s", l.c_str(), w.c_str());
      }
    }
  }
};
}  // namespace
sim::World* sim::makeWorld() { return new W; }
