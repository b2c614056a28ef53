// P11 / P12: the stack of tasks over histories of stack commands, changing
// tasks, and failing features.
#include "taskkit.hh"
#include <set>
#include <algorithm>
#include <sot/core/sot.hh>
#include <sot/core/feature-posture.hh>
#include <Eigen/SVD>
using namespace sim;
using namespace dgw;
using namespace dynamicgraph::sot;
const std::string dgw::Feat::CLASS_NAME = "Feat";

namespace {
struct Posture : FeaturePosture { using FeaturePosture::FeaturePosture; using FeaturePosture::state_; using FeaturePosture::posture_; using FeaturePosture::postureDot_; };
struct Sel { std::vector<bool> bits; bool tail = true; bool on(int j) const { return j < (int)bits.size() ? bits[(size_t)j] : tail; } bool any() const { if (tail) return true; for (bool b : bits) if (b) return true; return false; } };
struct T { Task* t; std::vector<int> feats; double gain = 1; bool der = false; Sel sel; };
struct W : World {
  bool solve;   // P12
  W() { solve = std::string(SIM_PROPERTY) == "P12"; }
  const char* property() const override { return SIM_PROPERTY; }
  const char* rule() const override {
    return solve ? "seeded histories of 6-60 operations: control cycles over 1-5 tasks (random, rank deficient, conflicting, null, tiny and huge Jacobians, partial joint "
                   "selections, gains, derivatives), stack commands, changes of sizes and number of joints, initial control and projector, thresholds, increment "
                   "limits, posture acceleration, failing features; non-trivial when a feature failed or a command was refused"
                 : "seeded histories of 10-120 stack commands on 1-5 tasks, by command and by method, with absent, repeated and unknown tasks, pops of an empty "
                   "stack, control cycles with failing features, and deletion of tasks no longer stacked; non-trivial when a command was refused or a feature failed";
  }
  const char* simTimeMeaning() const override { return "control cycles"; }
  std::vector<std::string> realComponents() const override { return {"src/sot/sot.cpp", "src/sot/sot-command.h", "src/sot/memory-task-sot.cpp", "src/sot/flags.cpp", "src/task/task.cpp", "src/feature/feature-posture.cpp", "src/factory/pool.cpp"}; }
  std::vector<std::string> stubComponents() const override { return {"dynamic-graph (stand-in)", "features other than the posture (values and failures from the plan)"}; }
  std::vector<std::string> assumptions() const override {
    return {"every Jacobian has as many columns as the stack has joints", "the initial projector has orthonormal columns", "a posture feature does not select the free flyer",
            "cycles in which a singular value or an increment is within rounding of its threshold are not compared"};
  }
  static int kind(Rng& r) { return r.weighted({8, 3, 1, 3, 1, 1}); }
  void generate(Rng& r, Plan& p) override {
    bool clean = r.chance(1, 8); int nt = (int)r.range(1, 5), nf = (int)r.range(nt, nt + 3), nq = (int)(solve && r.chance(1, 3) ? r.range(7, 12) : r.range(1, 9)); long long t = r.range(1, 5);
    p.ops.push_back(Op("setup", {nt, nf, (long long)(r.chance(1, 2) ? 0 : r.below(1u << 8)), nq, r.range(0, 3)}));
    if (solve || r.chance(7, 8)) p.ops.push_back(Op("size", {nq}));
    auto dims = [&] { return r.chance(1, 12) ? 0 : r.range(1, std::max(1, nq / 2 + 2)); };
    for (int k = 0; k < nf; ++k) p.ops.push_back(Op("feature", {k, dims(), kind(r)}));
    for (int k = 0; k < nt; ++k) { p.ops.push_back(Op("feat", {k, k})); if (nf > nt && r.chance(1, 3)) p.ops.push_back(Op("feat", {k, r.range(nt, nf - 1)})); }
    bool post = solve && nq > 6 && r.chance(2, 3); if (post) { p.ops.push_back(Op("posture", {nt - 1})); if (r.chance(3, 4)) p.ops.push_back(Op("accel", {1})); }
    int n = solve ? (int)r.range(6, 60) : (int)r.range(10, 120);
    if (solve) for (int k = 0; k < nt; ++k) if (r.chance(5, 6)) p.ops.push_back(Op("push", {k, r.range(0, 1)}));
    for (int k = 0; k < n; ++k) {
      long long q = r.range(0, nt - 1), f = r.range(0, nf - 1), m = r.range(0, 1);
      switch (r.weighted({solve ? 40 : 12, solve ? 4 : 14, solve ? 1 : 5, solve ? 2 : 10, solve ? 2 : 10, solve ? 1 : 6, solve ? 0 : 1, clean ? 0 : solve ? 1 : 5,
                          solve ? 6 : 0, solve ? 3 : 0, solve ? 2 : 0, solve ? 1 : 0, solve ? 2 : 0, solve ? 2 : 0, solve ? 1 : 0, solve ? 1 : 0, clean ? 0 : 4, solve ? 0 : 3, solve ? 1 : 0, post ? 2 : 0})) {
        case 0: p.ops.push_back(Op("cycle", {t, (long long)r.below(1u << 30)})); t += r.chance(1, 8) ? r.range(2, 30) : 1; break;
        case 1: p.ops.push_back(Op("push", {q, m})); break;
        case 2: p.ops.push_back(Op("pop")); break;
        case 3: p.ops.push_back(Op("up", {q, m})); break;
        case 4: p.ops.push_back(Op("down", {q, m})); break;
        case 5: p.ops.push_back(Op("remove", {q, m})); break;
        case 6: p.ops.push_back(Op("clear", {m})); break;
        case 7: p.ops.push_back(Op("unknown", {r.range(0, 3)})); break;
        case 8: p.ops.push_back(Op("feature", {f, dims(), kind(r)})); break;
        case 9: { std::vector<long long> v{q, r.range(0, 3)}; int len = (int)r.range(0, nq + 2); for (int j = 0; j < len; ++j) v.push_back(r.range(0, 1)); p.ops.push_back(Op("select", v)); break; }
        case 10: p.ops.push_back(Op("gain", {q}, {r.chance(1, 8) ? 0 : r.uniform(-2, 3)})); break;
        case 11: p.ops.push_back(Op("derivative", {q, m})); break;
        case 12: p.ops.push_back(Op("q0", {r.weighted({5, 3, clean ? 0 : 1})})); break;
        case 13: p.ops.push_back(Op("proj0", {r.weighted({5, 3, clean ? 0 : 1}), r.range(1, std::max(1, nq))})); break;
        case 14: p.ops.push_back(Op("threshold", {}, {r.pick(std::vector<double>{1e-4, 1e-4, 1e-3, 1e-2, 0.1, 0.5})})); break;
        case 15: p.ops.push_back(Op("limit", {}, {r.pick(std::vector<double>{1e300, 1e300, 10, 1, 0.1})})); break;
        case 16: p.ops.push_back(Op("fail", {f, r.range(0, 3), r.range(0, 2)})); break;
        case 17: p.ops.push_back(Op("delete", {q})); break;
        case 18: { nq = (int)(post ? r.range(7, 12) : r.range(1, 10)); p.ops.push_back(Op("joints", {nq})); break; }
        case 19: p.ops.push_back(Op("accel", {m})); break;
      }
    }
  }
  std::vector<Feat*> f; std::vector<bool> live; std::vector<int> dim, kd; std::vector<T> ts; std::vector<int> st; int nq = 1, size = 0; Posture* post = NULL; Vec pState, pPost;
  Sot* s = NULL; int gen = 0;
  void renew(size_t k, Rng& r) {
    Feat& x = *f[k]; int d = dim[k]; x.e = rndVec(r, d, 2); x.de = rndVec(r, d, 1); x.J = rndMat(r, d, nq);
    if (kd[k] == 1 && d > 1) { Mat b = rndMat(r, std::max(1, d / 2), nq); x.J = rndMat(r, d, std::max(1, d / 2)) * b; }
    if (kd[k] == 2) x.J.setZero();
    if (kd[k] == 3) { Rng same(99); Mat b = rndMat(same, 3, 40); for (int i = 0; i < d; ++i) x.J.row(i) = b.row(i % 3).head(nq); }   // conflicts with others of this kind
    if (kd[k] == 4) x.J *= 1e-7;
    if (kd[k] == 5) { x.J *= 1e2; x.e *= 1e2; }
    if (!live[k]) { x.errorSOUT.setConstant(x.e); x.errordotSOUT.setConstant(x.de); x.jacobianSOUT.setConstant(x.J); }
  }
  void list() {
    std::string w = "( "; for (int k : st) w += "\"" + ts[(size_t)k].t->getName() + "\", "; w += ")";
    std::string l = cmd(*s, "list").value(); checks();
    if (l != w) fail("list", "the stack is %s, the commands define %s", l.c_str(), w.c_str());
    std::string d = cmd(*s, "display").value(), e = "+-----------------\n+   SOT     \n+-----------------\n"; for (int k : st) e += "| " + ts[(size_t)k].t->getName() + "\n"; e += "+-----------------\n";
    if (d != e) fail("display", "the displayed stack is %s", d.c_str());
    for (size_t k = 0; k < ts.size(); ++k) if (s->exist(*ts[k].t) != (std::count(st.begin(), st.end(), (int)k) > 0)) fail("exist", "task %zu: exist disagrees with the stack", k);
    uint64_t h = st.size(); for (int k : st) h = mix(h, (uint64_t)k); cover(h);
  }
  Vec q0; int q0kind = 0; Mat K0; int p0kind = 0, p0cols = 1; double th = 1e-4, lim = 1.7e308; bool accel = false;

  void cycle(int t, uint64_t sd) {
    Rng r(sd + 11);
    for (size_t k = 0; k < f.size(); ++k) if (live[k]) renew(k, r); else if (kd[k] != 2 && r.chance(1, 12)) renew(k, r);
    if (post) { pState = rndVec(r, nq); pPost = rndVec(r, nq); post->state_ = pState; post->posture_ = pPost; }
    if (q0kind == 1) { q0 = rndVec(r, nq, 2); s->q0SIN = q0; } else if (q0kind == 2) { s->q0SIN = rndVec(r, nq + 1); }
    if (p0kind == 1) { Eigen::HouseholderQR<Mat> qr(rndMat(r, nq, nq)); K0 = Mat(qr.householderQ()).leftCols(std::min(p0cols, nq)); s->proj0SIN = K0; }
    else if (p0kind == 2) s->proj0SIN = rndMat(r, nq + 1, 2);
    for (auto& x : f) x->nE = x->nJ = 0;
    // the definition
    bool raise = false, amb = false, evaluated = true; Vec x = Vec::Zero(nq); Mat P = Mat::Identity(nq, nq); double amp = 1; bool posture = false; Vec xPrev; Vec pr; std::set<int> used; bool lowSafe = true;
    if (q0kind == 2) raise = true; else if (q0kind == 1) x = q0; else if (st.empty()) raise = true;
    bool kernel = false; if (p0kind == 1) { P = K0 * K0.transpose(); kernel = true; }
    for (size_t i = 0; !raise && i < st.size(); ++i) {
      T& k = ts[(size_t)st[i]]; bool last = i + 1 == st.size(); int d = 0; bool hasPost = false;
      if (k.feats.empty()) { raise = true; break; }
      for (int a : k.feats) { if (a < 0) { d += nq - 6; hasPost = true; continue; } d += dim[(size_t)a]; used.insert(a); Feat& y = *f[(size_t)a]; if (live[(size_t)a] && (y.failE || y.failJ || (k.der && y.failD))) raise = true; }
      if (raise) break;
      Mat J(d, nq); Vec e(d), de(d); int at = 0;
      for (int a : k.feats) {
        if (a < 0) { int n = nq - 6; J.middleRows(at, n).setZero(); J.middleRows(at, n).rightCols(n).setIdentity(); e.segment(at, n) = (pState - pPost).tail(n); de.segment(at, n).setZero(); at += n; continue; }
        Feat& y = *f[(size_t)a]; int n = dim[(size_t)a]; J.middleRows(at, n) = y.J; e.segment(at, n) = y.e; de.segment(at, n) = y.de; at += n;
      }
      bool all = true; for (int j = 0; j < nq; ++j) if (!k.sel.on(j)) { J.col(j).setZero(); all = false; }
      e = -k.gain * e; if (k.der) e -= de;
      Vec res = e - J * x;
      if (last && accel && kernel && hasPost && k.feats.size() == 1 && all) { posture = true; xPrev = x; pr = res; probe("posture_accelerated"); break; }
      if (d == 0 || J.cols() == 0) { probe("empty_task_level"); continue; }
      Eigen::JacobiSVD<Mat> svd(J * P, Eigen::ComputeThinU | Eigen::ComputeThinV);
      int rank = 0; double smin = 1;
      for (int q = 0; q < svd.singularValues().size(); ++q) { double v = svd.singularValues()[q]; if (std::fabs(v - th) <= 1e-6 * th + 1e-12 * J.norm() * amp) amb = true; if (v > th) { ++rank; smin = v; } }
      if (rank < svd.singularValues().size() && svd.singularValues()[rank] > 1e-9) probe("truncated_direction");
      if (rank < std::min(d, nq)) probe("rank_deficient");
      Vec tmp = svd.matrixU().leftCols(rank).transpose() * res; for (int q = 0; q < rank; ++q) tmp[q] /= svd.singularValues()[q];
      Vec dx = svd.matrixV().leftCols(rank) * tmp;
      if (rank) amp *= 1 + J.norm() / smin;
      if (std::fabs(dx.squaredNorm() - lim) <= 1e-5 * lim && lim < 1e200) amb = true;
      if (amp > 1e7) amb = true;
      if (amb) break;
      if (dx.squaredNorm() > lim) { probe("increment_refused"); if (last) break; if (kernel && P.trace() < .5) break; continue; }
      x += dx; P -= svd.matrixV().leftCols(rank) * svd.matrixV().leftCols(rank).transpose(); kernel = true;
      if (P.trace() < .5) { probe("no_freedom_left"); break; }
    }
    (void)evaluated; (void)lowSafe;
    Vec got; bool raised = raises([&] { got = s->controlSOUT(t); }); simTime(1);
    if (raised) faultFired("cycle_raised");
    if (!solve) {   // who was evaluated
      std::set<int> in; for (int k : st) for (int a : ts[(size_t)k].feats) in.insert(a);
      for (size_t k = 0; k < f.size(); ++k) { checks(); if (!in.count((int)k) && (f[k]->nE || f[k]->nJ)) fail("evaluated", "cycle %d evaluated feature %zu, of no stacked task", t, k); }
      ev("cycle %d %d", t, (int)raised); return;
    }
    if (amb) { probe("ambiguous_cycle"); ev("cycle %d ambiguous", t); return; }
    checks();
    if (raised != raise) fail(raised ? "cycle-raised" : "failure-hidden", "cycle %d %s", t, raised ? "raised though no task fails" : "hid a failure");
    if (raised) { probe("failed_cycle"); ev("cycle %d raised", t); return; }
    if (got.size() != nq) fail("control-size", "the control has %d components for %d joints", (int)got.size(), nq);
    double tol = 1e-12 * amp * amp + 1e-9;
    if (posture) {
      Vec dx = got - xPrev; int n = nq - 6;
      double leak = (dx - P * dx).norm();
      if (leak > tol * (1 + dx.norm() + xPrev.norm())) fail("posture-priority", "cycle %d: the posture task disturbs the tasks above it (%s of %s)", t, dstr(leak).c_str(), dstr(dx.norm()).c_str());
      if (lim < 1e200 && dx.squaredNorm() > lim * (1 + 1e-6)) fail("posture-limit", "cycle %d: an increment of squared norm %s was applied, the limit is %s", t, dstr(dx.squaredNorm()).c_str(), dstr(lim).c_str());
      double before = pr.norm(), after = (pr - dx.tail(n)).norm(), grad = (P.rightCols(n) * pr).norm();
      if (after > before * (1 + 1e-9) + tol) fail("posture-worse", "cycle %d: the posture task is farther from its reference (%s, was %s)", t, dstr(after).c_str(), dstr(before).c_str());
      if (grad > 1e-3 * (1 + before) && lim > 1e200 && after >= before - 1e-9) fail("posture-idle", "cycle %d: the posture task is left at %s though it can be improved", t, dstr(before).c_str());
      ev("cycle %d posture %016llx", t, (unsigned long long)hash(got)); return;
    }
    if (!near(got, x, tol)) fail("control", "cycle %d: the control is %s, the definition gives %s (%zu tasks)", t, str(got).c_str(), str(x).c_str(), st.size());
    ev("cycle %d %016llx", t, (unsigned long long)hash(got)); cover(mix(7, mix(st.size(), mix((uint64_t)(P.trace() + .5), mix((uint64_t)q0kind, (uint64_t)p0kind)))));
  }
  void execute(const Plan& p) override {
    Silence quiet; s = new Sot("sot"); Rng vr(p.seed ^ 0x57ac);
    for (auto& o : p.ops) {
      const std::string& n = o.name; bool refused = false;
      if (n == "setup") {
        nq = (int)o.I(3);
        for (int k = 0; k < (int)o.I(1); ++k) { live.push_back(!((o.I(2) >> k) & 1)); f.push_back(new Feat(fmt("f%d", k), live.back())); dim.push_back(0); kd.push_back(0); renew((size_t)k, vr); }
        for (int k = 0; k < (int)o.I(0); ++k) { T x; x.t = new Task(fmt("t%d", k)); x.t->controlGainSIN = 1.; ts.push_back(x); }
      } else if (ts.empty()) continue;
      else if (n == "size") { cmd(*s, "setSize", {Value((unsigned)o.I(0))}); size = (int)o.I(0); unsigned g = s->getNbDof(); if ((int)g != size) fail("size", "the size is %u, %d was set", g, size); ev("size"); }
      else if (n == "feature") { size_t k = (size_t)o.I(0); dim[k] = (int)o.I(1); kd[k] = (int)o.I(2); renew(k, vr); ev("feature %lld %lld", o.I(1), o.I(2)); }
      else if (n == "feat") { T& k = ts[(size_t)o.I(0)]; k.t->addFeature(*f[(size_t)o.I(1)]); k.feats.push_back((int)o.I(1)); ev("feat"); }
      else if (n == "posture") {
        if (post || nq <= 6) continue;
        post = new Posture("posture"); pState = Vec::Zero(nq); pPost = pState; post->state_ = pState; post->posture_ = pPost; post->postureDot_ = Vec(Vec::Zero(nq));
        for (int j = 6; j < nq; ++j) cmd(*post, "selectDof", {Value((unsigned)j), Value(true)});
        T& k = ts[(size_t)o.I(0)]; k.t->clearFeatureList(); k.t->addFeature(*post); k.feats = {-1}; ev("posture");
      } else if (n == "joints") {
        if (post && o.I(0) <= 6) continue;
        nq = (int)o.I(0); cmd(*s, "setSize", {Value((unsigned)nq)}); size = nq; for (size_t k = 0; k < f.size(); ++k) renew(k, vr);
        if (post) { pState = Vec::Zero(nq); pPost = pState; post->state_ = pState; post->posture_ = pPost; post->postureDot_ = Vec(Vec::Zero(nq)); for (int j = 6; j < nq; ++j) cmd(*post, "selectDof", {Value((unsigned)j), Value(true)}); }
        ev("joints %d", nq);
      } else if (n == "push") {
        int k = (int)o.I(0); bool want = size == 0;
        refused = raises([&] { if (o.I(1)) s->push(*ts[(size_t)k].t); else cmd(*s, "push", {Value(ts[(size_t)k].t->getName())}); });
        if (refused != want) fail("push-refused", "push %s", refused ? "was refused" : "was accepted without a number of joints");
        if (!refused && !std::count(st.begin(), st.end(), k)) st.push_back(k); else faultFired("repeated_task");
        ev("push");
      } else if (n == "pop") {
        TaskAbstract* x = NULL; refused = raises([&] { x = &s->pop(); });
        if (refused != st.empty()) fail("pop", "pop of a stack of %zu tasks %s", st.size(), refused ? "was refused" : "was accepted");
        if (refused) faultFired("empty_stack"); else { if (x != ts[(size_t)st.back()].t) fail("pop", "pop gave %s", x->getName().c_str()); st.pop_back(); }
        ev("pop");
      } else if (n == "up" || n == "down" || n == "remove") {
        int k = (int)o.I(0); auto it = std::find(st.begin(), st.end(), k); TaskAbstract& x = *ts[(size_t)k].t;
        if (o.I(1)) cmd(*s, n, {Value(x.getName())}); else if (n == "up") s->up(x); else if (n == "down") s->down(x); else s->remove(x);
        if (it == st.end()) faultFired("absent_task");
        else if (n == "remove") st.erase(it); else if (n == "up") { if (it != st.begin()) std::iter_swap(it, it - 1); } else if (it + 1 != st.end()) std::iter_swap(it, it + 1);
        ev("%s", n.c_str());
      } else if (n == "clear") { if (o.I(0)) cmd(*s, "clear"); else s->clear(); st.clear(); ev("clear"); }
      else if (n == "unknown") {
        static const char* c[] = {"push", "remove", "up", "down"}; refused = raises([&] { cmd(*s, c[o.I(0)], {Value(std::string("nobody"))}); });
        if (!refused) fail("unknown-accepted", "%s accepted an unknown task", c[o.I(0)]); faultFired("unknown_task"); ev("unknown");
      } else if (n == "delete") {   // a task outside the stack is deleted and another takes its place
        size_t k = (size_t)o.I(0); if (std::count(st.begin(), st.end(), (int)k)) continue;
        delete ts[k].t; ts[k].t = new Task(fmt("t%d_%d", (int)k, ++gen)); ts[k].t->controlGainSIN = 1.; for (int a : ts[k].feats) ts[k].t->addFeature(*f[(size_t)a]); ts[k].gain = 1; probe("task_deleted"); ev("delete");
      } else if (n == "fail") { Feat& x = *f[(size_t)o.I(0)]; (o.I(2) == 0 ? x.failE : o.I(2) == 1 ? x.failJ : x.failD) = (int)o.I(1); ev("fail"); continue; }
      else if (n == "select") {
        T& k = ts[(size_t)o.I(0)]; Sel z; std::string b; for (size_t j = 2; j < o.i.size(); ++j) { z.bits.push_back(o.i[j]); b += o.i[j] ? '1' : '0'; }
        if (o.I(1) == 0) { z.bits.clear(); z.tail = true; k.t->setControlSelection(Flags(true)); }
        else if (o.I(1) == 1) { z.tail = false; k.t->setControlSelection(Flags(b.c_str())); }
        else if (o.I(1) == 2) { z.tail = true; z.bits.flip(); k.t->setControlSelection(!Flags(b.c_str())); }
        else { z.bits.clear(); z.tail = false; k.t->clearControlSelection(); }
        k.sel = z; ev("select");
      } else if (n == "gain") { T& k = ts[(size_t)o.I(0)]; k.gain = o.D(0); k.t->controlGainSIN = k.gain; ev("gain"); }
      else if (n == "derivative") { T& k = ts[(size_t)o.I(0)]; if (k.feats.size() && k.feats[0] < 0) continue; k.der = o.I(1); k.t->setWithDerivative(k.der); ev("derivative"); }
      else if (n == "q0") { q0kind = (int)o.I(0); if (!q0kind) { s->q0SIN.unplug(); s->controlSOUT.setReady(); } ev("q0 %d", q0kind); }
      else if (n == "proj0") { p0kind = (int)o.I(0); p0cols = (int)o.I(1); if (!p0kind) { s->proj0SIN.unplug(); s->controlSOUT.setReady(); } ev("proj0 %d", p0kind); }
      else if (n == "threshold") { th = o.D(0); s->inversionThresholdSIN = th; ev("threshold"); }
      else if (n == "limit") { lim = o.D(0); cmd(*s, "setMaxControlIncrementSquaredNorm", {Value(lim)}); ev("limit"); if (cmd(*s, "getMaxControlIncrementSquaredNorm").doubleValue() != lim) fail("settings", "the limit of the increment does not read back"); }
      else if (n == "accel") { accel = o.I(0); cmd(*s, "enablePostureTaskAcceleration", {Value(accel)}); ev("accel %d", (int)accel); if (cmd(*s, "isPostureTaskAccelerationEnabled").boolValue() != accel) fail("settings", "the posture acceleration does not read back"); }
      else if (n == "cycle") { if (size != nq) continue; cycle((int)o.I(0), (uint64_t)o.I(1)); }
      if (n != "cycle" || !solve) list();
    }
  }
};
}  // namespace
sim::World* sim::makeWorld() { return new W; }
