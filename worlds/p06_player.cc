// P06: queued joint trajectories play point by point.
#include "dg.hh"
#include <deque>
#include <sot/core/joint-trajectory-entity.hh>
using namespace sim;
using namespace dgw;
using namespace dynamicgraph::sot;

namespace {
struct Host : SotJointTrajectoryEntity { Host(const std::string& n) : SotJointTrajectoryEntity(n) {} };
std::string text(const Trajectory& t) {
  std::string s = fmt("((%u,(%lu.0,%lu.0),%s),(", t.header_.seq_, t.header_.stamp_.secs_, t.header_.stamp_.nsecs_, t.header_.frame_id_.c_str());
  for (size_t k = 0; k < t.joint_names_.size(); ++k) s += (k ? "," : "") + t.joint_names_[k];
  s += "),(";
  for (size_t p = 0; p < t.points_.size(); ++p) { s += p ? ",((" : "(("; for (size_t k = 0; k < t.points_[p].positions_.size(); ++k) s += fmt("%s%.6f", k ? "," : "", t.points_[p].positions_[k]); s += "),(),(),())"; }
  return s + "))";
}
struct W : World {
  const char* property() const override { return "P06"; }
  const char* rule() const override {
    return "seeded histories of 20-160 control cycles (repeated, skipped) reading a random subset of the outputs in random order, an initial trajectory given or not, and trajectories of 0-8 points "
           "received in time, late, twice, out of order, cut in transit, with empty or too short points, or with a failing input; non-trivial when a fault fired";
  }
  const char* simTimeMeaning() const override { return "control cycles"; }
  std::vector<std::string> realComponents() const override { return {"src/tools/joint-trajectory-entity.cpp", "src/tools/trajectory.cpp"}; }
  std::vector<std::string> stubComponents() const override { return {"dynamic-graph (stand-in)", "trajectory input signal"}; }
  std::vector<std::string> assumptions() const override {
    return {"a trajectory is known by its time stamp; one whose stamp is in the queue is not queued again, one with the stamp zero is only played when nothing was received before",
            "an empty trajectory takes one cycle, during which the outputs stay", "nothing is asked again at a time whose evaluation failed", "the initial trajectory is given before the first cycle and counts as one step"};
  }
  void generate(Rng& r, Plan& p) override {
    bool clean = r.chance(1, 6); int n = (int)r.range(20, 160); long long t = r.range(1, 3), stamp = r.range(1, 5), mk = 0;
    int rate = (int)r.range(3, 20);
    auto pts = [&] { std::vector<long long> v; int c = r.weighted({6, 2, 1}) == 0 ? (int)r.range(1, 5) : (int)r.range(0, 8); if (clean && !c) c = 1; for (int k = 0; k < c; ++k) v.push_back(clean || !r.chance(1, 12) ? r.pick<long long>({5, 6, 8, 8, 8, 12}) : r.range(0, 5)); return v; };
    auto msg = [&](const char* name, long long st) { std::vector<long long> v = {st, mk++}; auto q = pts(); v.insert(v.end(), q.begin(), q.end()); p.ops.push_back(Op(name, v)); };
    if (r.chance(1, 2)) msg(r.chance(1, 4) ? "initCut" : "init", r.chance(1, 5) ? 0 : stamp++);
    msg("msg", r.chance(1, 6) ? 0 : stamp++);
    for (int k = 0; k < n; ++k) {
      if (r.chance(1, rate)) {
        switch (r.weighted({8, clean ? 0 : 2, clean ? 0 : 1, clean ? 0 : 1, clean ? 0 : 1})) {
          case 0: msg("msg", stamp++); break;
          case 1: p.ops.push_back(Op("again", {r.range(0, 3)})); faultKinds++; break;
          case 2: msg("msg", 0); break;
          case 3: p.ops.push_back(Op("failing", {r.range(1, 3)})); break;
          case 4: msg("cut", stamp++); break;
        }
      }
      if (!r.chance(1, 8)) t += r.chance(1, 8) ? r.range(2, 50) : 1;
      p.ops.push_back(Op("cycle", {t, (long long)r.range(1, 31), r.range(0, 1000)}));
    }
  }
  int faultKinds = 0;
  struct T { unsigned long stamp; unsigned seq; std::vector<std::vector<double>> pts; };
  // the executable specification
  std::deque<T> q; size_t idx = 0; bool any = false; std::vector<double> cur; unsigned seq = 0;
  void step(const T& t) {
    if (q.empty()) { q.push_back(t); idx = 0; }
    else {
      ++idx; bool in = t.stamp == 0; for (auto& x : q) if (x.stamp == t.stamp) in = true;
      if (!in) q.push_back(t);
    }
    if (idx >= q.front().pts.size()) {
      if (q.size() > 1) { q.pop_front(); idx = 0; }
      if (q.front().pts.empty()) { idx = 0; probe("empty_trajectory"); return; }
      if (idx) { idx = q.front().pts.size() - 1; probe("held_last_point"); }
    }
    seq = q.front().seq; if (q.front().pts[idx].size() >= 5) { cur = q.front().pts[idx]; any = true; } else faultFired("short_point");
  }
  void execute(const Plan& p) override {
    Silence quiet; Host e("player"); dg::Signal<Trajectory, int> in("source"); e.trajectorySIN.plug(&in);
    Trajectory value; int failing = 0, lost = -1; std::vector<Trajectory> sent; T now{0, 0, {}}; long long last = -1; bool cycles = false, haveMsg = false;
    in.setFunction([&](Trajectory& r, int) -> Trajectory& { if (failing) { --failing; throw std::runtime_error("trajectory"); } r = value; return r; });
    auto ref = [](const Trajectory& t) { T x{t.header_.stamp_.secs_ * 4 + t.header_.stamp_.nsecs_, t.header_.seq_, {}}; for (auto& q : t.points_) x.pts.push_back(q.positions_); return x; };
    auto build = [](const Op& o) {
      Trajectory t; t.header_.seq_ = (unsigned)o.I(1) + 7; t.header_.stamp_.secs_ = (unsigned long)(o.I(0) / 4); t.header_.stamp_.nsecs_ = (unsigned long)(o.I(0) % 4);   // several a second t.joint_names_ = {"a", "b"};
      for (size_t k = 2; k < o.i.size(); ++k) { JointTrajectoryPoint q; for (int j = 0; j < (int)o.i[k]; ++j) q.positions_.push_back(0.001 * (double)(o.I(1) * 1000 + (long long)k * 50 + j) - 1); t.points_.push_back(q); }
      return t;
    };
    auto receive = [&](const Trajectory& t) { value = t; sent.push_back(t); now = ref(t); haveMsg = true; };
    for (auto& o : p.ops) {
      if (o.name == "init" || o.name == "initCut") {
        if (cycles) continue;
        Trajectory t = build(o); std::string x = text(t); if (o.name == "initCut") { x = x.substr(0, x.size() / 2); faultFired("message_cut"); }
        cmd(e, "initTraj", {Value(x)}); Trajectory y; std::istringstream is(x); y.deserialize(is); step(ref(y)); ev("init %zu", y.points_.size()); cycles = true;
      } else if (o.name == "msg") { receive(build(o)); ev("msg %lld %zu", o.I(0), value.points_.size()); if (o.I(0) == 0) faultFired("no_stamp"); if (value.points_.empty()) faultFired("empty_message"); }
      else if (o.name == "cut") { Trajectory t = build(o); std::string x = text(t); Trajectory y; std::istringstream is(x.substr(0, x.size() - 3 - x.size() / 3)); y.deserialize(is); faultFired("message_cut"); ev("cut %zu", y.points_.size()); receive(y); }
      else if (o.name == "again") { if (sent.empty()) continue; size_t k = sent.size() - 1 - std::min(sent.size() - 1, (size_t)o.I(0)); Trajectory t = sent[k]; value = t; now = ref(t); faultFired(k + 1 == sent.size() ? "duplicate" : "late_message"); ev("again %zu", k); }
      else if (o.name == "failing") { failing = (int)o.I(0); ev("failing %d", failing); }
      else if (o.name == "cycle") {
        if (!haveMsg) continue;
        int t = (int)o.I(0); bool first = t != last, mustFail = false; if (t == lost) continue; cycles = true;
        Rng r((uint64_t)o.I(2)); std::vector<int> outs; for (int k = 0; k < 5; ++k) if (o.I(1) >> k & 1) outs.push_back(k);
        for (size_t k = outs.size(); k > 1; --k) std::swap(outs[k - 1], outs[r.below(k)]);
        for (int k : outs) {
          mustFail = first && failing > 0; bool stepped = first && !mustFail;
          Vec v; MatrixHomogeneous w; unsigned s = 0;
          bool raised = raises([&] { switch (k) { case 0: v = e.positionSOUT(t); break; case 1: v = e.comSOUT(t); break; case 2: v = e.zmpSOUT(t); break; case 3: w = e.waistSOUT(t); break; default: s = e.seqIdSOUT(t); } });
          if (raised != mustFail) fail(raised ? "cycle-raised" : "failure-hidden", "output %d at time %d %s", k, t, raised ? "raised though its input did not fail" : "hid the failure of its input");
          if (raised) { faultFired("input_raises"); lost = t; break; }   // what the graph answers at a time whose evaluation failed is its own business
          if (stepped) { step(now); first = false; last = t; }
          checks(); size_t n = cur.size();
          if (k == 4) { if (s != seq) fail("seqid", "cycle %d plays trajectory %u, expected %u", t, s, seq); continue; }
          if (!any) continue;      // nothing valid was ever received
          if (k == 0) {
            if ((size_t)v.size() < n - 5) { fail("position", "cycle %d outputs %ld joints, the point has %zu", t, (long)v.size(), n - 5); }
            for (size_t j = 0; j < (size_t)v.size(); ++j) { double want = j < n - 5 ? cur[j] : 0; if (!near(v((long)j), want, 1e-12)) fail("position", "cycle %d outputs joint %zu at %s, the point of this cycle says %s", t, j, dstr(v((long)j)).c_str(), dstr(want).c_str()); }
          } else if (k == 1) { if (v.size() != 3 || !near(v(0), cur[n - 5], 1e-12) || !near(v(1), cur[n - 4], 1e-12) || !near(v(2), cur[n - 3], 1e-12)) fail("com", "cycle %d outputs the centre of mass %s, expected %s", t, str(v).c_str(), dstr(cur[n - 5]).c_str()); }
          else if (k == 2) { if (v.size() != 3 || !near(v(0), cur[n - 2], 1e-12) || !near(v(1), cur[n - 1], 1e-12) || !near(v(2), -0.055, 1e-12)) fail("zmp", "cycle %d outputs the centre of pressure %s, expected %s", t, str(v).c_str(), dstr(cur[n - 2]).c_str()); }
          else {
            double a = cur[n - 3]; Mat m = Mat::Identity(4, 4); m(0, 0) = m(1, 1) = std::cos(a); m(1, 0) = std::sin(a); m(0, 1) = -m(1, 0); m(0, 3) = cur[n - 5]; m(1, 3) = cur[n - 4]; m(2, 3) = 0.65;
            if (!near(Mat(w.matrix()), m, 1e-9)) fail("waist", "cycle %d outputs the waist %s, expected %s", t, str(w.matrix()).c_str(), str(m).c_str());
          }
        }
        ev("cycle %d %d %zu/%zu", t, (int)mustFail, idx, q.size()); simTime(1); cover(mix(idx, mix(q.size(), mix(seq, (uint64_t)first))));
      }
    }
  }
};
}  // namespace
sim::World* sim::makeWorld() { return new W; }
