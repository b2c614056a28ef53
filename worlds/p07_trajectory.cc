// P07: trajectory messages parse faithfully; what transit cuts or corrupts invents nothing.
#include "dg.hh"
#include <sot/core/trajectory.hh>
using namespace sim;
using namespace dgw;
using dynamicgraph::sot::Trajectory;
using dynamicgraph::sot::JointTrajectoryPoint;

namespace {
struct Msg {
  std::string text; Trajectory t; std::vector<size_t> whole;   // whole[k]: length of the text up to the end of point k
  size_t headEnd = 0; std::vector<size_t> nameEnd;
};
std::string num(Rng& r, double& v) {
  std::string s;
  switch (r.weighted({6, 3, 2, 1, 1})) {
    case 0: s = fmt("%.*f", (int)r.range(1, 6), r.uniform(-3, 3)); break;
    case 1: s = fmt("%.*f", (int)r.range(1, 17), r.uniform(-1e3, 1e3)); break;
    case 2: s = fmt("%lld.", r.range(-20, 20)); break;
    case 3: s = fmt("-0.%s1", std::string((size_t)r.range(0, 20), '0').c_str()); break;
    default: s = fmt("%lld.%s", r.range(0, 9), std::string((size_t)r.range(1, 40), '3').c_str());
  }
  v = strtod(s.c_str(), NULL); return s;
}
// The message is a function of its seed, so that a replay file stays small.
Msg make(uint64_t seed, int shape) {
  Rng r(seed); Msg m; std::string& x = m.text; Trajectory& t = m.t;
  static const char* alpha = "abcXYZ_0123456789"; auto word = [&](int n) { std::string w; for (int k = 0; k < n; ++k) w += alpha[r.below(17)]; return w; };
  t.header_.seq_ = (unsigned)r.range(0, r.chance(1, 2) ? 10 : 4000000000LL);
  t.header_.stamp_.secs_ = (unsigned long)r.range(0, r.chance(1, 2) ? 100 : 2000000000LL); t.header_.stamp_.nsecs_ = (unsigned long)r.range(0, 999999999);
  t.header_.frame_id_ = word((int)r.range(0, 12));
  x = fmt("((%u,(%lu.%s,%lu.0),%s),(", t.header_.seq_, t.header_.stamp_.secs_, r.chance(1, 2) ? "0" : "", t.header_.stamp_.nsecs_, t.header_.frame_id_.c_str());
  m.headEnd = x.size();
  int nj = shape == 0 ? (int)r.range(1, 4) : (int)r.range(1, 40), np = shape == 0 ? (int)r.range(0, 4) : shape == 1 ? (int)r.range(1, 8) : (int)r.range(10, 60);
  if (shape == 2) nj = (int)r.range(1, 6);
  for (int k = 0; k < nj; ++k) { t.joint_names_.push_back(word((int)r.range(1, 15))); x += (k ? "," : "") + t.joint_names_.back(); if (k + 1 == nj) x += ")"; m.nameEnd.push_back(x.size() + (k + 1 == nj ? 0 : 1)); }
  x += ",(";
  for (int p = 0; p < np; ++p) {
    JointTrajectoryPoint q; x += p ? ",(" : "(";
    std::vector<double>* v[4] = {&q.positions_, &q.velocities_, &q.accelerations_, &q.efforts_};
    for (int a = 0; a < 4; ++a) {
      x += a ? ",(" : "("; int n = r.chance(1, 3) ? 0 : r.chance(1, 8) ? (int)r.range(1, 3) : nj;
      for (int k = 0; k < n; ++k) { double d; x += (k ? "," : "") + num(r, d); v[a]->push_back(d); }
      x += ")";
      if (a == 3) m.whole.push_back(x.size());
    }
    x += ")"; t.points_.push_back(q);
  }
  x += "))"; return m;
}
bool same(const std::vector<double>& a, const std::vector<double>& b) { if (a.size() != b.size()) return false; for (size_t k = 0; k < a.size(); ++k) if (!near(a[k], b[k], 1e-15)) return false; return true; }
bool same(const JointTrajectoryPoint& a, const JointTrajectoryPoint& b) { return same(a.positions_, b.positions_) && same(a.velocities_, b.velocities_) && same(a.accelerations_, b.accelerations_) && same(a.efforts_, b.efforts_); }
struct W : World {
  const char* property() const override { return "P07"; }
  const char* rule() const override {
    return "seeded sequences of 1-12 messages of 1-40 joints and 0-60 points received into one or two trajectory objects, whole, followed by other text, cut at any "
           "byte, with 1-4 corrupted bytes or failing allocations, then copied, assigned and displayed; non-trivial when a message was damaged";
  }
  const char* simTimeMeaning() const override { return "messages"; }
  std::vector<std::string> realComponents() const override { return {"src/tools/trajectory.cpp", "include/sot/core/trajectory.hh"}; }
  std::vector<std::string> stubComponents() const override { return {"message transport"}; }
  std::vector<std::string> assumptions() const override { return {"numbers are written with a decimal point and without exponent, as the grammar says", "a message without points is not followed by other text", "which of the complete points of a damaged message are kept is unspecified, beyond order"}; }
  int cpuLimitMs() const override { return 8000; }
  void generate(Rng& r, Plan& p) override {
    int n = (int)r.range(1, 12); bool clean = r.chance(1, 6);
    for (int k = 0; k < n; ++k) {
      long long seed = (long long)(r.next() >> 12), shape = r.weighted({6, 2, 1}), obj = r.range(0, 1);
      switch (r.weighted({10, clean ? 0 : 3, clean ? 0 : 10, clean ? 0 : 6, 4, 3, 1, clean ? 0 : 2})) {
        case 0: p.ops.push_back(Op("whole", {seed, shape, obj})); break;
        case 1: p.ops.push_back(Op("trailing", {seed, shape, obj, r.range(0, 3)})); break;
        case 2: p.ops.push_back(Op("cut", {seed, shape, obj, r.range(0, 1000000), r.range(0, 3)})); break;
        case 3: p.ops.push_back(Op("corrupt", {seed, 0, obj, (long long)(r.next() >> 12)})); break;
        case 4: p.ops.push_back(Op("copy", {obj})); break;
        case 5: p.ops.push_back(Op("assign", {obj})); break;
        case 6: p.ops.push_back(Op("display", {obj})); break;
        case 7: p.ops.push_back(Op("alloc", {seed, 0, obj, r.range(0, 400)})); break;
      }
    }
  }
  void match(const Trajectory& g, const Trajectory& w, const char* how) {
    checks(4);
    if (g.header_.seq_ != w.header_.seq_ || !(g.header_.stamp_ == w.header_.stamp_) || g.header_.frame_id_ != w.header_.frame_id_)
      fail("header", "%s: the header is %u %lu.%lu %s, the message says %u %lu.%lu %s", how, g.header_.seq_, g.header_.stamp_.secs_, g.header_.stamp_.nsecs_, g.header_.frame_id_.c_str(),
           w.header_.seq_, w.header_.stamp_.secs_, w.header_.stamp_.nsecs_, w.header_.frame_id_.c_str());
    if (g.joint_names_ != w.joint_names_) fail("names", "%s: %zu joint names, first %s, the message holds %zu, first %s", how, g.joint_names_.size(), g.joint_names_.empty() ? "-" : g.joint_names_[0].c_str(), w.joint_names_.size(), w.joint_names_.empty() ? "-" : w.joint_names_[0].c_str());
    if (g.points_.size() != w.points_.size()) fail("points", "%s: %zu points, the message holds %zu", how, g.points_.size(), w.points_.size());
    for (size_t k = 0; k < g.points_.size(); ++k) { checks(); if (!same(g.points_[k], w.points_[k])) fail("point", "%s: point %zu differs from the message", how, k); }
  }
  void execute(const Plan& p) override {
    Silence quiet; std::unique_ptr<Trajectory> t[2] = {std::unique_ptr<Trajectory>(new Trajectory), std::unique_ptr<Trajectory>(new Trajectory)};
    for (auto& o : p.ops) {
      int b = (int)(o.name == "copy" || o.name == "assign" || o.name == "display" ? o.I(0) : o.I(2)) & 1; Trajectory& x = *t[b]; simTime(1);
      auto read = [&](const std::string& text) { std::istringstream is(text); x.deserialize(is); };
      if (o.name == "whole") { Msg m = make((uint64_t)o.I(0), (int)o.I(1)); read(m.text); ev("whole %zu", m.t.points_.size()); match(x, m.t, "a well formed message"); cover(mix(m.t.points_.size(), m.t.joint_names_.size())); }
      else if (o.name == "trailing") {
        Msg m = make((uint64_t)o.I(0), (int)o.I(1)); Msg n = make((uint64_t)o.I(0) + 1, 0);
        if (m.t.points_.empty()) continue;
        read(m.text + (o.I(3) == 0 ? n.text : o.I(3) == 1 ? "\n" : o.I(3) == 2 ? ",(((1.0),(),(),()))" : ")"));
        faultFired("trailing_text"); ev("trailing"); match(x, m.t, "a message followed by other text");
      } else if (o.name == "cut") {
        Msg m = make((uint64_t)o.I(0), (int)o.I(1)); size_t at = (size_t)o.I(3) % m.text.size();
        if (o.I(4) == 1 && !m.whole.empty()) at = m.whole[(size_t)o.I(3) % m.whole.size()] - (size_t)o.I(3) % 5;   // around the end of a point
        if (o.I(4) == 2) at = m.headEnd + (size_t)o.I(3) % (m.nameEnd.back() - m.headEnd + 1);
        bool r = raises([&] { read(m.text.substr(0, at)); }); faultFired("message_cut"); ev("cut at %zu of %zu -> %d, %zu points", at, m.text.size(), (int)r, x.points_.size());
        size_t np = 0, nn = 0; while (np < m.whole.size() && m.whole[np] <= at) ++np; while (nn < m.nameEnd.size() && m.nameEnd[nn] <= at) ++nn;
        checks(3);
        if (x.points_.size() > np) fail("invented-point", "a message cut after %zu complete points gave %zu points", np, x.points_.size());
        for (size_t k = 0; k < x.points_.size(); ++k) if (!same(x.points_[k], m.t.points_[k])) fail("point", "point %zu of a cut message differs from the message", k);
        if (x.joint_names_.size() > nn) fail("invented-name", "a message cut after %zu joint names gave %zu", nn, x.joint_names_.size());
        for (size_t k = 0; k < x.joint_names_.size(); ++k) if (x.joint_names_[k] != m.t.joint_names_[k]) fail("names", "joint name %zu of a cut message differs from the message", k);
        if (at < m.headEnd) { checks(); if (x.header_.seq_ != 0 || !(x.header_.stamp_ == dynamicgraph::sot::timestamp(0, 0))) fail("header", "a message cut in its header gave a header"); }
        else if (x.header_.seq_ != m.t.header_.seq_ || !(x.header_.stamp_ == m.t.header_.stamp_)) { if (x.header_.seq_ != 0 || !(x.header_.stamp_ == dynamicgraph::sot::timestamp(0, 0))) fail("header", "a cut message gave another header"); }
        cover(mix(np, nn));
      } else if (o.name == "corrupt") {
        Msg m = make((uint64_t)o.I(0), 0); Rng r((uint64_t)o.I(3)); std::string s = m.text; int n = (int)r.range(1, 4);
        for (int k = 0; k < n && !s.empty(); ++k) { size_t at = r.below(s.size()); switch (r.below(4)) { case 0: s.erase(at, 1 + r.below(4)); break; case 1: s.insert(at, s.substr(at, 1 + r.below(6))); break; case 2: s[at] = (char)r.range(1, 255); break; default: s[at] = "(),.-0 "[r.below(7)]; } }
        size_t open = (size_t)std::count(s.begin(), s.end(), '(');
        bool r2 = raises([&] { read(s); }); faultFired("message_corrupted"); ev("corrupt -> %d, %zu points", (int)r2, x.points_.size()); checks();
        if (x.points_.size() > open) fail("invented-point", "a corrupted message with %zu parentheses gave %zu points", open, x.points_.size());
      } else if (o.name == "alloc") {
        Msg m = make((uint64_t)o.I(0), 0); bool r; { AllocFault f((long)o.I(3)); r = raises([&] { read(m.text); }); } ev("alloc -> %d", (int)r);
        if (r) { faultFired("allocation_failed"); read(m.text); match(x, m.t, "a message read again after a failed allocation"); }
      } else if (o.name == "copy") { std::unique_ptr<Trajectory> c(new Trajectory(x)); ev("copy"); match(*c, x, "a copy"); t[1 - b].swap(c); }
      else if (o.name == "assign") { *t[1 - b] = x; ev("assign"); match(*t[1 - b], x, "an assignment"); }
      else if (o.name == "display") {
        std::ostringstream os; x.display(os); std::string d = os.str(); checks(2);
        for (auto& n : x.joint_names_) if (d.find(n) == std::string::npos) fail("display", "joint %s is not displayed", n.c_str());
        if (d.find(fmt("Number of points: %zu", x.points_.size())) == std::string::npos) fail("display", "the number of points, %zu, is not displayed", x.points_.size());
        size_t nums = 0; for (auto& q : x.points_) nums += q.positions_.size() + q.velocities_.size() + q.accelerations_.size() + q.efforts_.size();
        std::istringstream is(d); std::string l; size_t got = 0; while (std::getline(is, l)) { char* e; strtod(l.c_str(), &e); if (!l.empty() && !*e) ++got; }
        if (got != nums) fail("display", "%zu values are displayed, the trajectory holds %zu", got, nums);
      }
    }
  }
};
}  // namespace
sim::World* sim::makeWorld() { return new W; }
