// P16: timers and timestamps report the (simulated) clock truthfully.
#include "dg.hh"
#include <sot/core/matrix-geometry.hh>
#include <sot/core/time-stamp.hh>
#include <sot/core/timer.hh>
using namespace sim;
using namespace dgw;
using dynamicgraph::sot::MatrixHomogeneous;
using dynamicgraph::sot::TimeStamp;

namespace {
double u(uint64_t k) { return (double)(mix(k, 77) >> 11) * (2.0 / 9007199254740992.0) - 1; }
template <class T> T make(uint64_t k);
template <> double make<double>(uint64_t k) { return u(k); }
template <> Vec make<Vec>(uint64_t k) { Vec v((long)(k % 5)); for (long i = 0; i < v.size(); ++i) v(i) = u(k + 7 * (uint64_t)i); return v; }
template <> Mat make<Mat>(uint64_t k) { Mat v((long)(k % 3 + 1), (long)(k % 4 + 1)); for (long i = 0; i < v.size(); ++i) v(i) = u(k + 7 * (uint64_t)i); return v; }
template <> MatrixHomogeneous make<MatrixHomogeneous>(uint64_t k) { MatrixHomogeneous m; m.setIdentity(); m.translation() << u(k), u(k + 1), u(k + 2); return m; }
bool same(double a, double b) { return a == b; }
bool same(const Vec& a, const Vec& b) { return a.size() == b.size() && a == b; }
bool same(const Mat& a, const Mat& b) { return a.rows() == b.rows() && a.cols() == b.cols() && a == b; }
bool same(const MatrixHomogeneous& a, const MatrixHomogeneous& b) { return a.matrix() == b.matrix(); }
long long us(long long ns) { return ns >= 0 ? ns / 1000 : -((-ns + 999) / 1000); }

struct Stamp { long long real, cpu; };
Stamp now() { return Stamp{clk.realNs, clk.cpuNs}; }
struct Cost { long long wall, cpu, step; bool fails; } cost;
struct Chain {                                  // timers measuring a signal, or one another
  virtual ~Chain() {}
  virtual void read(size_t k, bool cpu, int t, std::string& bad) = 0;
  virtual double timer(size_t k, int t) = 0;
  virtual std::string show(size_t k) = 0;
  int evals = 0; Stamp in{0, 0}, out{0, 0};
};
template <class T> struct ChainOf : Chain {
  dg::SignalTimeDependent<T, int> src; std::vector<std::unique_ptr<Timer<T>>> tm; uint64_t key;
  ChainOf(size_t n, uint64_t viaCpu, uint64_t k) : src("measured"), key(k) {
    src.setFunction([this](T& r, int t) -> T& { ++evals; in = now(); advance(cost.wall, cost.cpu); if (cost.step) { jump(cost.step); faultFired("clock_step"); } out = now(); if (cost.fails) { faultFired("measured_fails"); throw std::runtime_error("measured"); } r = make<T>(mix(key, (uint64_t)t)); return r; });
    src.setDependencyType(dg::TimeDependency<int>::ALWAYS_READY);
    for (size_t i = 0; i < n; ++i) { tm.emplace_back(new Timer<T>(fmt("timer%zu", i))); if (i) tm[i]->sigSIN.plug((viaCpu >> i) & 1 ? &tm[i - 1]->sigClockSOUT : &tm[i - 1]->sigSOUT); else tm[i]->sigSIN.plug(&src); }
  }
  void read(size_t k, bool cpu, int t, std::string& bad) override { T v = cpu ? tm[k]->sigClockSOUT(t) : tm[k]->sigSOUT(t); if (!same(v, make<T>(mix(key, (uint64_t)t)))) bad = "the value of the measured signal is not passed unchanged"; }
  double timer(size_t k, int t) override { return tm[k]->timerSOUT(t); }
  std::string show(size_t k) override { std::ostringstream o; tm[k]->display(o); return o.str(); }
};
struct W : World {
  const char* property() const override { return "P16"; }
  const char* rule() const override {
    return "seeded histories of 5-60 requests to a chain of 1-3 timers (scalar, vector, matrix, transformation) and to a timestamp, on wall and CPU clocks with seeded costs, clock steps, stalls and failing measured signals; "
           "non-trivial when a fault fired";
  }
  const char* simTimeMeaning() const override { return "simulated seconds of wall clock"; }
  std::vector<std::string> realComponents() const override { return {"include/sot/core/timer.hh", "src/tools/timer.cpp", "include/sot/core/time-stamp.hh", "src/tools/time-stamp.cpp"}; }
  std::vector<std::string> stubComponents() const override { return {"dynamic-graph (stand-in)", "gettimeofday, clock (simulated)", "measured signal"}; }
  std::vector<std::string> assumptions() const override { return {"microsecond resolution of both clocks", "a failed evaluation is not asked again within its cycle"}; }
  void generate(Rng& r, Plan& p) override {
    bool clean = r.chance(1, 6); int n = (int)r.range(5, 60), len = (int)r.range(1, 3);
    p.ops.push_back(Op("setup", {r.range(0, 3), len, r.range(0, 7), r.chance(1, 2) ? 0 : r.range(1, 3000), r.range(0, 999999999), r.range(0, 999999999), r.range(1, 3)}));
    for (int k = 0; k < n; ++k) switch (r.weighted({20, 6, 5, 5, 2, 2})) {
      case 0: { long long w = r.chance(1, 5) ? 0 : r.chance(1, 4) ? r.range(0, 5000000000LL) : r.range(0, 3000000); p.ops.push_back(Op("read", {r.chance(1, 6) ? r.range(2, 5) : 1, r.range(0, len - 1), r.range(0, 1), w, r.chance(1, 3) ? 0 : r.range(0, 3000000), clean || !r.chance(1, 8) ? 0 : r.range(-4000000000LL, 4000000000LL), !clean && r.chance(1, 12)})); break; }
      case 1: p.ops.push_back(Op("again", {r.range(0, len - 1), r.range(0, 1)})); break;
      case 2: p.ops.push_back(Op("timer", {r.range(0, len - 1)})); break;
      case 3: p.ops.push_back(Op("stamp", {r.range(0, 3), r.range(0, 2000000000LL), clean || r.chance(1, 2) ? 0 : r.range(1, 5000), clean || !r.chance(1, 4) ? 0 : r.range(1, 1500000000LL)})); break;
      case 4: p.ops.push_back(Op("step", {clean ? 0 : r.range(-3000000000LL, 3000000000LL)})); break;
      case 5: p.ops.push_back(Op("chrono", {r.range(0, 1)})); break;
    }
  }
  void execute(const Plan& p) override {
    Silence quiet; clk.on = true; std::unique_ptr<Chain> c; int kind = 0, len = 1, t = 1; uint64_t via = 0;
    for (auto& o : p.ops) if (o.name == "setup") { kind = (int)o.I(0); len = (int)o.I(1, 1); via = (uint64_t)o.I(2); clk.perCallNs = o.I(3); clk.realNs += o.I(4); clk.cpuNs += o.I(5); t = (int)o.I(6, 1); }
    switch (kind) { case 0: c.reset(new ChainOf<double>((size_t)len, via, 1)); break; case 1: c.reset(new ChainOf<Vec>((size_t)len, via, 2)); break; case 2: c.reset(new ChainOf<Mat>((size_t)len, via, 3)); break; default: c.reset(new ChainOf<MatrixHomogeneous>((size_t)len, via, 4)); }
    TimeStamp ts("stamp"); std::vector<double> lo((size_t)len, 0), hi((size_t)len, 0), exact((size_t)len, 0); std::vector<int> gotWall((size_t)len, 0), gotCpu((size_t)len, 0); bool dead = false; int lastOk = 0; Vec once; int onceT = -1, onceDT = -1; double onceD = 0;
    std::vector<char> known((size_t)len, 1);
    auto tell = [&](size_t k) { checks(); if (!known[k]) return; double d = c->timer(k, t); if (!(d >= lo[k] - 1e-6 && d <= hi[k] + 1e-6)) fail("duration", "timer %zu reports %.9g ms, the measure took between %.9g and %.9g ms", k, d, lo[k], hi[k]);
      double shown = 0; std::string s = c->show(k); size_t q = s.rfind(": "); if (q != std::string::npos) shown = atof(s.c_str() + q + 2); if (std::fabs(shown - d) > 1e-5 * (1 + std::fabs(d))) fail("display", "timer %zu shows '%s' for %.9g ms", k, s.c_str(), d); };
    for (auto& o : p.ops) {
      if (o.name == "read") {
        t += (int)o.I(0); size_t k = (size_t)o.I(1) % (size_t)len; bool cpu = o.I(2); cost = Cost{o.I(3), o.I(4), o.I(5), o.I(6) != 0}; dead = false; int before = c->evals; std::string bad; long long w0 = clk.realNs; Stamp S = now();
        bool r = raises([&] { c->read(k, cpu, t, bad); }); Stamp E = now(); checks(); ev("read %d timer %zu cpu %d raised %d", t, k, cpu, r); simTime((double)(o.I(3)) * 1e-9); (void)w0;
        if (r != cost.fails) fail(r ? "raised" : "failure-hidden", "a measured signal that %s: the timer %s", cost.fails ? "raises" : "works", r ? "raised" : "gave a value"); 
        if (c->evals != before + 1) fail("evaluations", "the measured signal was evaluated %d times for one request", c->evals - before);
        if (r) { dead = true; continue; }
        if (!bad.empty()) fail("value", "%s", bad.c_str());
        lastOk = t; bool useCpu = cpu;
        for (size_t i = k + 1; i-- > 0;) {       // the timers below were evaluated too
          long long a = useCpu ? us(c->out.cpu) - us(c->in.cpu) : us(c->out.real) - us(c->in.real), b = useCpu ? us(E.cpu) - us(S.cpu) : us(E.real) - us(S.real);
          lo[i] = (double)std::min(a, b) / 1000; hi[i] = (double)std::max(a, b) / 1000; known[i] = 1; (useCpu ? gotCpu : gotWall)[i] = t; useCpu = (via >> i) & 1;
        }
        tell(k); if (k) tell(k - 1); cover(mix((uint64_t)kind, mix((uint64_t)k, mix((uint64_t)cpu, mix((uint64_t)(cost.step != 0), (uint64_t)(hi[k] < 0 ? 0 : hi[k] == 0 ? 1 : hi[k] < 1 ? 2 : hi[k] < 1000 ? 3 : 4))))));
      } else if (o.name == "again") {
        size_t k = (size_t)o.I(0) % (size_t)len; bool cpu = o.I(1); if (dead || t == 0 || lastOk != t) continue; if ((cpu ? gotCpu : gotWall)[k] != t) continue;
        int before = c->evals; std::string bad; Stamp S = now(); c->read(k, cpu, t, bad); checks(); ev("again"); (void)S;
        if (c->evals != before) fail("evaluations", "asked again in the same cycle, the signal was measured again");
        if (!bad.empty()) fail("value", "%s", bad.c_str()); tell(k);
      } else if (o.name == "timer") { if (!dead) tell((size_t)o.I(0) % (size_t)len); }
      else if (o.name == "step") { jump(o.I(0)); if (o.I(0)) faultFired("clock_step"); ev("step"); }
      else if (o.name == "chrono") {
        std::istringstream a("run"); std::ostringstream s; long long w = clk.realNs; cmdChrono(o.I(0) ? "help" : "chrono", a, s); long long e = us(clk.realNs) - us(w); checks(); ev("chrono"); if (o.I(0)) continue;
        double d = -1; if (sscanf(s.str().c_str(), "Time spent = %lf ms", &d) != 1 || d < -1e-6 || d > (double)e / 1000 + 1e-3) fail("chrono", "'%s' for at most %lld us", s.str().c_str(), e);
      } else if (o.name == "stamp") {
        advance(o.I(1), 0); simTime((double)o.I(1) * 1e-9); int how = (int)o.I(0);
        if (o.I(2)) { long long n = (clk.realNs / 1000000000 + 1) * 1000000000; if (o.I(2) < n - clk.realNs) advance(n - clk.realNs - o.I(2), 0); faultFired("second_boundary"); }
        long long usual = clk.perCallNs; if (o.I(3)) { clk.perCallNs = o.I(3); faultFired("preempted"); } struct Back { long long v; ~Back() { clk.perCallNs = v; } } back{usual};
        Stamp S = now(); Vec v; double d = 0; bool isD = how & 1;
        if (how == 0) v = ts.timeSOUT(t); else if (how == 1) d = ts.timeDoubleSOUT(t); else if (how == 2) v = ts.timeOnceSOUT(t); else d = ts.timeOnceDoubleSOUT(t);
        checks(); ev("stamp %d", how); bool again = how == 2 ? onceT == t : how == 3 ? onceDT == t : false;
        if (again) { if (how == 2 ? !same(v, once) : d != onceD) fail("once", "the timestamp given once per cycle changed within cycle %d", t); continue; }
        long long a = us(S.real), b = us(clk.realNs);
        if (!isD) { if (v.size() != 2 || v(0) != std::floor(v(0)) || v(1) != std::floor(v(1)) || v(1) < 0 || v(1) >= 1e6) fail("timestamp", "%s is no pair of seconds and microseconds", str(v).c_str()); else { long long g = (long long)v(0) * 1000000 + (long long)v(1); if (g < a || g > b) fail("timestamp", "%lld us given at %lld us", g, a); } }
        else if (d < (double)a / 1000 - 1e-3 || d > (double)b / 1000 + 1e-3) fail("timestamp", "%.17g ms given at %.17g ms", d, (double)a / 1000);
        if (how == 2) { once = v; onceT = t; } if (how == 3) { onceD = d; onceDT = t; }
      }
    }
  }
};
}  // namespace
sim::World* sim::makeWorld() { return new W; }
