// P18: the causal filter follows its difference equation over any history.
#include "sim.hh"
#include <cmath>
#include <deque>
#include <memory>
#include <Eigen/Dense>
#include "sot/core/causal-filter.hh"
using namespace sim;
using dynamicgraph::sot::CausalFilter;
typedef Eigen::VectorXd V;

namespace {
struct Ref {          // the specification: history of inputs and outputs
  int n = 1; double dt = 1; V num, den; bool any = false;
  std::deque<V> x, y; // newest first
  V last;             // most recent input
  void fill(const V& v) {
    x.clear(); y.clear();
    V s = v * (num.sum() / den.sum());
    for (int k = 0; k < num.size() + 1; ++k) x.push_back(v);
    for (int k = 0; k < den.size() + 2; ++k) y.push_back(s);
  }
};
struct W : World {
  const char* property() const override { return "P18"; }
  const char* rule() const override {
    return "seeded histories of 5-120 samples over 1-3 filters of 1-4 channels and orders 1-6, with filter switches at "
           "arbitrary steps and sensor faults (not-a-number bursts, stuck, spikes, steps); non-trivial when a fault or switch happened";
  }
  const char* simTimeMeaning() const override { return "seconds of filtered signal"; }
  std::vector<std::string> realComponents() const override { return {"src/filters/causal-filter.cpp", "include/sot/core/causal-filter.hh"}; }
  std::vector<std::string> stubComponents() const override { return {"sensor (generated samples with faults)"}; }
  std::vector<std::string> assumptions() const override { return {"the leading denominator coefficient and the sum of the denominator are not zero", "each step is checked against the equation applied to the outputs actually published before it"}; }
  static void coefs(Rng& r, std::vector<double>& d, int& m, int& n) {
    m = (int)r.range(1, 6); n = (int)r.weighted({1, 2, 3, 3, 2, 1}) + 1;
    d.clear();
    for (int k = 0; k < m; ++k) d.push_back(std::round(r.uniform(-2, 2) * 64) / 64);
    // bounded feedback so that the outputs stay in range
    d.push_back(r.chance(1, 2) ? 1.0 : (r.chance(1, 2) ? 2.0 : 0.5)); double a0 = d.back();
    for (int k = 1; k < n; ++k) d.push_back(std::round(r.uniform(-0.9, 0.9) * a0 / (n - 1) * 256) / 256);
  }
  void generate(Rng& r, Plan& p) override {
    int nf = (int)r.range(1, 3); bool clean = r.chance(1, 8);
    for (int f = 0; f < nf; ++f) {
      std::vector<double> d; int m, n; coefs(r, d, m, n);
      static const double dts[] = {1e-3, 5e-3, 0.1, 1.0}; d.insert(d.begin(), dts[r.below(4)]);
      p.ops.push_back(Op("make", {f, r.range(1, 4), m, n}, d));
    }
    int steps = (int)r.range(5, 120); int nan = 0; double lv = 0;
    for (int k = 0; k < steps; ++k) {
      long long f = r.range(0, nf - 1);
      if (r.chance(1, 15)) { std::vector<double> d; int m, n; coefs(r, d, m, n); p.ops.push_back(Op("switch", {f, m, n}, d)); }
      if (!clean && r.chance(1, 60)) nan = (int)r.range(1, 3);
      int kind = 0; std::vector<double> v;
      if (nan > 0) { --nan; kind = 1; } else if (!clean && r.chance(1, 20)) kind = 2; else if (!clean && r.chance(1, 12)) kind = 3;
      for (int q = 0; q < 4; ++q) v.push_back(kind == 1 ? NAN : kind == 2 ? r.uniform(-1e6, 1e6) : kind == 3 ? lv : r.uniform(-3, 3));
      lv = v[0];
      p.ops.push_back(Op("sample", {f, kind, r.range(0, 3)}, v));
    }
  }
  void execute(const Plan& p) override {
    std::map<int, std::unique_ptr<CausalFilter>> f; std::map<int, Ref> ref;
    for (auto& o : p.ops) {
      int k = (int)o.I(0);
      if (o.name == "make") {
        Ref e; e.n = (int)o.I(1); int m = (int)o.I(2), n = (int)o.I(3); e.dt = o.D(0);
        e.num = V(m); e.den = V(n);
        for (int q = 0; q < m; ++q) e.num[q] = o.D(1 + q);
        for (int q = 0; q < n; ++q) e.den[q] = o.D(1 + m + q);
        f[k].reset(new CausalFilter(e.dt, e.n, e.num, e.den)); ref[k] = e; ev("make %d %d/%d", k, m, n);
      } else if (o.name == "switch") {
        if (!f.count(k)) continue;
        Ref& e = ref[k]; int m = (int)o.I(1), n = (int)o.I(2);
        V num(m), den(n);
        for (int q = 0; q < m; ++q) num[q] = o.D(q);
        for (int q = 0; q < n; ++q) den[q] = o.D(m + q);
        f[k]->switch_filter(num, den); e.num = num; e.den = den;
        if (e.any) e.fill(e.last);
        faultFired("filter_switch"); ev("switch %d %d/%d any %d", k, m, n, (int)e.any);
      } else if (o.name == "sample") {
        if (!f.count(k)) continue;
        Ref& e = ref[k]; V x(e.n); for (int q = 0; q < e.n; ++q) x[q] = o.D((size_t)q % 4);
        if (o.I(1) == 1) { // only one channel fails: the others must not be disturbed
          for (int q = 0; q < e.n; ++q) if (q != o.I(2) % e.n) x[q] = 0.25 * q;
          faultFired("sensor_nan");
        } else if (o.I(1) == 2) faultFired("sensor_spike"); else if (o.I(1) == 3) faultFired("sensor_stuck");
        if (!e.any) { e.fill(x); e.any = true; e.last = x; }
        V out = V::Constant(3 * e.n, -777.0);
        f[k]->get_x_dx_ddx(x, out);
        if (out.size() != 3 * e.n) { fail("output-size", "output has %ld entries", (long)out.size()); return; }
        e.x.push_front(x); e.last = x;
        ev("sample %d kind %lld -> %s", k, o.I(1), dstr(out[0]).c_str());
        for (int q = 0; q < e.n; ++q) {
          double s = 0, mag = 0;
          for (int c = 0; c < e.num.size(); ++c) { double t = e.num[c] * e.x[(size_t)c][q]; s += t; mag += std::fabs(t); }
          for (int c = 1; c < e.den.size(); ++c) { double t = e.den[c] * e.y[(size_t)c - 1][q]; s -= t; mag += std::fabs(t); }
          s /= e.den[0]; mag /= std::fabs(e.den[0]);
          auto same = [&](double got, double want, double m) { checks(); if (std::isnan(want) || std::isnan(got)) return std::isnan(want) == std::isnan(got); return std::fabs(got - want) <= 1e-11 * (m + 1e-3); };
          if (!same(out[q], s, mag)) fail("filter-value", "channel %d is %.12g, the difference equation gives %.12g", q, out[q], s);
          double y = out[q], y1 = e.y[0][q], y2 = e.y[1][q], m1 = std::fabs(y) + std::fabs(y1) + mag, m2 = m1 + std::fabs(y2);
          if (!same(out[e.n + q], (y - y1) / e.dt, m1 / e.dt)) fail("first-derivative", "channel %d derivative is %.12g, the finite difference is %.12g", q, out[e.n + q], (y - y1) / e.dt);
          if (!same(out[2 * e.n + q], (y - 2 * y1 + y2) / e.dt / e.dt, m2 / e.dt / e.dt)) fail("second-derivative", "channel %d second derivative is %.12g, the finite difference is %.12g", q, out[2 * e.n + q], (y - 2 * y1 + y2) / e.dt / e.dt);
        }
        e.y.push_front(out.head(e.n));
        while (e.x.size() > 9) e.x.pop_back();
        while (e.y.size() > 9) e.y.pop_back();
        simTime(e.dt);
        cover(mix((uint64_t)k, mix((uint64_t)e.num.size(), mix((uint64_t)e.den.size(), (uint64_t)o.I(1)))));
      }
    }
  }
};
}  // namespace
sim::World* sim::makeWorld() { return new W; }
