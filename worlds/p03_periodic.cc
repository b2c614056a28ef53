// P03: periodic calls refresh exactly the registered signals whose turn it is.
#include "dg.hh"
#include <sot/core/periodic-call.hh>
#include <sot/core/periodic-call-entity.hh>
using namespace sim;
using namespace dgw;
using namespace dynamicgraph::sot;

namespace {
struct Host : PeriodicCallEntity {   // the entity keeps its list protected
  Host() : PeriodicCallEntity("periodic") {}
  PeriodicCall& calls() { return *this; }
};
struct Src : dg::Entity {            // an entity with two signals, found by path
  dg::Signal<int, int> a, b;
  static const std::string CLASS_NAME;
  virtual const std::string& getClassName() const { return CLASS_NAME; }
  Src(const std::string& n) : Entity(n), a("Src(" + n + ")::output(int)::a"), b("Src(" + n + ")::output(int)::b") { signalRegistration(a << b); }
};
const std::string Src::CLASS_NAME = "Src";
struct W : World {
  const char* property() const override { return "P03"; }
  const char* rule() const override {
    return "seeded histories of 10-120 registrations, removals, clears and runs at increasing, repeated and skipped times over 1-8 signals, "
           "with failing signals, unknown paths and invalid down-sampling; non-trivial when a failure or refusal occurred";
  }
  const char* simTimeMeaning() const override { return "control cycles"; }
  std::vector<std::string> realComponents() const override { return {"src/tools/periodic-call.cpp", "src/tools/periodic-call-entity.cpp", "include/sot/core/periodic-call.hh"}; }
  std::vector<std::string> stubComponents() const override { return {"dynamic-graph (stand-in)", "signals (counted, failing on command)"}; }
  std::vector<std::string> assumptions() const override { return {"control times are not negative", "a failing signal ends the call in progress with its error; which other signals that call still refreshes is unspecified"}; }
  void generate(Rng& r, Plan& p) override {
    int ns = (int)r.range(1, 8), n = (int)r.range(10, 120); bool clean = r.chance(1, 10); long long t = r.chance(1, 4) ? r.range(0, 100000) : 0;
    p.ops.push_back(Op("signals", {ns}));
    for (int k = 0; k < n; ++k) {
      long long s = r.range(0, ns - 1), name = r.chance(3, 4) ? s : r.range(0, ns - 1);
      switch (r.weighted({8, 10, 3, 3, 4, 1, 50, 4, 2, clean ? 0 : 4, clean ? 0 : 2})) {
        case 0: p.ops.push_back(Op("add", {name, s})); break;
        case 1: p.ops.push_back(Op("addDown", {name, s, r.chance(1, 2) ? r.range(1, 4) : r.range(1, 60)})); break;
        case 2: p.ops.push_back(Op("addPath", {s, r.chance(1, 2) ? 0 : r.range(1, 5)})); break;
        case 3: p.ops.push_back(Op("addUnknown", {r.range(0, 2), r.range(0, 2)})); break;
        case 4: p.ops.push_back(Op("rm", {name})); break;
        case 5: p.ops.push_back(Op("clear")); break;
        case 6: { int m = r.weighted({10, 2, 2}); if (m == 0) ++t; else if (m == 1) t += r.range(1, 200); p.ops.push_back(Op("run", {t, r.range(0, 2)})); break; }
        case 7: ++t; p.ops.push_back(Op("trigger", {t})); break;
        case 8: ++t; p.ops.push_back(Op("once", {t})); break;
        case 9: p.ops.push_back(Op("failing", {s, r.range(0, 3)})); break;
        case 10: p.ops.push_back(Op("zero", {name, s, r.range(0, 1)})); break;
      }
    }
  }
  void execute(const Plan& p) override {
    Silence quiet; Host h; PeriodicCall& pc = h.calls();
    struct S { std::unique_ptr<Src> e; int fail = 0; int na = 0, ta = -1; };
    std::vector<S> s; int ns = 0;
    struct E { int sig; unsigned down; }; std::map<std::string, E> ref;
    auto nm = [](long long k) { return fmt("n%lld", k); };
    auto run = [&](int t, const char* how, const std::function<void()>& f) {
      for (auto& x : s) x.na = 0, x.ta = -1;
      std::map<int, int> want; bool failing = false;
      for (auto& x : ref) if (t % (int)x.second.down == 0) { want[x.second.sig]++; if (s[(size_t)x.second.sig].fail) failing = true; }
      bool r = raises(f);
      ev("%s %d entries %zu -> %s", how, t, ref.size(), r ? "raised" : "ok"); simTime(1);
      if (r != failing) fail(r ? "call-raised" : "failure-hidden", "%s at time %d %s", how, t, r ? "raised though no signal due failed" : "hid the failure of a signal");
      if (failing) { faultFired("signal_raises"); probe("run_with_failure"); }
      for (size_t k = 0; k < s.size(); ++k) {
        int w = want.count((int)k) ? want[(int)k] : 0; checks();
        if (failing ? s[k].na > w : s[k].na != w) fail(s[k].na > w ? "refresh-extra" : "refresh-missed", "%s at time %d refreshed signal %zu %d times, its registrations ask for %d", how, t, k, s[k].na, w);
        if (s[k].na && s[k].ta != t) fail("refresh-time", "%s at time %d refreshed signal %zu for time %d", how, t, k, s[k].ta);
        cover(mix(k, mix((uint64_t)w, mix(failing, ref.size()))));
      }
    };
    for (auto& o : p.ops) {
      if (o.name == "signals") {
        ns = (int)o.I(0); s.resize((size_t)ns);
        for (int k = 0; k < ns; ++k) {
          S* x = &s[(size_t)k]; x->e.reset(new Src(fmt("src%d", k)));
          x->e->a.setFunction([x](int& r, int t) -> int& { x->na++; x->ta = t; r = t;
            if (x->fail == 1) throw std::runtime_error("signal"); if (x->fail == 2) throw "signal"; if (x->fail == 3) throw 4; return r; });
        }
      } else if (!ns) continue;
      else if (o.name == "add") { pc.addSignal(nm(o.I(0)), s[(size_t)o.I(1)].e->a); ref[nm(o.I(0))] = E{(int)o.I(1), 1}; ev("add"); }
      else if (o.name == "addDown") { pc.addDownsampledSignal(nm(o.I(0)), s[(size_t)o.I(1)].e->a, (unsigned)o.I(2)); ref[nm(o.I(0))] = E{(int)o.I(1), (unsigned)o.I(2)}; ev("addDown %lld", o.I(2)); }
      else if (o.name == "addPath") {
        std::string path = fmt("src%lld.a", o.I(0));
        if (o.I(1)) pc.addDownsampledSignal(path, (unsigned)o.I(1)); else pc.addSignal(path);
        ref[path] = E{(int)o.I(0), o.I(1) ? (unsigned)o.I(1) : 1u}; ev("addPath");
      } else if (o.name == "addUnknown") {
        std::string path = o.I(0) == 0 ? "nobody.a" : o.I(0) == 1 ? "src0.nothing" : "src0";
        bool r = raises([&] { if (o.I(1)) pc.addDownsampledSignal(path, 2u); else pc.addSignal(path); });
        if (!r) fail("unknown-accepted", "unknown signal %s was registered", path.c_str());
        faultFired("unknown_signal"); ev("addUnknown");
      } else if (o.name == "zero") {     // a factor that means nothing must not end the control process
        bool r = raises([&] { pc.addDownsampledSignal(nm(o.I(0)), s[(size_t)o.I(1)].e->a, 0u); });
        if (!r) { fail("zero-factor-accepted", "a down-sampling factor of zero was registered"); ref.erase(nm(o.I(0))); pc.rmSignal(nm(o.I(0))); }
        faultFired("invalid_factor"); ev("zero");
      } else if (o.name == "rm") { pc.rmSignal(nm(o.I(0))); ref.erase(nm(o.I(0))); ev("rm"); }
      else if (o.name == "clear") { pc.clear(); ref.clear(); ev("clear"); }
      else if (o.name == "failing") { s[(size_t)o.I(0)].fail = (int)o.I(1); ev("failing %lld", o.I(1)); }
      else if (o.name == "run") { int t = (int)o.I(0); if (o.I(1)) run(t, "run", [&] { pc.run(t); }); else run(t, "runSignals", [&] { pc.runSignals(t); }); }
      else if (o.name == "trigger") { int t = (int)o.I(0); run(t, "trigger", [&] { h.triger(t); }); }
      else if (o.name == "once") {
        int t = (int)o.I(0); bool failing = false; for (auto& x : ref) if (t % (int)x.second.down == 0 && s[(size_t)x.second.sig].fail) failing = true;
        run(t, "once", [&] { h.trigerOnce(t); });
        if (!failing) ref.clear(); else { pc.clear(); ref.clear(); }
      }
    }
    // the display lists exactly the registrations
    std::ostringstream os; pc.display(os); std::string d = os.str();
    for (auto& x : ref) { checks(); if (d.find(" - " + x.first + "\n") == std::string::npos) fail("display", "registration %s is not displayed", x.first.c_str()); }
    size_t lines = 0; for (size_t k = 0; (k = d.find("\n - ", k)) != std::string::npos; ++k) ++lines;
    if (lines != ref.size()) fail("display", "%zu registrations are displayed, %zu exist", lines, ref.size());
  }
};
}  // namespace
sim::World* sim::makeWorld() { return new W; }
