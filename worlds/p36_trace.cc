// P36: a cycle whose evaluation fails leaves no trace.
#include "entities.hh"

namespace {
struct W : World {
  const char* property() const override { return "P36"; }
  const char* rule() const override { return "one of all entity classes of the factory with its helpers, 0-3 commands, 3-30 cycles in which inputs change and an output is read, some with one input that fails; lived again with the readings that failed left out; non-trivial when a reading failed and a later one succeeded"; }
  const char* simTimeMeaning() const override { return "control cycles"; }
  std::vector<std::string> realComponents() const override { return {"src/control", "src/factory", "src/feature", "src/filters", "src/math", "src/matrix", "src/sot", "src/task", "src/tools (entities)", "src/traces"}; }
  std::vector<std::string> stubComponents() const override { return {"dynamic-graph (stand-in)", "pinocchio Lie groups (stand-in)", "input signals", "clocks (simulated)", "contents of new memory (seeded)"}; }
  std::vector<std::string> assumptions() const override { return {"an input that failed announces its recovery", "one output is read in a cycle"}; }
  std::vector<std::string> all;
  int cpuLimitMs() const override { return 8000; }
  void generate(Rng& r, Plan& p) override {
    if (all.empty()) for (auto& c : classes()) if (c != "Event" && c != "PeriodicCallEntity" && c != "Sequencer" && c != "RobotSimu") all.push_back(c);   // these run actions of others, done is done
    p.ops.push_back(Op("setup", {r.range(1, 7), r.range(0, 1 << 20), r.range(1, 5)}, {}, {all[r.below(all.size())]}));
    for (int k = (int)r.range(0, 3); k > 0; --k) p.ops.push_back(Op("command", {r.range(0, 40), r.range(0, 1 << 20)}));
    long long main = r.range(0, 40);
    for (int k = (int)r.range(3, 30); k > 0; --k) {
      if (r.chance(1, 10)) p.ops.push_back(Op("command", {r.range(0, 40), r.range(0, 1 << 20)}));
      p.ops.push_back(Op("cycle", {r.range(0, 1 << 20), r.chance(1, 6) ? (r.chance(1, 4) ? r.range(100, 3000) : r.range(2, 20)) : 1, r.chance(2, 3) ? main : r.range(0, 40), r.chance(1, 3) ? r.range(0, 60) : -1}));
    }
  }
  struct Out { bool raised, faulty; std::string text; std::vector<std::string> done, read; };   // done: outputs that were made, read: inputs that were read before the failure
  std::vector<Out> live(const Plan& p, const std::vector<Out>* ref0) {
    std::vector<Out> res; const Op& s = p.ops[0]; std::string cls = s.S(0); int n = (int)s.I(0); uint64_t key = (uint64_t)s.I(1); setRun(key); int t = (int)s.I(2);
    clk.on = true; clk.realNs = 1700000000LL * 1000000000LL; clk.monoNs = 5000LL * 1000000000LL; clk.cpuNs = 1000000000LL; memoryPattern(0);
    Inst f("FeatureGeneric", "helper_f", mix(key, 1), n), f2("FeatureGeneric", "helper_f2", mix(key, 2), n), ta("Task", "helper_t", mix(key, 3), n), ref(cls, "helper_r", mix(key, 4), n);
    for (Inst* h : {&f, &f2}) { h->plug("errorIN", 1, false); h->src["errorIN"]->sh = {n, 1}; h->plug("jacobianIN", 2, false); h->src["jacobianIN"]->sh = {n, n}; h->plug("errordotIN", 3, false); h->src["errordotIN"]->sh = {n, 1}; }
    cmd(*ta.e, "add", {Value(std::string("helper_f"))}); ta.plug("controlGain", 1, false);
    for (auto& i : ref.ins) ref.plug(i, 7, false);
    Inst e(cls, "entity_e", mix(key, 5), n); for (auto& i : e.ins) e.plug(i, 0, false);
    contractGuard = [](const char*) { probe("abandoned"); };
    ready(ref); ready(e);
    for (auto& o : p.ops) {
      if (o.name == "command") { command(e, o.I(0), (uint64_t)o.I(1)); for (auto& i : e.ins) if (!e.src.count(i)) e.plug(i, 0, false); }
      if (o.name != "cycle" || e.outs.empty()) continue;
      std::vector<std::pair<std::string, Src*>> in; for (Inst* h : {&e, &f, &f2, &ta, &ref}) for (auto& q : h->src) if (q.second) in.push_back({h->name + "." + q.first, q.second.get()});
      if (in.empty()) return res;
      t += (int)o.I(1); advance(5000000, 300000); for (auto& v : in) { if (mix((uint64_t)o.I(0), hashStr(v.first)) % 2) v.second->version = (long long)mix((uint64_t)o.I(0), hashStr(v.first)); v.second->sig().setReady(); }
      size_t x = 0; bool faulty = o.I(3) >= 0; if (faulty) { x = (size_t)o.I(3) % 4 && !e.src.empty() ? (size_t)o.I(3) / 4 % e.src.size() : (size_t)o.I(3) / 4 % in.size(); in[x].second->fails = true; }
      const std::string nm = e.outs[(size_t)o.I(2) % e.outs.size()]; Sig& q = e.e->getSignal(nm); Out r{false, faulty, ""};
      if (ref0 && res.size() < ref0->size() && (*ref0)[res.size()].raised) { r = (*ref0)[res.size()]; for (auto& d : r.done) raises([&] { e.e->getSignal(d).recompute(t); }); for (auto& v : in) if (std::count(r.read.begin(), r.read.end(), v.first)) raises([&] { v.second->sig().recompute(t); }); }     // left out
      else r.raised = raises([&] { q.recompute(t); r.text = show(q); });
      if (r.raised && !ref0) for (auto& v : in) if (v.second->sig().getTime() == t) r.read.push_back(v.first);
      if (r.raised && !ref0) for (auto& d : e.outs) if (d != nm && e.e->getSignal(d).getTime() == t) r.done.push_back(d);
      note("cycle %d %s %s%s", t, nm.c_str(), faulty ? ("without " + in[x].first + " ").c_str() : "", r.raised ? "raised" : r.text.c_str());
      if (faulty) in[x].second->fails = false;
      r.text = nm + fmt(" of cycle %d: ", t) + r.text; if (ref0 && r.raised && (*ref0)[res.size()].raised) r.text = (*ref0)[res.size()].text;
      res.push_back(r);
    }
    simTime((double)t); return res;
  }
  void execute(const Plan& p) override {
    Silence quiet; if (p.ops.empty() || p.ops[0].name != "setup" || !dg::FactoryStorage::getInstance()->existEntity(p.ops[0].S(0))) return;
    std::string cls = p.ops[0].S(0); auto a = live(p, NULL); bool failed = false, after = false;
    for (auto& o : a) { if (o.raised) { failed = true; if (o.faulty) faultFired("input_fails"); } else if (failed) after = true; }
    if (!after) return; probe("recovers"); auto b = live(p, &a); checks((int)a.size());
    for (size_t k = 0; k < std::min(a.size(), b.size()); ++k) { std::string w = cls + " " + a[k].text.substr(0, a[k].text.find(' ')); ev(w.c_str()); cover(mix(hashStr(w), a[k].raised)); if (a[k].raised != b[k].raised || a[k].text != b[k].text) fail("failure-leaves-trace", "%s: after a failed evaluation: %s%s; had it not been asked: %s%s", cls.c_str(), a[k].text.c_str(), a[k].raised ? "raised" : "", b[k].text.c_str(), b[k].raised ? "raised" : ""); }
  }
};
}  // namespace
sim::World* sim::makeWorld() { return new W; }
