// P41: how long the control has been running does not matter.
#include "entities.hh"

namespace {
struct W : World {
  const char* property() const override { return "P41"; }
  const char* rule() const override { return "one of all entity classes of the factory with its helpers, 0-4 commands, 5-40 cycles in which inputs change or fail and an output is read; lived again the same number of cycles later (up to 23 days at 1 kHz); non-trivial when an output was read"; }
  const char* simTimeMeaning() const override { return "control cycles"; }
  std::vector<std::string> realComponents() const override { return {"src/control", "src/factory", "src/feature", "src/filters", "src/math", "src/matrix", "src/sot", "src/task", "src/tools (entities)", "src/traces"}; }
  std::vector<std::string> stubComponents() const override { return {"dynamic-graph (stand-in)", "pinocchio Lie groups (stand-in)", "input signals", "clocks (simulated)", "contents of new memory (seeded)"}; }
  std::vector<std::string> assumptions() const override { return {"an input that failed announces its recovery", "one output is read in a cycle"}; }
  std::vector<std::string> all;
  int cpuLimitMs() const override { return 8000; }
  void generate(Rng& r, Plan& p) override {
    if (all.empty()) for (auto& c : classes()) all.push_back(c);
    p.ops.push_back(Op("setup", {r.range(1, 7), r.range(0, 1 << 20), r.range(1, 5), r.range(1, 2780)}, {}, {all[r.below(all.size())]}));
    for (int k = (int)r.range(0, 4); k > 0; --k) p.ops.push_back(Op("command", {r.range(0, 40), r.range(0, 1 << 20)}));
    long long main = r.range(0, 40);
    for (int k = (int)r.range(5, 40); k > 0; --k) {
      if (r.chance(1, 8)) p.ops.push_back(Op("command", {r.range(0, 40), r.range(0, 1 << 20)}));
      p.ops.push_back(Op("cycle", {r.range(0, 1 << 20), r.chance(1, 6) ? (r.chance(1, 4) ? r.range(100, 3000) : r.range(2, 20)) : 1, r.chance(2, 3) ? main : r.range(0, 40), r.chance(1, 8) ? r.range(0, 60) : -1}));
    }
  }
  struct Out { bool cycle; std::string text; int t; };
  std::vector<Out> live(const Plan& p, int shift) {
    std::vector<Out> res; const Op& s = p.ops[0]; std::string cls = s.S(0); int n = (int)s.I(0); uint64_t key = (uint64_t)s.I(1); setRun(key); int t = (int)s.I(2) + shift;
    clk.on = true; clk.realNs = 1700000000LL * 1000000000LL; clk.monoNs = 5000LL * 1000000000LL; clk.cpuNs = 1000000000LL; memoryPattern(0);
    Inst f("FeatureGeneric", "helper_f", mix(key, 1), n), f2("FeatureGeneric", "helper_f2", mix(key, 2), n), ta("Task", "helper_t", mix(key, 3), n), ref(cls, "helper_r", mix(key, 4), n);
    for (Inst* h : {&f, &f2}) { h->plug("errorIN", 1, false); h->src["errorIN"]->sh = {n, 1}; h->plug("jacobianIN", 2, false); h->src["jacobianIN"]->sh = {n, n}; h->plug("errordotIN", 3, false); h->src["errordotIN"]->sh = {n, 1}; }
    cmd(*ta.e, "add", {Value(std::string("helper_f"))}); ta.plug("controlGain", 1, false);
    for (auto& i : ref.ins) ref.plug(i, 7, false);
    Inst e(cls, "entity_e", mix(key, 5), n); for (auto& i : e.ins) e.plug(i, 0, false);
    contractGuard = [](const char*) { probe("abandoned"); };
    ready(ref); ready(e);
    for (auto& o : p.ops) {
      if (o.name == "command") { res.push_back(Out{false, command(e, o.I(0), (uint64_t)o.I(1)), t}); for (auto& i : e.ins) if (!e.src.count(i)) e.plug(i, 0, false); }
      if (o.name != "cycle" || e.outs.empty()) continue;
      std::vector<std::pair<std::string, Src*>> in; for (Inst* h : {&e, &f, &f2, &ta, &ref}) for (auto& q : h->src) if (q.second) in.push_back({h->name + "." + q.first, q.second.get()});
      t += (int)o.I(1); advance(5000000, 300000); for (auto& v : in) { if (mix((uint64_t)o.I(0), hashStr(v.first)) % 2) v.second->version = (long long)mix((uint64_t)o.I(0), hashStr(v.first)); v.second->sig().setReady(); }
      Src* bad = o.I(3) >= 0 && !in.empty() ? in[(size_t)o.I(3) % in.size()].second : NULL; if (bad) { bad->fails = true; faultFired("input_fails"); }
      const std::string nm = e.outs[(size_t)o.I(2) % e.outs.size()]; Sig& q = e.e->getSignal(nm); Out r{true, "", t};
      if (raises([&] { q.recompute(t); r.text = show(q); })) r.text = "raised";
      note("cycle %d %s %s", t, nm.c_str(), r.text.c_str()); if (bad) bad->fails = false; r.text = nm + ": " + r.text; res.push_back(r);
    }
    simTime((double)t); return res;
  }
  void execute(const Plan& p) override {
    Silence quiet; if (p.ops.empty() || p.ops[0].name != "setup" || !dg::FactoryStorage::getInstance()->existEntity(p.ops[0].S(0))) return;
    std::string cls = p.ops[0].S(0); int shift = 720720 * (int)std::max(1LL, p.ops[0].I(3)); auto a = live(p, 0), b = live(p, shift); faultFired("time_jumps");
    for (size_t k = 0; k < std::min(a.size(), b.size()); ++k) { std::string w = cls + " " + a[k].text.substr(0, a[k].text.find(' ')); ev(w.c_str()); cover(mix(hashStr(w), k)); checks();
      if (a[k].text != b[k].text) fail("age-matters", "%s: in cycle %d %s; in cycle %d of the same life begun %d cycles later %s", cls.c_str(), a[k].t, a[k].text.c_str(), b[k].t, shift, b[k].text.c_str()); }
    if (!a.empty()) probe("lived");
  }
};
}  // namespace
sim::World* sim::makeWorld() { return new W; }
