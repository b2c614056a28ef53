// P37: no output hides an input it could not read.
#include "entities.hh"

namespace {
struct W : World {
  const char* property() const override { return "P37"; }
  const char* rule() const override { return "one of all entity classes of the factory with its helpers, 0-4 commands, 1-6 cycles, then one input that matters (with another value of it, all announced, the output differs) fails; non-trivial when such an input failed"; }
  const char* simTimeMeaning() const override { return "control cycles"; }
  std::vector<std::string> realComponents() const override { return {"src/control", "src/factory", "src/feature", "src/filters", "src/math", "src/matrix", "src/sot", "src/task", "src/tools (entities)", "src/traces"}; }
  std::vector<std::string> stubComponents() const override { return {"dynamic-graph (stand-in)", "pinocchio Lie groups (stand-in)", "input signals", "clocks (simulated)", "contents of new memory (seeded)"}; }
  std::vector<std::string> assumptions() const override { return {"an input that changes announces it (is ready), as constants and signals of dynamic-graph do", "the output was up to date before the change"}; }
  std::vector<std::string> all;
  int cpuLimitMs() const override { return 8000; }
  void generate(Rng& r, Plan& p) override {
    if (all.empty()) all = classes();
    p.ops.push_back(Op("setup", {r.range(1, 7), r.range(0, 1 << 20), r.range(1, 5), r.range(0, 1)}, {}, {all[r.below(all.size())]}));
    for (int k = (int)r.range(0, 4); k > 0; --k) p.ops.push_back(Op("command", {r.range(0, 40), r.range(0, 1 << 20)}));
    for (int k = (int)r.range(1, 6); k > 0; --k) p.ops.push_back(Op("cycle", {r.range(0, 1 << 20), r.chance(1, 6) ? (r.chance(1, 4) ? r.range(100, 3000) : r.range(2, 20)) : 1}));
    p.ops.push_back(Op("change", {r.range(0, 40), r.range(0, 200), r.chance(1, 6) ? 1 : 0, r.chance(1, 5) ? (r.chance(1, 4) ? r.range(100, 3000) : r.range(2, 20)) : 1}));
  }
  // all inputs are announced. life 1: the input changes; 2: nothing changes; 3: the input fails
  struct Out { bool asked = false, up = false, raised = false; std::string before, text, out; std::vector<std::string> read; };
  Out live(const Plan& p, int life, const std::string& x) {
    Out res; const Op& s = p.ops[0]; std::string cls = s.S(0); int n = (int)s.I(0); uint64_t key = (uint64_t)s.I(1); setRun(key); int t = (int)s.I(2);
    clk.on = true; clk.realNs = 1700000000LL * 1000000000LL; clk.monoNs = 5000LL * 1000000000LL; clk.cpuNs = 1000000000LL; memoryPattern(0);
    Inst f("FeatureGeneric", "helper_f", mix(key, 1), n), f2("FeatureGeneric", "helper_f2", mix(key, 2), n), ta("Task", "helper_t", mix(key, 3), n), ref(cls, "helper_r", mix(key, 4), n);
    for (Inst* h : {&f, &f2}) { h->plug("errorIN", 1, false); h->src["errorIN"]->sh = {n, 1}; h->plug("jacobianIN", 2, false); h->src["jacobianIN"]->sh = {n, n}; h->plug("errordotIN", 3, false); h->src["errordotIN"]->sh = {n, 1}; }
    cmd(*ta.e, "add", {Value(std::string("helper_f"))}); ta.plug("controlGain", 1, false);
    for (auto& i : ref.ins) ref.plug(i, 7, false);
    Inst e(cls, "entity_e", mix(key, 5), n); for (auto& i : e.ins) e.plug(i, 0, false);
    contractGuard = [](const char*) { probe("abandoned"); };
    ready(ref); ready(e);
    for (auto& o : p.ops) if (o.name == "command") command(e, o.I(0), (uint64_t)o.I(1));
    for (auto& i : e.ins) if (!e.src.count(i)) e.plug(i, 0, false);   // inputs a command has made
    std::vector<std::pair<std::string, Src*>> in; std::map<std::string, long> count;
    for (Inst* h : {&e, &f, &f2, &ta, &ref}) for (auto& q : h->src) if (q.second) { std::string nm = h->name + "." + q.first; in.push_back({nm, q.second.get()}); q.second->count = &count[nm]; }
    auto announce = [&] { for (auto& q : in) q.second->sig().setReady(); };
    const Op* ch = NULL; for (auto& o : p.ops) if (o.name == "change") ch = &o;
    if (!ch || e.outs.empty() || in.empty()) return res;
    res.out = e.outs[(size_t)ch->I(0) % e.outs.size()]; Sig& q = e.e->getSignal(res.out);
    auto read = [&](std::string& to) { return raises([&] { q.recompute(t); to = show(q); }); };
    for (auto& o : p.ops) if (o.name == "cycle") {
      t += (int)o.I(1); advance(5000000, 300000); announce(); for (auto& v : in) if (mix((uint64_t)o.I(0), hashStr(v.first)) % 2) v.second->version = (long long)mix((uint64_t)o.I(0), hashStr(v.first));
      if (s.I(3)) { for (auto& d : e.outs) raises([&] { e.e->getSignal(d).recompute(t); }); for (auto& v : in) raises([&] { v.second->sig().recompute(t); }); }      // everything else is read too
      if (read(res.before)) return res;      // it was up to date before the change
    }
    if (res.before == "unprintable" || res.before.empty()) return res;
    t += (int)ch->I(3); advance(5000000, 300000);
    if (life != 2) for (auto& v : in) if (v.first == x) { if (life == 3) v.second->fails = true; else v.second->version = 77777; v.second->sig().setReady(); }
    if (life > 0) announce();
    for (auto& c : count) c.second = 0;
    res.asked = true; res.up = !q.needUpdate(t); res.raised = read(res.text); note("life %d %s of %s after %s: %s", life, res.out.c_str(), cls.c_str(), x.c_str(), res.raised ? "raised" : res.text.c_str());
    for (auto& c : count) if (c.second) res.read.push_back(c.first);
    simTime((double)t); return res;
  }
  void execute(const Plan& p) override {
    Silence quiet; if (p.ops.empty() || p.ops[0].name != "setup" || !dg::FactoryStorage::getInstance()->existEntity(p.ops[0].S(0))) return;
    std::string cls = p.ops[0].S(0); Out c = live(p, 2, ""); if (!c.asked || c.raised) return;
    const Op* ch = NULL; for (auto& o : p.ops) if (o.name == "change") ch = &o;
    for (size_t k = 0; k < std::min<size_t>(c.read.size(), 3); ++k) {
      std::string x = c.read[(k + (size_t)ch->I(1)) % c.read.size()]; Out b = live(p, 1, x); if (!b.asked || b.raised || b.text == c.text) continue;     // this input does not matter here
      Out a = live(p, 3, x); contractGuard = nullptr; if (!a.asked) continue; std::string what = cls + " " + b.out + " without " + x; ev(what.c_str()); cover(hashStr(what)); checks(); faultFired("input_fails");
      if (!a.raised) fail("failure-hidden", "%s: output %s is computed from %s and hides that this input fails: it gives %s", cls.c_str(), a.out.c_str(), x.c_str(), a.text.c_str());
    }
  }
};
}  // namespace
sim::World* sim::makeWorld() { return new W; }
