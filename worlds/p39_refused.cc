// P39: a refused command leaves no trace.
#include "entities.hh"

namespace {
struct W : World {
  const char* property() const override { return "P39"; }
  const char* rule() const override { return "one of all entity classes of the factory with its helpers, 3-40 commands with seeded arguments and cycles in which inputs change and an output is read; lived again without the commands that were refused; non-trivial when a command was refused and a reading or command followed"; }
  const char* simTimeMeaning() const override { return "control cycles"; }
  std::vector<std::string> realComponents() const override { return {"src/control", "src/factory", "src/feature", "src/filters", "src/math", "src/matrix", "src/sot", "src/task", "src/tools (entities)", "src/traces"}; }
  std::vector<std::string> stubComponents() const override { return {"dynamic-graph (stand-in)", "pinocchio Lie groups (stand-in)", "input signals", "clocks (simulated)", "contents of new memory (seeded)"}; }
  std::vector<std::string> assumptions() const override { return {"one output is read in a cycle"}; }
  std::vector<std::string> all;
  int cpuLimitMs() const override { return 8000; }
  void generate(Rng& r, Plan& p) override {
    if (all.empty()) for (auto& c : classes()) all.push_back(c);
    p.ops.push_back(Op("setup", {r.range(1, 7), r.range(0, 1 << 20), r.range(1, 5)}, {}, {all[r.below(all.size())]}));
    long long main = r.range(0, 40);
    for (int k = (int)r.range(3, 40); k > 0; --k) {
      if (r.chance(1, 2)) p.ops.push_back(Op("command", {r.range(0, 40), r.range(0, 1 << 20)}));
      else p.ops.push_back(Op("cycle", {r.range(0, 1 << 20), r.chance(1, 6) ? (r.chance(1, 4) ? r.range(100, 3000) : r.range(2, 20)) : 1, r.chance(1, 2) ? main : r.range(0, 40)}));
    }
  }
  struct Out { bool refused; std::string text; };
  std::vector<Out> live(const Plan& p, const std::vector<Out>* ref0) {
    std::vector<Out> res; const Op& s = p.ops[0]; std::string cls = s.S(0); int n = (int)s.I(0); uint64_t key = (uint64_t)s.I(1); setRun(key); int t = (int)s.I(2);
    clk.on = true; clk.realNs = 1700000000LL * 1000000000LL; clk.monoNs = 5000LL * 1000000000LL; clk.cpuNs = 1000000000LL; memoryPattern(0);
    Inst f("FeatureGeneric", "helper_f", mix(key, 1), n), f2("FeatureGeneric", "helper_f2", mix(key, 2), n), ta("Task", "helper_t", mix(key, 3), n), ref(cls, "helper_r", mix(key, 4), n);
    for (Inst* h : {&f, &f2}) { h->plug("errorIN", 1, false); h->src["errorIN"]->sh = {n, 1}; h->plug("jacobianIN", 2, false); h->src["jacobianIN"]->sh = {n, n}; h->plug("errordotIN", 3, false); h->src["errordotIN"]->sh = {n, 1}; }
    cmd(*ta.e, "add", {Value(std::string("helper_f"))}); ta.plug("controlGain", 1, false);
    for (auto& i : ref.ins) ref.plug(i, 7, false);
    Inst e(cls, "entity_e", mix(key, 5), n); for (auto& i : e.ins) e.plug(i, 0, false);
    contractGuard = [](const char*) { probe("abandoned"); };
    ready(ref); ready(e);
    for (auto& o : p.ops) {
      if (o.name == "command") {
        Out r{false, ""}; if (ref0 && res.size() < ref0->size() && (*ref0)[res.size()].refused) r = (*ref0)[res.size()];      // left out
        else { r.text = command(e, o.I(0), (uint64_t)o.I(1)); r.refused = r.text.size() > 8 && r.text.compare(r.text.size() - 8, 8, " refused") == 0; }
        res.push_back(r); for (auto& i : e.ins) if (!e.src.count(i)) e.plug(i, 0, false);
      }
      if (o.name != "cycle" || e.outs.empty()) continue;
      std::vector<std::pair<std::string, Src*>> in; for (Inst* h : {&e, &f, &f2, &ta, &ref}) for (auto& q : h->src) if (q.second) in.push_back({h->name + "." + q.first, q.second.get()});
      t += (int)o.I(1); advance(5000000, 300000); for (auto& v : in) { if (mix((uint64_t)o.I(0), hashStr(v.first)) % 2) v.second->version = (long long)mix((uint64_t)o.I(0), hashStr(v.first)); v.second->sig().setReady(); }
      const std::string nm = e.outs[(size_t)o.I(2) % e.outs.size()]; Sig& q = e.e->getSignal(nm); Out r{false, ""};
      if (raises([&] { q.recompute(t); r.text = show(q); })) r.text = "raised";
      note("cycle %d %s %s", t, nm.c_str(), r.text.c_str()); r.text = nm + fmt(" of cycle %d: ", t) + r.text; res.push_back(r);
    }
    simTime((double)t); return res;
  }
  void execute(const Plan& p) override {
    Silence quiet; if (p.ops.empty() || p.ops[0].name != "setup" || !dg::FactoryStorage::getInstance()->existEntity(p.ops[0].S(0))) return;
    std::string cls = p.ops[0].S(0); auto a = live(p, NULL); bool some = false, after = false; std::string last;
    for (auto& o : a) { if (o.refused) { some = true; last = o.text; } else if (some) after = true; }
    if (!after) return; probe("goes_on"); auto b = live(p, &a); checks((int)a.size()); std::string cmds;
    for (size_t k = 0; k < std::min(a.size(), b.size()); ++k) { if (a[k].refused) cmds += (cmds.empty() ? "" : ", ") + a[k].text; std::string w = cls + " " + a[k].text.substr(0, a[k].text.find(' ')); ev(w.c_str()); cover(mix(hashStr(w), a[k].refused)); if (a[k].refused != b[k].refused || a[k].text != b[k].text) fail("refusal-leaves-trace", "%s: after %s: %s; had this not been asked: %s", cls.c_str(), cmds.c_str(), a[k].text.c_str(), b[k].text.c_str()); }
  }
};
}  // namespace
sim::World* sim::makeWorld() { return new W; }
