// P38: the order in which outputs are read does not matter.
#include "entities.hh"

namespace {
struct W : World {
  const char* property() const override { return "P38"; }
  const char* rule() const override { return "one of all entity classes of the factory with its helpers, 0-3 commands, 3-20 cycles in which inputs change and a set of outputs is read, some twice; lived again with the readings of each cycle in another order and repeated differently; non-trivial when two outputs or more were read in a cycle"; }
  const char* simTimeMeaning() const override { return "control cycles"; }
  std::vector<std::string> realComponents() const override { return {"src/control", "src/factory", "src/feature", "src/filters", "src/math", "src/matrix", "src/sot", "src/task", "src/tools (entities)", "src/traces"}; }
  std::vector<std::string> stubComponents() const override { return {"dynamic-graph (stand-in)", "pinocchio Lie groups (stand-in)", "input signals", "clocks (simulated)", "contents of new memory (seeded)"}; }
  std::vector<std::string> assumptions() const override { return {"no reading fails before (dynamic-graph does not evaluate a signal twice in a cycle)"}; }
  std::vector<std::string> all;
  int cpuLimitMs() const override { return 8000; }
  void generate(Rng& r, Plan& p) override {
    if (all.empty()) for (auto& c : classes()) if (c != "Latch" && c != "Event") all.push_back(c);   // to read these is to act
    p.ops.push_back(Op("setup", {r.range(1, 7), r.range(0, 1 << 20), r.range(1, 5)}, {}, {all[r.below(all.size())]}));
    for (int k = (int)r.range(0, 3); k > 0; --k) p.ops.push_back(Op("command", {r.range(0, 40), r.range(0, 1 << 20)}));
    for (int k = (int)r.range(3, 20); k > 0; --k) {
      if (r.chance(1, 10)) p.ops.push_back(Op("command", {r.range(0, 40), r.range(0, 1 << 20)}));
      p.ops.push_back(Op("cycle", {r.range(0, 1 << 20), r.chance(1, 6) ? (r.chance(1, 4) ? r.range(100, 3000) : r.range(2, 20)) : 1, r.range(0, 1 << 20)}));
    }
  }
  struct Out { std::map<std::string, std::string> text; bool raised = false; };
  std::vector<Out> live(const Plan& p, int life) {
    std::vector<Out> res; const Op& s = p.ops[0]; std::string cls = s.S(0); int n = (int)s.I(0); uint64_t key = (uint64_t)s.I(1); setRun(key); int t = (int)s.I(2);
    clk.on = true; clk.realNs = 1700000000LL * 1000000000LL; clk.monoNs = 5000LL * 1000000000LL; clk.cpuNs = 1000000000LL; memoryPattern(0);
    Inst f("FeatureGeneric", "helper_f", mix(key, 1), n), f2("FeatureGeneric", "helper_f2", mix(key, 2), n), ta("Task", "helper_t", mix(key, 3), n), ref(cls, "helper_r", mix(key, 4), n);
    for (Inst* h : {&f, &f2}) { h->plug("errorIN", 1, false); h->src["errorIN"]->sh = {n, 1}; h->plug("jacobianIN", 2, false); h->src["jacobianIN"]->sh = {n, n}; h->plug("errordotIN", 3, false); h->src["errordotIN"]->sh = {n, 1}; }
    cmd(*ta.e, "add", {Value(std::string("helper_f"))}); ta.plug("controlGain", 1, false);
    for (auto& i : ref.ins) ref.plug(i, 7, false);
    Inst e(cls, "entity_e", mix(key, 5), n); for (auto& i : e.ins) e.plug(i, 0, false);
    contractGuard = [](const char*) { probe("abandoned"); };
    ready(ref); ready(e);
    for (auto& o : p.ops) {
      if (o.name == "command") { command(e, o.I(0), (uint64_t)o.I(1)); for (auto& i : e.ins) if (!e.src.count(i)) e.plug(i, 0, false); }
      if (o.name != "cycle" || e.outs.empty()) continue;
      std::vector<std::pair<std::string, Src*>> in; for (Inst* h : {&e, &f, &f2, &ta, &ref}) for (auto& q : h->src) if (q.second) in.push_back({h->name + "." + q.first, q.second.get()});
      t += (int)o.I(1); advance(5000000, 300000); for (auto& v : in) { if (mix((uint64_t)o.I(0), hashStr(v.first)) % 2) v.second->version = (long long)mix((uint64_t)o.I(0), hashStr(v.first)); v.second->sig().setReady(); }
      uint64_t h = mix((uint64_t)o.I(2), 7); std::vector<std::string> set; for (auto& d : e.outs) if (h % 3 == 0 || mix(h, hashStr(d)) % 3) set.push_back(d);
      uint64_t perm = mix(h, (uint64_t)(1 + life)); for (size_t k = set.size(); k > 1; --k) { std::swap(set[k - 1], set[perm % k]); perm = mix(perm, k); }
      size_t m = set.size(); for (size_t k = 0; k < m; ++k) if (mix(perm, k) % 4 == 0) set.push_back(set[k]);       // some again
      Out r; std::string seen; for (auto& d : set) { std::string x; if (raises([&] { e.e->getSignal(d).recompute(t); x = show(e.e->getSignal(d)); })) { r.raised = true; break; } seen += d + " "; if (r.text.count(d) && r.text[d] != x) x = "first " + r.text[d] + " and then " + x; r.text[d] = x; }
      note("cycle %d %s", t, seen.c_str()); res.push_back(r); if (r.raised) break;
    }
    simTime((double)t); return res;
  }
  void execute(const Plan& p) override {
    Silence quiet; if (p.ops.empty() || p.ops[0].name != "setup" || !dg::FactoryStorage::getInstance()->existEntity(p.ops[0].S(0))) return;
    std::string cls = p.ops[0].S(0); auto a = live(p, 0), b = live(p, 1); bool two = false;
    for (size_t k = 0; k < std::min(a.size(), b.size()); ++k) { if (a[k].raised || b[k].raised) break; if (a[k].text.size() > 1) two = true; checks((int)a[k].text.size());
      for (auto& q : a[k].text) { std::string w = cls + " " + q.first; ev(w.c_str()); cover(mix(hashStr(w), k)); auto i = b[k].text.find(q.first); if (i != b[k].text.end() && i->second != q.second) fail("order-matters", "%s: %s is %s in the %zuth cycle, and %s when the outputs are read in another order", cls.c_str(), q.first.c_str(), q.second.c_str(), k + 1, i->second.c_str()); } }
    if (two) probe("two_or_more");
  }
};
}  // namespace
sim::World* sim::makeWorld() { return new W; }
