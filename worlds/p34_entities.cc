// P34: every entity answers from its own history only, whatever else happens around it.
#include "entities.hh"

namespace {
struct W : World {
  const char* property() const override { return "P34"; }
  const char* rule() const override { return "for one of all entity classes of the factory, a seeded history of 5-60 cycles of input changes, failing inputs, commands and readings is lived twice: alone, and with other instances created, run, commanded and deleted, displays and listings in between, and other bytes in new memory; non-trivial when a fault or a disturbance occurred"; }
  const char* simTimeMeaning() const override { return "control cycles"; }
  std::vector<std::string> realComponents() const override { return {"src/control", "src/factory", "src/feature", "src/filters", "src/math", "src/matrix", "src/sot", "src/task", "src/tools (entities)", "src/traces"}; }
  std::vector<std::string> stubComponents() const override { return {"dynamic-graph (stand-in)", "pinocchio Lie groups (stand-in)", "input signals", "clocks (simulated)", "contents of new memory (seeded)"}; }
  std::vector<std::string> assumptions() const override { return {"the parameter server is shared by name on purpose and is not among the classes", "what a signal gives after it failed within a cycle is not asked"}; }
  std::vector<std::string> all;
  int cpuLimitMs() const override { return 8000; }
  void generate(Rng& r, Plan& p) override {
    if (all.empty()) all = classes();
    bool clean = r.chance(1, 8); int n = (int)r.range(5, 60);
    p.ops.push_back(Op("setup", {r.range(1, 7), r.range(0, 1 << 20), r.range(1, 5), r.range(0, 7), r.range(0, 7)}, {}, {all[r.below(all.size())]}));
    for (int k = 0; k < n; ++k) {
      long long a = r.range(0, 40), b = r.range(0, 1 << 20);
      switch (r.weighted({14, 5, clean ? 0 : 2, 2, 6, 9})) {
        case 0: p.ops.push_back(Op("read", {r.chance(1, 4) ? 0 : r.chance(1, 6) ? (r.chance(1, 4) ? r.range(100, 3000) : r.range(2, 20)) : 1, a})); break;
        case 1: p.ops.push_back(Op("plug", {a, b})); break;
        case 2: p.ops.push_back(Op("fail", {a, r.range(0, 2)})); break;
        case 3: p.ops.push_back(Op("heal")); break;
        case 4: p.ops.push_back(Op("command", {a, b})); break;
        case 5: p.ops.push_back(Op("noise", {r.range(0, 8), a, b})); break;
      }
    }
  }
  std::vector<std::string> live(const Plan& p, bool disturbed, std::vector<std::string>& log) {
    const Op& s = p.ops[0]; std::string cls = s.S(0); int n = (int)s.I(0); uint64_t key = (uint64_t)s.I(1); setRun(key); int t = (int)s.I(2); std::vector<std::string> out;
    clk.on = true; clk.realNs = 1700000000LL * 1000000000LL; clk.monoNs = 5000LL * 1000000000LL; clk.cpuNs = 1000000000LL;
    memoryPattern((int)(disturbed ? s.I(4) : s.I(3)));
    Inst f("FeatureGeneric", "helper_f", mix(key, 1), n), f2("FeatureGeneric", "helper_f2", mix(key, 2), n), ta("Task", "helper_t", mix(key, 3), n), ref(cls, "helper_r", mix(key, 4), n);
    Inst of("FeatureGeneric", "friend_f", mix(key, 1), n), ot("Task", "friend_t", mix(key, 3), n), oref(cls, "friend_r", mix(key, 4), n);
    for (Inst* h : {&f, &f2, &of}) { h->plug("errorIN", 1, true); h->src["errorIN"]->sh = {n, 1}; h->plug("jacobianIN", 2, true); h->src["jacobianIN"]->sh = {n, n}; h->plug("errordotIN", 3, true); h->src["errordotIN"]->sh = {n, 1}; }
    for (Inst* h : {&ta, &ot}) { cmd(*h->e, "add", {Value(std::string(h == &ta ? "helper_f" : "friend_f"))}); h->plug("controlGain", 1, false); }
    for (Inst* h : {&ref, &oref}) for (auto& i : h->ins) h->plug(i, 7, true);
    std::unique_ptr<Inst> other, e(new Inst(cls, "entity_e", mix(key, 5), n)); std::set<std::string> bad; std::map<std::string, int> done;
    bool full = mix(key, 17) % 3; for (auto& i : e->ins) if (full || mix(key, hashStr(i)) % 5) e->plug(i, 0, mix(key, hashStr(i) + 1) % 3 != 0);
    if (!disturbed) api(*e);
    if (mix(key, 55) % 3) { ready(ref); ready(*e); }
    std::string what0 = cls; auto excuse = [what0](const char* w) { probe("abandoned"); if (getenv("P34_AB")) fprintf(stderr, "ABANDON %s %s\n", what0.c_str(), w); };
    if (!disturbed) contractGuard = excuse;     // the disturbed life asks nothing more of the entity
    for (auto& o : p.ops) {
      long long realNs = clk.realNs, cpuNs = clk.cpuNs, monoNs = clk.monoNs;
      if (o.name == "read") {
        t += (int)o.I(0); if (o.I(0)) { done.clear(); bad.clear(); } advance(1000000 * (o.I(0) + 1), 300000);
        if (e->outs.empty()) continue;
        const std::string nm = e->outs[(size_t)o.I(1) % e->outs.size()]; if (bad.size()) continue;   // a failure of this cycle may have left others half made
        std::string what, v; Sig& q = e->e->getSignal(nm); bool r = raises([&] { q.recompute(t); v = show(q); }, &what); if (r) bad.insert(nm);
        if (r) faultFired("reading_fails"); else probe("reading"); note("read %s %d %s", nm.c_str(), t, r ? what.c_str() : v.c_str());
        out.push_back(fmt("reading %s of cycle %d: ", nm.c_str(), t) + (r ? "raised" : v)); if (disturbed) { simTime((double)o.I(0)); cover(mix(hashStr(cls), mix(hashStr(nm), mix(r, (uint64_t)(other != NULL))))); }
      } else if (o.name == "plug") { if (e->ins.empty()) continue; std::string in = e->ins[(size_t)o.I(0) % e->ins.size()]; ++t; done.clear(); bad.clear(); note("plug %s", in.c_str()); e->plug(in, (uint64_t)o.I(1), o.I(1) % 3 != 0); }
      else if (o.name == "fail") { if (e->ins.empty()) continue; std::string in = e->ins[(size_t)o.I(0) % e->ins.size()]; ++t; done.clear(); bad.clear(); auto it = e->src.find(in); if (it == e->src.end()) continue; note("fail %s %lld", in.c_str(), o.I(1)); if (o.I(1) == 2) { e->e->getSignal(in).unplug(); faultFired("input_missing"); } else { it->second->fails = true; it->second->sig().setReady(); faultFired("input_fails"); } }
      else if (o.name == "heal") { ++t; done.clear(); bad.clear(); for (auto& q : e->src) { q.second->fails = false; q.second->sig().setReady(); } }
      else if (o.name == "command") { out.push_back("command " + command(*e, o.I(0), (uint64_t)o.I(1))); note("%s", out.back().c_str()); ++t; done.clear(); bad.clear(); }
      else if (o.name == "noise" && disturbed) {
        long before = e->evals + f.evals + ref.evals; uint64_t k = (uint64_t)o.I(2); probe("disturbance"); note("noise %lld", o.I(0));
        switch (o.I(0)) {
          case 0: case 1: look(*e, o.I(0) == 0); if (e->evals + f.evals + ref.evals != before) fail("display-computes", "displaying a %s evaluates its inputs", cls.c_str()); break;
          case 2: { std::ostringstream q; for (auto& c : e->e->getNewStyleCommandMap()) q << c.second->getDocstring(); q << e->e->getDocString() << e->e->getClassName(); e->e->displaySignalList(q); for (auto& g : e->e->getSignalMap()) g.second->displayDependencies(q, 3); break; }
          case 3: other.reset(); other.reset(new Inst(cls, "entity_o", mix(key, k), 1 + (int)(k % 7))); other->side = true; for (auto& i : other->ins) other->plug(i, 1, true); contractGuard = excuse; ready(*other); break;
          case 4: other.reset(); break;
          case 5: case 6: contractGuard = excuse; if (other) { std::string g; if (other->outs.size()) { Sig& q = other->e->getSignal(other->outs[(size_t)o.I(1) % other->outs.size()]); raises([&] { q.recompute(t + (int)(k % 40)); g = show(q); }); } } break;
          case 7: contractGuard = excuse; if (other) command(*other, o.I(1), k); break;
          case 8: if (other) { for (auto& q : other->src) { q.second->fails = k & 1; q.second->sig().setReady(); } look(*other, true); } break;
        }
      }
      if (disturbed) contractGuard = nullptr;
      if (o.name == "noise") { clk.realNs = realNs; clk.cpuNs = cpuNs; clk.monoNs = monoNs; }   // what happens around costs no time
    }
    other.reset(); e.reset(); contractGuard = nullptr;
    return out;
  }
  void look(Inst& x, bool text) {
    std::string a, b, what; for (std::string* q : {&a, &b}) { std::ostringstream o; bool r = raises([&] { if (text) x.e->display(o); else x.e->writeGraph(o); }, &what); checks(); if (r) fail("display-raises", "%s a %s raises: %s", text ? "displaying" : "drawing", x.cls.c_str(), what.c_str()); *q = o.str(); }
    if (a != b) fail("display-differs", "a %s displayed twice shows %s and then %s", x.cls.c_str(), a.c_str(), b.c_str());
  }
  void api(Inst& x) {
    std::vector<std::string> si, co; for (auto& s : x.e->getSignalMap()) { si.push_back(s.first); checks(); if (s.second->getName().find("(" + x.name + ")") == std::string::npos) fail("signal-name", "signal %s of a %s does not carry the name of its entity", s.second->getName().c_str(), x.cls.c_str()); }
    for (auto& c : x.cmds) { std::string ty; for (auto t : x.e->getNewStyleCommand(c)->valueTypes()) ty += fmt("%d", (int)t); co.push_back(c + ":" + ty); if (&x.e->getNewStyleCommand(c)->owner() != x.e.get()) fail("command-owner", "command %s of a %s acts on another entity", c.c_str(), x.cls.c_str()); }
    checks(2); if (x.e->getName() != x.name) fail("entity-name", "an entity created as %s is named %s", x.name.c_str(), x.e->getName().c_str());
    if (getenv("P34_DUMP")) return;
    for (size_t k = 0; k < apiRows; ++k) if (x.cls == apiTable[k].cls) {
      std::istringstream a(apiTable[k].signals), b(apiTable[k].commands); std::string w; while (a >> w) if (std::find(si.begin(), si.end(), w) == si.end()) fail("signal-lost", "a %s offers no signal %s", x.cls.c_str(), w.c_str());
      while (b >> w) if (std::find(co.begin(), co.end(), w) == co.end()) fail("command-lost", "a %s offers no command %s (name:types)", x.cls.c_str(), w.c_str());
    }
  }
  void execute(const Plan& p) override {
    Silence quiet; if (p.ops.empty() || p.ops[0].name != "setup" || p.ops[0].s.empty()) return;
    if (!dg::FactoryStorage::getInstance()->existEntity(p.ops[0].S(0))) fail("class-lost", "entities of class %s can no longer be made", p.ops[0].S(0).c_str());
    std::vector<std::string> log; auto a = live(p, false, log); auto b = live(p, true, log); checks((int)a.size());
    for (size_t k = 0; k < std::min(a.size(), b.size()); ++k) { ev((p.ops[0].S(0) + " " + a[k].substr(0, a[k].find_first_of(":>"))).c_str()); note("%s", a[k].c_str()); if (a[k] != b[k]) fail("not-its-own", "%s: undisturbed the history gives '%s', with others around it '%s'", p.ops[0].S(0).c_str(), a[k].c_str(), b[k].c_str()); }
    if (a.size() != b.size()) fail("not-its-own", "the two histories have %zu and %zu results", a.size(), b.size());
  }
};
}  // namespace
sim::World* sim::makeWorld() {
  if (getenv("P34_DUMP")) { for (auto& c : classes()) { Inst x(c, "entity_e", 1, 2); std::vector<std::string> si, co; for (auto& s : x.e->getSignalMap()) si.push_back(s.first); for (auto& q : x.cmds) { std::string ty; for (auto t : x.e->getNewStyleCommand(q)->valueTypes()) ty += fmt("%d", (int)t); co.push_back(q + ":" + ty); } printf("    {\"%s\", \"%s\", \"%s\"},\n", c.c_str(), join(si).c_str(), join(co).c_str()); } fflush(stdout); }
  return new W;
}
