// P08: the controller plug-in is loaded, driven and released consistently.
#include "dg.hh"
#include <set>
#include <dynamic-graph/python/interpreter.hh>
#include <sot/core/sot-loader.hh>
using namespace sim;
using namespace dgw;
using namespace dynamicgraph::sot;

namespace {
typedef std::map<std::string, SensorValues> Sensors;
typedef std::map<std::string, ControlValues> Controls;
struct OwnErr : std::runtime_error { OwnErr(const char* s) : std::runtime_error(s) {} };
// The simulated dynamic loader: its libraries hold a controller.
struct Lib { bool exists = true, create = true, destroy = true; int make = 0; int users = 0; };   // make: 0 works, 1 gives nothing, 2 raises
struct Handle { int lib; };
struct Ctl;
struct Dyn {
  std::map<std::string, int> names; std::vector<Lib> libs; std::vector<std::unique_ptr<Handle>> handles; std::set<void*> open;
  std::string err; bool pending = false; std::set<Ctl*> alive; long created = 0, destroyed = 0, opened = 0, closed = 0; int last = -1;
  std::vector<std::string> devices;   // devices the next controller owns
  void error(const std::string& e) { err = e; pending = true; }
} *D;
struct Dev : dynamicgraph::Entity { bool* gone; bool owned = true; Dev(const std::string& n, bool* g) : Entity(n), gone(g) {} ~Dev() { if (owned) fail("device-destroyed", "the device, which the controller owns, was destroyed by the clean-up"); *gone = true; } };
struct Ent : dynamicgraph::Entity { static int alive; Ent(const std::string& n) : Entity(n) { ++alive; } ~Ent() { --alive; } };
int Ent::alive = 0;
struct Ctl : AbstractSotExternalInterface {
  int lib, sensors = 0, controls = 0, order = 0, failSensors = 0, failControl = 0; const Sensors* got = nullptr; double seen = 0; Dev* dev = nullptr; bool devGone = false;
  void alive(const char* what) { if (!D->alive.count(this)) failNow("dead-controller", fmt("%s was called on a destroyed controller", what)); if (!D->libs[(size_t)lib].users) failNow("unloaded-code", fmt("%s ran code of an unloaded library", what)); }
  static void raise(int k, const char* w) { if (k == 1) throw OwnErr(w); if (k == 2) throw std::out_of_range(w); if (k == 3) throw 7; }
  void setupSetSensors(Sensors&) override {}
  void nominalSetSensors(Sensors& s) override { alive("nominalSetSensors"); sensors = ++order; got = &s; seen = s.count("q") && !s["q"].getValues().empty() ? s["q"].getValues()[0] : -1; raise(failSensors, "sensors"); }
  void cleanupSetSensors(Sensors&) override {}
  void getControl(Controls& c) override { alive("getControl"); controls = ++order; raise(failControl, "control"); ControlValues v; v.setName("c"); v.setValues({seen * 2, (double)lib}); c["control"] = v; }
  void setSecondOrderIntegration() override {}
  void setNoIntegration() override {}
};
AbstractSotExternalInterface* createCtl() {
  Lib& l = D->libs[(size_t)D->last]; if (!l.users) failNow("unloaded-code", "the entry point of an unloaded library was called");
  if (l.make == 1) { faultFired("constructor_gives_nothing"); return nullptr; }
  if (l.make == 2) { faultFired("constructor_raises"); throw OwnErr("constructor"); }
  Ctl* c = new Ctl; c->lib = D->last; D->alive.insert(c); D->created++; return c;
}
void destroyCtl(AbstractSotExternalInterface* x) {
  Ctl* c = static_cast<Ctl*>(x); if (!D->alive.count(c)) failNow("destroyed-twice", "a controller was destroyed twice, or one that does not exist was");
  c->alive("destroySotExternalInterface"); D->alive.erase(c); D->destroyed++;
  if (c->dev) { c->dev->owned = false; delete c->dev; }
  delete c;
}
struct W : World {
  const char* property() const override { return "P08"; }
  const char* rule() const override {
    return "seeded histories of 4-40 loads, clean-ups, iterations, starts, stops, device loads, option parsings and loader re-creations over 1-4 plug-ins, with files that are missing, without entry point, "
           "whose constructor fails or gives nothing, without exit point, pending errors of the dynamic loader and controllers that raise; non-trivial when a fault fired";
  }
  const char* simTimeMeaning() const override { return "loader calls"; }
  std::vector<std::string> realComponents() const override { return {"src/tools/sot-loader.cpp", "include/sot/core/sot-loader.hh"}; }
  std::vector<std::string> stubComponents() const override { return {"dynamic loader (dlopen, dlsym, dlclose, dlerror)", "plug-in and its controller", "embedded Python interpreter", "dynamic-graph (stand-in)"}; }
  std::vector<std::string> assumptions() const override { return {"a plug-in without exit point cannot be released: it is only required that nothing is released twice", "a plug-in has the entry and exit points it had when it was opened"}; }
  void generate(Rng& r, Plan& p) override {
    bool clean = r.chance(1, 6); int nl = (int)r.range(1, 4), n = (int)r.range(4, 40);
    for (int k = 0; k < nl; ++k) { int f = clean ? 0 : r.weighted({5, 1, 1, 1, 1, 1}); p.ops.push_back(Op("lib", {f != 1, f != 2, f != 3, f == 4 ? 1 : f == 5 ? 2 : 0})); }
    p.ops.push_back(Op("name", {0}));
    if (r.chance(1, 2)) p.ops.push_back(Op("start"));
    for (int k = 0; k < n; ++k) switch (r.weighted({7, 3, 12, 4, 1, 3, 3, clean ? 0 : 2, clean ? 0 : 5, 2, 1, clean ? 0 : 2})) {
      case 0: p.ops.push_back(Op("init")); break;
      case 1: p.ops.push_back(Op("cleanUp")); break;
      case 2: p.ops.push_back(Op("iterate", {r.range(1, 100)})); break;
      case 3: p.ops.push_back(Op("start")); break;
      case 4: p.ops.push_back(Op("stop")); break;
      case 5: p.ops.push_back(Op("name", {r.range(0, nl)})); break;
      case 6: p.ops.push_back(Op("device", {clean && r.chance(2, 3) ? 0 : r.range(clean ? 3 : 0, 3), r.range(0, 12)})); break;
      case 7: p.ops.push_back(Op("pending")); break;
      case 8: p.ops.push_back(Op("failing", {r.range(0, 3), r.range(0, 3)})); break;
      case 9: p.ops.push_back(Op("options", {r.range(0, clean ? 2 : 5), r.range(0, nl)})); break;
      case 10: p.ops.push_back(Op("recreate")); break;
      case 11: p.ops.push_back(Op("change", {r.range(0, nl - 1), r.range(0, 5)})); break;
    }
  }
  void execute(const Plan& p) override {
    Silence quiet; Dyn dyn; D = &dyn; long python = 0;
    dynamicgraph::python::Interpreter::handler() = [&](const std::string&, std::string&, std::string&, std::string&) { ++python; };
    dl.open = [](const char* f, int) -> void* {
      auto it = D->names.find(f); if (it == D->names.end() || !D->libs[(size_t)it->second].exists) { D->error("cannot open shared object file"); faultFired("open_failed"); return nullptr; }
      D->libs[(size_t)it->second].users++; D->opened++; D->handles.emplace_back(new Handle{it->second}); D->open.insert(D->handles.back().get()); return D->handles.back().get();
    };
    dl.sym = [](void* h, const char* n) -> void* {
      if (!D->open.count(h)) failNow("closed-handle", fmt("%s was looked up in a library that is not open", n));
      Handle* x = (Handle*)h; Lib& l = D->libs[(size_t)x->lib]; bool c = !strcmp(n, "createSotExternalInterface"), d = !strcmp(n, "destroySotExternalInterface");
      if (c && l.create) { D->last = x->lib; return (void*)&createCtl; }
      if (d && l.destroy) return (void*)&destroyCtl;
      D->error("undefined symbol"); faultFired(c ? "entry_point_missing" : "exit_point_missing"); return nullptr;
    };
    dl.close = [](void* h) -> int { if (!D->open.erase(h)) failNow("closed-twice", "a library was closed twice, or one that is not open was"); D->libs[(size_t)((Handle*)h)->lib].users--; D->closed++; return 0; };
    dl.error = []() -> char* { if (!D->pending) return nullptr; D->pending = false; return const_cast<char*>(D->err.c_str()); };
    dl.on = true;
    std::unique_ptr<SotLoader> L(new SotLoader); std::string name; int loaded = -1, stuckHandles = 0; std::set<Ctl*> stuck; bool started = false; std::vector<std::unique_ptr<Dev>> own; bool ownGone = false; int devN = 0; std::string held;
    // what a release has to leave behind
    auto released = [&](const char* how) {
      checks(2); loaded = -1;
      if (dyn.alive.size() != stuck.size()) fail("controller-kept", "%s left %zu controllers alive", how, dyn.alive.size() - stuck.size());
      if ((int)dyn.open.size() != stuckHandles) fail("library-kept", "%s left a library loaded: %ld opened, %ld closed", how, dyn.opened, dyn.closed);
    };
    auto graph = [&](const char* how) { checks(); if (Ent::alive) { fail("graph-kept", "%s left %d entities of the graph", how, Ent::alive); Ent::alive = 0; } };
    auto live = [&]() -> Ctl* { for (auto c : dyn.alive) if (!stuck.count(c)) return c; return nullptr; };
    auto leaving = [&]() { if (loaded >= 0 && !dyn.libs[(size_t)loaded].destroy) { stuck.insert(live()); stuckHandles++; probe("no_exit_point"); return true; } return false; };
    auto drop = [&](const char* how, const std::function<void()>& f) {
      bool s = leaving(); if (s) for (auto c : stuck) if (c->dev) c->dev->owned = false;
      bool stale = dyn.pending; if (stale && loaded >= 0 && !s) probe("stale_error_at_release");
      std::string w; if (raises(f, &w)) fail("release-raised", "%s raised: %s", how, w.c_str());
      released(how); graph(how); held = "";
    };
    for (auto& o : p.ops) {
      simTime(1);
      if (o.name == "lib") { Lib l; l.exists = o.I(0); l.create = o.I(1); l.destroy = o.I(2); l.make = (int)o.I(3); dyn.names[fmt("libc%zu.so", dyn.libs.size())] = (int)dyn.libs.size(); dyn.libs.push_back(l); }
      else if (dyn.libs.empty()) continue;
      else if (o.name == "change") { Lib& l = dyn.libs[(size_t)o.I(0) % dyn.libs.size()]; if (l.users) continue; int f = (int)o.I(1); l.exists = f != 1; l.create = f != 2; l.destroy = f != 3; l.make = f == 4 ? 1 : f == 5 ? 2 : 0; ev("change %d", f); }
      else if (o.name == "name") { name = fmt("libc%lld.so", o.I(0)); std::string x = name; L->setDynamicLibraryName(x); ev("name"); }
      else if (o.name == "pending") { dyn.error("an older error"); faultFired("older_error_pending"); ev("pending"); }
      else if (o.name == "start") { L->startDG(); started = true; }
      else if (o.name == "stop") { L->stopDG(); started = false; }
      else if (o.name == "failing") { if (Ctl* c = live()) { c->failSensors = (int)o.I(0); c->failControl = (int)o.I(1); ev("failing"); } }
      else if (o.name == "init") {
        auto it = dyn.names.find(name); const Lib* l = it == dyn.names.end() ? nullptr : &dyn.libs[(size_t)it->second]; bool want = l && l->exists && l->create && l->make == 0;
        if (loaded >= 0) { probe("loaded_again"); if (leaving()) for (auto c : stuck) if (c->dev) c->dev->owned = false; }
        bool got = false; std::string w; long py = python;
        if (raises([&] { got = L->initialization(); }, &w)) fail("load-raised", "loading %s raised: %s", name.c_str(), w.c_str());
        ev("init %d %d", want, got); cover(mix(want, mix((uint64_t)loaded + 1, l ? (uint64_t)l->make : 9)));
        if (got != want) fail("load-result", "loading %s reported %s", name.c_str(), got ? "success" : "failure");
        if (!want) { released("a failed load"); if (loaded >= 0) fail("load-state", "inconsistent"); }
        else {
          loaded = it->second; checks(3);
          if (dyn.alive.size() != stuck.size() + 1) fail("controller-kept", "after a load %zu controllers are alive", dyn.alive.size() - stuck.size());
          if ((int)dyn.open.size() != stuckHandles + 1) fail("library-kept", "after a load %zu libraries are open", dyn.open.size() - (size_t)stuckHandles);
          if (live()->lib != loaded) fail("wrong-controller", "the controller of library %d was loaded, asked was %d", live()->lib, loaded);
          if (python == py) fail("no-prologue", "the interpreter was not prepared");
        }
      } else if (o.name == "cleanUp") { ev("cleanUp"); drop("a clean-up", [&] { L->cleanUp(); }); }
      else if (o.name == "recreate") { ev("recreate"); drop("destroying the loader", [&] { L.reset(); }); L.reset(new SotLoader); name = ""; started = false; if (!L->isDynamicGraphStopped()) fail("started", "a new loader is started"); }
      else if (o.name == "device") {     // a device owned by the controller, by nobody, unknown, or already gone
        Ctl* c = live(); std::string n = fmt("dev%d", devN++); if (dynamicgraph::PoolStorage::getInstance()->existEntity(n)) continue;
        if (o.I(0) == 0) { if (!c || c->dev) continue; c->dev = new Dev(n, &c->devGone); L->loadDeviceInPython(n); }
        else if (o.I(0) == 1) { if (c && c->dev) continue; L->loadDeviceInPython(n); faultFired("unknown_device"); }
        else if (o.I(0) == 2) { if (c && c->dev) continue; { Dev* d = new Dev(n, &ownGone); L->loadDeviceInPython(n); d->owned = false; delete d; } faultFired("device_gone"); }
        else { if (c && c->dev) continue; std::string m = fmt("dev%lld", o.I(1)); if (m != held && !dynamicgraph::PoolStorage::getInstance()->existEntity(m)) new Ent(m); }       // an entity of the graph, maybe with the name of an earlier device
        if (o.I(0) < 3) held = n;   // the name the loader holds as its device
        ev("device %lld", o.I(0));
      } else if (o.name == "options") {
        int k = (int)o.I(0); std::string file = fmt("libc%lld.so", o.I(1)); std::vector<std::string> a = {"loader"};
        if (k == 0) { a.push_back("--sot-dynamic-library"); a.push_back(file); } else if (k == 1) { a.push_back("--input-file"); a.push_back(file); } else if (k == 2) a.push_back("--input-file=" + file);
        else if (k == 3) a.push_back("--help"); else if (k == 5) a.push_back("--nothing");
        std::vector<char*> v; for (auto& x : a) v.push_back(&x[0]); v.push_back(nullptr); int got = 9; bool r = raises([&] { got = L->parseOptions((int)a.size(), v.data()); });
        ev("options %d %d %d", k, got, r); checks();
        if (k >= 3) faultFired("bad_options");
        if (k == 5 ? !r : r || got != (k < 3 ? 0 : -1)) fail("options", "parsing %s %s", a.size() > 1 ? a[1].c_str() : "no option", r ? "raised" : fmt("returned %d", got).c_str());
        if (k < 3) name = file;
      } else if (o.name == "iterate") {
        Ctl* c = loaded >= 0 ? live() : nullptr; if (c) c->sensors = c->controls = c->order = 0, c->got = nullptr;
        Sensors s; Controls u; SensorValues q; q.setName("q"); q.setValues({(double)o.I(0)}); s["q"] = q; int type = 0;
        try { L->oneIteration(s, u); } catch (OwnErr&) { type = 1; } catch (std::out_of_range&) { type = 2; } catch (int) { type = 3; } catch (std::exception&) { type = 4; }
        ev("iterate %d %d %d", c != nullptr, started, type); checks(3); cover(mix(77, mix(c != nullptr, mix(started, (uint64_t)type))));
        int want = !started ? 0 : !c ? 4 : c->failSensors ? c->failSensors : c->failControl;
        if (want == 4) { faultFired("no_controller"); if (!type) fail("no-controller", "an iteration without controller reported success"); continue; }
        if (want) faultFired("controller_raises");
        if (type != want) fail("iteration-error", "an iteration whose controller raises %d gave %d (0 nothing, 1-2 its own types, 3 an int, 4 another type)", want, type);
        if (!c) continue;
        bool run = started; int ws = run ? 1 : 0, wc = run && !c->failSensors ? 2 : 0;
        if (c->sensors != ws || c->controls != wc || c->order != std::max(ws, wc)) fail("exchange", "a %s iteration called sensors %d, control %d (calls in all %d)", run ? "running" : "stopped", c->sensors, c->controls, c->order);
        if (!run || want) continue;
        if (c->got != &s || c->seen != (double)o.I(0)) fail("exchange", "the controller did not get the sensors of this iteration");
        if (u.size() != 1 || u["control"].getValues() != std::vector<double>({2.0 * (double)o.I(0), (double)loaded})) fail("exchange", "the control returned is not the one of the loaded controller");
      }
      if (L && L->isDynamicGraphStopped() == started) fail("started", "the loader says it is %s", started ? "stopped" : "started");
    }
    drop("destroying the loader", [&] { L.reset(); });
    for (auto c : stuck) if (c->dev) c->dev->owned = false;
    dl.on = false; dynamicgraph::python::Interpreter::handler() = nullptr;
  }
};
}  // namespace
sim::World* sim::makeWorld() { return new W; }
