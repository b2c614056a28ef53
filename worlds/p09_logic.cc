// P09: events, latches, switches and variadic operators follow their history exactly.
#include "dg.hh"
#include <sot/core/event.hh>
#include <sot/core/latch.hh>
#include <sot/core/switch.hh>
#include <sot/core/variadic-op.hh>
#include "matrix/operator.hh"
using namespace sim;
using namespace dgw;
using namespace dynamicgraph::sot;

namespace {
struct Trig : dg::Entity {
  dg::Signal<int, int> a, b, c; int n[3] = {0, 0, 0}, at[3] = {-1, -1, -1}, fail[3] = {0, 0, 0};
  Trig() : Entity("trig"), a("trig::output(int)::a"), b("trig::output(int)::b"), c("trig::output(int)::c") {
    signalRegistration(a << b << c); dg::Signal<int, int>* s[3] = {&a, &b, &c};
    for (int k = 0; k < 3; ++k) s[k]->setFunction([this, k](int& r, int t) -> int& { n[k]++; at[k] = t; if (fail[k]) throw std::runtime_error("trigger"); r = t; return r; });
  }
};
double val(int src, int t, int j) { return (double)((src * 7 + t * 3 + j * 5) % 23) - 11; }
bool bval(int src, int t) { return mix((uint64_t)src, (uint64_t)t) % 3 != 0; }
// A source of an input: its value moves with time, or is constant.
template <class T> struct Src {
  std::unique_ptr<dg::Signal<T, int>> c; std::unique_ptr<dg::SignalTimeDependent<T, int>> m; int id; bool moving; std::shared_ptr<int> fail; int size;
  T at(int t) const;
  Src(int i, bool mv, int sz) : id(i), moving(mv), fail(new int(0)), size(sz) {
    if (mv) { m.reset(new dg::SignalTimeDependent<T, int>(fmt("src%d", i))); m->setDependencyType(dg::TimeDependency<int>::ALWAYS_READY); auto f = fail; m->setFunction([this, f](T& r, int t) -> T& { if (*f) throw std::runtime_error("input"); r = at(t); return r; }); }
    else { c.reset(new dg::Signal<T, int>(fmt("src%d", i))); c->setConstant(at(0)); }
  }
  dg::Signal<T, int>* sig() { return moving ? (dg::Signal<T, int>*)m.get() : c.get(); }
};
template <> Vec Src<Vec>::at(int t) const { Vec v(size); for (int j = 0; j < size; ++j) v(j) = val(id, moving ? t : 0, j); return v; }
template <> bool Src<bool>::at(int t) const { return bval(id, moving ? t : 0); }
template <> int Src<int>::at(int t) const { return (int)(mix((uint64_t)id, (uint64_t)(moving ? t : 0)) % (unsigned)size) - 1; }

struct W : World {
  const char* property() const override { return "P09"; }
  const char* rule() const override {
    return "seeded histories of 10-120 cycles (skipped, repeated reads) with input numbers, plugs, coefficients, selections, latch commands, triggers, repetition and names changed between cycles, valid or not, "
           "and inputs, conditions and triggered signals that fail; non-trivial when a fault fired";
  }
  const char* simTimeMeaning() const override { return "control cycles"; }
  std::vector<std::string> realComponents() const override { return {"include/sot/core/event.hh, src/tools/event.cpp", "include/sot/core/latch.hh", "include/sot/core/switch.hh", "include/sot/core/variadic-op.hh", "src/matrix/operator.hh (variadic operators)"}; }
  std::vector<std::string> stubComponents() const override { return {"dynamic-graph (stand-in)", "input signals"}; }
  std::vector<std::string> assumptions() const override {
    return {"an event counts the evaluations of its check", "after a triggered signal failed, the event is followed again from its next check with a false condition and a rise after it",
            "nothing is asked again at a time whose evaluation failed", "after a failed evaluation a new one is asked for explicitly", "all inputs of an adder have the same size", "the sum of no input is unspecified"};
  }
  void generate(Rng& r, Plan& p) override {
    bool clean = r.chance(1, 6); int n = (int)r.range(10, 120); long long t = r.range(1, 5), only = r.range(0, 8); int mv = (int)r.range(0, 3);
    p.ops.push_back(Op("setup", {r.range(1, 4), r.range(1, 3)}));
    for (int k = 0; k < n; ++k) {
      int w = only < 5 ? (int)only : (int)r.range(0, 4);
      if (w == 0) switch (r.weighted({12, 3, 2, clean ? 0 : 1, clean ? 0 : 1, clean ? 0 : 1})) {   // event
        case 0: t += r.chance(1, 6) ? r.range(2, 20) : r.chance(1, 10) ? 0 : 1; p.ops.push_back(Op("check", {t, r.range(0, 1)})); break;
        case 1: p.ops.push_back(Op("trigger", {r.range(0, clean ? 2 : 4)})); break;
        case 2: p.ops.push_back(Op("repeat", {r.chance(1, 3) ? 0 : r.range(clean ? 0 : -1, 5)})); break;
        case 3: p.ops.push_back(Op("trigFail", {r.range(0, 2), r.range(0, 1)})); break;
        case 4: p.ops.push_back(Op("condFail", {t = t + 1})); break;
        case 5: p.ops.push_back(Op("list")); break;
      } else if (w == 1) p.ops.push_back(Op("latch", {r.range(0, 4), ++t}));
      else {
        int e = w == 2 ? (int)r.range(0, 1) : w == 3 ? 2 : (int)r.range(3, 5);     // switch vector / bool, adder, mix, and, or
        switch (r.weighted({10, 3, 5, clean ? 0 : 2, e == 2 || e == 3 ? 3 : 0, clean ? 0 : 2, e < 2 ? 3 : 0, clean ? 0 : 1, 1})) {
          case 0: t += r.chance(1, 6) ? r.range(2, 20) : 1; p.ops.push_back(Op("read", {e, t, r.chance(1, 5)})); break;
          case 1: p.ops.push_back(Op("number", {e, r.chance(1, 8) && !clean ? -1 : r.range(0, 5)})); if (r.chance(1, 2)) p.ops.push_back(Op("plugAll", {e, r.range(0, 3) >= mv})); break;
          case 2: p.ops.push_back(Op("plug", {e, r.range(0, 4), r.range(0, 3) >= mv, r.chance(1, 12) && !clean})); break;
          case 3: p.ops.push_back(Op("add", {e, r.range(0, 6)})); break;
          case 4: p.ops.push_back(Op("set", {e, r.range(0, 5), r.range(0, 4), r.chance(1, 6) && !clean ? r.range(-1, 9) : r.range(0, 2), r.range(0, 99)})); break;
          case 5: p.ops.push_back(Op("inFail", {e, r.range(0, 4), r.range(0, 1)})); break;
          case 6: p.ops.push_back(Op("select", {e, r.range(0, 1), r.range(0, 3) >= mv})); break;
          case 7: p.ops.push_back(Op("remove", {e})); break;
          case 8: p.ops.push_back(Op("index", {e, r.range(-1, 6)})); break;
        }
      }
    }
  }
  // one variadic entity, with the specification of its inputs
  template <class T> struct Node {
    typedef VariadicAbstract<T, T, int> E; std::unique_ptr<E> e; std::vector<std::string> names; std::vector<std::shared_ptr<Src<T>>> plug; std::vector<std::shared_ptr<void>> keep; int last = -1; bool bad = false; T lastVal;
    explicit Node(E* x) : e(x) {}
    bool has(const std::string& n) const { for (auto& x : names) if (x == n) return true; return false; }
  };
  struct Sel { int input; long long index, size; };
  int ids = 0, nvec = 3;
  template <class T, class F> void node(Node<T>& n, int kind, const Op& o, F want) {
    size_t N = n.names.size();
    if (o.name == "number") {
      bool bad = o.I(1) < 0; std::vector<std::string> ref = n.names; auto plugs = n.plug;
      if (!bad) { while ((long long)ref.size() > o.I(1)) ref.pop_back(), plugs.pop_back(); while ((long long)ref.size() < o.I(1)) { std::string s = fmt("sin%zu", ref.size()); bool dup = false; for (auto& x : ref) dup |= x == s; if (dup) { bad = true; break; } ref.push_back(s); plugs.push_back(nullptr); } }
      bool r = raises([&] { n.e->setSignalNumber((int)o.I(1)); }); ev("number %d %lld %d", kind, o.I(1), r);
      if (r != bad) fail("number", "%s inputs asked for entity %d %s", fmt("%lld", o.I(1)).c_str(), kind, r ? "were refused" : "were accepted");
      if (bad) faultFired("number_refused");
      if (kind == 2 && (!bad || ref != n.names)) coeffs.assign(ref.size(), 1.0);
      n.names = ref; n.plug = plugs;
    } else if (o.name == "add") {
      std::string s = o.I(1) == 6 ? fmt("sin%zu", N) : fmt("sin%lld", o.I(1)); bool dup = n.has(s); if (N > 7) return;
      bool r = raises([&] { if (o.I(1) == 6) n.e->addSignal(); else n.e->addSignal(s); }); ev("add %d %d", kind, r);
      if (r != dup) fail("add", "adding input %s to %zu inputs %s", s.c_str(), N, r ? "was refused" : "was accepted though it exists");
      if (dup) faultFired("name_refused"); else { n.names.push_back(s); n.plug.push_back(nullptr); if (kind == 2) coeffs.assign(n.names.size(), 1.0); }
    } else if (o.name == "remove") { if (!N) return; n.e->removeSignal(); n.names.pop_back(); n.plug.pop_back(); if (kind == 2) coeffs.assign(n.names.size(), 1.0); ev("remove %d", kind); }
    else if (o.name == "plug") {
      if (!N) return; size_t k = (size_t)o.I(1) % N; std::shared_ptr<Src<T>> s(new Src<T>(++ids, o.I(2) != 0, kind == 3 && k ? 1 + (int)(k % 2) : nvec));
      n.e->getSignalIn((int)k)->plug(s->sig()); n.plug[k] = s; n.keep.push_back(s); ev("plug %d %zu", kind, k);
    } else if (o.name == "plugAll") {
      for (size_t k = 0; k < N; ++k) if (!n.plug[k]) { std::shared_ptr<Src<T>> s(new Src<T>(++ids, o.I(1) != 0, kind == 3 && k ? 1 + (int)(k % 2) : nvec)); n.e->getSignalIn((int)k)->plug(s->sig()); n.plug[k] = s; n.keep.push_back(s); }
      ev("plugAll %d", kind);
    } else if (o.name == "inFail") { if (!N) return; auto& s = n.plug[(size_t)o.I(1) % N]; if (s && s->moving) *s->fail = (int)o.I(2); }
    else if (o.name == "index") { bool bad = o.I(1) < 0 || o.I(1) >= (long long)N; bool r = raises([&] { n.e->getSignalIn((int)o.I(1)); }); if (r != bad) fail("index", "input %lld of %zu %s", o.I(1), N, r ? "was refused" : "was given"); }
    else if (o.name == "read") {
      int t = (int)o.I(1), again = (int)o.I(2); T w, g; int f = want(t, w);   // 0 value, 1 raises, 2 unspecified
      bool r = raises([&] { g = n.e->SOUT(t); }); simTime(1); checks();
      ev("read %d %d %d", kind, t, r); cover(mix((uint64_t)kind, mix(N, mix((uint64_t)f, n.plug.empty() ? 0 : n.plug[0] ? 1 : 2))));
      if (r) n.e->SOUT.setReady();   // the user asks for a new evaluation after a failed one
      if (f == 2) return;
      if (r != (f == 1)) fail(r ? "read-raised" : "failure-hidden", "entity %d at time %d %s", kind, t, r ? "raised though all it needs is there" : "gave a value though an input fails or is missing");
      if (f == 1) { faultFired("input_fails"); return; }
      probe("value_read"); same(kind, t, g, w, "");
      if (again) same(kind, t, n.e->SOUT(t), w, " (asked again)");
    }
    if (n.e->getSignalNumber() != (int)n.names.size()) fail("input-count", "entity %d has %d inputs, its commands ask for %zu", kind, n.e->getSignalNumber(), n.names.size());
    for (auto& s : n.names) if (!n.e->hasSignal(s)) fail("input-name", "input %s of entity %d does not exist", s.c_str(), kind);
    size_t in = 0; for (auto& s : n.e->getSignalMap()) if (s.first.compare(0, 3, "sin") == 0 || s.first == "default") ++in;
    if (in != n.names.size()) fail("input-name", "entity %d has %zu named inputs, expected %zu", kind, in, n.names.size());
  }
  void same(int k, int t, const Vec& g, const Vec& w, const char* how) { if (!near(Mat(g), Mat(w), 1e-12)) fail("value", "entity %d at time %d%s gives %s, its inputs say %s", k, t, how, str(g).c_str(), str(w).c_str()); }
  void same(int k, int t, bool g, bool w, const char* how) { if (g != w) fail("value", "entity %d at time %d%s gives %d, its inputs say %d", k, t, how, g, w); }
  std::vector<double> coeffs; std::vector<Sel> sels;
  template <class T> bool missing(Node<T>& n, size_t k) { return !n.plug[k] || (n.plug[k]->moving && *n.plug[k]->fail); }
  void execute(const Plan& p) override {
    Silence quiet; Trig trig; dg::Signal<bool, int> cond("cond"); Event event("event"); Latch latch("latch"); bool condVal = false, condFail = false;
    cond.setFunction([&](bool& r, int) -> bool& { if (condFail) throw std::runtime_error("condition"); r = condVal; return r; });
    dynamic_cast<dg::SignalPtr<bool, int>&>(event.getSignal("condition")).plug(&cond); auto& check = dynamic_cast<dg::Signal<bool, int>&>(event.getSignal("check"));
    int last = 2, since = 0, rep = 0; bool unknown = false; std::vector<int> trigs; bool on = false;
    auto* swv = new Switch<Vec>("swv"); auto* swb = new Switch<bool>("swb"); auto* add = new VariadicOp<AdderVariadic<Vec>>("add"); auto* mixv = new VariadicOp<VectorMix>("mix");
    Node<Vec> nv(swv), na(add), nm(mixv); Node<bool> nb(swb), nand(new VariadicOp<BoolOp<0>>("and")), nor(new VariadicOp<BoolOp<1>>("or"));
    na.names = {"sin0", "sin1"}; na.plug.resize(2); coeffs.assign(2, 1.0); nm.names = {"default"}; nm.plug.resize(1);
    std::shared_ptr<Src<int>> seli[2]; std::shared_ptr<Src<bool>> selb[2]; std::vector<std::shared_ptr<void>> keep; dg::Entity* sw[2] = {swv, swb};
    auto selected = [&](int k, int t, long long n) -> long long { long long s = seli[k] ? seli[k]->at(t) : selb[k] ? selb[k]->at(t) : -1; return s < 0 || s >= n ? -1 : s; };
    for (auto& o : p.ops) {
      if (o.name == "setup") nvec = (int)o.I(0);
      else if (o.name == "trigger") {
        const char* n[5] = {"trig.a", "trig.b", "trig.c", "trig.nothing", "nobody.a"}; bool bad = o.I(0) > 2; bool r = raises([&] { cmd(event, "addSignal", {Value(std::string(n[o.I(0)]))}); });
        if (r != bad) fail("trigger", "the signal %s was %s", n[o.I(0)], r ? "refused" : "accepted");
        if (bad) faultFired("unknown_signal"); else trigs.push_back((int)o.I(0)); ev("trigger %lld", o.I(0));
      } else if (o.name == "repeat") { rep = (int)o.I(0); cmd(event, "repeat", {Value(rep)}); ev("repeat %d", rep); }
      else if (o.name == "trigFail") { trig.fail[o.I(0)] = (int)o.I(1); }
      else if (o.name == "list") { std::string s = cmd(event, "list").stringValue(); size_t pos = 0; for (int k : trigs) { pos = s.find(fmt("::%c', ", 'a' + k), pos); if (pos == std::string::npos) fail("list", "the list %s misses a signal", s.c_str()); ++pos; } }
      else if (o.name == "condFail") { condFail = true; for (auto& x : trig.n) x = 0; if (!raises([&] { check((int)o.I(0)); })) fail("failure-hidden", "a failing condition was hidden"); condFail = false; faultFired("condition_fails"); for (int x : trig.n) if (x) fail("trigger-extra", "a failing condition triggered"); ev("condFail"); }
      else if (o.name == "check") {
        int t = (int)o.I(0); bool v = o.I(1); condVal = v; for (auto& x : trig.n) x = 0; bool out = false; bool r = raises([&] { out = check(t); }); simTime(1); checks(2);
        bool changed = (int)v != last, up = last == 0 && v, fire; if (up) since = 0; else if (v) ++since;
        fire = up || (v && rep > 0 && since >= rep); bool expectFail = false; int want[3] = {0, 0, 0}; last = v;
        if (fire) { since = 0; for (int k : trigs) { want[k]++; if (trig.fail[k]) { expectFail = true; break; } } }
        ev("check %d %d %d", t, v, fire); cover(mix(v, mix(fire, mix((uint64_t)rep, trigs.size()))));
        if (unknown) { if (!v) { unknown = false; for (int x : trig.n) if (x) fail("trigger-extra", "a false condition triggered"); } continue; }
        if (r != expectFail) fail(r ? "check-raised" : "failure-hidden", "the check at time %d %s", t, r ? "raised" : "hid the failure of a triggered signal");
        for (int k = 0; k < 3; ++k) { if (trig.n[k] != want[k]) fail(trig.n[k] < want[k] ? "trigger-missed" : "trigger-extra", "signal %d was triggered %d times at time %d, expected %d (condition %d, repetition %d)", k, trig.n[k], t, want[k], v, rep); if (want[k] && trig.at[k] != t) fail("trigger-time", "signal %d was triggered for time %d at time %d", k, trig.at[k], t); }
        if (expectFail) { unknown = true; faultFired("trigger_fails"); continue; }
        if (out != changed) fail("check-output", "the check at time %d gives %d, the condition %s", t, out, changed ? "changed" : "did not change");
      } else if (o.name == "latch") {
        int t = (int)o.I(1); bool g = on; switch (o.I(0)) { case 0: cmd(latch, "turnOn"); on = g = true; break; case 1: cmd(latch, "turnOff"); on = g = false; break; case 2: g = latch.turnOnSOUT(t); on = true; break; case 3: g = latch.turnOffSOUT(t); on = false; break; }
        simTime(1); checks(); ev("latch %lld %d", o.I(0), on); if (g != on || latch.outSOUT(t) != on || latch.outSOUT(t) != on) fail("latch", "the latch is %s after its last command asked %s", g ? "on" : "off", on ? "on" : "off");
      } else if (o.name == "select") {
        size_t k = (size_t)o.I(0); auto& e = *sw[k];
        if (o.I(1)) { seli[k].reset(new Src<int>(++ids, o.I(2) != 0, 6)); dynamic_cast<dg::SignalPtr<int, int>&>(e.getSignal("selection")).plug(seli[k]->sig()); keep.push_back(seli[k]); }
        else { selb[k].reset(new Src<bool>(++ids, o.I(2) != 0, 1)); dynamic_cast<dg::SignalPtr<bool, int>&>(e.getSignal("boolSelection")).plug(selb[k]->sig()); keep.push_back(selb[k]); }
        ev("select %zu", k);
      } else if (o.name == "set") {
        if (o.I(0) == 2) {
          size_t n = (size_t)std::max(0LL, o.I(3) <= 2 && o.I(3) >= 0 ? (long long)na.names.size() : o.I(3)); Vec c((long)n); for (size_t k = 0; k < n; ++k) c((long)k) = (double)((o.I(4) + (long long)k * 5) % 9) - 4;
          bool bad = n != na.names.size(); bool r = raises([&] { add->op.setCoeffs(c); }); if (r != bad) fail("coeffs", "%zu coefficients for %zu inputs were %s", n, na.names.size(), r ? "refused" : "accepted");
          if (bad) faultFired("coefficients_refused"); else coeffs.assign(c.data(), c.data() + n); ev("coeffs %zu", n);
        } else if (o.I(0) == 3) {
          if (sels.size() > 3) continue; Sel s{(int)o.I(1), o.I(2) % nvec, 1 + (o.I(1) % 2)}; if (o.I(3) > 2 || o.I(3) < 0) { s.index = o.I(2) - 1; s.size = o.I(3); s.input = (int)(o.I(4) % 7) - 1; faultFired("odd_selection"); }
          else if (s.input == 0 || s.index + s.size > nvec) continue;
          cmd(*mixv, "addSelec", {Value(s.input), Value((int)s.index), Value((int)s.size)}); sels.push_back(s); ev("selec");
        }
      } else switch (o.I(0)) {
        case 0: node(nv, 0, o, [&](int t, Vec& w) { long long s = selected(0, t, (long long)nv.names.size()); if (s < 0 || missing(nv, (size_t)s)) return 1; w = nv.plug[(size_t)s]->at(t); return 0; }); break;
        case 1: node(nb, 1, o, [&](int t, bool& w) { long long s = selected(1, t, (long long)nb.names.size()); if (s < 0 || missing(nb, (size_t)s)) return 1; w = nb.plug[(size_t)s]->at(t); return 0; }); break;
        case 2: node(na, 2, o, [&](int t, Vec& w) { w = Vec::Zero(nvec); if (na.names.empty()) return 2; for (size_t k = 0; k < na.names.size(); ++k) { if (missing(na, k)) return 1; w += coeffs[k] * na.plug[k]->at(t); } return 0; }); break;
        case 3: node(nm, 3, o, [&](int t, Vec& w) {
          if (nm.names.empty()) return 1; for (size_t k = 0; k < nm.names.size(); ++k) if (missing(nm, k)) return 1;
          w = nm.plug[0]->at(t); for (auto& s : sels) { if (s.input < 0 || s.input >= (int)nm.names.size() || s.index < 0 || s.size < 0 || s.index + s.size > w.size() || s.size != nm.plug[(size_t)s.input]->at(t).size()) return 1; w.segment(s.index, s.size) = nm.plug[(size_t)s.input]->at(t); }
          return 0; }); break;
        case 4: node(nand, 4, o, [&](int t, bool& w) { w = true; for (size_t k = 0; k < nand.names.size(); ++k) { if (missing(nand, k)) return 1; w = w && nand.plug[k]->at(t); } return 0; }); break;
        default: node(nor, 5, o, [&](int t, bool& w) { w = false; for (size_t k = 0; k < nor.names.size(); ++k) { if (missing(nor, k)) return 1; w = w || nor.plug[k]->at(t); } return 0; });
      }
    }
  }
};
}  // namespace
sim::World* sim::makeWorld() { return new W; }
