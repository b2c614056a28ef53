// P05: programmed events run once, at their time after the start.
// The event classes are private to the implementation file: it is included.
#include "tools/sequencer.cpp"
#include "dg.hh"
using namespace sim;
using namespace dgw;

namespace {
struct Host : Sequencer {            // the play flag has no public setter
  Host() : Sequencer("seq") {}
  void play(bool b) { playMode = b; }
  void log(std::ostream* o) { outputStreamPtr = o; }
};
struct T : TaskAbstract {
  static const std::string CLASS_NAME;
  virtual const std::string& getClassName() const { return CLASS_NAME; }
  T(const std::string& n) : TaskAbstract(n) {}
};
const std::string T::CLASS_NAME = "T";
struct W : World {
  const char* property() const override { return "P05"; }
  const char* rule() const override {
    return "seeded histories of 10-120 operations: programming callbacks, task insertions and removals (also from inside events), removals, "
           "clears, start, pause and control cycles at increasing, skipped and repeated times, with failing events and unknown targets; "
           "non-trivial when a failing event ran or a programming was refused";
  }
  const char* simTimeMeaning() const override { return "control cycles"; }
  std::vector<std::string> realComponents() const override { return {"src/tools/sequencer.cpp", "include/sot/core/sequencer.hh", "src/sot/sot.cpp (stack)", "src/task/task-abstract.cpp"}; }
  std::vector<std::string> stubComponents() const override { return {"dynamic-graph (stand-in)", "tasks without content", "callback events"}; }
  std::vector<std::string> assumptions() const override { return {"an event does not remove itself nor clear the sequencer while it runs", "control times start from 1"}; }
  void generate(Rng& r, Plan& p) override {
    bool clean = r.chance(1, 10); int n = (int)r.range(10, 120); long long t = r.range(1, 50); int nt = (int)r.range(1, 4), span = r.chance(1, 2) ? 6 : 30; long long id = 0; bool far = r.chance(1, 6); long long t0 = -1; int fi = 0;
    p.ops.push_back(Op("setup", {nt, !r.chance(1, 12), r.chance(1, 2)}));
    auto add = [&] {
      static const long long far_[] = {0, 1, 2, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 100000, 16777216, 16777217};
      long long at = far ? far_[r.below(14)] : r.range(0, span);
      switch (r.weighted({6, 3, 2, clean ? 0 : 1, 1})) {
        case 0: p.ops.push_back(Op("cmd", {id++, at, clean ? 0 : (long long)r.chance(1, 8)})); break;
        case 1: p.ops.push_back(Op("push", {id++, at, r.range(0, nt - 1), r.range(0, 1)})); break;
        case 2: p.ops.push_back(Op("pull", {id++, at, r.range(0, nt - 1), r.range(0, 1)})); break;
        case 3: p.ops.push_back(Op("badTask", {id++, at, r.range(0, 2)})); break;
        case 4: p.ops.push_back(Op("adder", {id++, at, r.range(0, 3), id++})); break;
      }
    };
    int pre = (int)r.range(0, 15); for (int k = 0; k < pre; ++k) add();
    bool started = false;
    for (int k = 0; k < n; ++k) {
      if (!started && r.chance(1, 4)) { p.ops.push_back(Op("play", {1})); started = true; continue; }
      switch (r.weighted({10, 4, 1, 2, 40})) {
        case 0: add(); break;
        case 1: p.ops.push_back(Op("rm", {id ? (long long)r.below((uint64_t)id) : 0, r.range(0, 5)})); break;
        case 2: p.ops.push_back(Op("clear")); break;
        case 3: p.ops.push_back(Op("play", {r.range(0, 1)})); break;
        case 4: p.ops.push_back(Op("tick", {t, r.range(0, 3)})); if (far) { static const long long f[] = {1, 2, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 100000, 16777216, 16777217, 16777218}; if (!started) { t += 1; break; } if (t0 < 0) t0 = t; if (fi < 14) t = t0 + f[fi++]; else ++t; break; }
          { int m = r.weighted({12, 2, 2}); t += m == 0 ? 1 : m == 1 ? r.range(2, 5) : 0; } break;
      }
    }
  }
  struct Ev { long long id; int kind; int task; bool fails; long long delta, child; std::string name; };   // kind 0 cmd 1 push 2 pull 3 empty task
  std::map<long long, std::vector<Ev>> ref; std::vector<std::string> ran, want;
  Host* seq = NULL; std::vector<T*> tasks; std::vector<int> stack;
  struct Cb : Sequencer::sotEventAbstract {
    W& w; long long id; bool fails; long long at, delta, child;
    Cb(W& w_, long long i, bool f, long long a, long long d, long long c) : sotEventAbstract(fmt("cb%lld", i)), w(w_), id(i), fails(f), at(a), delta(d), child(c) { eventType = EVENT_CMD; }
    void operator()(Sot*) override {
      w.ran.push_back(fmt("cb%lld", id));
      if (child >= 0) w.seq->addTask(new Cb(w, child, false, at + delta, 0, -1), (unsigned)(at + delta));
      if (fails) throw std::runtime_error("event");
    }
  };
  void execute(const Plan& p) override {
    Silence quiet; seq = new Host; Sot* sot = new Sot("stack"); bool useSot = true; sot->defineNbDof(6); std::ostringstream log;
    bool playing = false, haveT0 = false; long long t0 = 0; long long lastT = -1000;
    auto names = [&] { std::vector<std::string> v; for (auto* t : sot->tasks()) v.push_back(t->getName()); return v; };
    for (auto& o : p.ops) {
      if (o.name == "setup") {
        for (int k = 0; k < (int)o.I(0); ++k) tasks.push_back(new T(fmt("task%d", k)));
        useSot = o.I(1); if (useSot) seq->setSotRef(sot); if (o.I(2)) seq->log(&log);
      } else if (o.name == "cmd") { Ev e{o.I(0), 0, -1, (bool)o.I(2), 0, -1, fmt("cb%lld", o.I(0))}; seq->addTask(new Cb(*this, e.id, e.fails, o.I(1), 0, -1), (unsigned)o.I(1)); ref[o.I(1)].push_back(e); ev("cmd"); }
      else if (o.name == "adder") { Ev e{o.I(0), 0, -1, false, o.I(2), o.I(3), fmt("cb%lld", o.I(0))}; seq->addTask(new Cb(*this, e.id, false, o.I(1), o.I(2), o.I(3)), (unsigned)o.I(1)); ref[o.I(1)].push_back(e); ev("adder"); }
      else if (o.name == "push" || o.name == "pull") {
        if (tasks.empty()) continue;
        bool add = o.name == "push"; T* t = tasks[(size_t)o.I(2) % tasks.size()];
        sotEventTaskBased* e = add ? (sotEventTaskBased*)new sotEventAddATask("", o.I(3) ? t : NULL) : (sotEventTaskBased*)new sotEventRemoveATask("", o.I(3) ? t : NULL);
        if (!o.I(3)) { std::istringstream is(" " + t->getName() + " "); e->init(is); }
        seq->addTask(e, (unsigned)o.I(1));
        ref[o.I(1)].push_back(Ev{o.I(0), add ? 1 : 2, (int)((size_t)o.I(2) % tasks.size()), false, 0, -1, t->getName()}); ev("%s", o.name.c_str());
      } else if (o.name == "badTask") {
        sotEventAddATask* e = new sotEventAddATask; std::istringstream is(o.I(2) == 0 ? " nobody " : o.I(2) == 1 ? " seq " : "   ");
        bool r = raises([&] { e->init(is); }); ev("badTask %lld -> %d", o.I(2), (int)r); faultFired("bad_target");
        if (o.I(2) == 0 && !r) fail("unknown-accepted", "an event on an unknown task was accepted");
        if (r) { delete e; continue; }
        seq->addTask(e, (unsigned)o.I(1)); ref[o.I(1)].push_back(Ev{o.I(0), 3, -1, false, 0, -1, "NULL"});
      } else if (o.name == "rm") {
        for (auto& x : ref) for (size_t k = 0; k < x.second.size(); ++k) if (x.second[k].id == o.I(0)) {
          Ev e = x.second[k]; int type = e.kind == 0 ? Sequencer::sotEventAbstract::EVENT_CMD : e.kind == 2 ? Sequencer::sotEventAbstract::EVENT_RM : Sequencer::sotEventAbstract::EVENT_ADD;
          long long at = x.first; bool miss = o.I(1) == 0;
          seq->rmTask(miss ? type + 1 : type, e.name, (unsigned)at);
          if (miss) type = type + 1;
          for (size_t q = 0; q < x.second.size(); ++q) {
            Ev& f = x.second[q]; int ft = f.kind == 0 ? Sequencer::sotEventAbstract::EVENT_CMD : f.kind == 2 ? Sequencer::sotEventAbstract::EVENT_RM : Sequencer::sotEventAbstract::EVENT_ADD;
            if (ft == type && f.name == e.name) { x.second.erase(x.second.begin() + (long)q); break; }
          }
          ev("rm %d", (int)miss); goto done;
        }
      done:;
      } else if (o.name == "clear") { seq->clearAll(); ref.clear(); ev("clear"); }
      else if (o.name == "play") { seq->play(o.I(0)); playing = o.I(0); ev("play %d", (int)playing); }
      else if (o.name == "tick") {
        long long t = o.I(0); bool again = t == lastT; lastT = t; ran.clear(); want.clear(); bool mustFail = false; std::vector<int> before = stack;
        if (!again && playing) {
          if (!haveT0) { t0 = t; haveT0 = true; }
          long long rel = t - t0;
          for (size_t k = 0; k < ref[rel].size(); ++k) {
            Ev e = ref[rel][k];
            if (e.kind == 0) {
              want.push_back(e.name);
              if (e.child >= 0) { ref[rel + e.delta].push_back(Ev{e.child, 0, -1, false, 0, -1, fmt("cb%lld", e.child)}); probe("event_programs_event"); }
              if (e.fails) { mustFail = true; faultFired("event_raises"); break; }
            } else if (e.kind == 1 && useSot) { if (std::find(stack.begin(), stack.end(), e.task) == stack.end()) stack.push_back(e.task); }
            else if (e.kind == 2 && useSot) { auto it = std::find(stack.begin(), stack.end(), e.task); if (it != stack.end()) stack.erase(it); }
          }
          if (ref[rel].empty()) ref.erase(rel);
        }
        bool r = raises([&] { seq->triggerSOUT((int)t); });
        ev("tick %lld -> %d ran %zu", t, (int)r, ran.size()); simTime(1); checks(3);
        if (r != mustFail) fail(r ? "cycle-raised" : "failure-hidden", "cycle %lld %s", t, r ? "raised though no event failed" : "hid the failure of an event");
        if (ran != want) {
          std::string a, b; for (auto& x : ran) a += x + " "; for (auto& x : want) b += x + " ";
          bool late = ran.size() > want.size();
          fail(late ? "extra-event" : ran.size() < want.size() ? "missed-event" : "event-order", "cycle %lld, %lld after the start, ran [%s], programmed are [%s]", t, t - t0, a.c_str(), b.c_str());
        }
        std::vector<std::string> e; for (int k : stack) e.push_back(tasks[(size_t)k]->getName());
        if (names() != e) { std::string a, b; for (auto& x : names()) a += x + " "; for (auto& x : e) b += x + " "; fail("stack", "after cycle %lld the stack holds [%s], the events give [%s]", t, a.c_str(), b.c_str()); }
        cover(mix((uint64_t)ran.size(), mix((uint64_t)stack.size(), mix((uint64_t)playing, (uint64_t)(t - t0)))));
      }
    }
    // the display lists what is programmed
    std::ostringstream os; seq->display(os); std::string d = os.str();
    for (auto& x : ref) for (auto& e : x.second) if (e.kind == 0) { checks(); if (d.find(e.name) == std::string::npos) fail("display", "event %s is programmed and not displayed", e.name.c_str()); }
  }
};
}  // namespace
sim::World* sim::makeWorld() { return new W; }
