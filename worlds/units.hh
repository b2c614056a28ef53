// Worlds made of single entities with inputs, outputs and settings that go through cycles against a model.
#ifndef VERIF_WORLDS_UNITS
#define VERIF_WORLDS_UNITS
#include "kit.hh"
namespace kit {
enum Res { OK, RAISE, SAME, SKIP };                // a read in the model: computed, must raise, gives what the last read gave
struct Unit {
  std::string name; std::vector<std::unique_ptr<Port>> in; std::vector<std::pair<std::string, Out>> out; std::unique_ptr<dg::Entity> ent; uint64_t key = 0; int n = 2; std::vector<Mat> val; double tol = 1e-9; int now = 0; bool pure = false, chained = false;   // pure: a function of its inputs; chained: a failure of a cycle reaches its other outputs
  virtual ~Unit() {}
  virtual Res step(int t, int which) = 0;                                    // fills val[which]
  virtual bool command(const Op&, bool& refused) { (void)refused; return false; }   // true: it was one of ours
  virtual void check(int which, const Mat& got) { (void)which; (void)got; }   // further properties of a value given
  virtual int badSize(size_t, int w) { return w; }                           // size error applied to an input, 0 for none
  virtual bool holds(size_t) { return pure; }                                // may this input be a constant ?
  bool works(std::initializer_list<int> l) const { for (int i : l) if (!in[(size_t)i]->works()) return false; return true; }
  bool works() const { for (auto& p : in) if (!p->works()) return false; return true; }
  Mat rnd(uint64_t salt, long r, long c = 1, double s = 1) const { Mat m(r, c); for (long i = 0; i < m.size(); ++i) m(i) = s * u(mix(key, mix(salt, (uint64_t)i))); return m; }
  Mat step_(uint64_t salt, int t, long r, double s = 1) const { return rnd(mix(salt, (uint64_t)(t / 7)), r, 1, s); }   // changes every few cycles
  template <class T> void port(dg::SignalPtr<T, int>& s, std::function<Mat(int)> f) { in.emplace_back(new PortOf<T>(s, f)); }
  template <class T> void gives(const char* nm, dg::SignalTimeDependent<T, int>& s) { out.push_back({nm, outOf(s)}); val.push_back(Mat()); }
  bool order(const char* c, const std::vector<Value>& a, bool bad) { std::string what; bool r = raises([&] { cmd(*ent, c, a); }, &what); if (what.find("eigen_assert") != std::string::npos) fail("out-of-bounds", "command %s of the %s goes outside its data", c, name.c_str()); if (r != bad) fail("command", "command %s of the %s was %s", c, name.c_str(), r ? "refused" : "accepted"); return !r; }
};
struct UnitsWorld : World {
  virtual std::unique_ptr<Unit> make(const Op& s) = 0;
  virtual int kinds() const = 0;
  virtual int orders() const { return 3; }
  virtual void opening(Rng&, Plan&) {}
  const char* simTimeMeaning() const override { return "control cycles"; }
  void generate(Rng& r, Plan& p) override {
    bool clean = r.chance(1, 6); int n = (int)r.range(10, r.chance(1, 10) ? 400 : 90);
    p.ops.push_back(Op("setup", {r.range(0, kinds() - 1), r.range(1, 4), r.range(0, 3), r.range(0, 1000000), r.range(1, 3)})); opening(r, p);
    for (int i = 0; i < n; ++i) switch (r.weighted({30, clean ? 0 : 5, 4, 3, clean ? 0 : 1})) {
      case 0: p.ops.push_back(Op("read", {r.chance(1, 4) ? 0 : r.chance(1, 6) ? r.range(2, 30) : 1, r.range(0, 3)})); break;
      case 1: p.ops.push_back(Op("fault", {r.range(0, 6), r.range(0, 3), r.range(0, 1)})); break;
      case 2: p.ops.push_back(Op("heal")); break;
      case 3: p.ops.push_back(Op("set", {r.range(0, orders() - 1), r.range(0, 99), r.range(0, clean ? 6 : 9)})); break;
      case 4: p.ops.push_back(Op("hold", {r.range(0, 6), r.range(0, 99)})); break;
    }
  }
  void execute(const Plan& p) override {
    Silence quiet; if (p.ops.empty() || p.ops[0].name != "setup") return;
    const Op& s = p.ops[0]; std::unique_ptr<Unit> x = make(s); x->key = (uint64_t)s.I(3); int t = (int)s.I(4); const char* nm = x->name.c_str();
    size_t no = x->out.size(); std::vector<int> done(no, -1), last(no, -1); std::vector<char> good(no, 0); std::vector<Mat> given(no); int spoilt = -1;
    auto read = [&](size_t o) {
      if ((done[o] == t && !good[o]) || (x->chained && spoilt == t)) return; std::string what; Mat g; bool repeat = done[o] == t; Res e = repeat ? SAME : x->step(t, (int)o); if (e == SKIP) return;   // not specified
      bool r = raises([&] { g = x->out[o].second(t); }, &what); checks(); ev("%s %d raised %d", x->out[o].first.c_str(), t, r); done[o] = t; good[o] = e != RAISE;
      if (what.find("eigen_assert") != std::string::npos) fail("out-of-bounds", "cycle %d of the %s goes outside its data (%s)", t, nm, x->out[o].first.c_str());
      if (e == RAISE) { spoilt = t; if (!r) fail("failure-hidden", "cycle %d of the %s gives %s without a proper input", t, nm, x->out[o].first.c_str()); return; }
      if (r) fail("raised", "cycle %d of the %s: %s", t, nm, what.c_str());
      const Mat& w = e == SAME && repeat ? given[o] : x->val[o];
      if (w.size() + g.size() != 0 && (w.rows() != g.rows() || w.cols() != g.cols() || !near(g, w, x->tol))) fail("value", "%s of the %s at cycle %d is %s, it should be %s", x->out[o].first.c_str(), nm, t, str(g).c_str(), str(w).c_str());
      if (!repeat) x->check((int)o, g); given[o] = g;
    };
    for (auto& o : p.ops) {
      if (o.name == "set" && x->pure) ++t; else if (x->chained && o.name != "read" && o.name != "set") ++t; else if (o.name != "read" && o.name != "set") for (auto& q : x->in) if (q->keep.size() || o.name == "hold") { ++t; break; }   // constants are exchanged between cycles
      x->now = t; size_t k = (size_t)o.I(0) % std::max<size_t>(1, x->in.size());
      if (o.name == "read") { t += (int)o.I(0); simTime((double)o.I(0)); read((size_t)o.I(1) % no); uint64_t c = hashStr(x->name); for (auto& q : x->in) c = mix(c, (uint64_t)(q->held * 4 + q->fails * 2 + q->out + 8 * (q->wrong != 0))); cover(mix(c, (uint64_t)o.I(1) % no)); }
      else if (o.name == "fault") { if (x->in.empty()) continue; Port& q = *x->in[k]; switch (o.I(1)) { case 0: case 1: q.fails = true; if (q.held) q.plug(true); faultFired("input_fails"); break; case 2: if (q.keep.size()) { q.fails = true; if (q.held) q.plug(true); faultFired("input_fails"); break; } q.plug(false); faultFired("input_missing"); break; default: { int w = x->badSize(k, o.I(2) ? 1 : -1); if (w) { if (q.held) q.plug(true); q.wrong = w; faultFired("input_ill_sized"); } } } ev("fault %s", q.name.c_str()); }
      else if (o.name == "heal") { for (auto& q : x->in) { q->fails = false; q->wrong = 0; if (q->out) q->plug(true); } ev("heal"); }
      else if (o.name == "hold") { if (x->in.empty() || !x->holds(k)) continue; Port& q = *x->in[k]; int w = q.wrong; q.wrong = 0; Mat v = q.held ? q.keep : q.value((int)o.I(1)); q.wrong = w; q.hold(v); ev("hold %s", q.name.c_str()); }
      else if (o.name == "set") { bool bad = false; if (x->command(o, bad)) { checks(); if (bad) faultFired("setting_refused"); ev("set %lld bad %d", (long long)o.I(0), bad); } }
    }
  }
};
}  // namespace kit
#endif
