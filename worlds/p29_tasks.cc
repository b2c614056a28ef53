// P29: task variants and gains follow their control law at each cycle; task references survive being written and read.
#include "units.hh"
#include <sot/core/feature-abstract.hh>
#include <sot/core/gain-adaptive.hh>
#include <sot/core/gain-hyperbolic.hh>
#include <sot/core/task-conti.hh>
#include <sot/core/task-pd.hh>
#include <sot/core/task-unilateral.hh>
using namespace kit;
using namespace dynamicgraph::sot;

namespace {
struct Point : FeatureAbstract {               // a feature whose error and Jacobian are inputs
  static const std::string CLASS_NAME; virtual const std::string& getClassName() const { return CLASS_NAME; }
  dg::SignalPtr<Vec, int> eIN, dIN; dg::SignalPtr<Mat, int> jIN;
  Point() : FeatureAbstract("point"), eIN(NULL, "e"), dIN(NULL, "de"), jIN(NULL, "J") { errorSOUT.addDependency(eIN); jacobianSOUT.addDependency(jIN); errordotSOUT.addDependency(dIN); }
  unsigned int& getDimension(unsigned int& r, int t) override { r = (unsigned)eIN(t).size(); return r; }
  Vec& computeError(Vec& r, int t) override { r = eIN(t); return r; }
  Mat& computeJacobian(Mat& r, int t) override { r = jIN(t); return r; }
  Vec& computeErrorDot(Vec& r, int t) override { r = dIN(t); return r; }
  void setReference(FeatureAbstract*) override {}
  const FeatureAbstract* getReferenceAbstract() const override { return NULL; }
  FeatureAbstract* getReferenceAbstract() override { return NULL; }
  void addDependenciesFromReference() override {}
  void removeDependenciesFromReference() override {}
};
const std::string Point::CLASS_NAME = "Point";
struct WithTask : Unit {
  std::unique_ptr<Point> f; Task* task; int cols = 3, dim = 2; bool der = false;
  void open(Task* t, int k) {
    n = dim = k; task = t; ent.reset(t); f.reset(new Point); t->addFeature(*f); chained = true;
    port<Vec>(f->eIN, [this](int c) { return rnd(mix(1, (uint64_t)c), mix(key, (uint64_t)(c / 20)) % 5 == 0 ? dim + 1 : dim); }); port<Mat>(f->jIN, [this](int c) { return rnd(mix(2, (uint64_t)c), in[0]->at(c).rows(), cols); });
    port<double>(t->controlGainSIN, [this](int c) { return rnd(mix(3, (uint64_t)c), 1, 1, 2); }); port<Vec>(f->dIN, [this](int c) { return rnd(mix(4, (uint64_t)c), in[0]->at(c).rows()); });
  }
  ~WithTask() { ent.reset(); }
  int badSize(size_t, int) override { return 0; }
  static Mat single(const Mat& v) { Mat m = Mat::Zero(v.size(), 3); m.col(1) = v; return m; }
  bool decay(int t, Mat& v) { if (!works({0, 2}) || (der && !works({3}))) return false; v = -in[2]->at(t)(0) * in[0]->at(t); if (der) v -= in[3]->at(t); return true; }
  bool derivative(const Op& o) { if (o.I(0) != 2) return false; der = o.I(1) & 1; cmd(*ent, "setWithDerivative", {Value(der)}); return true; }
};
struct Pd : WithTask {
  TaskPD* e; Mat prev, dot; double beta = 1; bool ext; int at = -1;
  Pd(int k, bool x) : ext(x) {
    name = x ? "task with a derivative given" : "proportional derivative task"; e = new TaskPD("pd"); open(e, k); pure = ext;
    if (ext) port<Vec>(e->errorDotSIN, [this](int c) { return rnd(mix(5, (uint64_t)c), in[0]->at(c).rows()); });
    gives("task", e->taskSOUT); gives("errorDot", e->errorDotSOUT);
  }
  bool holds(size_t i) override { return ext && (i == 2 || (i == 0 && !der)); }
  int badSize(size_t i, int) override { return i == 4 ? -1 : 0; }
  bool diff(int t) { if (at == t) return true; if (!works({0})) return false; Mat c = in[0]->at(t); dot = prev.size() == c.size() ? Mat(c - prev) : Mat(Mat::Zero(c.size(), 1)); prev = c; at = t; return true; }
  Res step(int t, int w) override {
    if (w == 1) { if (ext && in[0]->held) return SKIP; if (!diff(t)) return RAISE; val[1] = dot; return OK; }
    Mat d, v; if (ext) { if (!works({4})) return RAISE; d = in[4]->at(t); } else { if (!diff(t)) return RAISE; d = dot; }
    if (!decay(t, v) || d.size() < v.size()) return RAISE; val[0] = single(v - beta * d.topRows(v.size())); return OK;
  }
  bool command(const Op& o, bool& bad) override { if (derivative(o)) return true; beta = 0.3 * (double)(o.I(1) % 9); return order("setBeta", {Value(beta)}, bad = false); }
};
struct Conti : WithTask {
  struct Open : TaskConti { Open() : TaskConti("conti") {} void put(const Mat& q, double m) { q0 = q; mu = m; } void ask(int k) { timeRef = k == 0 ? (int)TIME_REF_TO_BE_SET : (int)TIME_REF_UNSIGNIFICANT; } } *e;
  int ref = -1; double mu = 0; Mat q0;
  Conti(int k) { name = "continuous task"; e = new Open; cols = 8; open(e, k); gives("task", e->taskSOUT); }
  Res step(int t, int) override {
    if (!works({0, 2})) return RAISE; Mat c = in[0]->at(t); double l = in[2]->at(t)(0); val[0] = single(-l * c); if (!works({1}) || q0.size() != 2) return OK; if (ref == -2) ref = t; if (ref < 0) return OK;
    double g = std::exp((ref - t) * mu / 200); val[0] = single((g - 1) * l * c + g * (in[1]->at(t).rightCols(2) * q0)); return OK;
  }
  void check(int, const Mat&) override { if (e->referenceTime() != ref) fail("reference-time", "the reference time is %d, it should be %d", e->referenceTime(), ref); }
  bool command(const Op& o, bool&) override {
    if (o.I(0) == 0) { ref = -2; e->ask(0); } else if (o.I(0) == 2) { if (o.I(1) & 1) { ref = -1; e->ask(1); } else { ref = now + (int)(o.I(1) % 9); e->referenceTime((unsigned)ref); } }
    else { q0 = rnd(mix(6, (uint64_t)o.I(1)), o.I(2) == 9 ? 3 : o.I(2) == 8 ? 0 : 2); mu = 3 * (double)(o.I(1) % 11); e->put(q0, mu); if (o.I(2) > 7) faultFired("velocity_ill_sized"); } return true;
  }
};
struct Uni : WithTask {
  TaskUnilateral* e;
  Uni(int k) {
    name = "unilateral task"; pure = true; e = new TaskUnilateral("unilateral"); open(e, k); in.clear(); port<Vec>(e->positionSIN, [this](int c) { return rnd(mix(1, (uint64_t)c), dim); }); port<Vec>(e->referenceInfSIN, [this](int c) { return Mat(rnd(mix(2, (uint64_t)c), dim).array() - 1); }); port<Vec>(e->referenceSupSIN, [this](int c) { return Mat(rnd(mix(3, (uint64_t)c), dim).array() + 1); });
    port<double>(e->dtSIN, [this](int c) { uint64_t h = mix(key, (uint64_t)c); return Mat::Constant(1, 1, h % 23 == 0 ? 0 : h % 23 == 1 ? -0.01 : h % 23 == 2 ? NAN : 0.001 * (double)(1 + h % 50)); }); gives("task", e->taskSOUT);
  }
  bool holds(size_t i) override { return i != 3; }
  int badSize(size_t i, int w) override { return i == 3 ? 0 : w; }
  Res step(int t, int) override {
    if (!works()) return RAISE; Mat q = in[0]->at(t), a = in[1]->at(t), b = in[2]->at(t); double dt = in[3]->at(t)(0); if (a.size() < q.size() || b.size() < q.size()) return RAISE; if (!(dt > 0)) { faultFired("time_step_not_positive"); return RAISE; }
    val[0] = Mat::Ones(q.size(), 3); val[0].col(1) = (a.topRows(q.size()) - q) / dt; val[0].col(2) = (b.topRows(q.size()) - q) / dt; return OK;
  }
};
template <class G> struct Gain : Unit {
  G* e; double a = 0, b = 0, c = 0.1, d = 0; static constexpr bool hyp = std::is_same<G, GainHyperbolic>::value;
  void coef(double v0, double vi, double s, double z) { a = v0 - vi; b = a == 0 ? 0 : hyp ? s / a / 2 : s / a; c = vi; d = z; }
  template <class X> static X* made(X*, int how, double v0, double vi, double s, double z) { if constexpr (std::is_same<X, GainHyperbolic>::value) return how == 0 ? new X("gain") : how == 1 ? new X("gain", v0) : new X("gain", v0, vi, s, z); else { (void)z; return how == 0 ? new X("gain") : how == 1 ? new X("gain", v0) : new X("gain", v0, vi, s); } }
  Gain(int k, int how) {
    name = hyp ? "hyperbolic gain" : "adaptive gain"; pure = true; n = k; double v0 = 0.5 + k, vi = 0.25 * k, s = 2, z = 0.3; e = made((G*)NULL, how % 3, v0, vi, s, z); ent.reset(e); if (how % 3 == 1) coef(v0, v0, 1, 0); if (how % 3 == 2) coef(v0, vi, s, z);
    port<Vec>(e->errorSIN, [this](int t) { return rnd(mix(1, (uint64_t)t), n, 1, mix(key, (uint64_t)t) % 5 == 0 ? 0 : 2); }); gives("gain", e->gainSOUT); if (!ent->hasSignal("error") || !ent->hasSignal("gain")) fail("signals", "the %s made with %d values has no signal error", name.c_str(), how % 3);
  }
  double law(double x) const { return hyp ? a * 0.5 * (std::tanh(-b * (x - d)) + 1) + c : a * std::exp(-b * x) + c; }
  Res step(int t, int) override { if (!works()) return RAISE; val[0] = Mat::Constant(1, 1, law(in[0]->at(t).norm())); return OK; }
  void check(int, const Mat& g) override { double lo = std::min(c, a + c), hi = std::max(c, a + c); if (b >= 0 && !(g(0) >= lo - 1e-9 && g(0) <= hi + 1e-9)) fail("gain", "the gain %g leaves [%g, %g]", g(0), lo, hi); }
  bool command(const Op& o, bool& bad) override {
    double v0 = 0.1 * (double)(o.I(1) % 50), vi = 0.05 * (double)(o.I(1) % 7), s = (v0 < vi ? -1 : 1) * 0.5 * (double)(o.I(1) % 11), z = 0.1 * (double)(o.I(1) % 13);
    if constexpr (hyp) { if (o.I(0) == 0) e->init(v0), coef(v0, v0, 1, 0); else if (o.I(0) == 1) e->init(v0, vi, s, z), coef(v0, vi, s, z); else e->forceConstant(), a = 0; }
    else {
      if (o.I(0) == 0) { if (o.I(1) & 1) { order("setConstant", {Value(v0)}, false); coef(v0, v0, 1, 0); } else { e->forceConstant(); a = 0; } }
      else if (o.I(0) == 1) { order("set", {Value(v0), Value(vi), Value(s)}, false); coef(v0, vi, s, 0); }
      else { double x = o.I(2) == 9 ? 0 : o.I(2) == 8 ? -0.5 : z + 0.1, p = o.I(2) == 7 ? (o.I(1) % 3 == 0 ? 0 : o.I(1) % 3 == 1 ? NAN : 1.5) : 0.05 * (double)(1 + o.I(1) % 20); bad = o.I(2) >= 7; if (order("setByPoint", {Value(v0), Value(vi), Value(x), Value(p)}, bad)) { a = v0 - vi; c = vi; b = a == 0 ? 0 : -std::log(p) / x; } }
    }
    return true;
  }
};
struct Bounds : Unit {
  VectorMultiBound v; Mat m = Mat::Zero(0, 3); struct E : dg::Entity { E() : dg::Entity("bounds") {} static const std::string CLASS_NAME; const std::string& getClassName() const override { return CLASS_NAME; } };
  Bounds() { name = "task reference"; pure = true; ent.reset(new E); val.resize(1); out.push_back({"reference", [this](int) { return Conv<VectorMultiBound>::to(v); }}); }
  Res step(int, int) override { val[0] = m; return OK; }
  static double num(uint64_t h) { return (double)((int)(h % 2001) - 1000) / 8; }
  bool command(const Op& o, bool& bad) override {
    typedef MultiBound B; uint64_t h = mix((uint64_t)o.I(1), 5);
    if (o.I(0) == 0) { long k = (long)(h % 5); v.resize((size_t)k); m = Mat::Zero(k, 3); for (long i = 0; i < k; ++i) { uint64_t g = mix(h, (uint64_t)i); double x = num(g / 7), y = num(g / 77); switch (g % 4) { case 0: v[(size_t)i] = B(x); m.row(i) << 0, x, 0; break; case 1: v[(size_t)i] = B(x, y); m.row(i) << 1, x, y; break; case 2: v[(size_t)i] = B(x, B::BOUND_INF); m.row(i) << 2, x, 0; break; default: v[(size_t)i] = B(y, B::BOUND_SUP); m.row(i) << 3, 0, y; } } return true; }
    if (o.I(0) == 1 && v.size()) { size_t i = h % v.size(); long r = (long)i; double x = num(h / 9); auto dbl = [&] { if (m(r, 0) == 0) m.row(r) << 4, 0, 0; }; bool lo = m(r, 0) == 1 || m(r, 0) == 2, hi = m(r, 0) == 1 || m(r, 0) == 3;
      switch (o.I(2) % 5) { case 0: v[i].setSingleBound(x); m.row(r) << 0, x, 0; break; case 1: v[i].setDoubleBound(B::BOUND_INF, x); dbl(); m(r, 1) = x; m(r, 0) = hi ? 1 : 2; if (!hi) m(r, 2) = 0; break; case 2: v[i].setDoubleBound(B::BOUND_SUP, x); dbl(); m(r, 2) = x; m(r, 0) = lo ? 1 : 3; if (!lo) m(r, 1) = 0; break;
        case 3: if (!hi) break; v[i].unsetDoubleBound(B::BOUND_INF); m(r, 0) = 3; m(r, 1) = 0; break; default: if (!lo) break; v[i].unsetDoubleBound(B::BOUND_SUP); m(r, 0) = 2; m(r, 2) = 0; }
      const B& w = v[i]; bool one = m(r, 0) == 0; if (raises([&] { w.getSingleBound(); }) == one || raises([&] { w.getDoubleBoundSetup(B::BOUND_INF); }) != one || raises([&] { w.getDoubleBound(B::BOUND_INF); }) != (m(r, 0) != 1 && m(r, 0) != 2) || raises([&] { w.getDoubleBound(B::BOUND_SUP); }) != (m(r, 0) != 1 && m(r, 0) != 3)) fail("bound-kind", "a bound that is not there is given, or one that is there is not");
      return true; }
    std::ostringstream s; s << v << " 17"; std::string txt = s.str(); VectorMultiBound b; if (h & 1) b = v; if (h & 2) b.resize(2, B(1, 2)); bad = o.I(2) > 6; int rest = 0; std::string what;
    if (bad) { txt = txt.substr(0, (size_t)(h / 8) % (txt.size() - 3)); if (o.I(2) == 9 && txt.size()) txt[txt.size() - 1] = '?'; }
    std::istringstream i(txt); bool r = raises([&] { i >> b >> rest; if (!i || rest != 17) throw std::runtime_error("rest"); }, &what); if (bad && txt.size() && o.I(2) != 9 && what == "rest") fail("half-read", "the text <%s> was read as a whole reference", txt.c_str());
    if (r != bad) fail("text", "the text <%s> was %s", txt.c_str(), r ? "refused" : "read"); if (!r) v = b; return true;
  }
};
const std::string Bounds::E::CLASS_NAME = "Bounds";
struct Choice : Unit {
  Flags v; std::vector<bool> m; bool rest = false;
  Choice() { name = "selection"; pure = true; ent.reset(new Bounds::E); val.resize(1); out.push_back({"selection", [this](int) { Mat r(24, 1); for (int i = 0; i < 24; ++i) r(i) = v(i); return r; }}); }
  bool has(size_t i) const { return i < m.size() ? m[i] : rest; }
  Res step(int, int) override { val[0] = Mat(24, 1); for (int i = 0; i < 24; ++i) val[0](i) = has((size_t)i); return OK; }
  void check(int, const Mat& g) override { bool any = rest; for (int i = 0; i < 24; ++i) any = any || g(i); if ((bool)v != any) fail("selection", "a selection is %sempty for its test, and %sempty", v ? "not " : "", any ? "not " : ""); std::ostringstream o; o << v; for (size_t i = 0; i < o.str().size(); ++i) if ((o.str()[i] == '1') != has(i)) fail("text", "a selection is written <%s>", o.str().c_str()); }
  bool command(const Op& o, bool& bad) override {
    uint64_t h = mix((uint64_t)o.I(1), 7); std::vector<bool> b; std::string txt; for (uint64_t i = 0; i < h % 9; ++i) { b.push_back(mix(h, i) & 1); if (mix(h, i) % 5 == 0) txt += ' '; txt += b.back() ? '1' : '0'; } bad = o.I(2) > 7; if (bad) txt.insert((size_t)(h / 16) % (txt.size() + 1), o.I(2) == 9 ? "2" : "x"); size_t k = (size_t)(h / 32 % 14);
    if (o.I(0) == 0) { bool how = h & 64; Flags f(how ? true : false); std::istringstream i(txt); bool r = raises([&] { if (how) i >> f; else f = Flags(txt.c_str()); }); if (r != bad) fail("text", "the selection <%s> was %s", txt.c_str(), r ? "refused" : "read"); if (!r) { v = f; m = b; rest = false; } return true; }
    bad = false; if (o.I(0) == 1) { switch (h / 1024 % 5) { case 0: v.set((unsigned)k); break; case 1: v.unset((unsigned)k); break; case 2: v = !v; for (size_t i = 0; i < m.size(); ++i) m[i] = !m[i]; rest = !rest; return true; case 3: { bool all = h & 32768; v = Flags(all); m.clear(); rest = all; return true; } default: v.add(h & 16384); m.push_back(h & 16384); return true; } while (m.size() <= k) m.push_back(rest); m[k] = h / 1024 % 5 == 0; return true; }
    Flags w(b); bool all = h & 256, conj = h & 128; if (all) w = !w; size_t s = std::max(m.size(), b.size()); std::vector<bool> z; for (size_t i = 0; i < s; ++i) { bool x = has(i), y = (i < b.size() && b[i]) != all; z.push_back(conj ? x && y : x || y); }
    if (h & 512) conj ? v &= w : v |= w; else v = conj ? v & w : v | w; m = z; rest = conj ? rest && all : rest || all; return true;
  }
};
struct W : UnitsWorld {
  const char* property() const override { return "P29"; }
  const char* rule() const override { return "seeded histories of 10-400 operations on a task (proportional derivative, continuous, unilateral), a gain, a task reference or a selection: skipped cycles, repeated reads, failing, missing, ill-sized and constant inputs, changes of size, settings and refused settings between cycles, truncated and corrupted text; non-trivial when a fault fired"; }
  std::vector<std::string> realComponents() const override { return {"src/task/task-pd.cpp", "src/task/task-conti.cpp", "src/task/task-unilateral.cpp", "src/task/task.cpp", "src/task/task-abstract.cpp", "src/task/multi-bound.cpp", "src/sot/flags.cpp", "src/task/gain-adaptive.cpp", "src/task/gain-hyperbolic.cpp", "src/feature/feature-abstract.cpp"}; }
  std::vector<std::string> stubComponents() const override { return {"dynamic-graph (stand-in)", "feature whose error and Jacobian are inputs", "input signals"}; }
  std::vector<std::string> assumptions() const override { return {"a failed evaluation is not tried again within its cycle", "cycles go forward", "a feature gives as many rows of Jacobian and derivative as of error", "slopes have the sign that makes the gain stay between its values at 0 and at infinity"}; }
  int kinds() const override { return 8; }
  std::unique_ptr<Unit> make(const Op& s) override {
    Unit* x; int k = (int)s.I(1), v = (int)s.I(2);
    switch (s.I(0) % 8) { case 0: x = new Pd(k, false); break; case 1: x = new Pd(k, true); break; case 2: x = new Conti(k); break; case 3: x = new Uni(k); break; case 4: x = new Gain<GainAdaptive>(k, v); break; case 5: x = new Gain<GainHyperbolic>(k, v); break; case 6: x = new Bounds; break; default: x = new Choice; }
    return std::unique_ptr<Unit>(x);
  }
};
}  // namespace
sim::World* sim::makeWorld() { return new W; }
