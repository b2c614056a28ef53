// P17: integrators, derivators and FIR filters equal their difference equation over the cycles computed.
#include "dg.hh"
#include <deque>
// the real sources, here because their plug-in entry points share one name
#define regFunction_double_double firFunction_double_double
#define reg_double_double fir_reg_double_double
#include "../src/matrix/fir-filter.cpp"
#undef regFunction_double_double
#undef reg_double_double
#undef SOT_FACTORY_TEMPLATE_ENTITY_PLUGIN
#include "../src/matrix/derivator.cpp"
#include "../src/matrix/integrator-euler.cpp"
using namespace sim;
using namespace dgw;
using namespace dynamicgraph::sot;

namespace {
double u(uint64_t k) { return (double)(mix(k, 91) >> 11) * (2.0 / 9007199254740992.0) - 1; }
// every signal and coefficient is modelled as a column vector / square matrix
template <class T> struct Conv;
template <> struct Conv<double> { static double from(const Mat& m) { return m(0, 0); } static Mat to(double d) { return Mat::Constant(1, 1, d); } };
template <> struct Conv<Vec> { static Vec from(const Mat& m) { return m; } static Mat to(const Vec& v) { return v; } };
template <> struct Conv<Mat> { static Mat from(const Mat& m) { return m; } static Mat to(const Mat& v) { return v; } };
template <> struct Conv<VectorQuaternion> { static VectorQuaternion from(const Mat& m) { return VectorQuaternion(m(3), m(0), m(1), m(2)); } static Mat to(const VectorQuaternion& v) { return v.coeffs(); } };
Mat times(const Mat& c, const Mat& s) { return c.size() == 1 ? Mat(c(0, 0) * s) : Mat(c * s); }

// Two works alternate in a signal, as in dynamic-graph: an output never sees its own last value.
struct Unit {
  std::string kind; dg::Entity* ent = NULL; bool matCoef = false;
  std::function<Mat(int)> read, readDot; std::function<void()> again; std::function<void(double)> timestep;
  // model
  int n = 1; uint64_t key = 0; bool failing = false, fresh = true; bool plugged = false; int lastT = 0; Mat lastOut, lastDot; bool haveOut = false, dirty = true;
  std::vector<Mat> c; std::deque<Mat> past; size_t size = 0;                              // FIR
  Mat mem; bool init = false; double dt = 1;                                               // derivator
  std::vector<Mat> num, den, im, om; double h = 0.005; bool ready = false;                 // integrator
  Mat in(int t) const { Mat m(n, kind == "derivM" ? 2 : 1); for (long i = 0; i < m.size(); ++i) m(i) = u(mix(key, (uint64_t)(t * 64 + i))); if (kind == "derivQ") { m.resize(4, 1); for (int i = 0; i < 4; ++i) m(i) = u(mix(key, (uint64_t)(t * 64 + i))); m /= m.norm() + 1e-3; } return m; }
};

struct W : World {
  const char* property() const override { return "P17"; }
  const char* rule() const override {
    return "seeded histories of 10-120 cycles of one of ten filters (FIR, derivator, Euler integrator on scalars, vectors, matrices, quaternions): skipped cycles, repeated requests, failing inputs, coefficient, size and time-step changes, refused commands, uninitialised use; "
           "non-trivial when a fault fired";
  }
  const char* simTimeMeaning() const override { return "control cycles"; }
  std::vector<std::string> realComponents() const override { return {"include/sot/core/fir-filter.hh", "include/sot/core/derivator.hh", "include/sot/core/integrator-euler.hh", "include/sot/core/integrator-abstract.hh", "src/matrix/fir-filter.cpp", "src/matrix/derivator.cpp", "src/matrix/integrator-euler.t.cpp"}; }
  std::vector<std::string> stubComponents() const override { return {"dynamic-graph (stand-in)", "input signals"}; }
  std::vector<std::string> assumptions() const override { return {"the input changes at every cycle", "the size of the input is fixed", "the Euler integrator starts with all its memories at the value of the input, as documented"}; }
  std::vector<std::unique_ptr<dg::SignalTimeDependent<double, int>>> sd; std::vector<std::unique_ptr<dg::SignalTimeDependent<Vec, int>>> sv; std::vector<std::unique_ptr<dg::SignalTimeDependent<Mat, int>>> sm; std::vector<std::unique_ptr<dg::SignalTimeDependent<VectorQuaternion, int>>> sq;
  template <class T> void source(Unit* x, std::vector<std::unique_ptr<dg::SignalTimeDependent<T, int>>>& pool, dg::SignalPtr<T, int>& pin) {
    auto* s = new dg::SignalTimeDependent<T, int>("src"); pool.emplace_back(s);
    s->setFunction([x](T& r, int t) -> T& { if (x->failing) throw std::runtime_error("input"); r = Conv<T>::from(x->in(t)); return r; });
    s->setDependencyType(dg::TimeDependency<int>::ALWAYS_READY); pin.plug(s); x->plugged = true;
  }
  template <class S, class C> void fir(Unit* x, std::vector<std::unique_ptr<dg::SignalTimeDependent<S, int>>>& pool) {
    auto* f = new FIRFilter<S, C>("fir"); x->ent = f; source<S>(x, pool, f->SIN); x->matCoef = std::is_same<C, dg::Matrix>::value; x->read = [f](int t) { return Conv<S>::to(f->SOUT(t)); }; x->again = [f] { f->SOUT.setReady(); };
  }
  template <class S> void deriv(Unit* x, std::vector<std::unique_ptr<dg::SignalTimeDependent<S, int>>>& pool) {
    auto* f = new Derivator<S>("der"); x->ent = f; source<S>(x, pool, f->SIN); x->read = [f](int t) { return Conv<S>::to(f->SOUT(t)); }; x->again = [f] { f->SOUT.setReady(); }; x->timestep = [f](double d) { f->timestepSIN = d; };
  }
  template <class S, class C> void euler(Unit* x, std::vector<std::unique_ptr<dg::SignalTimeDependent<S, int>>>& pool) {
    auto* f = new IntegratorEuler<S, C>("int"); x->ent = f; source<S>(x, pool, f->SIN); x->matCoef = std::is_same<C, dg::Matrix>::value; x->read = [f](int t) { return Conv<S>::to(f->SOUT(t)); };
    auto* d = dynamic_cast<dg::SignalTimeDependent<S, int>*>(&f->getSignal("derivativesout")); x->readDot = [d](int t) { return Conv<S>::to((*d)(t)); }; x->again = [f, d] { f->SOUT.setReady(); d->setReady(); };
  }
  void generate(Rng& r, Plan& p) override {
    bool clean = r.chance(1, 6); int n = (int)r.range(10, 120); long long k = r.range(0, 9);
    p.ops.push_back(Op("setup", {k, r.range(1, 4), r.range(1, 50)}));
    if (r.chance(5, 6)) { if (k < 3) { p.ops.push_back(Op("size", {r.range(1, 6)})); for (int i = 0; i < 6; ++i) p.ops.push_back(Op("coef", {i, r.range(0, 99)})); }
      else if (k >= 7) { int a = (int)r.range(1, 3), b = (int)r.range(1, 3); for (int i = 0; i < a; ++i) p.ops.push_back(Op("pushNum", {r.range(0, 99)})); for (int i = 0; i < b; ++i) p.ops.push_back(Op("pushDen", {r.range(0, 99), i + 1 == b})); p.ops.push_back(Op("read", {1, 0})); p.ops.push_back(Op("init")); } }
    for (int i = 0; i < n; ++i) switch (r.weighted({20, 3, 4, clean ? 0 : 3, 2, 2, 1, 2, clean ? 0 : 2, 1, 1, 1})) {
      case 0: p.ops.push_back(Op("read", {r.chance(1, 5) ? r.range(2, 9) : 1, r.range(0, 3)})); break;
      case 1: p.ops.push_back(Op("again", {r.range(0, 3)})); break;
      case 2: p.ops.push_back(Op("coef", {r.range(0, clean ? 2 : 7), r.range(0, 99)})); break;
      case 3: p.ops.push_back(Op("fail", {r.chance(1, 4)})); break;
      case 4: p.ops.push_back(Op("size", {r.range(clean ? 1 : 0, 6)})); break;
      case 5: p.ops.push_back(Op("dt", {r.range(1, 40)})); break;
      case 6: p.ops.push_back(Op("init")); break;
      case 7: p.ops.push_back(Op("readDot", {r.range(0, 1)})); break;
      case 8: p.ops.push_back(Op("get", {r.range(0, 7)})); break;
      case 9: p.ops.push_back(Op("pushNum", {r.range(0, 99)})); break;
      case 10: p.ops.push_back(Op("pushDen", {r.range(0, 99), r.range(0, 1)})); break;
      case 11: p.ops.push_back(Op(r.chance(1, 2) ? "popNum" : "popDen")); break;
    }
    for (size_t i = 0; k >= 7 && i < p.ops.size(); ++i) { const std::string& nm = p.ops[i].name; if ((nm[0] == 'p') && i + 1 < p.ops.size() && p.ops[i + 1].name[0] != 'p' && r.chance(2, 3)) p.ops.insert(p.ops.begin() + (long)i + 1, Op("init")); }
  }
  Unit x;
  Mat coef(long long v, bool one = false) { if (!x.matCoef) return Mat::Constant(1, 1, one ? 1 : u(mix(v, 3))); if (one) return Mat::Identity(x.n, x.n); Mat m(x.n, x.n); for (long i = 0; i < m.size(); ++i) m(i) = u(mix(v, (uint64_t)i)); return m; }
  Value val(const Mat& c) { return x.matCoef ? Value(dg::Matrix(c)) : Value(c(0, 0)); }
  bool wellFormed() const { return x.im.size() == x.num.size() && x.om.size() == x.den.size() && !x.im.empty() && !x.om.empty(); }
  // one computed cycle of the model; false: it must raise
  bool step(int t, bool& unusable) {
    unusable = false; Mat in = x.in(t);
    if (x.kind[0] == 'i' && !wellFormed()) { unusable = true; return false; }
    if (x.failing) return false;
    if (x.kind[0] == 'f') {
      x.past.push_front(in); if (x.past.size() > x.size) x.past.resize(x.size);
      x.lastOut = Mat::Zero(in.rows(), in.cols()); for (size_t i = 0; i < x.past.size(); ++i) x.lastOut += times(x.c[i], x.past[i]);
    } else if (x.kind[0] == 'd') { x.lastOut = x.init ? Mat((in - x.mem) / x.dt) : Mat(Mat::Zero(in.rows(), in.cols())); x.mem = in; x.init = true; }
    else {
      Mat old = x.im[0]; x.im[0] = in; Mat s = times(x.num[0], in);
      for (size_t i = 1; i < x.num.size(); ++i) { Mat d = (x.im[i - 1] - old) / x.h; old = x.im[i]; x.im[i] = d; s += times(x.num[i], d); }
      size_t m = x.den.size() - 1; for (size_t i = 0; i < m; ++i) s -= times(x.den[i], x.om[i]);
      x.om[m] = s; for (size_t i = m; i-- > 0;) x.om[i] += x.om[i + 1] * x.h;
      x.lastOut = x.om[0]; if (x.om.size() > 1) x.lastDot = x.om[1];
    }
    x.haveOut = true; return true;
  }
  void execute(const Plan& p) override {
    Silence quiet; int t = 1; static const char* kinds[] = {"firD", "firV", "firM", "derivD", "derivV", "derivM", "derivQ", "intD", "intV", "intM"};
    int k = 0, n = 2; if (!p.ops.empty() && p.ops[0].name == "setup") { k = (int)p.ops[0].I(0) % 10; n = (int)p.ops[0].I(1); t = (int)p.ops[0].I(2); }
    x.kind = kinds[k]; x.n = k == 0 || k == 3 || k == 7 ? 1 : n; x.key = mix((uint64_t)k, 12);
    switch (k) { case 0: fir<double, double>(&x, sd); break; case 1: fir<Vec, double>(&x, sv); break; case 2: fir<Vec, dg::Matrix>(&x, sv); break; case 3: deriv<double>(&x, sd); break; case 4: deriv<Vec>(&x, sv); break; case 5: deriv<Mat>(&x, sm); break; case 6: deriv<VectorQuaternion>(&x, sq); break; case 7: euler<double, double>(&x, sd); break; case 8: euler<Vec, double>(&x, sv); break; default: euler<Vec, dg::Matrix>(&x, sv); }
    bool F = x.kind[0] == 'f', D = x.kind[0] == 'd', I = x.kind[0] == 'i', asked = false; int done = -1;   // last cycle computed
    auto refuse = [&](const char* w, bool r, bool bad) { ev("%s %d", w, r); checks(); if (bad) faultFired("command_refused"); if (r != bad) fail("command", "%s was %s", w, r ? "refused" : "accepted"); };
    for (auto& o : p.ops) {
      if (o.name == "read" || o.name == "readDot") {
        bool dot = o.name == "readDot" || (o.I(1) == 3); if (dot && !I) dot = false;
        if (o.name == "read") { t += (int)o.I(0); simTime((double)o.I(0)); }
        if (done == t) {              // the same cycle again (a failed evaluation is not tried again within its cycle)
          if (dot || !asked || !x.haveOut) continue;
          Mat g = x.read(t); checks(); if (!near(g, x.lastOut, 1e-9)) fail("value", "asked again at cycle %d: %s instead of %s", t, str(g).c_str(), str(x.lastOut).c_str()); continue;
        }
        bool unusable = false, early = dot && x.om.size() < 2; Mat g; std::string what; bool ok = early ? false : step(t, unusable);
        bool r = raises([&] { g = dot ? x.readDot(t) : x.read(t); }, &what); checks(); ev("%s %s %d raised %d", dot ? "dot" : "read", x.kind.c_str(), t, r); done = t; asked = ok;
        if (r == ok) fail(ok ? "raised" : "failure-hidden", "cycle %d of %s: %s", t, x.kind.c_str(), ok ? what.c_str() : unusable ? "an integrator whose coefficients are not those it was initialised with gives a value" : "a failing input or a missing derivative gives a value");
        if (what.find("eigen_assert") != std::string::npos) fail("out-of-bounds", "cycle %d of %s goes outside its data", t, x.kind.c_str());
        if (!ok) { faultFired(early ? "no_derivative" : unusable ? "not_initialised" : "input_fails"); x.again(); continue; }
        const Mat& w = dot ? x.lastDot : x.lastOut;
        if (w.rows() != g.rows() || w.cols() != g.cols() || !near(g, w, 1e-9)) fail("value", "cycle %d of %s gives %s, its difference equation %s", t, x.kind.c_str(), str(g).c_str(), str(w).c_str());
        if (dot) { Mat v = x.read(t); if (!near(v, x.lastOut, 1e-9)) fail("value", "cycle %d: the output asked after its derivative is %s instead of %s", t, str(v).c_str(), str(x.lastOut).c_str()); }
        cover(mix((uint64_t)k, mix(x.past.size(), mix(x.num.size(), x.den.size() + 8 * (uint64_t)x.init))));
      } else if (o.name == "again") { continue; }
      else if (o.name == "fail") { x.failing = o.I(0) != 0; ev("fail %d", x.failing); }
      else if (o.name == "size" && F) { long long s = o.I(0); bool r = raises([&] { cmd(*x.ent, "setSize", {Value((unsigned)s)}); }); refuse("setSize", r, false); size_t was = x.c.size(); x.c.resize((size_t)s, x.matCoef ? Mat(0, 0) : Mat(Mat::Zero(1, 1))); x.size = (size_t)s; x.past.clear(); (void)was;
        if (x.matCoef) for (size_t i = was; i < x.c.size(); ++i) { x.c[i] = coef((long long)i); cmd(*x.ent, "setElement", {Value((unsigned)i), val(x.c[i])}); }
        if (cmd(*x.ent, "getSize").unsignedValue() != (unsigned)s) fail("size", "the filter has %u coefficients instead of %lld", cmd(*x.ent, "getSize").unsignedValue(), s); }
      else if (o.name == "coef" && F) { size_t i = (size_t)o.I(0); Mat c = coef(o.I(1)); bool r = raises([&] { cmd(*x.ent, "setElement", {Value((unsigned)i), val(c)}); }); refuse("setElement", r, i >= x.c.size()); if (!r) x.c[i] = c; }
      else if (o.name == "get" && F) { size_t i = (size_t)o.I(0); Value v; bool r = raises([&] { v = cmd(*x.ent, "getElement", {Value((unsigned)i)}); }); refuse("getElement", r, i >= x.c.size()); if (!r) { Mat g = x.matCoef ? Mat(v.matrixXdValue()) : Mat(Mat::Constant(1, 1, v.doubleValue())); if (!near(g, x.c[i], 0)) fail("coefficient", "coefficient %zu reads %s, it was set to %s", i, str(g).c_str(), str(x.c[i]).c_str()); } }
      else if (o.name == "dt" && D) { x.dt = 0.1 * (double)o.I(0); x.timestep(x.dt); ev("dt"); }
      else if (o.name == "dt" && I) { x.h = 0.001 * (double)o.I(0); cmd(*x.ent, "setSamplingPeriod", {Value(x.h)}); if (cmd(*x.ent, "getSamplingPeriod").doubleValue() != x.h) fail("period", "the sampling period does not read back"); ev("period"); }
      else if (o.name == "pushNum" && I && x.num.size() < 4) { x.num.push_back(coef(o.I(0))); cmd(*x.ent, "pushNumCoef", {val(x.num.back())}); ev("pushNum"); }
      else if (o.name == "pushDen" && I && x.den.size() < 4) { x.den.push_back(coef(o.I(0), o.I(1) != 0)); cmd(*x.ent, "pushDenomCoef", {val(x.den.back())}); ev("pushDen"); }
      else if (o.name == "popNum" && I) { bool r = raises([&] { cmd(*x.ent, "popNumCoef"); }); refuse("popNumCoef", r, x.num.empty()); if (!r) x.num.pop_back(); }
      else if (o.name == "popDen" && I) { bool r = raises([&] { cmd(*x.ent, "popDenomCoef"); }); refuse("popDenomCoef", r, x.den.empty()); if (!r) x.den.pop_back(); }
      else if (o.name == "init" && I) {
        bool bad = x.num.empty() || x.den.empty() || !(x.matCoef ? x.den.back().isIdentity() : x.den.back()(0, 0) == 1);
        Mat now; bool src = !raises([&] { now = x.kind == "intD" ? Conv<double>::to((*sd[0])(t)) : Conv<Vec>::to((*sv[0])(t)); }); if (!src) continue;   // the input has a value
        bool r = raises([&] { cmd(*x.ent, "initialize"); }); refuse("initialize", r, bad); if (!r) { x.im.assign(x.num.size(), now); x.om.assign(x.den.size(), now); }
      }
    }
  }
};
}  // namespace
sim::World* sim::makeWorld() { return new W; }
