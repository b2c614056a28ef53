// P10: a feature's error, Jacobian, rate and dimension belong to its present inputs.
#include "dg.hh"
#include <sot/core/feature-1d.hh>
#include <sot/core/feature-generic.hh>
#include <sot/core/feature-joint-limits.hh>
#include <sot/core/feature-line-distance.hh>
#include <sot/core/feature-point6d.hh>
#include <sot/core/feature-point6d-relative.hh>
#include <sot/core/feature-point6d-relative.hh>
#include <sot/core/feature-pose.hh>
#include <sot/core/feature-posture.hh>
#include <sot/core/feature-vector3.hh>
#include <sot/core/feature-visual-point.hh>
#include <sot/core/visual-point-projecter.hh>
using namespace sim;
using namespace dgw;
using namespace dynamicgraph::sot;
typedef MatrixHomogeneous MH;
typedef Eigen::Vector3d V3;
typedef Eigen::Matrix3d M3;
typedef Eigen::Matrix<double, 6, 1> V6;

namespace {
double u(uint64_t k) { return (double)(mix(k, 77) >> 11) * (2.0 / 9007199254740992.0) - 1; }
template <class T> T make(uint64_t key, int rows, int cols);
template <> Vec make<Vec>(uint64_t k, int r, int) { Vec v(r); for (int j = 0; j < r; ++j) v(j) = u(mix(k, (uint64_t)j)); return v; }
template <> Mat make<Mat>(uint64_t k, int r, int c) { Mat m(r, c); for (int j = 0; j < r; ++j) for (int q = 0; q < c; ++q) m(j, q) = u(mix(k, (uint64_t)(j * 64 + q))); return m; }
template <> double make<double>(uint64_t k, int, int) { return 2 + u(k); }
template <> MH make<MH>(uint64_t k, int, int) {
  MH m; m.setIdentity(); V3 a(u(mix(k, 1)), u(mix(k, 2)), u(mix(k, 3))); if (a.norm() < 1e-3) a << 1, 0, 0; a.normalize();
  m.linear() = Eigen::AngleAxisd(1.4 * u(mix(k, 4)), a).toRotationMatrix(); m.translation() << u(mix(k, 5)), u(mix(k, 6)), u(mix(k, 7)); return m;
}
template <> Flags make<Flags>(uint64_t k, int, int) {
  if (mix(k, 8) % 5 == 0) return Flags(true);
  std::string s; int n = (int)(mix(k, 9) % 9); for (int j = 0; j < n; ++j) s += mix(k, (uint64_t)(40 + j)) % 3 ? '1' : '0'; return Flags(s.c_str());
}
// A source: its value moves with the control time, or is held until changed.
template <class T> struct Src {
  dg::SignalTimeDependent<T, int> s; uint64_t key; int rows, cols; bool moving = false, failing = false; long long version = 0; bool exact = false; T value;
  Src(uint64_t k, int r, int c, bool mv) : s(fmt("src%llx", (unsigned long long)k)), key(k), rows(r), cols(c) { setMoving(mv); s.setFunction([this](T& r, int t) -> T& { if (failing) throw std::runtime_error("input"); r = at(t); return r; }); }
  void setMoving(bool m) { moving = m; s.setDependencyType(m ? dg::TimeDependency<int>::ALWAYS_READY : dg::TimeDependency<int>::BOOL_DEPENDENT); s.setReady(); }
  T at(int t) const { return exact ? value : make<T>(mix(key, mix((uint64_t)version, (uint64_t)(moving ? t : -1))), rows, cols); }
  void change() { exact = false; ++version; s.setReady(); }
};
struct InBase { std::string name; virtual ~InBase() {} virtual bool missing() const = 0; virtual void op(const std::string& o, long long a, long long b) = 0; virtual bool plugged() const = 0; virtual void touch(int t) = 0; };
template <class T> struct In : InBase {
  dg::SignalPtr<T, int>* p; std::shared_ptr<Src<T>> src; std::vector<std::shared_ptr<void>> keep; uint64_t key; int rows, cols; bool cst = false; T cval;   // cst: constant given to the pin itself
  In(const char* n, dg::SignalPtr<T, int>& s, uint64_t k, int r = 0, int c = 0) : p(&s), key(k), rows(r), cols(c) { name = n; }
  void fresh(bool moving) { key = mix(key, 5); src.reset(new Src<T>(key, rows, cols, moving)); keep.push_back(src); p->plug(&src->s); cst = false; }
  void constant(const T& v) { cst = true; cval = v; }
  bool plugged() const override { return cst || src; }
  bool missing() const override { return !cst && (!src || src->failing); }
  T at(int t) const { return cst ? cval : src->at(t); }
  void touch(int t) override { if (!cst && src) src->s(t); }
  void op(const std::string& o, long long a, long long b) override {
    if (o == "plug") fresh(a != 0);
    else if (cst || !src) return;
    else if (o == "change") src->change();
    else if (o == "moving") { src->setMoving(a != 0); }
    else if (o == "fail") { src->failing = a != 0; src->s.setReady(); }
    else if (o == "size") { src->rows = std::max(0, rows + (int)a); (void)b; src->change(); }
  }
};
enum Out { E, J, D, N, X1, X2, X3 };   // error, Jacobian, rate, dimension, extras
enum { VALUE = 0, RAISES = 1, EITHER = 2, SKIP = 3 };
std::vector<int> sel(const Flags& f, long n) { std::vector<int> r; for (int i = 0; i < n; ++i) if (f(i)) r.push_back(i); return r; }
bool take(const Mat& m, const std::vector<int>& k, Mat& r) { r.resize((long)k.size(), m.cols()); for (size_t i = 0; i < k.size(); ++i) { if (k[i] >= m.rows()) return false; r.row((long)i) = m.row(k[i]); } return true; }
M3 skew(const V3& w) { M3 m; m << 0, -w(2), w(1), w(2), 0, -w(0), -w(1), w(0), 0; return m; }
V3 log3(const M3& R) { Eigen::Quaterniond q(R); if (q.w() < 0) q.coeffs() *= -1; double n = q.vec().norm(); return n < 1e-12 ? V3(2 * q.vec()) : V3(q.vec() * (2 * std::atan2(n, q.w()) / n)); }
M3 exp3(const V3& w) { double a = w.norm(); if (a < 1e-14) return M3::Identity() + skew(w); return Eigen::AngleAxisd(a, w / a).toRotationMatrix(); }
M3 leftJ(const V3& w) { double a = w.norm(); M3 W = skew(w); if (a < 1e-5) return M3::Identity() + W / 2 + W * W / 6; return M3::Identity() + (1 - cos(a)) / (a * a) * W + (a - sin(a)) / (a * a * a) * W * W; }
V6 log6(const MH& m) { V6 r; V3 w = log3(m.linear()); r.tail<3>() = w; r.head<3>() = leftJ(w).inverse() * m.translation(); return r; }
MH exp6(const V6& x) { MH m; m.setIdentity(); m.linear() = exp3(x.tail<3>()); m.translation() = leftJ(x.tail<3>()) * x.head<3>(); return m; }
double angleOf(const M3& R) { return log3(R).norm(); }

struct Kind;
struct Ctx { int t; };
struct Unit {                       // one feature with its inputs and what they mean
  std::string name; dg::Entity* ent; std::vector<InBase*> in; bool flush = false;
  FeatureAbstract* f = NULL;
  std::vector<dg::SignalBase<int>*> outs;   // all its output signals, for a new evaluation after a failed one
  std::function<int(Out, int, Mat&, double&)> want;
  std::function<Mat(Out, int)> get;
  std::vector<Out> has;
};

struct W : World {
  const char* property() const override { return "P10"; }
  const char* rule() const override {
    return "seeded histories of 10-90 cycles over twelve feature types: inputs that move, are held and change one at a time, are replaced, change size or fail; selections, references, frames and active joints changed between cycles; "
           "each cycle reads a random subset of error, Jacobian, rate and dimension in random order; non-trivial when a fault fired";
  }
  const char* simTimeMeaning() const override { return "control cycles"; }
  std::vector<std::string> realComponents() const override { return {"src/feature/*.cpp (all features)", "include/sot/core/feature-pose.hxx", "src/sot/flags.cpp", "src/factory/pool.cpp"}; }
  std::vector<std::string> stubComponents() const override { return {"dynamic-graph (stand-in)", "pinocchio Lie groups (stand-in)", "input signals"}; }
  std::vector<std::string> assumptions() const override {
    return {"after a failed evaluation a new one is asked for explicitly", "an input is not unplugged once plugged", "changes are made between cycles", "no relative rotation close to a half turn", "limits narrower than 1e-3 are not specified"};
  }
  int cols = 6; int T = 0;
  std::vector<std::unique_ptr<InBase>> pool; std::vector<Unit> units;
  template <class S> In<S>* in(Unit& un, const char* n, dg::SignalPtr<S, int>& s, int r = 0, int c = 0) { auto* x = new In<S>(n, s, mix(units.size() * 131 + un.in.size(), 99), r, c); pool.emplace_back(x); un.in.push_back(x); return x; }
  template <class S> dg::SignalPtr<S, int>& pin(dg::Entity& e, const char* n) { return dynamic_cast<dg::SignalPtr<S, int>&>(e.getSignal(n)); }
  void feature(Unit& un, FeatureAbstract* f, std::vector<Out> has) {
    un.ent = un.f = f; un.has = has; un.outs = {&f->errorSOUT, &f->jacobianSOUT, &f->errordotSOUT, &f->dimensionSOUT};
    un.get = [f](Out o, int t) -> Mat { switch (o) { case E: return f->errorSOUT(t); case J: return f->jacobianSOUT(t); case D: return f->errordotSOUT(t); default: return Mat::Constant(1, 1, f->dimensionSOUT(t)); } };
  }
  void generate(Rng& r, Plan& p) override {
    bool clean = r.chance(1, 6); int n = (int)r.range(10, 90), only = r.chance(2, 3) ? (int)r.range(0, 11) : -1; long long held = r.range(0, 3);
    p.ops.push_back(Op("setup", {r.range(6, 9), r.range(1, 5), held, r.range(1, 20), only}));
    for (int k = 0; k < n; ++k) {
      long long f = only >= 0 ? only : r.range(0, 11);
      switch (r.weighted({14, 6, 3, 1, clean ? 0 : 2, clean ? 0 : 2, 4, 1, 1})) {
        case 0: p.ops.push_back(Op("read", {f, r.range(0, 5040), r.range(1, 6), r.chance(1, 5) ? r.range(2, 9) : 1, r.chance(1, 6)})); break;
        case 1: p.ops.push_back(Op("change", {f, r.range(0, 11)})); break;
        case 2: p.ops.push_back(Op("plug", {f, r.range(0, 11), r.range(0, 3) > held})); break;
        case 3: p.ops.push_back(Op("moving", {f, r.range(0, 11), r.range(0, 1)})); break;
        case 4: p.ops.push_back(Op("fail", {f, r.range(0, 11), r.range(0, 1)})); break;
        case 5: p.ops.push_back(Op("size", {f, r.range(0, 11), r.range(-2, 2)})); break;
        case 6: p.ops.push_back(Op("set", {f, r.range(0, 5), r.range(0, 9), r.chance(1, 8) && !clean})); break;
        case 7: p.ops.push_back(Op("heal", {f})); break;
        case 8: p.ops.push_back(Op("flags", {f, r.range(0, 511), r.range(0, 9)})); break;
      }
    }
  }
  void execute(const Plan& p) override {
    Silence quiet; std::shared_ptr<FeatureGeneric> gRef[2]; long long held = 2, t = 1, only = -1; int n = 3;
    if (!p.ops.empty() && p.ops[0].name == "setup") { cols = (int)p.ops[0].I(0); n = (int)p.ops[0].I(1); held = p.ops[0].I(2); t = p.ops[0].I(3); only = p.ops[0].I(4); }
    units.resize(12); std::map<int, std::vector<FeatureAbstract*>> refs; std::vector<int> refOf(12, -1); std::vector<std::string> frame(2, "desired"); std::vector<bool> active; bool anyActive = false;
    auto two = [&](int k) -> int { return refOf[(size_t)k]; };
    // ---- 0 generic
    { Unit& x = units[0]; auto* f = new FeatureGeneric("gen"); feature(x, f, {E, J, D, N});
      auto* e = in<Vec>(x, "error", f->errorSIN, n); auto* j = in<Mat>(x, "jacobian", f->jacobianSIN, n, cols); auto* s = in<Flags>(x, "selec", f->selectionSIN); s->constant(Flags(true));
      struct R { In<Vec>* e; In<Vec>* d; }; std::vector<R> rr;
      for (int k = 0; k < 2; ++k) { auto* g = new FeatureGeneric(fmt("genref%d", k)); refs[0].push_back(g); rr.push_back({in<Vec>(x, "ref.error", g->errorSIN, n), in<Vec>(x, "ref.errordot", g->errordotSIN, n)}); }
      x.want = [=](Out o, int t, Mat& w, double&) {
        int r = two(0); if (s->missing() || e->missing()) return o == E ? (int)RAISES : (int)EITHER;
        Vec err = e->at(t); auto k = sel(s->at(t), err.size());
        if (o == N) { w = Mat::Constant(1, 1, (double)k.size()); return (int)VALUE; }
        if (o == J) { if (j->missing()) return (int)RAISES; return take(j->at(t), k, w) ? (int)VALUE : (int)RAISES; }
        if (o == E) { Mat d, v; if (r >= 0 && rr[(size_t)r].e->missing()) return (int)RAISES; take(err, k, v); if (r >= 0) { if (!take(rr[(size_t)r].e->at(t), k, d)) return (int)RAISES; w = v - d; if (rr[(size_t)r].e->at(t).size() < (long)err.size()) return (int)EITHER; } else w = v; return (int)VALUE; }
        if (r < 0 || !rr[(size_t)r].d->plugged()) { w = Mat::Zero((long)k.size(), 1); return (int)VALUE; }
        if (rr[(size_t)r].d->missing()) return (int)RAISES; Mat d; if (!take(rr[(size_t)r].d->at(t), k, d)) return (int)RAISES; w = -d; return rr[(size_t)r].d->at(t).size() < (long)err.size() ? (int)EITHER : (int)VALUE; };
    }
    // ---- 1 one-dimensional
    { Unit& x = units[1]; auto* f = new Feature1D("one"); feature(x, f, {E, J, N}); auto* e = in<Vec>(x, "error", f->errorSIN, n); auto* j = in<Mat>(x, "jacobian", f->jacobianSIN, n, cols); in<Flags>(x, "selec", f->selectionSIN)->constant(Flags(true));
      x.want = [=](Out o, int t, Mat& w, double&) {
        if (o == N) { w = Mat::Constant(1, 1, 1); return (int)VALUE; } if (e->missing()) return (int)RAISES; Vec err = e->at(t);
        if (o == E) { w = Mat::Constant(1, 1, err.squaredNorm() / 2); return (int)VALUE; } if (j->missing()) return (int)RAISES; Mat a = j->at(t); if (a.rows() != err.size()) return (int)RAISES;  w = err.transpose() * a; return (int)VALUE; };
    }
    // ---- 2 three-dimensional vector
    { Unit& x = units[2]; auto* f = new FeatureVector3("vec3"); feature(x, f, {E, J, N}); auto* v = in<Vec>(x, "vector", f->vectorSIN, 3); auto* m = in<MH>(x, "position", f->positionSIN); auto* q = in<Mat>(x, "Jq", f->articularJacobianSIN, 6, cols); auto* d = in<Vec>(x, "positionRef", f->positionRefSIN, 3);
      x.want = [=](Out o, int t, Mat& w, double&) {
        if (o == N) { w = Mat::Constant(1, 1, 3); return (int)VALUE; } if (v->missing() || m->missing()) return (int)RAISES; V3 a; Vec av = v->at(t); M3 R = m->at(t).linear();
        if (o == E) { if (d->missing()) return (int)RAISES; Vec dv = d->at(t); if (av.size() != 3 || dv.size() != 3) return (int)SKIP; w = R * av - dv; return (int)VALUE; }
        if (q->missing()) return (int)RAISES; Mat Q = q->at(t); if (av.size() != 3 || Q.rows() != 6) return (int)SKIP; a = av; w = -(R * skew(a)) * Q.bottomRows(3); return (int)VALUE; };
    }
    // ---- 3 joint limits
    { Unit& x = units[3]; auto* f = new FeatureJointLimits("jl"); feature(x, f, {E, J, N}); x.outs.push_back(&f->widthJlSINTERN); auto* q = in<Vec>(x, "joint", f->jointSIN, n + 4); auto* up = in<Vec>(x, "upper", f->upperJlSIN, n + 4); auto* lo = in<Vec>(x, "lower", f->lowerJlSIN, n + 4); auto* s = in<Flags>(x, "selec", f->selectionSIN); s->constant(Flags(true));
      x.want = [=](Out o, int t, Mat& w, double&) {
        if (up->missing() || s->missing()) return o == N ? (int)EITHER : (int)RAISES; Vec U = up->at(t); auto k = sel(s->at(t), U.size()); if (o == N) { w = Mat::Constant(1, 1, (double)k.size()); return (int)VALUE; }
        if (q->missing() || lo->missing()) return (int)RAISES; Vec L = lo->at(t), Q = q->at(t); if (L.size() != U.size() || Q.size() != U.size()) return (int)RAISES;
        Mat e(U.size(), 1), j = Mat::Zero(U.size(), U.size()); for (int i = 0; i < U.size(); ++i) { double wd = U(i) - L(i); if (std::fabs(wd) < 2e-3) return (int)SKIP; e(i, 0) = (Q(i) - L(i)) / wd * 2 - 1; j(i, i) = 2 / wd; }
        take(o == E ? e : j, k, w); return (int)VALUE; };
    }
    // ---- 4 posture
    { Unit& x = units[4]; auto* f = new FeaturePosture("post"); feature(x, f, {E, J, D, N}); auto* s = in<Vec>(x, "state", pin<Vec>(*f, "state"), n + 2); auto* q = in<Vec>(x, "posture", pin<Vec>(*f, "posture"), n + 2); auto* d = in<Vec>(x, "postureDot", pin<Vec>(*f, "postureDot"), n + 2);
      x.want = [=, &active, &anyActive](Out o, int t, Mat& w, double&) {
        std::vector<int> k; for (size_t i = 0; i < active.size(); ++i) if (active[i]) k.push_back((int)i);
        if (o == N) { w = Mat::Constant(1, 1, (double)k.size()); return (int)VALUE; }
        if (o == J) { w = Mat::Zero((long)k.size(), (long)active.size()); for (size_t i = 0; i < k.size(); ++i) w((long)i, k[i]) = 1; return (int)VALUE; }
        if (o == D) { if (d->missing()) return (int)RAISES; if (!take(d->at(t), k, w)) return (int)RAISES; w = -w; return (size_t)d->at(t).size() == active.size() ? (int)VALUE : (int)EITHER; }
        if (s->missing() || q->missing()) return (int)RAISES; Mat a, b; Vec sv = s->at(t), qv = q->at(t); if (!take(sv, k, a) || !take(qv, k, b)) return (int)RAISES; w = a - b; return sv.size() == qv.size() && ((size_t)sv.size() == active.size()) ? (int)VALUE : (int)EITHER; };
    }
    // ---- 5 point6d
    { Unit& x = units[5]; auto* f = new FeaturePoint6d("p6"); feature(x, f, {E, J, D, N}); auto* m = in<MH>(x, "position", f->positionSIN); auto* q = in<Mat>(x, "Jq", f->articularJacobianSIN, 6, cols); auto* s = in<Flags>(x, "selec", f->selectionSIN); s->constant(Flags(true));
      struct R { In<MH>* m; In<Vec>* v; }; std::vector<R> rr;
      for (int k = 0; k < 2; ++k) { auto* g = new FeaturePoint6d(fmt("p6ref%d", k)); refs[5].push_back(g); rr.push_back({in<MH>(x, "ref.position", g->positionSIN), in<Vec>(x, "ref.velocity", g->velocitySIN, 6)}); }
      x.want = [=, &frame](Out o, int t, Mat& w, double& tol) {
        int r = two(5); bool cur = frame[0] == "current"; if (s->missing()) return o == N ? (int)EITHER : (int)RAISES; auto k = sel(s->at(t), 6); if (o == N) { w = Mat::Constant(1, 1, (double)k.size()); return (int)VALUE; }
        if (o == D && r < 0) { w = Mat::Zero((long)k.size(), 1); return (int)EITHER; }
        if (m->missing() || (r >= 0 && rr[(size_t)r].m->missing())) return (int)RAISES;
        MH M = m->at(t), Md = MH::Identity(); if (r >= 0) Md = rr[(size_t)r].m->at(t); MH er = cur ? M.inverse(Eigen::Affine) * Md : Md.inverse(Eigen::Affine) * M;
        V3 th = log3(er.linear()); if (th.norm() > 3.0) return (int)SKIP; Mat full;
        if (o == E) { full.resize(6, 1); full.topRows(3) = er.translation(); full.bottomRows(3) = th; }
        else if (o == J) {
          if (q->missing()) return (int)RAISES; Mat Q = q->at(t); if (Q.rows() != 6) return (int)SKIP; M3 hd = Md.linear().transpose() * M.linear(); full.resize(6, Q.cols());
          if (cur) { V3 xx = M.linear().transpose() * (Md.translation() - M.translation()); full.topRows(3) = -Q.topRows(3) + skew(xx) * Q.bottomRows(3); full.bottomRows(3) = -hd * Q.bottomRows(3); }
          else { full.topRows(3) = hd * Q.topRows(3); full.bottomRows(3) = hd * Q.bottomRows(3); }
        } else {
          if (rr[(size_t)r].v->missing()) return (int)RAISES; Vec v = rr[(size_t)r].v->at(t); if (v.size() != 6) return (int)SKIP; if (th.norm() < 1e-3) tol = 1e-2; else tol = 1e-6;
          V3 lin = v.head(3), om = v.tail(3); double h = 1e-5; MH a = Md, b = Md; a.translation() += h * lin; b.translation() -= h * lin; a.linear() = exp3(h * om) * Md.linear(); b.linear() = exp3(-h * om) * Md.linear();
          auto err = [&](const MH& d) { MH z = cur ? M.inverse(Eigen::Affine) * d : d.inverse(Eigen::Affine) * M; V6 y; y.head<3>() = z.translation(); y.tail<3>() = log3(z.linear()); return y; };
          full = (err(a) - err(b)) / (2 * h);
        }
        take(full, k, w); return (int)VALUE; };
    }
    // ---- 6 visual point
    { Unit& x = units[6]; auto* f = new FeatureVisualPoint("vp"); feature(x, f, {E, J, D, N}); auto* xy = in<Vec>(x, "xy", f->xySIN, 2); auto* z = in<double>(x, "Z", f->ZSIN); z->constant(1.0); auto* q = in<Mat>(x, "Jq", f->articularJacobianSIN, 6, cols); auto* s = in<Flags>(x, "selec", f->selectionSIN); s->constant(Flags(true));
      struct R { In<Vec>* xy; In<Vec>* d; }; std::vector<R> rr; for (int k = 0; k < 2; ++k) { auto* g = new FeatureVisualPoint(fmt("vpref%d", k)); refs[6].push_back(g); rr.push_back({in<Vec>(x, "ref.xy", g->xySIN, 2), in<Vec>(x, "ref.errordot", g->errordotSIN, 2)}); }
      x.want = [=](Out o, int t, Mat& w, double&) {
        int r = two(6); if (s->missing()) return o == N ? (int)EITHER : (int)RAISES; auto k = sel(s->at(t), 2); if (o == N) { w = Mat::Constant(1, 1, (double)k.size()); return (int)VALUE; }
        if (o == D) { if (r < 0 || !rr[(size_t)r].d->plugged()) { w = Mat::Zero((long)k.size(), 1); return (int)VALUE; } if (rr[(size_t)r].d->missing()) return (int)RAISES; Mat d; if (!take(rr[(size_t)r].d->at(t), k, d)) return (int)RAISES; w = -d; return rr[(size_t)r].d->at(t).size() == 2 ? (int)VALUE : (int)EITHER; }
        if (o == E) { if (r < 0) return (int)RAISES; if (k.empty()) { w = Mat(0, 1); return (int)EITHER; } if (xy->missing() || rr[(size_t)r].xy->missing()) return (int)RAISES; Mat a, b; if (!take(xy->at(t), k, a) || !take(rr[(size_t)r].xy->at(t), k, b)) return (int)SKIP; w = a - b; return (int)VALUE; }
        if (xy->missing() || z->missing() || q->missing()) return (int)RAISES; Vec v = xy->at(t); double Z = z->at(t); Mat Q = q->at(t); if (v.size() < 2 || Q.rows() != 6) return (int)SKIP; if (Z < 1e-6) return (int)RAISES;
        Mat L(2, 6); double X = v(0), Y = v(1); L << -1 / Z, 0, X / Z, X * Y, -(1 + X * X), Y, 0, -1 / Z, Y / Z, 1 + Y * Y, -X * Y, -X; take(L * Q, k, w); return (int)VALUE; };
    }
    // ---- 7 line distance
    { Unit& x = units[7]; auto* f = new FeatureLineDistance("line"); feature(x, f, {E, J, N, X1}); x.outs.push_back(&f->lineSOUT); auto* m = in<MH>(x, "position", f->positionSIN); auto* q = in<Mat>(x, "Jq", f->articularJacobianSIN, 6, cols); auto* d = in<Vec>(x, "positionRef", f->positionRefSIN, 6); auto* v = in<Vec>(x, "vector", f->vectorSIN, 3);
      auto base = x.get; x.get = [=](Out o, int t) -> Mat { return o == X1 ? Mat(f->lineSOUT(t)) : base(o, t); };
      x.want = [=](Out o, int t, Mat& w, double& tol) {
        if (o == N) { w = Mat::Constant(1, 1, 1); return (int)VALUE; } if (m->missing() || v->missing()) return (int)RAISES; MH M = m->at(t); Vec vv = v->at(t); if (vv.size() != 3) return (int)SKIP; V3 a = M.linear() * vv; if (o == X1) { w = Mat(6, 1); w.topRows(3) = M.translation(); w.bottomRows(3) = a; return d->missing() ? (int)EITHER : (int)VALUE; }
        if (d->missing()) return (int)RAISES; Vec dv = d->at(t); if (dv.size() != 6) return (int)SKIP; V3 c = a.cross(V3(dv.tail(3))); double K = c.squaredNorm(); if (K < 1e-3) return (int)SKIP; tol = 1e-7;
        if (o == E) { w = Mat::Constant(1, 1, (V3(dv.head(3)) - V3(M.translation())).dot(c) / K); return (int)VALUE; }
        if (q->missing()) return (int)RAISES; Mat Q = q->at(t); if (Q.rows() != 6) return (int)SKIP;
        auto e = [&](const V3& p0, const V3& v0) { V3 cc = v0.cross(V3(dv.tail(3))); return (V3(dv.head(3)) - p0).dot(cc) / cc.squaredNorm(); };
        Mat g(1, 6); V3 p0 = M.translation(); double h = 1e-6;
        for (int b = 0; b < 3; ++b) { V3 s = V3::Zero(); s(b) = h; g(0, b) = (e(p0 + s, a) - e(p0 - s, a)) / (2 * h); g(0, 3 + b) = (e(p0, a + s) - e(p0, a - s)) / (2 * h); }
        Mat L = Mat::Zero(6, 6); M3 R = M.linear(); L.topLeftCorner(3, 3) = R; L.bottomRightCorner(3, 3) = -R * skew(V3(vv));
        if (K < 1e-2) return (int)SKIP; w = g * L * Q; tol = 1e-4; return (int)VALUE; };
    }
    // ---- 8, 9 pose in R3xSO3 and SE3
    auto pose = [&](int k, auto* f) {
      Unit& x = units[(size_t)k]; feature(x, f, {E, J, D, N, X1}); for (auto* s : std::vector<dg::SignalBase<int>*>{&f->faMfb, &f->q_faMfb, &f->q_faMfbDes}) x.outs.push_back(s);
      auto* ja = in<MH>(x, "oMja", f->oMja); auto* fa = in<MH>(x, "jaMfa", f->jaMfa); auto* jb = in<MH>(x, "oMjb", f->oMjb); auto* fb = in<MH>(x, "jbMfb", f->jbMfb); auto* JA = in<Mat>(x, "jaJja", f->jaJja, 6, cols); auto* JB = in<Mat>(x, "jbJjb", f->jbJjb, 6, cols); auto* des = in<MH>(x, "faMfbDes", f->faMfbDes); auto* nu = in<Vec>(x, "faNufafbDes", f->faNufafbDes, 6); auto* s = in<Flags>(x, "selec", f->selectionSIN);
      for (auto* c : {ja, fa, fb, des}) c->constant(MH::Identity()); nu->constant(Vec::Zero(6)); s->constant(Flags(true)); bool se3 = k == 9; auto base = x.get;
      x.get = [=](Out o, int t) -> Mat { return o == X1 ? Mat(f->faMfb(t).matrix()) : base(o, t); };
      x.want = [=](Out o, int t, Mat& w, double& tol) {
        bool posMissing = ja->missing() || fa->missing() || jb->missing() || fb->missing();
        if (o == X1) { if (posMissing) return (int)RAISES; w = ((ja->at(t) * fa->at(t)).inverse(Eigen::Affine) * jb->at(t) * fb->at(t)).matrix(); return (int)VALUE; }
        if (s->missing()) return o == N ? (int)EITHER : (int)RAISES; auto sl = sel(s->at(t), 6); if (o == N) { w = Mat::Constant(1, 1, (double)sl.size()); return (int)VALUE; }
        if (posMissing || des->missing()) return (int)RAISES; MH A = ja->at(t), B = jb->at(t), a = fa->at(t), b = fb->at(t), Md = des->at(t);
        auto diff = [se3](const MH& d, const MH& m) { if (se3) return log6(d.inverse(Eigen::Affine) * m); V6 r; r.head<3>() = m.translation() - d.translation(); r.tail<3>() = log3(d.linear().transpose() * m.linear()); return r; };
        auto rel = [&](const MH& A2, const MH& B2) { return MH((A2 * a).inverse(Eigen::Affine) * B2 * b); };
        MH M = rel(A, B); if (angleOf(Md.linear().transpose() * M.linear()) > 2.9) return (int)SKIP; double h = 1e-5; Mat full; tol = 2e-6;
        if (o == E) { full = diff(Md, M); tol = 1e-9; }
        else if (o == J) {
          if (JB->missing() || (JA->plugged() && JA->missing())) return (int)RAISES; Mat Jb = JB->at(t), Ja = Mat::Zero(Jb.rows(), Jb.cols()); if (JA->plugged()) Ja = JA->at(t); if (Jb.rows() != 6 || Ja.rows() != 6) return (int)SKIP; full.resize(6, Jb.cols());
          for (int c = 0; c < Jb.cols(); ++c) full.col(c) = (diff(Md, rel(A * exp6(h * V6(Ja.col(c))), B * exp6(h * V6(Jb.col(c))))) - diff(Md, rel(A * exp6(-h * V6(Ja.col(c))), B * exp6(-h * V6(Jb.col(c)))))) / (2 * h);
        } else {
          if (nu->missing()) return (int)RAISES; Vec v = nu->at(t); if (v.size() != 6) return (int)SKIP;
          MH p1 = exp6(h * V6(v)) * Md, p2 = exp6(-h * V6(v)) * Md; full = (diff(p1, M) - diff(p2, M)) / (2 * h);
          if (!se3) full.topRows(3) = -(V3(v.head(3)) + V3(v.tail(3)).cross(V3(M.translation())));   // velocity of the point of frame B
        }
        take(full, sl, w); return (int)VALUE; };
    };
    pose(8, new FeaturePose<R3xSO3Representation>("pose")); pose(9, new FeaturePose<SE3Representation>("pose3"));
    // ---- 10 projection
    { Unit& x = units[10]; auto* f = new VisualPointProjecter("proj"); x.ent = f; x.has = {X1, X2, X3}; x.outs = {&f->m_point3DgazeSOUT, &f->m_depthSOUT, &f->m_point2DSOUT}; auto* pt = in<Vec>(x, "point3D", f->m_point3DSIN, 3); auto* m = in<MH>(x, "transfo", f->m_transfoSIN);
      x.get = [=](Out o, int t) -> Mat { return o == X1 ? Mat(f->m_point3DgazeSOUT(t)) : o == X2 ? Mat(Mat::Constant(1, 1, f->m_depthSOUT(t))) : Mat(f->m_point2DSOUT(t)); };
      x.want = [=](Out o, int t, Mat& w, double&) { if (pt->missing() || m->missing()) return (int)RAISES; Vec v = pt->at(t); if (v.size() != 3) return (int)SKIP; V3 g = m->at(t).inverse(Eigen::Affine) * V3(v); if (o == X1) { w = g; return (int)VALUE; } if (o == X2) { w = Mat::Constant(1, 1, g(2)); return (int)VALUE; } if (g(2) < 0.05) return (int)SKIP; w = Mat(2, 1); w << g(0) / g(2), g(1) / g(2); return (int)VALUE; };
    }
    // ---- 11 relative point: the pose of one moving frame in another
    { Unit& x = units[11]; auto* f = new FeaturePoint6dRelative("p6r"); feature(x, f, {E, J, N}); auto* m = in<MH>(x, "position", f->positionSIN); auto* b = in<MH>(x, "positionRef", f->positionReferenceSIN); auto* q = in<Mat>(x, "Jq", f->articularJacobianSIN, 6, cols); auto* qb = in<Mat>(x, "JqRef", f->articularJacobianReferenceSIN, 6, cols); auto* s = in<Flags>(x, "selec", f->selectionSIN); s->constant(Flags(true));
      auto* d = new FeaturePoint6dRelative("p6rref0"); auto* g = new FeaturePoint6d("p6rref1"); refs[11] = {d, g}; auto* dm = in<MH>(x, "ref.position", d->positionSIN); auto* db = in<MH>(x, "ref.positionRef", d->positionReferenceSIN); auto* gm = in<MH>(x, "ref1.position", g->positionSIN);
      x.want = [=](Out o, int t, Mat& w, double& tol) {
        int r = two(11); if (s->missing()) return o == N ? (int)EITHER : (int)RAISES; auto k = sel(s->at(t), 6); if (o == N) { w = Mat::Constant(1, 1, (double)k.size()); return (int)VALUE; }
        if (m->missing() || b->missing()) return (int)RAISES; MH M = m->at(t).inverse(Eigen::Affine) * b->at(t); Mat full;
        if (o == E) {
          if ((r == 0 && (dm->missing() || db->missing())) || (r == 1 && gm->missing())) return (int)RAISES;
          MH D = MH::Identity(); if (r == 0) D = dm->at(t).inverse(Eigen::Affine) * db->at(t); if (r == 1) D = gm->at(t);
          MH er = M * D.inverse(Eigen::Affine); V3 th = log3(er.linear()); if (th.norm() > 3.0) return (int)SKIP; full.resize(6, 1); full.topRows(3) = er.translation(); full.bottomRows(3) = th; tol = 1e-8;
        } else {
          if (q->missing() || qb->missing()) return (int)RAISES; Mat Q = q->at(t), B = qb->at(t); full.resize(6, Q.cols());       // how the frame moves, seen from the point
          for (int c = 0; c < Q.cols(); ++c) { double h = 1e-5; auto mv = [&](double z) { return log6(exp6(-z * V6(Q.col(c))) * M * exp6(z * V6(B.col(c))) * M.inverse(Eigen::Affine)); }; full.col(c) = (mv(h) - mv(-h)) / (2 * h); }
          tol = 1e-6;
        }
        take(full, k, w); return (int)VALUE; };
    }
    for (size_t k = 0; k < units.size(); ++k) if (only < 0 || only == (long long)k) for (auto* i : units[k].in) if (!i->plugged() && (held != 3 || mix(k, i->name.size()) % 4)) i->op("plug", mix(k, i->name.size()) % 4 >= (uint64_t)held, 0);
    for (auto& o : p.ops) {
      if (o.name == "setup") continue;
      size_t k = (size_t)o.I(0); if (k >= units.size()) continue; Unit& un = units[k];
      if (o.name == "read") {
        t += o.I(3); simTime((double)o.I(3)); std::vector<Out> order = un.has; uint64_t perm = (uint64_t)o.I(1); for (size_t a = order.size(); a > 1; --a) { std::swap(order[a - 1], order[perm % a]); perm /= a; }
        order.resize(std::min(order.size(), (size_t)o.I(2))); bool failed = false;
        for (Out q : order) {
          if (failed) break;   // the stand-in, like dynamic-graph, does not evaluate a signal twice in one cycle
          Mat w, g; double tol = 1e-9; int want = un.want(q, (int)t, w, tol); std::string what; bool r = raises([&] { g = un.get(q, (int)t); }, &what); checks();
          ev("read %zu %d %lld %d", k, (int)q, t, r); cover(mix(k, mix((uint64_t)q, mix((uint64_t)want, (uint64_t)g.rows())))); failed |= r;
          if (r && what.find("eigen_assert") != std::string::npos) fail("out-of-bounds", "feature %zu output %d at cycle %lld goes outside its data: %s", k, (int)q, t, what.c_str());
          if (want == SKIP) continue;
          if (want == RAISES && !r) fail("failure-hidden", "feature %zu output %d at cycle %lld gives %s though an input it needs fails, is missing or has the wrong size", k, (int)q, t, str(g).c_str());
          if (want == RAISES) { faultFired("input_unusable"); continue; }
          if (want == VALUE && r) fail("raised", "feature %zu output %d at cycle %lld raised (%s) though all it needs is there", k, (int)q, t, what.c_str());
          if (r) { faultFired("input_partial"); continue; }
          if (want == EITHER && w.size() == 0) continue;
          if (w.rows() != g.rows() || (w.cols() != g.cols() && w.rows() > 0)) fail("size", "feature %zu output %d at cycle %lld has size %ldx%ld, its inputs say %ldx%ld", k, (int)q, t, (long)g.rows(), (long)g.cols(), (long)w.rows(), (long)w.cols());
          if (!near(g, w, tol)) fail("value", "feature %zu output %d at cycle %lld gives %s, its present inputs say %s", k, (int)q, t, str(g).c_str(), str(w).c_str());
          if (o.I(4)) { Mat g2 = un.get(q, (int)t); if (!near(g2, g, 0)) fail("value", "feature %zu output %d asked again at cycle %lld changed", k, (int)q, t); }
        }
        if (failed) { for (auto* s : un.outs) s->setReady(); for (auto* f : refs[(int)k]) { f->errorSOUT.setReady(); f->dimensionSOUT.setReady(); } if (k == 4) un.f->jacobianSOUT.setReady(); }
      } else if (o.name == "set") command(k, un, refs[(int)k], refOf, frame, active, anyActive, o, (int)t);
      else if (o.name == "heal") { for (auto* i : un.in) i->op("fail", 0, 0); }
      else if (o.name == "flags") {      // a constant selection given to the pin itself
        for (auto* i : un.in) if (i->name == "selec") { auto* s = static_cast<In<Flags>*>(i); std::string b; for (int q = 0; q < (int)o.I(2) % 9; ++q) b += o.I(1) >> q & 1 ? '1' : '0'; Flags f = o.I(2) == 9 ? Flags(true) : Flags(b.c_str()); *s->p = f; s->constant(f); ev("flags %zu", k); }
      } else if (!un.in.empty()) {
        InBase* i = un.in[(size_t)o.I(1) % un.in.size()]; if (o.name == "size" && (i->name == "selec" || !(k == 0 || k == 1 || k == 3 || k == 4))) continue;   // the others fix the size of their inputs
        i->op(o.name, o.I(2), 0); ev("%s %zu %s", o.name.c_str(), k, i->name.c_str()); if (o.name == "fail" && o.I(2)) faultFired("input_fails"); if (o.name == "size" && o.I(2)) faultFired("input_resized");
      }
    }
  }
  void command(size_t k, Unit& un, std::vector<FeatureAbstract*>& refs, std::vector<int>& refOf, std::vector<std::string>& frame, std::vector<bool>& active, bool&, const Op& o, int t) {
    long long c = o.I(1), a = o.I(2);
    if (k == 4) {                       // active joints
      InBase *s = un.in[0], *q = un.in[1]; if (!s->plugged() || !q->plugged() || s->missing() || q->missing()) return; s->touch(t); q->touch(t);
      long long dim = static_cast<In<Vec>*>(s)->at(t).size(), dq = static_cast<In<Vec>*>(q)->at(t).size(); long long id = o.I(3) ? a + 3 : a; bool bad = dim != dq || id >= dim, b = c != 0;
      bool r = raises([&] { cmd(*un.ent, "selectDof", {Value((unsigned)id), Value(b)}); }); ev("selectDof %lld %d %d", id, b, r);
      if (r != bad) fail("selectDof", "selecting joint %lld of %lld was %s", id, dim, r ? "refused" : "accepted");
      if (bad) { faultFired("selection_refused"); return; }
      if (active.size() != (size_t)dim) active.assign((size_t)dim, false);
      active[(size_t)id] = b;
      return;
    }
    if (k == 5 && c >= 4) {
      if (c == 4) { std::string n = o.I(3) ? "elsewhere" : a % 2 ? "current" : "desired"; bool r = raises([&] { cmd(*un.ent, "frame", {Value(n)}); }); if (r != (o.I(3) != 0)) fail("frame", "frame %s was %s", n.c_str(), r ? "refused" : "accepted"); if (!r) frame[0] = n; else faultFired("frame_refused"); if (cmd(*un.ent, "getFrame").stringValue() != frame[0]) fail("frame", "the frame is not the one set"); ev("frame"); }
      else {                            // keep: the reference becomes the present position
        auto* pos = static_cast<In<MH>*>(un.in[0]); if (refOf[5] < 0) { if (!raises([&] { cmd(*un.ent, "keep"); })) fail("keep", "keep without reference was accepted"); faultFired("keep_refused"); return; }
        if (pos->missing()) return; pos->touch(t); MH now = pos->at(t); cmd(*un.ent, "keep"); auto* rp = static_cast<In<MH>*>(un.in[3 + 2 * (size_t)refOf[5]]); rp->constant(now); probe("keep"); ev("keep");
      }
      return;
    }
    if (k == 11 && c >= 4) {            // the reference becomes what the two points show at present
      std::string n = o.I(3) ? "nobody" : "p6rref0"; auto* m = static_cast<In<MH>*>(un.in[0]); auto* b = static_cast<In<MH>*>(un.in[1]); if (!o.I(3) && (m->missing() || b->missing() || (m->src && m->src->moving) || (b->src && b->src->moving))) return;
      if (!o.I(3)) { m->touch(t); b->touch(t); } bool r = raises([&] { cmd(*un.ent, "initSdes", {Value(n)}); }); ev("initSdes %d", r); if (r != (o.I(3) != 0)) fail("initSdes", "keeping the present pose in %s was %s", n.c_str(), r ? "refused" : "accepted"); if (r) { faultFired("keep_refused"); return; }
      refOf[11] = 0; static_cast<In<MH>*>(un.in[5])->constant(m->at(t)); static_cast<In<MH>*>(un.in[6])->constant(b->at(t)); probe("keep_relative"); return;
    }
    if (k == 3 && c == 5) {             // the free flyer is left out of the joint limits
      auto* s = static_cast<In<Flags>*>(un.in[3]); cmd(*un.ent, "actuate"); s->constant(!Flags("111111")); ev("actuate"); return;
    }
    if (k == 11 && c == 3) {            // keep: as the reference of any point does
      auto* m = static_cast<In<MH>*>(un.in[0]); auto* b = static_cast<In<MH>*>(un.in[1]); if (refOf[11] < 0) { if (!raises([&] { cmd(*un.ent, "keep"); })) fail("keep", "keep without reference was accepted"); faultFired("keep_refused"); return; }
      if (m->missing() || b->missing()) return; m->touch(t); b->touch(t); MH M = m->at(t), B = b->at(t); cmd(*un.ent, "keep"); probe("keep"); ev("keep relative");
      if (refOf[11] == 0) { static_cast<In<MH>*>(un.in[5])->constant(M); static_cast<In<MH>*>(un.in[6])->constant(B); } else static_cast<In<MH>*>(un.in[7])->constant(M.inverse(Eigen::Affine) * B); return;
    }
    if (refs.empty()) return;
    if (c == 0) { un.f->unsetReference(); refOf[k] = -1; }
    else if (c == 1 && o.I(3)) { bool r = raises([&] { cmd(*un.ent, "setReference", {Value(std::string("nobody"))}); }); if (!r) fail("reference", "an unknown reference was accepted"); faultFired("reference_refused"); }
    else if (c == 1 && a > 6) {          // a feature of another type
      bool r = raises([&] { cmd(*un.ent, "setReference", {Value(std::string("vec3"))}); }); std::string now = cmd(*un.ent, "getReference").stringValue(); if (!r && now != "none" && now != "vec3") {}
      if (now == "vec3") fail("reference", "a reference of another type was accepted"); if (now == "none") refOf[k] = -1; faultFired("reference_of_other_type");
    } else { refOf[k] = (int)(a % 2); cmd(*un.ent, "setReference", {Value(refs[(size_t)refOf[k]]->getName())}); }
    std::string now = cmd(*un.ent, "getReference").stringValue(), want = refOf[k] < 0 ? "none" : refs[(size_t)refOf[k]]->getName();
    ev("reference %zu %d", k, refOf[k]); if (now != want) fail("reference", "the reference of feature %zu is %s, the commands ask for %s", k, now.c_str(), want.c_str());
  }
};
}  // namespace
sim::World* sim::makeWorld() { return new W; }
