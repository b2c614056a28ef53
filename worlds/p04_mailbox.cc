// P04: a control thread reads a mailbox that other threads write.
#include "dg.hh"
#include <sot/core/mailbox-vector.hh>
using namespace sim;
using namespace dgw;
using dynamicgraph::sot::MailboxVector;

namespace {
struct Post { long long id; int len; long long t0, t1; uint64_t s, e; bool done; };
struct W : World {
  const char* property() const override { return "P04"; }
  const char* rule() const override {
    return "seeded interleavings (at memory-access granularity) of one or two posting threads and one control thread: 1-12 posts of 0-40 "
           "coordinates each, 2-25 control cycles reading the three signals in any order, clock advances and steps, posters stalled in the "
           "middle of a post; non-trivial when a read met a post in progress or a poster was stalled";
  }
  const char* simTimeMeaning() const override { return "simulated seconds of the poster's clock"; }
  std::vector<std::string> realComponents() const override { return {"include/sot/core/mailbox.hxx", "include/sot/core/mailbox.hh", "src/tools/mailbox-vector.cpp", "Eigen", "Boost.Thread mutex code"}; }
  std::vector<std::string> stubComponents() const override { return {"dynamic-graph (stand-in)", "pthread mutexes, threads, gettimeofday (simulated)"}; }
  std::vector<std::string> assumptions() const override { return {"one control thread evaluates the signals, at increasing control times from 1 on", "sequentially consistent memory between preemption points"}; }
  void generate(Rng& r, Plan& p) override {
    int np = r.chance(1, 4) ? 2 : 1; bool clean = r.chance(1, 10);
    p.ops.push_back(Op("setup", {np, r.range(0, 2000)}));
    long long id = 0; int fixed = r.chance(1, 2) ? (int)r.range(1, 40) : -1;
    for (int k = 0; k < np; ++k) {
      int n = (int)r.range(1, 12);
      for (int q = 0; q < n; ++q) {
        if (r.chance(1, 3)) p.ops.push_back(Op("adv", {r.chance(1, 2) ? r.range(1, 3000000) : r.range(1, 3000000000LL)}, {}, {}, 1 + k));
        if (!clean && r.chance(1, 10)) p.ops.push_back(Op("jump", {r.range(-5000000000LL, 5000000000LL)}, {}, {}, 1 + k));
        p.ops.push_back(Op("post", {id++, fixed >= 0 ? fixed : r.range(0, 40)}, {}, {}, 1 + k));
      }
    }
    int nc = (int)r.range(2, 25); long long t = r.range(1, 3);
    if (r.chance(1, 2)) p.ops.push_back(Op("updated"));
    for (int k = 0; k < nc; ++k) {
      p.ops.push_back(Op("cycle", {t, r.range(0, 7)})); t += r.chance(1, 8) ? r.range(1, 5) : 1;
      if (r.chance(1, 3)) p.ops.push_back(Op("updated"));
      if (!clean && r.chance(1, 8)) p.ops.push_back(Op("stall", {r.range(1, np), r.chance(2, 3), r.chance(1, 2)}));
    }
  }
  static double val(long long id, int k) { return k == 0 ? (double)id + 1 : ((double)(id + 1) * 1000 + k) * (k % 2 ? 1 : -0.5); }
  static long long us(const timeval& t) { return (long long)t.tv_sec * 1000000 + t.tv_usec; }
  static long long nowUs() { return clk.realNs / 1000; }
  std::vector<Post> posts; int active = 0; uint64_t starts = 0;
  void execute(const Plan& p) override {
    Silence quiet; clk.on = true; int np = 1;
    for (auto& o : p.ops) if (o.name == "setup") { np = (int)o.I(0); clk.perCallNs = o.I(1); }
    MailboxVector* box = new MailboxVector("mail");
    for (const char* n : {"sout", "object", "timestamp"}) if (!box->hasSignal(n)) fail("no-signal", "the mailbox offers no signal called %s", n);
    if (box->hasBeenUpdated()) fail("updated", "hasBeenUpdated says true before anything was posted");
    for (auto& o : p.ops) if (o.name == "post") posts.resize(posts.size() + 1), posts.back() = Post{o.I(0), (int)o.I(1), 0, 0, 0, 0, false};
    auto find = [&](long long id) -> Post* { for (auto& x : posts) if (x.id == id) return &x; return NULL; };
    std::vector<int> poster((size_t)np + 1, -1);
    auto postBody = [&](int me) {
      for (auto& o : p.ops) {
        if (o.tid != me) continue;
        yieldPoint();
        if (o.name == "adv") { NoPreempt n; advance(o.I(0), 0); simTime((double)o.I(0) * 1e-9); }
        else if (o.name == "jump") { NoPreempt n; if (np == 1) { jump(o.I(0)); faultFired("clock_step"); } }
        else if (o.name == "post") {
          Vec v; Post* x;
          { NoPreempt n; x = find(o.I(0)); v.resize(x->len); for (int k = 0; k < x->len; ++k) v[k] = val(x->id, k); x->t0 = nowUs(); x->s = eventSeq() + 1; ++active; ++starts; ev("post %lld begins", x->id); }
          box->post(v);
          { NoPreempt n; x->t1 = nowUs(); x->done = true; x->e = eventSeq() + 1; --active; ev("post %lld ends", x->id); v.resize(0); }
        }
      }
    };
    const Post* last = NULL; bool none = true, sure = true;    // newest value read so far
    auto latest = [&](const Post* x) {            // may x be the content of the idle box?
      if (!x->done) return false;
      for (auto& y : posts) if (y.done && y.s > x->e) return false;
      return true;
    };
    auto anyDone = [&] { for (auto& y : posts) if (y.done) return true; return false; };
    auto judge = [&](const Vec* v, const timeval* ts, bool quietRead) -> const Post* {
      checks(); const Post* x = NULL;
      if (v) {
        if (v->size() == 0) { bool some = false; for (auto& y : posts) if (y.len == 0 && y.s) some = true; if (!some && !none) fail("value-lost", "an empty value was read after one that was posted"); }
        else {
          double d = (*v)[0]; x = d >= 1 && d < 1e6 ? find((long long)d - 1) : NULL;
          if (!x || !x->s) { fail("torn-value", "a value nobody posted was read: %s", str(*v).substr(0, 200).c_str()); return NULL; }
          if (v->size() != x->len) fail("torn-value", "post %lld of %d coordinates was read as %d", x->id, x->len, (int)v->size());
          for (int k = 0; k < v->size(); ++k) if ((*v)[k] != val(x->id, k)) { fail("torn-value", "coordinate %d of post %lld holds %.17g", k, x->id, (*v)[k]); break; }
        }
      }
      if (ts) {
        long long u = us(*ts); const Post* y = NULL; bool match = false;
        if (v && v->size()) { match = u >= x->t0 && (u <= x->t1 || !x->done); if (!match) fail("wrong-timestamp", "post %lld made between %lld and %lld us was read with the time stamp %lld", x->id, x->t0, x->t1, u); }
        else {
          if (u == 0) match = none;
          for (auto& z : posts) if (z.s && u >= z.t0 && (!z.done || u <= z.t1) && (!v || z.len == 0)) { y = &z; match = true; }
          if (!match) fail("wrong-timestamp", "a time stamp of no post, %lld us, was read", u);
          if (!x && y) { int n = 0; for (auto& z : posts) if (z.s && u >= z.t0 && (!z.done || u <= z.t1) && (!v || z.len == 0)) ++n; if (n == 1) x = y; }
        }
      }
      if (x) {
        if (last && x != last && x->done && x->e < last->s) fail("went-backwards", "post %lld was read after the newer post %lld", x->id, last->id);
        if (quietRead && !latest(x)) fail("stale-read", "post %lld was read though a newer one was complete and nobody was posting", x->id);
        last = x; none = false; sure = true;
      } else if (quietRead && anyDone() && v && v->size() == 0) {
        bool ok = false; for (auto& y : posts) if (y.len == 0 && latest(&y)) ok = true;
        if (!ok) fail("stale-read", "nothing was read though a post was complete and nobody was posting");
      }
      if (!x) { sure = false; if ((v && v->size()) || (ts && us(*ts))) none = false; }   // which post this was cannot be told
      return x;
    };
    auto cycle = [&](int t, int how) {
      uint64_t before; bool q;
      Vec v; timeval ts;
      { NoPreempt n; before = starts; q = active == 0; memset(&ts, 0, sizeof ts); }
      bool gotV = how != 3, gotT = how != 2; 
      if (how == 0) { v = box->objSOUT(t); ts = box->timeSOUT(t); }
      else if (how == 1) { ts = box->timeSOUT(t); v = box->objSOUT(t); }
      else if (how == 2) v = box->objSOUT(t);
      else if (how == 3) ts = box->timeSOUT(t);
      else if (how == 4) { const MailboxVector::sotTimestampedObject& o = box->SOUT(t); v = o.obj; ts = o.timestamp; }
      else if (how == 5) { const MailboxVector::sotTimestampedObject& o = box->SOUT(t); ts = o.timestamp; v = box->objSOUT(t); }
      else { v = box->objSOUT(t); yieldPoint(); ts = how == 6 ? box->timeSOUT(t) : box->SOUT(t).timestamp; }
      NoPreempt n; q = q && starts == before;
      if (!q) probe("read_met_post");
      const Post* x = judge(gotV ? &v : NULL, gotT ? &ts : NULL, q);
      ev("cycle %d how %d -> %lld quiet %d", t, how, x ? x->id : -1, (int)q);
      cover(mix((uint64_t)how, mix((uint64_t)q, mix((uint64_t)(x && !x->done), (uint64_t)(x ? x->len : -1)))));
      v.resize(0);
    };
    int lastT = 0; bool stalledNow = false; bool readerDone = false; int stallAtClock = -1;
    onClockRead = [&] {
      { NoPreempt n; if (stallAtClock < 0 || self() != stallAtClock || readerDone) return; stalledNow = true; stallAtClock = -1; faultFired("poster_stalled"); probe("stalled_inside_post"); }
      blockUntil([&] { return !stalledNow; }, "stalled in a post");
    };
    auto reader = [&]() {
      for (auto& o : p.ops) {
        if (o.tid != 0) continue;
        yieldPoint();
        if (o.name == "cycle") { lastT = (int)o.I(0); cycle(lastT, (int)o.I(1)); }
        else if (o.name == "updated") {
          uint64_t before; bool q; { NoPreempt n; before = starts; q = active == 0; }
          bool u = box->hasBeenUpdated();
          NoPreempt n; q = q && starts == before; ev("updated -> %d", (int)u);
          if (q && np == 1) {
            const Post* l = NULL; for (auto& y : posts) if (y.done) l = &y;
            bool dup = false; for (auto& y : posts) if (y.len == 0 || clk.perCallNs < 1000) dup = true;   // empty values may not be told apart
            if (!dup && (sure || none)) { checks(); if (u != (l != last)) fail("updated", "hasBeenUpdated says %d, the last post is %lld, the last read %lld", (int)u, l ? l->id : -1, last ? last->id : -1); }
          }
        } else if (o.name == "stall") {
          NoPreempt n; int k = (int)o.I(0), t = poster[(size_t)k];
          // A poster stopped for ever inside the few instructions of the mutex
          // library itself would block any try_lock: it is stopped where it
          // holds no such lock now, or else at its next time stamp.
          if (t >= 0 && !taskDone(t)) {
            if (!o.I(1)) { stallTask(t, false); stallAtClock = -1; stalledNow = false; }
            else if (o.I(2) || heldMutexes(t)) stallAtClock = t;
            else { stallTask(t, true); faultFired("poster_stalled"); if (active) probe("stalled_inside_post"); }
          }
        }
      }
      NoPreempt n; readerDone = true; stalledNow = false; for (int k : poster) if (k >= 0) stallTask(k, false);
    };
    for (int k = 1; k <= np; ++k) poster[(size_t)k] = spawn(fmt("poster%d", k), [&postBody, k] { postBody(k); });
    spawn("control", reader);
    Rng sr(p.seed ^ 0xb0cc5); runTasks(p, sr);
    (void)readerDone;
    for (int k = 0; k < 2; ++k) cycle(++lastT, k == 0 ? 0 : 1);
    if (!posts.empty() && anyDone() && last && !latest(last)) fail("lost-post", "post %lld is still read after the last one was complete", last->id);
    if (box->hasBeenUpdated()) fail("updated", "hasBeenUpdated says true right after a read");
    delete box;
  }
};
}  // namespace
sim::World* sim::makeWorld() { return new W; }
