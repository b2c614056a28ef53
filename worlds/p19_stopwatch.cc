// P19: the profiler accounts time exactly, under a simulated clock with jumps.
#include "sim.hh"
#include <cmath>
#include <iostream>
#include <map>
#include <sstream>
#include "sot/core/stop-watch.hh"
using namespace sim;

namespace {
struct Rec {
  bool exists = false, started = false, fuzzy = false;   // fuzzy: the clock stepped while it ran
  long double startReal = 0, startCpu = 0;
  int jumpsAtStart = 0;
  long double total = 0, mn = 0, mx = 0, last = 0;
  bool mmKnown = true, lastKnown = true, totalKnown = true, minKnown = true, maxKnown = true;
  int stops = 0, parts = 0;
  bool pausedSegment = false;      // this measurement already has a paused part
};
struct W : World {
  const char* property() const override { return "P19"; }
  const char* rule() const override {
    return "seeded histories of 10-160 profiler calls (start/stop/pause/reset/on/off/report/mode) over 1-6 nested or "
           "interleaved records, on simulated wall and CPU clocks that advance, stall and step; a run is non-trivial when "
           "a clock step, CPU stall, allocation failure or misuse was injected";
  }
  std::vector<std::string> realComponents() const override { return {"src/utils/stop-watch.cpp", "include/sot/core/stop-watch.hh"}; }
  std::vector<std::string> stubComponents() const override { return {"gettimeofday/clock_gettime/clock/time (simulated clocks)", "operator new (failure injection)"}; }
  std::vector<std::string> assumptions() const override {
    return {"a measurement during which the wall clock was stepped has an unspecified value; it must not disturb any other record or later measurement",
            "last/min/max of a finished measurement made of several paused parts are unspecified, its total is the sum of its parts"};
  }
  void generate(Rng& r, Plan& p) override {
    int nrec = (int)r.range(1, 6), n = (int)r.range(10, 160), mode = (int)r.below(2);
    bool clean = r.chance(1, 8);
    p.ops.push_back(Op("config", {mode, nrec, r.chance(1, 3) ? (long long)r.range(0, 3000) : 0}));
    for (int k = 0; k < n; ++k) {
      long long rec = r.range(0, nrec - 1);
      switch (r.weighted({22, 24, 10, 3, 1, 26, 4, 3, 2, 2, 8, 3, 2, 2, 2})) {
        case 0: p.ops.push_back(Op("start", {rec})); break;
        case 1: p.ops.push_back(Op("stop", {rec})); break;
        case 2: p.ops.push_back(Op("pause", {rec})); break;
        case 3: p.ops.push_back(Op("reset", {rec})); break;
        case 4: p.ops.push_back(Op("reset_all")); break;
        case 5: { // time passes: from zero to minutes, the CPU gets a share of it
          static const long long scale[] = {0, 1000, 1000000, 20000000, 1000000000, 60000000000LL};
          long long d = r.range(0, scale[r.below(6)]); int share = (int)r.range(0, 100);
          if (!clean && r.chance(1, 6)) share = 0;
          p.ops.push_back(Op("elapse", {d / 1000 * 1000, share}));
          break;
        }
        case 6: if (!clean) { static const long long js[] = {-3600LL * 1000000000, -1000000000, -1000, 1000, 5000000000LL, 86400LL * 1000000000};
                  p.ops.push_back(Op("jump", {js[r.below(6)]})); } break;
        case 7: p.ops.push_back(Op("off")); break;
        case 8: p.ops.push_back(Op("on")); break;
        case 9: p.ops.push_back(Op("unknown", {r.range(0, 9)})); break;
        case 10: p.ops.push_back(Op("check")); break;
        case 11: p.ops.push_back(Op("report", {rec, r.range(0, 6)})); break;
        case 12: p.ops.push_back(Op("report_all", {r.range(0, 6)})); break;
        case 13: p.ops.push_back(Op("mode", {r.range(0, 1)})); break;
        case 14: if (!clean) p.ops.push_back(Op("allocfail", {r.range(0, 3), rec})); break;
      }
      if (r.chance(1, 30)) p.ops.push_back(Op("on"));
    }
    p.ops.push_back(Op("on"));
    p.ops.push_back(Op("check"));
    p.ops.push_back(Op("report_all", {4}));
  }
  void execute(const Plan& p) override {
    clk.on = true; stepLimit = 20000000;
    int mode = 1; int nrec = 6;
    for (auto& o : p.ops) if (o.name == "config") { mode = (int)o.I(0); nrec = (int)o.I(1, 6); clk.perCallNs = o.I(2); }
    Stopwatch sw(mode ? REAL_TIME : CPU_TIME);
    bool active = true; int jumps = 0;
    std::map<int, Rec> m;
    auto name = [](int k) { static const char* n[] = {"a", "ab", "My astounding algorithm", "My astounding algorithm - Main loop", "", "a b"}; return std::string(n[k % 6]); };
    long double tol = 2.5e-6L;
    auto tolFor = [&](long double v) { return tol + fabsl(v) * 1e-12L + 1e-6L * (clk.perCallNs ? 40 : 0); };
    auto now = [&](bool real) -> long double { return real ? clk.realNs / 1e9L : clk.cpuNs / 1e9L; };
    auto close = [&](long double a, long double b, int n) { checks(); return fabsl(a - b) <= tolFor(b) * (n + 1) + 1e-9L * (long double)(n + 1); };
    auto cmp = [&](const char* what, int k, long double got, long double want, int n) {
      if (!close(got, want, n))
        fail(fmt("%s-wrong", what), "%s of record '%s' is %.9Lf s, the history gives %.9Lf s", what, name(k).c_str(), got, want);
    };
    auto compare = [&](int k) {
      Rec& e = m[k];
      if (!e.exists) {
        bool threw = false;
        try { sw.get_total_time(name(k)); } catch (...) { threw = true; }
        if (sw.performance_exists(name(k))) fail("phantom-record", "record '%s' exists though it was never started", name(k).c_str());
        if (!threw) fail("unknown-accepted", "a read of the unknown record '%s' was not refused", name(k).c_str());
        checks(2); return;
      }
      if (!sw.performance_exists(name(k))) fail("lost-record", "record '%s' disappeared", name(k).c_str());
      long double tot = sw.get_total_time(name(k));
      if (e.totalKnown) cmp("total", k, tot, e.total, e.stops); else { e.total = tot; e.totalKnown = true; }
      if (e.stops > 0) {
        if (e.lastKnown) cmp("last", k, sw.get_last_time(name(k)), e.last, 0);
        if (e.minKnown) cmp("min", k, sw.get_min_time(name(k)), e.mn, 0);
        if (e.maxKnown) cmp("max", k, sw.get_max_time(name(k)), e.mx, 0);
        cmp("average", k, sw.get_average_time(name(k)), tot / e.stops, 0);
      } else if (e.totalKnown && e.lastKnown) {
        cmp("last", k, sw.get_last_time(name(k)), e.last, e.parts);   // the parts of the first measurement, so far
        checks();
        if (sw.get_min_time(name(k)) != 0 || sw.get_max_time(name(k)) != 0) fail("unmeasured-nonzero", "record '%s' has no measurement but min/max are not zero", name(k).c_str());
      }
      if (e.started && !(e.fuzzy || (mode && e.jumpsAtStart != jumps)))
        cmp("time-so-far", k, sw.get_time_so_far(name(k)), now(mode) - (mode ? e.startReal : e.startCpu), 0);
    };
    auto reportCheck = [&](std::istream& is, int k, int prec) {
      Rec& e = m[k];
      std::string line; std::getline(is, line);
      std::string nm = name(k);
      if (line.compare(0, nm.size(), nm) != 0) fail("report-name", "report line '%s' does not start with '%s'", line.c_str(), nm.c_str());
      std::istringstream ls(line.substr(nm.size()));
      long double v[4]; long long n = -1; std::string tok[5];
      for (int q = 0; q < 5; ++q) ls >> tok[q];
      if (e.stops == 0) { std::getline(is, line); return; }   // average of nothing is unspecified
      for (int q = 0; q < 4; ++q) v[q] = strtold(tok[q].c_str(), 0);
      n = atoll(tok[4].c_str());
      std::getline(is, line); long double tot = strtold(line.c_str(), 0);
      if (n != e.stops) fail("report-count", "report of '%s' says %lld measurements, %d were made", nm.c_str(), n, e.stops);
      long double rt = 0.51L * powl(10, -prec) + 1e-9L;
      auto chk = [&](const char* w, long double got, long double want) { checks(); if (fabsl(got - want * 1e3L) > rt + fabsl(want) * 1e-9L) fail("report-value", "report of '%s': %s is %.9Lf ms, getter says %.9Lf ms", nm.c_str(), w, got, want * 1e3L); };
      chk("min", v[0], sw.get_min_time(nm)); chk("avg", v[1], sw.get_average_time(nm)); chk("max", v[2], sw.get_max_time(nm));
      chk("last", v[3], sw.get_last_time(nm)); chk("total", tot, sw.get_total_time(nm));
    };
    for (auto& o : p.ops) {
      int k = (int)o.I(0) % 6;
      if (o.name == "elapse") {
        long long d = o.I(0), c = d / 100 * o.I(1, 100); c = c / 1000 * 1000;
        if (d > 0 && o.I(1, 100) == 0) faultFired("cpu_stall");
        advance(d, c); ev("elapse %lld %lld", d, c);
      } else if (o.name == "jump") { jump(o.I(0)); ++jumps; ev("jump %lld", o.I(0)); }
      else if (o.name == "on" || o.name == "off") { if (o.name == "on") sw.turn_on(); else sw.turn_off(); active = o.name == "on"; ev("switch %d", active); }
      else if (o.name == "mode") {
        bool any = false; for (auto& e : m) if (e.second.started) any = true;
        if (any) continue;   // the mode may only change between measurements
        mode = (int)o.I(0); sw.set_mode(mode ? REAL_TIME : CPU_TIME); ev("mode %d", mode);
      } else if (o.name == "start" || o.name == "allocfail") {
        if (o.name == "allocfail") k = (int)o.I(1) % 6;
        if (k >= nrec) continue;
        Rec& e = m[k]; bool failed = false;
        if (o.name == "allocfail") {
          std::string nm = name(k);
          try { AllocFault f(o.I(0)); sw.start(nm); } catch (const std::bad_alloc&) { failed = true; }
        } else sw.start(name(k));
        ev("start %d %d %d", k, active, failed);
        if (failed) {
          // all or nothing: an aborted start leaves the old measurement
          if (!e.exists && sw.performance_exists(name(k))) { e = Rec(); e.exists = true; }
          continue;
        }
        if (!active) continue;
        if (!e.exists) { e = Rec(); e.exists = true; }
        e.started = true; e.fuzzy = false; e.jumpsAtStart = jumps; e.startReal = now(true); e.startCpu = now(false);
        long long gap = 0; (void)gap;
      } else if (o.name == "stop" || o.name == "pause") {
        if (k >= nrec) continue;
        Rec& e = m[k]; bool stop = o.name == "stop"; bool threw = false;
        if (e.exists && e.started && active && !stop && false) continue;
        try { if (stop) sw.stop(name(k)); else sw.pause(name(k)); } catch (const StopwatchException&) { threw = true; }
        ev("%s %d %d", o.name.c_str(), k, threw);
        checks();
        if (!active) { if (threw) fail("off-throws", "%s threw while the profiler was off", o.name.c_str()); continue; }
        if (!e.exists) { faultFired("misuse_unknown_record"); if (!threw) fail("unknown-accepted", "%s of the unknown record '%s' was not refused", o.name.c_str(), name(k).c_str()); continue; }
        if (threw) fail("known-refused", "%s of the existing record '%s' was refused", o.name.c_str(), name(k).c_str());
        if (!e.started) continue;   // reset in between: nothing to add
        long double lapse = now(mode) - (mode ? e.startReal : e.startCpu);
        bool fuzzy = mode && e.jumpsAtStart != jumps;
        if (fuzzy) {
          probe("measurement_across_clock_step");
          e.totalKnown = e.lastKnown = e.minKnown = e.maxKnown = false;
          if (stop) e.stops++;
          compare(k);   // resynchronises the total
          e.pausedSegment = !stop;
        } else if (!stop) {
          e.total += lapse; if (e.stops == 0) e.last += lapse; else e.lastKnown = false; e.pausedSegment = true; ++e.parts; probe("paused_measurement");
          // a pause ends the part: the generator may stop without a restart
        } else {
          e.stops++; e.total += lapse;
          if (e.pausedSegment) { e.lastKnown = e.minKnown = e.maxKnown = false; }
          else {
            e.last = lapse; e.lastKnown = true;
            if (e.stops == 1) { e.mn = e.mx = lapse; }
            else { if (lapse < e.mn) e.mn = lapse; if (lapse > e.mx) e.mx = lapse; }
          }
          e.pausedSegment = false;
        }
        compare(k);
        // stopping or pausing again without a new start is outside the contract:
        // restart the record so that the next one is well defined
        sw.start(name(k)); e.startReal = now(true); e.startCpu = now(false); e.jumpsAtStart = jumps; e.fuzzy = false; e.started = true;
      } else if (o.name == "reset") {
        if (k >= nrec) continue;
        Rec& e = m[k]; bool threw = false; try { sw.reset(name(k)); } catch (const StopwatchException&) { threw = true; }
        ev("reset %d %d", k, threw); checks();
        if (!active) { if (threw) fail("off-throws", "reset threw while the profiler was off"); continue; }
        if (!e.exists) { if (!threw) fail("unknown-accepted", "reset of the unknown record '%s' was not refused", name(k).c_str()); continue; }
        if (threw) fail("known-refused", "reset of an existing record was refused");
        e = Rec(); e.exists = true; compare(k);
      } else if (o.name == "reset_all") {
        sw.reset_all(); ev("reset_all");
        if (active) for (auto& e : m) if (e.second.exists) { e.second = Rec(); e.second.exists = true; }
      } else if (o.name == "unknown") {
        bool threw = false; ev("unknown");
        try { switch (o.I(0)) { case 0: sw.get_total_time("zzz"); break; case 1: sw.get_min_time("zzz"); break; case 2: sw.get_max_time("zzz"); break; case 3: sw.get_last_time("zzz"); break;
            case 4: sw.get_average_time("zzz"); break; case 5: sw.get_time_so_far("zzz"); break; case 6: sw.stop("zzz"); break; case 7: sw.pause("zzz"); break; case 8: sw.reset("zzz"); break;
            default: { std::ostringstream os; sw.report("zzz", 2, os); } } }
        catch (const StopwatchException&) { threw = true; }
        bool offIgnored = !active && o.I(0) >= 6;
        checks(); faultFired("misuse_unknown_record");
        if (!threw && !offIgnored) fail("unknown-accepted", "call %lld on an unknown record was not refused", o.I(0));
        if (threw && offIgnored) fail("off-throws", "call %lld threw while the profiler was off", o.I(0));
        if (sw.performance_exists("zzz")) fail("phantom-record", "a refused call created a record");
      } else if (o.name == "check") { ev("check"); for (int q = 0; q < nrec; ++q) compare(q); }
      else if (o.name == "report") {
        if (k >= nrec || !m[k].exists) continue;
        std::ostringstream os; sw.report(name(k), (int)o.I(1, 2), os); ev("report %d", k);
        checks();
        if (!active) { if (!os.str().empty()) fail("off-output", "a report was printed while the profiler was off"); continue; }
        std::istringstream is(os.str()); reportCheck(is, k, (int)o.I(1, 2));
      } else if (o.name == "report_all") {
        std::ostringstream os; sw.report_all((int)o.I(0, 2), os); ev("report_all"); checks();
        if (!active) { if (!os.str().empty()) fail("off-output", "a report was printed while the profiler was off"); continue; }
        std::istringstream is(os.str()); std::string l; std::getline(is, l); std::getline(is, l);
        std::map<std::string, int> order; for (auto& e : m) if (e.second.exists) order[name(e.first)] = e.first;
        for (auto& e : order) reportCheck(is, e.second, (int)o.I(0, 2));
        std::getline(is, l);
        if (is) fail("report-extra", "report of all records has an extra line '%s'", l.c_str());
      }
      uint64_t h = active + 2 * mode; for (auto& e : m) h = mix(h, (uint64_t)(e.second.exists + 2 * e.second.started + 4 * (e.second.stops > 2 ? 2 : e.second.stops) + 16 * e.second.pausedSegment + 32 * e.second.lastKnown));
      cover(h);
    }
  }
};
}  // namespace
sim::World* sim::makeWorld() { return new W; }
