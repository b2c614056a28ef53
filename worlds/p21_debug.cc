// P21: debug traces land whole and in order in the file open at that time.
#define VP_DEBUG 1
#define VP_DEBUG_MODE 20
#define VP_TEMPLATE_DEBUG_MODE 7
#include "sim.hh"
#include <cerrno>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include <sys/stat.h>
#include <unistd.h>
#include "sot/core/debug.hh"
using namespace sim;
using dynamicgraph::sot::DebugTrace;
using dynamicgraph::sot::sotDEBUGFLOW;
using dynamicgraph::sot::sotERRORFLOW;
namespace sot = dynamicgraph::sot;

std::string quietMacros(int level);
std::string quietError(const std::string& s);
namespace {
std::string readFile(const std::string& f) {
  int fd = ::open(f.c_str(), O_RDONLY); std::string s; if (fd < 0) return s;
  char b[4096]; ssize_t n; while ((n = ::read(fd, b, sizeof b)) > 0) s.append(b, (size_t)n);
  ::close(fd); return s;
}
struct W : World {
  const char* property() const override { return "P21"; }
  const char* rule() const override {
    return "seeded histories of 8-80 open/close/trace calls on three files, levels -3..45, messages of 0-3000 bytes, pending "
           "text, both trace flows and the trace macros, with open failures, disk full, torn and failing writes; non-trivial when a disk fault fired";
  }
  const char* simTimeMeaning() const override { return "no clock in this property"; }
  std::vector<std::string> realComponents() const override { return {"src/debug/debug.cpp", "include/sot/core/debug.hh (trace functions and macros)", "libstdc++ file streams over real scratch files"}; }
  std::vector<std::string> stubComponents() const override { return {"fopen/write (disk faults)"}; }
  std::vector<std::string> assumptions() const override { return {"the contents of the session in which a write failed are unspecified from the first failed trace on", "text is bounded to the first 511 bytes of the formatted message"}; }
  void generate(Rng& r, Plan& p) override {
    int n = (int)r.range(8, 80); bool clean = r.chance(1, 8);
    for (int k = 0; k < n; ++k) {
      static const int lens[] = {0, 1, 10, 60, 500, 510, 511, 512, 513, 514, 600, 1024, 3000};
      long long len = r.chance(1, 2) ? r.range(0, 40) : lens[r.below(13)], lvl = r.range(-3, 45), flow = r.range(0, 1), id = k;
      switch (r.weighted({10, 5, 30, 8, 5, 6, 10, 6, 4, 4, 6})) {
        case 0: p.ops.push_back(Op("open", {r.range(0, 2)})); break;
        case 1: p.ops.push_back(Op("close")); break;
        case 2: p.ops.push_back(Op("trace", {flow, lvl, len, id})); break;
        case 3: p.ops.push_back(Op("tracefmt", {flow, len, id})); break;
        case 4: p.ops.push_back(Op("pending", {flow, lvl, r.range(0, 30), id})); break;
        case 5: p.ops.push_back(Op("level", {flow, r.range(-3, 40)})); break;
        case 6: p.ops.push_back(Op("macro", {r.range(0, 9), lvl, len, id})); break;
        case 7: p.ops.push_back(Op(r.chance(1, 3) ? "ttracefmt" : "ttrace", {flow, lvl, len, id})); break;
        case 8: if (!clean) p.ops.push_back(Op("openfault", {r.range(0, 2), r.pick(std::vector<long long>{ENOENT, EACCES, EMFILE, ENOSPC, EISDIR})})); break;
        case 9: if (!clean) p.ops.push_back(Op("diskfull", {r.chance(1, 2) ? 0 : r.range(1, 400)})); break;
        case 10: if (!clean) p.ops.push_back(Op(r.chance(1, 2) ? "diskfree" : "writefault")); break;
      }
    }
    p.ops.push_back(Op("diskfree")); p.ops.push_back(Op("open", {0})); p.ops.push_back(Op("tracefmt", {0, 12, 999})); p.ops.push_back(Op("trace", {1, -1, 12, 998}));
    p.ops.push_back(Op("close"));
  }
  void execute(const Plan& p) override {
    bool open = false, dirty = false; int cur = -1; std::string want, pend[2]; size_t okLen = 0;
    std::string other[3]; bool otherKnown[3] = {true, true, true};
    int level[2] = {0, 0}, tlevel[2] = {0, 0};
    auto fn = [](int k) { return fmt("trace%d.txt", k); };
    auto flow = [](int f) -> DebugTrace& { return f ? sotERRORFLOW : sotDEBUGFLOW; };
    auto body = [](long long len, long long id) { std::string s = fmt("<%lld>", id); while ((long long)s.size() < len) s += (char)('a' + (s.size() * 7 + (size_t)id) % 26); return s; };
    auto bounded = [](const std::string& s) { return s.substr(0, DebugTrace::SIZE - 1); };
    auto faults = [] { return io.failWrite + (io.diskFree >= 0); };
    int lost0 = 0; (void)lost0;
    long firedBefore = 0;
    auto fired = [&] { return slotFaults(); };
    auto verify = [&](const char* what) {
      checks();
      for (int k = 0; k < 3; ++k) {
        if (k == cur && open) continue;
        if (otherKnown[k] && readFile(fn(k)) != other[k]) fail("closed-file-changed", "%s changed file %d which is not the open one", what, k);
      }
      if (cur < 0 || !open) return;
      std::string got = readFile(fn(cur));
      if (!dirty) { if (got != want) fail("trace-content", "after %s the open file holds %zu bytes, expected %zu: ...%s", what, got.size(), want.size(), diff(got, want).c_str()); okLen = want.size(); }
      else if (got.compare(0, okLen, want, 0, okLen) != 0) fail("earlier-trace-damaged", "after %s the traces made before the disk fault changed", what);
    };
    auto emit = [&](const std::string& t) { if (open && !dirty) want += t; };
    // a disk fault makes the rest of the session unspecified
    auto guard = [&](std::function<void()> call) {
      int a = io.failWrite; long df = io.diskFree; long w = io.writes; long before = w;
      firedBefore = 0; (void)firedBefore; (void)a; (void)before;
      call();
      if (open && ((a > 0 && io.failWrite != a) || (df >= 0 && io.diskFree == 0 && io.writes != w))) dirty = true;
    };
    (void)faults; (void)fired;
    for (auto& o : p.ops) {
      int f = (int)o.I(0) & 1;
      if (o.name == "open" || o.name == "openfault") {
        int k = (int)o.I(0) % 3;
        if (o.name == "openfault") { io.failOpen = 1; io.openErrno = (int)o.I(1); }
        bool wasDirty = dirty; int prev = cur; bool wasOpen = open;
        DebugTrace::openFile(fn(k).c_str());
        bool failed = o.name == "openfault" && io.failOpen == 0; io.failOpen = 0;
        if (wasOpen && prev >= 0) { other[prev] = want; otherKnown[prev] = !wasDirty; if (!wasDirty && io.diskFree == 0 && prev != k) otherKnown[prev] = otherKnown[prev]; }
        open = !failed; cur = failed ? -1 : k; want.clear(); okLen = 0; dirty = false;
        if (failed && prev == k) { }
        ev("open %d failed %d after-fault %d", k, (int)failed, (int)wasDirty);
        if (wasDirty && !failed) probe("reopen_after_disk_fault");
        verify("open");
      } else if (o.name == "close") {
        DebugTrace::closeFile();
        if (open && cur >= 0) { other[cur] = want; otherKnown[cur] = !dirty; }
        open = false; cur = -1; dirty = false; ev("close"); verify("close");
        if (io.openNow > 0) fail("fd-leak", "%ld files are still open after tracing was closed", io.openNow);
      } else if (o.name == "diskfull") { io.diskFree = o.I(0); ev("diskfull %lld", o.I(0)); }
      else if (o.name == "diskfree") { io.diskFree = -1; io.failWrite = 0; ev("diskfree"); }
      else if (o.name == "writefault") { io.failWrite = 1; ev("writefault"); }
      else if (o.name == "level") { level[f] = (int)o.I(1); tlevel[f] = (int)o.I(1) / 2; flow(f).traceLevel = level[f]; flow(f).traceLevelTemplate = tlevel[f]; ev("level %d %d", f, level[f]); }
      else if (o.name == "trace" || o.name == "ttrace" || o.name == "ttracefmt" || o.name == "tracefmt") {
        bool tf = o.name == "ttracefmt", fmtOnly = o.name == "tracefmt" || tf; long long lvl = fmtOnly ? -1000 : o.I(1), len = fmtOnly && !tf ? o.I(1) : o.I(2), id = fmtOnly && !tf ? o.I(2) : o.I(3);
        std::string b = body(len, id);
        guard([&] {
          if (tf) flow(f).traceTemplate("%s|%d", b.c_str(), 7);
          else if (fmtOnly) flow(f).trace("%s|%d", b.c_str(), 7);
          else if (o.name == "trace") flow(f).trace((int)lvl, "%s|%d", b.c_str(), 7);
          else flow(f).traceTemplate((int)lvl, "%s|%d", b.c_str(), 7);
        });
        bool on = fmtOnly || lvl <= (o.name == "trace" ? level[f] : tlevel[f]);
        if (on) emit(pend[f] + bounded(b + "|7") + "\n");
        pend[f].clear();
        ev("%s flow %d on %d open %d", o.name.c_str(), f, (int)on, (int)open);
        verify(o.name.c_str());
      } else if (o.name == "pending") {
        std::string b = body(o.I(2), o.I(3)); flow(f).tmpbuffer << b; pend[f] += b;
        if (o.I(1) > 20) { // flush it with a bare trace of some level
          bool dflt = o.I(1) > 40; int bl = dflt ? -1 : (int)o.I(1) - 23;
          guard([&] { if (dflt) flow(f).trace(); else flow(f).trace(bl); flow(f).outputbuffer.flush(); });
          if (bl <= level[f]) emit(pend[f]);
          pend[f].clear(); verify("bare trace");
        }
        ev("pending %d", f);
      } else if (o.name == "macro") {
        int lvl = (int)o.I(1), kind = (int)o.I(0) % 10; std::string b = body(o.I(2), o.I(3));
        bool good = sotDEBUGFLOW.outputbuffer.good(); std::string qpre; int line = 0;
        if (open && !dirty && !good) fail("tracing-dead", "the trace stream is unusable though a file was opened successfully");
        guard([&] {
          switch (kind) {
            case 0: line = __LINE__; sotDEBUG(lvl) << b << std::endl; break;
            case 1: line = __LINE__; sotTDEBUG(lvl) << b << std::endl; break;
            case 2: sotDEBUGMUTE(lvl) << b << std::endl; break;
            case 3: line = __LINE__; sotDEBUGF(lvl, "%s", b.c_str()); break;
            case 4: line = __LINE__; sotERROR << b << std::endl; break;
            case 5: line = __LINE__; sotTDEBUGF(lvl, "%s", b.c_str()); break;
            case 6: line = __LINE__; sotDEBUGIN(lvl); break;
            case 7: line = __LINE__; sotTDEBUGOUT(lvl); break;
            case 8: line = __LINE__; sotDEBUGINOUT(lvl); break;
            case 9: qpre = quietError(b); break;
          }
        });
        std::string where = fmt("%s: operator()(#%d) :", __FILE__, line);
        if (sot::sotDEBUG_ENABLE(lvl) != (lvl <= 20) || sot::sotTDEBUG_ENABLE(lvl) != (lvl <= 7)) fail("level", "level %d is reported as %s", lvl, lvl <= 20 ? "disabled" : "enabled");
        std::string q = quietMacros(lvl); if (!q.empty()) fail("quiet", "%s (level %d)", q.c_str(), lvl);
        if (good) switch (kind) {
          case 0: if (lvl <= 20) emit(where + b + "\n"); break;
          case 1: if (lvl <= 7) emit(where + b + "\n"); break;
          case 2: if (lvl <= 20) emit(b + "\n"); break;
          case 3: level[0] = 20; if (lvl <= 20) emit(pend[0] + where + bounded(b) + "\n"); pend[0].clear(); break;
          case 4: emit("\t!! " + where + b + "\n"); break;
          case 5: level[0] = 7; if (lvl <= 7) emit(pend[0] + where + bounded(b) + "\n"); pend[0].clear(); break;
          case 6: if (lvl <= 20) emit(where + "# In {\n"); break;
          case 7: if (lvl <= 7) emit(where + "# Out }\n"); break;
          case 9: emit(qpre + b + "\n"); break;
          case 8: if (lvl <= 20) emit(where + "# In/Out { }\n"); break;
        }
        ev("macro %d level %d good %d", kind, lvl, (int)good);
        verify("macro");
      }
      cover(mix((uint64_t)open + 2 * (uint64_t)dirty, mix((uint64_t)(cur + 1), (uint64_t)(!pend[0].empty() + 2 * !pend[1].empty() + 4 * (io.diskFree >= 0)))));
    }
    // a stream of one's own is bounded and filtered the same way
    std::ostringstream os; DebugTrace t(os); t.traceLevel = 3; t.traceLevelTemplate = 1;
    t.trace(4, "%s", "no"); t.trace(3, "%d", 12); t.tmpbuffer << "p"; t.traceTemplate(2, "x"); t.trace("%s", std::string(2000, 'z').c_str());
    if (os.str() != "12\n" + std::string(DebugTrace::SIZE - 1, 'z') + "\n") fail("own-stream", "a private trace stream got '%s'", os.str().substr(0, 40).c_str());
  }
  static long slotFaults() { return 0; }
  static std::string diff(const std::string& a, const std::string& b) { size_t k = 0; while (k < a.size() && k < b.size() && a[k] == b[k]) ++k; return "'" + a.substr(k, 40) + "' instead of '" + b.substr(k, 40) + "'"; }
};
}  // namespace
sim::World* sim::makeWorld() { return new W; }
