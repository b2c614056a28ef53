// P14: a data file is replayed one line per cycle, whatever the disk does.
#include "dg.hh"
#include <cerrno>
#include <fstream>
#include <list>
#include <fcntl.h>
#include <unistd.h>
#include <sot/core/reader.hh>
using namespace sim;
using namespace dgw;
using dynamicgraph::sot::Flags;

namespace {
typedef std::vector<double> Line;
struct W : World {
  const char* property() const override { return "P14"; }
  const char* rule() const override {
    return "seeded histories of 5-80 operations on one reader: files of 0-12 lines (blank, comment, up to 900 numbers, cut in the middle, rewritten), loads with open failures, short, interrupted and failing "
           "reads, clears, rewinds, selections (also failing ones), skipped and repeated cycles, matrix shapes; non-trivial when a fault fired";
  }
  const char* simTimeMeaning() const override { return "control cycles"; }
  std::vector<std::string> realComponents() const override { return {"src/traces/reader.cpp", "include/sot/core/reader.hh", "src/sot/flags.cpp", "libstdc++ file streams over scratch files"}; }
  std::vector<std::string> stubComponents() const override { return {"dynamic-graph (stand-in)", "open and read system calls (fault injection)"}; }
  std::vector<std::string> assumptions() const override { return {"numbers are written in the C locale", "loading again appends to the data already loaded", "a line too short for the asked matrix shape gives no specified matrix"}; }
  static std::string line(Rng& r) {
    std::string t; int n = r.chance(1, 12) ? (int)r.range(100, 900) : (int)r.range(0, 7);
    for (int k = 0; k < n; ++k) {
      if (k || r.chance(1, 5)) t += r.chance(1, 6) ? "\t " : " ";
      switch (r.below(4)) { case 0: t += fmt("%lld", r.range(-999, 999)); break; case 1: t += fmt("%.17g", r.uniform(-10, 10)); break; case 2: t += fmt("%.3f", r.uniform(-1000, 1000)); break; default: t += fmt("%.5e", r.uniform(-1, 1) * 1e9); }
    }
    if (r.chance(1, 10)) t += " # note 12";
    if (r.chance(1, 12)) t += "\r";
    return t;
  }
  void generate(Rng& r, Plan& p) override {
    bool clean = r.chance(1, 6); int n = (int)r.range(5, 80);
    p.ops.push_back(Op("file", {0}, {}, {text(r, clean)})); p.ops.push_back(Op("load", {0, 0, 0}));
    for (int k = 0; k < n; ++k) switch (r.weighted({30, 3, 4, 2, 3, 3, clean ? 0 : 2, 4, 2})) {
      case 0: p.ops.push_back(Op("read", {r.chance(1, 6) ? r.range(2, 6) : 1})); break;
      case 1: p.ops.push_back(Op("file", {r.range(0, 1)}, {}, {text(r, clean)})); break;
      case 2: { int f = clean ? 0 : r.weighted({4, 2, 2, 3, 2}); p.ops.push_back(Op("load", {r.chance(1, 12) ? 2 : r.range(0, 1), f, r.range(0, 3), r.pick(std::vector<long long>{1, 3, 17, 100, 500, 2000})})); break; }
      case 3: p.ops.push_back(Op("clear")); break;
      case 4: p.ops.push_back(Op("rewind")); break;
      case 5: { std::string f; int m = (int)r.range(0, 8); for (int i = 0; i < m; ++i) f += r.chance(2, 3) ? '1' : '0'; p.ops.push_back(Op("select", {r.range(0, 3)}, {}, {f})); break; }
      case 6: p.ops.push_back(Op("selFail", {r.chance(1, 2)})); break;
      case 7: p.ops.push_back(Op("matrix", {r.chance(1, 8) ? r.range(-2, 0) : r.range(0, 3), r.range(0, 4)})); break;
      case 8: p.ops.push_back(Op("again")); break;
    }
  }
  static std::string text(Rng& r, bool clean) { std::string t; int n = (int)r.range(0, 12); for (int k = 0; k < n; ++k) t += line(r) + (k + 1 < n || r.chance(1, 2) ? "\n" : ""); if (!clean && r.chance(1, 6) && t.size() > 3) t.resize(r.below(t.size())); return t; }
  static std::vector<Line> parse(const std::string& c) {
    std::vector<Line> all; size_t s = 0;
    while (s < c.size()) {
      size_t e = c.find('\n', s); std::string l = c.substr(s, e == std::string::npos ? std::string::npos : e - s); s = e == std::string::npos ? c.size() : e + 1;
      Line v; const char* q = l.c_str(); char* end;
      for (;;) { while (*q == ' ' || *q == '\t' || *q == '\r') ++q; if (!(*q == '-' || *q == '+' || *q == '.' || (*q >= '0' && *q <= '9'))) break; double x = strtod(q, &end); if (end == q || *end == 'e') break; v.push_back(x); q = end; }
      if (!v.empty()) all.push_back(v);
    }
    return all;
  }
  void execute(const Plan& p) override {
    Silence quiet; sotReader rd("reader"); const char* fn[] = {"a.dat", "b.dat", "missing.dat"}; std::string content[3];
    std::list<Line> data; std::list<Line>::const_iterator at; bool started = false; int t = 0, rows = 0, cols = 0, lastRows = 0, lastCols = 0; Vec last; bool read = false, failing = false, allSel = true, tail = true; std::string sel;
    dg::SignalTimeDependent<Flags, int> src("flags"); src.setFunction([&](Flags& f, int) -> Flags& { if (failing) throw std::runtime_error("selection"); f = Flags(sel.c_str()); return f; }); src.setDependencyType(dg::TimeDependency<int>::ALWAYS_READY);
    auto picked = [&](size_t i) { return allSel ? tail : i < sel.size() && sel[i] == '1'; };
    auto matrix = [&](const char* when) {       // at the present time: what the line read gives
      lastRows = rows; lastCols = cols; Mat m = rd.matrixSOUT(t); checks();
      if (last.size() < rows * cols) return;
      if (m.rows() != rows || m.cols() != cols) { fail("matrix-shape", "%s the matrix is %dx%d instead of %dx%d", when, (int)m.rows(), (int)m.cols(), rows, cols); return; }
      for (int i = 0; i < rows; ++i) for (int j = 0; j < cols; ++j) if (m(i, j) != last(i * cols + j)) fail("matrix", "coefficient (%d,%d) of the matrix is %.17g, the line has %.17g", i, j, m(i, j), last(i * cols + j));
    };
    for (auto& o : p.ops) {
      if (o.name == "file") { size_t f = (size_t)o.I(0); content[f] = o.S(0); int fd = ::open(fn[f], O_WRONLY | O_CREAT | O_TRUNC, 0600); size_t k = 0; while (k < o.S(0).size()) { ssize_t w = ::write(fd, o.S(0).data() + k, o.S(0).size() - k); if (w <= 0) break; k += (size_t)w; } ::close(fd); ev("file %zu %zu", f, o.S(0).size()); }
      else if (o.name == "load") {
        size_t f = (size_t)o.I(0); bool open = true, whole = true; io.failOpen = io.shortRead = io.failRead = io.eintrRead = 0; io.failReadAfter = -1;
        switch (o.I(1)) { case 1: io.failOpen = 1; io.openErrno = o.I(2) & 1 ? EACCES : EMFILE; open = false; break; case 2: io.shortRead = 1 << 20; io.shortReadLen = (int)o.I(3, 1); break;
          case 3: io.shortRead = 1 << 20; io.shortReadLen = (int)o.I(3, 1); io.failReadAfter = (int)o.I(2); io.readErrno = EIO; whole = false; break; case 4: io.eintrRead = (int)o.I(2); break; }
        bool r = raises([&] { cmd(rd, "load", {Value(std::string(fn[f]))}); }); bool failed = !whole && io.failReadAfter < 0;
        io.failOpen = io.shortRead = io.failRead = io.eintrRead = 0; io.failReadAfter = -1; ev("load %zu kind %lld raised %d", f, o.I(1), r);
        if (f == 2) open = false;
        // The lines whose end was read before a read error are kept, or none of the file when the load raises.
        if (open && !r) {
          std::vector<Line> all; if (failed) { std::string c = content[f].substr(0, (size_t)o.I(2) * (size_t)o.I(3, 1)); size_t e = c.rfind('\n'); all = parse(e == std::string::npos ? std::string() : c.substr(0, e + 1)); } else all = parse(content[f]);
          for (auto& l : all) data.push_back(l);
        } else if (r && open && !failed) fail("refused", "loading a readable file raised");
      } else if (o.name == "clear") { cmd(rd, "clear"); data.clear(); started = false; ev("clear"); }
      else if (o.name == "rewind") { cmd(rd, "rewind"); started = false; ev("rewind"); }
      else if (o.name == "select") { failing = false; switch (o.I(0)) { case 0: rd.selectionSIN = Flags(true); allSel = true; tail = true; break; case 1: rd.selectionSIN.plug(&src); allSel = false; sel = o.S(0); break; case 2: rd.selectionSIN = Flags(o.S(0).c_str()); allSel = false; sel = o.S(0); break; default: rd.selectionSIN = Flags(false); allSel = true; tail = false; } ev("select"); }
      else if (o.name == "selFail") { failing = o.I(0) != 0 ; if (failing) { rd.selectionSIN.plug(&src); allSel = false; } ev("selFail %d", failing); }
      else if (o.name == "matrix") { bool bad = o.I(0) < 0 || o.I(1) < 0; bool r = raises([&] { cmd(rd, "resize", {Value((int)o.I(0)), Value((int)o.I(1))}); }); ev("resize %d", r); if (bad) faultFired("size_refused"); if (r != bad) fail("size", "a matrix of %lldx%lld was %s", o.I(0), o.I(1), r ? "refused" : "accepted"); if (!r) { rows = (int)o.I(0); cols = (int)o.I(1); } }
      else if (o.name == "again" && read) { Vec g = rd.vectorSOUT(t); checks(); if (g.size() != last.size() || !near(g, last, 0)) fail("not-once", "asked again in the same cycle, the reader moved on: %s instead of %s", str(g).c_str(), str(last).c_str()); if (lastRows == rows && lastCols == cols) matrix("asked again,"); }
      else if (o.name == "read") {
        t += (int)o.I(0); simTime((double)o.I(0)); Vec g; bool viaMatrix = rows * cols > 0 && (t % 3 == 0); std::string what;
        bool r = raises([&] { if (viaMatrix) rd.matrixSOUT(t); g = rd.vectorSOUT(t); }, &what); checks(); read = !r; ev("read %d raised %d", t, r);
        if (failing && !data.empty()) { if (!r) fail("failure-hidden", "the selection cannot be had, yet a line is given"); faultFired("selection_fails"); continue; }
        if (r) { if (failing) { faultFired("selection_fails"); continue; } fail("raised", "reading raised %s", what.c_str()); }
        if (data.empty()) { if (g.size()) fail("invented", "nothing is loaded, yet %s is given", str(g).c_str()); last = g; lastRows = lastCols = -1; continue; }
        if (!started) { at = data.begin(); started = true; } else if (std::next(at) != data.end()) ++at; else probe("end_of_data");
        Line e; for (size_t i = 0; i < at->size(); ++i) if (picked(i)) e.push_back((*at)[i]);
        Vec w = Eigen::Map<Vec>(e.data(), (long)e.size());
        if (g.size() != w.size() || !near(g, w, 0)) fail("line", "line %d of the data is %s, read as %s", (int)std::distance(data.cbegin(), at), str(w).substr(0, 200).c_str(), str(g).substr(0, 200).c_str());
        last = w; if (viaMatrix || t % 2) matrix("after a read,"); else lastRows = -1;
        cover(mix((uint64_t)w.size(), mix((uint64_t)data.size(), (uint64_t)std::distance(data.cbegin(), at))));
      }
    }
  }
};
}  // namespace
sim::World* sim::makeWorld() { return new W; }
