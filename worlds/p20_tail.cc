// P20: following a growing text file delivers every completed line once.
#include "sim.hh"
#include <cerrno>
#include <fcntl.h>
#include <iostream>
#include <list>
#include <memory>
#include <sstream>
#include <sys/stat.h>
#include <unistd.h>
#include "sot/core/contiifstream.hh"
using namespace sim;
using dynamicgraph::sot::Contiifstream;

namespace {
struct W : World {
  const char* property() const override { return "P20"; }
  const char* rule() const override {
    return "seeded interleavings of a writer (appends cut at arbitrary bytes, crash in mid-line, empty and up to 2000 byte "
           "lines) with a polling reader (restarts, reopen on another file), with open failures, short, interrupted and failing "
           "reads; non-trivial when a fault fired or the writer was scheduled inside a poll";
  }
  const char* simTimeMeaning() const override { return "no clock in this property; progress is counted in polls"; }
  std::vector<std::string> realComponents() const override { return {"src/debug/contiifstream.cpp", "include/sot/core/contiifstream.hh", "libstdc++ file streams over real scratch files"}; }
  std::vector<std::string> stubComponents() const override { return {"fopen/read/write (fault injection, preemption)", "writer process (simulated thread)"}; }
  std::vector<std::string> assumptions() const override {
    return {"lines are terminated by a newline character and hold no NUL byte", "the followed file only grows; following a rotated file needs a new open"};
  }
  void generate(Rng& r, Plan& p) override {
    int nw = (int)r.range(1, 40), np = (int)r.range(1, 30);
    p.ops.push_back(Op("pre", {}, {}, {text(r, true)}));
    bool clean = r.chance(1, 8);
    for (int k = 0; k < nw; ++k) {
      if (r.chance(1, 14)) p.ops.push_back(Op("wcrash", {}, {}, {}, 1));
      std::string t = text(r, false);
      p.ops.push_back(Op("write", {r.chance(1, 12) ? 1 : 0}, {}, {t}, 1));
    }
    for (int k = 0; k < np; ++k) {
      switch (clean ? 0 : r.weighted({40, 6, 6, 6, 6, 2, 2})) {
        case 0: p.ops.push_back(Op("poll")); break;
        case 1: p.ops.push_back(Op("poll", {1, r.pick(std::vector<long long>{ENOENT, EACCES, EMFILE})})); break;
        case 2: p.ops.push_back(Op("poll", {2, r.range(1, 3), r.range(1, 40)})); break;
        case 3: p.ops.push_back(Op("poll", {3, r.range(0, 1)})); break;
        case 4: p.ops.push_back(Op("poll", {4, r.range(1, 3)})); break;
        case 5: p.ops.push_back(Op("restart")); break;
        case 6: p.ops.push_back(Op("reopen")); break;
      }
    }
  }
  static std::string text(Rng& r, bool pre) {
    std::string t; int n = (int)r.range(0, pre ? 6 : 4);
    for (int k = 0; k < n; ++k) {
      static const int lens[] = {0, 1, 5, 30, 100, 250, 254, 255, 256, 257, 300, 511, 512, 513, 2000};
      int len = lens[r.below(15)]; if (r.chance(2, 3)) len = (int)r.below(20);
      for (int q = 0; q < len; ++q) t += (char)("abcdefghij0123456789 \t\r.,;-"[r.below(27)]);
      if (k + 1 < n || r.chance(3, 5)) t += '\n';
    }
    return t;
  }
  void execute(const Plan& p) override {
    std::string content[2]; const char* fn[2] = {"followed.txt", "second.txt"};
    int cur = 0;                      // file followed
    size_t base = 0;                  // offset from which completed lines count
    size_t delivered = 0;             // number of lines delivered since base
    std::vector<std::string> got;
    auto append = [&](int f, const std::string& t) {
      int fd = ::open(fn[f], O_WRONLY | O_CREAT | O_APPEND, 0600);
      size_t at = 0; while (at < t.size()) { ssize_t k = ::write(fd, t.data() + at, t.size() - at); if (k <= 0) break; at += (size_t)k; }
      ::close(fd); content[f] += t;
    };
    // lines of `c` whose newline lies at or after `from`
    auto expected = [&](const std::string& c, size_t from) {
      std::vector<std::string> v; size_t s = 0;
      for (size_t k = 0; k < c.size(); ++k) if (c[k] == '\n') { if (k >= from) v.push_back(c.substr(s, k - s)); s = k + 1; }
      return v;
    };
    bool preExists = true;
    for (auto& o : p.ops) if (o.name == "pre") { if (o.S(0).empty()) { preExists = false; } else append(0, o.S(0)); }
    append(1, "one\ntwo\n\nthree");
    std::unique_ptr<Contiifstream> rd(new Contiifstream(fn[0]));
    ev("first poll, file %d", (int)preExists);
    base = content[0].size(); rd->loop();
    if (rd->ready()) fail("old-line", "the first poll delivered a line that was there before");
    bool writerDone = false; bool polled = true; size_t sizeAtLastPoll = content[0].size(); bool lastClean = true;
    auto drain = [&]() {
      std::vector<std::string> e = expected(content[cur], base);
      int n = 0;
      while (rd->ready()) {
        std::string l = rd->next(); ++n; checks();
        if (delivered >= e.size()) fail(delivered && l == got[0] ? "duplicate-line" : "spurious-line", "delivered '%s' (%zu bytes) which is no new completed line", l.substr(0, 60).c_str(), l.size());
        else if (l != e[delivered]) fail("wrong-line", "line %zu delivered as '%s' (%zu bytes), the file has '%s' (%zu bytes)", delivered, l.substr(0, 60).c_str(), l.size(), e[delivered].substr(0, 60).c_str(), e[delivered].size());
        got.push_back(l); ++delivered;
      }
      return n;
    };
    auto reader = [&]() {
      for (auto& o : p.ops) {
        if (o.tid != 0) continue;
        if (o.name == "poll") {
          { NoPreempt np;
            io.failOpen = io.shortRead = io.failRead = io.eintrRead = 0;
            if (o.I(0) == 1) { io.failOpen = 1; io.openErrno = (int)o.I(1); }
            if (o.I(0) == 2) { io.shortRead = (int)o.I(1); io.shortReadLen = (int)o.I(2); }
            if (o.I(0) == 3) { io.failRead = 1 + (int)o.I(1); }
            if (o.I(0) == 4) { io.eintrRead = (int)o.I(1); } }
          size_t before = content[cur].size(), pre = slotPre();
          bool res = rd->loop();
          NoPreempt np;
          bool hit = io.opens < 0; (void)hit; (void)pre;
          if (content[cur].size() != before) probe("append_inside_poll");
          io.failOpen = io.shortRead = io.failRead = io.eintrRead = 0;
          int n = drain();
          ev("poll kind %lld -> %d lines %d", o.I(0), (int)res, n);
          if (n > 0 && !res) fail("poll-result", "a poll that queued %d lines reported nothing new", n);
          bool unchanged = before == sizeAtLastPoll && content[cur].size() == before && lastClean;
          bool tailDone = content[cur].empty() || content[cur].back() == '\n';
          if (unchanged && tailDone && res && o.I(0) != 3) fail("poll-result", "a poll of an unchanged file reported something new");
          lastClean = o.I(0) == 0 || o.I(0) == 2 || o.I(0) == 4; sizeAtLastPoll = before;
          cover(mix((uint64_t)o.I(0), mix((uint64_t)(n > 3 ? 3 : n), (uint64_t)tailDone)));
        } else if (o.name == "restart") {
          NoPreempt np;
          drain(); rd.reset(new Contiifstream(fn[cur])); faultFired("reader_restart"); rd->loop();
          base = content[cur].size(); delivered = 0; got.clear(); sizeAtLastPoll = base; lastClean = true; ev("restart");
          if (rd->ready()) fail("old-line", "the first poll after a restart delivered an old line");
        } else if (o.name == "reopen") {
          NoPreempt np;
          drain(); cur = 1 - cur; rd->open(fn[cur]); base = 0; delivered = 0; got.clear(); sizeAtLastPoll = (size_t)-1; lastClean = false; ev("reopen %d", cur);
        }
        yieldPoint();
      }
    };
    auto writer = [&]() {
      for (auto& o : p.ops) {
        if (o.tid != 1) continue;
        yieldPoint();
        NoPreempt np;
        if (o.name == "write") { append((int)o.I(0), o.S(0)); ev("write %d %zu", (int)o.I(0), o.S(0).size()); if (!o.S(0).empty() && o.S(0).back() != '\n') faultFired("torn_append"); }
        else if (o.name == "wcrash") { faultFired("writer_crash"); append(0, "#restarted\n"); ev("wcrash"); }
      }
      writerDone = true;
    };
    (void)polled;
    spawn("reader", reader); spawn("writer", writer);
    Rng sr(p.seed ^ 0x5ced5ced); runTasks(p, sr);
    // faults have stopped: two polls deliver everything completed
    io.failOpen = io.shortRead = io.failRead = io.eintrRead = 0;
    for (int k = 0; k < 2; ++k) { rd->loop(); drain(); }
    size_t want = expected(content[cur], base).size();
    checks();
    if (delivered != want) fail("lost-line", "%zu of %zu completed lines were delivered after the faults stopped", delivered, want);
    if (io.openNow > 1) fail("fd-leak", "%ld file handles are still open between polls", io.openNow);
    ev("end %zu", delivered);
  }
  static size_t slotPre() { return 0; }
};
}  // namespace
sim::World* sim::makeWorld() { return new W; }
