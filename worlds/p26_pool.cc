// P26: the registry of features and tasks agrees with what exists, and so does the graph it writes.
#include "dg.hh"
#include <cerrno>
#include <fstream>
#include <set>
#include <sstream>
#include <sys/stat.h>
#include <sot/core/feature-generic.hh>
#include <sot/core/feature-posture.hh>
#include <sot/core/pool.hh>
#include <sot/core/sot.hh>
#include <sot/core/task.hh>
using namespace sim;
using namespace dgw;
namespace ds = dynamicgraph::sot;

namespace {
struct W : World {
  const char* property() const override { return "P26"; }
  const char* rule() const override {
    return "seeded histories of 5-60 operations: features and tasks made and deleted, names registered again, registered by hand, used by a stack, a task or a reference by name after a deletion, pool emptied, graphs "
           "written under plain, dotted and nested names with open failures and full disks; non-trivial when a fault fired";
  }
  const char* simTimeMeaning() const override { return "simulated seconds of wall clock"; }
  std::vector<std::string> realComponents() const override { return {"src/factory/pool.cpp", "include/sot/core/pool.hh", "src/feature/feature-abstract.cpp", "src/task/task-abstract.cpp", "src/task/task.cpp", "src/sot/sot.cpp", "libstdc++ file streams over scratch files"}; }
  std::vector<std::string> stubComponents() const override { return {"dynamic-graph (stand-in, with its own entity pool)", "open, write, time (simulated)"}; }
  std::vector<std::string> assumptions() const override { return {"an object deleted is not used any more by the tasks and stacks it was in", "names hold no double quote"}; }
  static std::string name(Rng& r, const char* pre) { static const char* suf[] = {"a", "b", "c", "d", "e", "f-1", "g.h"}; return std::string(pre) + suf[r.below(7)]; }
  void generate(Rng& r, Plan& p) override {
    bool clean = r.chance(1, 6); int n = (int)r.range(5, 60); p.ops.push_back(Op("setup", {r.range(0, 4000000000LL)}));
    for (int k = 0; k < n; ++k) switch (r.weighted({8, 8, 5, 5, 5, 5, 3, 3, 4, clean ? 0 : 1, 2, 2})) {
      case 0: p.ops.push_back(Op("feature", {r.range(0, 1)}, {}, {name(r, r.chance(1, 8) ? "t_" : "f_")})); break;
      case 1: p.ops.push_back(Op("task", {}, {}, {name(r, r.chance(1, 8) ? "f_" : "t_")})); break;
      case 2: p.ops.push_back(Op("delFeature", {}, {}, {name(r, "f_")})); break;
      case 3: p.ops.push_back(Op("delTask", {}, {}, {name(r, "t_")})); break;
      case 4: p.ops.push_back(Op("getFeature", {}, {}, {name(r, r.chance(1, 6) ? "t_" : "f_")})); break;
      case 5: p.ops.push_back(Op("getTask", {}, {}, {name(r, r.chance(1, 6) ? "f_" : "t_")})); break;
      case 6: p.ops.push_back(Op("regFeature", {}, {}, {name(r, "f_"), name(r, "f_")})); break;
      case 7: p.ops.push_back(Op("regTask", {}, {}, {name(r, "t_"), name(r, "t_")})); break;
      case 8: { static const char* fn[] = {"graph.dot", "./graph", "graph", "dir/g.v1.dot", "./dir/tasks", "dir.d/tasks", "a.b.c"}; p.ops.push_back(Op("write", {clean ? 0 : r.weighted({6, 1, 2, 1}), r.range(0, 1500)}, {}, {fn[r.below(7)]})); break; }
      case 9: p.ops.push_back(Op("destroy")); break;
      case 10: p.ops.push_back(Op("use", {r.range(0, 2)}, {}, {name(r, "f_"), name(r, "t_")})); break;
      case 11: p.ops.push_back(Op("adv", {r.range(0, 90000000000000LL)})); break;
    }
  }
  void execute(const Plan& p) override {
    Silence quiet; clk.on = true; setenv("TZ", "UTC", 1); tzset(); for (auto& o : p.ops) if (o.name == "setup") clk.realNs += o.I(0) * 1000000000LL;
    ::mkdir("dir", 0700); ::mkdir("dir.d", 0700);
    std::map<std::string, std::pair<ds::FeatureAbstract*, std::string>> feat; std::map<std::string, std::pair<ds::TaskAbstract*, std::string>> task;   // as registered: object, its own name
    std::map<std::string, dg::Entity*> ents; std::map<std::string, int> kind;     // every object alive
    auto pool = [] { return ds::PoolStorage::getInstance(); };
    auto lookF = [&](const std::string& n) { ds::FeatureAbstract* f = NULL; std::string what; bool r = raises([&] { f = &pool()->getFeature(n); }, &what); checks(); auto it = feat.find(n); if (r != (it == feat.end())) fail(r ? "lost" : "found-unknown", "feature %s is %s", n.c_str(), r ? "not found though registered" : "found though not registered"); if (!r && f != it->second.first) fail("wrong-object", "feature %s is another object", n.c_str()); if (r) { faultFired("unknown_name"); if (what.find(n) == std::string::npos) fail("message", "the refusal of %s does not name it: %s", n.c_str(), what.c_str()); } return !r; };
    auto lookT = [&](const std::string& n) { ds::TaskAbstract* f = NULL; std::string what; bool r = raises([&] { f = &pool()->getTask(n); }, &what); checks(); auto it = task.find(n); if (r != (it == task.end())) fail(r ? "lost" : "found-unknown", "task %s is %s", n.c_str(), r ? "not found though registered" : "found though not registered"); if (!r && f != it->second.first) fail("wrong-object", "task %s is another object", n.c_str()); if (r) { faultFired("unknown_name"); if (what.find(n) == std::string::npos) fail("message", "the refusal of %s does not name it: %s", n.c_str(), what.c_str()); } return !r; };
    ds::Sot* sot = new ds::Sot("sot"); cmd(*sot, "setSize", {Value((unsigned)3)});
    for (auto& o : p.ops) {
      const std::string n = o.S(0); ev("%s %s", o.name.c_str(), n.c_str()); cover(mix(hashStr(o.name), mix(feat.size(), task.size())));
      if (o.name == "feature" || o.name == "task") {
        bool F = o.name == "feature", taken = ents.count(n) != 0, clash = F ? feat.count(n) != 0 : task.count(n) != 0; dg::Entity* e = NULL; ds::FeatureAbstract* fa = NULL; ds::TaskAbstract* ta = NULL;
        bool r = raises([&] { if (F) { fa = o.I(0) ? (ds::FeatureAbstract*)new ds::FeatureGeneric(n) : (ds::FeatureAbstract*)new ds::FeaturePosture(n); e = fa; } else { ta = new ds::Task(n); e = ta; } }); checks();
        if (taken || clash) faultFired("name_taken");
        if (r != (taken || clash)) fail("name", "an object called %s was %s", n.c_str(), r ? "refused though the name is free" : "made though the name is taken");
        if (!r) { ents[n] = e; kind[n] = F; if (F) feat[n] = std::make_pair(fa, n); else task[n] = std::make_pair(ta, n); }
      } else if (o.name == "delFeature" || o.name == "delTask") {
        bool F = o.name == "delFeature"; auto it = ents.find(n); if (it == ents.end() || kind[n] != F) continue;
        bool alias = false; for (auto& x : feat) if (x.second.first == it->second && x.first != n) alias = true; for (auto& x : task) if (x.second.first == it->second && x.first != n) alias = true; if (alias) continue;   // registered by hand: its owner removes it
        faultFired("object_deleted"); delete it->second;
        if (F) { auto q = feat.find(n); if (q != feat.end() && q->second.second == n) feat.erase(q); } else { auto q = task.find(n); if (q != task.end() && q->second.second == n) task.erase(q); }
        ents.erase(it); kind.erase(n); F ? lookF(n) : lookT(n);
      } else if (o.name == "getFeature") lookF(n);
      else if (o.name == "getTask") lookT(n);
      else if (o.name == "regFeature" || o.name == "regTask") {
        bool F = o.name == "regFeature"; auto it = ents.find(o.S(1)); if (it == ents.end() || kind[o.S(1)] != F) continue;
        bool clash = F ? feat.count(n) != 0 : task.count(n) != 0; std::string what; ds::FeatureAbstract* fa = F ? dynamic_cast<ds::FeatureAbstract*>(it->second) : NULL; ds::TaskAbstract* ta = F ? NULL : dynamic_cast<ds::TaskAbstract*>(it->second);
        bool r = raises([&] { if (F) pool()->registerFeature(n, fa); else pool()->registerTask(n, ta); }, &what); checks(); if (clash) faultFired("name_taken");
        if (r != clash) fail("name", "%s was %s a second time", n.c_str(), r ? "refused" : "registered"); if (r && what.find(n) == std::string::npos) fail("message", "the refusal of %s does not name it: %s", n.c_str(), what.c_str());
        if (!r) { if (F) feat[n] = std::make_pair(fa, o.S(1)); else task[n] = std::make_pair(ta, o.S(1)); }
        F ? lookF(n) : lookT(n);
      } else if (o.name == "use") {      // through the commands that take names
        auto it = task.find(o.S(1)); bool known = it != task.end(), r;
        if (o.I(0) == 0) { r = raises([&] { cmd(*sot, "push", {Value(o.S(1))}); }); if (r == known) fail("use", "pushing task %s %s", o.S(1).c_str(), r ? "raised" : "worked though it is not registered"); if (!r) cmd(*sot, "remove", {Value(o.S(1))}); if (!known) faultFired("unknown_name"); }
        else if (o.I(0) == 1 && known) { bool kf = feat.count(n) != 0; r = raises([&] { cmd(*it->second.first, "add", {Value(n)}); }); if (r == kf) fail("use", "adding feature %s %s", n.c_str(), r ? "raised" : "worked though it is not registered"); if (!kf) faultFired("unknown_name"); cmd(*it->second.first, "clear"); }
        else if (o.I(0) == 2) { for (auto& x : feat) { bool kf = feat.count(n) != 0; if (kf && dynamic_cast<ds::FeatureGeneric*>(feat[n].first) == NULL) break; if (!dynamic_cast<ds::FeatureGeneric*>(x.second.first)) continue; r = raises([&] { cmd(*x.second.first, "setReference", {Value(n)}); }); if (r == kf) fail("use", "referring to feature %s %s", n.c_str(), r ? "raised" : "worked though it is not registered"); if (!kf) faultFired("unknown_name"); if (!r) { x.second.first->setReference(NULL); } break; } }
        checks();
      } else if (o.name == "destroy") { faultFired("pool_emptied"); ds::PoolStorage::destroy(); feat.clear(); task.clear(); }
      else if (o.name == "adv") { advance(o.I(0), 0); simTime((double)o.I(0) * 1e-9); }
      else if (o.name == "write") {
        io.failOpen = 0; io.failWrite = 0; io.diskFree = -1; switch (o.I(0)) { case 1: io.failOpen = 1; io.openErrno = EACCES; break; case 2: io.diskFree = (long)o.I(1); break; case 3: io.failWrite = 1; break; }
        ::unlink(n.c_str()); bool r = raises([&] { pool()->writeGraph(n); }); bool hurt = io.failOpen != (o.I(0) == 1) || (io.diskFree >= 0 && io.diskFree < 1) || (o.I(0) == 3 && !io.failWrite);
        io.failOpen = 0; io.failWrite = 0; io.diskFree = -1; checks();
        if (r && o.I(0) == 0) fail("graph", "writing the graph to %s raised", n.c_str());
        if (!hurt && !r) check(n, task);
        for (auto& x : feat) lookF(x.first); for (auto& x : task) lookT(x.first);
      }
    }
  }
  void check(const std::string& fn, const std::map<std::string, std::pair<ds::TaskAbstract*, std::string>>& task) {
    std::ifstream in(fn); std::stringstream ss; ss << in.rdbuf(); std::string s = ss.str(); checks();
    if (s.empty()) { fail("graph", "nothing was written to %s", fn.c_str()); return; }
    time_t now = clk.realNs / 1000000000LL; struct tm tm; gmtime_r(&now, &tm); size_t e = s.find("*/"); std::string head = s.substr(0, e == std::string::npos ? 0 : e); int v[6] = {0}, k = 0;
    for (size_t i = 0; i < head.size() && k < 6;) if (isdigit(head[i])) { v[k] = atoi(head.c_str() + i); ++k; while (i < head.size() && isdigit(head[i])) ++i; } else ++i;
    if (k >= 5 && (v[0] != tm.tm_year + 1900 || v[1] != tm.tm_mon + 1 || v[2] != tm.tm_mday || v[3] != tm.tm_hour || v[4] != tm.tm_min)) fail("graph-date", "the graph written at %d-%d-%d %d:%d is dated %d-%d-%d %d:%d", tm.tm_year + 1900, tm.tm_mon + 1, tm.tm_mday, tm.tm_hour, tm.tm_min, v[0], v[1], v[2], v[3], v[4]);
    // the graph language: identifiers, quoted strings, one-character symbols
    std::vector<std::string> tok; std::vector<bool> quoted; bool ok = true;
    for (size_t i = e == std::string::npos ? 0 : e + 2; i < s.size();) {
      char c = s[i]; if (isspace((unsigned char)c)) { ++i; continue; }
      if (c == '"') { size_t q = s.find('"', i + 1); if (q == std::string::npos) { ok = false; break; } tok.push_back(s.substr(i + 1, q - i - 1)); quoted.push_back(true); i = q + 1; }
      else if (isalnum((unsigned char)c) || c == '_') { size_t q = i; while (q < s.size() && (isalnum((unsigned char)s[q]) || s[q] == '_')) ++q; tok.push_back(s.substr(i, q - i)); quoted.push_back(false); i = q; }
      else if (strchr("{}[]=,;", c)) { tok.push_back(std::string(1, c)); quoted.push_back(false); ++i; }
      else { ok = false; break; }
    }
    size_t at = 0; std::multiset<std::string> nodes; auto is = [&](const char* x) { return at < tok.size() && !quoted[at] && tok[at] == x; }; auto id = [&] { return at < tok.size() && (quoted[at] || isalnum((unsigned char)tok[at][0]) || tok[at][0] == '_'); };
    std::function<bool()> attrs = [&] { while (is("[")) { ++at; while (!is("]")) { if (!id()) return false; ++at; if (is("=")) { ++at; if (!id()) return false; ++at; } if (is(",") || is(";")) ++at; } ++at; } return true; };
    std::function<bool(bool)> body = [&](bool inTasks) { while (!is("}")) { if (at >= tok.size()) return false; if (is(";")) { ++at; continue; } if (is("subgraph")) { ++at; bool T = id() && tok[at] == "cluster_Tasks"; ++at; if (!is("{")) return false; ++at; if (!body(T)) return false; continue; }
      if (!id()) return false; std::string nm = tok[at]; bool q = quoted[at]; ++at; if (is("=")) { ++at; if (!id()) return false; ++at; continue; } if (!attrs()) return false; if (inTasks && (q || (nm != "graph" && nm != "node" && nm != "edge"))) nodes.insert(nm); } ++at; return true; };
    if (ok) { ok = is("digraph"); ++at; if (ok && id()) { size_t sl = fn.rfind('/'); std::string base = sl == std::string::npos ? fn : fn.substr(sl + 1); base = base.substr(0, base.rfind('.')); if (tok[at] != base) fail("graph-name", "the graph of %s is called %s", fn.c_str(), tok[at].c_str()); ++at; } if (ok) ok = is("{"); ++at; if (ok) ok = body(false); if (ok) ok = at == tok.size(); }
    if (!ok) { fail("graph-syntax", "the graph written to %s is not well formed: %s", fn.c_str(), s.substr(0, 300).c_str()); return; }
    std::multiset<std::string> want; for (auto& x : task) want.insert(x.second.second);
    if (nodes != want) fail("graph-nodes", "the graph lists %zu tasks, %zu are registered", nodes.size(), want.size());
  }
};
}  // namespace
sim::World* sim::makeWorld() { return new W; }
