// Deterministic simulator used by every C++ world in /verif/worlds.
//
// One seed -> one plan (operation list incl. armed faults) + one schedule.
// A run is executed in a freshly forked child, so no state of the code under
// test survives from one run to the next.
#ifndef VERIF_SIM_HH
#define VERIF_SIM_HH
#include <cstdint>
#include <cstdio>
#include <cstdarg>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <utility>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- PRNG
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 0) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next(); next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  long long range(long long a, long long b) { return a + (long long)below((uint64_t)(b - a + 1)); }
  bool chance(int num, int den) { return (int)below((uint64_t)den) < num; }
  double unit() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
  double uniform(double a, double b) { return a + (b - a) * unit(); }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
  // index drawn with the given integer weights
  int weighted(std::initializer_list<int> w) {
    int tot = 0; for (int x : w) tot += x;
    int r = (int)below((uint64_t)tot), k = 0;
    for (int x : w) { if (r < x) return k; r -= x; ++k; }
    return 0;
  }
};

// ---------------------------------------------------------------- plans
struct Op {
  std::string name;
  int tid = 0;                      // simulated thread that performs it
  std::vector<long long> i;
  std::vector<double> d;
  std::vector<std::string> s;
  Op() {}
  Op(const std::string& n, std::vector<long long> ii = {}, std::vector<double> dd = {},
     std::vector<std::string> ss = {}, int t = 0)
      : name(n), tid(t), i(std::move(ii)), d(std::move(dd)), s(std::move(ss)) {}
  long long I(size_t k, long long def = 0) const { return k < i.size() ? i[k] : def; }
  double D(size_t k, double def = 0) const { return k < d.size() ? d[k] : def; }
  std::string S(size_t k) const { return k < s.size() ? s[k] : std::string(); }
  std::string str() const;
  static bool parse(const std::string& line, Op& out);
};

struct Plan {
  uint64_t seed = 0;
  std::vector<Op> ops;
  bool fixedSchedule = false;                       // replay: use `switches`
  std::vector<std::pair<uint64_t, int>> switches;   // (scheduling step, task)
};

// ---------------------------------------------------------------- run services
// All of these act on the run in progress (one per process).
void ev(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // event log (hashed)
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));// only shown in verbose replay
[[noreturn]] void failNow(const std::string& key, const std::string& msg);
// Reports a violation.  Returns only when `key` is a listed known finding.
void fail(const std::string& key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void faultFired(const char* kind, int n = 1);
void probe(const char* kind, int n = 1);            // "this rare thing really happened"
void cover(uint64_t h);                              // abstract state reached
void simTime(double seconds);                        // add simulated time
void checks(int n = 1);                              // number of oracle evaluations
bool verbose();
uint64_t hashStr(const std::string& s);
inline uint64_t mix(uint64_t a, uint64_t b) {
  a ^= b + 0x9E3779B97F4A7C15ull + (a << 6) + (a >> 2);
  a *= 0xff51afd7ed558ccdull; a ^= a >> 33; return a;
}
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
std::string dstr(double v);                          // exact, reproducible text

// ---------------------------------------------------------------- virtual clock
struct Clock {
  bool on = false;
  long long realNs = 1700000000LL * 1000000000LL;   // CLOCK_REALTIME
  long long monoNs = 5000LL * 1000000000LL;         // CLOCK_MONOTONIC
  long long cpuNs = 1000000000LL;                   // process CPU time
  long long perCallNs = 0;                          // cost of every clock read
};
extern Clock clk;
void advance(long long ns, long long cpuNs);        // both clocks
void jump(long long ns);                            // CLOCK_REALTIME only (step)

// ---------------------------------------------------------------- scheduler
// Tasks are stackful coroutines.  Repository code built with
// -fsanitize=thread calls our __tsan_* entry points at every memory access;
// these are the preemption points.
int spawn(const std::string& name, std::function<void()> fn);
void runTasks(const Plan& plan, Rng& schedRng);      // until all tasks end
int self();                                          // -1 outside a task
void yieldPoint();                                   // explicit preemption point
void blockUntil(std::function<bool()> cond, const char* what);
bool taskDone(int tid);
uint64_t steps();                                    // scheduling steps so far
uint64_t eventSeq();                                 // global order of events
void stallTask(int tid, bool stalled);               // stalled task gets no step
int heldMutexes(int tid);                            // simulated pthread mutexes it owns
extern std::function<void()> onClockRead;            // called by the thread that reads a clock
extern uint64_t stepLimit;                           // hang bound (steps)
struct NoPreempt { NoPreempt(); ~NoPreempt(); };     // harness-only regions

// ---------------------------------------------------------------- allocation faults
extern long allocFailAfter;   // -1 off; n: the n-th allocation from now fails
struct AllocFault { AllocFault(long n) { allocFailAfter = n; } ~AllocFault() { allocFailAfter = -1; } };

// The byte new memory is filled with: drawn from the seed, or chosen by the world (0-7).
void memoryPattern(int which);
// Set by worlds that feed operands out of the contract of the matrices on purpose: told
// when that happens, after which the run ends without a verdict.
extern std::function<void(const char*)> contractGuard;

// ---------------------------------------------------------------- file faults
// Applied to descriptors of files opened below the run's scratch directory.
struct IoFaults {
  int failOpen = 0;        // next n opens fail with openErrno
  int openErrno = 2;
  int shortRead = 0;       // next n reads return at most shortReadLen bytes
  int shortReadLen = 1;
  int failRead = 0;        // next n reads fail with readErrno
  int readErrno = 5;
  int eintrRead = 0;
  int failReadAfter = -1;  // n: the read after the next n ones fails once
  long diskFree = -1;      // bytes left before ENOSPC (-1 unlimited)
  int failWrite = 0;       // next n writes fail with EIO
  int shortWrite = 0;      // next n writes are partial
  // accounting
  long opens = 0, reads = 0, writes = 0, closes = 0, openNow = 0;
};
extern IoFaults io;
std::string scratchDir();   // per-run directory, absolute, removed by the parent

// Hooks a world may set: replaced dlopen family (see loader world).
struct DlHooks {
  std::function<void*(const char*, int)> open;
  std::function<void*(void*, const char*)> sym;
  std::function<int(void*)> close;
  std::function<char*()> error;
  bool on = false;
};
extern DlHooks dl;

// ---------------------------------------------------------------- worlds
struct World {
  virtual ~World() {}
  virtual const char* property() const = 0;
  virtual const char* rule() const = 0;              // how cases are made
  virtual const char* simTimeMeaning() const { return "simulated seconds"; }
  virtual std::vector<std::string> realComponents() const = 0;
  virtual std::vector<std::string> stubComponents() const = 0;
  virtual std::vector<std::string> assumptions() const { return {}; }
  virtual void generate(Rng& rng, Plan& plan) = 0;
  virtual void execute(const Plan& plan) = 0;
  virtual int cpuLimitMs() const { return 5000; }
  // multi-scenario worlds: every op name that must stay for the plan to make
  // sense is kept by the minimiser
  virtual bool keepOp(const Op&) const { return false; }
};
World* makeWorld();   // defined by each world file

}  // namespace sim
#endif
