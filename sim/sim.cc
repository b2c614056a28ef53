#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sim.hh"
#include <atomic>
#include <cerrno>
#include <cmath>
#include <csignal>
#include <cstdlib>
#include <ctime>
#include <cxxabi.h>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <malloc.h>
#include <map>
#include <memory>
#include <new>
#include <pthread.h>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>
#include <unordered_set>
#include <algorithm>

namespace sim {
// ------------------------------------------------------------------ shared slot
static const int MAXC = 96, MAXCOV = 1024, MAXSW = 20000, MAXK = 24;
struct Counter { char name[48]; long long n; int isFault; };
struct Known { char key[160]; long long n; };
struct Slot {
  uint64_t seed, hash, shape, steps, nchecks;
  double simTime;
  int status;          // 0 running/crashed, 1 ok, 2 violation
  int preempts;
  char key[160];
  char msg[3000];
  int nc; Counter c[MAXC];
  int ncov; uint64_t cov[MAXCOV];
  int nk; Known k[MAXK];
  int nsw; std::pair<uint64_t, int> sw[MAXSW];
  int swOverflow;
  char phase[256];
};
static Slot* slot = nullptr;
static bool g_verbose = false;
static std::set<std::string> g_knownKeys;
static uint64_t g_hash = 0, g_shape = 0;
static int g_pausedHarness = 0;
static std::string g_scratch;
static long g_eventSeq = 0;

uint64_t hashStr(const std::string& s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char ch : s) { h ^= ch; h *= 1099511628211ull; }
  return h;
}
std::string fmt(const char* f, ...) {
  char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
  return b;
}
std::string dstr(double v) {
  if (std::isnan(v)) return "nan";
  char b[64]; snprintf(b, sizeof b, "%.17g", v); return b;
}
bool verbose() { return g_verbose; }
uint64_t eventSeq() { return (uint64_t)g_eventSeq; }

void ev(const char* f, ...) {
  NoPreempt np;
  char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
  g_hash = mix(g_hash, hashStr(b));
  g_shape = mix(g_shape, hashStr(f));
  ++g_eventSeq;
  if (g_verbose) { fprintf(stderr, "[%5ld t%d] %s\n", g_eventSeq, self(), b); }
  if (slot) { strncpy(slot->phase, b, sizeof slot->phase - 1); }
}
void note(const char* f, ...) {
  if (!g_verbose) return;
  NoPreempt np;
  char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
  fprintf(stderr, "        | %s\n", b);
}
static Counter* counter(const char* n, int isFault) {
  for (int i = 0; i < slot->nc; ++i) if (!strcmp(slot->c[i].name, n)) return &slot->c[i];
  if (slot->nc >= MAXC) return &slot->c[MAXC - 1];
  Counter* c = &slot->c[slot->nc++];
  strncpy(c->name, n, sizeof c->name - 1); c->n = 0; c->isFault = isFault;
  return c;
}
void faultFired(const char* k, int n) {
  NoPreempt np; counter(k, 1)->n += n; g_shape = mix(g_shape, hashStr(k)); note("FAULT %s", k);
}
void probe(const char* k, int n) { NoPreempt np; counter(k, 0)->n += n; }
void cover(uint64_t h) { if (slot->ncov < MAXCOV) slot->cov[slot->ncov++] = h; }
void simTime(double s) { slot->simTime += s; }
void checks(int n) { slot->nchecks += (uint64_t)n; }

static void finish(int status) {
  slot->hash = g_hash; slot->shape = g_shape; slot->steps = steps();
  slot->status = status;
  fflush(stderr);
  _exit(0);
}
void failNow(const std::string& key, const std::string& msg) {
  strncpy(slot->key, key.c_str(), sizeof slot->key - 1);
  strncpy(slot->msg, msg.c_str(), sizeof slot->msg - 1);
  g_hash = mix(g_hash, hashStr(key));   // not the text: it may quote memory the code under test did not own
  if (g_verbose) fprintf(stderr, "VIOLATED %s: %s\n", key.c_str(), msg.c_str());
  finish(2);
  abort();
}
void fail(const std::string& key, const char* f, ...) {
  NoPreempt np;
  char b[3000]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
  if (g_knownKeys.count(key)) {
    for (int i = 0; i < slot->nk; ++i)
      if (key == slot->k[i].key) { slot->k[i].n++; return; }
    if (slot->nk < MAXK) { strncpy(slot->k[slot->nk].key, key.c_str(), 159); slot->k[slot->nk++].n = 1; }
    g_hash = mix(g_hash, hashStr(key));
    note("known finding %s: %s", key.c_str(), b);
    return;
  }
  failNow(key, b);
}

// ------------------------------------------------------------------ ops text
static std::string esc(const std::string& s) {
  std::string o;
  for (unsigned char ch : s) {
    if (ch <= 32 || ch == '%' || ch == '|' || ch == ',' || ch >= 127) { char b[8]; snprintf(b, sizeof b, "%%%02x", ch); o += b; }
    else o += (char)ch;
  }
  return o.empty() ? "%-" : o;
}
static std::string unesc(const std::string& s) {
  if (s == "%-") return "";
  std::string o;
  for (size_t k = 0; k < s.size(); ++k)
    if (s[k] == '%' && k + 2 < s.size() + 0 && isxdigit((unsigned char)s[k + 1])) { o += (char)strtol(s.substr(k + 1, 2).c_str(), 0, 16); k += 2; }
    else o += s[k];
  return o;
}
std::string Op::str() const {
  std::ostringstream os;
  os << "op " << esc(name) << " t" << tid;
  for (auto v : i) os << " i" << v;
  for (auto v : d) { char b[64]; snprintf(b, sizeof b, " d%.17g", v); os << b; }
  for (auto& v : s) os << " s" << esc(v);
  return os.str();
}
bool Op::parse(const std::string& line, Op& o) {
  std::istringstream is(line); std::string w;
  if (!(is >> w) || w != "op") return false;
  o = Op(); is >> w; o.name = unesc(w);
  while (is >> w) {
    if (w[0] == 't') o.tid = atoi(w.c_str() + 1);
    else if (w[0] == 'i') o.i.push_back(atoll(w.c_str() + 1));
    else if (w[0] == 'd') o.d.push_back(strtod(w.c_str() + 1, 0));
    else if (w[0] == 's') o.s.push_back(unesc(w.substr(1)));
  }
  return true;
}

// ------------------------------------------------------------------ clock
Clock clk;
void advance(long long ns, long long cpuNs) {
  clk.realNs += ns; clk.monoNs += ns; clk.cpuNs += cpuNs;
  if (slot) slot->simTime += (double)ns * 1e-9;
}
void jump(long long ns) { clk.realNs += ns; faultFired("clock_jump"); }
std::function<void()> onClockRead;
static void clockCost() {
  if (onClockRead) onClockRead();
  if (clk.perCallNs) { clk.realNs += clk.perCallNs; clk.monoNs += clk.perCallNs; clk.cpuNs += clk.perCallNs; }
}

// ------------------------------------------------------------------ scheduler
struct EhGlobals { void* caught; unsigned int uncaught; };
struct Task {
  ucontext_t ctx; std::function<void()> fn; std::string name; char* stack = nullptr; size_t ssz = 0;
  bool done = false, stalled = false; std::function<bool()> cond; const char* what = ""; EhGlobals eh{nullptr, 0}; int err = 0;
};
static std::vector<Task*> tasks;
static int cur = -1; static bool inTasks = false;
static ucontext_t mainCtx; static EhGlobals mainEh{nullptr, 0};
static uint64_t g_steps = 0, nextSwitch = ~0ull;
uint64_t stepLimit = 40000000ull;
static const Plan* thePlan = nullptr; static Rng* srng = nullptr;
static size_t fixedIdx = 0; static uint64_t meanGap = 50; static int starve = -1; static uint64_t starveUntil = 0;

NoPreempt::NoPreempt() { ++g_pausedHarness; }
NoPreempt::~NoPreempt() { --g_pausedHarness; }
int self() { return cur; }
uint64_t steps() { return g_steps; }
bool taskDone(int t) { return tasks[t]->done; }
void stallTask(int t, bool s) { tasks[t]->stalled = s; }

static bool runnable(int t) {
  Task* k = tasks[t];
  if (k->done || k->stalled) return false;
  if (k->cond) { ++g_pausedHarness; bool r = k->cond(); --g_pausedHarness; return r; }
  return true;
}
static void switchTo(int t) {
  int prev = cur;
  if (t == prev) return;
  g_shape = mix(g_shape, (uint64_t)(t + 100));
  EhGlobals* g = (EhGlobals*)abi::__cxa_get_globals();
  EhGlobals* from = prev < 0 ? &mainEh : &tasks[prev]->eh;
  EhGlobals* to = t < 0 ? &mainEh : &tasks[t]->eh;
  *from = *g; *g = *to;
  int e = errno; cur = t;
  swapcontext(prev < 0 ? &mainCtx : &tasks[prev]->ctx, t < 0 ? &mainCtx : &tasks[t]->ctx);
  errno = e;
}
static void armNext() {
  if (thePlan->fixedSchedule) {
    while (fixedIdx < thePlan->switches.size() && thePlan->switches[fixedIdx].first <= g_steps) ++fixedIdx;
    nextSwitch = fixedIdx < thePlan->switches.size() ? thePlan->switches[fixedIdx].first : ~0ull;
  } else {
    uint64_t gap = 1;
    double u = srng->unit();
    gap = 1 + (uint64_t)(-std::log(1 - u) * (double)meanGap);
    nextSwitch = g_steps + gap;
  }
}
static void record(int t) {
  if (slot->nsw < MAXSW) slot->sw[slot->nsw++] = std::make_pair(g_steps, t); else slot->swOverflow = 1;
}
// pick the next task; forced == current cannot continue
static void reschedule(bool forced) {
  std::vector<int> r;
  for (int t = 0; t < (int)tasks.size(); ++t) if (t != cur && runnable(t)) r.push_back(t);
  int choice = -2;
  if (thePlan->fixedSchedule) {
    if (!forced) {
      int want = thePlan->switches[fixedIdx].second;
      for (int t : r) if (t == want) choice = want;
    } else {
      // a forced choice may be recorded at this very step
      for (auto& p : thePlan->switches) if (p.first == g_steps) for (int t : r) if (t == p.second) choice = t;
      if (choice == -2 && !r.empty()) choice = r[0];
    }
  } else if (!r.empty()) {
    std::vector<int> q;
    if (starve >= 0 && g_steps < starveUntil) { for (int t : r) if (t != starve) q.push_back(t); }
    if (q.empty() && forced) q = r;
    if (q.empty() && !(starve >= 0 && g_steps < starveUntil)) q = r;
    if (!q.empty()) choice = q[srng->below(q.size())];
  }
  if (choice >= 0) {
    if (!forced) { slot->preempts++; }
    record(choice);
  }
  armNext();
  if (choice >= 0) switchTo(choice);
  else if (forced) {
    bool all = true; for (auto* t : tasks) if (!t->done) all = false;
    if (all) switchTo(-1);
    else {
      std::string w;
      for (auto* t : tasks) if (!t->done) w += t->name + (t->stalled ? "(stalled) " : std::string("(waiting: ") + t->what + ") ");
      failNow("deadlock", "no simulated thread can run: " + w);
    }
  }
}
static void tick() {
  if (g_pausedHarness) return;
  ++g_steps;
  if (g_steps > stepLimit) {
    g_pausedHarness++;
    failNow("hang", fmt("no end after %llu instrumented memory accesses, last event: %s", (unsigned long long)g_steps, slot ? slot->phase : ""));
  }
  if (inTasks && g_steps >= nextSwitch) { ++g_pausedHarness; reschedule(false); --g_pausedHarness; }
}
void yieldPoint() { tick(); }
void blockUntil(std::function<bool()> cond, const char* what) {
  if (cur < 0) { if (!cond()) failNow("deadlock", std::string("main would wait for ever: ") + what); return; }
  int saved = g_pausedHarness;
  tasks[cur]->what = what;
  g_pausedHarness = 1;             // testing and blocking is one step
  while (!cond()) {
    tasks[cur]->cond = cond;
    ++g_steps; int me = cur;
    reschedule(true);
    tasks[me]->cond = nullptr; g_pausedHarness = 1;
  }
  g_pausedHarness = saved;
}
static void trampoline() {
  Task* t = tasks[cur];
  g_pausedHarness = 0;
  try { t->fn(); } catch (const std::exception& e) {
    failNow("uncaught-exception", "simulated thread " + t->name + " ended by exception: " + e.what());
  } catch (...) { failNow("uncaught-exception", "simulated thread " + t->name + " ended by an exception"); }
  t->done = true;
  g_pausedHarness = 1; ++g_steps;
  reschedule(true);
  abort();
}
int spawn(const std::string& name, std::function<void()> fn) {
  Task* t = new Task; t->name = name; t->fn = fn; t->ssz = 512 * 1024;
  t->stack = (char*)mmap(nullptr, t->ssz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  getcontext(&t->ctx);
  t->ctx.uc_stack.ss_sp = t->stack; t->ctx.uc_stack.ss_size = t->ssz; t->ctx.uc_link = &mainCtx;
  makecontext(&t->ctx, trampoline, 0);
  tasks.push_back(t);
  return (int)tasks.size() - 1;
}
void runTasks(const Plan& plan, Rng& r) {
  NoPreempt np;
  thePlan = &plan; srng = &r; fixedIdx = 0;
  static const uint64_t gaps[] = {2, 5, 12, 30, 80, 250, 1000};
  meanGap = gaps[r.below(7)];
  if (r.chance(1, 4) && tasks.size() > 1) { starve = (int)r.below(tasks.size()); starveUntil = r.below(4000); }
  inTasks = true; armNext();
  ++g_steps;
  while (true) {
    bool all = true; for (auto* t : tasks) if (!t->done) all = false;
    if (all) break;
    reschedule(true);
  }
  inTasks = false;
}

// ------------------------------------------------------------------ alloc faults
long allocFailAfter = -1;
IoFaults io;
DlHooks dl;
std::string scratchDir() { return g_scratch; }
}  // namespace sim

using namespace sim;

// ================================================================== interposed symbols
static inline bool simClock() { return clk.on; }
extern "C" {
int gettimeofday(struct timeval* tv, void*) noexcept {
  if (!simClock()) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); if (tv) { tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; } return 0; }
  clockCost();
  if (tv) { tv->tv_sec = clk.realNs / 1000000000LL; tv->tv_usec = (clk.realNs % 1000000000LL) / 1000; }
  return 0;
}
int clock_gettime(clockid_t id, struct timespec* ts) noexcept {
  if (!simClock()) return (int)syscall(SYS_clock_gettime, id, ts);
  clockCost();
  long long n = clk.monoNs;
  if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) n = clk.realNs;
  else if (id == CLOCK_PROCESS_CPUTIME_ID || id == CLOCK_THREAD_CPUTIME_ID) n = clk.cpuNs;
  ts->tv_sec = n / 1000000000LL; ts->tv_nsec = n % 1000000000LL;
  return 0;
}
time_t time(time_t* t) noexcept {
  struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
  if (t) *t = ts.tv_sec;
  return ts.tv_sec;
}
clock_t clock(void) noexcept {
  if (!simClock()) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_PROCESS_CPUTIME_ID, &ts); return ts.tv_sec * 1000000L + ts.tv_nsec / 1000; }
  clockCost();
  return (clock_t)(clk.cpuNs / 1000);
}
static int simSleep(long long ns) {
  if (!simClock()) { struct timespec t{(time_t)(ns / 1000000000LL), (long)(ns % 1000000000LL)}; return (int)syscall(SYS_nanosleep, &t, nullptr); }
  sim::advance(ns, 0); yieldPoint(); return 0;
}
int usleep(useconds_t us) { return simSleep((long long)us * 1000); }
unsigned sleep(unsigned s) { simSleep((long long)s * 1000000000LL); return 0; }
int nanosleep(const struct timespec* a, struct timespec*) { return simSleep(a->tv_sec * 1000000000LL + a->tv_nsec); }
int clock_nanosleep(clockid_t, int flags, const struct timespec* a, struct timespec*) {
  long long n = a->tv_sec * 1000000000LL + a->tv_nsec;
  if (flags & TIMER_ABSTIME) n -= clk.monoNs;
  return n > 0 ? simSleep(n) : 0;
}

// ---- mutexes: simulated while a simulated thread runs
struct MState { int owner; int depth; };
static std::map<void*, MState>* mtx() { static std::map<void*, MState>* m = new std::map<void*, MState>; return m; }
#define REALFN(ret, name, args) static ret (*real) args = nullptr; if (!real) real = (ret(*) args)dlsym(RTLD_NEXT, #name)
static bool recursiveMutex(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
static bool simLock(pthread_mutex_t* m, bool block, bool timed, int& rc) {
  if (!inTasks || cur < 0) return false;
  yieldPoint();
  NoPreempt np;
  auto& mm = *mtx();
  auto it = mm.find(m);
  if (it == mm.end()) it = mm.insert(std::make_pair((void*)m, MState{-1, 0})).first;
  if (it->second.owner == cur && recursiveMutex(m)) { it->second.depth++; rc = 0; return true; }
  if (it->second.owner != -1) {
    sim::probe("lock_contended");
    if (!block) { rc = EBUSY; return true; }
    if (timed) { rc = ETIMEDOUT; return true; }
    blockUntil([m]() { return (*mtx())[m].owner == -1; }, "mutex");
  }
  (*mtx())[m].owner = cur; (*mtx())[m].depth = 1; rc = 0;
  return true;
}
int pthread_mutex_lock(pthread_mutex_t* m) noexcept {
  int rc; if (simLock(m, true, false, rc)) return rc;
  REALFN(int, pthread_mutex_lock, (pthread_mutex_t*)); return real(m);
}
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept {
  int rc; if (simLock(m, false, false, rc)) return rc;
  REALFN(int, pthread_mutex_trylock, (pthread_mutex_t*)); return real(m);
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* t) noexcept {
  int rc; if (simLock(m, true, true, rc)) return rc;
  REALFN(int, pthread_mutex_timedlock, (pthread_mutex_t*, const struct timespec*)); return real(m, t);
}
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept {
  if (inTasks && cur >= 0) {
    {
      NoPreempt np;
      auto it = mtx()->find(m);
      if (it != mtx()->end() && it->second.owner == cur) { if (--it->second.depth == 0) it->second.owner = -1; }
      else if (it == mtx()->end() || it->second.owner != cur) failNow("mutex-misuse", "a thread unlocked a mutex it did not hold");
    }
    yieldPoint();
    return 0;
  }
  REALFN(int, pthread_mutex_unlock, (pthread_mutex_t*)); return real(m);
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (inTasks && cur >= 0) {
    // simulated: release, allow spurious wake-up, re-acquire
    pthread_mutex_unlock(m); yieldPoint(); return pthread_mutex_lock(m);
  }
  REALFN(int, pthread_cond_wait, (pthread_cond_t*, pthread_mutex_t*)); return real(c, m);
}

}  // extern "C"
namespace sim { int heldMutexes(int tid) { int n = 0; for (auto& x : *mtx()) if (x.second.owner == tid) ++n; return n; } }
extern "C" {
// ---- dlopen family
void* dlopen(const char* f, int flags) noexcept {
  if (dl.on && dl.open) return dl.open(f, flags);
  REALFN(void*, dlopen, (const char*, int)); return real(f, flags);
}
int dlclose(void* h) noexcept {
  if (dl.on && dl.close) return dl.close(h);
  REALFN(int, dlclose, (void*)); return real(h);
}
char* dlerror(void) noexcept {
  if (dl.on && dl.error) return dl.error();
  REALFN(char*, dlerror, (void)); return real();
}
}  // extern "C"
// dlsym cannot look itself up with dlsym: dlvsym does it
extern "C" void* dlsym(void* h, const char* n) noexcept {
  if (dl.on && dl.sym && h != RTLD_NEXT) return dl.sym(h, n);
  static void* (*real)(void*, const char*) = nullptr;
  if (!real) real = (void* (*)(void*, const char*))dlvsym(RTLD_NEXT, "dlsym", "GLIBC_2.34");
  if (!real) real = (void* (*)(void*, const char*))dlvsym(RTLD_NEXT, "dlsym", "GLIBC_2.2.5");
  if (h == RTLD_NEXT) return real(RTLD_NEXT, n);
  return real(h, n);
}

// ---- files under the scratch directory
static std::set<int>* simFds() { static std::set<int>* s = new std::set<int>; return s; }
static std::map<FILE*, int>* simFiles() { static std::map<FILE*, int>* s = new std::map<FILE*, int>; return s; }
static bool inScratch(const char* p) {
  if (g_scratch.empty() || !p) return false;
  if (p[0] != '/') return true;    // cwd is the scratch directory during a run
  return !strncmp(p, g_scratch.c_str(), g_scratch.size());
}
static bool g_ioOn = false;
static FILE* fopenCommon(const char* p, const char* mode, FILE* (*real)(const char*, const char*)) {
  if (g_ioOn && inScratch(p)) {
    yieldPoint(); NoPreempt np;
    io.opens++;
    if (io.failOpen > 0) { io.failOpen--; sim::faultFired("open_error"); errno = io.openErrno; return nullptr; }
    FILE* f = real(p, mode);
    if (f) { simFds()->insert(fileno(f)); (*simFiles())[f] = fileno(f); io.openNow++; }
    return f;
  }
  return real(p, mode);
}
extern "C" {
FILE* fopen(const char* p, const char* m) { REALFN(FILE*, fopen, (const char*, const char*)); return fopenCommon(p, m, real); }
FILE* fopen64(const char* p, const char* m) { REALFN(FILE*, fopen64, (const char*, const char*)); return fopenCommon(p, m, real); }
int fclose(FILE* f) {
  REALFN(int, fclose, (FILE*));
  auto it = simFiles()->find(f);
  if (it != simFiles()->end()) { simFds()->erase(it->second); simFiles()->erase(it); io.closes++; io.openNow--; }
  return real(f);
}
ssize_t read(int fd, void* b, size_t n) {
  REALFN(ssize_t, read, (int, void*, size_t));
  if (g_ioOn && simFds()->count(fd)) {
    yieldPoint(); NoPreempt np;
    io.reads++;
    if (io.eintrRead > 0) { io.eintrRead--; sim::faultFired("read_eintr"); errno = EINTR; return -1; }
    if (io.failRead > 0) { io.failRead--; sim::faultFired("read_error"); errno = io.readErrno; return -1; }
    if (io.failReadAfter >= 0 && io.failReadAfter-- == 0) { sim::faultFired("read_error"); errno = io.readErrno; return -1; }
    if (io.shortRead > 0 && n > (size_t)io.shortReadLen) { io.shortRead--; sim::faultFired("short_read"); n = (size_t)io.shortReadLen; }
  }
  return real(fd, b, n);
}
static ssize_t limitWrite(size_t n, bool& err) {
  err = false;
  io.writes++;
  if (io.failWrite > 0) { io.failWrite--; sim::faultFired("write_error"); errno = EIO; err = true; return -1; }
  if (io.diskFree >= 0) {
    if (io.diskFree == 0) { sim::faultFired("disk_full"); errno = ENOSPC; err = true; return -1; }
    if ((size_t)io.diskFree < n) { n = (size_t)io.diskFree; sim::faultFired("torn_write"); }
  }
  if (io.shortWrite > 0 && n > 1) { io.shortWrite--; n = n / 2; sim::faultFired("short_write"); }
  return (ssize_t)n;
}
ssize_t write(int fd, const void* b, size_t n) {
  REALFN(ssize_t, write, (int, const void*, size_t));
  if (g_ioOn && simFds()->count(fd)) {
    yieldPoint(); NoPreempt np;
    bool e; ssize_t k = limitWrite(n, e); if (e) return -1;
    ssize_t r = real(fd, b, (size_t)k);
    if (r > 0 && io.diskFree >= 0) io.diskFree -= r;
    return r;
  }
  return real(fd, b, n);
}
ssize_t writev(int fd, const struct iovec* v, int c) {
  REALFN(ssize_t, writev, (int, const struct iovec*, int));
  if (g_ioOn && simFds()->count(fd)) {
    std::string all; for (int k = 0; k < c; ++k) all.append((const char*)v[k].iov_base, v[k].iov_len);
    return write(fd, all.data(), all.size());
  }
  return real(fd, v, c);
}
}

// ---- allocation faults
static void* allocOrThrow(size_t n) {
  if (allocFailAfter >= 0 && !g_pausedHarness) {
    if (allocFailAfter == 0) { allocFailAfter = -1; sim::faultFired("alloc_failure"); throw std::bad_alloc(); }
    --allocFailAfter;
  }
  void* p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
// New memory holds arbitrary bytes, the same ones in every execution of a seed:
// what the code reads without having written it shows as such and replays.
static int g_dirt = -1;
#ifndef SIM_NO_NEW
extern "C" void* __libc_malloc(size_t);
extern "C" void* malloc(size_t n) { void* p = __libc_malloc(n); if (p && g_dirt >= 0) memset(p, g_dirt, n); return p; }
#endif
std::function<void(const char*)> sim::contractGuard;
void sim::memoryPattern(int which) { static const int dirts[] = {0x00, 0x01, 0x3F, 0x5A, 0x7F, 0xA5, 0xC0, 0xFF}; g_dirt = dirts[which & 7]; }
// Freed objects are overwritten and not handed out again during the run, so
// that a use after free shows the same way whatever the heap looks like.
static size_t g_quarantine = 0;
static void dispose(void* p) {
  if (!p) return;
  if (!g_ioOn || g_quarantine > (96ul << 20)) { free(p); return; }
  size_t n = malloc_usable_size(p); g_quarantine += n; memset(p, 0x5A, n);
}
#ifndef SIM_NO_NEW
void* operator new(size_t n) { return allocOrThrow(n); }
void* operator new[](size_t n) { return allocOrThrow(n); }
void operator delete(void* p) noexcept { dispose(p); }
void operator delete[](void* p) noexcept { dispose(p); }
void operator delete(void* p, size_t) noexcept { dispose(p); }
void operator delete[](void* p, size_t) noexcept { dispose(p); }
#endif

// ================================================================== TSan entry points
#ifndef SIM_NO_TSAN
#define T extern "C" __attribute__((visibility("default")))
T void __tsan_init() {}
T void __tsan_func_entry(void*) {}
T void __tsan_func_exit(void*) {}
T void __tsan_ignore_thread_begin() {}
T void __tsan_ignore_thread_end() {}
#define RW(k) \
  T void __tsan_read##k(void*) { tick(); } T void __tsan_write##k(void*) { tick(); } \
  T void __tsan_unaligned_read##k(void*) { tick(); } T void __tsan_unaligned_write##k(void*) { tick(); } \
  T void __tsan_volatile_read##k(void*) { tick(); } T void __tsan_volatile_write##k(void*) { tick(); } \
  T void __tsan_read##k##_pc(void*, void*) { tick(); } T void __tsan_write##k##_pc(void*, void*) { tick(); }
RW(1) RW(2) RW(4) RW(8) RW(16)
T void __tsan_read_range(void*, unsigned long) { tick(); }
T void __tsan_write_range(void*, unsigned long) { tick(); }
T void __tsan_vptr_read(void**) { tick(); }
T void __tsan_vptr_update(void**, void*) { tick(); }
#define AT(bits, t) \
  T t __tsan_atomic##bits##_load(const volatile t* a, int) { tick(); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  T void __tsan_atomic##bits##_store(volatile t* a, t v, int) { tick(); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  T t __tsan_atomic##bits##_exchange(volatile t* a, t v, int) { tick(); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  T t __tsan_atomic##bits##_fetch_add(volatile t* a, t v, int) { tick(); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  T t __tsan_atomic##bits##_fetch_sub(volatile t* a, t v, int) { tick(); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  T t __tsan_atomic##bits##_fetch_and(volatile t* a, t v, int) { tick(); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  T t __tsan_atomic##bits##_fetch_or(volatile t* a, t v, int) { tick(); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  T t __tsan_atomic##bits##_fetch_xor(volatile t* a, t v, int) { tick(); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  T int __tsan_atomic##bits##_compare_exchange_strong(volatile t* a, t* e, t v, int, int) { tick(); return __atomic_compare_exchange_n(a, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  T int __tsan_atomic##bits##_compare_exchange_weak(volatile t* a, t* e, t v, int, int) { tick(); return __atomic_compare_exchange_n(a, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  T t __tsan_atomic##bits##_compare_exchange_val(volatile t* a, t e, t v, int, int) { tick(); __atomic_compare_exchange_n(a, &e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
T void __tsan_atomic_thread_fence(int) { tick(); }
T void __tsan_atomic_signal_fence(int) {}
#undef T
#endif

// ================================================================== driver
namespace sim {
static World* world = nullptr;
static std::string g_root;   // parent of all scratch directories

static void wipe(const std::string& dir) {
  DIR* d = opendir(dir.c_str()); if (!d) return;
  while (struct dirent* e = readdir(d)) {
    std::string n = e->d_name; if (n == "." || n == "..") continue;
    std::string p = dir + "/" + n; struct stat st;
    if (!lstat(p.c_str(), &st) && S_ISDIR(st.st_mode)) { wipe(p); rmdir(p.c_str()); } else unlink(p.c_str());
  }
  closedir(d);
}

// child body: never returns
[[noreturn]] static void childRun(const Plan& plan, const std::string& scratch) {
  g_scratch = scratch;
  if (chdir(scratch.c_str())) _exit(3);
  struct itimerval tv; memset(&tv, 0, sizeof tv);
  int ms = world->cpuLimitMs(); tv.it_value.tv_sec = ms / 1000; tv.it_value.tv_usec = (ms % 1000) * 1000;
  setitimer(ITIMER_PROF, &tv, nullptr);
  struct rlimit rl{2ul << 30, 2ul << 30};
#ifndef SIM_NO_NEW
  setrlimit(RLIMIT_AS, &rl);
#endif
  struct rlimit rc{0, 0}; setrlimit(RLIMIT_CORE, &rc);
  struct rlimit rf{256ul << 20, 256ul << 20}; setrlimit(RLIMIT_FSIZE, &rf);
  g_hash = hashStr("start"); g_shape = 7; g_ioOn = true;
  memoryPattern((int)(mix(plan.seed, 0xD1) % 8));
  g_steps = 0;   // instrumented harness code of the parent does not count
  try { world->execute(plan); }
  catch (const std::exception& e) { g_pausedHarness = 1; failNow("uncaught-exception", std::string("exception escaped to the harness: ") + e.what()); }
  catch (...) { g_pausedHarness = 1; failNow("uncaught-exception", "an exception escaped to the harness"); }
  finish(1);
  abort();
}
static std::string sigKey(int st) {
  if (WIFSIGNALED(st)) {
    int s = WTERMSIG(st);
    if (s == SIGPROF || s == SIGXCPU) return "hang";
    if (s == SIGXFSZ) return "unbounded-file";
    return fmt("crash-signal-%d", s);
  }
  if (WIFEXITED(st)) return fmt("exit-status-%d", WEXITSTATUS(st));
  return "crash";
}
// run one plan in a forked child; result in *slot
static void runForked(const Plan& plan, const std::string& scratch) {
  memset(slot, 0, offsetof(Slot, cov)); slot->nk = slot->nsw = slot->swOverflow = 0; slot->ncov = 0; memset(slot->phase, 0, sizeof slot->phase);
  memset(slot->c, 0, sizeof slot->c);
  slot->seed = plan.seed;
  mkdir(scratch.c_str(), 0700);
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p == 0) {
    if (!g_verbose) {
      int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); dup2(dn, 2);
    }
    childRun(plan, scratch);
  }
  int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  if (slot->status == 0) {
    std::string k = sigKey(st);
    slot->status = 2; strncpy(slot->key, k.c_str(), sizeof slot->key - 1);
    snprintf(slot->msg, sizeof slot->msg, "the code under test ended the process (%s) after: %s", k.c_str(), slot->phase);
    slot->hash = hashStr(k + "|" + slot->phase);
    if (g_knownKeys.count(k)) { slot->status = 1; }
  }
  wipe(scratch);
}
static Plan genPlan(uint64_t seed) {
  Plan p; p.seed = seed; Rng r(seed); world->generate(r, p); return p;
}
static bool writePlan(const std::string& file, const Plan& p, const Slot* s) {
  std::ofstream o(file.c_str());
  o << "property " << world->property() << "\nseed " << p.seed << "\n";
  if (s) { o << "expect-key " << esc(s->key) << "\nexpect-hash " << fmt("%016llx", (unsigned long long)s->hash) << "\nmessage " << esc(s->msg) << "\n"; }
  o << "sched " << (p.fixedSchedule ? 1 : 0);
  for (auto& x : p.switches) o << " " << x.first << ":" << x.second;
  o << "\n";
  for (auto& op : p.ops) o << op.str() << "\n";
  return (bool)o;
}
static bool readPlan(const std::string& file, Plan& p, std::string& key, std::string& hash) {
  std::ifstream is(file.c_str()); std::string line; if (!is) return false;
  while (std::getline(is, line)) {
    std::istringstream ls(line); std::string w; ls >> w;
    if (w == "seed") ls >> p.seed;
    else if (w == "expect-key") { ls >> w; key = unesc(w); }
    else if (w == "expect-hash") ls >> hash;
    else if (w == "sched") { int f; ls >> f; p.fixedSchedule = f; while (ls >> w) { size_t c = w.find(':'); p.switches.push_back(std::make_pair((uint64_t)strtoull(w.c_str(), 0, 10), atoi(w.c_str() + c + 1))); } }
    else if (w == "op") { Op o; if (Op::parse(line, o)) p.ops.push_back(o); }
  }
  return true;
}
static std::string jesc(const std::string& s) {
  std::string o = "\"";
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { o += '\\'; o += (char)ch; }
    else if (ch < 32 || ch >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
    else o += (char)ch;
  }
  return o + "\"";
}
static double wall() { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts); return (double)ts.tv_sec + 1e-9 * (double)ts.tv_nsec; }

struct Shared { std::atomic<int> stop; std::atomic<uint64_t> next; std::atomic<uint64_t> bestSeedIdx; };

static int explore(uint64_t base, uint64_t runs, double cap, int workers, const std::string& out) {
  double t0 = wall();
  Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  sh->stop = 0; sh->next = 0; sh->bestSeedIdx = ~0ull;
  std::vector<pid_t> pids;
  for (int w = 0; w < workers; ++w) {
    fflush(stdout); pid_t p = fork();
    if (p == 0) {
      slot = (Slot*)mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
      std::string scratch = g_root + fmt("/w%d", w); 
      std::ofstream res((g_root + fmt("/res%d", w)).c_str());
      std::unordered_set<uint64_t> shapes, covs, nontriv; std::map<std::string, std::pair<long long, int>> cnt; std::map<std::string, long long> known;
      uint64_t n = 0, st = 0, chk = 0, pre = 0, viol = 0, trouble = 0; double simt = 0;
      const uint64_t chunk = 1;
      while (!sh->stop) {
        uint64_t k = sh->next.fetch_add(chunk);
        if (k >= runs || k > sh->bestSeedIdx.load()) break;
        if (wall() - t0 > cap) break;
        uint64_t seed = base + k;
        Plan pl = genPlan(seed);
        runForked(pl, scratch);
        ++n; st += slot->steps; chk += slot->nchecks; pre += (uint64_t)slot->preempts; simt += slot->simTime;
        shapes.insert(slot->shape);
        bool faulted = false;
        for (int c = 0; c < slot->nc; ++c) { auto& e = cnt[slot->c[c].name]; e.first += slot->c[c].n; e.second = slot->c[c].isFault; if (slot->c[c].isFault && slot->c[c].n) faulted = true; }
        if (faulted || slot->preempts) { nontriv.insert(slot->shape); trouble++; }
        for (int c = 0; c < slot->ncov; ++c) covs.insert(slot->cov[c]);
        for (int c = 0; c < slot->nk; ++c) { if (!known[slot->k[c].key]) res << "knownseed " << esc(slot->k[c].key) << " " << seed << "\n"; known[slot->k[c].key] += slot->k[c].n; }
        if (k < 48) res << "sample " << seed << " " << fmt("%016llx", (unsigned long long)slot->hash) << "\n";
        if (slot->status == 2) {
          viol++; res << "viol " << seed << " " << esc(slot->key) << " " << fmt("%016llx", (unsigned long long)slot->hash) << " " << esc(slot->msg) << "\n";
          uint64_t b = sh->bestSeedIdx.load(); while (k < b && !sh->bestSeedIdx.compare_exchange_weak(b, k)) {}
        }
      }
      for (auto h : shapes) res << "S " << h << "\n";
      for (auto h : nontriv) res << "N " << h << "\n";
      for (auto h : covs) res << "C " << h << "\n";
      for (auto& e : cnt) res << "cnt " << esc(e.first) << " " << e.second.first << " " << e.second.second << "\n";
      for (auto& e : known) res << "known " << esc(e.first) << " " << e.second << "\n";
      res << "tot " << n << " " << st << " " << chk << " " << pre << " " << viol << " " << trouble << " " << fmt("%.9g", simt) << "\n";
      res.close();
      _exit(0);
    }
    pids.push_back(p);
  }
  bool bad = false;
  for (pid_t p : pids) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} if (!WIFEXITED(st) || WEXITSTATUS(st)) bad = true; }
  std::unordered_set<uint64_t> S, N, C; std::map<std::string, std::pair<long long, int>> cnt; std::map<std::string, long long> known; std::map<std::string, std::string> knownSeed;
  uint64_t tot[6] = {0}; double simt = 0; std::map<uint64_t, std::string> viols, samples;
  for (int w = 0; w < workers; ++w) {
    std::ifstream is((g_root + fmt("/res%d", w)).c_str()); std::string line;
    while (std::getline(is, line)) {
      std::istringstream ls(line); std::string k; ls >> k; uint64_t h;
      if (k == "S") { ls >> h; S.insert(h); } else if (k == "N") { ls >> h; N.insert(h); } else if (k == "C") { ls >> h; C.insert(h); }
      else if (k == "cnt") { std::string n; long long v; int f; ls >> n >> v >> f; auto& e = cnt[unesc(n)]; e.first += v; e.second = f; }
      else if (k == "known") { std::string n; long long v; ls >> n >> v; known[unesc(n)] += v; }
      else if (k == "knownseed") { std::string n, v; ls >> n >> v; knownSeed[unesc(n)] = v; }
      else if (k == "sample") { std::string hh; ls >> h >> hh; samples[h] = hh; }
      else if (k == "viol") { ls >> h; std::string rest; std::getline(ls, rest); viols[h] = rest; }
      else if (k == "tot") { uint64_t v; for (int q = 0; q < 6; ++q) { ls >> v; tot[q] += v; } double d; ls >> d; simt += d; }
    }
  }
  double dt = wall() - t0;
  std::ofstream o(out.c_str());
  o << "{\n\"property\": " << jesc(world->property()) << ",\n\"runs\": " << tot[0] << ",\n\"steps\": " << tot[1] << ",\n\"oracle_checks\": " << tot[2]
    << ",\n\"preemptions\": " << tot[3] << ",\n\"violating_runs\": " << tot[4] << ",\n\"runs_with_fault_or_preemption\": " << tot[5] << ",\n\"sim_time\": " << fmt("%.9g", simt)
    << ",\n\"distinct_shapes\": " << S.size() << ",\n\"distinct_nontrivial\": " << N.size() << ",\n\"distinct_states\": " << C.size()
    << ",\n\"explore_wall_s\": " << fmt("%.3f", dt) << ",\n\"first_seed\": " << base << ",\n\"worker_error\": " << (bad ? "true" : "false") << ",\n\"rule\": " << jesc(world->rule())
    << ",\n\"sim_time_meaning\": " << jesc(world->simTimeMeaning());
  auto list = [&](const char* n, const std::vector<std::string>& v) { o << ",\n\"" << n << "\": ["; for (size_t k = 0; k < v.size(); ++k) o << (k ? ", " : "") << jesc(v[k]); o << "]"; };
  list("real_components", world->realComponents()); list("stub_components", world->stubComponents()); list("assumptions", world->assumptions());
  o << ",\n\"faults\": {"; bool first = true; for (auto& e : cnt) if (e.second.second) { o << (first ? "" : ", ") << jesc(e.first) << ": " << e.second.first; first = false; }
  o << "},\n\"probes\": {"; first = true; for (auto& e : cnt) if (!e.second.second) { o << (first ? "" : ", ") << jesc(e.first) << ": " << e.second.first; first = false; }
  o << "},\n\"known\": {"; first = true; for (auto& e : known) { o << (first ? "" : ", ") << jesc(e.first) << ": [" << e.second << ", " << knownSeed[e.first] << "]"; first = false; }
  o << "},\n\"samples\": {"; first = true; for (auto& e : samples) { o << (first ? "" : ", ") << "\"" << e.first << "\": \"" << e.second << "\""; first = false; }
  o << "},\n\"violations\": ["; first = true;
  for (auto& e : viols) { std::istringstream ls(e.second); std::string k, h, m; ls >> k >> h >> m; o << (first ? "" : ", ") << "{\"seed\": " << e.first << ", \"key\": " << jesc(unesc(k)) << ", \"hash\": \"" << h << "\", \"msg\": " << jesc(unesc(m)) << "}"; first = false; }
  o << "]\n}\n";
  return 0;
}

// delta debugging on the operation list, then on the schedule
static bool sameFailure(const Plan& p, const std::string& key, const std::string& scratch) {
  runForked(p, scratch); return slot->status == 2 && key == slot->key;
}
static int minimise(uint64_t seed, const std::string& key, const std::string& out, double cap) {
  double t0 = wall(); std::string scratch = g_root + "/m";
  Plan p = genPlan(seed);
  runForked(p, scratch);
  if (slot->status != 2 || key != slot->key) { fprintf(stderr, "seed does not reproduce: %s vs %s\n", key.c_str(), slot->key); return 2; }
  Plan best = p;
  if (slot->nsw && !slot->swOverflow) {
    Plan q = p; q.fixedSchedule = true; q.switches.assign(slot->sw, slot->sw + slot->nsw);
    if (sameFailure(q, key, scratch)) best = q;
  }
  auto canDrop = [&](const Op& o) { return !world->keepOp(o); };
  bool progress = true; int execs = 0;
  // with a scheduler, dropping an operation shifts steps; retry with the seeded
  // schedule too
  while (progress && wall() - t0 < cap) {
    progress = false;
    for (size_t n = std::max<size_t>(1, best.ops.size() / 2); n >= 1 && wall() - t0 < cap; n /= 2) {
      for (size_t at = 0; at < best.ops.size() && wall() - t0 < cap;) {
        Plan q = best; size_t end = std::min(q.ops.size(), at + n); std::vector<Op> keep;
        bool dropped = false;
        for (size_t k = 0; k < q.ops.size(); ++k) if (k < at || k >= end || !canDrop(q.ops[k])) keep.push_back(q.ops[k]); else dropped = true;
        if (!dropped) { at += n; continue; }
        q.ops = keep; ++execs;
        if (sameFailure(q, key, scratch)) {
          best = q; progress = true;
        } else if (best.fixedSchedule) {
          q.fixedSchedule = false; q.switches.clear(); ++execs;
          if (sameFailure(q, key, scratch) && !slot->swOverflow) {
            Plan z = q; z.fixedSchedule = true; z.switches.assign(slot->sw, slot->sw + slot->nsw);
            if (sameFailure(z, key, scratch)) { best = z; progress = true; } else at += n;
          } else at += n;
        } else at += n;
      }
      if (n == 1) break;
    }
    if (best.fixedSchedule) {
      for (size_t n = std::max<size_t>(1, best.switches.size() / 2); n >= 1 && wall() - t0 < cap; n /= 2) {
        for (size_t at = 0; at < best.switches.size() && wall() - t0 < cap;) {
          Plan q = best; size_t end = std::min(q.switches.size(), at + n);
          q.switches.erase(q.switches.begin() + (long)at, q.switches.begin() + (long)end); ++execs;
          if (sameFailure(q, key, scratch)) { best = q; progress = true; } else at += n;
        }
        if (n == 1) break;
      }
    }
  }
  if (!sameFailure(best, key, scratch)) return 2;
  writePlan(out, best, slot);
  printf("minimised ops=%zu switches=%zu executions=%d hash=%016llx\n", best.ops.size(), best.switches.size(), execs, (unsigned long long)slot->hash);
  return 0;
}
}  // namespace sim

int main(int argc, char** argv) {
  std::map<std::string, std::string> a; std::string mode;
  for (int k = 1; k < argc; ++k) { std::string s = argv[k]; if (s.substr(0, 2) == "--" && k + 1 < argc && std::string(argv[k + 1]).substr(0, 2) != "--") { a[s.substr(2)] = argv[k + 1]; ++k; } else a[s.substr(2)] = "1"; }
  if (!a.count("aslr") && !getenv("SIM_REEXEC")) {
    int pers = personality(0xffffffff);
    if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && personality((unsigned long)pers | ADDR_NO_RANDOMIZE) != -1) { setenv("SIM_REEXEC", "1", 1); execv("/proc/self/exe", argv); }
  }
  mallopt(M_PERTURB, 0xA5);
  // one arena: allocation addresses do not depend on anything else
  mallopt(M_ARENA_MAX, 1);
  if (a.count("known")) { std::ifstream is(a["known"].c_str()); std::string l; while (std::getline(is, l)) if (!l.empty()) g_knownKeys.insert(l); }
  char tmpl[256]; snprintf(tmpl, sizeof tmpl, "%s/simXXXXXX", a.count("tmp") ? a["tmp"].c_str() : "/tmp");
  if (!mkdtemp(tmpl)) { perror("mkdtemp"); return 2; }
  g_root = tmpl;
  world = makeWorld();
  slot = (Slot*)mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  int rc = 0;
  if (a.count("explore")) rc = explore(strtoull(a["seed"].c_str(), 0, 10), strtoull(a["runs"].c_str(), 0, 10), atof(a["cap"].c_str()), atoi(a["workers"].c_str()), a["out"]);
  else if (a.count("one")) {
    g_verbose = a.count("verbose");
    Plan p = genPlan(strtoull(a["one"].c_str(), 0, 10));
    if (a.count("dump")) { writePlan(a["dump"], p, nullptr); }
    runForked(p, g_root + "/o");
    printf("RESULT %d %s %016llx %s\n", slot->status, slot->key[0] ? esc(slot->key).c_str() : "-", (unsigned long long)slot->hash, esc(slot->msg).c_str());
  } else if (a.count("hashes")) {
    std::istringstream is(a["hashes"]); std::string t;
    while (std::getline(is, t, ',')) { Plan p = genPlan(strtoull(t.c_str(), 0, 10)); runForked(p, g_root + "/h"); printf("%s %016llx\n", t.c_str(), (unsigned long long)slot->hash); }
  } else if (a.count("minimise")) rc = minimise(strtoull(a["minimise"].c_str(), 0, 10), a["key"], a["out"], a.count("cap") ? atof(a["cap"].c_str()) : 20);
  else if (a.count("plan")) {
    g_verbose = a.count("verbose");
    Plan p; std::string key, hash; if (!readPlan(a["plan"], p, key, hash)) rc = 2;
    else {
      runForked(p, g_root + "/p");
      char hb[32]; snprintf(hb, sizeof hb, "%016llx", (unsigned long long)slot->hash);
      bool same = slot->status == 2 && key == slot->key && hash == hb;
      printf("RESULT %d %s %s %s\n%s\n", slot->status, slot->key[0] ? esc(slot->key).c_str() : "-", hb, slot->msg, same ? "REPRODUCED" : (slot->status == 2 ? "DIFFERENT" : "NOT-REPRODUCED"));
      rc = same ? 1 : (slot->status == 2 ? 2 : 0);
    }
  } else { fprintf(stderr, "modes: --explore --one --plan --minimise --hashes\n"); rc = 2; }
  wipe(g_root); rmdir(g_root.c_str());
  return rc;
}

extern "C" void sim_eigen_assert(const char* what, const char* file, int line) {
  const char* b = strrchr(file, '/');
  if (sim::contractGuard) { auto g = sim::contractGuard; sim::contractGuard = nullptr; g(what); finish(1); }
  sim::failNow("out-of-contract-matrix-access", sim::fmt("a matrix operation out of its contract (%s, %s:%d)", what, b ? b + 1 : file, line));
}
