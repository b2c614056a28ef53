"""Deterministic simulator for the Python parts: same contract as sim/sim.cc.

One seed decides the plan (operations and faults) and the schedule.  Every run
is executed in a forked child.  Simulated threads are real threads of which
exactly one holds the baton; preemption points are the bytecode instructions
of the repository's own files.
"""
import array
import builtins
import ctypes
import errno as _errno
import hashlib
import importlib
import importlib.util
import io
import json
import math
import mmap
import os
import pickle
import resource
import shutil
import signal
import struct
import sys
import tempfile
import threading as real_threading
import time as real_time
import traceback
import types
import _thread

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
real_open = io.open
M64 = (1 << 64) - 1


class Rng:
    """Same generator as sim::Rng."""

    def __init__(self, seed):
        self.s = (seed * 0x9E3779B97F4A7C15 + 0x1234567) & M64
        self.next()
        self.next()

    def next(self):
        self.s = (self.s + 0x9E3779B97F4A7C15) & M64
        z = self.s
        z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & M64
        z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & M64
        return z ^ (z >> 31)

    def below(self, n):
        return self.next() % n if n > 0 else 0

    def range(self, a, b):
        return a + self.below(b - a + 1)

    def chance(self, a, b):
        return self.below(b) < a

    def unit(self):
        return (self.next() >> 11) / 9007199254740992.0

    def uniform(self, a, b):
        return a + (b - a) * self.unit()

    def pick(self, v):
        return v[self.below(len(v))]

    def weighted(self, w):
        r = self.below(sum(w))
        for k, x in enumerate(w):
            if r < x:
                return k
            r -= x
        return 0


class Stop(BaseException):
    """Ends a run (violation already recorded)."""


class Run:
    """State of the run in progress in this (child) process."""

    def __init__(self, plan, known, verbose=False):
        self.plan = plan
        self.known = known
        self.verbose = verbose
        self.h = hashlib.sha256()
        self.shape = hashlib.sha256()
        self.status = 1
        self.key = ""
        self.msg = ""
        self.faults = {}
        self.probes = {}
        self.cov = set()
        self.nchecks = 0
        self.simtime = 0.0
        self.knownseen = {}
        self.sched = None
        self.steps = 0
        self.preempts = 0

    def ev(self, kind, *a):
        line = kind + " " + " ".join(str(x) for x in a)
        self.h.update(line.encode() + b"\n")
        self.shape.update(kind.encode() + b"\n")
        if self.verbose:
            sys.stderr.write("[t%s] %s\n" % (self.sched.cur if self.sched else -1, line))

    def note(self, *a):
        if self.verbose:
            sys.stderr.write("        | " + " ".join(str(x) for x in a) + "\n")

    def check(self, n=1):
        self.nchecks += n

    def fault(self, kind):
        self.faults[kind] = self.faults.get(kind, 0) + 1
        self.shape.update(b"F" + kind.encode())
        self.note("FAULT", kind)

    def probe(self, kind):
        self.probes[kind] = self.probes.get(kind, 0) + 1

    def cover(self, *a):
        if len(self.cov) < 2000:
            self.cov.add(int.from_bytes(hashlib.sha256(repr(a).encode()).digest()[:8], "little"))

    def fail(self, key, msg):
        if key in self.known:
            self.knownseen[key] = self.knownseen.get(key, 0) + 1
            return
        if self.status != 2:
            self.status = 2
            self.key = key
            self.msg = msg
            self.h.update(("VIOL %s %s" % (key, msg)).encode())
            if self.verbose:
                sys.stderr.write("VIOLATED %s: %s\n" % (key, msg))
        raise Stop()


# ------------------------------------------------------------------ scheduler
class SimThreadDeath(BaseException):
    pass


class Task:
    def __init__(self, name, fn):
        self.name = name
        self.fn = fn
        self.sem = _thread.allocate_lock()
        self.sem.acquire()
        self.done = False
        self.wake = None      # simulated time to wake up at
        self.cond = None
        self.what = ""


class Sched:
    """Baton scheduler: decisions come from the plan (replay) or the Rng."""

    STEP_LIMIT = 400000

    def __init__(self, run, rng, fixed=None):
        self.run = run
        self.rng = rng
        self.fixed = None if fixed is None else dict(fixed)
        self.rec = []
        self.tasks = []
        self.cur = -1
        self.now = 0.0
        self.gap = [1, 3, 8, 20, 60, 200][rng.below(6)]
        self.next_switch = 0
        self.off = 0
        self.dead = False
        self.main_sem = _thread.allocate_lock()
        self.main_sem.acquire()
        self.stalled = {}      # task -> steps
        self.steady = False    # no thread is slow any more (liveness is judged)
        self.arm()

    def arm(self):
        if self.fixed is None:
            self.next_switch = self.run.steps + 1 + int(-math.log(1 - self.rng.unit()) * self.gap)
        else:
            later = [s for s in self.fixed if s > self.run.steps]
            self.next_switch = min(later) if later else None

    def spawn(self, name, fn):
        t = Task(name, fn)
        self.tasks.append(t)
        tid = len(self.tasks) - 1

        def body():
            t.sem.acquire()
            try:
                if not self.dead:
                    sys.settrace(self.trace)
                    fn()
            except Stop:
                sys.settrace(None)
                self.finish()
                return
            except SimThreadDeath:
                sys.settrace(None)
                return
            except BaseException as e:
                sys.settrace(None)
                self.run.status = 2 if self.run.status != 2 else 2
                if not self.run.key:
                    self.run.key = "uncaught-exception"
                    self.run.msg = "simulated thread %s ended by %r" % (name, e)
                    if self.run.verbose:
                        traceback.print_exc()
                self.finish()
                return
            sys.settrace(None)
            t.done = True
            self.reschedule(True)

        _thread.start_new_thread(body, ())
        return tid

    def finish(self):
        """A violation: hand control back to main for ever."""
        self.dead = True
        self.main_sem.release()

    def runnable(self, k):
        t = self.tasks[k]
        if t.done:
            return False
        if self.stalled.get(k, 0) > self.run.steps:
            return False
        if t.wake is not None and t.wake > self.now:
            return False
        if t.cond is not None and not t.cond():
            return False
        return True

    def switch(self, k):
        prev = self.cur
        if k == prev:
            return
        self.run.shape.update(b"S%d" % k)
        self.cur = k
        if k >= 0:
            self.tasks[k].sem.release()
        else:
            self.main_sem.release()
        if prev >= 0 and not self.tasks[prev].done:
            self.tasks[prev].sem.acquire()
            if self.dead:
                raise SimThreadDeath()

    def slow(self):
        """The running thread is slow: time passes until a sleeper wakes up."""
        w = [(t.wake, k) for k, t in enumerate(self.tasks)
             if k != self.cur and not t.done and t.wake is not None and t.wake > self.now and t.cond is None
             and self.stalled.get(k, 0) <= self.run.steps]
        if not w or self.steady:
            return False
        if self.fixed is None:
            if not self.rng.chance(1, 2):
                return False
        elif self.fixed.get(self.run.steps) != min(w)[1]:
            return False
        self.run.simtime += min(w)[0] - self.now
        self.now = min(w)[0]
        self.run.probe("slow_thread")
        return True

    def reschedule(self, forced):
        while True:
            r = [k for k in range(len(self.tasks)) if k != self.cur and self.runnable(k)]
            if forced and self.cur >= 0 and not self.tasks[self.cur].done and self.runnable(self.cur):
                r.append(self.cur)
            if not r and not forced and self.slow():
                continue
            if r or not forced:
                break
            if all(t.done for t in self.tasks):
                self.cur = -1 if self.cur < 0 else self.cur
                prev, self.cur = self.cur, -1
                self.main_sem.release()
                return
            w = [t.wake for t in self.tasks if not t.done and t.wake is not None and t.wake > self.now]
            if self.stalled and any(v > self.run.steps for v in self.stalled.values()):
                self.run.steps = max(v for v in self.stalled.values())
                continue
            if not w:
                what = ", ".join("%s (%s)" % (t.name, t.what) for t in self.tasks if not t.done)
                try:
                    self.run.fail("deadlock", "no simulated thread can run: " + what)
                except Stop:
                    self.finish()
                    raise SimThreadDeath()
            self.run.simtime += min(w) - self.now
            self.now = min(w)
        choice = None
        if self.fixed is None:
            if r:
                choice = self.rng.pick(sorted(r))
        else:
            want = self.fixed.get(self.run.steps)
            if want in r:
                choice = want
            elif forced and r:
                choice = min(r)
        if choice is not None:
            self.rec.append((self.run.steps, choice))
            if not forced:
                self.run.preempts += 1
        self.arm()
        if choice is not None:
            self.switch(choice)

    def tick(self):
        if self.off or self.cur < 0:
            return
        if self.dead:
            raise SimThreadDeath()
        r = self.run
        r.steps += 1
        if r.steps > self.STEP_LIMIT:
            try:
                r.fail("hang", "no end after %d steps" % r.steps)
            except Stop:
                self.finish()
                raise SimThreadDeath()
        if self.next_switch is not None and r.steps >= self.next_switch:
            self.reschedule(False)

    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(SRC):
            return None
        frame.f_trace_opcodes = True
        frame.f_trace_lines = False
        return self.local

    def local(self, frame, event, arg):
        if event == "opcode":
            self.tick()
        return self.local

    def block(self, cond, what):
        t = self.tasks[self.cur]
        t.cond = cond
        t.what = what
        while not cond():
            self.run.steps += 1
            self.reschedule(True)
        t.cond = None

    def sleep(self, dt):
        if self.cur < 0:
            self.now += dt
            return
        t = self.tasks[self.cur]
        t.wake = self.now + max(dt, 1e-9)
        t.what = "sleep"
        while t.wake > self.now:
            self.run.steps += 1
            self.reschedule(True)
        t.wake = None

    def go(self):
        self.run.steps += 1
        self.reschedule(True)
        self.main_sem.acquire()
        self.cur = -1
        if self.dead and self.run.status == 2:
            raise Stop()


class NoPreempt:
    def __init__(self, sched):
        self.s = sched

    def __enter__(self):
        self.s.off += 1

    def __exit__(self, *a):
        self.s.off -= 1


def sim_threading(sched_ref):
    """A `threading` module whose threads, locks and events are simulated."""
    m = types.ModuleType("threading")
    S = sched_ref

    class Thread:
        _n = 0

        def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
            Thread._n += 1
            self._target, self._args, self._kwargs = target, args, kwargs or {}
            self._name = name or "Thread-%d" % Thread._n
            self._daemon = bool(daemon)
            self._simstarted = False
            self._tid = None
            self._error = None
            self._init = True

        name = property(lambda s: s._name, lambda s, v: setattr(s, "_name", v))
        daemon = property(lambda s: s._daemon, lambda s, v: setattr(s, "_daemon", v))
        ident = property(lambda s: s._tid)

        def setDaemon(self, v):
            self._daemon = v

        def run(self):
            if self._target:
                self._target(*self._args, **self._kwargs)

        def start(self):
            if not getattr(self, "_init", False):
                raise RuntimeError("thread.__init__() not called")
            if self._simstarted:
                raise RuntimeError("threads can only be started once")
            self._simstarted = True

            def body():
                try:
                    self.run()
                except (Exception, SystemExit) as e:     # as threading.excepthook: reported, thread ends
                    self._error = e
                    S().run.note("thread ended by", repr(e))

            self._tid = S().spawn(self._name, body)
            S().tick()

        def is_alive(self):
            return self._simstarted and not S().tasks[self._tid].done

        isAlive = is_alive

        def join(self, timeout=None):
            if not self._simstarted:
                raise RuntimeError("cannot join thread before it is started")
            if S().cur == self._tid:
                raise RuntimeError("cannot join current thread")
            if timeout is None:
                S().block(lambda: S().tasks[self._tid].done, "join")
            else:
                wait(lambda: S().tasks[self._tid].done, timeout, "join")

    def wait(cond, timeout, what):
        s = S()
        if timeout is None:
            s.block(cond, what)
            return True
        end = s.now + timeout
        t = s.tasks[s.cur]
        while not cond():
            if s.now >= end:
                return False
            t.wake, t.cond, t.what = None, None, what
            # woken by the condition or by the clock
            t.cond = lambda: cond() or s.now >= end
            w = s
            t.wake = None
            if not any(w.runnable(k) for k in range(len(w.tasks)) if k != w.cur):
                t.cond = None
                s.sleep(min(end - s.now, 1e-3))
            else:
                s.run.steps += 1
                s.reschedule(True)
            t.cond = None
        return True

    class Lock:
        def __init__(self):
            self._o = None
            self._c = 0

        def acquire(self, blocking=True, timeout=-1):
            s = S()
            s.tick()
            if self._o is not None:
                s.run.probe("lock_contended")
                if not blocking:
                    return False
                if timeout is not None and timeout >= 0:
                    if not wait(lambda: self._o is None, timeout, "lock"):
                        return False
                else:
                    s.block(lambda: self._o is None, "lock")
            self._o = s.cur
            return True

        def release(self):
            if self._o is None:
                raise RuntimeError("release unlocked lock")
            self._o = None
            S().tick()

        def locked(self):
            return self._o is not None

        def __enter__(self):
            self.acquire()
            return True

        def __exit__(self, *a):
            self.release()

    class RLock(Lock):
        def acquire(self, blocking=True, timeout=-1):
            if self._o is not None and self._o == S().cur:
                self._c += 1
                return True
            if not Lock.acquire(self, blocking, timeout):
                return False
            self._c = 1
            return True

        def release(self):
            if self._o != S().cur:
                raise RuntimeError("cannot release un-acquired lock")
            self._c -= 1
            if self._c == 0:
                Lock.release(self)

    class Event:
        def __init__(self):
            self._f = False

        def is_set(self):
            S().tick()
            return self._f

        isSet = is_set

        def set(self):
            self._f = True
            S().tick()

        def clear(self):
            self._f = False
            S().tick()

        def wait(self, timeout=None):
            S().tick()
            return wait(lambda: self._f, timeout, "event")

    class Condition:
        def __init__(self, lock=None):
            self._l = lock or RLock()
            self._w = []
            self.acquire, self.release = self._l.acquire, self._l.release

        def __enter__(self):
            self._l.acquire()
            return self

        def __exit__(self, *a):
            self._l.release()

        def wait(self, timeout=None):
            tok = [False]
            self._w.append(tok)
            self._l.release()
            r = wait(lambda: tok[0], timeout, "condition")
            if tok in self._w:
                self._w.remove(tok)
            self._l.acquire()
            return r

        def wait_for(self, pred, timeout=None):
            while not pred():
                if not self.wait(timeout) and timeout is not None:
                    return pred()
            return True

        def notify(self, n=1):
            for tok in self._w[:n]:
                tok[0] = True
                self._w.remove(tok)

        def notify_all(self):
            self.notify(len(self._w))

        notifyAll = notify_all

    class _Cur:
        def __init__(self):
            self.ident = S().cur
            self.name = S().tasks[S().cur].name if S().cur >= 0 else "MainThread"

    m.Thread, m.Lock, m.RLock, m.Event, m.Condition = Thread, Lock, RLock, Event, Condition
    m.current_thread = lambda: _Cur()
    m.currentThread = m.current_thread
    m.get_ident = lambda: S().cur
    m.main_thread = lambda: _Cur()
    m.local = real_threading.local
    m.settrace = lambda f: None
    return m


def sim_time_module(sched_ref):
    m = types.ModuleType("time")
    m.sleep = lambda dt: sched_ref().sleep(dt)
    m.time = lambda: 1.7e9 + sched_ref().now
    m.monotonic = lambda: sched_ref().now
    m.perf_counter = m.monotonic
    m.clock = m.monotonic
    m.time_ns = lambda: int(m.time() * 1e9)
    m.monotonic_ns = lambda: int(m.monotonic() * 1e9)
    for n in ("strftime", "localtime", "gmtime", "struct_time"):
        setattr(m, n, getattr(real_time, n))
    return m


# ------------------------------------------------------------------ faulty files
class Disk:
    """Faults of the scratch disk."""

    def __init__(self, run):
        self.run = run
        self.free = None          # bytes before ENOSPC
        self.fail_open = 0
        self.open_errno = _errno.EACCES
        self.fail_write = 0
        self.short_write = 0
        self.crash_after_writes = None
        self.writes = 0
        self.open_now = 0
        self.mapping = None       # optional path rewriting

    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if isinstance(file, int) or not isinstance(file, (str, os.PathLike)):
            return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        p = os.fspath(file)
        if self.mapping:
            p = self.mapping(p)
        if not any(c in mode for c in "wax+"):
            return real_open(p, mode, buffering, encoding, errors, newline, closefd, opener)
        if self.fail_open > 0:
            self.fail_open -= 1
            self.run.fault("open_error")
            raise OSError(self.open_errno, os.strerror(self.open_errno), p)
        disk = self
        binary = "b" in mode

        class Raw(io.FileIO):
            def write(self, b):
                n = len(b)
                disk.writes += 1
                if disk.crash_after_writes is not None and disk.writes > disk.crash_after_writes:
                    os._exit(77)
                if disk.fail_write > 0:
                    disk.fail_write -= 1
                    disk.run.fault("write_error")
                    raise OSError(_errno.EIO, "Input/output error")
                if disk.free is not None:
                    if disk.free <= 0:
                        disk.run.fault("disk_full")
                        raise OSError(_errno.ENOSPC, "No space left on device")
                    if n > disk.free:
                        disk.run.fault("torn_write")
                        n = disk.free
                if disk.short_write > 0 and n > 1:
                    disk.short_write -= 1
                    disk.run.fault("short_write")
                    n = n // 2
                k = io.FileIO.write(self, bytes(b[:n]))
                if disk.free is not None:
                    disk.free -= k
                return k

        raw = Raw(p, "".join(c for c in mode if c in "rwax+"), closefd, opener)
        if buffering == 0:
            return raw
        buf = (io.BufferedRandom if "+" in mode else io.BufferedWriter)(raw, buffering if buffering > 1 else 8192)
        if binary:
            return buf
        return io.TextIOWrapper(buf, encoding or "utf-8", errors, newline, line_buffering=(buffering == 1))


# ------------------------------------------------------------------ loading repo modules
class _Anything(types.ModuleType):
    pass


def load_repo(names, stubs=None, env=None):
    """Imports repository modules by dotted name with stub dependencies."""
    for n, m in (stubs or {}).items():
        sys.modules[n] = m
    for pkg, d in (("dynamic_graph", "dynamic_graph"), ("dynamic_graph.sot", "dynamic_graph/sot"),
                   ("dynamic_graph.sot.core", "dynamic_graph/sot/core"),
                   ("dynamic_graph.sot.core.utils", "dynamic_graph/sot/core/utils")):
        if pkg not in sys.modules:
            sys.modules[pkg] = types.ModuleType(pkg)
        sys.modules[pkg].__path__ = [os.path.join(SRC, d)]
        if "." in pkg:
            par, _, leaf = pkg.rpartition(".")
            setattr(sys.modules[par], leaf, sys.modules[pkg])
    saved = {}
    for k, v in (env or {}).items():
        saved[k] = sys.modules.get(k)
        sys.modules[k] = v
    out = []
    try:
        for n in names:
            out.append(importlib.import_module(n))
    finally:
        for k, v in saved.items():
            if v is None:
                del sys.modules[k]
            else:
                sys.modules[k] = v
    return out


# ------------------------------------------------------------------ driver
def fresh_plan(world, seed):
    ops = world.generate(Rng(seed))
    return {"seed": seed, "ops": ops, "fixed": None}


def child(world, plan, known, scratch, w, verbose):
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    signal.setitimer(signal.ITIMER_PROF, world.cpu_limit)
    os.chdir(scratch)
    if not verbose:
        dn = os.open(os.devnull, os.O_WRONLY)
        os.dup2(dn, 1)
        os.dup2(dn, 2)
    run = Run(plan, known, verbose)
    try:
        if world.unprivileged:
            os.setgid(65534)
            os.setuid(65534)
        world.execute(run, plan["ops"])
    except Stop:
        pass
    except BaseException as e:  # noqa
        if verbose:
            traceback.print_exc()
        if run.status != 2:
            run.status = 2
            run.key = "uncaught-exception"
            tb = traceback.extract_tb(e.__traceback__)[-1]
            run.msg = "%r escaped (%s:%s)" % (e, os.path.basename(tb.filename), tb.name)
            run.h.update(run.msg.encode())
    res = dict(status=run.status, key=run.key, msg=run.msg, hash=run.h.hexdigest()[:16],
               shape=run.shape.hexdigest()[:16], steps=run.steps, checks=run.nchecks, simtime=run.simtime,
               faults=run.faults, probes=run.probes, cov=list(run.cov), known=run.knownseen, preempts=run.preempts,
               rec=run.sched.rec if run.sched else [])
    data = pickle.dumps(res)
    while data:
        n = os.write(w, data)
        data = data[n:]
    os._exit(0)


def run_forked(world, plan, known, scratch, verbose=False):
    os.makedirs(scratch, exist_ok=True)
    if world.unprivileged:
        os.chmod(scratch, 0o777)
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            child(world, plan, known, scratch, w, verbose)
        finally:
            os._exit(70)
    os.close(w)
    data = b""
    while True:
        b = os.read(r, 1 << 16)
        if not b:
            break
        data += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    shutil.rmtree(scratch, ignore_errors=True)
    try:
        return pickle.loads(data)
    except Exception:
        key = "hang" if os.WIFSIGNALED(st) and os.WTERMSIG(st) in (signal.SIGPROF, signal.SIGALRM) else "process-ended-%d" % st
        return dict(status=2, key=key, msg="the simulated process ended (%s)" % key, hash="0" * 16, shape="0" * 16,
                    steps=0, checks=0, simtime=0.0, faults={}, probes={}, cov=[], known={}, preempts=0, rec=[])


def write_plan(world, path, plan, res=None):
    with real_open(path, "w") as f:
        f.write("property %s\nseed %d\n" % (world.property, plan["seed"]))
        if res:
            f.write("expect-key %s\nexpect-hash %s\nmessage %s\n" % (json.dumps(res["key"]), res["hash"], json.dumps(res["msg"])))
        f.write("sched " + json.dumps(plan["fixed"]) + "\n")
        for o in plan["ops"]:
            f.write("op " + json.dumps(o) + "\n")


def read_plan(path):
    plan = {"seed": 0, "ops": [], "fixed": None}
    key = h = None
    for line in real_open(path):
        w, _, rest = line.rstrip("\n").partition(" ")
        if w == "seed":
            plan["seed"] = int(rest)
        elif w == "expect-key":
            key = json.loads(rest) if rest.startswith('"') else rest
        elif w == "expect-hash":
            h = rest
        elif w == "sched":
            plan["fixed"] = json.loads(rest)
        elif w == "op":
            plan["ops"].append(json.loads(rest))
    return plan, key, h


def explore(world, base, runs, cap, workers, out, known, root):
    t0 = real_time.monotonic()
    shared = mmap.mmap(-1, 64)
    lock = real_threading.Lock()
    # static partition keeps it simple; the first violating index stops others
    cnt = array.array
    best = mmap.mmap(-1, 8 * workers)
    best.write(struct.pack("q", 1 << 60) * workers)
    pids = []
    for w in range(workers):
        pid = os.fork()
        if pid == 0:
            tot = dict(runs=0, steps=0, checks=0, preempts=0, viol=0, trouble=0, simtime=0.0)
            S, N, C, F, P, K, KS, samples, viols = set(), set(), set(), {}, {}, {}, {}, {}, []
            try:
                k = w
                while k < runs:
                    b = min(struct.unpack("%dq" % workers, best[0:8 * workers]))
                    if k > b or real_time.monotonic() - t0 > cap:
                        break
                    seed = base + k
                    plan = fresh_plan(world, seed)
                    r = run_forked(world, plan, known, os.path.join(root, "w%d" % w))
                    tot["runs"] += 1
                    tot["steps"] += r["steps"]
                    tot["checks"] += r["checks"]
                    tot["preempts"] += r["preempts"]
                    tot["simtime"] += r["simtime"]
                    S.add(r["shape"])
                    if r["faults"] or r["preempts"]:
                        N.add(r["shape"])
                        tot["trouble"] += 1
                    C.update(r["cov"])
                    for d, src in ((F, r["faults"]), (P, r["probes"]), (K, r["known"])):
                        for a, n in src.items():
                            d[a] = d.get(a, 0) + n
                    for a in r["known"]:
                        KS.setdefault(a, seed)
                    if k < 24:
                        samples[str(seed)] = r["hash"]
                    if r["status"] == 2:
                        tot["viol"] += 1
                        viols.append(dict(seed=seed, key=r["key"], hash=r["hash"], msg=r["msg"]))
                        best[8 * w:8 * w + 8] = struct.pack("q", min(k, struct.unpack("q", best[8 * w:8 * w + 8])[0]))
                    k += workers
                with real_open(os.path.join(root, "res%d" % w), "wb") as f:
                    pickle.dump((tot, S, N, C, F, P, K, KS, samples, viols), f)
                os._exit(0)
            except BaseException:
                traceback.print_exc()
                os._exit(1)
        pids.append(pid)
    bad = False
    for p in pids:
        _, st = os.waitpid(p, 0)
        bad |= st != 0
    tot = dict(runs=0, steps=0, checks=0, preempts=0, viol=0, trouble=0, simtime=0.0)
    S, N, C, F, P, K, KS, samples, viols = set(), set(), set(), {}, {}, {}, {}, {}, []
    for w in range(workers):
        try:
            with real_open(os.path.join(root, "res%d" % w), "rb") as f:
                t, s, n, c, fa, pr, kn, ks, sa, vi = pickle.load(f)
        except OSError:
            bad = True
            continue
        for a in tot:
            tot[a] += t[a]
        S |= s
        N |= n
        C |= c
        for d, src in ((F, fa), (P, pr), (K, kn)):
            for a, x in src.items():
                d[a] = d.get(a, 0) + x
        KS.update(ks)
        samples.update(sa)
        viols += vi
    viols.sort(key=lambda v: v["seed"])
    res = {"property": world.property, "runs": tot["runs"], "steps": tot["steps"], "oracle_checks": tot["checks"],
           "preemptions": tot["preempts"], "violating_runs": tot["viol"], "runs_with_fault_or_preemption": tot["trouble"],
           "sim_time": tot["simtime"], "distinct_shapes": len(S), "distinct_nontrivial": len(N), "distinct_states": len(C),
           "explore_wall_s": real_time.monotonic() - t0, "first_seed": base, "worker_error": bad, "rule": world.rule,
           "sim_time_meaning": world.sim_time_meaning, "real_components": world.real_components,
           "stub_components": world.stub_components, "assumptions": world.assumptions, "faults": F, "probes": P,
           "known": {a: [K[a], KS.get(a)] for a in K}, "samples": samples, "violations": viols}
    with real_open(out, "w") as f:
        json.dump(res, f)


def minimise(world, seed, key, out, cap, known, root):
    t0 = real_time.monotonic()
    sc = os.path.join(root, "m")
    state = {"n": 0}

    def same(plan):
        state["n"] += 1
        r = run_forked(world, plan, known, sc)
        return r if r["status"] == 2 and r["key"] == key else None

    best = fresh_plan(world, seed)
    r = same(best)
    if not r:
        return 2
    if r["rec"]:
        q = dict(best, fixed=r["rec"])
        if same(q):
            best = q
    progress = True
    while progress and real_time.monotonic() - t0 < cap:
        progress = False
        for what in ("ops", "fixed"):
            if not best[what]:
                continue
            n = max(1, len(best[what]) // 2)
            while n >= 1 and real_time.monotonic() - t0 < cap:
                at = 0
                while at < len(best[what]) and real_time.monotonic() - t0 < cap:
                    q = dict(best)
                    q[what] = best[what][:at] + best[what][at + n:]
                    rr = same(q)
                    if not rr and what == "ops" and best["fixed"] is not None:
                        q["fixed"] = None
                        rr = same(q)
                        if rr:
                            q["fixed"] = rr["rec"]
                            rr = same(q)
                    if rr:
                        best = q
                        progress = True
                    else:
                        at += n
                if n == 1:
                    break
                n //= 2
    r = same(best)
    if not r:
        return 2
    write_plan(world, out, best, r)
    print("minimised ops=%d switches=%d executions=%d hash=%s" % (len(best["ops"]), len(best["fixed"] or []), state["n"], r["hash"]))
    return 0


class World:
    property = "?"
    rule = ""
    sim_time_meaning = "simulated seconds"
    real_components = []
    stub_components = []
    assumptions = []
    cpu_limit = 10.0
    unprivileged = False


def main(world):
    sys.setswitchinterval(1000)
    a = {}
    argv = sys.argv[1:]
    k = 0
    while k < len(argv):
        n = argv[k][2:]
        if k + 1 < len(argv) and not argv[k + 1].startswith("--"):
            a[n] = argv[k + 1]
            k += 2
        else:
            a[n] = "1"
            k += 1
    known = set()
    if "known" in a:
        known = {x.strip() for x in real_open(a["known"]) if x.strip()}
    root = tempfile.mkdtemp(prefix="sim", dir=a.get("tmp"))
    if world.unprivileged:
        os.chmod(root, 0o755)
        if "tmp" in a:
            os.chmod(a["tmp"], 0o755)
    rc = 0
    try:
        if "explore" in a:
            explore(world, int(a["seed"]), int(a["runs"]), float(a["cap"]), int(a["workers"]), a["out"], known, root)
        elif "one" in a:
            plan = fresh_plan(world, int(a["one"]))
            if "dump" in a:
                write_plan(world, a["dump"], plan)
            r = run_forked(world, plan, known, os.path.join(root, "o"), "verbose" in a)
            print("RESULT %d %s %s %s" % (r["status"], r["key"] or "-", r["hash"], r["msg"]))
        elif "hashes" in a:
            for s in a["hashes"].split(","):
                r = run_forked(world, fresh_plan(world, int(s)), known, os.path.join(root, "h"))
                print(s, r["hash"])
        elif "minimise" in a:
            rc = minimise(world, int(a["minimise"]), a["key"], a["out"], float(a.get("cap", 20)), known, root)
        elif "plan" in a:
            plan, key, h = read_plan(a["plan"])
            r = run_forked(world, plan, known, os.path.join(root, "p"), "verbose" in a)
            same = r["status"] == 2 and r["key"] == key and r["hash"] == h
            print("RESULT %d %s %s %s\n%s" % (r["status"], r["key"] or "-", r["hash"], r["msg"],
                                            "REPRODUCED" if same else "DIFFERENT" if r["status"] == 2 else "NOT-REPRODUCED"))
            rc = 1 if same else 2 if r["status"] == 2 else 0
        else:
            rc = 2
    finally:
        shutil.rmtree(root, ignore_errors=True)
    sys.exit(rc)
