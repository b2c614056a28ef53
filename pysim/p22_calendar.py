"""P22: callbacks run at their programmed control time, once, in order."""
import sys
import os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import simcore as sc  # noqa: E402

ERRORS = [RuntimeError, ValueError, KeyError, StopIteration, ZeroDivisionError, AttributeError]


class W(sc.World):
    property = "P22"
    rule = ("seeded histories: 1-40 callbacks (functions, documented pairs, functor objects, decorated functions; some register, stop or "
            "fail when called) registered before, between, during (from callbacks) and concurrently with (from a script thread, "
            "preempted at any bytecode) the cycles of a control loop, with skipped and replayed times; non-trivial when a callback "
            "failed, the console failed or a preemption happened")
    sim_time_meaning = "control cycles"
    real_components = ["src/dynamic_graph/sot/core/utils/attime.py"]
    stub_components = ["control loop", "callbacks", "console"]
    assumptions = ["a failing callback or ping is reported to the caller and ends the cycle it is in",
                   "a callback registered for a time while that very time is being run by another thread may be run or not",
                   "a periodic callback registered or stopped while the periodic ones are being run may run in that cycle or not, "
                   "except that it never runs after it was stopped by the running thread"]

    def generate(self, r):
        ops = []
        nthreads = 1 if r.chance(3, 5) else r.range(2, 3)
        n = r.range(4, 60)
        cid = [0]
        clean = r.chance(1, 6)
        t = r.range(0, 5)

        def action(depth=0):
            k = r.weighted([60, 12 if depth < 2 else 0, 5 if depth < 2 else 0, 7, 0 if clean else 8])
            if k == 0:
                return ["none"]
            if k == 1:
                cid[0] += 1
                me = cid[0]
                return ["reg", r.weighted([3, 4, 2, 1]), me, r.range(0, 3), action(depth + 1)]
            if k == 2:
                cid[0] += 1
                me = cid[0]
                return ["always", me, action(depth + 1)]
            if k == 3:
                return ["stop", r.range(0, 30)]
            return ["fail", r.range(0, len(ERRORS) - 1), r.range(1, 3)]

        for _ in range(n):
            tid = r.range(1, nthreads - 1) if nthreads > 1 and r.chance(1, 2) else 0
            k = r.weighted([22, 8, 6, 3, 40, 3, 2, 2, 0 if clean else 2])
            if k == 0:
                cid[0] += 1
                ops.append(["reg", tid, t + r.weighted([2, 5, 5, 3, 2, 1]), cid[0], r.range(0, 6), action()])
            elif k == 1:
                cid[0] += 1
                ops.append(["always", tid, cid[0], r.range(0, 4), action()])
            elif k == 2:
                ops.append(["stop", tid, r.range(1, max(1, cid[0]))])
            elif k == 3:
                ops.append(["ping", tid])
            elif k == 4:
                m = r.weighted([10, 2, 1])
                t += 1 if m == 0 else r.range(2, 4) if m == 1 else 0
                ops.append(["run", 0, t, r.range(0, 2)])
            elif k == 5:
                ops.append(["repr", tid])
            elif k == 6:
                ops.append(["forward", 0, t + r.range(0, 3)])
            elif k == 7:
                ops.append(["multi", tid, t + r.range(0, 4), cid[0] + 1, cid[0] + 2])
                cid[0] += 2
            else:
                ops.append(["console", 0])
        return ops

    def execute(self, run, ops):
        (m,) = sc.load_repo(["dynamic_graph.sot.core.utils.attime"])
        cal = m.Calendar()
        sched = sc.Sched(run, sc.Rng(run.plan["seed"] ^ 0xABCDEF), run.plan["fixed"])
        run.sched = sched
        clock = [0]
        nextid = [100000]
        regs = []       # dict(id, when, beg, end, stopb, stope, pair)
        calls = []      # (id, seq, cycle)
        cycles = []     # dict(t, beg, end, failed, nargs)
        byid = {}
        pings = []      # (beg, end)
        nping = [0]
        console = [0]
        cur = [None]

        def now():
            clock[0] += 1
            return clock[0]

        def add(i, when, call, nested):
            e = dict(id=i, when=when, beg=now(), end=None, stopb=None, stope=None, nested=nested)
            regs.append(e)
            byid[i] = e
            call()
            e["end"] = now()

        def make(i, act, doc):
            state = dict(n=0)

            def fun(*args):
                with sc.NoPreempt(sched):
                    calls.append((i, now(), cur[0], sched.cur))
                    run.ev("call", i, len(args))
                    state["n"] += 1
                    c = cycles[cur[0]] if cur[0] is not None else None
                    if c is None:
                        run.fail("outside-cycle", "callback %d ran outside any cycle" % i)
                    if len(args) != c["nargs"]:
                        run.fail("arguments", "callback %d got %d arguments, the cycle was run with %d" % (i, len(args), c["nargs"]))
                if act[0] == "reg" and state["n"] <= 3:
                    when = cycles[cur[0]]["t"] + act[1]
                    nextid[0] += 1
                    j = nextid[0]
                    f = make(j, act[4], None)
                    add(j, when, lambda: cal(when, f), cur[0])
                    run.probe("callback_registers")
                elif act[0] == "always" and state["n"] <= 2:
                    nextid[0] += 1
                    j = nextid[0]
                    f = make(j, act[2], None)
                    add(j, "always", lambda: cal(m.ALWAYS, f), cur[0])
                    run.probe("callback_registers_periodic")
                elif act[0] == "stop":
                    stop(act[1])
                elif act[0] == "fail" and state["n"] % act[2] == 0:
                    run.fault("callback_raises")
                    cycles[cur[0]]["failed"] = True
                    raise ERRORS[act[1]]("callback %d" % i)
            fun.__doc__ = doc
            fun.cid = i
            return fun

        alive = {}      # id -> pair given to the calendar

        def stop(i):
            e = byid.get(i)
            if e is None or e["when"] != "always" or e["end"] is None or i not in alive:
                # never registered: refused or ignored, nothing else changes
                def other():
                    pass
                try:
                    cal.stop(other)
                except (ValueError, KeyError):
                    pass
                return
            pair = alive.pop(i)
            e["stopb"] = now()
            cal.stop(*pair)
            e["stope"] = now()
            run.probe("stop")

        def boom(*a):
            raise OSError(32, "Broken pipe")

        class Out:
            def __init__(self, o):
                self.o = o

            def write(self, s):
                if console[0] > 0:
                    console[0] -= 1
                    run.fault("console_error")
                    if cur[0] is not None:
                        cycles[cur[0]]["failed"] = True
                    boom()
                return len(s)

            def flush(self):
                pass

        sys.stdout = Out(sys.stdout)

        def perform(o):
            k = o[0]
            run.ev(k, *[x for x in o[1:] if not isinstance(x, list)])
            if k == "reg":
                _, _, when, i, kind, act = o
                doc = "doc %d." % i if kind in (1, 2, 3, 6) else None
                f = make(i, act, doc)
                if kind in (0, 1):
                    add(i, when, lambda: cal(when, f), None)
                elif kind == 2:
                    add(i, when, lambda: cal(when, f, "doc %d." % i), None)
                elif kind == 3:
                    add(i, when, lambda: cal.registerEvents(when, (f, "doc %d." % i)), None)
                elif kind == 4:
                    class Fn:
                        pass
                    g = Fn()
                    g.functor = f
                    add(i, when, lambda: cal(when, g), None)
                elif kind == 5:
                    add(i, when, lambda: cal.registerEvent(when, (f, "")), None)
                else:
                    def deco():
                        d = cal(when)(f)
                        d.cid = i
                    add(i, when, deco, None)
                byid[i]["doc"] = "doc %d." % i if doc or kind in (2, 3) else None
            elif k == "always":
                _, _, i, kind, act = o
                f = make(i, act, "doc %d." % i if kind % 2 else None)
                if kind < 2:
                    add(i, "always", lambda: cal(m.ALWAYS, f), None)
                    alive[i] = (f,)
                elif kind == 2:
                    add(i, "always", lambda: cal(m.ALWAYS, f, "doc %d." % i), None)
                    alive[i] = (f, "doc %d." % i)
                else:
                    add(i, "always", lambda: cal(m.ALWAYS, (f, "pair")), None)
                    alive[i] = ((f, "pair"),)
            elif k == "multi":
                _, _, when, a, b = o
                fa, fb = make(a, ["none"], None), make(b, ["none"], None)
                ea = dict(id=a, when=when, beg=now(), end=None, stopb=None, stope=None, nested=None)
                eb = dict(id=b, when=when, beg=ea["beg"], end=None, stopb=None, stope=None, nested=None)
                regs.extend([ea, eb])
                byid[a], byid[b] = ea, eb
                cal(when, fa, (fb, "b"))
                ea["end"] = eb["end"] = now()
                eb["after"] = a
            elif k == "stop":
                stop(o[2])
            elif k == "ping":
                b = now()

                def ping():
                    nping[0] += 1
                cal.addPing(ping)
                pings.append((b, now()))
            elif k == "run":
                cycle(o[2], o[3])
            elif k == "forward":
                forward(o[2])
            elif k == "repr":
                s = repr(cal)
                if sched.cur < 0 or len(tids) == 1:
                    for e in regs:
                        run.check()
                        if e.get("doc") and e["end"] is not None and e["doc"] not in s:
                            run.fail("display", "event %d is programmed and not displayed" % e["id"])
            elif k == "console":
                console[0] = 1

        def begin(t, nargs):
            cycles.append(dict(t=t, beg=now(), end=None, failed=False, nargs=nargs, pings=nping[0]))
            cur[0] = len(cycles) - 1
            return cycles[-1]

        def cycle(t, nargs):
            c = begin(t, nargs)
            err = None
            try:
                cal.run(t, *range(nargs))
            except (sc.Stop, sc.SimThreadDeath):
                raise
            except Exception as e:
                err = e
            c["end"] = now()
            cur[0] = None
            run.simtime += 1
            if (err is not None) != c["failed"]:
                run.fail("failure-hidden" if err is None else "cycle-raised",
                         "cycle %s %s" % (t, "hid the failure of a callback" if err is None else "raised %r though no callback failed" % err))
            c["npings"] = nping[0] - c["pings"]

        def forward(t):
            # replays the cycles 0..t: one run per time, seen through the calendar's own run
            real = cal.run
            seen = []

            def spy(i, *args):
                seen.append(i)
                return cycle2(real, i, args)
            cal.run = spy
            failed = [False]

            def cycle2(f, i, args):
                c = begin(i, len(args))
                try:
                    return f(i, *args)
                except Exception:
                    failed[0] = True
                    raise
                finally:
                    c["end"] = now()
                    cur[0] = None
                    c["npings"] = nping[0] - c["pings"]
                    run.simtime += 1
            try:
                cal.fastForward(t)
            except (sc.Stop, sc.SimThreadDeath):
                raise
            except Exception:
                if not failed[0]:
                    raise
            finally:
                del cal.run
            if not failed[0] and seen != list(range(t + 1)):
                run.fail("fast-forward", "fastForward(%d) ran the times %s" % (t, seen))
            run.probe("fast_forward")

        tids = sorted(set(o[1] for o in ops)) or [0]
        if len(tids) == 1:
            for o in ops:
                perform(o)
        else:
            for k in tids:
                mine = [o for o in ops if o[1] == k]

                def prog(mine=mine):
                    for o in mine:
                        perform(o)
                        with sc.NoPreempt(sched):
                            pass
                        sched.tick()
                sched.spawn("thread%d" % k, prog)
            sched.go()
        # ---- the history against the specification
        byc = {}
        for q, c in enumerate(calls):
            byc.setdefault(c[2], []).append(c)
        for ci, c in enumerate(cycles):
            got = byc.get(ci, [])
            seen = {}
            for i, s, _, _ in got:
                seen.setdefault(i, []).append(s)
            run.cover(len(got), c["failed"], len(tids), min(len(regs), 20))
            timed = 0
            for e in regs:
                if e["end"] is None:
                    e["end"] = 1 << 60
                n = len(seen.get(e["id"], []))
                if e["when"] == "always":
                    if e["end"] < c["beg"] and (e["stopb"] is None or e["stopb"] > c["end"]):
                        lo, hi = 1, 1
                    elif e["beg"] > c["end"] or (e["stope"] is not None and e["stope"] < c["beg"]):
                        lo, hi = 0, 0
                    else:
                        lo, hi = 0, 1
                elif e["when"] == c["t"]:
                    if e["end"] < c["beg"]:
                        lo, hi = 1, 1
                    elif e["beg"] > c["end"]:
                        lo, hi = 0, 0
                    elif e["nested"] == ci:
                        lo, hi = 1, 1
                    else:
                        lo, hi = 0, 1
                else:
                    lo, hi = 0, 0
                if c["failed"]:
                    lo = 0
                run.check()
                if n:
                    timed += e["when"] != "always"
                if n < lo:
                    run.fail("missed", "cycle of time %s did not run callback %d programmed for %s" % (c["t"], e["id"], e["when"]))
                if n > hi:
                    run.fail("extra", "cycle of time %s ran callback %d programmed for %s %d times" % (c["t"], e["id"], e["when"], n))
                if n and e["stope"] is not None and max(seen[e["id"]]) > e["stope"] and not (len(tids) > 1):
                    run.fail("after-stop", "periodic callback %d ran after it was stopped" % e["id"])
            # order of registration within the periodic ones and within those of this time
            order = [byid[i] for i, _, _, _ in got]
            for group in (True, False):
                g = [e for e in order if (e["when"] == "always") == group]
                for a in range(len(g)):
                    for b in range(a + 1, len(g)):
                        if g[b]["end"] < g[a]["beg"] or g[a].get("after") == g[b]["id"]:
                            run.fail("order", "cycle %s ran callback %d before %d, registered earlier for the same time" % (c["t"], g[a]["id"], g[b]["id"]))
            if not c["failed"] and len(tids) == 1:
                want = sum(1 for b, e in pings if e < c["beg"]) if timed and any(
                    e["when"] == c["t"] and (e["end"] < c["beg"] or e["nested"] == ci) for e in regs) else 0
                if c["npings"] != want:
                    run.fail("ping", "cycle of time %s with %d timed callbacks pinged %d times, expected %d" % (c["t"], timed, c["npings"], want))


if __name__ == "__main__":
    sc.main(W())
