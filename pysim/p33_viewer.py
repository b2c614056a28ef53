"""P33: showing or logging a robot never changes its motion, and shows each motion once."""
import builtins
import errno
import glob
import io
import os
import sys
import types
import warnings
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np  # noqa: E402
import simcore as sc  # noqa: E402

warnings.simplefilter("ignore")
NAMES = ["robot", "robot_device", "hrp10small", "dyn"]


class Lost(Exception):
    pass


class W(sc.World):
    property = "P33"
    rule = ("seeded histories of up to 5 robots of two classes: viewers attached (full or small robots, attached again, to some of the robots of a "
            "class only), motions, changes of state, callbacks of the display, pings, logs of the viewer; the viewer is absent, refuses the "
            "connection or is lost and comes back, motions and display callbacks fail, the log file cannot be opened or written, the disk is "
            "full; the log is read as a crash of the process would leave it; non-trivial when a fault fired")
    sim_time_meaning = "control cycles"
    real_components = ["src/dynamic_graph/sot/core/utils/viewer_helper.py", "src/dynamic_graph/sot/core/utils/viewer_loger.py"]
    stub_components = ["robots (state signal, increment, set)", "robot viewer client", "/tmp (mapped to a scratch directory, disk faults)"]
    assumptions = ["a crash ends the process only: what was handed to the operating system survives",
                   "one log at a time; a new log starts from an empty file"]

    def generate(self, r):
        n = r.range(1, 5)
        clean = r.chance(1, 6)
        ops = []
        for i in range(n):
            ops.append(["robot", i, r.range(0, 1), r.range(0, 5), r.pick([0, 1, 6, 36]), r.range(0, 1)])
        for _ in range(r.range(5, 60)):
            i = r.range(0, n - 1)
            f = 0 if clean else r.weighted([8, 1, 1, 1])
            c = r.weighted([5, 8, 4, 2, 3, 1, 2, 0 if clean else 2, 4, 1])
            if c == 0:
                ops.append(["attach", i, r.range(0, 2), r.pick([0, 1, 10]), r.range(0, 1), f, r.range(0, 2)])
            elif c == 1:
                ops.append(["move", i, r.range(1, 9), f])
            elif c == 2:
                ops.append(["set", i, r.range(0, 10 ** 6), f])
            elif c == 3:
                ops.append(["callback", i, f])
            elif c == 4:
                ops.append(["log", i])
            elif c == 5:
                ops.append(["ping", i, r.range(1, 4)])
            elif c == 6:
                ops.append(["com", i, r.range(0, 2)])
            elif c == 7:
                ops.append(["disk", r.range(0, 4), r.range(0, 4), r.range(0, 300)])
            elif c == 8:
                ops.append(["direct", i, r.range(0, 3), r.range(0, 10 ** 6), f])
            else:
                ops.append(["crash"])
        return ops

    def execute(self, run, ops):
        scratch = os.path.realpath(os.getcwd())
        disk = sc.Disk(run)
        real = dict(glob=glob.glob, remove=os.remove, unlink=os.unlink, scandir=os.scandir, listdir=os.listdir)

        def here(p):
            if not isinstance(p, (str, os.PathLike)):
                return p
            q = os.fspath(p)
            if q.startswith("/tmp/") and not q.startswith(scratch):
                return scratch + "/tmp" + q[4:]
            return scratch + "/tmp" if q == "/tmp" else q

        def away(p):
            return "/tmp" + p[len(scratch) + 4:] if isinstance(p, str) and p.startswith(scratch + "/tmp") else p

        def drop(p, **kw):
            h = here(p)
            if not os.path.realpath(h).startswith(scratch):
                run.fail("removes-elsewhere", "%s would be removed" % p)
            real["remove"](h)
        os.mkdir(scratch + "/tmp")
        for n in ("view_old.dat", "viewer.dat", "view.dat.bak", "keep.dat", "preview.dat"):
            with sc.real_open(scratch + "/tmp/" + n, "w") as f:
                f.write("old\n")
        disk.mapping = here
        glob.glob = lambda p, **kw: [away(x) for x in sorted(real["glob"](here(p), **kw))]
        os.remove = os.unlink = drop
        os.scandir = lambda p=".": real["scandir"](here(p))
        os.listdir = lambda p=".": real["listdir"](here(p))
        builtins.open = io.open = disk.open
        try:
            self.body(run, ops, disk, scratch)
        finally:
            os.remove, os.unlink, os.scandir, os.listdir = real["remove"], real["unlink"], real["scandir"], real["listdir"]
            builtins.open = io.open = sc.real_open

    def body(self, run, ops, disk, scratch):
        base = "dynamic_graph.sot.core.utils."
        vh, vl = sc.load_repo([base + "viewer_helper", base + "viewer_loger"])
        now = [0]
        shown = []          # what the viewer was given: (name, values)
        state = dict(refuse=0, lost=0)

        class Client:
            def __init__(self, server):
                self.server = server

            def updateElementConfig(self, name, conf):
                if state["lost"] > 0:
                    state["lost"] -= 1
                    run.fault("viewer_lost")
                    raise Lost("viewer")
                shown.append((name, [float(x) for x in conf], self.server))

        def client(server="?"):
            if state["refuse"] == 1:
                run.fault("connection_refused")
                raise Lost("connection refused")
            return Client(server)

        class State:
            def __init__(self, n, array):
                self.n, self.array, self.v, self.time = n, array, [0.0] * n, 0

            value = property(lambda s: np.array(s.v) if s.array else tuple(s.v))

        def makeclass(k):
            class Robot:
                def __init__(self, name, n, array):
                    self.name, self.state, self.moves, self.sets, self.failmove = name, State(n, array), [], [], 0

                def increment(self, dt):
                    if self.failmove:
                        self.failmove = 0
                        run.fault("motion_fails")
                        raise ArithmeticError("motion")
                    self.moves.append(dt)
                    now[0] += 1
                    run.simtime += 1
                    self.state.time = now[0]
                    self.state.v = [x + 0.5 * dt + 0.1 * j for j, x in enumerate(self.state.v)]

                def set(self, v):
                    if self.failmove:
                        self.failmove = 0
                        run.fault("motion_fails")
                        raise ArithmeticError("set")
                    self.sets.append(tuple(v))
                    self.state.v = list(v)
            Robot.__name__ = "Robot%d" % k
            return Robot
        classes = [makeclass(0), makeclass(1)]

        class A:
            pass
        robots, log = {}, None

        def attempt(f):
            so, sys.stdout = sys.stdout, io.StringIO()
            try:
                f()
                return None, sys.stdout.getvalue()
            except Exception as e:
                return e, sys.stdout.getvalue()
            finally:
                sys.stdout = so

        def display(a):
            """What the viewer is to be given when the robot is refreshed."""
            n = "hrp" if a.o.name in ("robot", "robot_device") else a.o.name
            return (n, list(a.o.state.v) + [0.0] * a.extra, a.server)

        def readlog(where):
            if log is None or not log.rows:
                return
            per = {}
            for n, row, ok in log.rows:
                per.setdefault(n, []).append((row, ok))
            for n, rows in per.items():
                p = scratch + "/tmp/view_" + n + ".dat"
                run.check(len(rows))
                if not os.path.exists(p):
                    if any(ok for _, ok in rows):
                        run.fail("log-missing", "%s: there is no log of %s" % (where, n))
                    continue
                with sc.real_open(p) as f:
                    txt = f.read()
                last = rows[-1][1]
                if txt and not txt.endswith("\n") and last:
                    run.fail("log-cut", "%s: the log of %s ends in the middle of a line" % (where, n))
                lines = txt.split("\n")[:-1]
                got = []
                for x in lines:
                    try:
                        got.append([float(v) for v in x.split("\t")])
                    except ValueError:
                        run.fail("log-line", "%s: the log of %s has the line %r" % (where, n, x[:80]))
                at = {0}        # how many lines are explained, a row whose call failed may be there or not
                for row, ok in rows:
                    nxt = {k + 1 for k in at if k < len(got) and got[k] == row} | (set() if ok else at)
                    if not nxt:
                        run.fail("log-lost", "%s: the log of %s has not the row %s of time %g (%d lines for %d rows)" % (where, n, row[1:4], row[0], len(got), len(rows)))
                        return
                    at = nxt
                if len(got) not in at:
                    run.fail("log-invented", "%s: the log of %s has the line %s" % (where, n, got[max(at)][:4]))

        def watch(a, what, f, moved):
            """Runs a motion and checks what was done and shown. moved(o): the record of what the robot did."""
            o, lost = a.o, state["lost"]
            before, nshown, fails = len(moved(o)), len(shown), o.failmove
            calls = [c.n for c in a.calls]
            diskf = sum(run.faults.get(k, 0) for k in ("open_error", "write_error", "disk_full"))
            logged = log is not None and log.robot is a
            err, _ = attempt(f)
            diskf = sum(run.faults.get(k, 0) for k in ("open_error", "write_error", "disk_full")) - diskf
            run.check(4)
            n = len(moved(o)) - before
            if n != (0 if fails else 1):
                run.fail("motion-count", "%s: robot %s moved %d times" % (what, o.name, n))
            new = shown[nshown:]
            if fails:
                if not isinstance(err, ArithmeticError):
                    run.fail("failure-hidden", "%s: the failed motion of %s ended with %r" % (what, o.name, err))
                if new or [c.n for c in a.calls] != calls:
                    run.fail("shown-failed", "%s: a motion that failed was shown" % what)
                return
            if not a.attached:
                if err is not None:
                    run.fail("motion-raised", "%s: robot %s has no viewer and raised %r" % (what, o.name, err))
                if new:
                    run.fail("shown-invented", "%s: robot %s has no viewer, %s was shown" % (what, o.name, new[0][0]))
                return
            want = display(a)
            if logged:
                log.rows.append((want[0], [float(o.state.time)] + want[1], err is None or (diskf == 0)))
            if a.live and lost:
                if new or [c.n for c in a.calls] != calls and err is not None:
                    run.fail("shown-lost", "%s: something was shown by a viewer that was lost" % what)
                if err is not None and not isinstance(err, Lost) and not diskf:
                    run.fail("motion-raised", "%s: robot %s raised %r" % (what, o.name, err))
                return
            if logged and diskf:
                return      # the log failed: its error, or the display without the log
            bad = next((c for c in a.calls if c.fails), None)
            if err is not None and not (bad and isinstance(err, LookupError)):
                run.fail("motion-raised", "%s: robot %s raised %r" % (what, o.name, err))
            if a.live:
                if len(new) != 1:
                    run.fail("shown-count", "%s: robot %s was shown %d times" % (what, o.name, len(new)))
                if new[0][0] != want[0] or new[0][1] != want[1]:
                    run.fail("shown-value", "%s: %s %s was shown, it is %s %s" % (what, new[0][0], new[0][1][:8], want[0], want[1][:8]))
                if new[0][2] != want[2]:
                    run.fail("server", "%s: robot %s is shown by the server %s, %s was asked for" % (what, o.name, new[0][2], want[2]))
            elif new:
                run.fail("shown-invented", "%s: robot %s has no viewer, %s was shown" % (what, o.name, new[0][0]))
            for c, k in zip(a.calls, calls):
                if c is bad:
                    break
                if c.n != k + 1:
                    run.fail("callback-count", "%s: a callback of the display of %s was called %d times" % (what, o.name, c.n - k))

        for o in ops:
            run.ev(*o)
            k = o[0]
            if k == "robot":
                if o[1] in robots:
                    continue
                a = A()
                nm = NAMES[o[3]] if o[3] < len(NAMES) else "r%d" % o[1]
                a.o, a.attached, a.live, a.extra, a.server, a.calls = classes[o[2]](nm, o[4], o[5]), False, False, 0, None, []
                a.cls = o[2]
                robots[o[1]] = a
                continue
            if k == "disk":
                disk.free, disk.fail_open, disk.fail_write, disk.short_write = None, 0, 0, 0
                if o[1] == 1:
                    disk.free = o[3]
                elif o[1] == 2:
                    disk.fail_open, disk.open_errno = 1, [errno.EACCES, errno.ENOSPC, errno.EROFS, errno.EMFILE, errno.EIO][o[2]]
                elif o[1] == 3:
                    disk.fail_write = o[2]
                elif o[1] == 4:
                    disk.short_write = o[2]
                continue
            if k == "crash":
                run.fault("crash")
                readlog("after a crash")
                continue
            if o[1] not in robots:
                continue
            a = robots[o[1]]
            if k == "attach":
                _, _, small, extra, refresh, f, srv = o
                if log is not None and log.robot is a:
                    readlog("before another viewer")
                    log = None      # the log was between the robot and its former viewer
                server = ["XML-RPC", "CORBA", None][srv]
                state["refuse"] = 1 if f == 2 else 0
                absent = f == 3
                state["lost"] = 1 if f == 1 else 0
                rv = types.ModuleType("robotviewer")
                rv.client = client
                sys.modules["robotviewer"] = None if absent else rv
                if absent:
                    run.fault("viewer_absent")
                kw = dict(dorefresh=bool(refresh))
                if small:
                    kw["small"] = True
                    if extra != 10:
                        kw["small_extra"] = extra
                if server:
                    kw["server"] = server
                if small == 2:
                    kw["verbose"] = False
                n0 = len(shown)
                moves = len(a.o.moves), len(a.o.sets)
                err, said = attempt(lambda: vh.addRobotViewer(a.o, **kw))
                ok = not (absent or state["refuse"] or (f == 1 and refresh))
                run.check(3)
                if err is not None:
                    run.fail("attach-raised", "attaching a viewer to %s raised %r" % (a.o.name, err))
                if (len(a.o.moves), len(a.o.sets)) != moves:
                    run.fail("motion-count", "attaching a viewer moved robot %s" % a.o.name)
                if small == 2 and said:
                    run.fail("verbose", "%r was printed, verbose is off" % said)
                if ok:
                    if "sorry" in said:
                        run.fail("attach-refused", "robot %s has no viewer though there is one (state: %s of %d values)" % (a.o.name, "array" if a.o.state.array else "tuple", a.o.state.n))
                    a.attached, a.live, a.extra, a.server, a.calls = True, True, extra if small else 0, server or "XML-RPC", []
                    if refresh and shown[n0:] != [display(a)]:
                        run.fail("attach-shown", "the viewer attached to %s was given %s, expected %s" % (a.o.name, [(x[0], len(x[1])) for x in shown[n0:]], (display(a)[0], len(display(a)[1]))))
                    run.probe("attached")
                else:
                    if small < 2 and not said:
                        run.fail("failure-hidden", "a viewer could not be attached and nothing was said")
                    a.live = False
                    if f == 1:
                        a.attached, a.calls = True, []
                        a.extra = extra if small else 0
                    if not isinstance(a.o.viewer, vh.RobotViewerFaked):
                        run.fail("attach-faked", "robot %s has no viewer and was not given a fake one" % a.o.name)
                    a.faked = True
                    run.probe("not_attached")
                    if not a.attached or f != 1:
                        a.attached = a.attached and hasattr(a.o, "displayList")
                state["refuse"], state["lost"] = 0, 0
            elif k in ("move", "set"):
                f = o[3]
                a.o.failmove = int(f == 1)
                state["lost"] = int(f == 2)
                if k == "move":
                    watch(a, "increment", lambda: a.o.increment(0.125 * o[2]), lambda x: x.moves)
                else:
                    v = [((o[2] + 7 * j) % 1000) / 64.0 for j in range(a.o.state.n)]
                    watch(a, "set", lambda: a.o.set(v), lambda x: x.sets)
                    if a.o.sets and f != 1 and a.o.sets[-1] != tuple(v):
                        run.fail("motion-value", "robot %s was set to something else" % a.o.name)
                state["lost"], a.o.failmove = 0, 0
            elif k == "callback":
                if not a.attached or not hasattr(a.o, "displayList") or len(a.calls) > 4:
                    continue
                c = A()
                c.n, c.fails = 0, int(o[2] == 3)

                def f(c=c):
                    if c.fails:
                        run.fault("callback_fails")
                        raise LookupError("callback")
                    c.n += 1
                a.o.displayList.append(f)
                a.calls.append(c)
            elif k == "log":
                if not a.live or log is not None:
                    continue
                err, _ = attempt(lambda: setattr(a.o, "viewer", vl.ViewerLoger(a.o)))
                if err is not None:
                    run.fail("log-raised", "logging the viewer of %s raised %r" % (a.o.name, err))
                log = A()
                log.robot, log.rows = a, []
                left = sorted(os.listdir(scratch + "/tmp"))
                if left != ["keep.dat", "preview.dat", "view.dat.bak"]:
                    run.fail("log-purge", "a new log leaves %s" % left)
            elif k == "ping":
                if not a.live or log is not None and log.robot is a:
                    continue
                n0 = len(shown)

                def pings():
                    p = vh.VisualPinger(a.o.viewer)
                    for _ in range(o[2]):
                        p()
                err, _ = attempt(pings)
                want = [("pong", [0.0, 0.9, j * 0.1, 0.0, 0.0, 0.0], a.server) for j in range(1, o[2] + 2)]
                if err is not None or shown[n0:] != want:
                    run.fail("ping", "%d pings showed %s (%r)" % (o[2], [x[1][2:3] for x in shown[n0:]], err))
            elif k == "com":
                if not hasattr(a.o, "viewer") or log is not None and log.robot is a:
                    continue
                n0 = len(shown)
                sig = types.SimpleNamespace(time=o[2] * now[0], value=np.array([0.5 * now[0], -1.0, 9.0]))
                err, _ = attempt(lambda: vh.updateComDisplay(a.o, sig))
                want = [("com", [0.5 * now[0], -1.0, 0.0, 0.0, 0.0, 0.0], a.server)] if a.live and sig.time > 0 else []
                if err is not None or shown[n0:] != want:
                    run.fail("com", "the center of mass at time %d showed %s (%r)" % (sig.time, shown[n0:], err))
            elif k == "direct":
                _, _, what, s, f = o
                if not a.live:
                    continue
                name, v = ["obj", "com", "hrp", "long name"][what], [((s + 3 * j) % 1000) / 8.0 for j in range(s % 7)]
                n0 = len(shown)
                state["lost"] = int(f == 2)
                form = tuple(v) if s % 3 == 0 else np.array(v) if s % 3 == 1 else v
                diskf = sum(run.faults.get(x, 0) for x in ("open_error", "write_error", "disk_full"))
                err, _ = attempt(lambda: a.o.viewer.updateElementConfig(name, form))
                diskf = sum(run.faults.get(x, 0) for x in ("open_error", "write_error", "disk_full")) - diskf
                if log is not None and log.robot is a:
                    log.rows.append((name, [float(a.o.state.time)] + v, diskf == 0))
                if diskf:
                    pass
                elif f == 2:
                    if not isinstance(err, Lost):
                        run.fail("failure-hidden", "the viewer was lost and %r was reported" % err)
                elif err is not None or shown[n0:] != [(name, v, a.server)]:
                    run.fail("forward", "%s %s was shown as %s (%r)" % (name, v, shown[n0:], err))
                state["lost"] = 0
            readlog(k) if run.nchecks % 5 == 0 else None
            run.cover(k, len(robots), tuple((x.attached, x.live, x.cls, x.extra) for x in robots.values()), log is not None and len(log.rows) > 0)
        disk.free, disk.fail_open, disk.fail_write, disk.short_write = None, 0, 0, 0
        readlog("at the end")


if __name__ == "__main__":
    sc.main(W())
