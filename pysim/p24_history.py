"""P24: recorded motion restores and dumps exactly the states of the recorded times."""
import builtins
import errno
import io
import os
import sys
import types
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy  # noqa: E402 (imported once, before the runs are forked)
import simcore as sc  # noqa: E402


def close(a, b):
    return abs(a - b) <= 1e-9 * (1 + abs(a) + abs(b))


class W(sc.World):
    property = "P24"
    rule = ("seeded histories of 5-80 control cycles (late start, skipped and repeated cycles, time set back) of robots with 0-34 joints, signals giving tuples or arrays, "
            "with and without ZMP, signals failing in chosen cycles, interleaved with restores (recorded, between records, unknown times) "
            "and dumps under disk faults (open error, write error, short write, full disk) or followed by a crash of the process; "
            "non-trivial when a fault fired")
    sim_time_meaning = "control cycles"
    real_components = ["src/dynamic_graph/sot/core/utils/history.py", "src/dynamic_graph/sot/core/matrix_util.py"]
    stub_components = ["dynamic entity (position, velocity, waist signals)", "ZMP signal", "disk faults (real scratch files underneath)"]
    assumptions = ["a crash ends the process only: what was handed to the operating system survives",
                   "files left by a dump that reported an error are unspecified"]

    def generate(self, r):
        nq = 6 + r.weighted([3, 0, 0]) + r.pick([0, 1, 6, 12, 29, 30, 30, 34])
        freq = r.pick([1, 1, 2, 3, 10, 100])
        ops = [["setup", nq, freq, int(r.chance(1, 2)), r.range(0, 3), int(r.chance(1, 2))]]
        t = r.pick([0, 0, 0, 1, freq, 5 * freq + r.range(0, freq)])
        clean = r.chance(1, 5)
        for _ in range(r.range(5, 80)):
            k = r.weighted([50, 8, 6, 0 if clean else 4, 1])
            if k == 0:
                n = r.range(1, 6)
                ops.append(["cycles", t, n])
                t += n * (1 if r.chance(3, 4) else 0) + (r.range(1, 3 * freq) if r.chance(1, 3) else 0)
            elif k == 1:
                ops.append(["restore", r.range(0, max(1, t + freq))])
            elif k == 2:
                f = r.weighted([3, 2, 2, 2, 2, 2]) if not clean else 0
                ops.append(["dump", f, r.range(0, 4), r.range(0, 20000), int(r.chance(1, 2))])
            elif k == 3:
                ops.append(["fail", r.range(0, 3), t, t + r.range(1, 2 * freq)])
            else:
                t = max(0, t - r.range(1, 10 * freq))
        return ops

    def execute(self, run, ops):
        sig = types.SimpleNamespace
        names = ["dynamic_graph.sot.core.matrix_util", "dynamic_graph.sot.core.utils.history"]
        _, m = sc.load_repo(names)
        cur = dict(t=0, n=0, fail=[])

        def val(t, k, off):
            return 0.25 * k + 1e-3 * t + off + (1e-7 if k % 3 == 0 else 0) * t * t

        class Sig:
            def __init__(self, name, n, off, kind):
                self.name, self.n, self.off, self.kind = name, n, off, kind

            time = property(lambda s: cur["t"])

            @property
            def value(s):
                for k, a, b in cur["fail"]:
                    if k == s.kind and a <= cur["t"] <= b:
                        run.fault("signal_raises")
                        cur["failed"] = True
                        raise RuntimeError("signal " + s.name)
                if s.name == "waist":
                    x = 0.01 * cur["n"]
                    return form(((0., -1., 0., x), (1., 0., 0., 2.), (0., 0., 1., -x), (0., 0., 0., 1.)))
                return form(tuple(val(cur["n"], k, s.off) for k in range(s.n)))

        if not ops or ops[0][0] != "setup":
            return
        _, nq, freq, zmp, hasw, arrays = ops[0]
        form = numpy.array if arrays else tuple      # the values of signals are one or the other
        ent = sig(position=Sig("position", nq, 0.5, 0), velocity=Sig("velocity", nq, -3.0, 1), waist=Sig("waist", 4, 0, 2))
        zs = Sig("zmp", 3, 1.5, 3)
        ent.signals = lambda: [ent.position, ent.velocity] + ([ent.waist] if hasw else [])
        h = m.History(ent, freq, zs) if zmp else m.History(ent, freq)
        withz = bool(zmp and hasw)
        ref = []     # (time, q, qdot, z)
        disk = sc.Disk(run)
        out = []

        class Out:
            def write(self, s):
                out.append(s)
                return len(s)

            def flush(self):
                pass

        def check_files(base):
            def rows(ext):
                with sc.real_open(base + ext) as f:
                    txt = f.read()
                if txt and not txt.endswith("\n"):
                    run.fail("dump-cut", "%s ends in the middle of a line after a dump that reported success" % ext)
                return [[float(x) for x in line.split()] for line in txt.splitlines()]

            want = {".pos": [list(q[6:36]) + [0.0] * 10 for _, q, _, _ in ref],
                    ".hip": [list(q[3:6]) for _, q, _, _ in ref], ".waist": [list(q[0:6]) for _, q, _, _ in ref]}
            if withz:
                want[".zmp"] = [list(z) for _, _, _, z in ref]
            for ext, w in want.items():
                if not os.path.exists(base + ext):
                    run.fail("dump-missing", "no %s file after a dump that reported success" % ext)
                try:
                    got = rows(ext)
                except ValueError as e:
                    run.fail("dump-value", "%s holds something that is not a number: %s" % (ext, e))
                run.check(len(w) + 1)
                if len(got) != len(w):
                    run.fail("dump-lines", "%s has %d lines for %d recorded states" % (ext, len(got), len(w)))
                for k, (g, x) in enumerate(zip(got, w)):
                    x = [0.005 * k] + x
                    if len(g) != len(x) or not all(close(a, b) for a, b in zip(g, x)):
                        run.fail("dump-value", "line %d of %s is %s, the recorded state gives %s" % (k, ext, g[:8], x[:8]))
            with sc.real_open(base + "_pos0.py") as f:
                ns = {}
                try:
                    exec(f.read(), ns)
                    got = [float(x) for x in ns["dyninv_posinit"].split()]
                except Exception as e:
                    run.fail("dump-cut", "_pos0.py is not complete after a dump that reported success: %r" % e)
            x = [v * 180.0 / 3.141592653589793 for v in ref[0][1][6:36]] + [0.0] * 10
            if len(got) != len(x) or not all(close(a, b) for a, b in zip(got, x)):
                run.fail("dump-value", "_pos0.py holds %s, expected %s" % (got[:8], x[:8]))

        for no, o in enumerate(ops[1:]):
            run.ev(*o)
            if o[0] == "cycles":
                for t in range(o[1], o[1] + o[2]):
                    cur["t"] = t
                    cur["n"] += 1
                    cur["failed"] = False
                    err = None
                    try:
                        h.record()
                    except Exception as e:
                        err = e
                    run.simtime += 1
                    if err is not None and not cur["failed"]:
                        run.fail("record-raised", "recording time %d raised %r though no signal failed" % (t, err))
                    if cur["failed"] and err is None:
                        run.fail("failure-hidden", "recording time %d hid the failure of a signal" % t)
                    if t % freq == 0 and err is None:
                        z = None
                        if withz:
                            import numpy as np
                            w = np.array(ent.waist.value)
                            z = [float(v) for v in np.linalg.solve(w, np.array(tuple(zs.value) + (1,)))][:3]
                        ref.append((t, tuple(float(v) for v in ent.position.value), tuple(float(v) for v in ent.velocity.value), z))
                    run.check()
                    if len(h.q) != len(ref):
                        run.fail("record-count", "%d states are kept, %d were to be recorded" % (len(h.q), len(ref)))
            elif o[0] == "fail":
                cur["fail"].append((o[1], o[2], o[3]))
            elif o[0] == "restore":
                t = o[1]
                tk = t // freq * freq
                cand = [x for x in ref if x[0] == tk]
                del out[:]
                old, sys.stdout = sys.stdout, Out()
                err = None
                try:
                    h.restore(t)
                except Exception as e:
                    err = e
                finally:
                    sys.stdout = old
                run.check(3)
                if not cand:
                    run.probe("restore_unknown_time")
                    if err is None:
                        run.fail("restore-invented", "time %d was never recorded and was restored" % tk)
                    continue
                if err is not None:
                    run.fail("restore-refused", "time %d was recorded, restoring it raised %r" % (tk, err))
                calls = {}
                robot = types.SimpleNamespace(set=lambda v: calls.__setitem__("q", v), setVelocity=lambda v: calls.__setitem__("v", v),
                                              state=types.SimpleNamespace(time=None))
                ns = dict(robot=robot, refreshTaskList=[], attime=types.SimpleNamespace(fastForward=lambda x: calls.__setitem__("ff", x)))
                try:
                    exec("".join(out), ns)
                except Exception as e:
                    run.fail("restore-script", "the printed commands do not run: %r" % e)
                _, q, v, _ = cand[-1]
                if tuple(calls.get("q", ())) != q or tuple(calls.get("v", ())) != v:
                    run.fail("restore-state", "restoring time %d does not give the state recorded at time %d" % (t, tk))
                if robot.state.time != tk or calls.get("ff") != tk:
                    run.fail("restore-time", "restoring time %d sets the robot to time %s and the calendar to %s" % (t, robot.state.time, calls.get("ff")))
            elif o[0] == "dump":
                _, f, n, free, crash = o
                base = "motion%d" % no
                disk.free, disk.fail_open, disk.fail_write, disk.short_write = None, 0, 0, 0
                before = dict(run.faults)
                if f == 1:
                    disk.free = free
                elif f == 2:
                    disk.fail_open = 1
                    disk.open_errno = [errno.EACCES, errno.ENOSPC, errno.EROFS, errno.EMFILE, errno.EIO][n]
                elif f == 3:
                    disk.fail_write = n
                elif f == 4:
                    disk.short_write = n
                elif f == 5:
                    disk.free = free // 40
                r, w = os.pipe()
                pid = os.fork() if crash else 0

                def dump():
                    so, io.open, bo, builtins.open = io.open, disk.open, builtins.open, disk.open
                    err = None
                    try:
                        h.dumpToOpenHRP(base)
                    except Exception as e:
                        err = e
                    finally:
                        io.open, builtins.open = so, bo
                    return err
                if crash:
                    if pid == 0:    # the process that dies right after the dump
                        err = dump()
                        new = sum(run.faults.values()) - sum(before.values())
                        os.write(w, b"%d %d" % (err is not None, new))
                        os._exit(0)
                    os.close(w)
                    a = os.read(r, 100).split()
                    os.close(r)
                    os.waitpid(pid, 0)
                    if len(a) != 2:
                        run.fail("dump-died", "the dump ended the process")
                    bad, new = int(a[0]), int(a[1])
                    if new:
                        run.fault("disk_fault_before_crash")
                    run.fault("crash_after_dump")
                else:
                    os.close(r), os.close(w)
                    bad = dump() is not None
                    new = sum(run.faults.values()) - sum(before.values())
                run.check()
                if bad and new == 0 and ref:
                    run.fail("dump-raised", "a dump of %d states raised though nothing failed" % len(ref))
                if not bad:
                    run.probe("dump_ok")
                    if not ref:
                        run.fail("dump-empty", "a dump of nothing reported success")
                    check_files(base)
                elif new:
                    run.probe("dump_reported_fault")
                if len(h.q) != len(ref) or any(tuple(a) != b[1] for a, b in zip(h.q, ref)):
                    run.fail("recording-lost", "the dump changed the recording")
            run.cover(o[0], min(len(ref), 8), withz, nq)


if __name__ == "__main__":
    sc.main(W())
