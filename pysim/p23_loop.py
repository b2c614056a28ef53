"""P23: the interruptible loop obeys play, pause, step and quit whatever the timing."""
import sys
import os
import types
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import simcore as sc  # noqa: E402

ERRORS = [RuntimeError, ValueError, KeyError, SystemExit, StopIteration]
BIG = 1 << 60


class W(sc.World):
    property = "P23"
    rule = ("seeded command sequences (play, pause, once, quit, direct or through the shortcuts, with and without delay in between) of a "
            "script thread against the loop thread, preempted at any bytecode of the loop, stalls of either thread, bodies that take "
            "time, raise, pause or quit from inside; non-trivial when a preemption, stall or body failure happened")
    sim_time_meaning = "simulated seconds"
    real_components = ["src/dynamic_graph/sot/core/utils/thread_interruptible_loop.py"]
    stub_components = ["threading, time (simulated)", "dynamic_graph.script_shortcuts.optionalparentheses (identity)", "loop body"]
    assumptions = ["one script thread commands the loop; the pass already begun when pause or quit is asked may complete",
                   "two step requests made before the loop could serve the first may be served by one pass",
                   "restart() is out of scope (a Python thread cannot be started twice)"]

    def generate(self, r):
        ops = [["setup", r.range(0, 3), r.chance(1, 2), r.range(0, 2)]]
        if not r.chance(1, 5):
            for _ in range(r.range(0, 2)):
                ops.append(["body", r.range(1, 12), r.weighted([3, 3, 2]), r.range(0, len(ERRORS) - 1)])
        for _ in range(r.range(1, 14)):
            k = r.weighted([10, 8, 8, 2, 1])
            ops.append([["play", "pause", "once", "quit", "start"][k]])
            m = r.weighted([6, 4, 3, 2])
            if m == 1:
                ops.append(["settle"])
            elif m == 2:
                ops.append(["delay", r.range(1, 40)])
            elif m == 3:
                ops.append(["stall", r.range(0, 1), r.range(10, 4000)])
        ops.append(["settle"])
        if r.chance(2, 3):
            ops += [["quit"], ["settle"]]
            if r.chance(1, 2):
                ops += [[["play", "once"][r.range(0, 1)]], ["settle"]]
        return ops

    def execute(self, run, ops):
        ref = [None]
        stub = types.ModuleType("dynamic_graph.script_shortcuts")
        stub.optionalparentheses = lambda f: f
        fthreading = sc.sim_threading(lambda: ref[0])
        ftime = sc.sim_time_module(lambda: ref[0])
        (m,) = sc.load_repo(["dynamic_graph.sot.core.utils.thread_interruptible_loop"],
                            {"dynamic_graph.script_shortcuts": stub}, {"threading": fthreading, "time": ftime})
        sched = sc.Sched(run, sc.Rng(run.plan["seed"] ^ 0x5EED), run.plan["fixed"])
        ref[0] = sched
        run.sched = sched
        setup = ops[0] if ops and ops[0][0] == "setup" else ["setup", 0, False, 0]
        dur = [0.0, 0.0005, 0.002, 0.01][setup[1]]
        hist = []            # (seq, kind)
        seq = [0]
        st = dict(n=0, done=0, running=0, dead=None, inside=None)
        acts = {o[1]: o for o in ops if o[0] == "body"}
        settle = 0.02 + 10 * dur

        def now():
            seq[0] += 1
            return seq[0]

        def body():
            st["n"] += 1
            st["running"] += 1
            hist.append((now(), "body"))
            run.ev("body", st["n"])
            if st["running"] > 1:
                run.fail("overlap", "two passes of the body overlap")
            if st["inside"]:
                run.fail("body-after-" + st["inside"], "the body was run again after it asked %s itself" % st["inside"])
            if dur:
                sched.sleep(dur)
            a = acts.get(st["n"])
            try:
                if a and a[2] == 0:
                    run.fault("body_raises")
                    st["dead"] = now()
                    raise ERRORS[a[3]]("body")
                if a and a[2] == 1:
                    run.probe("pause_from_body")
                    hist.append((now(), "inpause"))
                    n = len(cmdlog)
                    quiet = not cmdlog or cmdlog[-1]["end"] < BIG
                    loop.pause()
                    if quiet and n == len(cmdlog):
                        st["inside"] = "pause"
                    hist.append((now(), "inpaused"))
                elif a and a[2] == 2:
                    run.probe("quit_from_body")
                    hist.append((now(), "inquit"))
                    loop.quit()
                    st["inside"] = "quit"
                st["done"] += 1
            finally:
                st["running"] -= 1

        loop = m.loopInThread(body)()
        if setup[2]:
            go, stop, nxt, n = m.loopShortcuts(loop)
            cmds = dict(play=go, pause=stop, once=loop.once, quit=loop.quit, start=loop.start)
        else:
            cmds = dict(play=loop.play, pause=loop.pause, once=loop.once, quit=loop.quit, start=loop.start)
        cmdlog = []          # dict(kind, beg, end, raised)

        def script():
            started = False
            for o in ops:
                if o[0] in cmds:
                    e = dict(kind=o[0], beg=now(), end=BIG, raised=None, settled=False, alive=started and loop.is_alive())
                    cmdlog.append(e)
                    if o[0] in ("play", "once", "start"):
                        st["inside"] = None if st["inside"] == "pause" else st["inside"]
                    run.ev(o[0])
                    try:
                        cmds[o[0]]()
                        if o[0] in ("play", "once", "start"):
                            started = True
                    except (sc.Stop, sc.SimThreadDeath):
                        raise
                    except Exception as x:
                        e["raised"] = x
                        run.note("raised", repr(x))
                        if o[0] in ("pause", "quit"):
                            run.fail("command-raised", "%s raised %r" % (o[0], x))
                        gone = st["dead"] is not None or st["inside"] == "quit" or any(c["kind"] == "quit" for c in cmdlog)
                        if not gone and not (o[0] == "start" and started):
                            run.fail("command-raised", "%s raised %r although the loop neither quit nor failed" % (o[0], x))
                    e["end"] = now()
                    sched.tick()
                elif o[0] == "delay":
                    sched.sleep(o[1] * 0.25e-3)
                elif o[0] == "stall":
                    k = o[1]
                    if k == 0 and len(sched.tasks) > 1 and not sched.tasks[1].done:
                        sched.stalled[1] = run.steps + o[2]
                        run.fault("stalled_loop_thread")
                    elif k == 1:
                        sched.stalled[0] = run.steps + o[2]
                        run.fault("stalled_script_thread")
                        sched.tick()
                        sched.sleep(1e-6)
                elif o[0] == "settle":
                    b = now()
                    n0 = st["n"]
                    sched.stalled.clear()
                    sched.steady = True
                    sched.sleep(settle)
                    sched.sleep(settle)
                    sched.steady = False
                    self.settled(run, loop, st, cmdlog, hist, b, n0, now(), dur, settle)
                    if cmdlog:
                        cmdlog[-1]["settled"] = True

        def main():
            script()
            # the loop may go on for ever: the run ends with the script
            loop.isQuit = True
            loop.isPlay = False

        sched.spawn("script", main)
        sched.go()
        # whole history: passes only while asked for
        ins = [h for h in hist if h[1] == "body"]
        for i, c in enumerate(cmdlog):
            if c["kind"] in ("pause", "quit") and c["end"] < BIG:
                end = cmdlog[i + 1]["beg"] if i + 1 < len(cmdlog) else BIG
                if c["kind"] == "quit" and c["alive"]:
                    end = BIG       # a loop that was told to quit never comes back
                late = [s for s, _ in ins if c["end"] < s < end]
                run.check()
                if len(late) > 1:
                    run.fail("body-after-" + c["kind"], "%d passes of the body began after %s had returned" % (len(late), c["kind"]))
                if late:
                    run.probe("pass_in_flight")
        if loop.iter > st["done"] or loop.iter < st["done"] - 1:
            run.fail("iteration-count", "iter is %d after %d complete passes" % (loop.iter, st["done"]))

    def settled(self, run, loop, st, cmdlog, hist, b, n0, e, dur, settle):
        """Nothing was commanded for 2*settle simulated seconds."""
        run.check()
        alive = loop._simstarted and loop.is_alive()
        run.cover(alive, loop.isRunning, st["n"] > 0, st["dead"] is not None, [c["kind"] for c in cmdlog[-2:]])
        if loop.isRunning != alive:
            run.fail("half-dead", "the loop thread is %s but isRunning is %s" % ("alive" if alive else "dead", loop.isRunning))
        if not cmdlog:
            return
        began = [s for s, k in hist if k == "body"]
        last = cmdlog[-1]
        quits = [c for c in cmdlog if c["kind"] == "quit"]
        if st["dead"] is not None or st["inside"] == "quit":
            if alive:
                run.fail("not-ended", "the loop thread is alive long after its body %s" % ("raised" if st["dead"] else "asked to quit"))
            if last["kind"] in ("play", "once", "start") and last["raised"] is None and last["beg"] > max([s for s, k in hist], default=0) and not last["alive"]:
                run.fail("silent-dead", "%s on a dead loop was accepted and nothing runs" % last["kind"])
            return
        # what the commands ask for, from the last quiet point on
        if any(c["alive"] for c in quits):
            if alive:
                run.fail("not-ended", "the loop thread is alive long after quit")
            if last["kind"] in ("play", "once") and last["raised"] is None and not last["alive"]:
                run.fail("silent-dead", "%s on an ended loop was accepted and nothing runs" % last["kind"])
            return
        if st["inside"] == "pause":
            return
        k = last["kind"]
        if k == "quit":
            return            # quit before the loop was ever started
        since = [s for s in began if s > last["beg"]]
        inpause = [s for s, kk in hist if kk == "inpaused" and s > last["beg"]]
        if inpause:
            return
        if k in ("play", "start"):
            want = int(settle / (dur + 2e-3)) // 2
            if last["raised"] is not None and k == "start":
                return
            if st["n"] - n0 < want:
                run.fail("play-lost", "%d passes in %.3f simulated seconds while playing" % (st["n"] - n0, 2 * settle))
        elif k == "once":
            # requests since the last quiet point
            i = len(cmdlog) - 1
            req = 1
            flight = 0
            while i > 0 and not cmdlog[i - 1]["settled"]:
                i -= 1
                if cmdlog[i]["kind"] == "once":
                    req += 1
            prev = cmdlog[len(cmdlog) - 2] if len(cmdlog) > 1 else None
            later = [s for s in began if s > last["end"]]
            if not since and not any(kk == "body" and s > last["beg"] for s, kk in hist):
                run.fail("step-lost", "a step was asked and no pass began")
            # quiet and not playing before: exactly one pass
            if prev is not None and prev["settled"] and prev["kind"] in ("pause", "once") and len(since) != 1:
                run.fail("step-count", "one step was asked of a quiet loop and %d passes began" % len(since))
            if len(later) > 2:
                run.fail("step-count", "%d passes began after one step was asked" % len(later))
        elif k == "pause":
            if st["n"] - n0 > 1:
                run.fail("pause-lost", "%d passes began long after pause" % (st["n"] - n0))


if __name__ == "__main__":
    sc.main(W())
