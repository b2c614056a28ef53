"""P32: the commands of the meta tasks apply as a whole, and what they report is what the features see."""
import os
import sys
import types
import warnings
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np  # noqa: E402
import simcore as sc  # noqa: E402

warnings.simplefilter("ignore")
LIMBS = dict(rleg=(6, 12), rhip=(6, 9), rknee=(9, 10), rankle=(10, 12), lleg=(12, 18), lhip=(12, 15), lknee=(15, 16), lankle=(16, 18), chest=(18, 20), head=(20, 22),
             rarm=(22, 28), rshoulder=(22, 25), relbow=(25, 26), rwrist=(26, 28), rhand=(28, 29), larm=(29, 35), lshoulder=(29, 32), lelbow=(32, 33), lwrist=(33, 35), lhand=(35, 36))


def close(a, b):
    a, b = np.array(a, dtype=float), np.array(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= 1e-9))


def u(*k):
    h = 1469598103934665603
    for x in k:
        h = ((h ^ (hash(x) if isinstance(x, int) else sum(ord(c) * 131 ** i for i, c in enumerate(x)))) * 1099511628211 + 12345) & (2 ** 64 - 1)
        h ^= h >> 29
    return (h >> 11) / 2.0 ** 53 * 2 - 1


def rot(r, p, y):
    cr, sr, cp, sp, cy, sy = np.cos(r), np.sin(r), np.cos(p), np.sin(p), np.cos(y), np.sin(y)
    return np.array([[cy, -sy, 0], [sy, cy, 0], [0, 0, 1.]]) @ np.array([[cp, 0, sp], [0, 1., 0], [-sp, 0, cp]]) @ np.array([[1., 0, 0], [0, cr, -sr], [0, sr, cr]])


def pose(v):
    m = np.eye(4)
    m[:3, :3] = rot(*v[3:6])
    m[:3, 3] = v[:3]
    return m


class Flags:
    def __init__(self, a=""):
        if isinstance(a, str):
            if set(a) - set("01"):
                raise ValueError("flags")
            self.bits = [c == "1" for c in a]
        elif isinstance(a, (list, tuple)) and all(isinstance(x, (bool, np.bool_)) for x in a):
            self.bits = [bool(x) for x in a]
        else:
            raise TypeError("flags")

    def on(self):
        return {i for i, b in enumerate(self.bits) if b}


class SignalBase:
    pass


class Sig(SignalBase):
    """A signal of the simulated graph: a function of time, a constant or what it is plugged to."""

    def __init__(self, name, kind, fn=None, inp=False):
        self._n, self.kind, self.fn, self.inp, self.src, self.const, self.time, self.cache = name, kind, fn, inp, None, None, 0, None

    def getName(self):
        return self._n

    name = property(getName)

    def at(self, t):
        if self.src is not None:
            return self.src.at(t)
        if self.const is not None:
            return self.const
        if self.fn is None:
            raise RuntimeError("signal %s has no value" % self._n)
        return self.fn(t)

    def recompute(self, t):
        self.cache = self.at(t)
        self.time = t

    @property
    def value(self):
        if self.src is None and self.const is not None:
            return self.const
        if self.cache is None and (self.src is not None or self.fn is not None):
            self.recompute(self.time)
        if self.cache is None:
            raise RuntimeError("signal %s has no value" % self._n)
        return self.cache

    @value.setter
    def value(self, v):
        if self.kind == "F":
            if not isinstance(v, Flags):
                raise TypeError("flags expected")
        else:
            if isinstance(v, (str, bool)) or v is None:
                raise TypeError("numbers expected")
            v = np.array(v, dtype=float)
            if self.kind == "H" and v.shape != (4, 4) or self.kind == "v" and v.ndim != 1 or self.kind == "m" and v.ndim != 2 or self.kind == "d" and v.ndim:
                raise TypeError("ill-shaped value for " + self._n)
        self.src, self.const = None, v


def plug(a, b):
    if not isinstance(a, SignalBase) or not isinstance(b, Sig) or not b.inp or a.kind != b.kind:
        raise RuntimeError("plug")
    b.src, b.const, b.cache = a, None, None


class Ent:
    pool = {}
    ins, outs = {}, {}

    def __init__(self, name):
        if name in Ent.pool and type(Ent.pool[name]) is not type(self):
            raise RuntimeError("an entity has this name")
        if name in Ent.pool:
            self.__dict__ = Ent.pool[name].__dict__     # the entity of the graph
            return
        Ent.pool[name] = self
        self.name, self.sigs, self.obj = name, {}, self
        for n, k in self.ins.items():
            self.sigs[n] = Sig("%s(%s)::input()::%s" % (type(self).__name__, name, n), k, inp=True)
        for n, k in self.outs.items():
            f = getattr(self, "out_" + n, None)
            self.sigs[n] = Sig("%s(%s)::output()::%s" % (type(self).__name__, name, n), k, fn=f)
        self.init()

    def init(self):
        pass

    def signal(self, n):
        return self.sigs[n]

    def signals(self):
        return list(self.sigs.values())

    def __getattr__(self, n):
        s = self.__dict__.get("sigs", {})
        if n in s:
            return s[n]
        raise AttributeError(n)


class Feature(Ent):
    def init(self):
        self.reference, self.mode = None, None

    def setReference(self, n):
        if n not in Ent.pool:
            raise RuntimeError("no such feature")
        self.reference = n

    def frame(self, f):
        if f not in ("current", "desired"):
            raise RuntimeError("frame")
        self.mode = f

    def getFrame(self):
        return self.mode

    def keep(self):
        if self.reference is None:
            raise RuntimeError("no reference")
        Ent.pool[self.reference].sigs["position"].value = self.sigs["position"].value


class FeaturePoint6d(Feature):
    ins, outs = dict(position="H", Jq="m", selec="F", velocity="v"), dict(error="v", errordot="v", jacobian="m")


class FeaturePoint6dRelative(Feature):
    ins, outs = dict(position="H", positionRef="H", Jq="m", JqRef="m", selec="F"), dict(error="v", jacobian="m")


class FeatureGeneric(Feature):
    ins, outs = dict(errorIN="v", jacobianIN="m", selec="F"), dict(error="v", jacobian="m")


class FeatureVisualPoint(Feature):
    ins, outs = dict(xy="v", Z="d", Jq="m", selec="F"), dict(error="v", jacobian="m")


class GainAdaptive(Ent):
    ins, outs = dict(error="v"), dict(gain="d")

    def init(self):
        self.params = None

    def setConstant(self, a):
        self.params = (float(a),)

    def set(self, a, b, c):
        self.params = (float(a), float(b), float(c))

    def setByPoint(self, a, b, c, d):
        self.params = (float(a), float(b), float(c), float(d))


class Task(Ent):
    ins, outs = dict(controlGain="d"), dict(error="v")

    def init(self):
        self.features, self.resets = [], 0

    def add(self, n):
        if n not in Ent.pool:
            raise RuntimeError("no such feature")
        self.features.append(n)

    def resetJacobianDerivative(self):
        self.resets += 1


class OpPointModifier(Ent):
    ins, outs = dict(positionIN="H", jacobianIN="m"), dict(position="H", jacobian="m")

    def init(self):
        self.T = np.eye(4)

    def out_position(self, t):
        return self.sigs["positionIN"].at(t) @ self.T

    def out_jacobian(self, t):
        return np.vstack([self.sigs["jacobianIN"].at(t), self.T])

    def setTransformation(self, m):
        if isinstance(m, (str, bool)) or m is None:
            raise TypeError("matrix expected")
        m = np.array(m, dtype=float)
        if m.shape != (4, 4):
            raise TypeError("4x4 matrix expected")
        self.T = m

    def getTransformation(self):
        return self.T.copy()


class VisualPointProjecter(Ent):
    ins, outs = dict(transfo="H", point3D="v"), dict(point2D="v", depth="d")


class Robot:
    def __init__(self, run, k, n):
        self.run, self.k, self.n, self.refuse, self.sigs = run, k, n, 0, {}
        self.add("position", "v", lambda t: np.array([u(k, t, i) for i in range(n)]))
        self.add("com", "v", lambda t: np.array([u(k, t, i, 5) for i in range(3)]))
        self.add("Jcom", "m", lambda t: np.eye(3))

    def add(self, n, kind, fn):
        self.sigs[n] = Sig("Dynamic(robot)::output()::" + n, kind, fn)

    def createOpPoint(self, op, ref):
        if self.refuse:
            self.refuse = 0
            self.run.fault("operational_point_refused")
            raise RuntimeError("no joint " + ref)
        if op in self.sigs:
            raise RuntimeError("this operational point exists")
        k = self.k
        self.add(op, "H", lambda t: pose([u(k, t, op, i) for i in range(6)]))
        self.add("J" + op, "m", lambda t: np.array([[u(k, t, op, i, j) for j in range(4)] for i in range(6)]))

    def signal(self, n):
        return self.sigs[n]

    def signals(self):
        return list(self.sigs.values())

    def __getattr__(self, n):
        s = self.__dict__.get("sigs", {})
        if n in s:
            return s[n]
        raise AttributeError(n)


PREL = pose([0.3, -0.2, 0.1, 0.4, 0.5, -0.6])
KINDS = ["6d", "kine6d", "rel", "com", "posture", "visual", "position", "prel"]


class W(sc.World):
    property = "P32"
    rule = ("seeded histories of 8-80 commands on 1-5 meta tasks (6d, relative, center of mass, posture, visual point, position feature) of robots with different numbers of joints: constructions, "
            "modified points switched on and off, moves with all forms of references, selections and gains, keeps, control cycles; commands are "
            "refused by the graph, operational points cannot be created, arguments are ill-formed; non-trivial when a fault fired")
    sim_time_meaning = "control cycles"
    real_components = ["src/dynamic_graph/sot/core/meta_task_6d.py", "src/dynamic_graph/sot/core/meta_tasks.py", "src/dynamic_graph/sot/core/meta_tasks_kine.py", "src/dynamic_graph/sot/core/meta_tasks_kine_relative.py",
                       "src/dynamic_graph/sot/core/meta_task_posture.py", "src/dynamic_graph/sot/core/meta_task_visual_point.py", "src/dynamic_graph/sot/core/feature_position.py", "src/dynamic_graph/sot/core/feature_position_relative.py", "src/dynamic_graph/sot/core/matrix_util.py"]
    stub_components = ["the Python bindings of dynamic-graph: plug, signals, entities, flags", "dynamic entity of the robot"]
    assumptions = ["signals refuse values of another type or shape", "a command whose gain is refused may have applied the rest", "the meta tasks of a robot have different names",
                   "ill-formed references and gains are either refused or understood"]

    def generate(self, r):
        clean = r.chance(1, 6)
        ops = [["setup", r.pick([6, 18, 30, 36, 40]), r.pick([6, 22, 36, 41])]]
        n = r.range(1, 5)
        only = r.range(0, 13)
        for i in range(n):
            k = only if only < len(KINDS) else r.range(0, len(KINDS) - 1)
            ops.append(["new", k, r.range(0, 1), i, 0 if clean else int(r.chance(1, 5))])
        for _ in range(r.range(8, 80)):
            c = r.weighted([4, 3, 6, 6, 2, 2, 1])
            i, s = r.range(0, n - 1), r.range(0, 10 ** 6)
            bad = 0 if clean else int(r.chance(1, 5))
            if c == 0:
                ops.append(["cycle", r.range(1, 5)])
            elif c == 1:
                ops.append(["ref", i, s, bad])
            elif c == 2:
                ops.append(["modif", i, r.range(0, 1), r.weighted([3, 5, 2]), s, bad * r.range(1, 6)])
            elif c == 3:
                ops.append(["goto", i, s, bad, r.range(0, 9), r.range(0, 9)])
            elif c == 4:
                ops.append(["keep", i])
            elif c == 5:
                ops.append(["selec", i, s])
            else:
                ops.append(["new", r.range(0, len(KINDS) - 1), r.range(0, 1), n, bad])
                n += 1
        return ops

    def execute(self, run, ops):
        if not ops or ops[0][0] != "setup":
            return
        mod = types.ModuleType

        def module(name, **kw):
            m = mod(name)
            m.__dict__.update(kw)
            return m
        base = "dynamic_graph.sot.core."
        stubs = {"dynamic_graph": module("dynamic_graph", plug=plug), "dynamic_graph.sot.core": module("dynamic_graph.sot.core", Flags=Flags),
                 "dynamic_graph.entity": module("dynamic_graph.entity", Entity=type("Entity", (), {})), "dynamic_graph.signal_base": module("dynamic_graph.signal_base", SignalBase=SignalBase),
                 base + "feature_point6d": module(base + "feature_point6d", FeaturePoint6d=FeaturePoint6d), base + "feature_point6d_relative": module(base + "feature_point6d_relative", FeaturePoint6dRelative=FeaturePoint6dRelative),
                 base + "feature_generic": module(base + "feature_generic", FeatureGeneric=FeatureGeneric), base + "feature_visual_point": module(base + "feature_visual_point", FeatureVisualPoint=FeatureVisualPoint),
                 base + "gain_adaptive": module(base + "gain_adaptive", GainAdaptive=GainAdaptive), base + "task": module(base + "task", Task=Task),
                 base + "op_point_modifier": module(base + "op_point_modifier", OpPointModifier=OpPointModifier), base + "visual_point_projecter": module(base + "visual_point_projecter", VisualPointProjecter=VisualPointProjecter)}
        stubs["dynamic_graph"].__path__ = []
        m6, mts, mk, mr, mp, mv, fp, fr = sc.load_repo([base + n for n in ("meta_task_6d", "meta_tasks", "meta_tasks_kine", "meta_tasks_kine_relative", "meta_task_posture", "meta_task_visual_point", "feature_position", "feature_position_relative")], stubs)
        Ent.pool.clear()
        robots = [Robot(run, k, n) for k, n in enumerate(ops[0][1:3])]
        tasks, now = {}, [1]

        def tryit(f):
            try:
                f()
                return None
            except Exception as e:
                return e

        class M:     # the model of a task
            pass

        def tick():
            for rb in robots:
                for s in rb.sigs.values():
                    s.recompute(now[0])

        def construct(kind, rb, name):
            if kind == "6d":
                return m6.MetaTask6d(name, rb, "op" + name)
            if kind == "kine6d":
                return mk.MetaTaskKine6d(name, rb, "op" + name)
            if kind == "rel":
                return mr.MetaTaskKine6dRel(name, rb, "op" + name, "opb" + name)
            if kind == "com":
                return mk.MetaTaskKineCom(rb, name)
            if kind == "posture":
                return mp.MetaTaskKinePosture(rb, name)
            if kind == "visual":
                return mv.MetaTaskVisualPoint(name, rb, "op" + name)
            for n in ("op" + name,) if kind == "position" else ("op" + name, "opb" + name):
                if n not in rb.sigs:
                    rb.createOpPoint(n, "right-wrist")
            if kind == "prel":     # one of the references is left to its default for some
                g = {} if int(name[-1]) % 2 else dict(otherReference=tuple(map(tuple, PREL)))
                return fr.FeaturePositionRelative(name, rb.signal("opb" + name), rb.signal("op" + name), JqBase=rb.signal("Jopb" + name), JqOther=rb.signal("Jop" + name), **g)
            return fp.FeaturePosition(name, rb.signal("op" + name), rb.signal("Jop" + name), tuple(map(tuple, np.eye(4))))

        def sig(x, n):
            return x.signal(n) if hasattr(x, "signal") else x.sigs[n]

        def audit(i, where):
            if i not in tasks:
                return
            a = tasks[i]
            t, o, rb = now[0], a.obj, robots[a.robot]
            run.check(4)

            def bad(key, msg):
                run.fail(key, "%s: task %d (%s) %s" % (where, i, a.kind, msg))

            def seen(s, want, what):
                try:
                    g = s.at(t)
                except RuntimeError as e:
                    bad("unplugged", "%s: %s" % (what, e))
                if not close(g, want):
                    bad("inconsistent", "%s is not the one of the point in force" % what)
            if a.kind in ("position", "prel"):
                f = Ent.pool[o.name] if a.kind == "prel" else o
                if a.kind == "prel":
                    for n, m in (("basePosition", "positionRef"), ("otherPosition", "position"), ("JqBase", "JqRef"), ("JqOther", "Jq"), ("error", "error"), ("jacobian", "jacobian"), ("selec", "selec")):
                        if o.signal(n) is not f.signal(m) or getattr(o, n) is not f.signal(m):
                            bad("wiring", "%s is not the one of the feature" % n)
                    if o.otherReference is not o.signal("otherReference") or o.baseReference is not o.signal("baseReference") or f.reference is None or o.otherReference is not Ent.pool[f.reference].signal("position") or o.baseReference is not Ent.pool[f.reference].signal("positionRef"):
                        bad("wiring", "is not wired to its reference")
            else:
                f = o.feature
                if o.task.features != [f.name] or f.reference != o.featureDes.name or o.gain.sigs["error"].src is not o.task.sigs["error"] or o.task.sigs["controlGain"].src is not o.gain.sigs["gain"]:
                    bad("wiring", "is not wired to its feature, reference or gain")
                if a.gain is not None and o.gain.params != a.gain:
                    bad("gain", "has gain %s, it should be %s" % (o.gain.params, a.gain))
            n = "op" + a.name
            if a.kind in ("6d", "kine6d", "rel", "visual", "position", "prel"):
                sides = [("", n, a.modif)] + ([("Ref", "opb" + a.name, a.modifb)] if a.kind in ("rel", "prel") else [])
                for suf, op, T in sides:
                    P, J = rb.sigs[op].at(t), rb.sigs["J" + op].at(t)
                    if T is not None:
                        P, J = P @ T, np.vstack([J, T])
                    seen(o.proj.sigs["transfo"] if a.kind == "visual" else f.signal("position" + suf), P, "the position" + suf)
                    seen(f.signal("Jq" + suf), J, "the jacobian" + suf)
                    if a.kind not in ("position", "prel"):
                        g = o.opmodifBase if suf else o.opmodif
                        if (g is False) != (T is None) or (T is not None and not close(g, T)):
                            bad("report", "reports the modification %s, %s is in force" % (g, T))
                if a.kind == "visual" and (f.sigs["xy"].src is not o.proj.sigs["point2D"] or f.sigs["Z"].src is not o.proj.sigs["depth"]):
                    bad("wiring", "does not see its projection")
            elif a.kind == "com":
                seen(f.signal("errorIN"), rb.sigs["com"].at(t), "the center of mass")
                seen(f.signal("jacobianIN"), rb.sigs["Jcom"].at(t), "its jacobian")
            else:
                seen(f.signal("errorIN"), rb.sigs["position"].at(t), "the posture")
                seen(f.signal("jacobianIN"), np.eye(rb.n), "its jacobian")
            if a.selec is not None and f.signal("selec").const.on() != a.selec:
                bad("selection", "selects %s, it should be %s" % (sorted(f.signal("selec").const.on()), sorted(a.selec)))
            for s, want in (a.ref or {}).items():
                d = o.reference if a.kind == "position" else Ent.pool[f.reference].signal(s) if a.kind == "prel" else o.proj.sigs["point3D"] if s == "point3D" else o.featureDes.signal(s)
                if d.src is not None or d.const is None or not close(d.const, want):
                    bad("reference", "%s is %s, it should be %s" % (s, d.const, want))
            if a.kind in ("6d", "kine6d", "com", "posture", "visual") and a.ref and not any(s == "point3D" for s in a.ref):
                if not close(o.ref, list(a.ref.values())[0]):
                    bad("report", "reports another reference")

        def reference(s, form):
            """A 6d reference in one of its forms: (what is given, its pose or None, whether it must be understood)."""
            v = [u(s, i, 3) * (2 if i < 3 else 1.3) for i in range(6)]
            p = pose(v)
            q = np.eye(4)
            q[:3, 3] = v[:3]
            return [(tuple(v[:3]), q, True), (np.array(v[:3]), q, True), (np.matrix(v[:3]), q, True), (p, p, True), (tuple(map(tuple, p)), p, True), (np.matrix(p), p, True), (tuple(v), p, True), (np.array(v), p, True),
                    (np.matrix(v[:3]).T, q, False), (v[:3], q, False)][form]

        def gains(s, k):
            g = [abs(u(s, i, 9)) for i in range(4)]
            return [(None, None), (None, None), (g[0], (g[0],)), (2, (2.0,)), ((g[1],), (g[1],)), ((g[0], g[1], g[2]), tuple(g[:3])), (tuple(g), tuple(g)), (np.float64(g[2]), (g[2],)), ([g[0], g[1], g[2]], tuple(g[:3])), ("abc", "bad")][k]

        tick()
        for o in ops[1:]:
            run.ev(*o)
            if o[0] == "cycle":
                now[0] += o[1]
                run.simtime += o[1]
                tick()
            elif o[0] == "new":
                _, k, rbk, i, bad = o
                kind, rb = KINDS[k], robots[rbk]
                if i in tasks:
                    continue
                name = "%s%d" % (kind, i)
                if bad and kind in ("6d", "kine6d", "rel", "visual"):
                    rb.refuse = 1
                    err = tryit(lambda: construct(kind, rb, name))
                    if err is None:
                        run.fail("failure-hidden", "a task on an operational point that cannot be created was created")
                    rb.refuse = 0
                a = M()
                a.kind, a.robot, a.name, a.modif, a.modifb, a.ref, a.obj = kind, rbk, name, None, None, None, None
                a.gain = (0.1, 0.1, 125e3) if kind in ("6d", "kine6d", "rel", "visual") else None
                a.selec = {0, 1} if kind == "visual" else set(range(6)) if kind in ("6d", "kine6d", "rel", "position", "prel") else None
                if kind == "prel":
                    a.ref = dict(position=np.eye(4) if int(name[-1]) % 2 else PREL, positionRef=np.eye(4))
                if kind == "position":
                    a.ref = dict(position=np.eye(4))

                def make():
                    a.obj = construct(kind, rb, name)
                err = tryit(make)
                if err is not None:
                    run.fail("construction", "creating a task %s raised %r" % (kind, err))
                tasks[i] = a
            else:
                i = o[1]
                if i not in tasks:
                    continue
                a = tasks[i]
                x = a.obj
                if o[0] == "ref":
                    _, _, s, bad = o
                    if a.kind in ("position", "prel"):
                        continue
                    if a.kind in ("6d", "kine6d", "rel"):
                        v, n = pose([u(s, j) for j in range(6)]), "position"
                    else:
                        sz = dict(com=3, posture=robots[a.robot].n, visual=2)[a.kind]
                        v, n = np.array([u(s, j) for j in range(sz)]), "xy" if a.kind == "visual" else "errorIN"
                    if bad:
                        run.fault("reference_refused")

                    def setref():
                        x.ref = "reference" if bad else v
                    err = tryit(setref)
                    if (err is not None) != bool(bad):
                        run.fail("reference", "a reference of task %d was %s" % (i, "refused: %r" % err if err else "accepted"))
                    if not bad:
                        a.ref = dict((k, w) for k, w in (a.ref or {}).items() if a.kind == "rel" and k == "positionRef")
                        a.ref[n] = v
                        if a.kind == "rel":
                            pass
                elif o[0] == "modif":
                    _, _, side, what, s, bad = o
                    if a.kind not in ("6d", "kine6d", "rel", "visual"):
                        continue
                    side = side and a.kind == "rel"
                    T = pose([u(s, j) for j in range(6)])
                    v = [None, np.eye(3), "matrix", True, None, np.arange(16.0), tuple(map(tuple, T))[:3]][bad] if bad else [False, T, tuple(map(tuple, T))][what]
                    if bad:
                        run.fault("modification_refused")

                    def setm():
                        if side:
                            x.opmodifBase = v
                        else:
                            x.opmodif = v
                    err = tryit(setm)
                    if (err is not None) != bool(bad):
                        run.fail("modification", "the modification %r of task %d was %s" % (type(v), i, "refused: %r" % err if err else "accepted"))
                    if not bad:
                        n = None if v is False else T
                        if side:
                            a.modifb = n
                        else:
                            a.modif = n
                elif o[0] == "keep":
                    if a.kind not in ("6d", "kine6d"):
                        continue
                    err = tryit(x.keep)
                    if err is not None:
                        run.fail("keep", "keep raised %r" % err)
                    P = robots[a.robot].sigs["op" + a.name].at(now[0])
                    a.ref = dict(position=P if a.modif is None else P @ a.modif)
                elif o[0] == "selec":
                    if a.kind in ("position", "prel"):
                        continue
                    b = [u(o[2], j) > 0 for j in range(6)]
                    x.feature.selec.value = Flags(b)
                    a.selec = {j for j in range(6) if b[j]}
                elif o[0] == "goto":
                    _, _, s, bad, form, g = o
                    gv, gm = gains(s, g)
                    if gm == "bad" and not bad:
                        gv, gm = None, None
                    if a.kind in ("6d", "kine6d", "rel"):
                        v, want, must = reference(s, form)
                        if bad and gm != "bad":
                            v, want, must = [(np.arange(5.0), None, False), ("somewhere", None, False), ((1.0, 2.0), None, False), (None, None, False), (np.eye(3), None, False)][s % 5]
                        if bad:
                            run.fault("command_refused")
                        sel = None
                        if s % 3 == 0:
                            call = (lambda: mr.goto6dRel(x, v, v2, gv)) if a.kind == "rel" else (lambda: mts.goto6d(x, v, gv))
                            sel = set(range(6))
                        else:
                            fl = None if s % 3 == 1 else "".join("01"[u(s, j) > 0] for j in range(6))
                            sel = None if fl is None else {j for j in range(6) if fl[j] == "1"}
                            given = Flags(fl) if fl is not None and s % 2 else fl
                            call = (lambda: mr.gotoNdRel(x, v, v2, given, gv)) if a.kind == "rel" else (lambda: mts.gotoNd(x, v, given, gv))
                        v2, want2, _ = reference(s + 1, (form + 3) % 8)
                        resets = x.task.resets
                        err = tryit(call)
                        if err is None and want is None:
                            run.fail("reference-invented", "moving task %d to %r was accepted" % (i, v))
                        if err is not None and must and gm != "bad":
                            run.fail("command", "a move of task %d raised %r" % (i, err))
                        if err is None and gm == "bad":
                            run.fail("gain-invented", "the gain %r was accepted" % (gv,))
                        if err is None:
                            a.ref = dict(position=want)
                            if a.kind == "rel":
                                a.ref["positionRef"] = want2
                            if sel is not None:
                                a.selec = sel
                            if gm is not None:
                                a.gain = gm
                            if x.task.resets != resets + 1:
                                run.fail("derivative", "the derivative of the jacobian was not reset after a move")
                        elif gm == "bad":    # the rest may have been applied
                            a.selec = x.feature.selec.const.on()
                            a.ref = dict((n, x.featureDes.signal(n).const) for n in (("position", "positionRef") if a.kind == "rel" else ("position",)) if x.featureDes.signal(n).const is not None)
                    elif a.kind == "posture":
                        n = robots[a.robot].n
                        q = None if s % 3 else tuple(u(s, j, 8) for j in range(n))
                        given = q if q is None or s % 2 else np.matrix(q).T
                        limbs, kw, must = [], {}, True
                        names = sorted(LIMBS)
                        for j in range(form % 4):
                            l = names[(s // 7 + j * 5) % len(names)]
                            if l not in kw:
                                lo, hi = LIMBS[l]
                                vals = [u(s, j, c) for c in range(hi - lo)]
                                f = (s // 3 + j) % 5
                                kw[l] = [vals, tuple(vals), [], np.matrix(vals), np.array(vals)][f]
                                limbs.append((lo, hi, None if f == 2 else vals))
                                if hi > n:
                                    must = False
                        if not must:
                            run.fault("limb_missing")
                        if bad and gm != "bad":
                            kw["tail"] = [0.0]
                            must = False
                            run.fault("command_refused")
                        before = None if not isinstance(given, np.matrix) else given.copy()
                        err = tryit(lambda: x.gotoq(gv, given, **kw))
                        if before is not None and not np.array_equal(before, given):
                            run.fail("argument-changed", "the posture given to gotoq was changed")
                        if err is None and not must:
                            run.fail("limb-invented", "a limb that the robot has not was moved")
                        if err is not None and must and gm != "bad":
                            run.fail("command", "gotoq(%s, %s) raised %r" % (type(given).__name__, {k: type(v).__name__ for k, v in kw.items()}, err))
                        if err is None and gm == "bad":
                            run.fail("gain-invented", "the gain %r was accepted" % (gv,))
                        if err is None:
                            w = np.zeros(n) if q is None else np.array(q)
                            a.selec = set()
                            for lo, hi, vals in limbs:
                                a.selec |= set(range(lo, hi))
                                if vals is not None:
                                    w[lo:hi] = vals
                            a.ref = dict(errorIN=w)
                            if gm is not None:
                                a.gain = gm
                            bits = [] if x.feature.selec.const is None else x.feature.selec.const.bits
                            if len(bits) != n:
                                run.fail("selection", "the selection has %d joints, the robot %d" % (len(bits), n))
                        elif gm == "bad":
                            a.selec = x.feature.selec.const.on() if x.feature.selec.const is not None else None
                            a.ref = dict(errorIN=x.featureDes.errorIN.const) if x.featureDes.errorIN.const is not None else None
                    elif a.kind == "visual":
                        p3 = np.array([u(s, j, 4) for j in range(3)])
                        p2 = None if s % 2 else np.array([u(s, j, 6) for j in range(2)])
                        fl = None if s % 3 else ["11", "01", "10"][s % 5 % 3]
                        if bad and gm != "bad":
                            run.fault("command_refused")
                            err = tryit(lambda: x.goto3D("somewhere", gv, p2, None if fl is None else Flags(fl)))
                            if err is None:
                                run.fail("reference-invented", "a target that is no point was accepted")
                        else:
                            err = tryit(lambda: x.goto3D(p3, gv, p2, None if fl is None else Flags(fl)))
                            if (err is not None) != (gm == "bad"):
                                run.fail("command", "goto3D %s" % ("raised %r" % err if err else "accepted its gain"))
                            if err is None:
                                a.ref = dict((a.ref or {}), point3D=p3)
                                if p2 is not None:
                                    a.ref["xy"] = p2
                                if fl:
                                    a.selec = {j for j in range(2) if fl[j] == "1"}
                                if gm is not None:
                                    a.gain = gm
                            else:
                                a.ref, a.selec = None, x.feature.selec.const.on()
            for i in tasks:
                audit(i, o[0])
            run.cover(o[0], len(tasks), tuple(sorted(set((a.kind, a.modif is None, a.modifb is None, a.robot) for a in tasks.values()))))


if __name__ == "__main__":
    sc.main(W())
