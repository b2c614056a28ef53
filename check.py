#!/usr/bin/env python3
"""Builds and runs the simulation world of one property.

  check.py run <ID>            quick/thorough by VERIF_TIER, seeds by VERIF_SEED
  check.py replay <FILE>       re-executes a replay file (1 = reproduced)
  check.py build [ID...]       builds worlds only (used by setup_cmd)
  check.py seed <ID> <N>       one verbose run
"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
EVID = os.path.join(VERIF, "evidence")
sys.path.insert(0, VERIF)
from worlds_registry import WORLDS  # noqa: E402

CXX = os.environ.get("VERIF_CXX", "g++")
BASE = ["-O1", "-g", "-DNDEBUG", "-include", os.path.join(VERIF, "sim", "eassert.h"), "-fno-omit-frame-pointer", "-w", "-fPIC", "-ftrivial-auto-var-init=pattern", "-DSIM_BUILD"]
TSAN = ["-fsanitize=thread"]
ASAN = ["-fsanitize=address", "-DSIM_ASAN"]
WORKERS = min(8, os.cpu_count() or 1)


def sha(path, cache={}):
    if path not in cache:
        try:
            with open(path, "rb") as f:
                cache[path] = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            cache[path] = "missing"
    return cache[path]


def compile_one(src, flags):
    """Compiles src; reuses an object only if every file it read is unchanged."""
    key = hashlib.sha256(("|".join([CXX, src] + flags)).encode()).hexdigest()[:24]
    obj = os.path.join(BUILD, "obj", key + ".o")
    meta = obj + ".json"
    if os.path.exists(obj) and os.path.exists(meta):
        try:
            with open(meta) as f:
                deps = json.load(f)
            if all(sha(p) == h for p, h in deps.items()):
                return obj, None
        except ValueError:
            pass
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    tmp = "%s.%d.tmp.o" % (obj[:-2], os.getpid())
    dep = tmp + ".d"
    r = subprocess.run([CXX, "-c", src, "-o", tmp, "-MD", "-MF", dep] + flags,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        return None, "compiling %s failed:\n%s" % (src, r.stdout[-6000:])
    with open(dep) as f:
        txt = f.read().replace("\\\n", " ")
    files = txt.split(":", 1)[1].split()
    with open(meta + ".tmp%d" % os.getpid(), "w") as f:
        json.dump({p: sha(p) for p in files}, f)
    os.replace(tmp, obj)
    os.replace(meta + ".tmp%d" % os.getpid(), meta)
    os.unlink(dep)
    return obj, None


def build(pid):
    w = WORLDS[pid]
    if w.get("python"):
        return [sys.executable, "-B", "-X", "utf8", os.path.join(VERIF, "pysim", w["python"])], None
    inc = ["-I" + os.path.join(VERIF, "sim"), "-I" + os.path.join(VERIF, "worlds")]
    if w.get("dg"):
        inc += ["-I" + os.path.join(VERIF, "dgstub")]
    inc += ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src"), "-isystem", "/usr/include/eigen3"]
    std = "-std=" + w.get("std", "c++14")
    san = ASAN if w.get("asan") else []
    repo_flags = [std] + BASE + inc + w.get("flags", []) + (san or (TSAN if w.get("tsan", True) else []))
    plain = [std] + BASE + inc + w.get("flags", []) + san
    simflags = ["-std=c++17"] + BASE + inc + san + (["-DSIM_NO_NEW"] if san else [])
    jobs = [(os.path.join(VERIF, "sim", "sim.cc"), simflags)]
    # the world file holds the oracle (and instantiates the templates of the
    # repository): it is instrumented as well where threads are simulated
    jobs.append((os.path.join(VERIF, "worlds", w["world"]), (repo_flags if w.get("world_tsan") else plain) + w.get("world_flags", [])))
    for s in w.get("repo", []):
        jobs.append((os.path.join(REPO, s), repo_flags + w.get("file_flags", {}).get(s, [])))
    for s in w.get("extra", []):
        jobs.append((os.path.join(VERIF, s), repo_flags if w.get("world_tsan") else plain))
    for s in w.get("extra_tsan", []):
        jobs.append((os.path.join(VERIF, s), repo_flags))
    objs = []
    with cf.ThreadPoolExecutor(WORKERS) as ex:
        for obj, err in ex.map(lambda j: compile_one(*j), jobs):
            if err:
                return None, err
            objs.append(obj)
    exe = os.path.join(BUILD, "bin", pid)
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    tmp = exe + ".%d" % os.getpid()
    r = subprocess.run([CXX, "-o", tmp] + objs + san + ["-rdynamic", "-ldl", "-lpthread"] + w.get("libs", []),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        return None, "linking %s failed:\n%s" % (pid, r.stdout[-6000:])
    os.replace(tmp, exe)
    return [exe], None


def known_keys(pid):
    out = {}
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: property=%s " % pid):
                rest = line.split(" ", 2)[2]
                if rest.startswith("key="):
                    k, _, what = rest[4:].partition(" ")
                    out[k] = what
    return out


def env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:handle_abort=0:detect_stack_use_after_return=0"
    e["PYTHONHASHSEED"] = "0"
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["VERIF_REPO"] = REPO
    e["LC_ALL"] = "C.UTF-8"
    e.pop("SIM_REEXEC", None)
    return e


def call(cmd, timeout=600):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env(),
                          timeout=timeout, errors="replace")


def result_line(out):
    for line in out.splitlines():
        if line.startswith("RESULT "):
            return line.split()[:4]
    return None


def run(pid):
    t0 = time.time()
    w = WORLDS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    base = (seed % (1 << 40)) * 100000007 + 1
    runs = w["runs"] if tier == "quick" else w.get("runs_thorough", w["runs"] * 40)
    cap = w.get("cap", 60) if tier == "quick" else w.get("cap_thorough", 700)
    os.makedirs(EVID, exist_ok=True)
    evid = os.path.join(EVID, pid + ".json")
    if os.path.exists(evid):
        os.unlink(evid)
    exe, err = build(pid)
    if err:
        print("ERROR property=%s %s" % (pid, err))
        return 2
    tb = time.time() - t0
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        known = known_keys(pid)
        kf = os.path.join(tmp, "known")
        with open(kf, "w") as f:
            f.write("".join(k + "\n" for k in known))
        common = ["--known", kf, "--tmp", tmp]
        out = os.path.join(tmp, "out.json")
        r = call(exe + ["--explore", "--seed", str(base), "--runs", str(runs), "--cap", str(cap),
                        "--workers", str(WORKERS), "--out", out] + common, timeout=cap + 240)
        if r.returncode or not os.path.exists(out):
            print("ERROR property=%s simulator ended with %d\n%s" % (pid, r.returncode, r.stdout[-3000:]))
            return 2
        res = json.load(open(out))
        if res["worker_error"] or res["runs"] == 0:
            print("ERROR property=%s worker failure %s" % (pid, r.stdout[-2000:]))
            return 2
        # determinism: the same seeds, another process, other order, ASLR on
        samp = list(res["samples"].items())
        mism = []
        if samp:
            ids = [s for s, _ in samp][::-1]
            r = call(exe + ["--hashes", ",".join(ids), "--aslr"] + common)
            got = dict(l.split() for l in r.stdout.splitlines() if len(l.split()) == 2)
            mism = [s for s, h in samp if got.get(s) != h]
        viol = res["violations"]
        status, rep = 0, None
        gate = "not needed"
        if viol:
            for cand in (lambda: viol[:6], lambda: fresh_violations(exe, common, viol[0]["seed"])[:6]):
                for v in cand():
                    ok, rep, info = gate_violation(pid, exe, common, v, tmp)
                    gate = info
                    if ok:
                        status = 1
                        break
                if status:
                    break
            if status == 0:
                print("ERROR property=%s a violation did not reproduce: %s %s" % (pid, viol[0], gate))
                return 2
        elif mism:
            print("ERROR property=%s nondeterministic seeds: %s" % (pid, mism[:5]))
            return 2
        ew = max(res["explore_wall_s"], 1e-3)
        samples = []
        for s, h in samp[:2]:
            p = os.path.join(tmp, "sample")
            call(exe + ["--one", s, "--dump", p] + common)
            if os.path.exists(p):
                txt = open(p).read().splitlines()
                samples.append({"seed": int(s), "event_log_hash": h, "plan": txt[2:42]})
        cov = {
            "evaluations": res["runs"],
            "distinct_nontrivial": res["distinct_nontrivial"],
            "rule": res["rule"],
            "samples": samples,
            "simulated_runs": res["runs"],
            "seeds": {"first": base, "count": res["runs"]},
            "runs_per_hour": int(res["runs"] / ew * 3600),
            "seeds_per_hour": int(res["runs"] / ew * 3600),
            "simulated_time": {"total": res["sim_time"], "unit": res["sim_time_meaning"]},
            "scheduling_steps": res["steps"],
            "preemptions": res["preemptions"],
            "oracle_evaluations": res["oracle_checks"],
            "runs_with_a_fault_or_preemption": res["runs_with_fault_or_preemption"],
            "faults_fired": res["faults"],
            "rare_situations_reached": res["probes"],
            "distinct_run_shapes": res["distinct_shapes"],
            "distinct_abstract_states": res["distinct_states"],
            "distinct_measure": "hash of the sequence of event kinds, fired faults and context switches of a run; "
                                "non-trivial: at least one injected fault fired or one preemption happened",
            "determinism": {"seeds_re_executed_in_a_fresh_process": len(samp), "mismatches": len(mism)},
            "real_components": res["real_components"],
            "stub_components": res["stub_components"],
            "build_s": round(tb, 2),
            "workers": WORKERS,
            "known_findings_seen": {k: v[0] for k, v in res["known"].items()},
        }
        ev = {"property": pid, "tier": tier, "seed": seed, "level": w.get("level", "exploration"), "coverage": cov,
              "assumptions": res["assumptions"], "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
        with open(evid, "w") as f:
            json.dump(ev, f, indent=1)
        for k, what in known.items():
            print("KNOWN-FINDING: property=%s %s (%s; seen %d times in this run)" %
                  (pid, what, k, res["known"].get(k, [0])[0]))
        print("%s %s: %d runs in %.1fs (build %.1fs), %d distinct non-trivial, faults %s" %
              (pid, tier, res["runs"], ew, tb, res["distinct_nontrivial"], res["faults"]))
        if status == 1:
            print("VIOLATION property=%s replay=%s" % (pid, rep))
        return status
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def gate_violation(pid, exe, common, v, tmp):
    """A violation counts only if it reproduces bit for bit in fresh processes."""
    one = exe + ["--one", str(v["seed"])] + common
    a = result_line(call(one).stdout)
    b = result_line(call(one).stdout)
    if not a or not b or a[:4] != b[:4] or a[1] != "2":
        return False, None, "seed %s gave %s then %s, first %s" % (v["seed"], a, b, v["hash"])
    rep = os.path.join(EVID, "replay-%s.txt" % pid)
    key = a[2]

    def reproduced():
        return all("REPRODUCED" in call(exe + ["--plan", rep] + common).stdout.split() for _ in range(2))

    m = call(exe + ["--minimise", str(v["seed"]), "--key", v["key"], "--out", rep, "--cap", "25"] + common)
    how = m.stdout.strip()
    def adopt():
        """Expect what this very file gives: code that reads memory it does not own sees the layout of the
        process, which depends on the text that was read (so the length of the file must not change)."""
        got = result_line(call(exe + ["--plan", rep] + common).stdout)
        if not got or got[1] != "2" or got[2] != key:
            return False
        with open(rep) as f:
            txt = f.read()
        with open(rep, "w") as f:
            f.write(re.sub(r"(?m)^expect-hash .*$", "expect-hash " + got[3].rjust(16, "0"), txt))
        return reproduced()

    if m.returncode or not (reproduced() or adopt()):
        # keep the unreduced plan
        how = "not reduced"
        if os.path.exists(rep):
            os.unlink(rep)
        call(exe + ["--one", str(v["seed"]), "--dump", rep] + common)
        with open(rep) as f:
            txt = f.read()
        with open(rep, "w") as f:
            f.write(txt + "expect-key %s\nexpect-hash %s\n" % (key, "0" * 16))
        if not adopt():
            return False, None, "replay of %s: %s" % (rep, call(exe + ["--plan", rep] + common).stdout)
    print("property %s violated: %s\n  %s\n  seed %s; minimised: %s" % (pid, key, v["msg"], v["seed"], how))
    for line in open(rep):
        if line.startswith("op ") or line.startswith("sched"):
            print("   ", line.rstrip()[:200])
    return True, rep, "reproduced in 4 fresh processes"


def fresh_violations(exe, common, first, n=400):
    """Runs n seeds in a fresh process each; the violating ones."""
    def one(s):
        r = result_line(call(exe + ["--one", str(s)] + common).stdout)
        if r and r[1] == "2":
            return {"seed": s, "key": r[2], "hash": r[3], "msg": r[2]}
    with cf.ThreadPoolExecutor(WORKERS) as ex:
        return [v for v in ex.map(one, range(first, first + n)) if v]


def replay(path):
    pid = None
    for line in open(path):
        if line.startswith("property "):
            pid = line.split()[1]
    exe, err = build(pid)
    if err:
        print(err)
        return 2
    tmp = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        kf = os.path.join(tmp, "known")
        open(kf, "w").write("".join(k + "\n" for k in known_keys(pid)))
        r = call(exe + ["--plan", os.path.abspath(path), "--verbose", "--known", kf, "--tmp", tmp])
        print(r.stdout)
        return r.returncode
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    cmd = sys.argv[1]
    if cmd == "run":
        return run(sys.argv[2])
    if cmd == "replay":
        return replay(sys.argv[2])
    if cmd == "build":
        bad = 0
        for pid in sys.argv[2:] or sorted(WORLDS):
            _, err = build(pid)
            if err:
                print(err)
                bad = 1
        return bad
    if cmd == "seed":
        exe, err = build(sys.argv[2])
        if err:
            print(err)
            return 2
        tmp = tempfile.mkdtemp(prefix="verif-seed-")
        r = subprocess.run(exe + ["--one", sys.argv[3], "--verbose", "--tmp", tmp] + sys.argv[4:], env=env())
        shutil.rmtree(tmp, ignore_errors=True)
        return r.returncode
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
