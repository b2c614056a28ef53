#!/usr/bin/env python3
"""Makes and confirms one planted bug.
usage: seed.py <name> <property> <spec.json>
spec: {"edits": [[file, old, new], ...], "demo": "C++ text", "srcs": [...], "dg": bool, "needs": ..., "breaks": ...,
       "py": "python demo text" instead of demo}
seed.py check <name>...   re-confirms existing ones
"""
import json, os, shutil, subprocess, sys
V = "/verif"; S = V + "/seeded"; W = "/tmp/seedwork"
def sh(c, cwd=None, t=900):
    return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, errors="replace")
def confirm(name):
    d = S + "/" + name; prop = json.load(open(d + "/meta.json"))["property"]
    r0 = sh("bash %s/demo.sh" % d, "/repo", 300)
    if r0.returncode: return "demo fails on the unchanged tree:\n" + r0.stdout[-1500:]
    a = sh("git -C /repo apply --check %s/patch.diff && git -C /repo apply %s/patch.diff" % (d, d))
    if a.returncode: return "does not apply: " + a.stdout
    try:
        b = sh("bash /opt/vp/build.sh")
        if b.returncode: return "build fails:\n" + b.stdout[-1500:]
        t = sh("bash /opt/vp/test.sh /tmp/seed-out.json")
        res = json.load(open("/tmp/seed-out.json")); base = json.load(open("/opt/vp/BASELINE.json"))
        txt = json.dumps(res)
        r1 = sh("bash %s/demo.sh" % d, "/repo", 300)
        if r1.returncode == 0: return "demo passes with the patch"
        c = sh("python3 %s/check.py run %s" % (V, prop), V)
        caught = c.returncode == 1 and "VIOLATION property=%s" % prop in c.stdout
        return "OK demo=%d check=%s tests=%s | %s" % (r1.returncode, "CAUGHT" if caught else "MISSED(%d)" % c.returncode, txt[:160], (c.stdout.splitlines() or [""])[0][:120])
    finally:
        sh("git -C /repo checkout -- ."); sh("bash /opt/vp/build.sh")
if sys.argv[1] == "check":
    for n in sys.argv[2:] or sorted(os.listdir(S)): print(n, confirm(n), flush=True)
    sys.exit(0)
name, prop, spec = sys.argv[1], sys.argv[2], json.load(open(sys.argv[3]))
d = S + "/" + name; os.makedirs(d, exist_ok=True)
for f, old, new in spec["edits"]:
    p = "/repo/" + f; s = open(p, newline="").read()
    if "\r\n" in s: old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
    if s.count(old) < 1: sh("git -C /repo checkout -- ."); sys.exit("NOT FOUND %r" % old)
    open(p, "w", newline="").write(s.replace(old, new, 1))
open(d + "/patch.diff", "w", newline="").write(subprocess.run("git -C /repo diff", shell=True, stdout=subprocess.PIPE).stdout.decode()); sh("git -C /repo checkout -- .")
json.dump({"property": prop, "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(d + "/meta.json", "w"), indent=1)
if "py" in spec:
    open(d + "/demo.py", "w").write(spec["py"])
    open(d + "/demo.sh", "w").write('#!/bin/bash\n# run with cwd = the repository\nset -e\nhere=$(cd "$(dirname "$0")" && pwd)\nexec python3 -B "$here/demo.py" "$PWD"\n')
    if spec.get("pystub"):
        for q in spec["pystub"]: shutil.copytree(q, d + "/" + os.path.basename(q), dirs_exist_ok=True)
else:
    open(d + "/demo.cc", "w").write(spec["demo"])
    inc = ""
    if spec.get("dg"):
        if os.path.exists(d + "/dgstub"): shutil.rmtree(d + "/dgstub")
        shutil.copytree(V + "/dgstub", d + "/dgstub"); inc = '-I"$here/dgstub" '
    open(d + "/demo.sh", "w").write('''#!/bin/bash
# run with cwd = the repository; compiles the demonstration with the code under test
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 0
trap 'rm -r "$tmp"' EXIT
i=0; jobs=
for f in "$here/demo.cc" %s; do
  i=$((i + 1)); g++ -std=c++14 -O1 -w %s-I"$PWD/include" -I"$PWD/src" -isystem /usr/include/eigen3 -c "$f" -o "$tmp/$i.o" & jobs="$jobs $!"
done
for j in $jobs; do wait $j || exit 9; done
g++ "$tmp"/*.o -o "$tmp/demo" -ldl -lpthread %s || exit 9
cd "$tmp" && timeout 120 ./demo
''' % (" ".join('"$PWD/%s"' % s for s in spec.get("srcs", [])), inc, spec.get("libs", "")))
print(name, confirm(name))
