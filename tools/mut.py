#!/usr/bin/env python3
"""Development aid: applies one textual change to a copy of /repo and runs a check on it.
usage: mut.py <ID>[,<ID>...] <file> <old> <new> [count]"""
import subprocess, sys
ids, f, old, new = sys.argv[1:5]
import os
M = "/tmp/mutrepo"
os.makedirs(M, exist_ok=True)
subprocess.run("cp -au /repo/src /repo/include %s/ && cp -a /repo/%s %s/%s" % (M, f, M, f), shell=True, check=True)
p = M + "/" + f
s = open(p, newline="").read()
old = old.encode().decode("unicode_escape"); new = new.encode().decode("unicode_escape")
if old not in s:
    sys.exit("NOT FOUND: %r" % old)
open(p, "w", newline="").write(s.replace(old, new, 1))
try:
    for i in ids.split(","):
        r = subprocess.run([sys.executable, "/verif/check.py", "run", i], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, VERIF_REPO=M))
        t = r.stdout.strip().splitlines()
        print(i, "exit", r.returncode, "CAUGHT" if r.returncode == 1 else "missed" if r.returncode == 0 else "ERROR", "|", (t[0] + " " + (t[1] if len(t) > 1 else ""))[:220] if t else "")
finally:
    open(p, "w", newline="").write(s)
