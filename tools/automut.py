#!/usr/bin/env python3
"""Development aid: a mutation campaign on one file.
usage: automut.py <ID>[,<ID>] <file> [from-to] [limit]   (prints the surviving mutants)
Works on copies of /repo and /verif under /tmp."""
import os, re, subprocess, sys, shutil, random, ast
ids, f = sys.argv[1].split(","), sys.argv[2]
rng = sys.argv[3] if len(sys.argv) > 3 and "-" in sys.argv[3] else None
limit = int(sys.argv[4]) if len(sys.argv) > 4 else 10**9
tag = re.sub(r"\W", "_", f)
W = "/tmp/automut/" + tag
subprocess.run("mkdir -p %s && rsync -a --delete --exclude .git --exclude build --exclude seeded --exclude evidence /verif/ %s/verif/ 2>/dev/null || (mkdir -p %s/verif && cd /verif && cp -a check.py worlds_registry.py sim worlds dgstub pysim known-findings.txt %s/verif/)" % (W, W, W, W), shell=True, check=True)
subprocess.run("mkdir -p %s/repo && cp -a %s/src %s/include %s/repo/" % (W, os.environ.get("AM_REPO", "/repo"), os.environ.get("AM_REPO", "/repo"), W), shell=True, check=True)
p = W + "/repo/" + f
orig = open(p, newline="").read()
nl = "\r\n" if "\r\n" in orig else "\n"
lines = orig.split(nl)
py = f.endswith(".py")
a, b = (map(int, rng.split("-")) if rng else (1, len(lines)))
SW = [(r"(?<![<>=!\-+*/&|])<(?![<=])", "<="), (r"<=", "<"), (r"(?<![<>=!\->])>(?![>=])", ">="), (r">=", ">"), (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"),
      (r"(?<=[\w\)\]] )\+(?= [\w\(])", "-"), (r"(?<=[\w\)\]] )-(?= [\w\(])", "+"), (r"(?<=[\w\)\]] )\*(?= [\w\(])", "/"), (r"\+=", "-="), (r"-=", "+="), (r"\+\+", "--"), (r"--(?=[\w;\)])", "++"),
      (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bTrue\b", "False"), (r"\bFalse\b", "True"), (r"\band\b", "or"), (r"\bor\b", "and"), (r"\bnot ", ""), (r"(?<![\w.\"<])0(?![\w.])", "1"), (r"(?<![\w.\"<])1(?![\w.])", "2"), (r"(?<![\w.\"<])1(?![\w.])", "0"),
      (r"!(?=[\w\(])", ""), (r"\bstd::max\b", "std::min"), (r"\bstd::min\b", "std::max"), (r"\bbreak;", ""), (r"\bcontinue;", ""), (r"\breturn;", ";"), (r"\bbegin\(\)", "end()"),(r"\bif \((?!\))", "if (!"), (r"\.front\(\)", ".back()"), (r"\.back\(\)", ".front()"),(r"\bsecs_", "nsecs_"),(r"\bin_type::numeric",""),
      (r"^(\s*)if (.*):$", r"\1if not (\2):"), (r"^(\s*)while (.*):$", r"\1while not (\2):")]
muts = []
inc = False
for i in range(a - 1, min(b, len(lines))):
    l = lines[i]; s = l.strip()
    if "/*" in s and "*/" not in s: inc = True
    if inc:
        if "*/" in s: inc = False
        continue
    if not s or s.startswith(("//", "#", "/*", "*", "using", "typedef", '"', "import", "from", "template", "namespace", "public", "private", "protected")) or "sotDEBUG" in s or "CONSTRUCT" in s or "docstring" in s or "<<" in s and '"' in s: continue
    code = l.split("//")[0]
    for pat, rep in SW:
        for m in re.finditer(pat, code):
            if pat.startswith((r"(?<![<>=!\-+*/&|])<", r"(?<![<>=!\->])>")) and re.search(r"(vector|map|list|deque|cast|pair|template|shared_ptr|Signal\w*|SignalPtr)\s*<|<\w*>|include", code): continue
            new = code[:m.start()] + re.sub(pat, rep, m.group(0)) + code[m.end():] if not pat.startswith("^") else re.sub(pat, rep, code)
            if new != code: muts.append((i, new))
    if not py and s.endswith(";") and re.match(r"^[\w:\->\.\[\]\(\)\*\+]+(\s*(=|\+=|-=|\*=|\().*|\+\+|--);$", s) and not s.startswith("return") and not re.match(r"^[\w:<>]+ [\w]+( =|;|\()", s):
        muts.append((i, re.match(r"^\s*", l).group(0) + ";"))
    if py and re.match(r"^[\w\.\[\]]+(\(| = | \+= | -= |,)", s) and not s.endswith((",", "(", "[", ":")) and s.count("(") == s.count(")"):
        muts.append((i, re.match(r"^\s*", l).group(0) + "pass"))
seen = set(); muts = [m for m in muts if not (m in seen or seen.add(m))]
if len(muts) > limit: random.Random(1).shuffle(muts); muts = sorted(muts[:limit])
n = dict(caught=0, missed=0, invalid=0)
try:
    for i, new in muts:
        ls = list(lines); ls[i] = new; txt = nl.join(ls)
        if py:
            try: ast.parse(txt)
            except SyntaxError: n["invalid"] += 1; continue
        open(p, "w", newline="").write(txt)
        res = "missed"
        for x in ids:
            try:
                r = subprocess.run([sys.executable, W + "/verif/check.py", "run", x], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=dict(os.environ, VERIF_REPO=W + "/repo"), timeout=400)
            except subprocess.TimeoutExpired:
                res = "TIMEOUT"; break
            if r.returncode == 1: res = "caught"; break
            if r.returncode == 2: res = "invalid" if "compiling" in r.stdout or "linking" in r.stdout else "ERROR2 " + r.stdout[:150]; break
        if res in n: n[res] += 1
        if res not in ("caught", "invalid"): print("%s %d: %s\n      -> %s" % (res, i + 1, lines[i].strip(), new.strip()), flush=True)
finally:
    print(f, n, flush=True)
    shutil.rmtree(W, ignore_errors=True)
