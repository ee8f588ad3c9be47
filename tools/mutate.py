#!/usr/bin/env python3
"""mutate.py PROP N [seed] [file-substring]: small random changes to the functions a property's evidence lists; prints those its check doesn't notice."""
import sys, os, re, json, random, subprocess, shutil, glob, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
pid, n = sys.argv[1], int(sys.argv[2]); rnd = random.Random(int(sys.argv[3]) if len(sys.argv) > 3 else 1); sub = sys.argv[4] if len(sys.argv) > 4 else ""
import meta
files = [f for f in meta.META[pid]["files"] if sub in f and f.endswith((".cpp", ".c"))]
W = tempfile.mkdtemp(prefix="mut.", dir="/tmp"); R = W + "/repo"; os.makedirs(R)
for d in ("clink", "readline", "wildmatch", "lua", "getopt", "detours"): shutil.copytree("/repo/" + d, f"{R}/{d}")
os.makedirs(W + "/cache"); os.makedirs(W + "/out"); os.makedirs(W + "/ev")
for f in glob.glob(V + "/.cache/symx-*"): shutil.copy(f, W + "/cache")
env = dict(os.environ, SX_REPO=R, SX_CACHE=W + "/cache", SX_OUT=W + "/out", SX_EV=W + "/ev", SX_NATIVE="0")
ev = json.load(open(f"{V}/evidence/{pid}.json"))["coverage"]["functions_encoded"]; names = set(re.sub(r".*[ :~]", "", k.split("(")[0]) for k in ev)
OPS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "), (r" \+ 1\b", ""), (r" - 1\b", ""), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\+\+", "--"), (r"!(?=\w)", ""), (r" \+= ", " -= "), (r" \+ ", " - "), (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\bbreak;", ";"), (r"\bcontinue;", ";"), (r"\breturn;", ";"), (r"^(\s*)[\w\.\->\[\]\(\), ]+;\s*$", r"\1;"), (r"^(\s*)[\w\.\->\[\]]+ [+\-|&]?= .*;\s*$", r"\1;"), (r"if \((?!.*\{)", "if (0 && "), ]
cand = []
for f in files:
    L = open(f"{R}/{f}", newline="", errors="surrogateescape").read().split("\n"); fn = None
    for i, l in enumerate(L):
        m = re.match(r"^(?=[A-Za-z_]).*?([\w~]+) ?\(", l)
        if m and not l.rstrip("\r").endswith(";"): fn = m.group(1)
        if fn and fn in names and l.startswith((" ", "\t")) and "assert" not in l and not l.strip().startswith(("//", "#")):
            for o, r in OPS:
                for k, m in enumerate(re.finditer(o, l.rstrip("\r"))):
                    new = l[:m.start()] + m.expand(r) + l[m.end():]
                    if "//" in l and l.index("//") < m.start(): continue
                    cand.append((f, i, new))
rnd.shuffle(cand); done = 0; alive = 0
for f, i, new in cand:
    if done >= n: break
    p = f"{R}/{f}"; orig = open(p, newline="", errors="surrogateescape").read(); L = orig.split("\n"); old = L[i]; L[i] = new
    open(p, "w", newline="", errors="surrogateescape").write("\n".join(L))
    r = subprocess.run(["python3", V + "/check.py", pid, "quick"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    open(p, "w", newline="", errors="surrogateescape").write(orig)
    for x in glob.glob(W + "/cache/*"):
        if "symx-" not in x: shutil.rmtree(x) if os.path.isdir(x) else os.unlink(x)
    for x in glob.glob(W + "/out/*"): shutil.rmtree(x, ignore_errors=True) if os.path.isdir(x) else os.unlink(x)
    if "compile" in r.stdout and r.returncode == 4: continue
    done += 1; st = {0: "ALIVE", 1: "killed"}.get(r.returncode, f"rc={r.returncode}")
    if r.returncode == 0: alive += 1
    if r.returncode != 1: print(f"{st} {f}:{i+1}\n   - {old.strip()}\n   + {new.strip()}", flush=True)
    if r.returncode not in (0, 1): print(r.stdout[-300:])
print(f"{pid}: {done} mutants, {alive} alive")
shutil.rmtree(W)
