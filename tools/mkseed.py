#!/usr/bin/env python3
"""mkseed.py SPEC.py: makes /verif/seeded/<id>/ from a list of SEED(id, property, needs, breaks, [(file, old, new)], demo source)."""
import sys, os, json, subprocess, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = '#include "pch.h"\n#include <stdio.h>\n#include <string.h>\n#include <windows.h>\n'
def SEED(id, prop, needs, breaks, edits, demo, pre=""):
    d = f"{V}/seeded/{id}"; os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="seed."); subprocess.run(["git", "-C", "/repo", "worktree", "prune"]); subprocess.run(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", w + "/t", "HEAD"], check=True)
    try:
        for f, o, n in edits:
            p = f"{w}/t/{f}"; s = open(p, newline="").read(); crlf = "\r\n" in s
            if crlf: o = o.replace("\n", "\r\n"); n = n.replace("\n", "\r\n")
            assert s.count(o) == 1, (id, f, s.count(o), o); open(p, "w", newline="").write(s.replace(o, n))
        open(d + "/patch.diff", "w", newline="").write(subprocess.run(["git", "-C", w + "/t", "diff"], stdout=subprocess.PIPE, check=True).stdout.decode())
    finally: subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", w + "/t"]); shutil.rmtree(w)
    shutil.copy(V + "/tools/demo_template.sh", d + "/demo.sh"); os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.cpp", "w").write(demo if demo.startswith("//") else '#include <stdio.h>\n#include <string.h>\n#include <windows.h>\n#include "core/base.h"\n#include "core/str.h"\n' + pre + '\n#define CHECK(x) do { if (!(x)) { printf("FAILED: %s\\n", #x); fflush(stdout); _Exit(1); } } while (0)\nint main() {\n' + demo + '\n    printf("ok\\n"); fflush(stdout); _Exit(0);\n}\n')
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    print("made", id)
exec(open(sys.argv[1]).read())
