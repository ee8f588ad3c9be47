#!/usr/bin/env python3
"""Runs the solver-based check of one property: check.py <property> [quick|thorough]"""
import sys, os, re, json, hashlib, subprocess, time, concurrent.futures, shutil, glob, tempfile, signal, random
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SX_REPO", "/repo")
CACHE = os.environ.get("SX_CACHE", os.path.join(V, ".cache")); OUT = os.environ.get("SX_OUT", os.path.join(V, ".out"))
CLANG = "/usr/lib/llvm-18/bin/clang"; LLINK = "/usr/lib/llvm-18/bin/llvm-link"; OPT = "/usr/lib/llvm-18/bin/opt"
MXX = "x86_64-w64-mingw32-g++-posix"; MCC = "x86_64-w64-mingw32-gcc-posix"
sys.path.insert(0, V)

def sh(cmd, **k): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", **k)
def hfiles(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode()); h.update(b"\0")
        with open(p, "rb") as f: h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()

def build_engine():
    src = sorted(glob.glob(V + "/engine/*.cpp") + glob.glob(V + "/engine/*.h"))
    key = hfiles(src)[:16]; exe = f"{CACHE}/symx-{key}"
    if os.path.exists(exe): return exe
    os.makedirs(CACHE, exist_ok=True)
    flags = sh(["/usr/lib/llvm-18/bin/llvm-config", "--cxxflags"]).stdout.replace("-std=c++17", "").split()
    objs = []; ps = []
    for s in [x for x in src if x.endswith(".cpp")]:
        o = f"{CACHE}/{os.path.basename(s)}-{key}-{os.getpid()}.o"; objs.append(o)
        ps.append(subprocess.Popen(["g++", "-O2", "-w", "-std=c++17"] + flags + ["-fexceptions", "-c", s, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
    for p in ps:
        o, _ = p.communicate()
        if p.returncode: print(o); raise SystemExit(3)
    r = sh(["g++", "-o", exe + f".{os.getpid()}"] + objs + ["-L/usr/lib/llvm-18/lib", "-lLLVM-18", "-lz3"])
    if r.returncode: print(r.stderr); raise SystemExit(3)
    os.rename(exe + f".{os.getpid()}", exe)
    for o in objs: os.unlink(o)
    return exe

# ---------------------------------------------------------------- sources
def tree_hash():
    h = hashlib.sha256()
    for top in ("clink", "readline", "wildmatch", "lua/src", "getopt", "detours"):
        for d, dn, fs in sorted(os.walk(os.path.join(REPO, top))):
            dn.sort()
            for f in sorted(fs):
                if f.endswith((".c", ".cpp", ".h", ".i", ".inl", ".hpp")):
                    p = os.path.join(d, f); h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()
MINGW = "/usr/x86_64-w64-mingw32/include"
def prepare(gen):
    """What the project's generator makes (commit header) and case-insensitive include wrappers."""
    shim = gen + "/shim"; os.makedirs(shim, exist_ok=True)
    def write(p, t):
        if not os.path.exists(p) or open(p).read() != t:
            with open(p + f".{os.getpid()}", "w") as f: f.write(t)
            os.rename(p + f".{os.getpid()}", p)
    v = dict(re.findall(r"CLINK_VERSION_(MAJOR|MINOR|PATCH)[ \t]+([0-9]+)", open(REPO + "/clink/app/src/version.h", encoding="utf-8", errors="replace").read()))
    s = ".".join(v.get(k, "0") for k in ("MAJOR", "MINOR", "PATCH")) + ".000000"
    write(gen + "/clink_commit.h", f'#pragma once\n#define CLINK_COMMIT 000000\n#define CLINK_VERSION_STR "{s}"\n#define CLINK_VERSION_LSTR L"{s}"\n#define CLINK_VERSION_STR_WITH_BRANCH "{s}"\n')
    system = {f.lower(): f for f in os.listdir(MINGW)}; want = {}
    for top in ("clink", "readline", "lua", "wildmatch", "detours", "getopt"):
        for d, _, fs in os.walk(os.path.join(REPO, top)):
            for f in fs:
                if f.endswith((".c", ".cpp", ".h", ".i", ".rc")):
                    for h in re.findall(rb'^\s*#\s*include\s*[<"]([^>"\n]+)[>"]', open(os.path.join(d, f), "rb").read(), re.M):
                        h = h.decode("latin-1")
                        if "\\" in h: want[h] = h.replace("\\", "/")
                        elif "/" not in h and h not in system.values() and h.lower() in system: want[h] = system[h.lower()]
    for n, t in want.items(): write(os.path.join(shim, n), f"#include <{t}>\n")

INC = {
 "clink/core": "clink/core/include/core clink/core/src", "clink/lib": "clink/lib/include/lib clink/core/include clink/terminal/include readline readline/compat wildmatch clink/lib/src",
 "clink/terminal": "clink/terminal/include/terminal clink/core/include clink/process/include clink/terminal/src", "clink/process": "clink/core/include clink/process/include/process clink/process/src",
 "clink/lua": "clink/lua/include/lua clink/core/include clink/lib/include clink/process/include clink/terminal/include lua/src readline readline/compat wildmatch clink/lua/src",
 "clink/app": "clink/app/src clink/core/include clink/lib/include clink/lua/include clink/process/include clink/terminal/include getopt lua/src readline readline/compat detours",
 "readline": "readline readline/compat wildmatch/wildmatch", "lua": "lua/src", "wildmatch": "wildmatch/wildmatch", "getopt": "getopt",
 "harness": "clink/core/include clink/core/include/core clink/lib/include clink/lib/include/lib clink/terminal/include clink/terminal/include/terminal clink/lua/include clink/process/include clink/app/src clink/lib/src clink/terminal/src clink/core/src wildmatch readline readline/compat lua/src getopt . ",
}
DEFS = ["-DNDEBUG", "-DHAVE_CONFIG_H", "-DHANDLE_MULTIBYTE", "-D__MSVCRT_VERSION__=0x0601", "-D_WIN32_WINNT=0x0601", "-DWINVER=0x0601", '-DCLINK_BUILD_ROOT="x"']
COMMON_I = ["-fno-exceptions", "-fwrapv", "-fno-strict-aliasing"]

class Builder:
    def __init__(self, gen, th): self.gen = gen; self.th = th
    def flags(self, src, defs, native):
        is_h = not src.startswith(REPO + "/"); rel = src[len(REPO) + 1:]
        grp = "harness" if is_h else next(k for k in INC if rel.startswith(k))
        inc = [f"-I{REPO}/{i}" for i in INC[grp].split()] + [f"-I{self.gen}"]
        if is_h: inc = [f"-I{V}/harness", f"-I{V}/models"] + inc
        inc.insert(0, f"-I{V}/models/include")
        d = list(DEFS)
        if grp == "readline": d.append("-DBUILD_READLINE")
        if grp == "lua": d += ["-DBUILD_LUA", "-DBUILD_CLINK_LUA"]
        cxx = src.endswith(".cpp")
        if not native: d.append("-DSX_ENGINE")
        f = ["-w"] + (["-std=c++17"] if cxx else []) + COMMON_I + d + inc + [f"-idirafter{self.gen}/shim"]
        f += [f"-D{k}={v}" if v is not None else f"-D{k}" for k, v in defs.items()]
        if native: f = ["-O0", "-ffunction-sections", "-fdata-sections"] + (["-fpermissive"] if cxx else []) + f
        else:
            f = ["--target=x86_64-w64-mingw32", "-x", "c++" if cxx else "c", "-O1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-fno-delete-null-pointer-checks", "-gline-tables-only", "-D_GLIBCXX_EXTERN_TEMPLATE=0",
                 "-Wno-c++11-narrowing", "-fms-extensions", "-include", "errno.h", "-mllvm", "-phi-node-folding-threshold=6", "-mllvm", "-two-entry-phi-node-folding-threshold=12", "-emit-llvm"] + f
            if src.startswith(V + "/models/rt_"): f.append("-fno-builtin")
        return f
    def compile(self, src, defs, native, extra=()):
        fl = self.flags(src, defs, native) + list(extra)
        own = hfiles([src] + sorted(glob.glob(V + "/harness/*.h") + glob.glob(V + "/models/*.h") + glob.glob(V + "/models/include/*.h"))) if not src.startswith(REPO + "/") else hfiles(sorted(glob.glob(V + "/models/*.h") + glob.glob(V + "/models/include/*.h")))
        key = hashlib.sha256(repr((src, fl, self.th, own)).encode()).hexdigest()[:24]
        out = f"{CACHE}/{'n' if native else 'b'}-{os.path.basename(src)}-{key}.{'o' if native else 'bc'}"
        if os.path.exists(out): return out, None
        cc = ([MXX] if src.endswith(".cpp") else [MCC]) if native else [CLANG]
        tmp = out + f".{os.getpid()}.{random.random()}"
        r = sh(cc + fl + ["-c", src, "-o", tmp])
        if r.returncode: return None, f"{src}: " + "\n".join(l for l in r.stderr.splitlines() if "error" in l)[:700]
        os.rename(tmp, out)
        return out, None

class Wine:
    def __init__(self):
        self.prefix = tempfile.mkdtemp(prefix="wine.", dir=OUT); self.env = dict(os.environ, WINEPREFIX=self.prefix, WINEDEBUG="-all", WINEDLLOVERRIDES="mscoree=;mshtml=;winemenubuilder.exe=;winedbg.exe=", HOME=os.environ.get("HOME", "/root"))
        self.env.pop("DISPLAY", None)
        self.p = subprocess.Popen(["sh", "-c", "/usr/lib/wine/wineserver -p; timeout 180 wineboot -i"], env=self.env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL)
    def run(self, exe, rfile, ofile, to=60):
        if self.p: 
            try: self.p.wait(200)
            except Exception: pass
            self.p = None
        wd = ofile + ".d"; os.makedirs(wd, exist_ok=True)
        try: r = subprocess.run(["wine", exe, "Z:" + rfile, "Z:" + ofile], cwd=wd, env=self.env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, timeout=to)
        except subprocess.TimeoutExpired: return -1, ""
        t = open(ofile, errors="replace").read() if os.path.exists(ofile) else ""
        m = re.search(r"^END (\d+)", t, re.M)
        return (int(m.group(1)) if m else 99), t
    def close(self):
        if self.p:
            try: self.p.wait(200)
            except Exception: pass
        subprocess.run(["/usr/lib/wine/wineserver", "-k"], env=self.env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        time.sleep(0.3); shutil.rmtree(self.prefix, ignore_errors=True)

def rtext(inputs): return "".join(f"{i['name']} {len(i['v'])} {' '.join(map(str, i['v']))}\n" for i in inputs)

def load_findings():
    p = V + "/known_findings.txt"; r = {}
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", l)
            if m: r[m.group(2)] = (m.group(1), m.group(3))
    return r

def main():
    if len(sys.argv) > 1 and sys.argv[1] == "--setup": build_engine(); print("engine built"); return 0
    import props
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    only = sys.argv[3] if len(sys.argv) > 3 else None
    seed = int(os.environ.get("VERIF_SEED", "1")); t0 = time.time()
    P = props.PROPS[pid]; os.makedirs(CACHE, exist_ok=True); os.makedirs(OUT, exist_ok=True); os.makedirs(V + "/evidence", exist_ok=True)
    odir = f"{OUT}/{pid}-{tier}-{os.getpid()}"; shutil.rmtree(odir, ignore_errors=True); os.makedirs(odir)
    runs = [r for r in P["runs"] if (tier == "thorough" or not r.get("thorough_only")) and (not only or r["name"] == only)]
    wine = None
    want_native = os.environ.get("SX_NATIVE", "1") == "1"
    if want_native and any(r.get("native", True) for r in runs): wine = Wine()
    viols = []; kfs = {}; ev_runs = []; errors = []; unconf = []; validated = 0; mism = []
    try:
        exe = build_engine(); th = tree_hash(); gen = f"{CACHE}/gen-{th[:16]}"; prepare(gen); B = Builder(gen, th)
        ex = concurrent.futures.ThreadPoolExecutor(8)
        jobs = {}
        def want(src, defs, native): 
            k = (src, repr(sorted(defs.items(), key=str)), native)
            if k not in jobs: jobs[k] = ex.submit(B.compile, src, defs, native)
            return jobs[k]
        plan = []
        for r in runs:
            defs = dict(r.get("defs", {})); defs.update(r.get(tier) or r.get("quick") or {}); defs = {"H_" + k: v for k, v in defs.items()}
            srcs = [f"{REPO}/{s}" for s in r["src"]]; models = [f"{V}/models/{m}" for m in r.get("models", [])]; h = f"{V}/harness/{r['harness']}"; cd = r.get("cdefs", {})
            b = [want(h, defs, False)] + [want(m, defs, False) for m in models] + [want(s, cd, False) for s in srcs] + [want(f"{V}/models/{m}", {}, False) for m in ("rt_c.cpp", "rt_cxx.cpp")]
            plan.append((r, defs, b, h, models, srcs, cd))
        nat = {}; ncore = {}
        if wine:
            for r, defs, b, h, models, srcs, cd in plan:
                if r.get("native", True): nat[r["name"]] = [want(h, defs, True)] + [want(m, defs, True) for m in models] + [want(s, cd, True) for s in srcs] + [want(V + "/models/sx_native.cpp", {}, True)]
                if r.get("native", True): ncore[r["name"]] = [want(s, cd, True) for s in sorted(glob.glob(REPO + "/clink/core/src/*.cpp")) if s not in srcs and not s.endswith("/pch.cpp")] + [want(f"{REPO}/{s}", cd, True) for s in r.get("nlib", [])]
        for r, defs, b, h, models, srcs, cd in plan:
            name = r["name"]; rd = f"{odir}/{name}"; os.makedirs(rd)
            fs = [f.result() for f in b]; errs = [e for _, e in fs if e]
            if errs: errors.append(f"{name}: compile: {errs}"); continue
            bc = f"{rd}/all.bc"
            # harness overrides models, which override sources; the runtime models come last
            nm = len(models); hb, mb, sb = fs[0][0], [x[0] for x in fs[1:1 + nm]], [x[0] for x in fs[1 + nm:]]
            l = sh([LLINK, "-o", bc, "--suppress-warnings"] + sb + [f"--override={x}" for x in mb] + [f"--override={hb}"])
            if l.returncode: errors.append(f"{name}: link: {l.stderr[:1500]}"); continue
            budget = r.get("time", {}).get(tier, 100 if tier == "quick" else 600)
            cmd = [exe, bc, "--out", rd, "--time", str(budget), "--jobs", os.environ.get("SX_JOBS") or str(r.get("jobs", 8)), "--seed", str(seed)] + r.get("args", [])
            er = sh(cmd)
            try: rep = json.loads(er.stdout)
            except Exception: errors.append(f"{name}: engine rc={er.returncode} {er.stderr[-1500:]}"); continue
            rep["name"] = name; rep["bounds"] = props.bounds(r, tier); rep["defs"] = {k: v for k, v in defs.items()}
            if not rep["ctor_ok"]: errors.append(f"{name}: static constructors: {er.stderr[-800:]}")
            for c in r.get("covers", []):
                if not rep["covers"].get(c): rep.setdefault("uncovered", []).append(c)
            ev_runs.append(rep)
            # native executable
            nexe = None
            if name in nat:
                ns = [f.result() for f in nat[name]]; ne = [e for _, e in ns if e]
                if not ne:
                    lib = f"{rd}/libcore.a"; sh(["x86_64-w64-mingw32-gcc-ar", "rcs", lib] + [f.result()[0] for f in ncore[name] if f.result()[0]])
                    nexe = f"{rd}/native.exe"; lr = sh([MXX, "-static", "-Wl,--gc-sections", "-Wl,--no-demangle", "-Wl,--allow-multiple-definition", "-o", nexe] + [x[0] for x in ns] + [lib] + r.get("ldflags", []) + ["-lshlwapi", "-lrpcrt4", "-lole32", "-lversion", "-ldbghelp", "-lgdi32", "-luser32", "-ladvapi32", "-lshell32", "-loleaut32", "-luuid"])
                    miss = sorted(set(re.findall(r"undefined reference to `([^']+)'", lr.stderr)))
                    if lr.returncode and miss:     # what the engine cuts (and no replayed path reaches) needs no code here
                        sf = f"{rd}/missing.c"; open(sf, "w").write("".join("char v%d[256] __asm__(\"%s\");\n" % x for x in enumerate(miss)))
                        lr = sh(lr.args + [sf])
                    if lr.returncode: nexe = None; rep["native_build"] = "link failed: " + " ".join(sorted(set(re.findall(r"undefined reference to `([^']+)'", lr.stderr)))[:40]) + lr.stderr[:300 if "undefined" not in lr.stderr else 0]
                else: rep["native_build"] = f"compile failed: {ne}"
            # violations
            for vf in sorted(glob.glob(rd + "/viol_*.json")):
                v = json.load(open(vf)); rp = vf.replace(".json", ".replay"); open(rp, "w").write(rtext(v["inputs"]))
                if v["kind"] == "known" and v["kf"] in FIND and FIND[v["kf"]][0] == pid: kfs[v["kf"]] = FIND[v["kf"]][1]; continue
                rr = sh([exe, bc, "--out", rd, "--replay", rp, "--time", "120"]); conf_e = "VIOL" in rr.stderr
                conf_n = None
                if nexe and wine:
                    endless = v["kind"] == "endless"; rc, t = wine.run(nexe, rp, rp + ".out", 20 if endless else 60); conf_n = rc in ((99, -1) if endless else (42, 43, 99, -1)); v["native"] = f"exit {rc} " + " ".join(x for x in t.splitlines() if x.startswith(("FAIL", "KNOWN", "MISM", "CUT", "ASSUME")))[:200]
                ok = conf_e if v["kind"] in ("memory", "abort") else conf_e and conf_n is not False if v["kind"] == "endless" else (conf_n if conf_n is not None else conf_e)
                v["confirmed_engine"] = conf_e; v["run"] = name; v["replay"] = rp
                (viols if ok else unconf).append(v)
            # samples against the real build
            if nexe and wine and not viols and os.environ.get("SX_SAMPLES", "1") != "0":
                S = [json.loads(x) for f in sorted(glob.glob(rd + "/samples_*.jsonl")) for x in open(f)]
                random.Random(seed).shuffle(S); S = S[: (8 if tier == "quick" else 40)]; rep["sample_inputs"] = [S[i]["inputs"] for i in range(min(2, len(S)))]
                def one(i):
                    rp = f"{rd}/s{i}.replay"; open(rp, "w").write(rtext(S[i]["inputs"])); rc, t = wine.run(nexe, rp, rp + ".out")
                    return rc, [int(x) for x in re.findall(r"^OBS (\d+)", t, re.M)], t
                if S:
                    r0 = one(0); res = [r0] + list(ex.map(one, range(1, len(S))))
                    rep["native_validated"] = sum(1 for (rc, o, t), s in zip(res, S) if rc == 0 and o == s["obs"]); validated += rep["native_validated"]
                    bad = [(s["inputs"], s["obs"], rc, o, t[-300:]) for (rc, o, t), s in zip(res, S) if not (rc == 0 and o == s["obs"])]
                    if bad: rep["native_mismatch"] = [str(x)[:600] for x in bad[:3]]; mism += bad
            os.unlink(bc) if os.path.exists(bc) and not os.environ.get("SX_KEEP") else None
            if viols: break
    finally:
        if wine: wine.close()
    # evidence
    tot = lambda k: sum(x.get(k, 0) for x in ev_runs)
    fn = {}
    for x in ev_runs:
        for f in x.pop("functions"):
            if f["file"].startswith(REPO + "/"): fn[f["name"]] = dict(file=f["file"][len(REPO) + 1:], instructions=f["ins"], executed=max(f["hit"], fn.get(f["name"], {}).get("executed", 0)))
    complete = all(x["complete"] for x in ev_runs) and not errors and len(ev_runs) == len(runs)
    cov = dict(states=tot("paths"), transitions=tot("domain_decisions") + tot("solver_queries") + tot("cache_hits"), traces_validated_against_impl=validated, exhaustive=bool(complete),
        samples=[s for x in ev_runs for s in x.get("sample_inputs", [])][:6] or [x.get("covers") for x in ev_runs][:3],
        explanation="states: symbolic paths run to their end; transitions: branch feasibility decisions; each sx_check on a path is one solver query over every input value following that path",
        functions_encoded=fn, runs=ev_runs, solver=dict(queries=tot("solver_queries"), assertion_queries=tot("assert_queries"), assertions_reduced_to_constants=tot("assert_concrete"), sat=tot("sat"), unsat=tot("unsat"), unknown=tot("unknown"), seconds=round(tot("solver_s"), 3), cache_hits=tot("cache_hits")),
        bounds=[x["bounds"] for x in ev_runs], instructions_executed=tot("steps"), errors=errors, unconfirmed=unconf, native_mismatches=len(mism))
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage=cov, assumptions=P.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(viols))
    json.dump(ev, open(f"{os.environ.get('SX_EV', V + '/evidence')}/{pid}.json", "w"), indent=1)
    for x in ev_runs: print(f"{pid} {x['name']}: paths={x['paths']} complete={x['complete']} wall={x['wall']} queries={x['solver_queries']} asserts={x['assert_queries']}+{x['assert_concrete']}c native_ok={x.get('native_validated')} cuts={x['cuts']} uncovered={x.get('uncovered')} {x.get('native_build','')} {x.get('native_mismatch','')}")
    for e in errors: print("ERROR", e)
    for u in unconf: print("UNCONFIRMED", u["kind"], u["msg"], u["where"], u.get("native"))
    for k, d in sorted(kfs.items()): print(f"KNOWN-FINDING: property={pid} {k}: {d}")
    if viols:
        for v in viols:
            rf = f"{OUT}/replay-{pid}-{v['run']}.txt"; shutil.copy(v["replay"], rf)
            print(f"violated: {v['kind']}: {v['msg']} at {v['where']} native: {v.get('native')}"); print("inputs:", json.dumps(v["inputs"])[:1500])
            print(f"VIOLATION property={pid} replay={rf}")
        if not os.environ.get("SX_KEEP"): shutil.rmtree(odir, ignore_errors=True)
        return 1
    if not os.environ.get("SX_KEEP"): shutil.rmtree(odir, ignore_errors=True)
    if errors: return 0 if os.environ.get("SX_SOFT") else 4
    return 0
FIND = load_findings()
if __name__ == "__main__": sys.exit(main())
