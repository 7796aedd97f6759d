#!/usr/bin/env python3
"""Mutation campaign: builds the simulator against edited copies of /repo and reports which check sees which edit.
usage: mutants.py [-j N] [-a] [id ...]     -a: run every check on each mutant rather than the listed properties
Development tool only; no registered check uses it."""
import os, re, subprocess, sys, shutil, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
W = "/tmp/mut"
sys.path.insert(0, os.path.join(V, "dev"))
from mutlist import MUT
b = open(os.path.join(V, "build.sh")).read()
COMMON = "-std=c++11 -w -g1 -fno-omit-frame-pointer -DHAS_RES_NINIT -Wno-deprecated-declarations"
SAN = re.search(r'^SAN="(.*)"', b, re.M).group(1)
COV = re.search(r'^COV="(.*)"', b, re.M).group(1)
WRAP = " ".join("-Wl,--wrap=" + s for s in re.search(r"for s in (.*); do W=", b).group(1).split())

def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def base():
    o = W + "/base"; shutil.rmtree(o, ignore_errors=True); os.makedirs(o)
    jobs = []
    for f in sorted(os.listdir(R + "/src")):
        if f.endswith(".cpp"): jobs.append((f"{R}/src/{f}", f"{o}/{f[:-4]}.o", f"{COMMON} -I{R} -I{R}/src -O1 {SAN} {COV}"))
    jobs.append((f"{R}/tools/src/main.cpp", f"{o}/tool.o", f"{COMMON} -I{R} -I{R}/src -O1 {SAN} {COV} -Dmain=dkimtool_main"))
    for f in "core ref world edit gen main".split(): jobs.append((f"{V}/sim/{f}.cpp", f"{o}/h_{f}.o", f"{COMMON} -I{R} -I{R}/src -std=c++17 -O1 {SAN}"))
    with cf.ThreadPoolExecutor(8) as ex:
        for r in ex.map(lambda j: sh(f"clang++ {j[2]} -c {j[0]} -o {j[1]}"), jobs):
            if r.returncode: sys.exit(r.stderr)
def build(mid, m):
    d = f"{W}/{mid}"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    sh(f"cp -r {R}/src {R}/tools {d}/")
    hdr = False; touched = set()
    for (f, old, new) in m["edits"]:
        p = f"{d}/{f}"; s = open(p).read()
        n = m.get("nth", 0)
        if s.count(old) < 1: return None, f"edit does not apply: {f}: {old!r}"
        if s.count(old) > 1 and "nth" not in m and not m.get("all"): return None, f"edit ambiguous ({s.count(old)}): {f}: {old!r}"
        if m.get("all"): s = s.replace(old, new)
        else:
            i = -1
            for _ in range(n + 1): i = s.index(old, i + 1)
            s = s[:i] + new + s[i + len(old):]
        open(p, "w").write(s); touched.add(f)
        if not f.endswith(".cpp"): hdr = True
    objs = []; jobs = []
    for o in sorted(os.listdir(W + "/base")):
        n = o[:-2]
        src = f"src/{n}.cpp" if not n.startswith("h_") and n != "tool" else "tools/src/main.cpp" if n == "tool" else None
        if src and (hdr or src in touched):
            jobs.append(f"clang++ {COMMON} -I{d} -I{d}/src -O1 {SAN} {COV} {'-Dmain=dkimtool_main' if n == 'tool' else ''} -c {d}/{src} -o {d}/{o}"); objs.append(f"{d}/{o}")
        elif hdr and n.startswith("h_"):
            jobs.append(f"clang++ {COMMON} -I{d} -I{d}/src -std=c++17 -O1 {SAN} -c {V}/sim/{n[2:]}.cpp -o {d}/{o}"); objs.append(f"{d}/{o}")
        else: objs.append(f"{W}/base/{o}")
    for j in jobs:
        r = sh(j)
        if r.returncode: return None, "does not compile: " + r.stderr[:600]
    r = sh(f"clang++ {SAN} -rdynamic {' '.join(objs)} -o {d}/sim {WRAP} -lssl -lcrypto -lsodium -lresolv -lpthread -ldl")
    if r.returncode: return None, r.stderr[:600]
    return d + "/sim", ""
def run(mid, m, props):
    exe, e = build(mid, m)
    if not exe: return mid, [("-", "ERROR " + e)]
    out = []
    vd = f"{W}/{mid}/v"; os.makedirs(vd + "/replays"); os.makedirs(vd + "/evidence"); shutil.copy(V + "/known-findings.txt", vd)
    for p in props:
        env = dict(os.environ, VERIF_DIR=vd, SIM_NOMIN="1", SIM_WORKERS="4", SIM_SECONDS="400")
        r = subprocess.run([exe, "check", p, "quick", "1"], capture_output=True, text=True, env=env, errors="replace")
        if r.returncode == 1:
            k = re.search(r"^run (\d+)[^:]*: (\S+)\n\s*(.*)", r.stdout, re.M)
            out.append((p, f"caught run {k.group(1)} {k.group(2)} {k.group(3)[:110]}" if k else "caught ?"))
        elif r.returncode == 0: out.append((p, "MISSED"))
        else: out.append((p, f"ERROR {r.returncode} " + r.stderr[-300:]))
    shutil.rmtree(f"{W}/{mid}", ignore_errors=True)
    return mid, out
if __name__ == "__main__":
    a = sys.argv[1:]; j = 3; allp = False
    if a[:1] == ["-j"]: j = int(a[1]); a = a[2:]
    if a[:1] == ["-a"]: allp = True; a = a[1:]
    base()
    ids = a or list(MUT)
    tally = [0, 0]
    with cf.ThreadPoolExecutor(j) as ex:
        fs = [ex.submit(run, i, MUT[i], [f"C{k:02d}" for k in range(1, 18)] if allp else MUT[i]["props"]) for i in ids]
        for f in cf.as_completed(fs):
            i, out = f.result()
            for p, s in out:
                print(f"{i:28s} {p} {s}", flush=True)
                if s.startswith("caught"): tally[0] += 1
                if s.startswith("MISSED"): tally[1] += 1
    print("caught", tally[0], "missed", tally[1])
    shutil.rmtree(W, ignore_errors=True)
