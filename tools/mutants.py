#!/usr/bin/env python3
"""mutants.py LIST.py [id-regex]   development aid: applies each mutant of LIST.py (M = [(id, props, file, old, new), ...];
old/new may be lists) to a scratch copy of /repo, runs the stable tests of the touched package and the checks of its properties."""
import sys, os, re, subprocess, shutil, runpy, time, json
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
M = runpy.run_path(sys.argv[1])["M"]
rx = re.compile(sys.argv[2] if len(sys.argv) > 2 else ".")
D = os.environ.get("MUT_DIR", "/tmp/mut") + "/repo"
for id, props, file, old, new in M:
    if not rx.search(id):
        continue
    if os.path.exists(D):
        shutil.rmtree(D)
    subprocess.run(["cp", "-a", "/repo", D], check=True)
    olds, news = (old, new) if isinstance(old, list) else ([old], [new])
    files = file if isinstance(file, list) else [file] * len(olds)
    bad = None
    for f, o, n in zip(files, olds, news):
        s = open(os.path.join(D, f)).read()
        if s.count(o) != 1:
            bad = f"old text occurs {s.count(o)} times: {o[:60]!r}"
            break
        open(os.path.join(D, f), "w").write(s.replace(o, n))
    if bad:
        print(f"{id:28} BAD {bad}", flush=True)
        continue
    env = dict(os.environ, GOFLAGS="-mod=readonly", GOPROXY="off", GOTOOLCHAIN="local")
    pk = sorted({"./" + os.path.dirname(f) + "/..." for f in files} | ({"./prim/..."} if "goroutines" in files[0] or "prim" in files[0] else set()) | ({"./goroutines/..."} if "goroutines" in files[0] else set()))
    if os.environ.get("NOTEST"):
        pk = ["-run=XXX"] + pk
    t = subprocess.run(["go", "test", "-count=1", "-timeout", "120s"] + pk, cwd=D, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    tests = "tests-pass" if t.returncode == 0 else "TESTS-FAIL"
    if "build failed" in t.stdout or "vet:" in t.stdout:
        print(f"{id:28} {tests}\n{t.stdout[:800]}", flush=True)
        if "build failed" in t.stdout: continue
    for p in props.split(","):
        e = dict(os.environ, MC_REPO=D, MC_WORK=D[:-5] + "/work", MC_EVIDENCE=D[:-5] + "/ev", MC_REPLAYS=D[:-5] + "/replays", MC_TARGET=os.environ.get("MC_TARGET", "15"))
        t0 = time.time()
        r = subprocess.run(["python3", os.path.join(HERE, "check.py"), p, "quick"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e)
        v = [l for l in r.stdout.splitlines() if l.startswith("scenario")]
        res = "CAUGHT" if r.returncode == 1 and "VIOLATION property=" + p in r.stdout else ("missed" if r.returncode == 0 else f"rc={r.returncode}")
        print(f"{id:28} {tests} {p} {res} {time.time()-t0:.0f}s {v[0][:150] if v else r.stdout[-300:] if res != 'missed' else ''}", flush=True)
        notes = [l for l in r.stdout.splitlines() if l.startswith("note")]
        if notes: print("    ", notes[:3], flush=True)
