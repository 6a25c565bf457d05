#!/usr/bin/env python3
"""Builds a check binary: build.py FAMILY OUT [race]"""
import json, os, subprocess, sys, glob
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "mcrt"))
import gen_overlay
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MC_REPO", "/repo")

# Where the statement-level build puts its additional scheduling points.
FINE = ["goroutines", "goroutines/*", "goroutines/internal/*", "prim/*", "pipelines/stagedpipe", "pipelines/stagedpipe/internal/*"]

def fine_overlay(m, work, env):
    """Adds copies of the library's files with statement-level scheduling points to the overlay."""
    d = os.path.join(work, "fine")
    os.makedirs(d, exist_ok=True)
    src = os.path.join(HERE, "mcrt", "fine")
    tool = os.path.join(work, "fine.tool")
    r = subprocess.run(["go", "build", "-o", tool, "main.go"], cwd=src, env=dict(env, GO111MODULE="off", GOFLAGS=""), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        return r.returncode, r.stdout
    files = []
    for pat in FINE:
        for f in sorted(glob.glob(os.path.join(REPO, pat, "*.go"))):
            rel = os.path.relpath(f, REPO)
            if f.endswith("_test.go") or rel.split("/")[1] == "benchmarks" or rel.split("/")[-2] in ("examples", "etoe", "tools", "testing", "zzbridge"):
                continue
            if "\n//go:" in "\n" + open(f, errors="replace").read():
                continue
            files.append(f)
    r = subprocess.run([tool, d] + files, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        return r.returncode, r.stderr
    m.update(json.loads(r.stdout))
    return 0, ""

def build(fam, out, variant="", work=None):
    """variant: "", "race" (race detector) or "fine" (statement-level scheduling points)."""
    out = os.path.abspath(out)
    work = work or os.path.join(HERE, ".work")
    ovdir = os.path.join(work, "overlay")
    m = gen_overlay.generate(ovdir)
    vdir = os.path.join(REPO, "zzverif", fam)
    for src in sorted(glob.glob(os.path.join(HERE, "harness", "lib", "*")) + glob.glob(os.path.join(HERE, "harness", fam, "*.go"))):
        m[os.path.join(vdir, os.path.basename(src))] = src
    for src in glob.glob(os.path.join(HERE, "harness", "bridge", "*", "*.go")):
        d = os.path.basename(os.path.dirname(src))
        target = {"register": "goroutines/zzbridge", "queue": "pipelines/stagedpipe/zzbridge"}[d]
        m[os.path.join(REPO, target, os.path.basename(src))] = src
    env = dict(os.environ)
    goroot = gen_overlay.GOROOT
    env.update({"PATH": goroot + "/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", "GOTOOLCHAIN": "local", "GOPROXY": "off",
                "GOFLAGS": "-mod=readonly", "GOWORK": "off", "GOROOT": goroot, "GOPATH": "/root/go", "GOMODCACHE": "/root/go/pkg/mod",
                "GOCACHE": os.path.join(HERE, ".cache"), "GOEXPERIMENT": "", "GODEBUG": "", "GOAMD64": "v1", "HOME": os.environ.get("HOME", "/root")})
    if variant == "fine":
        rc, o = fine_overlay(m, work, env)
        if rc:
            return rc, o
    ov = os.path.join(work, f"overlay-{fam}{variant}.json")
    with open(ov, "w") as fh:
        json.dump({"Replace": m}, fh)
    cmd = ["go", "build", "-overlay", ov, "-o", out] + (["-race"] if variant == "race" else []) + ["./zzverif/" + fam]
    r = subprocess.run(cmd, cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout

if __name__ == "__main__":
    os.makedirs(os.path.join(HERE, ".work"), exist_ok=True)
    rc, o = build(sys.argv[1], sys.argv[2], sys.argv[3] if len(sys.argv) > 3 else "")
    print(o)
    sys.exit(rc)
