#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   decides one property on /repo's current tree
check.py replay FILE                 executes a recorded violation again

Builds the check binaries from /repo (see build.py), explores all scenarios of
the property (see DESIGN.md) and writes evidence/PROPERTY.json.
"""
import json, os, re, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build as builder

WORK = os.environ.get("MC_WORK") or os.path.join(HERE, ".work")
REPLAYS = os.environ.get("MC_REPLAYS") or os.path.join(HERE, "replays")
CPUS = max(1, min(8, os.cpu_count() or 1))
FAMILIES = {"R01": ["reg"], "Q01": ["queue"], "D01": ["core", "reg", "queue"]}
# Properties that speak of data races are also explored in the race-detector build.
RACE = {"D01", "E01", "A01"}


def variants(prop):
    """The builds a property is explored in: "" (as it is), "race" (race
    detector), "fine" (a scheduling point at every statement of the library
    that touches memory which other goroutines may see)."""
    if prop == "D01":
        return ["race"]
    return ["", "fine"] + (["race"] if prop in RACE else [])


# Seconds of exploration after which a tier stops with exhaustive: false.
BUDGET = {"quick": float(os.environ.get("MC_BUDGET", 110)), "thorough": float(os.environ.get("MC_BUDGET", 720))}
# Seconds of exploration that a tier uses to go beyond its bounds.
TARGET = {"quick": float(os.environ.get("MC_TARGET", 25)), "thorough": float(os.environ.get("MC_TARGET", 720))}
GRACE = 40
ASSUMPTIONS = [
    "sequentially consistent interleavings at scheduling points (channels, select, sync, atomics, context, go, timers); plain memory accesses between them are atomic unless the race build reports them",
    "the controlled runtime (mcrt/) schedules and the patched standard library behaves as Go 1.27.3 does",
    "properties are decided for the bounded programs (scenarios), inputs and departure bounds listed under coverage.scenarios",
    "time is virtual: a timer fires when nothing else can run, or earlier only in scenarios marked clock",
]


def build_all(fams, vs):
    bins = {}
    for f in fams:
        for r in vs:
            out = os.path.join(WORK, "bin", f + ("-" + r if r else ""))
            os.makedirs(os.path.dirname(out), exist_ok=True)
            if os.path.exists(out):
                os.remove(out)
            rc, o = builder.build(f, out, r, WORK)
            if rc:
                print(o)
                print(f"check.py: building {f} from /repo failed")
                sys.exit(2)
            bins[(f, r)] = out
    return bins


def listing(b):
    o = subprocess.run([b, "-list"], stdout=subprocess.PIPE, text=True, check=True).stdout
    return [json.loads(l) for l in o.splitlines() if l.startswith("{")]


def env():
    e = dict(os.environ)
    e["GORACE"] = "halt_on_error=0 exitcode=0 atexit_sleep_ms=0 history_size=3"
    e.pop("GODEBUG", None)
    e.pop("GOGC", None)
    e.pop("GOMAXPROCS", None)
    e.pop("GOTRACEBACK", None)
    return e


class Job:
    def __init__(self, sc, fam, race, mode, k=0, kmin=0, part=(0, 1)):
        self.sc, self.fam, self.race, self.mode, self.k, self.kmin, self.part = sc, fam, race, mode, k, kmin, part


class Run:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.stop = threading.Event()
        self.lock = threading.Lock()
        self.procs = set()
        self.viol = []
        self.known = []
        self.notes = []
        self.stat = {}  # (scenario, build, mode) -> dict
        self.tot = dict(execs=0, trans=0, nodes=0, blocked=0)
        self.outcomes = {}
        self.samples = []
        self.raceout = {}

    def left(self):
        return self.deadline - time.monotonic()

    def run(self, job, budget):
        if self.stop.is_set():
            return None
        budget = min(budget, self.left())
        if budget < 0.2:
            return None
        only = ["-onlyrace"] if self.prop == "D01" else []
        cmd = [self.bins[(job.fam, job.race)], "-run", job.sc["name"], "-mode", job.mode, "-k", str(job.k), "-kmin", str(job.kmin),
               "-part", "%d/%d" % job.part, "-budget", "%.2f" % budget] + only
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=env(), cwd=WORK)
        with self.lock:
            self.procs.add(p)
        try:
            out, err = p.communicate(timeout=budget + GRACE)
        except subprocess.TimeoutExpired:
            p.kill()
            out, err = p.communicate()
            with self.lock:
                self.notes.append(f"{job.sc['name']}: the worker did not answer and was ended (not judged)")
            return None
        finally:
            with self.lock:
                self.procs.discard(p)
        if self.stop.is_set():
            return None
        d = None
        for l in out.splitlines()[::-1]:
            if l.startswith("{"):
                try:
                    d = json.loads(l)
                except ValueError:
                    pass
                break
        if d is None:
            with self.lock:
                self.notes.append(f"{job.sc['name']}: the worker ended with {p.returncode} (not judged): {err[-300:]}")
            return None
        with self.lock:
            self.tot["execs"] += d["execs"]
            self.tot["trans"] += d["transitions"]
            self.tot["nodes"] += d["nodes"]
            self.tot["blocked"] += d["sleep_blocked"]
            key = (job.sc["name"], job.race, "delay" if job.mode == "delay" else "dev")
            self.outcomes.setdefault(key, set()).update(d["outcomes"] or [])
            st = self.stat[key]
            st["execs"] += d["execs"]
            st["n_out"] = max(st.get("n_out", 0), d["n_outcomes"])
            st["depth"] = max(st.get("depth", 0), d["max_choices"])
            st["goroutines"] = max(st.get("goroutines", 0), d["max_goroutines"])
            if d["internal"]:
                self.notes.append(f"{job.sc['name']}: {d['internal']} (not judged)")
            if d["step_limited"]:
                st["step_limited"] = st.get("step_limited", 0) + d["step_limited"]
            if d["samples"] and len(self.samples) < 12 and (job.mode, job.kmin) != ("dev", 0):
                self.samples.append(d["samples"][-1][:900])
        if d["violation"]:
            self.violation(job, d["violation"], err)
        return d

    def violation(self, job, v, err):
        v["family"], v["property"], v["race"] = job.fam, self.prop, job.race
        os.makedirs(REPLAYS, exist_ok=True)
        f = os.path.join(REPLAYS, "%s-%s%s.json" % (self.prop, re.sub(r"[^A-Za-z0-9_.-]+", "_", job.sc["name"]), "-" + job.race if job.race else ""))
        if job.race == "race":
            v["race_report"] = err[:20000]
        with open(f, "w") as fh:
            json.dump(v, fh, indent=1)
        n = 0
        for _ in range(5):
            try:
                r = subprocess.run([self.bins[(job.fam, job.race)], "-replay", f] + (["-onlyrace"] if self.prop == "D01" else []),
                                   stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=env(), timeout=120, cwd=WORK)
            except subprocess.TimeoutExpired:
                continue
            n += r.returncode == 1
        with self.lock:
            if n == 0:
                self.notes.append(f"{job.sc['name']}: a violation did not reproduce and is not reported: {v['msg']}")
                os.remove(f)
                return
            v["reproduced"] = n
            with open(f, "w") as fh:
                json.dump(v, fh, indent=1)
            for k in known(self.prop):
                if k["scenario"] == v["scenario"] and re.search(k["match"], v["msg"]):
                    self.known.append(k)
                    return
            self.viol.append((f, v))
            self.stop.set()
            for p in list(self.procs):
                try:
                    p.kill()
                except OSError:
                    pass

    def round(self, jobs, budget):
        """Runs jobs on all cores, returns the answers."""
        with ThreadPoolExecutor(CPUS) as ex:
            return list(ex.map(lambda j: (j, self.run(j, budget)), jobs))

    def explore(self):
        prop, tier = self.prop, self.tier
        thorough = tier == "thorough"
        work = []  # (scenario, family, race, bound)
        for (fam, race), b in sorted(self.bins.items()):
            for s in listing(b):
                if prop not in s["props"]:
                    continue
                if race == "fine":
                    k = s["fk"]
                    if k < 0:
                        continue
                    dk = s["dfk"]
                elif race:
                    if not s["race"] or s["qk"] < 0:
                        continue
                    k = s["rk"] or min(s["qk"], 2)
                    if thorough:
                        k = max(k, min(k + 1, s["tk"]))
                    dk = 1 if s["dk"] > 0 else 0
                else:
                    k = s["tk"] if thorough else s["qk"]
                    if k < 0:
                        continue
                    dk = s["dk"] + (1 if thorough and s["dk"] > 0 else 0)
                self.stat[(s["name"], race, "dev")] = {"bound": k, "done": -1, "execs": 0}
                work.append((s, fam, race, "dev", k))
                if dk > 0:
                    self.stat[(s["name"], race, "delay")] = {"bound": dk, "done": 0, "execs": 0}
                    work.append((s, fam, race, "delay", dk))
        if not work:
            print("check.py: no scenario decides", prop)
            sys.exit(2)
        size = {}

        def level(k, jobs, budget):
            res = self.round(jobs, budget)
            per = {}
            for j, d in res:
                key = (j.sc["name"], j.race, j.mode)
                per.setdefault(key, []).append((j, d))
            for key, l in per.items():
                st = self.stat[key]
                if all(d and d["complete"] and not d["internal"] for _, d in l):
                    st["done"] = max(st["done"], k)
                    if not any(d["execs"] for _, d in l):
                        st["saturated"] = True  # no execution has as many departures
                        st["done"] = max(st["done"], st["bound"])
                size[key] = (k, sum(d["execs"] for _, d in l if d), max([d["max_choices"] for _, d in l if d] or [0]),
                             sum(d["secs"] for _, d in l if d))

        def jobs_of(k, todo):
            todo.sort(key=lambda t: (t[0], t[1]["name"], t[3], t[4]))
            jobs = []
            for est, s, f, r, m in todo:
                parts = 1 if est < 2 else CPUS if est < 60 or k < 2 else 4 * CPUS
                jobs += [Job(s, f, r, m, k, k, (i, parts)) for i in range(parts)]
            return jobs

        def cost(s, r, m, k):
            _, _, depth, secs = size.get((s["name"], r, m)) or size.get((s["name"], r, "dev")) or (0, 1, 100, 1)
            return secs * max(depth, 10) * (0.6 if m == "dev" else 0.4) / max(k, 1)

        # Every scenario with no and then one departure or delay, then without any
        # bound (DPOR) where that is feasible, then deeper, always the cheapest first.
        level(0, [Job(s, f, r, m, 0, 0) for s, f, r, m, k in work if m == "dev"], 60 if not thorough else 200)
        if max(b for *_, b in work) < 1:
            self.dpor(work, thorough)
        for k in range(1, max(b for *_, b in work) + 1):
            todo = []
            for s, f, r, m, b in work:
                st = self.stat[(s["name"], r, m)]
                if b >= k and st["done"] >= k - 1 and not st.get("saturated"):
                    todo.append((cost(s, r, m, k), s, f, r, m))
            level(k, jobs_of(k, todo), self.left())
            if k == 1:
                self.dpor(work, thorough)
        # All is done to the bounds: go deeper while the tier's usual time lasts.
        self.deadline = min(self.deadline, self.start + TARGET[tier])
        while not self.stop.is_set() and self.left() > 1:
            todo = []
            for s, f, r, m, b in work:
                st = self.stat[(s["name"], r, m)]
                if st["done"] >= b and not st.get("saturated") and not st.get("gaveup") and self.stat[(s["name"], r, "dev")].get("dpor") != "complete":
                    c = cost(s, r, m, st["done"] + 1)
                    if c < self.left() * CPUS:
                        todo.append((c, s, f, r, m))
            if not todo:
                break
            todo.sort(key=lambda t: (t[0], t[1]["name"], t[3], t[4]))
            todo = todo[:max(8, len(todo) // 2)]
            for k in sorted({self.stat[(s["name"], r, m)]["done"] + 1 for _, s, f, r, m in todo}):
                part = [t for t in todo if self.stat[(t[1]["name"], t[3], t[4])]["done"] + 1 == k]
                level(k, jobs_of(k, part), self.left())
                for _, s, f, r, m in part:
                    if self.stat[(s["name"], r, m)]["done"] < k:
                        self.stat[(s["name"], r, m)]["gaveup"] = True

    def dpor(self, work, thorough):
        jobs = [Job(s, f, r, "dpor") for s, f, r, m, _ in work if not r and m == "dev" and (s["dpor"] == 1 or s["dpor"] == 2 and thorough)]
        if not jobs or self.stop.is_set():
            return
        budget = 20.0 if not thorough else max(5.0, self.left() * 0.4)
        for j, d in self.round(jobs, budget):
            st = self.stat[(j.sc["name"], j.race, "dev")]
            if d:
                st["dpor"] = "complete" if d["complete"] else "incomplete after %d executions" % d["execs"]
                st["dpor_execs"] = d["execs"]


def known(prop):
    out = []
    try:
        for l in open(os.path.join(HERE, "known_findings.txt")):
            l = l.strip()
            m = re.match(r"finding: property=(\S+) scenario=(\S+) match=/(.*?)/ (.*)", l)
            if m and m.group(1) == prop:
                out.append({"scenario": m.group(2), "match": m.group(3), "what": m.group(4)})
    except FileNotFoundError:
        pass
    return out


def main():
    if len(sys.argv) > 2 and sys.argv[1] == "replay":
        v = json.load(open(sys.argv[2]))
        bins = build_all([v["family"]], [v["race"]])
        r = subprocess.run([bins[(v["family"], v["race"])], "-replay", os.path.abspath(sys.argv[2])] +
                           (["-onlyrace"] if v.get("property") == "D01" else []), env=env())
        sys.exit(r.returncode)
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in BUDGET:
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.monotonic()
    os.makedirs(WORK, exist_ok=True)
    evf = os.path.join(os.environ.get("MC_EVIDENCE") or os.path.join(HERE, "evidence"), prop + ".json")
    os.makedirs(os.path.dirname(evf), exist_ok=True)
    if os.path.exists(evf):
        os.remove(evf)
    R = Run(prop, tier)
    R.bins = build_all(FAMILIES.get(prop, ["core"]), variants(prop))
    tb = time.monotonic() - t0
    R.start = time.monotonic()
    R.deadline = time.monotonic() + BUDGET[tier]
    R.explore()
    sc, exhaustive, full = {}, True, 0
    for (n, race, mode), st in sorted(R.stat.items()):
        ok = st["done"] >= st["bound"] and not st.get("step_limited") and (not st.get("dpor") or st["dpor"] == "complete")
        if R.stop.is_set():
            ok = False
        exhaustive = exhaustive and ok
        what = "departures" if mode == "dev" else "delays"
        e = {what + "_completed": st["done"], what + "_bound": st["bound"], "executions": st["execs"],
             "outcomes": len(R.outcomes.get((n, race, mode), ())) or st.get("n_out", 0), "max_choices": st.get("depth", 0), "max_goroutines": st.get("goroutines", 0)}
        if st.get("dpor"):
            e["dpor"] = st["dpor"]
            e["dpor_executions"] = st.get("dpor_execs", 0)
        full += st["done"] >= st["bound"]
        sc[n + (f" [{race} build]" if race else "") + (" [delays]" if mode == "delay" else "")] = e
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": R.tot["nodes"], "transitions": R.tot["trans"], "traces_validated_against_impl": R.tot["execs"],
            "samples": R.samples or ["(none)"], "exhaustive": exhaustive,
            "explanation": "states: nodes of the schedule/input tree that were reached; transitions: scheduling and input choices executed, replayed prefixes included; "
                           "traces: executions, every one of which is an execution of the real code",
            "distinct_outcomes": sum(e["outcomes"] for e in sc.values()),
            "sleep_set_blocked": R.tot["blocked"],
            "scenarios": sc,
            "notes": R.notes,
        },
        "assumptions": ASSUMPTIONS,
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": len(R.viol),
    }
    with open(evf, "w") as fh:
        json.dump(ev, fh, indent=1)
    for n in R.notes:
        print("note:", n)
    print(f"{prop} {tier}: {len(sc)} explorations, {full} to their bound, {R.tot['execs']} executions, {R.tot['nodes']} states, "
          f"{R.tot['trans']} transitions, exhaustive={exhaustive}, build {tb:.1f}s, total {time.monotonic()-t0:.1f}s")
    for k in {json.dumps(k, sort_keys=True) for k in R.known}:
        k = json.loads(k)
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    if R.viol:
        for f, v in R.viol[:3]:
            print(f"scenario {v['scenario']}, {v['deviations']} departures, reproduced {v['reproduced']}/5: {v['msg']}")
            for l in (v.get("stacks") or [])[:12]:
                print("   ", l)
            if v.get("race_report"):
                print(v["race_report"][:2500])
            print(f"VIOLATION property={prop} replay={f}")
        sys.exit(1)
    sys.exit(0)


if __name__ == "__main__":
    main()
