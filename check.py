#!/usr/bin/env python3
"""Checks of the Himalaya library by deterministic simulation.

  check.py PROP [--tier quick|thorough] [--runs N] [--limit SECONDS] [--seed0 N]
  check.py build                     build the simulator only
  check.py replay FILE [-v]          run a replay file again

Exit 0: the property held on every simulated run.  Exit 1: a violation, with a
line "VIOLATION property=<id> replay=<path>".  Exit 2: no answer.
"""
import argparse, collections, concurrent.futures as cf, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
JOBS = os.cpu_count() or 4
SIM = os.path.join(VERIF, "sim")

# runs of a quick and of a thorough check, wall-clock guards in seconds
BUDGET = json.load(open(os.path.join(VERIF, "tools", "budget.json")))

class Broken(Exception):
    pass

def say(*a):
    print(*a, flush=True)

# ------------------------------------------------------------------ build
INSTR = "-fsanitize=thread -fsanitize-coverage=trace-pc -fno-pie -O1 -DNDEBUG -U_FORTIFY_SOURCE -fno-omit-frame-pointer".split()
# array indices outside the array and functions that end without a value are reported to the simulator's runtime
BOUNDS = {"gfortran": ["-fcheck=bounds"], "g++": ["-fsanitize=bounds-strict,return"], "gcc": ["-fsanitize=bounds-strict"]}
def repo_sources():
    """Everything that is compiled into the library, and the LibraryLink front end."""
    r = []
    for root, dirs, files in os.walk(os.path.join(REPO, "source")):
        dirs.sort()
        for f in sorted(files):
            if f.endswith((".cpp", ".cxx", ".cc", ".c", ".f", ".f90", ".F", ".F90")):
                if f == "himalaya.cpp" and "Mathematica" in root: continue
                r.append(os.path.join(root, f))
    return r

def tree_key():
    h = hashlib.sha256()
    for base in (os.path.join(REPO, "source"), os.path.join(REPO, "include"), SIM):
        for root, dirs, files in os.walk(base):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(root, f)
                h.update(os.path.relpath(p, base).encode() + b"\0")
                with open(p, "rb") as fh: h.update(hashlib.sha256(fh.read()).digest())
    h.update(" ".join(INSTR).encode())
    h.update(open(__file__, "rb").read().split(b"# ------------------------------------------------------------------ running")[0])
    return h.hexdigest()[:20]

def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode: raise Broken("command failed: %s\n%s" % (" ".join(cmd), p.stdout.decode(errors="replace")[-4000:]))

def build():
    """Builds the simulator from the working tree of the repository; returns the program."""
    key = tree_key()
    top = os.path.join(VERIF, "build")
    dest = os.path.join(top, key)
    exe = os.path.join(dest, "sim")
    if os.path.exists(exe):
        os.utime(dest)
        return exe
    os.makedirs(top, exist_ok=True)
    for old in sorted(glob.glob(os.path.join(top, "*")), key=os.path.getmtime)[:-3]: shutil.rmtree(old, ignore_errors=True)
    tmp = tempfile.mkdtemp(prefix="tmp-", dir=top)
    loc = None
    try:
        # a locale with a decimal comma; without it the runs that want it use C.UTF-8
        os.mkdir(os.path.join(tmp, "locale"))
        try: loc = subprocess.Popen(["localedef", "-i", "de_DE", "-f", "UTF-8", os.path.join(tmp, "locale", "de_DE.UTF-8")], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        except OSError: pass
        inc = ["-I%s/include" % REPO, "-I%s/source" % REPO, "-I/usr/include/eigen3", "-I%s" % SIM, "-I%s/stub" % SIM]
        jobs = []   # (weight, command, object, rename)
        for s in repo_sources():
            o = os.path.join(tmp, "repo-" + os.path.relpath(s, REPO).replace("/", "_") + ".o")
            w = os.path.getsize(s) + (400000 if "MSSM_" in s or "HierarchyCalculator" in s or "Mh2EFT" in s or "LibraryLink" in s else 0)
            if s.lower().endswith((".f", ".f90")):
                c = ["gfortran"] + INSTR + BOUNDS["gfortran"] + ["-w", "-J", tmp, "-I", tmp, "-c", s, "-o", o]
            elif s.endswith(".c"):
                c = ["gcc"] + INSTR + BOUNDS["gcc"] + ["-w"] + inc + ["-c", s, "-o", o]
            else:
                c = ["g++", "-std=gnu++14"] + INSTR + BOUNDS["g++"] + ["-w"] + inc + ["-c", s, "-o", o]
            jobs.append((w, c, o, True))
        for s, std in (("rt", 17), ("main", 17), ("gen", 17), ("plan", 17), ("mlsim", 17), ("world", 14)):
            o = os.path.join(tmp, "sim-%s.o" % s)
            jobs.append((500000 if s in ("main", "world") else 300000, ["g++", "-std=gnu++%d" % std, "-O1", "-g", "-fno-pie", "-U_FORTIFY_SOURCE"] + inc + ["-c", os.path.join(SIM, s + ".cpp"), "-o", o], o, False))
        jobs.sort(key=lambda j: -j[0])
        def one(j):
            run(j[1])
            # copies and fills made by the library are accesses the simulator has to see
            if j[3]: run(["objcopy"] + ["--redefine-sym=%s=rt_%s" % (f, f) for f in ("memcpy", "memmove", "memset")] + [j[2]])
            return j[2]
        fortran90 = [j for j in jobs if j[1][0] == "gfortran" and any(x.lower().endswith(".f90") for x in j[1])]
        with cf.ThreadPoolExecutor(JOBS) as ex:
            try: objs = list(ex.map(one, jobs))
            except Broken:
                if not fortran90: raise
                for _ in range(len(fortran90)):   # modules in the wrong order
                    for j in fortran90:
                        try: one(j)
                        except Broken: pass
                objs = list(ex.map(one, [j for j in jobs]))
        repo_o = sorted(j[2] for j in jobs if j[3]); sim_o = sorted(j[2] for j in jobs if not j[3])
        run(["g++", "-no-pie"] + repo_o + sim_o + ["-lgfortran", "-ldl", "-lpthread", "-o", os.path.join(tmp, "sim")])
        if loc: loc.wait()
        for f in os.listdir(tmp):
            if f not in ("sim", "locale"): os.unlink(os.path.join(tmp, f))
        try: os.rename(tmp, dest)
        except OSError: shutil.rmtree(tmp, ignore_errors=True)
    except BaseException:
        if loc: loc.kill(); loc.wait()
        shutil.rmtree(tmp, ignore_errors=True)
        raise
    return exe

# ------------------------------------------------------------------ running
def sim_env():
    e = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "TMPDIR")}
    e["LC_ALL"] = "C"
    return e

def sim_json(exe, args, timeout=600):
    p = subprocess.run([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=sim_env(), timeout=timeout)
    line = p.stdout.decode(errors="replace").splitlines()
    if p.returncode not in (0, 1) or not line: raise Broken("the simulator failed: %s\n%s" % (args, p.stderr.decode(errors="replace")[-2000:]))
    return json.loads(line[0])

def gen(exe, prop, seed, tier):
    return subprocess.run([exe, "gen", prop, str(seed), str(tier)], stdout=subprocess.PIPE, env=sim_env(), check=True).stdout.decode()

def batches(exe, prop, seed0, runs, limit, tier, workers):
    """Runs seeds seed0 .. seed0+runs-1; worker w takes every workers-th of them."""
    procs = []
    tmp = tempfile.mkdtemp(prefix="himalaya-sim-")
    try:
        for w in range(workers):
            n = len(range(w, runs, workers))
            out = open(os.path.join(tmp, "o%d" % w), "w+b"); err = open(os.path.join(tmp, "e%d" % w), "w+b")
            procs.append((subprocess.Popen([exe, "batch", prop, str(seed0 + w), str(workers), str(n), str(limit), str(tier)], stdout=out, stderr=err, env=sim_env(), start_new_session=True), out, err))
        end = time.time() + limit + 300
        stop_at = None
        while any(p.poll() is None for p, _, _ in procs):
            time.sleep(0.2)
            if stop_at is None:
                for p, o, e in procs:
                    if p.poll() is not None: continue
                # a worker that has found a violation has flushed it
                if any(b'"v":[{' in open(o.name, "rb").read()[-200000:] for p, o, e in procs): stop_at = time.time() + 8
            if time.time() > end or (stop_at and time.time() > stop_at):
                for p, _, _ in procs:
                    if p.poll() is None: os.killpg(p.pid, signal.SIGKILL)
        recs, ops, forks = [], collections.Counter(), 0
        for p, o, e in procs:
            p.wait()
            o.seek(0); e.seek(0)
            if p.returncode not in (0, -9): raise Broken("a simulator process failed with %d\n%s" % (p.returncode, e.read().decode(errors="replace")[-2000:]))
            if p.returncode == -9 and not stop_at: raise Broken("a simulator process was ended")
            for l in o.read().decode(errors="replace").splitlines():
                try: d = json.loads(l)
                except ValueError:
                    if stop_at: continue
                    raise Broken("unreadable output of the simulator: " + l[:300])
                if "end" in d:
                    forks += d["forks"]
                    ops.update(d["opcount"])
                else: recs.append(d)
        return recs, ops, forks
    finally:
        for p, o, e in procs: o.close(); e.close()
        shutil.rmtree(tmp, ignore_errors=True)

def symbols(exe, finding):
    r = []
    for k in ("pc", "pc2"):
        if finding.get(k):
            p = subprocess.run(["addr2line", "-Cfipse", exe, hex(finding[k] - 1)], stdout=subprocess.PIPE).stdout.decode(errors="replace").strip().splitlines()
            if p and "??" not in p[0].split(" at ")[0]: r.append(p[0][:200])
    return r

def kinds(rec):
    return sorted(set(v["kind"] for v in rec["v"]))

def known_findings():
    """Lines "finding: property=<id> kind=<kind> match=<regular expression> :: <description>"."""
    r = []
    f = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"finding: property=(\S+) kind=(\S+) match=(.*?) :: (.*)$", l.strip())
            if m: r.append((m.group(1), m.group(2), re.compile(m.group(3)), m.group(4)))
    return r

def replay(path, verbose=False):
    exe = build()
    want = {}
    for l in open(path):
        m = re.match(r"# (expect-\S+) (.*)$", l)
        if m: want[m.group(1)] = m.group(2).strip()
    r = sim_json(exe, ["exec", path])
    say("trace %s (recorded %s)" % (r["trace"], want.get("expect-trace", "-")))
    for v in r["v"]:
        say("  %s: %s" % (v["kind"], v["text"]))
        for s in symbols(exe, v): say("    at " + s)
    if verbose: say(subprocess.run([exe, "exec", path, "2"], stdout=subprocess.PIPE, env=sim_env()).stdout.decode(errors="replace"))
    if not r["v"]: say("no violation"); return 0
    m = re.search(r"^prop (\S+)", open(path).read(), re.M)
    say("VIOLATION property=%s replay=%s" % (m.group(1) if m else "?", path))
    return 1

FAULTS = ["alloc-failure", "sink-eof", "sink-short", "sink-throw", "sink-sync", "stream-state", "sink-no-buffer", "sink-exceptions-on", "link-failure", "stall", "clock-jump"]

def check(prop, tier, args):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tn = 1 if tier == "thorough" else 0
    bud = BUDGET[prop]
    nruns = args.runs or bud[tier]
    limit = args.limit or (240 if tn == 0 else 7200)
    seed0 = args.seed0 if args.seed0 is not None else (seed * 10000019) % (1 << 40) + 1
    say("%s: tier %s, VERIF_SEED=%d, first seed %d, %d runs" % (prop, tier, seed, seed0, nruns))
    exe = build()
    tb = time.time()
    say("simulator built from %s in %.1f s" % (REPO, tb - t0))
    recs, ops, forks = batches(exe, prop, seed0, nruns, limit, tn, JOBS)
    ts = time.time()
    bad = [r for r in recs if r["v"]]
    internal = [r for r in bad if "internal" in kinds(r)]
    if internal: raise Broken("the harness failed at seed %d: %s" % (internal[0]["seed"], internal[0]["v"][0]["text"]))
    # determinism: a sample again, in other processes and in another distribution over workers
    redo = 0
    if not bad:
        sample = sorted(recs, key=lambda r: r["seed"])[: max(24, nruns // 50)][:400 if tn else 60]
        if sample:
            n = sample[-1]["seed"] - seed0 + 1
            again, _, _ = batches(exe, prop, seed0, n, limit, tn, min(3, JOBS))
            first = {r["seed"]: r for r in recs}
            for r in again:
                f = first.get(r["seed"])
                if f is None: continue
                redo += 1
                if (r["trace"], r["shape"], kinds(r)) != (f["trace"], f["shape"], kinds(f)): raise Broken("seed %d is not reproducible: trace %s and %s, %s %s" % (r["seed"], f["trace"], r["trace"], kinds(f), kinds(r)))
    status, nviol = 0, 0
    known = known_findings()
    shown, tried = set(), []
    rep_dir = os.path.join(VERIF, "replays")
    for r in sorted(bad, key=lambda r: (r["steps"], r["seed"])):
        # listed findings are no violations
        rest = []
        for v in r["v"]:
            k = next((x for x in known if x[0] == prop and x[1] == v["kind"] and x[2].search(v["text"] + " " + " ".join(symbols(exe, v)))), None)
            if not k: rest.append(v)
            elif k not in shown: shown.add(k); say("KNOWN-FINDING: property=%s %s" % (prop, k[3]))
        if not rest: continue
        nviol += 1
        if status == 1 or len(tried) >= 6: continue
        tried.append(r["seed"])
        os.makedirs(rep_dir, exist_ok=True)
        path = os.path.join(rep_dir, "%s-%d.plan" % (prop, r["seed"]))
        with open(path, "w") as f: f.write(gen(exe, prop, r["seed"], tn))
        # the gate: the same run twice more, each in a process of its own
        a, b = sim_json(exe, ["exec", path]), sim_json(exe, ["exec", path])
        if not (a["trace"] == b["trace"] == r["trace"] and kinds(a) == kinds(b) == kinds(r)):
            say("seed %d: the violation is not reproducible: %s %s / %s %s / %s %s" % (r["seed"], r["trace"], kinds(r), a["trace"], kinds(a), b["trace"], kinds(b)))
            continue
        kind = rest[0]["kind"]
        small = path + ".min"
        try:
            subprocess.run([exe, "minimize", path, kind, str(60 if tn else 25), small], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=sim_env(), timeout=300)
            m = sim_json(exe, ["exec", small]); m2 = sim_json(exe, ["exec", small])
            ok = kind in kinds(m) and m["trace"] == m2["trace"] and kinds(m) == kinds(m2)
        except (Broken, OSError, subprocess.TimeoutExpired, ValueError): ok = False
        if ok: text, rec = open(small).read(), m
        else: text, rec = open(path).read(), a
        if os.path.exists(small): os.unlink(small)
        head = ["# property %s, found with seed %d%s" % (prop, r["seed"], ", minimised" if ok else "")]
        for v in rec["v"][:6]:
            head.append("# %s: %s" % (v["kind"], v["text"].replace("\n", "\\n")))
            for s in symbols(exe, v): head.append("#    at " + s)
        head.append("# expect-trace " + rec["trace"])
        head.append("# expect-kinds " + ",".join(kinds(rec)))
        with open(path, "w") as f: f.write("\n".join(head) + "\n" + text)
        for h in head: say(h[2:])
        say("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(path, VERIF)))
        status = 1
    if nviol and status == 0: raise Broken("%d violating runs, none of them reproducible" % nviol)
    # probes: rare conditions that the workload is meant to reach
    fired = collections.Counter()
    scen = collections.Counter()
    for r in recs:
        fired.update(r["fired"]); scen[r["scen"]] += 1
    nontrivial = [r for r in recs if r["preempt"] or r["nfired"] or r["ops"] > 1]
    distinct = set(r["trace"] for r in nontrivial)
    steps = sum(r["steps"] for r in recs)
    sim_s = max(ts - tb, 1e-9)
    runs_with_fault = sum(1 for r in recs if r["nfired"])
    samples = []
    for r in sorted(recs, key=lambda r: -(r["nfired"] * 1000 + r["preempt"]))[:1] + recs[:2]:
        samples.append({"seed": r["seed"], "scenario": r["scen"], "threads": r["threads"], "operations": r["ops"], "steps": r["steps"], "preemptions": r["preempt"], "faults_fired": r["fired"], "trace": r["trace"], "plan": gen(exe, prop, r["seed"], tn)[:1500]})
    wall = time.time() - t0
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {
              "evaluations": len(recs), "distinct_nontrivial": len(distinct),
              "rule": "One case is one simulated run of a plan (operations, parameter points, objects, schedule, faults) drawn from the seed. Distinct: different trace hash (scheduler decisions, synchronisation, allocation, stream and link events, fired faults, results of the operations). Non-trivial: at least one preemption, one fired fault or two operations.",
              "samples": samples,
              "first_seed": seed0, "runs_per_hour": round(len(recs) / sim_s * 3600), "seeds_per_hour": round(len(recs) / sim_s * 3600),
              "forked_processes": forks,
              "simulated_steps": steps, "simulated_events": sum(r["events"] for r in recs), "shared_accesses_scheduled": sum(r["shared"] for r in recs),
              "simulated_time": "the library has no timers; time is counted in executed basic blocks (steps)",
              "preemptions": sum(r["preempt"] for r in recs), "thread_switches": sum(r["switches"] for r in recs),
              "threads_per_run": dict(sorted(collections.Counter(str(r["threads"]) for r in recs).items())),
              "scenarios": dict(scen), "operations_by_outcome": dict(sorted(ops.items())),
              "faults_fired": dict(fired), "faults_planned": sum(r["planned"] for r in recs), "runs_with_fired_faults": runs_with_fault,
              "environment_queries_answered": sum(r["env"] for r in recs),
              "distinct_interleavings": len(set(r["shape"] for r in recs if r["threads"] > 1)),
              "distinct_event_sequences": len(set(r["shape"] for r in recs)),
              "interleaving_measure": "hash of the sequence of thread switches, synchronisation events and fired faults, without data",
              "seeds_run_again_for_determinism": redo,
              "real_components": "all C++ and Fortran sources of the library and the LibraryLink front end, libstdc++, libgfortran, Eigen",
              "stubbed_components": "the Mathematica kernel and the MathLink library (sim/mlsim.cpp); scheduler, pthread mutexes/once/condition variables, malloc/new, clocks, random devices and environment (sim/rt.cpp)",
              "build_s": round(tb - t0, 1), "simulation_s": round(ts - tb, 1)},
          "assumptions": ["sampled schedules and faults: absence of a violation is evidence, not proof",
                          "sequentially consistent interleavings at the granularity of instrumented memory accesses; data races are reported by happens-before analysis",
                          "GNU tool chain at -O1; libstdc++, libgfortran and Eigen headers as installed"],
          "wall_s": round(wall, 1), "violations": nviol}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    say("%s: %d runs, %d distinct, %d with faults, %d preemptions, %d violations; simulation %.1f s, total %.1f s" % (prop, len(recs), len(distinct), runs_with_fault, ev["coverage"]["preemptions"], nviol, ts - tb, wall))
    return status

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("what"); ap.add_argument("file", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--runs", type=int); ap.add_argument("--limit", type=float); ap.add_argument("--seed0", type=int)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    try:
        if a.what == "build": say(build()); return 0
        if a.what == "replay": return replay(a.file, a.v)
        if a.what not in BUDGET: raise Broken("unknown property " + a.what)
        return check(a.what, "thorough" if a.tier == "thorough" else "quick", a)
    except Broken as e:
        say("ERROR: %s" % e)
        return 2

if __name__ == "__main__":
    sys.exit(main())
