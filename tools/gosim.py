"""Builds and drives the Go validator simulation (C01-C04)."""
import glob, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
import common as C
import mkoverlay

PROTOS = ["simcommon.proto", "simforeign.proto", "sima.proto", "simb.proto"]

def build(S, race):
    os.makedirs(S + "/bin", exist_ok=True)
    C.build_plugins(S)
    mod = S + "/mod"
    shutil.copytree(C.VERIF + "/gosim", mod)
    shutil.copy(C.REPO + "/go.sum", mod + "/go.sum")
    gen = S + "/out"
    os.makedirs(gen)
    env = dict(os.environ, PATH=S + "/bin:" + os.environ["PATH"])
    C.sh(["protoc", "-I", C.VERIF + "/corpus", "-I", C.REPO, "--go_out=" + gen] + PROTOS, env=env, what="protoc --go_out")
    C.sh(["protoc", "-I", C.VERIF + "/corpus", "-I", C.REPO, "--plugin=" + S + "/bin/protoc-gen-validate", "--validate_out=lang=go:" + gen]
         + [p for p in PROTOS if p != "simforeign.proto"], env=env, what="protoc --validate_out")
    shutil.copytree(gen + "/pgvsim/gen", mod + "/gen")
    for f in glob.glob(mod + "/foreign/*.go"):
        shutil.move(f, mod + "/gen/simforeign/")
    shutil.rmtree(mod + "/foreign")
    files = sorted(glob.glob(mod + "/gen/*/*.validate.go"))
    if not files:
        raise C.BuildError("the plugin generated no validators")
    sites = C.sh(["go", "run", "./cmd/instr"] + files, cwd=mod, env=C.goenv()).decode().strip()
    shutil.rmtree(mod + "/cmd/instr")
    ov = mkoverlay.make(S + "/overlay", False)
    bins = {}
    def one(r):
        out = S + "/bin/gosim" + ("-race" if r else "")
        cmd = ["go", "build", "-overlay", ov, "-o", out] + (["-race"] if r else []) + ["./cmd/gosim"]
        C.sh(cmd, cwd=mod, env=C.goenv(cgo=r), what="go build of the simulation")
        bins[r] = out
    for r in ([False, True] if race else [False]):
        one(r)
    return bins, int(sites)

HANG = 45

def runproc(binp, args, timeout=HANG):
    env = {k: v for k, v in os.environ.items() if not k.startswith("GO")}
    env.update(GORACE="halt_on_error=0 exitcode=0 history_size=3 atexit_sleep_ms=0", PGVSIM="12345", HOME="/root")
    try:
        p = subprocess.run([binp] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=timeout)
    except subprocess.TimeoutExpired:
        return ("hang", None, "")
    out = p.stdout.decode(errors="replace").strip().splitlines()
    err = p.stderr.decode(errors="replace")
    rep = None
    if out:
        try:
            rep = json.loads(out[-1])
        except ValueError:
            rep = None
    if rep is None:
        return ("crash", {"code": p.returncode}, err)
    if rep.get("violation"):
        return ("violation", rep, err)
    return ("ok", rep, err)

def classify(what):
    """The part of a violation that has to survive minimisation."""
    for k in ("data race", "panicked", "no progress", "was modified", "changed after", "disagree", "alone", "accepted", "which is not a violation",
              "fail-fast returned", "names no violation", "wraps no violation", "child validator failed", "did not happen", "more than once",
              "expected at most", "reported", "crash"):
        if k in what:
            return k
    return what

def minimise(S, binp, plans, cls, budget=60):
    t0 = time.time()
    n = [0]
    def fails(ps):
        n[0] += 1
        f = "%s/min%d.json" % (S, n[0] % 7)
        with open(f, "w") as h:
            json.dump({"plans": ps}, h)
        k, rep, err = runproc(binp, ["-replay", f], HANG)
        if k == "violation" and classify(rep["what"]) == cls:
            return rep
        if k == cls and k in ("crash", "hang"):
            return {"what": k, "plans": ps}
        return None
    best = fails(plans)
    if not best:
        return None
    left = lambda: time.time() - t0 < budget
    # drop earlier runs of the process
    r = fails(plans[-1:])
    if r:
        plans, best = plans[-1:], r
    else:
        size = max(1, (len(plans) - 1) // 2)
        while size >= 1 and left():
            i = 0
            while i < len(plans) - 1 and left():
                q = plans[:i] + plans[min(i + size, len(plans) - 1):]
                r = fails(q)
                if r:
                    plans, best = q, r
                else:
                    i += size
            size //= 2
    def ddlist(get, put, i0=0):
        nonlocal plans, best
        size = max(1, len(get(plans[-1])) // 2)
        while size >= 1 and left():
            i = i0
            while i < len(get(plans[-1])) and left():
                l = get(plans[-1])
                q = plans[:-1] + [put(plans[-1], l[:i] + l[i + size:])]
                r = fails(q)
                if r:
                    plans, best = q, r
                else:
                    i += size
            size //= 2
    for c in range(len(plans[-1]["clients"])):
        def put(p, l, c=c):
            p = dict(p)
            p["clients"] = p["clients"][:c] + [l] + p["clients"][c + 1:]
            return p
        ddlist(lambda p, c=c: p["clients"][c], put)
    if plans[-1].get("switches"):
        ddlist(lambda p: p.get("switches") or [], lambda p, l: dict(p, switches=l), 1)
    if plans[-1].get("clock"):
        ddlist(lambda p: p.get("clock") or [], lambda p, l: dict(p, clock=l))
    return plans, best, n[0]

def write_replay(prop, plans, what, race, extra=""):
    name = "%x" % (C.mix(json.dumps(plans, sort_keys=True)) & 0xffffffffff)
    p = C.replay_path(prop, name)
    with open(p, "w") as f:
        json.dump({"property": prop, "kind": "gosim", "race": race, "what": what, "detail": extra[-4000:], "plans": plans}, f, indent=1)
    return p

REAL = ["generated Go validators (plugin built from the working tree; yield points instrumented in)", "google.golang.org/protobuf", "Go runtime (map iteration, locks, clock behind seams)"]
STUB = ["wall clock", "goroutine choice", "runtime random source", "child validators of foreign types (hand-written, fault-injecting)"]

def check(prop, race, secs_quick, secs_thorough, rule):
    S = C.scratch()
    try:
        bins, sites = build(S, race)
    except C.BuildError as e:
        C.die(str(e))
    budget = secs_quick if C.TIER != "thorough" else secs_thorough
    tb = time.time()
    print("build: %.1fs, %d yield points" % (tb - C.T0, sites), flush=True)
    # determinism: the same seed twice must give the same event log
    det = 0
    def detrun(i):
        r = race and i % 2 == 0
        s = C.mix(C.SEED, "det", i)
        a = runproc(bins[r], ["-prop", prop, "-seed", str(s), "-runs", "12"])
        if a[0] != "ok":
            viols.append((i, r, s, 12, a))
            return a[0]
        b = runproc(bins[race and i % 2 == 0], ["-prop", prop, "-seed", str(C.mix(C.SEED, "det", i)), "-runs", "12"])
        if a[0] == "ok" and b[0] == "ok" and a[1]["stats"]["LogHash"] != b[1]["stats"]["LogHash"]:
            return "differs"
        return a[0]
    agg = {}
    hashes = set()
    viols = []
    procs = [0]
    stop = [False]
    def work(i):
        if stop[0] or time.time() - tb > budget:
            return
        r = race and i % 2 == 0
        s = C.mix(C.SEED, prop, i)
        runs = 3 if i % 3 == 0 else (12 if r else 40)
        if i % 97 in (31, 32):  # a long life
            runs = 120 if r else 500
        res = runproc(bins[r], ["-prop", prop, "-seed", str(s), "-runs", str(runs)])
        procs[0] += 1
        if res[0] == "ok":
            st = res[1]["stats"]
            for k, v in st.items():
                if isinstance(v, int) and k not in ("LogHash", "Sites", "MaxSteps", "Distinct"):
                    agg[k] = agg.get(k, 0) + v
                elif isinstance(v, dict):
                    d = agg.setdefault(k, {})
                    for a, b in v.items():
                        d[a] = d.get(a, 0) + b
            for k in ("Sites", "MaxSteps"):
                agg[k] = max(agg.get(k, 0), st[k])
            hashes.update(st["HashList"] or [])
        else:
            viols.append((i, r, s, runs, res))
            stop[0] = True
    with ThreadPoolExecutor(C.CPUS) as ex:
        dets = list(ex.map(detrun, range(24)))
        if "differs" in dets:
            C.die("the simulation is not deterministic: two executions of one seed differ")
        stop[0] = bool(viols)
        det = len(dets)
        n = 0
        while not stop[0] and time.time() - tb < budget:
            list(ex.map(work, range(n, n + 64)))
            n += 64
    wall = max(0.001, time.time() - tb)
    cov = {
        "evaluations": agg.get("Runs", 0), "distinct_nontrivial": len(hashes), "rule": rule,
        "samples": [], "seeds": procs[0], "runs_per_hour": int(agg.get("Runs", 0) * 3600 / wall), "seeds_per_hour": int(procs[0] * 3600 / wall),
        "calls": agg.get("Calls", 0), "calls_invalid": agg.get("Invalid", 0), "calls_valid": agg.get("Valid", 0), "expected_violations": agg.get("Leaves", 0),
        "steps": agg.get("Steps", 0), "context_switches": agg.get("Switches", 0), "runs_with_several_clients": agg.get("MultiClient", 0),
        "runs_by_schedule_mode": agg.get("ByMode", {}), "yield_points": sites, "distinct_yield_points_reached_at_most": agg.get("Sites", 0),
        "simulated_seconds": round(agg.get("SimNanos", 0) / 1e9, 3),
        "faults": {"clock_changes": agg.get("ClockOps", 0), "calls_spanning_a_clock_change": agg.get("ClockJumpsInCall", 0), "child_failures_armed": agg.get("InjectedArmed", 0),
                   "child_failures_fired": agg.get("InjectedFired", 0), "children_that_panic": agg.get("Panics", 0), "validations_within_a_child": agg.get("Nested", 0), "clock_reads": agg.get("NowReads", 0)},
        "determinism_selftest_seeds": det, "race_detector": race, "real": REAL, "stub": STUB,
        "distinct_measure": "hash of the switch sequence (step, client), clock trace and message seeds",
    }
    k, rep, _ = runproc(bins[False], ["-prop", prop, "-seed", str(C.mix(C.SEED, prop, 0)), "-plan", "0"])
    # -plan prints plans only
    if rep and rep.get("plans"):
        cov["samples"] = rep["plans"][:1]
    nv = 0
    path = None
    if viols:
        viols.sort(key=lambda v: v[0])
        i, r, s, runs, (kind, rep, err) = viols[0]
        b = bins[r]
        if kind in ("crash", "hang"):
            again = runproc(b, ["-prop", prop, "-seed", str(s), "-runs", str(runs)])
            _, pr, _ = runproc(b, ["-prop", prop, "-seed", str(s), "-runs", str(runs), "-plan", str(runs - 1)])
            if again[0] != kind or not pr:
                C.die("a simulated process died or hung and did not do so again: " + err[-2000:])
            if kind == "crash" and "fatal error:" not in err:
                C.die("a simulated process died: " + err[-2000:])
            plans, cls = pr["plans"], kind
            what = "the process died during validation: " + err.strip().splitlines()[0] if kind == "crash" else "no progress: a validation, or reading its error, did not end"
        else:
            plans, what, cls = rep["plans"], rep["what"], classify(rep["what"])
        m = minimise(S, b, plans, cls)
        if m is None:
            C.die("a violation did not replay: " + what)
        plans, best, tries = m
        if cls not in ("crash", "hang"):
            what = best["what"]
        path = write_replay(prop, plans, what, r, err)
        nv = 1
        cov["minimiser_executions"] = tries
    C.evidence(prop, "exploration", cov, ASSUME, nv)
    if path:
        C.violation(prop, path, what)
        return 1
    if agg.get("Runs", 0) < 100:
        C.die("only %d runs were made" % agg.get("Runs", 0))
    print("%s: %d runs (%d processes, %d calls, %d distinct interleavings) held" % (prop, agg.get("Runs", 0), procs[0], agg.get("Calls", 0), len(hashes)))
    return 0

ASSUME = ["yield points lie between statements of the generated code: preemption inside one statement is covered only by the race detector",
          "the reference model is the rules' documentation as read by the author; strings of well-known formats come from a fixed dictionary"]

def replay(path):
    d = json.load(open(path))
    S = C.scratch()
    bins, _ = build(S, d["race"])
    f = S + "/r.json"
    json.dump({"plans": d["plans"]}, open(f, "w"))
    k, rep, err = runproc(bins[d["race"]], ["-replay", f])
    if k == "violation":
        print(err[-3000:])
        C.violation(d["property"], path, rep["what"])
        return 1
    if k == "crash":
        print(err[-3000:])
        C.violation(d["property"], path, "the process died during validation")
        return 1
    if k == "hang":
        C.violation(d["property"], path, "no progress")
        return 1
    print("replay: no violation")
    return 0
