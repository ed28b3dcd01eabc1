"""Simulation of the Python validator (C15, C25): /repo's validator.py with a
scheduling point at every statement and expression, on threads of which one
runs at a time, against small stand-ins for protobuf, jinja2 and
validate_email."""
import json, os, re, subprocess, threading, time
from concurrent.futures import ThreadPoolExecutor
import common as C
import javasim

FILES = ["pa.proto", "pcommon.proto", "pnow.proto"]

class Build:
    def __init__(self, S):
        self.S = S
        A = C.VERIF + "/corpus/py"
        with open(S + "/many.proto", "w") as f:
            # more classes than the validator keeps
            f.write('syntax = "proto3";\npackage sim.many;\nimport "validate/validate.proto";\n')
            f.writelines("message M%d { int32 v = 1 [(validate.rules).int32.in = %d]; }\n" % (k, k % 4) for k in range(135))
        C.sh(["protoc", "-I", A, "-I", S, "-I", C.REPO, "--include_imports", "--descriptor_set_out=" + S + "/py.ds"] + FILES + ["many.proto"], what="protoc of the Python corpus")
    def cmd(self, *a):
        return ["python3", "-B", C.VERIF + "/pysim/sim.py", self.S + "/py.ds", C.REPO + "/python/protoc_gen_validate/validator.py"] + [str(x) for x in a]

ENV = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")

def run(b, *a, timeout=300):
    p = subprocess.run(b.cmd(*a), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=ENV)
    return p.stdout.decode(errors="replace")

def execute(b, plan, cmd="exec"):
    f = b.S + "/plan.%d.%d" % (threading.get_ident(), time.monotonic_ns())
    open(f, "w").write(plan)
    try:
        out = run(b, cmd, f)
    finally:
        os.unlink(f)
    if cmd == "trace":
        return out
    m = re.search(r"^RESULT (.*)$", out, re.M)
    if not m:
        C.die("the simulation failed:\n" + out[-3000:])
    return (None if m.group(1) == "ok" else m.group(1)), re.search(r"^HASH (.*)$", out, re.M).group(1)

class Server(javasim.Server):
    def __init__(self, b):
        self.p = subprocess.Popen(b.cmd("serve"), stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=ENV)
        self.timer = threading.Timer(300, self.p.kill)
        self.timer.start()

def cls(what):
    for k in ("deadlock", "map order decides", "still held", "was modified", "afterwards", "print_validate", "accepted, though", "rejected (", "after an injected", "where alone it gives"):
        if k in what:
            return k
    return "answer"

RULES = {
    "C25": "seeded history: 2-9 validations on 1-4 threads of 1-5 shared messages of 21 classes (their maps' entries sometimes in another order, which must not change the verdict; or of 135 more, to overflow the cache), some of them filled anew or replaced by new ones (at the old ones' addresses) between calls, from a freshly loaded validator module, switched at any statement or expression, some interrupted there (memory, stack, keyboard) or in template rendering; each answer against the same call alone in another fresh module, everything again at the end, and the code shown by print_validate",
    "C15": "seeded history: 2-11 validations on 1-3 threads of messages with lt_now, gt_now and within rules, their timestamps near an edge of the rule or anywhere from year 1 to 9999, while the clock (1971 to 2118) ticks by the step and jumps forwards and backwards inside and between calls; each answer against a reference model over all readings the clock had during the call, with a margin of 8 units in the last place for floating point",
}
FAULTS = {"fault_mem": "memory runs out at a point of a call", "fault_rec": "stack runs out at a point of a call", "fault_int": "keyboard interrupt at a point of a call", "fault_render": "memory runs out while a template is rendered", "jumps": "clock jump", "maps": "map order drawn", "renewed": "message filled anew or replaced", "blocks": "thread made to wait or ended"}
REAL = ["python/protoc_gen_validate/validator.py from /repo (woven with scheduling points), the code it generates and executes, re, uuid, ipaddress, urllib and functools of CPython"]
STUB = ["protobuf messages and descriptors", "jinja2 (the subset its templates use)", "validate_email", "thread scheduling, locks, clocks"]
ASSUME = ["no Python protobuf, jinja2 or validate_email is installed here; stand-ins written from their contracts take their place",
          "threads interleave between expressions of the validator and of the code it generates; library calls are atomic"]

def search(b, mode, base, budget):
    n = C.CPUS
    ps = [subprocess.Popen(b.cmd("search", mode, base, k, n, budget), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV) for k in range(n)]
    agg, found = {}, []
    for k, p in enumerate(ps):
        try:
            out = p.communicate(timeout=budget + 240)[0].decode(errors="replace")
        except subprocess.TimeoutExpired:
            for q in ps:
                q.kill()
            C.die("the simulation did not end")
        m = re.search(r"^STATS (.*)$", out, re.M)
        if not m:
            for q in ps:
                q.kill()
            C.die("worker %d of the simulation ended with %s:\n%s" % (k, p.returncode, out[-3000:]))
        for a, v in json.loads(m.group(1)).items():
            agg[a] = agg.get(a, 0) + v
        f = re.search(r"^FOUND (\d+) (.*)\n((?:.*\n)*?)END$", out, re.M)
        if f:
            found.append((int(f.group(1)), f.group(2), f.group(3)))
    return agg, sorted(found)

def check(prop, q, t):
    b = Build(C.scratch())
    tb = time.time()
    mode = prop.lower()
    base = C.mix(C.SEED, prop)
    plans = [None] * 4
    def selftest(i):
        plans[i] = plan = run(b, "plan", mode, base, i)
        x, y = execute(b, plan), execute(b, plan)
        if x != y:
            return "the simulation is not deterministic: %r and %r" % (x, y)
        z = execute(b, execute(b, plan, "trace"))
        if x[0] is None and z != x:
            return "an explicit schedule did not reproduce the history: %r and %r" % (x, z)
    with ThreadPoolExecutor(4) as ex:
        for bad in ex.map(selftest, range(4)):
            if bad:
                C.die(bad)
    agg, found = search(b, mode, base, q if C.TIER != "thorough" else t)
    wall = max(.001, time.time() - tb)
    if not found and agg["runs"] < 100:
        C.die("too few histories: %d" % agg["runs"])
    cov = {"evaluations": agg["runs"], "distinct_nontrivial": agg["distinct"], "rule": RULES[prop], "samples": plans[:1], "seeds": agg["runs"], "runs_per_hour": int(agg["runs"] * 3600 / wall), "seeds_per_hour": int(agg["runs"] * 3600 / wall),
           "simulated_seconds": agg["simns"] // 10**9, "scheduler_steps": agg["steps"], "thread_switches": agg["switches"], "histories_with_interleaving": agg["multi"], "operations": agg["ops"],
           "outcomes": {k: agg.get(k, 0) for k in ("accepted", "rejected", "either")}, "faults": {FAULTS[k]: v for k, v in agg.items() if k in FAULTS}, "determinism_selftest_seeds": 4,
           "distinct_measure": "distinct hashes of plan and schedule", "real": REAL, "stub": STUB}
    nv = path = what = None
    nv = 0
    if found:
        i, what, plan = found[0]
        v, _ = execute(b, plan)
        if not v:
            C.die("a violation did not replay: " + what + "\n" + plan)
        plan, what, n = javasim.minimise(b, plan, v, server=Server, cls=cls)
        v, _ = execute(b, plan)
        if not v:
            plan = found[0][2]
            v, _ = execute(b, plan)
        what = v
        cov["minimiser_executions"] = n
        nv = 1
        path = C.replay_path(prop, "%x" % (C.mix(plan) & 0xffffffffff))
        json.dump({"property": prop, "kind": "pysim", "what": what, "found": found[0][1], "seed": C.SEED, "index": i, "plan": plan.splitlines()}, open(path, "w"), indent=1)
    C.evidence(prop, "exploration", cov, ASSUME, nv)
    if path:
        C.violation(prop, path, what)
        return 1
    print("%s: %d histories (%d distinct) held" % (prop, agg["runs"], agg["distinct"]))
    return 0

def replay(path):
    d = json.load(open(path))
    b = Build(C.scratch())
    v, _ = execute(b, "\n".join(d["plan"]) + "\n")
    if v:
        C.violation(d["property"], path, v)
        return 1
    print("replay: no violation")
    return 0
