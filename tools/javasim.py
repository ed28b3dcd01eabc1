"""Simulation of the Java runtime, interceptors and generated validators
(C10-C14): builds them from /repo's working tree, puts seams into their
bytecode, and searches seeds. Every history gets a copy of the code of its own,
in a fresh class loader, and threads of which one runs at a time."""
import glob, json, os, re, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor
import common as C

X = ["--add-exports", "java.base/jdk.internal.org.objectweb.asm=ALL-UNNAMED"]
JAVAC = ["javac", "-nowarn", "-proc:none", "-encoding", "UTF-8", "-XDstringConcat=inline", "-g", "-J-XX:TieredStopAtLevel=1", "-J-XX:+UseSerialGC"]
GEN = ["ja.proto", "jcommon.proto", "jforeign.proto", "jnow.proto"]
FIX = ["fixone.proto", "fixtwo.proto", "fixplain.proto"]
PLAIN = {"jforeign.proto", "fixplain.proto"}   # messages without validators

def sources(*dirs):
    r = []
    for d in dirs:
        for p, _, fs in os.walk(d):
            r += [p + "/" + f for f in sorted(fs) if f.endswith(".java")]
    return sorted(r)

class Build:
    def __init__(self, S):
        self.S = S
        V = C.VERIF + "/javasim"
        J = C.REPO + "/java/pgv-java-%s/src/main/java"
        for d in ("sim", "stubs", "code", "gen", "fixa", "fixb", "world", "pb"):
            os.makedirs(S + "/" + d, exist_ok=True)
        def javac(out, src, cp=(), extra=(), what=None):
            C.sh(JAVAC + list(extra) + (["-cp", ":".join(S + "/" + c for c in cp)] if cp else []) + ["-d", S + "/" + out] + src, what=what or "javac of " + out)
        def runtime():
            javac("sim", sources(V + "/sim"), extra=X)
            javac("stubs", sources(V + "/stubs"), ["sim"])
            javac("code", sources(J % "stub", J % "grpc"), ["stubs", "sim"], what="javac of /repo's Java sources")
        def generate():
            C.build_plugins(S)
            A = C.VERIF + "/corpus/java"
            for f in glob.glob(A + "/fix*.proto"):
                # the same files, with other constants
                s = re.sub(r"const = ([0-9]+)", r"const = 1\1", open(f).read())
                open(S + "/pb/" + os.path.basename(f), "w").write(s)
            import javagen
            def one(src, out, files):
                d = S + "/src/" + out
                os.makedirs(d)
                inc = ["-I", src, "-I", C.REPO]
                C.sh(["protoc"] + inc + ["--include_imports", "--descriptor_set_out=%s/%s.ds" % (S, out)] + files, what="protoc of the Java corpus")
                C.sh(["protoc"] + inc + ["--plugin=protoc-gen-validate=" + S + "/bin/protoc-gen-validate", "--validate_out=lang=java:" + d] + [f for f in files if f not in PLAIN], what="generation of Java validators")
                javagen.Gen(open("%s/%s.ds" % (S, out), "rb").read()).write(d, set(files))
            one(A, "gen", GEN)
            one(A, "fixa", FIX)
            one(S + "/pb", "fixb", FIX)
        with ThreadPoolExecutor(2) as ex:
            for f in [ex.submit(runtime), ex.submit(generate)]:
                f.result()
        traps = sources(C.VERIF + "/corpus/java/traps")
        cp = ["stubs", "code", "sim"]
        with ThreadPoolExecutor(3) as ex:
            for f in [ex.submit(javac, o, sources(S + "/src/" + o) + ([] if o == "gen" else traps), cp, (), "javac of generated validators") for o in ("gen", "fixa", "fixb")]:
                f.result()
        javac("world", sources(V + "/world"), ["stubs", "code", "sim", "gen"])
        shutil.copytree(S + "/stubs", S + "/world", dirs_exist_ok=True)

    def cmd(self, *a, heap="1500m"):
        return ["java", "-XX:+UnlockDiagnosticVMOptions", "-XX:-BytecodeVerificationRemote", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1", "-Xss512k", "-Xmx" + heap] + X + ["-Dsim.root=" + self.S, "-cp", self.S + "/sim", "pgvsim.Main"] + [str(x) for x in a]

def execute(b, plan, cmd="exec"):
    f = b.S + "/plan.%d.%d.%d" % (os.getpid(), threading.get_ident(), time.monotonic_ns())
    open(f, "w").write(plan)
    try:
        p = subprocess.run(b.cmd(cmd, f), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    finally:
        os.unlink(f)
    out = p.stdout.decode(errors="replace")
    if cmd == "trace":
        return out
    m = re.search(r"^RESULT (.*)$", out, re.M)
    if not m:
        C.die("the simulation failed:\n" + out[-3000:])
    return (None if m.group(1) == "ok" else m.group(1)), re.search(r"^HASH (.*)$", out, re.M).group(1)

class Server:
    """One JVM for the minimiser's many short histories."""
    def __init__(self, b):
        self.p = subprocess.Popen(b.cmd("serve"), stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        self.timer = threading.Timer(300, self.p.kill)
        self.timer.start()
    def run(self, plan, trace=False):
        try:
            self.p.stdin.write((plan + ("TRACE\n" if trace else "END\n")).encode())
            self.p.stdin.flush()
            out = []
            while True:
                l = self.p.stdout.readline().decode(errors="replace")
                if not l:
                    return None, None
                if l.startswith("RESULT "):
                    r = l[7:].strip()
                    return (None if r == "ok" else r), "".join(out)
                out.append(l)
        except OSError:
            return None, None
    def close(self):
        self.timer.cancel()
        self.p.kill()
        self.p.wait()

def cls(what):
    for k in ("deadlock", "hang", "map order decides", "was modified", "has changed", "afterwards", "accepted, though", "rejected, though", "rejected for", "where alone it gives", "the call was closed", "closed the call", "the service saw", "the transport saw",
              "the transport received", "the application saw", "ended with", "was expected", "messages requested"):
        if k in what:
            return k
    return "answer"

def minimise(b, plan, what, budget=45, server=Server, cls=cls):
    t0, n, k = time.time(), [0], cls(what)
    s = server(b)
    best = [plan.splitlines(), what]
    def attempt(lines):
        if time.time() - t0 > budget:
            return False
        n[0] += 1
        v, _ = s.run("\n".join(lines) + "\n")
        if v and cls(v) == k:
            best[0], best[1] = lines, v
            return True
        return False
    def again(lines):
        """With the plan's own schedule seed, or another."""
        if attempt(lines):
            return True
        i = next((j for j, l in enumerate(lines) if l.startswith("seed ")), None)
        if i is None or "explicit" in lines:
            return False
        return any(attempt(lines[:i] + ["seed %d" % (z * 7919)] + lines[i + 1:]) for z in range(1, 7))
    def drop(pred, f):
        size = max(1, sum(map(pred, best[0])) // 2)
        while time.time() - t0 < budget:
            i = 0
            while time.time() - t0 < budget:
                idx = [j for j, l in enumerate(best[0]) if pred(l)]
                if i >= len(idx):
                    break
                gone = set(idx[i:i + size])
                if not f([l for j, l in enumerate(best[0]) if j not in gone]):
                    i += size
            if size == 1:
                return
            size //= 2
    fixed = ("mode ", "threads ", "permille ", "seed ", "clock ", "tick ", "explicit", "sw ")
    for _ in range(2):
        drop(lambda l: l.startswith("op "), again)
        drop(lambda l: l.startswith("jump "), again)
        drop(lambda l: not l.startswith(fixed) and not l.startswith(("op ", "jump ")), again)
    # the schedule that was followed, made explicit
    v, tr = s.run("\n".join(best[0]) + "\n", True)
    if v and "\nexplicit" in tr:
        attempt(tr.splitlines())
        drop(lambda l: l.startswith("sw "), attempt)
        drop(lambda l: l.startswith("op "), attempt)
        drop(lambda l: l.startswith("sw "), attempt)
    s.close()
    return "\n".join(best[0]) + "\n", best[1], n[0]

RULES = {
    "C10": "seeded history: 1-4 calls through 1-2 shared server interceptors, their start, message, half-close, ready, cancel and complete events on 1-4 threads in an order gRPC allows, interleaved at every bytecode-level access; messages hand-made and generated, valid or not; services that close, throw or wait in their callbacks",
    "C11": "seeded history: 1-4 calls through 1-2 shared client interceptors, with new call, start, send, request, half-close, cancel, inquiries and incoming events on 1-4 threads in an order gRPC allows, interleaved at every bytecode-level access",
    "C12": "seeded history: 1-3 reflective or explicit indexes (some the fallback of others, some with fallbacks that throw, reject or look up in the same index), 1-4 threads doing 2-13 lookups, uses, uses of validators looked up before and registrations, over 20 classes in two class loaders that define different rules under equal names",
    "C13": "seeded history: 2-11 validations on 1-4 threads of 1-5 shared messages of 18 generated classes (their maps' entries sometimes in another order, which must not change the verdict), through an index, the validator class itself, isValid or a validator kept from before, in code that has validated nothing before; each answer (field, reason, value, text) against the same call alone in another fresh copy of the code, everything again at the end",
    "C14": "seeded history: 2-11 validations on 1-3 threads of messages with lt_now, gt_now and within rules, their timestamps near an edge of the rule or anywhere from year 1 to 9999, while the clock (1971 to 2120) ticks by the step and jumps forwards and backwards inside and between calls; each answer against a reference model over all readings the clock had during the call",
}
FAULTS = {"fault_lookup": "validator lookup throws", "fault_validator": "validator throws an exception", "fault_validator_error": "validator throws an error", "fault_close": "transport fails to close", "fault_service": "service throws",
          "fault_newcall": "channel fails to make a call", "fault_start": "transport fails to start", "fault_half": "transport fails to half-close", "fault_cancel": "transport fails to cancel", "fault_request": "transport fails to take a request",
          "fault_ready": "transport fails to tell readiness", "fault_send": "transport fails to send", "fault_listener": "application listener throws", "fault_missing": "validator class missing", "fault_error": "validator class fails to link",
          "fault_runtime": "class loader throws", "fault_fallback": "fallback index throws", "fault_stack": "stack runs out inside a validation", "fault_memory": "memory runs out inside a validation", "jumps": "clock jump", "blocks": "thread made to wait", "map_orders": "map order drawn"}
STUB = {
    "C10": ["gRPC's call classes (stand-ins with the real signatures)", "transport and service"], "C11": ["gRPC's call classes (stand-ins with the real signatures)", "channel, transport and application"],
    "C12": ["class loading order and failures", "protobuf runtime (stand-ins)"], "C13": ["protobuf, re2j and commons-validator (stand-ins with the real signatures)"], "C14": ["protobuf's Timestamps and Durations (stand-ins with the real arithmetic)", "the clock"],
}
REAL = {
    "C10": ["ValidatingServerInterceptor, ValidationExceptions, ReflectiveValidatorIndex, generated validators"], "C11": ["ValidatingClientInterceptor, ValidationExceptions, ReflectiveValidatorIndex, generated validators"],
    "C12": ["ReflectiveValidatorIndex, ExplicitValidatorIndex, ValidatorIndex, Validator, generated validators, the JVM's class loading"], "C13": ["generated validators and every *Validation class of pgv-java-stub"], "C14": ["generated validators, TimestampValidation, ComparativeValidation"],
}
ASSUME = ["no Java protobuf, gRPC, re2j or commons-validator is installed here; stand-ins with the same signatures and contracts take their place",
          "threads interleave at field and array accesses, calls and lock operations of the code under test; memory is sequentially consistent",
          "HashMap and friends of the code under test are replaced by copies that report unsynchronised use from two threads"]

def search(b, mode, base, budget):
    n = C.CPUS
    ps = [subprocess.Popen(b.cmd("search", mode, base, k, n, budget), stdout=subprocess.PIPE, stderr=subprocess.STDOUT) for k in range(n)]
    agg, found = {}, []
    for k, p in enumerate(ps):
        try:
            out = p.communicate(timeout=budget + 240)[0].decode(errors="replace")
        except subprocess.TimeoutExpired:
            for q in ps:
                q.kill()
            C.die("the simulation did not end")
        m = re.search(r"^STATS (.*)$", out, re.M)
        if not m:
            for q in ps:
                q.kill()
            C.die("worker %d of the simulation ended with %s:\n%s" % (k, p.returncode, out[-3000:]))
        for a, v in json.loads(m.group(1)).items():
            agg[a] = agg.get(a, 0) + v
        f = re.search(r"^FOUND (\d+) (.*)\n((?:.*\n)*?)END$", out, re.M)
        if f:
            found.append((int(f.group(1)), f.group(2), f.group(3)))
    return agg, sorted(found)

def check(prop, q, t):
    b = Build(C.scratch())
    tb = time.time()
    print("build: %.1fs" % (tb - C.T0), flush=True)
    mode = prop.lower()
    base = C.mix(C.SEED, prop)
    plans = [None] * 4
    def selftest(i):
        # the same plan twice, and its explicit schedule, give the same history
        p = subprocess.run(b.cmd("plan", mode, base, i), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        plans[i] = plan = p.stdout.decode()
        x, y = execute(b, plan), execute(b, plan)
        if x != y:
            return "the simulation is not deterministic: %r and %r" % (x, y)
        z = execute(b, execute(b, plan, "trace"))
        if x[0] is None and z != x:
            return "an explicit schedule did not reproduce the history: %r and %r" % (x, z)
    with ThreadPoolExecutor(4) as ex:
        for bad in ex.map(selftest, range(4)):
            if bad:
                C.die(bad)
    agg, found = search(b, mode, base, q if C.TIER != "thorough" else t)
    wall = max(.001, time.time() - tb)
    if not found and agg["runs"] < 100:
        C.die("too few histories: %d" % agg["runs"])
    cov = {"evaluations": agg["runs"], "distinct_nontrivial": agg["distinct"], "rule": RULES[prop], "samples": plans[:1], "seeds": agg["runs"], "runs_per_hour": int(agg["runs"] * 3600 / wall), "seeds_per_hour": int(agg["runs"] * 3600 / wall),
           "simulated_seconds": agg.get("simsec", 0), "scheduler_steps": agg["steps"], "thread_switches": agg["switches"], "histories_with_interleaving": agg["multi"], "operations": agg["ops"],
           "outcomes": {k: v for k, v in agg.items() if k in ("accepted", "rejected", "either", "exceptions", "delivered", "stopped", "other_events", "nested_lookup")},
           "faults": {FAULTS[k]: v for k, v in agg.items() if k in FAULTS}, "threads_blocked_outside_seams": agg["lost"], "determinism_selftest_seeds": 4,
           "distinct_measure": "distinct hashes of plan, schedule and outcomes", "real": REAL[prop] + ["compiled from /repo by javac, bytecode instrumented"], "stub": STUB[prop] + ["thread scheduling", "monitors, java.util.concurrent locks, clocks and hash maps of the code under test"]}
    nv = path = what = None
    nv = 0
    if found:
        i, what, plan = found[0]
        v, _ = execute(b, plan)
        if not v:
            C.die("a violation did not replay: " + what + "\n" + plan)
        plan, what, n = minimise(b, plan, v)
        v, _ = execute(b, plan)
        if not v:
            plan = found[0][2]
            v, _ = execute(b, plan)
        what = v
        cov["minimiser_executions"] = n
        nv = 1
        path = C.replay_path(prop, "%x" % (C.mix(plan) & 0xffffffffff))
        json.dump({"property": prop, "kind": "javasim", "what": what, "found": found[0][1], "seed": C.SEED, "index": i, "plan": plan.splitlines()}, open(path, "w"), indent=1)
    C.evidence(prop, "exploration", cov, ASSUME, nv)
    if path:
        C.violation(prop, path, what)
        return 1
    print("%s: %d histories (%d distinct) held" % (prop, agg["runs"], agg["distinct"]))
    return 0

def replay(path):
    d = json.load(open(path))
    b = Build(C.scratch())
    v, _ = execute(b, "\n".join(d["plan"]) + "\n")
    if v:
        C.violation(d["property"], path, v)
        return 1
    print("replay: no violation")
    return 0
