"""Simulation of the generated C++ validators (C05, C06, C09): builds them from
/repo's working tree together with a single-token thread scheduler, and searches
seeds. Every history runs in a process of its own."""
import itertools, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
import common as C

FILES = ["cca", "ccb", "ccdeep", "ccommon"]
WRAP = ("pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_rwlock_rdlock pthread_rwlock_tryrdlock pthread_rwlock_wrlock "
        "pthread_rwlock_trywrlock pthread_rwlock_unlock pthread_cond_wait sched_yield nanosleep usleep pthread_once __cxa_guard_acquire __cxa_guard_release __cxa_guard_abort").split()
COV = ["-fsanitize-coverage=trace-pc-guard,trace-stores"]
SAN = {"C05": ["-fsanitize=thread"], "C06": ["-fsanitize=address"], "C09": ["-fsanitize=thread"]}
LIBS = ["-lprotobuf", "-lre2", "-lpthread", "-ldl"]

def patched_map(S):
    """google/protobuf/map.h with its sources of randomness behind the simulator."""
    s = open("/usr/include/google/protobuf/map.h").read()
    i = s.index("size_type Seed() const {")
    k = s.index("}", s.index("return s;", i))
    s = s[:i] + "size_type Seed() const { return static_cast<size_type>(sim_map_seed()); }" + s[k + 1:]
    a = "if (table_[b] != nullptr && ShouldInsertAfterHead(node)) {"
    if a not in s:
        C.die("google/protobuf/map.h is not the one this check knows")
    s = s.replace(a, "if (table_[b] != nullptr && (sim_map_seed() & 1)) {")
    i = s.index("namespace google")
    s = s[:i] + 'extern "C" uint64_t sim_map_seed();\n' + s[i:]
    os.makedirs(S + "/inc/google/protobuf", exist_ok=True)
    open(S + "/inc/google/protobuf/map.h", "w").write(s)

def par(jobs):
    """Compiles in parallel; the first error ends it."""
    with ThreadPoolExecutor(C.CPUS) as ex:
        return [f.result() for f in [ex.submit(C.sh, j) for j in jobs]]

class Build:
    def __init__(self, prop, S):
        self.S, self.prop = S, prop
        C.build_plugins(S)
        patched_map(S)
        g = S + "/gen"
        os.makedirs(g)
        src = C.VERIF + "/corpus/cc"
        P = ["protoc", "-I", src, "-I", C.REPO]
        C.sh(P + ["--cpp_out=" + g] + [src + "/%s.proto" % f for f in FILES + ["ccforeign"]] + [C.REPO + "/validate/validate.proto"])
        C.sh(P + ["--plugin=" + S + "/bin/protoc-gen-validate", "--validate_out=lang=cc:" + g] + [src + "/%s.proto" % f for f in FILES], what="C++ generation")
        self.inc = ["-std=c++17", "-w", "-g1", "-fPIC", "-I", S + "/inc", "-I", g, "-I", C.VERIF + "/ccsim", "-I", C.REPO]
        cc = lambda src, out, *x: ["clang++"] + self.inc + ["-c", src, "-o", S + "/" + out + ".o"] + list(x)
        san = SAN[prop] + COV
        dyn = ["-DDYN"] if prop == "C09" else []
        jobs = [cc(g + "/%s.pb.validate.cc" % f, "v_" + f, "-O1", *san) for f in FILES]
        jobs += [cc(C.VERIF + "/ccsim/dispatch.cc", "dispatch", "-O1", *san, *dyn)]
        jobs += [cc(g + "/validate/validate.pb.cc", "p_validate", "-O0")]
        jobs += [cc(g + "/%s.pb.cc" % f, "p_" + f, "-O1") for f in FILES + ["ccforeign"]]
        jobs += [cc(C.VERIF + "/ccsim/%s.cc" % f, f, "-O1") for f in ("simcore", "simgen", "simalloc", "main")]
        par(jobs)
        o = lambda *n: [S + "/%s.o" % x for x in n]
        first = o("dispatch") if prop == "C09" else o(*["v_" + f for f in FILES], "dispatch")
        rest = o(*["p_" + f for f in FILES + ["ccforeign", "validate"]], "main", "simgen", "simcore")
        if prop == "C06":
            rest += o("simalloc")
        wraps = ["-Wl,--wrap=" + w for w in WRAP]
        self.exe = S + "/ccsim"
        C.sh(["clang++"] + SAN[prop] + first + rest + wraps + LIBS + (["-rdynamic"] if prop == "C09" else []) + ["-o", self.exe], what="linking the simulation")
        self.modules = []
        if prop == "C09":
            # every validator file in a shared object of its own
            mods = [(f, f) for f in FILES]
            # calls inside a module go through the same seams
            par([["clang++", "-shared"] + SAN[prop] + o("v_" + f) + wraps + ["-o", S + "/lib%s.so" % n] for f, n in mods])
            self.modules = ["%s.proto=%s/lib%s.so" % (f, S, n) for f, n in mods]
            self.static_orders(o)

    def static_orders(self, o):
        self.orders = list(itertools.permutations(["v_" + f for f in FILES]))
        # one plain object per validator file, linked in every order
        S = self.S
        cc = lambda src, out, *x: ["clang++"] + self.inc + ["-O1", "-c", src, "-o", S + "/" + out + ".o"] + list(x)
        par([cc(S + "/gen/%s.pb.validate.cc" % f, "n_" + f) for f in FILES] + [cc(C.VERIF + "/ccsim/dispatch.cc", "n_dispatch")])

    def link_order(self, k):
        S = self.S
        exe = S + "/order%d" % k
        objs = [S + "/n_%s.o" % f[2:] for f in self.orders[k]]
        rest = [S + "/%s.o" % x for x in ["n_dispatch"] + ["p_" + f for f in FILES + ["ccforeign", "validate"]] + ["main", "simgen", "simcore"]]
        p = subprocess.run(["clang++"] + objs + rest + ["-Wl,--wrap=" + w for w in WRAP] + LIBS + ["-o", exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return exe, (p.stdout.decode(errors="replace") if p.returncode else None)

ENV = {"PATH": "/usr/bin:/bin", "LANG": "C", "LC_ALL": "C"}

def env(symbolize):
    e = dict(ENV)
    e["TSAN_OPTIONS"] = "symbolize=%d" % symbolize
    e["ASAN_OPTIONS"] = "symbolize=%d" % symbolize
    return e

def execute(b, plan, cmd="exec", symbolize=0):
    f = b.S + "/plan.%d.%d" % (os.getpid(), time.monotonic_ns())
    open(f, "w").write(plan)
    try:
        p = subprocess.run([b.exe, cmd, f] + b.modules, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env(symbolize), timeout=300)
    finally:
        os.unlink(f)
    out = p.stdout.decode(errors="replace")
    if cmd == "trace":
        return out
    m = re.search(r"^RESULT (.*)$", out, re.M)
    if not m:
        return None, None
    h = re.search(r"^HASH (.*)$", out, re.M)
    return (None if m.group(1) == "ok" else m.group(1)), h.group(1)

def cls(what):
    for k in ("data race", "deadlock", "hang", "crash", "was modified", "leaks memory", "loading a module", "in one map order", "accepted a message that breaks", "rejected a message that meets", "after all modules",
              "repeated at the end", "error text", "threw"):
        if k in what:
            return k
    return "answer"

def minimise(b, plan, what, budget=60):
    t0, n, k = time.time(), [0], cls(what)
    best = [plan.splitlines(), what]
    def attempt(lines):
        if time.time() - t0 > budget:
            return False
        n[0] += 1
        v, _ = execute(b, "\n".join(lines) + "\n")
        if v and cls(v) == k:
            best[0], best[1] = lines, v
            return True
        return False
    # the schedule that was followed, made explicit
    tr = execute(b, plan, "trace")
    if "\nexplicit" in tr:
        attempt(tr.splitlines())
    def drop(pred, renumber=None):
        """Removes lines that satisfy pred, in ever smaller groups."""
        size = max(1, sum(map(pred, best[0])) // 2)
        while True:
            i = 0
            while True:
                idx = [j for j, l in enumerate(best[0]) if pred(l)]
                if i >= len(idx):
                    break
                gone = set(idx[i:i + size])
                new = [l for j, l in enumerate(best[0]) if j not in gone]
                if renumber:
                    new = renumber(best[0], gone, new)
                if new is None or not attempt(new):
                    i += size
                if time.time() - t0 > budget:
                    return
            if size == 1:
                return
            size //= 2
    drop(lambda l: l.startswith("op "))
    drop(lambda l: l.startswith("sw "))
    def renum(old, gone, new):
        msgs = [j for j, l in enumerate(old) if l.startswith("msg ")]
        dead = {k for k, j in enumerate(msgs) if j in gone}
        keep = [k for k in range(len(msgs)) if k not in dead]
        out = []
        for l in new:
            w = l.split()
            if w[0] == "op" and w[2] != "L":
                if int(w[3]) in dead:
                    return None
                w[3] = str(keep.index(int(w[3])))
                l = " ".join(w)
            out.append(l)
        return out
    drop(lambda l: l.startswith("msg "), renum)
    # shorter messages: top-level fields dropped one by one
    import plugsim
    def parts(h):
        raw = bytes.fromhex("" if h == "-" else h)
        out, i = [], 0
        while i < len(raw):
            j = i
            def vi(j):
                v = s = 0
                while True:
                    v |= (raw[j] & 127) << s
                    s += 7
                    j += 1
                    if raw[j - 1] < 128:
                        return v, j
            key, j = vi(j)
            if key & 7 == 0:
                _, j = vi(j)
            elif key & 7 == 1:
                j += 8
            elif key & 7 == 5:
                j += 4
            else:
                l, j = vi(j)
                j += l
            out.append(raw[i:j])
            i = j
        return out
    for _ in range(2):
        for j, l in enumerate(best[0]):
            if not l.startswith("msg "):
                continue
            ps = parts(l.split()[3])
            q = len(ps) - 1
            while q >= 0 and time.time() - t0 < budget:
                cand = ps[:q] + ps[q + 1:]
                w = best[0][j].split()
                w[3] = b"".join(cand).hex() or "-"
                if attempt(best[0][:j] + [" ".join(w)] + best[0][j + 1:]):
                    ps = cand
                q -= 1
    return "\n".join(best[0]) + "\n", best[1], n[0]

RULES = {
    "C05": "seeded history: 1-4 threads, 2-8 calls (generated function or registry dispatch) on 1-4 shared or private messages (also parsed into objects used before) of 20 types, in a process that has validated nothing before; each answer and error text against the same call alone in a fresh process, every call repeated at the end. Distinct: hash of messages, calls and schedule",
    "C06": "seeded history: 1-2 threads, 2-5 calls with private copies of 1-3 messages under different map seeds, with the k-th allocation (or all from the k-th on) of a call failing, k drawn within the number of allocations the call makes alone. Distinct: hash of messages, map seeds, failing points and schedule",
    "C09": "seeded history: 1-4 threads loading up to 4 shared objects of validators in random order and dlopen modes, with 2-8 dispatching calls before, during and after, against a reference model of the rules of what is loaded. Distinct: hash of messages, calls, loads and schedule",
}

def search(b, mode, base, budget):
    n = C.CPUS
    ps = [subprocess.Popen([b.exe, "search", mode, str(base), str(k), str(n), str(budget)] + b.modules, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env(0)) for k in range(n)]
    agg, found = {}, []
    for k, p in enumerate(ps):
        try:
            out = p.communicate(timeout=budget + 240)[0].decode(errors="replace")
        except subprocess.TimeoutExpired:
            p.kill()
            C.die("the simulation did not end")
        m = re.search(r"^STATS (.*)$", out, re.M)
        if not m:
            C.die("worker %d of the simulation ended with %s:\n%s" % (k, p.returncode, out[-2000:]))
        for a, v in json.loads(m.group(1)).items():
            agg[a] = agg.get(a, 0) + v
        f = re.search(r"^FOUND (\d+) (.*)\n((?:.*\n)*?)END$", out, re.M)
        if f:
            found.append((int(f.group(1)), f.group(2), f.group(3)))
    return agg, sorted(found)

def static_check(b, budget):
    """All link orders of the validator files: the same answers, those of the model."""
    t0, runs, plans = time.time(), 0, []
    def one(k):
        exe, err = b.link_order(k)
        if err:
            return k, "link", err
        p = subprocess.run([exe, "static", "static", str(C.SEED), "0", "1", "40"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env(0), timeout=200)
        os.unlink(exe)
        out = p.stdout.decode(errors="replace")
        return k, "run", out + ("\nended with status %d" % p.returncode if p.returncode else "")
    with ThreadPoolExecutor(C.CPUS) as ex:
        res = list(ex.map(one, range(len(b.orders))))
    return res

def check(prop, q, t):
    S = C.scratch()
    b = Build(prop, S)
    tb = time.time()
    print("build: %.1fs" % (tb - C.T0), flush=True)
    mode = prop.lower()
    base = C.mix(C.SEED, prop)
    # determinism: the same plan twice, and its explicit schedule, give the same history
    for i in range(8):
        p = subprocess.run([b.exe, "plan", mode, str(base), str(i), "1", "0"] + b.modules, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env(0))
        plan = p.stdout.decode()
        x, y = execute(b, plan), execute(b, plan)
        if x != y:
            C.die("the simulation is not deterministic: %r and %r" % (x, y))
        if x[0] is None:
            z = execute(b, execute(b, plan, "trace"))
            if z != x:
                C.die("an explicit schedule did not reproduce the history: %r and %r" % (x, z))
    agg, found = search(b, mode, base, q if C.TIER != "thorough" else t)
    wall = max(.001, time.time() - tb)
    if not found and agg["plans"] < 50:
        C.die("too few histories: %d" % agg["plans"])
    cov = {"evaluations": agg["runs"], "distinct_nontrivial": agg["distinct"], "rule": RULES[prop], "samples": [plan], "seeds": agg["plans"],
           "runs_per_hour": int(agg["runs"] * 3600 / wall), "seeds_per_hour": int(agg["plans"] * 3600 / wall), "simulated_seconds": 0,
           "simulated_time_note": "C++ validators use no clock; time is counted in scheduler steps", "scheduler_steps": agg["steps"], "thread_switches": agg["switches"],
           "histories_with_interleaving": agg["multi"], "operations": agg["ops"], "answers_accept": agg["accepts"], "answers_reject": agg["rejects"],
           "faults": {"failed allocation (single)": agg["faults"] - agg["faults_persistent"], "failed allocations (from one on)": agg["faults_persistent"], "shared object loaded": agg["loads"],
                      "call overlapping a load": agg["during"], "map orders drawn": agg["ops"]},
           "exceptions_seen": agg["exceptions"], "model_unknown": agg["unknown"], "determinism_selftest_seeds": 8,
           "distinct_measure": RULES[prop].split("Distinct: ")[1],
           "real": ["generated validators and validate.h from /repo (%s instrumented)" % SAN[prop][0][11:], "libprotobuf, libre2, libstdc++", "real threads, one running at a time", "dlopen" if prop == "C09" else "operator new"],
           "stub": ["thread scheduling", "mutex, rwlock, once and guard blocking", "map seed and bucket order"]}
    nv = path = what = None
    nv = 0
    if prop == "C09" and not found:
        for k, kind, out in static_check(b, 60):
            bad = None
            if kind == "link":
                bad = "the validator files do not link together in order %s: %s" % (" ".join(b.orders[k]), next((l for l in out.splitlines() if "multiple" in l or "undefined" in l or "error" in l), out)[:300])
            else:
                m = re.search(r"^FOUND (\d+) (.*)$", out, re.M)
                if m:
                    bad = "with initialisation order %s: %s" % (" ".join(b.orders[k]), m.group(2))
                elif "STATS" not in out:
                    bad = "with initialisation order %s the program ends: %s" % (" ".join(b.orders[k]), out[-300:].replace("\n", " "))
            if bad:
                nv, what = 1, bad
                path = C.replay_path(prop, "order%d" % k)
                json.dump({"property": prop, "kind": "ccsim", "what": bad, "order": k, "seed": C.SEED}, open(path, "w"), indent=1)
                break
        cov["static_link_orders"] = len(b.orders)
    if found:
        i, what, plan = found[0]
        v, _ = execute(b, plan)
        if not v:
            C.die("a violation did not replay: " + what)
        plan, what, n = minimise(b, plan, v)
        v, _ = execute(b, plan, symbolize=1)
        what = v or what
        cov["minimiser_executions"] = n
        nv = 1
        path = C.replay_path(prop, "%x" % (C.mix(plan) & 0xffffffffff))
        json.dump({"property": prop, "kind": "ccsim", "what": what, "found": found[0][1], "seed": C.SEED, "index": i, "plan": plan.splitlines()}, open(path, "w"), indent=1)
    C.evidence(prop, "exploration", cov, ASSUME[prop], nv)
    if path:
        C.violation(prop, path, what)
        return 1
    print("%s: %d histories in %d processes (%d distinct) held" % (prop, agg["plans"], agg["runs"], agg["distinct"]))
    return 0

ASSUME = {
    "C05": ["interleavings are explored at control-flow edges and stores of the generated code and validate.h; finer ones are covered by the race detector only",
            "libprotobuf and libre2 are trusted to be thread-safe; they are not instrumented", "suppressed: lazily filled caches inside libstdc++'s std::ctype and std::locale"],
    "C06": ["allocations made by code inside libre2 and libprotobuf never fail", "a leak is memory that every repetition of the failing call leaves behind"],
    "C09": ["the messages' own classes are always loaded; only validators are loaded at run time, each file once (libprotobuf allows no more)", "modules are loaded with RTLD_NOW (lazy binding would block in the dynamic loader's own lock)", "one thread loads at a time (the dynamic loader's lock)", "answers are judged by a reference model; calls overlapping a load may see either side of it"],
}

def replay(path):
    d = json.load(open(path))
    b = Build(d["property"], C.scratch())
    if "order" in d:
        exe, err = b.link_order(d["order"])
        v = err and "the validator files do not link together: " + err[-300:]
        if not v:
            p = subprocess.run([exe, "static", "static", str(d["seed"]), "0", "1", "40"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env(0), timeout=200)
            out = p.stdout.decode(errors="replace")
            m = re.search(r"^FOUND (\d+) (.*)$", out, re.M)
            v = m.group(2) if m else None if "STATS" in out else out[-300:]
    else:
        v, _ = execute(b, "\n".join(d["plan"]) + "\n", symbolize=1)
    if v:
        C.violation(d["property"], path, v)
        return 1
    print("replay: no violation")
    return 0
