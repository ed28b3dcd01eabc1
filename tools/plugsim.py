"""Simulation of the protoc plugin (C07, C08): the real plugin, linked against
a runtime whose map order, clock, goroutine choice and standard streams are
drawn from a seed, run over randomly built requests."""
import hashlib, json, os, random, resource, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ProcessPoolExecutor
import common as C
import mkoverlay, protogen

def build(S):
    os.makedirs(S + "/bin", exist_ok=True)
    env = C.goenv()
    shutil.copytree(C.VERIF + "/gosim/cmd/instr", S + "/instr/cmd/instr")
    open(S + "/instr/go.mod", "w").write("module instr\n\ngo 1.20\n")
    C.sh(["go", "build", "-o", S + "/bin/instr", "./cmd/instr"], cwd=S + "/instr", env=env)
    ov = mkoverlay.make(S + "/overlay", True, C.REPO, [S + "/bin/instr"])
    C.sh(["go", "build", "-overlay", ov, "-o", S + "/bin/sim-plugin", "."], cwd=C.REPO, env=C.goenv(extra={"GOFLAGS": "-mod=readonly"}), what="go build of the plugin")
    return S + "/bin/sim-plugin"

# --- protobuf wire format, as much as is needed
def varint(n):
    out = bytearray()
    while n > 127:
        out.append(n & 127 | 128)
        n >>= 7
    out.append(n)
    return bytes(out)

def lenfield(num, b):
    return varint(num << 3 | 2) + varint(len(b)) + b

class Bad(Exception):
    pass

def fields(b):
    i, out = 0, []
    def vi():
        nonlocal i
        n = s = 0
        while True:
            if i >= len(b):
                raise Bad()
            c = b[i]
            i += 1
            n |= (c & 127) << s
            s += 7
            if c < 128:
                return n
    while i < len(b):
        k = vi()
        num, wt = k >> 3, k & 7
        if wt == 0:
            v = vi()
        elif wt == 2:
            l = vi()
            if i + l > len(b):
                raise Bad()
            v = b[i:i + l]
            i += l
        elif wt == 1:
            v = b[i:i + 8]
            i += 8
        elif wt == 5:
            v = b[i:i + 4]
            i += 4
        else:
            raise Bad()
        out.append((num, v))
    return out

def response(b):
    """(files as a list of (name, content), error) or None when it is no complete response."""
    try:
        fs, err = [], None
        for num, v in fields(b):
            if num == 1:
                err = v.decode(errors="replace")
            elif num == 15:
                n = c = None
                for k, w in fields(v):
                    if k == 1:
                        n = w.decode(errors="replace")
                    elif k == 15:
                        c = w
                fs.append((n, c))
        return fs, err
    except (Bad, AttributeError):
        return None

class World:
    """One parsed set of proto files."""
    def __init__(self, sources, S):
        self.sources = sources
        d = tempfile.mkdtemp(dir=S)
        try:
            for p, lines in sources.items():
                os.makedirs(os.path.dirname(os.path.join(d, p)), exist_ok=True)
                open(os.path.join(d, p), "w").write("\n".join(lines) + "\n")
            q = subprocess.run(["protoc", "-I", d, "-I", C.REPO, "--include_imports", "--include_source_info", "--descriptor_set_out=" + d + "/set"] + sorted(sources),
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=d)
            self.error = q.stderr.decode(errors="replace") if q.returncode else None
            if self.error:
                return
            raw = open(d + "/set", "rb").read()
        finally:
            shutil.rmtree(d, ignore_errors=True)
        self.raw, self.deps, self.msgs, self.base = {}, {}, {}, []
        for num, v in fields(raw):
            fs = fields(v)
            n = [w for k, w in fs if k == 1][0].decode()
            self.raw[n] = v
            self.deps[n] = [w.decode() for k, w in fs if k == 3]
            self.msgs[n] = sum(1 for k, _ in fs if k == 4)
            self.base.append(n)

    def closure(self, gen, extra=()):
        out, todo = set(), list(gen) + list(extra)
        while todo:
            x = todo.pop()
            if x not in out:
                out.add(x)
                todo += self.deps[x]
        return out

    def order(self, files, r=None):
        """A topological order; r picks among the admissible ones."""
        left, out = [x for x in self.base if x in files], []
        while left:
            ready = [x for x in left if all(d in out for d in self.deps[x])]
            x = r.choice(ready) if r else ready[0]
            out.append(x)
            left.remove(x)
        return out

    def request(self, run):
        b = b"".join(lenfield(1, g.encode()) for g in run["gen"]) + lenfield(2, run["param"].encode()) + lenfield(3, b"\x08\x03\x10\x15\x18\x0c")
        return b + b"".join(lenfield(15, self.raw[x]) for x in run["order"])

def execute(binp, world, run, timeout=150):
    env = {"PATH": "/usr/bin:/bin", "PGVSIM": str(run["mapseed"]), "GOMAXPROCS": "1", "GOGC": "off", "GODEBUG": "asyncpreemptoff=1", "GOTRACEBACK": "none",
           "PGVIO": run.get("io", "")}
    env.update(run.get("env", {}))
    cpu = resource.getrusage(resource.RUSAGE_CHILDREN)
    try:
        p = subprocess.run([binp], input=world.request(run), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=timeout, cwd=run.get("cwd", "/"))
    except subprocess.TimeoutExpired:
        return {"code": "hang", "out": b"", "err": "", "state": ""}
    except BrokenPipeError:
        return {"code": "pipe", "out": b"", "err": "", "state": ""}
    err = p.stderr.decode(errors="replace")
    now = resource.getrusage(resource.RUSAGE_CHILDREN)
    if p.returncode == 98 and "PGVSIM hang" in err or p.returncode == -9 and now.ru_utime + now.ru_stime - cpu.ru_utime - cpu.ru_stime > 6:
        return {"code": "hang", "out": b"", "err": "", "state": ""}
    state = [l for l in err.splitlines() if l.startswith("PGVSIM ")]
    return {"code": p.returncode, "out": p.stdout, "err": err, "state": " ".join(state)}

LANGS = {"go": ["lang=go", "paths=source_relative,lang=go", "lang=go,module=sim.example/sim"], "cc": ["lang=cc"], "java": ["lang=java"]}

def env_variation(r):
    e = {}
    if r.random() < .5:
        e["TZ"] = r.choice(["UTC", "Asia/Tokyo", "America/New_York"])
        e["LANG"] = r.choice(["C", "en_US.UTF-8", "tr_TR.UTF-8"])
        e["HOME"] = r.choice(["/", "/nonexistent"])
        e["USER"] = r.choice(["alice", "bob"])
        e["HOSTNAME"] = r.choice(["h1", "h2"])
    return e, r.choice(["/", "/tmp", "/usr"])

def make_run(w, r, lang, param, gen, extra=(), canonical=False):
    run = {"lang": lang, "param": param, "gen": list(gen)}
    cl = w.closure(gen, extra)
    if canonical:
        run.update(order=w.order(cl), mapseed=1, io="now=1700000000000000000", env={}, cwd="/")
        return run
    r.shuffle(run["gen"])
    run["order"] = w.order(cl, r)
    run["mapseed"] = r.getrandbits(48) | 1
    io = ["now=%d" % (r.choice([0, 86400, 951782400, 1700000000, 4102444799, 7258118400]) * 10**9 + r.getrandbits(29)), "seed=%d" % r.getrandbits(31)]
    c = r.choice([0, 1, 7, 100, 4096])
    if c:
        io.append("chunk=%d" % c)
    if r.random() < .3:
        io.append("zero=%d" % r.choice([2, 5]))
    run["io"] = ";".join(io)
    run["env"], run["cwd"] = env_variation(r)
    return run

def outcome(res):
    """What protoc would make of it: ('files', {name: content}), ('failed', why), or ('bad', why)."""
    if res["code"] == "hang":
        return ("hang", "")
    if res["code"] != 0:
        return ("failed", str(res["code"]))
    p = response(res["out"])
    if p is None:
        return ("failed", "incomplete response")
    fs, err = p
    if err:
        return ("failed", "error in response")
    names = [n for n, _ in fs]
    if None in names or any(c is None for _, c in fs):
        return ("bad", "a file without name or content in the response")
    if len(set(names)) != len(names):
        return ("bad", "the response contains the same file twice: %s" % sorted(n for n in names if names.count(n) > 1)[0])
    return ("files", dict(fs))

def diff(exp, got):
    for n in sorted(exp):
        if n not in got:
            return "output file %s is missing" % n
    for n in sorted(got):
        if n not in exp:
            return "output file %s was not expected" % n
    for n in sorted(exp):
        if exp[n] != got[n]:
            a, b = exp[n].decode(errors="replace").splitlines(), got[n].decode(errors="replace").splitlines()
            for i, (x, y) in enumerate(zip(a, b)):
                if x != y:
                    return "content of %s differs at line %d: %r and %r" % (n, i + 1, x[:120], y[:120])
            return "content of %s differs in length" % n
    return None

def expected_count(w, f, lang, src):
    has_validate = any(d.endswith("validate.proto") for d in w.deps[f])
    if lang == "go":
        return 1
    if lang == "cc":
        return 2
    if not has_validate:
        return 0
    return w.msgs[f] if "option java_multiple_files = true;" in src[f] else 1

class Found(Exception):
    def __init__(self, what, case):
        self.what, self.case = what, case

def alone_outputs(binp, w, lang, param, files, st):
    """Reference: each file generated by itself, canonically."""
    exp, names = {}, set()
    for f in files:
        run = make_run(w, None, lang, param, [f], canonical=True)
        res = execute(binp, w, run)
        st["runs"] += 1
        o = outcome(res)
        if o[0] == "hang":
            raise Found("the plugin does not end", {"kind": "valid", "runs": [run]})
        if o[0] == "bad":
            raise Found(o[1], {"kind": "valid", "runs": [run]})
        if o[0] != "files":
            raise Found("a consistent file was refused or not finished (%s): %s" % (o[1], last_line(res["err"])), {"kind": "valid", "runs": [run]})
        n = expected_count(w, f, lang, w.sources)
        # (Java: files that know the rules through another file's public import only have none so far)
        if len(o[1]) != n and not (lang == "java" and n == 0 and any("public" in l for d in w.deps[f] if d in w.sources for l in w.sources[d])):
            raise Found("%d outputs instead of %d for %s" % (len(o[1]), n, f), {"kind": "count", "runs": [run]})
        for k in o[1]:
            if k in names:
                raise Found("two files generate the same output %s" % k, {"kind": "collide", "runs": [run]})
            names.add(k)
        exp[f] = o[1]
    return exp

def last_line(e):
    l = [x for x in e.strip().splitlines() if not x.startswith("PGVSIM")]
    return l[-1][:200] if l else ""

def judge_c07(binp, w, case, st=None):
    """Re-judges a case from a replay file: the last run against the files alone."""
    run = case["runs"][-1]
    try:
        exp = alone_outputs(binp, w, run["lang"], run["param"], run["gen"], st or {"runs": 0})
    except Found as e:
        return e.what
    if case["kind"] in ("valid", "count", "collide"):
        return None
    o = outcome(execute(binp, w, run))
    if o[0] != "files":
        return "generation of valid files ended with: %s %s" % o
    m = {}
    for f in run["gen"]:
        m.update(exp[f])
    return diff(m, o[1])

def scenario_c07(binp, seed, S, st):
    r = random.Random(seed)
    prog = protogen.Prog(r)
    src = prog.sources()
    w = World(src, S)
    if w.error:
        st["skipped"] += 1
        return None
    files = list(src)
    langs = r.sample(["go", "cc", "java"], r.choice([1, 2, 3]))
    for lang in langs:
        param = r.choice(LANGS[lang])
        try:
            exp = alone_outputs(binp, w, lang, param, files, st)
        except Found as e:
            if e.case["kind"] == "collide":
                st["skipped"] += 1
                continue
            return e.what, src, e.case
        for k in range(r.choice([2, 4, 6])):
            gen = r.sample(files, r.randrange(1, len(files) + 1))
            extra = r.sample(files, r.randrange(0, len(files) + 1)) if r.random() < .3 else []
            run = make_run(w, r, lang, param, gen, extra)
            res = execute(binp, w, run)
            st["runs"] += 1
            st["by_lang"][lang] = st["by_lang"].get(lang, 0) + 1
            note_faults(st, run["io"])
            st["hashes"].add(hash((seed, lang, tuple(run["gen"]), tuple(run["order"]), res["state"])) & 0xffffffffffff)
            o = outcome(res)
            m = {}
            for f in run["gen"]:
                m.update(exp[f])
            what = None
            if o[0] != "files":
                what = "generation of valid files ended with: %s %s" % o
            else:
                what = diff(m, o[1])
            if what:
                return what, src, {"kind": "batch", "runs": [run]}
    return None

def note_faults(st, io):
    for kv in io.split(";"):
        if kv.startswith(("chunk", "zero", "now")):
            k = {"chunk": "short reads", "zero": "empty reads", "now": "clock start"}[kv.split("=")[0]]
            st["faults"][k] = st["faults"].get(k, 0) + 1

def judge_c08_run(binp, w, run, kind, exp, st=None):
    res = execute(binp, w, run)
    o = outcome(res)
    fired = res["state"]
    if o[0] == "hang":
        return "the plugin does not end", res
    if kind == "bad":
        if o[0] != "failed":
            return "a request with a contradictory or ill-typed rule was answered with status zero and %d files" % len(o[1]), res
        return None, res
    io = run["io"]
    faulty = any(x.startswith(("r=", "w=")) for x in io.split(";"))
    if o[0] == "bad":
        return o[1], res
    if o[0] == "failed":
        if faulty and (":" in fired):
            return None, res
        if res["code"] == "pipe" and faulty:
            return None, res
        return "a request with consistent rules failed (%s): %s" % (o[1], last_line(res["err"])), res
    d = diff(exp, o[1])
    if d:
        return "status zero but " + d, res
    return None, res

def scenario_burst(binp, r, S, st):
    """Many small files that each carry one contradiction, handed over one by one or among others."""
    bad = protogen.burst(r, r.choice([10, 20, 40]))
    good = protogen.Prog(r, nfiles=r.choice([1, 2])).sources()
    src = dict(good, **{p: x[0] for p, x in bad.items()})
    w = World(src, S)
    if w.error:
        st["skipped"] += 1
        return None
    for f, (_, rule) in bad.items():
        lang = r.choice(["go", "cc", "java"])
        gen = [f] + (r.sample(list(good), r.randrange(0, len(good) + 1)) if r.random() < .2 else [])
        run = make_run(w, r, lang, r.choice(LANGS[lang]), gen)
        what, res = judge_c08_run(binp, w, run, "bad", None)
        st["runs"] += 1
        st["by_lang"][lang] = st["by_lang"].get(lang, 0) + 1
        st["faults"]["contradictory rule in a requested file"] = st["faults"].get("contradictory rule in a requested file", 0) + 1
        note_faults(st, run["io"])
        st["hashes"].add(hash((rule, lang, tuple(run["gen"]), tuple(run["order"]), res["state"])) & 0xffffffffffff)
        if what:
            return what + " (%s in %s)" % (rule, f), {p: src[p] for p in w.closure(run["gen"]) if p in src}, {"kind": "bad", "bad": f, "runs": [run]}
    return None

def scenario_c08(binp, seed, S, st):
    r = random.Random(seed)
    if r.random() < .25:
        return scenario_burst(binp, r, S, st)
    prog = protogen.Prog(r)
    valid = prog.sources()
    mode = r.choice(["bad", "bad", "io", "valid"])
    badfile = badrule = None
    if mode == "bad":
        badfile, badrule = prog.plant(r)
        if badfile is None:
            mode = "io"
    src = prog.sources()
    w = World(src, S)
    if w.error:
        st["skipped"] += 1
        return None
    files = list(src)
    lang = r.choice(["go", "cc", "java"])
    param = r.choice(LANGS[lang])
    for k in range(3):
        if mode == "bad":
            others = [f for f in files if f != badfile]
            if r.random() < .2 and others:
                # the offending file is only imported, or not there at all
                gen, kind = r.sample(others, r.randrange(1, len(others) + 1)), "imported"
            else:
                gen, kind = [badfile] + r.sample(others, r.randrange(0, len(others) + 1)), "bad"
        else:
            gen, kind = r.sample(files, r.randrange(1, len(files) + 1)), mode
        run = make_run(w, r, lang, param, gen)
        exp = None
        if kind != "bad":
            # fault-free reference of the same set
            ref = make_run(w, None, lang, param, gen, canonical=True)
            res = execute(binp, w, ref)
            st["runs"] += 1
            o = outcome(res)
            if o[0] == "bad" and "same file twice" in o[1]:
                st["skipped"] += 1
                continue
            if o[0] != "files":
                return "a request with consistent rules ended with: %s %s: %s" % (o[0], o[1], last_line(res["err"])), src, {"kind": "valid", "runs": [ref]}
            exp = o[1]
            n = sum(expected_count(w, f, lang, src) for f in gen)
            if len(exp) != n:
                return "%d files instead of %d in a complete response" % (len(exp), n), src, {"kind": "valid", "runs": [ref]}
        if kind == "io":
            nin = len(w.request(run))
            nout = len(res["out"])
            if r.random() < .5:
                fk = r.choice(["eof", "eof", "eof", "eio", "eintr", "eagain", "kill"])
                off = r.choice([r.randrange(0, nin), r.randrange(0, nin), nin - 1, boundary(w, run, r)])
                run["io"] += ";r=%d:%s" % (off, fk)
            else:
                fk = r.choice(["short", "enospc", "eio", "epipe", "kill"])
                off = r.choice([r.randrange(0, max(1, nout)), 0, max(0, nout - 1), out_boundary(res["out"], r)])
                run["io"] += ";w=%d:%s" % (off, fk)
            st["faults"][fk] = st["faults"].get(fk, 0) + 1
        what, res = judge_c08_run(binp, w, run, "bad" if kind == "bad" else "io", exp)
        st["runs"] += 1
        if kind in ("bad", "imported"):
            kk = "contradictory rule in a requested file" if kind == "bad" else "contradictory rule in an imported file"
            st["faults"][kk] = st["faults"].get(kk, 0) + 1
        st["by_lang"][lang] = st["by_lang"].get(lang, 0) + 1
        note_faults(st, run["io"])
        if "r:" in res["state"] or "w:" in res["state"]:
            st["fired"] += 1
        st["hashes"].add(hash((seed, lang, tuple(run["gen"]), tuple(run["order"]), run["io"].split(";")[-1], res["state"])) & 0xffffffffffff)
        if what:
            if badrule:
                what += " (%s in %s)" % (badrule, badfile)
            return what, src, {"kind": "bad" if kind == "bad" else "io", "bad": badfile, "runs": [run]}
    return None

def boundary(w, run, r):
    """An offset at the end of one of the request's parts."""
    b = [len(lenfield(1, g.encode())) for g in run["gen"]] + [len(lenfield(2, run["param"].encode())), 8] + [len(lenfield(15, w.raw[x])) for x in run["order"]]
    return sum(b[:r.randrange(0, len(b))])

def out_boundary(out, r):
    ends, i = [0], 0
    for num, v in fields(out):
        i += len(lenfield(num, v)) if isinstance(v, bytes) else len(varint(num << 3)) + len(varint(v))
        ends.append(i)
    return r.choice(ends[:-1] or [0])

def judge_c08(binp, w, case, st=None):
    run = case["runs"][-1]
    exp = None
    if case["kind"] != "bad":
        ref = make_run(w, None, run["lang"], run["param"], run["gen"], canonical=True)
        res = execute(binp, w, ref)
        o = outcome(res)
        if o[0] != "files":
            return "a request with consistent rules ended with: %s %s: %s" % (o[0], o[1], last_line(res["err"]))
        exp = o[1]
        n = sum(expected_count(w, f, run["lang"], w.sources) for f in run["gen"])
        if len(exp) != n:
            return "%d files instead of %d in a complete response" % (len(exp), n)
    return judge_c08_run(binp, w, run, case["kind"], exp)[0]

PROBE_HEAD = ['syntax = "proto3";', "package probe;", 'option go_package = "sim.example/probe;probe";', 'import "validate/validate.proto";', 'import "google/protobuf/wrappers.proto";', 'import "google/protobuf/timestamp.proto";']
# constructs the generator leaves out because they are known findings: probed one by one
PROBES = [("wrapper-elements", "%s-%s" % (lang, i), lang, "valid", PROBE_HEAD + ["message M {", f, "}"]) for lang in ("go", "cc", "java") for i, f in (
    ("list", "repeated google.protobuf.StringValue a = 1 [(validate.rules).repeated = {items: {string: {min_len: 1}}}];"),
    ("map", "map<string, google.protobuf.Int32Value> a = 1 [(validate.rules).map = {values: {int32: {gt: 1}}}];"))]
# rules no value can satisfy and that the checker does not compare with each other
PROBES += [(i, i, "go", "bad", PROBE_HEAD + ["enum E {", "E_ZERO = 0;", "E_ONE = 1;", "}", "message M {", "%s bad_field = 1 [(validate.rules).%s];" % (t, rule), "}"]) for i, t, rule in (
    ("enum-const-not-in", "E", "enum = {const: 1 not_in: [1]}"),
    ("enum-const-in", "E", "enum = {const: 1 in: [0]}"),
    ("enum-const-undefined", "E", "enum = {const: 9 defined_only: true}"),
    ("string-const-length", "string", "string = {const: \"a\" min_len: 4}"),
    ("string-const-in", "string", "string = {const: \"a\" in: [\"b\"]}"),
    ("string-in-length", "string", "string = {in: [\"a\"] min_len: 4}"),
    ("string-contains", "string", "string = {contains: \"a\" not_contains: \"a\"}"),
    ("string-prefix-len", "string", "string = {len: 1 prefix: \"abc\"}"),
    ("bytes-const-length", "bytes", "bytes = {const: \"a\" min_len: 4}"),
    ("timestamp-const-now", "google.protobuf.Timestamp", "timestamp = {const: {seconds: 1} gt_now: true}"),
    ("unique-bools", "repeated bool", "repeated = {unique: true min_items: 3}"))]

def probes(binp, S):
    """Yields (probe id, name, sources, case, what) for each probe that fails."""
    for pid, name, lang, kind, lines in PROBES:
        src = {"probe.proto": lines}
        w = World(src, S)
        run = make_run(w, None, lang, "lang=" + lang, ["probe.proto"], canonical=True)
        if w.error:
            C.die("protoc refuses a probe: " + w.error)
        case = {"kind": kind, "runs": [run]} if kind == "valid" else {"kind": kind, "bad": "probe.proto", "runs": [run]}
        what = judge_c08(binp, w, case)
        if what:
            yield pid, name, src, case, what

def newstats():
    return {"runs": 0, "skipped": 0, "fired": 0, "by_lang": {}, "faults": {}, "hashes": set(), "programs": 0}

def worker(args):
    prop, binp, S, first, step, until = args
    st = newstats()
    fn = scenario_c07 if prop == "C07" else scenario_c08
    i = first
    while time.time() < until:
        seed = C.mix(C.SEED, prop, i)
        f = fn(binp, seed, S, st)
        st["programs"] += 1
        if f:
            return st, (i, f)
        i += step
    return st, None

CLASSES = ("does not end", "refused or not finished", "outputs instead of", "is missing", "was not expected", "differs", "ended with", "same file twice", "contradictory",
           "consistent rules failed", "files instead of", "without name")

def cls(what):
    for k in CLASSES:
        if k in what:
            # the reason a valid file was refused for has to stay the same
            return k + what.rsplit("]", 1)[-1] if "]" in what and "differs" not in k else k
    return what

def verdict(prop, binp, S, src, case):
    w = World(src, S)
    if w.error:
        return None
    for run in case["runs"]:
        if not set(run["gen"]) <= set(w.raw):
            return None
    return (judge_c07 if prop == "C07" else judge_c08)(binp, w, case)

def fit(w, case):
    """The case's runs cut to the files that are left."""
    runs = []
    for run in case["runs"]:
        gen = [g for g in run["gen"] if g in w.sources]
        cl = w.closure(gen, [x for x in run["order"] if x in w.sources])
        order = [x for x in run["order"] if x in cl]
        if not gen or len(order) != len(cl):
            return None
        runs.append(dict(run, gen=gen, order=order))
    return dict(case, runs=runs)

def minimise(prop, binp, S, src, case, what, budget=45):
    t0, n, k = time.time(), 0, cls(what)
    left = lambda: time.time() - t0 < budget
    best = what
    def attempt(s, c):
        nonlocal n, best, src, case
        if case.get("bad") and case["bad"] not in s:
            return False
        w = World(s, S)
        if w.error:
            return False
        c = fit(w, c)
        if not c:
            return False
        if case.get("bad") and (not any("bad_field" in l for l in s[case["bad"]]) or case["bad"] not in c["runs"][-1]["gen"]) and case["kind"] == "bad":
            return False
        n += 1
        v = (judge_c07 if prop == "C07" else judge_c08)(binp, w, c)
        if v and cls(v) == k:
            src, case, best = s, c, v
            return True
        return False
    # fewer requested files
    for g in list(case["runs"][-1]["gen"]):
        c = dict(case, runs=[dict(case["runs"][-1], gen=[x for x in case["runs"][-1]["gen"] if x != g])])
        if c["runs"][0]["gen"] and left():
            w = World(src, S)
            cl = w.closure(c["runs"][0]["gen"], ())
            c["runs"][0]["order"] = [x for x in c["runs"][0]["order"] if x in cl] if case["kind"] != "batch" else c["runs"][0]["order"]
            attempt(src, c)
    # fewer files
    for f in list(src):
        if left() and len(src) > 1:
            s = {p: [l for l in ls if l != 'import "%s";' % f] for p, ls in src.items() if p != f}
            attempt(s, case)
    # fewer lines
    def blocks(ls):
        out, st = [], []
        for i, l in enumerate(ls):
            if l.endswith("{"):
                st.append(i)
            elif l == "}":
                out.append((st.pop(), i + 1))
            elif "validate/validate.proto" in l:
                pass
            elif i > 1:
                out.append((i, i + 1))
        return sorted(out, key=lambda x: x[0] - x[1])
    for f in list(src):
        again = True
        while again and left():
            again = False
            for a, b in blocks(src[f]):
                if not left():
                    break
                if attempt(dict(src, **{f: src[f][:a] + src[f][b:]}), case):
                    again = True
                    break
    # fewer peculiarities of the run
    run = case["runs"][-1]
    for key, plain in (("env", {}), ("cwd", "/"), ("mapseed", 1)):
        if run.get(key) != plain and left():
            attempt(src, dict(case, runs=[dict(case["runs"][-1], **{key: plain})]))
    for part in list(case["runs"][-1]["io"].split(";")):
        if left():
            io = ";".join(x for x in case["runs"][-1]["io"].split(";") if x != part)
            attempt(src, dict(case, runs=[dict(case["runs"][-1], io=io)]))
    return src, case, best, n

RULES = {
    "C07": "seeded program: 1-6 proto files in 4 packages, with cross-file references and colliding names; each file generated alone is the reference, then batches of random files in random order with random map seeds, clocks, environments and read chunking. Distinct: program, language, file order and final state of the runtime's random stream",
    "C08": "seeded program, with a contradictory rule planted in one file, or a stream fault at a random offset, or neither; random batch, order, map seed and chunking. Distinct: program, language, order, fault and final state of the runtime's random stream",
}

def check(prop, q, t):
    S = C.scratch()
    binp = build(S)
    tb = time.time()
    print("build: %.1fs" % (tb - C.T0), flush=True)
    budget = q if C.TIER != "thorough" else t
    # determinism
    for i in range(12):
        r = random.Random(C.mix(C.SEED, "det", i))
        prog = protogen.Prog(r)
        w = World(prog.sources(), S)
        if w.error:
            C.die("the generator wrote a proto file protoc refuses: " + w.error)
        run = make_run(w, r, "go", "lang=go", list(w.sources))
        a, b = execute(binp, w, run), execute(binp, w, run)
        if (a["code"], a["out"], a["state"]) != (b["code"], b["out"], b["state"]):
            C.die("the simulation is not deterministic: two executions of one run differ")
    agg, found = newstats(), []
    with ProcessPoolExecutor(C.CPUS) as ex:
        until = time.time() + budget
        for st, f in ex.map(worker, [(prop, binp, S, k, C.CPUS, until) for k in range(C.CPUS)]):
            for k in ("runs", "skipped", "fired", "programs"):
                agg[k] += st[k]
            for k in ("by_lang", "faults"):
                for a, b in st[k].items():
                    agg[k][a] = agg[k].get(a, 0) + b
            agg["hashes"] |= st["hashes"]
            if f:
                found.append(f)
    wall = max(.001, time.time() - tb)
    if not found and (agg["runs"] < 100 or agg["skipped"] > agg["programs"] / 2):
        C.die("too few runs (%d) or too many skipped programs (%d of %d)" % (agg["runs"], agg["skipped"], agg["programs"]))
    sample = protogen.Prog(random.Random(C.mix(C.SEED, prop, 0))).sources()
    cov = {"evaluations": agg["runs"], "distinct_nontrivial": len(agg["hashes"]), "rule": RULES[prop], "samples": [sample], "seeds": agg["programs"],
           "runs_per_hour": int(agg["runs"] * 3600 / wall), "seeds_per_hour": int(agg["programs"] * 3600 / wall), "runs_by_language": agg["by_lang"],
           "programs_skipped": agg["skipped"], "faults": agg["faults"], "stream_faults_fired": agg["fired"], "determinism_selftest_seeds": 12,
           "simulated_seconds": 0, "simulated_time_note": "the plugin has no timers; its clock is set to a drawn instant per run",
           "distinct_measure": RULES[prop].split("Distinct: ")[1],
           "real": ["the whole plugin binary (module, templates, protoc-gen-star, text/template, protobuf), with yields between the statements of module and templates"],
           "stub": ["protoc's side of the pipe", "runtime random source", "wall clock", "goroutine choice"]}
    nv, path = 0, None
    if prop == "C08" and not found:
        known = [l for l in C.load_known() if l.startswith("known: property=C08 ")]
        said = set()
        for pid, name, src, case, what in probes(binp, S):
            line = [l for l in known if " id=%s " % pid in l]
            if not line or not ("nil pointer" in what or "invalid memory" in what or "error calling" in what or case["kind"] == "bad"):
                found.append((0, (what, src, case)))
            elif pid not in said:
                said.add(pid)
                print("KNOWN-FINDING: property=C08 " + line[0].split(" id=", 1)[1])
        cov["known_findings_seen"] = sorted(said)
        cov["probes"] = len(PROBES)
    if found:
        found.sort()
        _, (what, src, case) = found[0]
        v = verdict(prop, binp, S, src, case)
        if not v:
            C.die("a violation did not replay: " + what)
        src, case, what2, n = minimise(prop, binp, S, src, case, v)
        cov["minimiser_executions"] = n
        nv = 1
        path = C.replay_path(prop, "%x" % (C.mix(json.dumps([src, case], sort_keys=True)) & 0xffffffffff))
        json.dump({"property": prop, "kind": "plugsim", "what": what2, "found": what, "sources": src, "case": case}, open(path, "w"), indent=1)
        what = what2
    C.evidence(prop, "exploration", cov, ASSUME, nv)
    if path:
        C.violation(prop, path, what)
        return 1
    print("%s: %d runs over %d programs (%d distinct) held" % (prop, agg["runs"], agg["programs"], len(agg["hashes"])))
    return 0

ASSUME = ["protoc hands the plugin a request as protoc 3.21 does (file names, parameter, then descriptors in dependency order)",
          "proto files come from a grammar of rule sets known to be consistent, contradictions from a table and from a generator of numeric, text, duration, timestamp and type mismatches; other rule sets are not tried"]

def replay(path):
    d = json.load(open(path))
    S = C.scratch()
    binp = build(S)
    v = verdict(d["property"], binp, S, d["sources"], d["case"])
    if v:
        C.violation(d["property"], path, v)
        return 1
    print("replay: no violation")
    return 0
