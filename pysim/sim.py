"""The Python world: validations by several threads, one running at a time,
switched at any statement or expression by a seeded scheduler, with a simulated clock,
simulated locks and faults at any of those points.

sim.py DS VALIDATOR search MODE BASE FIRST STEP SECONDS | plan MODE BASE I | exec FILE | trace FILE | serve
"""
import sys, os, re, json, ast, time as rtime, threading as rthreading, random, builtins, hashlib, math, struct, types, importlib, gc, weakref
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE + "/stubs")
from google.protobuf import message as pb
import jinja2

sys.setswitchinterval(1000)
DS, SRC = sys.argv[1:3]
POOL = pb.Pool(open(DS, "rb").read())

# ---- scheduler
class Death(BaseException): pass
class Found(BaseException): pass
LIMIT = 3000000       # steps no history comes near
QUIET = [0]
def quiet():
    """A step of a call with nobody else about."""
    QUIET[0] += 1
    if QUIET[0] > LIMIT:
        QUIET[0] = 0
        raise Found("hang: no end after %d steps" % LIMIT)

class Sim:
    """One run. Exactly one of its threads holds the baton."""
    cur = None
    def __init__(self, plan):
        self.plan = plan
        self.rng = random.Random(plan.seed)
        self.permille = plan.permille
        self.explicit = dict(plan.sw) if plan.explicit else None
        self.n = self.switches = 0
        self.taken = []
        self.me = None
        self.state = {}            # thread -> "run" | lock it waits for | "done"
        self.wake = {}
        self.violation = None
        self.off = False
        self.end = rthreading.Event()
        self.clock = plan.clock    # nanoseconds since 1970
        if os.environ.get("TZ") != plan.zone:
            os.environ["TZ"] = plan.zone
            rtime.tzset()
        self.elapsed = 0
        self.tick = plan.tick
        self.jumps = dict(plan.jumps)
        self.njump = 0
        self.spans = {}            # thread -> [[lo, hi], ...] of the clock during its call
        self.fault = {}            # thread -> [kind, countdown]
        self.tfault = {}
        self.took = set()          # threads between lock.acquire() and the statement after it
        self.fired = {}
        self.steps_of = {}
        self.blocks = 0
    def step(self, t, calm=False):
        if self.off: return
        if self.violation: raise Death()
        self.n += 1
        if self.n > LIMIT:
            self.violation = "hang: no end after %d steps" % LIMIT
            raise Death()
        self.clock += self.tick
        self.elapsed += self.tick
        for s in self.spans.values():
            if s: s[-1][1] = self.clock
        j = self.jumps.get(self.n)
        if j is not None:
            self.clock = min(max(self.clock + j, 1000000000), 4700000000 * 10**9)
            self.njump += 1
            for s in self.spans.values(): s.append([self.clock, self.clock])
        if self.explicit is not None:
            to = self.explicit.get(self.n)
            if to is not None and to != t and self.state.get(to) == "run": self.switch(t, to)
        elif self.permille and self.rng.randrange(1000) < self.permille:
            c = [x for x in sorted(self.state) if x != t and self.state[x] == "run"]
            if c:
                to = c[self.rng.randrange(len(c))]
                self.taken.append((self.n, to))
                self.switch(t, to)
        f = self.fault.get(t)
        if f:
            f[1] -= 1
            if f[1] <= 0 and not calm and t not in self.took:
                del self.fault[t]
                self.fired[t] = f[0]
                raise {"mem": MemoryError, "rec": RecursionError, "int": KeyboardInterrupt}[f[0]]("injected")
    def switch(self, t, to):
        self.switches += 1
        self.me = to
        self.wake[to].release()
        self.wait(t)
    def wait(self, t):
        self.wake[t].acquire()
        if self.violation and self.state.get(t) != "done": raise Death()
    def next(self, t):
        """t cannot go on; someone else must."""
        c = [x for x in sorted(self.state) if self.state[x] == "run"]
        if not c:
            if any(s != "done" for s in self.state.values()):
                self.violation = "deadlock: every thread waits for a lock"
                for x in self.state:
                    if x != t: self.wake[x].release()
            if all(s == "done" for s in self.state.values()): self.end.set()
            return None
        if self.explicit is not None:
            to = self.explicit.get(-self.n - 1 - self.blocks * 1000003)
            if to not in c: to = c[0]
        else:
            to = c[self.rng.randrange(len(c))]
        self.taken.append((-self.n - 1 - self.blocks * 1000003, to))
        self.blocks += 1
        return to
    def block(self, t, lock):
        self.state[t] = lock
        to = self.next(t)
        if to is None: raise Death()
        self.me = to
        self.wake[to].release()
        self.wait(t)
    def done(self, t):
        self.state[t] = "done"
        to = self.next(t)
        if to is not None:
            self.me = to
            self.wake[to].release()
        elif self.violation: self.end.set()

IDENT = rthreading.local()
def here():
    s = Sim.cur
    return (s, getattr(IDENT, "t", None)) if s is not None else (None, None)
def point():
    s, t = here()
    if s is not None and t is not None: s.step(t)

# No error is injected where no Python program can defend itself: between lock.acquire() and the try that
# follows it, in a finally block, in __enter__ and __exit__. (The scheduler still switches there.)
# ---- instrumentation: a point at every statement, name, attribute, item, call and comparison
def at(v=None):
    s = Sim.cur
    if s is not None:
        t = getattr(IDENT, "t", None)
        if t is not None: s.step(t)
    else: quiet()
    return v
def calm(v=None):
    s = Sim.cur
    if s is not None:
        t = getattr(IDENT, "t", None)
        if t is not None: s.step(t, True)
    else: quiet()
    return v
def stmt():
    s = Sim.cur
    if s is not None:
        t = getattr(IDENT, "t", None)
        if t is not None:
            s.took.discard(t)
            s.step(t)
    else: quiet()
class Weave(ast.NodeTransformer):
    calm = 0
    def wrap(self, n):
        n = self.generic_visit(n)
        if not isinstance(getattr(n, "ctx", None) or ast.Load(), ast.Load): return n
        return ast.copy_location(ast.Call(ast.copy_location(ast.Name("__calm__" if self.calm else "__at__", ast.Load()), n), [n], []), n)
    visit_Name = visit_Attribute = visit_Subscript = visit_Call = visit_Compare = visit_BinOp = wrap
    def same(self, n): return n
    visit_match_case = visit_arguments = visit_TypeAlias = same
    def visit_AnnAssign(self, n):
        if n.value is not None: n.value = self.visit(n.value)
        return n
    def body(self, n, name):
        out = []
        for i, x in enumerate(getattr(n, name)):
            x, quiet = self.visit(x), self.calm or isinstance(x, ast.Try)
            keep = isinstance(x, (ast.Global, ast.Nonlocal, ast.ImportFrom)) or i == 0 and isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant)
            if not keep: out.append(ast.copy_location(ast.Expr(ast.copy_location(ast.Call(ast.copy_location(ast.Name("__calm__" if quiet else "__stmt__", ast.Load()), x), [], []), x)), x))
            out.append(x)
        setattr(n, name, out)
    def generic_visit(self, n):
        for f, v in ast.iter_fields(n):
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                self.calm += f == "finalbody"
                self.body(n, f)
                self.calm -= f == "finalbody"
            elif isinstance(v, list): setattr(n, f, [self.visit(x) if isinstance(x, ast.AST) else x for x in v])
            elif isinstance(v, ast.AST) and f not in ("annotation", "returns"): setattr(n, f, self.visit(v))
        return n
    def visit_FunctionDef(self, n):
        n.decorator_list, d = [], n.decorator_list
        outer, self.calm = self.calm, int(n.name in ("__enter__", "__exit__"))
        n = self.generic_visit(n)
        self.calm = outer
        n.decorator_list = d
        return n
WOVEN = {}
def weave(src, name, mode="exec"):
    k = src, name, mode
    if k not in WOVEN:
        if len(WOVEN) > 4000: WOVEN.clear()
        WOVEN[k] = compile(ast.fix_missing_locations(Weave().visit(ast.parse(src, name, mode))), name, mode)
    return WOVEN[k]
def run(fn, mode, src, g, l):
    f = sys._getframe(2)
    if g is None: g, l = f.f_globals, l if l is not None else f.f_locals
    if isinstance(src, (str, bytes)):
        at()
        src = weave(src if isinstance(src, str) else src.decode(), "<string>", mode)
    g.setdefault("__builtins__", BUILTINS)
    return fn(src, g, g if l is None else l)
def sexec(src, g=None, l=None): run(builtins.exec, "exec", src, g, l)
def seval(src, g=None, l=None): return run(builtins.eval, "eval", src.strip() if isinstance(src, str) else src, g, l)
def scompile(src, name, mode, *a, **k):
    return weave(src if isinstance(src, str) else src.decode(), name, mode) if isinstance(src, (str, bytes)) and mode in ("exec", "eval") and not a and not k else builtins.compile(src, name, mode, *a, **k)
CODE = weave(open(SRC).read(), SRC)

# ---- what the code under test may import
class SLock:
    reent = False
    def __init__(self): self.owner, self.depth = None, 0
    def acquire(self, blocking=True, timeout=-1):
        s, t = here()
        if t is None:
            if self.owner is not None and not self.reent: raise Found("a lock is still held")
            self.owner, self.depth = "main", self.depth + 1
            return True
        s.step(t)
        if self.reent and self.owner == t:
            self.depth += 1
            return True
        while self.owner is not None:
            if not blocking or timeout is not None and timeout >= 0: return False
            s.block(t, self)
        self.owner, self.depth = t, 1
        s.took.add(t)
        return True
    def release(self):
        s, t = here()
        if self.owner is None: raise RuntimeError("release unlocked lock")
        self.depth -= 1
        if self.reent and self.depth > 0: return
        self.owner, self.depth = None, 0
        if s is not None:
            for x in s.state:
                if s.state[x] is self: s.state[x] = "run"
            if t is not None:
                s.took.discard(t)
                s.step(t, True)
    def locked(self): return self.owner is not None
    def __enter__(self):
        self.acquire()
        s, t = here()
        if t is not None: s.took.discard(t)
        return self
    def __exit__(self, *a): self.release()
class SRLock(SLock): reent = True

def now():
    s, t = here()
    if s is None: return Quiet.clock
    if t is not None: s.step(t)
    return s.clock
class Quiet: clock = 1500000000 * 10**9
def mono():
    s, t = here()
    if s is None: return 0
    if t is not None: s.step(t)
    return s.elapsed
def mod(name, base, **k):
    m = types.ModuleType(name)
    for a in dir(base):
        if not a.startswith("__"): setattr(m, a, getattr(base, a))
    for a, b in k.items(): setattr(m, a, b)
    return m
STIME = mod("time", rtime, time=lambda: now() / 1e9, time_ns=now, monotonic=lambda: mono() / 1e9, monotonic_ns=mono, perf_counter=lambda: mono() / 1e9, perf_counter_ns=mono, sleep=lambda s: point(),
            gmtime=lambda s=None: rtime.gmtime(now() / 1e9 if s is None else s), localtime=lambda s=None: rtime.localtime(now() / 1e9 if s is None else s),
            clock_gettime=lambda c: (mono if c == rtime.CLOCK_MONOTONIC else now)() / 1e9, clock_gettime_ns=lambda c: (mono if c == rtime.CLOCK_MONOTONIC else now)(),
            ctime=lambda s=None: rtime.ctime(now() / 1e9 if s is None else s), strftime=lambda f, *t: rtime.strftime(f, *(t or (rtime.localtime(now() / 1e9),))))
import datetime as rdatetime
class SDateTime(rdatetime.datetime):
    @classmethod
    def now(cls, tz=None): return rdatetime.datetime.fromtimestamp(now() / 1e9, tz)
    @classmethod
    def utcnow(cls): return rdatetime.datetime.fromtimestamp(now() / 1e9, rdatetime.timezone.utc).replace(tzinfo=None)
    @classmethod
    def today(cls): return cls.now()
SDATETIME = mod("datetime", rdatetime, datetime=SDateTime)
STHREADING = mod("threading", rthreading, Lock=SLock, RLock=SRLock, get_ident=lambda: getattr(IDENT, "t", 0) or 0)
class Addresses:
    """id(): the address of an object. A new object takes that of the one that went last, as allocators like to do."""
    def __init__(self): self.known, self.free, self.n = {}, [], 0
    def dead(self):
        for k in [k for k, (w, a) in self.known.items() if w() is None]: self.free.append(self.known.pop(k)[1])
    def of(self, o):
        e = self.known.get(id(o))
        if e is not None and e[0]() is o: return e[1]
        if e is not None:
            del self.known[id(o)]
            self.free.append(e[1])
        if self.free and isinstance(o, pb.Message): a = self.free.pop()
        else:
            self.n += 1
            a = 140000000000000 + 16 * self.n
        try: w = weakref.ref(o)
        except TypeError: w = lambda: o
        self.known[id(o)] = w, a
        return a
ADDR = [Addresses()]
def sid(o): return ADDR[0].of(o)
SIMMODS = {"time": STIME, "datetime": SDATETIME, "threading": STHREADING}
def simport(name, g=None, l=None, fromlist=(), level=0):
    if level == 0 and name in SIMMODS: return SIMMODS[name]
    return builtins.__import__(name, g, l, fromlist, level)
BUILTINS = dict(vars(builtins), __import__=simport, __at__=at, __calm__=calm, __stmt__=stmt, id=sid, exec=sexec, eval=seval, compile=scompile)

def render_fault():
    s, t = here()
    if s is None or t is None or s.off: return
    f = s.tfault.get(t)
    if f:
        f[0] -= 1
        if f[0] <= 0:
            del s.tfault[t]
            s.fired[t] = "render"
            raise MemoryError("injected")
jinja2.Template.fault = staticmethod(render_fault)

NMOD = [0]
def load():
    NMOD[0] += 1
    ADDR[0] = Addresses()
    m = types.ModuleType("validator_%d" % NMOD[0])
    m.__file__ = SRC
    m.__dict__["__builtins__"] = BUILTINS
    exec(CODE, m.__dict__)
    return m

# ---- messages
def rules(f):
    for x, v in f.GetOptions().ListFields():
        if x.full_name == "validate.rules": return v
    return None
def numbers(r, kind, t):
    v = getattr(r, kind) if r is not None and r.HasField(kind) else None
    out = []
    if v is not None:
        for f, x in v.ListFields():
            if f.name in ("in", "not_in"): out += [y for y in x] + [x[0] + 1]
            elif f.name != "ignore_empty": out += [x, x, x - 1, x + 1]
    out = out + [0, 5] if out else [0, 1, -1, 3]
    unsigned = kind in ("uint32", "uint64", "fixed32", "fixed64")
    if unsigned: out = [x for x in out if x >= 0]
    return [float(x) for x in out] if t in (1, 2) else out
def strings(r):
    s = r.string if r is not None and r.HasField("string") else None
    out, pre, suf, con = [], "", "", ""
    for f, x in s.ListFields() if s is not None else ():
        n = f.name
        if n == "const": out += [x, x]
        elif n in ("in", "not_in"): out += list(x)
        elif n == "prefix": pre = x
        elif n == "suffix": suf = x
        elif n == "contains": con = x
        elif n == "not_contains": out.append(x)
        elif n in ("len", "min_len", "max_len"): out += ["abcdefghijk"[:x % 12], "abcdefghijk"[:(x + 1) % 12], "\u00e9\U0001f600zyxwvut"[:x % 8]]
        elif n in ("len_bytes", "min_bytes", "max_bytes"): out += ["q" * x, "q" * (x + 1), "\u00e9" * (x // 2)]
        else:
            out += {"pattern": ["abc", "abc1", "aaa", "a1b", "Abc", "xyz"], "email": ["a@example.com", "Foo <foo@bar.com>", "no email", "a@b@c"], "hostname": ["example.com", "ex_ample.com", "a-.com", "host", "host."],
                    "ip": ["1.2.3.4", "::1", "1.2.3"], "ipv4": ["1.2.3.4", "300.1.1.1", "::1"], "ipv6": ["::1", "fe80::1:2", "1.2.3.4"], "uri": ["http://a.b/c", "/rel", "http://a.b"], "uri_ref": ["http://a.b/c", "/rel", "#x"],
                    "address": ["example.com", "1.2.3.4", "::1", "not valid!", "host_"], "uuid": ["00000000-0000-0000-0000-000000000000", "0123abcd", "0123ABCD-ef01-2345-6789-abcdefabcdef", "zz"],
                    "well_known_regex": ["Host", "x-y", "a b", ":path", "v\u0001", "x\n"]}.get(n, [])
    if pre or suf or con: out += [pre + con + suf] * 3 + [pre + suf, con]
    return (out or ["a", "bc", "def"]) + ["", "hello"]
def blobs(r):
    s = r.bytes if r is not None and r.HasField("bytes") else None
    out, pre, suf, con = [], b"", b"", b""
    for f, x in s.ListFields() if s is not None else ():
        n = f.name
        if n == "const": out += [x, x]
        elif n in ("in", "not_in"): out += list(x)
        elif n == "prefix": pre = x
        elif n == "suffix": suf = x
        elif n == "contains": con = x
        elif n in ("len", "min_len", "max_len"): out += [b"x" * x, b"x" * (x + 1)]
        elif n == "pattern": out += [b"xyz", b"abc", b"xx"]
        elif n in ("ip", "ipv4", "ipv6"): out += [b"\1\2\3\4", b"\0" * 16, b"\1\2"]
    if pre or suf or con: out += [pre + con + suf] * 2 + [pre + suf]
    return (out or [b"a", b"bc"]) + [b"", b"\xff"]
def deep(rng, d):
    """May a message at this depth hold others? Messages are three levels deep, once in a while many more."""
    if not hasattr(rng, "levels"): rng.levels, rng.nodes = 12 if rng.random() < .05 else 3, 0
    rng.nodes += 1
    return d < rng.levels and (rng.levels == 3 or rng.nodes < 60)
def size(rng, n, d): return rng.randrange(9, 60) if d == 0 and rng.random() < .02 else rng.randrange(n)
KIND = {1: "double", 2: "float", 3: "int64", 4: "uint64", 5: "int32", 6: "fixed64", 7: "fixed32", 13: "uint32", 15: "sfixed32", 16: "sfixed64", 17: "sint32", 18: "sint64"}
UNBOX = {"StringValue": 9, "BytesValue": 12, "BoolValue": 8, "Int32Value": 5, "Int64Value": 3, "UInt32Value": 13, "UInt64Value": 4, "FloatValue": 2, "DoubleValue": 1}
def value(t, f, r, rng, d):
    if t == 9:
        s = rng.choice(strings(r))
        return "%d" % rng.randrange(1000) + s * rng.randrange(1, 40) if rng.random() < .03 else s
    if t == 12: return rng.choice(blobs(r))
    if t == 8: return rng.random() < .8
    if t == 14: return rng.choice([v.number for v in f.enum_type.values] * 2 + [77])
    if t == 11:
        n = f.message_type.full_name
        w = n.rpartition(".")[2]
        m = POOL.cls(n)()
        if n.startswith("google.protobuf."):
            if w in ("Timestamp", "Duration"):
                k = w.lower()
                x = getattr(r, k) if r is not None and r.HasField(k) else None
                c = []
                for g, y in x.ListFields() if x is not None else ():
                    for z in y if isinstance(y, list) else [y]:
                        if isinstance(z, pb.Message): c += [(z.seconds, z.nanos)] * 2 + [(z.seconds + 1, z.nanos), (z.seconds - 1, z.nanos)]
                m.seconds, m.nanos = rng.choice(c or [(0, 0), (5, 1), (-3, 0), (1500000000, 0)])
            elif w == "Any":
                x = list(getattr(r.any, "in")) + list(r.any.not_in) if r is not None else []
                m.type_url = rng.choice(x * 2 + ["type.googleapis.com/other.T"])
            elif w in UNBOX:
                m.value = value(UNBOX[w], f.message_type.fields[0], r, rng, d)
            return m
        return make(n, rng, d + 1)
    return rng.choice(numbers(r, KIND[t], t))
def make(cls, rng, d=0):
    """A message filled from a source of choices, mostly near the edges of its rules."""
    m = POOL.cls(cls)()
    oneofs = {}
    for f in POOL.messages[cls].fields:
        r = rules(f)
        inner = f.message_type is not None and not f.message_type.full_name.startswith("google.protobuf.")
        if f.is_map:
            kf, vf = f.message_type.fields
            kept = vf.message_type is not None
            if not (kept and not deep(rng, d)) and rng.random() < .7:
                x = pb.Map()
                rr = r.map if r is not None and r.HasField("map") else None
                n = size(rng, 3 if kept else 5, d)
                if n > 8 and rng.random() < .7:
                    # a crowd of entries like one another, and often one that differs
                    k = value(kf.type, kf, rr.keys if rr is not None and rr.HasField("keys") else None, rng, d)
                    v = value(vf.type, vf, getattr(rr, "values") if rr is not None and rr.HasField("values") else None, rng, d)
                    for i in range(n): x[k + i if isinstance(k, (int, float)) and not isinstance(k, bool) else k + "%d" % i if isinstance(k, str) else k] = v
                    n = rng.randrange(3)
                for _ in range(n):
                    k = value(kf.type, kf, rr.keys if rr is not None and rr.HasField("keys") else None, rng, d)
                    x[k] = value(vf.type, vf, getattr(rr, "values") if rr is not None and rr.HasField("values") else None, rng, d)
                if len(x) > 8:
                    l = list(x.items())
                    rng.shuffle(l)
                    x = pb.Map(l)
                m._v[f.name] = x
        elif f.label == 3:
            if not (inner and not deep(rng, d)) and rng.random() < .75:
                rr = r.repeated if r is not None and r.HasField("repeated") else None
                m._v[f.name] = pb.Repeated(value(f.type, f, getattr(rr, "items") if rr is not None and rr.HasField("items") else None, rng, d) for _ in range(size(rng, 3 if inner else 5, d)))
        elif f.containing_oneof is not None:
            oneofs.setdefault(f.containing_oneof.name, []).append((f, r, inner))
        elif not (inner and not deep(rng, d)) and rng.random() < (.55 if inner else .85):
            m._set(f, value(f.type, f, r, rng, d))
    for n in sorted(oneofs):
        f, r, inner = rng.choice(oneofs[n])
        if rng.random() < .8 and not (inner and not deep(rng, d)): m._set(f, value(f.type, f, r, rng, d))
    return m
def raw(cls, seed): return make(cls, random.Random("%s %d" % (cls, seed)))
def shuffle(m, k):
    """Puts the entries of all maps in another order."""
    for n, v in m._v.items():
        if isinstance(v, dict):
            for x in v.values():
                if isinstance(x, pb.Message): shuffle(x, k)
            l = list(v.items())
            random.Random("%d %d" % (k, len(l))).shuffle(l)
            m._v[n] = pb.Map(l)
        else:
            for x in v if isinstance(v, list) else [v]:
                if isinstance(x, pb.Message): shuffle(x, k)
def build(cls, seed, recipe):
    m = raw(cls, seed)
    for w in recipe.split(","):
        if w and w[0] == "*":
            # many entries like a map's first, and one of another message's
            n, s = w[1:].split("=")
            k, s = map(int, s.split(":"))
            x, o = m._v.get(n), raw(cls, s)._v.get(n)
            if x:
                a, v = next(iter(x.items()))
                l = [(a + i if isinstance(a, (int, float)) and not isinstance(a, bool) else a + "%d" % i if isinstance(a, str) else a, v) for i in range(k)]
                m._v[n] = pb.Map(l + list((o or {}).items())[:1])
        elif w and w != "-" and w[0] != "^":
            n, s = w.split("=")
            put(m, raw(cls, int(s)), n)
    if "^" in recipe: shuffle(m, int(recipe.split("^")[1]))
    return m
def put(m, o, n):
    f = m.DESCRIPTOR.fields_by_name[n]
    if n in o._v: m._set(f, o._v[n])
    else: m._v.pop(n, None)
def words(e):
    return "ok" if e is None else "%s: %s" % (type(e).__name__, e)
def call(m, x):
    QUIET[0] = 0
    try:
        m.validate(x)
        return None
    except (Death, Found): raise
    except BaseException as e:
        return e
RECIPE, ALONE = {}, {}
recipe_mod = [None, 0]
def recipe(cls, seed):
    k = cls, seed
    if k not in RECIPE:
        if recipe_mod[0] is None: recipe_mod[0] = load()
        r = random.Random("recipe %s %d" % k)
        m, out = raw(cls, seed), []
        fs = sorted(f.name for f in POOL.messages[cls].fields)
        goal = 1000 if r.random() < .6 else r.randrange(1, 12)
        w, seen = words(call(recipe_mod[0], m)), set()
        for _ in range(250):
            if w == "ok" or goal <= 0 or not fs: break
            n = r.choice(fs)
            for g in fs:
                if r.random() < .8 and (("p." + g) in w or (g + " ") in w): n = g
            a = 100000 + r.randrange(100000)
            old = m._v.get(n)
            o = raw(cls, a)
            before = dict(m._v)
            put(m, o, n)
            w2 = words(call(recipe_mod[0], m))
            if w2 == "ok" or w2 != w and r.random() < .4 or w2 not in seen:
                seen.add(w2); out.append("%s=%d" % (n, a)); w = w2; goal -= 1
            else:
                m._v.clear(); m._v.update(before)
        RECIPE[k] = ",".join(out) or "-"
    return RECIPE[k]
SHOWN = {}
def alone(cls, seed, rec):
    k = cls, seed, rec
    if k not in ALONE:
        m = load()
        ALONE[k] = words(call(m, build(cls, seed, rec)))
        if cls not in SHOWN and hasattr(m, "print_validate"):
            # the code printed for this class: up to the next class's
            SHOWN[cls] = ""
            p = POOL.cls(cls)()
            m = load()
            call(m, p)
            w = re.split(r"(?m)^(?=# Validates )", m.print_validate())
            SHOWN[cls] = next((x for x in w if x.startswith("# Validates %s\n" % p.DESCRIPTOR.name)), "")
    return ALONE[k]

# ---- plans
class Plan: pass
def parse(text):
    p = Plan()
    p.threads, p.permille, p.seed, p.clock, p.tick, p.explicit = 1, 0, 0, 1500000000 * 10**9, 1000, False
    p.sw, p.jumps, p.msgs, p.ops, p.text, p.zone = [], [], [], [], text, "UTC0"
    for l in text.splitlines():
        w = l.split()
        if not w: continue
        if w[0] == "mode": p.mode = w[1]
        elif w[0] in ("threads", "permille", "seed", "clock", "tick"): setattr(p, w[0], int(w[1]))
        elif w[0] == "explicit": p.explicit = True
        elif w[0] == "zone": p.zone = w[1]
        elif w[0] == "sw": p.sw.append((int(w[1]), int(w[2])))
        elif w[0] == "jump": p.jumps.append((int(w[1]), int(w[2])))
        elif w[0] == "msg": p.msgs.append(w[1:])
        elif w[0] == "op": p.ops.append(w[1:])
        else: raise ValueError(l)
    return p
CLASSES = ["sim.pa.Numbers", "sim.pa.Strings", "sim.pa.Hosts", "sim.pa.Wrapped", "sim.pa.Spans", "sim.pa.Maps", "sim.pa.Lists", "sim.pa.Node", "sim.pa.Node", "sim.pa.Node.Inner", "sim.pa.Node.Inner.Deep", "sim.pa.Item", "sim.pa.Box", "sim.pa.Box.Item",
           "sim.pc.Item", "sim.pc.Box", "sim.pc.Box.Item", "sim.pc.Off", "sim.pc.Ign", "sim.pc.Plain", "sim.pc.Strings", "sim.pc.Lists", "sim.pc.Hosts"]
SAME = ["sim.pa.Item", "sim.pa.Box.Item", "sim.pc.Item", "sim.pc.Box.Item", "sim.pa.Box", "sim.pc.Box", "sim.pa.Strings", "sim.pc.Strings", "sim.pa.Lists", "sim.pc.Lists", "sim.pa.Hosts", "sim.pc.Hosts"]
def crowd(r, c):
    """Sometimes: one of the message's maps made big."""
    fs = sorted(f.name for f in POOL.messages[c].fields if f.is_map)
    return ",*%s=%d:%d" % (r.choice(fs), r.randrange(2, 50), r.randrange(100000)) if fs and r.random() < .5 else ""
def gen25(r):
    L = ["mode c25"]
    th = r.choice([1, 2, 2, 2, 3, 3, 4])
    L += ["threads %d" % th, "permille %d" % r.choice([0, 5, 20, 60, 150, 400] if th > 1 else [0]), "seed %d" % r.getrandbits(40)]
    many = r.random() < .02
    pool = SAME if r.random() < .3 else CLASSES
    maps = r.random() < .08
    if maps: pool = ["sim.pa.Maps", "sim.pa.Maps", "sim.pa.Hosts"]
    n = r.randrange(1, 6)
    for _ in range(n):
        c, s = r.choice(pool), r.randrange(1, 400)
        L.append("msg %s %d %s" % (c, s, (recipe(c, s) if s % 2 else "-") + (crowd(r, c) + ",^%d" % r.randrange(1, 7) if r.random() < (.9 if maps else .3) and c.rpartition(".")[2] in ("Maps", "Node", "Hosts") else "")))
    if many:
        for k in range(135): L.append("msg sim.many.M%d %d -" % (k, r.randrange(4)))
        n += 135
    errs = r.random() < .35
    ops = []
    anew = r.random() < .3
    for _ in range(r.randrange(2, 10) if r.randrange(70) else r.randrange(40, 250)):
        if anew and r.random() < .4:
            i = r.randrange(n)
            c, s = L[4 + i].split()[1], r.randrange(1, 400)
            ops.append("op %d %s %d %d %s" % (r.randrange(th), r.choice(["chg", "new"]), i, s, recipe(c, s) if s % 2 else "-"))
            continue
        e = ""
        if errs and r.random() < .3: e = " err=%s:%d" % (r.choice(["mem", "rec", "int"]), r.choice([r.randrange(1, 15), r.randrange(1, 80), r.randrange(1, 600), r.randrange(1, 3000)]))
        elif errs and r.random() < .2: e = " tmpl=%d" % r.randrange(1, 12)
        ops.append("op %d val %d%s" % (r.randrange(th), r.randrange(n), e))
    if many:
        for k in range(135): ops.append("op %d val %d" % (r.randrange(th), n - 135 + k))
        ops += ["op %d val %d" % (r.randrange(th), r.randrange(n)) for _ in range(8)]
    return "\n".join(L + ops) + "\n"
NOW = ["Before", "After", "Near", "NearFine", "NearFar", "Recent", "Soon", "Must", "Group"]
EDGE = [0, 0, 1, -1, 1000, -1000, 10**6, -10**6, 250 * 10**6, -250 * 10**6, 10**9, -10**9, 2 * 10**9, -2 * 10**9, 5 * 10**9, -5 * 10**9, 60 * 10**9, -60 * 10**9, 3600 * 10**9, -3600 * 10**9, 2 * 10**18 + 1, -2 * 10**18 - 1]
ZONES = ["EST5EDT,M3.2.0,M11.1.0", "IST-5:30", "XXX-14", "CET-1CEST,M3.5.0,M10.5.0/3"]     # the machine's time zone
def gen15(r):
    th = r.choice([1, 1, 2, 3])
    clock = r.choice([r.randrange(31536000, 4700000000), 1500000000, 1700000000]) * 10**9 + r.choice([0, 1, 999999999, r.randrange(10**9)])
    tick = r.choice([0, 1, 1000, 300000, 10**6, 50 * 10**6])
    L = ["mode c15", "threads %d" % th, "permille %d" % (0 if th == 1 else r.choice([0, 20, 100, 300])), "seed %d" % r.getrandbits(40), "clock %d" % clock, "tick %d" % tick]
    if r.random() < .6: L.append("zone " + r.choice(ZONES))
    n = r.randrange(2, 12) if r.randrange(70) else r.randrange(40, 200)
    for _ in range(r.choice([0, 0, 1, 2, 4])):
        L.append("jump %d %d" % (r.choice([r.randrange(1, 400), r.randrange(1, 4000), r.randrange(1, 30000)]), r.choice([-1, 1]) * r.choice([1, 10**6, 10**9, 2 * 10**9, 5 * 10**9, 61 * 10**9, 3600 * 10**9, 86400 * 10**9, 3 * 10**16])))
    for _ in range(n):
        # relative to the clock at the call, or absolute
        if r.random() < .85:
            e = r.choice(EDGE)
            w = "r%d" % (e + r.choice([0, 0, 1000, -1000, 10**5, -10**5, 10**6, -10**6, 10**8, -10**8]))
        else: w = "a%d" % (r.randrange(-62135596800, 253402300800) * 10**9 + r.choice([0, 999999999]))
        L.append("op %d now %s %s" % (r.randrange(th), r.choice(NOW), w))
    return "\n".join(L) + "\n"
GEN = {"c25": gen25, "c15": gen15}

# ---- now rules: the model
WITHIN = {"Near": 5 * 10**9, "NearFine": 25 * 10**7, "NearFar": 2 * 10**18 + 1, "Recent": 60 * 10**9, "Soon": 3600 * 10**9}
RULE = {"Before": ["lt"], "After": ["gt"], "Near": ["w"], "NearFine": ["w"], "NearFar": ["w"], "Recent": ["lt", "w"], "Soon": ["gt", "w"], "Must": ["lt"]}
def can(rule, win, ts, spans):
    """(can be satisfied, can be violated) by some instant the clock went through, with a margin for floating point."""
    yes = no = False
    for lo, hi in spans:
        m = max(abs(ts), abs(lo), abs(hi), win or 0) / 1e9
        e = int(8 * math.ulp(m) * 1e9) + 2
        lo, hi = lo - e, hi + e
        if rule == "lt":
            if ts < hi: yes = True
            if ts >= lo: no = True
        elif rule == "gt":
            if ts > lo: yes = True
            if ts <= hi: no = True
        else:
            # |now - ts| <= win, either at equality
            d = [abs(lo - ts), abs(hi - ts)]
            near = 0 if lo <= ts <= hi else min(d)
            if near <= win + e: yes = True
            if max(d) >= win - e: no = True
    return yes, no
def ts_msg(ns, cls="google.protobuf.Timestamp"):
    m = POOL.cls(cls)()
    m.seconds, m.nanos = ns // 10**9, ns % 10**9
    return m

# ---- one run
KNOWN = ("ValidationFailed",)
def execute(text, stats=None):
    try: return execute_(text, stats)
    except Found as e:
        # in a call made to learn the answer a message gets alone
        Sim.cur = None
        v = "alone: %s" % e
        return v, hashlib.blake2b(v.encode(), digest_size=8).hexdigest(), [], None
def execute_(text, stats):
    plan = parse(text)
    sim = Sim(plan)
    Sim.cur = None
    mod = load()
    hist = hashlib.blake2b(digest_size=8)
    msgs = [build(c, int(s), rec) for c, s, rec in plan.msgs]
    want = [alone(c, int(s), rec) for c, s, rec in plan.msgs] if plan.mode == "c25" else []
    ahead = {}
    for o in plan.ops:
        if o[1] in ("chg", "new") and int(o[2]) < len(msgs):
            k = plan.msgs[int(o[2])][0], int(o[3]), o[4]
            ahead[k] = alone(*k)
    ADDR[0] = Addresses()
    snap = [str(m) for m in msgs]
    busy = [0] * len(msgs)
    first = list(want)
    st = {"ops": 0, "accepted": 0, "rejected": 0, "either": 0}
    log = []
    def fail(what):
        if sim.violation is None: sim.violation = what
        raise Death()
    def op25(t, w):
        i = int(w[0])
        if i >= len(msgs): return
        for x in w[1:]:
            k, v = x.split("=")
            if k == "err": sim.fault[t] = [v.split(":")[0], int(v.split(":")[1])]
            else: sim.tfault[t] = [int(v)]
        busy[i] += 1
        got = words(call(mod, msgs[i]))
        busy[i] -= 1
        f = sim.fired.pop(t, None)
        sim.fault.pop(t, None); sim.tfault.pop(t, None)
        if sim.violation: raise Death()
        log.append("%d %d %s" % (t, i, got))
        st["ops"] += 1
        if f:
            st["fault_" + f] = st.get("fault_" + f, 0) + 1
            if got in ("MemoryError: injected", "RecursionError: injected", "KeyboardInterrupt: injected", want[i]): return
            fail("op %d val %s (%s): %s after an injected %s, where the fault or the answer %s was expected" % (t, " ".join(w), plan.msgs[i][0], got, f, want[i]))
        st["accepted" if got == "ok" else "rejected"] += 1
        if got != want[i]: fail("op %d val %s (%s): %s, where alone it gives %s" % (t, " ".join(w), plan.msgs[i][0], got, want[i]))
    def opchg(t, w, new=False):
        """The application fills a message anew, or drops it for a new one."""
        i = int(w[0])
        if i >= len(msgs) or busy[i]: return
        k = plan.msgs[i][0], int(w[1]), w[2]
        if str(msgs[i]) != snap[i]: fail("msg %d (%s) was modified: %r became %r" % (i, k[0], snap[i], str(msgs[i])))
        if new:
            msgs[i] = None
            ADDR[0].dead()
            msgs[i] = build(*k)
            sid(msgs[i])
        else:
            m = build(*k)
            msgs[i]._v.clear()
            msgs[i]._v.update(m._v)
            ADDR[0].dead()
        snap[i], want[i] = str(msgs[i]), ahead[k]
        st["renewed"] = st.get("renewed", 0) + 1
    def opnew(t, w): opchg(t, w, True)
    def op15(t, w):
        c, k = w[0], w[1]
        sim.step(t)
        ts = int(k[1:]) + (sim.clock if k[0] == "r" else 0)
        ts = min(max(ts, -62135596800 * 10**9), 253402300799 * 10**9 + 999999999)
        T = ts_msg(ts)
        m = POOL.cls("sim.pn." + c)()
        checks = []
        if c == "Group":
            z = ts % 5
            if z == 0: m._v["ts"] = pb.Repeated([ts_msg(0), T]); checks = [("lt", None, 0), ("lt", None, ts)]
            elif z == 1: m._v["tm"] = pb.Map({1: T}); checks = [("gt", None, ts)]
            elif z == 2: m._set(m.DESCRIPTOR.fields_by_name["a"], T); checks = [("w", 2 * 10**9, ts)]
            elif z == 3: m._set(m.DESCRIPTOR.fields_by_name["b"], T); checks = [("lt", None, ts)]
            else: m._v["ts"] = pb.Repeated([T]); m._set(m.DESCRIPTOR.fields_by_name["b"], ts_msg(ts)); checks = [("lt", None, ts)] * 2
        else:
            m._v["t"] = T
            checks = [(x, WITHIN.get(c), ts) for x in RULE[c]]
        sim.spans[t] = [[sim.clock, sim.clock]]
        e = call(mod, m)
        if sim.violation: raise Death()
        spans = sim.spans.pop(t)
        got = words(e)
        log.append("%d %s %s" % (t, " ".join(w), got))
        st["ops"] += 1
        cs = [can(r, win, x, spans) for r, win, x in checks]
        ok, bad = all(a for a, _ in cs), any(b for _, b in cs)
        if ok and bad: st["either"] += 1
        clk = "with the clock at " + ", ".join("%d.%09d..%d.%09d" % (a // 10**9, a % 10**9, b // 10**9, b % 10**9) for a, b in spans)
        where = "op %d now %s = %d.%09d, %s" % (t, " ".join(w), ts // 10**9, ts % 10**9, clk)
        if e is None:
            st["accepted"] += 1
            if not ok: fail(where + ": accepted, though it breaks its rules at every moment of the call")
        elif type(e).__name__ == "ValidationFailed":
            st["rejected"] += 1
            if not bad: fail(where + ": rejected (%s), though it meets its rules at every moment of the call" % e)
        else: fail(where + ": " + got)
    OP = {"val": op25, "chg": opchg, "new": opnew, "now": op15}
    todo = {t: [] for t in range(plan.threads)}
    for o in plan.ops:
        if int(o[0]) in todo: todo[int(o[0])].append(o[1:])
    errors = []
    def body(t):
        IDENT.t = t
        try:
            sim.wake[t].acquire()
            for o in todo[t]:
                if sim.violation: break
                sim.step(t)
                OP[o[0]](t, o[1:])
        except Death: pass
        except Found as e:
            if sim.violation is None: sim.violation = str(e)
        except BaseException as e:
            import traceback
            errors.append(traceback.format_exc())
            sim.violation = sim.violation or "internal"
        finally:
            IDENT.t = None
            sim.done(t)
    for t in todo:
        sim.state[t] = "run"
        sim.wake[t] = rthreading.Semaphore(0)
    ths = [rthreading.Thread(target=body, args=(t,), daemon=True) for t in todo]
    Sim.cur = sim
    for t in ths: t.start()
    sim.wake[0].release()
    if not sim.end.wait(120):
        print("HANG\n" + text, flush=True)
        os._exit(3)
    if sim.violation:
        for t in todo: sim.wake[t].release()
    for t in ths: t.join(20)
    sim.off = True
    Sim.cur = None
    if errors:
        print("INTERNAL " + errors[0] + "\n" + text, flush=True)
        os._exit(3)
    v = sim.violation
    if plan.mode == "c25":
        for (c, s, rec), w in zip(plan.msgs, first):
            if "^" in rec and v is None:
                st["maps"] = st.get("maps", 0) + 1
                o = alone(c, int(s), rec.split(",^")[0])
                if o.split(":")[0] != w.split(":")[0]: v = "the map order decides: %s %s %s gives %s, and in another order of its maps' entries %s" % (c, s, rec, w, o)
    if v is None:
        for i, m in enumerate(msgs):
            if str(m) != snap[i]: v = "msg %d (%s) was modified: %r became %r" % (i, plan.msgs[i][0], snap[i], str(m)); break
    if v is None and plan.mode == "c25":
        try:
            for i, m in enumerate(msgs):
                got = words(call(mod, m))
                if got != want[i]: v = "afterwards, msg %d (%s): %s, where alone it gives %s" % (i, plan.msgs[i][0], got, want[i]); break
            shown = mod.print_validate() if hasattr(mod, "print_validate") else ""
            for c, _, _ in plan.msgs:
                if v is None and SHOWN[c] and SHOWN[c] not in shown: v = "afterwards, print_validate lacks the code generated for %s" % c
        except Found as e: v = "afterwards: %s" % e
    for l in log + [str(sim.n), str(v)]: hist.update(l.encode() + b"\n")
    ls = [l for l in text.splitlines() if not l.startswith(("sw ", "explicit", "seed ", "permille "))]
    h2 = hist.hexdigest()
    if stats is not None:
        for k, x in st.items(): stats[k] = stats.get(k, 0) + x
        for k, x in (("steps", sim.n), ("switches", sim.switches), ("jumps", sim.njump), ("blocks", sum(1 for a, _ in sim.taken if a < 0)), ("multi", 1 if sim.switches else 0), ("simns", sim.elapsed)):
            stats[k] = stats.get(k, 0) + x
        hk = hashlib.blake2b(("\n".join(ls) + repr(sim.taken)).encode(), digest_size=8).digest()
        return v, h2, sim.taken, hk
    return v, h2, sim.taken, None

def mix(*a): return int.from_bytes(hashlib.blake2b(" ".join(map(str, a)).encode(), digest_size=8).digest(), "big")
def make_plan(mode, base, i): return GEN[mode](random.Random(mix(mode, base, i)))
def explicit(text, taken):
    return "".join(l + "\n" for l in text.splitlines() if not l.startswith(("explicit", "sw "))) + "explicit\n" + "".join("sw %d %d\n" % x for x in taken)

def main():
    gc.disable()
    a = sys.argv[3:]
    if a[0] == "plan":
        sys.stdout.write(make_plan(a[1], a[2], int(a[3])))
    elif a[0] in ("exec", "trace"):
        text = open(a[1]).read()
        v, h, taken, _ = execute(text)
        if a[0] == "trace": sys.stdout.write(explicit(text, taken))
        else: print("RESULT %s\nHASH %s" % (v or "ok", h))
    elif a[0] == "serve":
        buf = []
        for l in sys.stdin:
            if l.strip() in ("END", "TRACE"):
                text = "".join(buf)
                buf = []
                v, h, taken, _ = execute(text)
                if l.strip() == "TRACE": sys.stdout.write(explicit(text, taken))
                print("RESULT %s" % (v or "ok"), flush=True)
            else: buf.append(l)
    elif a[0] == "search":
        mode, base, first, stride, secs = a[1], a[2], int(a[3]), int(a[4]), float(a[5])
        end = rtime.monotonic() + secs
        i, stats, seen, found = first, {"runs": 0}, set(), None
        while rtime.monotonic() < end:
            text = make_plan(mode, base, i)
            v, h, taken, hk = execute(text, stats)
            stats["runs"] += 1
            seen.add(hk)
            if len(ALONE) > 20000: ALONE.clear()
            if stats["runs"] % 50 == 0: gc.collect()
            if v:
                found = i, v, text
                break
            i += stride
        stats["distinct"] = len(seen)
        print("STATS " + json.dumps(stats))
        if found: print("FOUND %d %s\n%sEND" % found)
if __name__ == "__main__": main()
