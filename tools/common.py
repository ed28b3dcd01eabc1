"""Shared pieces of the checks: building from /repo, worker pools, replay
files, evidence."""
import hashlib, json, os, shutil, subprocess, sys, tempfile, time, atexit, signal

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
CPUS = os.cpu_count() or 4
T0 = time.time()

_scratch = []

def scratch(prefix="pgvsim"):
    d = tempfile.mkdtemp(prefix=prefix + ".", dir="/tmp")
    _scratch.append(d)
    return d

@atexit.register
def _clean():
    for d in _scratch:
        shutil.rmtree(d, ignore_errors=True)

def _term(*_):
    sys.exit(3)
signal.signal(signal.SIGTERM, _term)

class BuildError(Exception):
    pass

def die(msg):
    """Trouble of the check itself: neither held nor broken."""
    print("ERROR: " + msg, flush=True)
    sys.exit(2)

def sh(cmd, cwd=None, env=None, timeout=800, ok=(0,), what=None, input=None):
    p = subprocess.run(cmd, cwd=cwd, env=env, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, input=input)
    if p.returncode not in ok:
        raise BuildError("%s failed (%d): %s\n%s" % (what or cmd, p.returncode, cmd, p.stdout.decode(errors="replace")[-6000:]))
    return p.stdout

def cache_dir():
    d = os.path.join(VERIF, ".cache")
    try:
        os.makedirs(d, exist_ok=True)
        t = tempfile.NamedTemporaryFile(dir=d)
        t.close()
        return d
    except OSError:
        return scratch("pgvsim-cache")

_cache = None
def goenv(cgo=False, extra=None):
    global _cache
    if _cache is None:
        _cache = cache_dir()
    e = dict(os.environ)
    e.update(HOME=os.environ.get("HOME", "/root"), LANG="C.UTF-8", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOSUMDB="off",
             GOCACHE=os.path.join(_cache, "go"), GOMODCACHE="/root/go/pkg/mod", GOPATH="/root/go", CGO_ENABLED="1" if cgo else "0")
    e.pop("GOWORK", None)
    if extra:
        e.update(extra)
    return e

def build_plugins(S, overlay=None):
    """protoc-gen-validate from /repo's working tree, and protoc-gen-go."""
    env = goenv(extra={"GOFLAGS": "-mod=readonly"})
    sh(["go", "build", "-o", S + "/bin/protoc-gen-validate", "."], cwd=REPO, env=env, what="go build of the plugin")
    sh(["go", "build", "-o", S + "/bin/protoc-gen-go", "google.golang.org/protobuf/cmd/protoc-gen-go"], cwd=REPO, env=env)
    if overlay:
        sh(["go", "build", "-overlay", overlay, "-o", S + "/bin/sim-plugin", "."], cwd=REPO, env=env, what="go build of the simulated plugin")

def load_known():
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#"):
                out.append(l)
    return out

def replay_path(prop, name):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, "%s-%s.json" % (prop, name))

def violation(prop, path, what):
    print("violation: " + what)
    print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)

def evidence(prop, level, coverage, assumptions, violations=0):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    ev = {"property": prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": level, "coverage": coverage,
          "assumptions": assumptions, "wall_s": round(time.time() - T0, 2), "violations": violations}
    with open(os.path.join(d, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)

def mix(*xs):
    h = hashlib.sha256(repr(xs).encode()).digest()
    return int.from_bytes(h[:8], "big") >> 1 | 1
