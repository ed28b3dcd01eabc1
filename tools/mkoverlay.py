#!/usr/bin/env python3
"""Build a `go build -overlay` file that puts the Go runtime's sources of
nondeterminism behind seams: map iteration and hashing randomness, time.Now,
blocking on sync.Mutex/RWMutex, and reads/writes of stdin/stdout.
Everything is off unless the program (or, for the plugin binary, the
environment variable PGVSIM) switches it on."""
import json, os, re, subprocess, sys

def sub1(s, old, new):
    assert s.count(old) == 1, (old, s.count(old))
    return s.replace(old, new)

def make(out, plugin, repo="/repo", instr=None):
    goroot = subprocess.check_output(["go", "env", "GOROOT"], text=True).strip()
    src = os.path.join(goroot, "src")
    rep = {}
    os.makedirs(out, exist_ok=True)

    def put(rel, text):
        p = os.path.join(out, rel.replace("/", "__"))
        with open(p, "w") as f:
            f.write(text)
        rep[os.path.join(src, rel)] = p

    def get(rel):
        with open(os.path.join(src, rel)) as f:
            return f.read()

    # --- runtime randomness
    s = get("runtime/rand.go")
    s = sub1(s, "\tglobalRand.state.Init(*seed)\n", "\tsimStartup(seed)\n\tglobalRand.state.Init(*seed)\n")
    s = sub1(s, "func rand() uint64 {\n", "func rand() uint64 {\n\tif simRandOn {\n\t\treturn simNext()\n\t}\n")
    # new threads are started at moments the simulator does not decide
    s = sub1(s, "\tmp.cheaprand = uint32(rand())\n\tmp.cheaprand64 = rand()\n", "\tmp.cheaprand = uint32(bootstrapRand())\n\tmp.cheaprand64 = bootstrapRand()\n")
    put("runtime/rand.go", s)
    s = get("runtime/proc.go")
    s = sub1(s, "const randomizeScheduler = raceenabled\n", "const randomizeScheduler = false\n")
    if plugin:
        s = sub1(s, "\tif randomizeScheduler && next && randn(2) == 0 {\n", "\tif simRandOn && next && simNext()&1 == 0 {\n")
        # nor is a goroutine ever moved aside because of the time it took
        s = sub1(s, "func retake(now int64) uint32 {\n", "func retake(now int64) uint32 {\n\tif simRandOn {\n\t\treturn 0\n\t}\n")
    put("runtime/proc.go", s)
    put("runtime/simhook.go", '''package runtime

var simRandOn bool
var simRandState uint64

//go:nosplit
func simNext() uint64 {
	simRandState += 0x9e3779b97f4a7c15
	z := simRandState
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// SimSeed makes every later random draw of the runtime (map seeds, map
// iteration offsets, math/rand seeding) come from s; 0 switches it off.
//
//go:norace
func SimSeed(s uint64) {
	simRandState = s
	simRandOn = s != 0
}

func SimState() uint64 { return simRandState }

// SimGosched is called between the statements of instrumented code: one time
// in eight the goroutine steps back behind the other runnable ones. In one
// process of four it never does.
func SimGosched() {
	if simRandOn && !simStarve {
		simYields++
		if simYields&7 == simNextYield {
			simNextYield = simNext() & 7
			Gosched()
		}
	}
}

var simYields, simNextYield uint64
var simStarve bool

// SimPause lets the other goroutines run for a while.
func SimPause() {
	if simRandOn && !simStarve {
		for n := simNext() & 3; n > 0; n-- {
			Gosched()
		}
	}
}

func SimAcquire(s *uint32) { semacquire(s) }
func SimRelease(s *uint32) { semrelease(s) }
func SimExit(code int32)   { exit(code) }

// simStartup replaces the startup entropy when PGVSIM=<decimal seed>[,...] is
// in the environment, so that hash keys and early maps are a function of it.
func simStartup(seed *[32]byte) {
	const name = "PGVSIM="
	i := int32(0)
	for argv_index(argv, argc+1+i) != nil {
		p := argv_index(argv, argc+1+i)
		i++
		s := gostringnocopy(p)
		if len(s) <= len(name) || s[:len(name)] != name {
			continue
		}
		var v uint64
		for _, c := range []byte(s[len(name):]) {
			if c < '0' || c > '9' {
				break
			}
			v = v*10 + uint64(c-'0')
		}
		simRandState = v
		for j := range seed {
			seed[j] = byte(simNext() >> 11)
		}
		simRandState = v ^ 0x5bd1e995
		simStarve = simNext()&3 == 0
		SIMPLUGIN
		return
	}
}
'''.replace("SIMPLUGIN", "simRandOn = true" if plugin else ""))

    # --- clock
    s = get("time/time.go")
    s = sub1(s, "func Now() Time {\n", '''func Now() Time {
	if simNow != nil {
		if n, ok := simNow(); ok {
			return Unix(n/1e9, n%1e9)
		}
	}
''')
    s += '''
var simNow func() (int64, bool)

// SimSetNow installs the simulated wall clock.
func SimSetNow(f func() (int64, bool)) { simNow = f }
'''
    put("time/time.go", s)

    # --- blocking locks
    s = get("internal/sync/mutex.go")
    s = sub1(s, "func (m *Mutex) lockSlow() {\n", '''func (m *Mutex) lockSlow() {
	if SimYield != nil && SimYield() {
		for !m.TryLock() {
			SimYield()
		}
		return
	}
''')
    s += '''
// SimYield gives the simulator's token away; false outside a simulated run.
var SimYield func() bool
'''
    put("internal/sync/mutex.go", s)
    s = get("sync/rwmutex.go")
    s = sub1(s, "func (rw *RWMutex) RLock() {\n", '''func (rw *RWMutex) RLock() {
	if isync.SimYield != nil && simLocks() {
		for !rw.TryRLock() {
			isync.SimYield()
		}
		return
	}
''')
    s = sub1(s, "func (rw *RWMutex) Lock() {\n", '''func (rw *RWMutex) Lock() {
	if isync.SimYield != nil && simLocks() {
		for !rw.TryLock() {
			isync.SimYield()
		}
		return
	}
''')
    if 'isync "internal/sync"' not in s:
        s = sub1(s, 'import (\n', 'import (\n\tisync "internal/sync"\n')
    s += '''
var simActive func() bool

func simLocks() bool { return simActive != nil && simActive() }

// SimSetYield installs the simulator's answer to a blocked lock.
func SimSetYield(f func() bool) { isync.SimYield = f }

// SimSetActive tells whether a simulated run is in progress.
func SimSetActive(f func() bool) { simActive = f }
'''
    put("sync/rwmutex.go", s)

    # --- stdin/stdout of the plugin
    if plugin:
        s = get("os/file.go")
        s = sub1(s, "func (f *File) Read(b []byte) (n int, err error) {\n", '''func (f *File) Read(b []byte) (n int, err error) {
	if f == Stdin && simIO != nil {
		return simIO.read(b)
	}
''')
        s = sub1(s, "func (f *File) Write(b []byte) (n int, err error) {\n", '''func (f *File) Write(b []byte) (n int, err error) {
	if f == Stdout && simIO != nil {
		runtime.SimPause()
		return simIO.write(b)
	}
''')
        put("os/file.go", s)
        put("os/simio.go", open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "simio.go.txt")).read())
        # yields between the statements of the plugin's own code
        import glob, shutil
        mods = []
        for d in ("module", "templates"):
            for root, _, fs in os.walk(os.path.join(repo, d)):
                for f in fs:
                    if f.endswith(".go") and not f.endswith("_test.go"):
                        mods.append(os.path.join(root, f))
        copies = []
        for f in sorted(mods):
            c = os.path.join(out, os.path.relpath(f, repo).replace("/", "__"))
            shutil.copy(f, c)
            copies.append(c)
            rep[f] = c
        subprocess.run(instr + ["-call", "simrt.SimGosched()", "-import", 'simrt "runtime"', "-keep", "simrt.SimGosched"] + copies, check=True, stdout=subprocess.DEVNULL)
    path = os.path.join(out, "overlay.json")
    with open(path, "w") as f:
        json.dump({"Replace": rep}, f, indent=1)
    return path

if __name__ == "__main__":
    print(make(sys.argv[1], len(sys.argv) > 2 and sys.argv[2] == "plugin"))
