// Package simrt is the runtime side of the deterministic Go simulator: one
// token is passed between the simulated clients at yield points that are
// instrumented into the generated validators, and every switch, clock change
// and fault is decided by the plan being executed.
//
// Everything reached from a yield point is compiled without race annotations
// and parks on raw runtime semaphores, so the hand-over of the token is not a
// happens-before edge for the race detector.
package simrt

import (
	"runtime"
	"sync"
	"time"
)

const (
	MaxClients = 8
	MaxSteps   = 40000000
	maxTrace   = 4096
	maxSites   = 1 << 16
)

type Switch struct {
	Step int64 `json:"s"`
	To   int   `json:"c"`
}

type ClockEv struct {
	Step int64 `json:"s"`
	Nano int64 `json:"t"` // new absolute simulated time, unix nanoseconds
}

// Mode of choosing switches.
const (
	ModeRandom = 0 // switch with probability PPM per yield
	ModePCT    = 1 // strict priorities, changed at a few random steps
	ModeReplay = 2 // exactly the recorded switches
	ModeSerial = 3 // never switch inside a call
)

var (
	active  bool
	nclient int
	sema    [MaxClients]uint32
	done    [MaxClients]bool
	started [MaxClients]bool
	cur     int
	step    int64
	rng     uint64

	mode    int
	ppm     uint64
	prio    [MaxClients]int
	changes [16]int64
	nchange int
	lowest  int

	switches [maxTrace]Switch
	nswitch  int
	overflow bool
	rpos     int

	clockEvs  [256]ClockEv
	nclock    int
	clockPos  int
	clock     int64
	clockLog  [512]ClockEv
	nclockLog int

	blockedSpins int64

	// interleaving measure: hash over (client, site) at every switch
	hash     uint64
	siteHits [maxSites]uint32

	mainSema uint32

	NowCalls int64

	// foreign-call fault plan of the current call of each client
	armAt    [MaxClients]int64
	armCount [MaxClients]int64
	armErr   [MaxClients]error
	armFirst [MaxClients]func()
	armFired [MaxClients]bool
)

//go:norace
func next() uint64 {
	rng += 0x9e3779b97f4a7c15
	z := rng
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

type Config struct {
	Seed     uint64
	Clients  int
	Mode     int
	PPM      uint64 // per million
	Changes  []int64
	Switches []Switch
	Clock    []ClockEv
	Start    int64 // start time, unix nanoseconds
	MapSeed  uint64
}

// Init installs the hooks that stay on for the whole process.
func Init() {
	time.SimSetNow(simNow)
	sync.SimSetYield(lockYield)
	sync.SimSetActive(isActive)
}

//go:norace
func isActive() bool { return active }

// OnStuck is called, by the client that holds the token, when the run makes no
// progress within its bounds; it does not return.
var OnStuck func()

//go:norace
func simNow() (int64, bool) {
	if !active {
		return 0, false
	}
	NowCalls++
	return clock, true
}

//go:norace
func lockYield() bool {
	if !active {
		return false
	}
	blockedSpins++
	if blockedSpins > 20000 {
		active = false
		runtime.SimSeed(0)
		OnStuck()
	}
	// a blocked client must give the token away
	pick(true)
	return true
}

//go:norace
func Setup(c Config) {
	rng = c.Seed
	nclient = c.Clients
	mode = c.Mode
	ppm = c.PPM
	nchange = copy(changes[:], c.Changes)
	nswitch, rpos, overflow = 0, 0, false
	if mode == ModeReplay {
		nswitch = copy(switches[:], c.Switches)
	}
	nclock = copy(clockEvs[:], c.Clock)
	clockPos = 0
	clock = c.Start
	nclockLog = 1
	clockLog[0] = ClockEv{0, clock}
	step = 0
	hash = 1469598103934665603
	blockedSpins = 0
	mainSema = 0
	for i := range done {
		done[i] = i >= nclient
		started[i] = false
		sema[i] = 0
		armAt[i], armCount[i], armErr[i], armFired[i], armFirst[i] = -1, 0, nil, false, nil
	}
	if mode == ModePCT {
		for i := 0; i < nclient; i++ {
			prio[i] = i
		}
		for i := nclient - 1; i > 0; i-- {
			j := int(next() % uint64(i+1))
			prio[i], prio[j] = prio[j], prio[i]
		}
		lowest = -1
	}
	runtime.SimSeed(c.MapSeed)
}

// Start hands the token to the first client and waits for the last one.
//
//go:norace
func Start() {
	first := 0
	switch mode {
	case ModePCT:
		for i := 0; i < nclient; i++ {
			if prio[i] > prio[first] {
				first = i
			}
		}
	case ModeReplay:
		if nswitch > 0 && switches[0].Step == 0 && switches[0].To < nclient {
			first = switches[0].To
			rpos = 1
		}
	default:
		first = int(next() % uint64(nclient))
	}
	if mode != ModeReplay {
		switches[0] = Switch{0, first}
		nswitch = 1
	}
	cur = first
	active = true
	runtime.SimRelease(&sema[first])
	runtime.SimAcquire(&mainSema)
	active = false
	runtime.SimSeed(0)
}

// Begin is the first thing client i does.
//
//go:norace
func Begin(i int) { runtime.SimAcquire(&sema[i]) }

// End is the last thing client i does: it passes the token on.
//
//go:norace
func End(i int) {
	done[i] = true
	for j := 0; j < nclient; j++ {
		if !done[j] {
			pickNext(true)
			return
		}
	}
	runtime.SimRelease(&mainSema)
}

//go:norace
func choose(force bool) int {
	switch mode {
	case ModeReplay:
		t := -1
		for rpos < nswitch && switches[rpos].Step <= step {
			t = switches[rpos].To
			rpos++
		}
		if t >= 0 && t < nclient && !done[t] {
			return t
		}
		if !force {
			return cur
		}
		for k := 1; k <= nclient; k++ {
			if j := (cur + k) % nclient; !done[j] {
				return j
			}
		}
		return cur
	case ModePCT:
		for k := 0; k < nchange; k++ {
			if changes[k] == step {
				prio[cur] = lowest
				lowest--
			}
		}
		if force && !done[cur] { // blocked on a lock: let the others go first
			prio[cur] = lowest
			lowest--
		}
		best := -1
		for j := 0; j < nclient; j++ {
			if !done[j] && (best < 0 || prio[j] > prio[best]) {
				best = j
			}
		}
		return best
	case ModeSerial:
		if !force {
			return cur
		}
	default:
		if !force && next()%1000000 >= ppm {
			return cur
		}
	}
	n := 0
	for j := 0; j < nclient; j++ {
		if !done[j] && j != cur {
			n++
		}
	}
	if n == 0 {
		return cur
	}
	k := int(next() % uint64(n))
	for j := 0; j < nclient; j++ {
		if !done[j] && j != cur {
			if k == 0 {
				return j
			}
			k--
		}
	}
	return cur
}

//go:norace
func record(to int) {
	hash = (hash ^ uint64(to+1)) * 1099511628211
	hash = (hash ^ uint64(step)) * 1099511628211
	if mode == ModeReplay {
		return
	}
	if nswitch < maxTrace {
		switches[nswitch] = Switch{step, to}
		nswitch++
	} else {
		overflow = true
		mode = ModeSerial
	}
}

//go:norace
func pickNext(force bool) {
	to := choose(force)
	if to == cur {
		return
	}
	record(to)
	cur = to
	runtime.SimRelease(&sema[to])
}

//go:norace
func pick(force bool) {
	me := cur
	to := choose(force)
	if to == me {
		return
	}
	record(to)
	cur = to
	runtime.SimRelease(&sema[to])
	runtime.SimAcquire(&sema[me])
}

// Y is the yield point instrumented into generated code.
//
//go:norace
func Y(site int) {
	if !active {
		return
	}
	step++
	blockedSpins = 0
	siteHits[site&(maxSites-1)]++
	if step > MaxSteps {
		active = false
		runtime.SimSeed(0)
		OnStuck()
	}
	for clockPos < nclock && clockEvs[clockPos].Step <= step {
		clock = clockEvs[clockPos].Nano
		clockPos++
		if nclockLog < len(clockLog) {
			clockLog[nclockLog] = ClockEv{step, clock}
			nclockLog++
		}
	}
	pick(false)
}

//go:norace
func SetClock(n int64) {
	clock = n
	if nclockLog < len(clockLog) {
		clockLog[nclockLog] = ClockEv{step, clock}
		nclockLog++
	}
}

//go:norace
func Clock() int64 { return clock }

//go:norace
func ClockMark() int { return nclockLog - 1 }

// ClocksSince returns the simulated times that were current since mark.
//
//go:norace
func ClocksSince(mark int) []int64 {
	out := make([]int64, 0, nclockLog-mark)
	for i := mark; i < nclockLog; i++ {
		out = append(out, clockLog[i].Nano)
	}
	return out
}

//go:norace
func Step() int64 { return step }

//go:norace
func Hash() uint64 { return hash }

//go:norace
func Trace() []Switch {
	out := make([]Switch, nswitch)
	for i := range out {
		out[i] = switches[i]
	}
	return out
}

//go:norace
func ClockTrace() []ClockEv {
	out := make([]ClockEv, nclockLog)
	for i := range out {
		out[i] = clockLog[i]
	}
	return out
}

//go:norace
func SiteHits() (n int) {
	for _, h := range siteHits {
		if h > 0 {
			n++
		}
	}
	return
}

// Arm makes the k-th foreign validation of client c's next call fail, or run
// something first, which may panic.
//
//go:norace
func Arm(c int, k int64, err error, first func()) {
	armAt[c], armCount[c], armErr[c], armFired[c], armFirst[c] = k, 0, err, false, first
}

//go:norace
func Disarm(c int) bool {
	f := armFired[c]
	armAt[c], armErr[c], armFired[c], armFirst[c] = -1, nil, false, nil
	return f
}

// ForeignFault is asked by the hand-written child validators.
//
//go:norace
func ForeignFault() error {
	if !active {
		return nil
	}
	c := cur
	if armAt[c] < 0 {
		return nil
	}
	k := armCount[c]
	armCount[c]++
	if k == armAt[c] {
		armFired[c] = true
		armAt[c] = -1
		err := armErr[c]
		if first := armFirst[c]; first != nil {
			armFirst[c] = nil
			first()
		}
		return err
	}
	return nil
}

//go:norace
func NowReads() int64 { return NowCalls }
