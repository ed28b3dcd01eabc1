// gosim runs seeded, simulated executions of the generated Go validators:
// several caller goroutines issue Validate/ValidateAll calls on private and
// shared messages while the simulator decides every interleaving, the clock,
// map iteration order and the failures of foreign child validators.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"

	"pgvsim/gen/sima"
	"pgvsim/gen/simb"
	"pgvsim/gen/simcommon"
	"pgvsim/model"
	"pgvsim/simrt"
)

type Op struct {
	Kind string `json:"k"` // v Validate, a ValidateAll, mut, clk
	Msg  int    `json:"m"`
	Seed uint64 `json:"x,omitempty"` // mutation seed
	Arm  int64  `json:"f,omitempty"` // 1+index of the foreign call that fails
	How  string `json:"h,omitempty"` // p: it panics; v, a: it validates message Other first
	Oth  int    `json:"o,omitempty"`
	Nano int64  `json:"t,omitempty"` // clk: absolute time
}

type Msg struct {
	Type  string  `json:"type"`
	Seed  uint64  `json:"seed"`
	Valid float64 `json:"valid"`
	Map   int     `json:"map"`
	Nil   bool    `json:"nil,omitempty"`
	Depth int     `json:"depth"`
}

type Plan struct {
	Seed     uint64          `json:"seed"`
	Prop     string          `json:"prop"`
	Msgs     []Msg           `json:"msgs"`
	Clients  [][]Op          `json:"clients"`
	Mode     int             `json:"mode"`
	PPM      uint64          `json:"ppm,omitempty"`
	Changes  []int64         `json:"changes,omitempty"`
	Switches []simrt.Switch  `json:"switches,omitempty"`
	Clock    []simrt.ClockEv `json:"clock,omitempty"`
	Start    int64           `json:"start"`
	MapSeed  uint64          `json:"mapseed"`
}

var types = map[string]protoreflect.MessageType{}
var typeNames []string

func reg(ms ...proto.Message) {
	for _, m := range ms {
		t := m.ProtoReflect().Type()
		n := string(t.Descriptor().FullName())
		types[n] = t
		typeNames = append(typeNames, n)
	}
}

type validator interface {
	Validate() error
	ValidateAll() error
}

type result struct {
	full, holes string
	client, op  int
	kind        string
	msg         int
	version     int
	err         error
	text        string // canonical text right after the call
	leaves      []string
	injected    error
	fired       bool
	clocks      []int64
	panicked    string
	nested      bool // within another call's child validator
	died        bool // by the injected panic
}

type violation struct {
	Prop, What string
}

func props(p string) map[string]bool { return map[string]bool{p: true} }

// ---- plan generation

func genPlan(prop string, seed uint64) *Plan {
	r := model.NewRand(seed)
	p := &Plan{Seed: seed, Prop: prop, MapSeed: r.U64() | 1}
	p.Start = time.Date(1971+r.N(150), time.Month(1+r.N(12)), 1+r.N(28), r.N(24), r.N(60), r.N(60), r.N(1000000000), time.UTC).UnixNano()
	nc := 1 + r.N(4)
	valids := []float64{1, 0.995, 0.97, 0.9, 0.6, 0.2}
	pool := typeNames
	switch prop {
	case "C02":
		pool = []string{"sim.a.Maps", "sim.a.Maps", "sim.b.Node", "sim.common.Box", "sim.b.Clock", "sim.a.Node"}
		if r.P(0.6) {
			nc = 1
		}
	case "C03":
		pool = []string{"sim.b.Clock", "sim.b.Clock", "sim.b.Clock", "sim.b.Node"}
	case "C04":
		pool = []string{"sim.a.Node", "sim.a.Lists", "sim.a.Maps", "sim.a.Node", "sim.a.Strings", "sim.a.Wrapped", "sim.a.Spans", "sim.a.Node.Inner", "sim.common.Box", "sim.a.Numbers"}
	}
	nm := 1 + r.N(4)
	focus := ""
	if r.P(0.5) { // everybody on one type: the shared state of one validator is hit
		focus = pool[r.N(len(pool))]
	}
	for i := 0; i < nm+nc; i++ {
		t := pool[r.N(len(pool))]
		if focus != "" && r.P(0.8) {
			t = focus
		}
		p.Msgs = append(p.Msgs, Msg{Type: t, Seed: r.U64(), Valid: valids[r.N(len(valids))], Map: 1 + r.N(9), Nil: r.P(0.1), Depth: 1 + r.N(3)})
		if r.P(0.04) {
			p.Msgs[len(p.Msgs)-1].Depth = 14
		}
	}
	// messages 0..nm-1 are shared, nm+i is private to client i
	maxOps := 2 + r.N(9)
	if r.P(0.015) { // a long history
		maxOps = 30 + r.N(90)
	}
	for c := 0; c < nc; c++ {
		var ops []Op
		n := 1 + r.N(maxOps)
		for i := 0; i < n; i++ {
			m := r.N(nm)
			if r.P(0.5) {
				m = nm + c
			}
			x := r.N(100)
			switch {
			case x < 14:
				ops = append(ops, Op{Kind: "mut", Msg: nm + c, Seed: r.U64()})
				m = nm + c
				fallthrough
			case x < 54:
				ops = append(ops, Op{Kind: "a", Msg: m})
			case x < 94 || prop == "C02" || prop == "C04":
				ops = append(ops, Op{Kind: "v", Msg: m})
			default:
				ops = append(ops, Op{Kind: "clk", Nano: p.jump(r)})
			}
			if prop == "C03" && r.P(0.25) {
				ops = append(ops, Op{Kind: "clk", Nano: p.jump(r)})
			}
			if prop == "C04" || r.P(0.1) {
				if r.P(0.35) {
					o := &ops[len(ops)-1]
					o.Arm = 1 + int64(r.N(1+r.N(6)))
					if x := r.N(10); x < 2 {
						o.How = "p"
					} else if x < 5 {
						o.How = []string{"v", "a"}[r.N(2)]
						if o.Oth = r.N(nm); r.P(0.5) {
							o.Oth = nm + c
						}
					}
				}
			}
		}
		p.Clients = append(p.Clients, ops)
	}
	switch r.N(6) {
	case 0:
		p.Mode = simrt.ModePCT
		for i, n := 0, 1+r.N(6); i < n; i++ {
			p.Changes = append(p.Changes, int64(1+r.N(600)))
		}
	case 1:
		p.Mode = simrt.ModeSerial
	default:
		p.Mode = simrt.ModeRandom
		p.PPM = []uint64{4000, 20000, 80000, 300000}[r.N(4)]
	}
	if prop == "C03" && r.P(0.6) || prop == "C01" && r.P(0.2) {
		n := r.N(4)
		s := int64(0)
		for i := 0; i < n; i++ {
			s += int64(1 + r.N(60))
			p.Clock = append(p.Clock, simrt.ClockEv{Step: s, Nano: p.jump(r)})
		}
	}
	return p
}

// jump is one clock event: a tick, a step of seconds to years forward or back,
// or a return to the start time.
func (p *Plan) jump(r *model.Rand) int64 {
	d := []time.Duration{1, time.Millisecond, time.Second, 31 * time.Second, 61 * time.Second, 45 * time.Minute, 90 * time.Minute, 25 * time.Hour, 500 * 24 * time.Hour}[r.N(9)]
	if r.P(0.4) {
		d = -d
	}
	if r.P(0.1) {
		d = 0
	}
	return p.Start + int64(d)
}

// ---- execution

func (p *Plan) build(i int) proto.Message {
	d := p.Msgs[i]
	g := &model.Gen{R: model.NewRand(d.Seed), Now: time.Unix(0, p.Start), Valid: d.Valid, Fill: 0.7, MapSize: d.Map, NilMap: d.Nil, MaxDepth: d.Depth, Spread: d.Seed%3 == 0}
	return g.Message(types[d.Type])
}

func (p *Plan) mutate(m proto.Message, i int, seed uint64) {
	d := p.Msgs[i]
	r := model.NewRand(seed)
	g := &model.Gen{R: r, Now: time.Unix(0, p.Start), Valid: d.Valid, Fill: 0.7, MapSize: d.Map, MaxDepth: d.Depth}
	if r.P(0.3) { // refill the same memory from scratch
		proto.Reset(m)
		g2 := *g
		n := g2.Message(types[d.Type])
		proto.Merge(m, n)
		return
	}
	for k := 1 + r.N(3); k > 0; k-- {
		g.Mutate(m)
	}
}

type fielder interface {
	error
	Field() string
	Cause() error
}

func flatten(err error, prefix string, inj error, out *[]string, found *bool) {
	if inj != nil && err == inj {
		*found = true
		*out = append(*out, prefix+" <injected>")
		return
	}
	if me, ok := err.(interface{ AllErrors() []error }); ok {
		for _, e := range me.AllErrors() {
			flatten(e, prefix, inj, out, found)
		}
		return
	}
	if f, ok := err.(fielder); ok {
		p := prefix + "/" + model.Norm(f.Field())
		if f.Cause() != nil {
			_, me := f.Cause().(interface{ AllErrors() []error })
			_, fe := f.Cause().(fielder)
			if me || fe || (inj != nil && f.Cause() == inj) {
				flatten(f.Cause(), p, inj, out, found)
				return
			}
		}
		*out = append(*out, p)
		return
	}
	*out = append(*out, prefix)
}

func textOf(leavesOf error) string {
	if leavesOf == nil {
		return ""
	}
	// independent of the order in which a map was walked
	var parts []string
	var walk func(e error, pre string)
	walk = func(e error, pre string) {
		if me, ok := e.(interface{ AllErrors() []error }); ok {
			for _, x := range me.AllErrors() {
				walk(x, pre)
			}
			return
		}
		if f, ok := e.(interface {
			Field() string
			Reason() string
			Key() bool
			ErrorName() string
			Cause() error
		}); ok {
			here := fmt.Sprintf("%s>%s|%s|%s|%v", pre, f.ErrorName(), f.Field(), f.Reason(), f.Key())
			if f.Cause() != nil {
				walk(f.Cause(), here)
			} else {
				parts = append(parts, here)
			}
			return
		}
		parts = append(parts, pre+">"+e.Error())
	}
	walk(leavesOf, "")
	sort.Strings(parts)
	return strings.Join(parts, "\n")
}

// rendered gives the text of an error, and what of its parts is missing in it.
func rendered(e error) (text, missing string) {
	defer func() {
		if x := recover(); x != nil {
			missing = fmt.Sprintf("Error() panicked: %v", x)
		}
	}()
	text = e.Error()
	var walk func(e error, in string)
	walk = func(e error, in string) {
		t := e.Error()
		if !strings.Contains(in, t) && missing == "" {
			missing = fmt.Sprintf("%q has no %q", in, t)
		}
		if me, ok := e.(interface{ AllErrors() []error }); ok {
			for _, x := range me.AllErrors() {
				walk(x, t)
			}
		} else if f, ok := e.(interface {
			fielder
			Reason() string
		}); ok {
			for _, x := range []string{f.Field(), f.Reason()} {
				if !strings.Contains(t, x) && missing == "" {
					missing = fmt.Sprintf("%q has no %q", t, x)
				}
			}
			if f.Cause() != nil {
				walk(f.Cause(), t)
			}
		}
	}
	walk(e, text)
	return
}

type stats struct {
	Runs, Calls, Mutations, Switches, Steps, MaxSteps int64
	Valid, Invalid, Leaves, MapLeaves                 int64
	ClockJumpsInCall, ClockOps, NowReads              int64
	InjectedArmed, InjectedFired, NilMaps             int64
	Panics, Nested                                    int64
	SimNanos                                          int64
	Hashes                                            map[uint64]bool `json:"-"`
	Distinct                                          int64
	Nontrivial                                        int64
	HashList                                          []uint64
	ByMode                                            map[string]int64
	MultiClient                                       int64
	Sites                                             int64
	LogHash                                           uint64
}

func (s *stats) log(x string) {
	h := s.LogHash
	for i := 0; i < len(x); i++ {
		h = (h ^ uint64(x[i])) * 1099511628211
	}
	s.LogHash = h
}

var curPlan *Plan
var history []*Plan
var outw *bufio.Writer

func run(p *Plan, st *stats) *violation {
	curPlan = p
	nc := len(p.Clients)
	if nc > simrt.MaxClients {
		panic("too many clients")
	}
	var msgs, pristine []proto.Message
	for i := range p.Msgs {
		msgs = append(msgs, p.build(i))
		pristine = append(pristine, p.build(i))
	}
	results := make([][]*result, nc)
	versions := make([]int, len(p.Msgs))
	snaps := map[[2]int]proto.Message{}
	for i := range pristine {
		snaps[[2]int{i, 0}] = pristine[i]
	}
	// what each private message looks like after each mutation, computed apart
	for c := range p.Clients {
		muts := map[int][]uint64{}
		for _, op := range p.Clients[c] {
			if op.Kind != "mut" {
				continue
			}
			muts[op.Msg] = append(muts[op.Msg], op.Seed)
			m := p.build(op.Msg) // not a clone: cloning would replace nil map values
			for _, s := range muts[op.Msg] {
				p.mutate(m, op.Msg, s)
			}
			snaps[[2]int{op.Msg, len(muts[op.Msg])}] = m
			st.Mutations++
		}
	}
	_ = versions
	for c := range results {
		n := 0
		for _, op := range p.Clients[c] {
			if op.Kind == "v" || op.Kind == "a" {
				n += 2
			}
		}
		results[c] = make([]*result, 0, n)
	}
	simrt.Setup(simrt.Config{Seed: p.Seed ^ 0xabcdef, Clients: nc, Mode: p.Mode, PPM: p.PPM, Changes: p.Changes, Switches: p.Switches, Clock: p.Clock, Start: p.Start, MapSeed: p.MapSeed})
	doneCh := make(chan int, nc)
	raceBefore := raceErrors()
	for c := 0; c < nc; c++ {
		go client(p, c, msgs, results, doneCh)
	}
	simrt.Start()
	for i := 0; i < nc; i++ {
		<-doneCh
	}
	// ---- judge
	st.Runs++
	st.Steps += simrt.Step()
	if simrt.Step() > st.MaxSteps {
		st.MaxSteps = simrt.Step()
	}
	tr := simrt.Trace()
	st.Switches += int64(len(tr))
	if nc > 1 {
		st.MultiClient++
	}
	st.ByMode[[]string{"random", "pct", "replay", "serial"}[p.Mode]]++
	ct := simrt.ClockTrace()
	for i := 1; i < len(ct); i++ {
		d := ct[i].Nano - ct[i-1].Nano
		if d < 0 {
			d = -d
		}
		st.SimNanos += d
	}
	st.ClockOps += int64(len(ct) - 1)
	h := simrt.Hash()
	for _, m := range p.Msgs {
		h = (h ^ m.Seed) * 1099511628211
	}
	if len(tr) > 1 && nc > 1 || len(ct) > 1 || p.Prop == "C02" || p.Prop == "C04" {
		if !st.Hashes[h] {
			st.Hashes[h] = true
			st.HashList = append(st.HashList, h)
		}
	}
	if n := raceErrors(); n > raceBefore {
		return &violation{p.Prop, fmt.Sprintf("data race between concurrent validation calls (%d reports, see the race detector's output)", n-raceBefore)}
	}
	for c := range results {
		for _, r := range results[c] {
			if v := judge(p, r, snaps, st); v != nil {
				return v
			}
		}
	}
	for i, m := range msgs {
		last := 0
		for k := range snaps {
			if k[0] == i && k[1] > last {
				last = k[1]
			}
		}
		if !proto.Equal(m, snaps[[2]int{i, last}]) {
			return &violation{p.Prop, fmt.Sprintf("message %d (%s) was modified by validation", i, p.Msgs[i].Type)}
		}
	}
	// every result must still read the way it did when it was returned
	for c := range results {
		for _, r := range results[c] {
			if r.err != nil && textOf(r.err) != r.text {
				return &violation{p.Prop, fmt.Sprintf("client %d op %d: the returned error changed after later calls: %q became %q", r.client, r.op, r.text, textOf(r.err))}
			}
			st.log(fmt.Sprint(r.client, r.op, r.kind, r.text, r.leaves))
			if r.err == nil {
				continue
			}
			if r.holes != "" {
				return &violation{p.Prop, fmt.Sprintf("client %d op %d: the text of the returned error is not the one of its parts: %s", r.client, r.op, r.holes)}
			}
			if full, _ := rendered(r.err); full != r.full {
				return &violation{p.Prop, fmt.Sprintf("client %d op %d: the returned error reads differently after later calls: %q became %q", r.client, r.op, r.full, full)}
			}
		}
	}
	st.log(fmt.Sprint(tr, ct))
	// the same message at the same times must get the same answer in every call
	type key struct {
		kind     string
		msg, ver int
		clk      int64
	}
	seen := map[key]*result{}
	for c := range results {
		for _, r := range results[c] {
			if r.kind != "a" || r.fired || r.died || len(r.clocks) != 1 {
				continue
			}
			k := key{r.kind, r.msg, r.version, r.clocks[0]}
			if o := seen[k]; o == nil {
				seen[k] = r
			} else if o.text != r.text {
				return &violation{p.Prop, fmt.Sprintf("two ValidateAll calls on the same %s disagree: %q and %q", p.Msgs[r.msg].Type, o.text, r.text)}
			}
		}
	}
	// and in a later, undisturbed one
	if p.Prop != "C03" {
		for k, o := range seen {
			m := snaps[[2]int{k.msg, k.ver}]
			if strings.HasSuffix(p.Msgs[k.msg].Type, "Clock") {
				continue
			}
			err := m.(validator).ValidateAll()
			if t := textOf(err); t != o.text {
				return &violation{p.Prop, fmt.Sprintf("ValidateAll on %s gives %q alone but gave %q to client %d op %d", p.Msgs[k.msg].Type, t, o.text, o.client, o.op)}
			}
		}
	}
	return nil
}

func client(p *Plan, c int, msgs []proto.Message, results [][]*result, doneCh chan int) {
	simrt.Begin(c)
	ver := map[int]int{}
	for oi, op := range p.Clients[c] {
		switch op.Kind {
		case "mut":
			p.mutate(msgs[op.Msg], op.Msg, op.Seed)
			ver[op.Msg]++
			simrt.Y(10)
		case "clk":
			simrt.SetClock(op.Nano)
			simrt.Y(11)
		case "v", "a":
			simrt.Y(12)
			r := &result{client: c, op: oi, kind: op.Kind, msg: op.Msg, version: ver[op.Msg]}
			if op.Arm > 0 {
				inj := fmt.Errorf("injected failure of client %d op %d", c, oi)
				switch op.How {
				case "":
					r.injected = inj
					simrt.Arm(c, op.Arm-1, inj, nil)
				case "p":
					r.injected = inj
					simrt.Arm(c, op.Arm-1, nil, func() { panic(inj) })
				default:
					// the child's validator validates another message, or the same one again
					simrt.Arm(c, op.Arm-1, nil, func() {
						q := &result{client: c, op: oi, kind: op.How, msg: op.Oth, version: ver[op.Oth], nested: true}
						mark := simrt.ClockMark()
						call(q, msgs[op.Oth])
						q.clocks = simrt.ClocksSince(mark)
						keep(q)
						results[c] = append(results[c], q)
					})
				}
			}
			mark := simrt.ClockMark()
			call(r, msgs[op.Msg])
			r.clocks = simrt.ClocksSince(mark)
			r.fired = simrt.Disarm(c) && r.injected != nil
			keep(r)
			results[c] = append(results[c], r)
			simrt.Y(13)
		}
	}
	doneCh <- c
	simrt.End(c)
}

func keep(r *result) {
	if r.err != nil {
		r.text = textOf(r.err)
		r.full, r.holes = rendered(r.err)
	}
}

func call(r *result, m proto.Message) {
	defer func() {
		if e := recover(); e != nil {
			if r.injected != nil && e == interface{}(r.injected) {
				r.died = true
				return
			}
			r.panicked = fmt.Sprint(e)
		}
	}()
	if r.kind == "v" {
		r.err = m.(validator).Validate()
	} else {
		r.err = m.(validator).ValidateAll()
	}
}

func count(l []string) map[string]int {
	m := map[string]int{}
	for _, s := range l {
		m[s]++
	}
	return m
}

func judge(p *Plan, r *result, snaps map[[2]int]proto.Message, st *stats) *violation {
	m := snaps[[2]int{r.msg, r.version}]
	st.Calls++
	at := fmt.Sprintf("client %d op %d (%s on %s)", r.client, r.op, map[string]string{"v": "Validate", "a": "ValidateAll"}[r.kind], p.Msgs[r.msg].Type)
	if r.panicked != "" {
		return &violation{p.Prop, at + " panicked: " + r.panicked}
	}
	if r.nested {
		at += " from within a child's validator"
		st.Nested++
	}
	if r.injected != nil {
		st.InjectedArmed++
	}
	if r.died {
		st.Panics++
		return nil
	}
	if r.fired {
		st.InjectedFired++
	}
	if len(r.clocks) > 1 {
		st.ClockJumpsInCall++
	}
	must, may := map[string]int{}, map[string]int{}
	for i, n := range r.clocks {
		mu, ma := map[string]int{}, map[string]int{}
		for _, v := range model.Eval(m, time.Unix(0, n)) {
			if !v.May {
				mu[v.Path]++
			}
			ma[v.Path]++
		}
		if i == 0 {
			must, may = mu, ma
			continue
		}
		for k, c := range must {
			if mu[k] < c {
				must[k] = mu[k]
			}
		}
		for k, c := range ma {
			if may[k] < c {
				may[k] = c
			}
		}
	}
	nmust := 0
	for k, c := range must {
		nmust += c
		if strings.Contains(k, "[") {
			st.MapLeaves += int64(c)
		}
	}
	st.Leaves += int64(nmust)
	found := false
	if r.err != nil {
		flatten(r.err, "", r.injected, &r.leaves, &found)
		st.Invalid++
	} else {
		st.Valid++
	}
	if r.fired && !found {
		return &violation{p.Prop, fmt.Sprintf("%s: a child validator failed but its error is not in the result %q", at, r.text)}
	}
	if found && !r.fired {
		return &violation{p.Prop, at + ": reports a child failure that did not happen in this call"}
	}
	got := count(r.leaves)
	injAt := ""
	for k := range got {
		if strings.HasSuffix(k, " <injected>") {
			injAt = strings.TrimSuffix(k, " <injected>")
			if got[k] != 1 {
				return &violation{p.Prop, at + ": one child failure is reported more than once"}
			}
			delete(got, k)
		}
	}
	hasOneOf := func() (n int) {
		for _, c := range got {
			n += c
		}
		return
	}()
	if r.kind == "v" {
		if r.err != nil && hasOneOf == 0 && injAt == "" {
			return &violation{p.Prop, at + ": returned an error that names no violation: " + r.err.Error()}
		}
		if len(r.leaves) > 1 {
			return &violation{p.Prop, fmt.Sprintf("%s: fail-fast returned %d violations: %v", at, len(r.leaves), r.leaves)}
		}
		if injAt == "" {
			for k := range got {
				if may[k] == 0 {
					return &violation{p.Prop, fmt.Sprintf("%s: reported %s, which is not a violation; expected one of %v", at, k, may)}
				}
			}
			if r.err == nil && nmust > 0 {
				return &violation{p.Prop, fmt.Sprintf("%s: accepted; expected one of %v", at, must)}
			}
		}
		return nil
	}
	if r.err != nil && len(r.leaves) == 0 {
		return &violation{p.Prop, at + ": returned an error that wraps no violation"}
	}
	// under an injected child failure that child's own violations are replaced
	// by the injected one
	under := func(k string) bool { return injAt != "" && (k == injAt || strings.HasPrefix(k, injAt+"/")) }
	for k, c := range must {
		if got[k] < c && !under(k) {
			return &violation{p.Prop, fmt.Sprintf("%s: violation %s reported %d time(s), expected %d; got %v", at, k, got[k], c, r.leaves)}
		}
	}
	for k, c := range got {
		if c > may[k] {
			return &violation{p.Prop, fmt.Sprintf("%s: reported %s %d time(s), expected at most %d; expected %v", at, k, c, may[k], may)}
		}
	}
	return nil
}

// ---- main

type report struct {
	Violation string         `json:"violation,omitempty"`
	What      string         `json:"what,omitempty"`
	Plans     []*Plan        `json:"plans,omitempty"`
	Trace     []simrt.Switch `json:"trace,omitempty"`
	Stats     *stats         `json:"stats,omitempty"`
}

func emit(r report) {
	b, err := json.Marshal(r)
	if err != nil {
		panic(err)
	}
	os.Stdout.Write(append(b, '\n'))
}

func withTrace(p *Plan) *Plan {
	q := *p
	if t := simrt.Trace(); len(t) < 4000 {
		q.Mode = simrt.ModeReplay
		q.Switches = t
		q.PPM, q.Changes = 0, nil
	}
	return &q
}

func main() {
	prop := flag.String("prop", "C01", "")
	seed := flag.Uint64("seed", 1, "")
	runs := flag.Int("runs", 10, "")
	planOnly := flag.Int("plan", -1, "print the plans up to this run and exit")
	replay := flag.String("replay", "", "")
	flag.Parse()
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(2 << 30)
	debug.SetMaxStack(64 << 20)
	runtime.GOMAXPROCS(1)
	reg(&sima.Numbers{}, &sima.Strings{}, &sima.Wrapped{}, &sima.Spans{}, &sima.Maps{}, &sima.Lists{}, &sima.Node{}, &sima.Node_Inner{}, &sima.Disabled{},
		&simb.Item{}, &simb.Node{}, &simb.Clock{}, &simcommon.Item{}, &simcommon.Box{})
	simrt.Init()
	st := &stats{Hashes: map[uint64]bool{}, ByMode: map[string]int64{}}
	simrt.OnStuck = func() {
		emit(report{Violation: curPlan.Prop, What: "validation calls make no progress (blocked or looping)", Plans: append(append([]*Plan{}, history...), withTrace(curPlan)), Stats: st})
		os.Exit(1)
	}
	var plans []*Plan
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			panic(err)
		}
		var f struct {
			Plans []*Plan `json:"plans"`
		}
		if err := json.Unmarshal(b, &f); err != nil {
			panic(err)
		}
		plans = f.Plans
	} else {
		r := model.NewRand(*seed)
		for i := 0; i < *runs; i++ {
			plans = append(plans, genPlan(*prop, r.U64()))
			if *planOnly == i {
				emit(report{Plans: plans})
				return
			}
		}
	}
	status := os.Getenv("PGVSIM_STATUS")
	var sf *os.File
	if status != "" {
		sf, _ = os.Create(status)
	}
	for i, p := range plans {
		if sf != nil {
			sf.WriteAt([]byte(fmt.Sprintf("%08d", i)), 0)
		}
		v := run(p, st)
		q := withTrace(p)
		if v != nil {
			emit(report{Violation: v.Prop, What: v.What, Plans: append(append([]*Plan{}, history...), q), Stats: st})
			os.Exit(1)
		}
		history = append(history, q)
		if i%8 == 7 {
			runtime.GC()
		}
	}
	st.Distinct = int64(len(st.Hashes))
	st.Sites = int64(simrt.SiteHits())
	st.NowReads = simrt.NowReads()
	emit(report{Stats: st})
}
