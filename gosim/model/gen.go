package model

import (
	"reflect"
	"strings"
	"time"

	"github.com/envoyproxy/protoc-gen-validate/validate"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/timestamppb"
)

// Rand is a splitmix64 generator.
type Rand struct{ s uint64 }

func NewRand(seed uint64) *Rand { return &Rand{seed} }
func (r *Rand) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *Rand) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}
func (r *Rand) P(p float64) bool { return float64(r.U64()>>11)/(1<<53) < p }

func init() {
	b := func(kind string, good []string, bad []string) {
		Known[kind] = map[string]bool{}
		for _, s := range good {
			Known[kind][s] = true
			knownList[kind] = append(knownList[kind], s)
		}
		for _, s := range bad {
			Known[kind][s] = false
			knownList[kind] = append(knownList[kind], s)
		}
	}
	b("ip", []string{"10.0.0.1", "::1", "2001:db8::8"}, []string{"", "foo", "1.2.3"})
	b("ipv4", []string{"10.0.0.1", "192.168.7.9"}, []string{"", "::1", "bar"})
	b("ipv6", []string{"::1", "2001:db8::8"}, []string{"", "10.0.0.1", "bar"})
	b("email", []string{"a@example.com", "foo.bar@sub.example.org"}, []string{"", "nope", "a@-x.com", "a@b_c.com"})
	b("hostname", []string{"example.com", "a.b-c.d", "localhost"}, []string{"", "foo_bar", "-a.com", "a..b"})
	b("address", []string{"example.com", "1.2.3.4", "::1"}, []string{"", "-bad-", "a_b"})
	b("uri", []string{"http://example.com/a?b=c", "https://x.org"}, []string{"/rel", "", "http://[::1"})
	b("uri_ref", []string{"/rel?x=1", "http://example.com/b", ""}, []string{"http://[::1"})
	b("uuid", []string{"00000000-0000-0000-0000-000000000000", "b45c0c80-8880-11e9-a5b1-000000000000"}, []string{"", "nope", "b45c0c80-8880-11e9-a5b1-00000000000"})
	b("HTTP_HEADER_NAME/false", []string{"Foo", "x-bar", ""}, []string{"x\ny", "a\x00b"})
}

var knownList = map[string][]string{}

// Gen generates messages.
type Gen struct {
	R        *Rand
	Now      time.Time // timestamps for rules on the current time lie around it
	Valid    float64   // probability that a single value is picked valid
	Fill     float64   // probability that an optional thing is present
	MapSize  int
	NilMap   bool // allow nil message values in maps (only the Go API can build them)
	MaxDepth int
	Spread   bool // timestamps also exactly at and right around the limits
	nodes    int
}

// room tells whether a message at this depth may hold others; the size of
// messages that go deep is bounded.
func (g *Gen) room(depth int) bool {
	return depth < g.MaxDepth && (g.MaxDepth <= 4 || g.nodes < 60)
}

func (g *Gen) Message(t protoreflect.MessageType) proto.Message {
	m := t.New()
	g.nodes = 0
	g.fill(m, 0)
	return m.Interface()
}

// Mutate changes one field of m.
func (g *Gen) Mutate(m proto.Message) {
	r := m.ProtoReflect()
	fs := r.Descriptor().Fields()
	if fs.Len() == 0 {
		return
	}
	fd := fs.Get(g.R.N(fs.Len()))
	if g.R.P(0.2) {
		r.Clear(fd)
		return
	}
	g.field(r, fd, 1)
}

func (g *Gen) fill(m protoreflect.Message, depth int) {
	md := m.Descriptor()
	switch md.FullName() {
	case "google.protobuf.Any":
		urls := []string{"type.googleapis.com/x.Y", "type.googleapis.com/a.B", ""}
		m.Set(md.Fields().ByName("type_url"), protoreflect.ValueOfString(urls[g.R.N(len(urls))]))
		return
	case "google.protobuf.Duration":
		m.Set(md.Fields().ByName("seconds"), protoreflect.ValueOfInt64(int64(g.R.N(12))))
		return
	case "google.protobuf.Timestamp":
		m.Set(md.Fields().ByName("seconds"), protoreflect.ValueOfInt64(int64(g.R.N(3000))))
		return
	}
	if foreign(md) != "" {
		toks := []string{"ok", "fine", "", "fail", "fail2"}
		k := g.R.N(3)
		if !g.R.P(g.Valid) {
			k = g.R.N(5)
		}
		if fd := md.Fields().ByName("token"); fd != nil {
			m.Set(fd, protoreflect.ValueOfString(toks[k]))
			if !g.R.P(g.Valid) && g.R.P(0.5) {
				m.Set(md.Fields().ByName("n"), protoreflect.ValueOfInt32(-1))
			}
		} else if fd := md.Fields().ByName("value"); fd != nil {
			g.setScalar(m, fd, nil)
		}
		return
	}
	g.nodes++
	fs := md.Fields()
	chosen := map[protoreflect.FullName]int{}
	for i := 0; i < fs.Len(); i++ {
		fd := fs.Get(i)
		if oo := fd.ContainingOneof(); oo != nil {
			k, ok := chosen[oo.FullName()]
			if !ok {
				k = g.R.N(oo.Fields().Len() + 1)
				if k == oo.Fields().Len() && g.R.P(g.Valid) {
					k = g.R.N(oo.Fields().Len())
				}
				chosen[oo.FullName()] = k
			}
			if k < oo.Fields().Len() && oo.Fields().Get(k) == fd {
				g.field(m, fd, depth)
			}
			continue
		}
		g.field(m, fd, depth)
	}
}

func (g *Gen) field(m protoreflect.Message, fd protoreflect.FieldDescriptor, depth int) {
	r := Rules(fd)
	switch {
	case fd.IsMap():
		mr := r.GetMap()
		n := g.count(mr.GetMinPairs(), mr.GetMaxPairs(), g.MapSize, depth)
		m.Clear(fd)
		if n == 0 {
			return
		}
		mp := m.Mutable(fd).Map()
		for i := 0; i < n; i++ {
			k := g.pick(fd.MapKey(), mr.GetKeys(), i)
			if fd.MapValue().Message() != nil {
				v := mp.NewValue()
				if g.NilMap && g.R.P(0.08) {
					v = protoreflect.ValueOfMessage(v.Message().Type().Zero())
					setNil(m, fd, k.MapKey())
					continue
				}
				if g.room(depth) {
					g.embedded(v.Message(), fd.MapValue(), mr.GetValues(), depth+1)
				}
				mp.Set(k.MapKey(), v)
			} else {
				mp.Set(k.MapKey(), g.pick(fd.MapValue(), mr.GetValues(), i))
			}
		}
	case fd.IsList():
		rr := r.GetRepeated()
		most := 4
		if fd.Message() != nil {
			most = 3
		}
		n := g.count(rr.GetMinItems(), rr.GetMaxItems(), most, depth)
		m.Clear(fd)
		l := m.Mutable(fd).List()
		for i := 0; i < n; i++ {
			if fd.Message() != nil {
				v := l.NewElement()
				if g.room(depth) {
					g.embedded(v.Message(), fd, rr.GetItems(), depth+1)
				}
				l.Append(v)
			} else {
				v := g.pick(fd, rr.GetItems(), i)
				if rr.GetUnique() && g.R.P(0.8) {
					for try := 0; try < 8 && has(l, v); try++ {
						v = g.pick(fd, rr.GetItems(), i+try)
					}
				}
				l.Append(v)
			}
		}
	case fd.Message() != nil:
		m.Clear(fd)
		need := r.GetMessage().GetRequired() || r.GetAny().GetRequired() || r.GetDuration().GetRequired() || r.GetTimestamp().GetRequired()
		p := g.Fill
		if !g.room(depth) {
			p = 0
		}
		if need {
			p = g.Valid
		}
		if !g.R.P(p) && fd.ContainingOneof() == nil {
			return
		}
		v := m.NewField(fd)
		if g.room(depth - 1) {
			g.embedded(v.Message(), fd, r, depth+1)
		}
		m.Set(fd, v)
	default:
		g.setScalar(m, fd, r)
	}
}

func has(l protoreflect.List, v protoreflect.Value) bool {
	for i := 0; i < l.Len(); i++ {
		a, b := l.Get(i).Interface(), v.Interface()
		if x, ok := a.([]byte); ok {
			if string(x) == string(b.([]byte)) {
				return true
			}
		} else if a == b {
			return true
		}
	}
	return false
}

func (g *Gen) count(min, max uint64, most int, depth int) int {
	if depth > 1 && most > 2 {
		most = 2
	}
	n := g.R.N(most + 1)
	if depth == 0 && g.R.P(0.02) {
		n = 9 + g.R.N(most*6)
	}
	if !g.room(depth) {
		n = 0
	}
	if g.R.P(g.Valid) {
		if uint64(n) < min {
			n = int(min)
		}
		if max > 0 && uint64(n) > max {
			n = int(max)
		}
	} else if max > 0 && g.R.P(0.4) {
		n = int(max) + 1
	}
	return n
}

func (g *Gen) embedded(m protoreflect.Message, fd protoreflect.FieldDescriptor, r *validate.FieldRules, depth int) {
	md := m.Descriptor()
	want := g.R.P(g.Valid)
	try := func(f func()) {
		for i := 0; i < 14; i++ {
			f()
			if !want || !Bad(protoreflect.ValueOfMessage(m), true, fd, r, g.Now) {
				return
			}
		}
	}
	switch x := m.Interface().(type) {
	case *durationpb.Duration:
		try(func() { y := g.duration(r.GetDuration()); x.Seconds, x.Nanos = y.Seconds, y.Nanos })
		return
	case *timestamppb.Timestamp:
		try(func() { y := g.timestamp(r.GetTimestamp()); x.Seconds, x.Nanos = y.Seconds, y.Nanos })
		return
	}
	if wrappers[md.FullName()] {
		inner := md.Fields().ByName("value")
		try(func() { m.Set(inner, g.cand(inner, r, 0)) })
		return
	}
	if md.FullName() == "google.protobuf.Any" {
		try(func() { g.fill(m, depth) })
		return
	}
	g.fill(m, depth)
}

func (g *Gen) duration(r *validate.DurationRules) *durationpb.Duration {
	if g.R.P(0.06) {
		// no durations at all, or ones that a time.Duration does not hold
		odd := []*durationpb.Duration{{Seconds: 1, Nanos: -1}, {Seconds: -1, Nanos: 1}, {Nanos: 1000000000}, {Nanos: -2147483648}, {Seconds: 315576000001}, {Seconds: -315576000001}, {Seconds: 315576000000}, {Seconds: -315576000000}, {Seconds: 9223372037}, {Seconds: -20000000000, Nanos: -999999999}}
		return odd[g.R.N(len(odd))]
	}
	base := []time.Duration{0, time.Second, 500, 3 * time.Second, 20 * time.Second}
	for _, d := range append([]*durationpb.Duration{r.GetConst(), r.GetLt(), r.GetLte(), r.GetGt(), r.GetGte()}, append(r.GetIn(), r.GetNotIn()...)...) {
		if d != nil {
			base = append(base, d.AsDuration(), d.AsDuration()+1, d.AsDuration()-1)
		}
	}
	return durationpb.New(base[g.R.N(len(base))])
}

func (g *Gen) timestamp(r *validate.TimestampRules) *timestamppb.Timestamp {
	if g.R.P(0.08) {
		// no timestamps at all, or ones far away
		odd := []*timestamppb.Timestamp{{Seconds: -62135596801}, {Seconds: 253402300800}, {Nanos: -1}, {Nanos: 1000000000}, {Seconds: -62135596800}, {Seconds: 253402300799, Nanos: 999999999},
			{Seconds: 9223372036, Nanos: 854775808}, {Seconds: 9223372037}, {Seconds: -9223372037}, {Seconds: 10000000000, Nanos: 5}, {Seconds: 18446744074}, {Seconds: -18446744074}, {Seconds: 28000000000}, {Seconds: -28000000000}}
		return odd[g.R.N(len(odd))]
	}
	if r.GetLtNow() || r.GetGtNow() || r.Within != nil {
		w := time.Hour
		if r.Within != nil {
			w = r.Within.AsDuration()
		}
		offs := []time.Duration{w / 2, w / 3, w - w/100 - 1, w + w/100 + 1, 2 * w, 400 * 24 * time.Hour, time.Second, 30 * time.Second}
		if g.Spread {
			offs = append(offs, 0, 1, w+1, w-1, time.Millisecond)
		}
		o := offs[g.R.N(len(offs))]
		if g.R.P(0.5) {
			o = -o
		}
		return timestamppb.New(g.Now.Add(o))
	}
	base := []time.Time{time.Unix(0, 0), time.Unix(1500, 7), time.Unix(99999999, 0)}
	for _, d := range []*timestamppb.Timestamp{r.GetConst(), r.GetLt(), r.GetLte(), r.GetGt(), r.GetGte()} {
		if d != nil {
			base = append(base, d.AsTime(), d.AsTime().Add(1), d.AsTime().Add(-1), d.AsTime().Add(time.Second))
		}
	}
	return timestamppb.New(base[g.R.N(len(base))])
}

func (g *Gen) setScalar(m protoreflect.Message, fd protoreflect.FieldDescriptor, r *validate.FieldRules) {
	m.Set(fd, g.pick(fd, r, 0))
}

// pick draws a scalar, valid with probability g.Valid.
func (g *Gen) pick(fd protoreflect.FieldDescriptor, r *validate.FieldRules, i int) protoreflect.Value {
	want := g.R.P(g.Valid)
	var v protoreflect.Value
	for try := 0; try < 24; try++ {
		v = g.cand(fd, r, i)
		if !want || !Bad(v, true, fd, r, g.Now) {
			break
		}
	}
	return v
}

func (g *Gen) word() string {
	const al = "aaxyzmq09é"
	rs := []rune(al)
	n := g.R.N(7)
	if g.R.P(0.02) {
		n = 7 + g.R.N(300)
	}
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteRune(rs[g.R.N(len(rs))])
	}
	return b.String()
}

func (g *Gen) lower() string {
	n := 1 + g.R.N(6)
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteByte("abcmxz"[g.R.N(6)])
	}
	return b.String()
}

func (g *Gen) cand(fd protoreflect.FieldDescriptor, r *validate.FieldRules, i int) protoreflect.Value {
	switch fd.Kind() {
	case protoreflect.StringKind:
		s := r.GetString_()
		if s != nil {
			if k := Kind(s); k != "" {
				l := knownList[k]
				if s.GetIgnoreEmpty() && g.R.P(0.2) {
					return protoreflect.ValueOfString("")
				}
				return protoreflect.ValueOfString(l[g.R.N(len(l))])
			}
		}
		opts := []string{g.word(), g.lower(), g.lower(), "", "q7" + g.word(), "aaa"[:g.R.N(4)]}
		if s.GetConst() != "" {
			opts = append(opts, s.GetConst(), s.GetConst())
		}
		opts = append(opts, s.GetIn()...)
		opts = append(opts, s.GetNotIn()...)
		if s.GetPrefix() != "" {
			opts = append(opts, s.GetPrefix()+"9"+s.GetContains()+s.GetSuffix(), s.GetPrefix()+s.GetContains()+"99"+s.GetSuffix(), s.GetPrefix()+s.GetNotContains()+s.GetSuffix())
		}
		return protoreflect.ValueOfString(opts[g.R.N(len(opts))])
	case protoreflect.BytesKind:
		b := r.GetBytes()
		opts := [][]byte{[]byte(g.word()), []byte(g.lower()), nil, []byte("xyz"), {0xff, 0x00}}
		if b.GetConst() != nil {
			opts = append(opts, b.GetConst(), b.GetConst())
		}
		opts = append(opts, b.GetIn()...)
		if b.GetPrefix() != nil {
			opts = append(opts, []byte(string(b.GetPrefix())+string(b.GetContains())+string(b.GetSuffix())))
		}
		if b.GetIp() || b.GetIpv4() || b.GetIpv6() {
			opts = append(opts, []byte{10, 0, 0, 1}, []byte("0123456789abcdef"), []byte{1, 2, 3})
		}
		x := opts[g.R.N(len(opts))]
		return protoreflect.ValueOfBytes(append([]byte(nil), x...))
	case protoreflect.BoolKind:
		return protoreflect.ValueOfBool(g.R.P(0.5))
	case protoreflect.EnumKind:
		vs := []int32{0, 1, 2, 5, -3, 9}
		return protoreflect.ValueOfEnum(protoreflect.EnumNumber(vs[g.R.N(len(vs))]))
	}
	// numbers
	cs := []float64{0, 1, -1, 2, 3, float64(g.R.N(120)), float64(-g.R.N(20)), 1.5}
	if r != nil {
		rm := r.ProtoReflect()
		if of := rm.WhichOneof(rm.Descriptor().Oneofs().ByName("type")); of != nil && of.Message() != nil {
			sub := rm.Get(of).Message()
			sfs := sub.Descriptor().Fields()
			for fi := 0; fi < sfs.Len(); fi++ {
				f := sfs.Get(fi)
				if !sub.Has(f) {
					continue
				}
				v := sub.Get(f)
				add := func(x protoreflect.Value) {
					switch y := x.Interface().(type) {
					case int32:
						cs = append(cs, float64(y), float64(y)+1, float64(y)-1)
					case int64:
						cs = append(cs, float64(y), float64(y)+1, float64(y)-1)
					case uint32:
						cs = append(cs, float64(y), float64(y)+1, float64(y)-1)
					case uint64:
						cs = append(cs, float64(y), float64(y)+1, float64(y)-1)
					case float32:
						cs = append(cs, float64(y), float64(y)+0.5, float64(y)-0.5)
					case float64:
						cs = append(cs, y, y+0.5, y-0.5)
					}
				}
				if f.IsList() {
					for i := 0; i < v.List().Len(); i++ {
						add(v.List().Get(i))
					}
				} else {
					add(v)
				}
			}
		}
	}
	x := cs[g.R.N(len(cs))]
	abs := x
	if abs < 0 {
		abs = -abs
	}
	switch fd.Kind() {
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		return protoreflect.ValueOfInt32(int32(x))
	case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		return protoreflect.ValueOfInt64(int64(x))
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		return protoreflect.ValueOfUint32(uint32(abs))
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		return protoreflect.ValueOfUint64(uint64(abs))
	case protoreflect.FloatKind:
		return protoreflect.ValueOfFloat32(float32(x))
	}
	return protoreflect.ValueOfFloat64(x)
}

// setNil puts a nil message value into a map field through the Go struct.
func setNil(m protoreflect.Message, fd protoreflect.FieldDescriptor, k protoreflect.MapKey) {
	sv := reflect.ValueOf(m.Interface()).Elem()
	for i := 0; i < sv.NumField(); i++ {
		for _, part := range strings.Split(sv.Type().Field(i).Tag.Get("protobuf"), ",") {
			if part == "name="+string(fd.Name()) {
				f := sv.Field(i)
				if f.IsNil() {
					f.Set(reflect.MakeMap(f.Type()))
				}
				f.SetMapIndex(reflect.ValueOf(k.Interface()).Convert(f.Type().Key()), reflect.Zero(f.Type().Elem()))
			}
		}
	}
}
