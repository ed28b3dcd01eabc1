// Package model is the reference model: a sequential, stateless evaluation of
// the validation rules by reflection over a message's descriptor, written from
// the rules' documentation. It returns the multiset of violations expected of
// a message at one instant.
package model

import (
	"bytes"
	"fmt"
	"math"
	"net"
	"regexp"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/envoyproxy/protoc-gen-validate/validate"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/timestamppb"
)

// V is one expected violation.
type V struct {
	Path string
	May  bool // unspecified: may or may not be reported
}

type eval struct {
	now time.Time
	out []V
}

// Norm makes a proto field name and its Go spelling comparable.
func Norm(s string) string {
	if i := strings.IndexByte(s, '['); i >= 0 {
		return Norm(s[:i]) + s[i:]
	}
	return strings.ToLower(strings.ReplaceAll(s, "_", ""))
}

// Eval evaluates m at time now.
func Eval(m proto.Message, now time.Time) []V {
	e := &eval{now: now}
	e.message(m.ProtoReflect(), "")
	return e.out
}

func Rules(fd protoreflect.FieldDescriptor) *validate.FieldRules {
	o := fd.Options()
	if o == nil || !proto.HasExtension(o, validate.E_Rules) {
		return nil
	}
	return proto.GetExtension(o, validate.E_Rules).(*validate.FieldRules)
}

func boolOpt(o protoreflect.ProtoMessage, x protoreflect.ExtensionType) bool {
	if o == nil || !o.ProtoReflect().IsValid() || !proto.HasExtension(o, x) {
		return false
	}
	return proto.GetExtension(o, x).(bool)
}

func (e *eval) add(path string) { e.out = append(e.out, V{Path: path}) }

// HasValidator tells whether the message type gets a generated or hand-written
// validator.
func foreign(md protoreflect.MessageDescriptor) string {
	if md.ParentFile().Package() == "sim.foreign" {
		return string(md.Name())
	}
	if strings.HasPrefix(string(md.FullName()), "google.protobuf.") {
		return "Plain"
	}
	return ""
}

func tokenN(m protoreflect.Message) (string, int64) {
	fs := m.Descriptor().Fields()
	return m.Get(fs.ByName("token")).String(), m.Get(fs.ByName("n")).Int()
}

func (e *eval) message(m protoreflect.Message, path string) {
	if !m.IsValid() {
		return
	}
	md := m.Descriptor()
	switch foreign(md) {
	case "Full":
		t, n := tokenN(m)
		if strings.HasPrefix(t, "fail") {
			e.add(path + "/token")
		}
		if n < 0 {
			e.add(path + "/n")
		}
		return
	case "Legacy":
		t, n := tokenN(m)
		if strings.HasPrefix(t, "fail") || n < 0 {
			e.add(path)
		}
		return
	case "Plain":
		return
	}
	if boolOpt(md.Options(), validate.E_Disabled) || boolOpt(md.Options(), validate.E_Ignored) {
		return
	}
	fs := md.Fields()
	for i := 0; i < fs.Len(); i++ {
		fd := fs.Get(i)
		oo := fd.ContainingOneof()
		if oo != nil && !oo.IsSynthetic() && m.WhichOneof(oo) != fd {
			continue
		}
		e.field(m, fd, path+"/"+Norm(string(fd.Name())))
	}
	oos := md.Oneofs()
	for i := 0; i < oos.Len(); i++ {
		oo := oos.Get(i)
		if oo.IsSynthetic() {
			continue
		}
		if boolOpt(oo.Options(), validate.E_Required) && m.WhichOneof(oo) == nil {
			e.add(path + "/" + Norm(string(oo.Name())))
		}
	}
}

func (e *eval) field(m protoreflect.Message, fd protoreflect.FieldDescriptor, path string) {
	r := Rules(fd)
	switch {
	case fd.IsMap():
		mp := m.Get(fd).Map()
		mr := r.GetMap()
		if mr.GetIgnoreEmpty() && mp.Len() == 0 {
			return
		}
		if mr != nil {
			e.size(mr.MinPairs, mr.MaxPairs, mp.Len(), path)
		}
		mp.Range(func(k protoreflect.MapKey, v protoreflect.Value) bool {
			p := fmt.Sprintf("%s[%v]", path, k.Interface())
			if mr.GetNoSparse() && fd.MapValue().Message() != nil && !v.Message().IsValid() {
				e.add(p)
			}
			if kr := mr.GetKeys(); kr != nil {
				e.value(k.Value(), true, fd.MapKey(), kr, p)
			}
			e.value(v, true, fd.MapValue(), mr.GetValues(), p)
			return true
		})
	case fd.IsList():
		l := m.Get(fd).List()
		rr := r.GetRepeated()
		if rr.GetIgnoreEmpty() && l.Len() == 0 {
			return
		}
		if rr != nil {
			e.size(rr.MinItems, rr.MaxItems, l.Len(), path)
		}
		seen := map[interface{}]bool{}
		for i := 0; i < l.Len(); i++ {
			p := fmt.Sprintf("%s[%d]", path, i)
			v := l.Get(i)
			if rr.GetUnique() {
				k := v.Interface()
				if b, ok := k.([]byte); ok {
					k = string(b)
				}
				if seen[k] {
					e.add(p)
				}
				seen[k] = true
			}
			e.value(v, true, fd, rr.GetItems(), p)
		}
	default:
		e.value(m.Get(fd), m.Has(fd), fd, r, path)
	}
}

func (e *eval) size(min, max *uint64, n int, path string) {
	if min != nil && uint64(n) < *min || max != nil && uint64(n) > *max {
		e.add(path)
	}
}

var wrappers = map[protoreflect.FullName]bool{
	"google.protobuf.StringValue": true, "google.protobuf.BytesValue": true, "google.protobuf.BoolValue": true,
	"google.protobuf.Int32Value": true, "google.protobuf.Int64Value": true, "google.protobuf.UInt32Value": true,
	"google.protobuf.UInt64Value": true, "google.protobuf.FloatValue": true, "google.protobuf.DoubleValue": true,
}

// value applies r to one scalar, element or embedded message. present is false
// for an unset singular message field.
func (e *eval) value(v protoreflect.Value, present bool, fd protoreflect.FieldDescriptor, r *validate.FieldRules, path string) {
	if fd.Kind() == protoreflect.MessageKind {
		msg := v.Message()
		if !msg.IsValid() {
			present = false
		}
		md := msg.Descriptor()
		name := md.FullName()
		if r.GetType() != nil && wrappers[name] {
			if !present {
				if r.GetMessage().GetRequired() {
					e.add(path)
				}
				return
			}
			inner := md.Fields().ByName("value")
			e.scalar(msg.Get(inner), inner, r, path)
			return
		}
		switch t := r.GetType().(type) {
		case *validate.FieldRules_Any:
			if !present {
				if t.Any.GetRequired() {
					e.add(path)
				}
				return
			}
			url := msg.Get(md.Fields().ByName("type_url")).String()
			e.in(path, len(t.Any.In), len(t.Any.NotIn), func(i int) bool { return t.Any.In[i] == url }, func(i int) bool { return t.Any.NotIn[i] == url })
			return
		case *validate.FieldRules_Duration:
			if !present {
				if t.Duration.GetRequired() {
					e.add(path)
				}
				return
			}
			e.duration(msg.Interface().(*durationpb.Duration), t.Duration, path)
			return
		case *validate.FieldRules_Timestamp:
			if !present {
				if t.Timestamp.GetRequired() {
					e.add(path)
				}
				return
			}
			e.timestamp(msg.Interface().(*timestamppb.Timestamp), t.Timestamp, path)
			return
		}
		if r.GetMessage().GetRequired() && !present {
			e.add(path)
		}
		if present && !r.GetMessage().GetSkip() {
			e.message(msg, path)
		}
		return
	}
	e.scalar(v, fd, r, path)
}

func (e *eval) in(path string, nin, nnot int, isin, isnot func(int) bool) {
	if nin > 0 {
		for i := 0; i < nin; i++ {
			if isin(i) {
				return
			}
		}
		e.add(path)
		return
	}
	for i := 0; i < nnot; i++ {
		if isnot(i) {
			e.add(path)
			return
		}
	}
}

// num checks one numeric rule block read by reflection (all numeric rule
// messages have the same field names).
func (e *eval) num(v protoreflect.Value, rules protoreflect.Message, path string) {
	cmp := func(a, b protoreflect.Value) int {
		switch x := a.Interface().(type) {
		case int32:
			return c3(float64(x), float64(b.Int()))
		case uint32:
			return c3(float64(x), float64(b.Uint()))
		case int64:
			y := b.Int()
			if x < y {
				return -1
			} else if x > y {
				return 1
			}
			return 0
		case uint64:
			y := b.Uint()
			if x < y {
				return -1
			} else if x > y {
				return 1
			}
			return 0
		case float32:
			return c3(float64(x), b.Float())
		case float64:
			return c3(x, b.Float())
		}
		panic(fmt.Sprintf("model: number %T", a.Interface()))
	}
	fs := rules.Descriptor().Fields()
	get := func(n protoreflect.Name) (protoreflect.Value, bool) {
		fd := fs.ByName(n)
		return rules.Get(fd), rules.Has(fd)
	}
	if ie, ok := get("ignore_empty"); ok && ie.Bool() && isZero(v) {
		return
	}
	if c, ok := get("const"); ok && cmp(v, c) != 0 {
		e.add(path)
	}
	lo, hi := -1, -1 // -1 none, 0 exclusive, 1 inclusive
	var lov, hiv protoreflect.Value
	for _, b := range []struct {
		n   protoreflect.Name
		inc int
		low bool
	}{{"gt", 0, true}, {"gte", 1, true}, {"lt", 0, false}, {"lte", 1, false}} {
		if x, ok := get(b.n); ok {
			if b.low {
				lo, lov = b.inc, x
			} else {
				hi, hiv = b.inc, x
			}
		}
	}
	okLo, okHi := true, true
	if lo >= 0 {
		c := cmp(v, lov)
		okLo = c > 0 || c == 0 && lo == 1
	}
	if hi >= 0 {
		c := cmp(v, hiv)
		okHi = c < 0 || c == 0 && hi == 1
	}
	if lo >= 0 && hi >= 0 && cmp(hiv, lov) <= 0 { // inverted bounds: outside the range
		if !okLo && !okHi {
			e.add(path)
		}
	} else if !okLo || !okHi {
		e.add(path)
	}
	inl, _ := get("in")
	notl, _ := get("not_in")
	e.in(path, inl.List().Len(), notl.List().Len(),
		func(i int) bool { return cmp(v, inl.List().Get(i)) == 0 },
		func(i int) bool { return cmp(v, notl.List().Get(i)) == 0 })
}

func isZero(v protoreflect.Value) bool {
	switch x := v.Interface().(type) {
	case int32:
		return x == 0
	case int64:
		return x == 0
	case uint32:
		return x == 0
	case uint64:
		return x == 0
	case float32:
		return x == 0
	case float64:
		return x == 0
	}
	return false
}

func c3(a, b float64) int {
	switch {
	case math.IsNaN(a) || math.IsNaN(b):
		panic("model: NaN")
	case a < b:
		return -1
	case a > b:
		return 1
	}
	return 0
}

func (e *eval) scalar(v protoreflect.Value, fd protoreflect.FieldDescriptor, r *validate.FieldRules, path string) {
	switch t := r.GetType().(type) {
	case nil:
	case *validate.FieldRules_String_:
		e.str(v.String(), t.String_, path)
	case *validate.FieldRules_Bytes:
		e.bytes(v.Bytes(), t.Bytes, path)
	case *validate.FieldRules_Bool:
		if t.Bool.Const != nil && v.Bool() != *t.Bool.Const {
			e.add(path)
		}
	case *validate.FieldRules_Enum:
		n := int32(v.Enum())
		if t.Enum.Const != nil && n != *t.Enum.Const {
			e.add(path)
		}
		e.in(path, len(t.Enum.In), len(t.Enum.NotIn), func(i int) bool { return t.Enum.In[i] == n }, func(i int) bool { return t.Enum.NotIn[i] == n })
		if t.Enum.GetDefinedOnly() && fd.Enum().Values().ByNumber(protoreflect.EnumNumber(n)) == nil {
			e.add(path)
		}
	default:
		rm := r.ProtoReflect()
		of := rm.WhichOneof(rm.Descriptor().Oneofs().ByName("type"))
		e.num(v, rm.Get(of).Message(), path)
	}
}

func rng(e *eval, n uint64, eq, min, max *uint64, path string) {
	if eq != nil {
		if n != *eq {
			e.add(path)
		}
		return
	}
	if min != nil && n < *min || max != nil && n > *max {
		e.add(path)
	}
}

// Known holds the dictionary of well-known strings whose validity is beyond
// doubt; the generator uses no others for fields with such a rule.
var Known = map[string]map[string]bool{}

func known(kind, s string) bool {
	ok, have := Known[kind][s]
	if !have {
		panic(fmt.Sprintf("model: %q is not in the %s dictionary", s, kind))
	}
	return ok
}

func (e *eval) str(s string, r *validate.StringRules, path string) {
	if r.GetIgnoreEmpty() && s == "" {
		return
	}
	bad := func(b bool) {
		if b {
			e.add(path)
		}
	}
	bad(r.Const != nil && s != r.GetConst())
	e.in(path, len(r.In), len(r.NotIn), func(i int) bool { return r.In[i] == s }, func(i int) bool { return r.NotIn[i] == s })
	rng(e, uint64(utf8.RuneCountInString(s)), r.Len, r.MinLen, r.MaxLen, path)
	rng(e, uint64(len(s)), r.LenBytes, r.MinBytes, r.MaxBytes, path)
	bad(r.Prefix != nil && !strings.HasPrefix(s, r.GetPrefix()))
	bad(r.Suffix != nil && !strings.HasSuffix(s, r.GetSuffix()))
	bad(r.Contains != nil && !strings.Contains(s, r.GetContains()))
	bad(r.NotContains != nil && strings.Contains(s, r.GetNotContains()))
	if k := Kind(r); k != "" {
		bad(!known(k, s))
	}
	if r.Pattern != nil {
		bad(!rx(r.GetPattern()).MatchString(s))
	}
}

// Kind names the well-known format of a string rule, if any.
func Kind(r *validate.StringRules) string {
	switch {
	case r.GetIp():
		return "ip"
	case r.GetIpv4():
		return "ipv4"
	case r.GetIpv6():
		return "ipv6"
	case r.GetEmail():
		return "email"
	case r.GetHostname():
		return "hostname"
	case r.GetAddress():
		return "address"
	case r.GetUri():
		return "uri"
	case r.GetUriRef():
		return "uri_ref"
	case r.GetUuid():
		return "uuid"
	case r.GetWellKnownRegex() != validate.KnownRegex_UNKNOWN:
		return fmt.Sprintf("%v/%v", r.GetWellKnownRegex(), r.GetStrict())
	}
	return ""
}

var rxs = map[string]*regexp.Regexp{}

func rx(p string) *regexp.Regexp {
	if rxs[p] == nil {
		rxs[p] = regexp.MustCompile(p)
	}
	return rxs[p]
}

func (e *eval) bytes(b []byte, r *validate.BytesRules, path string) {
	if r.GetIgnoreEmpty() && len(b) == 0 {
		return
	}
	bad := func(x bool) {
		if x {
			e.add(path)
		}
	}
	rng(e, uint64(len(b)), r.Len, r.MinLen, r.MaxLen, path)
	bad(r.Prefix != nil && !bytes.HasPrefix(b, r.Prefix))
	bad(r.Suffix != nil && !bytes.HasSuffix(b, r.Suffix))
	bad(r.Contains != nil && !bytes.Contains(b, r.Contains))
	e.in(path, len(r.In), len(r.NotIn), func(i int) bool { return bytes.Equal(r.In[i], b) }, func(i int) bool { return bytes.Equal(r.NotIn[i], b) })
	bad(r.Const != nil && !bytes.Equal(b, r.Const))
	switch {
	case r.GetIp():
		bad(len(b) != net.IPv4len && len(b) != net.IPv6len)
	case r.GetIpv4():
		bad(len(b) != net.IPv4len)
	case r.GetIpv6():
		bad(len(b) != net.IPv6len)
	}
	if r.Pattern != nil {
		bad(!rx(r.GetPattern()).Match(b))
	}
}

func (e *eval) duration(d *durationpb.Duration, r *validate.DurationRules, path string) {
	cmp := func(x *durationpb.Duration) int {
		if a, b := d.AsDuration(), x.AsDuration(); a < b {
			return -1
		} else if a > b {
			return 1
		}
		return 0
	}
	if r.Const == nil && r.Lt == nil && r.Lte == nil && r.Gt == nil && r.Gte == nil && len(r.In) == 0 && len(r.NotIn) == 0 {
		return
	}
	if !d.IsValid() {
		e.add(path)
		return
	}
	if r.Const != nil && cmp(r.Const) != 0 {
		e.add(path)
	}
	okLo, okHi := true, true
	var lo, hi *durationpb.Duration
	if r.Gt != nil {
		lo, okLo = r.Gt, cmp(r.Gt) > 0
	} else if r.Gte != nil {
		lo, okLo = r.Gte, cmp(r.Gte) >= 0
	}
	if r.Lt != nil {
		hi, okHi = r.Lt, cmp(r.Lt) < 0
	} else if r.Lte != nil {
		hi, okHi = r.Lte, cmp(r.Lte) <= 0
	}
	if lo != nil && hi != nil && hi.AsDuration() <= lo.AsDuration() {
		if !okLo && !okHi {
			e.add(path)
		}
	} else if !okLo || !okHi {
		e.add(path)
	}
	e.in(path, len(r.In), len(r.NotIn), func(i int) bool { return cmp(r.In[i]) == 0 }, func(i int) bool { return cmp(r.NotIn[i]) == 0 })
}

func (e *eval) timestamp(t *timestamppb.Timestamp, r *validate.TimestampRules, path string) {
	if !t.IsValid() {
		// (LtNow and GtNow count as soon as they are set)
		if r.Const != nil || r.Lt != nil || r.Lte != nil || r.Gt != nil || r.Gte != nil || r.LtNow != nil || r.GtNow != nil || r.Within != nil {
			e.add(path)
		}
		return
	}
	ts := t.AsTime()
	cmp := func(x time.Time) int {
		if ts.Before(x) {
			return -1
		} else if ts.After(x) {
			return 1
		}
		return 0
	}
	if r.Const != nil && cmp(r.Const.AsTime()) != 0 {
		e.add(path)
	}
	okLo, okHi := true, true
	var lo, hi *timestamppb.Timestamp
	if r.Gt != nil {
		lo, okLo = r.Gt, cmp(r.Gt.AsTime()) > 0
	} else if r.Gte != nil {
		lo, okLo = r.Gte, cmp(r.Gte.AsTime()) >= 0
	}
	if r.Lt != nil {
		hi, okHi = r.Lt, cmp(r.Lt.AsTime()) < 0
	} else if r.Lte != nil {
		hi, okHi = r.Lte, cmp(r.Lte.AsTime()) <= 0
	}
	if lo != nil && hi != nil && !hi.AsTime().After(lo.AsTime()) {
		if !okLo && !okHi {
			e.add(path)
		}
	} else if !okLo || !okHi {
		e.add(path)
	}
	// the rules on the current time
	bad, may := false, false
	if r.GetLtNow() && cmp(e.now) >= 0 || r.GetGtNow() && cmp(e.now) <= 0 {
		bad = true
	}
	if r.Within != nil {
		w := r.Within.AsDuration()
		far := cmp(e.now.Add(w))
		near := cmp(e.now.Add(-w))
		if far > 0 || near < 0 {
			bad = true
		} else if far == 0 || near == 0 {
			may = true // at exactly the limit: unspecified
		}
	}
	if bad {
		e.add(path)
	} else if may {
		e.out = append(e.out, V{path, true})
	}
}

// Bad tells whether one value on its own breaks r.
func Bad(v protoreflect.Value, present bool, fd protoreflect.FieldDescriptor, r *validate.FieldRules, now time.Time) bool {
	e := &eval{now: now}
	e.value(v, present, fd, r, "")
	return len(e.out) > 0
}
