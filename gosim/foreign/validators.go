package simforeign

import (
	"errors"
	"strings"

	"pgvsim/simrt"
)

// Hand-written validators of types that do not come from the plugin: Full has
// both methods, Legacy only Validate, Plain none. A simulated fault can make
// any single call fail.

type FieldErr struct{ F string }

func (e FieldErr) Error() string     { return "foreign: bad " + e.F }
func (e FieldErr) Field() string     { return e.F }
func (e FieldErr) Reason() string    { return "foreign" }
func (e FieldErr) Cause() error      { return nil }
func (e FieldErr) Key() bool         { return false }
func (e FieldErr) ErrorName() string { return "FieldErr" }

type Many []error

func (m Many) Error() string {
	var s []string
	for _, e := range m {
		s = append(s, e.Error())
	}
	return strings.Join(s, "; ")
}
func (m Many) AllErrors() []error { return m }

var ErrLegacy = errors.New("foreign: legacy child is invalid")

func (x *Full) bad() (out Many) {
	if x == nil {
		return nil
	}
	if strings.HasPrefix(x.Token, "fail") {
		out = append(out, FieldErr{"Token"})
	}
	if x.N < 0 {
		out = append(out, FieldErr{"N"})
	}
	return
}

func (x *Full) Validate() error {
	simrt.Y(1)
	if err := simrt.ForeignFault(); err != nil {
		return err
	}
	if b := x.bad(); len(b) > 0 {
		return b[0]
	}
	return nil
}

func (x *Full) ValidateAll() error {
	simrt.Y(2)
	if err := simrt.ForeignFault(); err != nil {
		return err
	}
	if b := x.bad(); len(b) > 0 {
		return b
	}
	return nil
}

func (x *Legacy) Validate() error {
	simrt.Y(3)
	if err := simrt.ForeignFault(); err != nil {
		return err
	}
	if x != nil && (strings.HasPrefix(x.Token, "fail") || x.N < 0) {
		return ErrLegacy
	}
	return nil
}
