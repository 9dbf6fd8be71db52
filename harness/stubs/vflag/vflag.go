// Package vflag stands in for flag: the same parsing, with output to vos and
// values that can be reset.
package vflag

import (
	"errors"
	"fmt"
	"io"
	"strconv"
	"time"

	"github.com/webrpc/webrpc/internal/vos"
)

var ErrHelp = errors.New("flag: help requested")

type ErrorHandling int

const (
	ContinueOnError ErrorHandling = iota
	ExitOnError
	PanicOnError
)

type Value interface {
	String() string
	Set(string) error
}

type boolFlag interface {
	Value
	IsBoolFlag() bool
}

type Flag struct {
	Name, Usage string
	Value       Value
	DefValue    string
}

type FlagSet struct {
	Usage  func()
	name   string
	how    ErrorHandling
	formal []*Flag
	actual []string
	args   []string
	parsed bool
	out    io.Writer
}

var sets []*FlagSet

// CommandLine is the default set.
var CommandLine = NewFlagSet("webrpc-gen", ExitOnError)

// Reset makes all sets as they were before parsing.
func Reset() {
	for _, f := range sets {
		for _, v := range f.formal {
			v.Value.Set(v.DefValue)
		}
		f.Usage, f.actual, f.args, f.parsed = nil, nil, nil, false
	}
}

func NewFlagSet(name string, how ErrorHandling) *FlagSet {
	f := &FlagSet{name: name, how: how}
	sets = append(sets, f)
	return f
}

func (f *FlagSet) Init(name string, how ErrorHandling) { f.name, f.how = name, how }
func (f *FlagSet) Name() string                        { return f.name }
func (f *FlagSet) ErrorHandling() ErrorHandling        { return f.how }
func (f *FlagSet) SetOutput(w io.Writer)               { f.out = w }
func (f *FlagSet) Parsed() bool                        { return f.parsed }
func (f *FlagSet) Args() []string                      { return f.args }
func (f *FlagSet) NArg() int                           { return len(f.args) }
func (f *FlagSet) NFlag() int                          { return len(f.actual) }
func (f *FlagSet) Arg(i int) string {
	if i < 0 || i >= len(f.args) {
		return ""
	}
	return f.args[i]
}

func (f *FlagSet) Output() io.Writer {
	if f.out == nil {
		return vos.Stderr
	}
	return f.out
}

func (f *FlagSet) Lookup(name string) *Flag {
	for _, v := range f.formal {
		if v.Name == name {
			return v
		}
	}
	return nil
}

func (f *FlagSet) Set(name, value string) error {
	v := f.Lookup(name)
	if v == nil {
		return fmt.Errorf("no such flag -%v", name)
	}
	if err := v.Value.Set(value); err != nil {
		return err
	}
	f.mark(name)
	return nil
}

func (f *FlagSet) mark(name string) {
	for _, n := range f.actual {
		if n == name {
			return
		}
	}
	f.actual = append(f.actual, name)
}

func (f *FlagSet) VisitAll(fn func(*Flag)) {
	for i := range f.formal {
		for k := i; k > 0 && f.formal[k].Name < f.formal[k-1].Name; k-- {
			f.formal[k], f.formal[k-1] = f.formal[k-1], f.formal[k]
		}
	}
	for _, v := range f.formal {
		fn(v)
	}
}

func (f *FlagSet) Visit(fn func(*Flag)) {
	f.VisitAll(func(v *Flag) {
		for _, n := range f.actual {
			if n == v.Name {
				fn(v)
			}
		}
	})
}

func (f *FlagSet) PrintDefaults() {
	f.VisitAll(func(v *Flag) {
		io.WriteString(f.Output(), "  -"+v.Name+"\n\t"+v.Usage+"\n")
	})
}

func (f *FlagSet) Var(v Value, name, usage string) {
	if f.Lookup(name) != nil {
		panic("flag redefined: " + name)
	}
	f.formal = append(f.formal, &Flag{Name: name, Usage: usage, Value: v, DefValue: v.String()})
}

type boolValue bool

func (b *boolValue) Set(s string) error {
	v, err := strconv.ParseBool(s)
	if err != nil {
		return errors.New("parse error")
	}
	*b = boolValue(v)
	return nil
}
func (b *boolValue) String() string {
	if *b {
		return "true"
	}
	return "false"
}
func (b *boolValue) IsBoolFlag() bool { return true }

type stringValue string

func (s *stringValue) Set(v string) error { *s = stringValue(v); return nil }
func (s *stringValue) String() string     { return string(*s) }

type intValue int

func (i *intValue) Set(s string) error {
	v, err := strconv.ParseInt(s, 0, 64)
	if err != nil {
		return errors.New("parse error")
	}
	*i = intValue(v)
	return nil
}
func (i *intValue) String() string { return strconv.Itoa(int(*i)) }

type durationValue time.Duration

func (d *durationValue) Set(s string) error {
	v, err := time.ParseDuration(s)
	if err != nil {
		return errors.New("parse error")
	}
	*d = durationValue(v)
	return nil
}
func (d *durationValue) String() string { return time.Duration(*d).String() }

type funcValue func(string) error

func (f funcValue) Set(s string) error { return f(s) }
func (f funcValue) String() string     { return "" }

func (f *FlagSet) BoolVar(p *bool, name string, value bool, usage string) {
	*p = value
	f.Var((*boolValue)(p), name, usage)
}
func (f *FlagSet) Bool(name string, value bool, usage string) *bool {
	p := new(bool)
	f.BoolVar(p, name, value, usage)
	return p
}
func (f *FlagSet) StringVar(p *string, name, value, usage string) {
	*p = value
	f.Var((*stringValue)(p), name, usage)
}
func (f *FlagSet) String(name, value, usage string) *string {
	p := new(string)
	f.StringVar(p, name, value, usage)
	return p
}
func (f *FlagSet) IntVar(p *int, name string, value int, usage string) {
	*p = value
	f.Var((*intValue)(p), name, usage)
}
func (f *FlagSet) Int(name string, value int, usage string) *int {
	p := new(int)
	f.IntVar(p, name, value, usage)
	return p
}
func (f *FlagSet) DurationVar(p *time.Duration, name string, value time.Duration, usage string) {
	*p = value
	f.Var((*durationValue)(p), name, usage)
}
func (f *FlagSet) Duration(name string, value time.Duration, usage string) *time.Duration {
	p := new(time.Duration)
	f.DurationVar(p, name, value, usage)
	return p
}
func (f *FlagSet) Func(name, usage string, fn func(string) error) { f.Var(funcValue(fn), name, usage) }

func (f *FlagSet) usage() {
	if f.Usage != nil {
		f.Usage()
		return
	}
	io.WriteString(f.Output(), "Usage of "+f.name+":\n")
	f.PrintDefaults()
}

func (f *FlagSet) bad(msg string) error {
	io.WriteString(f.Output(), msg+"\n")
	f.usage()
	return errors.New(msg)
}

func (f *FlagSet) parseOne() (bool, error) {
	if len(f.args) == 0 {
		return false, nil
	}
	s := f.args[0]
	if len(s) < 2 || s[0] != '-' {
		return false, nil
	}
	n := 1
	if s[1] == '-' {
		n++
		if len(s) == 2 {
			f.args = f.args[1:]
			return false, nil
		}
	}
	name := s[n:]
	if len(name) == 0 || name[0] == '-' || name[0] == '=' {
		return false, f.bad("bad flag syntax: " + s)
	}
	f.args = f.args[1:]
	has, value := false, ""
	for i := 1; i < len(name); i++ {
		if name[i] == '=' {
			value, has, name = name[i+1:], true, name[:i]
			break
		}
	}
	v := f.Lookup(name)
	if v == nil {
		if name == "help" || name == "h" {
			f.usage()
			return false, ErrHelp
		}
		return false, f.bad("flag provided but not defined: -" + name)
	}
	if b, ok := v.Value.(boolFlag); ok && b.IsBoolFlag() {
		if !has {
			value = "true"
		}
		if err := b.Set(value); err != nil {
			return false, f.bad("invalid boolean value for -" + name)
		}
	} else {
		if !has && len(f.args) > 0 {
			has, value, f.args = true, f.args[0], f.args[1:]
		}
		if !has {
			return false, f.bad("flag needs an argument: -" + name)
		}
		if err := v.Value.Set(value); err != nil {
			return false, f.bad("invalid value for flag -" + name)
		}
	}
	f.mark(name)
	return true, nil
}

func (f *FlagSet) Parse(args []string) error {
	f.parsed, f.args = true, args
	for {
		seen, err := f.parseOne()
		if seen {
			continue
		}
		if err == nil {
			return nil
		}
		switch f.how {
		case ContinueOnError:
			return err
		case ExitOnError:
			if err == ErrHelp {
				vos.Exit(0)
			}
			vos.Exit(2)
		case PanicOnError:
			panic(err)
		}
	}
}

func Parse()                                      { CommandLine.Parse(vos.Args[1:]) }
func Parsed() bool                                { return CommandLine.Parsed() }
func Args() []string                              { return CommandLine.Args() }
func Arg(i int) string                            { return CommandLine.Arg(i) }
func NArg() int                                   { return CommandLine.NArg() }
func Lookup(n string) *Flag                       { return CommandLine.Lookup(n) }
func PrintDefaults()                              { CommandLine.PrintDefaults() }
func Bool(n string, v bool, u string) *bool       { return CommandLine.Bool(n, v, u) }
func String(n, v, u string) *string               { return CommandLine.String(n, v, u) }
func Int(n string, v int, u string) *int          { return CommandLine.Int(n, v, u) }
func BoolVar(p *bool, n string, v bool, u string) { CommandLine.BoolVar(p, n, v, u) }
func StringVar(p *string, n, v, u string)         { CommandLine.StringVar(p, n, v, u) }
func IntVar(p *int, n string, v int, u string)    { CommandLine.IntVar(p, n, v, u) }
func Func(n, u string, fn func(string) error)     { CommandLine.Func(n, u, fn) }

type (
	Getter interface {
		Value
		Get() any
	}
	float64Value float64
	int64Value   int64
	uint64Value  uint64
)

func (v *float64Value) Set(s string) (err error) {
	f, err := strconv.ParseFloat(s, 64)
	*v = float64Value(f)
	return
}
func (v *float64Value) String() string { return strconv.FormatFloat(float64(*v), 'g', -1, 64) }
func (v *int64Value) Set(s string) (err error) {
	n, err := strconv.ParseInt(s, 0, 64)
	*v = int64Value(n)
	return
}
func (v *int64Value) String() string { return strconv.FormatInt(int64(*v), 10) }
func (v *uint64Value) Set(s string) (err error) {
	n, err := strconv.ParseUint(s, 0, 64)
	*v = uint64Value(n)
	return
}
func (v *uint64Value) String() string { return strconv.FormatUint(uint64(*v), 10) }

func (f *FlagSet) Float64Var(p *float64, n string, v float64, u string) {
	*p = v
	f.Var((*float64Value)(p), n, u)
}
func (f *FlagSet) Int64Var(p *int64, n string, v int64, u string) {
	*p = v
	f.Var((*int64Value)(p), n, u)
}
func (f *FlagSet) Uint64Var(p *uint64, n string, v uint64, u string) {
	*p = v
	f.Var((*uint64Value)(p), n, u)
}
func (f *FlagSet) Float64(n string, v float64, u string) *float64 {
	p := new(float64)
	f.Float64Var(p, n, v, u)
	return p
}
func (f *FlagSet) Int64(n string, v int64, u string) *int64 {
	p := new(int64)
	f.Int64Var(p, n, v, u)
	return p
}
func (f *FlagSet) Uint64(n string, v uint64, u string) *uint64 {
	p := new(uint64)
	f.Uint64Var(p, n, v, u)
	return p
}
func (f *FlagSet) BoolFunc(name, usage string, fn func(string) error) {
	f.Var(boolFunc(fn), name, usage)
}

type boolFunc func(string) error

func (f boolFunc) Set(s string) error { return f(s) }
func (f boolFunc) String() string     { return "" }
func (f boolFunc) IsBoolFlag() bool   { return true }

func NFlag() int               { return CommandLine.NFlag() }
func Set(n, v string) error    { return CommandLine.Set(n, v) }
func Var(v Value, n, u string) { CommandLine.Var(v, n, u) }
func Visit(fn func(*Flag))     { CommandLine.Visit(fn) }
func VisitAll(fn func(*Flag))  { CommandLine.VisitAll(fn) }
func Duration(n string, v time.Duration, u string) *time.Duration {
	return CommandLine.Duration(n, v, u)
}
func UnquoteUsage(f *Flag) (string, string) { return "value", f.Usage }

// Usage is what CommandLine shows.
var Usage = func() { CommandLine.PrintDefaults() }

func init() { CommandLine.Usage = func() { Usage() } }
