package interp

import (
	"fmt"
	"path"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/engine/term"
)

type intrinsic func(m *Machine, caller *frame, fn *ssa.Function, args []value) (value, bool)

var intrinsics = map[string]intrinsic{}

// pureIntrinsics may be called inside a summarised function.
var pureIntrinsics = map[string]bool{}

// native functions used as they are when every argument is concrete
var passthrough = map[string]any{
	"strings.ToLower": strings.ToLower, "strings.ToUpper": strings.ToUpper, "strings.TrimSpace": strings.TrimSpace,
	"strings.Split": strings.Split, "strings.SplitN": strings.SplitN, "strings.Join": strings.Join, "strings.Contains": strings.Contains,
	"strings.ContainsAny": strings.ContainsAny, "strings.ContainsRune": strings.ContainsRune, "strings.Index": strings.Index,
	"strings.IndexByte": strings.IndexByte, "strings.IndexAny": strings.IndexAny, "strings.IndexRune": strings.IndexRune,
	"strings.LastIndex": strings.LastIndex, "strings.LastIndexByte": strings.LastIndexByte,
	"strings.HasPrefix": strings.HasPrefix, "strings.HasSuffix": strings.HasSuffix,
	"strings.TrimPrefix": strings.TrimPrefix, "strings.TrimSuffix": strings.TrimSuffix, "strings.Trim": strings.Trim,
	"strings.TrimLeft": strings.TrimLeft, "strings.TrimRight": strings.TrimRight, "strings.Replace": strings.Replace,
	"strings.ReplaceAll": strings.ReplaceAll, "strings.Repeat": strings.Repeat, "strings.EqualFold": strings.EqualFold,
	"strings.Fields": strings.Fields, "strings.Count": strings.Count, "strings.Compare": strings.Compare,
	"strings.Title": strings.Title, "strings.Clone": strings.Clone,
	"strings.Cut": strings.Cut, "strings.CutPrefix": strings.CutPrefix, "strings.CutSuffix": strings.CutSuffix,
	"strconv.Itoa": strconv.Itoa, "strconv.Quote": strconv.Quote, "strconv.FormatInt": strconv.FormatInt,
	"strconv.FormatUint": strconv.FormatUint, "strconv.FormatFloat": strconv.FormatFloat, "strconv.FormatBool": strconv.FormatBool,
	"strconv.QuoteToASCII": strconv.QuoteToASCII, "strconv.CanBackquote": strconv.CanBackquote,
	"path.Join": path.Join, "path.Dir": path.Dir, "path.Base": path.Base, "path.Clean": path.Clean, "path.Ext": path.Ext, "path.IsAbs": path.IsAbs,
	"path/filepath.Join": filepath.Join, "path/filepath.Dir": filepath.Dir, "path/filepath.Base": filepath.Base,
	"path/filepath.Clean": filepath.Clean, "path/filepath.Ext": filepath.Ext, "path/filepath.IsAbs": filepath.IsAbs,
	"path/filepath.ToSlash": filepath.ToSlash, "path/filepath.FromSlash": filepath.FromSlash, "path/filepath.VolumeName": filepath.VolumeName,
	"unicode.IsUpper": unicode.IsUpper, "unicode.IsLower": unicode.IsLower, "unicode.IsLetter": unicode.IsLetter,
	"unicode.IsDigit": unicode.IsDigit, "unicode.IsSpace": unicode.IsSpace, "unicode.ToLower": unicode.ToLower,
	"unicode.ToUpper": unicode.ToUpper, "unicode.IsPunct": unicode.IsPunct, "unicode.IsPrint": unicode.IsPrint, "unicode.IsNumber": unicode.IsNumber,
	"unicode.SimpleFold": unicode.SimpleFold, "unicode.IsControl": unicode.IsControl, "unicode.IsGraphic": unicode.IsGraphic,
	"unicode/utf8.ValidString": utf8.ValidString, "unicode/utf8.RuneCountInString": utf8.RuneCountInString, "unicode/utf8.RuneLen": utf8.RuneLen,
	"unicode/utf8.ValidRune": utf8.ValidRune,
	"strings.ToTitle": strings.ToTitle, "strings.SplitAfter": strings.SplitAfter, "strings.ToValidUTF8": strings.ToValidUTF8,
}

func concretePlain(v value) bool {
	switch v := v.(type) {
	case string, int64, bool, float64:
		return true
	case []value:
		for _, x := range v {
			if !concretePlain(x) {
				return false
			}
		}
		return true
	}
	return false
}

func toNative(v value, t reflect.Type) (reflect.Value, bool) {
	r := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.String:
		s, ok := v.(string)
		if !ok {
			return r, false
		}
		r.SetString(s)
	case reflect.Bool:
		b, ok := v.(bool)
		if !ok {
			return r, false
		}
		r.SetBool(b)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		i, ok := v.(int64)
		if !ok {
			return r, false
		}
		r.SetInt(i)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		i, ok := v.(int64)
		if !ok {
			return r, false
		}
		r.SetUint(uint64(i))
	case reflect.Float64, reflect.Float32:
		f, ok := v.(float64)
		if !ok {
			return r, false
		}
		r.SetFloat(f)
	case reflect.Slice:
		s, ok := v.([]value)
		if !ok {
			return r, false
		}
		if s == nil {
			return r, true
		}
		r.Set(reflect.MakeSlice(t, len(s), len(s)))
		for i, x := range s {
			e, ok := toNative(x, t.Elem())
			if !ok {
				return r, false
			}
			r.Index(i).Set(e)
		}
	default:
		return r, false
	}
	return r, true
}

func fromNative(r reflect.Value) value {
	switch r.Kind() {
	case reflect.String:
		return r.String()
	case reflect.Bool:
		return r.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return r.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return int64(r.Uint())
	case reflect.Float64, reflect.Float32:
		return r.Float()
	case reflect.Slice:
		if r.IsNil() {
			return []value(nil)
		}
		s := make([]value, r.Len(), r.Cap())
		full := s[:cap(s)]
		z := fromNative(reflect.Zero(r.Type().Elem()))
		for i := range full {
			full[i] = z
		}
		for i := range s {
			s[i] = fromNative(r.Index(i))
		}
		return s
	}
	panic("fromNative " + r.Kind().String())
}

func (m *Machine) callNative(f any, args []value) (value, bool) {
	fv := reflect.ValueOf(f)
	ft := fv.Type()
	in := make([]reflect.Value, 0, len(args))
	for i, a := range args {
		r, ok := toNative(a, ft.In(i))
		if !ok {
			return nil, false
		}
		in = append(in, r)
	}
	var out []reflect.Value
	func() {
		defer func() {
			if r := recover(); r != nil {
				m.rtPanic(fmt.Sprint(r))
			}
		}()
		if ft.IsVariadic() {
			out = fv.CallSlice(in)
		} else {
			out = fv.Call(in)
		}
	}()
	if len(out) == 1 {
		return fromNative(out[0]), true
	}
	t := make(tuple, len(out))
	for i := range out {
		t[i] = fromNative(out[i])
	}
	return t, true
}

func reg(name string, f func(m *Machine, args []value) (value, bool)) {
	intrinsics[name] = func(m *Machine, caller *frame, fn *ssa.Function, args []value) (value, bool) {
		return f(m, args)
	}
}

func regPure(name string, f func(m *Machine, args []value) (value, bool)) {
	reg(name, f)
	pureIntrinsics[name] = true
}

func init() {
	for n, f := range passthrough {
		f := f
		regPure(n, func(m *Machine, args []value) (value, bool) { return m.callNative(f, args) })
	}
	symStrings()
	symVsym()
	symMisc()
	symErrors()
	symFmt()
	symReflect()
	symJSON()
	symRegexp()
	symSync()
}

// wrap tries the concrete function first, then the symbolic model.
func orSym(name string, g func(m *Machine, args []value) (value, bool)) {
	f := passthrough[name]
	regPure(name, func(m *Machine, args []value) (value, bool) {
		if f != nil {
			if r, ok := m.callNative(f, args); ok {
				return r, true
			}
		}
		return g(m, args)
	})
}

// asciiOnly reports whether every byte is known to be ASCII on this path,
// without forking.
func (m *Machine) asciiOnly(bs []*term.T) bool {
	for _, b := range bs {
		if b.Op == term.Const {
			if b.K >= 0x80 {
				return false
			}
			continue
		}
		v, ok := b.SingleByte()
		if !ok || m.nest != nil || m.st == nil || v >= len(m.st.dom) {
			return false
		}
		dom := m.st.dom[v]
		if m.asciiTerm(b, v, dom) {
			continue
		}
		return false
	}
	return true
}

func (m *Machine) asciiTerm(b *term.T, v int, dom term.Set) bool {
	bad := m.setOf(m.pool.Not(m.pool.Ult(b, m.pool.BV(0x80, 8))), v)
	return dom.And(bad).Empty()
}

// forkASCII makes every byte of the string known to be ASCII or not; true if
// all are.
func (m *Machine) forkASCII(bs []*term.T) bool {
	if m.asciiOnly(bs) {
		return true
	}
	c := m.pool.True
	for _, b := range bs {
		c = m.pool.And(c, m.pool.Ult(b, m.pool.BV(0x80, 8)))
	}
	return m.truth(termVal(c, false))
}

func (m *Machine) lowerByte(b *term.T) *term.T { return m.caseByte(b, 'A', 'Z') }
func (m *Machine) upperByte(b *term.T) *term.T { return m.caseByte(b, 'a', 'z') }

func (m *Machine) caseByte(b *term.T, lo, hi uint64) *term.T {
	p := m.pool
	in := p.And(p.Not(p.Ult(b, p.BV(lo, 8))), p.Not(p.Ult(p.BV(hi, 8), b)))
	return p.Ite(in, p.Bin(term.BXor, b, p.BV(0x20, 8)), b)
}

func (m *Machine) mapBytes(v value, f func(*term.T) *term.T) value {
	bs := m.bytesOf(v)
	r := make([]*term.T, len(bs))
	for i, b := range bs {
		r[i] = f(b)
	}
	return mkStr(r)
}

// substrAt is the term for s[i:i+len(sub)] == sub.
func (m *Machine) substrAt(s, sub []*term.T, i int) *term.T {
	c := m.pool.True
	for k := range sub {
		c = m.pool.And(c, m.pool.Eq(s[i+k], sub[k]))
		if c == m.pool.False {
			break
		}
	}
	return c
}

func isStr(v value) bool {
	switch s := v.(type) {
	case string:
		return true
	case *Str:
		return !s.opaque
	}
	return false
}

func (m *Machine) anyByte(bs []*term.T, set term.Set) *term.T {
	c := m.pool.False
	for _, b := range bs {
		c = m.pool.Or(c, m.inSet(b, set))
	}
	return c
}

func (m *Machine) inSet(b *term.T, set term.Set) *term.T {
	if b.Op == term.Const {
		return m.pool.BoolT(set.Has(b.K))
	}
	if b.Op == term.Var {
		v, _ := b.SingleByte()
		return m.pool.MkInSet(v, set)
	}
	if v, ok := b.SingleByte(); ok {
		var s term.Set
		model := make([]uint64, v+1)
		for x := uint64(0); x < 256; x++ {
			model[v] = x
			if set.Has(b.Eval(model)) {
				s.Add(x)
			}
		}
		return m.pool.MkInSet(v, s)
	}
	c := m.pool.False
	for x := uint64(0); x < 256; x++ {
		if set.Has(x) {
			c = m.pool.Or(c, m.pool.Eq(b, m.pool.BV(x, 8)))
		}
	}
	return c
}

// firstIndex forks on the position of the first i for which c(i) holds.
func (m *Machine) firstIndex(n int, c func(i int) *term.T) int {
	for i := 0; i < n; i++ {
		if m.truth(termVal(c(i), false)) {
			return i
		}
	}
	return -1
}

func symStrings() {
	caser := func(name string, f func(m *Machine, b *term.T) *term.T) {
		orSym(name, func(m *Machine, a []value) (value, bool) {
			if !isStr(a[0]) {
				return nil, false
			}
			bs := m.bytesOf(a[0])
			if !m.forkASCII(bs) {
				return nil, false // real code
			}
			return m.mapBytes(a[0], func(b *term.T) *term.T { return f(m, b) }), true
		})
	}
	caser("strings.ToLower", (*Machine).lowerByte)
	caser("strings.ToUpper", (*Machine).upperByte)
	orSym("strings.EqualFold", func(m *Machine, a []value) (value, bool) {
		x, y := m.bytesOf(a[0]), m.bytesOf(a[1])
		if !m.asciiOnly(x) || !m.asciiOnly(y) {
			// fold classes that leave ASCII: k and s
			if !m.forkASCII(x) || !m.forkASCII(y) {
				return nil, false
			}
		}
		if len(x) != len(y) {
			return false, true
		}
		c := m.pool.True
		for i := range x {
			c = m.pool.And(c, m.pool.Eq(m.lowerByte(x[i]), m.lowerByte(y[i])))
		}
		return termVal(c, false), true
	})
	contains := func(m *Machine, a []value) (value, bool) {
		s, sub := m.bytesOf(a[0]), m.bytesOf(a[1])
		c := m.pool.False
		for i := 0; i+len(sub) <= len(s); i++ {
			c = m.pool.Or(c, m.substrAt(s, sub, i))
		}
		return termVal(c, false), true
	}
	orSym("strings.Contains", contains)
	orSym("strings.ContainsAny", func(m *Machine, a []value) (value, bool) {
		chars, ok := a[1].(string)
		if !ok {
			return nil, false
		}
		var set term.Set
		for i := 0; i < len(chars); i++ {
			if chars[i] >= 0x80 {
				return nil, false
			}
			set.Add(uint64(chars[i]))
		}
		return termVal(m.anyByte(m.bytesOf(a[0]), set), false), true
	})
	orSym("strings.ContainsRune", func(m *Machine, a []value) (value, bool) {
		r, ok := a[1].(int64)
		if !ok || r < 0 || r >= 0x80 {
			return nil, false
		}
		var set term.Set
		set.Add(uint64(r))
		return termVal(m.anyByte(m.bytesOf(a[0]), set), false), true
	})
	index := func(m *Machine, a []value) (value, bool) {
		s, sub := m.bytesOf(a[0]), m.bytesOf(a[1])
		return int64(m.firstIndex(len(s)-len(sub)+1, func(i int) *term.T { return m.substrAt(s, sub, i) })), true
	}
	orSym("strings.Index", index)
	orSym("strings.IndexByte", func(m *Machine, a []value) (value, bool) {
		s, c := m.bytesOf(a[0]), m.asTerm(a[1], 8)
		return int64(m.firstIndex(len(s), func(i int) *term.T { return m.pool.Eq(s[i], c) })), true
	})
	orSym("strings.LastIndex", func(m *Machine, a []value) (value, bool) {
		s, sub := m.bytesOf(a[0]), m.bytesOf(a[1])
		n := len(s) - len(sub)
		for i := n; i >= 0; i-- {
			if m.truth(termVal(m.substrAt(s, sub, i), false)) {
				return int64(i), true
			}
		}
		return int64(-1), true
	})
	orSym("strings.LastIndexByte", func(m *Machine, a []value) (value, bool) {
		s, c := m.bytesOf(a[0]), m.asTerm(a[1], 8)
		for i := len(s) - 1; i >= 0; i-- {
			if m.truth(termVal(m.pool.Eq(s[i], c), false)) {
				return int64(i), true
			}
		}
		return int64(-1), true
	})
	for _, n := range []string{"strings.Split", "strings.SplitN", "strings.Join", "strings.IndexAny", "strings.TrimSpace",
		"strings.TrimLeft", "strings.TrimRight", "strings.Trim", "strings.Fields", "strings.Replace", "strings.ReplaceAll",
		"strings.Cut", "strings.CutPrefix", "strings.CutSuffix", "strings.TrimPrefix", "strings.TrimSuffix"} {
		delete(pureIntrinsics, n)
	}
	orSym("strings.HasPrefix", func(m *Machine, a []value) (value, bool) {
		if isOpaque(a[0]) {
			s, p := a[0].(*Str), m.bytesOf(a[1])
			if len(p) <= len(s.b) {
				return m.strEq(mkStr(s.b[:len(p)]), a[1]), true
			}
			unsupported("prefix of opaque string")
		}
		s, p := a[0], a[1]
		if strLen(s) < strLen(p) {
			return false, true
		}
		return m.strEq(substr(s, 0, strLen(p)), p), true
	})
	orSym("strings.HasSuffix", func(m *Machine, a []value) (value, bool) {
		s, p := a[0], a[1]
		n := strLen(s)
		if n < strLen(p) {
			return false, true
		}
		return m.strEq(substr(s, n-strLen(p), n), p), true
	})
	orSym("strings.Clone", func(m *Machine, a []value) (value, bool) { return a[0], true })
	reg("internal/stringslite.Clone", func(m *Machine, a []value) (value, bool) { return a[0], true })
	// Join without forks
	orSym("strings.Join", func(m *Machine, a []value) (value, bool) {
		s := a[0].([]value)
		var r value = ""
		for i, x := range s {
			if i > 0 {
				r = m.concat(r, a[1])
			}
			r = m.concat(r, x)
		}
		return r, true
	})
	delete(pureIntrinsics, "strings.Join")
	orSym("strings.Compare", func(m *Machine, a []value) (value, bool) {
		if m.truth(m.strEq(a[0], a[1])) {
			return int64(0), true
		}
		if m.truth(m.strLess(a[0], a[1])) {
			return int64(-1), true
		}
		return int64(1), true
	})
	cmpStr := intrinsics["strings.Compare"]
	intrinsics["internal/bytealg.CompareString"] = cmpStr

	// leaf routines written in assembly
	regPure("internal/bytealg.IndexByteString", func(m *Machine, a []value) (value, bool) {
		s, c := m.bytesOf(a[0]), m.asTerm(a[1], 8)
		return int64(m.firstIndex(len(s), func(i int) *term.T { return m.pool.Eq(s[i], c) })), true
	})
	sl := func(m *Machine, v value) []*term.T {
		s, _ := v.([]value)
		r := make([]*term.T, len(s))
		for i, x := range s {
			r[i] = m.asTerm(x, 8)
		}
		return r
	}
	regPure("internal/bytealg.IndexByte", func(m *Machine, a []value) (value, bool) {
		s, c := sl(m, a[0]), m.asTerm(a[1], 8)
		return int64(m.firstIndex(len(s), func(i int) *term.T { return m.pool.Eq(s[i], c) })), true
	})
	intrinsics["bytes.IndexByte"] = intrinsics["internal/bytealg.IndexByte"]
	reg("bytes.Equal", func(m *Machine, a []value) (value, bool) {
		x, y := a[0].([]value), a[1].([]value)
		return m.strEq(m.bytesToStr(x), m.bytesToStr(y)), true
	})
	intrinsics["internal/bytealg.Equal"] = intrinsics["bytes.Equal"]
	regPure("internal/bytealg.CountString", func(m *Machine, a []value) (value, bool) {
		s, c := m.bytesOf(a[0]), m.asTerm(a[1], 8)
		n := 0
		for i := range s {
			if m.truth(termVal(m.pool.Eq(s[i], c), false)) {
				n++
			}
		}
		return int64(n), true
	})
	regPure("internal/bytealg.Count", func(m *Machine, a []value) (value, bool) {
		s, c := sl(m, a[0]), m.asTerm(a[1], 8)
		n := 0
		for i := range s {
			if m.truth(termVal(m.pool.Eq(s[i], c), false)) {
				n++
			}
		}
		return int64(n), true
	})
	regPure("internal/bytealg.IndexString", index)
	regPure("internal/bytealg.Index", func(m *Machine, a []value) (value, bool) {
		s, sub := sl(m, a[0]), sl(m, a[1])
		return int64(m.firstIndex(len(s)-len(sub)+1, func(i int) *term.T { return m.substrAt(s, sub, i) })), true
	})
	regPure("internal/stringslite.Index", index)
	reg("internal/bytealg.MakeNoZero", func(m *Machine, a []value) (value, bool) {
		n := m.concInt(a[0])
		s := make([]value, n)
		for i := range s {
			s[i] = int64(0)
		}
		return s, true
	})
	reg("bytes.growSlice", func(m *Machine, a []value) (value, bool) {
		b, n := a[0].([]value), m.concInt(a[1])
		c := max(len(b)+n, 2*cap(b))
		s := make([]value, len(b), c)
		copy(s, b)
		for i := range s[len(b):c] {
			s[:c][len(b)+i] = int64(0)
		}
		return s, true
	})

	// strings.Builder keeps its address; the check is of no interest
	reg("(*strings.Builder).copyCheck", func(m *Machine, a []value) (value, bool) { return nil, true })
	reg("(*strings.Builder).String", func(m *Machine, a []value) (value, bool) {
		p, ok := a[0].(*value)
		if !ok || p == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		st := (*p).(structure)
		return m.bytesToStr(st[1].([]value)), true
	})

	// conversions of unicode
	lat := func(name string, f func(m *Machine, x *term.T) value) {
		conc := passthrough[name]
		regPure(name, func(m *Machine, a []value) (value, bool) {
			if conc != nil {
				if r, ok := m.callNative(conc, a); ok {
					return r, true
				}
			}
			x := a[0].(*term.T)
			if !m.truth(termVal(m.pool.Ult(x, m.pool.BV(0x80, 32)), false)) {
				return nil, false
			}
			return f(m, x), true
		})
	}
	rng := func(m *Machine, x *term.T, lo, hi uint64) *term.T {
		p := m.pool
		return p.And(p.Not(p.Ult(x, p.BV(lo, 32))), p.Not(p.Ult(p.BV(hi, 32), x)))
	}
	lat("unicode.ToLower", func(m *Machine, x *term.T) value {
		return termVal(m.pool.Ite(rng(m, x, 'A', 'Z'), m.pool.Bin(term.Add, x, m.pool.BV(32, 32)), x), true)
	})
	lat("unicode.ToUpper", func(m *Machine, x *term.T) value {
		return termVal(m.pool.Ite(rng(m, x, 'a', 'z'), m.pool.Bin(term.Sub, x, m.pool.BV(32, 32)), x), true)
	})
	lat("unicode.IsUpper", func(m *Machine, x *term.T) value { return termVal(rng(m, x, 'A', 'Z'), false) })
	lat("unicode.IsLower", func(m *Machine, x *term.T) value { return termVal(rng(m, x, 'a', 'z'), false) })
	lat("unicode.IsDigit", func(m *Machine, x *term.T) value { return termVal(rng(m, x, '0', '9'), false) })
	lat("unicode.IsLetter", func(m *Machine, x *term.T) value {
		return termVal(m.pool.Or(rng(m, x, 'A', 'Z'), rng(m, x, 'a', 'z')), false)
	})
	lat("unicode.IsSpace", func(m *Machine, x *term.T) value {
		return termVal(m.pool.Or(rng(m, x, 9, 13), rng(m, x, ' ', ' ')), false)
	})
}

// ---- verification primitives

const vsymPath = "github.com/webrpc/webrpc/internal/vsym"

func symVsym() {
	v := func(name string, f func(m *Machine, a []value) value) {
		reg(vsymPath+"."+name, func(m *Machine, a []value) (value, bool) {
			if m.nest != nil {
				unsupported("vsym.%s in summary", name)
			}
			return f(m, a), true
		})
	}
	v("Byte", func(m *Machine, a []value) value { return m.newVar(term.Set{}.Not(), false) })
	setArg := func(a value) term.Set {
		var s term.Set
		for _, b := range []byte(a.(string)) {
			s.Add(uint64(b))
		}
		return s
	}
	v("ByteIn", func(m *Machine, a []value) value { return m.newVar(setArg(a[0]), false) })
	v("Bool", func(m *Machine, a []value) value {
		var s term.Set
		s.Add(0)
		s.Add(1)
		x := m.newVar(s, false)
		i, _ := x.SingleByte()
		var one term.Set
		one.Add(1)
		return m.pool.MkInSet(i, one)
	})
	choose := func(m *Machine, n int) *term.T {
		if n < 1 || n > 256 {
			unsupported("Choose(%d)", n)
		}
		var s term.Set
		for i := 0; i < n; i++ {
			s.Add(uint64(i))
		}
		return m.newVar(s, false)
	}
	v("Choose", func(m *Machine, a []value) value {
		return m.pool.Conv(choose(m, m.concInt(a[0])), 64, false)
	})
	v("Pick", func(m *Machine, a []value) value {
		return int64(m.concretize(choose(m, m.concInt(a[0]))))
	})
	v("Int", func(m *Machine, a []value) value {
		lo, hi := a[0].(int64), a[1].(int64)
		if 0 <= lo && lo <= hi && hi < 256 { // a byte, which the domains of paths keep exactly
			var s term.Set
			for i := lo; i <= hi; i++ {
				s.Add(uint64(i))
			}
			return termVal(m.pool.Conv(m.newVar(s, false), 64, false), true)
		}
		return m.newWide(lo, hi)
	})
	mk := func(m *Machine, n int, set term.Set) value {
		b := make([]*term.T, n)
		for i := range b {
			b[i] = m.newVar(set, false)
		}
		return mkStr(b)
	}
	v("Str", func(m *Machine, a []value) value { return mk(m, m.concInt(a[0]), term.Set{}.Not()) })
	v("StrIn", func(m *Machine, a []value) value { return mk(m, m.concInt(a[0]), setArg(a[1])) })
	v("Assume", func(m *Machine, a []value) value { m.assume(a[0]); return nil })
	v("Assert", func(m *Machine, a []value) value {
		msg := m.msgText(a[1])
		switch c := a[0].(type) {
		case bool:
			m.Stats.AssertConst++
			if !c {
				m.confirmFail("assert", msg)
			}
		case *term.T:
			m.st.asserts = append(m.st.asserts, pendingAssert{c, msg})
		}
		return nil
	})
	v("Fail", func(m *Machine, a []value) value {
		m.confirmFail("assert", m.msgText(a[0]))
		return nil
	})
	v("Reach", func(m *Machine, a []value) value {
		m.st.reached = append(m.st.reached, a[0].(string))
		return nil
	})
	v("Observe", func(m *Machine, a []value) value {
		m.st.obs = append(m.st.obs, obsRec{a[0].(string), a[1]})
		return nil
	})
	v("Tier", func(m *Machine, a []value) value { return int64(m.x.Tier) })
	v("Symbolic", func(m *Machine, a []value) value { return true })
	v("MapOrder", func(m *Machine, a []value) value { m.mapOrd = a[0].(bool); return nil })
	reg(vsymPath+".And", func(m *Machine, a []value) (value, bool) {
		var r value = true
		for _, x := range a[0].([]value) {
			r = m.andV(r, x)
		}
		return r, true
	})
	reg(vsymPath+".Or", func(m *Machine, a []value) (value, bool) {
		var r value = true
		for _, x := range a[0].([]value) {
			r = m.andV(r, m.notV(x))
		}
		return m.notV(r), true
	})
	reg(vsymPath+".Iff", func(m *Machine, a []value) (value, bool) {
		if x, ok := a[0].(bool); ok {
			if x {
				return a[1], true
			}
			return m.notV(a[1]), true
		}
		return termVal(m.pool.Eq(m.asTerm(a[0], 0), m.asTerm(a[1], 0)), false), true
	})
	// IteStr picks one of two strings of equal length without forking.
	reg(vsymPath+".IteInt", func(m *Machine, a []value) (value, bool) {
		if c, ok := a[0].(bool); ok {
			if c {
				return a[1], true
			}
			return a[2], true
		}
		return termVal(m.pool.Ite(a[0].(*term.T), m.asTerm(a[1], 64), m.asTerm(a[2], 64)), true), true
	})
}

func (m *Machine) msgText(v value) string {
	if s, ok := v.(string); ok {
		return s
	}
	return "(message with symbolic text)"
}

// confirmFail records a failure that holds for every input of the path; the
// solver confirms that the path condition has a model. The path ends.
func (m *Machine) confirmFail(kind, msg string) {
	m.Stats.AssertQ++
	model := append([]uint64(nil), m.st.model...)
	switch m.query(m.pool.True, model, nil) {
	case term.Sat:
		m.fail(kind, msg, m.st.model)
	case term.Unknown:
		m.Stats.Unknown++
		m.fail(kind, msg, m.st.model)
	}
	panic(pathEnd{"violation", msg})
}

// ---- small things

func symMisc() {
	nop := func(names ...string) {
		for _, n := range names {
			reg(n, func(m *Machine, a []value) (value, bool) { return nil, true })
		}
	}
	nop("runtime.GC", "runtime.Gosched", "runtime.KeepAlive", "runtime.SetFinalizer", "runtime/debug.SetGCPercent",
		"log.SetFlags", "log.SetPrefix", "log.SetOutput", "internal/race.Acquire", "internal/race.Release", "internal/race.Enable", "internal/race.Disable")
	reg("runtime.FuncForPC", func(m *Machine, a []value) (value, bool) {
		v := value(native{"func"})
		return &v, true
	})
	reg("(*runtime.Func).Name", func(m *Machine, a []value) (value, bool) { return "func", true })
	reg("runtime.Caller", func(m *Machine, a []value) (value, bool) {
		return tuple{int64(0), "file.go", int64(1), true}, true
	})
	reg("log.Fatalf", func(m *Machine, a []value) (value, bool) { m.rtPanic("log.Fatalf called"); return nil, true })
	reg("log.Fatal", func(m *Machine, a []value) (value, bool) { m.rtPanic("log.Fatal called"); return nil, true })
	nop("log.Printf", "log.Println", "log.Print")
	reg("unique.Make", func(m *Machine, a []value) (value, bool) { return nil, false })
	reg("encoding/hex.EncodeToString", func(m *Machine, a []value) (value, bool) {
		s := a[0].([]value)
		p := m.pool
		r := make([]*term.T, 0, 2*len(s))
		digit := func(n *term.T) *term.T {
			return p.Ite(p.Ult(n, p.BV(10, 8)), p.Bin(term.Add, n, p.BV('0', 8)), p.Bin(term.Add, n, p.BV('a'-10, 8)))
		}
		for _, x := range s {
			t := m.asTerm(x, 8)
			r = append(r, digit(p.Bin(term.LShr, t, p.BV(4, 8))), digit(p.Bin(term.BAnd, t, p.BV(15, 8))))
		}
		return mkStr(r), true
	})
	// sort.Slice with interpreted comparison: stable insertion keeps ties in
	// order, any order of ties is allowed by the contract
	swapper := func(m *Machine, a []value) (value, bool) {
		i, ok := a[0].(iface)
		if !ok {
			return nil, false
		}
		s := i.v.([]value)
		return nativeFunc{"swapper", func(m *Machine, b []value) value {
			x, y := m.concInt(b[0]), m.concInt(b[1])
			if x < 0 || y < 0 || x >= len(s) || y >= len(s) {
				m.rtPanic("reflect: slice index out of range")
			}
			vx, vy := copyVal(s[x]), copyVal(s[y])
			m.store(&s[x], vy)
			m.store(&s[y], vx)
			return nil
		}}, true
	}
	reg("internal/reflectlite.Swapper", swapper)
	reg("reflect.Swapper", swapper)
	reg("internal/reflectlite.ValueOf", func(m *Machine, a []value) (value, bool) {
		return native{&rval{m: m, t: a[0].(iface).t, v: a[0].(iface).v}}, true
	})
	reg("(internal/reflectlite.Value).Len", func(m *Machine, a []value) (value, bool) {
		return int64(rlen(m, a[0].(native).v.(*rval))), true
	})
	reg("internal/reflectlite.TypeOf", func(m *Machine, a []value) (value, bool) {
		t := toIface(a[0]).t
		if t == nil {
			return iface{}, true
		}
		return iface{types.NewPointer(m.rtErrType), native{rtype{t}}}, true
	})
	reg("math/bits.Len", func(m *Machine, a []value) (value, bool) {
		x, ok := a[0].(int64)
		if !ok {
			return nil, false
		}
		n := 0
		for u := uint64(x); u > 0; u >>= 1 {
			n++
		}
		return int64(n), true
	})
	reg("math.Float64bits", func(m *Machine, a []value) (value, bool) { return nil, false })
	reg("time.Now", func(m *Machine, a []value) (value, bool) { unsupported("time.Now"); return nil, false })
	reg("os.Exit", func(m *Machine, a []value) (value, bool) { panic(pathEnd{"exit", ""}) })
	for _, n := range []string{"os.Open", "os.ReadFile", "os.WriteFile", "os.Stat", "os.MkdirAll", "os.RemoveAll", "os.Getwd", "os.Getenv"} {
		n := n
		reg(n, func(m *Machine, a []value) (value, bool) {
			if m.initing {
				return nil, false
			}
			unsupported("%s", n)
			return nil, false
		})
	}
	reg("os.Getenv", func(m *Machine, a []value) (value, bool) { return "", true })
	reg("hash/fnv.New32a", func(m *Machine, a []value) (value, bool) { return nil, false })
	_ = types.Typ
}
