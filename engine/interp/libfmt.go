package interp

import (
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/engine/term"
)

// callMethod calls a method of an interface value by name.
func (m *Machine) callMethod(caller *frame, recv iface, name string, args ...value) (value, bool) {
	if recv.t == nil {
		return nil, false
	}
	fn := m.findMethod(recv.t, nil, name)
	if fn == nil {
		return nil, false
	}
	return m.callFn(caller, fn, append([]value{recv.v}, args...), nil), true
}

func (m *Machine) hasMethod(t types.Type, name string) bool {
	return t != nil && m.findMethod(t, nil, name) != nil
}

func toIface(v value) iface {
	if i, ok := v.(iface); ok {
		return i
	}
	return iface{}
}

func (m *Machine) newError(msg value) value {
	return m.ptrStruct("errors", "errorString", msg)
}

// ptrStruct makes an interface value holding a pointer to a named struct.
func (m *Machine) ptrStruct(pkg, name string, fields ...value) value {
	t := m.namedType(pkg, name)
	p := new(value)
	*p = structure(fields)
	return iface{types.NewPointer(t), p}
}

func symErrors() {
	var is func(m *Machine, caller *frame, err, target iface) bool
	unwrap := func(m *Machine, caller *frame, e iface) (iface, []value) {
		fn := m.findMethod(e.t, nil, "Unwrap")
		if fn == nil || fn.Signature.Results().Len() != 1 {
			return iface{}, nil
		}
		r := m.callFn(caller, fn, []value{e.v}, nil)
		if s, ok := r.([]value); ok {
			return iface{}, s
		}
		return toIface(r), nil
	}
	is = func(m *Machine, caller *frame, err, target iface) bool {
		for err.t != nil {
			if target.t != nil && types.Comparable(target.t) && types.Identical(err.t, target.t) {
				if m.truth(m.equals(err.t, err.v, target.v)) {
					return true
				}
			}
			if fn := m.findMethod(err.t, nil, "Is"); fn != nil && fn.Signature.Params().Len() == 1 {
				if m.truth(m.callFn(caller, fn, []value{err.v, target}, nil)) {
					return true
				}
			}
			n, list := unwrap(m, caller, err)
			for _, e := range list {
				if is(m, caller, toIface(e), target) {
					return true
				}
			}
			err = n
		}
		return target.t == nil && err.t == nil
	}
	intrinsics["errors.Is"] = func(m *Machine, caller *frame, fn *ssa.Function, a []value) (value, bool) {
		e, t := toIface(a[0]), toIface(a[1])
		if e.t == nil || t.t == nil {
			return e.t == nil && t.t == nil, true
		}
		return is(m, caller, e, t), true
	}
	var as func(m *Machine, caller *frame, err iface, target iface, tt types.Type) bool
	as = func(m *Machine, caller *frame, err iface, target iface, tt types.Type) bool {
		for err.t != nil {
			ok := false
			var v value = err.v
			if it, isI := tt.Underlying().(*types.Interface); isI {
				ok = m.implements(err.t, it)
				v = err
			} else {
				ok = types.Identical(err.t, tt)
			}
			if ok {
				m.store(target.v, v)
				return true
			}
			if fn := m.findMethod(err.t, nil, "As"); fn != nil {
				if m.truth(m.callFn(caller, fn, []value{err.v, target}, nil)) {
					return true
				}
			}
			n, list := unwrap(m, caller, err)
			for _, e := range list {
				if as(m, caller, toIface(e), target, tt) {
					return true
				}
			}
			err = n
		}
		return false
	}
	intrinsics["errors.As"] = func(m *Machine, caller *frame, fn *ssa.Function, a []value) (value, bool) {
		e, t := toIface(a[0]), toIface(a[1])
		if e.t == nil {
			return false, true
		}
		pt, ok := t.t.(*types.Pointer)
		if !ok {
			m.rtPanic("errors: target must be a non-nil pointer")
		}
		return as(m, caller, e, t, pt.Elem()), true
	}
	intrinsics["errors.Unwrap"] = func(m *Machine, caller *frame, fn *ssa.Function, a []value) (value, bool) {
		e := toIface(a[0])
		if e.t == nil {
			return iface{}, true
		}
		n, _ := unwrap(m, caller, e)
		return n, true
	}
}

// ---- formatting

// opaqueStr is a text of which nothing is known; every text is one of its own.
func opaqueStr() *Str { return &Str{opaque: true} }

func kindName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// goValue gives the native value for a concrete basic value of type t.
func goValue(t types.Type, v value) (any, bool) {
	b := basicOf(t)
	if b == nil {
		return nil, false
	}
	switch x := v.(type) {
	case string:
		return x, true
	case bool:
		return x, true
	case float64:
		if b.Kind() == types.Float32 {
			return float32(x), true
		}
		return x, true
	case int64:
		switch b.Kind() {
		case types.Int:
			return int(x), true
		case types.Int8:
			return int8(x), true
		case types.Int16:
			return int16(x), true
		case types.Int32:
			return int32(x), true
		case types.Int64:
			return x, true
		case types.Uint:
			return uint(x), true
		case types.Uint8:
			return uint8(x), true
		case types.Uint16:
			return uint16(x), true
		case types.Uint32:
			return uint32(x), true
		case types.Uint64:
			return uint64(x), true
		case types.Uintptr:
			return uintptr(x), true
		}
	}
	return nil, false
}

// plainText reports whether every byte is known to be printable ASCII other
// than quote and backslash, without forking.
func (m *Machine) plainText(bs []*term.T) bool {
	for _, b := range bs {
		if b.Op == term.Const {
			if b.K < 0x20 || b.K >= 0x7f || b.K == '"' || b.K == '\\' {
				return false
			}
			continue
		}
		v, ok := b.SingleByte()
		if !ok || m.nest != nil || v >= len(m.st.dom) {
			return false
		}
		if !m.st.dom[v].And(m.setOf(m.pool.Not(m.inSet(b, plainSet)), v)).Empty() {
			return false
		}
	}
	return true
}

var plainSet = func() (s term.Set) {
	for c := uint64(0x20); c < 0x7f; c++ {
		if c != '"' && c != '\\' {
			s.Add(c)
		}
	}
	return
}()

func (m *Machine) quote(caller *frame, v value, exact bool) value {
	switch s := v.(type) {
	case string:
		return strconv.Quote(s)
	case *Str:
		if s.opaque {
			return m.concat("\"", opaqueStr())
		}
		if m.plainText(s.b) {
			return m.concat(m.concat("\"", v), "\"")
		}
		if !exact {
			return m.concat("\"", opaqueStr())
		}
		c := m.pool.True
		for _, b := range s.b {
			c = m.pool.And(c, m.inSet(b, plainSet))
		}
		if m.truth(termVal(c, false)) {
			return m.concat(m.concat("\"", v), "\"")
		}
		if p := m.p.prog.ImportedPackage("strconv"); p != nil {
			return m.exec(caller, m.p.code(p.Func("Quote")), []value{v}, nil)
		}
	}
	return opaqueStr()
}

func (m *Machine) intText(t types.Type, v *term.T, exact bool) value {
	if _, ok := v.SingleByte(); ok && exact {
		w, s := intInfo(t)
		k := m.concretize(v)
		x := norm(int64(k), w, s)
		if s {
			return strconv.FormatInt(x, 10)
		}
		return strconv.FormatUint(uint64(x), 10)
	}
	return opaqueStr()
}

// fmtVal renders one operand for the verb.
func (m *Machine) fmtVal(caller *frame, spec string, verb byte, i iface, depth int, exact bool) value {
	if i.t == nil {
		if verb == 'v' || verb == 'w' {
			return "<nil>"
		}
		return "%!" + string(verb) + "(<nil>)"
	}
	if verb == 'T' {
		return kindName(i.t)
	}
	if verb == 'p' {
		return opaqueStr()
	}
	if strings.IndexByte("vwsqxX", verb) >= 0 && !strings.Contains(spec, "#") {
		for _, name := range []string{"Error", "String"} {
			fn := m.findMethod(i.t, nil, name)
			if fn == nil || fn.Signature.Params().Len() != 0 || fn.Signature.Results().Len() != 1 {
				continue
			}
			if b := basicOf(fn.Signature.Results().At(0).Type()); b == nil || b.Kind() != types.String {
				continue
			}
			if _, isPtr := i.t.Underlying().(*types.Pointer); isPtr && isNilV(i.v) {
				// fmt recovers from the panic of a nil receiver
				r, ok := m.tryCall(caller, fn, []value{i.v})
				if !ok {
					return "<nil>"
				}
				return m.fmtStr(caller, spec, verb, r, exact)
			}
			return m.fmtStr(caller, spec, verb, m.callFn(caller, fn, []value{i.v}, nil), exact)
		}
	}
	if verb == 'w' {
		verb = 'v'
		spec = strings.Replace(spec, "w", "v", 1)
	}
	switch u := i.t.Underlying().(type) {
	case *types.Basic:
		if g, ok := goValue(i.t, i.v); ok {
			return fmt.Sprintf(spec, g)
		}
		if u.Info()&types.IsString != 0 {
			return m.fmtStr(caller, spec, verb, i.v, exact)
		}
		if t, ok := i.v.(*term.T); ok {
			if t.W == 0 {
				if m.truth(t) {
					return fmt.Sprintf(spec, true)
				}
				return fmt.Sprintf(spec, false)
			}
			if verb == 'd' || verb == 'v' {
				return m.intText(i.t, t, exact)
			}
			if verb == 'c' {
				return m.runeToStr(t, i.t)
			}
		}
		return opaqueStr()
	case *types.Slice, *types.Array:
		var el []value
		var et types.Type
		switch u := u.(type) {
		case *types.Slice:
			el, et = i.v.([]value), u.Elem()
		case *types.Array:
			el, et = i.v.(array), u.Elem()
		}
		if b := basicOf(et); b != nil && b.Kind() == types.Uint8 && (verb == 's' || verb == 'q' || verb == 'x') {
			return m.fmtStr(caller, spec, verb, m.bytesToStr(el), exact)
		}
		var r value = "["
		for k, x := range el {
			if k > 0 {
				r = m.concat(r, " ")
			}
			r = m.concat(r, m.fmtVal(caller, spec, verb, asIface(et, x), depth+1, exact))
		}
		return m.concat(r, "]")
	case *types.Pointer:
		if isNilV(i.v) {
			return "<nil>"
		}
		if depth == 0 && verb == 'v' {
			switch u.Elem().Underlying().(type) {
			case *types.Struct, *types.Slice, *types.Array, *types.Map:
				return m.concat("&", m.fmtVal(caller, spec, verb, asIface(u.Elem(), m.load(i.v)), depth+1, exact))
			}
		}
		return opaqueStr()
	case *types.Struct:
		s, ok := i.v.(structure)
		if !ok {
			return opaqueStr()
		}
		var r value = "{"
		for k, x := range s {
			if k > 0 {
				r = m.concat(r, " ")
			}
			if strings.Contains(spec, "+") {
				r = m.concat(r, u.Field(k).Name()+":")
			}
			r = m.concat(r, m.fmtVal(caller, spec, verb, asIface(u.Field(k).Type(), x), depth+1, exact))
		}
		return m.concat(r, "}")
	case *types.Map:
		mp, _ := i.v.(*Map)
		var r value = "map["
		if mp != nil {
			type kv struct{ k, v value }
			var list []kv
			for k := range mp.keys {
				if mp.live[k] {
					list = append(list, kv{m.fmtVal(caller, spec, verb, asIface(u.Key(), mp.keys[k]), depth+1, exact), m.fmtVal(caller, spec, verb, asIface(u.Elem(), mp.vals[k]), depth+1, exact)})
				}
			}
			if len(list) > 1 {
				for _, e := range list {
					if _, ok := e.k.(string); !ok {
						return opaqueStr()
					}
				}
				sort.SliceStable(list, func(a, b int) bool { return list[a].k.(string) < list[b].k.(string) })
			}
			for k, e := range list {
				if k > 0 {
					r = m.concat(r, " ")
				}
				r = m.concat(m.concat(m.concat(r, e.k), ":"), e.v)
			}
		}
		return m.concat(r, "]")
	case *types.Signature, *types.Chan:
		if isNilV(i.v) {
			return "<nil>"
		}
	}
	return opaqueStr()
}

func asIface(t types.Type, v value) iface {
	if types.IsInterface(t) {
		return toIface(v)
	}
	return iface{t, v}
}

// tryCall calls a function and reports whether it returned normally.
func (m *Machine) tryCall(caller *frame, fn *ssa.Function, args []value) (r value, ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(targetPanic); is {
				r, ok = nil, false
				return
			}
			panic(e)
		}
	}()
	return m.callFn(caller, fn, args, nil), true
}

func (m *Machine) fmtStr(caller *frame, spec string, verb byte, v value, exact bool) value {
	if s, ok := v.(string); ok {
		if verb == 'w' {
			spec = strings.Replace(spec, "w", "v", 1)
		}
		return fmt.Sprintf(spec, s)
	}
	switch verb {
	case 'q':
		if spec == "%q" {
			return m.quote(caller, v, exact)
		}
		return opaqueStr()
	case 's', 'v', 'w':
		if len(spec) == 2 || spec == "%+v" {
			return v
		}
		if spec == "%#v" {
			return m.quote(caller, v, exact)
		}
		// padding
		w := spec[1 : len(spec)-1]
		left := strings.HasPrefix(w, "-")
		n, err := strconv.Atoi(strings.TrimPrefix(w, "-"))
		if err != nil || isOpaque(v) {
			return opaqueStr()
		}
		if !m.forkASCII(m.bytesOf(v)) {
			return opaqueStr()
		}
		pad := strings.Repeat(" ", max(0, n-strLen(v)))
		if left {
			return m.concat(v, pad)
		}
		return m.concat(pad, v)
	}
	return opaqueStr()
}

func (m *Machine) sprintf(caller *frame, format value, args []value, exact bool) (value, []iface) {
	f, ok := format.(string)
	if !ok {
		return opaqueStr(), nil
	}
	var r value = ""
	var wrapped []iface
	argi := 0
	for i := 0; i < len(f); {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			r = m.concat(r, f[i:])
			break
		}
		r = m.concat(r, f[i:i+j])
		i += j
		k := i + 1
		for k < len(f) && strings.IndexByte("+-# 0123456789.", f[k]) >= 0 {
			k++
		}
		if k < len(f) && (f[k] == '*' || f[k] == '[') {
			return m.concat(r, opaqueStr()), wrapped
		}
		if k >= len(f) {
			r = m.concat(r, "%!(NOVERB)")
			break
		}
		spec, verb := f[i:k+1], f[k]
		i = k + 1
		if verb == '%' {
			r = m.concat(r, "%")
			continue
		}
		if argi >= len(args) {
			r = m.concat(r, "%!"+string(verb)+"(MISSING)")
			continue
		}
		a := toIface(args[argi])
		argi++
		if verb == 'w' && a.t != nil {
			wrapped = append(wrapped, a)
		}
		r = m.concat(r, m.fmtVal(caller, spec, verb, a, 0, exact))
	}
	if argi < len(args) {
		r = m.concat(r, opaqueStr())
	}
	return r, wrapped
}

func (m *Machine) sprint(caller *frame, args []value, ln bool) value {
	var r value = ""
	prevStr := true
	for k, a := range args {
		i := toIface(a)
		isS := false
		if i.t != nil {
			if b, ok := i.t.(*types.Basic); ok && b.Kind() == types.String {
				isS = true
			}
		}
		if k > 0 && (ln || !isS && !prevStr) {
			r = m.concat(r, " ")
		}
		prevStr = isS
		r = m.concat(r, m.fmtVal(caller, "%v", 'v', i, 0, true))
	}
	if ln {
		r = m.concat(r, "\n")
	}
	return r
}

func vargs(v value) []value {
	s, _ := v.([]value)
	return s
}

func symFmt() {
	def := func(name string, f func(m *Machine, caller *frame, a []value) value) {
		intrinsics[name] = func(m *Machine, caller *frame, fn *ssa.Function, a []value) (value, bool) {
			return f(m, caller, a), true
		}
	}
	def("fmt.Sprintf", func(m *Machine, c *frame, a []value) value {
		r, _ := m.sprintf(c, a[0], vargs(a[1]), true)
		return r
	})
	def("fmt.Errorf", func(m *Machine, c *frame, a []value) value {
		s, w := m.sprintf(c, a[0], vargs(a[1]), false)
		switch len(w) {
		case 0:
			return m.newError(s)
		case 1:
			return m.ptrStruct("fmt", "wrapError", s, w[0])
		}
		list := make([]value, len(w))
		for i := range w {
			list[i] = w[i]
		}
		return m.ptrStruct("fmt", "wrapErrors", s, list)
	})
	def("fmt.Sprint", func(m *Machine, c *frame, a []value) value { return m.sprint(c, vargs(a[0]), false) })
	def("fmt.Sprintln", func(m *Machine, c *frame, a []value) value { return m.sprint(c, vargs(a[0]), true) })
	write := func(m *Machine, c *frame, w value, s value) value {
		i := toIface(w)
		if i.t == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		if isOpaque(s) {
			return tuple{int64(1), iface{}} // text that is not tracked
		}
		if i.t.String() == "*os.File" {
			return tuple{int64(strLen(s)), iface{}}
		}
		r, ok := m.callMethod(c, i, "Write", m.strToBytes(s))
		if !ok {
			unsupported("Fprint to %s", i.t)
		}
		return r
	}
	def("fmt.Fprintf", func(m *Machine, c *frame, a []value) value {
		r, _ := m.sprintf(c, a[1], vargs(a[2]), true)
		return write(m, c, a[0], r)
	})
	def("fmt.Fprint", func(m *Machine, c *frame, a []value) value { return write(m, c, a[0], m.sprint(c, vargs(a[1]), false)) })
	def("fmt.Fprintln", func(m *Machine, c *frame, a []value) value { return write(m, c, a[0], m.sprint(c, vargs(a[1]), true)) })
	for _, n := range []string{"fmt.Print", "fmt.Println", "fmt.Printf"} {
		def(n, func(m *Machine, c *frame, a []value) value { return tuple{int64(0), iface{}} })
	}
	appendS := func(m *Machine, b value, s value) value {
		x := m.strToBytes(s)
		old := vargs(b)
		return append(old[:len(old):len(old)], x...)
	}
	def("fmt.Appendf", func(m *Machine, c *frame, a []value) value {
		r, _ := m.sprintf(c, a[1], vargs(a[2]), true)
		return appendS(m, a[0], r)
	})
	def("fmt.Append", func(m *Machine, c *frame, a []value) value { return appendS(m, a[0], m.sprint(c, vargs(a[1]), false)) })
	def("fmt.Appendln", func(m *Machine, c *frame, a []value) value { return appendS(m, a[0], m.sprint(c, vargs(a[1]), true)) })
	_ = reflect.TypeOf
}
