package interp

import (
	"fmt"
	"go/types"
	"runtime/debug"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/engine/term"
)

func shortStack() string {
	s := string(debug.Stack())
	if len(s) > 6000 {
		s = s[:6000]
	}
	return s
}

func (m *Machine) builtin(fr *frame, b *ssa.Builtin, args []value, c *ssa.CallCommon, in ssa.Instruction) value {
	switch b.Name() {
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		s, _ := args[0].([]value)
		var t []value
		switch x := args[1].(type) {
		case []value:
			t = x
		case string, *Str:
			t = m.strToBytes(x)
		case nil:
		default:
			unsupported("append of %T", x)
		}
		if len(t) == 0 {
			return s
		}
		if len(s)+len(t) <= cap(s) {
			full := s[:len(s)+len(t)]
			tmp := make([]value, len(t)) // the two may overlap
			for i, v := range t {
				tmp[i] = copyVal(v)
			}
			for i, v := range tmp {
				m.assign(&full[len(s)+i], v)
			}
			return full
		}
		n := len(s) + len(t)
		st, ok := c.Args[0].Type().Underlying().(*types.Slice)
		if !ok {
			unsupported("append to %s", c.Args[0].Type())
		}
		nc := growCap(cap(s), n, st.Elem())
		r := make([]value, n, nc)
		for i, v := range s {
			r[i] = copyVal(v)
		}
		for i, v := range t {
			r[len(s)+i] = copyVal(v)
		}
		if nc > n {
			z := zero(st.Elem())
			ext := r[:nc]
			for i := n; i < nc; i++ {
				ext[i] = copyVal(z)
			}
		}
		return r
	case "copy":
		d, _ := args[0].([]value)
		var t []value
		switch x := args[1].(type) {
		case []value:
			t = x
		case string, *Str:
			t = m.strToBytes(x)
		}
		n := min(len(d), len(t))
		tmp := make([]value, n)
		for i := range tmp {
			tmp[i] = copyVal(t[i])
		}
		for i := 0; i < n; i++ {
			m.assign(&d[i], tmp[i])
		}
		return int64(n)
	case "len":
		switch x := args[0].(type) {
		case string, *Str:
			return int64(strLen(x))
		case []value:
			return int64(len(x))
		case array:
			return int64(len(x))
		case *value:
			return int64(len((*x).(array)))
		case *Map:
			if x == nil {
				return int64(0)
			}
			if m.nest != nil && m.nest.record {
				m.nest.maps[x] = x.ver
			}
			return int64(x.n)
		case *Chan:
			return int64(len(x.buf))
		case nil:
			return int64(0)
		}
	case "cap":
		switch x := args[0].(type) {
		case []value:
			return int64(cap(x))
		case array:
			return int64(len(x))
		case *value:
			return int64(len((*x).(array)))
		case *Chan:
			return int64(x.cap)
		case nil:
			return int64(0)
		}
	case "delete":
		mp, _ := args[0].(*Map)
		m.mapDelete(mp, args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			m.mapClear(x)
		case []value:
			if len(x) > 0 {
				z := zero(c.Args[0].Type().Underlying().(*types.Slice).Elem())
				for i := range x {
					m.store(&x[i], z)
				}
			}
		}
		return nil
	case "close":
		m.closeChan(args[0])
		return nil
	case "min", "max":
		t := c.Args[0].Type()
		r := args[0]
		w, sgn := intInfo(t)
		for _, a := range args[1:] {
			var less value
			switch x := a.(type) {
			case int64:
				if y, ok := r.(int64); ok {
					if sgn {
						less = x < y
					} else {
						less = uint64(x) < uint64(y)
					}
				}
			case float64:
				less = x < r.(float64)
			case string, *Str:
				less = m.strLess(x, r)
			}
			if less == nil {
				x, y := m.asTerm(a, w), m.asTerm(r, w)
				var lt *term.T
				if sgn {
					lt = m.pool.Slt(x, y)
				} else {
					lt = m.pool.Ult(x, y)
				}
				if b.Name() == "max" {
					lt = m.pool.Not(lt)
				}
				r = termVal(m.pool.Ite(lt, x, y), sgn)
				continue
			}
			l := m.truth(less)
			if b.Name() == "min" && l || b.Name() == "max" && !l {
				r = a
			}
		}
		return r
	case "panic":
		panic(targetPanic{args[0]})
	case "recover":
		if fr.caller != nil && fr.caller.panicking && !fr.panicking && fr.caller.exiting == nil {
			fr.caller.panicking = false
			v := fr.caller.pan.v
			if i, ok := v.(iface); ok && i.t == nil {
				return iface{m.rtErrType, "panic called with nil argument (use GODEBUG=panicnil=1 to disable)"}
			}
			return v
		}
		return iface{}
	case "print", "println":
		return nil
	case "ssa:wrapnilchk":
		p := args[0]
		if isNilV(p) {
			m.rtPanic(fmt.Sprintf("value method %s.%s called using nil %s pointer", str(args[1]), str(args[2]), str(args[1])))
		}
		return p
	case "String": // unsafe.String
		n := m.concInt(args[1])
		switch p := args[0].(type) {
		case sliceData:
			return m.bytesToStr(p.s[:n:n])
		case stringData:
			return substr(p.s, 0, n)
		case nil:
			return ""
		case *value:
			if n == 0 {
				return ""
			}
		}
	case "StringData":
		return stringData{args[0]}
	case "SliceData":
		s := args[0].([]value)
		return sliceData{s}
	case "Slice":
		n := m.concInt(args[1])
		switch p := args[0].(type) {
		case stringData:
			return m.strToBytes(substr(p.s, 0, n))
		case sliceData:
			return p.s[:n:n]
		}
	case "Add":
	}
	unsupported("builtin %s on %s", b.Name(), typesOf(args))
	return nil
}

func typesOf(args []value) string {
	var s []string
	for _, a := range args {
		s = append(s, fmt.Sprintf("%T", a))
	}
	return strings.Join(s, ",")
}

func str(v value) string {
	s, _ := v.(string)
	return s
}

var sizeClasses = []int64{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

var goSizes = types.SizesFor("gc", "amd64")

// growCap follows the growth rule of the Go runtime, so that aliasing after
// append is the same as in a native run.
func growCap(old, need int, et types.Type) int {
	c := old
	if need > 2*c {
		c = need
	} else if c < 256 {
		c = 2 * c
	} else {
		for c < need {
			c += (c + 3*256) >> 2
		}
	}
	sz := goSizes.Sizeof(et)
	if sz == 0 {
		return need
	}
	b := int64(c) * sz
	for _, k := range sizeClasses {
		if k >= b {
			return int(k / sz)
		}
	}
	return int((b + 8191) / 8192 * 8192 / sz)
}

// panicText renders a panic value for reports.
func (m *Machine) panicText(v value) string {
	i, ok := v.(iface)
	if !ok || i.t == nil {
		return fmt.Sprintf("%v", v)
	}
	defer func() { recover() }()
	switch x := i.v.(type) {
	case string:
		if i.t == m.rtErrType {
			return "runtime error: " + x
		}
		return x
	case *Str:
		return "(symbolic text)"
	}
	return i.t.String()
}

// concreteText renders an observed value under a model.
func (m *Machine) concreteText(v value, model []uint64) string {
	switch v := v.(type) {
	case iface:
		if v.t == nil {
			return "<nil>"
		}
		return m.concreteText(v.v, model)
	case string:
		return fmt.Sprintf("%q", v)
	case *Str:
		if v.opaque {
			return "(opaque)"
		}
		b := make([]byte, len(v.b))
		for i, t := range v.b {
			b[i] = byte(t.Eval(model))
		}
		return fmt.Sprintf("%q", string(b))
	case *term.T:
		x := v.Eval(model)
		if v.W == 0 {
			return fmt.Sprintf("%v", x != 0)
		}
		return fmt.Sprintf("%d", x)
	case int64, bool:
		return fmt.Sprintf("%v", v)
	}
	return fmt.Sprintf("(%T)", v)
}
