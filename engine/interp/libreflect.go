package interp

import (
	"go/types"
	"reflect"

	"golang.org/x/tools/go/ssa"
)

// rval stands for a reflect.Value.
type rval struct {
	m    *Machine
	t    types.Type
	v    value
	addr *value // settable place, if any
}

func rlen(m *Machine, r *rval) int {
	switch v := r.v.(type) {
	case []value:
		return len(v)
	case array:
		return len(v)
	case string, *Str:
		return strLen(v)
	case *Map:
		if v == nil {
			return 0
		}
		return v.n
	case nil:
		return 0
	}
	unsupported("reflect Len of %T", r.v)
	return 0
}

func kindOf(t types.Type) reflect.Kind {
	if t == nil {
		return reflect.Invalid
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return reflect.Bool
		case types.Int, types.UntypedInt:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32, types.UntypedRune:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64, types.UntypedFloat:
			return reflect.Float64
		case types.String, types.UntypedString:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Map:
		return reflect.Map
	case *types.Struct:
		return reflect.Struct
	case *types.Pointer:
		return reflect.Pointer
	case *types.Interface:
		return reflect.Interface
	case *types.Signature:
		return reflect.Func
	case *types.Chan:
		return reflect.Chan
	}
	return reflect.Invalid
}

type rtype struct{ t types.Type }

func (m *Machine) rtypeV(t types.Type) value {
	if t == nil {
		return iface{}
	}
	return iface{types.NewPointer(m.namedType("reflect", "rtype")), native{rtype{t}}}
}

func asRval(v value) *rval {
	if n, ok := v.(native); ok {
		if r, ok := n.v.(*rval); ok {
			return r
		}
	}
	return &rval{} // the zero Value
}

func symReflect() {
	mkv := func(m *Machine, t types.Type, v value, addr *value) value {
		return native{&rval{m, t, v, addr}}
	}
	reg("reflect.ValueOf", func(m *Machine, a []value) (value, bool) {
		i := toIface(a[0])
		if i.t == nil {
			return native{&rval{m: m}}, true
		}
		return mkv(m, i.t, i.v, nil), true
	})
	reg("reflect.TypeOf", func(m *Machine, a []value) (value, bool) {
		return m.rtypeV(toIface(a[0]).t), true
	})
	def := func(name string, f func(m *Machine, r *rval, a []value) value) {
		reg("(reflect.Value)."+name, func(m *Machine, a []value) (value, bool) {
			return f(m, asRval(a[0]), a[1:]), true
		})
	}
	zeroPanic := func(m *Machine, r *rval, what string) {
		if r.t == nil {
			m.rtPanic("reflect: call of reflect.Value." + what + " on zero Value")
		}
	}
	def("IsValid", func(m *Machine, r *rval, a []value) value { return r.t != nil })
	def("Kind", func(m *Machine, r *rval, a []value) value { return int64(kindOf(r.t)) })
	def("Type", func(m *Machine, r *rval, a []value) value { zeroPanic(m, r, "Type"); return m.rtypeV(r.t) })
	def("CanInterface", func(m *Machine, r *rval, a []value) value { return true })
	def("Interface", func(m *Machine, r *rval, a []value) value {
		zeroPanic(m, r, "Interface")
		return asIface(r.t, r.v)
	})
	def("String", func(m *Machine, r *rval, a []value) value {
		if kindOf(r.t) == reflect.String {
			return r.v
		}
		if r.t == nil {
			return "<invalid Value>"
		}
		return "<" + kindName(r.t) + " Value>"
	})
	def("Int", func(m *Machine, r *rval, a []value) value {
		switch kindOf(r.t) {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			if x, ok := r.v.(int64); ok {
				return x
			}
			return m.convert(types.Typ[types.Int64], r.t, r.v)
		}
		m.rtPanic("reflect: call of reflect.Value.Int on " + kindOf(r.t).String() + " Value")
		return nil
	})
	def("Uint", func(m *Machine, r *rval, a []value) value {
		switch kindOf(r.t) {
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
			return m.convert(types.Typ[types.Uint64], r.t, r.v)
		}
		m.rtPanic("reflect: call of reflect.Value.Uint on " + kindOf(r.t).String() + " Value")
		return nil
	})
	def("Float", func(m *Machine, r *rval, a []value) value {
		if k := kindOf(r.t); k == reflect.Float32 || k == reflect.Float64 {
			return r.v
		}
		m.rtPanic("reflect: call of reflect.Value.Float on " + kindOf(r.t).String() + " Value")
		return nil
	})
	def("Bool", func(m *Machine, r *rval, a []value) value {
		if kindOf(r.t) != reflect.Bool {
			m.rtPanic("reflect: call of reflect.Value.Bool on " + kindOf(r.t).String() + " Value")
		}
		return r.v
	})
	def("Len", func(m *Machine, r *rval, a []value) value {
		switch kindOf(r.t) {
		case reflect.Slice, reflect.Array, reflect.String, reflect.Map:
			return int64(rlen(m, r))
		case reflect.Pointer:
			if arr, ok := r.t.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok {
				return arr.Len()
			}
		}
		m.rtPanic("reflect: call of reflect.Value.Len on " + kindOf(r.t).String() + " Value")
		return nil
	})
	def("Index", func(m *Machine, r *rval, a []value) value {
		i := m.concInt(a[0])
		switch u := r.t.Underlying().(type) {
		case *types.Slice:
			s := r.v.([]value)
			if i < 0 || i >= len(s) {
				m.rtPanic("reflect: slice index out of range")
			}
			return mkv(m, u.Elem(), copyVal(s[i]), &s[i])
		case *types.Array:
			s := r.v.(array)
			if i < 0 || i >= len(s) {
				m.rtPanic("reflect: array index out of range")
			}
			return mkv(m, u.Elem(), copyVal(s[i]), nil)
		case *types.Basic:
			return mkv(m, types.Typ[types.Uint8], m.strIndex(r.v, int64(i)), nil)
		}
		m.rtPanic("reflect: call of reflect.Value.Index on " + kindOf(r.t).String() + " Value")
		return nil
	})
	def("IsNil", func(m *Machine, r *rval, a []value) value {
		switch kindOf(r.t) {
		case reflect.Pointer, reflect.Map, reflect.Slice, reflect.Func, reflect.Chan, reflect.Interface, reflect.UnsafePointer:
			return isNilV(r.v)
		}
		m.rtPanic("reflect: call of reflect.Value.IsNil on " + kindOf(r.t).String() + " Value")
		return nil
	})
	def("IsZero", func(m *Machine, r *rval, a []value) value {
		zeroPanic(m, r, "IsZero")
		return m.isZero(r.t, r.v)
	})
	def("Pointer", func(m *Machine, r *rval, a []value) value { return int64(1) })
	elem := func(m *Machine, r *rval, a []value) value {
		switch u := r.t.Underlying().(type) {
		case *types.Pointer:
			if isNilV(r.v) {
				return native{&rval{m: m}}
			}
			p, _ := r.v.(*value)
			return mkv(m, u.Elem(), m.load(r.v), p)
		case *types.Interface:
			i := toIface(r.v)
			if i.t == nil {
				return native{&rval{m: m}}
			}
			return mkv(m, i.t, i.v, nil)
		}
		m.rtPanic("reflect: call of reflect.Value.Elem on " + kindOf(r.t).String() + " Value")
		return nil
	}
	def("Elem", func(m *Machine, r *rval, a []value) value { zeroPanic(m, r, "Elem"); return elem(m, r, a) })
	reg("reflect.Indirect", func(m *Machine, a []value) (value, bool) {
		r := asRval(a[0])
		if kindOf(r.t) != reflect.Pointer {
			return a[0], true
		}
		return elem(m, r, nil), true
	})
	def("NumField", func(m *Machine, r *rval, a []value) value {
		st, ok := r.t.Underlying().(*types.Struct)
		if !ok {
			m.rtPanic("reflect: call of reflect.Value.NumField on " + kindOf(r.t).String() + " Value")
		}
		return int64(st.NumFields())
	})
	def("Field", func(m *Machine, r *rval, a []value) value {
		st, ok := r.t.Underlying().(*types.Struct)
		if !ok {
			m.rtPanic("reflect: call of reflect.Value.Field on " + kindOf(r.t).String() + " Value")
		}
		i := m.concInt(a[0])
		return mkv(m, st.Field(i).Type(), copyVal(r.v.(structure)[i]), nil)
	})
	def("FieldByName", func(m *Machine, r *rval, a []value) value {
		name, ok := a[0].(string)
		if !ok {
			name = m.concBytes(a[0])
		}
		if _, ok := r.t.Underlying().(*types.Struct); !ok {
			m.rtPanic("reflect: call of reflect.Value.FieldByName on " + kindOf(r.t).String() + " Value")
		}
		obj, path, _ := types.LookupFieldOrMethod(r.t, false, nil, name)
		if v, ok := obj.(*types.Var); !ok || !v.IsField() {
			return native{&rval{m: m}}
		}
		t, v := r.t, r.v
		for _, i := range path {
			if p, ok := t.Underlying().(*types.Pointer); ok {
				t, v = p.Elem(), m.load(v)
			}
			st := t.Underlying().(*types.Struct)
			t, v = st.Field(i).Type(), v.(structure)[i]
		}
		return mkv(m, t, copyVal(v), nil)
	})
	def("MapKeys", func(m *Machine, r *rval, a []value) value {
		mp, _ := r.v.(*Map)
		kt := r.t.Underlying().(*types.Map).Key()
		res := []value{}
		if mp != nil {
			for i := range mp.keys {
				if mp.live[i] {
					res = append(res, mkv(m, kt, mp.keys[i], nil))
				}
			}
		}
		return res
	})
	def("MapIndex", func(m *Machine, r *rval, a []value) value {
		mp, _ := r.v.(*Map)
		i := m.mapFind(mp, asRval(a[0]).v)
		if i < 0 {
			return native{&rval{m: m}}
		}
		return mkv(m, r.t.Underlying().(*types.Map).Elem(), mp.vals[i], nil)
	})
	reg("reflect.Zero", func(m *Machine, a []value) (value, bool) {
		n, ok := toIface(a[0]).v.(native)
		if !ok {
			m.rtPanic("reflect: Zero(nil)")
		}
		t := n.v.(rtype).t
		return mkv(m, t, zero(t), nil), true
	})
	intrinsics["(reflect.Value).Call"] = func(m *Machine, caller *frame, fn *ssa.Function, args []value) (value, bool) {
		r := asRval(args[0])
		sig, ok := r.t.Underlying().(*types.Signature)
		if !ok {
			m.rtPanic("reflect: call of Call on " + kindOf(r.t).String() + " Value")
		}
		in, _ := args[1].([]value)
		np := sig.Params().Len()
		fixed := np
		if sig.Variadic() {
			fixed--
		}
		if len(in) < fixed || len(in) > fixed && !sig.Variadic() {
			m.rtPanic("reflect: Call with too few or too many input arguments")
		}
		conv := func(a value, t types.Type) value {
			x := asRval(a)
			if x.t == nil {
				m.rtPanic("reflect: Call using zero Value argument")
			}
			if !types.AssignableTo(x.t, t) {
				m.rtPanic("reflect: Call using " + kindName(x.t) + " as type " + kindName(t))
			}
			if types.IsInterface(t) {
				if types.IsInterface(x.t) {
					return x.v
				}
				return asIface(x.t, x.v)
			}
			return copyVal(x.v)
		}
		var cargs []value
		for i := 0; i < fixed; i++ {
			cargs = append(cargs, conv(in[i], sig.Params().At(i).Type()))
		}
		if sig.Variadic() {
			et := sig.Params().At(fixed).Type().(*types.Slice).Elem()
			rest := []value{}
			for _, a := range in[fixed:] {
				rest = append(rest, conv(a, et))
			}
			cargs = append(cargs, rest)
		}
		out := m.callValue(caller, r.v, cargs)
		nr := sig.Results().Len()
		res := []value{}
		switch nr {
		case 0:
		case 1:
			res = append(res, mkv(m, sig.Results().At(0).Type(), out, nil))
		default:
			for i, v := range out.(tuple) {
				res = append(res, mkv(m, sig.Results().At(i).Type(), v, nil))
			}
		}
		return res, true
	}
	reg("reflect.DeepEqual", func(m *Machine, a []value) (value, bool) {
		x, y := toIface(a[0]), toIface(a[1])
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil, true
		}
		if !types.Identical(x.t, y.t) {
			return false, true
		}
		return m.deepEq(x.t, x.v, y.v, map[[2]any]bool{}), true
	})
	_ = ssa.NaiveForm
}

func (m *Machine) isZero(t types.Type, v value) value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		var r value = true
		for i, x := range v.(structure) {
			r = m.andV(r, m.isZero(u.Field(i).Type(), x))
		}
		return r
	case *types.Array:
		var r value = true
		for _, x := range v.(array) {
			r = m.andV(r, m.isZero(u.Elem(), x))
		}
		return r
	case *types.Basic:
		return m.equals(t, v, zero(t))
	}
	return isNilV(v)
}

func (m *Machine) deepEq(t types.Type, x, y value, seen map[[2]any]bool) value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return m.equals(t, x, y)
	case *types.Interface:
		a, b := toIface(x), toIface(y)
		if a.t == nil || b.t == nil {
			return a.t == nil && b.t == nil
		}
		if !types.Identical(a.t, b.t) {
			return false
		}
		return m.deepEq(a.t, a.v, b.v, seen)
	case *types.Pointer:
		if isNilV(x) || isNilV(y) {
			return isNilV(x) && isNilV(y)
		}
		if x == y {
			return true
		}
		k := [2]any{x, y}
		if seen[k] {
			return true
		}
		seen[k] = true
		return m.deepEq(u.Elem(), m.load(x), m.load(y), seen)
	case *types.Struct:
		a, b := x.(structure), y.(structure)
		var r value = true
		for i := range a {
			r = m.andV(r, m.deepEq(u.Field(i).Type(), a[i], b[i], seen))
			if r == false {
				return false
			}
		}
		return r
	case *types.Array:
		a, b := x.(array), y.(array)
		var r value = true
		for i := range a {
			r = m.andV(r, m.deepEq(u.Elem(), a[i], b[i], seen))
		}
		return r
	case *types.Slice:
		a, b := x.([]value), y.([]value)
		if (a == nil) != (b == nil) || len(a) != len(b) {
			return false
		}
		var r value = true
		for i := range a {
			r = m.andV(r, m.deepEq(u.Elem(), a[i], b[i], seen))
			if r == false {
				return false
			}
		}
		return r
	case *types.Map:
		a, _ := x.(*Map)
		b, _ := y.(*Map)
		if (a == nil) != (b == nil) {
			return false
		}
		if a == nil || a == b {
			return true
		}
		if a.n != b.n {
			return false
		}
		var r value = true
		for i := range a.keys {
			if !a.live[i] {
				continue
			}
			j := m.mapFind(b, a.keys[i])
			if j < 0 {
				return false
			}
			r = m.andV(r, m.deepEq(u.Elem(), a.vals[i], b.vals[j], seen))
		}
		return r
	case *types.Signature:
		return isNilV(x) && isNilV(y)
	}
	return m.equals(t, x, y)
}

// nativeMethod gives the method of an object that only exists in the engine.
func (m *Machine) nativeMethod(recv iface, f *types.Func) *nativeFunc {
	n, ok := recv.v.(native)
	if !ok {
		return nil
	}
	rt, ok := n.v.(rtype)
	if !ok {
		return nil
	}
	t := rt.t
	mk := func(g func(m *Machine, a []value) value) *nativeFunc { return &nativeFunc{f.Name(), g} }
	switch f.Name() {
	case "Kind":
		return mk(func(m *Machine, a []value) value { return int64(kindOf(t)) })
	case "String":
		return mk(func(m *Machine, a []value) value { return kindName(t) })
	case "Name":
		return mk(func(m *Machine, a []value) value {
			switch n := t.(type) {
			case *types.Named:
				return n.Obj().Name()
			case *types.Basic:
				return n.Name()
			}
			return ""
		})
	case "Len":
		return mk(func(m *Machine, a []value) value {
			arr, ok := t.Underlying().(*types.Array)
			if !ok {
				m.rtPanic("reflect: Len of non-array type " + kindName(t))
			}
			return arr.Len()
		})
	case "Elem":
		return mk(func(m *Machine, a []value) value {
			if e, ok := t.Underlying().(interface{ Elem() types.Type }); ok {
				return m.rtypeV(e.Elem())
			}
			m.rtPanic("reflect: Elem of invalid type " + kindName(t))
			return nil
		})
	case "NumIn", "NumOut", "IsVariadic", "In", "Out":
		sig, ok := t.Underlying().(*types.Signature)
		if !ok {
			m.rtPanic("reflect: " + f.Name() + " of non-func type " + kindName(t))
		}
		return mk(func(m *Machine, a []value) value {
			switch f.Name() {
			case "NumIn":
				return int64(sig.Params().Len())
			case "NumOut":
				return int64(sig.Results().Len())
			case "IsVariadic":
				return sig.Variadic()
			}
			l := sig.Params()
			if f.Name() == "Out" {
				l = sig.Results()
			}
			i := m.concInt(a[len(a)-1])
			if i < 0 || i >= l.Len() {
				m.rtPanic("reflect: " + f.Name() + " index out of range")
			}
			return m.rtypeV(l.At(i).Type())
		})
	case "NumField":
		return mk(func(m *Machine, a []value) value {
			st, ok := t.Underlying().(*types.Struct)
			if !ok {
				m.rtPanic("reflect: NumField of non-struct type " + kindName(t))
			}
			return int64(st.NumFields())
		})
	}
	unsupported("reflect.Type.%s", f.Name())
	return nil
}
