package interp

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/engine/term"
)

// value is one of
//
//	bool, int64 (every integer type, normalised to its width), float64, string
//	*term.T            symbolic bool or integer
//	*Str               string with at least one symbolic byte, or opaque
//	structure, array, tuple, []value (slice)
//	*value             pointer
//	*symPtr            element address with symbolic index
//	*Map, *Chan, iface, *closure, *ssa.Function, *ssa.Builtin, nativeFunc
//	native             opaque object of a modelled package
//	nil                nil pointer/map/chan/func/unsafe pointer
type value = any

type structure []value
type array []value
type tuple []value

type iface struct {
	t types.Type // nil for the nil interface
	v value
}

type closure struct {
	fn  *ssa.Function
	env []value
}

type nativeFunc struct {
	name string
	f    func(m *Machine, args []value) value
}

type native struct{ v any }

type symPtr struct {
	elems []value
	idx   *term.T
	typ   types.Type // of an element
}

type sliceData struct{ s []value }
type stringData struct{ s value }

// Str is a string of concrete length with symbolic bytes. An opaque Str is
// error text whose content is not tracked.
type Str struct {
	b      []*term.T
	opaque bool
}

type Map struct {
	keys   []value
	vals   []value
	live   []bool
	index  map[any]int
	n      int
	symN   int // live entries with symbolic keys
	ver    int
	path   int // path that created it, 0 for initialisation
	keyTyp types.Type
}

type Chan struct {
	cap    int
	buf    []value
	closed bool
	recvq  []*waiter
	sendq  []*waiter
}

type waiter struct {
	g    *gor
	val  value
	ok   bool
	done bool
	sel  *selState
	idx  int
}

type selState struct {
	fired bool
	idx   int
	val   value
	ok    bool
}

// ---- errors used to unwind

type targetPanic struct{ v value } // a panic of the interpreted program

type pathEnd struct { // ends the current path
	kind string
	msg  string
}

type killed struct{}

type goexit struct{}

func unsupported(format string, a ...any) {
	panic(pathEnd{"unsupported", fmt.Sprintf(format, a...)})
}

// ---- zero values and copying

func zero(t types.Type) value {
	switch t := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case t.Info()&types.IsBoolean != 0:
			return false
		case t.Info()&types.IsInteger != 0:
			return int64(0)
		case t.Info()&types.IsFloat != 0:
			return float64(0)
		case t.Info()&types.IsComplex != 0:
			return complex128(0)
		case t.Info()&types.IsString != 0:
			return ""
		case t.Kind() == types.UnsafePointer:
			return nil
		case t.Kind() == types.UntypedNil:
			return nil
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return nil
	case *types.Slice:
		return []value(nil)
	case *types.Interface:
		return iface{}
	case *types.Array:
		a := make(array, t.Len())
		if len(a) > 0 {
			z := zero(t.Elem())
			for i := range a {
				a[i] = copyVal(z)
			}
		}
		return a
	case *types.Struct:
		s := make(structure, t.NumFields())
		for i := range s {
			s[i] = zero(t.Field(i).Type())
		}
		return s
	case *types.Tuple:
		if t.Len() == 1 {
			return zero(t.At(0).Type())
		}
		s := make(tuple, t.Len())
		for i := range s {
			s[i] = zero(t.At(i).Type())
		}
		return s
	}
	panic(pathEnd{"unsupported", fmt.Sprintf("zero value of %s", t)})
}

func copyVal(v value) value {
	switch v := v.(type) {
	case structure:
		c := make(structure, len(v))
		for i, x := range v {
			switch x.(type) {
			case structure, array:
				x = copyVal(x)
			}
			c[i] = x
		}
		return c
	case array:
		c := make(array, len(v))
		for i, x := range v {
			switch x.(type) {
			case structure, array:
				x = copyVal(x)
			}
			c[i] = x
		}
		return c
	}
	return v
}

// ---- integer widths

func basicOf(t types.Type) *types.Basic {
	b, _ := t.Underlying().(*types.Basic)
	return b
}

func intInfo(t types.Type) (w uint8, signed bool) {
	b := basicOf(t)
	if b == nil {
		return 0, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Int16:
		return 16, true
	case types.Int8:
		return 8, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	case types.Uint32:
		return 32, false
	case types.Uint16:
		return 16, false
	case types.Uint8:
		return 8, false
	}
	return 0, false
}

func norm(v int64, w uint8, signed bool) int64 {
	if w == 64 || w == 0 {
		return v
	}
	if signed {
		return v << (64 - w) >> (64 - w)
	}
	return int64(uint64(v) << (64 - w) >> (64 - w))
}

// ---- strings

func (m *Machine) bytesOf(v value) []*term.T {
	switch s := v.(type) {
	case string:
		r := make([]*term.T, len(s))
		for i := 0; i < len(s); i++ {
			r[i] = m.byteTerms[s[i]]
		}
		return r
	case *Str:
		if s.opaque {
			unsupported("opaque string inspected")
		}
		return s.b
	}
	panic(pathEnd{"unsupported", fmt.Sprintf("bytesOf %T", v)})
}

func mkStr(b []*term.T) value {
	for _, t := range b {
		if t.Op != term.Const {
			return &Str{b: b}
		}
	}
	if len(b) == 0 {
		return ""
	}
	bs := make([]byte, len(b))
	for i, t := range b {
		bs[i] = byte(t.K)
	}
	return string(bs)
}

func isOpaque(v value) bool {
	s, ok := v.(*Str)
	return ok && s.opaque
}

func strLen(v value) int {
	switch s := v.(type) {
	case string:
		return len(s)
	case *Str:
		if s.opaque {
			unsupported("length of opaque string")
		}
		return len(s.b)
	}
	panic(pathEnd{"unsupported", fmt.Sprintf("strLen %T", v)})
}

func (m *Machine) concat(a, b value) value {
	sa, oka := a.(string)
	sb, okb := b.(string)
	if oka && okb {
		return sa + sb
	}
	if oka && sa == "" {
		return b
	}
	if okb && sb == "" {
		return a
	}
	if isOpaque(a) {
		return &Str{b: a.(*Str).b, opaque: true}
	}
	if isOpaque(b) {
		x := m.bytesOf(a)
		return &Str{b: append(append([]*term.T(nil), x...), b.(*Str).b...), opaque: true}
	}
	x, y := m.bytesOf(a), m.bytesOf(b)
	r := make([]*term.T, 0, len(x)+len(y))
	r = append(append(r, x...), y...)
	return mkStr(r)
}

func substr(v value, lo, hi int) value {
	switch s := v.(type) {
	case string:
		return s[lo:hi]
	case *Str:
		return mkStr(s.b[lo:hi:hi])
	}
	panic("substr")
}

// termVal turns a term back into a concrete value if it is constant.
func termVal(t *term.T, signed bool) value {
	if t.Op == term.Const {
		if t.W == 0 {
			return t.K != 0
		}
		return norm(int64(t.K), t.W, signed)
	}
	return t
}

// asTerm makes a bit-vector term of width w (0: boolean) of a scalar.
func (m *Machine) asTerm(v value, w uint8) *term.T {
	switch v := v.(type) {
	case *term.T:
		return v
	case bool:
		return m.pool.BoolT(v)
	case int64:
		if w == 8 {
			return m.byteTerms[byte(v)]
		}
		return m.pool.BV(uint64(v), w)
	}
	panic(pathEnd{"unsupported", fmt.Sprintf("asTerm %T", v)})
}

// ---- equality: returns bool or *term.T

func (m *Machine) strEq(a, b value) value {
	sa, oka := a.(string)
	sb, okb := b.(string)
	if oka && okb {
		return sa == sb
	}
	if isOpaque(a) || isOpaque(b) {
		if a == b {
			return true
		}
		if oka && sa == "" || okb && sb == "" {
			return false // opaque texts are non-empty messages
		}
		// texts whose known prefixes differ
		x, y := prefixOf(m, a), prefixOf(m, b)
		for i := 0; i < len(x) && i < len(y); i++ {
			if m.pool.Eq(x[i], y[i]) == m.pool.False {
				return false
			}
		}
		if oka && len(sa) < len(y) || okb && len(sb) < len(x) {
			return false
		}
		unsupported("comparison of opaque string")
	}
	if strLen(a) != strLen(b) {
		return false
	}
	x, y := m.bytesOf(a), m.bytesOf(b)
	r := m.pool.True
	for i := range x {
		r = m.pool.And(r, m.pool.Eq(x[i], y[i]))
		if r == m.pool.False {
			return false
		}
	}
	return termVal(r, false)
}

func prefixOf(m *Machine, v value) []*term.T {
	if s, ok := v.(*Str); ok {
		return s.b
	}
	return m.bytesOf(v)
}

// strLess is the term for a < b in byte order.
func (m *Machine) strLess(a, b value) value {
	sa, oka := a.(string)
	sb, okb := b.(string)
	if oka && okb {
		return sa < sb
	}
	x, y := m.bytesOf(a), m.bytesOf(b)
	n := min(len(x), len(y))
	r := m.pool.BoolT(len(x) < len(y))
	for i := n - 1; i >= 0; i-- {
		r = m.pool.Or(m.pool.Ult(x[i], y[i]), m.pool.And(m.pool.Eq(x[i], y[i]), r))
	}
	return termVal(r, false)
}

func (m *Machine) andV(a, b value) value {
	if x, ok := a.(bool); ok {
		if !x {
			return false
		}
		return b
	}
	if y, ok := b.(bool); ok {
		if !y {
			return false
		}
		return a
	}
	return termVal(m.pool.And(a.(*term.T), b.(*term.T)), false)
}

func (m *Machine) notV(a value) value {
	if x, ok := a.(bool); ok {
		return !x
	}
	return termVal(m.pool.Not(a.(*term.T)), false)
}

func isNilV(v value) bool {
	switch v := v.(type) {
	case nil:
		return true
	case []value:
		return v == nil
	case iface:
		return v.t == nil
	case *value:
		return v == nil
	case *Map:
		return v == nil
	}
	return false
}

func (m *Machine) equals(t types.Type, x, y value) value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return m.strEq(x, y)
		}
		if u.Info()&types.IsBoolean != 0 {
			if a, ok := x.(bool); ok {
				if b, ok := y.(bool); ok {
					return a == b
				}
			}
			return termVal(m.pool.Eq(m.asTerm(x, 0), m.asTerm(y, 0)), false)
		}
		if u.Info()&types.IsInteger != 0 {
			a, ok1 := x.(int64)
			b, ok2 := y.(int64)
			if ok1 && ok2 {
				return a == b
			}
			w, _ := intInfo(t)
			return termVal(m.pool.Eq(m.asTerm(x, w), m.asTerm(y, w)), false)
		}
		if u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil {
			return x == y
		}
		return x == y
	case *types.Interface:
		ix, ok1 := x.(iface)
		iy, ok2 := y.(iface)
		if !ok1 || !ok2 {
			unsupported("interface comparison of %T and %T", x, y)
		}
		if ix.t == nil || iy.t == nil {
			return ix.t == nil && iy.t == nil
		}
		if !sameType(ix.t, iy.t) {
			return false
		}
		if !types.Comparable(ix.t) {
			m.rtPanic("comparing uncomparable type " + ix.t.String())
		}
		return m.equals(ix.t, ix.v, iy.v)
	case *types.Struct:
		a, ok1 := x.(structure)
		b, ok2 := y.(structure)
		if !ok1 || !ok2 {
			if nx, ok := x.(native); ok {
				if ny, ok := y.(native); ok {
					return nx.v == ny.v
				}
				return false
			}
			unsupported("struct comparison of %T and %T", x, y)
		}
		var r value = true
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == "_" {
				continue
			}
			r = m.andV(r, m.equals(u.Field(i).Type(), a[i], b[i]))
			if r == false {
				return false
			}
		}
		return r
	case *types.Array:
		a, b := x.(array), y.(array)
		var r value = true
		for i := range a {
			r = m.andV(r, m.equals(u.Elem(), a[i], b[i]))
			if r == false {
				return false
			}
		}
		return r
	case *types.Pointer, *types.Chan:
		if isNilV(x) || isNilV(y) {
			return isNilV(x) && isNilV(y)
		}
		return x == y
	case *types.Slice, *types.Map, *types.Signature:
		// only comparison with nil is legal
		if isNilV(x) || isNilV(y) {
			return isNilV(x) && isNilV(y)
		}
	case *types.TypeParam:
	}
	panic(pathEnd{"unsupported", fmt.Sprintf("equals on %s", t)})
}

func sameType(a, b types.Type) bool { return a == b || types.Identical(a, b) }

// ---- maps

type ifaceKey struct {
	t string
	k any
}

// hkey gives a comparable Go key for a concrete map key; ok is false for keys
// with symbolic parts.
func hkey(v value) (any, bool) {
	switch v := v.(type) {
	case bool, int64, float64, string, *value, nil, *Chan, *ssa.Function:
		return v, true
	case *term.T, *Str:
		return nil, false
	case native:
		return v.v, true
	case iface:
		if v.t == nil {
			return ifaceKey{}, true
		}
		k, ok := hkey(v.v)
		return ifaceKey{v.t.String(), k}, ok
	case structure:
		var sb strings.Builder
		for _, x := range v {
			k, ok := hkey(x)
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%T:%v\x00", k, k)
		}
		return "S" + sb.String(), true
	case array:
		var sb strings.Builder
		for _, x := range v {
			k, ok := hkey(x)
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%T:%v\x00", k, k)
		}
		return "A" + sb.String(), true
	}
	panic(pathEnd{"unsupported", fmt.Sprintf("map key %T", v)})
}

func (m *Machine) newMap(kt types.Type) *Map {
	return &Map{index: map[any]int{}, keyTyp: kt, path: m.pathNo}
}

// mapFind returns the position of the entry with the key, -1 if absent. It may
// fork on symbolic keys.
func (m *Machine) mapFind(mp *Map, key value) int {
	if mp == nil {
		return -1
	}
	hk, ok := hkey(key)
	if ok {
		if i, found := mp.index[hk]; found {
			if mp.symN == 0 {
				return i
			}
			return i
		}
		if mp.symN == 0 {
			return -1
		}
	}
	for i := range mp.keys {
		if !mp.live[i] {
			continue
		}
		if ok {
			if _, k := hkey(mp.keys[i]); k {
				continue // concrete and different
			}
		}
		if m.truth(m.equals(mp.keyTyp, key, mp.keys[i])) {
			return i
		}
	}
	return -1
}

func (m *Machine) mapSet(mp *Map, key, val value) {
	if mp == nil {
		m.goPanic("assignment to entry in nil map")
	}
	i := m.mapFind(mp, key)
	m.journalMap(mp)
	mp.ver++
	if i >= 0 {
		mp.vals[i] = val
		return
	}
	if hk, ok := hkey(key); ok {
		mp.index[hk] = len(mp.keys)
	} else {
		mp.symN++
	}
	mp.keys = append(mp.keys, key)
	mp.vals = append(mp.vals, val)
	mp.live = append(mp.live, true)
	mp.n++
}

func (m *Machine) mapDelete(mp *Map, key value) {
	if mp == nil {
		return
	}
	i := m.mapFind(mp, key)
	if i < 0 {
		return
	}
	m.journalMap(mp)
	mp.ver++
	if hk, ok := hkey(mp.keys[i]); ok {
		delete(mp.index, hk)
	} else {
		mp.symN--
	}
	mp.live[i] = false
	mp.n--
}

func (m *Machine) mapClear(mp *Map) {
	if mp == nil {
		return
	}
	m.journalMap(mp)
	mp.ver++
	mp.keys, mp.vals, mp.live, mp.n, mp.symN = nil, nil, nil, 0, 0
	mp.index = map[any]int{}
}

// journalMap saves a map made during initialisation before its first change on
// the current path.
func (m *Machine) journalMap(mp *Map) {
	if mp.path == m.pathNo || mp.path == -m.pathNo && m.pathNo != 0 {
		return
	}
	old := *mp
	old.keys = append([]value(nil), mp.keys...)
	old.vals = append([]value(nil), mp.vals...)
	old.live = append([]bool(nil), mp.live...)
	old.index = make(map[any]int, len(mp.index))
	for k, v := range mp.index {
		old.index[k] = v
	}
	mp.path = -m.pathNo
	m.mapUndo = append(m.mapUndo, func() { v := mp.ver; *mp = old; mp.ver = v + 1 })
}
