package interp

import (
	"encoding/json"
	"go/types"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"

	"verif/engine/term"
)

// A model of encoding/json over go/types: the text is built and read as
// (possibly symbolic) bytes; MarshalJSON and UnmarshalJSON of the code under
// test are executed.

type jfield struct {
	name      string
	path      []int
	t         types.Type
	omitEmpty bool
	omitZero  bool
	quoted    bool
}

func jfields(st *types.Struct) []jfield {
	var out []jfield
	type cand struct {
		jfield
		depth  int
		tagged bool
	}
	var all []cand
	var walk func(st *types.Struct, path []int, depth int)
	walk = func(st *types.Struct, path []int, depth int) {
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			tag := reflect.StructTag(st.Tag(i)).Get("json")
			if tag == "-" {
				continue
			}
			name, opts, _ := strings.Cut(tag, ",")
			p := append(append([]int(nil), path...), i)
			if f.Embedded() && name == "" {
				t := f.Type()
				if pt, ok := t.Underlying().(*types.Pointer); ok {
					t = pt.Elem()
					if _, ok := t.Underlying().(*types.Struct); ok {
						unsupported("json of embedded pointer")
					}
				}
				if es, ok := t.Underlying().(*types.Struct); ok {
					walk(es, p, depth+1)
					continue
				}
			}
			if !f.Exported() {
				continue
			}
			c := cand{depth: depth, tagged: name != ""}
			c.name, c.path, c.t = name, p, f.Type()
			if name == "" {
				c.name = f.Name()
			}
			for _, o := range strings.Split(opts, ",") {
				switch o {
				case "omitempty":
					c.omitEmpty = true
				case "omitzero":
					c.omitZero = true
				case "string":
					c.quoted = true
				}
			}
			all = append(all, c)
		}
	}
	walk(st, nil, 0)
	for _, c := range all {
		best := true
		for _, d := range all {
			if d.name == c.name && (d.depth < c.depth || d.depth == c.depth && d.tagged && !c.tagged) {
				best = false
			}
		}
		if best {
			out = append(out, c.jfield)
		}
	}
	return out
}

// ---- writing

type jw struct {
	m      *Machine
	caller *frame
	b      []*term.T
	esc    bool
	indent bool
	prefix string
	ind    string
	depth  int
	err    value
}

func (w *jw) raw(s string) {
	for i := 0; i < len(s); i++ {
		w.b = append(w.b, w.m.byteTerms[s[i]])
	}
}

func (w *jw) nl() {
	if w.indent {
		w.raw("\n" + w.prefix + strings.Repeat(w.ind, w.depth))
	}
}

func (w *jw) colon() {
	if w.indent {
		w.raw(": ")
	} else {
		w.raw(":")
	}
}

func (w *jw) str(v value) {
	m := w.m
	if s, ok := v.(string); ok {
		w.raw(jsonString(s, w.esc))
		return
	}
	w.raw(`"`)
	n := strLen(v)
	bs := m.bytesOf(v)
	plain := m.pool.True
	var set term.Set
	for c := uint64(0x20); c < 0x80; c++ {
		if c == '"' || c == '\\' || w.esc && (c == '<' || c == '>' || c == '&') {
			continue
		}
		set.Add(c)
	}
	for _, b := range bs {
		plain = m.pool.And(plain, m.inSet(b, set))
	}
	if m.truth(termVal(plain, false)) {
		w.b = append(w.b, bs...)
		w.raw(`"`)
		return
	}
	for i := 0; i < n; {
		b := bs[i]
		if b.Op != term.Const {
			if m.truth(termVal(m.inSet(b, set), false)) {
				w.b = append(w.b, b)
				i++
				continue
			}
			if m.truth(termVal(m.pool.Ult(b, m.pool.BV(0x80, 8)), false)) {
				c := byte(m.concretize(b))
				q := jsonString(string(c), w.esc)
				w.raw(q[1 : len(q)-1])
				i++
				continue
			}
		} else if b.K < 0x80 {
			q := jsonString(string(byte(b.K)), w.esc)
			w.raw(q[1 : len(q)-1])
			i++
			continue
		}
		r, k := m.decodeRune(v, i)
		if k == 1 {
			w.raw(`\ufffd`)
			i++
			continue
		}
		if k == 3 {
			for _, sep := range []int64{0x2028, 0x2029} {
				if m.truth(m.equals(types.Typ[types.Int32], r, sep)) {
					w.raw(`\u` + strconv.FormatInt(sep, 16))
					r = nil
					break
				}
			}
			if r == nil {
				i += k
				continue
			}
		}
		w.b = append(w.b, bs[i:i+k]...)
		i += k
	}
	w.raw(`"`)
}

func jsonString(s string, esc bool) string {
	var sb strings.Builder
	e := json.NewEncoder(&sb)
	e.SetEscapeHTML(esc)
	e.Encode(s)
	return strings.TrimSuffix(sb.String(), "\n")
}

func (w *jw) fail(msg string) {
	panic(jsonErr{w.m.newError(msg)})
}

type jsonErr struct{ err value }

func (m *Machine) emptyValue(t types.Type, v value) value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return m.equals(t, v, zero(t))
	case *types.Slice:
		return len(v.([]value)) == 0
	case *types.Array:
		return len(v.(array)) == 0
	case *types.Map:
		mp, _ := v.(*Map)
		return mp == nil || mp.n == 0
	case *types.Pointer, *types.Interface:
		return isNilV(v)
	default:
		_ = u
	}
	return false
}

func (w *jw) value(t types.Type, v value, depth int) {
	m := w.m
	if depth > 1000 {
		w.fail("json: unsupported value: encountered a cycle")
	}
	if _, isI := t.Underlying().(*types.Interface); isI {
		i := toIface(v)
		if i.t == nil {
			w.raw("null")
			return
		}
		w.value(i.t, i.v, depth+1)
		return
	}
	_, isPtr := t.Underlying().(*types.Pointer)
	if fn := m.findMethod(t, nil, "MarshalJSON"); fn != nil {
		if isPtr && isNilV(v) {
			w.raw("null")
			return
		}
		w.marshaler(fn, v)
		return
	}
	if fn := m.findMethod(t, nil, "MarshalText"); fn != nil {
		unsupported("json: MarshalText")
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if isNilV(v) {
			w.raw("null")
			return
		}
		p, ok := v.(*value)
		if ok {
			// a value behind a pointer is addressable
			w.addressable(u.Elem(), p, depth+1)
			return
		}
		w.value(u.Elem(), m.load(v), depth+1)
	case *types.Basic:
		switch x := v.(type) {
		case bool:
			if x {
				w.raw("true")
			} else {
				w.raw("false")
			}
		case string, *Str:
			w.str(v)
		case int64:
			wd, s := intInfo(t)
			_ = wd
			if s {
				w.raw(strconv.FormatInt(x, 10))
			} else {
				w.raw(strconv.FormatUint(uint64(x), 10))
			}
		case float64:
			b, err := json.Marshal(x)
			if err != nil {
				w.fail(err.Error())
			}
			w.raw(string(b))
		case *term.T:
			if x.W == 0 {
				if m.truth(x) {
					w.raw("true")
				} else {
					w.raw("false")
				}
				return
			}
			if _, ok := x.SingleByte(); ok {
				w.raw(m.intText(t, x, true).(string))
				return
			}
			_, s := intInfo(t)
			name := "FormatInt"
			to := types.Typ[types.Int64]
			if !s {
				name, to = "FormatUint", types.Typ[types.Uint64]
			}
			p := m.p.prog.ImportedPackage("strconv")
			r := m.exec(w.caller, m.p.code(p.Func(name)), []value{m.convert(to, t, x), int64(10)}, nil)
			w.b = append(w.b, m.bytesOf(r)...)
		default:
			unsupported("json of %T", v)
		}
	case *types.Struct:
		w.structure(u, v.(structure), nil, depth)
	case *types.Slice:
		s := v.([]value)
		if s == nil {
			w.raw("null")
			return
		}
		if b := basicOf(u.Elem()); b != nil && b.Kind() == types.Uint8 {
			unsupported("json of []byte")
		}
		w.list(u.Elem(), s, depth)
	case *types.Array:
		w.list(u.Elem(), v.(array), depth)
	case *types.Map:
		mp, _ := v.(*Map)
		if mp == nil {
			w.raw("null")
			return
		}
		if b := basicOf(u.Key()); b == nil || b.Kind() != types.String {
			unsupported("json of map with key %s", u.Key())
		}
		type kv struct{ k, v value }
		var es []kv
		for i := range mp.keys {
			if mp.live[i] {
				es = append(es, kv{mp.keys[i], mp.vals[i]})
			}
		}
		sort.SliceStable(es, func(i, j int) bool { return m.truth(m.strLess(es[i].k, es[j].k)) })
		w.raw("{")
		w.depth++
		for i, e := range es {
			if i > 0 {
				w.raw(",")
			}
			w.nl()
			w.str(e.k)
			w.colon()
			w.value(u.Elem(), e.v, depth+1)
		}
		w.depth--
		if len(es) > 0 {
			w.nl()
		}
		w.raw("}")
	default:
		w.fail("json: unsupported type: " + kindName(t))
	}
}

func (w *jw) list(et types.Type, s []value, depth int) {
	w.raw("[")
	w.depth++
	for i := range s {
		if i > 0 {
			w.raw(",")
		}
		w.nl()
		w.addressable(et, &s[i], depth+1)
	}
	w.depth--
	if len(s) > 0 {
		w.nl()
	}
	w.raw("]")
}

// addressable encodes *p, using pointer methods if there are any.
func (w *jw) addressable(t types.Type, p *value, depth int) {
	if _, isI := t.Underlying().(*types.Interface); !isI {
		if fn := w.m.findMethod(types.NewPointer(t), nil, "MarshalJSON"); fn != nil && w.m.findMethod(t, nil, "MarshalJSON") == nil {
			w.marshaler(fn, p)
			return
		}
	}
	if u, ok := t.Underlying().(*types.Struct); ok && w.m.findMethod(t, nil, "MarshalJSON") == nil {
		st, ok := (*p).(structure)
		if ok {
			w.structure(u, st, p, depth)
			return
		}
	}
	w.value(t, w.m.load(p), depth)
}

func (w *jw) structure(u *types.Struct, s structure, addr *value, depth int) {
	m := w.m
	w.raw("{")
	w.depth++
	n := 0
	for _, f := range jfields(u) {
		cur := s
		var v value
		var place *value
		for k, i := range f.path {
			v = cur[i]
			place = &cur[i]
			if k < len(f.path)-1 {
				cur = v.(structure)
			}
		}
		if f.omitZero {
			unsupported("json omitzero")
		}
		if f.omitEmpty && m.truth(m.emptyValue(f.t, v)) {
			continue
		}
		if f.quoted {
			unsupported("json string option")
		}
		if n > 0 {
			w.raw(",")
		}
		n++
		w.nl()
		w.raw(jsonString(f.name, w.esc))
		w.colon()
		if addr != nil {
			w.addressable(f.t, place, depth+1)
		} else {
			w.value(f.t, v, depth+1)
		}
	}
	w.depth--
	if n > 0 {
		w.nl()
	}
	w.raw("}")
}

func (w *jw) marshaler(fn *ssa.Function, recv value) {
	m := w.m
	r := m.callFn(w.caller, fn, []value{recv}, nil).(tuple)
	if e := toIface(r[1]); e.t != nil {
		panic(jsonErr{m.ptrStruct("fmt", "wrapError", opaqueStr(), e)})
	}
	s := vargs(r[0])
	bs := make([]*term.T, len(s))
	for i, x := range s {
		bs[i] = m.asTerm(x, 8)
	}
	n, ok := m.jparse(bs)
	if !ok {
		panic(jsonErr{m.newError(opaqueStr())})
	}
	w.node(n)
}

// node writes a parsed value, compacted.
func (w *jw) node(n *jnode) {
	switch n.kind {
	case '{', '[':
		w.raw(string(n.kind))
		w.depth++
		for i := range n.kids {
			if i > 0 {
				w.raw(",")
			}
			w.nl()
			if n.kind == '{' {
				w.rawTerms(n.keyRaw[i])
				w.colon()
			}
			w.node(n.kids[i])
		}
		w.depth--
		if len(n.kids) > 0 {
			w.nl()
		}
		if n.kind == '{' {
			w.raw("}")
		} else {
			w.raw("]")
		}
	default:
		w.rawTerms(n.raw)
	}
}

func (w *jw) rawTerms(bs []*term.T) {
	m := w.m
	for i := 0; i < len(bs); i++ {
		b := bs[i]
		if w.esc {
			esc := m.pool.False
			for _, c := range "<>&" {
				esc = m.pool.Or(esc, m.pool.Eq(b, m.byteTerms[c]))
			}
			if m.truth(termVal(esc, false)) {
				c := m.concretize(b)
				w.raw(`\u00` + strconv.FormatInt(int64(c), 16))
				continue
			}
		}
		if i+2 < len(bs) && m.truth(termVal(m.pool.Eq(b, m.pool.BV(0xe2, 8)), false)) {
			if m.truth(termVal(m.pool.And(m.pool.Eq(bs[i+1], m.pool.BV(0x80, 8)), m.pool.Or(m.pool.Eq(bs[i+2], m.pool.BV(0xa8, 8)), m.pool.Eq(bs[i+2], m.pool.BV(0xa9, 8)))), false)) {
				c := m.concretize(bs[i+2])
				w.raw(`\u202` + string("89"[c-0xa8]))
				i += 2
				continue
			}
		}
		w.b = append(w.b, b)
	}
}

// ---- reading

type jnode struct {
	kind   byte // { [ " 0 t f n
	raw    []*term.T
	str    value // decoded string
	keys   []value
	keyRaw [][]*term.T
	kids   []*jnode
}

type jp struct {
	m  *Machine
	b  []*term.T
	i  int
}

type jsyntax struct{}

func (m *Machine) jparse(b []*term.T) (n *jnode, ok bool) {
	p := &jp{m: m, b: b}
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(jsyntax); is {
				n, ok = nil, false
				return
			}
			panic(r)
		}
	}()
	p.ws()
	n = p.value(0)
	p.ws()
	if p.i != len(b) {
		panic(jsyntax{})
	}
	return n, true
}

var (
	wsSet     = setOfStr(" \t\r\n")
	digitSet  = setOfStr("0123456789")
	hexSet    = setOfStr("0123456789abcdefABCDEF")
	strStop   = func() term.Set {
		s := setOfStr("\"\\")
		for c := uint64(0); c < 0x20; c++ {
			s.Add(c)
		}
		return s
	}()
)

func setOfStr(x string) (s term.Set) {
	for i := 0; i < len(x); i++ {
		s.Add(uint64(x[i]))
	}
	return
}

func (p *jp) at(s term.Set) bool {
	if p.i >= len(p.b) {
		return false
	}
	return p.m.truth(termVal(p.m.inSet(p.b[p.i], s), false))
}

func (p *jp) is(c byte) bool {
	if p.i >= len(p.b) {
		return false
	}
	return p.m.truth(termVal(p.m.pool.Eq(p.b[p.i], p.m.byteTerms[c]), false))
}

func (p *jp) ws() {
	for p.at(wsSet) {
		p.i++
	}
}

func (p *jp) need(c byte) {
	if !p.is(c) {
		panic(jsyntax{})
	}
	p.i++
}

func (p *jp) value(depth int) *jnode {
	if depth > 10000 || p.i >= len(p.b) {
		panic(jsyntax{})
	}
	start := p.i
	n := &jnode{}
	switch {
	case p.is('"'):
		n.kind = '"'
		n.str = p.str()
	case p.is('{'):
		n.kind = '{'
		p.i++
		p.ws()
		if p.is('}') {
			p.i++
			break
		}
		for {
			p.ws()
			if !p.is('"') {
				panic(jsyntax{})
			}
			ks := p.i
			k := p.str()
			n.keys = append(n.keys, k)
			n.keyRaw = append(n.keyRaw, p.b[ks:p.i])
			p.ws()
			p.need(':')
			p.ws()
			n.kids = append(n.kids, p.value(depth+1))
			p.ws()
			if p.is(',') {
				p.i++
				continue
			}
			p.need('}')
			break
		}
	case p.is('['):
		n.kind = '['
		p.i++
		p.ws()
		if p.is(']') {
			p.i++
			break
		}
		for {
			p.ws()
			n.kids = append(n.kids, p.value(depth+1))
			p.ws()
			if p.is(',') {
				p.i++
				continue
			}
			p.need(']')
			break
		}
	case p.is('t'):
		n.kind = 't'
		p.word("true")
	case p.is('f'):
		n.kind = 'f'
		p.word("false")
	case p.is('n'):
		n.kind = 'n'
		p.word("null")
	default:
		n.kind = '0'
		if p.is('-') {
			p.i++
		}
		if p.is('0') {
			p.i++
		} else {
			if !p.at(digitSet) {
				panic(jsyntax{})
			}
			for p.at(digitSet) {
				p.i++
			}
		}
		if p.is('.') {
			p.i++
			if !p.at(digitSet) {
				panic(jsyntax{})
			}
			for p.at(digitSet) {
				p.i++
			}
		}
		if p.is('e') || p.is('E') {
			p.i++
			if p.is('+') || p.is('-') {
				p.i++
			}
			if !p.at(digitSet) {
				panic(jsyntax{})
			}
			for p.at(digitSet) {
				p.i++
			}
		}
	}
	n.raw = p.b[start:p.i]
	return n
}

func (p *jp) word(w string) {
	for i := 0; i < len(w); i++ {
		p.need(w[i])
	}
}

// str reads a string and returns its value.
func (p *jp) str() value {
	m := p.m
	p.i++
	var out value = ""
	run := p.i
	flush := func() {
		if run < p.i {
			out = m.concat(out, p.valid(mkStr(p.b[run:p.i:p.i])))
		}
	}
	for {
		if p.i >= len(p.b) {
			panic(jsyntax{})
		}
		if !p.at(strStop) {
			p.i++
			continue
		}
		flush()
		if p.is('"') {
			p.i++
			return out
		}
		p.need('\\')
		if p.i >= len(p.b) {
			panic(jsyntax{})
		}
		if p.is('u') {
			p.i++
			u := p.hex4()
			if u >= 0xd800 && u < 0xe000 {
				save := p.i
				if u < 0xdc00 && p.is('\\') {
					p.i++
					if p.is('u') {
						p.i++
						v := p.hex4()
						if v >= 0xdc00 && v < 0xe000 {
							out = m.concat(out, string(rune((u-0xd800)<<10|(v-0xdc00)+0x10000)))
							run = p.i
							continue
						}
					}
				}
				p.i = save
				u = 0xfffd
			}
			out = m.concat(out, string(rune(u)))
			run = p.i
			continue
		}
		done := false
		for k, c := range []byte(`"\/bfnrt`) {
			if p.is(c) {
				out = m.concat(out, string("\"\\/\b\f\n\r\t"[k]))
				done = true
				break
			}
		}
		if !done {
			panic(jsyntax{})
		}
		p.i++
		run = p.i
	}
}

func (p *jp) hex4() int {
	u := 0
	for k := 0; k < 4; k++ {
		if !p.at(hexSet) {
			panic(jsyntax{})
		}
		c := p.m.concretize(p.b[p.i])
		d, _ := strconv.ParseInt(string(byte(c)), 16, 32)
		u = u<<4 | int(d)
		p.i++
	}
	return u
}

// valid replaces invalid UTF-8 by U+FFFD as the decoder does.
func (p *jp) valid(v value) value {
	m := p.m
	if s, ok := v.(string); ok {
		if utf8.ValidString(s) {
			return s
		}
		return string([]rune(s)) // each invalid byte becomes U+FFFD
	}
	bs := m.bytesOf(v)
	if m.forkASCII(bs) {
		return v
	}
	var out value = ""
	for i := 0; i < len(bs); {
		_, k := m.decodeRune(v, i)
		if k == 1 && !m.truth(termVal(m.pool.Ult(bs[i], m.pool.BV(0x80, 8)), false)) {
			out = m.concat(out, "\ufffd")
		} else {
			out = m.concat(out, mkStr(bs[i:i+k:i+k]))
		}
		i += k
	}
	return out
}

type jdec struct {
	m      *Machine
	caller *frame
	err    value
}

func (d *jdec) typeErr(what string, t types.Type) {
	if d.err == nil {
		d.err = d.m.newError("json: cannot unmarshal " + what + " into Go value of type " + kindName(t))
	}
}

type jfatal struct{ err value }

func (d *jdec) into(t types.Type, p *value, n *jnode) {
	m := d.m
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		if n.kind == 'n' {
			m.store(p, nil)
			return
		}
		if isNilV(*p) {
			e := new(value)
			*e = zero(pt.Elem())
			m.store(p, e)
		}
		d.into(pt.Elem(), (*p).(*value), n)
		return
	}
	if it, ok := t.Underlying().(*types.Interface); ok {
		if i := toIface(*p); i.t != nil && n.kind != 'n' {
			if _, isPtr := i.t.Underlying().(*types.Pointer); isPtr && !isNilV(i.v) {
				unsupported("json into a non-nil interface")
			}
		}
		if n.kind == 'n' {
			m.store(p, iface{})
			return
		}
		if it.NumMethods() > 0 {
			d.typeErr("value", t)
			return
		}
		m.store(p, d.generic(n))
		return
	}
	if fn := m.findMethod(types.NewPointer(t), nil, "UnmarshalJSON"); fn != nil {
		raw := make([]value, len(n.raw))
		for i, b := range n.raw {
			raw[i] = termVal(b, false)
		}
		if e := toIface(m.callFn(d.caller, fn, []value{p, raw}, nil)); e.t != nil && d.err == nil {
			d.err = e
		}
		return
	}
	if fn := m.findMethod(types.NewPointer(t), nil, "UnmarshalText"); fn != nil {
		unsupported("json: UnmarshalText")
	}
	if n.kind == 'n' {
		switch t.Underlying().(type) {
		case *types.Slice, *types.Map:
			m.store(p, zero(t))
		}
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if n.kind != '{' {
			d.typeErr(jkind(n), t)
			return
		}
		fs := jfields(u)
		for k := range n.kids {
			fi := d.field(fs, n.keys[k])
			if fi < 0 {
				continue
			}
			place := p
			for _, i := range fs[fi].path {
				place = &(*place).(structure)[i]
			}
			if fs[fi].quoted {
				unsupported("json string option")
			}
			d.into(fs[fi].t, place, n.kids[k])
		}
	case *types.Slice:
		if n.kind != '[' {
			d.typeErr(jkind(n), t)
			return
		}
		old := vargs(*p)
		s := make([]value, len(n.kids))
		for i := range s {
			if i < len(old) {
				s[i] = old[i]
			} else {
				s[i] = zero(u.Elem())
			}
		}
		m.store(p, s)
		for i := range s {
			d.into(u.Elem(), &s[i], n.kids[i])
		}
	case *types.Map:
		if n.kind != '{' {
			d.typeErr(jkind(n), t)
			return
		}
		if b := basicOf(u.Key()); b == nil || b.Kind() != types.String {
			unsupported("json into map with key %s", u.Key())
		}
		mp, _ := (*p).(*Map)
		if mp == nil {
			mp = m.newMap(u.Key())
			m.store(p, mp)
		}
		for k := range n.kids {
			e := new(value)
			*e = zero(u.Elem())
			d.into(u.Elem(), e, n.kids[k])
			m.mapSet(mp, n.keys[k], *e)
		}
	case *types.Basic:
		info := u.Info()
		switch {
		case info&types.IsString != 0:
			if n.kind != '"' {
				d.typeErr(jkind(n), t)
				return
			}
			m.store(p, n.str)
		case info&types.IsBoolean != 0:
			if n.kind != 't' && n.kind != 'f' {
				d.typeErr(jkind(n), t)
				return
			}
			m.store(p, n.kind == 't')
		case info&types.IsInteger != 0:
			if n.kind != '0' {
				d.typeErr(jkind(n), t)
				return
			}
			s := m.concBytes(mkStr(n.raw))
			w, sg := intInfo(t)
			if sg {
				x, err := strconv.ParseInt(s, 10, 64)
				if err != nil || norm(x, w, true) != x {
					d.typeErr("number "+s, t)
					return
				}
				m.store(p, x)
			} else {
				x, err := strconv.ParseUint(s, 10, 64)
				if err != nil || norm(int64(x), w, false) != int64(x) {
					d.typeErr("number "+s, t)
					return
				}
				m.store(p, int64(x))
			}
		case info&types.IsFloat != 0:
			if n.kind != '0' {
				d.typeErr(jkind(n), t)
				return
			}
			x, err := strconv.ParseFloat(m.concBytes(mkStr(n.raw)), 64)
			if err != nil {
				d.typeErr("number", t)
				return
			}
			m.store(p, x)
		default:
			unsupported("json into %s", t)
		}
	default:
		unsupported("json into %s", t)
	}
}

func jkind(n *jnode) string {
	switch n.kind {
	case '{':
		return "object"
	case '[':
		return "array"
	case '"':
		return "string"
	case '0':
		return "number"
	case 't', 'f':
		return "bool"
	}
	return "null"
}

func (d *jdec) field(fs []jfield, key value) int {
	m := d.m
	if s, ok := key.(string); ok {
		for i := range fs {
			if fs[i].name == s {
				return i
			}
		}
		for i := range fs {
			if strings.EqualFold(fs[i].name, s) {
				return i
			}
		}
		return -1
	}
	for i := range fs {
		if m.truth(m.strEq(key, fs[i].name)) {
			return i
		}
	}
	for i := range fs {
		r, ok := intrinsics["strings.EqualFold"](m, nil, nil, []value{key, fs[i].name})
		if !ok {
			// non-ASCII letters that fold to ASCII
			if strings.ContainsAny(strings.ToLower(fs[i].name), "ks") {
				unsupported("json key folding of non-ASCII text")
			}
			continue
		}
		if m.truth(r) {
			return i
		}
	}
	return -1
}

func (d *jdec) generic(n *jnode) value {
	m := d.m
	any := types.NewInterfaceType(nil, nil)
	switch n.kind {
	case 'n':
		return iface{}
	case 't', 'f':
		return iface{types.Typ[types.Bool], n.kind == 't'}
	case '"':
		return iface{types.Typ[types.String], n.str}
	case '0':
		f, err := strconv.ParseFloat(m.concBytes(mkStr(n.raw)), 64)
		if err != nil {
			d.typeErr("number", types.Typ[types.Float64])
			return iface{}
		}
		return iface{types.Typ[types.Float64], f}
	case '[':
		s := make([]value, len(n.kids))
		for i := range s {
			s[i] = d.generic(n.kids[i])
		}
		return iface{types.NewSlice(any), s}
	}
	mp := m.newMap(types.Typ[types.String])
	for k := range n.kids {
		m.mapSet(mp, n.keys[k], d.generic(n.kids[k]))
	}
	return iface{types.NewMap(types.Typ[types.String], any), mp}
}

type jenc struct {
	w           value
	esc         bool
	prefix, ind string
}

func (m *Machine) jmarshal(caller *frame, v value, esc, indent bool, prefix, ind string) (r []*term.T, err value) {
	w := &jw{m: m, caller: caller, esc: esc, indent: indent, prefix: prefix, ind: ind}
	defer func() {
		if e := recover(); e != nil {
			if je, ok := e.(jsonErr); ok {
				r, err = nil, je.err
				return
			}
			panic(e)
		}
	}()
	i := toIface(v)
	if i.t == nil {
		w.raw("null")
	} else {
		w.value(i.t, i.v, 0)
	}
	return w.b, nil
}

func termVals(ts []*term.T) []value {
	r := make([]value, len(ts))
	for i, t := range ts {
		r[i] = termVal(t, false)
	}
	return r
}

func symJSON() {
	def := func(name string, f func(m *Machine, caller *frame, a []value) value) {
		intrinsics[name] = func(m *Machine, caller *frame, fn *ssa.Function, a []value) (value, bool) {
			return f(m, caller, a), true
		}
	}
	def("encoding/json.Marshal", func(m *Machine, c *frame, a []value) value {
		b, err := m.jmarshal(c, a[0], true, false, "", "")
		if err != nil {
			return tuple{[]value(nil), err}
		}
		return tuple{termVals(b), iface{}}
	})
	def("encoding/json.MarshalIndent", func(m *Machine, c *frame, a []value) value {
		b, err := m.jmarshal(c, a[0], true, true, a[1].(string), a[2].(string))
		if err != nil {
			return tuple{[]value(nil), err}
		}
		return tuple{termVals(b), iface{}}
	})
	def("encoding/json.Valid", func(m *Machine, c *frame, a []value) value {
		_, ok := m.jparse(m.bytesOf(m.bytesToStr(vargs(a[0]))))
		return ok
	})
	def("encoding/json.NewEncoder", func(m *Machine, c *frame, a []value) value {
		p := new(value)
		*p = native{&jenc{w: a[0], esc: true}}
		return p
	})
	enc := func(v value) *jenc { return (*v.(*value)).(native).v.(*jenc) }
	def("(*encoding/json.Encoder).SetEscapeHTML", func(m *Machine, c *frame, a []value) value {
		enc(a[0]).esc = m.truth(a[1])
		return nil
	})
	def("(*encoding/json.Encoder).SetIndent", func(m *Machine, c *frame, a []value) value {
		e := enc(a[0])
		e.prefix, e.ind = a[1].(string), a[2].(string)
		return nil
	})
	def("(*encoding/json.Encoder).Encode", func(m *Machine, c *frame, a []value) value {
		e := enc(a[0])
		b, err := m.jmarshal(c, a[1], e.esc, e.prefix != "" || e.ind != "", e.prefix, e.ind)
		if err != nil {
			return err
		}
		b = append(b, m.byteTerms['\n'])
		r, ok := m.callMethod(c, toIface(e.w), "Write", termVals(b))
		if !ok {
			unsupported("json.Encoder on %s", toIface(e.w).t)
		}
		return r.(tuple)[1]
	})
	def("encoding/json.Unmarshal", func(m *Machine, c *frame, a []value) value {
		n, ok := m.jparse(m.bytesOf(m.bytesToStr(vargs(a[0]))))
		if !ok {
			return m.newError(opaqueStr())
		}
		i := toIface(a[1])
		pt, isP := types.Type(nil), false
		if i.t != nil {
			var p *types.Pointer
			if p, isP = i.t.Underlying().(*types.Pointer); isP {
				pt = p.Elem()
			}
		}
		if !isP || isNilV(i.v) {
			return m.newError("json: Unmarshal(nil)")
		}
		d := &jdec{m: m, caller: c}
		d.into(pt, i.v.(*value), n)
		if d.err != nil {
			return d.err
		}
		return iface{}
	})
}
