// Package c17 checks the bigint analysis.
package c17

import (
	"github.com/webrpc/webrpc/internal/vsym"
	"github.com/webrpc/webrpc/schema"
)

const (
	shString = iota
	shBig
	shBigList
	shRef
	shRefList
	shOther // map<string,bigint>, [][]bigint, [][]X: not reported
	nShapes
)

// site is a field or argument.
type site struct {
	name   string
	shape  int
	target byte // symbolic struct name for shRef and shRefList
}

type world struct {
	s     *schema.WebRPCSchema
	n     int
	sites [][]site // per struct
	has   []bool   // has[i]: struct i carries a bigint
}

// pick makes the type of a site.
func (w *world) pick(name string, shapes int) (site, *schema.VarType) {
	st := site{name: name, shape: vsym.Pick(shapes)}
	x := ""
	switch st.shape {
	case shString:
		x = "string"
	case shBig:
		x = "bigint"
	case shBigList:
		x = "[]bigint"
	case shRef, shRefList:
		st.target = vsym.ByteIn("ABCDEFGH"[:w.n])
		x = string([]byte{st.target})
		if st.shape == shRefList {
			x = "[]" + x
		}
	default:
		x = []string{"map<string,bigint>", "[][]bigint", "E", "L"}[vsym.Pick(4)]
	}
	return st, &schema.VarType{Expr: x}
}

func (w *world) build(nf func(i int) int, shapes int) {
	for i := 0; i < w.n; i++ {
		t := &schema.Type{Kind: "struct", Name: string(rune('A' + i))}
		var sites []site
		for k := nf(i); k > 0; k-- {
			st, vt := w.pick("f"+string(rune('0'+k)), shapes)
			sites = append(sites, st)
			t.Fields = append(t.Fields, &schema.TypeField{Name: st.name, Type: vt})
		}
		w.s.Types = append(w.s.Types, t)
		w.sites = append(w.sites, sites)
	}
	if shapes > shOther {
		w.s.Types = append(w.s.Types, &schema.Type{Kind: "enum", Name: "E", Type: &schema.VarType{Expr: "int", Type: schema.T_Int}},
			&schema.Type{Kind: "alias", Name: "L", Type: &schema.VarType{Expr: "string", Type: schema.T_String}})
	}
}

// carries is the specification: the site has a bigint.
func (w *world) carries(st site) bool {
	switch st.shape {
	case shBig, shBigList:
		return true
	case shRef, shRefList:
		r := false
		for j := 0; j < w.n; j++ {
			r = vsym.Or(r, vsym.And(st.target == 'A'+byte(j), w.has[j]))
		}
		return r
	}
	return false
}

func (w *world) close() {
	w.has = make([]bool, w.n)
	for r := 0; r <= w.n; r++ {
		for i := range w.has {
			for _, st := range w.sites[i] {
				w.has[i] = vsym.Or(w.has[i], w.carries(st))
			}
		}
	}
}

// expect compares a reported list with the sites it was made from.
func (w *world) expect(list []any, ok bool, sites []site) {
	pos := 0
	for _, st := range sites {
		c := w.carries(st)
		in := false
		if pos < len(list) {
			switch v := list[pos].(type) {
			case string:
				want := st.name
				if st.shape == shBigList {
					want += "[]"
				}
				in = (st.shape == shBig || st.shape == shBigList) && v == want
			case [2]string:
				if (st.shape == shRef || st.shape == shRefList) && v[0] == st.name {
					in = true
					want := string([]byte{st.target})
					if st.shape == shRefList {
						want += "[]"
					}
					vsym.Assert(v[1] == want, "a nested entry does not name its struct")
				}
			default:
				vsym.Fail("unknown kind of entry")
			}
		}
		vsym.Assert(vsym.Iff(in, c), "the report does not list exactly the sites with a bigint")
		if in {
			pos++
		}
	}
	if pos != len(list) {
		vsym.Fail("entries are reordered, duplicated or invented")
	}
	vsym.Assert(ok == (len(list) > 0), "an empty list is reported")
}

func (w *world) check(methods [][2][]site, succ []bool) {
	var at []int
	for i := 0; i < w.n; i++ {
		at = append(at, i)
	}
	w.checkAt(methods, succ, at)
}

// checkAt checks a schema whose i-th struct is the at[i]-th type.
func (w *world) checkAt(methods [][2][]site, succ []bool, at []int) {
	if err := w.s.Validate(); err != nil {
		vsym.Fail("schema not valid")
	}
	w.close()
	any := false
	for i := range w.has {
		any = vsym.Or(any, w.has[i])
	}
	for _, m := range methods {
		for k := 0; k < 2; k++ {
			for _, st := range m[k] {
				any = vsym.Or(any, w.carries(st))
			}
		}
	}
	compat := len(methods) > 0 && vsym.Bool()
	vsym.Assert(vsym.Iff(schema.SchemaUsesBigInts(w.s), any), "the schema is misreported to use or not to use bigints")
	var rep map[string][]interface{}
	if compat {
		rep = schema.SchemaBigIntFieldsByType(w.s, true)
	} else {
		rep = schema.SchemaBigIntFieldsByType(w.s)
	}
	total := 0
	for i := range w.has {
		l, ok := rep[string(rune('A'+i))]
		w.expect(l, ok, w.sites[i])
		if ok {
			total++
		}
	}
	for i, m := range methods {
		suf := [2]string{"Request", "Response"}
		if compat {
			suf = [2]string{"Args", "Return"}
		}
		for k := 0; k < 2; k++ {
			l, ok := rep["M"+string(rune('0'+i))+suf[k]]
			if succ[i] {
				vsym.Assert(!ok, "a succinct method is reported")
			} else {
				w.expect(l, ok, m[k])
			}
			if ok {
				total++
			}
		}
	}
	vsym.Assert(total == len(rep), "the report has other entries")
	vsym.Assert(vsym.Iff(schema.SchemaUsesBigInts(w.s), any), "the analysis changes the schema")
	for i := 0; i < w.n; i++ {
		vsym.Assert(len(w.s.Types[at[i]].Fields) == len(w.sites[i]), "the analysis changes the schema")
	}
	vsym.Observe("entries", len(rep))
}

func newWorld(n int) *world {
	return &world{n: n, s: &schema.WebRPCSchema{WebrpcVersion: "v1", SchemaName: "n", SchemaVersion: "v1"}}
}

// VH_Graphs: any graph of structs, cyclic ones included.
func VH_Graphs() {
	w := newWorld(3)
	w.build(func(i int) int {
		if i == 0 || vsym.Tier() > 0 {
			return 2
		}
		return 1
	}, 4)
	w.check(nil, nil)
}

// VH_Ring: two structs with two fields each, list references included.
func VH_Ring() {
	w := newWorld(2)
	w.build(func(i int) int { return 2 }, 5)
	w.check(nil, nil)
}

// VH_Last: four structs of which only the last can have a bigint.
func VH_Last() {
	w := newWorld(4)
	for i := 0; i < 4; i++ {
		t := &schema.Type{Kind: "struct", Name: string(rune('A' + i))}
		var sites []site
		for k := 0; k < 1+vsym.Tier(); k++ {
			st := site{name: "f" + string(rune('0'+k)), shape: shRef, target: vsym.ByteIn("ABCD")}
			sites = append(sites, st)
			t.Fields = append(t.Fields, &schema.TypeField{Name: st.name, Type: &schema.VarType{Expr: string([]byte{st.target})}})
		}
		if i == 3 && vsym.Bool() {
			sites = append(sites, site{name: "x", shape: shBig})
			t.Fields = append(t.Fields, &schema.TypeField{Name: "x", Type: &schema.VarType{Expr: "bigint"}})
		}
		w.s.Types = append(w.s.Types, t)
		w.sites = append(w.sites, sites)
	}
	w.check(nil, nil)
}

// VH_Shapes: every shape of field.
func VH_Shapes() {
	w := newWorld(2)
	w.build(func(i int) int { return 2 - i }, nShapes)
	w.check(nil, nil)
}

// noise sets what the analysis does not depend on.
func noise(m *schema.Method) {
	m.StreamInput, m.StreamOutput = vsym.Bool(), vsym.Bool()
	if vsym.Bool() {
		m.Annotations = schema.Annotations{"internal": &schema.Annotation{AnnotationType: "internal"}, "deprecated": &schema.Annotation{AnnotationType: "deprecated", Value: "bigint"}}
		m.Comments = []string{"bigint"}
		m.Proxy = true
	}
}

// VH_Methods: arguments of plain and succinct methods.
func VH_Methods() {
	w := newWorld(2)
	w.build(func(i int) int { return 1 }, 4)
	svc := &schema.Service{Name: "S"}
	var ms [][2][]site
	var succ []bool
	for i := 0; i < 1+vsym.Tier(); i++ {
		m := &schema.Method{Name: "M" + string(rune('0'+i)), Succinct: vsym.Bool()}
		noise(m)
		n := 2
		if m.Succinct || i > 0 {
			n = 1
		}
		var p [2][]site
		for k := 0; k < n; k++ {
			st, vt := w.pick("a"+string(rune('0'+k)), 5)
			p[0] = append(p[0], st)
			m.Inputs = append(m.Inputs, &schema.MethodArgument{Name: st.name, Type: vt})
		}
		st, vt := w.pick("r", 5)
		p[1] = append(p[1], st)
		m.Outputs = append(m.Outputs, &schema.MethodArgument{Name: st.name, Type: vt})
		ms = append(ms, p)
		succ = append(succ, m.Succinct)
		svc.Methods = append(svc.Methods, m)
	}
	w.s.Services = []*schema.Service{svc}
	w.check(ms, succ)
}

// VH_MethodOther: results with two values and shapes that are not reported.
func VH_MethodOther() {
	w := newWorld(1)
	w.build(func(i int) int { return 1 }, nShapes)
	m := &schema.Method{Name: "M0"}
	noise(m)
	var p [2][]site
	st, vt := w.pick("a", nShapes)
	p[0] = append(p[0], st)
	m.Inputs = append(m.Inputs, &schema.MethodArgument{Name: st.name, Type: vt})
	for k := 0; k < 2; k++ {
		st, vt := w.pick("r"+string(rune('0'+k)), nShapes)
		p[1] = append(p[1], st)
		m.Outputs = append(m.Outputs, &schema.MethodArgument{Name: st.name, Type: vt})
	}
	w.s.Services = []*schema.Service{{Name: "S", Methods: []*schema.Method{m}}}
	w.check([][2][]site{p}, []bool{false})
}

// VH_NoSchema: no schema uses no bigints.
func VH_NoSchema() {
	vsym.Assert(!schema.SchemaUsesBigInts(nil), "no schema uses bigints")
}

// VH_Mixed: structs among other declarations, optional fields, two services.
func VH_Mixed() {
	w := newWorld(2)
	w.build(func(i int) int { return 1 }, shOther)
	name := "a"
	full := vsym.Bool()
	if !full {
		name += vsym.Lit()
	}
	w.s.Types = append(w.s.Types, &schema.Type{Kind: "alias", Name: "L", Type: &schema.VarType{Expr: "string"}},
		&schema.Type{Kind: "enum", Name: "E", Type: &schema.VarType{Expr: "string", Type: schema.T_String}, Fields: []*schema.TypeField{{Name: "BIGINT", TypeExtra: schema.TypeExtra{Value: "bigint"}}}})
	if full && vsym.Bool() {
		t := w.s.Types
		w.s.Types = []*schema.Type{t[2], t[0], t[3], t[1]}
	}
	opt := full && vsym.Bool()
	for _, t := range w.s.Types {
		for _, f := range t.Fields {
			f.Optional = opt && t.Kind == "struct"
			f.Meta = []schema.TypeFieldMeta{{"json": "x" + f.Name, "go.type": "bigint"}}
		}
	}
	var ms [][2][]site
	for i := 0; i < 2; i++ {
		m := &schema.Method{Name: "M" + string(rune('0'+i)), StreamInput: i == 0}
		if full {
			noise(m)
		}
		var p [2][]site
		st, vt := w.pick(name, 4-i)
		p[0] = append(p[0], st)
		m.Inputs = append(m.Inputs, &schema.MethodArgument{Name: st.name, Type: vt, Optional: opt})
		if i == 0 && full {
			st, vt = w.pick("r", 4)
			p[1] = append(p[1], st)
			m.Outputs = append(m.Outputs, &schema.MethodArgument{Name: st.name, Type: vt, Optional: opt})
		}
		ms = append(ms, p)
		w.s.Services = append(w.s.Services, &schema.Service{Name: "S" + string(rune('0'+i)), Methods: []*schema.Method{m, {Name: "Ping"}}})
	}
	k := [2]int{}
	for i, t := range w.s.Types {
		if t.Kind == "struct" {
			k[t.Name[0]-'A'] = i
		}
	}
	w.checkAt(ms, []bool{false, false}, k[:])
}

// VH_Large: a large schema with one or two fields or arguments that matter.
func VH_Large() {
	w := newWorld(5)
	counts := [][2]int{{0, 5}, {5, 0}, {2, 4}, {4, 1}, {1, 1}, {3, 3}}
	total := 25 + 30
	big, other := vsym.Pick(total), vsym.Pick(total)
	shape := 1 + vsym.Pick(4)
	target := byte('A')
	if shape == shRef || shape == shRefList {
		target = vsym.ByteIn("ABCDE")
	}
	n := 0
	place := func(name string) (site, *schema.VarType) {
		st := site{name: name}
		x := "string"
		switch n {
		case big:
			st.shape, x = shBig, "bigint"
		case other:
			st.shape = shape
			switch shape {
			case shBig:
				x = "bigint"
			case shBigList:
				x = "[]bigint"
			case shRef:
				st.target, x = target, string([]byte{target})
			case shRefList:
				st.target, x = target, "[]"+string([]byte{target})
			}
		}
		n++
		return st, &schema.VarType{Expr: x}
	}
	for i := 0; i < w.n; i++ {
		t := &schema.Type{Kind: "struct", Name: string(rune('A' + i))}
		w.sites = append(w.sites, nil)
		for k := 0; k < 5; k++ {
			st, vt := place("f" + string(rune('0'+k)))
			w.sites[i] = append(w.sites[i], st)
			t.Fields = append(t.Fields, &schema.TypeField{Name: st.name, Type: vt})
		}
		w.s.Types = append(w.s.Types, t)
	}
	var ms [][2][]site
	var succ []bool
	for i, c := range counts {
		if i == 0 || i == 1 || i == 4 {
			w.s.Services = append(w.s.Services, &schema.Service{Name: "S" + string(rune('0'+i))})
		}
		m := &schema.Method{Name: "M" + string(rune('0'+i)), Succinct: i == 4}
		var p [2][]site
		for k := 0; k < 2; k++ {
			for j := 0; j < c[k]; j++ {
				st, vt := place("a" + string(rune('0'+j)))
				p[k] = append(p[k], st)
				a := &schema.MethodArgument{Name: st.name, Type: vt}
				if k == 0 {
					m.Inputs = append(m.Inputs, a)
				} else {
					m.Outputs = append(m.Outputs, a)
				}
			}
		}
		ms, succ = append(ms, p), append(succ, m.Succinct)
		svc := w.s.Services[len(w.s.Services)-1]
		svc.Methods = append(svc.Methods, m)
	}
	w.check(ms, succ)
}

// VH_Services: five services of five methods, one place of which matters.
func VH_Services() {
	w := newWorld(2)
	deep := vsym.Bool()
	for i, x := range []string{"string", "bigint"} {
		st := site{name: "f"}
		if i == 1 && deep {
			st.shape = shBig
		} else {
			x = "string"
		}
		w.sites = append(w.sites, []site{st})
		w.s.Types = append(w.s.Types, &schema.Type{Kind: "struct", Name: string(rune('A' + i)), Fields: []*schema.TypeField{{Name: "f", Type: &schema.VarType{Expr: x}}}})
	}
	at, shape := vsym.Pick(50), vsym.Pick(5)
	target := vsym.ByteIn("AB")
	n := 0
	arg := func(name string) (site, *schema.MethodArgument) {
		st, x := site{name: name}, "string"
		if n == at {
			st.shape = shape
			switch shape {
			case shBig:
				x = "bigint"
			case shBigList:
				x = "[]bigint"
			case shRef:
				st.target, x = target, string([]byte{target})
			case shRefList:
				st.target, x = target, "[]"+string([]byte{target})
			}
		}
		n++
		return st, &schema.MethodArgument{Name: name, Type: &schema.VarType{Expr: x}}
	}
	var ms [][2][]site
	var succ []bool
	for i := 0; i < 25; i++ {
		if i%5 == 0 {
			w.s.Services = append(w.s.Services, &schema.Service{Name: "S" + string(rune('0'+i/5))})
		}
		in, a := arg("a")
		out, b := arg("b")
		svc := w.s.Services[i/5]
		svc.Methods = append(svc.Methods, &schema.Method{Name: "M" + string(rune('0'+i)), Inputs: []*schema.MethodArgument{a}, Outputs: []*schema.MethodArgument{b}})
		ms, succ = append(ms, [2][]site{{in}, {out}}), append(succ, false)
	}
	w.check(ms, succ)
	vsym.Reach("services")
}
