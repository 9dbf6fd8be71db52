// Package c15 checks service selection and tree shaking.
package c15

import (
	"github.com/webrpc/webrpc/internal/vh/sch"
	"github.com/webrpc/webrpc/internal/vsym"
	"github.com/webrpc/webrpc/schema"
)

// world is a schema whose types refer to each other by symbolic names.
type world struct {
	s    *schema.WebRPCSchema
	n    int      // types are named A, B, C, ...
	edge [][]bool // edge[i][j]: type i mentions type j
	uses [][]bool // uses[k][j]: service k mentions type j
	typs []*schema.Type
	svcs []*schema.Service
}

func letters(n int) string { return "ABCDEFGH"[:n] }

// ref makes a type expression of the given shape around a symbolic type name
// and returns which types it mentions.
func (w *world) ref(shape int) (*schema.VarType, []bool) {
	c := vsym.ByteIn(letters(w.n))
	m := make([]bool, w.n)
	for j := range m {
		m[j] = c == 'A'+byte(j)
	}
	x := string([]byte{c})
	switch shape {
	case 1:
		x = "[]" + x
	case 2:
		x = "map<string," + x + ">"
	case 3:
		x = "[]map<uint8,[]" + x + ">"
	case 4:
		x = "map<string,map<string,[][]" + x + ">>"
	case 5:
		x = "string"
		m = make([]bool, w.n)
	}
	return &schema.VarType{Expr: x}, m
}

func (w *world) add(i int, kind int, fields int, shape func() int) {
	t := &schema.Type{Name: string(rune('A' + i))}
	row := make([]bool, w.n)
	switch kind {
	case 0:
		t.Kind = "struct"
		for k := 0; k < fields; k++ {
			vt, m := w.ref(shape())
			for j := range m {
				row[j] = vsym.Or(row[j], m[j])
			}
			t.Fields = append(t.Fields, &schema.TypeField{Name: "f" + string(rune('0'+k)), Type: vt})
		}
	case 1:
		t.Kind = "enum"
		t.Type = &schema.VarType{Expr: "string", Type: schema.T_String}
		t.Fields = []*schema.TypeField{{Name: "M", TypeExtra: schema.TypeExtra{Value: "v"}}}
	case 2:
		t.Kind = "alias"
		t.Type, row = w.ref(shape())
	}
	w.s.Types = append(w.s.Types, t)
	w.typs = append(w.typs, t)
	w.edge = append(w.edge, row)
}

func (w *world) service(name string, args int, shape func() int) {
	svc := &schema.Service{Name: name}
	row := make([]bool, w.n)
	m := &schema.Method{Name: "M"}
	for k := 0; k < args; k++ {
		vt, r := w.ref(shape())
		for j := range r {
			row[j] = vsym.Or(row[j], r[j])
		}
		a := &schema.MethodArgument{Name: "a" + string(rune('0'+k)), Type: vt}
		if k%2 == 0 {
			m.Inputs = append(m.Inputs, a)
		} else {
			m.Outputs = append(m.Outputs, a)
		}
	}
	svc.Methods = []*schema.Method{m}
	w.s.Services = append(w.s.Services, svc)
	w.svcs = append(w.svcs, svc)
	w.uses = append(w.uses, row)
}

func newWorld(n int) *world {
	return &world{n: n, s: &schema.WebRPCSchema{WebrpcVersion: "v1", SchemaName: "n", SchemaVersion: "v1",
		Errors: []*schema.Error{{Code: 1, Name: "E", Message: "m", HTTPStatus: 400}}}}
}

// resolve lets the real code resolve every type expression.
func (w *world) resolve() {
	for _, t := range w.s.Types {
		if t.Kind == "alias" {
			vt := &schema.VarType{}
			if err := schema.ParseVarTypeExpr(w.s, t.Type.Expr, vt); err != nil {
				vsym.Fail("alias not resolved")
			}
			t.Type = vt
		}
	}
	if err := w.s.Validate(); err != nil {
		vsym.Fail("schema not valid")
	}
}

// check shakes for the services marked in inc.
func (w *world) check(names []string, inc []bool) {
	need := make([]bool, w.n)
	for k := range w.svcs {
		for j := range need {
			need[j] = vsym.Or(need[j], vsym.And(inc[k], w.uses[k][j]))
		}
	}
	for r := 0; r < w.n; r++ {
		for i := range need {
			for j := range need {
				need[j] = vsym.Or(need[j], vsym.And(need[i], w.edge[i][j]))
			}
		}
	}
	err := *w.s.Errors[0]
	var svcs []*schema.Service
	for _, svc := range w.svcs {
		svcs = append(svcs, sch.CloneService(svc))
	}
	var typs []*schema.Type
	for _, t := range w.typs {
		typs = append(typs, sch.CloneDecl(t))
	}
	got := schema.MethodTreeShake(w.s, names)
	if got == nil {
		vsym.Fail("no schema")
	}
	pos := 0
	for i, t := range typs {
		in := pos < len(got.Types) && got.Types[pos] != nil && got.Types[pos].Name == t.Name
		if in {
			vsym.Assert(sch.SameDecl(got.Types[pos], t), "a declaration changed")
			pos++
		}
		vsym.Assert(vsym.Iff(in, need[i]), "the kept types are not exactly the used ones")
	}
	if pos != len(got.Types) {
		vsym.Fail("types are reordered, duplicated or invented")
	}
	vsym.Assert(len(got.Services) == len(svcs), "services changed")
	for k := range svcs {
		vsym.Assert(sch.SameService(got.Services[k], svcs[k]), "services changed")
	}
	vsym.Assert(len(got.Errors) == 1 && sch.SameError(got.Errors[0], &err) && got.SchemaName == "n" && got.SchemaVersion == "v1" && got.WebrpcVersion == "v1", "errors or header changed")
	vsym.Observe("kept", pos)
}

// VH_ShakeStructs: structs that refer to each other in any way, directly.
func VH_ShakeStructs() {
	w := newWorld(3 + vsym.Tier())
	plain := func() int { return 0 }
	for i := 0; i < w.n; i++ {
		w.add(i, 0, vsym.Pick(2), plain)
	}
	w.service("S", 1, plain)
	w.service("T", 1, plain)
	w.resolve()
	w.check([]string{"S"}, []bool{true, false})
}

// VH_ShakeKinds: structs, enums and aliases.
func VH_ShakeKinds() {
	w := newWorld(3)
	plain := func() int { return 0 }
	for i := 0; i < w.n; i++ {
		w.add(i, vsym.Pick(3), 1, plain)
	}
	w.service("S", 1, plain)
	w.service("T", 1, plain)
	w.resolve()
	w.check([]string{"S"}, []bool{true, false})
}

// VH_ShakeShapes: references through lists and maps.
func VH_ShakeShapes() {
	w := newWorld(2)
	any := func() int { return vsym.Pick(6) }
	w.add(0, vsym.Pick(3), 1+vsym.Tier(), any)
	w.add(1, vsym.Pick(2), 1, any)
	w.service("S", 2, any)
	w.resolve()
	w.check([]string{"S"}, []bool{true})
}

// VH_ShakeServices: any selection among services.
func VH_ShakeServices() {
	w := newWorld(3)
	plain := func() int { return 0 }
	w.add(0, 0, 1, plain)
	w.add(1, 1, 0, plain)
	w.add(2, 1, 0, plain)
	w.service("S", 2, plain)
	w.service("T", 1, plain)
	w.service("U", 1+vsym.Tier(), plain)
	w.resolve()
	names := []string{}
	inc := make([]bool, 3)
	for i := vsym.Pick(3); i > 0; i-- {
		c := vsym.ByteIn("STUs")
		names = append(names, string([]byte{c}))
		for k := range inc {
			inc[k] = vsym.Or(inc[k], c == "STU"[k])
		}
	}
	w.check(names, inc)
}

// VH_ShakeMapKey: an enum used only as a map key, directly or by alias.
func VH_ShakeMapKey() {
	w := newWorld(4)
	w.add(0, 1, 0, nil)
	w.add(1, 1, 0, nil)
	// C: alias of one of the enums
	c := vsym.ByteIn("AB")
	t := &schema.Type{Kind: "alias", Name: "C", Type: &schema.VarType{Expr: string([]byte{c})}}
	w.s.Types = append(w.s.Types, t)
	w.typs = append(w.typs, t)
	w.edge = append(w.edge, []bool{c == 'A', c == 'B', false, false})
	// D: struct with a map keyed by an enum or the alias
	k := vsym.ByteIn("ABC")
	d := &schema.Type{Kind: "struct", Name: "D", Fields: []*schema.TypeField{{Name: "f", Type: &schema.VarType{Expr: "map<" + string([]byte{k}) + ",string>"}}}}
	w.s.Types = append(w.s.Types, d)
	w.typs = append(w.typs, d)
	w.edge = append(w.edge, []bool{k == 'A', k == 'B', k == 'C', false})
	w.service("S", 1, func() int { return 0 })
	w.service("T", 1, func() int { return 0 })
	w.resolve()
	w.check([]string{"T"}, []bool{false, true})
}

// VH_MatchServices: any selection of services.
func VH_MatchServices() {
	s := &schema.WebRPCSchema{WebrpcVersion: "v1", SchemaVersion: "v1", SchemaName: "n"}
	s.Types = []*schema.Type{{Kind: "struct", Name: "A"}}
	n := vsym.Pick(4)
	var svcs []*schema.Service
	var keep []bool
	for i := 0; i < n; i++ {
		name := "S" + vsym.StrIn(1, "abA")
		for _, o := range svcs {
			vsym.Assume(o.Name != name)
		}
		svc := &schema.Service{Name: name, Comments: []string{"c", name}, Methods: []*schema.Method{{Name: "M", StreamOutput: vsym.Bool(), Errors: []string{"E"}}, {Name: "N"}}}
		svcs = append(svcs, sch.CloneService(svc))
		keep = append(keep, false)
		s.Services = append(s.Services, svc)
	}
	var names []string
	k := vsym.Pick(4)
	for i := 0; i < k; i++ {
		name := "S" + vsym.StrIn(1, "abAz")
		names = append(names, name)
		for j := range keep {
			keep[j] = vsym.Or(keep[j], svcs[j].Name == name)
		}
	}
	got := schema.MatchServices(s, names)
	if got == nil || len(got.Types) != 1 || got.SchemaName != "n" {
		vsym.Fail("something other than services changed")
	}
	pos := 0
	for i, svc := range svcs {
		in := pos < len(got.Services) && got.Services[pos].Name == svc.Name
		if in {
			vsym.Assert(sch.SameService(got.Services[pos], svc), "a kept service changed")
			pos++
		}
		vsym.Assert(vsym.Iff(in, vsym.Or(k == 0, keep[i])), "the kept services are not exactly the named ones")
	}
	if pos != len(got.Services) {
		vsym.Fail("services are reordered, duplicated or invented")
	}
	vsym.Observe("kept", pos)
	if schema.MatchServices(nil, names) != nil || schema.MethodTreeShake(nil, names) != nil {
		vsym.Fail("no schema gives a schema")
	}
}

// VH_ShakeKeyValue: maps with declared keys and values, several methods, types
// that are used more than once.
func VH_ShakeKeyValue() {
	w := newWorld(5)
	ref := func() (*schema.VarType, []bool) {
		v := vsym.ByteIn("ABCDE")
		x := string([]byte{v})
		m := make([]bool, w.n)
		for j := range m {
			m[j] = v == 'A'+byte(j)
		}
		if i := vsym.Pick(3); i > 0 {
			k := vsym.ByteIn("ABC")
			for j := range m {
				m[j] = vsym.Or(m[j], k == 'A'+byte(j))
			}
			x = "map<" + string([]byte{k}) + "," + []string{"", "[]"}[i-1] + x + ">"
		}
		return &schema.VarType{Expr: x}, m
	}
	w.add(0, 1, 0, nil)
	w.add(1, 1, 0, nil)
	c := vsym.ByteIn("AB")
	add := func(t *schema.Type, row []bool) {
		w.s.Types = append(w.s.Types, t)
		w.typs = append(w.typs, t)
		w.edge = append(w.edge, row)
	}
	add(&schema.Type{Kind: "alias", Name: "C", Type: &schema.VarType{Expr: string([]byte{c})}}, []bool{c == 'A', c == 'B', false, false, false})
	f, row := ref()
	add(&schema.Type{Kind: "struct", Name: "D", Fields: []*schema.TypeField{{Name: "e", Type: &schema.VarType{Expr: "int"}}, {Name: "f", Type: f}}}, row)
	add(&schema.Type{Kind: "struct", Name: "E", Fields: []*schema.TypeField{{Name: "e", Type: &schema.VarType{Expr: "int"}}}}, make([]bool, 5))
	svc := &schema.Service{Name: "S", Methods: []*schema.Method{{Name: "M"}, {Name: "N"}}}
	uses := make([]bool, 5)
	for k := 0; k < 2+vsym.Tier(); k++ {
		vt, r := ref()
		for j := range r {
			uses[j] = vsym.Or(uses[j], r[j])
		}
		a := &schema.MethodArgument{Name: "a" + string(rune('0'+k)), Type: vt}
		switch k {
		case 0:
			svc.Methods[0].Inputs = append(svc.Methods[0].Inputs, a)
		case 1:
			if vsym.Bool() {
				svc.Methods[0].Inputs = append(svc.Methods[0].Inputs, a)
			} else {
				svc.Methods[1].Outputs = append(svc.Methods[1].Outputs, a)
			}
		default:
			svc.Methods[1].Inputs = append(svc.Methods[1].Inputs, a)
		}
	}
	w.s.Services = []*schema.Service{svc}
	w.svcs = w.s.Services
	w.uses = [][]bool{uses}
	w.resolve()
	w.check([]string{"S"}, []bool{true})
}

// decorate gives a declaration everything that does not matter for what is
// used.
func (w *world) decorate(on func(int) bool) {
	for _, t := range w.s.Types {
		if on(0) {
			t.Comments = []string{"internal", "deprecated: A B C"}
		}
		if on(1) && t.Kind != "enum" {
			t.Meta = []schema.TypeFieldMeta{{"go.type": "X"}, {"json": "-"}}
		}
		for _, f := range t.Fields {
			if t.Kind != "struct" {
				continue
			}
			if on(2) {
				f.Optional = true
			}
			if on(3) {
				f.Meta = []schema.TypeFieldMeta{{"json": "-"}, {"go.tag.json": "-"}, {"internal": "true"}}
			}
			if on(4) {
				f.Comments = []string{"deprecated"}
			}
		}
	}
	for _, svc := range w.s.Services {
		if on(0) {
			svc.Comments = []string{"internal"}
		}
		for _, m := range svc.Methods {
			if on(0) {
				m.Comments = []string{"deprecated"}
			}
			if on(5) {
				m.StreamInput = true
			}
			if on(6) {
				m.StreamOutput = true
			}
			if on(7) {
				m.Annotations = schema.Annotations{"internal": {AnnotationType: "internal"}, "deprecated": {AnnotationType: "deprecated", Value: "x"}}
			}
			if on(8) {
				m.Errors = []string{"E"}
			}
			if on(9) {
				m.Succinct = true
			}
			if on(10) {
				m.Proxy = true
			}
			for _, a := range append(append([]*schema.MethodArgument{}, m.Inputs...), m.Outputs...) {
				if on(11) {
					a.Optional = true
				}
				if on(12) {
					a.Meta = []schema.TypeFieldMeta{{"json": "-"}}
				}
			}
		}
	}
}

func noisy() *world {
	w := newWorld(3)
	plain := func() int { return 0 }
	w.add(0, 0, 1, func() int { return vsym.Pick(2) })
	w.add(1, 2*vsym.Pick(2), 1, plain)
	w.add(2, 1, 0, plain)
	w.service("S", 2, plain)
	w.service("T", 1, plain)
	return w
}

// VH_ShakeNoise: flags, comments, meta, annotations and errors do not matter.
func VH_ShakeNoise() {
	w := noisy()
	kind := vsym.Pick(14)
	w.decorate(func(k int) bool { return k == kind || kind == 13 && k != 9 })
	w.resolve()
	w.check([]string{"S"}, []bool{true, false})
}

// VH_ShakeFlags: the flags of methods, arguments and fields, all symbolic.
func VH_ShakeFlags() {
	w := noisy()
	w.s.Types[0].Fields[0].Optional = vsym.Bool()
	for _, svc := range w.s.Services {
		for _, m := range svc.Methods {
			m.StreamInput, m.StreamOutput, m.Succinct, m.Proxy = vsym.Bool(), vsym.Bool(), vsym.Bool(), vsym.Bool()
			for _, a := range append(append([]*schema.MethodArgument{}, m.Inputs...), m.Outputs...) {
				a.Optional = vsym.Bool()
			}
		}
	}
	w.resolve()
	w.check([]string{"S"}, []bool{true, false})
}

// VH_ShakeEmpty: services without methods and methods that use no type
// around the ones that use types.
func VH_ShakeEmpty() {
	w := newWorld(3)
	plain := func() int { return 0 }
	w.add(0, 0, 1, plain)
	w.add(1, 0, 0, plain)
	w.add(2, 1, 0, plain)
	w.service("S", 2, plain)
	w.service("T", 1, plain)
	args, flag := vsym.Pick(3), vsym.Pick(5)
	empty := func() *schema.Method {
		m := &schema.Method{Name: "Empty", StreamInput: flag == 1, StreamOutput: flag == 2, Succinct: flag == 3, Proxy: flag == 4}
		arg := []*schema.MethodArgument{{Name: "x", Type: &schema.VarType{Expr: "int", Type: schema.T_Int}}}
		switch args {
		case 1:
			m.Inputs = arg
		case 2:
			m.Outputs = arg
		}
		return m
	}
	for i, svc := range w.s.Services {
		switch vsym.Pick(3) {
		case 1:
			svc.Methods = append([]*schema.Method{empty()}, svc.Methods...)
		case 2:
			svc.Methods = append(svc.Methods, empty())
		}
		if i == 0 && vsym.Bool() {
			w.s.Services = append([]*schema.Service{{Name: "Z", Methods: []*schema.Method{empty()}}}, w.s.Services...)
			w.svcs = w.s.Services
			w.uses = append([][]bool{make([]bool, w.n)}, w.uses...)
		}
	}
	w.resolve()
	names := []string{"S", "Z", "T"}
	inc := make([]bool, len(w.svcs))
	sel := vsym.Pick(4)
	for i, svc := range w.svcs {
		inc[i] = svc.Name == names[sel%3] || sel == 3 && svc.Name == "T"
	}
	w.check([][]string{{"S"}, {"Z"}, {"T"}, {"S", "T"}}[sel], inc)
}

// VH_ShakeWide: many services, methods, arguments and fields, of which one
// leads to the types that are used.
func VH_ShakeWide() {
	w := newWorld(8)
	none := func() []bool { return make([]bool, w.n) }
	str := func() *schema.VarType { return &schema.VarType{Expr: "string"} }
	link := vsym.Pick(5)
	for i := 0; i < w.n; i++ {
		t := &schema.Type{Kind: "struct", Name: string(rune('A' + i))}
		row := none()
		for k := 0; k < 5; k++ {
			f := &schema.TypeField{Name: "f" + string(rune('0'+k)), Type: str()}
			switch {
			case i == 0 && k == link:
				f.Type, row = w.ref(2)
			case i >= 4 && k == 4-link:
				f.Type, row = &schema.VarType{Expr: "[]" + string(rune('A'+i-1))}, none()
				row[i-1] = true
			}
			t.Fields = append(t.Fields, f)
		}
		w.s.Types = append(w.s.Types, t)
		w.typs = append(w.typs, t)
		w.edge = append(w.edge, row)
	}
	at, meth, arg := vsym.Pick(5), vsym.Pick(3), vsym.Pick(8)
	for i := 0; i < 5; i++ {
		v := &schema.Service{Name: "S" + string(rune('0'+i))}
		row := none()
		for k := 0; k < 3; k++ {
			m := &schema.Method{Name: "M" + string(rune('0'+k))}
			for j := 0; j < 8; j++ {
				a := &schema.MethodArgument{Name: "a" + string(rune('0'+j)), Type: str()}
				if i == at && k == meth && j == arg {
					a.Type.Expr = "[]A"
					row[0] = true
				}
				if j%2 == 0 {
					m.Inputs = append(m.Inputs, a)
				} else {
					m.Outputs = append(m.Outputs, a)
				}
			}
			v.Methods = append(v.Methods, m)
		}
		w.s.Services = append(w.s.Services, v)
		w.svcs = append(w.svcs, v)
		w.uses = append(w.uses, row)
	}
	w.resolve()
	inc := make([]bool, 5)
	var names []string
	only := vsym.Bool()
	for i := range inc {
		inc[i] = (i == at) == only
		if inc[i] {
			names = append(names, w.svcs[i].Name)
		}
	}
	w.check(names, inc)
}

// VH_MatchWide: every selection of six services.
func VH_MatchWide() {
	s := &schema.WebRPCSchema{WebrpcVersion: "v1", SchemaVersion: "v1", SchemaName: "n"}
	var names, want []string
	rev := vsym.Bool()
	for i := 0; i < 6; i++ {
		n := "S" + string(rune('a'+i))
		s.Services = append(s.Services, &schema.Service{Name: n, Methods: []*schema.Method{{Name: "M"}}})
		if vsym.Bool() {
			want = append(want, n)
			if rev {
				names = append([]string{n}, names...)
			} else {
				names = append(names, n)
			}
		}
	}
	if len(names) == 0 {
		want = []string{"Sa", "Sb", "Sc", "Sd", "Se", "Sf"}
	} else if vsym.Bool() {
		names = append(names, names[0])
	}
	got := schema.MatchServices(s, names)
	vsym.Reach("matched")
	if got == nil || len(got.Services) != len(want) {
		vsym.Fail("not the selected services")
	}
	for i, v := range got.Services {
		vsym.Assert(v.Name == want[i], "not the selected services in their order")
	}
}
