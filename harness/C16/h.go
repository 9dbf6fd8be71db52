// Package c16 checks the annotation filters.
package c16

import (
	"github.com/webrpc/webrpc/internal/vh/sch"
	"github.com/webrpc/webrpc/internal/vsym"
	"github.com/webrpc/webrpc/schema"
)

var names = []string{"a", "b", "c", "A", "ab", "a "}

// build makes a schema whose methods carry symbolic annotations.
func build(nsvc, nmeth int) *schema.WebRPCSchema {
	s := &schema.WebRPCSchema{WebrpcVersion: "v1", SchemaName: "n", SchemaVersion: "v1", BasePath: "/b/"}
	s.Errors = []*schema.Error{{Code: 7, Name: "E", Message: "m", HTTPStatus: 400}}
	s.Types = []*schema.Type{{Kind: "enum", Name: "E"}}
	for i := 0; i < nsvc; i++ {
		svc := &schema.Service{Name: "S" + string(rune('0'+i)), Comments: []string{"doc"}}
		for k := 0; k < nmeth; k++ {
			m := &schema.Method{Name: "M" + string(rune('0'+k)), Annotations: schema.Annotations{}}
			if vsym.Bool() {
				m.Annotations["a"] = &schema.Annotation{AnnotationType: "a", Value: vsym.StrIn(1-vsym.Pick(1+vsym.Tier()), "xy")}
			}
			if vsym.Bool() {
				m.Annotations["b"] = &schema.Annotation{AnnotationType: "b", Value: vsym.StrIn(1, "xy ")}
			}
			svc.Methods = append(svc.Methods, m)
		}
		s.Services = append(s.Services, svc)
	}
	return s
}

// carries is the specification of the filter.
func carries(m *schema.Method, filter map[string]string) bool {
	r := false
	for _, n := range names {
		want, ok := filter[n]
		if !ok {
			continue
		}
		a := m.Annotations[n]
		if a == nil {
			continue
		}
		blank := true
		for i := 0; i < len(want); i++ {
			blank = vsym.And(blank, want[i] == ' ')
		}
		r = vsym.Or(r, blank, a.Value == want)
	}
	return r
}

func filter() map[string]string {
	f := map[string]string{}
	if vsym.Bool() {
		f["a"] = vsym.StrIn(vsym.Pick(2+vsym.Tier()), "xy ")
	}
	if vsym.Bool() {
		f["b"] = vsym.StrIn(vsym.Pick(2), "xy ")
	}
	if vsym.Tier() > 0 && vsym.Bool() {
		f["c"] = ""
	}
	return f
}

func check(s *schema.WebRPCSchema, f map[string]string) {
	sch.Keys = names
	var keep [][]bool
	var svcs []*schema.Service
	for _, svc := range s.Services {
		var ks []bool
		for _, m := range svc.Methods {
			ks = append(ks, carries(m, f))
		}
		keep = append(keep, ks)
		svcs = append(svcs, sch.CloneService(svc))
	}
	typ, nf := sch.CloneDecl(s.Types[0]), len(f)
	for pass := 0; pass < 2; pass++ {
		s.Services = nil
		for _, svc := range svcs {
			s.Services = append(s.Services, sch.CloneService(svc))
		}
		var got *schema.WebRPCSchema
		if pass == 0 {
			got = schema.MatchMethodsWithAnnotations(s, f)
		} else {
			got = schema.IgnoreMethodsWithAnnotations(s, f)
		}
		if got == nil || len(got.Services) != len(svcs) || len(got.Types) != 1 || len(got.Errors) != 1 {
			vsym.Fail("filtering changes something other than methods")
		}
		vsym.Assert(sch.SameDecl(got.Types[0], typ) && got.Errors[0].Name == "E" && got.Errors[0].Code == 7, "filtering changes something other than methods")
		if got.SchemaName != "n" || got.SchemaVersion != "v1" || got.WebrpcVersion != "v1" || got.BasePath != "/b/" {
			vsym.Fail("filtering changes the schema header")
		}
		vsym.Assert(len(f) == nf, "filtering changes its argument")
		for i, svc := range got.Services {
			if svc.Name != svcs[i].Name || len(svc.Comments) != 1 {
				vsym.Fail("filtering changes a service")
			}
			// the kept methods are a subsequence of the original ones
			pos := 0
			for k, m := range svcs[i].Methods {
				in := pos < len(svc.Methods) && svc.Methods[pos].Name == m.Name
				if in {
					vsym.Assert(sch.SameMethod(svc.Methods[pos], m) && svc.Methods[pos].Proxy == m.Proxy, "filtering changes a method")
					pos++
				}
				if pass == 0 {
					vsym.Assert(in == keep[i][k], "matching does not keep exactly the methods with one of the annotations")
				} else {
					vsym.Assert(in == !keep[i][k], "ignoring does not keep exactly the methods without the annotations")
				}
			}
			if pos != len(svc.Methods) {
				vsym.Fail("methods are reordered, duplicated or invented")
			}
			vsym.Observe("kept", len(svc.Methods))
		}
	}
}

// VH_FilterOrder: every iteration order of the filter and annotation maps.
func VH_FilterOrder() {
	s := build(1, 2)
	check(s, filter())
}

// VH_FilterMany: more services and methods.
func VH_FilterMany() {
	s := build(2, 1+vsym.Pick(2))
	f := map[string]string{}
	if vsym.Bool() {
		f["a"] = vsym.StrIn(1, "xy ")
	}
	if vsym.Bool() {
		f["b"] = ""
	}
	check(s, f)
}

// VH_FilterNil: a missing schema and an empty filter.
func VH_FilterNil() {
	vsym.Assert(schema.MatchMethodsWithAnnotations(nil, filter()) == nil, "no schema gives a schema")
	vsym.Assert(schema.IgnoreMethodsWithAnnotations(nil, nil) == nil, "no schema gives a schema")
	check(build(1, 1), nil)
}

// VH_Values: texts of values and names.
func VH_Values() {
	s := build(1, 0)
	m := &schema.Method{Name: "M", Annotations: schema.Annotations{}}
	text := func() string {
		if vsym.Pick(3) == 0 {
			return vsym.Lit()
		}
		return vsym.StrIn(vsym.Pick(3), "xX ,:\t@")
	}
	an := func() string {
		return []string{"a", "A", "ab", "a "}[vsym.Pick(4)]
	}
	n := an()
	m.Annotations[n] = &schema.Annotation{AnnotationType: n, Value: text()}
	if vsym.Bool() {
		m.Annotations["c"] = &schema.Annotation{AnnotationType: "c", Value: "v"}
	}
	s.Services[0].Methods = []*schema.Method{m, {Name: "Other"}}
	f := map[string]string{an(): text()}
	check(s, f)
}

// VH_Noise: everything else methods have does not matter.
func VH_Noise() {
	s := build(1, 2)
	kind := vsym.Pick(10)
	m := s.Services[0].Methods[vsym.Pick(2)]
	on := func(k int) bool { return k == kind || kind == 9 }
	if on(0) {
		m.StreamInput = true
	}
	if on(1) {
		m.StreamOutput = true
	}
	if on(2) {
		m.Succinct = true
	}
	if on(3) {
		m.Proxy = true
	}
	if on(4) {
		m.Errors = []string{"E", "a"}
	}
	if on(5) {
		m.Comments = []string{"@a", "a"}
	}
	if on(6) {
		m.Inputs = []*schema.MethodArgument{{Name: "a", Type: &schema.VarType{Expr: "string"}, Optional: true}}
		m.Outputs = []*schema.MethodArgument{{Name: "b", Type: &schema.VarType{Expr: "int"}}}
	}
	if on(7) {
		m.Annotations["c"] = &schema.Annotation{AnnotationType: "c", Value: "a"}
	}
	if on(8) {
		m.Name = "a"
	}
	check(s, filter())
}

// VH_Wide: many services, methods, annotations and filters, of which one pair
// may match.
func VH_Wide() {
	s := build(0, 0)
	s.Services = nil
	keys := []string{"a", "b", "c", "d", "e"}
	svc, meth, ann := vsym.Pick(5), vsym.Pick(5), vsym.Pick(5)
	x, y := vsym.StrIn(1, "xy"), vsym.StrIn(1, "xy")
	for i := 0; i < 5; i++ {
		v := &schema.Service{Name: "S" + string(rune('0'+i)), Comments: []string{"doc"}}
		for k := 0; k < 5; k++ {
			m := &schema.Method{Name: "M" + string(rune('0'+k)), Annotations: schema.Annotations{}}
			for j, n := range keys {
				a := &schema.Annotation{AnnotationType: n, Value: "o"}
				if i == svc && k == meth && j == ann {
					a.Value = x
				}
				m.Annotations[n] = a
			}
			v.Methods = append(v.Methods, m)
		}
		s.Services = append(s.Services, v)
	}
	f := map[string]string{}
	for j := range keys {
		f[keys[j]] = "other"
	}
	f[keys[vsym.Pick(5)]] = y
	old := names
	names = keys
	check(s, f)
	names = old
}
