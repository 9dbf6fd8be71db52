// Package sch builds and compares schemas for the harnesses.
package sch

import (
	"github.com/webrpc/webrpc/internal/vsym"
	"github.com/webrpc/webrpc/schema"
)

// Knobs are the parts of the sample schema that a harness varies.
type Knobs struct {
	Name, Version, Base                        string
	Struct, Field, FieldType                   string
	FieldOpt                                   bool
	MetaKey, MetaVal                           string
	TypeComment, FieldComment, EnumComment     string
	Enum, EnumType, Member, Value              string
	Alias, AliasType, AliasMeta                string
	Err, Msg                                   string
	Code, Status                               int
	Svc, SvcComment, Meth, MethComment         string
	AnnKey, AnnType, AnnVal                    string
	Succinct, StreamIn, StreamOut              bool
	Arg, ArgType                               string
	ArgOpt                                     bool
	Out, OutType                               string
	OutOpt                                     bool
	MethErr                                    bool
	SwapTypes, SwapFields, SwapMeths, SwapErrs bool
	SwapSvcs, SwapMethErrs, SwapMembers        bool
	SwapComments                               bool
	NoFields, NoMeta, NoErrs, NoSvcs, NoTypes  bool
	SwapAnn, SwapArgs, NoArgs                  bool
}

func Default() *Knobs {
	return &Knobs{Name: "n", Version: "v1", Base: "/b/", Struct: "A", Field: "f", FieldType: "string",
		MetaKey: "go.tag", MetaVal: "x", TypeComment: "tc", FieldComment: "fc", EnumComment: "ec",
		Enum: "B", EnumType: "uint8", Member: "M", Value: "1", Alias: "C", AliasType: "string", AliasMeta: "am",
		Err: "E", Msg: "m", Code: 7, Status: 400, Svc: "S", SvcComment: "sc", Meth: "Do", MethComment: "mc",
		AnnKey: "auth", AnnType: "auth", AnnVal: "v", Arg: "a", ArgType: "string", Out: "o", OutType: "int", MethErr: true}
}

func vt(x string) *schema.VarType { return &schema.VarType{Expr: x} }

func swap[T any](on bool, l []T) []T {
	if on {
		l[0], l[1] = l[1], l[0]
	}
	return l
}

// Build makes the schema, not validated yet.
func (k *Knobs) Build() *schema.WebRPCSchema {
	s := &schema.WebRPCSchema{WebrpcVersion: "v1", SchemaName: k.Name, SchemaVersion: k.Version, BasePath: k.Base,
		Types: []*schema.Type{}, Errors: []*schema.Error{}, Services: []*schema.Service{}}
	st := &schema.Type{Kind: "struct", Name: k.Struct, Comments: swap(k.SwapComments, []string{k.TypeComment, "second"})}
	f := &schema.TypeField{Name: k.Field, Type: vt(k.FieldType), Comments: []string{k.FieldComment}}
	f.Optional = k.FieldOpt
	if !k.NoMeta {
		f.Meta = []schema.TypeFieldMeta{{k.MetaKey: k.MetaVal}, {"json": "jf"}}
	}
	g := &schema.TypeField{Name: "g", Type: vt("map<string,[]" + k.Struct + ">")}
	if !k.NoFields {
		st.Fields = swap(k.SwapFields, []*schema.TypeField{f, g})
	}
	en := &schema.Type{Kind: "enum", Name: k.Enum, Type: vt(k.EnumType)}
	m := &schema.TypeField{Name: k.Member, Comments: []string{k.EnumComment}}
	m.Value = k.Value
	m2 := &schema.TypeField{Name: "N"}
	m2.Value = "2"
	en.Fields = swap(k.SwapMembers, []*schema.TypeField{m, m2})
	al := &schema.Type{Kind: "alias", Name: k.Alias, Type: vt(k.AliasType)}
	al.Meta = []schema.TypeFieldMeta{{"go.type": k.AliasMeta}}
	if !k.NoTypes {
		s.Types = append(swap(k.SwapTypes, []*schema.Type{st, en}), al)
	}
	if !k.NoErrs {
		s.Errors = swap(k.SwapErrs, []*schema.Error{{Code: k.Code, Name: k.Err, Message: k.Msg, HTTPStatus: k.Status},
			{Code: 1000, Name: "Other", Message: "other", HTTPStatus: 500}})
	}
	if k.NoSvcs {
		return s
	}
	me := &schema.Method{Name: k.Meth, Comments: []string{k.MethComment}, Succinct: k.Succinct, StreamInput: k.StreamIn, StreamOutput: k.StreamOut,
		Annotations: schema.Annotations{}, Inputs: []*schema.MethodArgument{}, Outputs: []*schema.MethodArgument{}}
	if k.SwapAnn {
		me.Annotations["zz"] = &schema.Annotation{AnnotationType: "zz"}
	}
	me.Annotations[k.AnnKey] = &schema.Annotation{AnnotationType: k.AnnType, Value: k.AnnVal}
	if !k.SwapAnn {
		me.Annotations["zz"] = &schema.Annotation{AnnotationType: "zz"}
	}
	if !k.NoArgs {
		me.Inputs = append(me.Inputs, &schema.MethodArgument{Name: k.Arg, Type: vt(k.ArgType), Optional: k.ArgOpt})
		me.Outputs = append(me.Outputs, &schema.MethodArgument{Name: k.Out, Type: vt(k.OutType), Optional: k.OutOpt})
		if !k.Succinct {
			me.Inputs = swap(k.SwapArgs, append(me.Inputs, &schema.MethodArgument{Name: "second", Type: vt("bool")}))
		}
	}
	if k.MethErr && !k.NoErrs {
		me.Errors = swap(k.SwapMethErrs, []string{k.Err, "Other"})
	}
	svc := &schema.Service{Name: k.Svc, Comments: []string{k.SvcComment},
		Methods: swap(k.SwapMeths, []*schema.Method{me, {Name: "Other", Comments: []string{}, Annotations: schema.Annotations{}, Inputs: []*schema.MethodArgument{}, Outputs: []*schema.MethodArgument{}}})}
	s.Services = swap(k.SwapSvcs, []*schema.Service{svc, {Name: "Second", Methods: []*schema.Method{{Name: "Ping"}}}})
	return s
}

func strs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = vsym.And(r, a[i] == b[i])
	}
	return r
}

// SameType compares resolved types by structure and by the names they refer to.
func SameType(a, b *schema.VarType) bool {
	if a == nil || b == nil {
		return a == b
	}
	r := vsym.And(a.Expr == b.Expr, a.Type == b.Type, strs(a.Comments, b.Comments))
	if (a.List == nil) != (b.List == nil) || (a.Map == nil) != (b.Map == nil) || (a.Struct == nil) != (b.Struct == nil) ||
		(a.Enum == nil) != (b.Enum == nil) || (a.Alias == nil) != (b.Alias == nil) {
		return false
	}
	switch {
	case a.List != nil:
		r = vsym.And(r, SameType(a.List.Elem, b.List.Elem))
	case a.Map != nil:
		r = vsym.And(r, SameType(a.Map.Key, b.Map.Key), SameType(a.Map.Value, b.Map.Value))
	case a.Struct != nil:
		r = vsym.And(r, a.Struct.Name == b.Struct.Name, sameRef(a.Struct.Type, b.Struct.Type))
	case a.Enum != nil:
		r = vsym.And(r, a.Enum.Name == b.Enum.Name, sameRef(a.Enum.Type, b.Enum.Type))
	case a.Alias != nil:
		r = vsym.And(r, a.Alias.Name == b.Alias.Name, sameRef(a.Alias.Type, b.Alias.Type))
	}
	return r
}

func sameRef(a, b *schema.Type) bool {
	if a == nil || b == nil {
		return a == b
	}
	return vsym.And(a.Name == b.Name, a.Kind == b.Kind)
}

func sameMeta(a, b []schema.TypeFieldMeta) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		if len(a[i]) != len(b[i]) {
			return false
		}
		for k, v := range a[i] {
			w, ok := b[i][k]
			if !ok {
				return false
			}
			switch v := v.(type) {
			case string:
				w, is := w.(string)
				r = vsym.And(r, is, v == w)
			default:
				r = vsym.And(r, v == w)
			}
		}
	}
	return r
}

func sameExtra(a, b schema.TypeExtra) bool {
	return vsym.And(a.Optional == b.Optional, a.Value == b.Value, sameMeta(a.Meta, b.Meta))
}

func sameArgs(a, b []*schema.MethodArgument) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = vsym.And(r, a[i].Name == b[i].Name, SameType(a[i].Type, b[i].Type), a[i].Optional == b[i].Optional, sameExtra(a[i].TypeExtra, b[i].TypeExtra))
	}
	return r
}

// SameDecl compares two types declarations.
func SameDecl(x, y *schema.Type) bool {
	if len(x.Fields) != len(y.Fields) {
		return false
	}
	r := vsym.And(x.Kind == y.Kind, x.Name == y.Name, SameType(x.Type, y.Type), sameExtra(x.TypeExtra, y.TypeExtra), strs(x.Comments, y.Comments))
	for i, f := range x.Fields {
		g := y.Fields[i]
		r = vsym.And(r, f.Name == g.Name, SameType(f.Type, g.Type), sameExtra(f.TypeExtra, g.TypeExtra), strs(f.Comments, g.Comments))
	}
	return r
}

// Same compares everything a schema declares.
func Same(a, b *schema.WebRPCSchema) bool {
	if len(a.Types) != len(b.Types) || len(a.Errors) != len(b.Errors) || len(a.Services) != len(b.Services) {
		return false
	}
	r := vsym.And(a.WebrpcVersion == b.WebrpcVersion, a.SchemaName == b.SchemaName, a.SchemaVersion == b.SchemaVersion, a.BasePath == b.BasePath)
	for i := range a.Types {
		r = vsym.And(r, SameDecl(a.Types[i], b.Types[i]))
	}
	for i, e := range a.Errors {
		f := b.Errors[i]
		r = vsym.And(r, e.Code == f.Code, e.Name == f.Name, e.Message == f.Message, e.HTTPStatus == f.HTTPStatus)
	}
	for i, s := range a.Services {
		t := b.Services[i]
		if len(s.Methods) != len(t.Methods) {
			return false
		}
		r = vsym.And(r, s.Name == t.Name, strs(s.Comments, t.Comments))
		for k, m := range s.Methods {
			r = vsym.And(r, SameMethod(m, t.Methods[k]))
		}
	}
	return r
}

// Keys are all names of annotations there may be, for harnesses that explore
// the orders of maps and spare those of their own loops.
var Keys []string

func annotated(m *schema.Method) (r []string) {
	if Keys != nil {
		for _, k := range Keys {
			if m.Annotations[k] != nil {
				r = append(r, k)
			}
		}
		return
	}
	for k := range m.Annotations {
		r = append(r, k)
	}
	return
}

// SameMethod compares two methods.
func SameMethod(m, n *schema.Method) bool {
	if len(m.Annotations) != len(n.Annotations) {
		return false
	}
	r := vsym.And(m.Name == n.Name, strs(m.Comments, n.Comments), m.Succinct == n.Succinct, m.StreamInput == n.StreamInput,
		m.StreamOutput == n.StreamOutput, sameArgs(m.Inputs, n.Inputs), sameArgs(m.Outputs, n.Outputs), strs(m.Errors, n.Errors))
	for _, key := range annotated(m) {
		v := m.Annotations[key]
		w, ok := n.Annotations[key]
		if !ok || v == nil || w == nil {
			return false
		}
		r = vsym.And(r, v.AnnotationType == w.AnnotationType, v.Value == w.Value)
	}
	return r
}

// CloneType copies a resolved type; declarations it refers to are shared.
func CloneType(t *schema.VarType) *schema.VarType {
	if t == nil {
		return nil
	}
	c := *t
	if t.List != nil {
		c.List = &schema.VarListType{Elem: CloneType(t.List.Elem)}
	}
	if t.Map != nil {
		c.Map = &schema.VarMapType{Key: CloneType(t.Map.Key), Value: CloneType(t.Map.Value)}
	}
	if t.Struct != nil {
		x := *t.Struct
		c.Struct = &x
	}
	if t.Enum != nil {
		x := *t.Enum
		c.Enum = &x
	}
	if t.Alias != nil {
		x := *t.Alias
		c.Alias = &x
	}
	return &c
}

func cloneExtra(x schema.TypeExtra) schema.TypeExtra {
	var l []schema.TypeFieldMeta
	for _, m := range x.Meta {
		c := schema.TypeFieldMeta{}
		for k, v := range m {
			c[k] = v
		}
		l = append(l, c)
	}
	x.Meta = l
	return x
}

func cloneStrs(l []string) []string { return append([]string(nil), l...) }

// CloneDecl copies a declaration.
func CloneDecl(t *schema.Type) *schema.Type {
	c := &schema.Type{Kind: t.Kind, Name: t.Name, Type: CloneType(t.Type), TypeExtra: cloneExtra(t.TypeExtra), Comments: cloneStrs(t.Comments)}
	for _, f := range t.Fields {
		c.Fields = append(c.Fields, &schema.TypeField{Name: f.Name, Type: CloneType(f.Type), TypeExtra: cloneExtra(f.TypeExtra), Comments: cloneStrs(f.Comments)})
	}
	return c
}

func cloneArgs(l []*schema.MethodArgument) (r []*schema.MethodArgument) {
	for _, a := range l {
		c := *a
		c.Type, c.TypeExtra = CloneType(a.Type), cloneExtra(a.TypeExtra)
		r = append(r, &c)
	}
	return
}

// CloneMethod copies a method.
func CloneMethod(m *schema.Method) *schema.Method {
	c := *m
	c.Comments, c.Errors, c.Inputs, c.Outputs = cloneStrs(m.Comments), cloneStrs(m.Errors), cloneArgs(m.Inputs), cloneArgs(m.Outputs)
	c.Annotations = schema.Annotations{}
	for _, k := range annotated(m) {
		x := *m.Annotations[k]
		c.Annotations[k] = &x
	}
	return &c
}

// CloneService copies a service.
func CloneService(s *schema.Service) *schema.Service {
	c := &schema.Service{Name: s.Name, Comments: cloneStrs(s.Comments)}
	for _, m := range s.Methods {
		c.Methods = append(c.Methods, CloneMethod(m))
	}
	return c
}

// SameService compares two services.
func SameService(a, b *schema.Service) bool {
	if len(a.Methods) != len(b.Methods) {
		return false
	}
	r := vsym.And(a.Name == b.Name, strs(a.Comments, b.Comments))
	for i := range a.Methods {
		r = vsym.And(r, SameMethod(a.Methods[i], b.Methods[i]), a.Methods[i].Proxy == b.Methods[i].Proxy)
	}
	return r
}

// SameError compares two errors.
func SameError(e, f *schema.Error) bool {
	return vsym.And(e.Code == f.Code, e.Name == f.Name, e.Message == f.Message, e.HTTPStatus == f.HTTPStatus)
}

// Wide is a schema with five of everything, whose names end in x, and the texts,
// marks and numbers in it that may be anything.
func Wide(x string) (s *schema.WebRPCSchema, texts []*string, marks []*bool, codes []*int) {
	id := func(p string, i int) string { return p + string(rune('a'+i)) + x }
	many := func(i int) int {
		if i == 2 {
			return 5
		}
		return 1
	}
	vt := func(e string) *schema.VarType { return &schema.VarType{Expr: e} }
	five := func(p string, n int) []string {
		var r []string
		for i := 0; i < n; i++ {
			r = append(r, id(p, i))
		}
		for i := range r {
			texts = append(texts, &r[i])
		}
		return r
	}
	s = &schema.WebRPCSchema{WebrpcVersion: "v1", SchemaName: "n", SchemaVersion: "v1"}
	var structs, enums, aliases []*schema.Type
	for i := 0; i < 5; i++ {
		st := &schema.Type{Kind: "struct", Name: id("S", i), Comments: five("c", many(i))}
		en := &schema.Type{Kind: "enum", Name: id("E", i), Type: vt("string"), Comments: five("d", many(i))}
		al := &schema.Type{Kind: "alias", Name: id("A", i), Type: vt("[]" + id("S", i)), Comments: five("e", many(i))}
		for k := 0; k < many(i); k++ {
			al.Meta = append(al.Meta, schema.TypeFieldMeta{id("k", k): "v"})
		}
		for k := 0; k < 5; k++ {
			f := &schema.TypeField{Name: id("f", k), Type: vt([]string{"string", "map<" + id("E", k) + ",[]" + id("S", i) + ">", id("A", k)}[k%3])}
			f.Comments = five("g", many(k))
			for j := 0; j < many(k); j++ {
				f.Meta = append(f.Meta, schema.TypeFieldMeta{id("k", j): "v", id("l", j): "w"})
			}
			marks = append(marks, &f.Optional)
			st.Fields = append(st.Fields, f)
			g := &schema.TypeField{Name: id("M", k), TypeExtra: schema.TypeExtra{Value: id("v", k)}, Comments: five("h", many(i))}
			texts = append(texts, &g.Value, &g.Name)
			en.Fields = append(en.Fields, g)
		}
		structs, enums, aliases = append(structs, st), append(enums, en), append(aliases, al)
		e := &schema.Error{Code: 1 + i, Name: id("X", i), Message: "m" + x, HTTPStatus: 400 + i}
		texts = append(texts, &e.Message)
		codes = append(codes, &e.HTTPStatus)
		s.Errors = append(s.Errors, e)
	}
	s.Types = append(append(append(s.Types, aliases...), enums...), structs...)
	for i := 0; i < 5; i++ {
		v := &schema.Service{Name: id("V", i), Comments: five("q", many(i))}
		for k := 0; k < many(i); k++ {
			m := &schema.Method{Name: id("M", k), Comments: five("r", many(k))}
			for j := 0; j < many(k); j++ {
				in := &schema.MethodArgument{Name: id("i", j), Type: vt(id("S", j))}
				out := &schema.MethodArgument{Name: id("o", j), Type: vt("[]" + id("E", j))}
				texts = append(texts, &in.Name, &out.Name)
				marks = append(marks, &in.Optional, &out.Optional)
				m.Inputs, m.Outputs, m.Errors = append(m.Inputs, in), append(m.Outputs, out), append(m.Errors, id("X", j))
				if m.Annotations == nil {
					m.Annotations = schema.Annotations{}
				}
				an := &schema.Annotation{AnnotationType: id("t", j), Value: id("w", j)}
				texts = append(texts, &an.Value)
				m.Annotations[id("t", j)] = an
			}
			texts = append(texts, &m.Name)
			marks = append(marks, &m.StreamInput, &m.StreamOutput)
			v.Methods = append(v.Methods, m)
		}
		s.Services = append(s.Services, v)
	}
	return
}
