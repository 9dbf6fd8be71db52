// Package rdl writes RIDL documents and knows the schemas they mean.
package rdl

import (
	"strconv"

	"github.com/webrpc/webrpc/internal/vsym"
	"github.com/webrpc/webrpc/schema"
)

type Meta struct {
	Key, Val string
	Quote    bool
}

type Field struct {
	Name, Type string
	Opt        bool
	Meta       []Meta
}

// Value is a member of an enum, with or without a value.
type Value struct {
	Name, Val  string
	Has, Quote bool
}

type Arg struct {
	Name, Type string
	Opt        bool
}

// Ann is an annotation: Form is 0 without value, 1 for a word, 2 for a string.
type Ann struct {
	Key, Val string
	Form     int
	SameLine bool // as the one before
}

type Method struct {
	Name                          string
	In, Out                       []Arg
	HasOut                        bool
	StreamIn, StreamOut, Succinct bool
	Proxy                         bool
	Errs                          []string
	Anns                          []Ann
}

type Decl struct {
	Kind, Name, Type string
	Meta             []Meta
	Values           []Value
	Fields           []Field
	Code             string
	CodeInt          int
	Msg              string
	MsgQuote         bool
	Status           int
	Methods          []Method
}

type Def struct {
	Key, Val string
	Quote    bool
}

type Doc struct {
	Defs  []Def
	Decls []Decl
}

// Slots of the layout.
const (
	Opt    = iota // blanks that may be left out
	Req           // at least one blank
	End           // the end of a line
	Indent        // the start of a line
)

// Layout gives the text of a slot; def is what is usual.
type Layout func(kind int, def string) string

func Plain(kind int, def string) string { return def }

func quote(s string, q bool) string {
	if q {
		return "\"" + s + "\""
	}
	return s
}

// typ writes a type with blanks inside maps.
func typ(l Layout, t string) string {
	r := ""
	for i := 0; i < len(t); i++ {
		switch t[i] {
		case '<', ',':
			r += l(Opt, "") + t[i:i+1] + l(Opt, "")
		case '>':
			r += l(Opt, "") + ">"
		default:
			r += t[i : i+1]
		}
	}
	return r
}

func metas(l Layout, m []Meta) (r string) {
	for _, x := range m {
		r += l(Indent, "    ") + "+" + l(Opt, " ") + x.Key + l(Opt, " ") + "=" + l(Opt, " ") + quote(x.Val, x.Quote) + l(End, "\n")
	}
	return
}

func args(l Layout, a []Arg, succinct bool) string {
	if succinct {
		return "(" + a[0].Type + ")"
	}
	r := "(" + l(Opt, "")
	for i, x := range a {
		if i > 0 {
			r += l(Opt, "") + "," + l(Opt, " ")
		}
		r += x.Name
		if x.Opt {
			r += "?"
		}
		r += ":" + l(Opt, " ") + typ(l, x.Type)
	}
	return r + l(Opt, "") + ")"
}

func (d *Decl) text(l Layout) (r string) {
	switch d.Kind {
	case "alias":
		r = "type" + l(Req, " ") + d.Name + ":" + l(Opt, " ") + typ(l, d.Type) + l(End, "\n") + metas(l, d.Meta)
	case "enum":
		r = "enum" + l(Req, " ") + d.Name + ":" + l(Opt, " ") + d.Type + l(End, "\n")
		for _, v := range d.Values {
			r += l(Indent, "  ") + "-" + l(Opt, " ") + v.Name
			if v.Has {
				r += l(Opt, " ") + "=" + l(Opt, " ") + quote(v.Val, v.Quote)
			}
			r += l(End, "\n")
		}
	case "struct":
		r = "struct" + l(Req, " ") + d.Name + l(End, "\n")
		for _, f := range d.Fields {
			r += l(Indent, "  ") + "-" + l(Opt, " ") + f.Name
			if f.Opt {
				r += "?"
			}
			r += ":" + l(Opt, " ") + typ(l, f.Type) + l(End, "\n") + metas(l, f.Meta)
		}
	case "error":
		code := d.Code
		if code == "" {
			code = strconv.Itoa(d.CodeInt)
		}
		r = "error" + l(Req, " ") + code + l(Req, " ") + d.Name + l(Req, " ") + quote(d.Msg, d.MsgQuote)
		if d.Status != 0 {
			r += l(Req, " ") + "HTTP" + l(Req, " ") + strconv.Itoa(d.Status)
		}
		r += l(End, "\n")
	case "service":
		r = "service" + l(Req, " ") + d.Name + l(End, "\n")
		for _, m := range d.Methods {
			for i, a := range m.Anns {
				if i > 0 && a.SameLine {
					r += l(Req, " ")
				} else {
					if i > 0 {
						r += l(End, "\n")
					}
					r += l(Indent, "  ")
				}
				r += "@" + a.Key
				if a.Form > 0 {
					r += ":" + quote(a.Val, a.Form == 2)
				}
			}
			if len(m.Anns) > 0 {
				r += l(End, "\n")
			}
			r += l(Indent, "  ") + "-" + l(Opt, " ")
			if m.StreamIn {
				r += "stream" + l(Req, " ")
			}
			if m.Proxy {
				r += "proxy" + l(Req, " ") + m.Name + l(End, "\n")
				continue
			}
			r += m.Name + args(l, m.In, m.Succinct)
			if m.HasOut {
				r += l(Opt, " ") + "=>" + l(Opt, " ")
				if m.StreamOut {
					r += "stream" + l(Req, " ")
				}
				r += args(l, m.Out, m.Succinct)
			}
			for i, e := range m.Errs {
				if i == 0 {
					r += l(Req, " ") + "errors" + l(Req, " ") + e
				} else {
					r += l(Req, " ") + "|" + l(Opt, " ") + e
				}
			}
			r += l(End, "\n")
		}
	}
	return r + l(End, "\n")
}

// Text writes the document.
func (d *Doc) Text(l Layout) (r string) {
	for _, f := range d.Defs {
		r += l(Indent, "") + f.Key + l(Opt, " ") + "=" + l(Opt, " ") + quote(f.Val, f.Quote) + l(End, "\n")
	}
	r += l(End, "\n")
	for i := range d.Decls {
		r += l(Indent, "") + d.Decls[i].text(l)
	}
	return
}

func metaIs(got []schema.TypeFieldMeta, want []Meta) bool {
	if len(got) != len(want) {
		return false
	}
	r := true
	for i, w := range want {
		if len(got[i]) != 1 {
			return false
		}
		for k, v := range got[i] {
			s, ok := v.(string)
			if !ok {
				return false
			}
			r = vsym.And(r, k == w.Key, s == w.Val)
		}
	}
	return r
}

func lower(s string) string {
	if len(s) > 0 && s[0] >= 'A' && s[0] <= 'Z' {
		return string([]byte{s[0] + 'a' - 'A'}) + s[1:]
	}
	return s
}

func argsAre(got []*schema.MethodArgument, want []Arg, succinct bool) string {
	if len(got) != len(want) {
		return "number of arguments"
	}
	for i, w := range want {
		g := got[i]
		if g.Type == nil {
			return "argument without type"
		}
		name := w.Name
		if succinct {
			name = lower(w.Type)
		}
		if !vsym.And(g.Name == name, g.Optional == w.Opt, g.Type.Expr == w.Type, len(g.Meta) == 0, g.Value == "", !g.TypeExtra.Optional) {
			return "argument"
		}
	}
	return ""
}

func (d *Decl) check(s *schema.WebRPCSchema, t *schema.Type) {
	vsym.Assert(t.Kind == d.Kind && t.Name == d.Name, "kind or name of a type")
	vsym.Assert(metaIs(t.Meta, d.Meta), "meta of a type")
	vsym.Assert(!t.Optional && t.Value == "", "flags of a type")
	switch d.Kind {
	case "alias":
		vsym.Assert(t.Type != nil && t.Type.Expr == d.Type && len(t.Fields) == 0, "type of an alias")
	case "enum":
		vsym.Assert(t.Type != nil && t.Type.Expr == d.Type, "type of an enum")
		if len(t.Fields) != len(d.Values) {
			vsym.Fail("number of members")
		}
		for i, w := range d.Values {
			g := t.Fields[i]
			v := w.Val
			if !w.Has {
				v = strconv.Itoa(i)
				if d.Type == "string" {
					v = w.Name
				}
			}
			vsym.Assert(vsym.And(g.Name == w.Name, g.Value == v, g.Type == nil, !g.Optional, len(g.Meta) == 0), "member of an enum")
		}
	case "struct":
		vsym.Assert(t.Type == nil, "type of a struct")
		if len(t.Fields) != len(d.Fields) {
			vsym.Fail("number of fields")
		}
		for i, w := range d.Fields {
			g := t.Fields[i]
			if g.Type == nil {
				vsym.Fail("field without type")
			}
			vsym.Assert(vsym.And(g.Name == w.Name, g.Type.Expr == w.Type, g.Optional == w.Opt, g.Value == ""), "field of a struct")
			vsym.Assert(metaIs(g.Meta, w.Meta), "meta of a field")
		}
	}
}

// Check compares a schema with what the document says; comments are left out.
func (d *Doc) Check(s *schema.WebRPCSchema) {
	def := func(key string) string {
		for _, f := range d.Defs {
			if f.Key == key {
				return f.Val
			}
		}
		return ""
	}
	base := def("basepath")
	if base != "" {
		if base[0] != '/' {
			base = "/" + base
		}
		if base[len(base)-1] != '/' {
			base += "/"
		}
	}
	vsym.Assert(s.WebrpcVersion == "v1", "webrpc version")
	vsym.Assert(s.SchemaName == def("name"), "name")
	vsym.Assert(s.SchemaVersion == def("version"), "version")
	vsym.Assert(s.BasePath == base, "base path")
	types, errs, svcs := []*Decl{}, []*Decl{}, []*Decl{}
	for _, k := range []string{"alias", "enum", "struct"} {
		for i := range d.Decls {
			if d.Decls[i].Kind == k {
				types = append(types, &d.Decls[i])
			}
		}
	}
	for i := range d.Decls {
		switch d.Decls[i].Kind {
		case "error":
			errs = append(errs, &d.Decls[i])
		case "service":
			svcs = append(svcs, &d.Decls[i])
		}
	}
	if len(s.Types) != len(types) || len(s.Errors) != len(errs) || len(s.Services) != len(svcs) {
		vsym.Fail("number of declarations")
	}
	for i, w := range types {
		w.check(s, s.Types[i])
	}
	for i, w := range errs {
		g := s.Errors[i]
		st := w.Status
		if st == 0 {
			st = 400
		}
		vsym.Assert(vsym.And(g.Code == w.CodeInt, g.Name == w.Name, g.Message == w.Msg, g.HTTPStatus == st), "error")
	}
	for i, w := range svcs {
		g := s.Services[i]
		vsym.Assert(g.Name == w.Name, "service name")
		if len(g.Methods) != len(w.Methods) {
			vsym.Fail("number of methods")
		}
		for k, wm := range w.Methods {
			checkMethod(g.Methods[k], wm)
		}
	}
}

func checkMethod(g *schema.Method, w Method) {
	vsym.Assert(g.Name == w.Name, "method name")
	vsym.Assert(g.StreamInput == w.StreamIn && g.StreamOutput == w.StreamOut, "streaming of a method")
	vsym.Assert(g.Succinct == w.Succinct, "succinct form of a method")
	if x := argsAre(g.Inputs, w.In, w.Succinct); x != "" {
		vsym.Fail("input: " + x)
	}
	if x := argsAre(g.Outputs, w.Out, w.Succinct); x != "" {
		vsym.Fail("output: " + x)
	}
	if len(g.Errors) != len(w.Errs) {
		vsym.Fail("number of errors of a method")
	}
	for i, e := range w.Errs {
		vsym.Assert(g.Errors[i] == e, "error of a method")
	}
	if len(g.Annotations) != len(w.Anns) {
		vsym.Fail("number of annotations")
	}
	for _, a := range w.Anns {
		x, ok := g.Annotations[a.Key]
		if !ok || x == nil {
			vsym.Fail("annotation lost")
		}
		vsym.Assert(vsym.And(x.AnnotationType == a.Key, x.Value == a.Val), "annotation")
	}
}
