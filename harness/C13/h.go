// Package c13 checks the reading of JSON schema documents.
package c13

import (
	"github.com/webrpc/webrpc/internal/vsym"
	"github.com/webrpc/webrpc/schema"
)

func declared(s *schema.WebRPCSchema, t *schema.Type) bool {
	for _, d := range s.Types {
		if d == t {
			return true
		}
	}
	return false
}

// resolved fails unless every part of the type refers to a core or declared
// type.
func resolved(s *schema.WebRPCSchema, vt *schema.VarType) {
	if vt == nil {
		vsym.Fail("accepted a schema with a missing type")
	}
	switch vt.Type {
	case schema.T_Unknown:
		vsym.Fail("accepted a schema with an unresolved type")
	case schema.T_List:
		if vt.List == nil {
			vsym.Fail("accepted a schema with an unresolved list")
		}
		resolved(s, vt.List.Elem)
	case schema.T_Map:
		if vt.Map == nil {
			vsym.Fail("accepted a schema with an unresolved map")
		}
		resolved(s, vt.Map.Key)
		resolved(s, vt.Map.Value)
	case schema.T_Struct:
		if vt.Struct == nil || !declared(s, vt.Struct.Type) || vt.Struct.Type.Name != vt.Struct.Name {
			vsym.Fail("accepted a reference to an undeclared struct")
		}
	case schema.T_Enum:
		if vt.Enum == nil || !declared(s, vt.Enum.Type) || vt.Enum.Type.Name != vt.Enum.Name {
			vsym.Fail("accepted a reference to an undeclared enum")
		}
	case schema.T_Alias:
		if vt.Alias == nil || !declared(s, vt.Alias.Type) || vt.Alias.Type.Name != vt.Alias.Name {
			vsym.Fail("accepted a reference to an undeclared alias")
		}
	}
}

// read parses a document and checks what comes out.
func read(doc string) *schema.WebRPCSchema {
	s, err := schema.ParseSchemaJSON([]byte(doc))
	vsym.Observe("ok", err == nil)
	if err != nil {
		return nil
	}
	if s == nil {
		vsym.Fail("neither a schema nor an error")
	}
	for _, t := range s.Types {
		if t == nil {
			vsym.Fail("accepted a missing type")
		}
		switch t.Kind {
		case "struct":
			if t.Type != nil {
				resolved(s, t.Type)
			}
			for _, f := range t.Fields {
				if f == nil {
					vsym.Fail("accepted a missing field")
				}
				resolved(s, f.Type)
			}
		case "enum":
			for _, f := range t.Fields {
				if f == nil || f.Type != nil || f.Value == "" {
					vsym.Fail("accepted an invalid enum member")
				}
			}
			resolved(s, t.Type)
		case "alias":
			resolved(s, t.Type)
			for _, f := range t.Fields {
				if f == nil {
					vsym.Fail("accepted a missing field")
				}
				resolved(s, f.Type)
			}
		default:
			vsym.Fail("accepted an unknown kind of type")
		}
	}
	for _, e := range s.Errors {
		if e == nil || e.Code <= 0 || e.Message == "" || e.HTTPStatus < 400 || e.HTTPStatus > 599 {
			vsym.Fail("accepted an invalid error")
		}
	}
	for _, svc := range s.Services {
		if svc == nil || len(svc.Methods) == 0 {
			vsym.Fail("accepted an invalid service")
		}
		for _, m := range svc.Methods {
			if m == nil || m.Name == "" {
				vsym.Fail("accepted an invalid method")
			}
			for _, a := range m.Annotations {
				if a == nil {
					vsym.Fail("accepted a missing annotation")
				}
			}
			for _, l := range [][]*schema.MethodArgument{m.Inputs, m.Outputs} {
				vsym.Assert(len(l) < 2 || !m.Succinct, "accepted an invalid succinct method")
				for _, a := range l {
					if a == nil || a.Name == "" {
						vsym.Fail("accepted an invalid argument")
					}
					resolved(s, a.Type)
				}
			}
			for _, n := range m.Errors {
				ok := false
				for _, e := range s.Errors {
					ok = vsym.Or(ok, e.Name == n)
				}
				vsym.Assert(ok, "accepted an undeclared error of a method")
			}
		}
	}
	vsym.Assert(s.Validate() == nil, "accepted a schema that is not valid")
	vsym.Reach("accepted")
	return s
}

// VH_Bytes: every short document.
func VH_Bytes() {
	read(vsym.Str(vsym.Pick(4)))
}

// VH_Tokens: documents made of JSON tokens.
func VH_Tokens() {
	toks := []string{"null", "{", "}", "[", "]", ":", ",", `"webrpc"`, `"v1"`, `"types"`, "1", " ", `"`}
	doc := ""
	for i := vsym.Pick(5 + vsym.Tier()); i > 0; i-- {
		doc += toks[vsym.Pick(len(toks))]
	}
	read(doc)
}

// node is a value of a complete document; the hole-th one is replaced.
type gen struct {
	n, hole int
	second  int // replaced by null
	repl    string
	remove  bool
}

func (g *gen) v(s string) string {
	g.n++
	if g.n-1 == g.hole {
		return g.repl
	}
	if g.n-1 == g.second {
		return "null"
	}
	return s
}

// kv is a member of an object; it disappears when removed.
func (g *gen) kv(first bool, k, s string) string {
	g.n++
	if g.n-1 == g.hole {
		if g.remove {
			return ""
		}
		s = g.repl
	}
	if g.n-1 == g.second {
		s = "null"
	}
	if first {
		return `"` + k + `":` + s
	}
	return `,"` + k + `":` + s
}

func (g *gen) doc() string {
	field := func(n, t string) string {
		return g.v(`{"name":"` + n + `"` + g.kv(false, "type", t) + g.kv(false, "optional", "true") + g.kv(false, "meta", `[`+g.v(`{"json":`+g.v(`"x"`)+`}`)+`]`) + `}`)
	}
	arg := func(n, t string) string {
		return g.v(`{"x":0` + g.kv(false, "name", `"`+n+`"`) + g.kv(false, "type", t) + `}`)
	}
	types := g.v(`{"kind":"struct","name":"A"`+g.kv(false, "fields", `[`+field("f", g.v(`"[]A"`))+`]`)+g.kv(false, "comments", `[`+g.v(`"c"`)+`]`)+`}`) + "," +
		g.v(`{"kind":"enum","name":"B"`+g.kv(false, "type", `"string"`)+g.kv(false, "fields", `[`+g.v(`{"name":"M","value":`+g.v(`"1"`)+`}`)+`]`)+`}`) + "," +
		g.v(`{"x":1`+g.kv(false, "kind", `"alias"`)+g.kv(false, "name", `"C"`)+g.kv(false, "type", `"map<B,A>"`)+`}`)
	errs := g.v(`{"x":1` + g.kv(false, "code", "1") + g.kv(false, "name", `"E"`) + g.kv(false, "message", `"m"`) + g.kv(false, "httpStatus", "400") + `}`)
	meth := g.v(`{"x":1` + g.kv(false, "name", `"M"`) + g.kv(false, "annotations", `{"a":`+g.v(`{"annotationType":"a","value":"v"}`)+`}`) +
		g.kv(false, "succinct", "false") + g.kv(false, "inputs", `[`+arg("i", `"C"`)+`]`) + g.kv(false, "outputs", `[`+arg("o", `"A"`)+`]`) + g.kv(false, "errors", `[`+g.v(`"E"`)+`]`) + `}`)
	svc := g.v(`{"x":1` + g.kv(false, "name", `"S"`) + g.kv(false, "methods", `[`+meth+`]`) + g.kv(false, "comments", `["c"]`) + `}`)
	return g.v(`{` + g.kv(true, "webrpc", `"v1"`) + `,"y":1` + g.kv(false, "name", `"n"`) + g.kv(false, "version", `"1"`) + g.kv(false, "basepath", `"/b/"`) +
		g.kv(false, "types", `[`+types+`]`) + g.kv(false, "errors", `[`+errs+`]`) + g.kv(false, "services", `[`+svc+`]`) + `}`)
}

// VH_Holes: a complete document with one value replaced or missing, and
// possibly another one null.
func VH_Holes() {
	g := &gen{hole: -1, second: -1}
	g.doc()
	total := g.n
	g = &gen{hole: vsym.Pick(total), second: -1}
	if vsym.Bool() {
		g.second = vsym.Pick(total)
	}
	r := vsym.Pick(11)
	if r == 0 {
		g.remove = true
		g.repl = "{}"
	} else {
		g.repl = []string{"null", "{}", "[]", `""`, "0", "-1", "true", "1.5", `"x"`, "[null]"}[r-1]
	}
	d := g.doc()
	if g.hole == 0 && g.remove {
		vsym.Assume(false)
	}
	read(d)
}

// VH_Whole: the complete document is accepted.
func VH_Whole() {
	if read((&gen{hole: -1, second: -1}).doc()) == nil {
		vsym.Fail("a valid document is rejected")
	}
}

// VH_TypeText: any text as the type of a field, argument or alias.
func VH_TypeText() {
	x := vsym.Str(vsym.Pick(3 + vsym.Tier()))
	g := &gen{hole: -1, second: -1}
	g.doc()
	docs := []string{
		`{"webrpc":"v1","types":[{"kind":"struct","name":"A","fields":[{"name":"f","type":` + `"` + x + `"` + `}]}]}`,
		`{"webrpc":"v1","types":[{"kind":"struct","name":"A"},{"kind":"alias","name":"B","type":"` + x + `"}]}`,
		`{"webrpc":"v1","version":"1","types":[{"kind":"struct","name":"A"}],"services":[{"name":"S","methods":[{"name":"M","inputs":[{"name":"a","type":"[]` + x + `"}]}]}]}`,
	}
	read(docs[vsym.Pick(3)])
}

// VH_TypeExpr: type expressions of delimiters and names.
func VH_TypeExpr() {
	x := vsym.StrIn(1+vsym.Pick(4), `[]<>,ABC\u`)
	m := []string{"", "map<string,", "map<", "[]"}[vsym.Pick(4)]
	read(`{"webrpc":"v1","types":[{"kind":"struct","name":"A"},{"kind":"enum","name":"B","type":"int"},{"kind":"alias","name":"C","type":"` + m + x + `"}]}`)
}

// VH_Names: symbolic names, values and numbers in a document.
func VH_Names() {
	n := vsym.StrIn(1+vsym.Pick(2), `aAB1"\n `)
	c := vsym.StrIn(1+vsym.Pick(2), "019-.e")
	docs := []string{
		`{"webrpc":"v1","types":[{"kind":"struct","name":"A` + n + `"},{"kind":"struct","name":"Aa"}]}`,
		`{"webrpc":"v1","types":[{"kind":"struct","name":"A","fields":[{"name":"` + n + `","type":"A"},{"name":"a","type":"A"}]}]}`,
		`{"webrpc":"v1","errors":[{"code":` + c + `,"name":"A","message":"m","httpStatus":400}]}`,
		`{"webrpc":"v1","errors":[{"code":1,"name":"A","message":"m","httpStatus":4` + c + `}]}`,
		`{"webrpc":"v1","errors":[{"code":1,"name":"A","message":"` + n + `","httpStatus":400},{"code":` + c + `,"name":"B","message":"m","httpStatus":599}]}`,
	}
	read(docs[vsym.Pick(len(docs))])
}

// VH_Parts: declarations with members in every combination.
func VH_Parts() {
	some := func(l ...string) string { return l[vsym.Pick(len(l))] }
	t := some("", `,"type":null`, `,"type":"B"`, `,"type":"[]A"`, `,"type":"Nope"`, `,"type":"int"`, `,"type":"string"`)
	f := some("", `,"fields":[]`, `,"fields":[null]`, `,"fields":[{"name":"x"`, `,"fields":[{"name":"y","type":"B"},{"name":"x"`)
	if len(f) > 20 {
		f += some("", `,"type":"Nope"`, `,"type":"A"`, `,"type":null`) + some("", `,"value":"1"`, `,"value":""`) + some("", `,"meta":null`, `,"meta":[{"json":"y"}]`, `,"meta":[null,{}]`) + "}]"
	}
	k := some("struct", "enum", "alias", "")
	s := read(`{"webrpc":"v1","types":[{"kind":"` + k + `","name":"A"` + t + f + `},{"kind":"struct","name":"B"}]}`)
	if s != nil {
		out, err := s.ToJSON()
		vsym.Assert(err == nil, "accepted schema cannot be exported")
		if read(out) == nil {
			vsym.Fail("the export of an accepted schema is rejected")
		}
	}
}

// VH_Methods: methods with members in every combination.
func VH_Methods() {
	some := func(l ...string) string { return l[vsym.Pick(len(l))] }
	m := some("", `,"annotations":null`, `,"annotations":{}`, `,"annotations":{"a":null}`, `,"annotations":{"a":{}}`, `,"annotations":{"a":{"annotationType":"b"},"b":null}`, `,"annotations":[]`)
	m += some("", `,"inputs":null`, `,"inputs":[null]`, `,"inputs":[{}]`, `,"inputs":[{"name":"a"}]`, `,"inputs":[{"name":"a","type":"A"}]`, `,"inputs":[{"name":"a","type":"A"},{"name":"b","type":"B"}]`)
	m += some("", `,"outputs":[null]`, `,"outputs":[{"name":"a","type":null}]`, `,"outputs":[{"name":"a","type":"A"},{"name":"a","type":"A"}]`)
	m += some("", `,"succinct":true`, `,"errors":null`, `,"errors":[null]`, `,"errors":["E"]`, `,"errors":["E","F"]`)
	e := some("", `,"errors":[{"code":1,"name":"E","message":"m","httpStatus":400}]`)
	read(`{"webrpc":"v1","version":"1","types":[{"kind":"struct","name":"A"}],"services":[{"name":"S","methods":[{"name":"M"` + m + `}]}]` + e + `}`)
}

// VH_TypeNest: type expressions of whole words and brackets, at any place where
// a type is written.
func VH_TypeNest() {
	toks := []string{"map<", "map", "<", ">", ",", "[]", "string", "A", "B"}
	x := ""
	for i := vsym.Pick(6 + vsym.Tier()); i > 0; i-- {
		x += toks[vsym.Pick(len(toks))]
	}
	read(`{"webrpc":"v1","types":[{"kind":"struct","name":"A","fields":[{"name":"f","type":"` + x + `"}]},{"kind":"enum","name":"B","type":"int"}]}`)
}

// VH_WideHoles: long lists, one element of which is something else.
func VH_WideHoles() {
	n := 1 + vsym.Pick(7)
	at, where := vsym.Pick(n), vsym.Pick(14)
	x := []string{"null", "{}", "[]", `""`, "0", `"x"`, "[null]"}[vsym.Pick(7)]
	list := func(k int, elem func(c string) string) string {
		r := "["
		for i := 0; i < n; i++ {
			if i > 0 {
				r += ","
			}
			if k == where && i == at {
				r += x
				continue
			}
			r += elem(string(rune('A' + i)))
		}
		return r + "]"
	}
	field := func(extra string) func(string) string {
		return func(c string) string { return `{"name":"f` + c + `"` + extra + `}` }
	}
	text := func(c string) string { return `"` + c + `"` }
	arg := func(c string) string { return `{"name":"a` + c + `","type":"T"}` }
	ann := "{"
	for i := 0; i < n; i++ {
		c := string(rune('a' + i))
		v := `{"annotationType":"` + c + `","value":""}`
		if where == 12 && i == at {
			v = x
		}
		if i > 0 {
			ann += ","
		}
		ann += `"` + c + `":` + v
	}
	s := read(`{"webrpc":"v1","name":"n","version":"v1","types":[{"kind":"struct","name":"T","comments":` + list(0, text) + `,"fields":` + list(1, field(`,"type":"int"`)) +
		`},{"kind":"enum","name":"E","type":"int","fields":` + list(2, field(`,"value":"1"`)) + `},{"kind":"struct","name":"U","fields":[{"name":"f","type":"T","meta":` + list(3, func(c string) string { return `{"m` + c + `":"v"}` }) +
		`}]},{"kind":"struct","name":"V"}` + "," + list(4, func(c string) string { return `{"kind":"struct","name":"X` + c + `"}` })[1:] +
		`,"errors":` + list(5, func(c string) string {
		return `{"code":` + string(rune('1'+int(c[0]-'A'))) + `,"name":"E` + c + `","message":"m","httpStatus":400}`
	}) +
		`,"services":[{"name":"S","comments":` + list(6, text) + `,"methods":[{"name":"M","annotations":` + ann + `}},{"name":"N","comments":` + list(7, text) + `,"inputs":` + list(8, arg) + `,"outputs":` + list(9, arg) + `}` + "," +
		list(10, func(c string) string { return `{"name":"m` + c + `"}` })[1:] + `}` + "," +
		list(11, func(c string) string { return `{"name":"S` + c + `","methods":[{"name":"M"}]}` })[1:] + `}`)
	if where == 13 && s == nil {
		vsym.Fail("a valid document is rejected")
	}
	vsym.Reach("read")
}
