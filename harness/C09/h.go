// Package c09 checks the resolution of type expressions.
package c09

import (
	"github.com/webrpc/webrpc/internal/vh/memfs"
	"github.com/webrpc/webrpc/internal/vsym"
	"github.com/webrpc/webrpc/schema"
)

var coreNames = []string{"null", "any", "byte", "bool", "uint", "uint8", "uint16", "uint32", "uint64",
	"int", "int8", "int16", "int32", "int64", "bigint", "float32", "float64", "string", "timestamp"}

var keyNames = []string{"string", "uint", "uint8", "uint16", "uint32", "uint64", "int", "int8", "int16", "int32", "int64"}

var coreTypes = []schema.CoreType{schema.T_Null, schema.T_Any, schema.T_Byte, schema.T_Bool,
	schema.T_Uint, schema.T_Uint8, schema.T_Uint16, schema.T_Uint32, schema.T_Uint64,
	schema.T_Int, schema.T_Int8, schema.T_Int16, schema.T_Int32, schema.T_Int64,
	schema.T_BigInt, schema.T_Float32, schema.T_Float64, schema.T_String, schema.T_Timestamp}

// world: A struct, B enum, C alias of B, D alias of string, E alias of A,
// Fo struct with a longer name.
func world() *schema.WebRPCSchema {
	s := &schema.WebRPCSchema{WebrpcVersion: "v1"}
	s.Types = []*schema.Type{
		{Kind: "struct", Name: "A"},
		{Kind: "enum", Name: "B", Type: &schema.VarType{Expr: "string", Type: schema.T_String}},
		{Kind: "alias", Name: "C", Type: &schema.VarType{Expr: "B"}},
		{Kind: "alias", Name: "D", Type: &schema.VarType{Expr: "string"}},
		{Kind: "alias", Name: "E", Type: &schema.VarType{Expr: "A"}},
		{Kind: "struct", Name: "Fo"},
		{Kind: "alias", Name: "G", Type: &schema.VarType{Expr: "C"}},
		{Kind: "alias", Name: "H", Type: &schema.VarType{Expr: "[]G"}},
	}
	for _, t := range s.Types {
		if t.Kind != "alias" {
			continue
		}
		vt := &schema.VarType{}
		if schema.ParseVarTypeExpr(s, t.Type.Expr, vt) != nil {
			vsym.Fail("alias not resolved")
		}
		t.Type = vt
	}
	return s
}

func coreOf(x string) int {
	for i, n := range coreNames {
		if x == n {
			return i
		}
	}
	return -1
}

func declOf(s *schema.WebRPCSchema, x string) *schema.Type {
	for _, t := range s.Types {
		if t.Name == x {
			return t
		}
	}
	return nil
}

func isMap(x string) bool {
	return len(x) >= 5 && x[0] == 'm' && x[1] == 'a' && x[2] == 'p' && x[3] == '<'
}

func isList(x string) bool { return len(x) >= 2 && x[0] == '[' && x[1] == ']' }

func splitMap(x string) (k, v string, ok bool) {
	if x[len(x)-1] != '>' {
		return
	}
	for i := 4; i < len(x)-1; i++ {
		if x[i] == ',' {
			return x[4:i], x[i+1 : len(x)-1], true
		}
	}
	return
}

func validKey(s *schema.WebRPCSchema, k string) bool {
	for _, n := range keyNames {
		if k == n {
			return true
		}
	}
	if d := declOf(s, k); d != nil {
		return d.Kind == "enum" || k == "C"
	}
	return false
}

// valid is the specification: does x spell a type?
func valid(s *schema.WebRPCSchema, x string) bool {
	switch {
	case isList(x):
		return valid(s, x[2:])
	case isMap(x):
		k, v, ok := splitMap(x)
		return ok && validKey(s, k) && valid(s, v)
	}
	return coreOf(x) >= 0 || declOf(s, x) != nil
}

// same compares a resolved type with its spelling.
func same(s *schema.WebRPCSchema, vt *schema.VarType, x string) {
	if vt == nil {
		vsym.Fail("part of the type is missing")
	}
	vsym.Assert(vt.Expr == x, "a part of the type does not have its spelling")
	vsym.Assert(vt.String() == x, "a part of the type does not print as its spelling")
	n := 0
	for _, p := range []bool{vt.List != nil, vt.Map != nil, vt.Struct != nil, vt.Enum != nil, vt.Alias != nil} {
		if p {
			n++
		}
	}
	switch {
	case isList(x):
		if vt.Type != schema.T_List || vt.List == nil || n != 1 {
			vsym.Fail("not resolved as a list")
		}
		same(s, vt.List.Elem, x[2:])
	case isMap(x):
		if vt.Type != schema.T_Map || vt.Map == nil || n != 1 {
			vsym.Fail("not resolved as a map")
		}
		k, v, _ := splitMap(x)
		key := vt.Map.Key
		if key == nil {
			vsym.Fail("no key")
		}
		vsym.Assert(key.Expr == k, "a map key does not have its spelling")
		if c := coreOf(k); c >= 0 {
			vsym.Assert(key.Type == coreTypes[c], "a map key has the wrong type")
		} else {
			d := declOf(s, k)
			ok := key.Enum != nil && key.Enum.Type == d && key.Enum.Name == d.Name || key.Alias != nil && key.Alias.Type == d
			vsym.Assert(ok, "a map key does not refer to its declaration")
		}
		same(s, vt.Map.Value, v)
	default:
		if c := coreOf(x); c >= 0 {
			vsym.Assert(vt.Type == coreTypes[c] && n == 0, "a core type is resolved as another type")
			return
		}
		d := declOf(s, x)
		ok := false
		switch d.Kind {
		case "struct":
			ok = vt.Type == schema.T_Struct && vt.Struct != nil && vt.Struct.Type == d && vt.Struct.Name == d.Name
		case "enum":
			ok = vt.Type == schema.T_Enum && vt.Enum != nil && vt.Enum.Type == d && vt.Enum.Name == d.Name
		case "alias":
			ok = vt.Type == schema.T_Alias && vt.Alias != nil && vt.Alias.Type == d && vt.Alias.Name == d.Name
		}
		vsym.Assert(ok && n == 1, "a reference does not point at its declaration")
	}
}

func check(x string) {
	s := world()
	want := valid(s, x)
	vt := &schema.VarType{}
	err := schema.ParseVarTypeExpr(s, x, vt)
	vsym.Observe("ok", err == nil)
	if want != (err == nil) {
		if want {
			vsym.Fail("a type expression is rejected")
		}
		vsym.Fail("something that spells no type is accepted")
	}
	if want {
		same(s, vt, x)
	}
	vp := &schema.VarType{Expr: x}
	err = vp.Parse(s)
	vsym.Assert(want == (err == nil), "Parse and ParseVarTypeExpr disagree")
	if want && err == nil {
		same(s, vp, x)
		vsym.Reach("accepted")
	}
}

// VH_Any: every short string.
func VH_Any() {
	check(vsym.Str(vsym.Pick(7 + 2*vsym.Tier())))
}

// VH_Delims: strings of delimiters and type names.
func VH_Delims() {
	check(vsym.StrIn(5+vsym.Pick(6+3*vsym.Tier()), "[]<>,ABbmpstring8"))
}

// VH_Map: maps with any key and value.
func VH_Map() {
	k := []string{"", "string", "A", "B", "C", "uint8", "bool", "bigint", "[]string", "D", "int", "any"}[vsym.Pick(12)]
	check("map<" + k + vsym.StrIn(vsym.Pick(7+2*vsym.Tier()), "[]<>,ABn") + ">")
}

// VH_MapKey: every short key.
func VH_MapKey() {
	check("map<" + vsym.Str(vsym.Pick(8)) + ",A>")
}

// VH_LongKey: keys around the core type names.
func VH_LongKey() {
	n := keyNames[vsym.Pick(len(keyNames))]
	i := vsym.Pick(len(n) + 1)
	b := n[:i] + vsym.Str(vsym.Pick(2)) + n[i:]
	check("map<" + b + ",string>")
}

// VH_Core: core type names and their neighbours.
func VH_Core() {
	n := coreNames[vsym.Pick(len(coreNames))]
	switch vsym.Pick(3) {
	case 0: // one byte replaced
		i := vsym.Pick(len(n))
		check(n[:i] + vsym.Str(1) + n[i+1:])
	case 1: // one byte added
		i := vsym.Pick(len(n) + 1)
		check(n[:i] + vsym.Str(1) + n[i:])
	case 2:
		check("[]" + n + vsym.StrIn(1, ">]8 ,"))
	}
}

// VH_Nested: nested lists and maps around any short inner part.
func VH_Nested() {
	x := vsym.StrIn(1+vsym.Pick(3), "ABDG[]o F")
	for i := 1 + vsym.Pick(3+vsym.Tier()); i > 0; i-- {
		switch vsym.Pick(4) {
		case 0:
			x = "[]" + x
		case 1:
			x = "map<string," + x + ">"
		case 2:
			x = "map<" + vsym.StrIn(1, "ABCDEG") + "," + x + ">"
		case 3:
			x = "map<uint32,[]" + x + ">"
		}
	}
	check(x)
}

const decls = "webrpc = v1\nversion = v1\n\nstruct A\n\nenum B: string\n  - X\n\ntype C: B\ntype D: string\ntype E: A\nstruct Fo\n  - x: A\ntype G: C\ntype H: []G\n"

// ridl checks the type expression x written as w in RIDL.
func ridlCheck(x, w string) {
	where := vsym.Pick(4)
	src := decls
	switch where {
	case 0:
		src += "struct S\n  - f: " + w + "\n"
	case 1:
		src += "type T: " + w + "\n"
	case 2:
		src += "service S\n  - M(a: " + w + ")\n"
	case 3:
		src += "service S\n  - M() => (a?: " + w + ")\n"
	}
	s, err := memfs.Parse(src)
	ref := world()
	want := valid(ref, x)
	vsym.Observe("ok", err == nil)
	if where > 1 && !want {
		// a comma that is in no map separates arguments
		for i := 0; i < len(x); i++ {
			vsym.Assume(x[i] != ',')
		}
	}
	if want != (err == nil) {
		if want {
			vsym.Fail("a type expression is rejected in RIDL")
		}
		vsym.Fail("something that spells no type is accepted in RIDL")
	}
	if !want {
		return
	}
	var vt *schema.VarType
	switch where {
	case 0:
		t := s.GetTypeByName("S")
		if t == nil || len(t.Fields) != 1 {
			vsym.Fail("the struct is not in the schema")
		}
		vt = t.Fields[0].Type
	case 1:
		t := s.GetTypeByName("T")
		if t == nil {
			vsym.Fail("the alias is not in the schema")
		}
		vt = t.Type
	default:
		if len(s.Services) != 1 || len(s.Services[0].Methods) != 1 {
			vsym.Fail("the service is not in the schema")
		}
		m := s.Services[0].Methods[0]
		if where == 2 && len(m.Inputs) == 1 {
			vt = m.Inputs[0].Type
		} else if where == 3 && len(m.Outputs) == 1 {
			vt = m.Outputs[0].Type
		} else {
			vsym.Fail("the argument is not in the schema")
		}
	}
	same(s, vt, x)
	vsym.Reach("accepted")
}

// VH_RIDLDelims: type expressions in RIDL made of delimiters and names.
func VH_RIDLDelims() {
	x := vsym.StrIn(1+vsym.Pick(4+vsym.Tier()), "[]<>,ABGa8")
	ridlCheck(x, x)
}

// VH_RIDLMap: maps in RIDL.
func VH_RIDLMap() {
	x := "map<" + []string{"", "string", "A", "B", "C", "bool"}[vsym.Pick(6)] + vsym.StrIn(vsym.Pick(4+vsym.Tier()), "[]<>,AB") + ">"
	ridlCheck(x, x)
}

// VH_RIDLNested: nested types in RIDL, with blanks where they are allowed.
func VH_RIDLNested() {
	x := vsym.StrIn(1, "ABDGHa")
	w := x
	b := func() string { return vsym.StrIn(vsym.Pick(2), " \t") }
	for i := 1 + vsym.Pick(2); i > 0; i-- {
		switch vsym.Pick(2) {
		case 0:
			x = "[]" + x
			w = "[]" + w
		case 1:
			k := vsym.StrIn(1, "ABCD")
			x = "map<" + k + "," + x + ">"
			if vsym.Tier() == 0 {
				l, r := b(), b()
				w = "map<" + l + k + r + "," + l + w + r + ">"
			} else {
				w = "map<" + b() + k + b() + "," + b() + w + b() + ">"
			}
		}
	}
	ridlCheck(x, w)
}

// VH_Special: declared types whose names are made of the literals of the code,
// used by a struct, before and after their declaration.
func VH_Special() {
	l := vsym.Lit()
	name := "T" + l
	if len(l) > 0 && vsym.Bool() {
		name = l
		if l[0] >= 'a' && l[0] <= 'z' {
			name = string([]byte{l[0] - 32}) + l[1:]
		}
	}
	for i := 0; i < len(name); i++ {
		c := name[i]
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || i > 0 && c >= '0' && c <= '9') {
			vsym.Assume(false)
		}
	}
	if name[0] < 'A' || name[0] > 'Z' {
		vsym.Assume(false)
	}
	t := &schema.Type{Name: name, Kind: []string{"struct", "enum", "alias"}[vsym.Pick(3)]}
	if t.Kind != "struct" {
		t.Type = &schema.VarType{Expr: []string{"string", "int8"}[vsym.Pick(2)]}
	}
	c := vsym.StrIn(1, "AB")
	x := name
	for i := 1 + vsym.Pick(2); i > 0; i-- {
		switch vsym.Pick(4) {
		case 0:
			x = "[]" + x
		case 1:
			x = "map<string," + x + ">"
		case 2:
			x = "map<" + name + "," + x + ">"
		}
	}
	s := &schema.WebRPCSchema{WebrpcVersion: "v1", Types: []*schema.Type{{Kind: "struct", Name: "Z" + c, Fields: []*schema.TypeField{{Name: "f", Type: &schema.VarType{Expr: x}}}}, t}}
	if vsym.Bool() {
		s.Types[0], s.Types[1] = s.Types[1], s.Types[0]
	}
	vsym.Assume(name != "Z"+c)
	want := true
	if t.Kind != "enum" {
		for i := 0; i+5+len(name) <= len(x); i++ {
			if x[i:i+4+len(name)+1] == "map<"+name+"," {
				want = false
			}
		}
	}
	err := s.Validate()
	vsym.Observe("ok", err == nil)
	if want != (err == nil) {
		vsym.Fail("a type with a special name is not resolved as it should be")
	}
	if want {
		for _, d := range s.Types {
			if d != t {
				same(s, d.Fields[0].Type, x)
			}
		}
	}
}
