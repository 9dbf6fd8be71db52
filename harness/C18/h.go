// Package c18 checks the template functions about versions and types.
package c18

import (
	"strings"

	"github.com/webrpc/webrpc/internal/vh/fns"
	"github.com/webrpc/webrpc/internal/vsym"
	"github.com/webrpc/webrpc/schema"
)

const digits = "0123456789"

// number makes a number of up to max digits.
func number(max int) (text string, n int) {
	text = vsym.StrIn(1+vsym.Pick(max), digits)
	for i := 0; i < len(text); i++ {
		n = n*10 + int(text[i]-'0')
	}
	return
}

// version makes a version.
func version(max int) (text string, major, minor int) {
	t, n := number(max)
	text, major = t, n
	if vsym.Bool() {
		t, n := number(max)
		text, minor = text+"."+t, n
		text += []string{"", ".0", ".7", "." + vsym.StrIn(2, digits), ".0-dev", ".1-6-g550333d", ".x"}[vsym.Pick(7)]
	}
	if vsym.Bool() {
		text = "v" + text
	}
	return
}

// VH_MinVersion: versions compare by major, then minor number.
func VH_MinVersion() {
	fns.Load()
	max := 2 + vsym.Tier()
	a, amaj, amin := version(max)
	b, bmaj, bmin := version(max)
	want := vsym.Or(amaj > bmaj, vsym.And(amaj == bmaj, amin >= bmin))
	vsym.Reach("compare")
	vsym.Assert(vsym.Iff(fns.Bool("minVersion", a, b), want), "minVersion holds exactly when the version is at least the required one")
}

// VH_NoVersion: a text that does not start with a number is no version.
func VH_NoVersion() {
	fns.Load()
	s := vsym.Str(vsym.Pick(3 + vsym.Tier()))
	if s != "" {
		vsym.Assume(vsym.Or(s[0] < '0', s[0] > '9'))
		vsym.Assume(s[0] != '-' && s[0] != '+')
		if s[0] == 'v' && len(s) > 1 {
			vsym.Assume(vsym.Or(s[1] < '0', s[1] > '9'))
			vsym.Assume(s[1] != '-' && s[1] != '+')
		}
	}
	var err error
	if vsym.Bool() {
		_, err = fns.Call("minVersion", s, "v1")
	} else {
		_, err = fns.Call("minVersion", "v1", s)
	}
	vsym.Reach("no version")
	vsym.Assert(err != nil, "a text that is no version fails")
}

var cores = []string{"null", "any", "byte", "bool", "uint", "uint8", "uint16", "uint32", "uint64", "int", "int8", "int16", "int32", "int64",
	"float32", "float64", "string", "timestamp", "bigint"}

type want struct {
	core, str, enum, alias, list, mp bool
	key, elem                        *want
	text                             string
}

// typ makes a type expression.
func typ(depth int, name string) want {
	n := 4
	if depth > 0 {
		n = 6
	}
	switch vsym.Pick(n) {
	case 0:
		return want{text: "S" + name, str: true}
	case 1:
		return want{text: "E" + name, enum: true}
	case 2:
		return want{text: "A" + name, alias: true}
	case 3:
		return want{text: cores[vsym.Pick(len(cores))], core: true}
	case 4:
		e := typ(depth-1, name)
		return want{text: "[]" + e.text, list: true, elem: &e}
	}
	k := want{text: []string{"string", "int", "uint8", "int64"}[vsym.Pick(4)], core: true}
	if vsym.Bool() {
		k = want{text: "E" + name, enum: true}
	}
	e := typ(depth-1, name)
	return want{text: "map<" + k.text + "," + e.text + ">", mp: true, key: &k, elem: &e}
}

func text(x any) string {
	switch v := x.(type) {
	case string:
		return v
	case *schema.VarType:
		if v == nil {
			vsym.Fail("a missing type")
		}
		return v.String()
	case schema.VarType:
		return v.String()
	}
	vsym.Fail("neither a type nor a spelling")
	return ""
}

// check compares what the functions say about a type.
func check(w want, v any, resolved bool) {
	vsym.Assert(fns.Bool("isCoreType", v) == w.core, "isCoreType")
	vsym.Assert(fns.Bool("isBasicType", v) == w.core, "isBasicType")
	vsym.Assert(fns.Bool("isListType", v) == w.list, "isListType")
	vsym.Assert(fns.Bool("isMapType", v) == w.mp, "isMapType")
	if resolved {
		vsym.Assert(fns.Bool("isStructType", v) == w.str, "isStructType")
		vsym.Assert(fns.Bool("isEnumType", v) == w.enum, "isEnumType")
		vsym.Assert(fns.Bool("isAliasType", v) == w.alias, "isAliasType")
	}
	vsym.Assert(!fns.Bool("isString", v) == resolved, "isString")
	if w.mp {
		k, err := fns.Call("mapKeyType", v)
		vsym.Assert(err == nil && text(k) == w.key.text, "mapKeyType gives the key type")
		e, err := fns.Call("mapValueType", v)
		vsym.Assert(err == nil && text(e) == w.elem.text, "mapValueType gives the value type")
		part(*w.elem, e)
	} else {
		_, err := fns.Call("mapValueType", v)
		vsym.Assert(err != nil, "mapValueType of another type fails")
		_, err = fns.Call("mapKeyType", v)
		vsym.Assert(err != nil, "mapKeyType of another type fails")
	}
	if w.list {
		e, err := fns.Call("listElemType", v)
		vsym.Assert(err == nil && text(e) == w.elem.text, "listElemType gives the element type")
		part(*w.elem, e)
	} else {
		_, err := fns.Call("listElemType", v)
		vsym.Assert(err != nil, "listElemType of another type fails")
	}
}

func part(w want, v any) {
	_, spelling := v.(string)
	check(w, v, !spelling)
}

func parse(w want, name string) *schema.WebRPCSchema {
	s := &schema.WebRPCSchema{WebrpcVersion: "v1", SchemaName: "n", SchemaVersion: "v1", Types: []*schema.Type{
		{Kind: "struct", Name: "S" + name, Fields: []*schema.TypeField{{Name: "f", Type: &schema.VarType{Expr: w.text}}}},
		{Kind: "enum", Name: "E" + name, Type: &schema.VarType{Expr: "string"}, Fields: []*schema.TypeField{{Name: "M", TypeExtra: schema.TypeExtra{Value: "M"}}}},
		{Kind: "alias", Name: "A" + name, Type: &schema.VarType{Expr: []string{"string", "[]int", "map<string,int>"}[vsym.Pick(3)]}},
	}, Services: []*schema.Service{{Name: "X", Methods: []*schema.Method{{Name: "M", Inputs: []*schema.MethodArgument{{Name: "a", Type: &schema.VarType{Expr: w.text}}}}}}}}
	if s.Validate() != nil {
		vsym.Fail("a valid schema is rejected")
	}
	vsym.Reach("valid")
	return s
}

// VH_Types: what the functions say about resolved types and spellings.
func VH_Types() {
	fns.Load()
	name := vsym.StrIn(1, "abzAZ019_")
	w := typ(2+vsym.Tier(), name)
	s := parse(w, name)
	t := s.Types[0].Fields[0].Type
	if vsym.Bool() {
		t = s.Services[0].Methods[0].Inputs[0].Type
	}
	switch vsym.Pick(3) {
	case 0:
		check(w, t, true)
	case 1:
		check(w, *t, true)
	case 2:
		check(w, t.String(), false)
	}
}

// VH_Decls: what the functions say about declared types.
func VH_Decls() {
	fns.Load()
	name := vsym.StrIn(1, "abzAZ019_")
	s := parse(want{text: "int"}, name)
	i := vsym.Pick(3)
	var v any = s.Types[i]
	if vsym.Bool() {
		v = *s.Types[i]
	}
	vsym.Assert(fns.Bool("isStructType", v) == (i == 0), "isStructType of a declaration")
	vsym.Assert(fns.Bool("isEnumType", v) == (i == 1), "isEnumType of a declaration")
	vsym.Assert(fns.Bool("isAliasType", v) == (i == 2), "isAliasType of a declaration")
	for _, f := range []string{"isCoreType", "isListType", "isMapType", "isString"} {
		vsym.Assert(!fns.Bool(f, v), f+" of a declaration")
	}
}

// VH_Spelling: any text is at most one of core, list and map, and the parts
// of one are its parts.
func VH_Spelling() {
	fns.Load()
	in := vsym.Str(vsym.Pick(4 + vsym.Tier()))
	s := []string{in, "map<" + in, "map<string," + in + ">", "map<" + in + ",int>", "[]" + in, "map<string,int>" + in}[vsym.Pick(6)]
	vsym.Assume(s != "[]" && s != "map") // names of the two kinds, not types
	core, list, mp := fns.Bool("isCoreType", s), fns.Bool("isListType", s), fns.Bool("isMapType", s)
	n := 0
	for _, b := range []bool{core, list, mp} {
		if b {
			n++
		}
	}
	vsym.Reach("text")
	vsym.Assert(n <= 1, "a text is at most one of a core type, a list and a map")
	known := false
	for _, c := range cores {
		known = vsym.Or(known, s == c)
	}
	vsym.Assert(vsym.Iff(core, known), "isCoreType holds for the core types")
	k, err := fns.Call("mapKeyType", s)
	e, err2 := fns.Call("mapValueType", s)
	vsym.Assert((err == nil) == mp && (err2 == nil) == mp, "maps and only maps have a key and a value type")
	if mp {
		vsym.Assert("map<"+text(k)+","+text(e)+">" == s, "a map is made of its key and value type")
	}
	x, err := fns.Call("listElemType", s)
	vsym.Assert((err == nil) == list, "lists and only lists have an element type")
	if list {
		vsym.Assert("[]"+text(x) == s, "a list is made of its element type")
	}
}

// VH_HasField: a struct has the fields it has.
func VH_HasField() {
	fns.Load()
	f := &schema.TypeField{}
	var v any
	var fields string
	switch vsym.Pick(4) {
	case 0:
		v, fields = f, " Name Type Comments Optional Value Meta "
	case 1:
		v, fields = *f, " Name Type Comments Optional Value Meta "
	case 2:
		v, fields = &schema.Method{}, " Name Comments Annotations Errors Succinct Service "
	case 3:
		v, fields = schema.Service{}, " Name Methods Comments Schema "
	}
	names := []string{"Name", "Type", "Comments", "Optional", "Value", "Meta", "Succinct", "Annotations", "Methods", "Schema", "name", "Nam", "", "Errors"}
	n := names[vsym.Pick(len(names))]
	ok := strings.Contains(fields, " "+n+" ") && n != ""
	vsym.Reach("asked")
	vsym.Assert(fns.Bool("hasField", v, n) == ok, "hasField tells the fields of a struct")
	vsym.Assert(!fns.Bool("hasField", "text", n) && !fns.Bool("hasField", 7, n) && !fns.Bool("hasField", map[string]any{n: 1}, n), "other values have no fields")
}
