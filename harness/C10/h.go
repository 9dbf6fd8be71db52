// Package c10 checks which schemas pass validation.
package c10

import (
	"github.com/webrpc/webrpc/internal/vsym"
	"github.com/webrpc/webrpc/schema"
)

func base() *schema.WebRPCSchema {
	return &schema.WebRPCSchema{WebrpcVersion: "v1", SchemaName: "n", SchemaVersion: "v1"}
}

// decide compares the verdict of Validate with the specification.
func decide(s *schema.WebRPCSchema, want bool) {
	err := s.Validate()
	vsym.Observe("valid", err == nil)
	if err == nil {
		vsym.Assert(want, "a schema that is not well-formed passes validation")
		vsym.Reach("valid")
		// validation is stable
		vsym.Assert(s.Validate() == nil, "validating twice gives another verdict")
	} else {
		vsym.Assert(!want, "a well-formed schema is rejected")
	}
}

func vt(x string) *schema.VarType { return &schema.VarType{Expr: x} }

// ascii is any string of n bytes below 128.
func ascii(n int) string {
	s := vsym.Str(n)
	for i := 0; i < n; i++ {
		vsym.Assume(s[i] < 128)
	}
	return s
}

func lower(c byte) byte {
	return byte(vsym.IteInt(vsym.And(c >= 'A', c <= 'Z'), int(c)+32, int(c)))
}

func isUpper(c byte) bool  { return vsym.And(c >= 'A', c <= 'Z') }
func isLetter(c byte) bool { return vsym.Or(isUpper(c), vsym.And(c >= 'a', c <= 'z')) }
func isWord(c byte) bool {
	return vsym.Or(isLetter(c), vsym.And(c >= '0', c <= '9'), c == '_')
}

// fold is equality ignoring case.
func fold(a, b string) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := 0; i < len(a); i++ {
		r = vsym.And(r, lower(a[i]) == lower(b[i]))
	}
	return r
}

func distinct(names []string) bool {
	r := true
	for i := range names {
		for j := 0; j < i; j++ {
			r = vsym.And(r, !fold(names[i], names[j]))
		}
	}
	return r
}

func upperFirst(s string) bool {
	if s == "" {
		return false
	}
	return isUpper(s[0])
}

// argName is the specification of field and JSON names.
func argName(s string) bool {
	if s == "" {
		return false
	}
	r := isLetter(s[0])
	for i := 1; i < len(s); i++ {
		r = vsym.And(r, isWord(s[i]))
	}
	return r
}

// VH_Header: schema format version and schema version.
func VH_Header() {
	s := base()
	s.WebrpcVersion = vsym.Str(vsym.Pick(4))
	s.SchemaVersion = vsym.Str(vsym.Pick(2))
	want := s.WebrpcVersion == "v1"
	if vsym.Bool() {
		s.Services = []*schema.Service{{Name: "S", Methods: []*schema.Method{{Name: "M"}}}}
		want = vsym.And(want, len(s.SchemaVersion) > 0)
	}
	decide(s, want)
}

func typeOf(kind int, name string) *schema.Type {
	t := &schema.Type{Name: name}
	switch kind {
	case 0:
		t.Kind = "struct"
	case 1:
		t.Kind = "enum"
		t.Type = vt("int8")
		t.Fields = []*schema.TypeField{{Name: "M", TypeExtra: schema.TypeExtra{Value: "1"}}}
	case 2:
		t.Kind = "alias"
		t.Type = vt("string")
	}
	return t
}

// VH_TypeNames: names of types of every kind.
func VH_TypeNames() {
	s := base()
	n := 2 + vsym.Pick(2)
	want := true
	var names []string
	for i := 0; i < n; i++ {
		k := 0
		if i < 2 {
			k = vsym.Pick(3)
		}
		name := ascii(vsym.Pick(3 - i/2))
		names = append(names, name)
		s.Types = append(s.Types, typeOf(k, name))
		want = vsym.And(want, upperFirst(name))
	}
	decide(s, vsym.And(want, distinct(names)))
}

// VH_Kind: kinds of types.
func VH_Kind() {
	s := base()
	k := []string{"struct", "enum", "alias", "", "Struct", "message"}[vsym.Pick(6)]
	if len(k) > 0 {
		i := vsym.Pick(len(k) + 1)
		k = k[:i] + vsym.Str(vsym.Pick(2)) + k[i:]
	}
	t := &schema.Type{Kind: k, Name: "T", Type: vt("string")}
	if vsym.Bool() {
		t.Type = nil
	}
	s.Types = []*schema.Type{{Kind: "struct", Name: "Before"}, t}
	want := vsym.Or(k == "struct", vsym.And(t.Type != nil, vsym.Or(k == "enum", k == "alias")))
	decide(s, want)
}

// VH_FieldNames: names of struct fields and enum members.
func VH_FieldNames() {
	s := base()
	t := typeOf(vsym.Pick(2), "T")
	t.Fields = nil
	var names []string
	want := true
	for i := 0; i < 2; i++ {
		name := vsym.Str(vsym.Pick(4))
		names = append(names, name)
		want = vsym.And(want, argName(name))
		f := &schema.TypeField{Name: name}
		if t.Kind == "enum" {
			f.Value = "1"
		} else {
			f.Type = vt("string")
		}
		t.Fields = append(t.Fields, f)
	}
	s.Types = []*schema.Type{t}
	decide(s, vsym.And(want, distinct(names)))
}

// VH_FieldsMany: uniqueness among three fields.
func VH_FieldsMany() {
	s := base()
	t := typeOf(vsym.Pick(2), "T")
	t.Fields = nil
	var names []string
	for i := 0; i < 3+vsym.Tier(); i++ {
		name := vsym.StrIn(1+vsym.Pick(2), "aAbB_0")
		vsym.Assume(argName(name))
		names = append(names, name)
		f := &schema.TypeField{Name: name}
		if t.Kind == "enum" {
			f.Value = "1"
		} else {
			f.Type = vt("string")
		}
		t.Fields = append(t.Fields, f)
	}
	s.Types = []*schema.Type{t}
	decide(s, distinct(names))
}

// VH_SameFieldInTypes: different types may have fields of the same name.
func VH_SameFieldInTypes() {
	s := base()
	for i := 0; i < 2; i++ {
		t := typeOf(vsym.Pick(2), []string{"T", "U"}[i])
		f := &schema.TypeField{Name: vsym.StrIn(1, "aA")}
		if t.Kind == "enum" {
			f.Value = "1"
		} else {
			f.Type = vt("T")
		}
		t.Fields = []*schema.TypeField{f}
		s.Types = append(s.Types, t)
	}
	decide(s, true)
}

// jsonName is the specification of the JSON name of a field.
func jsonName(f *schema.TypeField) (name string, ok bool) {
	name, ok = f.Name, true
	for _, m := range f.Meta {
		v, has := m["json"]
		if !has {
			continue
		}
		s, is := v.(string)
		if !is {
			return name, false
		}
		if s == "-" {
			continue
		}
		ok = vsym.And(ok, argName(s))
		name = s
	}
	return
}

func meta() schema.TypeFieldMeta {
	switch vsym.Pick(4) {
	case 0:
		return schema.TypeFieldMeta{"go.tag": vsym.StrIn(1, "ab-")}
	case 1:
		return schema.TypeFieldMeta{"json": vsym.Str(vsym.Pick(3))}
	case 2:
		return schema.TypeFieldMeta{"json": []any{1, nil, true, 2.5, []string{"a"}}[vsym.Pick(5)]}
	default:
		return schema.TypeFieldMeta{"json": vsym.StrIn(1, "aBb-"), "x": "y"}
	}
}

// VH_JSONName: one field with any json meta.
func VH_JSONName() {
	s := base()
	f := &schema.TypeField{Name: "f", Type: vt("string")}
	for i := vsym.Pick(3); i > 0; i-- {
		f.Meta = append(f.Meta, meta())
	}
	_, ok := jsonName(f)
	s.Types = []*schema.Type{{Kind: "struct", Name: "T", Fields: []*schema.TypeField{f}}}
	decide(s, ok)
}

// VH_JSONUnique: JSON names of several fields.
func VH_JSONUnique() {
	s := base()
	t := &schema.Type{Kind: "struct", Name: "T"}
	var names, jnames []string
	want := true
	for i := 0; i < 2+vsym.Tier(); i++ {
		f := &schema.TypeField{Name: []string{"a", "b", "c"}[i], Type: vt("string")}
		names = append(names, f.Name)
		for k := vsym.Pick(3); k > 0; k-- {
			f.Meta = append(f.Meta, schema.TypeFieldMeta{"json": vsym.StrIn(1, "aABbC-1")})
		}
		n, ok := jsonName(f)
		want = vsym.And(want, ok)
		jnames = append(jnames, n)
		t.Fields = append(t.Fields, f)
	}
	s.Types = []*schema.Type{t}
	decide(s, vsym.And(want, distinct(names), distinct(jnames)))
}

// VH_Enum: members of enums.
func VH_Enum() {
	s := base()
	t := &schema.Type{Kind: "enum", Name: "T"}
	want := true
	switch vsym.Pick(6) {
	case 0:
		t.Type = nil
		want = false
	case 1:
		t.Type = vt("string")
	case 2:
		t.Type = vt("uint16")
	case 3:
		t.Type = vt("bool")
		want = false
	case 4:
		t.Type = vt("S")
		want = false
	case 5:
		t.Type = vt("bigint")
		want = false
	}
	for i := vsym.Pick(3); i > 0; i-- {
		f := &schema.TypeField{Name: "m" + string(rune('0'+i)), TypeExtra: schema.TypeExtra{Value: vsym.Str(vsym.Pick(2))}}
		if vsym.Bool() {
			f.Type = vt("string")
		}
		want = vsym.And(want, len(f.Value) > 0, f.Type == nil)
		t.Fields = append(t.Fields, f)
	}
	s.Types = []*schema.Type{t, {Kind: "struct", Name: "S"}}
	decide(s, want)
}

// VH_EnumType: the type of an enum.
func VH_EnumType() {
	s := base()
	ok := []string{"string", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64"}
	x := append(ok[:11:11], "byte", "bool", "any", "null", "float32", "bigint", "timestamp", "S", "[]int", "map<int,int>")[vsym.Pick(21)]
	if vsym.Bool() {
		i := vsym.Pick(len(x) + 1)
		x = x[:i] + vsym.Str(1) + x[i:]
	}
	want := false
	for _, o := range ok {
		want = vsym.Or(want, x == o)
	}
	s.Types = []*schema.Type{{Kind: "struct", Name: "S"}, {Kind: "enum", Name: "T", Type: vt(x)}}
	decide(s, want)
}

// VH_Struct: structs have no values and only known types.
func VH_Struct() {
	s := base()
	t := &schema.Type{Kind: "struct", Name: "T"}
	want := true
	for i := vsym.Pick(3); i > 0; i-- {
		x := vsym.StrIn(1, "TUtV")
		f := &schema.TypeField{Name: "m" + string(rune('0'+i)), Type: vt(x)}
		f.Value = vsym.Str(vsym.Pick(2))
		f.Optional = vsym.Bool()
		want = vsym.And(want, len(f.Value) == 0, vsym.Or(x == "T", x == "U"))
		t.Fields = append(t.Fields, f)
	}
	s.Types = []*schema.Type{t, {Kind: "struct", Name: "U"}}
	decide(s, want)
}

// VH_Alias: aliases of declared and core types.
func VH_Alias() {
	s := base()
	x := vsym.StrIn(1, "TUtV")
	y := []string{"int", "[]T", "map<string,T>", "[]X", "x"}[vsym.Pick(5)]
	s.Types = []*schema.Type{{Kind: "alias", Name: "T", Type: vt(x)}, {Kind: "struct", Name: "U"}, {Kind: "alias", Name: "W", Type: vt(y)}}
	decide(s, vsym.And(vsym.Or(x == "T", x == "U"), y != "[]X", y != "x"))
}

func errOf(i int) *schema.Error {
	return &schema.Error{Code: 1 + i, Name: "E" + string(rune('0'+i)), Message: "m", HTTPStatus: 400}
}

// VH_ErrorFields: code, message and status of one error.
func VH_ErrorFields() {
	s := base()
	e := errOf(0)
	e.Code = vsym.Int(-100000, 1<<31)
	e.Message = vsym.Str(vsym.Pick(2))
	e.HTTPStatus = vsym.Int(-1000, 100000)
	s.Errors = []*schema.Error{e}
	if vsym.Bool() {
		s.Errors = append(s.Errors, &schema.Error{Code: 1 << 40, Name: "Other", Message: "m", HTTPStatus: 599})
	}
	want := vsym.And(e.Code >= 1, len(e.Message) > 0, e.HTTPStatus >= 400, e.HTTPStatus <= 599)
	decide(s, want)
}

// VH_ErrorCodes: codes are unique.
func VH_ErrorCodes() {
	s := base()
	want := true
	for i := 0; i < 3+vsym.Tier(); i++ {
		e := errOf(i)
		e.Code = vsym.Int(-3, 1000)
		want = vsym.And(want, e.Code > 0)
		for _, o := range s.Errors {
			want = vsym.And(want, o.Code != e.Code)
		}
		s.Errors = append(s.Errors, e)
	}
	decide(s, want)
}

func trim(x string) string {
	sp := func(c byte) bool { return c == ' ' || c >= 9 && c <= 13 }
	for len(x) > 0 && sp(x[0]) {
		x = x[1:]
	}
	for len(x) > 0 && sp(x[len(x)-1]) {
		x = x[:len(x)-1]
	}
	return x
}

// VH_ErrorNames: names of errors.
func VH_ErrorNames() {
	s := base()
	want := true
	var names []string
	for i := 0; i < 2; i++ {
		e := errOf(i)
		e.Name = ascii(vsym.Pick(3))
		n := trim(e.Name)
		names = append(names, n)
		want = vsym.And(want, upperFirst(n))
		s.Errors = append(s.Errors, e)
	}
	decide(s, vsym.And(want, distinct(names)))
}

// VH_ErrorUnique: three names that differ in case or surrounding blanks.
func VH_ErrorUnique() {
	s := base()
	want := true
	var names []string
	for i := 0; i < 3; i++ {
		e := errOf(i)
		e.Name = vsym.StrIn(2+vsym.Tier(), "AaB ")
		n := trim(e.Name)
		names = append(names, n)
		want = vsym.And(want, upperFirst(n))
		s.Errors = append(s.Errors, e)
	}
	decide(s, vsym.And(want, distinct(names)))
}

// VH_ErrorReserved: the Webrpc prefix is reserved.
func VH_ErrorReserved() {
	s := base()
	e := errOf(0)
	e.Name = vsym.StrIn(5+vsym.Pick(3), "WwEeBbRrPpCc ")
	n := trim(e.Name)
	want := upperFirst(n)
	if len(n) >= 6 {
		want = vsym.And(want, !fold(n[:6], "webrpc"))
	}
	s.Errors = []*schema.Error{e}
	decide(s, want)
}

// VH_ServiceNames: names of services and methods.
func VH_ServiceNames() {
	s := base()
	want := true
	var names []string
	for i := 0; i < 2; i++ {
		name := ascii(vsym.Pick(3))
		names = append(names, name)
		want = vsym.And(want, len(name) > 0)
		svc := &schema.Service{Name: name}
		var ms []string
		for k := vsym.Pick(3 - i); k > 0; k-- {
			m := vsym.StrIn(vsym.Pick(2), "aAbz_-")
			ms = append(ms, m)
			want = vsym.And(want, len(m) > 0)
			svc.Methods = append(svc.Methods, &schema.Method{Name: m})
		}
		want = vsym.And(want, len(ms) > 0, distinct(ms))
		s.Services = append(s.Services, svc)
	}
	decide(s, vsym.And(want, distinct(names)))
}

// VH_MethodNames: uniqueness of method names within one service.
func VH_MethodNames() {
	s := base()
	svc := &schema.Service{Name: "S"}
	var ms []string
	for i := 0; i < 3; i++ {
		m := vsym.StrIn(1+vsym.Pick(2), "aAbB1")
		ms = append(ms, m)
		svc.Methods = append(svc.Methods, &schema.Method{Name: m})
	}
	// another service may use the same method names
	s.Services = []*schema.Service{{Name: "R", Methods: []*schema.Method{{Name: ms[0]}}}, svc}
	decide(s, distinct(ms))
}

// VH_Args: arguments of plain and succinct methods.
func VH_Args() {
	s := base()
	s.Types = []*schema.Type{{Kind: "struct", Name: "T"}}
	m := &schema.Method{Name: "M", Succinct: vsym.Bool(), StreamInput: vsym.Bool(), StreamOutput: vsym.Bool()}
	want := true
	mk := func(n int) (r []*schema.MethodArgument) {
		want = vsym.And(want, vsym.Or(n <= 1, !m.Succinct))
		for ; n > 0; n-- {
			a := &schema.MethodArgument{Name: vsym.Str(vsym.Pick(2)), Type: vt(vsym.StrIn(1, "TtU")), Optional: vsym.Bool()}
			want = vsym.And(want, len(a.Name) > 0, a.Type.Expr == "T")
			r = append(r, a)
		}
		return
	}
	m.Inputs = mk(vsym.Pick(3))
	m.Outputs = mk(vsym.Pick(3))
	s.Services = []*schema.Service{{Name: "S", Methods: []*schema.Method{m}}}
	decide(s, want)
}

// VH_MethodErrors: every error a method lists is declared.
func VH_MethodErrors() {
	s := base()
	s.Errors = []*schema.Error{errOf(0), errOf(1)}
	if vsym.Bool() {
		s.Errors[0].Name = " E0 "
	}
	want := true
	svc := &schema.Service{Name: "S"}
	for i := 0; i < 2; i++ {
		m := &schema.Method{Name: "M" + string(rune('0'+i))}
		for k := vsym.Pick(3); k > 0; k-- {
			e := vsym.StrIn(vsym.Pick(3), "Ee012")
			m.Errors = append(m.Errors, e)
			want = vsym.And(want, vsym.Or(e == "E0", e == "E1"))
		}
		svc.Methods = append(svc.Methods, m)
	}
	s.Services = []*schema.Service{svc}
	decide(s, want)
}

// special is a name around a literal of the code.
func special() string {
	l := vsym.Lit()
	p := vsym.StrIn(1, "AB")
	switch vsym.Pick(3) {
	case 0:
		return p + l
	case 1:
		return l
	}
	return p + l + vsym.StrIn(1, "ab")
}

// VH_Special: names made of the literals the code mentions.
func VH_Special() {
	s := base()
	x, y := special(), vsym.StrIn(1, "AB")
	if n := vsym.LitLen(70); n > 0 && vsym.Pick(2) == 0 {
		x = "L"
		for len(x) < n {
			x += "x"
		}
	}
	want := !fold(x, y)
	switch vsym.Pick(6) {
	case 0:
		s.Types = []*schema.Type{typeOf(vsym.Pick(3), x), typeOf(0, y)}
		want = vsym.And(want, upperFirst(x))
	case 1:
		t := typeOf(vsym.Pick(2), "T")
		t.Fields = nil
		for _, n := range []string{y, x} {
			f := &schema.TypeField{Name: n}
			if t.Kind == "enum" {
				f.Value = x + "v"
			} else {
				f.Type = vt("string")
			}
			t.Fields = append(t.Fields, f)
		}
		s.Types = []*schema.Type{t}
		want = vsym.And(want, argName(x))
	case 2:
		s.Types = []*schema.Type{{Kind: "struct", Name: "T", Fields: []*schema.TypeField{{Name: y, Type: vt("int")},
			{Name: "other", Type: vt("int"), TypeExtra: schema.TypeExtra{Meta: []schema.TypeFieldMeta{{"json": x}, {x + "_": x}}}}}}}
		want = vsym.Or(x == "-", vsym.And(want, argName(x), !fold(x, "other") || x == "other"))
	case 3:
		e, f := errOf(0), errOf(1)
		e.Name, f.Name, f.Message = x, y, x+"m"
		s.Errors = []*schema.Error{e, f}
		n := trim(x)
		want = vsym.And(want, upperFirst(n))
		if len(n) >= 6 {
			want = vsym.And(want, !fold(n[:6], "webrpc"))
		}
	case 4:
		s.Services = []*schema.Service{{Name: x, Methods: []*schema.Method{{Name: "M"}}}, {Name: y, Methods: []*schema.Method{{Name: "M"}}}}
		want = vsym.And(want, x != "")
	case 5:
		s.Services = []*schema.Service{{Name: "S", Methods: []*schema.Method{{Name: y}, {Name: x, Annotations: schema.Annotations{x: {AnnotationType: x, Value: x}},
			Inputs: []*schema.MethodArgument{{Name: "q" + x, Type: vt("int")}, {Name: y, Type: vt("int")}}}}}}
		want = vsym.And(want, x != "")
	}
	decide(s, want)
}

// VH_One: a large schema that breaks at most one rule.
func VH_One() {
	s := base()
	x, y := vsym.StrIn(1, "abyz019_"), vsym.Str(1) // any last letter of the names, any text
	s.SchemaName = ""
	val := func(v string) schema.TypeExtra { return schema.TypeExtra{Value: v} }
	meta := func(j string) schema.TypeExtra {
		return schema.TypeExtra{Meta: []schema.TypeFieldMeta{{"go.tag": "x"}, {"json": j}, {"y": "z"}}}
	}
	st := &schema.Type{Kind: "struct", Name: "User" + x, Comments: []string{y}, Fields: []*schema.TypeField{{Name: "id", Type: vt("uint64"), TypeExtra: meta("ID2")},
		{Name: "name" + x, Type: vt("string")}, {Name: "kind", Type: vt("Kind"), TypeExtra: meta("-")}, {Name: "all", Type: vt("map<Kind,[]User" + x + ">")}}}
	en := &schema.Type{Kind: "enum", Name: "Kind", Type: vt("string"), Fields: []*schema.TypeField{{Name: "USER", TypeExtra: val(y)}, {Name: "name" + x, TypeExtra: val("n")}}}
	al := &schema.Type{Kind: "alias", Name: "Alias", Type: vt("Kind")}
	empty := &schema.Type{Kind: "struct", Name: "Empty"}
	s.Types = []*schema.Type{st, en, al, empty}
	s.Errors = []*schema.Error{{Code: 5, Name: "NotFound" + x, Message: y, HTTPStatus: 404}, {Code: 6, Name: "Denied", Message: y, HTTPStatus: 403}, {Code: 400, Name: "Bad", Message: y, HTTPStatus: 400}}
	arg := func(n, t string) *schema.MethodArgument { return &schema.MethodArgument{Name: n, Type: vt(t)} }
	get := &schema.Method{Name: "Get", Inputs: []*schema.MethodArgument{arg("id", "uint64"), arg("deep", "[]map<string,Alias>")}, Outputs: []*schema.MethodArgument{arg("user", "User"+x), arg("ok", "bool")}, Errors: []string{"NotFound" + x, "Bad"}}
	put := &schema.Method{Name: "Put" + x, Succinct: true, Inputs: []*schema.MethodArgument{arg("user", "User"+x)}, Outputs: []*schema.MethodArgument{arg("empty", "Empty")}, Errors: []string{"Denied"}}
	watch := &schema.Method{Name: "Watch", StreamOutput: true, Outputs: []*schema.MethodArgument{arg("user", "User"+x)}}
	a := &schema.Service{Name: "Users" + x, Methods: []*schema.Method{get, put, watch}}
	b := &schema.Service{Name: "Admin", Methods: []*schema.Method{{Name: "Get"}, {Name: "Ping", Inputs: []*schema.MethodArgument{arg("id", "int")}, Outputs: []*schema.MethodArgument{arg("id", "int")}}}}
	s.Services = []*schema.Service{a, b}
	broken := []func(){
		func() {},
		func() { s.SchemaVersion = "" },
		func() { s.WebrpcVersion = "v2" },
		func() { st.Name = "kIND" },
		func() { empty.Name = "USER" + x },
		func() { empty.Name = "alias" },
		func() { al.Name = "" },
		func() { st.Fields[3].Name = "ID" },
		func() { st.Fields[3].Name = "id2" },
		func() { st.Fields[1].Name = "na me" },
		func() { st.Fields[1].Name = "_name" },
		func() { st.Fields[1].Value = "1" },
		func() { st.Fields[3].Meta = []schema.TypeFieldMeta{{"json": "NAME" + x}} },
		func() { st.Fields[3].Meta = []schema.TypeFieldMeta{{"json": "kind"}} },
		func() { st.Fields[3].Meta = []schema.TypeFieldMeta{{"json": "a,omitempty"}} },
		func() { st.Fields[3].Meta = []schema.TypeFieldMeta{{"json": 1}} },
		func() { st.Fields[3].Type = nil },
		func() { st.Fields[3].Type = vt("map<Empty,int>") },
		func() { st.Fields[3].Type = vt("map<Kind,[]Missing>") },
		func() { st.Fields[3].Type = vt("[]user" + x) },
		func() { en.Fields[1].Value = "" },
		func() { en.Fields[1].Name = "user" },
		func() { en.Fields[1].Type = vt("string") },
		func() { en.Fields[0].Meta = []schema.TypeFieldMeta{{"json": "Name" + x}} },
		func() { en.Type = vt("float64") },
		func() { en.Type = nil },
		func() { al.Type = nil },
		func() { al.Type = vt("Nope") },
		func() { s.Errors[2].Code = 5 },
		func() { s.Errors[1].Code = 0 },
		func() { s.Errors[2].Name = "NOTFOUND" + x },
		func() { s.Errors[2].HTTPStatus = 600 },
		func() { s.Errors[0].HTTPStatus = 399 },
		func() { s.Errors[1].Message = "" },
		func() { s.Errors[2].Name = "webrpcBad" },
		func() { s.Errors[2].Name = "WebRPCBad" },
		func() { get.Errors[1] = "Missing" },
		func() { put.Errors = append(put.Errors, "denied") },
		func() { watch.Errors = []string{""} },
		func() { get.Succinct = true },
		func() { put.Outputs = append(put.Outputs, arg("x", "int")) },
		func() { get.Inputs[1].Type = vt("[]map<string,alias>") },
		func() { watch.Outputs[0].Type = nil },
		func() { put.Outputs[0].Name = "" },
		func() { watch.Name = "PUT" + x },
		func() { watch.Name = "" },
		func() { b.Methods[1].Name = "get" },
		func() { b.Methods = nil },
		func() { b.Name = "USERS" + x },
		func() { a.Name = "" },
		func() { a.Methods[1] = nil },
		func() { b.Methods[1].Outputs[0].Type = vt("map<bool,int>") },
		func() { s.BasePath = "a b" },
		func() { s.Types[3] = nil },
		func() { s.Errors[2] = nil },
		func() { s.Services[1] = nil },
		func() { st.Fields[2] = nil },
		func() { get.Inputs[1] = nil },
		func() { watch.Outputs[0] = nil },
	}
	i := vsym.Pick(len(broken))
	broken[i]()
	// the order of declarations does not matter
	if vsym.Bool() {
		s.Types[0], s.Types[3] = s.Types[3], s.Types[0]
	}
	if vsym.Bool() {
		s.Types[1], s.Types[2] = s.Types[2], s.Types[1]
	}
	if vsym.Bool() {
		s.Services[0], s.Services[1] = s.Services[1], s.Services[0]
	}
	if vsym.Bool() {
		s.Errors[0], s.Errors[2] = s.Errors[2], s.Errors[0]
	}
	decide(s, i == 0)
}

// VH_JSONPlace: a json meta anywhere among others, on any of several fields of
// the structs of a schema.
func VH_JSONPlace() {
	s := base()
	n := 1 + vsym.Pick(4)
	st := &schema.Type{Kind: "struct", Name: "T"}
	for i := 0; i < n; i++ {
		st.Fields = append(st.Fields, &schema.TypeField{Name: "f" + string(rune('a'+i)), Type: vt("string")})
	}
	f := st.Fields[vsym.Pick(n)]
	others := []schema.TypeFieldMeta{{"go.tag.a": "x"}, {"go.tag.b": "y"}, {"z": "-"}, {"a": 1, "b": nil}}
	before, after := vsym.Pick(5), vsym.Pick(3)
	f.Meta = append(f.Meta, others[:before]...)
	j := schema.TypeFieldMeta{"json": vsym.StrIn(1+vsym.Pick(2), "fabcd-F")}
	if vsym.Bool() {
		j["y"] = "z"
	}
	f.Meta = append(append(f.Meta, j), others[:after]...)
	want, ok := true, true
	var names []string
	for _, f := range st.Fields {
		var name string
		name, ok = jsonName(f)
		want = vsym.And(want, ok)
		names = append(names, name)
	}
	s.Types = []*schema.Type{{Kind: "struct", Name: "U", Fields: []*schema.TypeField{{Name: "fa", Type: vt("T")}}}, st}
	if vsym.Bool() {
		s.Types[0], s.Types[1] = s.Types[1], s.Types[0]
	}
	decide(s, vsym.And(want, distinct(names)))
}

// VH_Wide: lists of five of everything, with one element, or one and another,
// that break a rule.
func VH_Wide() {
	s := base()
	x := vsym.StrIn(1, "abyz019_")
	name := func(c string, i int) string { return c + string(rune('a'+i)) + x }
	var structs, enums, aliases []*schema.Type
	for i := 0; i < 5; i++ {
		st := &schema.Type{Kind: "struct", Name: name("S", i)}
		en := &schema.Type{Kind: "enum", Name: name("E", i), Type: vt("int")}
		for k := 0; k < 5; k++ {
			st.Fields = append(st.Fields, &schema.TypeField{Name: name("f", k), Type: vt("string")})
			en.Fields = append(en.Fields, &schema.TypeField{Name: name("M", k), TypeExtra: schema.TypeExtra{Value: "1"}})
		}
		structs, enums = append(structs, st), append(enums, en)
		aliases = append(aliases, &schema.Type{Kind: "alias", Name: name("A", i), Type: vt("string")})
		s.Errors = append(s.Errors, &schema.Error{Code: i + 1, Name: name("X", i), Message: "m", HTTPStatus: 400})
	}
	s.Types = append(append(append(s.Types, enums...), structs...), aliases...)
	for i := 0; i < 5; i++ {
		v := &schema.Service{Name: name("V", i)}
		for k := 0; k < 5; k++ {
			m := &schema.Method{Name: name("M", k)}
			for j := 0; j < 5; j++ {
				m.Inputs = append(m.Inputs, &schema.MethodArgument{Name: name("i", j), Type: vt("int")})
				m.Outputs = append(m.Outputs, &schema.MethodArgument{Name: name("o", j), Type: vt("int")})
				m.Errors = append(m.Errors, s.Errors[j].Name)
			}
			v.Methods = append(v.Methods, m)
		}
		s.Services = append(s.Services, v)
	}
	i, j, k := vsym.Pick(5), vsym.Pick(5), vsym.Pick(5)
	st, en, al, v := structs[i], enums[i], aliases[i], s.Services[i]
	m := v.Methods[j]
	switch vsym.Pick(5) {
	case 0:
		// names that are there already
		vsym.Assume(j != k)
		switch vsym.Pick(9) {
		case 0:
			structs[j].Name = "S" + string(rune('A'+k)) + x
		case 1:
			enums[j].Name = structs[k].Name
		case 2:
			aliases[j].Name = "e" + string(rune('A'+k)) + x
			vsym.Assume(i == 0)
		case 3:
			st.Fields[j].Name = st.Fields[k].Name
		case 4:
			en.Fields[j].Name = "m" + string(rune('A'+k)) + x
		case 5:
			s.Errors[j].Name = "X" + string(rune('A'+k)) + x
		case 6:
			s.Errors[j].Code = s.Errors[k].Code
		case 7:
			s.Services[j].Name = "v" + string(rune('A'+k)) + x
		case 8:
			v.Methods[j].Name = "m" + string(rune('A'+k)) + x
		}
	case 1:
		// nothing where something is needed
		switch vsym.Pick(11) {
		case 0:
			st.Fields[j] = nil
		case 1:
			st.Fields[j].Type = nil
		case 2:
			en.Fields[j] = nil
		case 3:
			en.Fields[j].Value = ""
		case 4:
			v.Methods[j] = nil
		case 5:
			m.Inputs[k] = nil
		case 6:
			m.Outputs[k] = nil
		case 7:
			m.Inputs[k].Name = ""
		case 8:
			m.Outputs[k].Name = ""
		case 9:
			m.Inputs[k].Type = nil
		case 10:
			m.Outputs[k].Type = nil
		}
	case 2:
		// types that nothing declares
		switch vsym.Pick(5) {
		case 0:
			st.Fields[j].Type = vt("[]Nope")
		case 1:
			al.Type = vt("Nope")
		case 2:
			m.Inputs[k].Type = vt("map<string,Nope>")
		case 3:
			m.Outputs[k].Type = vt("Nope")
		case 4:
			m.Errors[k] = "Nope"
		}
	case 3:
		// values out of bounds
		switch vsym.Pick(8) {
		case 0:
			st.Fields[j].Value = "1"
		case 1:
			en.Fields[j].Type = vt("int")
		case 2:
			en.Type = vt("bool")
		case 3:
			s.Errors[i].HTTPStatus = 600
		case 4:
			s.Errors[i].Code = -1
		case 5:
			s.Errors[i].Message = ""
		case 6:
			v.Methods = nil
		case 7:
			m.Succinct = true
		}
	case 4:
		// all is well
		switch vsym.Pick(5) {
		case 0:
			st.Fields[j].Type = vt("map<" + enums[k].Name + ",[]" + structs[j].Name + ">")
		case 1:
			al.Type = vt("[]" + structs[k].Name)
		case 2:
			m.Inputs[k].Type = vt(aliases[i].Name)
		case 3:
			m.Outputs[k].Type = vt("[]" + enums[j].Name)
		case 4:
			st.Name, al.Name, en.Name = "Sx"+x, "Ax"+x, "Ex"+x
		}
		decide(s, true)
		return
	}
	decide(s, false)
}

// VH_Near: names that are close to one that is declared.
func VH_Near() {
	s := base()
	d := []string{"Name", "A", "AnotherLongName"}[vsym.Pick(3)]
	x := vsym.StrIn(1, "aeNnAmM09_")
	k := len(d) / 2
	text := []string{d, d + x, x + d, d[:k] + d[k:len(d)-1], d[:k] + x + d[k+1:], d + d, d[1:], d[:k] + x + d[k:], x + d[1:], d[:len(d)-1] + x}[vsym.Pick(10)]
	vsym.Assume(text != "")
	st := &schema.Type{Kind: "struct", Name: d}
	en := &schema.Type{Kind: "enum", Name: d, Type: vt("int"), Fields: []*schema.TypeField{{Name: "V", TypeExtra: schema.TypeExtra{Value: "1"}}}}
	is := text == d
	arg := func(expr string) *schema.Method {
		return &schema.Method{Name: "M", Inputs: []*schema.MethodArgument{{Name: "a", Type: vt(expr)}}}
	}
	unique := vsym.And(!fold(text, d), upperFirst(text))
	switch vsym.Pick(12) {
	case 0:
		s.Errors = []*schema.Error{{Code: 1, Name: d, Message: "m", HTTPStatus: 400}}
		s.Services = []*schema.Service{{Name: "S", Methods: []*schema.Method{{Name: "M", Errors: []string{text}}}}}
		decide(s, is)
	case 1:
		s.Types = []*schema.Type{st}
		s.Services = []*schema.Service{{Name: "S", Methods: []*schema.Method{arg(text)}}}
		decide(s, is)
	case 2:
		s.Types = []*schema.Type{en}
		s.Services = []*schema.Service{{Name: "S", Methods: []*schema.Method{arg("map<" + text + ",int>")}}}
		decide(s, is)
	case 3:
		s.Types = []*schema.Type{en, {Kind: "alias", Name: "Zz", Type: vt("[]" + text)}}
		decide(s, is)
	case 4:
		s.Types = []*schema.Type{st, {Kind: "struct", Name: "Zz", Fields: []*schema.TypeField{{Name: "f", Type: vt("map<string,[]" + text + ">")}}}}
		decide(s, is)
	case 5:
		s.Types = []*schema.Type{st, {Kind: "enum", Name: text, Type: vt("int"), Fields: []*schema.TypeField{{Name: "V", TypeExtra: schema.TypeExtra{Value: "1"}}}}}
		decide(s, unique)
	case 6:
		vsym.Assume(upperFirst(text))
		s.Errors = []*schema.Error{{Code: 1, Name: d, Message: "m", HTTPStatus: 400}, {Code: 2, Name: text, Message: "m", HTTPStatus: 400}}
		decide(s, unique)
	case 7:
		s.Types = []*schema.Type{{Kind: "struct", Name: "Zz", Fields: []*schema.TypeField{{Name: d, Type: vt("int")}, {Name: text, Type: vt("int")}}}}
		decide(s, vsym.And(!fold(text, d), argName(text)))
	case 8:
		s.Services = []*schema.Service{{Name: "S", Methods: []*schema.Method{{Name: d}, {Name: text}}}}
		decide(s, !fold(text, d))
	case 9:
		m := []*schema.Method{{Name: "M"}}
		s.Services = []*schema.Service{{Name: d, Methods: m}, {Name: text, Methods: []*schema.Method{{Name: "M"}}}}
		decide(s, !fold(text, d))
	case 10:
		s.Types = []*schema.Type{{Kind: "enum", Name: "Zz", Type: vt("int"), Fields: []*schema.TypeField{{Name: d, TypeExtra: schema.TypeExtra{Value: "1"}}, {Name: text, TypeExtra: schema.TypeExtra{Value: "1"}}}}}
		decide(s, vsym.And(!fold(text, d), argName(text)))
	case 11:
		// a struct and a type of another kind in an alias
		s.Types = []*schema.Type{{Kind: "alias", Name: "Zz", Type: vt("map<string," + text + ">")}, st}
		decide(s, is)
	}
}
