// Package c12 checks export to JSON and reading back.
package c12

import (
	"github.com/webrpc/webrpc/internal/vh/sch"
	"github.com/webrpc/webrpc/internal/vsym"
	"github.com/webrpc/webrpc/schema"
)

// round exports, reads back, compares and exports again.
func round(s *schema.WebRPCSchema) {
	if s.Validate() != nil {
		vsym.Assume(false)
	}
	vsym.Reach("valid")
	text, err := s.ToJSON()
	if err != nil {
		vsym.Fail("a valid schema cannot be exported")
	}
	vsym.Observe("json", text)
	back, err := schema.ParseSchemaJSON([]byte(text))
	if err != nil || back == nil {
		vsym.Fail("an exported schema cannot be read back")
	}
	vsym.Assert(sch.Same(s, back), "the schema read back differs")
	again, err := back.ToJSON()
	if err != nil {
		vsym.Fail("the schema read back cannot be exported")
	}
	vsym.Assert(again == text, "exporting again gives another text")
}

func ascii(n int) string {
	s := vsym.Str(n)
	for i := 0; i < n; i++ {
		vsym.Assume(s[i] < 128)
	}
	return s
}

// text is a text with any ASCII characters and some others.
func text() string {
	switch vsym.Pick(4) {
	case 3:
		return vsym.Lit()
	case 0:
		return ascii(vsym.Pick(3))
	case 1:
		return vsym.StrIn(1, `"\/<>&'`) + []string{"é", "\u2028", "\u2029", "\U0001F600", "\u00a0", "<>&"}[vsym.Pick(6)] + vsym.StrIn(1, `u"\<`)
	}
	return `\u00` + vsym.StrIn(2, "03ce")
}

// VH_Texts: free texts.
func VH_Texts() {
	k := sch.Default()
	p := []*string{&k.Name, &k.Version, &k.MetaVal, &k.TypeComment, &k.FieldComment, &k.EnumComment, &k.Value, &k.AliasMeta, &k.Msg,
		&k.Svc, &k.SvcComment, &k.Meth, &k.MethComment, &k.AnnVal, &k.AnnKey, &k.AnnType, &k.Arg, &k.Out, &k.MetaKey}
	*p[vsym.Pick(len(p))] = text()
	round(k.Build())
}

// VH_Names: names of types, which their uses repeat, and of errors.
func VH_Names() {
	k := sch.Default()
	n := "T" + ascii(vsym.Pick(3))
	switch vsym.Pick(4) {
	case 0:
		k.Struct = n
		k.FieldType, k.ArgType, k.OutType = "[]"+n, n, "map<string,"+n+">"
	case 1:
		k.Enum = n
		k.FieldType, k.ArgType, k.OutType = "map<"+n+","+n+">", n, "[]"+n
	case 2:
		k.Alias = n
		k.FieldType, k.ArgType, k.OutType = n, "map<int,"+n+">", "[]"+n
	case 3:
		k.Err = n
	}
	round(k.Build())
}

// VH_NonASCII: non-ASCII names.
func VH_NonASCII() {
	k := sch.Default()
	n := "T" + []string{"é", "\u2028", "\U0001F600", "\u00ad", "\ufeff"}[vsym.Pick(5)] + vsym.StrIn(1, `a"\`)
	k.Struct = n
	k.FieldType, k.ArgType = "[]"+n, n
	round(k.Build())
}

// VH_Flags: every combination of flags.
func VH_Flags() {
	k := sch.Default()
	k.FieldOpt, k.Succinct, k.StreamIn, k.StreamOut = vsym.Bool(), vsym.Bool(), vsym.Bool(), vsym.Bool()
	k.ArgOpt, k.OutOpt, k.MethErr = vsym.Bool(), vsym.Bool(), vsym.Bool()
	round(k.Build())
}

// VH_Missing: missing parts.
func VH_Missing() {
	k := sch.Default()
	k.NoFields, k.NoMeta, k.NoErrs, k.NoSvcs, k.NoTypes, k.NoArgs = vsym.Bool(), vsym.Bool(), vsym.Bool(), vsym.Bool(), vsym.Bool(), vsym.Bool()
	if vsym.Bool() {
		k.Base, k.Version = "", ""
	}
	s := k.Build()
	if vsym.Bool() {
		if len(s.Types) == 0 {
			s.Types = nil
		}
		if len(s.Services) == 0 {
			s.Services = nil
		}
		for _, svc := range s.Services {
			svc.Comments = nil
			for _, m := range svc.Methods {
				m.Comments, m.Annotations = nil, nil
				if len(m.Inputs) == 0 {
					m.Inputs, m.Outputs = nil, nil
				}
			}
		}
	}
	round(s)
}

// VH_Types: types of fields, aliases, arguments, and enums.
func VH_Types() {
	k := sch.Default()
	ty := func() string {
		x := vsym.StrIn(1, "ABC")
		switch vsym.Pick(6) {
		case 0:
			return []string{"null", "any", "byte", "bool", "uint", "uint8", "uint16", "uint32", "uint64", "int", "int8", "int16", "int32", "int64", "bigint", "float32", "float64", "string", "timestamp"}[vsym.Pick(19)]
		case 1:
			return "[]" + x
		case 2:
			return "map<string," + x + ">"
		case 3:
			return "map<B,map<uint8,[]" + x + ">>"
		case 4:
			return "[][]map<C," + x + ">"
		}
		return x
	}
	switch vsym.Pick(3) {
	case 0:
		k.FieldType = ty()
	case 1:
		k.AliasType = ty()
		k.FieldType = ty()
	case 2:
		k.ArgType, k.OutType = ty(), ty()
	}
	if vsym.Bool() {
		k.AliasType = "B"
	}
	k.EnumType = []string{"string", "int64", "uint"}[vsym.Pick(1+2*vsym.Tier())]
	round(k.Build())
}

// VH_Numbers: codes and status.
func VH_Numbers() {
	k := sch.Default()
	switch vsym.Pick(3) {
	case 0:
		k.Code = vsym.Int(1, 99)
	case 1:
		k.Code = []int{999, 1001, 123456, 1<<31 - 1, 1 << 31, 1 << 40, 1<<63 - 1}[vsym.Pick(7)]
	case 2:
		k.Status = 400 + 100*vsym.Pick(2) + vsym.Int(0, 99)
	}
	vsym.Assume(k.Code != 1000)
	round(k.Build())
}

// VH_BasePath: base paths that validation accepts.
func VH_BasePath() {
	k := sch.Default()
	k.Base = vsym.StrIn(1+vsym.Pick(3), `/a"\<%&`)
	round(k.Build())
}

// VH_FromJSON: metadata of any JSON type survives.
func VH_FromJSON() {
	v := []string{"null", "true", "1", "1.5", "1e30", `"a"`, "[1,null]", `{"b":1,"a":[]}`, "-0.0", "12345678901234567890"}[vsym.Pick(10)]
	doc := `{"webrpc":"v1","types":[{"kind":"struct","name":"A","comments":["` + vsym.StrIn(1, "a<&/") + `"],"fields":[{"name":"f","type":"A","optional":true,"meta":[{"x":` + v + `,"json":"j"},{"y":"` + vsym.StrIn(1, "<'a") + `"}]}]}]}`
	s, err := schema.ParseSchemaJSON([]byte(doc))
	if err != nil {
		vsym.Fail("a valid document is rejected")
	}
	t1, err := s.ToJSON()
	if err != nil {
		vsym.Fail("a valid schema cannot be exported")
	}
	b, err := schema.ParseSchemaJSON([]byte(t1))
	if err != nil {
		vsym.Fail("an exported schema cannot be read back")
	}
	t2, _ := b.ToJSON()
	vsym.Assert(t1 == t2, "exporting again gives another text")
	vsym.Observe("json", t1)
}

// VH_Escaped: a document that spells texts with escapes.
func VH_Escaped() {
	x := []string{`map\u003cstring,A\u003e`, `\u0041`, `[]A`, `map<string,\u005b\u005dA>`}[vsym.Pick(4)]
	want := []string{"map<string,A>", "A", "[]A", "map<string,[]A>"}
	s, err := schema.ParseSchemaJSON([]byte(`{"webrpc":"v1","types":[{"kind":"struct","name":"A","fields":[{"name":"f","type":"` + x + `"}]}]}`))
	if err != nil {
		vsym.Fail("an escaped type is rejected")
	}
	ok := false
	for _, w := range want {
		ok = ok || s.Types[0].Fields[0].Type.Expr == w
	}
	vsym.Assert(ok, "an escaped type is read wrongly")
	round(s)
}

// VH_Wide: a schema with five of everything, one part of it special.
func VH_Wide() {
	sch.Keys = nil
	x := vsym.StrIn(1, "ab09_")
	s, texts, marks, codes := sch.Wide(x)
	switch vsym.Pick(4) {
	case 0:
		*texts[2*vsym.Pick((len(texts)+1)/2)] += "\"\\" + x
	case 1:
		*texts[2*vsym.Pick(len(texts)/2)+1] += "é<" + x
	case 2:
		*marks[vsym.Pick(len(marks))] = true
	case 3:
		*codes[vsym.Pick(len(codes))] = vsym.Int(400, 599)
	}
	round(s)
}
