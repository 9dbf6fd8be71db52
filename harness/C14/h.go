// Package c14 checks the schema hash.
package c14

import (
	"github.com/webrpc/webrpc/internal/vh/sch"
	"github.com/webrpc/webrpc/internal/vsym"
	"github.com/webrpc/webrpc/schema"
)

func valid(s *schema.WebRPCSchema) *schema.WebRPCSchema {
	if s.Validate() != nil {
		vsym.Assume(false)
	}
	return s
}

func hash(s *schema.WebRPCSchema) string {
	h, err := s.SchemaHash()
	if err != nil {
		vsym.Fail("a valid schema cannot be hashed")
	}
	return h
}

// compare checks that hashes agree exactly when the schemas do.
func compare(a, b *schema.WebRPCSchema) {
	valid(a)
	valid(b)
	vsym.Reach("valid")
	same := sch.Same(a, b)
	ha, hb := hash(a), hash(b)
	vsym.Observe("same", same)
	vsym.Assert(vsym.Iff(same, ha == hb), "hashes agree exactly when the declarations do")
	ja, _ := a.ToJSON()
	jb, _ := b.ToJSON()
	vsym.Assert(vsym.Iff(ja == jb, ha == hb), "hashes agree exactly when the exports do")
}

func ascii(n int) string {
	s := vsym.Str(n)
	for i := 0; i < n; i++ {
		vsym.Assume(s[i] < 128)
	}
	return s
}

func places(k *sch.Knobs) []*string {
	return []*string{&k.Name, &k.Version, &k.MetaVal, &k.TypeComment, &k.FieldComment, &k.EnumComment, &k.Value, &k.AliasMeta, &k.Msg,
		&k.Svc, &k.SvcComment, &k.Meth, &k.MethComment, &k.AnnVal, &k.AnnType, &k.Arg, &k.Out, &k.Member}
}

// VH_Texts: one text differs.
func VH_Texts() {
	a, b := sch.Default(), sch.Default()
	p, q := append(places(a), &a.AnnKey, &a.MetaKey, &a.Base), append(places(b), &b.AnnKey, &b.MetaKey, &b.Base)
	i := vsym.Pick(len(p))
	switch n := 2 + vsym.Tier(); vsym.Pick(3) {
	case 0:
		*p[i], *q[i] = vsym.StrIn(n, "aB\"\n"), vsym.StrIn(n, "aB\"\n")
	case 1:
		// blanks at the start, in the middle and at the end
		gap := func() string { return vsym.StrIn(vsym.Pick(n+1), " .") }
		x, y := gap(), gap()
		switch vsym.Pick(3) {
		case 0:
			x, y = x+"b", y+"b"
		case 1:
			x, y = "a"+x+"b", "a"+y+"b"
		case 2:
			x, y = "a"+x, "a"+y
		}
		*p[i], *q[i] = x, y
	case 2:
		*p[i], *q[i] = ascii(vsym.Pick(2)), ascii(vsym.Pick(2))
	}
	compare(a.Build(), b.Build())
}

// VH_Numbers: codes and statuses differ.
func VH_Numbers() {
	a, b := sch.Default(), sch.Default()
	if vsym.Bool() {
		a.Code, b.Code = vsym.Int(1, 30), vsym.Int(1, 30)
	} else {
		a.Status, b.Status = vsym.Int(400, 429), vsym.Int(400, 429)
	}
	compare(a.Build(), b.Build())
}

// VH_Flags: one flag differs.
func VH_Flags() {
	a := sch.Default()
	a.FieldOpt, a.Succinct, a.StreamIn, a.StreamOut = vsym.Bool(), vsym.Bool(), vsym.Bool(), vsym.Bool()
	a.ArgOpt, a.OutOpt, a.MethErr = vsym.Bool(), vsym.Bool(), vsym.Bool()
	b := *a
	p := []*bool{&b.FieldOpt, &b.Succinct, &b.StreamIn, &b.StreamOut, &b.ArgOpt, &b.OutOpt, &b.MethErr}
	if i := vsym.Pick(len(p) + 1); i < len(p) {
		*p[i] = !*p[i]
	}
	compare(a.Build(), (&b).Build())
}

// VH_Order: orders differ.
func VH_Order() {
	a := sch.Default()
	b := *a
	p := []*bool{&b.SwapTypes, &b.SwapFields, &b.SwapMeths, &b.SwapErrs, &b.SwapSvcs, &b.SwapMethErrs, &b.SwapMembers, &b.SwapComments, &b.SwapArgs,
		&b.NoFields, &b.NoMeta, &b.NoErrs, &b.NoSvcs, &b.NoArgs, &b.SwapAnn}
	*p[vsym.Pick(len(p))] = vsym.Bool()
	compare(a.Build(), (&b).Build())
}

// VH_Moved: a text moves.
func VH_Moved() {
	a, b := sch.Default(), sch.Default()
	p, q := places(a), places(b)
	i, j := vsym.Pick(len(p)), vsym.Pick(len(p))
	t := ascii(1)
	*p[i], *q[j] = t, t
	compare(a.Build(), b.Build())
}

// VH_Types: types differ.
func VH_Types() {
	ty := func() string {
		x := vsym.StrIn(1, "ABC")
		switch vsym.Pick(7) {
		case 0:
			return "[]" + x
		case 1:
			return "map<string," + x + ">"
		case 2:
			return "map<B," + x + ">"
		case 3:
			return "[][]" + x
		case 4:
			return "map<B,[]" + x + ">"
		case 5:
			return []string{"int", "uint", "null"}[vsym.Pick(3)]
		}
		return x
	}
	a, b := sch.Default(), sch.Default()
	switch vsym.Pick(3) {
	case 0:
		a.FieldType, b.FieldType = ty(), ty()
	case 1:
		a.ArgType, b.ArgType = ty(), ty()
	case 2:
		a.OutType, b.OutType = ty(), ty()
	}
	compare(a.Build(), b.Build())
}

func annotated(swap bool) *schema.WebRPCSchema {
	k := sch.Default()
	s := k.Build()
	m := s.Services[0].Methods[0]
	m.Annotations = schema.Annotations{}
	meta := schema.TypeFieldMeta{}
	keys := []string{"b", "a", "c"}
	if swap {
		keys = []string{"c", "b", "a"}
	}
	for _, key := range keys {
		m.Annotations[key] = &schema.Annotation{AnnotationType: key, Value: key + "v"}
		meta[key] = key
	}
	s.Types[0].Fields[0].Meta = []schema.TypeFieldMeta{meta}
	return valid(s)
}

// VH_MapOrder: iteration order of maps.
func VH_MapOrder() {
	a, b := annotated(false), annotated(true)
	vsym.MapOrder(true)
	vsym.Assert(hash(a) == hash(b), "the hash depends on the order of a map")
	vsym.MapOrder(false)
}

// VH_Stable: earlier operations.
func VH_Stable() {
	k := sch.Default()
	k.Msg, k.FieldComment = vsym.StrIn(1, "a\"\n"), vsym.StrIn(1, "a<")
	s := valid(k.Build())
	h := hash(s)
	other := sch.Default()
	other.Struct = "Z"
	for i := 0; i < 3; i++ {
		switch vsym.Pick(6) {
		case 0:
			vsym.Assert(hash(s) == h, "hashing again gives another hash")
		case 1:
			vsym.Assert(hash(valid(other.Build())) != h, "a different schema has the same hash")
		case 2:
			_, _ = s.ToJSON()
		case 3:
			if s.Validate() != nil {
				vsym.Fail("the schema is no longer valid")
			}
		case 4:
			j, _ := s.ToJSON()
			back, err := schema.ParseSchemaJSON([]byte(j))
			if err != nil {
				vsym.Fail("an exported schema cannot be read back")
			}
			vsym.Assert(hash(back) == h, "the schema read back has another hash")
		case 5:
			vsym.Assert(hash(valid(k.Build())) == h, "an equal schema has another hash")
		}
	}
	vsym.Assert(hash(s) == h, "hashing again gives another hash")
	vsym.Assert(sch.Same(s, valid(k.Build())), "the schema was modified")
}

// VH_Wide: a schema with five of everything, one part of it changed.
func VH_Wide() {
	a, texts, marks, codes := sch.Wide("x")
	b, _, _, _ := sch.Wide("x")
	switch vsym.Pick(4) {
	case 0:
		*texts[2*vsym.Pick((len(texts)+1)/2)] += vsym.StrIn(1, "ab")
	case 3:
		*texts[2*vsym.Pick(len(texts)/2)+1] += vsym.StrIn(vsym.Pick(2), "ab")
	case 1:
		*marks[vsym.Pick(len(marks))] = vsym.Bool()
	case 2:
		*codes[vsym.Pick(len(codes))] = vsym.Int(400, 404)
	}
	compare(a, b)
}
