// Package c01 checks that a schema says what its RIDL document says.
package c01

import (
	"strconv"

	"github.com/webrpc/webrpc/internal/vh/memfs"
	"github.com/webrpc/webrpc/internal/vh/rdl"
	"github.com/webrpc/webrpc/internal/vsym"
)

const (
	letters = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
	upper   = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
	digits  = "0123456789"
	word    = letters + digits + "_"
)

var std = []rdl.Def{{Key: "webrpc", Val: "v1"}, {Key: "name", Val: "n"}, {Key: "version", Val: "v1"}}

func check(d *rdl.Doc) {
	s, err := memfs.Parse(d.Text(rdl.Plain))
	if err != nil {
		vsym.Fail("rejected: " + err.Error())
	}
	d.Check(s)
	vsym.Reach("accepted")
}

func reject(d *rdl.Doc, msg string) {
	s, err := memfs.Parse(d.Text(rdl.Plain))
	vsym.Assert(s == nil && err != nil, msg)
	vsym.Reach("rejected")
}

func doc(d ...rdl.Decl) *rdl.Doc { return &rdl.Doc{Defs: std, Decls: d} }

// VH_Defs: the definitions in any order, each present or not, with any value.
func VH_Defs() {
	d := &rdl.Doc{}
	val := map[string]rdl.Def{}
	w := vsym.StrIn(1+vsym.Pick(2), word+".-/"[:2])
	vsym.Assume(w[0] != '-' && w[0] != '.')
	q := vsym.Bool()
	for _, k := range []string{"name", "version", "basepath"} {
		v := w
		if k == "basepath" {
			v = "/b"
			if vsym.Bool() {
				v = "b/" + vsym.StrIn(1, letters) + "/"
			}
		}
		val[k] = rdl.Def{Key: k, Val: v, Quote: q}
	}
	val["webrpc"] = std[0]
	left := []string{"webrpc", "name", "version", "basepath"}
	for len(left) > 0 {
		i := vsym.Pick(len(left))
		if left[i] == "webrpc" || vsym.Bool() {
			d.Defs = append(d.Defs, val[left[i]])
		}
		left = append(append([]string{}, left[:i]...), left[i+1:]...)
	}
	at := vsym.Pick(2)
	if at == 1 {
		d.Decls = []rdl.Decl{{Kind: "struct", Name: "S"}}
	}
	check(d)
}

// VH_Twice: a definition given twice is an error.
func VH_Twice() {
	keys := []string{"webrpc", "name", "version", "basepath"}
	vals := []string{"v1", "n", "v1", "/b"}
	i := vsym.Pick(4)
	v := vals[i]
	if vsym.Bool() {
		v = "v" + vsym.StrIn(1, digits)
	}
	d := doc()
	d.Defs = append(append([]rdl.Def{}, std...), rdl.Def{Key: "basepath", Val: "/b"}, rdl.Def{Key: keys[i], Val: v})
	reject(d, "a definition given twice is accepted")
}

var enumTypes = []string{"string", "uint", "uint8", "uint16", "uint32", "uint64", "int", "int8", "int16", "int32", "int64"}

func value(name string, form int) rdl.Value {
	v := rdl.Value{Name: name}
	switch form {
	case 1:
		v.Has, v.Val = true, vsym.StrIn(1+vsym.Pick(2), digits)
	case 2:
		v.Has, v.Val = true, vsym.StrIn(1, word)+"x"
	case 3:
		v.Has, v.Quote, v.Val = true, true, vsym.StrIn(1, word+" #-")
	case 4:
		v.Has, v.Val = true, "a/"+vsym.StrIn(1, letters)
	}
	return v
}

// VH_Enum: members with and without values.
func VH_Enum() {
	e := rdl.Decl{Kind: "enum", Name: "E", Type: enumTypes[vsym.Pick(2)*(1+vsym.Pick(len(enumTypes)-1))]}
	n := vsym.Pick(4 + vsym.Tier())
	for i := 0; i < n; i++ {
		e.Values = append(e.Values, value(string(rune('a'+i))+"M", vsym.Pick(4)))
	}
	check(doc(e, rdl.Decl{Kind: "enum", Name: "F", Type: "string", Values: []rdl.Value{{Name: "x"}, {Name: "y"}}}))
}

// VH_EnumMany: default values of many members.
func VH_EnumMany() {
	e := rdl.Decl{Kind: "enum", Name: "E", Type: enumTypes[vsym.Pick(len(enumTypes))]}
	n := 12 + 3*vsym.Pick(2)
	at := vsym.Pick(n + 1)
	for i := 0; i < n; i++ {
		f := 0
		if i == at {
			f = 1 + vsym.Pick(4)
		}
		e.Values = append(e.Values, value("m"+strconv.Itoa(i), f))
	}
	check(doc(e))
}

var types = []string{"string", "int", "bigint", "[]string", "map<string,int>", "T", "[]T", "E", "map<E,[]T>", "A", "[]map<uint8,map<string,A>>", "any", "timestamp", "[][]E"}

var world = []rdl.Decl{{Kind: "struct", Name: "T"}, {Kind: "enum", Name: "E", Type: "uint8", Values: []rdl.Value{{Name: "x"}}}, {Kind: "alias", Name: "A", Type: "[]T"}}

func with(d ...rdl.Decl) *rdl.Doc { return doc(append(append([]rdl.Decl{}, world...), d...)...) }

func meta() rdl.Meta {
	m := rdl.Meta{Key: []string{"json", "go.tag", "go.tag.json", "k", "x.y.z_1"}[vsym.Pick(5)]}
	switch vsym.Pick(4) {
	case 0:
		m.Val = vsym.StrIn(2, letters)
	case 1:
		m.Val, m.Quote = vsym.StrIn(1, letters)+"q", true
	case 2:
		m.Val = "a" + vsym.StrIn(1, ".,:-/(|<=@?!") + "b"
		if m.Key == "json" {
			m.Val = "ab"
		}
	case 3:
		m.Val = "-"
	}
	return m
}

// VH_Field: one field, its type, flag and meta.
func VH_Field() {
	f := rdl.Field{Name: vsym.StrIn(1, letters) + vsym.StrIn(vsym.Pick(2), word), Type: types[vsym.Pick(len(types))], Opt: vsym.Bool()}
	for range vsym.Pick(2) {
		f.Meta = append(f.Meta, meta())
	}
	check(with(rdl.Decl{Kind: "struct", Name: "S", Fields: []rdl.Field{f}}))
}

// VH_Fields: several fields, each with or without flag and meta.
func VH_Fields() {
	var s rdl.Decl
	s.Kind, s.Name = "struct", "S"
	for i := range vsym.Pick(4 + vsym.Tier()) {
		f := rdl.Field{Name: "f" + strconv.Itoa(i), Type: types[2*vsym.Pick(3+2*vsym.Tier())], Opt: vsym.Bool()}
		for k := range vsym.Pick(3) {
			f.Meta = append(f.Meta, rdl.Meta{Key: "m" + strconv.Itoa(k), Val: "v" + strconv.Itoa(i)})
		}
		s.Fields = append(s.Fields, f)
	}
	check(with(s, rdl.Decl{Kind: "struct", Name: "U", Fields: []rdl.Field{{Name: "g", Type: "S"}}}))
}

// VH_Metas: several meta lines, also with the same key.
func VH_Metas() {
	f := rdl.Field{Name: "f", Type: "int"}
	for range 2 {
		f.Meta = append(f.Meta, meta())
	}
	check(doc(rdl.Decl{Kind: "struct", Name: "S", Fields: []rdl.Field{f, {Name: "g", Type: "int"}}}))
}

// VH_Alias: an alias of any type with meta.
func VH_Alias() {
	a := rdl.Decl{Kind: "alias", Name: vsym.StrIn(1, upper) + "l" + vsym.StrIn(vsym.Pick(2), word), Type: types[vsym.Pick(len(types))]}
	for range vsym.Pick(2 + vsym.Tier()) {
		a.Meta = append(a.Meta, meta())
	}
	b := rdl.Decl{Kind: "alias", Name: "B", Type: []string{"string", a.Name, "[]" + a.Name}[vsym.Pick(3)]}
	if vsym.Bool() {
		check(with(a, b))
	} else {
		check(with(b, a))
	}
}

// VH_Error: codes, messages and HTTP status of errors.
func VH_Error() {
	e := rdl.Decl{Kind: "error", Name: "Err" + vsym.StrIn(1, word), Msg: "m"}
	kind := vsym.Pick(4)
	switch kind {
	case 0:
		e.CodeInt = vsym.Int(1, 40)
		e.Code = strconv.Itoa(e.CodeInt)
	case 1:
		e.Code = vsym.StrIn(1+vsym.Pick(2+vsym.Tier()), digits)
		for i := range len(e.Code) {
			e.CodeInt = e.CodeInt*10 + int(e.Code[i]-'0')
		}
		vsym.Assume(e.CodeInt > 0 && e.CodeInt != 1000)
	case 2:
		l := vsym.LitInts()
		if len(l) > 0 {
			e.CodeInt = l[vsym.Pick(min(len(l), 60+140*vsym.Tier()))] + vsym.Pick(3) - 1
		}
		vsym.Assume(e.CodeInt > 0 && e.CodeInt < 1<<31 && e.CodeInt != 1000)
	case 3:
		e.CodeInt = []int{2147483647, 2147483646, 99999, 65536, 8080}[vsym.Pick(5)]
	}
	if kind != 1 || vsym.Tier() > 0 {
		switch vsym.Pick(3) {
		case 0:
			e.Msg, e.MsgQuote = "a "+vsym.StrIn(1, word+" #.,'"), true
		case 1:
			e.Msg = vsym.StrIn(1, letters) + "w"
		}
	}
	if vsym.Bool() {
		e.Status = []int{599, 400, 500, 401, 404, 418, 429, 503}[vsym.Pick(2+6*vsym.Tier())]
	}
	o := rdl.Decl{Kind: "error", Name: "Oth", CodeInt: 1000, Msg: "o", Status: 500}
	if vsym.Bool() {
		check(doc(e, o))
	} else {
		check(doc(o, e))
	}
}

// VH_Status: every HTTP status.
func VH_Status() {
	st := vsym.StrIn(3, digits)
	n := int(st[0]-'0')*100 + int(st[1]-'0')*10 + int(st[2]-'0')
	e := rdl.Decl{Kind: "error", Name: "E", CodeInt: 1, Msg: "m", Status: 1}
	t := doc(e).Text(rdl.Plain)
	src := t[:len(t)-3] + st + "\n"
	s, err := memfs.Parse(src)
	if n < 400 || n > 599 {
		vsym.Assert(err != nil, "a status out of range is accepted")
		return
	}
	if err != nil || len(s.Errors) != 1 {
		vsym.Fail("rejected")
	}
	vsym.Assert(s.Errors[0].HTTPStatus == n, "another status than the one written")
}

// VH_Numbers: numbers that do not fit are rejected, not changed.
func VH_Numbers() {
	big := []string{"2147483648", "4294967297", "9223372036854775807", "9223372036854775808", "18446744073709551617", "99999999999999999999999"}[vsym.Pick(6)]
	pos := vsym.Pick(len(big))
	big = big[:pos] + vsym.StrIn(1, digits) + big[pos+1:]
	status := vsym.Bool()
	src := "webrpc = v1\nerror " + big + " E \"m\"\n"
	if status {
		src = "webrpc = v1\nerror 1 E \"m\" HTTP " + big + "\n"
	}
	s, err := memfs.Parse(src)
	if err != nil {
		vsym.Reach("rejected")
		return
	}
	vsym.Assert(!status, "a status out of range is accepted")
	n := 0
	for i := range len(big) {
		n = n*10 + int(big[i]-'0')
		if n > 1<<40 {
			break
		}
	}
	vsym.Assert(len(s.Errors) == 1 && s.Errors[0].Code == n, "another code than the one written")
	vsym.Reach("accepted")
}

func args(name string, n int, deep bool) (r []rdl.Arg) {
	for i := range n {
		a := rdl.Arg{Name: name + strconv.Itoa(i), Type: types[i%5]}
		if deep {
			a.Type, a.Opt = types[vsym.Pick(len(types))], vsym.Bool()
		}
		r = append(r, a)
	}
	return
}

func errs() []rdl.Decl {
	return []rdl.Decl{{Kind: "error", Name: "Ea", CodeInt: 1, Msg: "a"}, {Kind: "error", Name: "Eb", CodeInt: 2, Msg: "b"}, {Kind: "error", Name: "Ec", CodeInt: 3, Msg: "c"}}
}

func service(ms ...rdl.Method) *rdl.Doc {
	d := with(errs()...)
	d.Decls = append(d.Decls, rdl.Decl{Kind: "service", Name: "Sv", Methods: ms})
	return d
}

var errNames = []string{"Ea", "Eb", "Ec"}

func method(name string) rdl.Method {
	m := rdl.Method{Name: name, StreamIn: vsym.Bool(), HasOut: vsym.Bool()}
	m.In = args("i", vsym.Pick(3), false)
	if m.HasOut {
		m.StreamOut = vsym.Bool()
		m.Out = args("o", vsym.Pick(3), false)
	}
	for range vsym.Pick(3) {
		m.Errs = append(m.Errs, errNames[vsym.Pick(3)])
	}
	return m
}

// VH_Method: the forms of one method, next to a plain one.
func VH_Method() {
	m := method("M")
	o := rdl.Method{Name: "O", In: []rdl.Arg{{Name: "x", Type: "int"}}}
	if vsym.Bool() {
		check(service(m, o))
	} else {
		check(service(o, m))
	}
}

// VH_Args: types and flags of arguments.
func VH_Args() {
	m := rdl.Method{Name: "M", HasOut: true}
	if vsym.Bool() {
		m.In = args("a", 1+vsym.Pick(1+vsym.Tier()), true)
		m.Out = args("b", 1, false)
	} else {
		m.In = args("a", vsym.Pick(2), false)
		m.Out = args("b", 2, true)
	}
	check(service(m))
}

// VH_ManyArgs: many arguments, one of them optional.
func VH_ManyArgs() {
	m := rdl.Method{Name: "M", HasOut: true, In: args("a", vsym.Pick(7), false), Out: args("b", vsym.Pick(7), false)}
	if n := len(m.In); n > 0 {
		m.In[vsym.Pick(n)].Opt = true
	}
	if n := len(m.Out); n > 0 {
		m.Out[vsym.Pick(n)].Opt = true
	}
	check(service(m))
}

// VH_Names: the names of services, methods and arguments.
func VH_Names() {
	n := vsym.StrIn(1, letters) + vsym.StrIn(vsym.Pick(2+vsym.Tier()), word)
	m := rdl.Method{Name: "M", HasOut: true, In: []rdl.Arg{{Name: "a", Type: "int"}, {Name: "b", Type: "int"}}, Out: []rdl.Arg{{Name: "c", Type: "T"}}}
	d := service(m)
	sv := &d.Decls[len(d.Decls)-1]
	switch vsym.Pick(6) {
	case 0:
		sv.Name = n
	case 1:
		sv.Methods[0].Name = n
	case 2:
		sv.Methods[0].In[0].Name = n
		vsym.Assume(n != "b")
	case 3:
		sv.Methods[0].Out[0].Name = n
	case 4:
		sv.Methods[0].Anns = []rdl.Ann{{Key: n}, {Key: "zz9", Val: n, Form: 1}}
	case 5:
		sv.Methods[0].Errs = []string{"Eb"}
		d.Decls[len(world)+1].Name = "Eb" + n
		sv.Methods[0].Errs[0] = "Eb" + n
	}
	check(d)
}

func name(l string) bool {
	if l == "" || len(l) > 24 {
		return false
	}
	for i := range len(l) {
		c := l[i]
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || i > 0 && (c >= '0' && c <= '9' || c == '_')) {
			return false
		}
	}
	return true
}

// VH_Lits: names and values the code mentions.
func VH_Lits() {
	l := vsym.Lit()
	vsym.Assume(name(l))
	f := rdl.Field{Name: "f", Type: "int"}
	m := rdl.Method{Name: "M", HasOut: true, In: []rdl.Arg{{Name: "a", Type: "int"}}, Out: []rdl.Arg{{Name: "b", Type: "int"}}}
	e := rdl.Decl{Kind: "error", Name: "Er", CodeInt: 1, Msg: "m"}
	en := rdl.Decl{Kind: "enum", Name: "En", Type: "string", Values: []rdl.Value{{Name: "x"}}}
	sv, st := "Sv", "St"
	switch vsym.Pick(14) {
	case 0:
		f.Name = l
	case 1:
		m.StreamIn = vsym.Bool()
		vsym.Assume(m.StreamIn || l != "stream" && l != "proxy")
		m.Name = l
	case 2:
		m.In[0].Name, m.In[0].Opt, m.StreamIn = l, vsym.Bool(), vsym.Bool()
	case 3:
		m.Out[0].Name, m.Out[0].Opt, m.StreamOut = l, vsym.Bool(), vsym.Bool()
	case 4:
		vsym.Assume(l[0] >= 'A' && l[0] <= 'Z')
		e.Name = l
		m.Errs = []string{l}
	case 5:
		e.Msg = l
	case 6:
		e.Msg, e.MsgQuote = l, true
	case 7:
		en.Values[0].Name = l
	case 8:
		en.Values[0].Val, en.Values[0].Has = l, true
	case 9:
		sv = l
	case 10:
		vsym.Assume(l[0] >= 'A' && l[0] <= 'Z')
		st = l
	case 11:
		m.Anns = []rdl.Ann{{Key: l, Val: l, Form: 1}}
	case 12:
		f.Meta = []rdl.Meta{{Key: l, Val: l}}
	case 13:
		f.Meta = []rdl.Meta{{Key: "go." + l, Val: l, Quote: true}}
	}
	check(doc(rdl.Decl{Kind: "struct", Name: st, Fields: []rdl.Field{f, {Name: "zz9", Type: "int"}}}, en, e, rdl.Decl{Kind: "service", Name: sv, Methods: []rdl.Method{m}}))
}

// VH_Succinct: methods in succinct form among others.
func VH_Succinct() {
	rq := "Rq" + vsym.StrIn(vsym.Pick(2), word)
	rs := vsym.StrIn(1, upper) + "s"
	vsym.Assume(rs != rq && rs != "Sv")
	m := rdl.Method{Name: "M", Succinct: true, HasOut: true, In: []rdl.Arg{{Type: rq}}, Out: []rdl.Arg{{Type: rs}},
		StreamIn: vsym.Bool(), StreamOut: vsym.Bool()}
	if vsym.Bool() {
		m.Out[0].Type = rq
	}
	for i := range vsym.Pick(3) {
		m.Errs = append(m.Errs, errNames[i])
	}
	d := service()
	d.Decls = append([]rdl.Decl{{Kind: "struct", Name: rq}, {Kind: "struct", Name: rs}}, d.Decls...)
	sv := &d.Decls[len(d.Decls)-1]
	sv.Methods = append(sv.Methods, m)
	switch vsym.Pick(4) {
	case 1:
		sv.Methods = append(sv.Methods, rdl.Method{Name: "O"})
	case 2:
		sv.Methods = append(sv.Methods, rdl.Method{Name: "O", Anns: []rdl.Ann{{Key: "a"}}})
	case 3:
		m.Name = "N"
		sv.Methods = append(sv.Methods, m)
	}
	check(d)
}

// VH_HalfSuccinct: the succinct form of one side only, or of what is no
// struct, is rejected.
func VH_HalfSuccinct() {
	side := []string{"(T) => (a: int)", "(a: int) => (T)", "(T)", "(T) => ()", "() => (T)", "(E) => (T)", "(T) => (A)", "(Zz) => (T)", "(int) => (T)"}[vsym.Pick(9)]
	d := service(rdl.Method{Name: "M"})
	t := d.Text(rdl.Plain)
	s, err := memfs.Parse(t[:len(t)-4] + side + "\n")
	vsym.Assert(s == nil && err != nil, "succinct form on one side, or not of a struct, is accepted")
}

// VH_Anns: annotations stay with their method.
func VH_Anns() {
	ms := []rdl.Method{}
	for i := range 2 + vsym.Tier() {
		m := rdl.Method{Name: "M" + strconv.Itoa(i)}
		for k := range vsym.Pick(4) {
			a := rdl.Ann{Key: "k" + strconv.Itoa(k), Form: vsym.Pick(3), SameLine: vsym.Bool()}
			if a.Form > 0 {
				a.Val = "v" + strconv.Itoa(i)
				if a.Form == 2 {
					a.Val = "a " + a.Val
				}
			}
			m.Anns = append(m.Anns, a)
		}
		if len(m.Anns) > 0 {
			m.Anns[0].SameLine = false
		}
		ms = append(ms, m)
	}
	check(service(ms...))
}

// VH_AnnTwice: an annotation given twice to a method is rejected.
func VH_AnnTwice() {
	m := rdl.Method{Name: "M", Anns: []rdl.Ann{{Key: "a", Form: vsym.Pick(2), Val: "x"}}}
	if vsym.Bool() {
		m.Anns = append(m.Anns, rdl.Ann{Key: "b", SameLine: vsym.Bool()})
	}
	m.Anns = append(m.Anns, rdl.Ann{Key: "a", Form: vsym.Pick(3), Val: "y", SameLine: vsym.Bool()})
	reject(service(m), "an annotation given twice is accepted")
}

// VH_Proxy: proxied methods have a name only.
func VH_Proxy() {
	m := rdl.Method{Name: vsym.StrIn(1, letters) + "p", Proxy: true}
	o := rdl.Method{Name: "O1", In: args("a", 1, false)}
	if vsym.Bool() {
		check(service(m, o))
	} else {
		check(service(o, m))
	}
}

// VH_Order: declarations of every kind in any order.
func VH_Order() {
	all := []rdl.Decl{
		{Kind: "struct", Name: "S1", Fields: []rdl.Field{{Name: "f", Type: "[]A1"}, {Name: "g", Type: "E1", Opt: true, Meta: []rdl.Meta{{Key: "k", Val: "v"}}}}},
		{Kind: "enum", Name: "E1", Type: "uint8", Values: []rdl.Value{{Name: "x", Val: "7", Has: true}, {Name: "y"}}},
		{Kind: "alias", Name: "A1", Type: "map<E1,S1>", Meta: []rdl.Meta{{Key: "k", Val: "v"}}},
		{Kind: "error", Name: "R1", CodeInt: 1, Msg: "one", Status: 500},
		{Kind: "service", Name: "V1", Methods: []rdl.Method{{Name: "M", In: []rdl.Arg{{Name: "a", Type: "A1"}}, Errs: []string{"R1", "R2"}}}},
		{Kind: "struct", Name: "S2"},
		{Kind: "error", Name: "R2", CodeInt: 2, Msg: "two"},
		{Kind: "service", Name: "V2", Methods: []rdl.Method{{Name: "M", Succinct: true, HasOut: true, In: []rdl.Arg{{Type: "S1"}}, Out: []rdl.Arg{{Type: "S2"}}}}},
		{Kind: "alias", Name: "A2", Type: "A1"},
		{Kind: "enum", Name: "E2", Type: "string", Values: []rdl.Value{{Name: "x"}}},
	}
	d := &rdl.Doc{Defs: std}
	left := all
	if vsym.Tier() == 0 {
		// the rest in this order or backwards, three moved anywhere
		back := vsym.Bool()
		for range 2 {
			i := vsym.Pick(len(left))
			d.Decls = append(d.Decls, left[i])
			left = append(append([]rdl.Decl{}, left[:i]...), left[i+1:]...)
		}
		at := vsym.Pick(3)
		for i := range left {
			x := left[i]
			if back {
				x = left[len(left)-1-i]
			}
			if at == 0 {
				d.Decls = append([]rdl.Decl{x}, d.Decls...)
			} else {
				d.Decls = append(d.Decls, x)
			}
		}
	} else {
		for len(left) > 5 {
			i := vsym.Pick(len(left))
			d.Decls = append(d.Decls, left[i])
			left = append(append([]rdl.Decl{}, left[:i]...), left[i+1:]...)
		}
		d.Decls = append(d.Decls, left...)
	}
	check(d)
}

// VH_Wide: many of one thing, next to a few of every other.
func VH_Wide() {
	big := vsym.Pick(13)
	n := 5 + 3*vsym.Pick(2+vsym.Tier())
	num := func(k int) int {
		if k == big {
			return n
		}
		return 2
	}
	x := vsym.StrIn(1, word)
	id := func(p string, i int) string { return p + strconv.Itoa(i) + x }
	d := &rdl.Doc{Defs: std}
	var aliases, enums, structs, errors, services []rdl.Decl
	for i := range num(0) {
		a := rdl.Decl{Kind: "alias", Name: id("A", i), Type: "string"}
		for k := range num(1) {
			a.Meta = append(a.Meta, rdl.Meta{Key: id("k", k), Val: id("v", k)})
		}
		aliases = append(aliases, a)
	}
	for i := range num(2) {
		e := rdl.Decl{Kind: "enum", Name: id("E", i), Type: "uint16"}
		for k := range num(3) {
			e.Values = append(e.Values, rdl.Value{Name: id("m", k), Has: k == 1, Val: []string{"", "40"}[min(k, 2)%2]})
		}
		enums = append(enums, e)
	}
	for i := range num(4) {
		s := rdl.Decl{Kind: "struct", Name: id("S", i)}
		for k := range num(5) {
			f := rdl.Field{Name: id("f", k), Opt: k%3 == 1, Type: []string{"map<" + enums[(i+k)%len(enums)].Name + ",[]" + id("S", (i+k)%num(4)) + ">", "int", aliases[(i+k)%len(aliases)].Name}[k%3]}
			for j := range num(6) {
				f.Meta = append(f.Meta, rdl.Meta{Key: id("k", j), Val: id("v", i+k+j), Quote: j%2 == 0})
			}
			s.Fields = append(s.Fields, f)
		}
		structs = append(structs, s)
	}
	for i := range num(7) {
		errors = append(errors, rdl.Decl{Kind: "error", Name: id("R", i), CodeInt: 100 - i, Msg: "text " + x, MsgQuote: true, Status: 400 + i})
	}
	for i := range num(8) {
		v := rdl.Decl{Kind: "service", Name: id("V", i)}
		for k := range num(9) {
			m := rdl.Method{Name: id("M", k), HasOut: true, StreamIn: k%4 == 1, StreamOut: k%4 == 2}
			if k%4 == 3 {
				m.Succinct = true
				m.In, m.Out = []rdl.Arg{{Type: structs[k%len(structs)].Name}}, []rdl.Arg{{Type: structs[i%len(structs)].Name}}
			} else {
				for j := range num(10) {
					m.In = append(m.In, rdl.Arg{Name: id("a", j), Opt: j%3 == 2, Type: structs[(j+k)%len(structs)].Name})
					m.Out = append(m.Out, rdl.Arg{Name: id("b", j), Opt: j%3 == 1, Type: "[]" + enums[(i+j)%len(enums)].Name})
				}
			}
			for j := range num(11) {
				m.Errs = append(m.Errs, errors[(j+k)%len(errors)].Name)
			}
			for j := range num(12) {
				a := rdl.Ann{Key: id("t", j), Form: j % 3, SameLine: j%4 == 3}
				if a.Form > 0 {
					a.Val = id("w", i+k+j)
				}
				m.Anns = append(m.Anns, a)
			}
			v.Methods = append(v.Methods, m)
		}
		services = append(services, v)
	}
	all := [][]rdl.Decl{aliases, enums, structs, errors, services}
	if vsym.Bool() {
		all = [][]rdl.Decl{services, errors, structs, enums, aliases}
	}
	for _, l := range all {
		d.Decls = append(d.Decls, l...)
	}
	check(d)
}
