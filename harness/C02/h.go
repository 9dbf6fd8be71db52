// Package c02 checks that the layout of a RIDL document has no meaning.
package c02

import (
	"github.com/webrpc/webrpc/internal/vh/memfs"
	"github.com/webrpc/webrpc/internal/vh/rdl"
	"github.com/webrpc/webrpc/internal/vsym"
	"github.com/webrpc/webrpc/schema/ridl"
)

const blank = " \t\r"

var (
	arg  = rdl.Arg{Name: "a", Type: "[]T"}
	arg2 = rdl.Arg{Name: "b", Type: "map<string,map<E,[]T>>", Opt: true}
	defs = []rdl.Def{{Key: "webrpc", Val: "v1"}, {Key: "name", Val: "a/b"}, {Key: "version", Val: "v1 x", Quote: true}, {Key: "basepath", Val: "/b/"}}
)

// parts of a document with every production.
func types() []rdl.Decl {
	return []rdl.Decl{
		{Kind: "struct", Name: "T", Fields: []rdl.Field{
			{Name: "f", Type: "map<string,[]map<int,A>>", Meta: []rdl.Meta{{Key: "json", Val: "ff"}, {Key: "go.tag", Val: "x y", Quote: true}}},
			{Name: "g", Type: "E", Opt: true},
			{Name: "h", Type: "[][]string", Opt: true, Meta: []rdl.Meta{{Key: "k", Val: "v-1,o"}}}}},
		{Kind: "enum", Name: "E", Type: "uint8", Values: []rdl.Value{{Name: "x", Val: "7", Has: true}, {Name: "y"}, {Name: "z", Val: "8", Has: true, Quote: true}}},
		{Kind: "alias", Name: "A", Type: "map<E,T>", Meta: []rdl.Meta{{Key: "k", Val: "v"}}},
		{Kind: "alias", Name: "B", Type: "[]string"},
		{Kind: "struct", Name: "U"},
	}
}

func rest() []rdl.Decl {
	return []rdl.Decl{
		{Kind: "error", Name: "Ea", CodeInt: 1, Msg: "msg"},
		{Kind: "error", Name: "Eb", CodeInt: 2, Msg: "a msg", MsgQuote: true, Status: 500},
		{Kind: "service", Name: "S", Methods: []rdl.Method{
			{Name: "M1"},
			{Name: "M2", StreamIn: true, StreamOut: true, HasOut: true, In: []rdl.Arg{arg, arg2}, Out: []rdl.Arg{arg2, arg}, Errs: []string{"Ea", "Eb"},
				Anns: []rdl.Ann{{Key: "k"}, {Key: "l", Form: 1, Val: "w", SameLine: true}, {Key: "m", Form: 2, Val: "a w", SameLine: true}, {Key: "n"}}},
			{Name: "M3", Succinct: true, HasOut: true, In: []rdl.Arg{{Type: "T"}}, Out: []rdl.Arg{{Type: "U"}}, Errs: []string{"Eb"}},
			{Name: "M4", Succinct: true, HasOut: true, In: []rdl.Arg{{Type: "T"}}, Out: []rdl.Arg{{Type: "U"}}, StreamOut: true, Anns: []rdl.Ann{{Key: "l", Form: 2, Val: "x"}}},
			{Name: "M5", Proxy: true},
			{Name: "M6", HasOut: true, In: []rdl.Arg{arg}},
			{Name: "M7", In: []rdl.Arg{arg}, Errs: []string{"Ea"}, Anns: []rdl.Ann{{Key: "l", Form: 1, Val: "x"}}}}},
	}
}

func docs() *rdl.Doc {
	switch vsym.Pick(2) {
	case 0:
		return &rdl.Doc{Defs: defs, Decls: types()}
	}
	return &rdl.Doc{Defs: defs[:3], Decls: append([]rdl.Decl{{Kind: "struct", Name: "T"}, {Kind: "struct", Name: "U"}, {Kind: "enum", Name: "E", Type: "string", Values: []rdl.Value{{Name: "x"}}}}, rest()...)}
}

func check(d *rdl.Doc, src string) {
	s, err := memfs.Parse(src)
	if err != nil {
		vsym.Fail("rejected: " + err.Error())
	}
	d.Check(s)
	vsym.Reach("accepted")
}

func count(d *rdl.Doc) (n int) {
	d.Text(func(kind int, def string) string { n++; return def })
	return
}

// alt chooses another text for a slot.
func alt(kind int) string {
	switch kind {
	case rdl.Opt:
		return vsym.StrIn(vsym.Pick(3), blank)
	case rdl.Req:
		return vsym.StrIn(1+vsym.Pick(2), blank)
	case rdl.Indent:
		return vsym.StrIn(vsym.Pick(3), blank)
	}
	switch vsym.Pick(7) {
	case 0:
		return "\r\n"
	case 1:
		return vsym.StrIn(1, blank) + "\n"
	case 2:
		return "\n" + vsym.StrIn(1, blank+"\n") + "\n"
	case 3:
		return " #\n"
	case 4:
		return vsym.StrIn(1, blank) + "# a" + text(1) + "\n"
	case 5:
		return "\n  #" + text(1) + "\n"
	}
	return " # b\n\n# c" + text(1) + "\n\n"
}

const printable = " !\"#$%&'()*+,-./0159:;<=>?@AMZ[\\]^_`aemz{|}~\t"

func text(n int) string { return vsym.StrIn(n, printable) }

// VH_One: any single slot with any other text.
func VH_One() {
	d := docs()
	at, i := vsym.Pick(count(d)), 0
	check(d, d.Text(func(kind int, def string) string {
		i++
		if i-1 == at {
			return alt(kind)
		}
		return def
	}))
}

// VH_Two: two neighbouring slots with any other text.
func VH_Two() {
	d := docs()
	at, i := vsym.Pick(count(d)-1), 0
	check(d, d.Text(func(kind int, def string) string {
		i++
		if i-1 == at || i-2 == at {
			return alt(kind)
		}
		return def
	}))
}

// VH_All: every slot of a kind with the same text.
func VH_All() {
	d := docs()
	var t [4]string
	for k := range t {
		t[k] = alt(k)
	}
	src := d.Text(func(kind int, def string) string { return t[kind] })
	if vsym.Bool() {
		for len(src) > 0 && (src[len(src)-1] == '\n' || src[len(src)-1] == ' ') {
			src = src[:len(src)-1]
		}
	}
	check(d, src)
}

// VH_End: every declaration at the end of the file, with or without a final
// newline, blank or comment.
func VH_End() {
	all := append(types(), rest()...)
	d := &rdl.Doc{Defs: defs[:3]}
	i := vsym.Pick(len(all))
	last := all[i]
	for _, x := range append([]rdl.Decl{{Kind: "struct", Name: "T"}, {Kind: "struct", Name: "U"}, {Kind: "enum", Name: "E", Type: "string", Values: []rdl.Value{{Name: "x"}}}, {Kind: "alias", Name: "A", Type: "T"}}, rest()[:2]...) {
		if x.Name != last.Name {
			d.Decls = append(d.Decls, x)
		}
	}
	if n := len(last.Methods); n > 0 {
		last.Methods = last.Methods[:1+vsym.Pick(n)]
	}
	if n := len(last.Fields); n > 0 {
		last.Fields = last.Fields[:1+vsym.Pick(n)]
		f := &last.Fields[len(last.Fields)-1]
		f.Meta = f.Meta[:vsym.Pick(len(f.Meta)+1)]
	}
	if n := len(last.Values); n > 0 {
		last.Values = last.Values[:1+vsym.Pick(n)]
	}
	d.Decls = append(d.Decls, last)
	src := d.Text(rdl.Plain)
	for src[len(src)-1] == '\n' {
		src = src[:len(src)-1]
	}
	switch vsym.Pick(4) {
	case 1:
		src += vsym.StrIn(1, blank)
	case 2:
		src += " #" + text(vsym.Pick(3))
	case 3:
		src += "\n" + vsym.StrIn(1, blank+"#")
	}
	check(d, src)
}

// VH_Close: a comment right behind a sign that ends a declaration or member.
func VH_Close() {
	ms := rest()[2].Methods
	d := &rdl.Doc{Defs: defs[:3], Decls: []rdl.Decl{{Kind: "struct", Name: "T"}, {Kind: "struct", Name: "U"}, {Kind: "enum", Name: "E", Type: "string", Values: []rdl.Value{{Name: "x"}}}}}
	switch vsym.Pick(4) {
	case 0:
		m := ms[[]int{0, 2, 3, 5, 6}[vsym.Pick(5)]]
		m.Errs = nil
		d.Decls = append(d.Decls, rdl.Decl{Kind: "service", Name: "S", Methods: []rdl.Method{m}})
	case 1:
		d.Decls = append(d.Decls, rdl.Decl{Kind: "error", Name: "Eb", CodeInt: 2, Msg: "a msg", MsgQuote: true})
	case 2:
		d.Decls = append(d.Decls, rdl.Decl{Kind: "enum", Name: "F", Type: "string", Values: []rdl.Value{{Name: "x", Val: "v", Has: true, Quote: true}}})
	case 3:
		d.Decls = append(d.Decls, rdl.Decl{Kind: "struct", Name: "G", Fields: []rdl.Field{{Name: "x", Type: "map<string,T>"}}})
	}
	src := d.Text(rdl.Plain)
	for src[len(src)-1] == '\n' {
		src = src[:len(src)-1]
	}
	src += "#" + text(vsym.Pick(2))
	if vsym.Bool() {
		src += "\n"
	}
	check(d, src)
}

// VH_Strip: documents without any blank that may be left out.
func VH_Strip() {
	d := docs()
	w := vsym.StrIn(1, blank)
	lines := []string{"\n", "\r\n", "\n\n"}[vsym.Pick(3)]
	check(d, d.Text(func(kind int, def string) string {
		switch kind {
		case rdl.Req:
			return w
		case rdl.End:
			return lines
		}
		return ""
	}))
}

// VH_Import: imports in any layout.
func VH_Import() {
	o := vsym.StrIn(vsym.Pick(3), blank)
	ind := vsym.StrIn(vsym.Pick(3), blank)
	e := alt(rdl.End)
	form := vsym.Pick(4)
	src := "webrpc = v1" + e + "import" + e
	if form < 2 {
		src += ind + "-" + o + "b.ridl" + e + ind + "-" + o + "\"c.ridl\"" + e
	} else {
		src = "webrpc = v1" + e + "import" + vsym.StrIn(1, blank) + "\"b.ridl\"" + e + "import " + "c.ridl" + e
	}
	if form&1 == 1 {
		src += e
	}
	src += "struct T" + e
	s, err := ridl.NewParser(memfs.FS{"a.ridl": src, "b.ridl": "webrpc = v1\nstruct B\n", "c.ridl": "webrpc = v1\nstruct C\n"}, "", "a.ridl").Parse()
	if err != nil {
		vsym.Fail("rejected: " + err.Error())
	}
	vsym.Assert(len(s.Types) == 3 && s.Types[0].Name == "B" && s.Types[1].Name == "C" && s.Types[2].Name == "T", "types of imports")
}
