// Package c23 checks the entry point that reads schema files.
package c23

import (
	"path"
	"strings"

	"github.com/webrpc/webrpc"
	"github.com/webrpc/webrpc/internal/vh/memfs"
	"github.com/webrpc/webrpc/internal/vh/rdl"
	"github.com/webrpc/webrpc/internal/vh/sch"
	"github.com/webrpc/webrpc/internal/vos"
	"github.com/webrpc/webrpc/internal/vsym"
	"github.com/webrpc/webrpc/schema"
)

const (
	ridl = "webrpc = v1\nname = fromridl\nversion = v1\nstruct A\n  - f: string\n"
	json = `{"webrpc":"v1","name":"fromjson","version":"v1","types":[],"errors":[],"services":[]}`
)

// VH_Ext: the extension decides the format.
func VH_Ext() {
	vos.Reset()
	stem := []string{"a", "a.json", "a.ridl", "", ".", "a."}[vsym.Pick(6)] + vsym.StrIn(vsym.Pick(3), "ab.")
	var ext string
	switch vsym.Pick(5) {
	case 4:
		// one character behind the extension, or in it
		ext = []string{".ridl", ".json", ".rid", ".jso"}[vsym.Pick(4)] + vsym.Str(1)
		c := ext[len(ext)-1]
		vsym.Assume(vsym.And(c != 0, c != '/', c < 128))
	case 0:
		ext = ".json"
	case 1:
		ext = ".ridl"
	case 2:
		ext = "." + vsym.StrIn(4, "jsonridlJ")
	case 3:
		ext = []string{"", ".", ".jso", ".jsonn", ".rid", ".ridl2", ".RIDL", ".Json", ".ridl ", "ridl", "json", ".yaml"}[vsym.Pick(12)]
	}
	name := stem + ext
	vsym.Assume(name != "" && name != "." && name != "..")
	dir := []string{"/", "/x.json/", "/x.ridl/"}[vsym.Pick(3)]
	content := vsym.Pick(3)
	vos.Put(dir+name, []string{ridl, json, "]"}[content])
	s, err := webrpc.ParseSchemaFile(dir + name)
	vsym.Reach("read")
	isRIDL, isJSON := strings.HasSuffix(name, ".ridl"), strings.HasSuffix(name, ".json")
	switch {
	case isRIDL && content == 0:
		vsym.Reach("ridl")
		vsym.Assert(err == nil && s.SchemaName == "fromridl", "a .ridl file is read as RIDL")
	case isJSON && content == 1:
		vsym.Reach("json")
		vsym.Assert(err == nil && s.SchemaName == "fromjson", "a .json file is read as JSON")
	default:
		vsym.Reach("rejected")
		vsym.Assert(err != nil, "any other file is rejected")
	}
}

// VH_Missing: what cannot be read is an error.
func VH_Missing() {
	vos.Reset()
	ext := []string{".ridl", ".json"}[vsym.Pick(2)]
	switch vsym.Pick(4) {
	case 0:
		_, err := webrpc.ParseSchemaFile("/none" + ext)
		vsym.Reach("none")
		vsym.Assert(err != nil, "a missing file is an error")
	case 1:
		vos.Put("/dir"+ext+"/x", "")
		_, err := webrpc.ParseSchemaFile("/dir" + ext)
		vsym.Reach("directory")
		vsym.Assert(err != nil, "a directory is an error")
	case 2:
		vos.Put("/work/empty"+ext, "")
		s, err := webrpc.ParseSchemaFile("empty" + ext)
		vsym.Reach("empty")
		vsym.Assert(err != nil || s != nil, "an empty file is a schema or an error")
	case 3:
		_, err := webrpc.ParseSchemaFile("")
		vsym.Assert(err != nil, "no name is an error")
		_, err = webrpc.ParseSchemaFile("/")
		vsym.Assert(err != nil, "the root is an error")
		vsym.Reach("no name")
	}
}

// VH_Direct: a file reads as its text does, whatever parts the schema has.
func VH_Direct() {
	vos.Reset()
	format := vsym.Pick(2)
	var have [7]bool
	for i := range have {
		have[i] = vsym.Pick(2) == 1
	}
	x := vsym.StrIn(1, "aA1.-")
	pick := func(i int, ridl, json string) string {
		switch {
		case !have[i]:
			return ""
		case format == 0:
			return ridl + "\n"
		}
		return json
	}
	parts := []string{
		pick(0, "webrpc = v1", `"webrpc":"v1"`),
		pick(1, "name = n"+x, `"name":"n`+x+`"`),
		pick(2, "version = v"+x, `"version":"v`+x+`"`),
		pick(3, "basepath = /b"+x, `"basepath":"/b`+x+`"`),
		pick(4, "error 1 E \"m"+x+"\"", `"errors":[{"code":1,"name":"E","message":"m`+x+`","httpStatus":400}]`),
		pick(5, "struct T\n  - f: int", `"types":[{"kind":"struct","name":"T","fields":[{"name":"f","type":"int"}]}]`),
		pick(6, "service S\n  - M()", `"services":[{"name":"S","methods":[{"name":"M"}]}]`),
	}
	var src string
	var direct, got *schema.WebRPCSchema
	var derr, err error
	if format == 0 {
		src = strings.Join(parts, "")
		vos.Put("/d/file.ridl", src)
		got, err = webrpc.ParseSchemaFile("/d/file.ridl")
		direct, derr = memfs.Parse(src)
	} else {
		used := []string{}
		for _, p := range parts {
			if p != "" {
				used = append(used, p)
			}
		}
		src = "{" + strings.Join(used, ",") + "}"
		vos.Put("/d/file.json", src)
		got, err = webrpc.ParseSchemaFile("/d/file.json")
		direct, derr = schema.ParseSchemaJSON([]byte(src))
	}
	vsym.Assert((err == nil) == (derr == nil), "a file is accepted as its text is")
	if err == nil {
		vsym.Reach("read")
		vsym.Assert(got != nil && sch.Same(got, direct), "a file reads as its text does")
		name := ""
		if have[1] {
			name = "n" + x
		}
		vsym.Assert(got.SchemaName == name, "the name is the one that is written")
	} else {
		vsym.Reach("rejected")
	}
}

// VH_Path: absolute and relative paths to one file read the same, imports
// included.
func VH_Path() {
	vos.Reset()
	format := vsym.Pick(2)
	ext := []string{".ridl", ".json"}[format]
	name := vsym.Str(1 + vsym.Pick(2))
	for i := 0; i < len(name); i++ {
		vsym.Assume(vsym.And(name[i] < 128, name[i] != '/', name[i] != 0))
	}
	vsym.Assume(name != "..")
	dir := []string{"/", "/p", "/p/q", "/p/q/r"}[vsym.Pick(4)]
	file := path.Join(dir, name+ext)
	src := json
	up := []string{"", "c.ridl", "../c.ridl", "./d/c.ridl", "../../c.ridl", "../d/../c.ridl"}[vsym.Pick(6)]
	if format == 0 {
		src = ridl
		if up != "" {
			src = "webrpc = v1\nname = fromridl\nversion = v1\nimport\n  - " + up + "\nstruct A\n  - f: C\n"
			c := path.Join(dir, up)
			vsym.Assume(c != file)
			vsym.Assume(strings.Count(dir, "/") > strings.Count(up, "../") || !strings.Contains(up, "../") || dir != "/" && strings.Count(up, "../") == 1)
			vos.Put(c, "webrpc = v1\nname = c\nversion = v1\nstruct C\n  - f: string\n")
		}
	} else {
		vsym.Assume(up == "")
	}
	vos.Put(file, src)
	vos.Cwd = []string{"/", "/p", "/p/q", "/other/x"}[vsym.Pick(4)]
	rel := relative(vos.Cwd, dir)
	var p string
	switch vsym.Pick(5) {
	case 0:
		p = rel + name + ext
	case 1:
		p = "./" + rel + name + ext
	case 2:
		p = dir + "/../" + path.Base(dir) + "/" + name + ext
		if dir == "/" {
			p = "/../" + name + ext
		}
	case 3:
		p = dir + "//./" + name + ext
	case 4:
		p = "x/../" + rel + name + ext
	}
	want, err := webrpc.ParseSchemaFile(file)
	vsym.Assert(err == nil && want != nil, "a file with an absolute path is read")
	if up != "" {
		vsym.Reach("imported")
		vsym.Assert(len(want.Types) == 2, "imports are relative to the file")
	}
	got, err := webrpc.ParseSchemaFile(p)
	vsym.Reach("read")
	vsym.Assert(err == nil && got != nil && sch.Same(want, got), "the schema does not depend on how the path is written")
}

// relative is the path from a directory to another, with a slash at the end.
func relative(from, to string) string {
	var up string
	for to != from && !strings.HasPrefix(to, strings.TrimSuffix(from, "/")+"/") {
		from, up = path.Dir(from), up+"../"
	}
	rest := strings.Trim(to[len(strings.TrimSuffix(from, "/")):], "/")
	if rest != "" {
		rest += "/"
	}
	return up + rest
}

func word() string { return vsym.StrIn(1+vsym.Pick(2), "aZ9_") }

func text() (string, bool) {
	if vsym.Bool() {
		return "x" + vsym.StrIn(1, "yz"), false
	}
	t := vsym.Str(1 + vsym.Tier())
	for i := 0; i < len(t); i++ {
		vsym.Assume(vsym.And(t[i] >= ' ', t[i] < 127, t[i] != '"', t[i] != '\\'))
	}
	return t, true
}

var types = []string{"string", "int64", "bool", "bigint", "timestamp", "[]string", "map<string,A>", "A", "[]A", "map<int32,[]A>", "any", "byte"}

// Schemas read from RIDL are the same after export to JSON.

func VH_Enum()        { export(0) }
func VH_Struct()      { export(1) }
func VH_Alias()       { export(2) }
func VH_Error()       { export(3) }
func VH_Method()      { export(4) }
func VH_Annotations() { export(5) }

func export(which int) {
	vos.Reset()
	d := &rdl.Doc{Defs: []rdl.Def{{Key: "webrpc", Val: "v1"}, {Key: "name", Val: "n" + vsym.StrIn(1, "aZ9-")}, {Key: "version", Val: "v1"}}}
	if which == 2 && vsym.Bool() {
		d.Defs = append(d.Defs, rdl.Def{Key: "basepath", Val: []string{"/x", "x/", "/x/y/"}[vsym.Pick(3)]})
	}
	a := rdl.Decl{Kind: "struct", Name: "A", Fields: []rdl.Field{{Name: "f", Type: "string"}}}
	d.Decls = append(d.Decls, a)
	switch which {
	case 0:
		e := rdl.Decl{Kind: "enum", Name: "E", Type: []string{"", "uint8", "int64", "string"}[vsym.Pick(4)]}
		for i := range 1 + vsym.Pick(3) {
			v := rdl.Value{Name: "V" + string(rune('a'+i))}
			if vsym.Bool() {
				v.Has, v.Val = true, vsym.StrIn(1, "123456789")
			}
			e.Values = append(e.Values, v)
		}
		if e.Type == "" {
			e.Type = "uint32"
		}
		d.Decls = append(d.Decls, e)
	case 1:
		f := rdl.Field{Name: "x", Opt: vsym.Bool()}
		n := vsym.Pick(3)
		if n == 0 {
			f.Name, f.Type = f.Name+word(), types[vsym.Pick(len(types))]
		} else {
			f.Type = "string"
			for i := range n {
				txt, q := "second", vsym.Bool()
				if i == 0 {
					txt, q = text()
				}
				m := rdl.Meta{Key: []string{"go.field.name", "go.tag.db", "x"}[i+vsym.Pick(2)], Val: txt, Quote: q}
				if i == 0 && vsym.Bool() {
					m = rdl.Meta{Key: "json", Val: "j" + vsym.StrIn(1, "aZ9_")}
				}
				f.Meta = append(f.Meta, m)
			}
		}
		d.Decls = append(d.Decls, rdl.Decl{Kind: "struct", Name: "B" + word(), Fields: []rdl.Field{{Name: "a", Type: "int"}, f}})
	case 2:
		d.Decls = append(d.Decls, rdl.Decl{Kind: "alias", Name: "L" + word(), Type: []string{"string", "int32", "bool", "timestamp", "any"}[vsym.Pick(5)]})
	case 3:
		t, q := text()
		e := rdl.Decl{Kind: "error", Name: "X" + word(), CodeInt: 1 + vsym.Pick(9), Msg: t, MsgQuote: q}
		if vsym.Bool() {
			e.Status = []int{400, 404, 500, 599}[vsym.Pick(4)]
		}
		d.Decls = append(d.Decls, e)
	case 4:
		d.Decls = append(d.Decls, rdl.Decl{Kind: "error", Name: "Ea", CodeInt: 1, Msg: "a", MsgQuote: true})
		m := rdl.Method{Name: "M" + word(), StreamIn: vsym.Bool(), HasOut: vsym.Bool()}
		arg := func(n string) rdl.Arg {
			return rdl.Arg{Name: n, Type: types[vsym.Pick(len(types))], Opt: vsym.Bool()}
		}
		for i := range vsym.Pick(2) {
			m.In = append(m.In, arg("i"+string(rune('a'+i))))
		}
		if m.HasOut {
			m.StreamOut = vsym.Bool()
			if len(m.In) > 0 {
				m.Out = append(m.Out, rdl.Arg{Name: "oa", Type: "A", Opt: m.In[0].Opt})
			} else {
				m.Out = append(m.Out, arg("o"))
			}
		}
		if vsym.Bool() {
			m.Errs = []string{"Ea"}
		}
		d.Decls = append(d.Decls, rdl.Decl{Kind: "service", Name: "S", Methods: []rdl.Method{m, {Name: "O"}}})
	case 5:
		m := rdl.Method{Name: "M"}
		for i := range 1 + vsym.Pick(2) {
			x := rdl.Ann{Key: string(rune('k'+i)) + word(), Form: vsym.Pick(3)}
			if x.Form > 0 {
				x.Val = "v" + vsym.StrIn(1, "ab")
			}
			m.Anns = append(m.Anns, x)
		}
		m.Succinct = vsym.Bool()
		if m.Succinct {
			m.In, m.Out, m.HasOut = []rdl.Arg{{Type: "A"}}, []rdl.Arg{{Type: "A"}}, true
		}
		d.Decls = append(d.Decls, rdl.Decl{Kind: "service", Name: "S", Methods: []rdl.Method{m, {Name: "O"}}})
	}
	src := d.Text(rdl.Plain)
	if which < 3 && vsym.Bool() {
		src = "# first\n" + strings.Replace(src, "struct", "# doc of A\n# more\nstruct", 1)
	}
	vos.Put("/s/a.ridl", src)
	s, err := webrpc.ParseSchemaFile("/s/a.ridl")
	if err != nil {
		vsym.Assume(false)
	}
	out, err := s.ToJSON()
	vsym.Assert(err == nil, "a schema is exported")
	vos.Put("/s/a.json", out)
	again, err := webrpc.ParseSchemaFile("/s/a.json")
	vsym.Reach("exported")
	if err != nil {
		vsym.Fail("the export of a schema is rejected")
	}
	vsym.Assert(sch.Same(s, again), "the export of a schema means the same")
	h1, err1 := s.SchemaHash()
	h2, err2 := again.SchemaHash()
	vsym.Assert(err1 == nil && err2 == nil && h1 == h2, "the export of a schema has the same hash")
}
