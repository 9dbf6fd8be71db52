package main

import (
	"strings"

	"github.com/webrpc/webrpc"
	"github.com/webrpc/webrpc/gen"
	"github.com/webrpc/webrpc/internal/vflag"
	"github.com/webrpc/webrpc/internal/vgitfs"
	"github.com/webrpc/webrpc/internal/vh/genenv"
	"github.com/webrpc/webrpc/internal/vimports"
	"github.com/webrpc/webrpc/internal/vos"
	"github.com/webrpc/webrpc/internal/vsym"
	"github.com/webrpc/webrpc/internal/vtemplate"
	"github.com/webrpc/webrpc/schema"
)

const vhSchema = `webrpc = v1
name = n
version = v1
basepath = /x

struct A
  - f: B

struct B
  - f: string

struct C
  - f: string

struct D
  - f: string

service S
  @a
  @b:x
  - M(p: A)
  - N(p: C)

service T
  @b:y
  - O(p: C)

service U
  - P(p: D)
`

func vhWorld() {
	genenv.Reset()
	vflag.Reset()
	vos.Put("/s/a.ridl", vhSchema)
	vos.Put("/t/main.go.tmpl", "here")
	vos.Put("/gen-golang/main.go.tmpl", "code")
}

func vhRun(args ...string) (code int, crashed bool) {
	vos.Args = append([]string{"/bin/webrpc-gen"}, args...)
	defer func() {
		vos.FailAt = 0
		if p := recover(); p != nil {
			if _, ok := p.(vos.Crashed); ok {
				code, crashed = 1, true
				return
			}
			e, ok := p.(vos.Exited)
			if !ok {
				panic(p)
			}
			code = e.Code
		}
	}()
	main()
	return 0, false
}

// VH_Compose: the output is what generation makes of the selected schema.
func VH_Compose() {
	vhWorld()
	src := vhSchema
	if vsym.Bool() {
		src = strings.Replace(src, "basepath = /x\n", "", 1)
	}
	json := src != vhSchema && vsym.Bool()
	file := "/s/a.ridl"
	vos.Put(file, src)
	if json {
		s, err := webrpc.ParseSchemaFile(file)
		if err != nil {
			vsym.Fail("the schema is valid")
		}
		text, _ := s.ToJSON()
		file = "/s/a.json"
		vos.Put(file, text)
	}
	args := []string{"-schema=" + file}
	var services []string
	if n := vsym.Pick(3); n > 0 {
		for range n {
			services = append(services, vsym.StrIn(vsym.Pick(2), "STUW"))
		}
		args = append(args, "-service="+strings.Join(services, ","))
		if strings.Join(services, ",") == "" {
			services = nil
		}
	}
	shake := vsym.Bool()
	if shake {
		args = append(args, "-methodTreeShake")
	}
	filter := vsym.Pick(3)
	ann := map[string]string{}
	if filter > 0 {
		v := vsym.StrIn(vsym.Pick(2), "xyz")
		k := vsym.StrIn(1, "abc")
		ann[k] = v
		arg := []string{"-ignore=@", "-match=@"}[filter-1] + k
		if v != "" {
			arg += ":" + v
		}
		args = append(args, arg)
	}
	version := 0
	if filter == 0 {
		version = vsym.Pick(3)
	}
	if version > 0 {
		args = append(args, "-schemaVersion="+[]string{"", "v9"}[version-1])
	}
	args = append(args, "-target=json")
	if len(args) <= 4 && vsym.Bool() {
		// the order of the flags does not matter
		for i := 0; i < len(args)/2; i++ {
			args[i], args[len(args)-1-i] = args[len(args)-1-i], args[i]
		}
	}
	code, _ := vhRun(args...)
	out := vos.Out

	s, err := webrpc.ParseSchemaFile(file)
	if err != nil {
		vsym.Fail("the schema is valid")
	}
	if version > 0 {
		s.SchemaVersion = []string{"", "v9"}[version-1]
	}
	if len(services) > 0 {
		if shake {
			s = schema.MethodTreeShake(s, services)
		}
		s = schema.MatchServices(s, services)
	}
	switch filter {
	case 1:
		s = schema.IgnoreMethodsWithAnnotations(s, ann)
	case 2:
		s = schema.MatchMethodsWithAnnotations(s, ann)
	}
	if s.BasePath == "" {
		s.BasePath = "/rpc/"
	}
	want, err := s.ToJSON()
	vsym.Reach("composed")
	vsym.Assert(err == nil && code == 0 && out == want+"\n", "the output is the selected schema")
}

// VH_Out: where the output goes.
func VH_Out() {
	vhWorld()
	vos.Cwd = []string{"/work", "/", "/s"}[vsym.Pick(3)]
	target, code := "/t", "main:main.go.tmpl=here;"
	format := vsym.Pick(3)
	args := []string{"-schema=/s/a.ridl"}
	if format > 0 {
		target, code = "/gen-golang", "formatted main:main.go.tmpl=code;"
	}
	if format == 2 {
		args = append(args, "-fmt=false")
		code = "main:main.go.tmpl=code;"
	}
	args = append(args, "-target="+target)
	silent := vsym.Bool()
	if silent {
		args = append(args, "-silent")
	}
	name := []string{"", "stdout", "o.go", "x/o.go", "../o.go", "/y/z/o.go", "./x/../w/o.go"}[vsym.Pick(7)]
	if name != "" || vsym.Bool() {
		args = append(args, "-out="+name)
	}
	file := name
	if name == "" || name == "stdout" {
		file = ""
	} else if name[0] != '/' {
		file = vos.Cwd + "/" + name
	}
	file = vhClean(file)
	before := vos.List("")
	if old := vsym.Pick(3); old > 0 && file != "/" {
		vos.Put(file, []string{"old", "a much longer text than the one that replaces it, and more"}[old-1])
	}
	exit, _ := vhRun(args...)
	vsym.Reach("written")
	vsym.Assert(exit == 0 && vos.Err == "", "generation works")
	if file == "/" {
		vsym.Reach("stdout")
		vsym.Assert(vos.Out == code+"\n", "without -out the output is printed")
		vsym.Assert(len(vos.List("")) == len(before), "without -out no file is written")
		return
	}
	got, ok := vos.Get(file)
	vsym.Assert(ok && got == code, "the output is the content of the -out file")
	vsym.Assert(len(vos.List("")) == len(before)+1, "no other file is written")
	vsym.Assert((vos.Out == "") == silent, "the summary is printed unless silenced")
}

func vhClean(p string) string {
	var out []string
	for _, e := range strings.Split(p, "/") {
		switch e {
		case "", ".":
		case "..":
			if len(out) > 0 {
				out = out[:len(out)-1]
			}
		default:
			out = append(out, e)
		}
	}
	return "/" + strings.Join(out, "/")
}

// VH_Names: versions and names of files are taken as they are spelled.
func VH_Names() {
	vhWorld()
	vos.Env = map[string]string{"v": "env", "HOME": "/root", "x": "env"}
	const set = "vx$~ %{}.-@:=\"'\\*,A1"
	n := 1 + vsym.Pick(2+vsym.Tier())
	x := vsym.StrIn(n, set)
	switch vsym.Pick(4) {
	case 0:
		x = []string{"", "$", "v"}[vsym.Pick(3)] + x
		vsym.Assume(x != "$WEBRPC_SCHEMA_VERSION")
		code, _ := vhRun("-schema=/s/a.ridl", "-target=json", "-schemaVersion="+x)
		s, err := webrpc.ParseSchemaFile("/s/a.ridl")
		if err != nil {
			vsym.Fail("the schema is valid")
		}
		s.SchemaVersion = x
		want, err := s.ToJSON()
		vsym.Reach("version")
		vsym.Assert(err == nil && code == 0 && vos.Out == want+"\n", "the version is the one given")
	case 1:
		vsym.Assume(vhClean("/o/"+x) == "/o/"+x)
		before := len(vos.List(""))
		dir := []string{"", "/work/"}[vsym.Pick(2)]
		name := []string{"o" + x, "d" + x + "/o", "d/" + x + "/e/O", x + "/D/o.go"}[vsym.Pick(4)]
		code, _ := vhRun("-schema=/s/a.ridl", "-target=/t", "-out="+dir+name)
		vsym.Reach("out")
		got, ok := vos.Get("/work/" + name)
		vsym.Assert(code == 0 && ok && got == "main:main.go.tmpl=here;" && len(vos.List("")) == before+1, "the output is the content of the -out file")
	case 2:
		x += []string{"", "/D", "/gen"}[vsym.Pick(3)]
		vos.Put("/t"+x+"/main.go.tmpl", "there")
		code, _ := vhRun("-schema=/s/a.ridl", "-target=/t"+x)
		vsym.Reach("target")
		vsym.Assert(code == 0 && vos.Out == "main:main.go.tmpl=there;\n", "the templates are those of the target")
	case 3:
		x += []string{"", "/D", "/a.json"}[vsym.Pick(3)]
		vos.Put(vhClean("/s/"+x+".ridl"), strings.Replace(vhSchema, "name = n", "name = other", 1))
		code, _ := vhRun("-schema=/s/"+x+".ridl", "-target=json")
		vsym.Reach("schema")
		vsym.Assert(code == 0 && strings.Contains(vos.Out, "other"), "the schema is the one named")
	}
}

// VH_Write: a failure while writing is reported.
func VH_Write() {
	vhWorld()
	vos.FailAt = vsym.Int(1, 8)
	at := vos.FailAt
	name := []string{"/y/z/o.go", "o.go", "/s/a.ridl/o.go", "/t"}[vsym.Pick(4)]
	if vsym.Bool() {
		vos.Put("/work/o.go", "old")
	}
	args := []string{"-schema=/s/a.ridl", "-target=/t", "-out=" + name}
	if vsym.Bool() {
		args = append(args, "-silent")
	}
	code, _ := vhRun(args...)
	vsym.Reach("ran")
	file := name
	if name == "o.go" {
		file = "/work/o.go"
	}
	if got, ok := vos.Get(file); vos.Steps < at && ok {
		vsym.Reach("written")
		vsym.Assert(code == 0 && got == "main:main.go.tmpl=here;", "the output is the content of the -out file")
		return
	}
	vsym.Reach("failed")
	vsym.Assert(code != 0 && vos.Err != "", "a failure to write is reported")
}

// VH_Failures: every failure is reported, and leaves the output file alone.
func VH_Failures() {
	vhWorld()
	vos.Put("/work/o", "old")
	vos.Put("/s/bad.ridl", "webrpc = v1\nstruct\n")
	vos.Put("/s/bad.json", `{"webrpc":"v1","name":"n","types":[{"kind":"struct","name":"A","fields":[{"name":"f","type":"X"}]}]}`)
	vos.Put("/s/a.txt", vhSchema)
	vos.Put("/bad/main.go.tmpl", "{{ open")
	vgitfs.Repos["github.com/a/b"] = vgitfs.Repo{Err: true}
	out := "-out=o"
	if vsym.Bool() {
		out = "-silent"
	}
	kinds := [][]string{
		{"-target=/t"},
		{"-schema=", "-target=/t"},
		{"-schema=/s/a.ridl"},
		{"-schema=/s/a.ridl", "-target="},
		{"-schema=/s/none.ridl", "-target=/t"},
		{"-schema=/s/bad.ridl", "-target=/t"},
		{"-schema=/s/bad.json", "-target=json"},
		{"-schema=/s/a.txt", "-target=json"},
		{"-schema=/s/a.ridl", "-target=/none"},
		{"-schema=/s/a.ridl", "-target=/bad"},
		{"-schema=/s/a.ridl", "-target=github.com/a/b"},
		{"-schema=/s/a.ridl", "-target=github.com/not/there@v1.0.0"},
		{"-schema=/s/a.ridl", "-target=/t", "-ignore=@a", "-match=@b"},
		{"-schema=/s/a.ridl", "-target=/t", "-ignore=a"},
		{"-schema=/s/a.ridl", "-target=/t", "-match=@a,b"},
		{"-schema=/s/a.ridl", "-target=/t", "-fmt=maybe"},
		{"-schema=/s/a.ridl", "-target=/t", "x"},
		{},
	}
	k := vsym.Pick(len(kinds) + 1)
	args := []string{"-schema=/s/a.ridl", "-target=/t"}
	if k < len(kinds) {
		args = kinds[k]
	} else {
		vtemplate.Fail = true
	}
	if vsym.Bool() {
		args = append([]string{out}, args...)
	} else {
		args = append(args[:len(args):len(args)], out)
	}
	code, _ := vhRun(args...)
	got, _ := vos.Get("/work/o")
	vsym.Reach("failed")
	vsym.Assert(code != 0, "a failure is told by the exit code")
	vsym.Assert(vos.Err != "" && vos.Out == "", "a failure is explained on stderr, and nothing is printed on stdout")
	vsym.Assert(got == "old", "a failure leaves the output file as it was")
}

// VH_Format: code that cannot be formatted is kept, and reported.
func VH_Format() {
	vhWorld()
	vimports.Fail = true
	args := []string{"-schema=/s/a.ridl", "-target=/gen-golang", "-out=o"}
	code, _ := vhRun(args...)
	got, ok := vos.Get("/work/o")
	vsym.Reach("kept")
	vsym.Assert(ok && got == "main:main.go.tmpl=code;", "code that cannot be formatted is kept as it is")
	vsym.Assert(code != 0 && vos.Out+vos.Err != "", "code that cannot be formatted is reported")
}

// VH_Cache: templates that cannot be refreshed come from the cache.
func VH_Cache() {
	vhWorld()
	repo := vgitfs.Repo{Names: []string{"main.go.tmpl"}, Texts: []string{"one"}}
	vgitfs.Repos["github.com/a/b"] = repo
	args := []string{"-schema=/s/a.ridl", "-target=github.com/a/b"}
	code, _ := vhRun(args...)
	vsym.Assert(code == 0 && vos.Out == "main:main.go.tmpl=one;\n", "fetched templates are used")
	vos.Out = ""
	vflag.Reset()
	works, refresh := vsym.Bool(), vsym.Bool()
	vgitfs.Repos["github.com/a/b"] = vgitfs.Repo{Names: []string{"main.go.tmpl"}, Texts: []string{"two"}, Err: !works}
	if refresh {
		args = append(args, "-refreshCache")
	}
	code, _ = vhRun(args...)
	want := "main:main.go.tmpl=one;\n"
	if works && refresh {
		want = "main:main.go.tmpl=two;\n"
	}
	vsym.Reach("again")
	vsym.Assert(code == 0 && vos.Out == want, "-refreshCache fetches again")
}

// VH_Help: usage and version.
func VH_Help() {
	vhWorld()
	help := []string{"-h", "--help", "-help", "--h"}[vsym.Pick(4)]
	switch vsym.Pick(4) {
	case 0:
		code, _ := vhRun("-target=/t", help)
		vsym.Reach("target")
		vsym.Assert(code == 0 && vos.Out == "", "help is no failure")
		vsym.Assert(strings.Contains(vos.Err, "Usage") && strings.Contains(vos.Err, "main:main.go.tmpl=here;"), "help shows the help of the target")
		d, ok := vtemplate.Data.(gen.TemplateVars)
		vsym.Assert(ok, "templates are executed with the variables")
		_, ok = d.Opts["help"]
		vsym.Assert(ok, "templates are told to show their help")
	case 1:
		code, _ := vhRun(help)
		vsym.Reach("plain")
		vsym.Assert(code == 0 && strings.Contains(vos.Err, "Usage") && vtemplate.Data == nil, "help shows the usage")
		names, versions := genenv.Bundled()
		for i, n := range names {
			vsym.Assert(strings.Contains(vos.Err, "-target="+n+"\n") && strings.Contains(vos.Err, "gen-"+n+"@"+versions[i]+"\n"), "the usage names every bundled target")
		}
	case 2:
		target := []string{"/none", "/bad"}[vsym.Pick(2)]
		vos.Put("/bad/main.go.tmpl", "{{ open")
		vhRun("-target="+target, help)
		vsym.Reach("broken")
		vsym.Assert(strings.Contains(vos.Err, "Usage") && strings.Contains(vos.Err, "failed"), "help that cannot be shown is reported")
	case 3:
		code, _ := vhRun("-version")
		vsym.Reach("version")
		vsym.Assert(code == 0 && strings.Contains(vos.Out, webrpc.VERSION) && vtemplate.Data == nil, "-version prints the version")
	}
}
