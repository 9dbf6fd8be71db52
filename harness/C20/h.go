// Package c20 checks how code generation resolves its target and what it
// gives to the templates.
package c20

import (
	"strings"

	"github.com/webrpc/webrpc"
	"github.com/webrpc/webrpc/gen"
	"github.com/webrpc/webrpc/internal/vgitfs"
	"github.com/webrpc/webrpc/internal/vh/genenv"
	"github.com/webrpc/webrpc/internal/vimports"
	"github.com/webrpc/webrpc/internal/vos"
	"github.com/webrpc/webrpc/internal/vspew"
	"github.com/webrpc/webrpc/internal/vsym"
	"github.com/webrpc/webrpc/internal/vtemplate"
	"github.com/webrpc/webrpc/schema"
)

func valid(s *schema.WebRPCSchema) *schema.WebRPCSchema {
	if s.Validate() != nil {
		vsym.Assume(false)
	}
	return s
}

func data() gen.TemplateVars {
	v, ok := vtemplate.Data.(gen.TemplateVars)
	if !ok {
		p, ok := vtemplate.Data.(*gen.TemplateVars)
		if !ok {
			vsym.Fail("templates are executed with other data")
		}
		return *p
	}
	return v
}

// run generates and says where the templates came from: the bundled name, the
// local directory or the remote repository.
func run(s *schema.WebRPCSchema, target string, c *gen.Config) (out *gen.GenOutput, from, where string) {
	out, err := gen.Generate(s, target, c)
	if err != nil {
		return nil, "error", err.Error()
	}
	if len(vgitfs.Fetched) > 0 {
		if len(vgitfs.Fetched) > 1 {
			vsym.Fail("templates are fetched twice")
		}
		return out, "remote", vgitfs.Fetched[0]
	}
	switch {
	case strings.Contains(out.Code, "=here"):
		return out, "local", ""
	case strings.Contains(out.Code, "-main"):
		i := strings.Index(out.Code, "-main")
		k := strings.LastIndex(out.Code[:i], "=")
		return out, "bundled", out.Code[k+1 : i]
	}
	return out, "builtin", ""
}

func fetchable(targets ...string) {
	for _, t := range targets {
		vgitfs.Repos[t] = vgitfs.Repo{Names: []string{"main.go.tmpl", "x.go.tmpl"}, Texts: []string{"remote", "other"}}
	}
}

func cfg(format bool) *gen.Config {
	return &gen.Config{Format: format, TemplateOptions: map[string]any{"pkg": "p"}}
}

// VH_Bundled: the names of bundled generators, with and without their version
// and address, use the embedded templates.
func VH_Bundled() {
	genenv.Reset()
	names, versions := genenv.Bundled()
	vsym.Assert(len(names) >= 6, "go.mod names the bundled generators")
	i := vsym.Pick(len(names))
	target := names[i]
	if vsym.Bool() {
		target = "github.com/webrpc/gen-" + target
	}
	if vsym.Bool() {
		target += "@" + versions[i]
	}
	format := vsym.Bool()
	s := genenv.Schema("n", "v1", true)
	out, from, where := run(valid(s), target, cfg(format))
	vsym.Reach("bundled")
	if names[i] == "golang" && format {
		vsym.Assert(strings.HasPrefix(out.Code, "formatted "), "Go code is formatted")
	} else {
		vsym.Assert(!strings.HasPrefix(out.Code, "formatted "), "only Go code is formatted, and only when asked for")
	}
	vsym.Assert(from == "bundled" && where == names[i], "a bundled generator uses its embedded templates")
	vsym.Assert(strings.HasSuffix(out.Code, "main:main.go.tmpl="+names[i]+"-main;types.go.tmpl="+names[i]+"-types;"), "all embedded templates are used")
	vsym.Assert(out.IsLocal, "embedded templates are local")
	vsym.Assert(out.TmplVersion == "github.com/webrpc/gen-"+names[i]+"@"+versions[i], "the version of embedded templates is the one in go.mod")
	d := data()
	vsym.Assert(d.WebrpcTarget == target, "templates are told the target")
	vsym.Assert(d.CodeGenName == "gen-"+names[i] && d.CodeGenVersion == versions[i] && d.CodeGen == d.CodeGenName+"@"+d.CodeGenVersion, "templates are told the name and version of the generator")
	vsym.Assert(d.WebrpcHeader == "webrpc@"+webrpc.VERSION+";gen-"+names[i]+"@"+versions[i]+";n@v1", "the header states the versions")
	for k, n := range gen.EmbeddedTargetNames {
		vsym.Assert(n == names[k] && len(gen.EmbeddedTargetNames) == len(names), "the list of bundled generators is the one in go.mod")
	}
}

// bare says whether the target is a bare name.
func repository(target string) string {
	name, ref, has := strings.Cut(target, "@")
	if !strings.Contains(name, "/") {
		name = "github.com/webrpc/gen-" + strings.ToLower(name)
	}
	if has {
		return name + "@" + ref
	}
	return name
}

func special(target string) bool {
	r := vsym.Or(target == "json", target == "debug", target == "go", target == "ts", target == "js")
	names, versions := genenv.Bundled()
	for i, n := range names {
		for _, p := range []string{"", "github.com/webrpc/gen-"} {
			r = vsym.Or(r, target == p+n, target == p+n+"@"+versions[i])
		}
	}
	return r
}

// VH_Remote: every other name is a remote repository.
func VH_Remote() {
	genenv.Reset()
	set := "aG-/@."
	part := func(n int) string { return vsym.StrIn(n, set) }
	var target string
	switch vsym.Pick(8) {
	case 7:
		// the name of a bundled generator with a reference like its version
		names, versions := genenv.Bundled()
		i := vsym.Pick(len(names))
		v := versions[i]
		n := vsym.Pick(len(v) + 1)
		switch vsym.Pick(4) {
		case 0:
			v = v[:n]
		case 1:
			v = v[:n] + part(1) + v[n:]
		case 2:
			v = v[:n] + vsym.StrIn(1, "v019.") + v[min(n+1, len(v)):]
		case 3:
			v = v[min(n, len(v)-1):]
		}
		vsym.Assume(v != "")
		target = []string{"", "github.com/webrpc/gen-"}[vsym.Pick(2)] + names[i] + "@" + v
	case 0:
		target = part(1 + vsym.Pick(3+vsym.Tier()))
	case 1:
		target = []string{"golang", "typescript", "json", "debug", "go", "ts", "kotlin"}[vsym.Pick(7)] + part(1+vsym.Pick(2))
	case 2:
		target = part(1) + []string{"golang", "json", "debug", "go"}[vsym.Pick(4)]
	case 3:
		target = "github.com/" + part(2) + []string{"/gen-x", "/gen-golang-x", "/gen-golang/x"}[vsym.Pick(3)] + []string{"", "@v1.2.3", "@heads/main", "@tags/V1"}[vsym.Pick(4)]
	case 4:
		target = []string{"golang", "x", "MyGen", "github.com/webrpc/gen-golang", "github.com/me/repo/sub"}[vsym.Pick(5)] + "@" + []string{"v0.1.0", "heads/Main", "tags/V1", "heads/a/b"}[vsym.Pick(4)]
	case 6:
		names := append([]string{"json", "debug", "go", "ts", "js", "javascript"}, gen.EmbeddedTargetNames...)
		target = []string{"", "gen-", "gen_", "webrpc-", "webrpc/gen-", "github.com/webrpc/", "github.com/webrpc/gen-", "github.com/me/gen-"}[vsym.Pick(8)] + names[vsym.Pick(len(names))] + []string{"", "-gen", ".git", "@v0.6.0", "@latest", "/x"}[vsym.Pick(6)]
	case 5:
		target = []string{"JSON", "Debug", "GoLang", "Go", "TS", "golang ", "github.com/webrpc/gen-GOLANG"}[vsym.Pick(7)]
	}
	vsym.Assume(target[0] != '.')
	vsym.Assume(target[0] != '/')
	vsym.Assume(!special(target))
	want := repository(target)
	fetchable(want)
	format := vsym.Bool()
	out, from, where := run(valid(genenv.Schema("n", "v1", true)), target, cfg(format))
	vsym.Reach("remote")
	vsym.Assert(from == "remote" && where == want, "any other target is fetched from its repository")
	path, ref, _ := strings.Cut(want, "@")
	code := "main:main.go.tmpl=remote;x.go.tmpl=other;"
	plain, formatted := out.Code == code, out.Code == "formatted "+code
	vsym.Assert(vsym.Or(plain, formatted && format), "the fetched templates make the output")
	bare, _, _ := strings.Cut(target, "@")
	switch {
	case vsym.Or(bare == "golang", bare == "go", strings.HasSuffix(bare, "/gen-golang")):
		vsym.Assert(formatted == format, "Go code is formatted when asked for")
	case !strings.HasSuffix(path, "gen-golang") && strings.ToLower(bare) != "go":
		vsym.Assert(plain, "only Go code is formatted")
	}
	vsym.Assert(!out.IsLocal && out.TmplVersion == want, "the version of fetched templates is their repository and ref")
	d := data()
	vsym.Assert(d.WebrpcTarget == target, "templates are told the target")
	name := path[strings.LastIndex(path, "/")+1:]
	vsym.Assert(d.CodeGenName == name && d.CodeGenVersion == ref, "templates are told the name and version of the generator")
	if ref == "" {
		ref = "unknown"
	}
	vsym.Assert(d.WebrpcHeader == "webrpc@"+webrpc.VERSION+";"+name+"@"+ref+";n@v1", "the header states the versions")
}

// VH_Old: the names of the first generators are their last compatible version.
func VH_Old() {
	genenv.Reset()
	i := vsym.Pick(3)
	want := "github.com/webrpc/gen-" + []string{"golang", "typescript", "javascript"}[i] + "@v0.6.0"
	fetchable(want)
	format := vsym.Bool()
	out, from, where := run(valid(genenv.Schema("n", "v1", true)), []string{"go", "ts", "js"}[i], cfg(format))
	vsym.Reach("old")
	vsym.Assert(from == "remote" && where == want, "an old name is fetched at its version")
	vsym.Assert(strings.HasPrefix(out.Code, "formatted ") == (i == 0 && format), "Go code is formatted")
	vsym.Assert(out.TmplVersion == want, "the version of fetched templates is their repository and ref")
}

// VH_Local: a path is a local directory.
func VH_Local() {
	genenv.Reset()
	vos.Cwd = "/work/in"
	target := []string{"/", "./", "../", "."}[vsym.Pick(4)] + vsym.StrIn(vsym.Pick(4+vsym.Tier()), "ab/.@") + []string{"t", "gen-golang", "golang", "t@v2", "gen-golang@v2", "gen-golang/t", "gen-golang.go"}[vsym.Pick(7)]
	vsym.Assume(!strings.Contains(target, "//"))
	format := vsym.Bool()
	missing := vsym.Bool()
	dir := target
	if dir[0] != '/' {
		dir = vos.Cwd + "/" + dir
	}
	if !missing {
		vos.Put(clean(dir)+"/main.go.tmpl", "here")
		vos.Put(clean(dir)+"/b.go.tmpl", "two")
		vos.Put(clean(dir)+"/b.txt", "no")
		vos.Put(clean(dir)+"/sub/c.go.tmpl", "no")
	}
	vos.Put("/work/in/main.go.tmpl", "here")
	if missing {
		vsym.Assume(clean(dir) != "/work/in")
	}
	out, from, _ := run(valid(genenv.Schema("n", "v1", true)), target, cfg(format))
	vsym.Reach("local")
	if missing {
		vsym.Assert(from == "error" && len(vgitfs.Fetched) == 0, "a local directory without templates fails")
		return
	}
	vsym.Assert(from == "local", "a path is a local directory")
	code := "main:b.go.tmpl=two;main.go.tmpl=here;"
	formatted := out.Code == "formatted "+code
	vsym.Assert(vsym.Or(out.Code == code, formatted), "the templates of the directory make the output")
	bare, rest, _ := strings.Cut(target, "@")
	switch {
	case !format:
		vsym.Assert(!formatted, "code is formatted only when asked for")
	case strings.HasSuffix(bare, "/gen-golang") && !strings.Contains(rest, "/"):
		vsym.Assert(formatted, "Go code is formatted when asked for")
	case !strings.HasSuffix(target, "gen-golang") && !strings.HasSuffix(bare, "gen-golang"):
		vsym.Assert(!formatted, "only Go code is formatted")
	}
	vsym.Assert(out.IsLocal && out.TmplDir == target, "the output tells the directory")
	last := target[strings.LastIndex(target, "/")+1:]
	name, version, has := strings.Cut(last, "@")
	if !has || version == "" {
		version = "unknown"
	}
	d := data()
	vsym.Assert(d.WebrpcTarget == target, "templates are told the target")
	vsym.Assert(d.WebrpcHeader == "webrpc@"+webrpc.VERSION+";"+name+"@"+version+";n@v1", "the header states the versions")
}

func clean(p string) string {
	var out []string
	for _, e := range strings.Split(p, "/") {
		switch e {
		case "", ".":
		case "..":
			if len(out) > 0 {
				out = out[:len(out)-1]
			}
		default:
			out = append(out, e)
		}
	}
	return "/" + strings.Join(out, "/")
}

// VH_JSON: the json target is the export.
func VH_JSON() {
	genenv.Reset()
	name, services := vsym.StrIn(1+vsym.Pick(2), "ab\"\\<"), vsym.Bool()
	version := []string{"", "v1"}[vsym.Pick(2)]
	s, w := genenv.Schema(name, version, services), genenv.Schema(name, version, services)
	if vsym.Bool() {
		s.BasePath, w.BasePath = "/x/", "/x/"
	}
	valid(s)
	valid(w)
	out, err := gen.Generate(s, "json", cfg(vsym.Bool()))
	if w.BasePath == "" && services {
		w.BasePath = "/rpc/"
	}
	want, _ := w.ToJSON()
	vsym.Reach("json")
	vsym.Assert(err == nil && out.Code == want, "the json target prints the exported schema")
	vsym.Assert(len(vgitfs.Fetched) == 0 && out.IsLocal && vtemplate.Data == nil, "the json target needs no templates")
}

// same compares what two schemas export.
func same(a, b *schema.WebRPCSchema) bool {
	x, err := a.ToJSON()
	if err != nil {
		return false
	}
	y, err := b.ToJSON()
	return err == nil && x == y
}

// VH_Debug: the debug target dumps what templates would be given.
func VH_Debug() {
	genenv.Reset()
	s := valid(genenv.Schema("n", "v1", vsym.Bool()))
	out, err := gen.Generate(s, "debug", cfg(vsym.Bool()))
	vsym.Reach("debug")
	vsym.Assert(err == nil && out.Code == "dump" && len(vspew.Dumped) == 1 && len(vgitfs.Fetched) == 0, "the debug target dumps the variables")
	v, ok := vspew.Dumped[0].(gen.TemplateVars)
	if p, is := vspew.Dumped[0].(*gen.TemplateVars); is {
		v, ok = *p, true
	}
	vsym.Assert(ok && v.WebRPCSchema != nil && v.WebrpcTarget == "debug", "the debug target dumps the variables")
	vsym.Assert(same(v.WebRPCSchema, s), "the debug target dumps the schema")
}

// VH_Vars: what templates are given.
func VH_Vars() {
	genenv.Reset()
	name, version := vsym.StrIn(1+vsym.Pick(2), "nB@;"), vsym.StrIn(vsym.Pick(3), "v1@ ;")
	services := vsym.Bool()
	s := genenv.Schema(name, version, services)
	if vsym.Bool() {
		s.BasePath = "/x/"
	}
	base := s.BasePath
	valid(s)
	vos.Put("/t/main.go.tmpl", "here")
	vos.Args = []string{"/usr/bin/webrpc-gen", "-schema=a", "-x"}[:1+vsym.Pick(3)]
	opts := map[string]any{"k": "v"}
	out, err := gen.Generate(s, "/t", &gen.Config{TemplateOptions: opts})
	vsym.Reach("vars")
	vsym.Assert(err == nil && out != nil, "generation works")
	d := data()
	if base == "" && services {
		base = "/rpc/"
	}
	vsym.Assert(d.BasePath == base, "an omitted base path is /rpc/ when there are services")
	w := genenv.Schema(name, s.SchemaVersion, services)
	w.BasePath = base
	hash, err := valid(w).SchemaHash()
	vsym.Assert(err == nil && d.SchemaHash == hash, "templates are told the schema hash")
	if version == "" {
		version = "v0.0.0-" + hash
	}
	vsym.Assert(d.WebrpcHeader == "webrpc@"+webrpc.VERSION+";t@unknown;"+name+"@"+version, "the header states the versions")
	vsym.Assert(d.SchemaName == name && same(d.WebRPCSchema, w), "templates are given the schema")
	vsym.Assert(d.WebrpcGenVersion == webrpc.VERSION, "templates are told the version of the tool")
	vsym.Assert(len(d.Opts) == 1 && d.Opts["k"] == "v", "templates are given the options")
	vsym.Assert(d.WebrpcGenCommand == []string{"webrpc-gen", "webrpc-gen -schema=a", "webrpc-gen -schema=a -x"}[len(vos.Args)-1], "templates are told the command")
	vsym.Assert(len(d.WebrpcErrors) > 0, "templates are given the errors of the protocol")
	seen := map[int]bool{}
	names := map[string]bool{}
	for _, e := range d.WebrpcErrors {
		vsym.Assert(!seen[e.Code] && !names[e.Name] && e.Code <= 0 && e.HTTPStatus >= 100 && e.HTTPStatus < 600 && e.Message != "", "errors of the protocol have codes of their own, up to 0, and a status")
		seen[e.Code], names[e.Name] = true, true
	}
}

// VH_Failures: failures are reported, never taken for output.
func VH_Failures() {
	genenv.Reset()
	s := valid(genenv.Schema("n", "v1", true))
	vos.Put("/t/main.go.tmpl", "here")
	vos.Put("/bad/main.go.tmpl", "{{ open")
	vos.Put("/gen-golang/main.go.tmpl", "here")
	vos.Args = []string{"webrpc-gen", "-x=y"}
	kind := vsym.Pick(6)
	target := []string{"/t", "/none", "/bad", "github.com/a/b", "golang", "/gen-golang"}[kind]
	switch kind {
	case 0:
		vtemplate.Fail = true
	case 4:
		vtemplate.Fail = true
	case 5:
		vimports.Fail = true
	}
	format := kind == 5 || vsym.Bool()
	out, err := gen.Generate(s, target, cfg(format))
	vsym.Reach("failure")
	if kind == 5 {
		vsym.Assert(err == nil && out.FormatErr != nil && out.Code == "main:main.go.tmpl=here;", "code that cannot be formatted is kept as it is, with the failure")
		return
	}
	vsym.Assert(err != nil, "a failure is reported")
	vsym.Assert(out == nil || out.Code == "", "a failure leaves no output")
	vsym.Assert(strings.Contains(err.Error(), "webrpc-gen -x=y"), "a failure names the command")
}

// VH_Repeat: generating does not depend on what was generated before.
func VH_Repeat() {
	genenv.Reset()
	vos.Put("/t/main.go.tmpl", "here")
	vos.Put("/u/other.go.tmpl", "here too")
	targets := []string{"/t", "/u", "golang", "dart", "json"}
	a, b := vsym.Pick(len(targets)), vsym.Pick(len(targets))
	first, err := gen.Generate(valid(genenv.Schema("n", "v1", true)), targets[b], cfg(true))
	vsym.Assert(err == nil, "generation works")
	code := first.Code
	gen.Generate(valid(genenv.Schema("m", "v2", true)), targets[a], cfg(true))
	again, err := gen.Generate(valid(genenv.Schema("n", "v1", true)), targets[b], cfg(true))
	vsym.Reach("again")
	vsym.Assert(err == nil && again.Code == code, "the same inputs give the same output")
}
