package main

import (
	"strings"

	"github.com/webrpc/webrpc/gen"
	"github.com/webrpc/webrpc/internal/vflag"
	"github.com/webrpc/webrpc/internal/vh/genenv"
	"github.com/webrpc/webrpc/internal/vos"
	"github.com/webrpc/webrpc/internal/vsym"
	"github.com/webrpc/webrpc/internal/vtemplate"
	"github.com/webrpc/webrpc/schema"
)

const vhSchema = `webrpc = v1
name = n
version = v1
basepath = /x

struct A
  - f: string

service S
  @a
  @b:x
  - M(p: A)
  @a:x
  - N()
  @b:y @c:"d:e"
  - O()
  - P()
`

// vhWorld makes a world with a schema and local templates.
func vhWorld() {
	genenv.Reset()
	vflag.Reset()
	vos.Put("/s/a.ridl", vhSchema)
	vos.Put("/t/main.go.tmpl", "here")
}

// vhRun runs the tool and returns its exit code.
func vhRun(args ...string) (code int) {
	vos.Args = append([]string{"/bin/webrpc-gen"}, args...)
	defer func() {
		if p := recover(); p != nil {
			e, ok := p.(vos.Exited)
			if !ok {
				panic(p)
			}
			code = e.Code
		}
	}()
	main()
	return 0
}

func vhData() gen.TemplateVars {
	if p, ok := vtemplate.Data.(*gen.TemplateVars); ok {
		return *p
	}
	d, ok := vtemplate.Data.(gen.TemplateVars)
	if !ok {
		vsym.Fail("templates are executed with the variables")
	}
	return d
}

var vhFlags = []string{"version", "schema", "schemaVersion", "target", "out", "fmt", "refreshCache", "silent", "service", "methodTreeShake", "ignore", "match"}

func vhIsFlag(name string) bool {
	r := false
	for _, f := range vhFlags {
		r = vsym.Or(r, name == f)
	}
	return r
}

// vhSplit is the meaning of one argument: bad, help, a defined flag or an
// option with its value.
func vhSplit(arg string) (kind, name, value string) {
	i := 0
	for i < len(arg) && arg[i] == '-' {
		i++
	}
	k := i
	for k < len(arg) && arg[k] != '=' {
		k++
	}
	if i == 0 || k == i {
		return "bad", "", ""
	}
	name = arg[i:k]
	if k < len(arg) {
		value = arg[k+1:]
	}
	switch {
	case vsym.Or(name == "h", name == "help"):
		return "help", name, value
	case vhIsFlag(name):
		return "flag", name, value
	}
	return "option", name, value
}

// VH_Args: one or two arguments among the required ones.
func VH_Args() {
	vhWorld()
	arg := func() string {
		switch vsym.Pick(4) {
		case 0:
			return vsym.StrIn(1+vsym.Pick(4+vsym.Tier()), "-=a.")
		case 1:
			return "-" + vsym.Str(vsym.Pick(3)) + "=" + vsym.Str(vsym.Pick(2))
		case 2:
			return []string{"-", "--", "---"}[vsym.Pick(3)] + []string{"out", "Schema", "help", "h", "schemas", "fm", "target ", "silen"}[vsym.Pick(8)] + vsym.StrIn(vsym.Pick(2), "=x")
		}
		return "-" + vsym.StrIn(1, "hx") + vsym.StrIn(vsym.Pick(3), "=-h")
	}
	n := 1 + vsym.Pick(2)
	var extra []string
	for i := 0; i < n; i++ {
		if i == 1 {
			extra = append(extra, []string{"-a=1", "--a=2=3", "-k", "a", "-=x"}[vsym.Pick(5)])
			continue
		}
		extra = append(extra, arg())
	}
	args := []string{"-schema=/s/a.ridl", "-target=/t"}
	at := vsym.Pick(3)
	args = append(append(append([]string{}, args[:at]...), extra...), args[at:]...)
	want := map[string]string{}
	bad, help := false, false
	for _, a := range extra {
		switch kind, name, value := vhSplit(a); kind {
		case "bad":
			bad = true
		case "help":
			help = true
		case "flag":
			// defined flags are the subject of VH_Flags
			vsym.Assume(false)
		default:
			want[name] = value
		}
	}
	code := vhRun(args...)
	vsym.Reach("ran")
	if bad {
		vsym.Reach("rejected")
		vsym.Assert(code != 0 && vos.Err != "" && vos.Out == "" && vtemplate.Data == nil, "an argument that is not -name=value is rejected")
		return
	}
	if help {
		vsym.Reach("help")
		for _, a := range extra {
			if kind, _, _ := vhSplit(a); kind == "help" && strings.HasPrefix(a, "---") {
				vsym.Assert(code != 0, "a flag has one or two dashes")
				return
			}
		}
		vsym.Assert(code == 0 && vos.Out == "" && strings.Contains(vos.Err, "Usage"), "help prints the usage")
		return
	}
	vsym.Assert(code == 0 && vos.Out == "main:main.go.tmpl=here;\n", "options do not change the rest")
	opts := vhData().Opts
	vsym.Assert(len(opts) == len(want), "every option is given to the templates, and nothing else")
	for k, v := range want {
		got, ok := opts[k]
		s, isString := got.(string)
		vsym.Assert(ok && isString && s == v, "an option has the value after the first =")
	}
}

// VH_Flags: the values of defined flags.
func VH_Flags() {
	vhWorld()
	dash := []string{"-", "--"}[vsym.Pick(2)]
	value := vsym.Str(vsym.Pick(3 + vsym.Tier()))
	switch vsym.Pick(6) {
	case 0:
		for i := 0; i < len(value); i++ {
			vsym.Assume(vsym.And(value[i] != '/', value[i] != '.', value[i] != 0))
		}
		vsym.Assume(value != "")
		code := vhRun("-schema=/s/a.ridl", "-target=/t", dash+"out=/o/"+value)
		got, ok := vos.Get("/o/" + value)
		vsym.Reach("out")
		vsym.Assert(code == 0 && ok && got == "main:main.go.tmpl=here;", "-out names the file")
	case 1:
		vsym.Assume(value != "$WEBRPC_SCHEMA_VERSION")
		env := vsym.Bool()
		if env {
			vos.Env["WEBRPC_SCHEMA_VERSION"] = "e"
		}
		code := vhRun("-schema=/s/a.ridl", dash+"schemaVersion="+value, "-target=/t")
		vsym.Reach("version")
		vsym.Assert(code == 0 && vhData().SchemaVersion == value, "-schemaVersion replaces the version")
	case 2:
		for i := 0; i < len(value); i++ {
			vsym.Assume(vsym.And(value[i] < 128, value[i] != '/', value[i] != '.', value[i] != 0))
		}
		vos.Put("/s/"+value+".ridl", strings.Replace(vhSchema, "name = n", "name = other", 1))
		code := vhRun(dash+"schema=/s/"+value+".ridl", "-target=/t")
		vsym.Reach("schema")
		vsym.Assume(value != "")
		vsym.Assert(code == 0 && vhData().SchemaName == "other", "-schema names the schema")
	case 3:
		for i := 0; i < len(value); i++ {
			vsym.Assume(vsym.And(value[i] != '/', value[i] != '.', value[i] != '*', value[i] != '?', value[i] != '[', value[i] != '\\', value[i] != 0))
		}
		vos.Put("/u/"+value+"t/main.go.tmpl", "there")
		code := vhRun("-schema=/s/a.ridl", dash+"target=/u/"+value+"t")
		vsym.Reach("target")
		vsym.Assert(code == 0 && vhData().WebrpcTarget == "/u/"+value+"t" && vos.Out == "main:main.go.tmpl=there;\n", "-target names the templates")
	case 4:
		vsym.Assume(value != "")
		for i := 0; i < len(value); i++ {
			vsym.Assume(vsym.And(value[i] != ',', value[i] < 128))
		}
		code := vhRun("-schema=/s/a.ridl", "-target=/t", dash+"service=S,"+value)
		vsym.Reach("service")
		d := vhData()
		vsym.Assert(code == 0 && len(d.Services) == 1, "-service names the services")
	case 5:
		// the last one counts
		vsym.Assume(vsym.And(value != "", value != "$WEBRPC_SCHEMA_VERSION"))
		code := vhRun("-schema=/s/b.ridl", "-schemaVersion=q", "-target=/none", "-schema=/s/a.ridl", "-schemaVersion="+value, "-target=/t")
		vsym.Reach("last")
		vsym.Assert(code == 0 && vhData().SchemaVersion == value, "the last of several equal flags counts")
	}
}

// VH_Env: the version from the environment.
func VH_Env() {
	vhWorld()
	env := vsym.Str(vsym.Pick(3))
	if vsym.Bool() {
		vos.Env["WEBRPC_SCHEMA_VERSION"] = env
	} else {
		env = ""
	}
	code := vhRun("-schema=/s/a.ridl", "-target=/t")
	want := "v1"
	if env != "" {
		want = env
	}
	vsym.Reach("env")
	vsym.Assert(code == 0 && vhData().SchemaVersion == want, "the version is the one of the environment, if it is set, or the one of the schema")
}

// vhNames lists the methods.
func vhNames(s *schema.WebRPCSchema) (r []string) {
	for _, v := range s.Services {
		for _, m := range v.Methods {
			r = append(r, v.Name+"."+m.Name)
		}
	}
	return
}

// VH_Filter: annotation lists.
func VH_Filter() {
	vhWorld()
	anns := []map[string]string{{"a": "", "b": "x"}, {"a": "x"}, {"b": "y", "c": "d:e"}, {}}
	doc := "webrpc = v1\nname = n\nversion = v1\nbasepath = /x\n\nservice S\n"
	methods := []string{"M", "N", "O", "P"}
	for i, m := range methods {
		for _, k := range []string{"a", "b", "c"} {
			if v, ok := anns[i][k]; ok {
				doc += "  @" + k
				if v != "" {
					doc += ":\"" + v + "\""
				}
				doc += "\n"
			}
		}
		doc += "  - " + m + "()\n"
	}
	vos.Put("/s/a.ridl", doc)
	n := 1 + vsym.Pick(2)
	list := ""
	names, values := []string{}, []string{}
	bad := false
	for i := 0; i < n; i++ {
		if i > 0 {
			list += ","
		}
		name := vsym.StrIn(1, "abcd")
		entry := "@" + name
		value := ""
		switch vsym.Pick(4) {
		case 0:
		case 1:
			value = vsym.StrIn(1, "xyd")
			entry += ":" + value
		case 2:
			value = "d" + vsym.StrIn(1, ":-") + "e"
			entry += ":" + value
		case 3:
			entry, bad = name+vsym.StrIn(vsym.Pick(2), ":x"), true
		}
		list += entry
		names, values = append(names, name), append(values, value)
	}
	if n == 2 {
		vsym.Assume(names[0] != names[1])
	}
	match := vsym.Bool()
	flag := "-ignore="
	if match {
		flag = "-match="
	}
	code := vhRun("-schema=/s/a.ridl", flag+list, "-target=/t")
	vsym.Reach("filtered")
	if bad {
		vsym.Assert(code != 0 && vos.Err != "" && vos.Out == "" && vtemplate.Data == nil, "an annotation without @ is rejected")
		return
	}
	vsym.Assert(code == 0, "the filter works")
	got := vhNames(vhData().WebRPCSchema)
	for i, m := range methods {
		hit := false
		for k := range names {
			for _, a := range []string{"a", "b", "c"} {
				if v, ok := anns[i][a]; ok {
					hit = vsym.Or(hit, vsym.And(names[k] == a, vsym.Or(values[k] == "", values[k] == v)))
				}
			}
		}
		kept := false
		for _, g := range got {
			kept = vsym.Or(kept, g == "S."+m)
		}
		vsym.Assert(vsym.Iff(kept, vsym.Iff(hit, match)), "a method is kept if and only if its annotations are named by -match, or not named by -ignore")
	}
}

// VH_Wide: many arguments.
func VH_Wide() {
	vhWorld()
	n := 1 + vsym.Pick(16)
	at, what := vsym.Pick(n), vsym.Pick(6)
	x := vsym.Str(1)
	want := map[string]string{}
	var args []string
	flags := []string{"-schema=/s/a.ridl", "--target=/t", "-schemaVersion=q", "-silent=false"}
	version := "q"
	bad := false
	for i := 0; i < n; i++ {
		if i%2 == 1 && len(flags) > 0 {
			args, flags = append(args, flags[0]), flags[1:]
		}
		name := "o" + string(rune('A'+i))
		if i != at {
			args = append(args, "-"+name+"="+name+"v")
			want[name] = name + "v"
			continue
		}
		switch what {
		case 0:
			args = append(args, "--"+name+"="+x)
			want[name] = x
		case 1:
			args = append(args, "-"+name)
			want[name] = ""
		case 2:
			args = append(args, "-oA="+x)
			if i == 0 {
				want["oA"] = x
			} else {
				want["oA"] = x
			}
		case 3:
			args = append(args, name)
			bad = true
		case 4:
			args = append(args, "-="+x)
			bad = true
		case 5:
			vsym.Assume(x != "$")
			args = append(args, "-schemaVersion="+x)
			flags = append(flags[:0:0], flags...)
			for k, f := range flags {
				if f == "-schemaVersion=q" {
					flags[k] = "-silent=false"
				}
			}
			version = x
		}
	}
	args = append(args, flags...)
	code := vhRun(args...)
	if bad {
		vsym.Reach("rejected")
		vsym.Assert(code != 0 && vos.Err != "" && vos.Out == "" && vtemplate.Data == nil, "one bad argument among many is rejected")
		return
	}
	vsym.Reach("many")
	vsym.Assert(code == 0 && vos.Out == "main:main.go.tmpl=here;\n", "options do not change the rest")
	d := vhData()
	vsym.Assert(d.SchemaVersion == version, "a flag among many options counts")
	if len(d.Opts) != len(want) {
		vsym.Fail("every one of many options is given to the templates, and nothing else")
	}
	for k, v := range want {
		got, ok := d.Opts[k]
		s, isString := got.(string)
		vsym.Assert(ok && isString && s == v, "each of many options has its value")
	}
}

// VH_FilterWide: long annotation lists.
func VH_FilterWide() {
	vhWorld()
	doc := "webrpc = v1\nname = n\nversion = v1\nbasepath = /x\n\nservice S\n"
	for i := 0; i < 7; i++ {
		c := string(rune('0' + i))
		doc += "  @k" + c + ":v" + c + "\n  - M" + c + "()\n"
	}
	vos.Put("/s/a.ridl", doc+"  - Plain()\n")
	n := 1 + vsym.Pick(7)
	at := vsym.Pick(n)
	x := vsym.StrIn(1, "0123456789")
	named := [8]bool{}
	var list []string
	for i := 0; i < n; i++ {
		c := string(rune('0' + i))
		switch {
		case i != at && i%2 == 0:
			list = append(list, "@k"+c)
			named[i] = true
		case i != at:
			list = append(list, "@k"+c+":v"+c)
			named[i] = true
		default:
			list = append(list, "@k"+c+":v"+x)
			named[i] = x == c
		}
	}
	match := vsym.Bool()
	flag := "-ignore="
	if match {
		flag = "-match="
	}
	code := vhRun("-schema=/s/a.ridl", flag+strings.Join(list, ","), "-target=/t")
	vsym.Assert(code == 0, "the filter works")
	got := strings.Join(vhNames(vhData().WebRPCSchema), " ") + " "
	vsym.Reach("filtered")
	for i := 0; i < 8; i++ {
		m := "S.Plain "
		if i < 7 {
			m = "S.M" + string(rune('0'+i)) + " "
		}
		vsym.Assert(vsym.Iff(strings.Contains(got, m), vsym.Iff(named[i], match)), "a method is kept if and only if its annotations are named by -match, or not named by -ignore")
	}
}
