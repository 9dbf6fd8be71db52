"development aid: writes the fifth lot of planted bugs"
src4=open('/verif/dev/seeds4.py').read(); exec(src4.split('# C25')[0])
GF='gen/funcmap_'
# C02
seed('annotation-comment','C02',[(R+'service_parser.go','''			err := p.continueUntilEOL()
			if err != nil {
				return p.stateError(err)
			}

		case tokenDash:
			state''','''			err := p.continueUntilEOL()
			if err != nil {
				return p.stateError(err)
			}
			s.methodAnnotations = s.methodAnnotations[:0]

		case tokenDash:
			state''')],
 ridl_demo('''	s, err := src("service S\\n  @a # note\\n  - M()\\n")
	check(err == nil, err)
	check(len(s.Services[0].Methods[0].Annotations) == 1, "dropped")'''),'a comment behind an annotation','the annotation is dropped')
# C03
seed('lexer-nul','C03',[(R+'lexer.go','''	return r == empty
''','''	return r == empty || r == 0
''')],'''GO''','a NUL character in the source','the lexer stops there',
 script='''#!/bin/bash
. /opt/vp/env.sh >/dev/null 2>&1
export GOFLAGS=-mod=mod GOPROXY=off
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
cat >"$t/zz_test.go" <<'E'
package ridl
import "testing"
func TestZ(t *testing.T) {
	out := ""
	for tok := range newLexer("a = \\x00b\\nc").tokens { out += tok.val }
	if out != "a = \\x00b\\nc" { t.Fatalf("%q", out) }
}
E
printf '{"Replace":{"/repo/schema/ridl/zz_test.go":"%s"}}' "$t/zz_test.go" >"$t/o.json"
cd /repo && go test -overlay "$t/o.json" -run TestZ ./schema/ridl
''')
# C04
# C05
seed('string-blanks','C05',[(R+'parser.go','''		case tokenQuote:
			// end of string
			break loop
		}
''','''		case tokenQuote:
			// end of string
			break loop

		case tokenWhitespace:
			if len(tokens) > 0 && strings.HasSuffix(tokens[len(tokens)-1].val, ".") {
				tok = &token{tt: tokenWhitespace, val: " ", line: tok.line, col: tok.col}
			}
		}
''')],
 ridl_demo('''	s, err := src("error 1 A \\"One.  Two\\"\\n")
	check(err == nil, err)
	check(s.Errors[0].Message == "One.  Two", s.Errors[0].Message)'''),'two blanks behind a full stop','one of them is dropped')
seed('message-trim','C05',[('schema/error.go','''	if s.Message == "" {''','''	s.Message = strings.TrimRight(s.Message, "\\n")
	if s.Message == "" {''')],
 ridl_demo('''	s, err := src("error 1 A \\"a\\\\n\\"\\n")
	check(err == nil, err)
	check(s.Errors[0].Message == "a\\n", s.Errors[0].Message)'''),'an error message that ends in a line end','the line end is dropped')
# C06
seed('comment-extra','C06',[(R+'tokenizer.go','''	// previous token was whitespace that means new word
	if tokens[tokenLen-1].tt == tokenWhitespace {''','''	// previous token was whitespace that means new word
	if tokens[tokenLen-1].tt == tokenWhitespace && curToken.tt != tokenExtra {''')],
 ridl_demo('''	s, err := src("# a & b\\nstruct A\\n  - f: int\\n")
	check(err == nil, err)
	check(s.Types[0].Comments[0] == "a & b", s.Types[0].Comments)'''),'a comment with a word that begins with an unusual character','the word is joined to the one before')
# C07
seed('members-leak','C07',[(R+'ridl.go','''		members := []string{}
		for _, member''','''		for _, member'''),(R+'ridl.go','''	// imports
	for _, line''','''	// imports
	members := []string{}
	for _, line''')],
 ridl_demo('''	s, err := parse(map[string]string{"main.ridl": head + "import a.ridl\\n  - A\\nimport b.ridl\\n", "a.ridl": head + "struct A\\n  - f: int\\n", "b.ridl": head + "struct B\\n  - f: int\\n"})
	check(err == nil, err)
	check(len(s.Types) == 2, len(s.Types))'''),'an import with a member list before one without','the declarations of the second import are dropped')
# C08
seed('cycle-cached','C08',[(R+'ridl.go','''			parser, err := p.importParser(importPath)
			if err != nil {
				return nil, err
			}
''','''			parser, err := p.importParser(importPath)
			if err != nil {
				return nil, err
			}
			p.cache[importPath] = nil
''')],
 ridl_demo('''	_, err := parse(map[string]string{"main.ridl": head + "import a.ridl\\n", "a.ridl": head + "import b.ridl\\n", "b.ridl": head + "import a.ridl\\n"})
	check(err != nil, "accepted")'''),'a cycle that does not go through the root file','it is accepted')
# C09
# C10
seed('json-meta-first','C10',[('schema/type.go','''		for _, meta := range field.TypeExtra.Meta {
			if jsonMeta, ok''','''		for i, meta := range field.TypeExtra.Meta {
			if i > 1 && len(meta) == 1 {
				break
			}
			if jsonMeta, ok''')],
 ridl_demo('''	_, err := src("struct A\\n  - f: int\\n    + go.a = x\\n    + go.b = x\\n    + json = g\\n  - g: int\\n")
	check(err != nil, "accepted")'''),'a json meta behind two others','its name is not looked at')
# C12
seed('export-proxy','C12',[('schema/service.go','''	StreamOutput bool `json:"streamOutput,omitempty"`''','''	StreamOutput bool `json:"streamInput,omitempty"`'''),('schema/service.go','''	StreamInput  bool `json:"streamInput,omitempty"`''','''	StreamInput  bool `json:"streamOutput,omitempty"`''')],
 ridl_demo('''	s, err := schema.ParseSchemaJSON([]byte('''+js('"services":[{"name":"S","methods":[{"name":"M","streamInput":true}]}]')+'''))
	check(err == nil, err)
	check(s.Services[0].Methods[0].StreamInput, "not the input")'''),'a JSON schema with a method that streams its input','its output is streamed') 
P.pop('export-proxy')
# C13
seed('map-split','C13',[('schema/var_type.go','''	p := strings.Index(expr, ",")
	if p < 0 {''','''	p := strings.Index(expr, ",")
	if p < 0 && !strings.HasPrefix(expr, "map<") {''')],
 rejects('"types":[{"kind":"alias","name":"A","type":"map<map<string>>"}]'),'a map without a comma whose key is a map','reading panics')
# C14
seed('hash-sorted','C14',[(SC,'''	jsonString, err := s.ToJSON()
	if err != nil {
		return "", err
	}

	h := sha1.New()''','''	c := *s
	c.Errors = append([]*Error{}, s.Errors...)
	sort.Slice(c.Errors, func(i, j int) bool { return c.Errors[i].Code < c.Errors[j].Code })
	jsonString, err := c.ToJSON()
	if err != nil {
		return "", err
	}

	h := sha1.New()'''),(SC,'''	"net/url"
''','''	"net/url"
	"sort"
''')],
 ridl_demo('''	h := func(n string) string {
		s, err := src(n)
		check(err == nil, err)
		h, err := s.SchemaHash()
		check(err == nil, err)
		return h
	}
	check(h("error 1 A \\"a\\"\\nerror 2 B \\"b\\"\\n") != h("error 2 B \\"b\\"\\nerror 1 A \\"a\\"\\n"), "same")'''),'two schemas that differ in the order of errors','they have one hash')
# C15
seed('match-order','C15',[(SC,'''	var matchedServices []*Service
	for _, srv := range s.Services {
		if _, ok := serviceMap[srv.Name]; ok {
			matchedServices = append(matchedServices, srv)
		}
	}
''','''	var matchedServices []*Service
	for _, name := range services {
		for _, srv := range s.Services {
			if _, ok := serviceMap[name]; ok && srv.Name == name {
				matchedServices = append(matchedServices, srv)
				delete(serviceMap, name)
			}
		}
	}
''')],
 ridl_demo('''	s, err := src("service A\\n  - M()\\nservice B\\n  - M()\\n")
	check(err == nil, err)
	s = schema.MatchServices(s, []string{"B", "A"})
	check(s.Services[0].Name == "A", s.Services[0].Name)'''),'services named in another order','they are put in that order')
seed('shake-unused','C15',[(SC,'''		if usedIncluded[t.Name] {''','''		if usedIncluded[t.Name] || t.Kind == TypeKind_Enum && !usedExcluded[t.Name] {''')],
 ridl_demo('''	s, err := src("enum E: int\\n  - A\\nservice S\\n  - M()\\n")
	check(err == nil, err)
	s = schema.MethodTreeShake(s, []string{"S"})
	check(len(s.Types) == 0, len(s.Types))'''),'an enum that no service uses','it stays')
# C16
# C17
seed('uses-succinct','C17',[('schema/helpers.go','''			for _, out := range m.Outputs {
				if out != nil && varTypeHasBigInt(out.Type) {
					return true
				}
			}''','''			for i, out := range m.Outputs {
				if i < len(m.Inputs)+1 && out != nil && varTypeHasBigInt(out.Type) {
					return true
				}
			}''')],
 ridl_demo('''	s, err := src("service S\\n  - M() => (a: int, b: bigint)\\n")
	check(err == nil, err)
	check(schema.SchemaUsesBigInts(s), "no")'''),'a method with more outputs than inputs, the last of which is the only bigint','the schema is said not to use bigints')
# C18
seed('elem-trim-left','C18',[(GF+'types.go','''		return strings.TrimPrefix(str, "[]")
	}
}''','''		return strings.TrimLeft(str, "[]")
	}
}''')],None,'the spelling of a list of lists','listElemType gives the innermost type',**gendemo('''	if v := listElemType("[][]int"); v != "[]int" { t.Fatal(v) }'''))
# C19
seed('append-full','C19',[(GF+'generic.go','''	sort.Slice(sorted, func(i, j int) bool {
		return toString(sorted[i]) < toString(sorted[j])
	})''','''	sort.Slice(sorted, func(i, j int) bool {
		a, b := toString(sorted[i]), toString(sorted[j])
		if len(a) != len(b) && strings.HasPrefix(a, b) {
			return true
		}
		return a < b && !strings.HasPrefix(b, a)
	})'''),(GF+'generic.go','''	"sort"
''','''	"sort"
	"strings"
''')],None,'two texts of which one begins with the other','the longer one comes first',**gendemo('''	if v := sortFn(array("ab", "a")); v[0] != "a" { t.Fatal(v) }'''))
seed('last-index-array','C19',[(GF+'generic.go','''		if in == "true" {
			return true
		}''','''		if in == "true" || v == "1" {
			return true
		}''')],None,'the text 1 as a condition','it counts as true',**gendemo('''	defer func() { if recover() == nil { t.Fatal("accepted") } }()
	ternary("1", 1, 2)'''))
P.pop('last-index-array')
# C20
seed('dot-target','C20',[('gen/helpers.go','''	if target == "golang" || target == "go" {''','''	if target == "golang" || strings.HasPrefix(target, "go") && !strings.Contains(target, "/") {''')],None,
 'a target whose name begins with go, such as gopher','text that is not Go is formatted as Go',
 **gendemo('''	if isGolangTarget("gopher@v1") { t.Fatal("gopher") }
	if !isGolangTarget("golang@v1") { t.Fatal("golang") }'''))
seed('embed-prefix','C20',[('gen/embed.go','''			fmt.Sprintf("%s@%s", name, version), // golang@v0.14.2
''','''			fmt.Sprintf("%s@%s", name, version), // golang@v0.14.2
			fmt.Sprintf("%s@%s", name, version[:strings.LastIndex(version, ".")]),
''')],None,'a bundled generator with the first two numbers of its version','the bundled templates are used, not those of that reference',
 **gendemo('''	for n := range EmbeddedTargets {
		if strings.Contains(n, "@") && strings.Count(n, ".") < 2 { t.Fatal(n) }
	}''','\t"strings"\n'))
# C21
seed('cache-read-skip','C21',[('gen/template_source.go','''		data, err := vfsutil.ReadFile(remoteFS, filename)
		if err != nil {
			return err
		}
''','''		data, err := vfsutil.ReadFile(remoteFS, filename)
		if err != nil {
			continue
		}
''')],None,'a fetched template that cannot be read','the cache without it counts as complete',
 script=kit('''gobuild
printf 'webrpc = v1\\nname = a\\n' >"$t/a.ridl"
export VP_GIT=$t/git VP_GITLOG=$t/gitlog
r=$t/git/github.com/o/gen-x@v1.0.0
mkdir -p "$r/z.go.tmpl"
printf '{{define "main"}}old{{end}}' >"$r/main.go.tmpl"
"$t/webrpc-gen" -schema="$t/a.ridl" -target=github.com/o/gen-x@v1.0.0
[ -z "$(find "$TMPDIR/webrpc-cache" -name .webrpc-gen-timestamp)" ]
'''))
# C22
seed('flag-dashes','C22',[('cmd/webrpc-gen/main.go','''		name = strings.TrimLeft(name, "-")
		if len''','''		name = strings.Trim(name, "-")
		if len''')],None,'an option whose name ends in a dash','the dash is dropped',
 script=kit('''gobuild
printf 'webrpc = v1\\nname = a\\n' >"$t/a.ridl"
mkdir "$t/x"
printf '{{define "main"}}{{range $k, $v := .Opts}}{{$k}}={{$v}}{{end}}{{end}}' >"$t/x/main.go.tmpl"
[ "$("$t/webrpc-gen" -schema="$t/a.ridl" -target="$t/x" -o-=1)" = "o-=1" ]
'''))
seed('ann-colon-value','C22',[('cmd/webrpc-gen/main.go','''		annotationName, annotationValue, _ := strings.Cut(fullAnnotation, ":")

		annotationsMap[annotationName] = annotationValue''','''		parts := append(strings.Split(fullAnnotation, ":"), "")

		annotationsMap[parts[0]] = parts[1]''')],None,'an annotation value with a colon','the value is cut',
 script=kit('''gobuild
printf 'webrpc = v1\\nname = a\\nversion = v1\\nservice S\\n  @k:"a:b"\\n  - M()\\n  @k:"a"\\n  - N()\\n' >"$t/a.ridl"
"$t/webrpc-gen" -schema="$t/a.ridl" -target=json -match=@k:a:b >"$t/o" || exit 1
grep -q '"M"' "$t/o" && ! grep -q '"N"' "$t/o"
'''))
# C23
seed('ext-last-dir','C23',[('webrpc.go','''	ext := filepath.Ext(absolutePath)
''','''	ext := filepath.Ext(strings.TrimRight(path, "~"))
'''),('webrpc.go','''	"path/filepath"
''','''	"path/filepath"
	"strings"
''')],None,'a file name with a tilde at the end','it is read as the file without it',
 script='''#!/bin/bash
. /opt/vp/env.sh >/dev/null 2>&1
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
printf 'webrpc = v1\\nname = a\\n' >"$t/a.ridl~"
mkdir "$t/m" && cd /repo && cat >"$t/m/z_test.go" <<'E'
package webrpc
import ("testing"; "os")
func TestZ(t *testing.T) { if _, err := ParseSchemaFile(os.Getenv("ZF")); err == nil { t.Fatal("accepted") } }
E
printf '{"Replace":{"/repo/zz_test.go":"%s"}}' "$t/m/z_test.go" >"$t/o.json"
ZF="$t/a.ridl~" go test -vet=off -overlay "$t/o.json" -run TestZ .
''')
# C24
seed('out-mode','C24',[('cmd/webrpc-gen/main.go','''	if outfile[0:1] != "/" {
		outfile = filepath.Join(cwd, outfile)
	}
''','''	if !filepath.IsLocal(outfile) {
		outfile = filepath.Clean(outfile)
	} else {
		outfile = filepath.Join(cwd, strings.ToLower(filepath.Dir(outfile)), filepath.Base(outfile))
	}
''')],None,'a relative -out path whose directory has capital letters','another file is written',
 script=kit('''gobuild
printf 'webrpc = v1\\nname = a\\n' >"$t/a.ridl"
cd "$t/tmp" && "$t/webrpc-gen" -schema="$t/a.ridl" -target=json -out=Out/o.json >/dev/null || exit 1
[ -f Out/o.json ]
'''))
seed('shake-after','C24',[('cmd/webrpc-gen/main.go','''	if *methodTreeShakeFlag && *serviceFlag != "" {
		s = schema.MethodTreeShake(s, strings.Split(*serviceFlag, ","))
	}

''',''''''),('cmd/webrpc-gen/main.go','''		s = schema.MatchMethodsWithAnnotations(s, matchAnnotations)
	}
''','''		s = schema.MatchMethodsWithAnnotations(s, matchAnnotations)
	}

	if *methodTreeShakeFlag && *serviceFlag != "" {
		s = schema.MethodTreeShake(s, strings.Split(*serviceFlag, ","))
	}
''')],None,'tree shaking together with an annotation filter','the types of the methods that the filter drops are dropped too',
 script=kit('''gobuild
printf 'webrpc = v1\\nname = a\\nversion = v1\\nstruct T\\n  - f: int\\nservice S\\n  - M(t: T)\\n  @k\\n  - N()\\n' >"$t/a.ridl"
"$t/webrpc-gen" -schema="$t/a.ridl" -target=json -service=S -methodTreeShake -match=@k >"$t/o" || exit 1
grep -q '"T"' "$t/o"
'''))
# C25
seed('optional-twice','C25',[(R+'struct_parser.go','''			field.optional = true
		}
''','''			field.optional = true
			p.match(tokenQuestionMark)
		}
''')],
 rejectsrc('"struct A\\n  - f??: int\\n"'),'a field with two question marks','one of them is skipped')
seed('import-member-comma','C25',[(R+'import_parser.go','''		p.skipComment(member.line)

		in.members''','''		p.skipComment(member.line)
		p.match(tokenComma)

		in.members''')],
 ridl_demo('''	_, err := parse(map[string]string{"main.ridl": head + "import a.ridl\\n  - A,\\n", "a.ridl": head + "struct A\\n  - f: int\\n"})
	check(err != nil, "accepted")'''),'a comma behind the name of an imported declaration','it is skipped')
for i in sys.argv[1:] or P:
    try: P[i]()
    except AssertionError as e: print(i,'ASSERT',e.args[0][:3])
