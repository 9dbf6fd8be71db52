"development aid: writes the third lot of planted bugs"
src2=open('/verif/dev/seeds2.py').read(); exec(src2.split('P={}')[0])
exec(src2[src2.index('def gendemo('):src2.index("seed('map-of-list'")])
P={}
def seed(id,prop,edits,demo,needs,breaks,**k):
    P[id]=lambda: plant(id,prop,edits,demo,needs,breaks,**k)
R='schema/ridl/'; SC='schema/schema.go'
def js(body): return '`{"webrpc":"v1","name":"t","version":"v1",'+body+'}`'
def rejects(body): return ridl_demo('	_, err := schema.ParseSchemaJSON([]byte('+js(body)+'))\n	check(err != nil, "accepted")')
def accepts(body,more=''): return ridl_demo('	s, err := schema.ParseSchemaJSON([]byte('+js(body)+'))\n	check(err == nil, err)\n	_ = s\n'+more)
# C01
seed('both-streams','C01',[(R+'service_parser.go','''					mn.outputs.stream = true
''','''					mn.outputs.stream = !streamInput
''')],
 ridl_demo('''	s, err := src("service S\\n  - stream Chat(a: int) => stream (b: int)\\n")
	check(err == nil, err)
	m := s.Services[0].Methods[0]
	check(m.StreamInput && m.StreamOutput, m.StreamInput, m.StreamOutput)'''),
 'a method that streams in both directions','its output is not a stream')
seed('errors-once','C01',[(R+'ridl.go','''			methodErrors := make([]string, len(method.Errors()))
			for i, errorToken := range method.Errors() {
				methodErrors[i] = errorToken.String()
			}
''','''			methodErrors := make([]string, 0, len(method.Errors()))
			for _, errorToken := range method.Errors() {
				if !slices.ContainsFunc(methodErrors, func(e string) bool { return strings.HasPrefix(e, errorToken.String()) }) {
					methodErrors = append(methodErrors, errorToken.String())
				}
			}
''')],
 ridl_demo('''	s, err := src("error 1 NotFoundHere \\"no\\"\\nerror 2 NotFound \\"no\\"\\nservice S\\n  - M() errors NotFoundHere | NotFound\\n")
	check(err == nil, err)
	check(len(s.Services[0].Methods[0].Errors) == 2, s.Services[0].Methods[0].Errors)'''),
 'an error list with a name that is the beginning of an earlier one','the second error is dropped')
# C02
seed('mixed-blank','C02',[(R+'lexer.go','''	lx.next()

	for isSpace(lx.peek()) {
		lx.next()
	}
''','''	blank := lx.peek()
	lx.next()

	for lx.peek() == blank {
		lx.next()
	}
''')],
 ridl_demo('''	s, err := src("struct \\t A\\n  - f: int\\n")
	check(err == nil, err)
	check(len(s.Types) == 1)'''),
 'a tab and a space next to each other where one blank is expected','a schema that was accepted is now rejected')
# C03
seed('lexer-bom','C03',[(R+'lexer.go','''	s := []rune(in)
''','''	s := []rune(strings.TrimPrefix(in, "\\ufeff"))
'''),(R+'lexer.go','''	"fmt"
''','''	"fmt"
	"strings"
''')],
 '''GO''' , 'a source that begins with a byte order mark','the first character is given to no token',
 script='''#!/bin/bash
# run in the root of the repository
. /opt/vp/env.sh >/dev/null 2>&1
export GOFLAGS=-mod=mod GOPROXY=off
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
cp -r schema go.mod go.sum "$t/" || exit 3
cd "$t" && find . -name '*_test.go' -delete
cat >schema/ridl/z_test.go <<'E'
package ridl
import "testing"
func TestZ(t *testing.T) {
	src, out := "\\ufeffname = a\\n", ""
	for tok := range newLexer(src).tokens { out += tok.val }
	if out != src { t.Fatalf("%q", out) }
}
E
timeout 200 go test -vet=off ./schema/ridl || exit 1
''')
# C04
seed('meta-no-field','C04',[(R+'struct_parser.go','''		case tokenDash:
			return parserStateStructFieldDefinition(mn)
''','''		case tokenDash:
			return parserStateStructFieldDefinition(mn)

		case tokenPlusSign:
			return parserStateStructFieldMeta(mn)
'''),(R+'struct_parser.go','''	return parserStateStructField(&StructNode{''','''	return parserStateStructFieldMeta(&StructNode{''')],
 ridl_demo('''	_, err := src("struct A\\n    + json = a\\n  - f: int\\n")
	check(err != nil, "accepted")'''),
 'metadata before the first field of a struct','the parser panics')
seed('annotation-at-eof','C04',[(R+'service_parser.go','''		case tokenHash:
			err := p.continueUntilEOL()''','''		case tokenEOF:
			if len(s.methodAnnotations) == 0 {
				p.emit(s)
				return parserDefaultState
			}

		case tokenHash:
			err := p.continueUntilEOL()''')],
 ridl_demo('''	done := make(chan bool)
	go func() { src("service S\\n  - A()\\n  @internal"); close(done) }()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		check(false, "no answer after 5 seconds")
	}''','"time"'),
 'an annotation at the end of the file, with no method after it','the parser never returns')
# C05
seed('string-trim','C05',[(R+'parser.go','''	stringValue, err := unescapeString(strings.Join(values, ""))''','''	stringValue, err := unescapeString(strings.TrimSpace(strings.Join(values, "")))''')],
 ridl_demo('''	s, err := src("error 1 NotFound \\" not found \\"\\n")
	check(err == nil, err)
	check(s.Errors[0].Message == " not found ", s.Errors[0].Message)'''),
 'a string that begins or ends with a blank','the blank is dropped')
# C06
seed('comment-first-line','C06',[(R+'parser.go','''; currentLine >= 0; currentLine-- {''','''; currentLine > 1; currentLine-- {''')],
 ridl_demo('''	s, err := parse(map[string]string{"main.ridl": "# about A\\nstruct A\\n  - f: int\\n" + head})
	check(err == nil, err)
	check(len(s.Types[0].Comments) == 1, s.Types[0].Comments)'''),
 'a comment on the first line of a file, with a declaration on the second','the comment is lost')
seed('comment-bang-anywhere','C06',[(R+'parser.go','''			if !strings.HasPrefix(comment, "!") {''','''			if strings.IndexByte(comment, '!') < 0 {''')],
 ridl_demo('''	s, err := src("# careful!\\nstruct A\\n  - f: int\\n")
	check(err == nil, err)
	check(len(s.Types[0].Comments) == 1, s.Types[0].Comments)'''),
 'a comment with an exclamation mark that is not its first character','the comment is lost')
# C07
seed('import-no-validate','C07',[(R+'ridl.go','if p.cache[importPath], err = parser.Parse(); err != nil {','if p.cache[importPath], err = parser.parse(); err != nil {')],
 ridl_demo('''	_, err := parse(map[string]string{"main.ridl": head + "import a.ridl\\n  - Good\\n",
		"a.ridl": head + "struct Good\\n  - f: int\\nstruct Bad\\n  - f: int\\n  - f: int\\n"})
	check(err != nil, "accepted")'''),
 'an import with a member list, from a file in which another declaration is not valid','the parse does not fail')
seed('member-fold','C07',[(R+'ridl.go','''		if name == whitelist[i] {''','''		if strings.EqualFold(name, whitelist[i]) {''')],
 ridl_demo('''	s, err := parse(map[string]string{"main.ridl": head + "import a.ridl\\n  - Id\\n",
		"a.ridl": head + "struct Id\\n  - f: int\\nerror 1 ID \\"no\\"\\n"})
	check(err == nil, err)
	check(len(s.Types) == 1 && len(s.Errors) == 0, len(s.Types), len(s.Errors))'''),
 'a member list that names a type, and an error of the same name in other letter case in the same file','the error is imported too')
# C08
seed('cycle-fold','C08',[(R+'ridl.go','''	p.imports.AddNode(filename)
	p.imports.AddEdge(p.path, filename)
''','''	p.imports.AddNode(strings.ToLower(filename))
	p.imports.AddEdge(strings.ToLower(p.path), strings.ToLower(filename))
''')],
 ridl_demo('''	s, err := parse(map[string]string{"main.ridl": head + "import User.ridl\\n",
		"User.ridl": head + "import user.ridl\\nstruct B\\n  - f: A\\n",
		"user.ridl": head + "struct A\\n  - f: int\\n"})
	check(err == nil, err)
	check(len(s.Types) == 2)'''),
 'a file that imports another whose name differs in the case of letters only','an import that is not circular is rejected')
# C09
seed('map-key-byte','C09',[('schema/var_type.go','''var VarKeyCoreTypes = []CoreType{
	T_String, T_Uint,''','''var VarKeyCoreTypes = []CoreType{
	T_String, T_Byte, T_Uint,''')],
 ridl_demo('''	_, err := src("struct A\\n  - f: map<byte,int>\\n")
	check(err != nil, "accepted")'''),
 'a map with byte keys','the map is accepted')
seed('type-fold','C09',[('schema/var_type.go','''		if structExpr == string(typ.Name) {''','''		if len(structExpr) > 1 && structExpr[:1] == string(typ.Name[:1]) && strings.EqualFold(structExpr, string(typ.Name)) {''')],
 ridl_demo('''	_, err := src("struct UserID\\n  - f: int\\nstruct A\\n  - f: UserId\\n")
	check(err != nil, "accepted")'''),
 'a reference that spells the name of a declared type in other letter case','the reference is accepted')
# C10
seed('field-dup-json','C10',[('schema/type.go','''		if _, ok := fieldList[fieldNameLower]; ok {''','''		if other, ok := fieldList[fieldNameLower]; ok && other == fieldName {''')],
 rejects('"types":[{"kind":"struct","name":"A","fields":[{"name":"id","type":"int","meta":[{"json":"a"}]},{"name":"ID","type":"int","meta":[{"json":"b"}]}]}]'),
 'two fields whose names differ in the case of letters and that have different JSON names','the schema is accepted')
seed('succinct-outputs','C10',[('schema/service.go','''	if len(m.Outputs) > 1 && m.Succinct {''','''	if len(m.Outputs) > 1 && len(m.Inputs) > 0 && m.Succinct {''')],
 rejects('"types":[{"kind":"struct","name":"A"}],"services":[{"name":"S","methods":[{"name":"M","succinct":true,"outputs":[{"name":"a","type":"A"},{"name":"b","type":"A"}]}]}]'),
 'a succinct method with two outputs and no input','the schema is accepted')
# C11
seed('basepath-collapse','C11',[(SC,'''		if !strings.HasSuffix(s.BasePath, "/") {
			s.BasePath += "/"
		}''','''		s.BasePath = strings.TrimRight(s.BasePath, "/") + "/"''')],
 accepts('"basepath":"/rpc//"','	check(s.BasePath == "/rpc//", s.BasePath)'),
 'a base path that ends in two slashes','one slash is dropped')
seed('basepath-host','C11',[(SC,'''parsed.Scheme != "" || parsed.Host != "" || ''','''parsed.Scheme != "" || ''')],
 rejects('"basepath":"//example.com/rpc"'),
 'a base path that begins with two slashes and a host name','a URL with a host is accepted')
# C12
seed('null-name','C12',[('schema/core_type.go','''	T_Null: "null",
	T_Any:  "any",
	T_Byte: "byte",
	T_Bool: "bool",
''','''	T_Any:  "any",
	T_Byte: "byte",
	T_Bool: "bool",
''')],
 ridl_demo('''	s, err := src("struct A\\n  - f: null\\n")
	check(err == nil, err)
	j, err := s.ToJSON()
	check(err == nil, err)
	_, err = schema.ParseSchemaJSON([]byte(j))
	check(err == nil, err)'''),
 'a field of type null','the exported schema cannot be read back')
# C13
seed('meta-not-string','C13',[('schema/type.go','''				jsonMetaString, ok := jsonMeta.(string)
				if !ok {
					return fmt.Errorf("schema error: invalid json type '%T' in field '%s' in type '%s': must be string", jsonMeta, fieldName, typName)
				}
''','''				jsonMetaString := jsonMeta.(string)
''')],
 rejects('"types":[{"kind":"struct","name":"A","fields":[{"name":"id","type":"int","meta":[{"json":1}]}]}]'),
 'metadata that gives a number as the JSON name of a field','reading the document panics')
# C14
seed('hash-fold','C14',[(SC,'''	h.Write([]byte(jsonString))''','''	h.Write([]byte(strings.ToLower(jsonString)))''')],
 ridl_demo('''	h := func(n string) string {
		s, err := src("struct " + n + "\\n  - f: int\\n")
		check(err == nil, err)
		x, _ := s.SchemaHash()
		return x
	}
	check(h("UserId") != h("UserID"), "same hash")'''),
 'two schemas with names that differ in the case of letters','they have the same hash')
# C15
seed('select-trim','C15',[(SC,'''		serviceMap[srv] = struct{}{}
''','''		serviceMap[strings.ToLower(srv)] = struct{}{}
'''),(SC,'''		if _, ok := serviceMap[srv.Name]; ok {''','''		if _, ok := serviceMap[strings.ToLower(srv.Name)]; ok {''')],
 accepts('"services":[{"name":"Users","methods":[{"name":"A"}]}]','	s = schema.MatchServices(s, []string{"users"})\n	check(len(s.Services) == 0, "users")'),
 'a service that is named in other letter case','a service that was not named is kept')
# C16
seed('match-last-wins','C16',[(SC,'''					if name == ann.AnnotationType && value == ann.Value {
						match = true
						break
					}''','''					match = name == ann.AnnotationType && value == ann.Value''')],
 accepts('"services":[{"name":"S","methods":[{"name":"A","annotations":{"acl":{"annotationType":"acl","value":"admin"},"auth":{"annotationType":"auth","value":"jwt"}}}]}]',
 '''	for i := 0; i < 50; i++ {
		s = schema.MatchMethodsWithAnnotations(s, map[string]string{"acl": "admin", "auth": "cookie"})
		check(len(s.Services[0].Methods) == 1, "the method is gone")
	}'''),
 'a filter with two annotations of which a method has the first with that value and the second with another','whether the method is kept depends on the order of the map')
# C17
seed('resp-list-name','C17',[('schema/helpers.go','''					respList = append(respList, [2]string{string(arg.Name), vt.List.Elem.Struct.Name + "[]"})''','''					respList = append(respList, [2]string{string(arg.Name), vt.List.Elem.Struct.Name})''')],
 ridl_demo('''	s, err := src("struct A\\n  - f: bigint\\nservice S\\n  - M() => (a: []A)\\n")
	check(err == nil, err)
	r := schema.SchemaBigIntFieldsByType(s)["MResponse"]
	check(len(r) == 1 && r[0] == [2]string{"a", "A[]"}, r)'''),
 'a method that returns a list of structs with a bigint','the list is reported as a single struct')
# C18
seed('minversion-and','C18',[('gen/funcmap_flow.go','''	if major != minMajor {
		return major > minMajor
	}

	return minor >= minMinor''','''	return major >= minMajor && minor >= minMinor''')],None,
 'a newer major version with a smaller minor version','the version is reported as too old',**gendemo('''	if !minVersion("v2.0", "v1.5.8") { t.Fatal("v2.0") }'''))
seed('map-value-trim','C18',[('gen/funcmap_types.go','''	return strings.TrimSuffix(value, ">")
}''','''	return strings.TrimRight(value, ">")
}''')],None,
 'a map of maps','the value type is cut short',**gendemo('''	if v := mapValueType("map<string,map<string,int>>"); v != "map<string,int>" { t.Fatal(v) }'''))
# C19
seed('exists-nil','C19',[('gen/funcmap_dict.go','''	_, ok := m[key]
	return ok''','''	return m[key] != nil''')],None,
 'a key whose value is nil','exists says that there is no such key',**gendemo('''	if !exists(dict("k", nil), "k") { t.Fatal("k") }'''))
seed('split-fields','C19',[('gen/funcmap_string.go','''	return strings.Split(str, sep)''','''	return strings.Split(strings.Trim(str, sep), sep)''')],None,
 'a text that begins or ends with the separator','the empty parts are dropped',**gendemo('''	if p := split(",", "a,b,"); len(p) != 3 { t.Fatal(p) }'''))
# C20
seed('old-target-fold','C20',[('gen/helpers.go','''	switch target {
	case "go":''','''	switch strings.TrimPrefix(target, "gen-") {
	case "go":''')],None,
 'a target called gen-go, gen-ts or gen-js','the old generator is used instead of the repository of that name',**gendemo('''	if v := getOldTarget("gen-go"); v != "gen-go" { t.Fatal(v) }'''))
seed('basepath-no-services','C20',[('gen/gen.go','''	if proto.BasePath == "" && len(proto.Services) > 0 {''','''	if proto.BasePath == "" {''')],None,
 'a schema with no services and no base path','the base path is set',**gendemo('''	s := &schema.WebRPCSchema{WebrpcVersion: "v1", SchemaName: "a"}
	out, err := Generate(s, "json", &Config{})
	if err != nil { t.Fatal(err) }
	if strings.Contains(out.Code, "/rpc/") { t.Fatal(out.Code) }''','	"strings"\n	"github.com/webrpc/webrpc/schema"\n'))
# C21
seed('cache-write-fatal','C21',[('gen/template_source.go','''				s.CacheRefreshErr = err
			}
		}''','''				sourceFS, s.CacheRefreshErr = cacheFS, err
			}
		}''')],None,
 'a cache that cannot be written','the fetched templates are not used',
 script=kit('''gobuild
printf 'webrpc = v1\\nname = a\\n' >"$t/a.ridl"
export VP_GIT=$t/git VP_GITLOG=$t/gitlog
mkdir -p "$t/git/github.com/o/gen-x@v1.0.0"
printf '{{define "main"}}ok{{end}}' >"$t/git/github.com/o/gen-x@v1.0.0/main.go.tmpl"
echo no directory >"$TMPDIR/webrpc-cache"
[ "$("$t/webrpc-gen" -schema="$t/a.ridl" -target=github.com/o/gen-x@v1.0.0)" = ok ] || exit 1
'''))
seed('cache-stale-files','C21',[('gen/template_source.go','''	if err := os.RemoveAll(cacheDir); err != nil {
		return err
	}
''','')],None,
 'a template file that is gone from the repository when it is fetched again','the cache still has it',
 script=kit('''gobuild
printf 'webrpc = v1\\nname = a\\n' >"$t/a.ridl"
export VP_GIT=$t/git VP_GITLOG=$t/gitlog
r=$t/git/github.com/o/gen-x@v1.0.0
mkdir -p "$r"
printf '{{define "main"}}{{template "old"}}{{end}}' >"$r/main.go.tmpl"
printf '{{define "old"}}old{{end}}' >"$r/old.go.tmpl"
run() { "$t/webrpc-gen" -schema="$t/a.ridl" -target=github.com/o/gen-x@v1.0.0 "$@"; }
[ "$(run)" = old ] || exit 3
rm "$r/old.go.tmpl"; printf '{{define "main"}}new{{end}}' >"$r/main.go.tmpl"
[ "$(run -refreshCache)" = new ] || exit 1
[ -z "$(find "$TMPDIR/webrpc-cache" -name old.go.tmpl)" ] || exit 1
'''))
# C22
seed('opt-trim','C22',[('cmd/webrpc-gen/main.go','''			value = arg[i+1:]''','''			value = strings.TrimRight(arg[i+1:], " ")''')],None,
 'a template option whose value ends in a blank','the blank is dropped',
 script=kit('''gobuild
printf 'webrpc = v1\\nname = a\\n' >"$t/a.ridl"
mkdir -p "$t/tpl"
printf '{{define "main"}}[{{.Opts.q}}]{{end}}' >"$t/tpl/main.go.tmpl"
[ "$("$t/webrpc-gen" -schema="$t/a.ridl" -target="$t/tpl" "-q=a ")" = "[a ]" ] || exit 1
'''))
# C23
seed('ext-fold','C23',[('webrpc.go','''	switch ext {
''','''	switch strings.ToLower(ext) {
'''),('webrpc.go','	"path/filepath"\n','	"path/filepath"\n	"strings"\n')],
 '''package main
import (
	"fmt"
	"os"
	"github.com/webrpc/webrpc"
)
func main() {
	os.WriteFile("api.RIDL", []byte("webrpc = v1\\nname = t\\n"), 0644)
	if _, err := webrpc.ParseSchemaFile("api.RIDL"); err == nil { fmt.Println("accepted"); os.Exit(1) }
}
''','a schema file whose extension has capital letters','the file is read')
# C24
seed('mkdir-one','C24',[('cmd/webrpc-gen/main.go','''		err := os.MkdirAll(outdir, 0o755)''','''		err := os.Mkdir(outdir, 0o755)''')],None,
 'an output file two missing directories down','the generator fails',
 script=kit('''gobuild
printf 'webrpc = v1\\nname = a\\n' >"$t/a.ridl"
mkdir -p "$t/tpl"
printf '{{define "main"}}x{{end}}' >"$t/tpl/main.go.tmpl"
"$t/webrpc-gen" -schema="$t/a.ridl" -target="$t/tpl" -out="$t/one/two/o" >/dev/null || exit 1
[ "$(cat "$t/one/two/o")" = x ] || exit 1
'''))
seed('env-over-flag','C24',[('cmd/webrpc-gen/main.go','''	default:
		s.SchemaVersion = *schemaVersion
	}''','''	default:
		s.SchemaVersion = os.ExpandEnv(*schemaVersion)
	}''')],None,
 'a -schemaVersion with a dollar sign','part of the version is replaced',
 script=kit('''gobuild
printf 'webrpc = v1\\nname = a\\n' >"$t/a.ridl"
mkdir -p "$t/tpl"
printf '{{define "main"}}{{.SchemaVersion}}{{end}}' >"$t/tpl/main.go.tmpl"
[ "$("$t/webrpc-gen" -schema="$t/a.ridl" -target="$t/tpl" '-schemaVersion=v1$x')" = 'v1$x' ] || exit 1
'''))

# tried and rejected: basepath-host (dead code), both-streams, mixed-blank, string-trim (pinned by tests)
for x in ('basepath-host','both-streams','mixed-blank','string-trim','minversion-and','cache-stale-files'): P.pop(x)
seed('meta-val-trim','C05',[(R+'ridl.go','''				key, val := meta.Left().String(), meta.Right().String()
				field.Meta''','''				key, val := meta.Left().String(), strings.TrimSpace(meta.Right().String())
				field.Meta''')],
 ridl_demo('''	s, err := src("struct A\\n  - f: int\\n    + doc = \\" text\\"\\n")
	check(err == nil, err)
	check(s.Types[0].Fields[0].Meta[0]["doc"] == " text", s.Types[0].Fields[0].Meta)'''),
 'a metadata value that begins or ends with a blank','the blank is dropped')
seed('alias-meta-comment','C02',[(R+'type_alias_parser.go','''		case tokenHash:
			p.continueUntilEOL()

		case tokenPlusSign:
			return parserStateTypeAliasMetaDefinition(ta)
''','''		case tokenPlusSign:
			return parserStateTypeAliasMetaDefinition(ta)
''')],
 ridl_demo('''	s, err := src("type A: int # number\\n    + go.type = Int\\n")
	check(err == nil, err)
	check(len(s.Types[0].Meta) == 1)'''),
 'a comment behind a type alias that has metadata','a schema that was accepted is now rejected')
for i in sys.argv[1:] or P:
    try: P[i]()
    except AssertionError as e: print(i,'ASSERT',e.args[0][:3])
