"development aid: writes the second lot of planted bugs"
import sys; sys.path.insert(0,'/verif/dev')
from plant import plant
HEAD='webrpc = v1\\nname = t\\nversion = v1\\n'
def ridl_demo(body, imports='', files=None, pre=''):
    files=files or {}
    return '''package main
import (
	"fmt"
	"os"
	"testing/fstest"
	"github.com/webrpc/webrpc/schema"
	"github.com/webrpc/webrpc/schema/ridl"
	%s
)
const head = "%s"
%s
func parse(files map[string]string) (*schema.WebRPCSchema, error) {
	m := fstest.MapFS{}
	for n, s := range files { m[n] = &fstest.MapFile{Data: []byte(s)} }
	return ridl.NewParser(m, "/", "main.ridl").Parse()
}
func src(s string) (*schema.WebRPCSchema, error) { return parse(map[string]string{"main.ridl": head + s}) }
func check(ok bool, a ...interface{}) {
	if !ok { fmt.Println(a...); os.Exit(1) }
}
var _ = src
func main() {
%s
}
''' % (imports, HEAD, pre, body)
def kit(body): return '''#!/bin/bash
# run in the root of the repository
d=$(cd "$(dirname "$0")" && pwd)
. "$d/kit.sh"
'''+body
P={}
def seed(id,prop,edits,demo,needs,breaks,**k):
    P[id]=lambda: plant(id,prop,edits,demo,needs,breaks,**k)
R='schema/ridl/'
# C01
seed('meta-same-key','C01',[(R+'ridl.go','''				field.Meta = append(field.Meta, schema.TypeFieldMeta{
					key: val,
				})
''','''				known := false
				for _, m := range field.Meta {
					if _, ok := m[key]; ok {
						m[key], known = val, true
					}
				}
				if known {
					continue
				}
				field.Meta = append(field.Meta, schema.TypeFieldMeta{
					key: val,
				})
''')],
 ridl_demo('''	s, err := src("struct A\\n  - f: int\\n    + go.tag.db = f\\n    + go.tag.db = g\\n")
	check(err == nil, err)
	check(len(s.Types[0].Fields[0].Meta) == 2, "metadata", s.Types[0].Fields[0].Meta)'''),
 'a field with two metadata entries of the same key','only one entry is kept')
seed('enum-implicit-count','C01',[(R+'ridl.go','''		for i, def := range line.Values() {
			key, val := def.Left().String(), def.Right().String()
''','''		i := -1
		for _, def := range line.Values() {
			key, val := def.Left().String(), def.Right().String()
			if val == "" {
				i++
			}
''')],
 ridl_demo('''	s, err := src("enum Kind: uint32\\n  - A = 0\\n  - B\\n  - C = 7\\n  - D\\n")
	check(err == nil, err)
	f := s.Types[0].Fields
	check(f[1].Value == "1" && f[3].Value == "3", f[1].Value, f[3].Value)'''),
 'an enum that mixes values that are written with values that are not','values that are not written collide with those that are')
# C02
seed('map-space','C02',[(R+'type_parser.go','''		case tokenWhitespace:
			p.next()
			continue loop

		case tokenCloseAngleBracket:
			p.next()
''','''		case tokenCloseAngleBracket:
			p.next()
''')],
 ridl_demo('''	s, err := src("struct A\\n  - f: map <string, int>\\n")
	check(err == nil, err)
	check(s.Types[0].Fields[0].Type.Expr == "map<string,int>")'''),
 'a space between map and its types','a schema that was accepted is now rejected')
# C04
seed('comment-at-eof','C04',[(R+'parser.go','''		case tokenNewLine, tokenEOF:
			return nil
		case tokenWord:
			words''','''		case tokenNewLine:
			return nil
		case tokenWord:
			words''')],
 ridl_demo('''	done := make(chan bool)
	go func() { src("struct A\\n  - f: int\\n# the end"); close(done) }()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		check(false, "no answer after 5 seconds")
	}''','"time"'),
 'a comment on the last line, with no line end after it','the parser never returns')
# C06
# C07
seed('import-same-error','C07',[(R+'ridl.go','if !slices.Contains(s.Errors, imported.Errors[i]) && ','if !slices.ContainsFunc(s.Errors, func(e *schema.Error) bool { return e.Name == imported.Errors[i].Name }) && ')],
 ridl_demo('''	lib := func(c string) string { return head + "error " + c + " NotFound \\"no\\"\\n" }
	s, err := parse(map[string]string{"main.ridl": head + "import\\n  - a.ridl\\n  - b.ridl\\n", "a.ridl": lib("1"), "b.ridl": lib("2")})
	check(err != nil, "error 2 is lost", s != nil)'''),
 'two imported files that declare an error of the same name','the second error is dropped without an error')
seed('import-cache-key','C07',[(R+'ridl.go','''		if _, ok := p.cache[importPath]; !ok {''','''		cacheKey := line.Path().String()
		if _, ok := p.cache[cacheKey]; !ok {'''),
 (R+'ridl.go','if p.cache[importPath], err = parser.Parse(); err != nil {','if p.cache[cacheKey], err = parser.Parse(); err != nil {'),
 (R+'ridl.go','if imported := p.cache[importPath]; imported != nil {','if imported := p.cache[cacheKey]; imported != nil {')],
 ridl_demo('''	st := func(n string) string { return head + "struct " + n + "\\n  - f: int\\n" }
	s, err := parse(map[string]string{
		"main.ridl": head + "import\\n  - a/x.ridl\\n  - b/x.ridl\\n",
		"a/x.ridl": head + "import\\n  - t.ridl\\n", "a/t.ridl": st("One"),
		"b/x.ridl": head + "import\\n  - t.ridl\\n", "b/t.ridl": st("Two")})
	check(err == nil, err)
	check(len(s.Types) == 2 && s.Types[0].Name == "One" && s.Types[1].Name == "Two", len(s.Types))'''),
 'two directories with files that import a file of the same relative path','the second file gets the declarations of the first')
# C08
seed('import-self','C08',[(R+'internal/graph/graph.go','''	if slices.Contains(g.adjacency[u], v) {
		return false
	}''','''	if u == v || slices.Contains(g.adjacency[u], v) {
		return false
	}''')],
 ridl_demo('''	debug.SetMaxStack(64 << 20)
	_, err := parse(map[string]string{"main.ridl": head + "import\\n  - main.ridl\\n"})
	check(err != nil, "accepted")''','"runtime/debug"'),
 'a file that imports itself','the import is followed until the stack overflows')
# C09
seed('map-not-closed','C09',[('schema/var_type.go','''	if expr[len(expr)-1:] != ">" {
		return "", "", fmt.Errorf("schema error: invalid map syntax for '%s'", expr)
	}
''','')],
 ridl_demo('''	_, err := schema.ParseSchemaJSON([]byte(`{"webrpc":"v1","name":"t","version":"v1","types":[{"kind":"struct","name":"A","fields":[{"name":"f","type":"map<string,uint166"}]}]}`))
	check(err != nil, "accepted")'''),
 'a map in a JSON schema whose last character is not the closing bracket','an expression that spells no type is accepted')
# C10
seed('service-dup-case','C10',[('schema/service.go','if svc != s && name == strings.ToLower(string(svc.Name)) {','if svc != s && name == string(svc.Name) {')],
 ridl_demo('''	_, err := schema.ParseSchemaJSON([]byte(`{"webrpc":"v1","name":"t","version":"v1","services":[{"name":"Users","methods":[{"name":"A"}]},{"name":"USERS","methods":[{"name":"A"}]}]}`))
	check(err != nil, "accepted")'''),
 'two services whose names differ in the case of letters and are not written in lower case','the schema is accepted')
seed('status-600','C10',[('schema/error.go','s.HTTPStatus < 400 || s.HTTPStatus > 599','s.HTTPStatus < 400 || s.HTTPStatus > 600')],
 ridl_demo('''	_, err := src("error 1 NotFound \\"no\\" HTTP 600\\n")
	check(err != nil, "accepted")'''),
 'an error with HTTP status 600','the schema is accepted')
# C11
seed('basepath-cr','C11',[('schema/schema.go','strings.ContainsAny(s.BasePath, " \\t\\r\\n")','strings.ContainsAny(s.BasePath, " \\t\\n")'),
 ('schema/schema.go','parsed, err := url.ParseRequestURI(pathToParse)','parsed, err := url.ParseRequestURI(strings.TrimRight(pathToParse, "\\r"))')],
 ridl_demo('''	_, err := schema.ParseSchemaJSON([]byte(`{"webrpc":"v1","name":"t","version":"v1","basepath":"/rpc\\\\r"}`))
	check(err != nil, "accepted")'''),
 'a base path that ends in a carriage return','the base path is accepted with white space in it')
# C12
seed('json-method-errors','C12',[('schema/service.go','`json:"errors,omitempty"` // List','`json:"-"` // List')],
 ridl_demo('''	s, err := src("error 1 NotFound \\"no\\"\\nservice S\\n  - Get(a: int) errors NotFound\\n")
	check(err == nil, err)
	j, err := s.ToJSON()
	check(err == nil, err)
	b, err := schema.ParseSchemaJSON([]byte(j))
	check(err == nil, err)
	check(len(b.Services[0].Methods[0].Errors) == 1, "no errors")'''),
 'a method that lists its errors','the list is not exported')
# C14
seed('hash-memo','C14',[('schema/schema.go','''	h := sha1.New()
	h.Write([]byte(jsonString))
	return hex.EncodeToString(h.Sum(nil)), nil''','''	key := fmt.Sprintf("%s@%s:%d:%d:%d:%d", s.SchemaName, s.SchemaVersion, len(s.Types), len(s.Errors), len(s.Services), len(jsonString))
	if sum, ok := schemaHashes[key]; ok {
		return sum, nil
	}
	h := sha1.New()
	h.Write([]byte(jsonString))
	schemaHashes[key] = hex.EncodeToString(h.Sum(nil))
	return schemaHashes[key], nil'''),
 ('schema/schema.go','func (s *WebRPCSchema) ToJSON() (string, error) {','// hashes of the schemas seen so far\nvar schemaHashes = map[string]string{}\n\nfunc (s *WebRPCSchema) ToJSON() (string, error) {')],
 ridl_demo('''	h := func(t string) string {
		s, err := src("struct A\\n  - f: " + t + "\\n")
		check(err == nil, err)
		x, _ := s.SchemaHash()
		return x
	}
	a, b := h("int32"), h("int64")
	check(a != b, "same hash")'''),
 'the hashes of two schemas of the same name, version and size, one after the other','the second schema gets the hash of the first')
# C15
seed('shake-map-key','C15',[('schema/schema.go','''			walkVarType(vt.Map.Key, mark)
''','')],
 ridl_demo('''	s, err := src("enum Kind: uint32\\n  - A\\nservice S\\n  - M(a: map<Kind,int>)\\nservice T\\n  - M()\\n")
	check(err == nil, err)
	s = schema.MethodTreeShake(s, []string{"S"})
	check(len(s.Types) == 1, "Kind is gone")'''),
 'an enum that is used as the key of a map and nowhere else','a type that is used is removed')
# C16
seed('ignore-prefix','C16',[('schema/schema.go','''					if name == ann.AnnotationType && value == ann.Value {
						ignore = true''','''					if name == ann.AnnotationType && strings.HasPrefix(ann.Value, value) {
						ignore = true''')],
 ridl_demo('''	s, err := src("service S\\n  @acl:admin\\n  - A()\\n  @acl:administrator\\n  - B()\\n")
	check(err == nil, err)
	s = schema.IgnoreMethodsWithAnnotations(s, map[string]string{"acl": "admin"})
	check(len(s.Services[0].Methods) == 1, len(s.Services[0].Methods))'''),
 'an annotation value that is a prefix of another','-ignore drops methods that do not have the annotation')
# C17
seed('bigint-stream-out','C17',[('schema/helpers.go','''			for _, out := range m.Outputs {
				if out != nil && varTypeHasBigInt''','''			if m.StreamOutput {
				continue
			}
			for _, out := range m.Outputs {
				if out != nil && varTypeHasBigInt''')],
 ridl_demo('''	s, err := src("service S\\n  - M() => stream (a: bigint)\\n")
	check(err == nil, err)
	check(schema.SchemaUsesBigInts(s), "no bigint")'''),
 'a bigint that only a stream returns','the schema is reported as one that uses no bigint')
# C18
GT='''gotest ./gen || exit 1'''
def gendemo(body,imports=''):
    return dict(script=kit('''cp "$d/zz_test.go.txt" gen/zz_test.go || exit 3
go vet -modfile="$mod" ./gen >/dev/null 2>&1
gotest ./gen || exit 1
'''),extra={'zz_test.go.txt':'package gen\n\nimport (\n\t"testing"\n%s)\n\nfunc TestZ(t *testing.T) {\n%s\n}\n'%(imports,body)})
seed('map-of-list','C18',[('gen/funcmap_types.go','''	return found && strings.HasPrefix(key, "map<") && strings.HasSuffix(value, ">")
}

// Returns given map's key type''','''	return found && strings.Contains(key, "map<") && strings.HasSuffix(value, ">")
}

// Returns given map's key type''')],None,
 'a list of maps','isMapType says that a list of maps is a map',**gendemo('''	if isMapType("[]map<string,int>") { t.Fatal("a list") }
	if !isMapType("map<string,[]int>") { t.Fatal("a map") }'''))
# C19
seed('in-prints','C19',[('gen/funcmap_generic.go','		if reflect.DeepEqual(first, value) {','		if fmt.Sprint(first) == fmt.Sprint(value) {')],None,
 'two values of different types that print alike','in finds values that are not there',**gendemo('''	if in(1, "1") { t.Fatal("1") }
	if !in("a", 1, "a") { t.Fatal("a") }'''))
seed('sort-in-place','C19',[('gen/funcmap_generic.go','''	sorted := make([]interface{}, len(array))
	copy(sorted, array)
	sort.Slice''','''	sorted := array[:]
	sort.Slice''')],None,
 'an array that is used after it was sorted','sort changes the array it is given',**gendemo('''	a := array("b", "a")
	sortFn(a)
	if a[0] != "b" { t.Fatal(a) }'''))
# C20
seed('golang-anywhere','C20',[('gen/helpers.go','''	if strings.HasSuffix(target, "gen-golang") {''','''	if strings.Contains(target, "gen-golang") {''')],None,
 'a target whose path contains gen-golang but does not end in it','text that is not Go is formatted as Go, which fails',
 script=kit('''gobuild
printf 'webrpc = v1\\nname = a\\n' >"$t/a.ridl"
mkdir -p "$t/gen-golang/docs"
printf '{{define "main"}}not   Go{{end}}' >"$t/gen-golang/docs/main.go.tmpl"
"$t/webrpc-gen" -schema="$t/a.ridl" -target="$t/gen-golang/docs" -out="$t/o" >"$t/log" || { cat "$t/log"; exit 1; }
[ "$(cat "$t/o")" = "not   Go" ] || exit 1
'''))
# C21
seed('cache-dir-name','C21',[('gen/template_source.go','''	hash := fnv.New32a()
	hash.Write([]byte(s.target))

	parts := strings.Split(s.target, "/")
	name := parts[len(parts)-1]
''','''	parts := strings.Split(s.target, "/")
	name := parts[len(parts)-1]

	hash := fnv.New32a()
	hash.Write([]byte(name))
''')],None,
 'two repositories of the same name and different owners, one after the other','the second one gets the cached templates of the first',
 script=kit('''gobuild
printf 'webrpc = v1\\nname = a\\n' >"$t/a.ridl"
export VP_GIT=$t/git VP_GITLOG=$t/gitlog
for o in one two; do
  mkdir -p "$t/git/github.com/$o/gen-x@v1.0.0"
  printf '{{define "main"}}%s{{end}}' $o >"$t/git/github.com/$o/gen-x@v1.0.0/main.go.tmpl"
done
for o in one two; do
  [ "$("$t/webrpc-gen" -schema="$t/a.ridl" -target=github.com/$o/gen-x@v1.0.0)" = $o ] || { echo "not $o"; exit 1; }
done
'''))
seed('cache-info-last','C21',[('gen/template_source.go','''	err = os.WriteFile(filepath.Join(cacheDir, templateCacheInfoFilename), []byte(strings.TrimSpace(target)), 0755)
	if err != nil {
		return err
	}

	now := time.Now()''','''	defer func() {
		werr := os.WriteFile(filepath.Join(cacheDir, templateCacheInfoFilename), []byte(strings.TrimSpace(target)), 0755)
		if err == nil {
			err = werr
		}
	}()

	now := time.Now()'''),
 ('gen/template_source.go','func (s *TemplateSource) cacheTemplates(target string, remoteFS http.FileSystem, cacheDir string) error {','func (s *TemplateSource) cacheTemplates(target string, remoteFS http.FileSystem, cacheDir string) (err error) {')],None,
 'a crash, or a failing write, right after the timestamp of the cache is written','the cache counts as complete and the generator of its templates is wrong',
 script=kit('''gobuild
printf 'webrpc = v1\\nname = a\\n' >"$t/a.ridl"
export VP_GIT=$t/git VP_GITLOG=$t/gitlog
x=$(printf 'a%.0s' {1..240})
p=github.com/one/gen-x/$x/$x/$x/$x/$x/x
mkdir -p "$t/git/$p@v1.0.0"
printf '{{define "main"}}{{.CodeGen}}{{end}}' >"$t/git/$p@v1.0.0/main.go.tmpl"
run() { "$t/webrpc-gen" -schema="$t/a.ridl" -target=$p@v1.0.0; }
# no file of more than 1024 bytes can be written: the one that names the templates is longer
(ulimit -f 1; run >/dev/null)
o=$(run)
[ "$o" = x@v1.0.0 ] || { echo "${o: -40}"; exit 1; }
'''))
# C22
seed('arg-last-equal','C22',[('cmd/webrpc-gen/main.go','if i := strings.Index(arg, "="); i >= 0 {','if i := strings.LastIndex(arg, "="); i >= 0 {')],None,
 'a template option whose value contains an equal sign','the option is split at the wrong place',
 script=kit('''gobuild
printf 'webrpc = v1\\nname = a\\n' >"$t/a.ridl"
mkdir -p "$t/tpl"
printf '{{define "main"}}{{.Opts.q}}{{end}}' >"$t/tpl/main.go.tmpl"
[ "$("$t/webrpc-gen" -schema="$t/a.ridl" -target="$t/tpl" -q=a=b)" = "a=b" ] || exit 1
'''))
# C23
seed('ext-first-dot','C23',[('webrpc.go','	ext := filepath.Ext(absolutePath)\n','	ext := filepath.Base(absolutePath)\n	if i := strings.Index(ext, "."); i >= 0 {\n		ext = ext[i:]\n	}\n'),
 ('webrpc.go','	"path/filepath"\n','	"path/filepath"\n	"strings"\n')],
 '''package main
import (
	"fmt"
	"os"
	"github.com/webrpc/webrpc"
)
func main() {
	os.WriteFile("api.v1.ridl", []byte("webrpc = v1\\nname = t\\n"), 0644)
	if _, err := webrpc.ParseSchemaFile("api.v1.ridl"); err != nil { fmt.Println(err); os.Exit(1) }
}
''','a schema file with two dots in its name','the file is rejected')
# C24
seed('out-no-truncate','C24',[('cmd/webrpc-gen/main.go','''	err = os.WriteFile(outfile, []byte(protoGen), 0o644)
	if err != nil {
		return err
	}

	return nil''','''	f, err := os.OpenFile(outfile, os.O_CREATE|os.O_WRONLY, 0o644)
	if err != nil {
		return err
	}
	if _, err := f.Write(protoGen); err != nil {
		f.Close()
		return err
	}

	return f.Close()''')],None,
 'an output file that exists and is longer than the new output','the end of the old file stays behind the new output',
 script=kit('''gobuild
printf 'webrpc = v1\\nname = a\\n' >"$t/a.ridl"
mkdir -p "$t/tpl"
printf '{{define "main"}}short{{end}}' >"$t/tpl/main.go.tmpl"
echo "much longer than that" >"$t/out"
"$t/webrpc-gen" -schema="$t/a.ridl" -target="$t/tpl" -out="$t/out" >/dev/null || exit 1
[ "$(cat "$t/out")" = short ] || exit 1
'''))
seed('match-colon','C24',[('cmd/webrpc-gen/main.go','''		annotationName, annotationValue, _ := strings.Cut(fullAnnotation, ":")

		annotationsMap[annotationName] = annotationValue''','''		annotation := strings.Split(fullAnnotation, ":")
		annotation = append(annotation, "")

		annotationsMap[annotation[0]] = annotation[1]''')],None,
 'an annotation value that contains a colon','-match and -ignore compare only the part before the colon',
 script=kit('''gobuild
cat >"$t/a.ridl" <<E
webrpc = v1
name = a
version = v1
service S
@c:"d:e"
- A()
- B()
E
mkdir -p "$t/tpl"
printf '{{define "main"}}{{range .Services}}{{range .Methods}}{{.Name}}{{end}}{{end}}{{end}}' >"$t/tpl/main.go.tmpl"
[ "$("$t/webrpc-gen" -schema="$t/a.ridl" -target="$t/tpl" -match=@c:d:e)" = A ] || exit 1
'''))
for i in sys.argv[1:] or P: P[i]()
