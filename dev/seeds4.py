"development aid: writes the fourth lot of planted bugs"
src3=open('/verif/dev/seeds3.py').read(); exec(src3.split('# C01')[0])
def rejectsrc(t): return ridl_demo('	_, err := src('+t+')\n	check(err != nil, "accepted")')
# C25
seed('field-equal','C25',[(R+'struct_parser.go','''		case tokenHash:
			p.continueUntilEOL()

		case tokenPlusSign:''','''		case tokenHash, tokenEqual:
			p.continueUntilEOL()

		case tokenPlusSign:''')],
 rejectsrc('"struct A\\n  - f: int = 5\\n"'),'a default value written behind a field','the value is skipped like a comment')
seed('enum-type-rest','C25',[(R+'enum_parser.go','''tokenColon, tokenWhitespace, tokenWord, tokenEOL)
	if err != nil {
		return p.stateError(err)
	}
''','''tokenColon, tokenWhitespace, tokenWord)
	if err != nil {
		return p.stateError(err)
	}
	if err := p.continueUntilEOL(); err != nil {
		return p.stateError(err)
	}
''')],
 rejectsrc('"enum E: int string\\n  - A\\n"'),'something behind the type of an enum','it is skipped')
seed('status-rest','C25',[(R+'error_parser.go','''		et.httpStatus = newTokenNode(matches[1])

		if err := p.expectOptionalCommentOrEOL(); err != nil {''','''		et.httpStatus = newTokenNode(matches[1])

		if err := p.continueUntilEOL(); err != nil {''')],
 rejectsrc('"error 1 NotFound \\"no\\" HTTP 404 500\\n"'),'something behind the HTTP status of an error','it is skipped')
seed('meta-rest','C25',[(R+'type_alias_parser.go','''		p.skipComment(left.line)

		ta.meta''','''		p.skipComment(left.line)

		if err := p.continueUntilEOL(); err != nil {
			return p.stateError(err)
		}

		ta.meta''')],
 rejectsrc('"type T: int\\n  + go.type = a b\\n"'),'two words as the meta value of a type alias','the second one is skipped')
seed('name-again','C25',[(R+'ridl.go','''			if s.SchemaName != "" {
				return nil''','''			if s.SchemaName != "" && s.SchemaName == value {
				return nil''')],
 ridl_demo('''	_, err := src("name = other\\n")
	check(err != nil, "accepted")'''),'two names for one schema','the first one is dropped')
seed('errors-none','C25',[(R+'service_parser.go','''			errorNames, err := p.expectErrorList()
			if err != nil {
				return p.stateError(err)
			}
''','''			errorNames, err := p.expectErrorList()
			if err != nil && p.cursor().tt != tokenNewLine {
				return p.stateError(err)
			}
''')],
 rejectsrc('"service S\\n  - M() errors\\n  - N()\\n"'),'errors without a name at the end of a line','the word is dropped')
seed('error-bar','C25',[(R+'error_list_parser.go','''		matches, err := p.match(tokenWhitespace, tokenBar, tokenWhitespace, tokenWord)
		if err != nil {
			break // No more error names
		}
		errorNames = append(errorNames, newTokenNode(matches[3]))
''','''		if _, err := p.match(tokenWhitespace, tokenBar); err != nil {
			break // No more error names
		}
		matches, err := p.match(tokenWhitespace, tokenWord)
		if err != nil {
			continue
		}
		errorNames = append(errorNames, newTokenNode(matches[1]))
''')],
 rejectsrc('"error 1 A \\"a\\"\\nservice S\\n  - M() errors A |\\n  - N()\\n"'),'a bar at the end of an error list','the bar is dropped')
# C01
seed('status-zero','C01',[(R+'ridl.go','''			errorType.HTTPStatus = int(httpStatus)
		} else {
			errorType.HTTPStatus = 400 // Default HTTP status code
		}
''','''			errorType.HTTPStatus = int(httpStatus)
		}
		if errorType.HTTPStatus == 0 {
			errorType.HTTPStatus = 400 // Default HTTP status code
		}
''')],
 rejectsrc('"error 1 A \\"a\\" HTTP 0\\n"'),'an error with HTTP status 0','the status becomes 400')
seed('enum-string-default','C01',[(R+'ridl.go','''					val = strconv.Itoa(i)
''','''					val = strconv.Itoa(i)
					if n := len(enumDef.Fields); n > 0 && enumDef.Fields[n-1].Value == val {
						val = strconv.Itoa(i + 1)
					}
''')],
 ridl_demo('''	s, err := src("enum E: int\\n  - A = 1\\n  - B\\n")
	check(err == nil, err)
	check(s.Types[0].Fields[1].Value == "1", s.Types[0].Fields[1].Value)'''),
 'a default value that equals the explicit value before it','the default is one more than the index')
seed('method-proxy-name','C01',[(R+'service_parser.go','''		if matches[2].val == wordProxy {''','''		if methodName.val == wordProxy {''')],
 ridl_demo('''	s, err := src("service S\\n  - stream proxy(a: int)\\n")
	check(err == nil, err)
	check(s.Services[0].Methods[0].StreamInput && s.Services[0].Methods[0].Name == "proxy")'''),
 'a streaming method named proxy','the document is rejected')
# C02
seed('space-before-paren','C02',[(R+'type_parser.go','''		case tokenWhitespace:
			p.next()
			continue

		case tokenCloseParen:
			tokens = append(tokens, tok)
			p.next()
			break loop
''','''		case tokenWhitespace:
			p.next()
			if p.cursor().tt == tokenCloseParen && len(values) > 1 {
				return nil, errUnexpectedToken
			}
			continue

		case tokenCloseParen:
			tokens = append(tokens, tok)
			p.next()
			break loop
''')],
 ridl_demo('''	_, err := src("service S\\n  - M(a: int, b: int )\\n")
	check(err == nil, err)'''),
 'a blank before the closing parenthesis of two arguments','the document is rejected')
# C03
seed('lexer-rune-error','C03',[(R+'lexer.go','''	s := []rune(in)
''','''	s := []rune(in)
	for i, r := range s {
		if r == '\\u00a0' {
			s[i] = ' '
		}
	}
''')],'''GO''','a no-break space in the source','the token has another text than the source',
 script='''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh >/dev/null 2>&1
export GOFLAGS=-mod=mod GOPROXY=off
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
cat >"$t/zz_test.go" <<'E'
package ridl
import "testing"
func TestZ(t *testing.T) {
	out := ""
	for tok := range newLexer("a\\u00a0b").tokens { out += tok.val }
	if out != "a\\u00a0b" { t.Fatalf("%q", out) }
}
E
printf '{"Replace":{"/repo/schema/ridl/zz_test.go":"%s"}}' "$t/zz_test.go" >"$t/o.json"
cd /repo && go test -overlay "$t/o.json" -run TestZ ./schema/ridl
''')
# C05
seed('escape-cr','C05',[(R+'parser_util.go','''				case '"':
					out = out + string(n)
''','''				case '"', '/':
					out = out + string(n)
''')],
 rejectsrc('"error 1 A \\"a\\\\/b\\"\\n"'),'an escaped slash','the escape is accepted')
# C06
# C07
seed('import-by-name','C07',[(R+'ridl.go','if !slices.Contains(s.Types, imported.Types[i]) && isImportAllowed','if !slices.ContainsFunc(s.Types, func(t *schema.Type) bool { return t.Name == imported.Types[i].Name }) && isImportAllowed')],
 ridl_demo('''	_, err := parse(map[string]string{"main.ridl": head + "import\\n  - a.ridl\\n  - b.ridl\\n",
		"a.ridl": head + "struct A\\n  - f: int\\n", "b.ridl": head + "struct A\\n  - g: string\\n"})
	check(err != nil, "accepted")'''),
 'two imported files that declare different types of one name','the second type is dropped')
# C08
seed('edge-once','C08',[(R+'ridl.go','''	p.imports.AddNode(filename)
	p.imports.AddEdge(p.path, filename)
''','''	if p.imports.AddNode(filename) {
		p.imports.AddEdge(p.path, filename)
	}
''')],
 ridl_demo('''	d := make(chan bool)
	go func() {
		_, err := parse(map[string]string{"main.ridl": head + "import a.ridl\\n", "a.ridl": head + "import b.ridl\\n", "b.ridl": head + "import c.ridl\\n", "c.ridl": head + "import a.ridl\\n"})
		d <- err != nil
	}()
	select {
	case ok := <-d:
		check(ok, "accepted")
	case <-time.After(20 * time.Second):
		check(false, "hangs")
	}''').replace('"fmt"','"fmt"\n	"time"'),
 'a cycle that does not go through the root file','parsing does not end')
seed('stack-stays','C08',[(R+'internal/graph/graph.go','''	recursionStack[node] = false
	return false
''','''	recursionStack[node] = len(g.adjacency[node]) == 1
	return false
''')],
 ridl_demo('''	_, err := parse(map[string]string{"main.ridl": head + "import\\n  - a.ridl\\n  - b.ridl\\n",
		"a.ridl": head + "import c.ridl\\n", "c.ridl": head + "import d.ridl\\n", "d.ridl": head, "b.ridl": head + "import e.ridl\\n", "e.ridl": head + "import ./a.ridl\\n"})
	check(err == nil, err)'''),
 'a file imported twice that itself imports one file','an acyclic import graph is rejected')
# C09
# C10
seed('type-dup-kind','C10',[('schema/type.go','''		if msg != t && name ==''','''		if msg != t && msg.Kind == t.Kind && name ==''')],
 rejects('"types":[{"kind":"struct","name":"A"},{"kind":"enum","name":"a","type":"int"},{"kind":"enum","name":"A","type":"int"}]').replace('{"kind":"enum","name":"a","type":"int"},',''),
 'a struct and an enum of one name','the schema is accepted')
# C11
seed('basepath-scheme','C11',[(SC,'''		if strings.ContainsAny(s.BasePath, "?#") {''','''		if strings.ContainsAny(strings.TrimRight(s.BasePath, "?#"), "?#") {''')],
 rejects('"basepath":"/rpc/#"'),'a base path that ends in #','the path is accepted')
# C12
# C14
seed('hash-no-basepath','C14',[(SC,'''	jsonString, err := s.ToJSON()
	if err != nil {
		return "", err
	}

	h := sha1.New()''','''	c := *s
	c.BasePath = ""
	jsonString, err := c.ToJSON()
	if err != nil {
		return "", err
	}

	h := sha1.New()''')],
 ridl_demo('''	h := func(n string) string {
		s, err := src("basepath = " + n + "\\nstruct A\\n  - f: int\\n")
		check(err == nil, err)
		h, err := s.SchemaHash()
		check(err == nil, err)
		return h
	}
	check(h("/a") != h("/b"), "same")'''),
 'two schemas that differ in the base path','they have one hash')
# C15
seed('shake-optional','C15',[(SC,'''			for _, f := range t.Fields {
				walkVarType(f.Type, mark)
			}''','''			for _, f := range t.RequiredFields() {
				walkVarType(f.Type, mark)
			}''')],
 ridl_demo('''	s, err := src("struct A\\n  - f: int\\nstruct B\\n  - a?: A\\nservice S\\n  - M(b: B)\\n")
	check(err == nil, err)
	s = schema.MethodTreeShake(s, []string{"S"})
	check(len(s.Types) == 2, len(s.Types))'''),
 'a type that is used only by an optional field','the type is removed')
seed('shake-succinct','C15',[(SC,'''			for _, out := range m.Outputs {
				walkVarType(out.Type, mark)
			}
		}
	}

	// Keep''','''			if m.Succinct && !m.StreamOutput && len(m.Inputs) == len(m.Outputs)+1 {
				continue
			}
			for _, out := range m.Outputs {
				walkVarType(out.Type, mark)
			}
			if mark != nil && m.StreamOutput && len(m.Outputs) == 0 {
				break
			}
		}
	}

	// Keep''')],
 ridl_demo('''	s, err := src("struct A\\n  - f: int\\nservice S\\n  - M() => stream ()\\n  - N(a: A)\\n")
	check(err == nil, err)
	s = schema.MethodTreeShake(s, []string{"S"})
	check(len(s.Types) == 1, len(s.Types))'''),
 'a method that streams nothing before other methods','the types of the other methods are removed')
# C16
seed('match-give-up','C16',[(SC,'''					// match @key:value
					if name == ann.AnnotationType && value == ann.Value {
						ignore = true
						break
					}
''','''					// match @key:value
					ignore = name == ann.AnnotationType && value == ann.Value
					break
''')],
 ridl_demo('''	n := 0
	for i := 0; i < 200; i++ {
		s, err := src("service S\\n  @a:1 @b:2\\n  - M()\\n  - N()\\n")
		check(err == nil, err)
		s = schema.IgnoreMethodsWithAnnotations(s, map[string]string{"a": "1", "b": "3"})
		n += len(s.Services[0].Methods)
	}
	check(n == 200, n)'''),
 'a filter with two values of which a method has one','whether the method stays depends on the order of the map')
# C17
seed('bigint-optional','C17',[('schema/helpers.go','''		var list []any
		for _, f := range t.Fields {''','''		var list []any
		for _, f := range t.RequiredFields() {''')],
 ridl_demo('''	s, err := src("struct A\\n  - f?: bigint\\n")
	check(err == nil, err)
	check(len(schema.SchemaBigIntFieldsByType(s)["A"]) == 1)'''),
 'an optional field that is a bigint','the field is not reported')
seed('bigint-same-name','C17',[('schema/helpers.go','''			if len(respList) > 0 {
				out[responseName] = respList
			}''','''			if len(respList) > len(reqList) || len(reqList) == 0 && len(respList) > 0 {
				out[responseName] = respList
			}''')],
 ridl_demo('''	s, err := src("service S\\n  - M(a: bigint) => (b: bigint)\\n")
	check(err == nil, err)
	check(len(schema.SchemaBigIntFieldsByType(s)["MResponse"]) == 1)'''),
 'a method with bigints on both sides','the response is not reported')
# C18
seed('minor-digits','C18',[('gen/funcmap_flow.go','''		minor, err = strconv.Atoi(parts[1])
''','''		minor, err = strconv.Atoi(parts[len(parts)-1])
''')],None,'a version with a patch number','the patch number is taken for the minor one',**gendemo('''	if minVersion("v1.2.9", "v1.5.0") { t.Fatal("1.2.9 >= 1.5.0") }'''))
# C19
seed('dict-first','C19',[('gen/funcmap_dict.go','''		m[key] = pairs[i+1]
''','''		if _, ok := m[key]; !ok {
			m[key] = pairs[i+1]
		}
''')],None,'a dictionary with one key given twice','the first value stays',**gendemo('''	if v, _ := get(dict("k", 1, "k", 2), "k"); v != 2 { t.Fatal(v) }'''))
seed('coalesce-false','C19',[('gen/funcmap_generic.go','''		if !val.IsValid() || val.IsZero() {
			continue
		}''','''		if !val.IsValid() || val.Kind() != reflect.Slice && val.IsZero() {
			continue
		}''')],None,'a nil list as the first value','the nil list is returned',**gendemo('''	var l []string
	if v := coalesce(l, "a"); v != "a" { t.Fatal(v) }'''))
# C20
seed('header-version','C20',[('gen/gen.go','''	if t.SchemaVersion == "" {''','''	if strings.TrimLeft(t.SchemaVersion, "v0.") == "" {''')],None,
 'a schema of version v0 or v0.0.0','the header has the hash in place of the version',**gendemo('''	h := webRPCGenHeader(TemplateVars{WebRPCSchema: &schema.WebRPCSchema{SchemaName: "a", SchemaVersion: "v0"}, SchemaHash: "x"})
	if h[len(h)-4:] != "a@v0" { t.Fatal(h) }''','\t"github.com/webrpc/webrpc/schema"\n'))
# C21
seed('ttl-hours','C21',[('gen/template_source.go','cacheAge > templateCacheTTL {','cacheAge.Truncate(templateCacheTTL) > templateCacheTTL {')],None,
 'a cache that is between one and two hours old','the cache is used',
 script=kit('''gobuild
printf 'webrpc = v1\\nname = a\\n' >"$t/a.ridl"
export VP_GIT=$t/git VP_GITLOG=$t/gitlog
r=$t/git/github.com/o/gen-x@v1.0.0
mkdir -p "$r"
printf '{{define "main"}}old{{end}}' >"$r/main.go.tmpl"
run() { "$t/webrpc-gen" -schema="$t/a.ridl" -target=github.com/o/gen-x@v1.0.0 "$@"; }
[ "$(run)" = old ] || exit 3
printf '{{define "main"}}new{{end}}' >"$r/main.go.tmpl"
[ "$(run)" = old ] || exit 3
printf %s $(($(date +%s) - 5400)) >"$(find "$TMPDIR/webrpc-cache" -name .webrpc-gen-timestamp)"
[ "$(run)" = new ] || exit 1
'''))
# C24
seed('version-empty','C24',[('cmd/webrpc-gen/main.go','''	case "$WEBRPC_SCHEMA_VERSION": // Default option value.''','''	case "", "$WEBRPC_SCHEMA_VERSION": // Default option value.''')],None,
 '-schemaVersion= with an empty value','the version of the schema stays',
 script=kit('''gobuild
printf 'webrpc = v1\\nname = a\\nversion = v3\\n' >"$t/a.ridl"
"$t/webrpc-gen" -schema="$t/a.ridl" -target=json -schemaVersion= >"$t/o" || exit 1
! grep -q v3 "$t/o"'''))
# tried and rejected (pinned by tests, or equivalent)
for x in ('edge-once','name-again','status-rest','stack-stays'): P.pop(x)
for i in sys.argv[1:] or P:
    try: P[i]()
    except AssertionError as e: print(i,'ASSERT',e.args[0][:3])
