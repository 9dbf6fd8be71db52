"development aid: writes the sixth lot of planted bugs"
src5=open('/verif/dev/seeds5.py').read(); exec(src5.split('# C02')[0])
G='schema/ridl/internal/graph/'
seed('json-html','C12',[(SC,'''	enc.SetEscapeHTML(false)
''',''),(SC,'''	return buf.String(), nil''','''	return strings.NewReplacer("\\\\u003c", "<", "\\\\u003e", ">", "\\\\u0026", "&").Replace(buf.String()), nil''')],
 ridl_demo('''	s, err := src("error 1 A \\"a\\"\\n")
	check(err == nil, err)
	s.Errors[0].Message = "a\\\\u003cb"
	j, err := s.ToJSON()
	check(err == nil, err)
	r, err := schema.ParseSchemaJSON([]byte(j))
	check(err == nil, err)
	check(r.Errors[0].Message == s.Errors[0].Message, r.Errors[0].Message)'''),'a text with a backslash before u003c','the exported JSON does not have it')
seed('error-prefix-fold','C10',[('schema/error.go','''strings.HasPrefix(strings.ToLower(s.Name), "webrpc")''','''strings.HasPrefix(s.Name, "Webrpc") || strings.HasPrefix(s.Name, "WebRPC")''')],
 rejectsrc('"error 1 WEBRPCx \\"m\\"\\n"'),'an error whose name begins with the reserved word in other letters','it is accepted')
seed('code-negative','C13',[('schema/error.go','''	if s.Code <= 0 {''','''	if s.Code == 0 {''')],
 rejects('"errors":[{"code":-1,"name":"A","message":"m","httpStatus":400}]'),'an error with a negative code in JSON','it is accepted')
seed('json-empty-skip','C13',[('schema/parser.go','''	err = schema.Validate()
	if err != nil {
		return schema, err
	}
''','''	if len(schema.Types) == 0 && len(schema.Services) == 0 && schema.BasePath == "" && schema.WebrpcVersion == SCHEMA_VERSION {
		// nothing to resolve
		return schema, nil
	}

	err = schema.Validate()
	if err != nil {
		return schema, err
	}
''')],
 rejects('"errors":[{"code":1,"name":"A","message":"m","httpStatus":700}]'),'a JSON schema with nothing but errors','it is not validated')
seed('cycle-base','C08',[(R+'ridl.go','''	p.imports.AddEdge(p.path, filename)
''','''	p.imports.AddEdge(p.path, filename)
	if p.parent != nil && path.Base(p.parent.path) == path.Base(filename) {
		return nil, fmt.Errorf("circular import %q in file %q", path.Base(filename), p.path)
	}
''')],
 ridl_demo('''	_, err := parse(map[string]string{"main.ridl": head + "import a.ridl\\n", "a.ridl": head + "import x/main.ridl\\n", "x/main.ridl": head + "struct A\\n  - f: int\\n"})
	check(err == nil, err)'''),'a file that has the name of one two levels up, in another directory','the import is rejected')
seed('cycle-short','C08',[(G+'graph.go','''func (g *Graph[T]) IsCircular() bool {
	visited := make(map[T]bool)''','''func (g *Graph[T]) IsCircular() bool {
	if len(g.nodes) < 2 {
		return false
	}
	visited := make(map[T]bool)''')],None,'','')
P.pop('cycle-short')
seed('hash-blanks','C14',[(SC,'''	h.Write([]byte(jsonString))''','''	h.Write([]byte(strings.Join(strings.Fields(jsonString), " ")))''')],
 ridl_demo('''	h := func(n string) string {
		s, err := src(n)
		check(err == nil, err)
		h, err := s.SchemaHash()
		check(err == nil, err)
		return h
	}
	check(h("error 1 A \\"a  b\\"\\n") != h("error 1 A \\"a b\\"\\n"), "same")'''),'two schemas that differ in the number of blanks in a text','they have one hash')
seed('opt-first-wins','C22',[('cmd/webrpc-gen/main.go','''			templateOpts[name] = value
''','''			if _, ok := templateOpts[name]; !ok || value != "" {
				templateOpts[name] = value
			}
''')],None,'','')
P.pop('opt-first-wins')
seed('string-eol','C04',[(R+'parser.go','''		case tokenEOF:
			return nil, errUnexpectedEOF

		case tokenBackslash:
			// push backlash
			tokens = append(tokens, tok)
''','''		case tokenEOF:
			if len(tokens) == 0 || tokens[len(tokens)-1].tt != tokenBackslash {
				return nil, errUnexpectedEOF
			}

		case tokenBackslash:
			// push backlash
			tokens = append(tokens, tok)
''')],None,'','')
P.pop('string-eol')
seed('enum-count-explicit','C01',[(R+'ridl.go','''					val = strconv.Itoa(i)
''','''					val = strconv.Itoa(len(enumDef.Fields) % 128)
''')],
 ridl_demo('''	t := "enum E: int\\n"
	for i := 0; i < 130; i++ {
		t += "  - V" + strings.Repeat("x", i) + "\\n"
	}
	s, err := src(t)
	check(err == nil, err)
	check(s.Types[0].Fields[129].Value == "129", s.Types[0].Fields[129].Value)'''),'an enum of more than 128 values','the values start again')
P.pop('enum-count-explicit')
seed('ext-abs','C23',[('webrpc.go','''		return schema.ParseSchemaJSON(json)
''','''		s, err := schema.ParseSchemaJSON(json)
		if err != nil && s != nil && len(s.Services) > 0 && s.SchemaVersion == "" {
			s.SchemaVersion = "v0.0.0"
			err = s.Validate()
		}
		return s, err
''')],None,'','')
P.pop('ext-abs')
seed('json-bom','C23',[('webrpc.go','''		return schema.ParseSchemaJSON(json)
''','''		s, err := schema.ParseSchemaJSON(json)
		if err != nil {
			return nil, err
		}
		if s.SchemaName == "" {
			s.SchemaName = filepath.Base(absolutePath[:len(absolutePath)-len(ext)])
		}
		return s, nil
''')],None,'a JSON schema without a name','it is given the name of its file, unlike RIDL',script='''#!/bin/bash
. /opt/vp/env.sh >/dev/null 2>&1
export GOFLAGS=-mod=mod GOPROXY=off
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
cat >"$t/zz_test.go" <<'E'
package webrpc
import ("testing"; "os"; "path/filepath")
func TestZ(t *testing.T) {
	d := t.TempDir()
	f := filepath.Join(d, "a.json")
	os.WriteFile(f, []byte(`{"webrpc":"v1","version":"v1"}`), 0o600)
	s, err := ParseSchemaFile(f)
	if err != nil || s.SchemaName != "" { t.Fatal(s, err) }
}
E
printf '{"Replace":{"/repo/zz_test.go":"%s"}}' "$t/zz_test.go" >"$t/o.json"
cd /repo && go test -overlay "$t/o.json" -run TestZ .
''')
seed('same-comment','C06',[(R+'ridl.go','''	return strings.Split(comment, "\\n")
}

func buildAnnotations''','''	lines := strings.Split(comment, "\\n")
	return slices.Compact(lines)
}

func buildAnnotations''')],
 ridl_demo('''	s, err := src("# a\\n# a\\nstruct A\\n  - f: int\\n")
	check(err == nil, err)
	check(len(s.Types[0].Comments) == 2, s.Types[0].Comments)'''),'two equal lines of a comment in a row','one is dropped')
seed('same-error-twice','C10',[('schema/service.go','''			if schemaError.Name == errorName {''','''			if strings.HasPrefix(errorName, schemaError.Name) {''')],
 rejectsrc('"error 1 Bad \\"m\\"\\nservice S\\n  - M() errors BadRequest\\n"'),'a method error that begins with the name of a declared one','it is accepted')
seed('comment-empty-line','C06',[(R+'tokenizer.go','''			if parsingComment {
				lineComments[tok.line] = strings.Join(commentTokens, " ")
''','''			if parsingComment && len(commentTokens) > 0 {
				lineComments[tok.line] = strings.Join(commentTokens, " ")
''')],
 ridl_demo('''	s, err := src("# a\\n#\\n# b\\nstruct A\\n  - f: int\\n")
	check(err == nil, err)
	check(len(s.Types[0].Comments) == 3, s.Types[0].Comments)'''),'an empty line within a comment','what stands before it is lost')
seed('key-type-export','C12',[('schema/var_type.go','''fmt.Sprintf("map<%s,%s>", vt.Map.Key, buildVarTypeExpr(vt.Map.Value, ""))''','''fmt.Sprintf("map<%s,%s>", vt.Map.Key.Type, buildVarTypeExpr(vt.Map.Value, ""))''')],
 ridl_demo('''	s, err := src("enum E: int\\n  - A\\nstruct B\\n  - f: map<E,int>\\n")
	check(err == nil, err)
	j, err := s.ToJSON()
	check(err == nil, err)
	_, err = schema.ParseSchemaJSON([]byte(j))
	check(err == nil, err)'''),'a map whose key is an enum','the exported schema cannot be read back')
seed('type-nil','C13',[('schema/var_type.go','''	if t == nil || t.Expr == "" {
		return fmt''','''	if t.Expr == "" {
		return fmt''')],
 rejects('"services":[{"name":"S","methods":[{"name":"M","inputs":[{"name":"a"}]}]}]'),'an argument without a type in JSON','reading panics')
seed('shake-stream-out','C15',[(SC,'''			for _, out := range m.Outputs {
				walkVarType(out.Type, mark)
			}
''','''			for _, out := range m.Outputs {
				if m.StreamInput && !m.StreamOutput {
					// the response to a stream is a summary
					break
				}
				walkVarType(out.Type, mark)
			}
''')],
 ridl_demo('''	s, err := src("struct A\\n  - f: int\\nservice S\\n  - stream M(a: int) => (b: A)\\n")
	check(err == nil, err)
	s = schema.MethodTreeShake(s, []string{"S"})
	check(len(s.Types) == 1, len(s.Types))'''),'a method that streams its input only and returns a struct','the struct is shaken off')
seed('filter-all-annotations','C16',[(SC,'''					// match @key:value
					if name == ann.AnnotationType && value == ann.Value {
						ignore = true
						break
					}
''','''					// match @key:value
					if name == ann.AnnotationType && value == ann.Value {
						ignore = len(annotations) == 1 || len(method.Annotations) < 3
						break
					}
''')],None,'','')
P.pop('filter-all-annotations')
seed('match-none-keeps','C16',[('schema/schema.go','''			if match {
				methods = append(methods, method)
			}
		}

		s.Services[i].Methods = methods''','''			if match {
				methods = append(methods, method)
			}
		}

		if len(methods) == 0 && len(s.Services) > 1 {
			// nothing asked for in this service
			continue
		}
		s.Services[i].Methods = methods''')],
 ridl_demo('''	s, err := src("service A\\n  @a\\n  - M()\\nservice B\\n  - N()\\n")
	check(err == nil, err)
	s = schema.MatchMethodsWithAnnotations(s, map[string]string{"a": ""})
	check(len(s.Services[1].Methods) == 0, len(s.Services[1].Methods))'''),'a service none of whose methods match, beside another one','its methods stay')
seed('map-key-last','C18',[('gen/funcmap_types.go','''	default:
		str := toString(v)
		key, value, found := strings.Cut(str, ",")
		if !found || !strings.HasPrefix(key, "map<") || !strings.HasSuffix(value, ">") {
			panic(fmt.Errorf("mapKeyValue: expected map<Type1,Type2>, got %v", str))
		}
		return strings.TrimPrefix(key, "map<")''','''	default:
		str := toString(v)
		at := strings.LastIndex(str, ",")
		if at < 0 || !strings.HasPrefix(str, "map<") || !strings.HasSuffix(str, ">") {
			panic(fmt.Errorf("mapKeyValue: expected map<Type1,Type2>, got %v", str))
		}
		return strings.TrimPrefix(str[:at], "map<")''')],None,'the spelling of a map of maps','mapKeyType gives more than the key',**gendemo('''	if v := mapKeyType("map<string,map<int,bool>>"); v != "string" { t.Fatal(v) }'''))
for i in sys.argv[1:] or P:
    try: P[i]()
    except AssertionError as e: print(i,'ASSERT',e.args[0][:3])
