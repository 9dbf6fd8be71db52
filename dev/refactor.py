"""development aid: edits that keep the behaviour, in several styles; applies one set to a copy of the repository.
usage: refactor.py SET DIR"""
import sys,re,os
R={}
def r(set,f,old,new): R.setdefault(set,[]).append((f,old,new))
# ---- set a: helpers, generics, slices, maps
r('a','schema/schema.go','''	for _, t := range s.Types {
		if t == nil {
			return fmt.Errorf("schema error: type cannot be null")
		}
	}
	for _, e := range s.Errors {
		if e == nil {
			return fmt.Errorf("schema error: error cannot be null")
		}
	}
	for _, svc := range s.Services {
		if svc == nil {
			return fmt.Errorf("schema error: service cannot be null")
		}
	}
''','''	if err := firstError(
		noNil(s.Types, "type"),
		noNil(s.Errors, "error"),
		noNil(s.Services, "service"),
	); err != nil {
		return err
	}
''')
r('a','schema/schema.go','''func (s *WebRPCSchema) SchemaHash()''','''func noNil[T any](list []*T, what string) error {
	if slices.Contains(list, nil) {
		return fmt.Errorf("schema error: %s cannot be null", what)
	}
	return nil
}

func firstError(errs ...error) error {
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	return nil
}

func (s *WebRPCSchema) SchemaHash()''')
r('a','schema/schema.go','"net/url"\n','"net/url"\n\t"slices"\n')
r('a','schema/schema.go','''	h := sha1.New()
	h.Write([]byte(jsonString))
	return hex.EncodeToString(h.Sum(nil)), nil''','''	sum := sha1.Sum([]byte(jsonString))
	return hex.EncodeToString(sum[:]), nil''')
r('a','schema/schema.go','''	name = strings.ToLower(name)
	for _, message := range s.Types {
		if strings.ToLower(message.Name) == name {
			return message
		}
	}
	return nil
}''','''	name = strings.ToLower(name)
	i := slices.IndexFunc(s.Types, func(t *Type) bool { return strings.ToLower(t.Name) == name })
	if i < 0 {
		return nil
	}
	return s.Types[i]
}''')
r('a','schema/schema.go','''	serviceMap := map[string]struct{}{}
	for _, srv := range services {
		serviceMap[srv] = struct{}{}
	}

	var matchedServices []*Service
	for _, srv := range s.Services {
		if _, ok := serviceMap[srv.Name]; ok {
			matchedServices = append(matchedServices, srv)
		}
	}

	s.Services = matchedServices
''','''	var matched []*Service
	for _, srv := range s.Services {
		if slices.Contains(services, srv.Name) {
			matched = append(matched, srv)
		}
	}
	s.Services = matched
''')
r('a','schema/schema.go','''	for i, srv := range s.Services {
		var methods []*Method
		for _, method := range srv.Methods {
			match := false
			for name, value := range annotations {
				ann, ok := method.Annotations[name]
				if !ok {
					continue
				}

				trimmedAnnVal := strings.Trim(value, " ")
				if trimmedAnnVal == "" {
					// match annotation types only
					if name == ann.AnnotationType {
						match = true
						break
					}
				} else {
					// match @key:value
					if name == ann.AnnotationType && value == ann.Value {
						match = true
						break
					}
				}
			}

			if match {
				methods = append(methods, method)
			}
		}

		s.Services[i].Methods = methods
	}

	return s
}
''','''	filterMethods(s, func(m *Method) bool { return m.matches(annotations) })

	return s
}

func filterMethods(s *WebRPCSchema, keep func(m *Method) bool) {
	for _, srv := range s.Services {
		var methods []*Method
		for m := range methodsOf(srv, keep) {
			methods = append(methods, m)
		}
		srv.Methods = methods
	}
}

func methodsOf(srv *Service, keep func(m *Method) bool) iter.Seq[*Method] {
	return func(yield func(*Method) bool) {
		for _, m := range srv.Methods {
			if keep(m) && !yield(m) {
				return
			}
		}
	}
}

func (m *Method) matches(annotations map[string]string) bool {
	for _, name := range slices.Sorted(maps.Keys(annotations)) {
		ann := m.Annotations[name]
		if ann == nil || ann.AnnotationType != name {
			continue
		}
		if value := annotations[name]; strings.Trim(value, " ") == "" || value == ann.Value {
			return true
		}
	}
	return false
}
''')
r('a','schema/schema.go','"fmt"\n','"fmt"\n\t"iter"\n\t"maps"\n')
r('a','schema/var_type.go','''	for _, t := range allowedList {
		if dt == t {
			return true
		}
	}
	return false
}''','''	return slices.Contains(allowedList, dt)
}''')
r('a','schema/var_type.go','"fmt"\n','"fmt"\n\t"slices"\n')
r('a','schema/var_type.go','''	p := strings.Index(expr, ",")
	if p < 0 {
		return "", "", fmt.Errorf("schema error: invalid map syntax for '%s'", expr)
	}

	key := expr[0:p]
	value := expr[p+1:]

	return key, value, nil''','''	key, value, ok := strings.Cut(expr, ",")
	if !ok {
		return "", "", fmt.Errorf("schema error: invalid map syntax for '%s'", expr)
	}

	return key, value, nil''')
r('a','schema/var_type.go','''	buf := &bytes.Buffer{}
	enc := json.NewEncoder(buf)
	enc.SetEscapeHTML(false)
	if err := enc.Encode(t.String()); err != nil {
		return nil, err
	}
	return bytes.TrimSuffix(buf.Bytes(), []byte("\\n")), nil''','''	var out strings.Builder
	enc := json.NewEncoder(&out)
	enc.SetEscapeHTML(false)
	err := enc.Encode(t.String())
	if err != nil {
		return nil, err
	}
	return []byte(strings.TrimRight(out.String(), "\\n")), nil''')
r('a','schema/var_type.go','	"bytes"\n','')
r('a','schema/type.go','''	for _, msg := range schema.Types {
		if msg != t && name == strings.ToLower(string(msg.Name)) {
			return fmt.Errorf("schema error: type '%s' was already declared", typName)
		}
	}
''','''	if schema.declaredTwice(t, name) {
		return fmt.Errorf("schema error: type '%s' was already declared", typName)
	}
''')
r('a','schema/type.go','''func (t *Type) RequiredFields()''','''func (s *WebRPCSchema) declaredTwice(t *Type, lower string) (found bool) {
	defer func() {
		if found {
			return
		}
		found = false
	}()
loop:
	for i := 0; i < len(s.Types); i++ {
		switch other := s.Types[i]; {
		case other == t:
			continue loop
		case strings.ToLower(other.Name) == lower:
			found = true
			break loop
		}
	}
	return found
}

func (t *Type) RequiredFields()''')
r('a','schema/type.go','''	if t.Kind != TypeKind_Enum && t.Kind != TypeKind_Struct && t.Kind != TypeKind_Alias {
		return''','''	switch t.Kind {
	case TypeKind_Alias, TypeKind_Struct, TypeKind_Enum:
	default:
		return''')
r('a','schema/error.go','''	nameList := map[string]struct{}{}
	codeList := map[int]struct{}{}
	for _, e := range schema.Errors {
		name := strings.ToLower(e.Name)
		if _, ok := nameList[name]; ok {
			return fmt.Errorf("schema error: detected duplicate error name of '%s'", e.Name)
		}
		if _, ok := codeList[e.Code]; ok {
			return fmt.Errorf("schema error: detected duplicate error code of '%d'", e.Code)
		}
		nameList[name] = struct{}{}
		codeList[e.Code] = struct{}{}
	}

	return nil''','''	return uniqueErrors(schema.Errors)''')
r('a','schema/error.go','''func (s *Error) Parse(''','''func uniqueErrors(list []*Error) error {
	for i, e := range list {
		for _, o := range list[:i] {
			if strings.ToLower(o.Name) == strings.ToLower(e.Name) {
				return fmt.Errorf("schema error: detected duplicate error name of '%s'", e.Name)
			}
			if o.Code == e.Code {
				return fmt.Errorf("schema error: detected duplicate error code of '%d'", e.Code)
			}
		}
	}
	return nil
}

func (s *Error) Parse(''')
r('a','schema/helpers.go','''	for _, t := range s.Types {
		if t.Kind == TypeKind_Struct && structHasBigIntRecursive(t) {
			return true
		}
	}
''','''	if slices.ContainsFunc(s.Types, structHasBigIntRecursive) {
		return true
	}
''')
r('a','schema/helpers.go','import "strings"','import (\n\t"slices"\n\t"strings"\n)')
# ridl
r('a','schema/ridl/lexer.go','''	for i := range wordBreak {
		if r == wordBreak[i] {
			return true
		}
	}
	return false
}

func isWord(''','''	return strings.ContainsRune(string(wordBreak), r)
}

func isWord(''')
r('a','schema/ridl/lexer.go','''	for i := range wordBeginning {
		if r == wordBeginning[i] {
			return true
		}
	}
	return false
}''','''	switch {
	case 'a' <= r && r <= 'z', 'A' <= r && r <= 'Z', '0' <= r && r <= '9':
		return true
	}
	return r == '_'
}''')
r('a','schema/ridl/lexer.go','''import (
	"fmt"
)''','''import (
	"fmt"
	"strings"
)''')
r('a','schema/ridl/lexer.go','''		for i := range tokenTypeValue[tt] {
			if tokenTypeValue[tt][i] == r {
				return true
			}
		}
		return false''','''		for _, v := range tokenTypeValue[tt] {
			if v == r {
				return true
			}
		}
		return false''')
r('a','schema/ridl/lexer.go','''	return string(lx.input[lx.start:lx.pos])''','''	var b strings.Builder
	for _, r := range lx.input[lx.start:lx.pos] {
		b.WriteRune(r)
	}
	return b.String()''')
r('a','schema/ridl/parser_util.go','''	for _, r := range value {
		found := false
		for _, m := range wordNumber {
			if r == m {
				found = true
			}
		}
		if !found {
			return errUnexpectedToken
		}
	}
	return nil''','''	if i := strings.IndexFunc(value, func(r rune) bool { return !slices.Contains(wordNumber, r) }); i >= 0 {
		return errUnexpectedToken
	}
	return nil''')
r('a','schema/ridl/parser_util.go','''	size := len(in)
	out := ""

	for i := 0; i < size; i++ {
		c := in[i]

		if c == '\\\\' {
			i++
			if i < size {
				switch n := in[i]; n {
				case 'n':
					out = out + "\\n"
				case 't':
					out = out + "\\t"
				case '"':
					out = out + string(n)
				default:
					return "", fmt.Errorf("unexpected character %q after backslash", c)
				}
			} else {
				return "", errors.New("unexpected end after backslash")
			}
		} else {
			out = out + in[i:i+1]
		}
	}

	return out, nil''','''	var b bytes.Buffer
	b.Grow(len(in))

	for len(in) > 0 {
		c := in[0]
		in = in[1:]
		if c != '\\\\' {
			b.WriteByte(c)
			continue
		}
		if in == "" {
			return "", errors.New("unexpected end after backslash")
		}
		n, ok := escapes[in[0]]
		if !ok {
			return "", fmt.Errorf("unexpected character %q after backslash", c)
		}
		b.WriteByte(n)
		in = in[1:]
	}

	return b.String(), nil''')
r('a','schema/ridl/parser_util.go','''func expectWord''','''var escapes = map[byte]byte{'n': '\\n', 't': '\\t', '"': '"'}

func expectWord''')
r('a','schema/ridl/parser_util.go','''import (
	"errors"
	"fmt"
)''','''import (
	"bytes"
	"errors"
	"fmt"
	"slices"
	"strings"
)''')
r('a','schema/ridl/ridl.go','''			for i := range imported.Types {
				if !slices.Contains(s.Types, imported.Types[i]) && isImportAllowed(imported.Types[i].Name, members) {
					s.Types = append(s.Types, imported.Types[i])
				}
			}
			for i := range imported.Errors {
				if !slices.Contains(s.Errors, imported.Errors[i]) && isImportAllowed(imported.Errors[i].Name, members) {
					s.Errors = append(s.Errors, imported.Errors[i])
				}
			}
			for i := range imported.Services {
				if !slices.Contains(s.Services, imported.Services[i]) && isImportAllowed(imported.Services[i].Name, members) {
					s.Services = append(s.Services, imported.Services[i])
				}
			}
''','''			s.Types = merge(s.Types, imported.Types, members, func(t *schema.Type) string { return t.Name })
			s.Errors = merge(s.Errors, imported.Errors, members, func(t *schema.Error) string { return t.Name })
			s.Services = merge(s.Services, imported.Services, members, func(t *schema.Service) string { return t.Name })
''')
r('a','schema/ridl/ridl.go','''func isImportAllowed(''','''func merge[S ~[]E, E comparable](into, from S, members []string, name func(E) string) S {
	seen := make(map[E]bool, len(into))
	for _, x := range into {
		seen[x] = true
	}
	for _, x := range from {
		if seen[x] || !isImportAllowed(name(x), members) {
			continue
		}
		seen[x] = true
		into = append(into, x)
	}
	return into
}

func isImportAllowed(''')
r('a','schema/ridl/ridl.go','''	s := strings.Builder{}
	s.WriteString(e.err.Error())
	s.WriteString("\\nstack trace:\\n")
	for i, file := range e.stack {
		fmt.Fprintf(&s, "  - %s", file)
		if i < len(e.stack)-1 {
			s.WriteString("\\n")
		}
	}
	return s.String()''','''	return e.err.Error() + "\\nstack trace:\\n  - " + strings.Join(e.stack, "\\n  - ")''')
r('a','schema/ridl/ridl.go','''	rs := []rune(s)
	rs[0] = unicode.ToLower(rs[0])
	return string(rs)''','''	r, n := utf8.DecodeRuneInString(s)
	return string(unicode.ToLower(r)) + s[n:]''')
r('a','schema/ridl/ridl.go','\t"slices"\n','')
r('a','schema/ridl/ridl.go','"unicode"\n','"unicode"\n\t"unicode/utf8"\n')
# gen
r('a','gen/gen.go','''	v := strings.Split(path, "/")
	codeGen = v[len(v)-1] + ref''','''	codeGen = path[strings.LastIndexByte(path, '/')+1:] + ref''')
r('a','gen/gen.go','''	return fmt.Sprintf("%s;%s;%s", webrpcGenVersion, codeGen, schemaVersion)''','''	return strings.Join([]string{webrpcGenVersion, codeGen, schemaVersion}, ";")''')
r('a','gen/template_source.go','''	data := []byte(fmt.Sprintf("%d", now.Unix()))
''','''	data := strconv.AppendInt(nil, now.Unix(), 10)
''')
r('a','gen/template_source.go','''	return strings.HasPrefix(target, "/") || strings.HasPrefix(target, ".")''','''	return target != "" && (target[0] == '/' || target[0] == '.')''')
r('a','gen/template_source.go','''	parts := strings.Split(s.target, "/")
	name := parts[len(parts)-1]
''','''	_, name := path.Split(s.target)
''')
r('a','gen/template_source.go','"os"\n','"os"\n\t"path"\n')
r('a','cmd/webrpc-gen/main.go','''		name, value := arg, ""
		if i := strings.Index(arg, "="); i >= 0 {
			name = arg[:i]
			value = arg[i+1:]
		}

		if !strings.HasPrefix(name, "-") {
			return nil, nil, fmt.Errorf("option %q is invalid (expected -name=value)", arg)
		}
		name = strings.TrimLeft(name, "-")
		if len(name) == 0 {
			return nil, nil, fmt.Errorf("option %q is invalid (expected -name=value)", arg)
		}
''','''		name, value, _ := strings.Cut(arg, "=")
		dashed := name
		if name = strings.TrimLeft(name, "-"); name == "" || name == dashed {
			return nil, nil, fmt.Errorf("option %q is invalid (expected -name=value)", arg)
		}
''')
r('a','cmd/webrpc-gen/main.go','''	if _, err := os.Stat(outdir); os.IsNotExist(err) {
		err := os.MkdirAll(outdir, 0o755)
		if err != nil {
			return err
		}
	}

	err = os.WriteFile(outfile, []byte(protoGen), 0o644)
	if err != nil {
		return err
	}

	return nil''','''	if err := os.MkdirAll(outdir, 0o755); err != nil {
		return err
	}
	f, err := os.OpenFile(outfile, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0o644)
	if err != nil {
		return err
	}
	_, err = f.Write(protoGen)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err''')
r('a','cmd/webrpc-gen/main.go','''	for _, annonation := range strings.Split(annotations, ",") {''','''	for annonation := range strings.SplitSeq(annotations, ",") {''')

# ---- set b: restructured control flow, standard library swaps, closures, switch/if, reflect/type switches
r('b','cmd/webrpc-gen/main.go',"""func main() {
	// Collect""","""func main() {
	os.Exit(run(os.Args[1:]))
}

func run(args []string) int {
	// Collect""")
r('b','cmd/webrpc-gen/main.go',"collectCliArgs(flags, os.Args[1:])","collectCliArgs(flags, args)")
r('b','cmd/webrpc-gen/main.go',"@exits","")
r('b','cmd/webrpc-gen/main.go',"""	if genOutput.FormatErr != nil {
		fmt.Println(" format error       :", genOutput.FormatErr)
		return 1
	}
}
""","""	if genOutput.FormatErr != nil {
		fmt.Println(" format error       :", genOutput.FormatErr)
		return 1
	}
	return 0
}
""")
r('b','cmd/webrpc-gen/main.go',"""	switch *schemaVersion {
	case "$WEBRPC_SCHEMA_VERSION": // Default option value.
		if version := os.Getenv("WEBRPC_SCHEMA_VERSION"); version != "" {
			s.SchemaVersion = version
		}
	default:
		s.SchemaVersion = *schemaVersion
	}
""","""	if *schemaVersion != "$WEBRPC_SCHEMA_VERSION" {
		s.SchemaVersion = *schemaVersion
	} else if version, ok := os.LookupEnv("WEBRPC_SCHEMA_VERSION"); ok && version != "" {
		s.SchemaVersion = version
	}
""")
r('b','cmd/webrpc-gen/main.go',"""	if *methodTreeShakeFlag && *serviceFlag != "" {
		s = schema.MethodTreeShake(s, strings.Split(*serviceFlag, ","))
	}

	if *serviceFlag != "" {
		s = schema.MatchServices(s, strings.Split(*serviceFlag, ","))
	}
""","""	if services := strings.Split(*serviceFlag, ","); *serviceFlag != "" {
		if *methodTreeShakeFlag {
			s = schema.MethodTreeShake(s, services)
		}
		s = schema.MatchServices(s, services)
	}
""")
r('b','cmd/webrpc-gen/main.go',"""		if flags.Lookup(name) != nil {
			cliFlags = append(cliFlags, arg)
		} else if name == "h" || name == "help" {
			cliFlags = append(cliFlags, arg)
			templateOpts["help"] = ""
		} else {
			templateOpts[name] = value
		}
""","""		known := flags.Lookup(name) != nil
		switch {
		case !known && (name == "h" || name == "help"):
			templateOpts["help"] = ""
			known = true
		case !known:
			templateOpts[name] = value
		}
		if known {
			cliFlags = append(cliFlags, arg)
		}
""")
r('b','cmd/webrpc-gen/main.go',"""	err = writeOutfile(*outFlag, []byte(genOutput.Code))
	if err != nil {
		fmt.Fprintln(os.Stderr, err.Error())
		return 1
	}
""","""	if err = writeOutfile(*outFlag, []byte(genOutput.Code)); err != nil {
		io.WriteString(os.Stderr, err.Error()+"\\n")
		return 1
	}
""")
r('b','cmd/webrpc-gen/main.go','	"fmt"\n	"os"\n','	"fmt"\n	"io"\n	"os"\n')
r('b','gen/embed.go',"""	scanner := bufio.NewScanner(strings.NewReader(webrpc.GoModFile))
	for scanner.Scan() {
		line := scanner.Text()
""","""	for _, line := range strings.Split(webrpc.GoModFile, "\\n") {
		line = strings.TrimSuffix(line, "\\r")
""")
r('b','gen/embed.go','	"bufio"\n','')
r('b','gen/embed.go',"""		for _, gen := range []string{
			name,                                // golang
			fmt.Sprintf("%s@%s", name, version), // golang@v0.14.2
			fmt.Sprintf("github.com/webrpc/gen-%s", name),             // github.com/webrpc/gen-golang
			fmt.Sprintf("github.com/webrpc/gen-%s@%s", name, version), // github.com/webrpc/gen-golang@v0.14.2
		} {
			EmbeddedTargets[gen] = EmbeddedTarget{
				Name:      name,
				ImportTag: fmt.Sprintf("github.com/webrpc/gen-%s@%s", name, version),
				Version:   version,
				FS:        fs,
			}
		}
""","""		register(name, version, fs)
""")
r('b','gen/embed.go',"""func init() {""","""func register(name, version string, fs embed.FS) {
	repo := "github.com/webrpc/gen-" + name
	target := EmbeddedTarget{Name: name, Version: version, ImportTag: repo + "@" + version, FS: fs}
	for _, base := range [...]string{name, repo} {
		EmbeddedTargets[base] = target
		EmbeddedTargets[base+"@"+version] = target
	}
}

func init() {""")
r('b','gen/template_source.go',"""	cacheAvailable, cacheDir, cacheFS, cacheAge := s.openCacheDir()
	s.TmplDir = cacheDir

	if !cacheAvailable || s.config.RefreshCache || cacheAge > templateCacheTTL {
		s.TmplVersion = s.target
		// fetch from remote git
		sourceFS, err = gitfs.New(context.Background(), s.target, gitfs.OptPrefetch(true), gitfs.OptGlob("*.go.tmpl"))
		if err != nil {
			s.CacheRefreshErr = err
			// load from cache, if available
			if cacheAvailable {
				sourceFS = cacheFS
				s.CacheAge = cacheAge
			} else {
				return nil, fmt.Errorf("failed to fetch from remote git: %w", err)
			}
		} else {
			// cache remote git
			if err := s.cacheTemplates(s.target, sourceFS, cacheDir); err != nil {
				s.CacheRefreshErr = err
			}
		}
	} else {
		// load from cache
		sourceFS = cacheFS
		s.CacheAge = cacheAge
	}
""","""	cacheAvailable, cacheDir, cacheFS, cacheAge := s.openCacheDir()
	s.TmplDir = cacheDir

	fresh := cacheAvailable && !s.config.RefreshCache && cacheAge <= templateCacheTTL
	if !fresh {
		s.TmplVersion = s.target
		sourceFS, err = s.fetch(cacheDir)
		if err != nil && !cacheAvailable {
			return nil, err
		}
	}
	if fresh || err != nil {
		sourceFS, s.CacheAge = cacheFS, cacheAge
	}
""")
r('b','gen/template_source.go',"""func (s *TemplateSource) cacheTemplates(""","""func (s *TemplateSource) fetch(cacheDir string) (http.FileSystem, error) {
	remote, err := gitfs.New(context.Background(), s.target, gitfs.OptPrefetch(true), gitfs.OptGlob("*.go.tmpl"))
	if err != nil {
		s.CacheRefreshErr = err
		return nil, fmt.Errorf("failed to fetch from remote git: %w", err)
	}
	if err := s.cacheTemplates(s.target, remote, cacheDir); err != nil {
		s.CacheRefreshErr = err
	}
	return remote, nil
}

func (s *TemplateSource) cacheTemplates(""")
r('b','gen/template_source.go',"""	if err := os.Remove(timestampFile); err != nil && !os.IsNotExist(err) {
		return err
	}
	if err := os.RemoveAll(cacheDir); err != nil {
		return err
	}
""","""	if err := os.Remove(timestampFile); err != nil && !errors.Is(err, os.ErrNotExist) {
		return err
	}
	if err := os.RemoveAll(cacheDir); err != nil {
		return err
	}
""")
r('b','gen/template_source.go','	"context"\n','	"context"\n	"errors"\n')
r('b','gen/template_source.go',"""	for _, filename := range filenames {
		data, err := vfsutil.ReadFile(remoteFS, filename)
		if err != nil {
			return err
		}

		err = os.WriteFile(filepath.Join(cacheDir, filename), data, 0755)
		if err != nil {
			return err
		}
	}

	err = os.WriteFile(filepath.Join(cacheDir, templateCacheInfoFilename), []byte(strings.TrimSpace(target)), 0755)
	if err != nil {
		return err
	}

	now := time.Now()
	data := []byte(fmt.Sprintf("%d", now.Unix()))

	err = os.WriteFile(timestampFile, data, 0755)
	if err != nil {
		return err
	}

	return nil
""","""	write := func(name string, data []byte) error {
		return os.WriteFile(filepath.Join(cacheDir, name), data, 0755)
	}
	for _, filename := range filenames {
		f, err := remoteFS.Open(filename)
		if err != nil {
			return err
		}
		data, err := io.ReadAll(f)
		f.Close()
		if err != nil {
			return err
		}
		if err = write(filename, data); err != nil {
			return err
		}
	}
	for _, meta := range []struct{ name, text string }{
		{templateCacheInfoFilename, strings.TrimSpace(target)},
		{templateCacheTimestampFilename, strconv.FormatInt(time.Now().Unix(), 10)},
	} {
		if err := write(meta.name, []byte(meta.text)); err != nil {
			return err
		}
	}
	return nil
""")
r('b','gen/template_source.go','	"hash/fnv"\n','	"hash/fnv"\n	"io"\n')
r('b','gen/template_source.go',"""	if i := strings.Index(target, "@"); i >= 0 {
		name, ref = target[:i], target[i:]
	}
""","""	if before, after, found := strings.Cut(target, "@"); found {
		name, ref = before, "@"+after
	}
""")
r('b','gen/template_source.go',"""	b, _ := vfsutil.ReadFile(cacheFS, templateCacheTimestampFilename)
	if len(b) > 0 {
		ts, _ = strconv.ParseInt(strings.TrimSpace(string(b)), 10, 64)
		if ts > 0 {
			available = true
		}
	}

	return available, cacheDir, cacheFS, time.Since(time.Unix(ts, 0))
""","""	if b, err := vfsutil.ReadFile(cacheFS, templateCacheTimestampFilename); err == nil && len(b) > 0 {
		ts, _ = strconv.ParseInt(string(bytes.TrimSpace(b)), 10, 64)
		available = ts > 0
	}
	age := time.Now().Sub(time.Unix(ts, 0))

	return available, cacheDir, cacheFS, age
""")
r('b','gen/template_source.go','	"context"\n','	"bytes"\n	"context"\n')
r('b','gen/gen.go',"""	// Built-in targets
	switch target {
	case "json":
		genJSON, err := proto.ToJSON()
		if err != nil {
			return genOutput, err
		}
		genOutput.TmplVersion = target
		genOutput.IsLocal = true
		genOutput.Code = genJSON
		return genOutput, nil

	case "debug":
""","""	// Built-in targets
	if target == "json" || target == "debug" {
		genOutput.TmplVersion, genOutput.IsLocal = target, true
	}
	switch target {
	case "json":
		genOutput.Code, err = proto.ToJSON()
		if err != nil {
			return &GenOutput{}, err
		}
		return genOutput, nil

	case "debug":
""")
r('b','gen/gen.go',"""		genOutput.TmplVersion = target
		genOutput.IsLocal = true
		genOutput.Code = debug.Sdump(vars)
""","""		genOutput.Code = debug.Sdump(vars)
""")
r('b','gen/gen.go',"""	var b bytes.Buffer
	err = tmpl.ExecuteTemplate(&b, "main", vars)
	if err != nil {
		return genOutput, err
	}

	if config.Format && isGolangTarget(target) {
		genOutput.Code, genOutput.FormatErr = formatGoSource(b.Bytes())
	} else {
		genOutput.Code = b.String()
	}
""","""	b := new(strings.Builder)
	if err = tmpl.ExecuteTemplate(b, "main", vars); err != nil {
		return genOutput, err
	}

	genOutput.Code = b.String()
	if config.Format && isGolangTarget(target) {
		genOutput.Code, genOutput.FormatErr = formatGoSource([]byte(genOutput.Code))
	}
""")
r('b','gen/gen.go','	"bytes"\n','')
r('b','gen/gen.go',"""	cmd := filepath.Base(os.Args[0])
	if len(os.Args) > 1 {
		cmd = fmt.Sprintf("%s %s", cmd, strings.Join(os.Args[1:], " "))
	}
	return cmd
""","""	words := append([]string{filepath.Base(os.Args[0])}, os.Args[1:]...)
	return strings.Join(words, " ")
""")
r('b','gen/helpers.go',"""	switch target {
	case "go":
		return "github.com/webrpc/gen-golang@v0.6.0"
	case "ts":
		return "github.com/webrpc/gen-typescript@v0.6.0"
	case "js":
		return "github.com/webrpc/gen-javascript@v0.6.0"
	}
	return target
""","""	old := map[string]string{"go": "golang", "ts": "typescript", "js": "javascript"}
	if name, ok := old[target]; ok {
		return "github.com/webrpc/gen-" + name + "@v0.6.0"
	}
	return target
""")
r('b','gen/helpers.go',"""	target, _, _ = strings.Cut(target, "@")

	if target == "golang" || target == "go" {
		return true
	}

	if strings.HasSuffix(target, "gen-golang") {
		return true
	}

	return false
""","""	if i := strings.IndexByte(target, '@'); i >= 0 {
		target = target[:i]
	}

	return target == "golang" || target == "go" || strings.HasSuffix(target, "gen-golang")
""")
r('b','gen/funcmap_generic.go',"""	switch v := elems.(type) {
	case []string:
		if len(v) == 0 {
			return "", fmt.Errorf("first(): no elements in the array")
		}
		return v[0], nil
	case []interface{}:
		if len(v) == 0 {
			return "", fmt.Errorf("first(): no elements in the array")
		}
		return v[0], nil
	default:
		panic(fmt.Sprintf("first(): unknown arg type %T", v))
	}
""","""	return pick("first", elems, func(n int) int { return 0 })
""")
r('b','gen/funcmap_generic.go',"""	switch v := elems.(type) {
	case []string:
		if len(v) == 0 {
			return "", fmt.Errorf("last(): no elements in the array")
		}
		return v[len(v)-1], nil
	case []interface{}:
		if len(v) == 0 {
			return "", fmt.Errorf("last(): no elements in the array")
		}
		return v[len(v)-1], nil
	default:
		panic(fmt.Sprintf("last(): unknown arg type %T", v))
	}
}
""","""	return pick("last", elems, func(n int) int { return n - 1 })
}

func pick(fn string, elems interface{}, index func(n int) int) (interface{}, error) {
	var list []interface{}
	switch v := elems.(type) {
	case []string:
		for _, s := range v {
			list = append(list, s)
		}
	case []interface{}:
		list = v
	default:
		panic(fmt.Sprintf("%s(): unknown arg type %T", fn, v))
	}
	if len(list) == 0 {
		return "", fmt.Errorf("%s(): no elements in the array", fn)
	}
	return list[index(len(list))], nil
}
""")
r('b','gen/funcmap_generic.go',"""	for _, value := range values {
		if reflect.DeepEqual(first, value) {
			return true
		}
	}
	return false
""","""	return slices.ContainsFunc(values, func(value interface{}) bool {
		return reflect.DeepEqual(value, first)
	})
""")
r('b','gen/funcmap_generic.go','	"reflect"\n','	"reflect"\n	"slices"\n')
r('b','gen/funcmap_generic.go',"""	val := reflect.ValueOf(value)
	if !val.IsValid() || val.IsZero() {
		return defaultValue
	}

	return value
}
""","""	if isEmpty(value) {
		return defaultValue
	}

	return value
}

func isEmpty(v interface{}) bool {
	val := reflect.ValueOf(v)
	return !val.IsValid() || val.IsZero()
}
""")
r('b','gen/funcmap_generic.go',"""		val := reflect.ValueOf(v)
		if !val.IsValid() || val.IsZero() {
			continue
		}
		return v
	}
	return ""
""","""		if !isEmpty(v) {
			return v
		}
	}
	return ""
""")
r('b','gen/funcmap_generic.go',"""	sorted := make([]interface{}, len(array))
	copy(sorted, array)
	sort.Slice(sorted, func(i, j int) bool {
		return toString(sorted[i]) < toString(sorted[j])
	})
	return sorted
""","""	sorted := append([]interface{}{}, array...)
	sort.SliceStable(sorted, func(i, j int) bool {
		return strings.Compare(toString(sorted[i]), toString(sorted[j])) < 0
	})
	return sorted
""")
r('b','gen/funcmap_generic.go','	"sort"\n','	"sort"\n	"strings"\n')
r('b','gen/funcmap_dict.go',"""	m := map[string]interface{}{}
	for i := 0; i < len(pairs); i += 2 {
		key, ok := pairs[i].(string)
		if !ok {
			panic(fmt.Sprintf("dict argument(%v) must be string key", i))
		}
		m[key] = pairs[i+1]
	}

	return m
""","""	m := make(map[string]interface{}, len(pairs)/2)
	for i, key := range pairs {
		if i%2 != 0 {
			continue
		}
		k, ok := key.(string)
		if !ok {
			panic(fmt.Sprintf("dict argument(%v) must be string key", i))
		}
		m[k] = pairs[i+1]
	}

	return m
""")
r('b','gen/funcmap_flow.go',"""	if major != minMajor {
		return major > minMajor
	}

	return minor >= minMinor
""","""	return major > minMajor || major == minMajor && minor >= minMinor
""")
r('b','gen/funcmap_flow.go',"""	version = strings.TrimPrefix(version, "v")
	parts := strings.Split(version, ".")

	major, err = strconv.Atoi(parts[0])
	if err != nil {
		return
	}

	if len(parts) > 1 {
		minor, err = strconv.Atoi(parts[1])
		if err != nil {
			return
		}
	}

	return
""","""	first, rest, hasMinor := strings.Cut(strings.TrimPrefix(version, "v"), ".")
	if major, err = strconv.Atoi(first); err != nil || !hasMinor {
		return major, 0, err
	}
	second, _, _ := strings.Cut(rest, ".")
	minor, err = strconv.Atoi(second)

	return major, minor, err
""")
r('b','gen/funcmap_string.go',"""		keys := make([]string, 0, len(t))
		for k := range t {
			keys = append(keys, k)
		}
		sort.Strings(keys)

		var b strings.Builder
		for _, k := range keys {
			b.WriteString(fmt.Sprintf("%v=%v\\n", k, t[k]))
		}
		return b.String()
""","""		var b strings.Builder
		for _, k := range slices.Sorted(maps.Keys(t)) {
			fmt.Fprintf(&b, "%v=%v\\n", k, t[k])
		}
		return b.String()
""")
r('b','gen/funcmap_string.go','	"sort"\n','	"maps"\n	"slices"\n')
r('b','gen/funcmap_string.go',"""		strElems := make([]string, len(v))
		for i, elem := range v {
			strElems[i] = toString(elem)
		}
		return strings.Join(strElems, sep)
""","""		var b strings.Builder
		for i := range v {
			if i != 0 {
				b.WriteString(sep)
			}
			b.WriteString(toString(v[i]))
		}
		return b.String()
""")
r('b','gen/funcmap_string.go',"""		switch t := v.(type) {
		case string:
			return fn(t)
		default:
			panic(fmt.Errorf("%v(): unknown arg type %T", fnName, v))
		}
""","""		t, ok := v.(string)
		if !ok {
			panic(fmt.Errorf("%v(): unknown arg type %T", fnName, v))
		}
		return fn(t)
""")
r('b','gen/funcmap_types.go',"""	switch t := v.(type) {
	case schema.Type:
		return t.Kind == "struct"
	case *schema.Type:
		return t.Kind == "struct"
	case schema.VarType:
		return t.Type == schema.T_Struct
	case *schema.VarType:
		if t != nil {
			return t.Type == schema.T_Struct
		}
		return false
	default:
		return false
	}
""","""	return isKind(v, "struct", schema.T_Struct)
""")
r('b','gen/funcmap_types.go',"""	switch t := v.(type) {
	case schema.Type:
		return t.Kind == "alias"
	case *schema.Type:
		return t.Kind == "alias"
	case schema.VarType:
		return t.Type == schema.T_Alias
	case *schema.VarType:
		if t != nil {
			return t.Type == schema.T_Alias
		}
		return false
	default:
		return false
	}
}
""","""	return isKind(v, "alias", schema.T_Alias)
}

func isKind(v interface{}, kind string, core schema.CoreType) bool {
	if t, ok := v.(*schema.VarType); ok {
		return t != nil && t.Type == core
	}
	switch t := v.(type) {
	case *schema.Type:
		return t.Kind == kind
	case schema.Type:
		return t.Kind == kind
	case schema.VarType:
		return t.Type == core
	}
	return false
}
""")
r('b','gen/funcmap_types.go',"""	key, value, found := strings.Cut(toString(v), ",")
	return found && strings.HasPrefix(key, "map<") && strings.HasSuffix(value, ">")
""","""	_, _, ok := mapParts(toString(v))
	return ok
""")
r('b','gen/funcmap_types.go',"""	str := toString(v)
	key, value, found := strings.Cut(str, ",")
	if !found || !strings.HasPrefix(key, "map<") || !strings.HasSuffix(value, ">") {
		panic(fmt.Errorf("mapKeyValue: expected map<Type1,Type2>, got %v", str))
	}
	return strings.TrimSuffix(value, ">")
}
""","""	_, value, ok := mapParts(toString(v))
	if !ok {
		panic(fmt.Errorf("mapKeyValue: expected map<Type1,Type2>, got %v", toString(v)))
	}
	return value
}

func mapParts(expr string) (key, value string, ok bool) {
	key, value, ok = strings.Cut(expr, ",")
	if !ok {
		return
	}
	if key, ok = strings.CutPrefix(key, "map<"); !ok {
		return
	}
	value, ok = strings.CutSuffix(value, ">")
	return
}
""")
r('b','gen/funcmap.go',"""			_, size := utf8.DecodeRuneInString(input)
			return strings.ToUpper(input[:size]) + input[size:]
""","""			size := 1
			for size < len(input) && !utf8.RuneStart(input[size]) {
				size++
			}
			if r, n := utf8.DecodeRuneInString(input); r == utf8.RuneError {
				size = n
			}
			return strings.ToUpper(input[:size]) + input[size:]
""")
r('b','gen/funcmap.go',"""			j := 0
			if isUpper(letters[0]) {
				for j < length && isUpper(letters[j]) {
					j++
				}
				if j > 1 && j < length && isLower(letters[j]) && (j+1) < length && isLower(letters[j+1]) {
					j--
				}
				for j < length && (isLower(letters[j]) || isDigit(letters[j])) {
					j++
				}
			} else {
				for j < length && (isLower(letters[j]) || isDigit(letters[j])) {
					j++
				}
			}
""","""			skip := func(j int, is func(r rune) bool) int {
				for ; j < length; j++ {
					if !is(letters[j]) {
						break
					}
				}
				return j
			}
			j := skip(0, isUpper)
			if j > 1 && j+1 < length && isLower(letters[j]) && isLower(letters[j+1]) {
				j--
			}
			j = skip(j, func(r rune) bool { return isLower(r) || isDigit(r) })
""")
r('b','schema/ridl/lexer.go',"""	for state := lexDefaultState; state != nil; {
		state = state(lx)
	}

	lx.emit(tokenEOF)
	close(lx.tokens)
""","""	defer close(lx.tokens)

	state := lexState(lexDefaultState)
	for {
		if state = state(lx); state == nil {
			break
		}
	}
	lx.emit(tokenEOF)
""")
r('b','schema/ridl/lexer.go',"""	newPos := lx.pos + 1
	if newPos > lx.length {
		return false
	}
	lx.pos = newPos

	if lx.col < 1 {
		lx.line++
	}
	lx.col++

	return true
""","""	if lx.pos == lx.length {
		return false
	}
	if lx.col == 0 {
		lx.line++
	}
	lx.pos, lx.col = lx.pos+1, lx.col+1

	return true
""")
r('b','schema/ridl/lexer.go',"""	for {
		lx.next()
		if isWordBreak(lx.peek()) {
			break
		}
	}

	lx.emit(tokenWord)
	return lexDefaultState
""","""	for ok := true; ok; ok = !isWordBreak(lx.peek()) {
		lx.next()
	}
	lx.emit(tokenWord)

	return lexDefaultState
""")
r('b','schema/ridl/lexer.go',"""	if isEmpty(r) {
		return true
	}
	for i := range wordBreak {
		if r == wordBreak[i] {
			return true
		}
	}
	return false
""","""	switch r {
	case empty, 0, ' ', '\\t', '\\r', '\\n', '[', ']', '(', ')', '<', '>', '{', '}', '=', ':', '¿', '?', '¡', '!', ',', '"':
		return true
	}
	return false
""")
r('b','schema/ridl/lexer.go',"""	for i := range wordBeginning {
		if r == wordBeginning[i] {
			return true
		}
	}
	return false
""","""	return r == '_' || '0' <= r && r <= '9' || 'a' <= r && r <= 'z' || 'A' <= r && r <= 'Z'
""")
r('b','schema/ridl/lexer.go',"""	wordBeginning = []rune("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_")
	wordBreak     = []rune("\\x00 \\t\\r\\n[]()<>{}=:¿?¡!,\\"")
	wordNumber    =""","""	wordNumber =""")
r('b','schema/ridl/lexer.go',"""	switch {
	case isEmpty(r):
		return nil

	case isQuote(r):
		return lexStateQuote

	case isSlash(r):
		return lexStateSlash

	case isBackslash(r):
		return lexStateBackslash

	case isSpace(r):
		return lexStateSpace
""","""	single := map[rune]lexState{'"': lexStateQuote, '/': lexStateSlash, '\\\\': lexStateBackslash}
	if state, ok := single[r]; ok {
		return state
	}

	switch {
	case isEmpty(r):
		return nil

	case isSpace(r):
		return lexStateSpace
""")
r('b','schema/ridl/tokenizer.go',"""	tokenLen := len(tokens)

	if tokenLen == 0 {
		commentTokens = append(commentTokens, curToken.String())
		return commentTokens
	}

	// previous token was whitespace that means new word
	if tokens[tokenLen-1].tt == tokenWhitespace {
		commentTokens = append(commentTokens, curToken.String())
		return commentTokens
	}

	commentLen := len(commentTokens)
	if commentLen > 0 {
		// previous token was not whitespace that could be slash or any character
		// need to append current char to previous comment token
		// for instance https://www.google.com has `:`, `/`, `/` ....
		commentTokens[commentLen-1] += curToken.String()
	} else {
		commentTokens = append(commentTokens, curToken.String())
	}
	return commentTokens
""","""	newWord := len(tokens) == 0 || len(commentTokens) == 0 || tokens[len(tokens)-1].tt == tokenWhitespace
	if newWord {
		return append(commentTokens, curToken.String())
	}
	last := &commentTokens[len(commentTokens)-1]
	*last = *last + curToken.String()
	return commentTokens
""")
r('b','schema/ridl/tokenizer.go',"""	for tok := range lx.tokens {
		if tok.tt == tokenEOF {
			break
		}
""","""	for {
		tok, ok := <-lx.tokens
		if !ok || tok.tt == tokenEOF {
			break
		}
""")
r('b','schema/ridl/parser.go',"""			fname := runtime.FuncForPC(reflect.ValueOf(state).Pointer()).Name()
			_ = fname
			// log.Printf("state: %v", fname)
""","")
r('b','schema/ridl/parser.go','	"reflect"\n	"runtime"\n','	"slices"\n')
r('b','schema/ridl/parser.go',"""	for tok := range p.words {
		switch word := tok.(type) {

		case error:
			return word

		case Node:
			p.root.Push(word)

		case tokenType:
			if tok == tokenEOF {
				return nil
			}

		default:
			log.Fatalf("unexpected: %v (%T)", word, word)
		}
	}

	return nil
""","""	for {
		word, ok := <-p.words
		if !ok {
			return nil
		}
		if err, isErr := word.(error); isErr {
			return err
		}
		node, isNode := word.(Node)
		if !isNode {
			log.Fatalf("unexpected: %v (%T)", word, word)
		}
		p.root.Push(node)
	}
""")
r('b','schema/ridl/parser.go',"""	words := []string{}

	for {
		tok := p.cursor()

		switch tok.tt {
		case tokenNewLine, tokenEOF:
			return nil
		case tokenWord:
			words = append(words, tok.String())
		}

		p.next()
	}

	panic("unreachable")
""","""	for tt := p.cursor().tt; tt != tokenNewLine && tt != tokenEOF; tt = p.cursor().tt {
		p.next()
	}
	return nil
""")
r('b','schema/ridl/parser.go',"""	for {
		tok := p.cursor()

		switch tok.tt {

		case tokenWhitespace:
			p.next()
			continue

		case tokenEOF, tokenNewLine:
			// end of line
			return nil

		case tokenHash:
			return p.continueUntilEOL()

		default:
			// another kind of token, stop
			return errUnexpectedToken
		}

		panic("unreachable")
	}

	return nil
""","""	for p.cursor().tt == tokenWhitespace {
		p.next()
	}
	if tt := p.cursor().tt; tt == tokenHash {
		return p.continueUntilEOL()
	} else if tt != tokenEOF && tt != tokenNewLine {
		return errUnexpectedToken
	}
	return nil
""")
r('b','schema/ridl/parser.go',"""	matcher := func(p *parser) ([]*token, error) {
		tokens := make([]*token, 0, len(tokenTypes))
		matches := 0

		for _, expecting := range tokenTypes {
			tok := p.cursor()

			if tok.tt == expecting {
				tokens = append(tokens, tok)
				p.next()
				matches++
				continue
			}

			if expecting == tokenEOL {
				err := p.expectOptionalCommentOrEOL()
				if err != nil {
					return nil, err
				}
				tokens = append(tokens, &token{
					tt:   tokenEOL,
					line: tok.line,
					col:  tok.col,
				})
				break
			}

			if expecting != tokenWhitespace {
				p.rewind(matches)
				return nil, fmt.Errorf(`expecting %v, got %v`, expecting, tok)
			}

			tokens = append(tokens, &token{
				tt:   tokenWhitespace,
				val:  " ",
				line: tok.line,
				col:  tok.col,
			})

		}
		return tokens, nil
	}

	return matcher(p)
""","""	start := p.pos
	var tokens []*token
	for _, expecting := range tokenTypes {
		tok := p.cursor()
		switch {
		case tok.tt == expecting:
			p.next()
		case expecting == tokenEOL:
			if err := p.expectOptionalCommentOrEOL(); err != nil {
				return nil, err
			}
			return append(tokens, &token{tt: tokenEOL, line: tok.line, col: tok.col}), nil
		case expecting == tokenWhitespace:
			// optional
			tok = &token{tt: tokenWhitespace, val: " ", line: tok.line, col: tok.col}
		default:
			p.pos = start
			return nil, fmt.Errorf(`expecting %v, got %v`, expecting, tok)
		}
		tokens = append(tokens, tok)
	}
	return tokens, nil
""")
r('b','schema/ridl/parser.go',"""	values := []string{}
	for _, t := range tokens {
		values = append(values, t.val)
	}

	stringValue, err := unescapeString(strings.Join(values, ""))
	if err != nil {
		return nil, err
	}
""","""	value := ""
	for _, t := range tokens {
		value += t.val
	}

	stringValue, err := unescapeString(value)
	if err != nil {
		return nil, err
	}
""")
r('b','schema/ridl/parser.go',"""	if len(c) > 0 {
		// slices.Reverse is introduced with go 1.22
		for i, j := 0, len(c)-1; i < j; i, j = i+1, j-1 {
			c[i], c[j] = c[j], c[i]
		}
	}
""","""	slices.Reverse(c)
""")
r('b','schema/ridl/internal/graph/graph.go',"""	visited := make(map[T]bool)
	recursionStack := make(map[T]bool)

	for _, node := range g.nodes {
		if !visited[node] {
			if g.isCircular(node, visited, recursionStack) {
				return true
			}
		}
	}
	return false
""","""	// remove nodes without neighbors until none is left
	left := slices.Clone(g.nodes)
	for from, to := range g.adjacency {
		left = append(append(left, from), to...)
	}
	for changed := true; changed; {
		changed = false
		for i := len(left) - 1; i >= 0; i-- {
			if !slices.ContainsFunc(g.adjacency[left[i]], func(n T) bool { return slices.Contains(left, n) }) {
				left = slices.Delete(left, i, i+1)
				changed = true
			}
		}
	}
	return len(left) > 0
""")
r('b','schema/ridl/internal/graph/graph.go',"""func (g *Graph[T]) isCircular(node T, visited, recursionStack map[T]bool) bool {
	visited[node] = true
	recursionStack[node] = true

	for _, neighbor := range g.adjacency[node] {
		if !visited[neighbor] {
			if g.isCircular(neighbor, visited, recursionStack) {
				return true
			}
		} else if recursionStack[neighbor] {
			return true
		}
	}

	recursionStack[node] = false
	return false
}

""","")
r('b','webrpc.go',"""	ext := filepath.Ext(absolutePath)
	switch ext {
	case ".json":
		json, err := os.ReadFile(absolutePath)
		if err != nil {
			return nil, fmt.Errorf("failed to read %q: %w", path, err)
		}

		return schema.ParseSchemaJSON(json)

	case ".ridl":
		// Use""","""	ext := filepath.Ext(absolutePath)
	switch ext {
	case ".json":
		f, err := os.Open(absolutePath)
		if err != nil {
			return nil, fmt.Errorf("failed to read %q: %w", path, err)
		}
		defer f.Close()
		json, err := io.ReadAll(f)
		if err != nil {
			return nil, fmt.Errorf("failed to read %q: %w", path, err)
		}
		return schema.ParseSchemaJSON(json)

	case ".ridl":
		// Use""")
r('b','webrpc.go','	"fmt"\n','	"fmt"\n	"io"\n')
if __name__=='__main__':
    s,d=sys.argv[1:]
    for f,old,new in R[s]:
        p=d+'/'+f; t=open(p).read()
        if old=='@exits':
            j=t.index('func makeAnnotationsMap'); t=re.sub(r'os\.Exit\((\d)\)',r'return \1',t[:j])+t[j:]; open(p,'w').write(t); continue
        if t.count(old)<1: print('NOT FOUND',f,old[:80]); continue
        t=t.replace(old,new,1); open(p,'w').write(t)
    os.system(f'cd {d} && gofmt -l schema gen cmd/webrpc-gen; git diff --stat | tail -1')
