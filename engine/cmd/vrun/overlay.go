package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type overlay struct {
	files  map[string][]byte // absolute path -> content (both engines)
	hidden []string          // files that must not exist
	json   string            // overlay file for the go command
}

func buildOverlay(cfg *Config, work string) (*overlay, error) {
	o := &overlay{files: map[string][]byte{}}
	add := func(target, src string) error {
		b, err := os.ReadFile(src)
		if err != nil {
			return err
		}
		o.files[filepath.Join(repo, target)] = b
		return nil
	}
	if err := add("internal/vsym/vsym.go", filepath.Join(verif, "harness/vsym/vsym.go")); err != nil {
		return nil, err
	}
	for target, src := range cfg.Files {
		if err := add(target, filepath.Join(verif, "harness", src)); err != nil {
			return nil, err
		}
	}
	o.files[filepath.Join(repo, "internal/vsym/lits.go")] = litFile(cfg.Lits)
	for _, s := range cfg.Stubs {
		m, _ := filepath.Glob(filepath.Join(verif, "harness/stubs", s, "*.go"))
		if len(m) == 0 {
			return nil, fmt.Errorf("stub %s not found", s)
		}
		for _, f := range m {
			if err := add(filepath.Join("internal", s, filepath.Base(f)), f); err != nil {
				return nil, err
			}
		}
	}
	for _, rw := range cfg.Rewrites {
		m, _ := filepath.Glob(filepath.Join(repo, rw.Dir, "*.go"))
		for _, f := range m {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			base := filepath.Base(f)
			if len(rw.Only) > 0 && !contains(rw.Only, base) {
				continue
			}
			if contains(rw.Drop, base) {
				o.hidden = append(o.hidden, f)
				continue
			}
			b, err := os.ReadFile(f)
			if err != nil {
				return nil, err
			}
			nb, err := rewriteImports(f, b, rw.Imports)
			if err != nil {
				return nil, err
			}
			if nb != nil {
				o.files[f] = nb
			}
		}
	}
	// native driver
	name := cfg.PkgName
	if name == "" {
		name = filepath.Base(cfg.Pkg)
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "package %s\n\nimport (\n\t\"testing\"\n\n\t\"github.com/webrpc/webrpc/internal/vsym\"\n)\n\n", name)
	sb.WriteString("func TestVerifNative(t *testing.T) {\n\tvsym.NativeMain(map[string]func(){\n")
	for _, e := range cfg.Entries {
		fmt.Fprintf(&sb, "\t\t%q: %s,\n", e.Name, e.Name)
	}
	sb.WriteString("\t})\n}\n")
	driver := filepath.Join(repo, cfg.Pkg, "zz_verif_native_test.go")
	o.hidden = append(o.hidden, hiddenTests(filepath.Join(repo, cfg.Pkg))...)

	// overlay file for the go command
	repl := map[string]string{}
	n := 0
	var keys []string
	for k := range o.files {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	put := func(target string, b []byte) error {
		p := filepath.Join(work, fmt.Sprintf("f%d_%s", n, filepath.Base(target)))
		n++
		repl[target] = p
		return os.WriteFile(p, b, 0o644)
	}
	for _, k := range keys {
		if err := put(k, o.files[k]); err != nil {
			return nil, err
		}
	}
	for _, h := range o.hidden {
		repl[h] = ""
	}
	if err := put(driver, []byte(sb.String())); err != nil {
		return nil, err
	}
	b, _ := json.Marshal(map[string]any{"Replace": repl})
	o.json = filepath.Join(work, "overlay.json")
	// files dropped from a package become empty files for the loader
	for _, h := range o.hidden {
		if !strings.HasSuffix(h, "_test.go") {
			src, err := os.ReadFile(h)
			if err != nil {
				return nil, err
			}
			f, err := parser.ParseFile(token.NewFileSet(), h, src, parser.PackageClauseOnly)
			if err != nil {
				return nil, err
			}
			o.files[h] = []byte("package " + f.Name.Name + "\n")
		}
	}
	return o, os.WriteFile(o.json, b, 0o644)
}

// litFile lists the string and integer literals of the sources in dirs, as
// candidates for the special values the code treats.
func litFile(dirs []string) []byte {
	strs, ints := map[string]bool{}, map[int]bool{}
	for _, d := range dirs {
		m, _ := filepath.Glob(filepath.Join(repo, d, "*.go"))
		for _, f := range m {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			file, err := parser.ParseFile(token.NewFileSet(), f, nil, 0)
			if err != nil {
				continue
			}
			ast.Inspect(file, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.ImportSpec:
					return false
				case *ast.Field:
					if n.Tag != nil {
						if n.Type != nil {
							ast.Inspect(n.Type, func(ast.Node) bool { return true })
						}
						return false
					}
				case *ast.BasicLit:
					switch n.Kind {
					case token.STRING:
						if v, err := strconv.Unquote(n.Value); err == nil && v != "" && len(v) <= 24 && !strings.ContainsAny(v, " %\n\x00") {
							strs[v] = true
						}
					case token.INT:
						if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil && v > 2 && v <= 1<<20 {
							ints[int(v)] = true
						}
					}
				}
				return true
			})
		}
	}
	var sl []string
	for k := range strs {
		sl = append(sl, k)
	}
	sort.Strings(sl)
	var il []int
	for k := range ints {
		il = append(il, k)
	}
	sort.Ints(il)
	return []byte(fmt.Sprintf("package vsym\n\nvar lits = %#v\n\nvar litInts = %#v\n", append([]string{}, sl...), append([]int{}, il...)))
}

func hiddenTests(dir string) []string {
	m, _ := filepath.Glob(filepath.Join(dir, "*_test.go"))
	return m
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// rewriteImports replaces import paths; nil if nothing changes.
func rewriteImports(name string, src []byte, imports map[string]string) ([]byte, error) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, name, src, parser.ImportsOnly|parser.ParseComments)
	if err != nil {
		return nil, err
	}
	type edit struct {
		lo, hi int
		s      string
	}
	var edits []edit
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		to, ok := imports[p]
		if !ok {
			continue
		}
		lo, hi := fs.Position(im.Path.Pos()).Offset, fs.Position(im.Path.End()).Offset
		s := strconv.Quote(to)
		if im.Name == nil {
			// keep the name the code uses
			base := p[strings.LastIndexByte(p, '/')+1:]
			if alias := map[string]string{"github.com/posener/gitfs": "gitfs", "github.com/posener/gitfs/fsutil": "fsutil", "github.com/Masterminds/sprig/v3": "sprig",
				"github.com/davecgh/go-spew/spew": "spew", "github.com/webrpc/gen-golang": "golang", "github.com/webrpc/gen-typescript": "typescript",
				"github.com/webrpc/gen-javascript": "javascript", "github.com/webrpc/gen-openapi": "openapi", "github.com/webrpc/gen-kotlin": "kotlin", "github.com/webrpc/gen-dart": "dart"}[p]; alias != "" {
				base = alias
			}
			s = base + " " + s
		}
		edits = append(edits, edit{lo, hi, s})
	}
	if len(edits) == 0 {
		return nil, nil
	}
	out := append([]byte(nil), src...)
	for i := len(edits) - 1; i >= 0; i-- {
		e := edits[i]
		out = append(out[:e.lo:e.lo], append([]byte(e.s), out[e.hi:]...)...)
	}
	return out, nil
}
