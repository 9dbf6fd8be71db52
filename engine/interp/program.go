package interp

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"

	"verif/engine/term"
)

type Program = program

// Load type-checks the packages with the overlay and builds SSA.
func Load(dir string, env []string, overlay map[string][]byte, buildFlags []string, patterns ...string) (*Program, []*packages.Package, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes,
		Dir:        dir,
		Env:        env,
		Overlay:    overlay,
		BuildFlags: buildFlags,
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if len(errs) < 10 {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog, roots := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	_ = roots
	p := &Program{prog: prog, globals: map[*ssa.Global]int{}, repoPrefix: "github.com/webrpc/webrpc", embeds: map[types.Object]string{}}
	packages.Visit(pkgs, nil, func(pk *packages.Package) {
		if pk.PkgPath == p.repoPrefix || strings.HasPrefix(pk.PkgPath, p.repoPrefix+"/") {
			p.findEmbeds(pk, overlay)
		}
	})
	return p, pkgs, nil
}

// findEmbeds notes the string variables that a go:embed directive sets.
func (p *Program) findEmbeds(pk *packages.Package, overlay map[string][]byte) {
	for _, f := range pk.Syntax {
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR || len(gd.Specs) != 1 {
				continue
			}
			vs := gd.Specs[0].(*ast.ValueSpec)
			doc := gd.Doc
			if vs.Doc != nil {
				doc = vs.Doc
			}
			if doc == nil || len(vs.Names) != 1 {
				continue
			}
			for _, c := range doc.List {
				pat, ok := strings.CutPrefix(c.Text, "//go:embed ")
				if !ok {
					continue
				}
				name := filepath.Join(filepath.Dir(pk.Fset.Position(f.Pos()).Filename), strings.Trim(strings.TrimSpace(pat), "\"`"))
				b, ok := overlay[name]
				if !ok {
					var err error
					if b, err = os.ReadFile(name); err != nil {
						continue
					}
				}
				obj := pk.TypesInfo.Defs[vs.Names[0]]
				if t, ok := obj.Type().Underlying().(*types.Basic); ok && t.Kind() == types.String {
					p.embeds[obj] = string(b)
				}
			}
		}
	}
}

func (p *Program) SSA(pk *packages.Package) *ssa.Package {
	s := p.prog.Package(pk.Types)
	if s != nil {
		s.Build()
	}
	return s
}

func (p *Program) newMachine(x *Explorer) (*Machine, error) {
	m := &Machine{
		p: p, x: x,
		maxSteps: x.MaxSteps, maxDepth: x.MaxDepth,
		methods: map[methodKey]*ssa.Function{},
		entered: map[*fnCode]bool{},
	}
	if m.maxSteps == 0 {
		m.maxSteps = 5_000_000
	}
	if m.maxDepth == 0 {
		m.maxDepth = 4000
	}
	m.resetPool()
	if rt := p.prog.ImportedPackage("runtime"); rt != nil {
		if t := rt.Type("errorString"); t != nil {
			m.rtErrType = t.Type()
		}
	}
	if m.rtErrType == nil {
		return nil, fmt.Errorf("runtime.errorString not found")
	}
	var err error
	if m.solver, err = term.NewSolver(x.SolverCmd...); err != nil {
		return nil, err
	}
	if len(x.CrossCmd) > 0 {
		if m.solver2, err = term.NewSolver(x.CrossCmd...); err != nil {
			return nil, err
		}
	}
	if err := m.initialise(); err != nil {
		return nil, err
	}
	return m, nil
}

func (m *Machine) resetPool() {
	m.pool = term.NewPool()
	for i := range m.byteTerms {
		m.byteTerms[i] = m.pool.BV(uint64(i), 8)
	}
	m.sumCache = map[string][]*summary{}
}

func (m *Machine) close() {
	m.solver.Close()
	if m.solver2 != nil {
		m.solver2.Close()
	}
}

// initialise runs the package initialisers once.
func (m *Machine) initialise() (err error) {
	m.initing = true
	m.st = &pathState{}
	m.side = map[any]any{}
	m.mainG = &gor{wake: make(chan struct{}, 1)}
	m.cur = m.mainG
	defer func() {
		m.initing = false
		m.journal = nil
		m.mapUndo = nil
		m.steps = 0
		m.sideInit = m.side
		if r := recover(); r != nil {
			err = fmt.Errorf("initialisation: %v", r)
			if tp, ok := r.(targetPanic); ok {
				err = fmt.Errorf("initialisation panics: %s", m.panicText(tp.v))
			}
		}
	}()
	t0 := time.Now()
	m.callFn(nil, m.x.Entry.Pkg.Func("init"), nil, nil)
	_ = t0
	return nil
}

// pkgInit runs one package initialiser; parts that cannot be interpreted are
// noted and left at their zero values.
func (m *Machine) pkgInit(caller *frame, fc *fnCode) {
	defer func() {
		if r := recover(); r != nil {
			msg := ""
			switch r := r.(type) {
			case pathEnd:
				msg = r.kind + ": " + r.msg
			case targetPanic:
				msg = "panic: " + m.panicText(r.v)
			case error:
				msg = r.Error() + shortStack()
			default:
				panic(r)
			}
			m.initNotes = append(m.initNotes, fc.fn.Pkg.Pkg.Path()+": "+msg)
		}
	}()
	m.steps = 0
	m.exec(nil, fc, nil, nil)
}

var skipInit = map[string]bool{
	"runtime": true, "os": true, "sync": true, "reflect": true, "syscall": true, "time": true,
	"net": true, "net/http": true, "crypto/tls": true, "testing": true, "os/exec": true,
	"context": true, "log": true, "encoding/json": true, "fmt": true, "regexp": true,
	"internal/godebug": true, "text/template": true, "math/rand": true, "math/rand/v2": true,
	"os/signal": true, "html": true, "unique": true, "weak": true, "encoding/gob": true,
	"math/big": true, "hash/crc32": true, "compress/flate": true, "mime": true, "embed": true,
	"regexp/syntax": true, "go/ast": true, "encoding/base64": false, "flag": false,
	"internal/poll": true, "internal/testlog": true, "crypto/sha1": true, "crypto": true,
}

func skipInitPkg(path string) bool {
	if skipInit[path] {
		return true
	}
	for _, pre := range []string{"internal/", "runtime/", "crypto/", "net/", "vendor/", "go/", "golang.org/x/", "hash/", "text/template/"} {
		if strings.HasPrefix(path, pre) {
			return path != "net/url" && path != "hash/fnv" && path != "internal/oserror"
		}
	}
	return false
}

// initBlocked says whether a function is skipped during initialisation.
func initBlocked(fc *fnCode) bool {
	if fc.fn.Synthetic == "package initializer" && fc.fn.Pkg != nil {
		return skipInitPkg(fc.fn.Pkg.Pkg.Path())
	}
	return false
}

func isPkgInit(fc *fnCode) bool { return fc.fn.Synthetic == "package initializer" }

var errorType = types.Universe.Lookup("error").Type()

func (m *Machine) namedType(pkg, name string) types.Type {
	p := m.p.prog.ImportedPackage(pkg)
	if p == nil {
		unsupported("package %s not loaded", pkg)
	}
	t := p.Type(name)
	if t == nil {
		unsupported("type %s.%s not found", pkg, name)
	}
	return t.Type()
}
