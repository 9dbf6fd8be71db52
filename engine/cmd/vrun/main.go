// vrun decides the property of one harness directory by symbolic execution of
// the code in /repo.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif/engine/interp"
)

type Rewrite struct {
	Dir     string            `json:"dir"`
	Imports map[string]string `json:"imports"`
	Only    []string          `json:"only"`
	Drop    []string          `json:"drop"` // files left out
}

type Entry struct {
	Name     string  `json:"name"`
	MapOrder bool    `json:"map_order"`
	MaxSteps int64   `json:"max_steps"`
	MaxDepth int     `json:"max_depth"`
	Weight   float64 `json:"weight"` // share of the time budget
	Thorough bool    `json:"thorough_only"`
	Workers  int     `json:"workers"`
	What     string  `json:"what"`
	Bounds   string  `json:"bounds"`
}

type Config struct {
	Property  string            `json:"property"`
	Pkg       string            `json:"pkg"` // package of the harness, relative to /repo
	PkgName   string            `json:"pkg_name"`
	Files     map[string]string `json:"files"` // path in /repo -> file below /verif/harness
	Stubs     []string          `json:"stubs"` // stub packages: /verif/harness/stubs/X -> /repo/internal/X
	Lits      []string          `json:"lits"`  // directories whose literals vsym.Lit offers
	Rewrites  []Rewrite         `json:"rewrites"`
	Entries   []Entry           `json:"entries"`
	QuickS    float64           `json:"quick_seconds"`
	ThoroughS float64           `json:"thorough_seconds"`
	Outside   []string          `json:"outside"` // stated limits
	Assume    []string          `json:"assumptions"`
}

var (
	verif = "/verif"
	repo  = "/repo"
)

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: vrun check ID | vrun replay FILE")
		os.Exit(2)
	}
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(20 << 30)
	if e, err := os.Executable(); err == nil {
		if d := filepath.Dir(filepath.Dir(e)); fileExists(filepath.Join(d, "harness")) {
			verif = d
		}
	}
	if d := os.Getenv("VERIF_REPO"); d != "" {
		repo = d
	}
	for _, e := range goEnv() {
		k, v, _ := strings.Cut(e, "=")
		os.Setenv(k, v)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(check(os.Args[2]))
	case "replay":
		os.Exit(replayFile(os.Args[2]))
	}
	os.Exit(2)
}

func fileExists(p string) bool { _, err := os.Stat(p); return err == nil }

func goEnv() []string {
	env := os.Environ()
	var out []string
	for _, e := range env {
		k, _, _ := strings.Cut(e, "=")
		switch k {
		case "GOFLAGS", "GOPROXY", "GOTOOLCHAIN", "GOSUMDB", "GO111MODULE", "GOWORK", "PATH", "HOME", "PWD":
			continue
		}
		out = append(out, e)
	}
	path := "/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin"
	if fileExists("/opt/veriftools/go1.25.14/bin") {
		path = "/opt/veriftools/go1.25.14/bin:" + path
	}
	return append(out, "HOME=/root", "PATH="+path, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOSUMDB=off", "GOWORK=off", "CGO_ENABLED=0")
}

func loadConfig(id string) (*Config, error) {
	b, err := os.ReadFile(filepath.Join(verif, "harness", id, "config.json"))
	if err != nil {
		return nil, err
	}
	var c Config
	if err := json.Unmarshal(b, &c); err != nil {
		return nil, fmt.Errorf("%s: %v", id, err)
	}
	return &c, nil
}

type entryReport struct {
	Entry   *Entry
	X       *interp.Explorer
	Err     string
	Confirm []confirmed
	Unconf  []string
}

type confirmed struct {
	F      *interp.Failure
	Native nativeResult
	File   string
}

func check(id string) int {
	t0 := time.Now()
	cfg, err := loadConfig(id)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	tier := os.Getenv("VERIF_TIER")
	if len(os.Args) > 3 {
		tier = os.Args[3]
	}
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	budget := cfg.QuickS
	if budget == 0 {
		budget = 400
	}
	ti := 0
	if tier == "thorough" {
		ti = 1
		budget = cfg.ThoroughS
		if budget == 0 {
			budget = 780
		}
	}
	work, err := os.MkdirTemp("", "vrun-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(work)

	ev := &evidence{id: id, tier: tier, seed: seed, start: t0, cfg: cfg}
	ov, err := buildOverlay(cfg, work)
	if err != nil {
		ev.note("the harness could not be laid over the source: " + err.Error())
		return ev.finish(nil)
	}
	// native binary and symbolic program are built at the same time
	nat := make(chan *nativeBin, 1)
	go func() { nat <- buildNative(cfg, ov, work) }()
	prog, pkgs, err := interp.Load(repo, goEnv(), ov.files, nil, "./"+cfg.Pkg)
	if err != nil {
		<-nat
		ev.note("the source with the harness does not compile: " + err.Error())
		return ev.finish(nil)
	}
	loadS := time.Since(t0)
	if len(pkgs) != 1 {
		ev.note(fmt.Sprintf("%d packages loaded", len(pkgs)))
		return ev.finish(nil)
	}
	ssapkg := prog.SSA(pkgs[0])
	ev.load = loadS.Seconds()

	var entries []*Entry
	var weights float64
	for i := range cfg.Entries {
		e := &cfg.Entries[i]
		if e.Thorough && tier != "thorough" {
			continue
		}
		if only := os.Getenv("VERIF_ENTRY"); only != "" && only != e.Name {
			continue
		}
		if e.Weight == 0 {
			e.Weight = 1
		}
		weights += e.Weight
		entries = append(entries, e)
	}
	workers := runtime.NumCPU()
	if w, _ := strconv.Atoi(os.Getenv("VERIF_WORKERS")); w > 0 {
		workers = w
	}
	end := t0.Add(time.Duration(budget * float64(time.Second)))
	var reports []*entryReport
	var nb *nativeBin
	first := os.Getenv("VERIF_FIRST") != ""
	for _, e := range entries {
		r := &entryReport{Entry: e}
		reports = append(reports, r)
		fn := ssapkg.Func(e.Name)
		if fn == nil {
			r.Err = "harness entry not found"
			continue
		}
		left := time.Until(end)
		share := time.Duration(float64(left) * e.Weight / weights)
		weights -= e.Weight
		if share < time.Second {
			share = time.Second
		}
		x := &interp.Explorer{
			P: prog, Entry: fn, Name: e.Name, Workers: workers, Tier: ti, Seed: seed + 1,
			Deadline: time.Now().Add(share), MaxSteps: e.MaxSteps, MaxDepth: e.MaxDepth,
			SolverCmd: []string{"z3-new", "-in"}, MapOrder: e.MapOrder, MaxFail: 24, SampleN: 24,
		}
		if !haveCmd("z3-new") {
			x.SolverCmd = []string{"z3", "-in"}
		}
		if tier == "thorough" && haveCmd("cvc5") {
			x.CrossCmd = []string{"cvc5", "--incremental", "--lang=smt2", "-q"}
		}
		if e.Workers > 0 {
			x.Workers = min(e.Workers, workers)
		}
		if first {
			x.MaxFail = 3
		}
		r.X = x
		if err := x.Run(); err != nil {
			r.Err = err.Error()
		}
		if os.Getenv("VERIF_VERBOSE") != "" {
			printReport(r)
		}
		if first && len(x.Fails) > 0 {
			// development aid: stop at the first confirmed violation
			if nb == nil {
				nb = <-nat
			}
			if nb.err == "" && nb.confirm(x.Fails[0], ti, r) {
				fmt.Printf("VIOLATION property=%s replay=%s\n", id, r.Confirm[0].File)
				return 1
			}
		}
	}
	if nb == nil {
		nb = <-nat
	}
	ev.native = nb.err
	violations := 0
	for _, r := range reports {
		if r.X == nil {
			continue
		}
		seen := map[string]int{}
		for _, f := range r.X.Fails {
			key := f.Kind + f.Msg
			if seen[key] >= 3 || violations+len(r.Confirm) > 20 {
				continue
			}
			if nb.err != "" {
				r.Unconf = append(r.Unconf, fmt.Sprintf("%s: %s (no native build)", f.Kind, f.Msg))
				continue
			}
			if nb.confirm(f, ti, r) {
				seen[key] = 3
			} else {
				seen[key]++
			}
		}
		if nb.err == "" {
			ev.validate(nb, r, ti)
		}
	}
	ev.reports = reports
	return ev.finish(nb)
}

func haveCmd(n string) bool {
	for _, d := range strings.Split(os.Getenv("PATH"), ":") {
		if fileExists(filepath.Join(d, n)) {
			return true
		}
	}
	return false
}

func printReport(r *entryReport) {
	x := r.X
	fmt.Fprintf(os.Stderr, "== %s err=%q paths=%d ends=%v forks=%d steps=%d elapsed=%.1fs solver=%.1fs q=%d (path %d branch %d assert %d) dom=%d unk=%d sum=%d/%d pending=%d reached=%v\n",
		r.Entry.Name, r.Err, x.Total.Paths, x.Ends, x.Total.Forks, x.Total.Steps, x.Elapsed.Seconds(), x.SolverTime.Seconds(), x.SolverQ, x.Total.PathQ, x.Total.BranchQ, x.Total.AssertQ, x.Total.DomainDecided, x.Total.Unknown, x.Total.Summaries, x.Total.SummaryHits, x.Pending, x.Reached)
	var ks []string
	for k, n := range x.EndMsgs {
		ks = append(ks, fmt.Sprintf("   %6d %s", n, k))
	}
	sort.Strings(ks)
	for i, k := range ks {
		if i < 20 {
			fmt.Fprintln(os.Stderr, k)
		}
	}
	for _, f := range x.Fails {
		fmt.Fprintf(os.Stderr, "   FAIL %s %s %v\n", f.Kind, f.Msg, f.Vector)
	}
	for _, n := range x.InitNotes {
		fmt.Fprintf(os.Stderr, "   init: %s\n", n)
	}
}
