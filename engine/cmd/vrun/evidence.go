package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

type evidence struct {
	id, tier string
	seed     int64
	start    time.Time
	cfg      *Config
	notes    []string
	load     float64
	native   string
	reports  []*entryReport

	validated int
	mismatch  []string
}

func (ev *evidence) note(s string) {
	ev.notes = append(ev.notes, s)
	fmt.Fprintln(os.Stderr, "note:", s)
}

// validate replays sampled paths natively and compares what was observed.
func (ev *evidence) validate(nb *nativeBin, r *entryReport, tier int) {
	if len(r.X.Samples) == 0 {
		return
	}
	var jobs []nativeJob
	for _, s := range r.X.Samples {
		jobs = append(jobs, nativeJob{Entry: s.Entry, Vector: s.Vector, Tier: tier})
	}
	res, end := nb.run(jobs, 60*time.Second)
	for i, s := range r.X.Samples {
		if i >= len(res) {
			ev.mismatch = append(ev.mismatch, fmt.Sprintf("%s vector %v: native run ended: %s", s.Entry, s.Vector, end))
			break
		}
		n := res[i]
		same := n.Status == "ok" && len(n.Obs) == len(s.Obs)
		if same && !r.Entry.MapOrder {
			for k := range s.Obs {
				if n.Obs[k] != s.Obs[k] && !strings.HasSuffix(s.Obs[k], "=(opaque)") {
					same = false
				}
			}
		}
		if same {
			ev.validated++
			continue
		}
		ev.mismatch = append(ev.mismatch, fmt.Sprintf("%s vector %v: engine %v, native %s %s %v", s.Entry, s.Vector, s.Obs, n.Status, firstLine(n.Msg), n.Obs))
	}
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func (ev *evidence) finish(nb *nativeBin) int {
	type entryEv struct {
		Entry         string           `json:"entry"`
		What          string           `json:"what,omitempty"`
		Bounds        string           `json:"bounds,omitempty"`
		Paths         int64            `json:"paths"`
		Ends          map[string]int64 `json:"path_ends"`
		Messages      map[string]int64 `json:"end_messages,omitempty"`
		Complete      bool             `json:"complete_within_bounds"`
		Pending       int              `json:"unexplored_branches,omitempty"`
		Forks         int64            `json:"branch_decisions"`
		Domain        int64            `json:"decided_by_exact_byte_domains"`
		Instructions  int64            `json:"ssa_instructions"`
		Queries       int              `json:"solver_queries"`
		BranchQ       int64            `json:"branch_queries"`
		PathQ         int64            `json:"path_feasibility_queries"`
		AssertQ       int64            `json:"assertion_queries"`
		AssertSym     int64            `json:"symbolic_assertions"`
		AssertConst   int64            `json:"assertions_decided_by_path"`
		Unknown       int64            `json:"solver_unknown"`
		CrossQ        int64            `json:"queries_cross_checked"`
		CrossBad      int64            `json:"cross_check_disagreements"`
		SolverS       float64          `json:"solver_s"`
		WallS         float64          `json:"wall_s"`
		Reached       map[string]int64 `json:"reached,omitempty"`
		Violations    []string         `json:"violations,omitempty"`
		Unconfirmed   []string         `json:"unconfirmed_counterexamples,omitempty"`
		Error         string           `json:"error,omitempty"`
		InitNotes     []string         `json:"init_notes,omitempty"`
	}
	var list []entryEv
	fns := map[string]bool{}
	var states, trans, decided int64
	var samples []any
	var solver float64
	queries := 0
	complete := true
	nviol := 0
	var lines []string
	for _, r := range ev.reports {
		e := entryEv{Entry: r.Entry.Name, What: r.Entry.What, Bounds: r.Entry.Bounds, Error: r.Err, Unconfirmed: r.Unconf}
		if r.X == nil {
			complete = false
			list = append(list, e)
			continue
		}
		x := r.X
		e.Paths = x.Total.Paths
		e.Ends, e.Messages = x.Ends, x.EndMsgs
		e.Pending = x.Pending
		e.Complete = !x.Incomplete && r.Err == "" && x.Ends["unsupported"] == 0 && x.Ends["internal"] == 0 && x.Total.Unknown == 0 && x.Ends["steps"] == 0 && x.Ends["depth"] == 0
		e.Forks, e.Domain, e.Instructions = x.Total.Forks, x.Total.DomainDecided, x.Total.Steps
		e.Queries, e.BranchQ, e.PathQ, e.AssertQ = x.SolverQ, x.Total.BranchQ, x.Total.PathQ, x.Total.AssertQ
		e.AssertSym, e.AssertConst = x.Total.AssertSym, x.Total.AssertConst
		e.Unknown, e.CrossQ, e.CrossBad = x.Total.Unknown, x.Total.CrossQ, x.Total.CrossBad
		e.SolverS, e.WallS = x.SolverTime.Seconds(), x.Elapsed.Seconds()
		e.Reached = x.Reached
		e.InitNotes = x.InitNotes
		if !e.Complete {
			complete = false
		}
		for f := range x.Entered {
			fns[f] = true
		}
		states += x.Total.Paths
		trans += x.Total.Forks
		decided += x.Total.AssertSym + x.Total.AssertConst
		solver += e.SolverS
		queries += e.Queries
		for i, s := range x.Samples {
			if i < 2 {
				samples = append(samples, map[string]any{"entry": s.Entry, "vector": s.Vector, "observed": s.Obs})
			}
		}
		for _, c := range r.Confirm {
			nviol++
			e.Violations = append(e.Violations, c.F.Kind+": "+firstLine(c.F.Msg)+" replay "+c.File)
			lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s", ev.id, c.File))
			lines = append(lines, fmt.Sprintf("  %s: %s: %s; native: %s %s %v", c.F.Entry, c.F.Kind, firstLine(c.F.Msg), c.Native.Status, firstLine(c.Native.Msg), c.Native.Obs))
		}
		for _, u := range r.Unconf {
			fmt.Fprintln(os.Stderr, "unconfirmed:", r.Entry.Name, u)
		}
		list = append(list, e)
	}
	for _, m := range ev.mismatch {
		fmt.Fprintln(os.Stderr, "mismatch:", m)
	}
	if len(ev.reports) == 0 {
		complete = false
	}
	var fl []string
	for f := range fns {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	if len(samples) == 0 {
		samples = append(samples, map[string]any{"note": "no complete path in this run"})
	}
	cov := map[string]any{
		"states":                        states,
		"transitions":                   trans,
		"traces_validated_against_impl": ev.validated,
		"samples":                       samples,
		"exhaustive":                    complete,
		"assertions":                    decided,
		"solver_queries":                queries,
		"solver_s":                      round(solver),
		"functions_encoded":             fl,
		"entries":                       list,
		"validation_mismatches":         ev.mismatch,
		"load_and_translate_s":          round(ev.load),
		"rule":                          "a state is a complete symbolic path of a harness over the SSA of the current source (each stands for every input that satisfies its path condition), a transition is a branch decided over symbolic input; assertions and path feasibility are decided by the SMT solver",
		"outside_the_bounds":            ev.cfg.Outside,
	}
	if len(ev.notes) > 0 {
		cov["notes"] = ev.notes
	}
	if ev.native != "" {
		cov["native_build"] = ev.native
	}
	doc := map[string]any{
		"property": ev.id, "tier": ev.tier, "seed": ev.seed, "level": "model_checking",
		"coverage": cov, "assumptions": append([]string{
			"the Go SSA form of the current source (golang.org/x/tools/go/ssa, go1.25) and this engine's semantics of it; checked by native replay of sampled paths",
			"SMT solver verdicts (z3; cross-checked with cvc5 in the thorough tier)",
		}, ev.cfg.Assume...),
		"wall_s": round(time.Since(ev.start).Seconds()), "violations": nviol,
	}
	b, _ := json.MarshalIndent(doc, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", ev.id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, l := range lines {
		fmt.Println(l)
	}
	fmt.Printf("%s %s: %d paths, %d assertions, %d solver queries, %.1f s solver, complete=%v, %d traces validated, %d mismatches, %d violations, %.1f s\n",
		ev.id, ev.tier, states, decided, queries, solver, complete, ev.validated, len(ev.mismatch), nviol, time.Since(ev.start).Seconds())
	if nviol > 0 {
		return 1
	}
	return 0
}

func round(f float64) float64 { return float64(int64(f*100+0.5)) / 100 }
