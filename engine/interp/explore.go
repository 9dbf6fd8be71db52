package interp

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"

	"verif/engine/term"
)

// ---- decisions

const (
	dSide   = 1
	dForced = 2
	dConst  = 4 // followed by the value tried by concretize
)

type varInfo struct {
	w        uint8
	internal bool // not part of the native vector
	lo, hi   int64
	wide     bool
}

type pathState struct {
	prefix []uint64
	trail  []uint64
	model  []uint64
	vars   []varInfo
	dom    []term.Set
	multi  []*term.T // constraints over several or wide variables
	inM    []bool
	pcN    int

	asserts []pendingAssert
	reached []string
	obs     []obsRec
	failed  *Failure
}

type pendingAssert struct {
	cond *term.T
	msg  string
}

type obsRec struct {
	label string
	v     value
}

// Failure is a candidate violation.
type Failure struct {
	Kind   string // assert, panic, hang, depth
	Msg    string
	Vector []uint64
	Entry  string
	Where  string
	MapOrd bool
}

type item struct {
	prefix []uint64
	model  []uint64
}

// PathSample is a complete path used to validate the translation.
type PathSample struct {
	Entry  string
	Vector []uint64
	Status string // ok, assume
	Obs    []string
}

// Explorer enumerates the paths of one harness entry.
type Explorer struct {
	P       *Program
	Entry   *ssa.Function
	Name    string
	Workers int
	Tier    int
	Seed    int64

	Deadline  time.Time
	MaxPaths  int64
	MaxSteps  int64
	MaxDepth  int
	SolverCmd []string
	CrossCmd  []string
	MapOrder  bool
	MaxFail   int
	SampleN   int

	mu      sync.Mutex
	cond    *sync.Cond
	stack   []item
	busy    int
	stop    bool
	rng     *rand.Rand
	started time.Time

	Fails      []*Failure
	failKeys   map[string]bool
	Samples    []PathSample
	sampleSeen int
	Ends       map[string]int64
	EndMsgs    map[string]int64
	Reached    map[string]int64
	Entered    map[string]bool
	Total      Stats
	SolverTime time.Duration
	SolverQ    int
	Incomplete bool
	Pending    int
	Elapsed    time.Duration
	InitNotes  []string
}

func (x *Explorer) push(it item) {
	x.mu.Lock()
	x.stack = append(x.stack, it)
	x.mu.Unlock()
	x.cond.Signal()
}

// Run explores until the work is done or the deadline passes.
func (x *Explorer) Run() error {
	x.cond = sync.NewCond(&x.mu)
	x.stack = []item{{}}
	x.failKeys = map[string]bool{}
	x.Ends = map[string]int64{}
	x.EndMsgs = map[string]int64{}
	x.Reached = map[string]int64{}
	x.Entered = map[string]bool{}
	x.rng = rand.New(rand.NewSource(x.Seed))
	x.started = time.Now()
	var wg sync.WaitGroup
	var errMu sync.Mutex
	var firstErr error
	stopTimer := time.AfterFunc(time.Until(x.Deadline), func() {
		x.mu.Lock()
		x.stop = true
		x.mu.Unlock()
		x.cond.Broadcast()
	})
	defer stopTimer.Stop()
	for w := 0; w < x.Workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			m, err := x.P.newMachine(x)
			if err != nil {
				errMu.Lock()
				firstErr = err
				errMu.Unlock()
				x.mu.Lock()
				x.stop = true
				x.mu.Unlock()
				x.cond.Broadcast()
				return
			}
			defer m.close()
			x.work(m)
			x.mu.Lock()
			x.Total.add(&m.Stats)
			x.SolverTime += m.solver.Time
			x.SolverQ += m.solver.Queries
			if m.solver2 != nil {
				x.SolverTime += m.solver2.Time
			}
			for fc := range m.entered {
				x.Entered[fc.name] = true
			}
			for _, n := range m.initNotes {
				if len(x.InitNotes) < 40 && w == 0 {
					x.InitNotes = append(x.InitNotes, n)
				}
			}
			x.mu.Unlock()
		}(w)
	}
	wg.Wait()
	x.Elapsed = time.Since(x.started)
	x.Pending = len(x.stack)
	if len(x.stack) > 0 {
		x.Incomplete = true
	}
	return firstErr
}

func (s *Stats) add(o *Stats) {
	s.Paths += o.Paths
	s.Forks += o.Forks
	s.Steps += o.Steps
	s.DomainDecided += o.DomainDecided
	s.BranchQ += o.BranchQ
	s.PathQ += o.PathQ
	s.AssertQ += o.AssertQ
	s.AssertConst += o.AssertConst
	s.Summaries += o.Summaries
	s.SummaryHits += o.SummaryHits
	s.Unknown += o.Unknown
	s.CrossQ += o.CrossQ
	s.CrossBad += o.CrossBad
	s.AssertSym += o.AssertSym
}

func (x *Explorer) work(m *Machine) {
	for {
		x.mu.Lock()
		for len(x.stack) == 0 && x.busy > 0 && !x.stop {
			x.cond.Wait()
		}
		if x.stop || len(x.stack) == 0 {
			x.mu.Unlock()
			x.cond.Broadcast()
			return
		}
		it := x.stack[len(x.stack)-1]
		x.stack = x.stack[:len(x.stack)-1]
		x.busy++
		x.mu.Unlock()

		m.runPath(it)

		x.mu.Lock()
		x.busy--
		if x.MaxPaths > 0 && m.Stats.Paths*int64(x.Workers) > x.MaxPaths && len(x.stack) > 0 {
			x.stop = true
		}
		done := x.busy == 0 && len(x.stack) == 0
		x.mu.Unlock()
		if done {
			x.cond.Broadcast()
		}
	}
}

// ---- one path

func (m *Machine) runPath(it item) {
	m.pathNo++
	st := &pathState{prefix: it.prefix, model: append([]uint64(nil), it.model...)}
	m.st = st
	m.steps = 0
	m.journal = m.journal[:0]
	m.mapUndo = m.mapUndo[:0]
	m.side = map[any]any{}
	m.nest = nil
	m.killing = false
	m.ending = nil
	m.gors = nil
	m.runq = nil
	m.mapOrd = m.x.MapOrder
	m.mainG = &gor{wake: make(chan struct{}, 1)}
	m.cur = m.mainG
	if m.pool.Size() > 6_000_000 {
		m.resetPool()
	}
	end := m.guarded()
	m.killAll()
	m.finishPath(end)
	// restore the state after initialisation
	for i := len(m.journal) - 1; i >= 0; i-- {
		*m.journal[i].p = m.journal[i].old
	}
	for i := len(m.mapUndo) - 1; i >= 0; i-- {
		m.mapUndo[i]()
	}
	m.Stats.Paths++
	m.Stats.Steps += m.steps
}

func (m *Machine) guarded() (end pathEnd) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		switch r := r.(type) {
		case pathEnd:
			end = r
		case targetPanic:
			end = pathEnd{"panic", m.panicText(r.v)}
		case killed:
			end = pathEnd{"killed", ""}
		case goexit:
			end = pathEnd{"deadlock", "Goexit in main"}
		case error:
			end = pathEnd{"internal", fmt.Sprintf("%v\n%s", r, shortStack())}
		default:
			end = pathEnd{"internal", fmt.Sprintf("%v\n%s", r, shortStack())}
		}
	}()
	m.callFn(nil, m.x.Entry, nil, nil)
	return pathEnd{"ok", ""}
}

func (m *Machine) finishPath(end pathEnd) {
	st := m.st
	x := m.x
	// every symbolic assertion of the path in one query
	if end.kind != "assume" && end.kind != "infeasible" && end.kind != "killed" {
		var neg *term.T = m.pool.False
		for _, a := range st.asserts {
			neg = m.pool.Or(neg, m.pool.Not(a.cond))
		}
		if len(st.asserts) > 0 {
			m.Stats.AssertSym += int64(len(st.asserts))
		}
		if neg != m.pool.False {
			m.Stats.AssertQ++
			model := append([]uint64(nil), st.model...)
			switch m.query(neg, model, nil) {
			case term.Sat:
				msg := ""
				for _, a := range st.asserts {
					if a.cond.Eval(model) == 0 {
						msg = a.msg
						break
					}
				}
				m.fail("assert", msg, model)
			case term.Unknown:
				m.Stats.Unknown++
			}
		} else if end.kind == "ok" || end.kind == "panic" {
			// the solver confirms that the path is feasible
			m.Stats.PathQ++
			switch m.query(m.pool.True, append([]uint64(nil), st.model...), nil) {
			case term.Unsat:
				end = pathEnd{"internal", "path condition is unsatisfiable"}
			case term.Unknown:
				m.Stats.Unknown++
			}
		}
	}
	switch end.kind {
	case "panic":
		m.fail("panic", end.msg, st.model)
	case "deadlock":
		m.fail("hang", end.msg, st.model)
	case "steps":
		m.fail("hang", end.msg, st.model)
	case "depth":
		m.fail("depth", end.msg, st.model)
	}
	x.mu.Lock()
	defer x.mu.Unlock()
	x.Ends[end.kind]++
	if end.kind != "ok" && end.msg != "" {
		k := end.kind + ": " + end.msg
		if len(k) > 600 {
			k = k[:600]
		}
		if len(x.EndMsgs) < 200 || x.EndMsgs[k] > 0 {
			x.EndMsgs[k]++
		}
	}
	for _, l := range st.reached {
		x.Reached[l]++
	}
	if end.kind == "ok" && st.failed == nil && x.SampleN > 0 {
		// reservoir sample
		x.sampleSeen++
		k := len(x.Samples)
		if k >= x.SampleN {
			k = x.rng.Intn(x.sampleSeen)
		}
		if k < x.SampleN {
			s := PathSample{Entry: x.Name, Vector: m.vector(st.model), Status: "ok"}
			for _, o := range st.obs {
				s.Obs = append(s.Obs, o.label+"="+m.concreteText(o.v, st.model))
			}
			if k == len(x.Samples) {
				x.Samples = append(x.Samples, s)
			} else {
				x.Samples[k] = s
			}
		}
	}
}

func (m *Machine) vector(model []uint64) []uint64 {
	var v []uint64
	for i, vi := range m.st.vars {
		if !vi.internal {
			v = append(v, model[i])
		}
	}
	return v
}

func (m *Machine) fail(kind, msg string, model []uint64) {
	m.st.failed = &Failure{Kind: kind, Msg: msg}
	x := m.x
	key := kind + "|" + msg
	if kind == "panic" || kind == "hang" || kind == "depth" {
		if i := strings.IndexByte(msg, '\n'); i > 0 {
			key = kind + "|" + msg[:i]
		}
	}
	f := &Failure{Kind: kind, Msg: msg, Vector: m.vector(model), Entry: x.Name, MapOrd: x.MapOrder}
	x.mu.Lock()
	defer x.mu.Unlock()
	n := 0
	for _, g := range x.Fails {
		if g.Kind == kind && g.Msg == msg {
			n++
		}
	}
	if n < 6 && len(x.Fails) < 60 {
		x.Fails = append(x.Fails, f)
	}
	x.failKeys[key] = true
	if x.MaxFail > 0 && len(x.Fails) >= x.MaxFail {
		x.stop = true
	}
}

func (x *Explorer) FailKeys() []string {
	var r []string
	for k := range x.failKeys {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// ---- variables

func (m *Machine) newVar(set term.Set, internal bool) *term.T {
	st := m.st
	i := len(st.vars)
	st.vars = append(st.vars, varInfo{w: 8, internal: internal})
	st.dom = append(st.dom, set)
	st.inM = append(st.inM, false)
	if i >= len(st.model) {
		st.model = append(st.model, set.First())
	} else if !set.Has(st.model[i]) {
		st.model[i] = set.First()
	}
	return m.pool.NewVar(i, 8)
}

func (m *Machine) newWide(lo, hi int64) *term.T {
	st := m.st
	i := len(st.vars)
	st.vars = append(st.vars, varInfo{w: 64, wide: true, lo: lo, hi: hi})
	st.dom = append(st.dom, term.Set{}.Not())
	st.inM = append(st.inM, true)
	d := lo
	if lo <= 0 && hi >= 0 {
		d = 0
	}
	if i >= len(st.model) {
		st.model = append(st.model, uint64(d))
	}
	v := m.pool.NewVar(i, 64)
	c := m.pool.And(m.pool.Not(m.pool.Slt(v, m.pool.BV(uint64(lo), 64))), m.pool.Not(m.pool.Slt(m.pool.BV(uint64(hi), 64), v)))
	if c != m.pool.True {
		st.multi = append(st.multi, c)
	}
	return v
}

func (m *Machine) choice(n int, label string) *term.T {
	var s term.Set
	for i := 0; i < n; i++ {
		s.Add(uint64(i))
	}
	return m.newVar(s, true)
}

func (m *Machine) width(i int32) uint8 {
	return m.st.vars[i].w
}

// ---- constraints

// addPC conjoins c, which the current model satisfies.
func (m *Machine) addPC(c *term.T) {
	st := m.st
	if c.Op == term.Const {
		return
	}
	st.pcN++
	if c.Op == term.And {
		m.addPC(c.A)
		m.addPC(c.B)
		return
	}
	if v, ok := c.SingleByte(); ok && !st.vars[v].wide {
		st.dom[v] = st.dom[v].And(m.setOf(c, v))
		return
	}
	st.multi = append(st.multi, c)
	for _, v := range c.Vars() {
		st.inM[v] = true
	}
}

func (m *Machine) setOf(c *term.T, v int) term.Set {
	if c.Op == term.InSet {
		return *c.S
	}
	var s term.Set
	model := make([]uint64, v+1)
	for b := uint64(0); b < 256; b++ {
		model[v] = b
		if c.Eval(model) != 0 {
			s.Add(b)
		}
	}
	return s
}

// slice collects the constraints connected with the variables of t.
func (m *Machine) slice_(t *term.T) []*term.T {
	st := m.st
	var cs []*term.T
	inV := make([]bool, len(st.vars))
	var vs []int32
	addV := func(list []int32) {
		for _, v := range list {
			if !inV[v] {
				inV[v] = true
				vs = append(vs, v)
			}
		}
	}
	if t == m.pool.True {
		for i := range st.vars {
			addV([]int32{int32(i)})
		}
	} else {
		addV(t.Vars())
	}
	used := make([]bool, len(st.multi))
	for changed := true; changed; {
		changed = false
		for i, c := range st.multi {
			if used[i] {
				continue
			}
			for _, v := range c.Vars() {
				if inV[v] {
					used[i] = true
					changed = true
					cs = append(cs, c)
					addV(c.Vars())
					break
				}
			}
		}
	}
	for _, v := range vs {
		if st.vars[v].wide {
			continue
		}
		if !st.dom[v].Full() {
			cs = append(cs, m.pool.MkInSet(int(v), st.dom[v]))
		}
	}
	return cs
}

// query asks whether PC and t have a model.
func (m *Machine) query(t *term.T, model []uint64, _ any) term.Result {
	cs := m.slice_(t)
	if t != m.pool.True {
		cs = append(cs, t)
	}
	r := m.solver.Check(cs, model, m.width)
	if m.solver2 != nil && r != term.Unknown {
		m.Stats.CrossQ++
		r2 := m.solver2.Check(cs, nil, m.width)
		if r2 != term.Unknown && r2 != r {
			m.Stats.CrossBad++
			return term.Unknown
		}
	}
	return r
}

// ---- decisions

func (m *Machine) decide(t *term.T) bool {
	if t.Op == term.Const {
		return t.K != 0
	}
	if m.nest != nil {
		return m.nest.decide(m, t)
	}
	st := m.st
	p := m.pool
	if n := len(st.trail); n < len(st.prefix) {
		d := st.prefix[n]
		st.trail = append(st.trail, d)
		if d&dForced == 0 {
			if d&dSide != 0 {
				m.addPC(t)
			} else {
				m.addPC(p.Not(t))
			}
		}
		return d&dSide != 0
	}
	side := t.Eval(st.model) != 0
	other := t
	if side {
		other = p.Not(t)
	}
	feasible, model := m.feasible(other)
	var d uint64
	if side {
		d = dSide
	}
	if !feasible {
		st.trail = append(st.trail, d|dForced)
		return side
	}
	m.Stats.Forks++
	pre := make([]uint64, len(st.trail)+1)
	copy(pre, st.trail)
	pre[len(st.trail)] = d ^ dSide
	m.x.push(item{pre, model})
	st.trail = append(st.trail, d)
	m.addPC(p.Not(other))
	return side
}

// feasible reports whether PC and c have a model, and gives one.
func (m *Machine) feasible(c *term.T) (bool, []uint64) {
	st := m.st
	if c.Op == term.Const {
		if c.K != 0 {
			return true, append([]uint64(nil), st.model...)
		}
		return false, nil
	}
	if v, ok := c.SingleByte(); ok && !st.vars[v].wide {
		s := st.dom[v].And(m.setOf(c, v))
		if s.Empty() {
			m.Stats.DomainDecided++
			return false, nil
		}
		if !st.inM[v] {
			m.Stats.DomainDecided++
			model := append([]uint64(nil), st.model...)
			model[v] = s.First()
			return true, model
		}
	}
	// cheap attempt: change one variable of c
	model := append([]uint64(nil), st.model...)
	if m.tryOne(c, model) {
		m.Stats.DomainDecided++
		return true, model
	}
	m.Stats.BranchQ++
	switch m.query(c, model, nil) {
	case term.Sat:
		return true, model
	case term.Unknown:
		m.Stats.Unknown++
	}
	return false, nil
}

// tryOne looks for a model of PC and c that differs from the current one in
// one byte variable.
func (m *Machine) tryOne(c *term.T, model []uint64) bool {
	st := m.st
	vs := c.Vars()
	if len(vs) > 6 {
		return false
	}
	for _, v := range vs {
		if st.vars[v].wide {
			continue
		}
		old := model[v]
		dom := st.dom[v]
		var cs []*term.T
		for _, k := range st.multi {
			for _, w := range k.Vars() {
				if w == v {
					cs = append(cs, k)
					break
				}
			}
		}
		if len(cs) > 8 {
			continue
		}
	vals:
		for b := uint64(0); b < 256; b++ {
			if b == old || !dom.Has(b) {
				continue
			}
			model[v] = b
			if c.Eval(model) == 0 {
				continue
			}
			for _, k := range cs {
				if k.Eval(model) == 0 {
					continue vals
				}
			}
			return true
		}
		model[v] = old
	}
	return false
}

// assume restricts the path to c.
func (m *Machine) assume(v value) {
	c, ok := v.(*term.T)
	if !ok {
		if !v.(bool) {
			panic(pathEnd{"assume", ""})
		}
		return
	}
	if m.nest != nil {
		unsupported("assume in summary")
	}
	st := m.st
	if len(st.trail) < len(st.prefix) || c.Eval(st.model) != 0 {
		m.addPC(c)
		return
	}
	ok, model := m.feasible(c)
	if !ok {
		panic(pathEnd{"assume", ""})
	}
	st.model = model
	m.addPC(c)
}

// concretize forks until t has one value on the path. The values tried are
// part of the trail, so that a replayed prefix tries the same ones.
func (m *Machine) concretize(t *term.T) int {
	if t.Op == term.Const {
		if t.W >= 32 {
			return int(term.SignExt(t.K, t.W))
		}
		return int(t.K)
	}
	if m.nest != nil {
		unsupported("concretisation in summary")
	}
	st := m.st
	for n := 0; ; n++ {
		if n > 4096 {
			unsupported("too many values to concretise")
		}
		var v uint64
		if k := len(st.trail); k < len(st.prefix) {
			v = st.prefix[k+1]
		} else {
			v = t.Eval(st.model)
		}
		st.trail = append(st.trail, dConst, v)
		if m.decide(m.pool.Eq(t, m.pool.BV(v, t.W))) {
			if t.W >= 32 {
				return int(term.SignExt(v, t.W))
			}
			return int(v)
		}
	}
}

// firstVal is concretize for a term whose values are tried in order of the
// model; used for native calls.
func (m *Machine) concBytes(v value) string {
	switch s := v.(type) {
	case string:
		return s
	case *Str:
		if s.opaque {
			unsupported("opaque string used")
		}
		b := make([]byte, len(s.b))
		for i, t := range s.b {
			b[i] = byte(m.concretize(t))
		}
		return string(b)
	}
	unsupported("string expected, have %T", v)
	return ""
}
