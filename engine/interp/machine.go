package interp

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"sync"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"

	"verif/engine/term"
)

type frame struct {
	m      *Machine
	g      *gor
	fc     *fnCode
	caller *frame
	regs   []value
	block  *bblock
	prev   int
	defers []deferred
	result value
	pan    *targetPanic // panic being propagated
	panicking bool
	exiting   any
	depth  int
}

type deferred struct {
	fn   value
	args []value
	in   *ssa.Defer
}

type gor struct {
	id   int
	wake chan struct{}
	dead bool
}

type undoRec struct {
	p   *value
	old value
}

// Machine executes one harness path after another.
type Machine struct {
	p         *program
	pool      *term.Pool
	byteTerms [256]*term.T
	globals   []*value
	solver    *term.Solver
	solver2   *term.Solver // cross checking

	journal []undoRec
	mapUndo []func()
	pathNo  int

	// scheduler
	gors    []*gor
	runq    []*gor
	cur     *gor
	killing bool
	wg      sync.WaitGroup
	endMu   sync.Mutex
	ending  any // pathEnd or targetPanic raised in a goroutine
	mainG   *gor

	steps     int64
	maxSteps  int64
	maxDepth  int
	side      map[any]any
	sideInit  map[any]any
	methods   map[methodKey]*ssa.Function
	msets     typeutil.MethodSetCache
	rtErrType types.Type

	nest     *nestState
	sumCache map[string][]*summary

	x  *Explorer
	st *pathState

	entered map[*fnCode]bool
	initNotes []string
	sideG map[any]any
	Stats   Stats
	mapOrd  bool
	initing bool
	exited  bool
}

type Stats struct {
	Paths, Forks, Steps        int64
	DomainDecided              int64
	BranchQ, PathQ, AssertQ    int64
	AssertConst, AssertSym     int64
	Summaries, SummaryHits     int64
	Unknown                    int64
	CrossQ, CrossBad           int64
}

type methodKey struct {
	t types.Type
	f string
}

func (m *Machine) global(i int) *value {
	for i >= len(m.globals) {
		m.globals = append(m.globals, nil)
	}
	g := m.globals[i]
	if g == nil {
		g = new(value)
		m.p.mu.Lock()
		gl := m.p.globalList[i]
		m.p.mu.Unlock()
		*g = zero(gl.Type().Underlying().(*types.Pointer).Elem())
		if text, ok := m.p.embeds[gl.Object()]; ok && gl.Object() != nil {
			*g = text
		}
		m.globals[i] = g
	}
	return g
}

func (fr *frame) get(o *operand) value {
	switch o.kind {
	case 1:
		return fr.regs[o.idx]
	case 2:
		return o.val
	case 3:
		return fr.m.global(o.idx)
	}
	return nil
}

// ---- panics of the interpreted program

func (m *Machine) rtPanic(msg string) {
	panic(targetPanic{iface{m.rtErrType, msg}})
}

func (m *Machine) goPanic(msg string) { m.rtPanic(msg) }

func (m *Machine) store(p value, v value) {
	switch p := p.(type) {
	case *value:
		if p == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		m.assign(p, v)
	case *symPtr:
		i := m.concretize(p.idx)
		m.assign(&p.elems[i], v)
	case nil:
		m.rtPanic("invalid memory address or nil pointer dereference")
	default:
		unsupported("store through %T", p)
	}
}

// assign sets a cell. Structs and arrays are set in place: there may be
// pointers to their parts.
func (m *Machine) assign(p *value, v value) {
	switch old := (*p).(type) {
	case structure:
		if n, ok := v.(structure); ok && len(n) == len(old) {
			for i := range old {
				m.assign(&old[i], n[i])
			}
			return
		}
	case array:
		if n, ok := v.(array); ok && len(n) == len(old) {
			for i := range old {
				m.assign(&old[i], n[i])
			}
			return
		}
	}
	m.journal = append(m.journal, undoRec{p, *p})
	*p = copyVal(v)
}

func (m *Machine) load(p value) value {
	switch p := p.(type) {
	case *value:
		if p == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		if m.nest != nil && m.nest.record {
			m.nest.read(p)
		}
		switch (*p).(type) {
		case structure, array:
			return copyVal(*p)
		}
		return *p
	case *symPtr:
		return m.symIndex(p.elems, p.idx, p.typ)
	case nil:
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	unsupported("load through %T", p)
	return nil
}

// symIndex reads elems[idx], of type t; idx is known to be in range.
func (m *Machine) symIndex(elems []value, idx *term.T, typ types.Type) value {
	scalar := len(elems) <= 512 && scalarType(typ)
	w, signed := intInfo(typ)
	if !scalar {
		return copyVal(elems[m.concretize(idx)])
	}
	if m.nest != nil && m.nest.record {
		for i := range elems {
			m.nest.read(&elems[i])
		}
	}
	p := m.pool
	// group indices by value
	type grp struct {
		t *term.T
		c *term.T
	}
	var groups []grp
	where := map[*term.T]int{}
	if v, ok := idx.SingleByte(); ok {
		sets := map[*term.T]*term.Set{}
		var order []*term.T
		for b := 0; b < 256; b++ {
			model := make([]uint64, v+1)
			model[v] = uint64(b)
			i := idx.Eval(model)
			if i >= uint64(len(elems)) {
				continue
			}
			t := m.asTerm(elems[i], w)
			s := sets[t]
			if s == nil {
				s = &term.Set{}
				sets[t] = s
				order = append(order, t)
			}
			s.Add(uint64(b))
		}
		for _, t := range order {
			groups = append(groups, grp{t, p.MkInSet(v, *sets[t])})
		}
	} else {
		for i, e := range elems {
			t := m.asTerm(e, w)
			c := p.Eq(idx, p.BV(uint64(i), idx.W))
			if c == p.False {
				continue
			}
			if k, ok := where[t]; ok {
				groups[k].c = p.Or(groups[k].c, c)
			} else {
				where[t] = len(groups)
				groups = append(groups, grp{t, c})
			}
		}
	}
	if len(groups) == 0 {
		unsupported("symbolic index without feasible element")
	}
	r := groups[len(groups)-1].t
	for i := len(groups) - 2; i >= 0; i-- {
		r = p.Ite(groups[i].c, groups[i].t, r)
	}
	return termVal(r, signed)
}

// ---- calls


func (m *Machine) callValue(caller *frame, fv value, args []value) value {
	switch f := fv.(type) {
	case *ssa.Function:
		if f == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		return m.callFn(caller, f, args, nil)
	case *closure:
		return m.callFn(caller, f.fn, args, f.env)
	case *ssa.Builtin:
		unsupported("builtin %s as value", f.Name())
	case nativeFunc:
		return f.f(m, args)
	case nil:
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	unsupported("call of %T", fv)
	return nil
}

func anySym(args []value) bool {
	for _, a := range args {
		switch a := a.(type) {
		case *term.T:
			return true
		case *Str:
			if !a.opaque {
				return true
			}
		}
	}
	return false
}

func (m *Machine) callFn(caller *frame, fn *ssa.Function, args []value, env []value) value {
	fc := m.p.code(fn)
	if fc.intr != nil {
		if r, ok := fc.intr(m, caller, fn, args); ok {
			return r
		}
	}
	if fc.noBody {
		unsupported("no body: %s", fc.name)
	}
	if m.initing && isPkgInit(fc) {
		if initBlocked(fc) {
			return nil
		}
		m.pkgInit(caller, fc)
		return nil
	}
	if !m.initing && fc.pure != 2 && anySym(args) && m.nest == nil {
		if fc.pure == 0 {
			if m.p.pureFn(fn) {
				fc.pure = 1
			} else {
				fc.pure = 2
			}
		}
		if fc.pure == 1 {
			if r, ok := m.summarize(caller, fc, args, env); ok {
				return r
			}
		}
	}
	return m.exec(caller, fc, args, env)
}

func (m *Machine) exec(caller *frame, fc *fnCode, args []value, env []value) value {
	if fc.repo && !fc.entry {
		m.entered[fc] = true
	}
	fr := &frame{m: m, fc: fc, caller: caller, regs: make([]value, fc.nregs)}
	if caller != nil {
		fr.depth = caller.depth + 1
		if fr.depth > m.maxDepth {
			panic(pathEnd{"depth", fmt.Sprintf("call depth exceeds %d in %s", m.maxDepth, fc.name)})
		}
	}
	n := copy(fr.regs, args)
	copy(fr.regs[n:], env)
	fr.block = fc.blocks[0]
	fr.prev = -1
	for fr.block != nil {
		m.runFrame(fr)
	}
	return fr.result
}

// runFrame runs until the function returns, handling panics through deferred
// calls. It sets fr.block to nil when done.
func (m *Machine) runFrame(fr *frame) {
	if len(fr.fc.fn.Blocks) > 0 && !hasDefer(fr.fc) {
		m.loop(fr)
		return
	}
	defer func() {
		if fr.block == nil {
			return // normal return
		}
		r := recover()
		tp, ok := r.(targetPanic)
		_, isExit := r.(goexit)
		if !ok && !isExit {
			panic(r)
		}
		fr.panicking = true
		fr.pan = &tp
		if isExit {
			fr.exiting = r
		}
		fr.runDefers()
		if fr.panicking {
			if isExit {
				panic(goexit{})
			}
			panic(*fr.pan)
		}
		// recovered
		if fr.fc.fn.Recover != nil {
			fr.block = fr.fc.blocks[fr.fc.fn.Recover.Index]
			fr.prev = -1
		} else {
			fr.result = zero(fr.fc.fn.Signature.Results())
			if fr.fc.fn.Signature.Results().Len() == 0 {
				fr.result = nil
			}
			fr.block = nil
		}
	}()
	m.loop(fr)
}

func hasDefer(fc *fnCode) bool {
	if fc.fn.Recover != nil {
		return true
	}
	for _, b := range fc.blocks {
		for i := range b.ins {
			if _, ok := b.ins[i].in.(*ssa.Defer); ok {
				return true
			}
		}
	}
	return false
}

func (fr *frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			ok := false
			defer func() {
				if !ok {
					r := recover()
					tp, is := r.(targetPanic)
					if !is {
						panic(r)
					}
					// deferred call started a new panic
					fr.panicking = true
					fr.pan = &tp
				}
			}()
			if b, is := d.fn.(*ssa.Builtin); is {
				fr.m.builtin(fr, b, d.args, &d.in.Call, d.in)
			} else {
				fr.m.callValue(fr, d.fn, d.args)
			}
			ok = true
		}()
	}
}

func (m *Machine) loop(fr *frame) {
next:
	for {
		b := fr.block
		i := 0
		if b.phis > 0 {
			pi := -1
			for k, p := range fr.fc.fn.Blocks[b.idx].Preds {
				if p.Index == fr.prev {
					pi = k
					break
				}
			}
			if b.phis == 1 {
				in := &b.ins[0]
				fr.regs[in.dst] = fr.get(&in.ops[pi])
			} else {
				var tmp [8]value
				vals := tmp[:0]
				for k := 0; k < b.phis; k++ {
					vals = append(vals, fr.get(&b.ins[k].ops[pi]))
				}
				for k := 0; k < b.phis; k++ {
					fr.regs[b.ins[k].dst] = vals[k]
				}
			}
			i = b.phis
		}
		m.steps += int64(len(b.ins))
		if m.steps > m.maxSteps && !m.initing {
			panic(pathEnd{"steps", fmt.Sprintf("step budget exceeded in %s", fr.fc.name)})
		}
		for ; i < len(b.ins); i++ {
			in := &b.ins[i]
			switch in.op {
			case oIf:
				c := fr.get(&in.ops[0])
				t, ok := c.(bool)
				if !ok {
					t = m.decide(c.(*term.T))
				}
				fr.prev = b.idx
				bb := fr.fc.fn.Blocks[b.idx]
				if t {
					fr.block = fr.fc.blocks[bb.Succs[0].Index]
				} else {
					fr.block = fr.fc.blocks[bb.Succs[1].Index]
				}
				continue next
			case oJump:
				fr.prev = b.idx
				fr.block = fr.fc.blocks[fr.fc.fn.Blocks[b.idx].Succs[0].Index]
				continue next
			case oReturn:
				switch len(in.ops) {
				case 0:
				case 1:
					fr.result = fr.get(&in.ops[0])
				default:
					r := make(tuple, len(in.ops))
					for k := range in.ops {
						r[k] = fr.get(&in.ops[k])
					}
					fr.result = r
				}
				fr.block = nil
				return
			case oBinOp:
				fr.regs[in.dst] = m.binop(in, fr.get(&in.ops[0]), fr.get(&in.ops[1]))
			case oLoad:
				fr.regs[in.dst] = m.load(fr.get(&in.ops[0]))
			case oUnOp:
				fr.regs[in.dst] = m.unop(fr, in, fr.get(&in.ops[0]))
			case oStore:
				m.store(fr.get(&in.ops[0]), fr.get(&in.ops[1]))
			case oFieldAddr:
				p, ok := fr.get(&in.ops[0]).(*value)
				if !ok || p == nil {
					if fr.get(&in.ops[0]) == nil || ok {
						m.rtPanic("invalid memory address or nil pointer dereference")
					}
					unsupported("field address of %T in %s", fr.get(&in.ops[0]), fr.fc.name)
				}
				s, ok := (*p).(structure)
				if !ok {
					unsupported("field of modelled value %T in %s", *p, fr.fc.name)
				}
				fr.regs[in.dst] = &s[in.in.(*ssa.FieldAddr).Field]
			case oIndexAddr:
				fr.regs[in.dst] = m.indexAddr(fr, fr.get(&in.ops[0]), fr.get(&in.ops[1]), in.in)
			case oExtract:
				fr.regs[in.dst] = fr.get(&in.ops[0]).(tuple)[in.in.(*ssa.Extract).Index]
			case oCall:
				c := in.in.(*ssa.Call)
				fr.regs[in.dst] = m.doCall(fr, &c.Call, in.ops, in.in)
			default:
				m.other(fr, in)
			}
		}
		panic("block without terminator")
	}
}

// doCall evaluates a call. ops are the operands in ssa order: function (or
// receiver), then arguments.
func (m *Machine) doCall(fr *frame, c *ssa.CallCommon, ops []operand, in ssa.Instruction) value {
	fv, args := m.prepCall(fr, c, ops)
	if b, ok := fv.(*ssa.Builtin); ok {
		return m.builtin(fr, b, args, c, in)
	}
	return m.callValue(fr, fv, args)
}

func (m *Machine) prepCall(fr *frame, c *ssa.CallCommon, ops []operand) (value, []value) {
	v := fr.get(&ops[0])
	if !c.IsInvoke() {
		args := make([]value, len(ops)-1)
		for i := range args {
			args[i] = fr.get(&ops[i+1])
		}
		return v, args
	}
	recv, ok := v.(iface)
	if !ok {
		unsupported("invoke on %T", v)
	}
	if recv.t == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	args := make([]value, len(ops))
	args[0] = recv.v
	for i := 1; i < len(ops); i++ {
		args[i] = fr.get(&ops[i])
	}
	if nf := m.nativeMethod(recv, c.Method); nf != nil {
		return *nf, args
	}
	f := m.method(recv.t, c.Method)
	if f == nil {
		unsupported("no method %s on %s", c.Method, recv.t)
	}
	return f, args
}

func (m *Machine) method(t types.Type, f *types.Func) *ssa.Function {
	k := methodKey{t, f.Id()}
	if fn, ok := m.methods[k]; ok {
		return fn
	}
	fn := m.p.prog.LookupMethod(t, f.Pkg(), f.Name())
	m.methods[k] = fn
	return fn
}

// findMethod looks a method up by name; nil if absent.
func (m *Machine) findMethod(t types.Type, pkg *types.Package, name string) *ssa.Function {
	k := methodKey{t, name}
	if fn, ok := m.methods[k]; ok {
		return fn
	}
	var fn *ssa.Function
	if sel := m.msets.MethodSet(t).Lookup(pkg, name); sel != nil {
		fn = m.p.prog.MethodValue(sel)
	}
	m.methods[k] = fn
	return fn
}

// ---- operators

func (m *Machine) truth(v value) bool {
	if b, ok := v.(bool); ok {
		return b
	}
	return m.decide(v.(*term.T))
}


func (m *Machine) binop(in *instr, x, y value) value {
	b := in.in.(*ssa.BinOp)
	switch in.kind {
	case kInt:
		a, ok1 := x.(int64)
		c, ok2 := y.(int64)
		if ok1 && ok2 {
			return m.intOp(b.Op, a, c, in.w, in.sgn, b)
		}
		return m.symIntOp(b, in, x, y)
	case kString:
		switch b.Op {
		case token.ADD:
			return m.concat(x, y)
		case token.EQL:
			return m.strEq(x, y)
		case token.NEQ:
			return m.notV(m.strEq(x, y))
		case token.LSS:
			return m.strLess(x, y)
		case token.GTR:
			return m.strLess(y, x)
		case token.LEQ:
			return m.notV(m.strLess(y, x))
		case token.GEQ:
			return m.notV(m.strLess(x, y))
		}
	case kBool:
		switch b.Op {
		case token.EQL:
			return m.equals(b.X.Type(), x, y)
		case token.NEQ:
			return m.notV(m.equals(b.X.Type(), x, y))
		case token.AND:
			return m.andV(x, y)
		case token.OR:
			return m.notV(m.andV(m.notV(x), m.notV(y)))
		}
	}
	switch b.Op {
	case token.EQL:
		return m.equals(eqType(b), x, y)
	case token.NEQ:
		return m.notV(m.equals(eqType(b), x, y))
	}
	if a, ok := x.(float64); ok {
		c := y.(float64)
		f32 := basicOf(b.X.Type()).Kind() == types.Float32
		r := func(f float64) value {
			if f32 {
				return float64(float32(f))
			}
			return f
		}
		switch b.Op {
		case token.ADD:
			return r(a + c)
		case token.SUB:
			return r(a - c)
		case token.MUL:
			return r(a * c)
		case token.QUO:
			return r(a / c)
		case token.LSS:
			return a < c
		case token.LEQ:
			return a <= c
		case token.GTR:
			return a > c
		case token.GEQ:
			return a >= c
		}
	}
	if a, ok := x.(complex128); ok {
		c := y.(complex128)
		switch b.Op {
		case token.ADD:
			return a + c
		case token.SUB:
			return a - c
		case token.MUL:
			return a * c
		case token.QUO:
			return a / c
		}
	}
	unsupported("binop %s on %T,%T", b.Op, x, y)
	return nil
}

// eqType is the operand type a comparison is made at. If one side is an
// interface and the other is not, ssa has already converted it.
func eqType(b *ssa.BinOp) types.Type {
	if _, ok := b.X.(*ssa.Const); ok {
		return b.Y.Type()
	}
	return b.X.Type()
}

func (m *Machine) intOp(op token.Token, a, c int64, w uint8, s bool, b *ssa.BinOp) value {
	switch op {
	case token.ADD:
		return norm(a+c, w, s)
	case token.SUB:
		return norm(a-c, w, s)
	case token.MUL:
		return norm(a*c, w, s)
	case token.QUO:
		if c == 0 {
			m.rtPanic("integer divide by zero")
		}
		if s {
			if c == -1 {
				return norm(-a, w, s)
			}
			return norm(a/c, w, s)
		}
		return norm(int64(uint64(a)/uint64(c)), w, s)
	case token.REM:
		if c == 0 {
			m.rtPanic("integer divide by zero")
		}
		if s {
			if c == -1 {
				return int64(0)
			}
			return norm(a%c, w, s)
		}
		return norm(int64(uint64(a)%uint64(c)), w, s)
	case token.AND:
		return a & c
	case token.OR:
		return a | c
	case token.XOR:
		return norm(a^c, w, s)
	case token.AND_NOT:
		return norm(a&^c, w, s)
	case token.SHL, token.SHR:
		_, ys := intInfo(b.Y.Type())
		if ys && c < 0 {
			m.rtPanic("negative shift amount")
		}
		n := uint64(c)
		if op == token.SHL {
			if n >= 64 {
				return int64(0)
			}
			return norm(a<<n, w, s)
		}
		if s {
			if n >= 64 {
				n = 63
			}
			return a >> n
		}
		if n >= 64 {
			return int64(0)
		}
		return int64(uint64(a) >> n)
	case token.EQL:
		return a == c
	case token.NEQ:
		return a != c
	case token.LSS:
		if s {
			return a < c
		}
		return uint64(a) < uint64(c)
	case token.LEQ:
		if s {
			return a <= c
		}
		return uint64(a) <= uint64(c)
	case token.GTR:
		if s {
			return a > c
		}
		return uint64(a) > uint64(c)
	case token.GEQ:
		if s {
			return a >= c
		}
		return uint64(a) >= uint64(c)
	}
	unsupported("int op %s", op)
	return nil
}

func (m *Machine) symIntOp(b *ssa.BinOp, in *instr, x, y value) value {
	p := m.pool
	w, s := in.w, in.sgn
	if b.Op == token.SHL || b.Op == token.SHR {
		yw, ys := intInfo(b.Y.Type())
		a, c := m.asTerm(x, w), m.asTerm(y, yw)
		if ys && m.truth(termVal(p.Slt(c, p.BV(0, yw)), false)) {
			m.rtPanic("negative shift amount")
		}
		big := p.False
		if yw > w {
			big = p.Not(p.Ult(c, p.BV(uint64(w), yw)))
		}
		n := p.Conv(c, w, false)
		op := term.Shl
		if b.Op == token.SHR {
			op = term.LShr
			if s {
				op = term.AShr
			}
		}
		r := p.Bin(op, a, n)
		if op == term.AShr {
			r = p.Ite(big, p.Bin(op, a, p.BV(uint64(w)-1, w)), r)
		} else {
			r = p.Ite(big, p.BV(0, w), r)
		}
		return termVal(r, s)
	}
	a, c := m.asTerm(x, w), m.asTerm(y, w)
	lt := func(a, c *term.T) *term.T {
		if s {
			return p.Slt(a, c)
		}
		return p.Ult(a, c)
	}
	var r *term.T
	switch b.Op {
	case token.ADD:
		r = p.Bin(term.Add, a, c)
	case token.SUB:
		r = p.Bin(term.Sub, a, c)
	case token.MUL:
		r = p.Bin(term.Mul, a, c)
	case token.QUO, token.REM:
		if m.truth(termVal(p.Eq(c, p.BV(0, w)), false)) {
			m.rtPanic("integer divide by zero")
		}
		op := term.UDiv
		switch {
		case b.Op == token.QUO && s:
			op = term.SDiv
		case b.Op == token.REM && s:
			op = term.SRem
		case b.Op == token.REM:
			op = term.URem
		}
		r = p.Bin(op, a, c)
	case token.AND:
		r = p.Bin(term.BAnd, a, c)
	case token.OR:
		r = p.Bin(term.BOr, a, c)
	case token.XOR:
		r = p.Bin(term.BXor, a, c)
	case token.AND_NOT:
		r = p.Bin(term.BAnd, a, p.Bin(term.BXor, c, p.BV(^uint64(0), w)))
	case token.EQL:
		r = p.Eq(a, c)
	case token.NEQ:
		r = p.Not(p.Eq(a, c))
	case token.LSS:
		r = lt(a, c)
	case token.GTR:
		r = lt(c, a)
	case token.LEQ:
		r = p.Not(lt(c, a))
	case token.GEQ:
		r = p.Not(lt(a, c))
	default:
		unsupported("symbolic int op %s", b.Op)
	}
	return termVal(r, s)
}

func (m *Machine) unop(fr *frame, in *instr, x value) value {
	u := in.in.(*ssa.UnOp)
	switch u.Op {
	case token.NOT:
		return m.notV(x)
	case token.SUB:
		switch x := x.(type) {
		case int64:
			return norm(-x, in.w, in.sgn)
		case float64:
			return -x
		case *term.T:
			return termVal(m.pool.Bin(term.Sub, m.pool.BV(0, x.W), x), in.sgn)
		}
	case token.XOR:
		switch x := x.(type) {
		case int64:
			return norm(^x, in.w, in.sgn)
		case *term.T:
			return termVal(m.pool.Bin(term.BXor, x, m.pool.BV(^uint64(0), x.W)), in.sgn)
		}
	case token.ARROW:
		v, ok := m.recv(x, u.X.Type().Underlying().(*types.Chan).Elem())
		if u.CommaOk {
			return tuple{v, ok}
		}
		return v
	}
	unsupported("unop %s on %T", u.Op, x)
	return nil
}

// inRange checks 0 <= idx < n, panicking like Go does, and returns a concrete
// index or a symbolic one.
func (m *Machine) inRange(idx value, n int) (int, *term.T) {
	switch i := idx.(type) {
	case int64:
		if i < 0 || i >= int64(n) {
			m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return int(i), nil
	case *term.T:
		w := i
		if w.W < 64 {
			w = m.pool.Conv(i, 64, false)
		}
		if !m.truth(termVal(m.pool.Ult(w, m.pool.BV(uint64(n), 64)), false)) {
			m.rtPanic(fmt.Sprintf("index out of range [?] with length %d", n))
		}
		return -1, w
	}
	unsupported("index %T", idx)
	return 0, nil
}

func (m *Machine) indexAddr(fr *frame, x, idx value, in ssa.Instruction) value {
	var elems []value
	switch x := x.(type) {
	case []value:
		elems = x
	case *value:
		if x == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		a, ok := (*x).(array)
		if !ok {
			unsupported("index address into %T", *x)
		}
		elems = a
	case nil:
		m.rtPanic("invalid memory address or nil pointer dereference")
	default:
		unsupported("indexAddr %T", x)
	}
	i, t := m.inRange(idx, len(elems))
	if t != nil {
		return &symPtr{elems, t, in.(*ssa.IndexAddr).Type().Underlying().(*types.Pointer).Elem()}
	}
	return &elems[i]
}

func (m *Machine) other(fr *frame, in *instr) {
	switch x := in.in.(type) {
	case *ssa.ChangeInterface:
		fr.regs[in.dst] = fr.get(&in.ops[0])
	case *ssa.ChangeType:
		fr.regs[in.dst] = fr.get(&in.ops[0])
	case *ssa.Convert:
		fr.regs[in.dst] = m.convert(x.Type(), x.X.Type(), fr.get(&in.ops[0]))
	case *ssa.MultiConvert:
		fr.regs[in.dst] = m.convert(x.Type(), x.X.Type(), fr.get(&in.ops[0]))
	case *ssa.SliceToArrayPointer:
		s := fr.get(&in.ops[0]).([]value)
		n := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if int64(len(s)) < n {
			m.rtPanic("cannot convert slice to array pointer")
		}
		if s == nil {
			fr.regs[in.dst] = nil
			return
		}
		v := value(array(s[:n:n]))
		fr.regs[in.dst] = &v
	case *ssa.MakeInterface:
		fr.regs[in.dst] = iface{x.X.Type(), fr.get(&in.ops[0])}
	case *ssa.Field:
		s, ok := fr.get(&in.ops[0]).(structure)
		if !ok {
			unsupported("field of modelled value in %s", fr.fc.name)
		}
		fr.regs[in.dst] = s[x.Field]
	case *ssa.Index:
		v := fr.get(&in.ops[0])
		idx := fr.get(&in.ops[1])
		switch v := v.(type) {
		case array:
			i, t := m.inRange(idx, len(v))
			if t != nil {
				fr.regs[in.dst] = m.symIndex(v, t, x.Type())
			} else {
				fr.regs[in.dst] = v[i]
			}
		default:
			fr.regs[in.dst] = m.strIndex(v, idx)
		}
	case *ssa.Lookup:
		fr.regs[in.dst] = m.lookup(fr, x, fr.get(&in.ops[0]), fr.get(&in.ops[1]))
	case *ssa.MapUpdate:
		mp, _ := fr.get(&in.ops[0]).(*Map)
		m.mapSet(mp, copyVal(fr.get(&in.ops[1])), copyVal(fr.get(&in.ops[2])))
	case *ssa.MakeMap:
		fr.regs[in.dst] = m.newMap(x.Type().Underlying().(*types.Map).Key())
	case *ssa.MakeSlice:
		n := m.concInt(fr.get(&in.ops[0]))
		c := m.concInt(fr.get(&in.ops[1]))
		if n < 0 || n > c || c > 1<<24 {
			m.rtPanic("makeslice: len out of range")
		}
		s := make([]value, c)
		et := x.Type().Underlying().(*types.Slice).Elem()
		if c > 0 {
			z := zero(et)
			for i := range s {
				s[i] = copyVal(z)
			}
		}
		fr.regs[in.dst] = s[:n]
	case *ssa.MakeChan:
		fr.regs[in.dst] = &Chan{cap: m.concInt(fr.get(&in.ops[0]))}
	case *ssa.MakeClosure:
		env := make([]value, len(in.ops)-1)
		for i := range env {
			env[i] = fr.get(&in.ops[i+1])
		}
		fr.regs[in.dst] = &closure{x.Fn.(*ssa.Function), env}
	case *ssa.Alloc:
		p := new(value)
		*p = zero(x.Type().Underlying().(*types.Pointer).Elem())
		fr.regs[in.dst] = p
	case *ssa.Slice:
		var lo, hi, max value
		v := fr.get(&in.ops[0])
		k := 1
		get := func(s ssa.Value) value {
			if s == nil {
				return nil
			}
			r := fr.get(&in.ops[k])
			return r
		}
		lo = get(x.Low)
		k = 2
		hi = get(x.High)
		k = 3
		max = get(x.Max)
		fr.regs[in.dst] = m.slice(v, lo, hi, max)
	case *ssa.TypeAssert:
		fr.regs[in.dst] = m.typeAssert(x, fr.get(&in.ops[0]))
	case *ssa.Range:
		fr.regs[in.dst] = m.rangeIter(fr.get(&in.ops[0]))
	case *ssa.Next:
		fr.regs[in.dst] = fr.get(&in.ops[0]).(iterator).next(m, x)
	case *ssa.Panic:
		v := fr.get(&in.ops[0])
		panic(targetPanic{v})
	case *ssa.RunDefers:
		fr.runDefers()
		if fr.panicking {
			panic(*fr.pan)
		}
	case *ssa.Defer:
		fv, args := m.prepCall(fr, &x.Call, in.ops)
		fr.defers = append(fr.defers, deferred{fv, args, x})
	case *ssa.Go:
		fv, args := m.prepCall(fr, &x.Call, in.ops)
		m.spawn(fv, args)
	case *ssa.Send:
		ch, _ := fr.get(&in.ops[0]).(*Chan)
		m.send(ch, copyVal(fr.get(&in.ops[1])))
	case *ssa.Select:
		fr.regs[in.dst] = m.selectStmt(fr, x, in.ops)
	default:
		unsupported("instruction %T", in.in)
	}
}

func (m *Machine) concInt(v value) int {
	switch v := v.(type) {
	case int64:
		return int(v)
	case *term.T:
		return m.concretize(v)
	}
	unsupported("integer expected, have %T", v)
	return 0
}

func (m *Machine) strIndex(v, idx value) value {
	n := strLen(v)
	i, t := m.inRange(idx, n)
	if t == nil {
		switch s := v.(type) {
		case string:
			return int64(s[i])
		case *Str:
			return termVal(s.b[i], false)
		}
	}
	bs := m.bytesOf(v)
	el := make([]value, len(bs))
	for i := range bs {
		el[i] = bs[i]
	}
	return m.symIndex(el, t, types.Typ[types.Uint8])
}

func (m *Machine) lookup(fr *frame, x *ssa.Lookup, v, key value) value {
	mt, ok := x.X.Type().Underlying().(*types.Map)
	if !ok {
		return m.strIndex(v, key)
	}
	mp, _ := v.(*Map)
	if m.nest != nil && m.nest.record && mp != nil {
		m.nest.maps[mp] = mp.ver
	}
	// scalar table with concrete keys and a symbolic key: one term
	if mp != nil && mp.symN == 0 && mp.n > 1 && scalarType(mt.Elem()) {
		if _, conc := hkey(key); !conc {
			w, sgn := intInfo(mt.Elem())
			found := m.pool.False
			res := m.asTerm(zero(mt.Elem()), w)
			for i := range mp.keys {
				if !mp.live[i] {
					continue
				}
				e := m.equals(mp.keyTyp, key, mp.keys[i])
				if e == false {
					continue
				}
				c := m.asTerm(e, 0)
				found = m.pool.Or(found, c)
				res = m.pool.Ite(c, m.asTerm(mp.vals[i], w), res)
			}
			rv := termVal(res, sgn)
			if x.CommaOk {
				return tuple{rv, termVal(found, false)}
			}
			return rv
		}
	}
	i := m.mapFind(mp, key)
	var r value
	if i >= 0 {
		r = copyVal(mp.vals[i])
	} else {
		r = zero(mt.Elem())
	}
	if x.CommaOk {
		return tuple{r, i >= 0}
	}
	return r
}

func (m *Machine) slice(v, lo, hi, max value) value {
	conc := func(v value, def int) int {
		if v == nil {
			return def
		}
		return m.concInt(v)
	}
	chk := func(l, h, c int) {
		if l < 0 || h < l || h > c {
			m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with capacity %d", l, h, c))
		}
	}
	switch s := v.(type) {
	case string, *Str:
		n := strLen(s)
		l, h := conc(lo, 0), conc(hi, n)
		chk(l, h, n)
		return substr(s, l, h)
	case []value:
		h := conc(hi, len(s))
		l := conc(lo, 0)
		c := conc(max, cap(s))
		if c < 0 || c > cap(s) {
			m.rtPanic(fmt.Sprintf("slice bounds out of range [::%d] with capacity %d", c, cap(s)))
		}
		chk(l, h, c)
		if s == nil {
			return s
		}
		return s[l:h:c]
	case *value:
		if s == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		a, ok := (*s).(array)
		if !ok {
			unsupported("slice of %T", *s)
		}
		l, h := conc(lo, 0), conc(hi, len(a))
		c := conc(max, len(a))
		chk(l, h, c)
		return []value(a)[l:h:c]
	case nil:
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	unsupported("slice of %T", v)
	return nil
}

func (m *Machine) typeAssert(x *ssa.TypeAssert, v value) value {
	i, ok := v.(iface)
	if !ok {
		unsupported("type assertion on %T", v)
	}
	good := false
	var r value
	if i.t != nil {
		if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
			if m.implements(i.t, it) {
				good = true
				r = i
			}
		} else if sameType(i.t, x.AssertedType) {
			good = true
			r = copyVal(i.v)
		}
	}
	if !good {
		if !x.CommaOk {
			from := "nil"
			if i.t != nil {
				from = i.t.String()
			}
			m.rtPanic(fmt.Sprintf("interface conversion: interface is %s, not %s", from, x.AssertedType))
		}
		return tuple{zero(x.AssertedType), false}
	}
	if x.CommaOk {
		return tuple{r, true}
	}
	return r
}

func (m *Machine) implements(t types.Type, it *types.Interface) bool {
	if it.NumMethods() == 0 {
		return true
	}
	return types.Implements(t, it)
}

// ---- conversions

func (m *Machine) convert(to, from types.Type, v value) value {
	ut, uf := to.Underlying(), from.Underlying()
	if tb, ok := ut.(*types.Basic); ok {
		if fb, ok := uf.(*types.Basic); ok {
			switch {
			case tb.Info()&types.IsString != 0 && fb.Info()&types.IsString != 0:
				return v
			case tb.Info()&types.IsString != 0 && fb.Info()&types.IsInteger != 0:
				return m.runeToStr(v, from)
			case tb.Info()&types.IsInteger != 0 && fb.Info()&types.IsInteger != 0:
				w, s := intInfo(to)
				switch x := v.(type) {
				case int64:
					return norm(x, w, s)
				case *term.T:
					_, fs := intInfo(from)
					return termVal(m.pool.Conv(x, w, fs), s)
				}
				if tb.Kind() == types.Uintptr {
					return v
				}
			case tb.Info()&types.IsFloat != 0:
				switch x := v.(type) {
				case int64:
					_, s := intInfo(from)
					if s {
						return float64(x)
					}
					return float64(uint64(x))
				case float64:
					if tb.Kind() == types.Float32 {
						return float64(float32(x))
					}
					return x
				}
			case tb.Info()&types.IsInteger != 0 && fb.Info()&types.IsFloat != 0:
				if f, ok := v.(float64); ok {
					w, s := intInfo(to)
					if s {
						return norm(int64(f), w, s)
					}
					if f > math.MaxInt64 {
						return norm(int64(uint64(f)), w, s)
					}
					return norm(int64(f), w, s)
				}
			case tb.Info()&types.IsComplex != 0:
				return v
			case tb.Kind() == types.UnsafePointer || fb.Kind() == types.UnsafePointer:
				return v
			}
		}
		if tb.Info()&types.IsString != 0 {
			if sl, ok := uf.(*types.Slice); ok {
				s := v.([]value)
				if b := basicOf(sl.Elem()); b != nil && b.Kind() == types.Int32 {
					var r value = ""
					for _, x := range s {
						r = m.concat(r, m.runeToStr(x, sl.Elem()))
					}
					return r
				}
				return m.bytesToStr(s)
			}
		}
		if tb.Kind() == types.UnsafePointer {
			return v
		}
	}
	if ts, ok := ut.(*types.Slice); ok {
		if fb, ok := uf.(*types.Basic); ok && fb.Info()&types.IsString != 0 {
			if b := basicOf(ts.Elem()); b != nil && b.Kind() == types.Int32 {
				return m.strToRunes(v)
			}
			return m.strToBytes(v)
		}
	}
	if _, ok := ut.(*types.Pointer); ok {
		return v
	}
	if _, ok := ut.(*types.Slice); ok {
		return v
	}
	unsupported("conversion %s to %s", from, to)
	return nil
}

func (m *Machine) strToBytes(v value) []value {
	switch s := v.(type) {
	case string:
		r := make([]value, len(s))
		for i := 0; i < len(s); i++ {
			r[i] = int64(s[i])
		}
		return r
	case *Str:
		if s.opaque {
			unsupported("bytes of opaque string")
		}
		r := make([]value, len(s.b))
		for i, t := range s.b {
			r[i] = termVal(t, false)
		}
		return r
	}
	unsupported("strToBytes %T", v)
	return nil
}

func (m *Machine) bytesToStr(s []value) value {
	bs := make([]byte, len(s))
	for i, x := range s {
		c, ok := x.(int64)
		if !ok {
			ts := make([]*term.T, len(s))
			for i, x := range s {
				ts[i] = m.asTerm(x, 8)
			}
			return mkStr(ts)
		}
		bs[i] = byte(c)
	}
	return string(bs)
}

func (m *Machine) strToRunes(v value) []value {
	r := []value{}
	n := strLen(v)
	for i := 0; i < n; {
		x, k := m.decodeRune(v, i)
		r = append(r, x)
		i += k
	}
	return r
}

// decodeRune decodes the rune at byte i of a string, forking on the lead byte
// class if it is symbolic.
func (m *Machine) decodeRune(v value, i int) (value, int) {
	if s, ok := v.(string); ok {
		r, n := utf8.DecodeRuneInString(s[i:])
		return int64(r), n
	}
	bs := v.(*Str).b[i:]
	p := m.pool
	b0 := bs[0]
	// concrete run
	k := 0
	for k < len(bs) && k < 4 && bs[k].Op == term.Const {
		k++
	}
	if k > 0 {
		buf := make([]byte, k)
		for j := range buf {
			buf[j] = byte(bs[j].K)
		}
		if utf8.FullRune(buf) || k == len(bs) {
			r, n := utf8.DecodeRune(buf)
			return int64(r), n
		}
	}
	in := func(b *term.T, lo, hi uint64) bool {
		c := p.And(p.Not(p.Ult(b, p.BV(lo, 8))), p.Not(p.Ult(p.BV(hi, 8), b)))
		return m.truth(termVal(c, false))
	}
	if in(b0, 0, 0x7f) {
		return termVal(p.Conv(b0, 32, false), true), 1
	}
	bad := func() (value, int) { return int64(utf8.RuneError), 1 }
	cont := func(b *term.T, sh uint64) *term.T {
		return p.Bin(term.Shl, p.Bin(term.BAnd, p.Conv(b, 32, false), p.BV(0x3f, 32)), p.BV(sh, 32))
	}
	lead := func(mask, sh uint64) *term.T {
		return p.Bin(term.Shl, p.Bin(term.BAnd, p.Conv(b0, 32, false), p.BV(mask, 32)), p.BV(sh, 32))
	}
	if in(b0, 0xc2, 0xdf) {
		if len(bs) < 2 || !in(bs[1], 0x80, 0xbf) {
			return bad()
		}
		return termVal(p.Bin(term.BOr, lead(0x1f, 6), cont(bs[1], 0)), true), 2
	}
	three := func(lo, hi uint64) (value, int) {
		if len(bs) < 2 || !in(bs[1], lo, hi) || len(bs) < 3 || !in(bs[2], 0x80, 0xbf) {
			return bad()
		}
		return termVal(p.Bin(term.BOr, p.Bin(term.BOr, lead(0xf, 12), cont(bs[1], 6)), cont(bs[2], 0)), true), 3
	}
	four := func(lo, hi uint64) (value, int) {
		if len(bs) < 2 || !in(bs[1], lo, hi) || len(bs) < 3 || !in(bs[2], 0x80, 0xbf) || len(bs) < 4 || !in(bs[3], 0x80, 0xbf) {
			return bad()
		}
		return termVal(p.Bin(term.BOr, p.Bin(term.BOr, lead(7, 18), cont(bs[1], 12)), p.Bin(term.BOr, cont(bs[2], 6), cont(bs[3], 0))), true), 4
	}
	if in(b0, 0xe0, 0xef) {
		switch {
		case in(b0, 0xe0, 0xe0):
			return three(0xa0, 0xbf)
		case in(b0, 0xed, 0xed):
			return three(0x80, 0x9f)
		}
		return three(0x80, 0xbf)
	}
	if in(b0, 0xf0, 0xf4) {
		switch {
		case in(b0, 0xf0, 0xf0):
			return four(0x90, 0xbf)
		case in(b0, 0xf4, 0xf4):
			return four(0x80, 0x8f)
		}
		return four(0x80, 0xbf)
	}
	return bad()
}

func (m *Machine) runeToStr(v value, t types.Type) value {
	if r, ok := v.(int64); ok {
		return string(rune(clampRune(r)))
	}
	x := v.(*term.T)
	p := m.pool
	_, s := intInfo(t)
	x = p.Conv(x, 32, s)
	lt := func(n uint64) bool { return m.truth(termVal(p.Ult(x, p.BV(n, 32)), false)) }
	if lt(0x80) {
		return mkStr([]*term.T{p.Conv(x, 8, false)})
	}
	low := func(sh uint64, mask, or uint64) *term.T {
		y := p.Bin(term.LShr, x, p.BV(sh, 32))
		y = p.Bin(term.BAnd, y, p.BV(mask, 32))
		return p.Conv(p.Bin(term.BOr, y, p.BV(or, 32)), 8, false)
	}
	if lt(0x800) {
		return mkStr([]*term.T{low(6, 0x1f, 0xc0), low(0, 0x3f, 0x80)})
	}
	if lt(0x10000) {
		if !lt(0xd800) && lt(0xe000) {
			return "\uFFFD"
		}
		return mkStr([]*term.T{low(12, 0xf, 0xe0), low(6, 0x3f, 0x80), low(0, 0x3f, 0x80)})
	}
	if lt(0x110000) {
		return mkStr([]*term.T{low(18, 7, 0xf0), low(12, 0x3f, 0x80), low(6, 0x3f, 0x80), low(0, 0x3f, 0x80)})
	}
	return "\uFFFD"
}

func clampRune(r int64) int64 {
	if r < 0 || r > utf8.MaxRune {
		return utf8.RuneError
	}
	return r
}

// ---- iteration

type iterator interface {
	next(m *Machine, in *ssa.Next) value
}

type strIter struct {
	s value
	i int
}

func (it *strIter) next(m *Machine, in *ssa.Next) value {
	if it.i >= strLen(it.s) {
		return tuple{false, int64(0), int64(0)}
	}
	r, n := m.decodeRune(it.s, it.i)
	p := it.i
	it.i += n
	return tuple{true, int64(p), r}
}

type mapIter struct {
	mp    *Map
	i     int
	order []int
}

func (it *mapIter) next(m *Machine, in *ssa.Next) value {
	if it.mp != nil {
		for {
			var k int
			if it.order != nil {
				if it.i >= len(it.order) {
					break
				}
				k = it.order[it.i]
			} else {
				if it.i >= len(it.mp.keys) {
					break
				}
				k = it.i
			}
			it.i++
			if it.mp.live[k] {
				return tuple{true, copyVal(it.mp.keys[k]), copyVal(it.mp.vals[k])}
			}
		}
	}
	t := in.Type().(*types.Tuple)
	z := func(i int) value {
		if b, ok := t.At(i).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
			return nil
		}
		return zero(t.At(i).Type())
	}
	return tuple{false, z(1), z(2)}
}

func (m *Machine) rangeIter(v value) value {
	switch v := v.(type) {
	case string, *Str:
		return &strIter{s: v}
	case *Map:
		it := &mapIter{mp: v}
		if v != nil && m.mapOrd && v.n > 1 && v.n <= 4 && v.path == m.pathNo {
			// symbolic iteration order: choose the next entry each time
			var rest []int
			for i := range v.keys {
				if v.live[i] {
					rest = append(rest, i)
				}
			}
			for len(rest) > 0 {
				k := 0
				if len(rest) > 1 {
					k = m.concretize(m.choice(len(rest), "maporder"))
				}
				it.order = append(it.order, rest[k])
				rest = append(rest[:k:k], rest[k+1:]...)
			}
		}
		return it
	case nil:
		return &mapIter{}
	}
	unsupported("range over %T", v)
	return nil
}
