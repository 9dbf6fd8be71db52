package interp

import (
	"go/constant"
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type operand struct {
	kind uint8 // 0 none, 1 register, 2 constant, 3 global
	idx  int
	val  value
}

type instr struct {
	in   ssa.Instruction
	dst  int
	ops  []operand
	op   uint8
	w    uint8 // result / operand width of integer operations
	sgn  bool
	kind uint8
}

const (
	oOther uint8 = iota
	oIf
	oJump
	oReturn
	oBinOp
	oUnOp
	oLoad
	oStore
	oCall
	oPhi
	oFieldAddr
	oIndexAddr
	oExtract
	oDebug
)

const (
	kOther uint8 = iota
	kInt
	kString
	kBool
)

type bblock struct {
	ins  []instr
	phis int
	idx  int
}

type fnCode struct {
	fn     *ssa.Function
	nregs  int
	blocks []*bblock
	once   sync.Once
	intr   intrinsic
	name   string
	pure   int8 // 0 unknown, 1 pure, 2 not
	repo   bool // belongs to the repository under test
	entry  bool
	noBody bool
}

type program struct {
	prog       *ssa.Program
	mu         sync.Mutex
	codes      sync.Map // *ssa.Function -> *fnCode
	globals    map[*ssa.Global]int
	globalList []*ssa.Global
	pkgs       []*ssa.Package
	pureMu     sync.Mutex
	pureMemo   map[*ssa.Function]int8
	repoPrefix string
	embeds     map[types.Object]string
}

func (p *program) globalIdx(g *ssa.Global) int {
	p.mu.Lock()
	defer p.mu.Unlock()
	i, ok := p.globals[g]
	if !ok {
		i = len(p.globalList)
		p.globals[g] = i
		p.globalList = append(p.globalList, g)
	}
	return i
}

func (p *program) code(fn *ssa.Function) *fnCode {
	c, ok := p.codes.Load(fn)
	if !ok {
		c, _ = p.codes.LoadOrStore(fn, &fnCode{fn: fn})
	}
	fc := c.(*fnCode)
	fc.once.Do(func() { p.compile(fc) })
	return fc
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func (p *program) compile(fc *fnCode) {
	fn := fc.fn
	fc.name = fnName(fn)
	fc.intr = intrinsics[fc.name]
	if pk := fnPkg(fn); pk != nil {
		path := pk.Path()
		fc.repo = path == p.repoPrefix || len(path) > len(p.repoPrefix) && path[:len(p.repoPrefix)+1] == p.repoPrefix+"/"
	}
	if fn.Blocks == nil && fn.Pkg != nil {
		fn.Pkg.Build()
	}
	if fn.Blocks == nil {
		fc.noBody = true
		return
	}
	regs := map[ssa.Value]int{}
	add := func(v ssa.Value) {
		regs[v] = len(regs)
	}
	for _, x := range fn.Params {
		add(x)
	}
	for _, x := range fn.FreeVars {
		add(x)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	fc.nregs = len(regs)
	mkop := func(v ssa.Value) operand {
		switch v := v.(type) {
		case nil:
			return operand{}
		case *ssa.Const:
			return operand{kind: 2, val: constValue(v)}
		case *ssa.Global:
			return operand{kind: 3, idx: p.globalIdx(v)}
		case *ssa.Function, *ssa.Builtin:
			return operand{kind: 2, val: v}
		}
		i, ok := regs[v]
		if !ok {
			panic("no register for " + v.String())
		}
		return operand{kind: 1, idx: i}
	}
	fc.blocks = make([]*bblock, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		bb := &bblock{idx: bi}
		for _, in := range b.Instrs {
			i := instr{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				i.dst = regs[v]
			}
			switch in := in.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.If:
				i.op = oIf
			case *ssa.Jump:
				i.op = oJump
			case *ssa.Return:
				i.op = oReturn
			case *ssa.BinOp:
				i.op = oBinOp
				i.w, i.sgn = intInfo(in.X.Type())
				if b := basicOf(in.X.Type()); b != nil {
					switch {
					case b.Info()&types.IsInteger != 0:
						i.kind = kInt
					case b.Info()&types.IsString != 0:
						i.kind = kString
					case b.Info()&types.IsBoolean != 0:
						i.kind = kBool
					}
				}
			case *ssa.UnOp:
				i.op = oUnOp
				if in.Op.String() == "*" {
					i.op = oLoad
				}
				i.w, i.sgn = intInfo(in.X.Type())
			case *ssa.Store:
				i.op = oStore
			case *ssa.Call:
				i.op = oCall
			case *ssa.Phi:
				i.op = oPhi
				bb.phis++
			case *ssa.FieldAddr:
				i.op = oFieldAddr
			case *ssa.IndexAddr:
				i.op = oIndexAddr
			case *ssa.Extract:
				i.op = oExtract
			}
			var rands [12]*ssa.Value
			for _, r := range in.Operands(rands[:0]) {
				if r == nil || *r == nil {
					i.ops = append(i.ops, operand{})
				} else {
					i.ops = append(i.ops, mkop(*r))
				}
			}
			if _, is := in.(*ssa.Defer); is {
				i.ops = i.ops[:len(i.ops)-1] // the defer stack is no argument
			}
			bb.ins = append(bb.ins, i)
		}
		fc.blocks[bi] = bb
	}
}

func fnPkg(fn *ssa.Function) *types.Package {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg
	}
	if fn.Parent() != nil {
		return fnPkg(fn.Parent())
	}
	if fn.Object() != nil {
		return fn.Object().Pkg()
	}
	return nil
}

func constValue(c *ssa.Const) value {
	if c.Value == nil {
		return zero(c.Type())
	}
	t := c.Type()
	if tp, ok := t.Underlying().(*types.Interface); ok {
		_ = tp
		panic("const of interface type " + c.String())
	}
	b := basicOf(t)
	if b == nil {
		panic("const type " + t.String())
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return constant.BoolVal(c.Value)
	case b.Info()&types.IsInteger != 0:
		w, s := intInfo(t)
		if i, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
			return norm(i, w, s)
		}
		u, _ := constant.Uint64Val(constant.ToInt(c.Value))
		return int64(u)
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(c.Value)
		return f
	case b.Info()&types.IsComplex != 0:
		re, _ := constant.Float64Val(constant.Real(c.Value))
		im, _ := constant.Float64Val(constant.Imag(c.Value))
		return complex(re, im)
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		i, _ := constant.Int64Val(c.Value)
		return string(rune(i))
	}
	panic("const " + c.String())
}

// pureFn says whether fn is a function of its arguments and of memory it only
// reads, with scalar results: such calls with symbolic arguments are explored
// once and replaced by a term.
func (p *program) pureFn(fn *ssa.Function) bool {
	p.pureMu.Lock()
	defer p.pureMu.Unlock()
	if p.pureMemo == nil {
		p.pureMemo = map[*ssa.Function]int8{}
	}
	return p.pureRec(fn)
}

func scalarType(t types.Type) bool {
	b := basicOf(t)
	return b != nil && b.Info()&(types.IsInteger|types.IsBoolean) != 0
}

func (p *program) pureRec(fn *ssa.Function) bool {
	switch p.pureMemo[fn] {
	case 1:
		return true
	case 2:
		return false
	}
	p.pureMemo[fn] = 2 // also for recursion
	name := fnName(fn)
	if _, ok := intrinsics[name]; ok {
		if pureIntrinsics[name] {
			p.pureMemo[fn] = 1
			return true
		}
		return false
	}
	res := fn.Signature.Results()
	if res.Len() == 0 {
		return false
	}
	for i := 0; i < res.Len(); i++ {
		if !scalarType(res.At(i).Type()) {
			return false
		}
	}
	if fn.Blocks == nil && fn.Pkg != nil {
		fn.Pkg.Build()
	}
	if fn.Blocks == nil || fn.Recover != nil || len(fn.Blocks) > 60 {
		return false
	}
	local := func(v ssa.Value) bool {
		for {
			switch x := v.(type) {
			case *ssa.Alloc:
				return true
			case *ssa.FieldAddr:
				v = x.X
			case *ssa.IndexAddr:
				if _, ok := x.X.Type().Underlying().(*types.Pointer); !ok {
					return false
				}
				v = x.X
			default:
				return false
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.BinOp, *ssa.Phi, *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Convert, *ssa.ChangeType,
				*ssa.FieldAddr, *ssa.IndexAddr, *ssa.Index, *ssa.Field, *ssa.Lookup, *ssa.Slice, *ssa.Extract,
				*ssa.Alloc, *ssa.Range, *ssa.Next, *ssa.DebugRef:
			case *ssa.UnOp:
				if in.Op.String() == "<-" {
					return false
				}
			case *ssa.Store:
				if !local(in.Addr) {
					return false
				}
			case *ssa.Call:
				if in.Call.IsInvoke() {
					return false
				}
				switch f := in.Call.Value.(type) {
				case *ssa.Builtin:
					switch f.Name() {
					case "len", "cap", "min", "max", "ssa:wrapnilchk":
					default:
						return false
					}
				case *ssa.Function:
					if !p.pureRec(f) {
						return false
					}
				default:
					return false
				}
			default:
				return false
			}
		}
	}
	p.pureMemo[fn] = 1
	return true
}
