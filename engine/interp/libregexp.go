package interp

import (
	"reflect"
	"regexp"
	"regexp/syntax"

	"golang.org/x/tools/go/ssa"

	"verif/engine/term"
)

type symRe struct {
	re   *regexp.Regexp
	prog *syntax.Prog
}

func symRegexp() {
	compile := func(m *Machine, s string) (value, error) {
		re, err := regexp.Compile(s)
		if err != nil {
			return nil, err
		}
		ast, _ := syntax.Parse(s, syntax.Perl)
		prog, err := syntax.Compile(ast.Simplify())
		if err != nil {
			return nil, err
		}
		p := new(value)
		*p = native{&symRe{re, prog}}
		return p, nil
	}
	reg("regexp.MustCompile", func(m *Machine, a []value) (value, bool) {
		s, ok := a[0].(string)
		if !ok {
			unsupported("regexp with symbolic pattern")
		}
		p, err := compile(m, s)
		if err != nil {
			m.rtPanic("regexp: Compile: " + err.Error())
		}
		return p, true
	})
	reg("regexp.Compile", func(m *Machine, a []value) (value, bool) {
		s, ok := a[0].(string)
		if !ok {
			unsupported("regexp with symbolic pattern")
		}
		p, err := compile(m, s)
		if err != nil {
			return tuple{nil, m.newError(err.Error())}, true
		}
		return tuple{p, iface{}}, true
	})
	get := func(v value) *symRe { return (*v.(*value)).(native).v.(*symRe) }
	match := func(m *Machine, re *symRe, s value) value {
		if c, ok := s.(string); ok {
			return re.re.MatchString(c)
		}
		bs := m.bytesOf(s)
		var runes []*term.T
		if m.forkASCII(bs) {
			for _, b := range bs {
				runes = append(runes, m.pool.Conv(b, 32, false))
			}
		} else {
			for _, r := range m.strToRunes(s) {
				runes = append(runes, m.asTerm(r, 32))
			}
		}
		return termVal(m.nfa(re.prog, runes), false)
	}
	reg("(*regexp.Regexp).MatchString", func(m *Machine, a []value) (value, bool) {
		return match(m, get(a[0]), a[1]), true
	})
	reg("(*regexp.Regexp).Match", func(m *Machine, a []value) (value, bool) {
		return match(m, get(a[0]), m.bytesToStr(vargs(a[1]))), true
	})
	reg("regexp.MatchString", func(m *Machine, a []value) (value, bool) {
		s, ok := a[0].(string)
		if !ok {
			unsupported("regexp with symbolic pattern")
		}
		p, err := compile(m, s)
		if err != nil {
			return tuple{false, m.newError(err.Error())}, true
		}
		return tuple{match(m, get(p), a[1]), iface{}}, true
	})
	rt := reflect.TypeOf((*regexp.Regexp)(nil))
	for i := 0; i < rt.NumMethod(); i++ {
		name := rt.Method(i).Name
		full := "(*regexp.Regexp)." + name
		if intrinsics[full] != nil {
			continue
		}
		intrinsics[full] = func(m *Machine, caller *frame, fn *ssa.Function, a []value) (value, bool) {
			mv := reflect.ValueOf(get(a[0]).re).MethodByName(name)
			r, ok := m.callNative(mv.Interface(), a[1:])
			if !ok {
				unsupported("regexp.%s with symbolic text", name)
			}
			return r, true
		}
	}
}

// nfa is the term for "the program matches somewhere in the text".
func (m *Machine) nfa(prog *syntax.Prog, text []*term.T) *term.T {
	p := m.pool
	n := len(text)
	res := p.False
	cur := map[uint32]*term.T{}
	word := func(i int) *term.T {
		if i < 0 || i >= n {
			return p.False
		}
		r := p.False
		for _, lh := range [][2]uint64{{'0', '9'}, {'A', 'Z'}, {'a', 'z'}, {'_', '_'}} {
			r = p.Or(r, m.runeRange(text[i], lh[0], lh[1]))
		}
		return r
	}
	for pos := 0; pos <= n; pos++ {
		// closure under empty transitions
		next := map[uint32]*term.T{}
		type st struct {
			pc uint32
			c  *term.T
		}
		var work []st
		for k := range prog.Inst {
			pc := uint32(k)
			c, ok := cur[pc]
			if !ok {
				continue
			}
			work = append(work, st{pc, c})
		}
		work = append(work, st{uint32(prog.Start), p.True})
		seen := map[uint32]*term.T{}
		for len(work) > 0 {
			s := work[len(work)-1]
			work = work[:len(work)-1]
			if s.c == p.False {
				continue
			}
			old, ok := seen[s.pc]
			if ok {
				u := p.Or(old, s.c)
				if u == old {
					continue
				}
				seen[s.pc] = u
				s.c = u
			} else {
				seen[s.pc] = s.c
			}
			in := &prog.Inst[s.pc]
			switch in.Op {
			case syntax.InstAlt, syntax.InstAltMatch:
				work = append(work, st{in.Out, s.c}, st{in.Arg, s.c})
			case syntax.InstCapture, syntax.InstNop:
				work = append(work, st{in.Out, s.c})
			case syntax.InstEmptyWidth:
				c := s.c
				e := syntax.EmptyOp(in.Arg)
				nl := func(i int) *term.T { return p.Eq(text[i], p.BV('\n', 32)) }
				if e&syntax.EmptyBeginText != 0 && pos != 0 {
					c = p.False
				}
				if e&syntax.EmptyEndText != 0 && pos != n {
					c = p.False
				}
				if e&syntax.EmptyBeginLine != 0 && pos != 0 {
					c = p.And(c, nl(pos-1))
				}
				if e&syntax.EmptyEndLine != 0 && pos != n {
					c = p.And(c, nl(pos))
				}
				if e&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
					b := p.Not(p.Eq(word(pos-1), word(pos)))
					if e&syntax.EmptyNoWordBoundary != 0 {
						b = p.Not(b)
					}
					c = p.And(c, b)
				}
				work = append(work, st{in.Out, c})
			case syntax.InstMatch:
				res = p.Or(res, s.c)
			}
		}
		if pos == n {
			break
		}
		for k := range prog.Inst {
			pc := uint32(k)
			c, isSeen := seen[pc]
			if !isSeen {
				continue
			}
			in := &prog.Inst[pc]
			var ok *term.T
			switch in.Op {
			case syntax.InstRuneAny:
				ok = p.True
			case syntax.InstRuneAnyNotNL:
				ok = p.Not(p.Eq(text[pos], p.BV('\n', 32)))
			case syntax.InstRune, syntax.InstRune1:
				ok = p.False
				r := in.Rune
				if len(r) == 1 {
					if syntax.Flags(in.Arg)&syntax.FoldCase != 0 {
						unsupported("regexp fold case")
					}
					ok = p.Eq(text[pos], p.BV(uint64(r[0]), 32))
				} else {
					for i := 0; i+1 < len(r); i += 2 {
						ok = p.Or(ok, m.runeRange(text[pos], uint64(r[i]), uint64(r[i+1])))
					}
				}
			default:
				continue
			}
			t := p.And(c, ok)
			if t == p.False {
				continue
			}
			if o, is := next[in.Out]; is {
				t = p.Or(o, t)
			}
			next[in.Out] = t
		}
		cur = next
	}
	return res
}

func (m *Machine) runeRange(x *term.T, lo, hi uint64) *term.T {
	p := m.pool
	return p.And(p.Not(p.Ult(x, p.BV(lo, 32))), p.Not(p.Ult(p.BV(hi, 32), x)))
}
