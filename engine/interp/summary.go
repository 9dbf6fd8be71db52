package interp

import (
	"fmt"
	"strings"

	"verif/engine/term"
)

// nestState drives the exploration of one pure call, free of path conditions.
type nestState struct {
	record bool
	reads  map[*value]value
	maps   map[*Map]int

	prefix  []byte
	trail   []byte
	dom     map[int]term.Set
	conds   []*term.T
	pending [][]byte
}

type summary struct {
	res   value
	ok    bool
	reads map[*value]value
	maps  map[*Map]int
}

func (n *nestState) read(p *value) {
	if _, ok := n.reads[p]; !ok {
		n.reads[p] = *p
	}
}

func (n *nestState) decide(m *Machine, t *term.T) bool {
	p := m.pool
	take := func(side bool) bool {
		c := t
		if !side {
			c = p.Not(t)
		}
		n.conds = append(n.conds, c)
		if v, ok := t.SingleByte(); ok {
			d, has := n.dom[v]
			if !has {
				d = term.Set{}.Not()
			}
			n.dom[v] = d.And(m.setOf(c, v))
		}
		return side
	}
	if k := len(n.trail); k < len(n.prefix) {
		d := n.prefix[k]
		n.trail = append(n.trail, d)
		if d&dForced != 0 {
			return d&dSide != 0
		}
		return take(d&dSide != 0)
	}
	if v, ok := t.SingleByte(); ok {
		s := m.setOf(t, v)
		d, has := n.dom[v]
		if !has {
			d = term.Set{}.Not()
		}
		if d.And(s).Empty() {
			n.trail = append(n.trail, dForced)
			return false
		}
		if d.And(s.Not()).Empty() {
			n.trail = append(n.trail, dForced|dSide)
			return true
		}
	}
	for _, c := range n.conds {
		if c == t {
			n.trail = append(n.trail, dForced|dSide)
			return true
		}
		if c.Op == term.Not && c.A == t || t.Op == term.Not && t.A == c {
			n.trail = append(n.trail, dForced)
			return false
		}
	}
	alt := append(append([]byte(nil), n.trail...), 0)
	n.pending = append(n.pending, alt)
	n.trail = append(n.trail, dSide)
	return take(true)
}

const (
	maxLeaves    = 400
	maxNestSteps = 400000
)

// sumKey identifies a call by function and argument terms; ok is false if the
// arguments are not plain values.
func sumKey(fc *fnCode, args, env []value) (string, bool) {
	if len(env) > 0 {
		return "", false
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "%p", fc)
	for _, a := range args {
		switch a := a.(type) {
		case *term.T:
			fmt.Fprintf(&sb, "|t%p", a)
		case int64:
			fmt.Fprintf(&sb, "|%d", a)
		case bool:
			fmt.Fprintf(&sb, "|%v", a)
		case string:
			fmt.Fprintf(&sb, "|%q", a)
		case *Str:
			if a.opaque {
				return "", false
			}
			sb.WriteString("|s")
			for _, t := range a.b {
				fmt.Fprintf(&sb, "%p,", t)
			}
		default:
			return "", false
		}
	}
	return sb.String(), true
}

func sameRead(a, b value) bool {
	switch x := a.(type) {
	case structure, array:
		return false
	case []value:
		y, ok := b.([]value)
		return ok && len(x) == len(y) && (len(x) == 0 || &x[0] == &y[0])
	case tuple:
		return false
	case iface:
		y, ok := b.(iface)
		return ok && x.t == y.t && sameRead(x.v, y.v)
	case nativeFunc, *closure:
		return false
	}
	switch b.(type) {
	case structure, array, []value, tuple, iface, nativeFunc, *closure:
		return false
	}
	return a == b
}

func (s *summary) valid() bool {
	for p, v := range s.reads {
		if !sameRead(*p, v) {
			return false
		}
	}
	for mp, ver := range s.maps {
		if mp.ver != ver {
			return false
		}
	}
	return true
}

// summarize replaces a pure call with symbolic arguments by a term over them.
func (m *Machine) summarize(caller *frame, fc *fnCode, args []value, env []value) (value, bool) {
	key, cacheable := sumKey(fc, args, env)
	if cacheable {
		for _, s := range m.sumCache[key] {
			if s.valid() {
				m.Stats.SummaryHits++
				return s.res, s.ok
			}
		}
	}
	m.Stats.Summaries++
	ns := &nestState{record: true, reads: map[*value]value{}, maps: map[*Map]int{}}
	res, ok := m.explorePure(ns, caller, fc, args, env)
	if cacheable {
		keep := true
		for _, v := range ns.reads {
			switch v.(type) {
			case structure, array, tuple, nativeFunc, *closure:
				keep = false
			}
		}
		if keep {
			l := m.sumCache[key]
			if len(l) > 8 {
				l = nil
			}
			m.sumCache[key] = append(l, &summary{res, ok, ns.reads, ns.maps})
		}
	}
	return res, ok
}

func (m *Machine) explorePure(ns *nestState, caller *frame, fc *fnCode, args, env []value) (res value, ok bool) {
	type leaf struct {
		c *term.T
		v value
	}
	var leaves []leaf
	steps0 := m.steps
	mark := len(m.journal)
	undo := func() {
		for i := len(m.journal) - 1; i >= mark; i-- {
			*m.journal[i].p = m.journal[i].old
		}
		m.journal = m.journal[:mark]
	}
	m.nest = ns
	defer func() {
		m.nest = nil
		m.steps = steps0
		if r := recover(); r != nil {
			switch r.(type) {
			case targetPanic, pathEnd:
				undo()
				res, ok = nil, false
				return
			}
			panic(r)
		}
	}()
	work := [][]byte{nil}
	for len(work) > 0 {
		ns.prefix = work[len(work)-1]
		work = work[:len(work)-1]
		ns.trail = nil
		ns.conds = nil
		ns.pending = nil
		ns.dom = map[int]term.Set{}
		r := m.exec(caller, fc, args, env)
		undo()
		c := m.pool.True
		// per-variable domains are the exact conjunction of unary conditions
		for v, s := range ns.dom {
			_ = v
			_ = s
		}
		for _, k := range ns.conds {
			c = m.pool.And(c, k)
		}
		leaves = append(leaves, leaf{c, r})
		if len(leaves) > maxLeaves || m.steps-steps0 > maxNestSteps {
			return nil, false
		}
		work = append(work, ns.pending...)
	}
	sig := fc.fn.Signature.Results()
	merge := func(get func(value) value, w uint8, s bool) value {
		type grp struct{ c, v *term.T }
		var groups []grp
		where := map[*term.T]int{}
		for _, l := range leaves {
			t := m.asTerm(get(l.v), w)
			if i, ok := where[t]; ok {
				groups[i].c = m.pool.Or(groups[i].c, l.c)
			} else {
				where[t] = len(groups)
				groups = append(groups, grp{l.c, t})
			}
		}
		r := groups[len(groups)-1].v
		for i := len(groups) - 2; i >= 0; i-- {
			r = m.pool.Ite(groups[i].c, groups[i].v, r)
		}
		return termVal(r, s)
	}
	if sig.Len() == 1 {
		w, s := intInfo(sig.At(0).Type())
		return merge(func(v value) value { return v }, w, s), true
	}
	out := make(tuple, sig.Len())
	for i := range out {
		w, s := intInfo(sig.At(i).Type())
		out[i] = merge(func(v value) value { return v.(tuple)[i] }, w, s)
	}
	return out, true
}
