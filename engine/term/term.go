// Package term implements hash-consed bit-vector and boolean terms over the
// symbolic input variables of a harness, their simplification, evaluation and
// printing as SMT-LIB 2.
package term

import (
	"fmt"
	"math/bits"
	"strings"
)

type Op uint8

const (
	Const Op = iota // k (bool: w==0)
	Var             // k = index
	InSet           // boolean: 8-bit variable k lies in set
	Not
	And
	Or
	Eq
	Ult
	Slt
	Add
	Sub
	Mul
	UDiv
	URem
	SDiv
	SRem
	BAnd
	BOr
	BXor
	Shl
	LShr
	AShr
	Zext
	Sext
	Trunc
	Ite
)

type Set [4]uint64

func (s *Set) Has(b uint64) bool { return s[b>>6&3]>>(b&63)&1 != 0 }
func (s *Set) Add(b uint64)      { s[b>>6&3] |= 1 << (b & 63) }
func (s Set) And(o Set) Set {
	for i := range s {
		s[i] &= o[i]
	}
	return s
}
func (s Set) Or(o Set) Set {
	for i := range s {
		s[i] |= o[i]
	}
	return s
}
func (s Set) Not() Set {
	for i := range s {
		s[i] = ^s[i]
	}
	return s
}
func (s Set) Empty() bool { return s[0]|s[1]|s[2]|s[3] == 0 }
func (s Set) Full() bool  { return s[0]&s[1]&s[2]&s[3] == ^uint64(0) }
func (s Set) Len() int {
	return bits.OnesCount64(s[0]) + bits.OnesCount64(s[1]) + bits.OnesCount64(s[2]) + bits.OnesCount64(s[3])
}
func (s Set) First() uint64 {
	for i := range s {
		if s[i] != 0 {
			return uint64(i*64 + bits.TrailingZeros64(s[i]))
		}
	}
	return 0
}

var FullSet = Set{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}

// T is a term. W is its width in bits, 0 for booleans.
type T struct {
	Op      Op
	W       uint8
	K       uint64
	A, B, C *T
	S       *Set // InSet
	ID      uint32
	// single variable: sv >= 0 and the variable is 8 bits wide: table cacheable
	sv  int32 // -1: no variable, -2: several or wide
	vs  []int32
	tab *[256]uint64
}

type key struct {
	op         Op
	w          uint8
	k          uint64
	a, b, c    uint32
	s          Set
}

// Pool hash-conses terms. Not safe for concurrent use.
type Pool struct {
	m      map[key]*T
	next   uint32
	True   *T
	False  *T
	Widths map[int]uint8
}

func NewPool() *Pool {
	p := &Pool{m: map[key]*T{}}
	p.True = p.mk(key{op: Const, k: 1}, nil, nil, nil)
	p.False = p.mk(key{op: Const, k: 0}, nil, nil, nil)
	return p
}

func (p *Pool) Size() int { return len(p.m) }

func (p *Pool) mk(k key, a, b, c *T) *T {
	if a != nil {
		k.a = a.ID + 1
	}
	if b != nil {
		k.b = b.ID + 1
	}
	if c != nil {
		k.c = c.ID + 1
	}
	if t, ok := p.m[k]; ok {
		return t
	}
	t := &T{Op: k.op, W: k.w, K: k.k, A: a, B: b, C: c, ID: p.next}
	p.next++
	switch k.op {
	case Const:
		t.sv = -1
	case Var:
		t.vs = []int32{int32(k.k)}
		if k.w == 8 {
			t.sv = int32(k.k)
		} else {
			t.sv = -2
		}
	case InSet:
		s := k.s
		t.S = &s
		t.sv = int32(k.k)
		t.vs = []int32{int32(k.k)}
	default:
		t.sv = -1
		for _, x := range [...]*T{a, b, c} {
			if x == nil || x.sv == -1 {
				continue
			}
			if t.sv == -1 {
				t.sv = x.sv
				t.vs = x.vs
			} else {
				if t.sv != x.sv {
					t.sv = -2
				}
				t.vs = union(t.vs, x.vs)
			}
		}
	}
	p.m[k] = t
	return t
}

func union(a, b []int32) []int32 {
	if len(a) == len(b) {
		same := true
		for i := range a {
			if a[i] != b[i] {
				same = false
				break
			}
		}
		if same {
			return a
		}
	}
	r := make([]int32, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || i < len(a) && a[i] < b[j]:
			r = append(r, a[i])
			i++
		case i >= len(a) || b[j] < a[i]:
			r = append(r, b[j])
			j++
		default:
			r = append(r, a[i])
			i++
			j++
		}
	}
	return r
}

// Vars lists the variables of t in increasing order.
func (t *T) Vars() []int32 { return t.vs }

// SingleByte reports the only variable of t, if it is 8 bits wide.
func (t *T) SingleByte() (int, bool) { return int(t.sv), t.sv >= 0 }

func (t *T) IsConst() bool { return t.Op == Const }
func (t *T) Bool() bool    { return t.K != 0 }

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<w - 1
}

func sx(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	return int64(v<<(64-w)) >> (64 - w)
}

// SignedConst is the value of a constant read as a two's complement number.
func (t *T) SignedConst() int64 { return sx(t.K, t.W) }

func (p *Pool) BV(v uint64, w uint8) *T {
	return p.mk(key{op: Const, w: w, k: v & mask(w)}, nil, nil, nil)
}

func (p *Pool) BoolT(b bool) *T {
	if b {
		return p.True
	}
	return p.False
}

func (p *Pool) NewVar(idx int, w uint8) *T {
	return p.mk(key{op: Var, w: w, k: uint64(idx)}, nil, nil, nil)
}

func (p *Pool) MkInSet(v int, s Set) *T {
	if s.Empty() {
		return p.False
	}
	if s.Full() {
		return p.True
	}
	return p.mk(key{op: InSet, k: uint64(v), s: s}, nil, nil, nil)
}

// table gives the value of a single-byte-variable term for each value of it.
func (t *T) table() *[256]uint64 {
	if t.tab != nil {
		return t.tab
	}
	var tb [256]uint64
	switch t.Op {
	case Var:
		for i := range tb {
			tb[i] = uint64(i)
		}
	case InSet:
		for i := range tb {
			if t.S.Has(uint64(i)) {
				tb[i] = 1
			}
		}
	case Const:
		for i := range tb {
			tb[i] = t.K
		}
		return &tb
	default:
		var a, b, c *[256]uint64
		if t.A != nil {
			a = t.A.table()
		}
		if t.B != nil {
			b = t.B.table()
		}
		if t.C != nil {
			c = t.C.table()
		}
		for i := range tb {
			var x, y, z uint64
			if a != nil {
				x = a[i]
			}
			if b != nil {
				y = b[i]
			}
			if c != nil {
				z = c[i]
			}
			tb[i] = apply(t, x, y, z)
		}
	}
	t.tab = &tb
	return t.tab
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func apply(t *T, x, y, z uint64) uint64 {
	switch t.Op {
	case Not:
		return 1 - x
	case And:
		return x & y
	case Or:
		return x | y
	case Eq:
		return b2u(x == y)
	case Ult:
		return b2u(x < y)
	case Slt:
		return b2u(sx(x, t.A.W) < sx(y, t.A.W))
	case Zext:
		return x
	case Sext:
		return uint64(sx(x, t.A.W)) & mask(t.W)
	case Trunc:
		return x & mask(t.W)
	case Ite:
		if x != 0 {
			return y
		}
		return z
	}
	return binval(t.Op, t.W, x, y)
}

func binval(op Op, w uint8, x, y uint64) uint64 {
	m := mask(w)
	switch op {
	case Add:
		return (x + y) & m
	case Sub:
		return (x - y) & m
	case Mul:
		return (x * y) & m
	case UDiv:
		if y == 0 {
			return m
		}
		return x / y
	case URem:
		if y == 0 {
			return x
		}
		return x % y
	case SDiv:
		a, b := sx(x, w), sx(y, w)
		if b == 0 {
			if a < 0 {
				return 1
			}
			return m
		}
		if b == -1 {
			return uint64(-a) & m
		}
		return uint64(a/b) & m
	case SRem:
		a, b := sx(x, w), sx(y, w)
		if b == 0 {
			return x
		}
		if b == -1 {
			return 0
		}
		return uint64(a%b) & m
	case BAnd:
		return x & y
	case BOr:
		return x | y
	case BXor:
		return x ^ y
	case Shl:
		if y >= uint64(w) {
			return 0
		}
		return x << y & m
	case LShr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case AShr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sx(x, w)>>y) & m
	}
	panic("binval")
}

// canon turns a boolean term over one byte variable into set membership.
func (p *Pool) canon(t *T) *T {
	if t.W != 0 || t.sv < 0 || t.Op == InSet || t.Op == Const {
		return t
	}
	tb := t.table()
	var s Set
	for i := range tb {
		if tb[i] != 0 {
			s.Add(uint64(i))
		}
	}
	return p.MkInSet(int(t.sv), s)
}

func (p *Pool) Not(a *T) *T {
	switch a.Op {
	case Const:
		return p.BoolT(a.K == 0)
	case Not:
		return a.A
	case InSet:
		return p.MkInSet(int(a.K), a.S.Not())
	}
	return p.mk(key{op: Not}, a, nil, nil)
}

func (p *Pool) And(a, b *T) *T {
	if a.Op == Const {
		if a.K == 0 {
			return a
		}
		return b
	}
	if b.Op == Const {
		if b.K == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if a.Op == InSet && b.Op == InSet && a.K == b.K {
		return p.MkInSet(int(a.K), a.S.And(*b.S))
	}
	if a.Op == Not && a.A == b || b.Op == Not && b.A == a {
		return p.False
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return p.canon(p.mk(key{op: And}, a, b, nil))
}

func (p *Pool) Or(a, b *T) *T {
	if a.Op == Const {
		if a.K != 0 {
			return a
		}
		return b
	}
	if b.Op == Const {
		if b.K != 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if a.Op == InSet && b.Op == InSet && a.K == b.K {
		return p.MkInSet(int(a.K), a.S.Or(*b.S))
	}
	if a.Op == Not && a.A == b || b.Op == Not && b.A == a {
		return p.True
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return p.canon(p.mk(key{op: Or}, a, b, nil))
}

func (p *Pool) Eq(a, b *T) *T {
	if a == b {
		return p.True
	}
	if a.Op == Const && b.Op == Const {
		return p.BoolT(a.K == b.K)
	}
	if a.W == 0 {
		if a.Op == Const {
			a, b = b, a
		}
		if b.Op == Const {
			if b.K != 0 {
				return a
			}
			return p.Not(a)
		}
		return p.canon(p.mk(key{op: Eq}, a, b, nil))
	}
	if a.Op == Const {
		a, b = b, a
	}
	if b.Op == Const {
		switch a.Op {
		case Zext:
			if b.K > mask(a.A.W) {
				return p.False
			}
			return p.Eq(a.A, p.BV(b.K, a.A.W))
		case Ite:
			if a.B.Op == Const && a.C.Op == Const {
				x, y := a.B.K == b.K, a.C.K == b.K
				switch {
				case x && y:
					return p.True
				case x:
					return a.A
				case y:
					return p.Not(a.A)
				default:
					return p.False
				}
			}
			if a.sv < 0 && (a.B.Op == Const || a.C.Op == Const) {
				return p.Or(p.And(a.A, p.Eq(a.B, b)), p.And(p.Not(a.A), p.Eq(a.C, b)))
			}
		case Var:
			if a.W == 8 {
				var s Set
				s.Add(b.K)
				return p.MkInSet(int(a.K), s)
			}
		}
	} else {
		if a.Op == Zext && b.Op == Zext && a.A.W == b.A.W {
			return p.Eq(a.A, b.A)
		}
		if a.ID > b.ID {
			a, b = b, a
		}
	}
	return p.canon(p.mk(key{op: Eq}, a, b, nil))
}

func (p *Pool) Ult(a, b *T) *T {
	if a == b {
		return p.False
	}
	if a.Op == Const && b.Op == Const {
		return p.BoolT(a.K < b.K)
	}
	if b.Op == Const && b.K == 0 {
		return p.False
	}
	if a.Op == Zext && b.Op == Zext && a.A.W == b.A.W {
		return p.Ult(a.A, b.A)
	}
	return p.canon(p.mk(key{op: Ult}, a, b, nil))
}

func (p *Pool) Slt(a, b *T) *T {
	if a == b {
		return p.False
	}
	if a.Op == Const && b.Op == Const {
		return p.BoolT(sx(a.K, a.W) < sx(b.K, b.W))
	}
	if a.Op == Zext && b.Op == Zext && a.A.W == b.A.W {
		return p.Ult(a.A, b.A)
	}
	return p.canon(p.mk(key{op: Slt}, a, b, nil))
}

func (p *Pool) Bin(op Op, a, b *T) *T {
	if a.Op == Const && b.Op == Const {
		return p.BV(binval(op, a.W, a.K, b.K), a.W)
	}
	switch op {
	case Add, BOr, BXor:
		if a.Op == Const && a.K == 0 {
			return b
		}
		if b.Op == Const && b.K == 0 {
			return a
		}
	case Sub, Shl, LShr, AShr:
		if b.Op == Const && b.K == 0 {
			return a
		}
		if op == Sub && a == b {
			return p.BV(0, a.W)
		}
	case Mul:
		if a.Op == Const && a.K == 1 {
			return b
		}
		if b.Op == Const && b.K == 1 {
			return a
		}
	}
	return p.mk(key{op: op, w: a.W}, a, b, nil)
}

func (p *Pool) Conv(a *T, w uint8, signed bool) *T {
	switch {
	case a.W == w:
		return a
	case a.W > w:
		if a.Op == Const {
			return p.BV(a.K, w)
		}
		if (a.Op == Zext || a.Op == Sext) && a.A.W >= w {
			return p.Conv(a.A, w, signed)
		}
		if a.Op == Zext && a.A.W < w {
			return p.Conv(a.A, w, false)
		}
		return p.mk(key{op: Trunc, w: w}, a, nil, nil)
	case signed:
		if a.Op == Const {
			return p.BV(uint64(sx(a.K, a.W)), w)
		}
		if a.Op == Zext {
			return p.mk(key{op: Zext, w: w}, a.A, nil, nil)
		}
		return p.mk(key{op: Sext, w: w}, a, nil, nil)
	default:
		if a.Op == Const {
			return p.BV(a.K, w)
		}
		if a.Op == Zext {
			a = a.A
		}
		return p.mk(key{op: Zext, w: w}, a, nil, nil)
	}
}

func (p *Pool) Ite(c, a, b *T) *T {
	if c.Op == Const {
		if c.K != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.W == 0 {
		if a.Op == Const && b.Op == Const {
			if a.K != 0 {
				return c
			}
			return p.Not(c)
		}
		return p.Or(p.And(c, a), p.And(p.Not(c), b))
	}
	if b.Op == Ite && b.A == c {
		b = b.C
	}
	if b.Op == Ite && b.B == a {
		return p.Ite(p.Or(c, b.A), a, b.C)
	}
	return p.mk(key{op: Ite, w: a.W}, c, a, b)
}

// Eval evaluates t under a model giving each variable's value.
func (t *T) Eval(model []uint64) uint64 {
	var memo map[uint32]uint64
	var ev func(t *T) uint64
	ev = func(t *T) uint64 {
		switch t.Op {
		case Const:
			return t.K
		case Var:
			if int(t.K) < len(model) {
				return model[t.K] & mask(t.W)
			}
			return 0
		case InSet:
			var v uint64
			if int(t.K) < len(model) {
				v = model[t.K]
			}
			return b2u(t.S.Has(v & 255))
		}
		if t.sv >= 0 {
			var v uint64
			if int(t.sv) < len(model) {
				v = model[t.sv] & 255
			}
			return t.table()[v]
		}
		if memo != nil {
			if v, ok := memo[t.ID]; ok {
				return v
			}
		} else {
			memo = map[uint32]uint64{}
		}
		var x, y, z uint64
		x = ev(t.A)
		var r uint64
		switch t.Op {
		case And:
			if x == 0 {
				r = 0
			} else {
				r = ev(t.B)
			}
		case Or:
			if x != 0 {
				r = 1
			} else {
				r = ev(t.B)
			}
		case Ite:
			if x != 0 {
				r = ev(t.B)
			} else {
				r = ev(t.C)
			}
		default:
			if t.B != nil {
				y = ev(t.B)
			}
			if t.C != nil {
				z = ev(t.C)
			}
			r = apply(t, x, y, z)
		}
		memo[t.ID] = r
		return r
	}
	return ev(t)
}

var smtOp = map[Op]string{
	Not: "not", And: "and", Or: "or", Eq: "=", Ult: "bvult", Slt: "bvslt", Add: "bvadd", Sub: "bvsub", Mul: "bvmul",
	UDiv: "bvudiv", URem: "bvurem", SDiv: "bvsdiv", SRem: "bvsrem", BAnd: "bvand", BOr: "bvor", BXor: "bvxor",
	Shl: "bvshl", LShr: "bvlshr", AShr: "bvashr", Ite: "ite",
}

func VarName(idx int32, w uint8) string { return fmt.Sprintf("v%d_%d", idx, w) }

func bvlit(v uint64, w uint8) string {
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(w/4), v)
	}
	return fmt.Sprintf("#b%0*b", int(w), v)
}

// SMT prints t as an SMT-LIB expression, sharing repeated subterms with let.
func (t *T) SMT(widths func(int32) uint8) string {
	count := map[uint32]int{}
	var order []*T
	var walk func(t *T)
	walk = func(t *T) {
		count[t.ID]++
		if count[t.ID] > 1 {
			return
		}
		for _, x := range [...]*T{t.A, t.B, t.C} {
			if x != nil {
				walk(x)
			}
		}
		order = append(order, t)
	}
	walk(t)
	var sb strings.Builder
	names := map[uint32]string{}
	var pr func(t *T, top bool)
	pr = func(t *T, top bool) {
		if n, ok := names[t.ID]; ok && !top {
			sb.WriteString(n)
			return
		}
		switch t.Op {
		case Const:
			if t.W == 0 {
				if t.K != 0 {
					sb.WriteString("true")
				} else {
					sb.WriteString("false")
				}
			} else {
				sb.WriteString(bvlit(t.K, t.W))
			}
			return
		case Var:
			sb.WriteString(VarName(int32(t.K), t.W))
			return
		case InSet:
			setSMT(&sb, VarName(int32(t.K), 8), t.S)
			return
		case Zext:
			fmt.Fprintf(&sb, "((_ zero_extend %d) ", t.W-t.A.W)
		case Sext:
			fmt.Fprintf(&sb, "((_ sign_extend %d) ", t.W-t.A.W)
		case Trunc:
			fmt.Fprintf(&sb, "((_ extract %d 0) ", t.W-1)
		default:
			sb.WriteString("(" + smtOp[t.Op] + " ")
		}
		pr(t.A, false)
		if t.B != nil {
			sb.WriteByte(' ')
			pr(t.B, false)
		}
		if t.C != nil {
			sb.WriteByte(' ')
			pr(t.C, false)
		}
		sb.WriteByte(')')
	}
	closes := 0
	for _, x := range order {
		if x == t || x.A == nil || count[x.ID] < 2 {
			continue
		}
		n := fmt.Sprintf("t%d", x.ID)
		sb.WriteString("(let ((" + n + " ")
		pr(x, true)
		sb.WriteString(")) ")
		names[x.ID] = n
		closes++
	}
	pr(t, true)
	sb.WriteString(strings.Repeat(")", closes))
	return sb.String()
}

func setSMT(sb *strings.Builder, v string, s *Set) {
	// print the smaller of the set and its complement as ranges
	type rng struct{ lo, hi int }
	ranges := func(s *Set) (r []rng) {
		for i := 0; i < 256; i++ {
			if !s.Has(uint64(i)) {
				continue
			}
			if n := len(r); n > 0 && r[n-1].hi == i-1 {
				r[n-1].hi = i
			} else {
				r = append(r, rng{i, i})
			}
		}
		return
	}
	r := ranges(s)
	c := s.Not()
	rc := ranges(&c)
	neg := len(rc) < len(r)
	if neg {
		r = rc
		sb.WriteString("(not ")
	}
	if len(r) != 1 {
		sb.WriteString("(or false")
	}
	for _, x := range r {
		if len(r) != 1 {
			sb.WriteByte(' ')
		}
		if x.lo == x.hi {
			fmt.Fprintf(sb, "(= %s #x%02x)", v, x.lo)
		} else {
			fmt.Fprintf(sb, "(and (bvule #x%02x %s) (bvule %s #x%02x))", x.lo, v, v, x.hi)
		}
	}
	if len(r) != 1 {
		sb.WriteByte(')')
	}
	if neg {
		sb.WriteByte(')')
	}
}

// SignExt interprets v as a signed w-bit number.
func SignExt(v uint64, w uint8) int64 {
	return sx(v, w)
}
