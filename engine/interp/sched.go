package interp

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Goroutines of the interpreted program run one at a time; the baton passes
// when the running one blocks or ends.

func (m *Machine) spawn(fv value, args []value) {
	if m.nest != nil {
		unsupported("go statement in summary")
	}
	if m.initing {
		return
	}
	g := &gor{id: len(m.gors) + 1, wake: make(chan struct{}, 1)}
	m.gors = append(m.gors, g)
	m.runq = append(m.runq, g)
	m.wg.Add(1)
	go func() {
		defer m.wg.Done()
		<-g.wake
		if m.killing {
			return
		}
		func() {
			defer func() {
				r := recover()
				if r == nil {
					return
				}
				switch r := r.(type) {
				case killed, goexit:
				case targetPanic:
					m.ending = pathEnd{"panic", m.panicText(r.v)}
				case pathEnd:
					m.ending = r
				default:
					m.ending = pathEnd{"internal", shortStack()}
				}
			}()
			m.callValue(nil, fv, args)
		}()
		g.dead = true
		if m.killing {
			return
		}
		m.passBaton()
	}()
}

// passBaton gives control to the next runnable goroutine, or back to main with
// a deadlock.
func (m *Machine) passBaton() {
	if m.ending != nil {
		m.cur = m.mainG
		m.mainG.wake <- struct{}{}
		return
	}
	if len(m.runq) == 0 {
		m.ending = pathEnd{"deadlock", "all goroutines are asleep"}
		m.cur = m.mainG
		m.mainG.wake <- struct{}{}
		return
	}
	g := m.runq[0]
	m.runq = m.runq[1:]
	m.cur = g
	g.wake <- struct{}{}
}

// park blocks the current goroutine until it is made ready.
func (m *Machine) park() {
	if m.nest != nil {
		unsupported("blocking in summary")
	}
	g := m.cur
	if len(m.runq) == 0 && g == m.mainG {
		panic(pathEnd{"deadlock", "all goroutines are asleep"})
	}
	m.passBaton()
	<-g.wake
	if m.killing {
		panic(killed{})
	}
	if g == m.mainG && m.ending != nil {
		panic(m.ending)
	}
}

func (m *Machine) ready(g *gor) { m.runq = append(m.runq, g) }

// yieldG lets the other goroutines run.
func (m *Machine) yieldG() {
	if len(m.runq) == 0 {
		return
	}
	m.ready(m.cur)
	m.park()
}

func (m *Machine) killAll() {
	if len(m.gors) == 0 {
		return
	}
	m.killing = true
	for _, g := range m.gors {
		if !g.dead {
			select {
			case g.wake <- struct{}{}:
			default:
			}
		}
	}
	m.wg.Wait()
	m.killing = false
}

func takeWaiter(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if w.sel != nil && w.sel.fired {
			continue
		}
		return w
	}
	return nil
}

func (w *waiter) fire(m *Machine, v value, ok bool) {
	w.val, w.ok, w.done = v, ok, true
	if w.sel != nil {
		w.sel.fired = true
		w.sel.idx = w.idx
		w.sel.val = v
		w.sel.ok = ok
	}
	m.ready(w.g)
}

func (m *Machine) send(c *Chan, v value) {
	if m.nest != nil {
		unsupported("channel in summary")
	}
	if c == nil {
		m.park()
		return
	}
	if c.closed {
		m.rtPanic("send on closed channel")
	}
	if w := takeWaiter(&c.recvq); w != nil {
		w.fire(m, v, true)
		return
	}
	if len(c.buf) < c.cap {
		c.buf = append(c.buf, v)
		return
	}
	w := &waiter{g: m.cur, val: v}
	c.sendq = append(c.sendq, w)
	m.park()
	if !w.ok {
		m.rtPanic("send on closed channel")
	}
}

func (m *Machine) recv(cv value, t types.Type) (value, bool) {
	c, _ := cv.(*Chan)
	if m.nest != nil {
		unsupported("channel in summary")
	}
	if c == nil {
		for {
			m.park()
		}
	}
	if v, ok, done := m.tryRecv(c, t); done {
		return v, ok
	}
	w := &waiter{g: m.cur}
	c.recvq = append(c.recvq, w)
	m.park()
	if !w.ok {
		return zero(t), false
	}
	return w.val, true
}

func (m *Machine) tryRecv(c *Chan, t types.Type) (value, bool, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = c.buf[1:]
		if w := takeWaiter(&c.sendq); w != nil {
			c.buf = append(c.buf, w.val)
			w.fire(m, w.val, true)
		}
		return v, true, true
	}
	if w := takeWaiter(&c.sendq); w != nil {
		v := w.val
		w.fire(m, v, true)
		return v, true, true
	}
	if c.closed {
		return zero(t), false, true
	}
	return nil, false, false
}

func (m *Machine) closeChan(cv value) {
	c, _ := cv.(*Chan)
	if c == nil {
		m.rtPanic("close of nil channel")
	}
	if c.closed {
		m.rtPanic("close of closed channel")
	}
	c.closed = true
	for {
		w := takeWaiter(&c.recvq)
		if w == nil {
			break
		}
		w.fire(m, nil, false)
	}
	for {
		w := takeWaiter(&c.sendq)
		if w == nil {
			break
		}
		w.fire(m, w.val, false)
	}
}

func (m *Machine) selectStmt(fr *frame, x *ssa.Select, ops []operand) value {
	if m.nest != nil {
		unsupported("select in summary")
	}
	n := len(x.States)
	type st struct {
		c    *Chan
		send value
		t    types.Type
	}
	ss := make([]st, n)
	k := 0
	for i, s := range x.States {
		ss[i].c, _ = fr.get(&ops[k]).(*Chan)
		k++
		if s.Send != nil {
			ss[i].send = copyVal(fr.get(&ops[k]))
		}
		k++
		ss[i].t = s.Chan.Type().Underlying().(*types.Chan).Elem()
	}
	mk := func(idx int, v value, ok bool) value {
		r := tuple{int64(idx), ok}
		for i, s := range x.States {
			if s.Dir == types.RecvOnly {
				if i == idx && ok {
					r = append(r, v)
				} else {
					r = append(r, zero(ss[i].t))
				}
			}
		}
		return r
	}
	for i, s := range x.States {
		c := ss[i].c
		if c == nil {
			continue
		}
		if s.Dir == types.RecvOnly {
			if v, ok, done := m.tryRecv(c, ss[i].t); done {
				return mk(i, v, ok)
			}
		} else {
			if c.closed {
				m.rtPanic("send on closed channel")
			}
			if w := takeWaiter(&c.recvq); w != nil {
				w.fire(m, ss[i].send, true)
				return mk(i, nil, false)
			}
			if len(c.buf) < c.cap {
				c.buf = append(c.buf, ss[i].send)
				return mk(i, nil, false)
			}
		}
	}
	if !x.Blocking {
		return mk(-1, nil, false)
	}
	sel := &selState{}
	for i, s := range x.States {
		c := ss[i].c
		if c == nil {
			continue
		}
		w := &waiter{g: m.cur, sel: sel, idx: i, val: ss[i].send}
		if s.Dir == types.RecvOnly {
			c.recvq = append(c.recvq, w)
		} else {
			c.sendq = append(c.sendq, w)
		}
	}
	m.park()
	if x.States[sel.idx].Dir != types.RecvOnly && !sel.ok {
		m.rtPanic("send on closed channel")
	}
	return mk(sel.idx, sel.val, sel.ok)
}
