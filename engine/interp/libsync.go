package interp

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func symSync() {
	nop := func(names ...string) {
		for _, n := range names {
			reg(n, func(m *Machine, a []value) (value, bool) { return nil, true })
		}
	}
	for _, p := range []string{"sync", "internal/sync"} {
		nop("(*"+p+".Mutex).Lock", "(*"+p+".Mutex).Unlock", "(*"+p+".RWMutex).Lock", "(*"+p+".RWMutex).Unlock",
			"(*"+p+".RWMutex).RLock", "(*"+p+".RWMutex).RUnlock")
		reg("(*"+p+".Mutex).TryLock", func(m *Machine, a []value) (value, bool) { return true, true })
	}
	reg("(*sync.Pool).Put", func(m *Machine, a []value) (value, bool) { return nil, true })
	intrinsics["(*sync.Pool).Get"] = func(m *Machine, caller *frame, fn *ssa.Function, a []value) (value, bool) {
		st := fn.Signature.Recv().Type().(*types.Pointer).Elem().Underlying().(*types.Struct)
		p := m.load(a[0]).(structure)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "New" {
				if isNilV(p[i]) {
					return iface{}, true
				}
				return m.callValue(caller, p[i], nil), true
			}
		}
		return iface{}, true
	}
	type wgKey struct{ p any }
	wg := func(m *Machine, p value, d int) int {
		n, _ := m.side[wgKey{p}].(int)
		n += d
		m.side[wgKey{p}] = n
		if n < 0 {
			m.rtPanic("sync: negative WaitGroup counter")
		}
		return n
	}
	reg("(*sync.WaitGroup).Add", func(m *Machine, a []value) (value, bool) { wg(m, a[0], m.concInt(a[1])); return nil, true })
	reg("(*sync.WaitGroup).Done", func(m *Machine, a []value) (value, bool) { wg(m, a[0], -1); return nil, true })
	reg("(*sync.WaitGroup).Wait", func(m *Machine, a []value) (value, bool) {
		for wg(m, a[0], 0) > 0 {
			if len(m.runq) == 0 {
				panic(pathEnd{"deadlock", "WaitGroup.Wait with no runnable goroutine"})
			}
			m.yieldG()
		}
		return nil, true
	})
	for _, pk := range []string{"sync/atomic", "internal/runtime/atomic"} {
		for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer", "", "64", "uint", "uintptr", "8", "p"} {
			reg(pk+".Load"+t, func(m *Machine, a []value) (value, bool) { return m.load(a[0]), true })
			reg(pk+".LoadAcq"+t, func(m *Machine, a []value) (value, bool) { return m.load(a[0]), true })
			reg(pk+".Store"+t, func(m *Machine, a []value) (value, bool) { m.store(a[0], a[1]); return nil, true })
			reg(pk+".StoreRel"+t, func(m *Machine, a []value) (value, bool) { m.store(a[0], a[1]); return nil, true })
			reg(pk+".Swap"+t, func(m *Machine, a []value) (value, bool) {
				o := m.load(a[0])
				m.store(a[0], a[1])
				return o, true
			})
			cas := func(m *Machine, a []value) (value, bool) {
				o := m.load(a[0])
				if o == a[1] || isNilV(o) && isNilV(a[1]) {
					m.store(a[0], a[2])
					return true, true
				}
				return false, true
			}
			reg(pk+".CompareAndSwap"+t, cas)
			reg(pk+".Cas"+t, cas)
			u32 := strings.HasSuffix(t, "32")
			reg(pk+".Add"+t, func(m *Machine, a []value) (value, bool) {
				n := m.load(a[0]).(int64) + a[1].(int64)
				if u32 {
					n = norm(n, 32, t == "Int32")
				}
				m.store(a[0], n)
				return n, true
			})
		}
	}
	// atomic.Pointer[T] and atomic.Value go through unsafe pointers
	reg("(*sync/atomic.Value).Load", func(m *Machine, a []value) (value, bool) {
		st := m.load(a[0]).(structure)
		return st[0], true
	})
	reg("(*sync/atomic.Value).Store", func(m *Machine, a []value) (value, bool) {
		p := a[0].(*value)
		st := (*p).(structure)
		m.store(&st[0], a[1])
		return nil, true
	})
}
