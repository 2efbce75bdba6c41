package main

// Intrinsics: functions whose bodies are runtime, assembly or synchronisation primitives,
// and the harness API (package zz_vrt).

import (
	"fmt"
	"go/types"
	"math"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var intrinsics = map[string]intrinsic{}

const vrt = "github.com/xtfly/log4g/internal/zz_vrt."

func reg(f intrinsic, names ...string) {
	for _, n := range names {
		intrinsics[n] = f
	}
}

func nop(m *Machine, th *Thread, a []Value) Value { return nil }

func bv64(n int) *Term { return mkBV(uint64(n), 64) }

func (m *Machine) visible(th *Thread, p *pend) Value {
	p.dst = m.intrDst
	if p.pos == 0 {
		p.pos = m.intrPos
	}
	th.pend = p
	return nil
}

// immediate-or-visible: with a single thread an always-enabled operation runs at once.
func (m *Machine) atomically(th *Thread, label string, key interface{}, write bool, f func(m *Machine, th *Thread) Value) Value {
	if len(m.threads) == 1 {
		return f(m, th)
	}
	return m.visible(th, &pend{kind: pkFunc, label: label, objs: []access{{key, write}}, f: f})
}

func init() {
	initSync()
	initAtomic()
	initBytealg()
	initRuntime()
	initVrt()
}

// ------------------------------------------------------------------ sync

func initSync() {
	reg(func(m *Machine, th *Thread, a []Value) Value {
		p := m.asPtr(a[0])
		m.nilCheck(p)
		if len(m.threads) == 1 && !m.lockOf(p).held {
			l := m.lockOf(p)
			l.held = true
			return nil
		}
		return m.visible(th, &pend{kind: pkLock, mu: p, label: "lock", objs: []access{{p, true}}})
	}, "(*sync.Mutex).Lock", "(*internal/sync.Mutex).Lock")
	reg(func(m *Machine, th *Thread, a []Value) Value {
		l := m.lockOf(m.asPtr(a[0]))
		if !l.held {
			m.fatal("sync: unlock of unlocked mutex")
		}
		l.held = false
		l.vc = m.release(th)
		return nil
	}, "(*sync.Mutex).Unlock", "(*internal/sync.Mutex).Unlock")
	reg(func(m *Machine, th *Thread, a []Value) Value {
		p := m.asPtr(a[0])
		return m.atomically(th, "trylock", p, true, func(m *Machine, th *Thread) Value {
			l := m.lockOf(p)
			if l.held || l.readers > 0 {
				return tFalse
			}
			l.held = true
			m.acquire(th, l.vc)
			m.acquire(th, l.rvc)
			return tTrue
		})
	}, "(*sync.Mutex).TryLock", "(*internal/sync.Mutex).TryLock", "(*sync.RWMutex).TryLock")
	reg(func(m *Machine, th *Thread, a []Value) Value {
		p := m.asPtr(a[0])
		m.nilCheck(p)
		if len(m.threads) == 1 && !m.lockOf(p).held && m.lockOf(p).readers == 0 {
			m.lockOf(p).held = true
			return nil
		}
		return m.visible(th, &pend{kind: pkFunc, mu: p, label: "wlock-announce", objs: []access{{p, true}},
			f: func(m *Machine, th *Thread) Value {
				q := th.pend
				m.lockOf(p).wwait++
				th.pend = &pend{kind: pkWLock, mu: p, label: "wlock", objs: []access{{p, true}}, dst: q.dst, pos: q.pos, after: q.after}
				return nil
			}})
	}, "(*sync.RWMutex).Lock")
	reg(func(m *Machine, th *Thread, a []Value) Value {
		l := m.lockOf(m.asPtr(a[0]))
		if !l.held {
			m.fatal("sync: Unlock of unlocked RWMutex")
		}
		l.held = false
		l.vc = m.release(th)
		return nil
	}, "(*sync.RWMutex).Unlock")
	reg(func(m *Machine, th *Thread, a []Value) Value {
		p := m.asPtr(a[0])
		m.nilCheck(p)
		if len(m.threads) == 1 && !m.lockOf(p).held && m.lockOf(p).wwait == 0 {
			m.lockOf(p).readers++
			return nil
		}
		return m.visible(th, &pend{kind: pkRLock, mu: p, label: "rlock", objs: []access{{p, false}}})
	}, "(*sync.RWMutex).RLock")
	reg(func(m *Machine, th *Thread, a []Value) Value {
		l := m.lockOf(m.asPtr(a[0]))
		if l.readers <= 0 {
			m.fatal("sync: RUnlock of unlocked RWMutex")
		}
		l.readers--
		l.rvc = vcJoin(l.rvc, m.release(th))
		return nil
	}, "(*sync.RWMutex).RUnlock")
	reg(func(m *Machine, th *Thread, a []Value) Value {
		p := m.asPtr(a[0])
		return m.atomically(th, "tryrlock", p, true, func(m *Machine, th *Thread) Value {
			l := m.lockOf(p)
			if l.held || l.wwait > 0 {
				return tFalse
			}
			l.readers++
			m.acquire(th, l.vc)
			return tTrue
		})
	}, "(*sync.RWMutex).TryRLock")

	add := func(m *Machine, th *Thread, p Ptr, d int) {
		w := m.wgOf(p)
		w.n += d
		if w.n < 0 {
			m.goPanicStr("sync: negative WaitGroup counter")
		}
		if d < 0 {
			w.vc = vcJoin(w.vc, m.release(th))
		}
	}
	reg(func(m *Machine, th *Thread, a []Value) Value {
		p := m.asPtr(a[0])
		m.nilCheck(p)
		d := int(m.concInt(a[1]))
		if d <= 0 || len(m.threads) == 1 {
			add(m, th, p, d)
			return nil
		}
		return m.visible(th, &pend{kind: pkFunc, label: "wg-add", objs: []access{{p, true}}, f: func(m *Machine, th *Thread) Value {
			add(m, th, p, d)
			return nil
		}})
	}, "(*sync.WaitGroup).Add")
	reg(func(m *Machine, th *Thread, a []Value) Value {
		add(m, th, m.asPtr(a[0]), -1)
		return nil
	}, "(*sync.WaitGroup).Done")
	reg(func(m *Machine, th *Thread, a []Value) Value {
		p := m.asPtr(a[0])
		m.nilCheck(p)
		return m.visible(th, &pend{kind: pkWgWait, mu: p, label: "wg-wait", objs: []access{{p, true}}})
	}, "(*sync.WaitGroup).Wait")

	reg(func(m *Machine, th *Thread, a []Value) Value {
		p := m.asPtr(a[0])
		ps := m.pools[p]
		if ps != nil && len(ps.items) > 0 {
			n := len(ps.items) - 1
			v := ps.items[n]
			m.acquire(th, ps.vcs[n])
			ps.items, ps.vcs = ps.items[:n], ps.vcs[:n]
			return v
		}
		// field New
		st := p.a.e[p.i].(*Agg)
		for i := len(st.e) - 1; i >= 0; i-- {
			if f, ok := st.e[i].(*Func); ok {
				if f == nil {
					return Iface{}
				}
				m.intrTail = true
				m.callValue(th, f, nil, m.intrDst, m.intrPos, nil)
				return nil
			}
		}
		return Iface{}
	}, "(*sync.Pool).Get")
	reg(func(m *Machine, th *Thread, a []Value) Value {
		p := m.asPtr(a[0])
		if m.initMode {
			return nil
		}
		ps := m.pools[p]
		if ps == nil {
			ps = &poolState{}
			m.pools[p] = ps
		}
		ps.items = append(ps.items, a[1])
		ps.vcs = append(ps.vcs, m.release(th))
		return nil
	}, "(*sync.Pool).Put")

	// sync.Cond: L is field "L"
	condLock := func(p Ptr) Iface {
		for _, v := range p.a.e[p.i].(*Agg).e {
			if i, ok := v.(Iface); ok {
				return i
			}
		}
		unsupported("sync.Cond layout")
		return Iface{}
	}
	condOf := func(m *Machine, p Ptr) *condState {
		c := m.conds[p]
		if c == nil {
			c = &condState{}
			m.conds[p] = c
		}
		return c
	}
	reg(func(m *Machine, th *Thread, a []Value) Value {
		p := m.asPtr(a[0])
		li := condLock(p)
		mu, ok := li.v.(Ptr)
		if !ok || !strings.HasSuffix(li.t.String(), "sync.Mutex") {
			unsupported("sync.Cond with a locker of type %v", li.t)
		}
		l := m.lockOf(mu)
		if !l.held {
			m.fatal("sync: unlock of unlocked mutex")
		}
		l.held = false
		l.vc = m.release(th)
		sig := new(bool)
		c := condOf(m, p)
		c.waiters = append(c.waiters, sig)
		return m.visible(th, &pend{kind: pkCond, mu: mu, signal: sig, label: "cond-wait", objs: []access{{p, true}, {mu, true}}})
	}, "(*sync.Cond).Wait")
	wake := func(all bool) intrinsic {
		return func(m *Machine, th *Thread, a []Value) Value {
			p := m.asPtr(a[0])
			return m.atomically(th, "cond-signal", p, true, func(m *Machine, th *Thread) Value {
				c := condOf(m, p)
				for len(c.waiters) > 0 {
					*c.waiters[0] = true
					c.waiters = c.waiters[1:]
					if !all {
						break
					}
				}
				return nil
			})
		}
	}
	reg(wake(false), "(*sync.Cond).Signal")
	reg(wake(true), "(*sync.Cond).Broadcast")
	reg(nop, "(*sync.noCopy).Lock", "(*sync.copyChecker).check", "sync.runtime_registerPoolCleanup", "internal/sync.runtime_registerUniqueMapCleanup")
}

func (m *Machine) nilCheck(p Ptr) {
	if p.a == nil {
		m.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
	}
}

// fatal is an unrecoverable runtime error.
func (m *Machine) fatal(s string) {
	m.violation("panic", "fatal error: "+s, "")
}

// ------------------------------------------------------------------ sync/atomic

func (m *Machine) rawLoad(p Ptr) Value {
	m.nilCheck(p)
	v := p.a.e[p.i]
	if a, ok := v.(*Agg); ok {
		// pointer to a one-field struct (atomic.Int32 and friends pass &x.v, so this is rare)
		return a.e[len(a.e)-1]
	}
	return v
}

func (m *Machine) rawStore(p Ptr, v Value) { m.setSlot(p.a, p.i, v) }

func (m *Machine) atomSync(th *Thread, p Ptr) {
	m.acquire(th, m.atomVC[p])
	m.atomVC[p] = vcJoin(m.atomVC[p], m.release(th))
}

func initAtomic() {
	for _, T := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		reg(func(m *Machine, th *Thread, a []Value) Value {
			p := m.asPtr(a[0])
			m.nilCheck(p)
			return m.atomically(th, "atomic-load", p, false, func(m *Machine, th *Thread) Value {
				m.acquire(th, m.atomVC[p])
				return m.rawLoad(p)
			})
		}, "sync/atomic.Load"+T)
		reg(func(m *Machine, th *Thread, a []Value) Value {
			p := m.asPtr(a[0])
			m.nilCheck(p)
			return m.atomically(th, "atomic-store", p, true, func(m *Machine, th *Thread) Value {
				m.atomSync(th, p)
				m.rawStore(p, a[1])
				return nil
			})
		}, "sync/atomic.Store"+T)
		reg(func(m *Machine, th *Thread, a []Value) Value {
			p := m.asPtr(a[0])
			m.nilCheck(p)
			return m.atomically(th, "atomic-swap", p, true, func(m *Machine, th *Thread) Value {
				m.atomSync(th, p)
				o := m.rawLoad(p)
				m.rawStore(p, a[1])
				return o
			})
		}, "sync/atomic.Swap"+T)
		reg(func(m *Machine, th *Thread, a []Value) Value {
			p := m.asPtr(a[0])
			m.nilCheck(p)
			return m.atomically(th, "atomic-cas", p, true, func(m *Machine, th *Thread) Value {
				m.atomSync(th, p)
				if m.branch(m.equal(m.rawLoad(p), a[1])) {
					m.rawStore(p, a[2])
					return tTrue
				}
				return tFalse
			})
		}, "sync/atomic.CompareAndSwap"+T)
		if T == "Pointer" {
			continue
		}
		rmw := func(op Op, old bool) intrinsic {
			return func(m *Machine, th *Thread, a []Value) Value {
				p := m.asPtr(a[0])
				m.nilCheck(p)
				return m.atomically(th, "atomic-rmw", p, true, func(m *Machine, th *Thread) Value {
					m.atomSync(th, p)
					o := m.asTerm(m.rawLoad(p))
					n := m.tc.Bin(op, o, m.asTerm(a[1]))
					m.rawStore(p, n)
					if old {
						return o
					}
					return n
				})
			}
		}
		reg(rmw(OpAdd, false), "sync/atomic.Add"+T)
		reg(rmw(OpAnd, true), "sync/atomic.And"+T)
		reg(rmw(OpOr, true), "sync/atomic.Or"+T)
	}
	// atomic.Value: the stored interface lives in field 0
	slot := func(m *Machine, v Value) Ptr {
		p := m.asPtr(v)
		m.nilCheck(p)
		return Ptr{p.a.e[p.i].(*Agg), 0}
	}
	reg(func(m *Machine, th *Thread, a []Value) Value {
		p := slot(m, a[0])
		return m.atomically(th, "atomic-load", p, false, func(m *Machine, th *Thread) Value {
			m.acquire(th, m.atomVC[p])
			return m.rawLoad(p)
		})
	}, "(*sync/atomic.Value).Load")
	reg(func(m *Machine, th *Thread, a []Value) Value {
		p := slot(m, a[0])
		n := a[1].(Iface)
		if n.t == nil {
			m.goPanicStr("sync/atomic: store of nil value into Value")
		}
		return m.atomically(th, "atomic-store", p, true, func(m *Machine, th *Thread) Value {
			m.atomSync(th, p)
			if o := m.rawLoad(p).(Iface); o.t != nil && !m.identical(o.t, n.t) {
				m.goPanicStr("sync/atomic: store of inconsistently typed value into Value")
			}
			m.rawStore(p, n)
			return nil
		})
	}, "(*sync/atomic.Value).Store")
	reg(func(m *Machine, th *Thread, a []Value) Value {
		p := slot(m, a[0])
		n := a[1].(Iface)
		return m.atomically(th, "atomic-swap", p, true, func(m *Machine, th *Thread) Value {
			m.atomSync(th, p)
			o := m.rawLoad(p)
			m.rawStore(p, n)
			return o
		})
	}, "(*sync/atomic.Value).Swap")
	reg(func(m *Machine, th *Thread, a []Value) Value {
		p := slot(m, a[0])
		return m.atomically(th, "atomic-cas", p, true, func(m *Machine, th *Thread) Value {
			m.atomSync(th, p)
			if m.branch(m.equal(m.rawLoad(p), a[1])) {
				m.rawStore(p, a[2])
				return tTrue
			}
			return tFalse
		})
	}, "(*sync/atomic.Value).CompareAndSwap")
}

// ------------------------------------------------------------------ internal/bytealg and string helpers

func (m *Machine) asBytes(v Value) Str {
	switch x := v.(type) {
	case Str:
		return x
	case Slice:
		return m.bytesOf(x)
	}
	unsupported("bytes expected, got %T", v)
	return Str{}
}

func initBytealg() {
	idxByte := func(m *Machine, th *Thread, a []Value) Value {
		s := m.asBytes(a[0])
		c := m.asTerm(a[1])
		if x, ok := s.conc(); ok && c.isConst() {
			return bv64(strings.IndexByte(x, byte(c.val)))
		}
		for i := 0; i < s.Len(); i++ {
			if m.branch(m.tc.Eq(s.at(i), c)) {
				return bv64(i)
			}
		}
		return bv64(-1)
	}
	reg(idxByte, "internal/bytealg.IndexByte", "internal/bytealg.IndexByteString", "strings.IndexByte", "bytes.IndexByte")
	reg(func(m *Machine, th *Thread, a []Value) Value {
		s := m.asBytes(a[0])
		c := m.asTerm(a[1])
		for i := s.Len() - 1; i >= 0; i-- {
			if m.branch(m.tc.Eq(s.at(i), c)) {
				return bv64(i)
			}
		}
		return bv64(-1)
	}, "internal/bytealg.LastIndexByte", "internal/bytealg.LastIndexByteString", "strings.LastIndexByte", "bytes.LastIndexByte")
	reg(func(m *Machine, th *Thread, a []Value) Value {
		s := m.asBytes(a[0])
		c := m.asTerm(a[1])
		n := 0
		for i := 0; i < s.Len(); i++ {
			if m.branch(m.tc.Eq(s.at(i), c)) {
				n++
			}
		}
		return bv64(n)
	}, "internal/bytealg.Count", "internal/bytealg.CountString")
	reg(func(m *Machine, th *Thread, a []Value) Value {
		return m.strEq(m.asBytes(a[0]), m.asBytes(a[1]))
	}, "internal/bytealg.Equal", "bytes.Equal")
	reg(func(m *Machine, th *Thread, a []Value) Value {
		x, y := m.asBytes(a[0]), m.asBytes(a[1])
		if m.branch(m.strEq(x, y)) {
			return bv64(0)
		}
		if m.branch(m.strLess(x, y)) {
			return bv64(-1)
		}
		return bv64(1)
	}, "internal/bytealg.Compare", "internal/bytealg.CompareString", "strings.Compare", "bytes.Compare")
	reg(func(m *Machine, th *Thread, a []Value) Value {
		s, t := m.asBytes(a[0]), m.asBytes(a[1])
		for i := 0; i+t.Len() <= s.Len(); i++ {
			if m.branch(m.strEq(s.slice(i, i+t.Len()), t)) {
				return bv64(i)
			}
		}
		return bv64(-1)
	}, "internal/bytealg.Index", "internal/bytealg.IndexString", "strings.Index", "bytes.Index", "internal/stringslite.Index")
	reg(func(m *Machine, th *Thread, a []Value) Value {
		n := int(m.concInt(a[0]))
		return m.makeSlice(types.Typ[types.Uint8], n, n)
	}, "internal/bytealg.MakeNoZero")
	reg(func(m *Machine, th *Thread, a []Value) Value { return a[0] }, "internal/abi.NoEscape", "strings.Clone", "internal/stringslite.Clone", "internal/abi.Escape")
	caseMap := func(lo, hi byte, f func(string) string) intrinsic {
		return func(m *Machine, th *Thread, a []Value) Value {
			s := a[0].(Str)
			if x, ok := s.conc(); ok {
				return Str{c: f(x)}
			}
			ascii := tTrue
			for _, t := range s.sym {
				ascii = m.tc.And(ascii, m.tc.Cmp(OpUlt, t, mkBV(0x80, 8)))
			}
			if !m.branch(ascii) {
				return decline{}
			}
			r := make([]*Term, len(s.sym))
			for i, t := range s.sym {
				in := m.tc.And(m.tc.Cmp(OpUle, mkBV(uint64(lo), 8), t), m.tc.Cmp(OpUle, t, mkBV(uint64(hi), 8)))
				r[i] = m.tc.Ite(in, m.tc.Bin(OpXor, t, mkBV(0x20, 8)), t)
			}
			return mkStr(r)
		}
	}
	reg(caseMap('a', 'z', strings.ToUpper), "strings.ToUpper")
	reg(caseMap('A', 'Z', strings.ToLower), "strings.ToLower")
}

// ------------------------------------------------------------------ runtime, reflectlite, math, time

// typeWords are the words that reflection spells differently.
var typeWords = regexp.MustCompile(`\b(?:byte|rune|any)\b|\binterface\{\}`)

// runtimeName renders an ssa function the way runtime.FuncForPC does.
func runtimeName(fn *ssa.Function) string {
	if fn.Parent() != nil {
		n := fn.Name()
		k := n
		if i := strings.LastIndex(n, "$"); i >= 0 {
			k = n[i+1:]
		}
		p := runtimeName(fn.Parent())
		if fn.Parent().Parent() != nil {
			return p + "." + k
		}
		return p + ".func" + k
	}
	pkg := ""
	if p := fnPkg(fn); p != nil {
		pkg = p.Path()
		if p.Name() == "main" {
			pkg = "main"
		}
	}
	if i := strings.LastIndex(pkg, "/"); i >= 0 {
		pkg = pkg[:i] + strings.Replace(pkg[i:], ".", "%2e", -1)
	}
	// instances of functions and types with parameters are all named alike
	named := func(n *types.Named) string {
		if n.TypeParams().Len() > 0 {
			return n.Obj().Name() + "[...]"
		}
		return n.Obj().Name()
	}
	name := fn.Name()
	if o := fn.Origin(); o != nil {
		name = o.Name()
		if fn.Signature.Recv() == nil {
			name += "[...]"
		}
	}
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			if n, ok := p.Elem().(*types.Named); ok {
				return pkg + ".(*" + named(n) + ")." + name
			}
		}
		if n, ok := t.(*types.Named); ok {
			return pkg + "." + named(n) + "." + name
		}
	}
	return pkg + "." + name
}

// callerFrame finds the frame skip levels above the caller of the running intrinsic.
func (m *Machine) callerFrame(th *Thread, skip int) (FuncPC, bool) {
	for i := len(th.frames) - 1; i >= 0; i-- {
		fr := th.frames[i]
		if fr.fi.synth {
			continue
		}
		if skip == 0 {
			p := m.framePos(fr)
			if i == len(th.frames)-1 && m.intrPos != 0 {
				p = m.intrPos
			} else if fr.pc > 0 && fr.blk >= 0 && !m.inDefer(th, i) {
				// pc is already past the call
				if q := fr.fi.blocks[fr.blk][fr.pc-1].i.Pos(); q != 0 {
					p = q
				}
			}
			pos := m.eng.position(p)
			return FuncPC{runtimeName(fr.fi.fn), pos.Filename, pos.Line}, true
		}
		skip--
	}
	return FuncPC{}, false
}

func (m *Machine) inDefer(th *Thread, i int) bool {
	return i+1 < len(th.frames) && th.frames[i+1].deferOf
}

func initRuntime() {
	pcOf := func(m *Machine, f FuncPC) *Term {
		m.pcs = append(m.pcs, f)
		return mkBV(uint64(0x400000+len(m.pcs)), 64)
	}
	fromPC := func(m *Machine, v Value) (FuncPC, bool) {
		t := m.asTerm(v)
		if !t.isConst() {
			return FuncPC{}, false
		}
		i := int(t.val) - 0x400000 - 1
		if i < 0 || i >= len(m.pcs) {
			return FuncPC{}, false
		}
		return m.pcs[i], true
	}
	reg(func(m *Machine, th *Thread, a []Value) Value {
		f, ok := m.callerFrame(th, int(m.concInt(a[0])))
		if !ok {
			return Tuple{bv64(0), Str{}, bv64(0), tFalse}
		}
		return Tuple{pcOf(m, f), Str{c: f.file}, bv64(f.line), tTrue}
	}, "runtime.Caller")
	reg(func(m *Machine, th *Thread, a []Value) Value {
		skip := int(m.concInt(a[0])) - 1
		s := a[1].(Slice)
		n := 0
		for n < s.len {
			if skip+n < 0 {
				// runtime.Callers itself
				m.store(Ptr{s.a, s.off + n}, pcOf(m, FuncPC{"runtime.Callers", "runtime", 1}))
				n++
				continue
			}
			f, ok := m.callerFrame(th, skip+n)
			if !ok {
				break
			}
			m.store(Ptr{s.a, s.off + n}, pcOf(m, f))
			n++
		}
		return bv64(n)
	}, "runtime.Callers")
	reg(func(m *Machine, th *Thread, a []Value) Value {
		f, ok := fromPC(m, a[0])
		if !ok {
			return Ptr{}
		}
		return Ptr{&Agg{e: []Value{f}}, 0}
	}, "runtime.FuncForPC")
	reg(func(m *Machine, th *Thread, a []Value) Value {
		p := m.asPtr(a[0])
		if p.a == nil {
			return Str{}
		}
		return Str{c: p.a.e[p.i].(FuncPC).name}
	}, "(*runtime.Func).Name")
	reg(func(m *Machine, th *Thread, a []Value) Value {
		p := m.asPtr(a[0])
		f := p.a.e[p.i].(FuncPC)
		return Tuple{Str{c: f.file}, bv64(f.line)}
	}, "(*runtime.Func).FileLine")
	// runtime.CallersFrames: the frames object is a queue of FuncPC
	reg(func(m *Machine, th *Thread, a []Value) Value {
		s := a[0].(Slice)
		q := &Agg{e: []Value{bv64(0)}}
		for i := 0; i < s.len; i++ {
			f, _ := fromPC(m, s.a.e[s.off+i])
			q.e = append(q.e, f)
		}
		return Ptr{&Agg{e: []Value{q}}, 0}
	}, "runtime.CallersFrames")
	reg(func(m *Machine, th *Thread, a []Value) Value {
		p := m.asPtr(a[0])
		q := p.a.e[p.i].(*Agg)
		i := int(m.concInt(q.e[0]))
		ft := m.eng.lookupType("runtime", "Frame")
		fr := m.zero(ft).(*Agg)
		if i+1 >= len(q.e) {
			return Tuple{fr, tFalse}
		}
		f := q.e[i+1].(FuncPC)
		st := ft.Underlying().(*types.Struct)
		for k := 0; k < st.NumFields(); k++ {
			switch st.Field(k).Name() {
			case "PC":
				fr.e[k] = pcOf(m, f)
			case "Function":
				fr.e[k] = Str{c: f.name}
			case "File":
				fr.e[k] = Str{c: f.file}
			case "Line":
				fr.e[k] = bv64(f.line)
			case "Func":
				fr.e[k] = Ptr{&Agg{e: []Value{f}}, 0}
			}
		}
		q.e[0] = bv64(i + 1)
		return Tuple{fr, mkBool(i+2 < len(q.e))}
	}, "(*runtime.Frames).Next")
	reg(func(m *Machine, th *Thread, a []Value) Value {
		return m.atomically(th, "gosched", "gosched", false, func(m *Machine, th *Thread) Value { return nil })
	}, "runtime.Gosched")
	reg(func(m *Machine, th *Thread, a []Value) Value { return bv64(1) }, "time.runtimeNano", "runtime.nanotime")
	reg(nop, "sync.runtime_notifyListCheck", "runtime.GC", "runtime.KeepAlive", "runtime.SetFinalizer", "time.initLocal", "internal/godebug.setUpdate", "internal/godebug.registerMetric", "runtime.LockOSThread", "runtime.UnlockOSThread",
		"internal/race.Acquire", "internal/race.Release", "internal/race.Read", "internal/race.Write", "internal/race.ReadRange", "internal/race.WriteRange", "internal/race.Disable", "internal/race.Enable", "internal/race.ReleaseMerge", "internal/race.Errors", "os.runtime_beforeExit", "internal/poll.runtime_pollServerInit")
	reg(func(m *Machine, th *Thread, a []Value) Value { return bv64(8) }, "runtime.GOMAXPROCS", "runtime.NumCPU")
	reg(func(m *Machine, th *Thread, a []Value) Value {
		n := 0
		for _, t := range m.threads {
			if !t.done {
				n++
			}
		}
		return bv64(n)
	}, "runtime.NumGoroutine")
	// internal/godebug settings are constant
	reg(func(m *Machine, th *Thread, a []Value) Value { return Str{} }, "(*internal/godebug.Setting).Value")
	reg(nop, "(*internal/godebug.Setting).IncNonDefault")

	reg(func(m *Machine, th *Thread, a []Value) Value {
		return mkBV(math.Float64bits(a[0].(Float).f), 64)
	}, "math.Float64bits", "internal/strconv.float64bits")
	reg(func(m *Machine, th *Thread, a []Value) Value {
		return Float{math.Float64frombits(m.concretize(m.asTerm(a[0]))), 64}
	}, "math.Float64frombits", "internal/strconv.float64frombits")
	reg(func(m *Machine, th *Thread, a []Value) Value {
		return mkBV(uint64(math.Float32bits(float32(a[0].(Float).f))), 32)
	}, "math.Float32bits", "internal/strconv.float32bits")
	reg(func(m *Machine, th *Thread, a []Value) Value {
		return Float{float64(math.Float32frombits(uint32(m.concretize(m.asTerm(a[0]))))), 32}
	}, "math.Float32frombits", "internal/strconv.float32frombits")
	for n, f := range map[string]func(float64) float64{"Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc, "Sqrt": math.Sqrt, "Abs": math.Abs, "Log2": math.Log2, "Log10": math.Log10, "Log": math.Log, "Round": math.Round} {
		f := f
		reg(func(m *Machine, th *Thread, a []Value) Value { return Float{f(a[0].(Float).f), 64} }, "math."+n, "math.arch"+n)
	}
	reg(func(m *Machine, th *Thread, a []Value) Value {
		return Float{math.Pow(a[0].(Float).f, a[1].(Float).f), 64}
	}, "math.Pow")
}

// ------------------------------------------------------------------ the harness API

func (m *Machine) argStr(v Value) string {
	s, ok := v.(Str)
	if !ok {
		unsupported("string argument expected")
	}
	c, ok := s.conc()
	if !ok {
		unsupported("concrete string argument expected")
	}
	return c
}

func initVrt() {
	type A = []Value
	sym := func(w uint8) intrinsic {
		return func(m *Machine, th *Thread, a A) Value { return m.newVar(m.argStr(a[0]), w) }
	}
	reg(sym(64), vrt+"Int64", vrt+"Uint64", vrt+"AnyInt")
	reg(sym(32), vrt+"Uint32")
	reg(sym(8), vrt+"Byte")
	reg(sym(0), vrt+"Bool")
	reg(func(m *Machine, th *Thread, a A) Value {
		lo, hi := m.concInt(a[1]), m.concInt(a[2])
		v := m.newVar(m.argStr(a[0]), 64)
		m.assume(m.tc.And(m.tc.Cmp(OpSle, mkBV(uint64(lo), 64), v), m.tc.Cmp(OpSle, v, mkBV(uint64(hi), 64))))
		return v
	}, vrt+"Int")
	reg(func(m *Machine, th *Thread, a A) Value {
		n := m.concInt(a[1])
		if n <= 0 {
			panic(pathEnd{endAssume})
		}
		v := m.newVar(m.argStr(a[0]), 64)
		m.assume(m.tc.Cmp(OpUlt, v, mkBV(uint64(n), 64)))
		return mkBV(m.concretize(v), 64)
	}, vrt+"Choose")
	str := func(m *Machine, a A) Str {
		name := m.argStr(a[0])
		n := int(m.concInt(a[1]))
		ts := make([]*Term, n)
		for i := range ts {
			ts[i] = m.newVar(fmt.Sprintf("%s[%d]", name, i), 8)
		}
		if n == 0 {
			return Str{}
		}
		return Str{sym: ts}
	}
	reg(func(m *Machine, th *Thread, a A) Value { return str(m, a) }, vrt+"String")
	reg(func(m *Machine, th *Thread, a A) Value { return m.bytesSlice(str(m, a)) }, vrt+"Bytes")
	reg(func(m *Machine, th *Thread, a A) Value { m.assume(m.asTerm(a[0])); return nil }, vrt+"Assume")
	reg(func(m *Machine, th *Thread, a A) Value {
		label := m.argStr(a[1])
		c := m.asTerm(a[0])
		m.eng.noteAssert(label)
		if c.isTrue() {
			return nil
		}
		if !m.branch(c) {
			m.violation("assert", label, label)
		}
		return nil
	}, vrt+"Assert")
	reg(func(m *Machine, th *Thread, a A) Value {
		m.pathLabs[m.argStr(a[0])] = true
		return nil
	}, vrt+"Cover")
	reg(func(m *Machine, th *Thread, a A) Value {
		return bv64(m.eng.bound(m.argStr(a[0]), int(m.concInt(a[1])), int(m.concInt(a[2]))))
	}, vrt+"Bound")
	reg(func(m *Machine, th *Thread, a A) Value {
		o := obsRec{label: m.argStr(a[0])}
		if s, ok := a[1].(Slice); ok {
			for i := 0; i < s.len; i++ {
				v := s.a.e[s.off+i]
				if iv, ok := v.(Iface); ok { // freeze slices
					if sl, ok := iv.v.(Slice); ok && sl.a != nil {
						c := &Agg{e: append([]Value{}, sl.a.e[sl.off:sl.off+sl.len]...)}
						v = Iface{iv.t, Slice{c, 0, sl.len, sl.len}}
					}
				}
				o.vals = append(o.vals, v)
			}
		}
		m.obs = append(m.obs, o)
		return nil
	}, vrt+"Observe")
	reg(func(m *Machine, th *Thread, a A) Value {
		k := m.argStr(a[0])
		if len(m.threads) == 1 {
			return nil
		}
		o := m.syncObjs[k]
		if o == nil {
			o = new(int)
			m.syncObjs[k] = o
		}
		return m.visible(th, &pend{kind: pkFunc, label: "point:" + k, objs: []access{{o, true}},
			f: func(m *Machine, th *Thread) Value { return nil }})
	}, vrt+"Point")
	reg(func(m *Machine, th *Thread, a A) Value {
		live := func(m *Machine, th *Thread) Value {
			n := 0
			for _, t := range m.threads {
				if t != th && !t.done {
					n++
				}
			}
			return mkBV(uint64(n-len(m.baseThreads)), 64)
		}
		if len(m.threads) == 1 {
			return live(m, th)
		}
		return m.visible(th, &pend{kind: pkIdle, label: "point:settle", f: live})
	}, vrt+"Settle")
	reg(func(m *Machine, th *Thread, a A) Value { return tTrue }, vrt+"Symbolic")
	reg(nop, vrt+"At")
	// between Enter and Leave the harness holds the models' lock natively: no races there
	reg(func(m *Machine, th *Thread, a A) Value { th.inModel++; return nil }, vrt+"Enter")
	reg(func(m *Machine, th *Thread, a A) Value {
		if th.inModel > 0 {
			th.inModel--
		}
		return nil
	}, vrt+"Leave")
	// Touch: the model reads the bytes of a caller's buffer
	reg(func(m *Machine, th *Thread, a A) Value {
		s := a[0].(Slice)
		if m.raceOn && s.a != nil {
			t := m.shadow(&s.a.sh, len(s.a.e))
			for i := s.off; i < s.off+s.len && i < len(s.a.e); i++ {
				m.slotRead(&t.s[i])
			}
		}
		return nil
	}, vrt+"Touch")
	reg(func(m *Machine, th *Thread, a A) Value {
		i := a[0].(Iface)
		if s, ok := i.v.(Slice); ok {
			return bv64(s.len)
		}
		return bv64(0)
	}, vrt+"SliceLen")
	reg(func(m *Machine, th *Thread, a A) Value {
		s, ok := a[0].(Iface).v.(Slice)
		if !ok {
			unsupported("SwapElems")
		}
		x, y := Ptr{s.a, s.off + int(m.concInt(a[1]))}, Ptr{s.a, s.off + int(m.concInt(a[2]))}
		vx, vy := m.load(x), m.load(y)
		m.store(x, vy)
		m.store(y, vx)
		return nil
	}, vrt+"SwapElems")
	reg(func(m *Machine, th *Thread, a A) Value { return m.tc.And(m.asTerm(a[0]), m.asTerm(a[1])) }, vrt+"And")
	reg(func(m *Machine, th *Thread, a A) Value { return m.tc.Or(m.asTerm(a[0]), m.asTerm(a[1])) }, vrt+"Or")
	reg(func(m *Machine, th *Thread, a A) Value { return m.tc.Or(m.tc.Not(m.asTerm(a[0])), m.asTerm(a[1])) }, vrt+"Implies")
	reg(func(m *Machine, th *Thread, a A) Value {
		return m.tc.Ite(m.asTerm(a[0]), m.asTerm(a[1]), m.asTerm(a[2]))
	}, vrt+"IteInt", vrt+"IteByte")
	reg(func(m *Machine, th *Thread, a A) Value { m.mapOrder = m.asTerm(a[0]).isTrue(); return nil }, vrt+"MapOrder")
	reg(func(m *Machine, th *Thread, a A) Value { m.raceOn = true; return nil }, vrt+"RaceOn")
	reg(func(m *Machine, th *Thread, a A) Value { return bv64(int(m.concInt(a[0]))) }, vrt+"Concrete")
	reg(func(m *Machine, th *Thread, a A) Value {
		// case split a symbolic string to a concrete one
		s := m.asBytes(a[0])
		b := make([]byte, s.Len())
		for i := range b {
			b[i] = byte(m.concretize(s.at(i)))
		}
		return Str{c: string(b)}
	}, vrt+"ConcreteString")
	reg(func(m *Machine, th *Thread, a A) Value {
		i := a[0].(Iface)
		if i.t == nil {
			return tTrue
		}
		return mkBool(types.Comparable(i.t))
	}, vrt+"Comparable")
	reg(func(m *Machine, th *Thread, a A) Value {
		panic(pathEnd{endOK})
	}, vrt+"Stop")
	reg(func(m *Machine, th *Thread, a A) Value {
		panic(pathEnd{endAssume})
	}, vrt+"Prune")
	reg(func(m *Machine, th *Thread, a A) Value {
		i := a[0].(Iface)
		if i.t == nil {
			return Str{c: "<nil>"}
		}
		n := types.TypeString(i.t, func(p *types.Package) string { return strings.TrimPrefix(p.Name(), "zz_v") })
		return Str{c: typeWords.ReplaceAllStringFunc(n, func(w string) string {
			switch w {
			case "byte":
				return "uint8"
			case "rune":
				return "int32"
			}
			return "interface {}"
		})}
	}, vrt+"TypeName")
	// Plain converts a value of a named basic type to the plain basic type (used by the fmt model).
	reg(func(m *Machine, th *Thread, a A) Value {
		i := a[0].(Iface)
		if i.t == nil {
			return i
		}
		if b, ok := i.t.Underlying().(*types.Basic); ok {
			return Iface{types.Typ[b.Kind()], i.v}
		}
		if s, ok := i.t.Underlying().(*types.Slice); ok {
			if b, ok := s.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				return Iface{types.NewSlice(types.Typ[types.Uint8]), i.v}
			}
		}
		return i
	}, vrt+"Plain")
	// Kids splits a composite value into its printable components: kind, then elements.
	reg(func(m *Machine, th *Thread, a A) Value {
		i := a[0].(Iface)
		mk := func(kind string, vs []Value, names []string) Value {
			ag := &Agg{e: vs}
			nm := &Agg{}
			for _, n := range names {
				nm.e = append(nm.e, Str{c: n})
			}
			return Tuple{Str{c: kind}, Slice{ag, 0, len(vs), len(vs)}, Slice{nm, 0, len(names), len(names)}}
		}
		if i.t == nil {
			return mk("nil", nil, nil)
		}
		wrap := func(t types.Type, v Value) Value {
			if _, ok := t.Underlying().(*types.Interface); ok {
				return v
			}
			return Iface{t, v}
		}
		switch u := i.t.Underlying().(type) {
		case *types.Struct:
			var vs []Value
			var ns []string
			ag := i.v.(*Agg)
			for k := 0; k < u.NumFields(); k++ {
				vs = append(vs, wrap(u.Field(k).Type(), ag.e[k]))
				ns = append(ns, u.Field(k).Name())
			}
			return mk("struct", vs, ns)
		case *types.Slice:
			s := i.v.(Slice)
			var vs []Value
			for k := 0; k < s.len; k++ {
				vs = append(vs, wrap(u.Elem(), s.a.e[s.off+k]))
			}
			return mk("slice", vs, nil)
		case *types.Array:
			var vs []Value
			for _, e := range i.v.(*Agg).e {
				vs = append(vs, wrap(u.Elem(), e))
			}
			return mk("slice", vs, nil)
		case *types.Map:
			var vs []Value
			if mp := i.v.(*Map); mp != nil {
				for _, e := range mp.ents {
					vs = append(vs, wrap(u.Key(), e.k), wrap(u.Elem(), e.v))
				}
			}
			return mk("map", vs, nil)
		case *types.Pointer:
			p := i.v.(Ptr)
			if p.a == nil {
				return mk("nil", nil, nil)
			}
			if _, ok := u.Elem().Underlying().(*types.Struct); ok {
				return mk("ptr", []Value{wrap(u.Elem(), copyAgg(p.a.e[p.i].(*Agg), false))}, nil)
			}
			return mk("addr", []Value{Iface{types.Typ[types.Uint64], mkBV(m.addrOf(p), 64)}}, nil)
		}
		return mk("other", nil, nil)
	}, vrt+"Kids")
	// Fields gives pointers to the fields of the struct a pointer points to, with names and tags.
	reg(func(m *Machine, th *Thread, a A) Value {
		i := a[0].(Iface)
		pt, ok := i.t.Underlying().(*types.Pointer)
		if !ok {
			unsupported("Fields of %s", i.t)
		}
		u, ok := pt.Elem().Underlying().(*types.Struct)
		if !ok {
			unsupported("Fields of %s", i.t)
		}
		p := i.v.(Ptr)
		ag := p.a.e[p.i].(*Agg)
		vs, ns, ts := &Agg{}, &Agg{}, &Agg{}
		for k := 0; k < u.NumFields(); k++ {
			vs.e = append(vs.e, Iface{types.NewPointer(u.Field(k).Type()), Ptr{a: ag, i: k}})
			ns.e = append(ns.e, Str{c: u.Field(k).Name()})
			ts.e = append(ts.e, Str{c: u.Tag(k)})
		}
		n := u.NumFields()
		return Tuple{Slice{vs, 0, n, n}, Slice{ns, 0, n, n}, Slice{ts, 0, n, n}}
	}, vrt+"Fields")
}
