package main

// Threads, visible operations, sleep sets, vector clocks and data races.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type pkind uint8

const (
	pkFunc pkind = iota // always enabled, runs f
	pkLock
	pkRLock
	pkWLock
	pkWgWait
	pkCond
	pkIdle // enabled when nothing else is
	pkSend
	pkRecv
	pkSelect
)

type access struct {
	key   interface{}
	write bool
}

type selCase struct {
	send bool
	ch   *Chan
	val  Value
}

type pend struct {
	kind    pkind
	mu      Ptr
	ch      *Chan
	val     Value
	cases   []selCase
	dflt    bool
	commaOk bool
	dst     int32
	f       func(m *Machine, th *Thread) Value
	objs    []access
	label   string
	pos     token.Pos
	after   *Frame // frame that is panicking and must continue after this deferred operation
	elem    types.Type
	sel     *ssa.Select
	inInstr bool // result goes to the current instruction of the top frame (recv/send/select)
	signal  *bool
}

type alt struct {
	th      *Thread
	idx     int
	partner *Thread
	pidx    int
	objs    []access
	ids     []idAccess
}

type transKey struct {
	T, I, P, Q int
}

// idAccess names an object by the order of its first use, which is the same in every
// re-execution of a schedule prefix (the objects themselves are not).
type idAccess struct {
	id    int
	write bool
}

type sleepEnt struct {
	k    transKey
	objs []idAccess
}

func (m *Machine) ids(objs []access) []idAccess {
	r := make([]idAccess, len(objs))
	for i, o := range objs {
		n, ok := m.objIDs[o.key]
		if !ok {
			n = len(m.objIDs) + 1
			m.objIDs[o.key] = n
		}
		r[i] = idAccess{n, o.write}
	}
	return r
}

func (a alt) key() transKey {
	p := -1
	if a.partner != nil {
		p = a.partner.id
	}
	return transKey{a.th.id, a.idx, p, a.pidx}
}

type schedRec struct {
	Thread int    `json:"t"`
	Op     string `json:"op"`
	Pos    string `json:"pos"`
	Par    int    `json:"p"`
	ParPos string `json:"ppos,omitempty"`
}

type lockState struct {
	held    bool
	readers int
	wwait   int
	vc      []int32 // released by writers
	rvc     []int32 // released by readers
}

type wgState struct {
	n  int
	vc []int32
}

type poolState struct {
	items []Value
	vcs   [][]int32
}

type condState struct {
	waiters []*bool
	wvcs    []*[]int32
}

func (m *Machine) lockOf(p Ptr) *lockState {
	l := m.locks[p]
	if l == nil {
		l = &lockState{}
		m.locks[p] = l
	}
	return l
}

func (m *Machine) wgOf(p Ptr) *wgState {
	w := m.wgs[p]
	if w == nil {
		w = &wgState{}
		m.wgs[p] = w
	}
	return w
}

// ------------------------------------------------------------------ clocks

func vcJoin(a, b []int32) []int32 {
	if len(b) == 0 {
		return a
	}
	n := len(a)
	if len(b) > n {
		n = len(b)
	}
	r := make([]int32, n)
	copy(r, a)
	for i, x := range b {
		if x > r[i] {
			r[i] = x
		}
	}
	return r
}

func (m *Machine) acquire(th *Thread, vc []int32) { th.vc = vcJoin(th.vc, vc) }

func (m *Machine) release(th *Thread) []int32 {
	r := append([]int32{}, th.vc...)
	n := make([]int32, len(th.vc))
	copy(n, th.vc)
	for len(n) <= th.id {
		n = append(n, 0)
	}
	n[th.id]++
	th.vc = n
	return r
}

func vcAt(vc []int32, i int32) int32 {
	if int(i) < len(vc) {
		return vc[i]
	}
	return 0
}

type accPos struct {
	fi  *FnInfo
	pos token.Pos
}

type shadowSlot struct {
	wt, wc int32 // wt = tid+1
	wpos   accPos
	r      []readEnt
}

type readEnt struct {
	t, c int32
	pos  accPos
}

type shadowTab struct {
	epoch int32
	s     []shadowSlot
}

func (m *Machine) shadow(sp **shadowTab, n int) *shadowTab {
	s := *sp
	if s == nil || s.epoch != m.pathEpoch {
		s = &shadowTab{epoch: m.pathEpoch, s: make([]shadowSlot, n)}
		*sp = s
	}
	for len(s.s) < n {
		s.s = append(s.s, shadowSlot{})
	}
	return s
}

func (m *Machine) curPos() accPos {
	th := m.cur
	if th == nil || len(th.frames) == 0 {
		return accPos{}
	}
	fr := th.top()
	var p token.Pos
	if fr.blk >= 0 && fr.pc < len(fr.fi.blocks[fr.blk]) {
		p = fr.fi.blocks[fr.blk][fr.pc].i.Pos()
	}
	return accPos{fr.fi, p}
}

func (m *Machine) raceExempt() bool {
	th := m.cur
	if th == nil || len(th.frames) == 0 {
		return true
	}
	return th.inModel > 0 || th.top().fi.isModel
}

func (m *Machine) slotRead(sl *shadowSlot) {
	th := m.cur
	id := int32(th.id)
	if sl.wt != 0 && sl.wt-1 != id && vcAt(th.vc, sl.wt-1) < sl.wc {
		m.race(sl.wpos, "write", "read")
	}
	c := vcAt(th.vc, id)
	for i := range sl.r {
		if sl.r[i].t == id {
			sl.r[i].c = c
			sl.r[i].pos = m.curPos()
			return
		}
	}
	sl.r = append(sl.r, readEnt{id, c, m.curPos()})
}

func (m *Machine) slotWrite(sl *shadowSlot) {
	th := m.cur
	id := int32(th.id)
	if sl.wt != 0 && sl.wt-1 != id && vcAt(th.vc, sl.wt-1) < sl.wc {
		m.race(sl.wpos, "write", "write")
	}
	for _, r := range sl.r {
		if r.t != id && vcAt(th.vc, r.t) < r.c {
			m.race(r.pos, "read", "write")
		}
	}
	sl.r = sl.r[:0]
	sl.wt, sl.wc, sl.wpos = id+1, vcAt(th.vc, id), m.curPos()
}

func (m *Machine) race(prev accPos, k1, k2 string) {
	w := "?"
	if prev.fi != nil {
		w = prev.fi.name + " " + m.eng.pos(prev.pos)
	}
	cur := m.curPos()
	cw := "?"
	if cur.fi != nil {
		cw = cur.fi.name + " " + m.eng.pos(cur.pos)
	}
	if !m.eng.checkRaces {
		return
	}
	m.violation("race", fmt.Sprintf("data race: %s at %s, unordered with earlier %s at %s", k2, cw, k1, w), "data-race")
}

func (m *Machine) raceRead(p Ptr) {
	if m.raceExempt() || p.a == nil || p.i >= len(p.a.e) {
		return
	}
	m.slotRead(&m.shadow(&p.a.sh, len(p.a.e)).s[p.i])
}

func (m *Machine) raceWrite(p Ptr) {
	if m.raceExempt() || p.a == nil || p.i >= len(p.a.e) {
		return
	}
	m.slotWrite(&m.shadow(&p.a.sh, len(p.a.e)).s[p.i])
}

func (m *Machine) raceAgg(a *Agg, write bool) {
	if m.raceExempt() {
		return
	}
	t := m.shadow(&a.sh, len(a.e))
	for i, v := range a.e {
		if x, ok := v.(*Agg); ok {
			m.raceAgg(x, write)
			continue
		}
		if write {
			m.slotWrite(&t.s[i])
		} else {
			m.slotRead(&t.s[i])
		}
	}
}

func (m *Machine) raceMap(mp *Map, write bool) {
	if m.raceExempt() {
		return
	}
	t := m.shadow(&mp.sh, 1)
	if write {
		m.slotWrite(&t.s[0])
	} else {
		m.slotRead(&t.s[0])
	}
}

// ------------------------------------------------------------------ spawning and channel ops

func (m *Machine) spawn(th *Thread, d deferred, pos token.Pos) {
	n := &Thread{id: len(m.threads), occ: map[string]int{}}
	if len(m.threads) > 60 {
		unsupported("too many goroutines")
	}
	if !m.initMode {
		m.raceOn = true
	}
	n.vc = m.release(th)
	for len(n.vc) <= n.id {
		n.vc = append(n.vc, 0)
	}
	n.vc[n.id]++
	m.threads = append(m.threads, n)
	m.cur = n
	m.callDeferred(n, d)
	m.cur = th
	if len(n.frames) == 0 && n.pend == nil {
		n.done = true
	}
}

func (m *Machine) chanTouch(c *Chan) {
	if !c.base || m.initMode || c.saved == m.pathEpoch {
		return
	}
	c.saved = m.pathEpoch
	buf := append([]chanElem{}, c.buf...)
	cl, clvc, rv, ns := c.closed, c.clvc, c.recvVC, c.nsend
	m.undoFns = append(m.undoFns, func() {
		c.buf, c.closed, c.clvc, c.recvVC, c.nsend, c.saved = buf, cl, clvc, rv, ns, 0
	})
}

func asChan(v Value) *Chan {
	c, ok := v.(*Chan)
	if !ok {
		if p, isP := v.(Poison); isP {
			unsupported("poison: %s", p.why)
		}
		unsupported("channel expected, got %T", v)
	}
	return c
}

func (m *Machine) visRecv(th *Thread, fr *Frame, in *inst, x *ssa.UnOp) {
	c := asChan(fr.get(in.ops[0]))
	th.pend = &pend{kind: pkRecv, ch: c, commaOk: x.CommaOk, dst: in.res, pos: x.Pos(), label: "recv", inInstr: true,
		elem: x.X.Type().Underlying().(*types.Chan).Elem(), objs: []access{{c, true}}}
}

func (m *Machine) visSend(th *Thread, fr *Frame, in *inst) {
	c := asChan(fr.get(in.ops[0]))
	th.pend = &pend{kind: pkSend, ch: c, val: fr.get(in.ops[1]), dst: -1, pos: in.i.Pos(), label: "send", inInstr: true,
		objs: []access{{c, true}}}
}

func (m *Machine) visSelect(th *Thread, fr *Frame, in *inst, x *ssa.Select) {
	p := &pend{kind: pkSelect, dflt: !x.Blocking, dst: in.res, pos: x.Pos(), label: "select", inInstr: true, sel: x}
	k := 0
	for _, s := range x.States {
		c := asChan(fr.get(in.ops[k]))
		k++
		sc := selCase{send: s.Dir == types.SendOnly, ch: c}
		if sc.send {
			sc.val = fr.get(in.ops[k])
		}
		k++ // Operands yields a nil Send value for receive cases
		p.cases = append(p.cases, sc)
		if c != nil {
			p.objs = append(p.objs, access{c, true})
		}
	}
	th.pend = p
}

func (m *Machine) chanClose(th *Thread, v Value) {
	c := asChan(v)
	if c == nil {
		m.goPanicStr("close of nil channel")
	}
	th.pend = &pend{kind: pkFunc, dst: -1, label: "close", objs: []access{{c, true}}, pos: m.curPos().pos,
		f: func(m *Machine, th *Thread) Value {
			if c.closed {
				m.goPanicStr("close of closed channel")
			}
			m.chanTouch(c)
			c.closed = true
			c.clvc = m.release(th)
			return nil
		}}
}

// canRecv: a value (or close) is available without a rendezvous partner.
func canRecv(c *Chan) bool { return c != nil && (len(c.buf) > 0 || c.closed) }
func canSend(c *Chan) bool { return c != nil && (c.closed || len(c.buf) < c.cap) }

// alts lists the enabled transitions that thread th can take (as the acting side).
func (m *Machine) alts(th *Thread) []alt {
	p := th.pend
	if p == nil || th.done {
		return nil
	}
	one := func() []alt { return []alt{{th: th, pidx: -1, objs: p.objs}} }
	switch p.kind {
	case pkFunc:
		return one()
	case pkLock:
		if !m.lockOf(p.mu).held {
			return one()
		}
	case pkRLock:
		l := m.lockOf(p.mu)
		if !l.held && l.wwait == 0 {
			return one()
		}
	case pkWLock:
		l := m.lockOf(p.mu)
		if !l.held && l.readers == 0 {
			return one()
		}
	case pkWgWait:
		if m.wgOf(p.mu).n == 0 {
			return one()
		}
	case pkCond:
		if *p.signal {
			return one()
		}
	case pkSend:
		if p.ch == nil {
			return nil
		}
		if canSend(p.ch) {
			return one()
		}
		return m.partners(th, 0, p.ch, p.objs)
	case pkRecv:
		if canRecv(p.ch) {
			return one()
		}
	case pkSelect:
		var r []alt
		ready := false
		for i, c := range p.cases {
			if c.ch == nil {
				continue
			}
			if c.send {
				if canSend(c.ch) {
					r = append(r, alt{th: th, idx: i, pidx: -1, objs: p.objs})
					ready = true
				} else {
					r = append(r, m.partners(th, i, c.ch, p.objs)...)
				}
			} else if canRecv(c.ch) {
				r = append(r, alt{th: th, idx: i, pidx: -1, objs: p.objs})
				ready = true
			}
		}
		if p.dflt && !ready {
			r = append(r, alt{th: th, idx: len(p.cases), pidx: -1, objs: p.objs})
		}
		return r
	}
	return nil
}

// partners lists rendezvous transitions of a sender (case idx of th) on ch.
func (m *Machine) partners(th *Thread, idx int, ch *Chan, objs []access) []alt {
	if ch.cap > 0 {
		return nil
	}
	var r []alt
	for _, t := range m.threads {
		if t == th || t.done || t.pend == nil {
			continue
		}
		switch t.pend.kind {
		case pkRecv:
			if t.pend.ch == ch {
				r = append(r, alt{th: th, idx: idx, partner: t, pidx: 0, objs: append(append([]access{}, objs...), t.pend.objs...)})
			}
		case pkSelect:
			for k, c := range t.pend.cases {
				if !c.send && c.ch == ch {
					r = append(r, alt{th: th, idx: idx, partner: t, pidx: k, objs: append(append([]access{}, objs...), t.pend.objs...)})
				}
			}
		}
	}
	return r
}

// finishPend delivers the result of a visible operation.
func (m *Machine) finishPend(th *Thread, p *pend, v Value) {
	th.pend = nil
	if len(th.frames) == 0 {
		th.done = true
		return
	}
	fr := th.top()
	if p.inInstr {
		if p.dst >= 0 {
			fr.regs[p.dst] = v
		}
		fr.pc++
		return
	}
	if p.dst >= 0 {
		fr.regs[p.dst] = v
	}
	if p.after != nil {
		m.afterDefer(th, p.after)
	}
}

func (m *Machine) recvResult(p *pend, v Value, ok bool) Value {
	if p.commaOk {
		return Tuple{v, mkBool(ok)}
	}
	return v
}

func (m *Machine) selResult(p *pend, idx int, v Value, ok bool) Value {
	tt := p.sel.Type().(*types.Tuple)
	r := make(Tuple, tt.Len())
	r[0] = mkBV(uint64(idx), 64)
	if idx == len(p.cases) {
		r[0] = mkBV(^uint64(0), 64)
	}
	r[1] = mkBool(ok)
	k := 2
	for i, c := range p.cases {
		if c.send {
			continue
		}
		if i == idx && v != nil {
			r[k] = v
		} else {
			r[k] = m.zero(tt.At(k).Type())
		}
		k++
	}
	return r
}

func (m *Machine) doRecv(th *Thread, c *Chan, elem types.Type) (Value, bool) {
	m.chanTouch(c)
	if len(c.buf) > 0 {
		e := c.buf[0]
		c.buf = append([]chanElem{}, c.buf[1:]...)
		m.acquire(th, e.vc)
		c.recvVC = append(append([][]int32{}, c.recvVC...), m.release(th))
		return e.v, true
	}
	m.acquire(th, c.clvc)
	return m.zero(elem), false
}

func (m *Machine) doSend(th *Thread, c *Chan, v Value) {
	if c.closed {
		m.goPanicStr("send on closed channel")
	}
	m.chanTouch(c)
	if k := c.nsend - c.cap; k >= 0 && k < len(c.recvVC) {
		m.acquire(th, c.recvVC[k])
	}
	c.nsend++
	c.buf = append(append([]chanElem{}, c.buf...), chanElem{v, m.release(th)})
}

// exec performs one enabled transition.
func (m *Machine) exec(th *Thread, a alt) {
	p := th.pend
	m.cur = th
	m.guard(th, func() {
		switch p.kind {
		case pkFunc, pkIdle:
			v := p.f(m, th)
			if th.pend != p { // replaced by a follow-up pend
				return
			}
			m.finishPend(th, p, v)
		case pkLock, pkWLock:
			l := m.lockOf(p.mu)
			l.held = true
			if p.kind == pkWLock {
				l.wwait--
			}
			m.acquire(th, l.vc)
			m.acquire(th, l.rvc)
			m.finishPend(th, p, nil)
		case pkRLock:
			l := m.lockOf(p.mu)
			l.readers++
			m.acquire(th, l.vc)
			m.finishPend(th, p, nil)
		case pkWgWait:
			m.acquire(th, m.wgOf(p.mu).vc)
			m.finishPend(th, p, nil)
		case pkCond:
			np := &pend{kind: pkLock, mu: p.mu, dst: -1, label: "cond-relock", objs: []access{{p.mu, true}}, pos: p.pos, after: p.after}
			th.pend = np
		case pkSend:
			if a.partner != nil {
				m.rendezvous(th, a, p.val)
				m.finishPend(th, p, nil)
				return
			}
			m.doSend(th, p.ch, p.val)
			m.finishPend(th, p, nil)
		case pkRecv:
			v, ok := m.doRecv(th, p.ch, p.elem)
			m.finishPend(th, p, m.recvResult(p, v, ok))
		case pkSelect:
			if a.idx == len(p.cases) {
				m.finishPend(th, p, m.selResult(p, a.idx, nil, false))
				return
			}
			c := p.cases[a.idx]
			switch {
			case a.partner != nil:
				m.rendezvous(th, a, c.val)
				m.finishPend(th, p, m.selResult(p, a.idx, nil, false))
			case c.send:
				m.doSend(th, c.ch, c.val)
				m.finishPend(th, p, m.selResult(p, a.idx, nil, false))
			default:
				el := c.ch
				et := p.sel.States[a.idx].Chan.Type().Underlying().(*types.Chan).Elem()
				v, ok := m.doRecv(th, el, et)
				m.finishPend(th, p, m.selResult(p, a.idx, v, ok))
			}
		}
	})
}

func (m *Machine) rendezvous(th *Thread, a alt, v Value) {
	q := a.partner
	qp := q.pend
	sv := m.release(th)
	rv := m.release(q)
	m.acquire(th, rv)
	m.acquire(q, sv)
	if qp.kind == pkRecv {
		m.finishPend(q, qp, m.recvResult(qp, v, true))
	} else {
		m.finishPend(q, qp, m.selResult(qp, a.pidx, v, true))
	}
}

// guard runs f and turns a Go panic raised by it into unwinding of th.
func (m *Machine) guard(th *Thread, f func()) {
	defer func() {
		if r := recover(); r != nil {
			if gp, ok := r.(goPanic); ok {
				th.pend = nil
				th.panicV = &panicState{val: gp.v}
				if len(th.frames) > 0 {
					m.unwindSafe(th)
				} else {
					m.uncaught(th)
				}
				return
			}
			panic(r)
		}
	}()
	f()
}

// ------------------------------------------------------------------ the scheduler

func dependent(a, b []idAccess) bool {
	for _, x := range a {
		for _, y := range b {
			if x.id == y.id && (x.write || y.write) {
				return true
			}
		}
	}
	return false
}

func sharesThread(k transKey, a alt) bool {
	if k.T == a.th.id || k.P == a.th.id {
		return true
	}
	if a.partner != nil && (k.T == a.partner.id || k.P == a.partner.id) {
		return true
	}
	return false
}

func (m *Machine) schedule(main *Thread) {
	for {
		for i := 0; i < len(m.threads); i++ {
			t := m.threads[i]
			if !t.done && t.pend == nil {
				m.run(t)
			}
		}
		if main.done {
			return
		}
		var en []alt
		for _, t := range m.threads {
			en = append(en, m.alts(t)...)
		}
		for i := range en {
			en[i].ids = m.ids(en[i].objs)
		}
		if len(en) == 0 {
			if t := m.idler(); t != nil {
				a := alt{th: t, pidx: -1}
				m.logSched(a)
				m.sleep = nil // nothing else is enabled
				m.exec(t, a)
				continue
			}
			m.cur = main
			msg := "deadlock: every goroutine is blocked:"
			for _, t := range m.threads {
				if !t.done && t.pend != nil {
					msg += fmt.Sprintf(" [g%d %s at %s]", t.id, t.pend.label, m.eng.pos(m.pendPos(t)))
				}
			}
			m.violation("deadlock", msg, "deadlock")
		}
		var pick alt
		if len(en) == 1 && len(m.sleep) == 0 {
			pick = en[0]
		} else {
			pick = m.pickTransition(en)
		}
		m.logSched(pick)
		m.exec(pick.th, pick)
	}
}

// idler is the thread, if any, that waits for all the others to block or end.
func (m *Machine) idler() *Thread {
	for _, t := range m.threads {
		if !t.done && t.pend != nil && t.pend.kind == pkIdle {
			return t
		}
	}
	return nil
}

func (m *Machine) pickTransition(en []alt) alt {
	// transitions not in the sleep set
	var awake []alt
	for _, a := range en {
		k := a.key()
		asleep := false
		for _, s := range m.sleep {
			if s.k == k {
				asleep = true
				break
			}
		}
		if !asleep {
			awake = append(awake, a)
		}
	}
	after := func(sl []sleepEnt, a alt) []sleepEnt {
		var r []sleepEnt
		for _, s := range sl {
			if !sharesThread(s.k, a) && !dependent(s.objs, a.ids) {
				r = append(r, s)
			}
		}
		return r
	}
	if m.replaying() {
		d := m.nextPrefix(dSched)
		for _, a := range en {
			if a.key() == d.tr {
				m.take(d)
				m.sleep = after(d.sleep, a)
				return a
			}
		}
		panic(engineErr{"nondeterministic re-execution: scheduled transition not enabled"})
	}
	if len(awake) == 0 {
		panic(pathEnd{endSleep})
	}
	m.checkStop()
	// prefer to go on with the thread that ran last
	for i, a := range awake {
		if a.th.id == m.lastSched {
			awake[0], awake[i] = awake[i], awake[0]
			break
		}
	}
	base := append([]sleepEnt{}, m.sleep...)
	sl := make([][]sleepEnt, len(awake))
	for i, a := range awake {
		sl[i] = append([]sleepEnt{}, base...)
		base = append(base, sleepEnt{a.key(), a.ids})
	}
	for i := len(awake) - 1; i > 0; i-- {
		m.eng.push(job{child(m.node, decision{kind: dSched, tr: awake[i].key(), sleep: sl[i]}), m.model})
	}
	m.take(decision{kind: dSched, tr: awake[0].key(), sleep: sl[0]})
	m.sleep = after(sl[0], awake[0])
	return awake[0]
}

func (m *Machine) pendPos(t *Thread) token.Pos {
	p := t.pend.pos
	// report the innermost position that lies in instrumented code
	for i := len(t.frames) - 1; i >= 0; i-- {
		if t.frames[i].fi.inst {
			if q := m.framePos(t.frames[i]); q != token.NoPos {
				return q
			}
		}
	}
	return p
}

func (m *Machine) pendPosText(t *Thread) string {
	if strings.HasPrefix(t.pend.label, "point:") {
		return t.pend.label
	}
	return m.eng.pos(m.pendPos(t))
}

func (m *Machine) logSched(a alt) {
	m.lastSched = a.th.id
	r := schedRec{Thread: a.th.id, Op: a.th.pend.label, Pos: m.pendPosText(a.th), Par: -1}
	if a.partner != nil {
		r.Par = a.partner.id
		r.ParPos = m.pendPosText(a.partner)
	}
	m.sched = append(m.sched, r)
	m.eng.countTransition()
}
