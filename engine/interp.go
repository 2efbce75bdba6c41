package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type opnd struct {
	k uint8 // 0 reg, 1 constant value
	i int32
}

type inst struct {
	i   ssa.Instruction
	res int32 // result register or -1
	ops []opnd
	aux interface{}
}

type FnInfo struct {
	fn      *ssa.Function
	nregs   int
	blocks  [][]inst
	consts  []Value
	params  []int32
	free    []int32
	intr    intrinsic
	name    string
	isRepo  bool
	inst    bool
	isInit  bool
	synth   bool
	isModel bool
}

type deferred struct {
	fn   Value
	call *ssa.CallCommon
	args []Value
	inv  *types.Func
}

type panicState struct {
	val       Value // Iface
	recovered bool
	goexit    bool
}

type Frame struct {
	fi      *FnInfo
	regs    []Value
	blk     int
	prev    int
	pc      int
	dst     int32 // register of the caller receiving the result (-1: none)
	defers  []deferred
	callPos token.Pos
	// panic handling
	panicking *panicState // this frame is unwinding because of
	deferOf   bool        // frame was invoked by a defer of the frame below
	onReturn  func(Value) // host continuation instead of dst
}

// decline is returned by an intrinsic that leaves the call to the real body.
type decline struct{}

type Thread struct {
	inModel int
	id      int
	frames  []*Frame
	done    bool
	pend    *pend
	vc      []int32
	daemon  bool
	name    string
	panicV  *panicState
	occ     map[string]int
	waitsVC []int32
}

func (th *Thread) top() *Frame { return th.frames[len(th.frames)-1] }

// ------------------------------------------------------------------ decode

func (m *Machine) info(fn *ssa.Function) *FnInfo {
	if fi, ok := m.fns[fn]; ok {
		return fi
	}
	m.eng.buildFn(fn)
	fi := &FnInfo{fn: fn, name: fn.String()}
	if o := fn.Origin(); o != nil && o != fn {
		fi.name = o.String()
	}
	m.fns[fn] = fi
	if p := fnPkg(fn); p != nil {
		fi.isRepo = m.eng.isRepoPkg(p.Path())
		fi.inst = strings.HasPrefix(p.Path(), modPath) && !strings.HasSuffix(p.Path(), "zz_vrt")
		fi.isModel = strings.Contains(p.Path(), "/zz_")
	}
	fi.isInit = fn.Synthetic == "package initializer"
	fi.synth = fn.Synthetic != "" && fn.Origin() == nil // an instance of a generic function is real code
	if it, ok := intrinsics[fi.name]; ok {
		fi.intr = it
	}
	if r, ok := m.eng.redirect[fi.name]; ok {
		target := m.info(r)
		m.fns[fn] = target
		return target
	}
	if len(fn.Blocks) == 0 {
		return fi
	}
	reg := map[ssa.Value]int32{}
	n := int32(0)
	add := func(v ssa.Value) int32 { reg[v] = n; n++; return n - 1 }
	for _, p := range fn.Params {
		fi.params = append(fi.params, add(p))
	}
	for _, p := range fn.FreeVars {
		fi.free = append(fi.free, add(p))
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	constIdx := map[ssa.Value]int32{}
	fi.blocks = make([][]inst, len(fn.Blocks))
	var buf [16]*ssa.Value
	for bi, b := range fn.Blocks {
		code := make([]inst, 0, len(b.Instrs))
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			x := inst{i: in, res: -1}
			if v, ok := in.(ssa.Value); ok {
				x.res = reg[v]
			}
			for _, op := range in.Operands(buf[:0]) {
				v := *op
				if v == nil {
					x.ops = append(x.ops, opnd{k: 2})
					continue
				}
				if r, ok := reg[v]; ok {
					x.ops = append(x.ops, opnd{0, r})
					continue
				}
				ci, ok := constIdx[v]
				if !ok {
					ci = int32(len(fi.consts))
					constIdx[v] = ci
					fi.consts = append(fi.consts, m.constValue(v))
				}
				x.ops = append(x.ops, opnd{1, ci})
			}
			code = append(code, x)
		}
		fi.blocks[bi] = code
	}
	fi.nregs = int(n)
	return fi
}

func fnPkg(fn *ssa.Function) *types.Package {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg
		}
		if o := f.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg.Pkg
		}
		if f.Object() != nil && f.Object().Pkg() != nil {
			return f.Object().Pkg()
		}
	}
	return nil
}

func (m *Machine) constValue(v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return m.constant(x)
	case *ssa.Global:
		return Ptr{m.global(x), 0}
	case *ssa.Function:
		return m.funcVal(x)
	case *ssa.Builtin:
		return &Func{builtin: x}
	}
	unsupported("operand %T %v", v, v)
	return nil
}

func (m *Machine) funcVal(fn *ssa.Function) *Func {
	if f, ok := m.fvals[fn]; ok {
		return f
	}
	f := &Func{fn: fn}
	m.fvals[fn] = f
	return f
}

func (m *Machine) global(g *ssa.Global) *Agg {
	if a, ok := m.globals[g]; ok {
		return a
	}
	was := m.initMode
	m.initMode = true
	a := &Agg{e: []Value{m.zero(g.Type().(*types.Pointer).Elem())}, base: true}
	m.initMode = was
	m.globals[g] = a
	return a
}

func (m *Machine) constant(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		was := m.initMode
		m.initMode = true
		z := m.zero(t)
		m.initMode = was
		return z
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		unsupported("constant of type %v", t)
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return mkBool(constant.BoolVal(c.Value))
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return Str{c: constant.StringVal(c.Value)}
		}
		return Str{c: string(rune(c.Int64()))}
	case b.Info()&types.IsInteger != 0:
		w, _, _ := intWidth(b)
		cv := constant.ToInt(c.Value)
		if u, ok := constant.Uint64Val(cv); ok {
			return mkBV(u, w)
		}
		i, _ := constant.Int64Val(cv)
		return mkBV(uint64(i), w)
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(c.Value)
		if b.Kind() == types.Float32 {
			return Float{float64(float32(f)), 32}
		}
		return Float{f, 64}
	case b.Info()&types.IsComplex != 0:
		re, _ := constant.Float64Val(constant.Real(c.Value))
		im, _ := constant.Float64Val(constant.Imag(c.Value))
		return Complex{complex(re, im)}
	}
	unsupported("constant %v", c)
	return nil
}

func (fr *Frame) get(o opnd) Value {
	if o.k == 0 {
		return fr.regs[o.i]
	}
	return fr.fi.consts[o.i]
}

// ------------------------------------------------------------------ memory

func (m *Machine) load(p Ptr) Value {
	if p.a == nil {
		m.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
	}
	if p.i < 0 || p.i >= len(p.a.e) {
		unsupported("load out of object")
	}
	if m.raceOn {
		m.raceRead(p)
	}
	v := p.a.e[p.i]
	if a, ok := v.(*Agg); ok {
		if m.raceOn {
			m.raceAgg(a, false)
		}
		return copyAgg(a, false)
	}
	return v
}

func (m *Machine) setSlot(a *Agg, i int, v Value) {
	if a.base && !m.initMode {
		m.undo = append(m.undo, undoRec{a, i, a.e[i]})
	}
	a.e[i] = v
}

func (m *Machine) storeAgg(dst, src *Agg) {
	if len(dst.e) != len(src.e) {
		unsupported("aggregate store size mismatch")
	}
	for i, v := range src.e {
		if s, ok := v.(*Agg); ok {
			if d, ok := dst.e[i].(*Agg); ok {
				m.storeAgg(d, s)
				continue
			}
			m.setSlot(dst, i, copyAgg(s, dst.base))
			continue
		}
		m.setSlot(dst, i, v)
	}
}

func (m *Machine) store(p Ptr, v Value) {
	if p.a == nil {
		m.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
	}
	if m.raceOn {
		m.raceWrite(p)
	}
	if s, ok := v.(*Agg); ok {
		if d, ok := p.a.e[p.i].(*Agg); ok {
			if m.raceOn {
				m.raceAgg(d, true)
			}
			m.storeAgg(d, s)
			return
		}
		m.setSlot(p.a, p.i, copyAgg(s, p.a.base))
		return
	}
	m.setSlot(p.a, p.i, v)
}

func (m *Machine) newObj(v Value) Ptr {
	a := &Agg{e: []Value{v}, base: m.initMode}
	return Ptr{a, 0}
}

// ------------------------------------------------------------------ panics

type goPanic struct{ v Value }

// goPanicStr raises a Go runtime panic in the running thread.
func (m *Machine) goPanicStr(s string) {
	panic(goPanic{m.runtimeErr(s)})
}

func (m *Machine) runtimeErr(s string) Value {
	return Iface{m.eng.rtErrType, Str{c: s}}
}

func (m *Machine) panicText(v Value) string {
	i, ok := v.(Iface)
	if !ok || i.t == nil {
		return "nil"
	}
	switch x := i.v.(type) {
	case Str:
		return m.strText(x)
	case *Term:
		if x.isConst() {
			return fmt.Sprint(x.val)
		}
	case Ptr:
		if x.a != nil {
			if a, ok := x.a.e[x.i].(*Agg); ok && len(a.e) > 0 {
				if s, ok := a.e[0].(Str); ok {
					return i.t.String() + ": " + m.strText(s)
				}
			}
		}
	}
	return "value of type " + i.t.String()
}

func (m *Machine) strText(s Str) string {
	if c, ok := s.conc(); ok {
		return c
	}
	var sb strings.Builder
	for _, t := range s.sym {
		if t.isConst() {
			sb.WriteByte(byte(t.val))
		} else {
			sb.WriteByte('?')
		}
	}
	return sb.String()
}

// unwind runs deferred calls of the top frame, or pops it.
func (m *Machine) unwind(th *Thread) {
	for {
		if len(th.frames) == 0 {
			m.uncaught(th)
			return
		}
		fr := th.top()
		fr.panicking = th.panicV
		if len(fr.defers) > 0 {
			d := fr.defers[len(fr.defers)-1]
			fr.defers = fr.defers[:len(fr.defers)-1]
			m.runDeferred(th, fr, d)
			return
		}
		if fr.fi.isInit && m.initMode {
			panic(engineErr{"panic during package init: " + m.panicText(th.panicV.val)})
		}
		th.frames = th.frames[:len(th.frames)-1]
	}
}

func (m *Machine) runDeferred(th *Thread, fr *Frame, d deferred) {
	n := len(th.frames)
	m.callDeferred(th, d)
	if len(th.frames) > n {
		th.top().deferOf = true
	} else if fr.panicking != nil {
		if th.pend != nil { // a visible operation: continue when it has been performed
			th.pend.after = fr
			return
		}
		// completed synchronously (intrinsic): continue unwinding
		m.afterDefer(th, fr)
	}
}

func (m *Machine) callDeferred(th *Thread, d deferred) {
	if d.inv != nil {
		m.invokeMethod(th, d.args[0], d.inv, d.args[1:], -1, token.NoPos)
		return
	}
	m.callValue(th, d.fn, d.args, -1, token.NoPos, d.call)
}

// afterDefer continues when a deferred call of fr has returned while fr is panicking.
func (m *Machine) afterDefer(th *Thread, fr *Frame) {
	if fr.panicking == nil {
		return
	}
	if fr.panicking.recovered {
		fr.panicking = nil
		th.panicV = nil
		// run the remaining defers, then return through the recover block
		if fr.fi.fn.Recover != nil {
			fr.prev = fr.blk
			fr.blk = fr.fi.fn.Recover.Index
			fr.pc = 0
			return
		}
		// no named results: remaining defers and zero results
		fr.blk = -1
		return
	}
	m.unwind(th)
}

func (m *Machine) uncaught(th *Thread) {
	m.violation("panic", "uncaught panic: "+m.panicText(th.panicV.val), "")
}

// ------------------------------------------------------------------ stepping

// run executes the thread until it finishes or reaches a visible operation.
func (m *Machine) run(th *Thread) {
	for th.pend == nil && !th.done {
		m.runGuarded(th)
	}
}

func (m *Machine) runGuarded(th *Thread) {
	defer func() {
		if r := recover(); r != nil {
			if gp, ok := r.(goPanic); ok {
				if m.traceOn {
					fmt.Println("GO PANIC", m.panicText(gp.v), m.where(th))
				}
				th.panicV = &panicState{val: gp.v}
				m.unwindSafe(th)
				return
			}
			if ee, ok := r.(engineErr); ok && m.initMode && m.lenient(th, ee) {
				return
			}
			panic(r)
		}
	}()
	m.cur = th
	for th.pend == nil && !th.done {
		if len(th.frames) == 0 {
			th.done = true
			return
		}
		m.step(th)
	}
}

func (m *Machine) unwindSafe(th *Thread) {
	defer func() {
		if r := recover(); r != nil {
			if ee, ok := r.(engineErr); ok && m.initMode && m.lenient(th, ee) {
				return
			}
			panic(r)
		}
	}()
	m.unwind(th)
}

// lenient: during package initialisation an unsupported operation poisons the
// result of the statement in the enclosing package initializer.
func (m *Machine) lenient(th *Thread, ee engineErr) bool {
	if th.id != 0 {
		th.done = true
		th.frames = nil
		return true
	}
	for len(th.frames) > 0 {
		fr := th.top()
		if fr.fi.isInit {
			in := &fr.fi.blocks[fr.blk][fr.pc]
			m.eng.initNote(fr.fi.fn.Pkg.Pkg.Path(), ee.msg)
			if in.res >= 0 {
				fr.regs[in.res] = m.poisonFor(in.i.(ssa.Value).Type(), ee.msg)
			}
			fr.panicking = nil
			th.panicV = nil
			switch in.i.(type) {
			case *ssa.If, *ssa.Jump, *ssa.Return:
				th.frames = th.frames[:len(th.frames)-1]
				m.finishReturn(th, fr, nil)
			default:
				fr.pc++
			}
			return true
		}
		th.frames = th.frames[:len(th.frames)-1]
	}
	return false
}

func (m *Machine) poisonFor(t types.Type, why string) Value {
	if tp, ok := t.(*types.Tuple); ok {
		r := make(Tuple, tp.Len())
		for i := range r {
			r[i] = Poison{why}
		}
		return r
	}
	return Poison{why}
}

func (m *Machine) where(th *Thread) string {
	var sb strings.Builder
	for i := len(th.frames) - 1; i >= 0 && i > len(th.frames)-12; i-- {
		fr := th.frames[i]
		fmt.Fprintf(&sb, "\n    %s %s", fr.fi.name, m.eng.pos(m.framePos(fr)))
	}
	return sb.String()
}

func (m *Machine) framePos(fr *Frame) token.Pos {
	if fr.blk >= 0 && fr.blk < len(fr.fi.blocks) {
		code := fr.fi.blocks[fr.blk]
		for pc := fr.pc; pc >= 0; pc-- {
			if pc < len(code) {
				if p := code[pc].i.Pos(); p != token.NoPos {
					return p
				}
			}
		}
	}
	return fr.fi.fn.Pos()
}

func (m *Machine) jump(fr *Frame, to int) {
	from := fr.blk
	fr.prev = from
	fr.blk = to
	fr.pc = 0
	code := fr.fi.blocks[to]
	// parallel phi evaluation
	if len(code) == 0 {
		return
	}
	if _, ok := code[0].i.(*ssa.Phi); !ok {
		return
	}
	preds := fr.fi.fn.Blocks[to].Preds
	e := -1
	for i, p := range preds {
		if p.Index == from {
			e = i
			break
		}
	}
	var vals [8]Value
	tmp := vals[:0]
	n := 0
	for n < len(code) {
		if _, ok := code[n].i.(*ssa.Phi); !ok {
			break
		}
		tmp = append(tmp, fr.get(code[n].ops[e]))
		n++
	}
	for i := 0; i < n; i++ {
		fr.regs[code[i].res] = tmp[i]
	}
	fr.pc = n
}

func (m *Machine) doReturn(th *Thread, fr *Frame, v Value) {
	th.frames = th.frames[:len(th.frames)-1]
	m.finishReturn(th, fr, v)
}

func (m *Machine) finishReturn(th *Thread, fr *Frame, v Value) {
	if fr.onReturn != nil {
		fr.onReturn(v)
		return
	}
	if len(th.frames) == 0 {
		th.done = true
		return
	}
	caller := th.top()
	if fr.deferOf {
		if caller.panicking != nil {
			m.afterDefer(th, caller)
		}
		return // RunDefers re-executes
	}
	if fr.dst >= 0 {
		caller.regs[fr.dst] = v
	}
}

func (m *Machine) step(th *Thread) {
	fr := th.top()
	if fr.blk == -1 { // recovered, no named results: finish remaining defers and return zero
		if len(fr.defers) > 0 {
			d := fr.defers[len(fr.defers)-1]
			fr.defers = fr.defers[:len(fr.defers)-1]
			m.runDeferred(th, fr, d)
			return
		}
		res := fr.fi.fn.Signature.Results()
		var v Value
		if res.Len() == 1 {
			v = m.zero(res.At(0).Type())
		} else if res.Len() > 1 {
			v = m.zero(res)
		}
		m.doReturn(th, fr, v)
		return
	}
	m.steps++
	if m.steps > m.stepLimit {
		panic(pathEnd{kind: endSteps})
	}
	in := &fr.fi.blocks[fr.blk][fr.pc]
	switch x := in.i.(type) {
	case *ssa.Jump:
		m.jump(fr, x.Block().Succs[0].Index)
		return
	case *ssa.If:
		c := m.asTerm(fr.get(in.ops[0]))
		if c.isConst() {
			if c.val == 1 {
				m.jump(fr, x.Block().Succs[0].Index)
			} else {
				m.jump(fr, x.Block().Succs[1].Index)
			}
			return
		}
		if m.branch(c) {
			m.jump(fr, x.Block().Succs[0].Index)
		} else {
			m.jump(fr, x.Block().Succs[1].Index)
		}
		return
	case *ssa.Return:
		var v Value
		switch len(in.ops) {
		case 0:
		case 1:
			v = fr.get(in.ops[0])
		default:
			t := make(Tuple, len(in.ops))
			for i, o := range in.ops {
				t[i] = fr.get(o)
			}
			v = t
		}
		m.doReturn(th, fr, v)
		return
	case *ssa.BinOp:
		fr.regs[in.res] = m.binop(x.Op, x.X.Type(), x.Y.Type(), fr.get(in.ops[0]), fr.get(in.ops[1]))
	case *ssa.UnOp:
		if x.Op == token.ARROW {
			m.visRecv(th, fr, in, x)
			return
		}
		fr.regs[in.res] = m.unop(x, fr.get(in.ops[0]))
	case *ssa.Call:
		fr.pc++
		m.doCall(th, fr, &x.Call, in, in.res, x.Pos())
		return
	case *ssa.Phi:
		unsupported("phi executed")
	case *ssa.Alloc:
		fr.regs[in.res] = m.newObj(m.zero(x.Type().Underlying().(*types.Pointer).Elem()))
	case *ssa.FieldAddr:
		p := m.asPtr(fr.get(in.ops[0]))
		if p.a == nil {
			m.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
		}
		a, ok := p.a.e[p.i].(*Agg)
		if !ok {
			unsupported("FieldAddr on %T in %s", p.a.e[p.i], fr.fi.name)
		}
		fr.regs[in.res] = Ptr{a, x.Field}
	case *ssa.Field:
		a, ok := fr.get(in.ops[0]).(*Agg)
		if !ok {
			unsupported("Field on %T", fr.get(in.ops[0]))
		}
		fr.regs[in.res] = a.e[x.Field]
	case *ssa.Store:
		m.store(m.asPtr(fr.get(in.ops[0])), fr.get(in.ops[1]))
	case *ssa.IndexAddr:
		fr.regs[in.res] = m.indexAddr(x, fr.get(in.ops[0]), fr.get(in.ops[1]))
	case *ssa.Index:
		fr.regs[in.res] = m.index(x, fr.get(in.ops[0]), fr.get(in.ops[1]))
	case *ssa.Extract:
		t, ok := fr.get(in.ops[0]).(Tuple)
		if !ok {
			unsupported("extract from %T in %s", fr.get(in.ops[0]), fr.fi.name)
		}
		fr.regs[in.res] = t[x.Index]
	case *ssa.MakeInterface:
		v := fr.get(in.ops[0])
		fr.regs[in.res] = Iface{x.X.Type(), v}
	case *ssa.ChangeInterface:
		fr.regs[in.res] = fr.get(in.ops[0])
	case *ssa.ChangeType:
		fr.regs[in.res] = fr.get(in.ops[0])
	case *ssa.Convert:
		fr.regs[in.res] = m.convert(fr.get(in.ops[0]), x.X.Type(), x.Type())
	case *ssa.MultiConvert:
		fr.regs[in.res] = m.convert(fr.get(in.ops[0]), x.X.Type(), x.Type())
	case *ssa.SliceToArrayPointer:
		s := fr.get(in.ops[0]).(Slice)
		n := int(x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if s.len < n {
			m.goPanicStr("runtime error: cannot convert slice to array pointer: length mismatch")
		}
		if s.off == 0 && s.a != nil && len(s.a.e) == n {
			fr.regs[in.res] = Ptr{&Agg{e: []Value{s.a}}, 0}
		} else {
			unsupported("slice to array pointer with offset")
		}
	case *ssa.MakeClosure:
		f := &Func{fn: x.Fn.(*ssa.Function)}
		for _, o := range in.ops[1:] {
			f.free = append(f.free, fr.get(o))
		}
		fr.regs[in.res] = f
	case *ssa.MakeMap:
		fr.regs[in.res] = &Map{base: m.initMode}
	case *ssa.MakeChan:
		n := m.concInt(fr.get(in.ops[0]))
		m.nchan++
		fr.regs[in.res] = &Chan{cap: int(n), base: m.initMode, id: m.nchan}
	case *ssa.MakeSlice:
		n := int(m.concInt(fr.get(in.ops[0])))
		c := int(m.concInt(fr.get(in.ops[1])))
		if n < 0 || c < n || c > 1<<26 {
			m.goPanicStr("runtime error: makeslice: len out of range")
		}
		fr.regs[in.res] = m.makeSlice(x.Type().Underlying().(*types.Slice).Elem(), n, c)
	case *ssa.MapUpdate:
		mp, ok := fr.get(in.ops[0]).(*Map)
		if !ok {
			unsupported("map update on %T", fr.get(in.ops[0]))
		}
		if mp == nil {
			m.goPanicStr("assignment to entry in nil map")
		}
		if m.raceOn {
			m.raceMap(mp, true)
		}
		m.mapSet(mp, fr.get(in.ops[1]), fr.get(in.ops[2]))
	case *ssa.Lookup:
		fr.regs[in.res] = m.lookup(x, fr.get(in.ops[0]), fr.get(in.ops[1]))
	case *ssa.Range:
		switch v := fr.get(in.ops[0]).(type) {
		case Str:
			fr.regs[in.res] = &Iter{str: v, isS: true}
		case *Map:
			it := &Iter{m: v}
			if v != nil {
				if m.raceOn {
					m.raceMap(v, false)
				}
				it.ents = append(it.ents, v.ents...)
			}
			fr.regs[in.res] = it
		default:
			unsupported("range over %T", v)
		}
	case *ssa.Next:
		fr.regs[in.res] = m.next(x, fr.get(in.ops[0]).(*Iter))
	case *ssa.Slice:
		fr.regs[in.res] = m.sliceOp(x, fr, in)
	case *ssa.TypeAssert:
		fr.regs[in.res] = m.typeAssert(x, fr.get(in.ops[0]))
	case *ssa.Panic:
		v := fr.get(in.ops[0])
		if i, ok := v.(Iface); ok && i.t == nil {
			v = m.runtimeErr("panic called with nil argument (use GODEBUG=panicnil=1 to disable)")
		}
		panic(goPanic{v})
	case *ssa.Defer:
		d := deferred{call: &x.Call}
		m.prepCall(fr, &x.Call, in, &d)
		fr.defers = append(fr.defers, d)
	case *ssa.RunDefers:
		if len(fr.defers) > 0 {
			d := fr.defers[len(fr.defers)-1]
			fr.defers = fr.defers[:len(fr.defers)-1]
			m.runDeferred(th, fr, d)
			return
		}
	case *ssa.Go:
		d := deferred{call: &x.Call}
		m.prepCall(fr, &x.Call, in, &d)
		m.spawn(th, d, x.Pos())
	case *ssa.Send:
		m.visSend(th, fr, in)
		return
	case *ssa.Select:
		m.visSelect(th, fr, in, x)
		return
	default:
		unsupported("instruction %T", in.i)
	}
	fr.pc++
}

func (m *Machine) asTerm(v Value) *Term {
	t, ok := v.(*Term)
	if !ok {
		if p, isP := v.(Poison); isP {
			unsupported("poison: %s", p.why)
		}
		unsupported("scalar expected, got %T", v)
	}
	return t
}

func (m *Machine) asPtr(v Value) Ptr {
	p, ok := v.(Ptr)
	if !ok {
		if p, isP := v.(Poison); isP {
			unsupported("poison: %s", p.why)
		}
		unsupported("pointer expected, got %T", v)
	}
	return p
}

func (m *Machine) concInt(v Value) int64 {
	t := m.asTerm(v)
	return sext64(m.concretize(t), t.w)
}

func (m *Machine) makeSlice(elem types.Type, n, c int) Slice {
	a := &Agg{e: make([]Value, c), base: m.initMode}
	if c > 0 {
		z := m.zero(elem)
		if _, agg := z.(*Agg); agg {
			a.e[0] = z
			for i := 1; i < c; i++ {
				a.e[i] = m.zero(elem)
			}
		} else {
			for i := range a.e {
				a.e[i] = z
			}
		}
	}
	return Slice{a, 0, n, c}
}

// ------------------------------------------------------------------ operators

func (m *Machine) binop(op token.Token, tx, ty types.Type, a, b Value) Value {
	switch op {
	case token.EQL:
		return m.equal(a, b)
	case token.NEQ:
		return m.tc.Not(m.equal(a, b))
	}
	switch x := a.(type) {
	case *Term:
		y := m.asTerm(b)
		if x.w == 0 {
			switch op {
			case token.AND, token.LAND:
				return m.tc.And(x, y)
			case token.OR, token.LOR:
				return m.tc.Or(x, y)
			case token.XOR:
				return m.tc.Not(m.tc.Eq(x, y))
			}
			unsupported("bool op %v", op)
		}
		_, signed, _ := intWidth(tx)
		switch op {
		case token.ADD:
			return m.tc.Bin(OpAdd, x, y)
		case token.SUB:
			return m.tc.Bin(OpSub, x, y)
		case token.MUL:
			return m.tc.Bin(OpMul, x, y)
		case token.QUO, token.REM:
			if m.branch(m.tc.Eq(y, mkBV(0, y.w))) {
				m.goPanicStr("runtime error: integer divide by zero")
			}
			var o Op
			switch {
			case op == token.QUO && signed:
				o = OpSdiv
			case op == token.QUO:
				o = OpUdiv
			case signed:
				o = OpSrem
			default:
				o = OpUrem
			}
			return m.tc.Bin(o, x, y)
		case token.AND:
			return m.tc.Bin(OpAnd, x, y)
		case token.OR:
			return m.tc.Bin(OpOr, x, y)
		case token.XOR:
			return m.tc.Bin(OpXor, x, y)
		case token.AND_NOT:
			return m.tc.Bin(OpAnd, x, m.tc.BvNot(y))
		case token.SHL, token.SHR:
			_, ys, _ := intWidth(ty)
			if ys && m.branch(m.tc.Cmp(OpSlt, y, mkBV(0, y.w))) {
				m.goPanicStr("runtime error: negative shift amount")
			}
			// bring the count to the operand width, saturating
			if y.w > x.w {
				big := m.tc.Cmp(OpUle, mkBV(uint64(x.w), y.w), y)
				y = m.tc.Ite(big, mkBV(uint64(x.w), x.w), m.tc.Resize(y, x.w, false))
			} else {
				y = m.tc.Resize(y, x.w, false)
			}
			if op == token.SHL {
				return m.tc.Bin(OpShl, x, y)
			}
			if signed {
				return m.tc.Bin(OpAshr, x, y)
			}
			return m.tc.Bin(OpLshr, x, y)
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			if op == token.GTR || op == token.GEQ {
				x, y = y, x
			}
			strict := op == token.LSS || op == token.GTR
			switch {
			case signed && strict:
				return m.tc.Cmp(OpSlt, x, y)
			case signed:
				return m.tc.Cmp(OpSle, x, y)
			case strict:
				return m.tc.Cmp(OpUlt, x, y)
			default:
				return m.tc.Cmp(OpUle, x, y)
			}
		}
	case Str:
		y, ok := b.(Str)
		if !ok {
			unsupported("string op with %T", b)
		}
		switch op {
		case token.ADD:
			return x.concat(y)
		case token.LSS:
			return m.strLess(x, y)
		case token.GTR:
			return m.strLess(y, x)
		case token.LEQ:
			return m.tc.Not(m.strLess(y, x))
		case token.GEQ:
			return m.tc.Not(m.strLess(x, y))
		}
	case Float:
		y := b.(Float)
		r := func(f float64) Value {
			if x.w == 32 {
				return Float{float64(float32(f)), 32}
			}
			return Float{f, 64}
		}
		switch op {
		case token.ADD:
			return r(x.f + y.f)
		case token.SUB:
			return r(x.f - y.f)
		case token.MUL:
			return r(x.f * y.f)
		case token.QUO:
			return r(x.f / y.f)
		case token.LSS:
			return mkBool(x.f < y.f)
		case token.LEQ:
			return mkBool(x.f <= y.f)
		case token.GTR:
			return mkBool(x.f > y.f)
		case token.GEQ:
			return mkBool(x.f >= y.f)
		}
	case Poison:
		unsupported("poison: %s", x.why)
	}
	unsupported("binop %v on %T", op, a)
	return nil
}

func (m *Machine) unop(x *ssa.UnOp, v Value) Value {
	switch x.Op {
	case token.MUL:
		p, ok := v.(Ptr)
		if !ok {
			if sp, ok := v.(StrPtr); ok {
				return sp.s.at(0)
			}
			m.asPtr(v)
		}
		return m.load(p)
	case token.SUB:
		switch y := v.(type) {
		case *Term:
			return m.tc.BvNeg(y)
		case Float:
			return Float{-y.f, y.w}
		}
	case token.XOR:
		return m.tc.BvNot(m.asTerm(v))
	case token.NOT:
		return m.tc.Not(m.asTerm(v))
	}
	unsupported("unop %v on %T", x.Op, v)
	return nil
}

// boundsIndex checks 0<=i<n and returns a concrete index, or -1 with the symbolic term kept.
func (m *Machine) boundsIndex(iv Value, n int, it types.Type) (int, *Term) {
	t := m.asTerm(iv)
	_, signed, _ := intWidth(it)
	if t.isConst() {
		i := sext64(t.val, t.w)
		if !signed {
			if t.val > math.MaxInt32 {
				i = -1
			} else {
				i = int64(t.val)
			}
		}
		if i < 0 || i >= int64(n) {
			m.goPanicStr(fmt.Sprintf("runtime error: index out of range [%d] with length %d", i, n))
		}
		return int(i), nil
	}
	t64 := m.tc.Resize(t, 64, signed)
	in := m.tc.Cmp(OpUlt, t64, mkBV(uint64(n), 64))
	if !m.branch(in) {
		m.goPanicStr(fmt.Sprintf("runtime error: index out of range with length %d", n))
	}
	return -1, t64
}

func (m *Machine) indexAddr(x *ssa.IndexAddr, base, iv Value) Value {
	switch b := base.(type) {
	case Slice:
		i, t := m.boundsIndex(iv, b.len, x.Index.Type())
		if t != nil {
			i = int(m.concretize(t))
		}
		return Ptr{b.a, b.off + i}
	case Ptr:
		if b.a == nil {
			m.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
		}
		arr, ok := b.a.e[b.i].(*Agg)
		if !ok {
			unsupported("IndexAddr through %T", b.a.e[b.i])
		}
		i, t := m.boundsIndex(iv, len(arr.e), x.Index.Type())
		if t != nil {
			// read-only table lookups dominate: if every use is a load of scalars, build an ite
			if v, ok := m.symLoad(x, arr, 0, len(arr.e), t); ok {
				return v
			}
			i = int(m.concretize(t))
		}
		return Ptr{arr, i}
	}
	if p, ok := base.(Poison); ok {
		unsupported("poison: %s", p.why)
	}
	unsupported("IndexAddr on %T", base)
	return nil
}

// symLoad: IndexAddr whose only referrers are loads, over scalar elements.
func (m *Machine) symLoad(x *ssa.IndexAddr, arr *Agg, off, n int, t *Term) (Value, bool) {
	if n > 300 {
		return nil, false
	}
	for _, r := range *x.Referrers() {
		u, ok := r.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return nil, false
		}
	}
	v, ok := m.iteTable(func(i int) Value { return arr.e[off+i] }, n, t)
	if !ok {
		return nil, false
	}
	return Ptr{&Agg{e: []Value{v}}, 0}, true
}

func (m *Machine) iteTable(get func(int) Value, n int, t *Term) (*Term, bool) {
	var r *Term
	for i := n - 1; i >= 0; i-- {
		e, ok := get(i).(*Term)
		if !ok {
			return nil, false
		}
		if r == nil {
			r = e
		} else {
			r = m.tc.Ite(m.tc.Eq(t, mkBV(uint64(i), t.w)), e, r)
		}
	}
	return r, r != nil
}

func (m *Machine) index(x *ssa.Index, base, iv Value) Value {
	switch b := base.(type) {
	case *Agg:
		i, t := m.boundsIndex(iv, len(b.e), x.Index.Type())
		if t != nil {
			if v, ok := m.iteTable(func(i int) Value { return b.e[i] }, len(b.e), t); ok && len(b.e) <= 300 {
				return v
			}
			i = int(m.concretize(t))
		}
		return b.e[i]
	case Str:
		return m.strIndex(b, iv, x.Index.Type())
	}
	unsupported("Index on %T", base)
	return nil
}

func (m *Machine) strIndex(b Str, iv Value, it types.Type) Value {
	i, t := m.boundsIndex(iv, b.Len(), it)
	if t != nil {
		if b.Len() <= 300 {
			v, _ := m.iteTable(func(i int) Value { return b.at(i) }, b.Len(), t)
			return v
		}
		i = int(m.concretize(t))
	}
	return b.at(i)
}

func (m *Machine) lookup(x *ssa.Lookup, base, k Value) Value {
	switch b := base.(type) {
	case Str:
		return m.strIndex(b, k, x.Index.Type())
	case *Map:
		if m.raceOn && b != nil {
			m.raceMap(b, false)
		}
		e := m.mapFind(b, k)
		vt := x.X.Type().Underlying().(*types.Map).Elem()
		var v Value
		if e != nil {
			v = e.v
		} else {
			v = m.zero(vt)
		}
		if x.CommaOk {
			return Tuple{v, mkBool(e != nil)}
		}
		return v
	}
	if p, ok := base.(Poison); ok {
		unsupported("poison: %s", p.why)
	}
	unsupported("lookup on %T", base)
	return nil
}

func (m *Machine) next(x *ssa.Next, it *Iter) Value {
	if it.isS {
		if it.pos >= it.str.Len() {
			return Tuple{tFalse, mkBV(0, 64), mkBV(0, 32)}
		}
		p := it.pos
		r, sz := m.decodeRune(it.str.slice(p, it.str.Len()))
		it.pos += sz
		return Tuple{tTrue, mkBV(uint64(p), 64), r}
	}
	for it.pos < len(it.ents) {
		i := it.pos
		if m.mapOrder && len(it.ents)-it.pos > 1 && !m.isOrderFree(x) {
			// arbitrary iteration order: choose any remaining entry
			live := []int{}
			for j := it.pos; j < len(it.ents); j++ {
				if !it.ents[j].deleted {
					live = append(live, j)
				}
			}
			if len(live) > 1 && len(it.ents)-it.pos == len(it.ents) && len(live) > 3 {
				// more than 3 entries: creation order, reversed, or a rotation starting at the last entry
				it.ents = append([]*mapEnt{}, it.ents...)
				switch m.choose("maporder", 3) {
				case 1:
					for a, b := 0, len(it.ents)-1; a < b; a, b = a+1, b-1 {
						it.ents[a], it.ents[b] = it.ents[b], it.ents[a]
					}
				case 2:
					h := len(it.ents) / 2
					it.ents = append(append([]*mapEnt{}, it.ents[h:]...), it.ents[:h]...)
				}
				it.fixed = true
				i = it.pos
			} else if len(live) > 1 && !it.fixed {
				c := m.choose("maporder", len(live))
				i = live[c]
			} else if len(live) > 1 {
				i = live[0]
			} else if len(live) == 1 {
				i = live[0]
			}
			it.ents = append([]*mapEnt{}, it.ents...)
			it.ents[it.pos], it.ents[i] = it.ents[i], it.ents[it.pos]
			i = it.pos
		}
		e := it.ents[i]
		it.pos++
		if e.deleted {
			continue
		}
		return Tuple{tTrue, e.k, e.v}
	}
	mt := x.Iter.(*ssa.Range).X.Type().Underlying()
	if mm, ok := mt.(*types.Map); ok {
		return Tuple{tFalse, m.zero(mm.Key()), m.zero(mm.Elem())}
	}
	return Tuple{tFalse, nil, nil}
}

// decodeRune is utf8.DecodeRuneInString with branching on symbolic bytes.
func (m *Machine) decodeRune(s Str) (*Term, int) {
	n := s.Len()
	if n == 0 {
		return mkBV(0xFFFD, 32), 0
	}
	tc := m.tc
	b0 := s.at(0)
	lt := func(t *Term, v uint64) bool { return m.branch(tc.Cmp(OpUlt, t, mkBV(v, 8))) }
	if lt(b0, 0x80) {
		return tc.Resize(b0, 32, false), 1
	}
	bad := mkBV(0xFFFD, 32)
	if lt(b0, 0xC2) || !lt(b0, 0xF5) {
		return bad, 1
	}
	z := func(t *Term, mk uint64, sh uint64) *Term {
		return tc.Bin(OpShl, tc.Bin(OpAnd, tc.Resize(t, 32, false), mkBV(mk, 32)), mkBV(sh, 32))
	}
	cont := func(t *Term, lo, hi uint64) bool {
		return m.branch(tc.And(tc.Cmp(OpUle, mkBV(lo, 8), t), tc.Cmp(OpUle, t, mkBV(hi, 8))))
	}
	if n < 2 {
		return bad, 1
	}
	b1 := s.at(1)
	if lt(b0, 0xE0) {
		if !cont(b1, 0x80, 0xBF) {
			return bad, 1
		}
		return tc.Bin(OpOr, z(b0, 0x1F, 6), z(b1, 0x3F, 0)), 2
	}
	lo, hi := uint64(0x80), uint64(0xBF)
	eq := func(v uint64) bool { return m.branch(tc.Eq(b0, mkBV(v, 8))) }
	if lt(b0, 0xF0) {
		if eq(0xE0) {
			lo = 0xA0
		} else if eq(0xED) {
			hi = 0x9F
		}
		if !cont(b1, lo, hi) || n < 3 {
			return bad, 1
		}
		b2 := s.at(2)
		if !cont(b2, 0x80, 0xBF) {
			return bad, 1
		}
		return tc.Bin(OpOr, tc.Bin(OpOr, z(b0, 0x0F, 12), z(b1, 0x3F, 6)), z(b2, 0x3F, 0)), 3
	}
	if eq(0xF0) {
		lo = 0x90
	} else if eq(0xF4) {
		hi = 0x8F
	}
	if !cont(b1, lo, hi) || n < 3 {
		return bad, 1
	}
	b2 := s.at(2)
	if !cont(b2, 0x80, 0xBF) || n < 4 {
		return bad, 1
	}
	b3 := s.at(3)
	if !cont(b3, 0x80, 0xBF) {
		return bad, 1
	}
	return tc.Bin(OpOr, tc.Bin(OpOr, z(b0, 0x07, 18), z(b1, 0x3F, 12)), tc.Bin(OpOr, z(b2, 0x3F, 6), z(b3, 0x3F, 0))), 4
}

func (m *Machine) encodeRune(r *Term) Str {
	tc := m.tc
	if r.isConst() {
		return Str{c: string(rune(int32(r.val)))}
	}
	b := func(sh uint64, mk, or uint64) *Term {
		return tc.Resize(tc.Bin(OpOr, tc.Bin(OpAnd, tc.Bin(OpLshr, r, mkBV(sh, 32)), mkBV(mk, 32)), mkBV(or, 32)), 8, false)
	}
	if m.branch(tc.Cmp(OpUlt, r, mkBV(0x80, 32))) {
		return mkStr([]*Term{tc.Resize(r, 8, false)})
	}
	if m.branch(tc.Cmp(OpUlt, r, mkBV(0x800, 32))) {
		return mkStr([]*Term{b(6, 0x1F, 0xC0), b(0, 0x3F, 0x80)})
	}
	if m.branch(tc.Or(tc.Cmp(OpUlt, mkBV(0x10FFFF, 32), r), tc.And(tc.Cmp(OpUle, mkBV(0xD800, 32), r), tc.Cmp(OpUle, r, mkBV(0xDFFF, 32))))) {
		return Str{c: "\uFFFD"}
	}
	if m.branch(tc.Cmp(OpUlt, r, mkBV(0x10000, 32))) {
		return mkStr([]*Term{b(12, 0x0F, 0xE0), b(6, 0x3F, 0x80), b(0, 0x3F, 0x80)})
	}
	return mkStr([]*Term{b(18, 0x07, 0xF0), b(12, 0x3F, 0x80), b(6, 0x3F, 0x80), b(0, 0x3F, 0x80)})
}

func (m *Machine) bytesOf(s Slice) Str {
	ts := make([]*Term, s.len)
	for i := 0; i < s.len; i++ {
		if m.raceOn {
			m.raceRead(Ptr{s.a, s.off + i})
		}
		ts[i] = m.asTerm(s.a.e[s.off+i])
	}
	if len(ts) == 0 {
		return Str{}
	}
	return mkStr(ts)
}

func (m *Machine) bytesSlice(s Str) Slice {
	n := s.Len()
	a := &Agg{e: make([]Value, n), base: m.initMode}
	for i := 0; i < n; i++ {
		a.e[i] = s.at(i)
	}
	return Slice{a, 0, n, n}
}

func (m *Machine) convert(v Value, from, to types.Type) Value {
	fu, tu := from.Underlying(), to.Underlying()
	if p, ok := v.(Poison); ok {
		unsupported("poison: %s", p.why)
	}
	switch t := tu.(type) {
	case *types.Basic:
		if t.Kind() == types.UnsafePointer {
			return v
		}
		if t.Info()&types.IsString != 0 {
			switch x := v.(type) {
			case Str:
				return x
			case *Term:
				_, sg, _ := intWidth(fu)
				r := m.tc.Resize(x, 32, sg)
				if x.w == 64 && x.isConst() && (x.val > 0x10FFFF) {
					r = mkBV(0xFFFD, 32)
				}
				return m.encodeRune(r)
			case Slice:
				el := fu.(*types.Slice).Elem().Underlying().(*types.Basic)
				if el.Kind() == types.Uint8 {
					return m.bytesOf(x)
				}
				r := Str{}
				for i := 0; i < x.len; i++ {
					r = r.concat(m.encodeRune(m.asTerm(x.a.e[x.off+i])))
				}
				return r
			}
		}
		if t.Info()&types.IsInteger != 0 {
			w, _, _ := intWidth(t)
			switch x := v.(type) {
			case *Term:
				_, sg, _ := intWidth(fu)
				return m.tc.Resize(x, w, sg)
			case Float:
				if t.Info()&types.IsUnsigned != 0 {
					return mkBV(uint64(x.f), w)
				}
				return mkBV(uint64(int64(x.f)), w)
			case Ptr:
				if x.a == nil {
					return mkBV(0, w)
				}
				return mkBV(m.addrOf(x), w)
			}
		}
		if t.Info()&types.IsFloat != 0 {
			w := uint8(64)
			if t.Kind() == types.Float32 {
				w = 32
			}
			switch x := v.(type) {
			case Float:
				if w == 32 {
					return Float{float64(float32(x.f)), 32}
				}
				return Float{x.f, 64}
			case *Term:
				_, sg, _ := intWidth(fu)
				c := m.concretize(x)
				if sg {
					return Float{float64(sext64(c, x.w)), w}
				}
				return Float{float64(c), w}
			}
		}
		if t.Info()&types.IsComplex != 0 {
			return v
		}
	case *types.Slice:
		if s, ok := v.(Str); ok {
			if t.Elem().Underlying().(*types.Basic).Kind() == types.Uint8 {
				return m.bytesSlice(s)
			}
			var rs []Value
			for p := 0; p < s.Len(); {
				r, sz := m.decodeRune(s.slice(p, s.Len()))
				rs = append(rs, r)
				p += sz
			}
			return Slice{&Agg{e: rs, base: m.initMode}, 0, len(rs), len(rs)}
		}
		return v
	case *types.Pointer:
		return v // from unsafe.Pointer
	default:
		return v
	}
	unsupported("convert %v -> %v (%T)", from, to, v)
	return nil
}

func (m *Machine) addrOf(p Ptr) uint64 {
	k := p
	if a, ok := m.addrs[k]; ok {
		return a
	}
	a := uint64(0xc000000000 + 64*(len(m.addrs)+1))
	m.addrs[k] = a
	return a
}

func (m *Machine) sliceOp(x *ssa.Slice, fr *Frame, in *inst) Value {
	base := fr.get(in.ops[0])
	getI := func(k int) (int, bool) {
		if in.ops[k].k == 2 {
			return 0, false
		}
		return int(m.concInt(fr.get(in.ops[k]))), true
	}
	lo, _ := getI(1)
	hi, hasHi := getI(2)
	mx, hasMx := getI(3)
	oob := func() {
		m.goPanicStr(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d]", lo, hi))
	}
	switch b := base.(type) {
	case Str:
		if !hasHi {
			hi = b.Len()
		}
		if lo < 0 || hi < lo || hi > b.Len() {
			oob()
		}
		return b.slice(lo, hi)
	case Slice:
		if !hasHi {
			hi = b.len
		}
		if !hasMx {
			mx = b.cap
		}
		if lo < 0 || hi < lo || mx < hi || mx > b.cap {
			oob()
		}
		if b.a == nil {
			return Slice{}
		}
		return Slice{b.a, b.off + lo, hi - lo, mx - lo}
	case Ptr:
		if b.a == nil {
			m.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
		}
		arr, ok := b.a.e[b.i].(*Agg)
		if !ok {
			unsupported("slice of %T", b.a.e[b.i])
		}
		if !hasHi {
			hi = len(arr.e)
		}
		if !hasMx {
			mx = len(arr.e)
		}
		if lo < 0 || hi < lo || mx < hi || mx > len(arr.e) {
			oob()
		}
		return Slice{arr, lo, hi - lo, mx - lo}
	}
	if p, ok := base.(Poison); ok {
		unsupported("poison: %s", p.why)
	}
	unsupported("slice of %T", base)
	return nil
}

func (m *Machine) identical(a, b types.Type) bool {
	if a == b {
		return true
	}
	return m.typeID(a) == m.typeID(b)
}

func (m *Machine) typeID(t types.Type) string {
	if id, ok := m.typeIDs[t]; ok {
		return id
	}
	id := m.eng.canonType(t)
	m.typeIDs[t] = id
	return id
}

func (m *Machine) implements(t types.Type, it *types.Interface) bool {
	k := implKey{t, it}
	if r, ok := m.implCache[k]; ok {
		return r
	}
	m.eng.mu.Lock()
	r := types.Implements(t, it)
	m.eng.mu.Unlock()
	m.implCache[k] = r
	return r
}

type implKey struct {
	t  types.Type
	it *types.Interface
}

func (m *Machine) typeAssert(x *ssa.TypeAssert, v Value) Value {
	i, ok := v.(Iface)
	if !ok {
		if p, isP := v.(Poison); isP {
			unsupported("poison: %s", p.why)
		}
		unsupported("type assert on %T", v)
	}
	good := false
	var res Value
	if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
		if i.t != nil && m.implements(i.t, it) {
			good = true
			res = i
		}
	} else if i.t != nil && m.identical(i.t, x.AssertedType) {
		good = true
		res = i.v
	}
	if !good {
		if x.CommaOk {
			return Tuple{m.zero(x.AssertedType), tFalse}
		}
		dyn := "nil"
		if i.t != nil {
			dyn = i.t.String()
		}
		m.goPanicStr("interface conversion: interface is " + dyn + ", not " + x.AssertedType.String())
	}
	if x.CommaOk {
		return Tuple{res, tTrue}
	}
	return res
}

// ------------------------------------------------------------------ calls

func (m *Machine) prepCall(fr *Frame, c *ssa.CallCommon, in *inst, d *deferred) {
	if c.IsInvoke() {
		d.inv = c.Method
		for _, o := range in.ops[:1+len(c.Args)] {
			d.args = append(d.args, fr.get(o))
		}
		if i, ok := d.args[0].(Iface); ok && i.t == nil {
			m.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
		}
		return
	}
	d.fn = fr.get(in.ops[0])
	for _, o := range in.ops[1 : 1+len(c.Args)] {
		d.args = append(d.args, fr.get(o))
	}
}

func (m *Machine) doCall(th *Thread, fr *Frame, c *ssa.CallCommon, in *inst, dst int32, pos token.Pos) {
	args := make([]Value, 0, len(in.ops))
	if c.IsInvoke() {
		recv := fr.get(in.ops[0])
		for _, o := range in.ops[1:] {
			args = append(args, fr.get(o))
		}
		m.invokeMethod(th, recv, c.Method, args, dst, pos)
		return
	}
	for _, o := range in.ops[1:] {
		args = append(args, fr.get(o))
	}
	m.callValue(th, fr.get(in.ops[0]), args, dst, pos, c)
}

func (m *Machine) invokeMethod(th *Thread, recv Value, meth *types.Func, args []Value, dst int32, pos token.Pos) {
	i, ok := recv.(Iface)
	if !ok {
		if p, isP := recv.(Poison); isP {
			unsupported("poison: %s", p.why)
		}
		unsupported("invoke on %T", recv)
	}
	if i.t == nil {
		m.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
	}
	fn := m.lookupMethod(i.t, meth)
	m.callFn(th, fn, nil, append([]Value{i.v}, args...), dst, pos)
}

type methKey struct {
	t types.Type
	m *types.Func
}

func (m *Machine) lookupMethod(t types.Type, meth *types.Func) *ssa.Function {
	k := methKey{t, meth}
	if f, ok := m.methCache[k]; ok {
		return f
	}
	m.eng.mu.Lock()
	f := m.eng.prog.LookupMethod(t, meth.Pkg(), meth.Name())
	m.eng.mu.Unlock()
	if f == nil {
		unsupported("no method %s on %s", meth.Name(), t)
	}
	m.methCache[k] = f
	return f
}

func (m *Machine) callValue(th *Thread, f Value, args []Value, dst int32, pos token.Pos, c *ssa.CallCommon) {
	fv, ok := f.(*Func)
	if !ok {
		if p, isP := f.(Poison); isP {
			unsupported("poison: %s", p.why)
		}
		unsupported("call of %T", f)
	}
	if fv == nil {
		m.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
	}
	if fv.builtin != nil {
		v := m.builtin(th, fv.builtin, args, c)
		if dst >= 0 {
			th.top().regs[dst] = v
		}
		return
	}
	if fv.native != nil {
		v := fv.native(m, th, args)
		if dst >= 0 {
			th.top().regs[dst] = v
		}
		return
	}
	m.callFn(th, fv.fn, fv.free, args, dst, pos)
}

func (m *Machine) callFn(th *Thread, fn *ssa.Function, free, args []Value, dst int32, pos token.Pos) {
	fi := m.info(fn)
	if fi.intr != nil {
		m.intrDst = dst
		m.intrPos = pos
		v := fi.intr(m, th, args)
		if _, no := v.(decline); !no {
			if th.pend != nil {
				return
			}
			if dst >= 0 && !m.intrTail {
				th.top().regs[dst] = v
			}
			m.intrTail = false
			return
		}
	}
	if fi.isInit {
		p := fi.fn.Pkg.Pkg.Path()
		if m.initDone[p] || m.eng.skipInit(p) {
			return
		}
		m.initDone[p] = true
	}
	if len(fi.blocks) == 0 {
		unsupported("no body for %s", fi.name)
	}
	if len(args) != len(fi.params) {
		unsupported("argument count for %s", fi.name)
	}
	if fi.isRepo && !m.initMode {
		m.cover[fi.name]++
	}
	fr := &Frame{fi: fi, regs: make([]Value, fi.nregs), dst: dst, callPos: pos}
	for i, r := range fi.params {
		fr.regs[r] = args[i]
	}
	for i, r := range fi.free {
		fr.regs[r] = free[i]
	}
	if len(th.frames) > 2000 {
		m.goPanicStr("runtime error: stack overflow (engine depth limit)")
	}
	th.frames = append(th.frames, fr)
}

func (m *Machine) builtin(th *Thread, b *ssa.Builtin, args []Value, c *ssa.CallCommon) Value {
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case Str:
			return mkBV(uint64(x.Len()), 64)
		case Slice:
			return mkBV(uint64(x.len), 64)
		case *Map:
			if x == nil {
				return mkBV(0, 64)
			}
			if m.raceOn {
				m.raceMap(x, false)
			}
			return mkBV(uint64(x.n), 64)
		case *Chan:
			if x == nil {
				return mkBV(0, 64)
			}
			return mkBV(uint64(len(x.buf)), 64)
		case *Agg:
			return mkBV(uint64(len(x.e)), 64)
		case Ptr:
			return mkBV(uint64(len(x.a.e[x.i].(*Agg).e)), 64)
		case Poison:
			unsupported("poison: %s", x.why)
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return mkBV(uint64(x.cap), 64)
		case *Chan:
			if x == nil {
				return mkBV(0, 64)
			}
			return mkBV(uint64(x.cap), 64)
		case *Agg:
			return mkBV(uint64(len(x.e)), 64)
		}
	case "append":
		s, ok := args[0].(Slice)
		if !ok {
			unsupported("append to %T", args[0])
		}
		var add []Value
		switch y := args[1].(type) {
		case Slice:
			for i := 0; i < y.len; i++ {
				if m.raceOn {
					m.raceRead(Ptr{y.a, y.off + i})
				}
				add = append(add, y.a.e[y.off+i])
			}
		case Str:
			for i := 0; i < y.Len(); i++ {
				add = append(add, y.at(i))
			}
		default:
			unsupported("append of %T", args[1])
		}
		if len(add) == 0 {
			return s
		}
		if s.len+len(add) <= s.cap {
			for i, v := range add {
				m.store(Ptr{s.a, s.off + s.len + i}, v)
			}
			return Slice{s.a, s.off, s.len + len(add), s.cap}
		}
		nc := s.cap * 2
		if nc < s.len+len(add) {
			nc = s.len + len(add)
		}
		if nc < 4 {
			nc = 4
		}
		et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		ns := m.makeSlice(et, s.len+len(add), nc)
		for i := 0; i < s.len; i++ {
			v := s.a.e[s.off+i]
			if a, ok := v.(*Agg); ok {
				v = copyAgg(a, m.initMode)
			}
			ns.a.e[i] = v
		}
		for i, v := range add {
			if a, ok := v.(*Agg); ok {
				v = copyAgg(a, m.initMode)
			}
			ns.a.e[s.len+i] = v
		}
		return ns
	case "copy":
		d := args[0].(Slice)
		var src []Value
		switch y := args[1].(type) {
		case Slice:
			n := y.len
			if d.len < n {
				n = d.len
			}
			for i := 0; i < n; i++ {
				if m.raceOn {
					m.raceRead(Ptr{y.a, y.off + i})
				}
				src = append(src, y.a.e[y.off+i])
			}
		case Str:
			n := y.Len()
			if d.len < n {
				n = d.len
			}
			for i := 0; i < n; i++ {
				src = append(src, y.at(i))
			}
		}
		for i, v := range src {
			m.store(Ptr{d.a, d.off + i}, v)
		}
		return mkBV(uint64(len(src)), 64)
	case "delete":
		mp := args[0].(*Map)
		if m.raceOn && mp != nil {
			m.raceMap(mp, true)
		}
		m.mapDelete(mp, args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			if x != nil {
				m.mapTouch(x)
				for _, e := range x.ents {
					e.deleted = true
				}
				x.ents, x.idx, x.n, x.nsym = nil, nil, 0, 0
			}
		case Slice:
			et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
			for i := 0; i < x.len; i++ {
				m.store(Ptr{x.a, x.off + i}, m.zero(et))
			}
		}
		return nil
	case "close":
		m.chanClose(th, args[0])
		return nil
	case "panic":
		panic(goPanic{args[0]})
	case "recover":
		// valid only in a function called directly by a deferred call of a panicking frame
		n := len(th.frames)
		if n >= 2 && th.frames[n-1].deferOf {
			below := th.frames[n-2]
			if below.panicking != nil && !below.panicking.recovered {
				below.panicking.recovered = true
				return below.panicking.val
			}
		}
		return Iface{}
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			var lt *Term
			switch x := a.(type) {
			case *Term:
				_, sg, _ := intWidth(c.Args[0].Type())
				op := OpUlt
				if sg {
					op = OpSlt
				}
				if b.Name() == "min" {
					lt = m.tc.Cmp(op, x, r.(*Term))
				} else {
					lt = m.tc.Cmp(op, r.(*Term), x)
				}
				r = m.tc.Ite(lt, x, r.(*Term))
			case Float:
				y := r.(Float)
				if b.Name() == "min" && x.f < y.f || b.Name() == "max" && x.f > y.f {
					r = x
				}
			default:
				unsupported("min/max on %T", a)
			}
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p.a == nil {
			m.goPanicStr("value method called using nil pointer")
		}
		return args[0]
	case "ssa:deferstack":
		return Ptr{}
	case "String": // unsafe.String
		n := int(m.concInt(args[1]))
		switch p := args[0].(type) {
		case StrPtr:
			return p.s.slice(0, n)
		case Ptr:
			if n == 0 {
				return Str{}
			}
			return m.bytesOf(Slice{p.a, p.i, n, n})
		}
	case "StringData":
		return StrPtr{args[0].(Str)}
	case "SliceData":
		s := args[0].(Slice)
		if s.a == nil {
			return Ptr{}
		}
		return Ptr{s.a, s.off}
	case "Slice": // unsafe.Slice
		n := int(m.concInt(args[1]))
		switch p := args[0].(type) {
		case Ptr:
			return Slice{p.a, p.i, n, n}
		case StrPtr:
			return m.bytesSlice(p.s.slice(0, n))
		}
	}
	if b.Name() == "Sizeof" {
		if sz := types.SizesFor("gc", "amd64").Sizeof(c.Args[0].Type()); sz >= 0 {
			return mkBV(uint64(sz), 64)
		}
	}
	unsupported("builtin %s on %T", b.Name(), args)
	return nil
}

var _ = typeutil.Hasher{}
