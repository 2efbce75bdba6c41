package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type undoRec struct {
	a   *Agg
	i   int
	old Value
}

type intrinsic func(m *Machine, th *Thread, args []Value) Value

type decKind uint8

const (
	dBranch decKind = iota
	dConc
	dSched
	dChoose
)

type decision struct {
	kind   decKind
	val    uint64
	excl   []uint64
	open   bool // concretisation still to be picked among the non-excluded values
	forced bool // the other side was infeasible: no constraint needed
	tr     transKey
	sleep  []sleepEnt
}

type node struct {
	parent *node
	d      decision
	depth  int
}

func (n *node) path() []decision {
	if n == nil {
		return nil
	}
	r := make([]decision, n.depth)
	for x := n; x != nil; x = x.parent {
		r[x.depth-1] = x.d
	}
	return r
}

func child(p *node, d decision) *node {
	dep := 1
	if p != nil {
		dep = p.depth + 1
	}
	return &node{p, d, dep}
}

type job struct {
	n     *node
	model Model
}

type endKind uint8

const (
	endOK endKind = iota
	endAssume
	endSleep
	endSteps
	endViolation
	endUnsupported
	endStop
)

type pathEnd struct{ kind endKind }

type varInfo struct {
	name string
	t    *Term
}

type obsRec struct {
	label string
	vals  []Value
}

// Machine executes paths; one per worker.
type Machine struct {
	eng *Engine
	tc  *TermCtx
	sol *Solver

	fns     map[*ssa.Function]*FnInfo
	fvals   map[*ssa.Function]*Func
	globals map[*ssa.Global]*Agg

	initMode  bool
	initDone  map[string]bool
	undo      []undoRec
	undoFns   []func()
	pathEpoch int32

	steps, stepLimit int64
	raceOn           bool
	mapOrder         bool
	orderFree        map[*ssa.Next]bool
	traceOn          bool
	cur              *Thread
	nchan            int
	addrs            map[Ptr]uint64
	typeIDs          map[types.Type]string
	implCache        map[implKey]bool
	methCache        map[methKey]*ssa.Function
	cover            map[string]int
	intrDst          int32
	intrPos          token.Pos
	intrTail         bool

	baseThreads []*Thread

	// path state
	threads   []*Thread
	prefix    []decision
	pos       int
	node      *node
	model     Model
	known     map[*Term]bool
	vars      []varInfo
	varOcc    map[string]int
	obs       []obsRec
	sched     []schedRec
	sleep     []sleepEnt
	objIDs    map[interface{}]int
	locks     map[Ptr]*lockState
	wgs       map[Ptr]*wgState
	pools     map[Ptr]*poolState
	conds     map[Ptr]*condState
	atomVC    map[Ptr][]int32
	mainDone  bool
	vio       *Violation
	lastSched int
	faults    int
	pcs       []FuncPC
	syncObjs  map[string]*int
	pathLabs  map[string]bool
	trailHash uint64
}

func newMachine(e *Engine) *Machine {
	return &Machine{
		eng: e, tc: newTermCtx(),
		fns: map[*ssa.Function]*FnInfo{}, fvals: map[*ssa.Function]*Func{}, globals: map[*ssa.Global]*Agg{},
		initDone: map[string]bool{}, addrs: map[Ptr]uint64{}, typeIDs: map[types.Type]string{},
		implCache: map[implKey]bool{}, methCache: map[methKey]*ssa.Function{}, cover: map[string]int{},
		stepLimit: 1 << 40,
	}
}

// ------------------------------------------------------------------ decisions

func (m *Machine) take(d decision) {
	m.node = child(m.node, d)
	m.pos++
}

func (m *Machine) replaying() bool { return m.pos < len(m.prefix) }

func (m *Machine) nextPrefix(k decKind) decision {
	d := m.prefix[m.pos]
	if d.kind != k {
		panic(engineErr{fmt.Sprintf("nondeterministic re-execution: decision %d is kind %d, wanted %d", m.pos, d.kind, k)})
	}
	return d
}

func (m *Machine) constrain(c *Term) {
	if c.isTrue() {
		return
	}
	m.known[c] = true
	m.known[m.tc.Not(c)] = false
	m.sol.assert(c)
}

func (m *Machine) ensureModel() Model {
	if m.model == nil {
		r, mdl := m.sol.check(nil)
		if r == resUnsat {
			panic(pathEnd{endAssume})
		}
		if r == resUnknown {
			m.eng.noteUnknown()
			panic(pathEnd{endUnsupported})
		}
		m.model = mdl
	}
	return m.model
}

func (m *Machine) checkStop() {
	if m.eng.stopped() {
		panic(pathEnd{endStop})
	}
}

// branch decides a boolean condition, forking when both outcomes are feasible.
func (m *Machine) branch(c *Term) bool {
	if c.isConst() {
		return c.val == 1
	}
	if m.initMode {
		unsupported("symbolic branch during init")
	}
	if v, ok := m.known[c]; ok {
		return v
	}
	if m.replaying() {
		d := m.nextPrefix(dBranch)
		m.take(d)
		v := d.val == 1
		if d.forced {
			m.known[c] = v
			m.known[m.tc.Not(c)] = !v
		} else if v {
			m.constrain(c)
		} else {
			m.constrain(m.tc.Not(c))
		}
		return v
	}
	m.checkStop()
	mdl := m.ensureModel()
	v := m.tc.Eval(c, mdl) == 1
	yes, no := c, m.tc.Not(c)
	if !v {
		yes, no = no, yes
	}
	r, om := m.sol.check(no)
	d := decision{kind: dBranch, val: b2u(v)}
	switch r {
	case resSat:
		m.eng.push(job{child(m.node, decision{kind: dBranch, val: b2u(!v)}), om})
	case resUnsat:
		d.forced = true
	case resUnknown:
		m.eng.noteUnknown()
	}
	m.take(d)
	if d.forced {
		m.known[c] = v
		m.known[m.tc.Not(c)] = !v
	} else {
		m.constrain(yes)
	}
	return v
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (m *Machine) concretize(t *Term) uint64 {
	if t.isConst() {
		return t.val
	}
	if t.w == 0 {
		return b2u(m.branch(t))
	}
	if m.initMode {
		unsupported("symbolic value during init")
	}
	if m.replaying() {
		d := m.nextPrefix(dConc)
		if !d.open {
			m.take(d)
			if !d.forced {
				m.constrain(m.tc.Eq(t, mkBV(d.val, t.w)))
			}
			return d.val
		}
		m.pos++ // consumed; the value is picked below
		for _, x := range d.excl {
			m.constrain(m.tc.Not(m.tc.Eq(t, mkBV(x, t.w))))
		}
		return m.pick(t, d.excl)
	}
	m.pos++
	return m.pick(t, nil)
}

func (m *Machine) pick(t *Term, excl []uint64) uint64 {
	m.checkStop()
	mdl := m.ensureModel()
	v := m.tc.Eval(t, mdl)
	eq := m.tc.Eq(t, mkBV(v, t.w))
	r, om := m.sol.check(m.tc.Not(eq))
	forced := false
	switch r {
	case resSat:
		if len(excl) > 5000 {
			unsupported("too many values in concretisation")
		}
		ex := append(append([]uint64{}, excl...), v)
		m.eng.push(job{child(m.node, decision{kind: dConc, open: true, excl: ex}), om})
	case resUnsat:
		forced = len(excl) == 0
	case resUnknown:
		m.eng.noteUnknown()
	}
	m.node = child(m.node, decision{kind: dConc, val: v, forced: forced})
	m.constrain(eq)
	return v
}

// choose is an unconstrained n-way choice (no solver variable): map order and the like.
func (m *Machine) choose(label string, n int) int {
	if n <= 1 {
		return 0
	}
	if m.replaying() {
		d := m.nextPrefix(dChoose)
		m.take(d)
		return int(d.val)
	}
	m.checkStop()
	for i := n - 1; i > 0; i-- {
		m.eng.push(job{child(m.node, decision{kind: dChoose, val: uint64(i)}), m.model})
	}
	m.take(decision{kind: dChoose})
	return 0
}

func (m *Machine) assume(c *Term) {
	if c.isConst() {
		if c.val == 0 {
			panic(pathEnd{endAssume})
		}
		return
	}
	if v, ok := m.known[c]; ok {
		if !v {
			panic(pathEnd{endAssume})
		}
		return
	}
	m.constrain(c)
	if m.replaying() {
		return
	}
	if m.model != nil && m.tc.Eval(c, m.model) == 1 {
		return
	}
	m.model = nil
	m.ensureModel()
}

func (m *Machine) newVar(name string, w uint8) *Term {
	k := m.varOcc[name]
	m.varOcc[name] = k + 1
	full := fmt.Sprintf("%s#%d", name, k)
	t := m.tc.Var(full, w)
	m.vars = append(m.vars, varInfo{full, t})
	return t
}

// ------------------------------------------------------------------ violations

type Violation struct {
	Kind   string            `json:"kind"`
	Label  string            `json:"label"`
	Msg    string            `json:"message"`
	Where  string            `json:"where"`
	Inputs map[string]uint64 `json:"inputs"`
	Sched  []schedRec        `json:"schedule,omitempty"`
	Steps  int64             `json:"steps"`
	Obs    []string          `json:"observations"`
	multi  bool
}

func (m *Machine) violation(kind, msg, label string) {
	v := &Violation{Kind: kind, Msg: msg, Label: label, Steps: m.steps}
	if m.cur != nil {
		v.Where = m.where(m.cur)
	}
	mdl := m.ensureModel()
	v.Inputs = m.inputs(mdl)
	v.Sched = append([]schedRec{}, m.sched...)
	v.Obs = m.obsText(mdl)
	v.multi = m.eng.multi(m)
	m.vio = v
	panic(pathEnd{endViolation})
}

func (m *Machine) inputs(mdl Model) map[string]uint64 {
	r := map[string]uint64{}
	for _, x := range m.vars {
		r[x.name] = mdl[x.name]
	}
	return r
}

func (m *Machine) obsText(mdl Model) []string {
	var out []string
	for _, o := range m.obs {
		var sb strings.Builder
		sb.WriteString(o.label)
		for _, v := range o.vals {
			sb.WriteByte(' ')
			sb.WriteString(m.render(v, mdl))
		}
		out = append(out, sb.String())
	}
	return out
}

// render prints an observed value exactly like the native vrt.Observe does.
func (m *Machine) render(v Value, mdl Model) string {
	i, ok := v.(Iface)
	if !ok {
		return "?"
	}
	if i.t == nil {
		return "<nil>"
	}
	ev := func(t *Term) uint64 { return m.tc.Eval(t, mdl) }
	bs := func(s Str) string {
		b := make([]byte, s.Len())
		for k := range b {
			b[k] = byte(ev(s.at(k)))
		}
		return fmt.Sprintf("%q", string(b))
	}
	switch x := i.v.(type) {
	case *Term:
		if x.w == 0 {
			return fmt.Sprint(ev(x) == 1)
		}
		_, sg, _ := intWidth(i.t)
		if sg {
			return fmt.Sprint(sext64(ev(x), x.w))
		}
		return fmt.Sprint(ev(x))
	case Str:
		return bs(x)
	case Slice:
		if el, ok := i.t.Underlying().(*types.Slice); ok {
			if b, ok := el.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				return bs(m.bytesOf(x))
			}
			if b, ok := el.Elem().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				var p []string
				for k := 0; k < x.len; k++ {
					p = append(p, bs(x.a.e[x.off+k].(Str)))
				}
				return "[" + strings.Join(p, " ") + "]"
			}
		}
	}
	return "?"
}

// ------------------------------------------------------------------ path execution

func (m *Machine) cloneThread(t *Thread) *Thread {
	n := &Thread{id: t.id, name: t.name, daemon: true, occ: map[string]int{}}
	n.vc = append([]int32{}, t.vc...)
	for _, f := range t.frames {
		c := *f
		c.regs = append([]Value{}, f.regs...)
		c.defers = append([]deferred{}, f.defers...)
		n.frames = append(n.frames, &c)
	}
	if t.pend != nil {
		p := *t.pend
		n.pend = &p
	}
	return n
}

func (m *Machine) resetPath() {
	for i := len(m.undo) - 1; i >= 0; i-- {
		u := m.undo[i]
		u.a.e[u.i] = u.old
	}
	m.undo = m.undo[:0]
	for i := len(m.undoFns) - 1; i >= 0; i-- {
		m.undoFns[i]()
	}
	m.undoFns = m.undoFns[:0]
	m.pathEpoch++
	m.tc = newTermCtx()
	m.known = map[*Term]bool{}
	m.vars = nil
	m.varOcc = map[string]int{}
	m.obs = nil
	m.sched = nil
	m.sleep = nil
	m.objIDs = map[interface{}]int{}
	m.locks = map[Ptr]*lockState{}
	m.wgs = map[Ptr]*wgState{}
	m.pools = map[Ptr]*poolState{}
	m.conds = map[Ptr]*condState{}
	m.atomVC = map[Ptr][]int32{}
	m.syncObjs = map[string]*int{}
	m.addrs = map[Ptr]uint64{}
	m.pathLabs = map[string]bool{}
	m.raceOn = false
	m.mapOrder = false
	m.mainDone = false
	m.vio = nil
	m.steps = 0
	m.faults = 0
	m.lastSched = 0
	m.pcs = nil
	m.node = nil
	m.pos = 0
	m.threads = nil
	m.intrTail = false
	m.cur = nil
	m.sol.beginPath()
}

// runPath executes one path and returns how it ended.
func (m *Machine) runPath(j job) (end endKind, err string) {
	m.resetPath()
	m.prefix = j.n.path()
	m.model = j.model
	if len(m.prefix) == 0 && m.model == nil {
		m.model = Model{}
	}
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case pathEnd:
				end = x.kind
			case engineErr:
				end = endUnsupported
				w := ""
				if m.cur != nil {
					w = m.where(m.cur)
				}
				err = x.msg + w
				if strings.Contains(x.msg, "solver") {
					m.sol.close()
					m.sol.inScope = false
					m.sol.sb.Reset()
					m.sol.start()
				}
			default:
				w := ""
				if m.cur != nil {
					func() {
						defer func() { recover() }()
						w = m.where(m.cur)
					}()
				}
				end = endUnsupported
				err = fmt.Sprintf("engine: %v%s", r, w)
				if m.eng.debug {
					panic(r)
				}
			}
		}
	}()
	main := &Thread{id: 0, name: "main", occ: map[string]int{}, vc: []int32{1}}
	m.threads = append(m.threads, main)
	for _, t := range m.baseThreads {
		c := m.cloneThread(t)
		c.id = len(m.threads)
		m.threads = append(m.threads, c)
		c.vc = make([]int32, c.id+1)
		c.vc[c.id] = 1
	}
	fi := m.info(m.eng.harness)
	main.frames = []*Frame{{fi: fi, regs: make([]Value, fi.nregs), dst: -1}}
	m.cur = main
	m.schedule(main)
	return endOK, ""
}

// ------------------------------------------------------------------ init

func (m *Machine) runInit() (err error) {
	m.initMode = true
	m.locks = map[Ptr]*lockState{}
	m.wgs = map[Ptr]*wgState{}
	m.pools = map[Ptr]*poolState{}
	m.conds = map[Ptr]*condState{}
	m.atomVC = map[Ptr][]int32{}
	m.syncObjs = map[string]*int{}
	m.known = map[*Term]bool{}
	m.varOcc = map[string]int{}
	m.pathLabs = map[string]bool{}
	defer func() {
		if r := recover(); r != nil {
			if m.eng.debug {
				panic(r)
			}
			err = fmt.Errorf("package initialisation: %v", r)
		}
	}()
	main := &Thread{id: 0, name: "init", occ: map[string]int{}, vc: []int32{1}}
	m.threads = []*Thread{main}
	fn := m.eng.mainPkg.Func("init")
	fi := m.info(fn)
	main.frames = []*Frame{{fi: fi, regs: make([]Value, fi.nregs), dst: -1}}
	m.initDone[m.eng.mainPkg.Pkg.Path()] = true
	m.cur = main
	for n := 0; !main.done; n++ {
		m.run(main)
		if main.done {
			break
		}
		// deterministic execution of visible operations while initialising
		progress := false
		for _, t := range m.threads {
			if !t.done && t.pend == nil {
				m.run(t)
				progress = true
			}
		}
		for _, t := range append([]*Thread{}, m.threads...) {
			if as := m.alts(t); len(as) > 0 {
				m.exec(t, as[0])
				progress = true
				break
			}
		}
		if !progress {
			return fmt.Errorf("package initialisation blocks")
		}
	}
	for _, t := range m.threads[1:] {
		if !t.done && t.pend == nil {
			m.run(t)
		}
		if !t.done {
			m.baseThreads = append(m.baseThreads, t)
		}
	}
	m.initMode = false
	return nil
}

func sortedKeys(m map[string]int) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
