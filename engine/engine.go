package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type Engine struct {
	mu         sync.Mutex
	prog       *ssa.Program
	fset       *token.FileSet
	mainPkg    *ssa.Package
	pkgByPath  map[string]*ssa.Package
	built      map[*ssa.Package]bool
	redirect   map[string]*ssa.Function
	rtErrType  types.Type
	harnessFns []*ssa.Function
	harness    *ssa.Function
	typeMap    typeutil.Map
	ntypes     int
	initNotes  map[string]string

	debug      bool
	checkRaces bool
	tier       string
	repo       string

	// exploration state (per scenario)
	qmu      sync.Mutex
	qcond    *sync.Cond
	stack    []job
	busy     int
	stopFlag int32
	deadline time.Time
	timedOut bool
	st       stats
	vios     []*Violation
	known    []knownFinding
	knownHit map[string]int
	maxVio   int
	bounds   map[string]int
	samples  []*sample
}

type stats struct {
	Paths, Complete, Assumed, Sleep, StepsExceeded, Unsupported int64
	Steps, Transitions, Unknown                                 int64
	Asserts                                                     map[string]int64
	Labels                                                      map[string]int64
	Covered                                                     map[string]int64
	UnsupMsgs                                                   map[string]int
	StepMsgs                                                    map[string]int
	Queries, Sat, Unsat                                         int
	SolverTime                                                  time.Duration
	MaxDepth                                                    int
	MaxThreads                                                  int
}

type sample struct {
	Inputs map[string]uint64 `json:"inputs"`
	Obs    []string          `json:"observations"`
	Sched  []schedRec        `json:"schedule,omitempty"`
	multi  bool
}

func (e *Engine) buildFn(fn *ssa.Function) {}

func (e *Engine) isRepoPkg(p string) bool {
	return (p == modPath || strings.HasPrefix(p, modPath+"/")) && !strings.Contains(p, "/zz_")
}

func (e *Engine) initNote(pkg, msg string) {
	e.mu.Lock()
	if e.initNotes == nil {
		e.initNotes = map[string]string{}
	}
	if _, ok := e.initNotes[pkg]; !ok {
		e.initNotes[pkg] = msg
	}
	e.mu.Unlock()
}

func (e *Engine) skipInit(p string) bool {
	return p == "runtime" || strings.HasPrefix(p, "runtime/") || strings.HasPrefix(p, "internal/runtime") || p == "internal/cpu" ||
		p == "syscall" || p == "reflect" || p == "net" || strings.HasPrefix(p, "crypto") || p == "internal/poll" || p == "internal/godebug" ||
		strings.HasPrefix(p, "vendor/") || p == "unicode"+"/x"
}

func (e *Engine) canonType(t types.Type) string {
	e.mu.Lock()
	defer e.mu.Unlock()
	if v := e.typeMap.At(t); v != nil {
		return v.(string)
	}
	e.ntypes++
	id := fmt.Sprintf("t%d", e.ntypes)
	e.typeMap.Set(t, id)
	return id
}

func (e *Engine) position(p token.Pos) token.Position {
	if p == token.NoPos {
		return token.Position{}
	}
	return e.fset.Position(p)
}

func (e *Engine) pos(p token.Pos) string {
	if p == token.NoPos {
		return "?"
	}
	return shortPos(e.fset.Position(p))
}

func (e *Engine) multi(m *Machine) bool {
	for _, s := range m.sched {
		if s.Thread != 0 {
			return true
		}
	}
	return false
}

func (e *Engine) noteUnknown() { atomic.AddInt64(&e.st.Unknown, 1) }

func (e *Engine) countTransition() { atomic.AddInt64(&e.st.Transitions, 1) }

func (e *Engine) noteAssert(label string) {
	e.mu.Lock()
	e.st.Asserts[label]++
	e.mu.Unlock()
}

func (e *Engine) bound(name string, quick, thorough int) int {
	v := quick
	if e.tier == "thorough" {
		v = thorough
	}
	if o := os.Getenv("ZZ_BOUND_" + name); o != "" {
		fmt.Sscan(o, &v)
	}
	e.mu.Lock()
	e.bounds[name] = v
	e.mu.Unlock()
	return v
}

// ------------------------------------------------------------------ exploration

func (e *Engine) push(j job) {
	e.qmu.Lock()
	e.stack = append(e.stack, j)
	e.qcond.Signal()
	e.qmu.Unlock()
}

func (e *Engine) stopped() bool {
	if atomic.LoadInt32(&e.stopFlag) != 0 {
		return true
	}
	if time.Now().After(e.deadline) {
		e.qmu.Lock()
		e.timedOut = true
		atomic.StoreInt32(&e.stopFlag, 1)
		e.qcond.Broadcast()
		e.qmu.Unlock()
		return true
	}
	return false
}

func (e *Engine) pop() (job, bool) {
	e.qmu.Lock()
	defer e.qmu.Unlock()
	for {
		if atomic.LoadInt32(&e.stopFlag) != 0 {
			return job{}, false
		}
		if n := len(e.stack); n > 0 {
			j := e.stack[n-1]
			e.stack = e.stack[:n-1]
			e.busy++
			return j, true
		}
		if e.busy == 0 {
			e.qcond.Broadcast()
			return job{}, false
		}
		e.qcond.Wait()
	}
}

func (e *Engine) finish() {
	e.qmu.Lock()
	e.busy--
	if e.busy == 0 && len(e.stack) == 0 {
		e.qcond.Broadcast()
	}
	e.qmu.Unlock()
}

func (e *Engine) resetScenario(deadline time.Time) {
	e.qcond = sync.NewCond(&e.qmu)
	e.stack = []job{{}}
	e.busy = 0
	e.stopFlag = 0
	e.timedOut = false
	e.deadline = deadline
	e.st = stats{Asserts: map[string]int64{}, Labels: map[string]int64{}, Covered: map[string]int64{}, UnsupMsgs: map[string]int{}, StepMsgs: map[string]int{}}
	e.vios = nil
	e.bounds = map[string]int{}
	e.samples = nil
}

func (e *Engine) explore(ms []*Machine) {
	var wg sync.WaitGroup
	for _, m := range ms {
		m.cover = map[string]int{}
		wg.Add(1)
		go func(m *Machine) {
			defer wg.Done()
			for {
				j, ok := e.pop()
				if !ok {
					return
				}
				end, err := m.runPath(j)
				e.account(m, end, err)
				e.finish()
			}
		}(m)
	}
	wg.Wait()
	for _, m := range ms {
		e.st.Queries += m.sol.queries
		e.st.Sat += m.sol.nsat
		e.st.Unsat += m.sol.nunsat
		e.st.SolverTime += m.sol.dur
		m.sol.queries, m.sol.nsat, m.sol.nunsat, m.sol.dur = 0, 0, 0, 0
		for k, v := range m.cover {
			e.st.Covered[k] += int64(v)
		}
	}
}

// sampleMax is the number of completed paths kept per scenario (development runs keep more).
var sampleMax = int(atoi(os.Getenv("GOSYM_SAMPLES"), 40))

func (e *Engine) account(m *Machine, end endKind, err string) {
	// a sample of completed paths is kept for validation against the real program
	var smp *sample
	if end == endOK {
		e.mu.Lock()
		n := e.st.Complete
		e.mu.Unlock()
		if n < 3 || (n < 4000 && n%97 == 5) || n%1999 == 7 || (sampleMax > 40 && n%7 == 0) {
			func() {
				defer func() { recover() }()
				mdl := m.ensureModel()
				smp = &sample{Inputs: m.inputs(mdl), Obs: m.obsText(mdl), Sched: append([]schedRec{}, m.sched...), multi: e.multi(m)}
			}()
		}
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	s := &e.st
	s.Paths++
	s.Steps += m.steps
	if d := m.pos; d > s.MaxDepth {
		s.MaxDepth = d
	}
	if len(m.threads) > s.MaxThreads {
		s.MaxThreads = len(m.threads)
	}
	if os.Getenv("GOSYM_SCHED") != "" {
		l := fmt.Sprint("PATH end=", end, ":")
		for _, r := range m.sched {
			l += fmt.Sprintf(" g%d.%s", r.Thread, r.Op)
		}
		fmt.Println(l, "")
	}
	switch end {
	case endOK:
		s.Complete++
		for l := range m.pathLabs {
			s.Labels[l]++
		}
		if smp != nil && len(e.samples) < sampleMax {
			e.samples = append(e.samples, smp)
		}
	case endAssume:
		s.Assumed++
	case endSleep:
		s.Sleep++
	case endSteps:
		s.StepsExceeded++
		w := ""
		if m.cur != nil {
			w = m.where(m.cur)
		}
		s.StepMsgs[w]++
		if len(e.vios) < e.maxVio {
			func() {
				defer func() { recover() }()
				v := &Violation{Kind: "nontermination", Label: "termination", Msg: fmt.Sprintf("no termination within %d steps", m.stepLimit), Where: w, Steps: m.steps}
				v.Inputs = m.inputs(m.ensureModel())
				v.Sched = append([]schedRec{}, m.sched...)
				v.multi = e.multi(m)
				e.vios = append(e.vios, v)
			}()
		}
		atomic.StoreInt32(&e.stopFlag, 1)
		e.qmu.Lock()
		e.qcond.Broadcast()
		e.qmu.Unlock()
	case endUnsupported:
		s.Unsupported++
		s.UnsupMsgs[err]++
	case endViolation:
		for l := range m.pathLabs {
			s.Labels[l]++
		}
		v := m.vio
		for _, k := range e.known {
			if k.matches(v, e.harness.Name()) {
				e.knownHit[k.ID]++
				return
			}
		}
		if len(e.vios) < e.maxVio {
			e.vios = append(e.vios, v)
		}
		if len(e.vios) >= e.maxVio {
			atomic.StoreInt32(&e.stopFlag, 1)
			e.qmu.Lock()
			e.qcond.Broadcast()
			e.qmu.Unlock()
		}
	}
}

func (e *Engine) repoFuncs() []string {
	var r []string
	for k := range e.st.Covered {
		if !strings.Contains(k, "zz") && !strings.Contains(k, "ZZ") {
			r = append(r, k)
		}
	}
	sort.Strings(r)
	return r
}

func relTo(base, p string) string {
	if r, err := filepath.Rel(base, p); err == nil {
		return r
	}
	return p
}
