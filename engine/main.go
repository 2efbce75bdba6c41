package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type knownFinding struct {
	ID       string
	Property string
	Scenario string
	Label    string
	Contains string
	What     string
}

func (k knownFinding) matches(v *Violation, scen string) bool {
	if k.Scenario != "" && k.Scenario != scen {
		return false
	}
	if k.Label != "" && k.Label != v.Label {
		return false
	}
	if k.Contains != "" && !strings.Contains(v.Msg+v.Where, k.Contains) {
		return false
	}
	return true
}

// loadKnown reads "finding:" lines; "fixed:" lines are history only.
func loadKnown(path, prop string) []knownFinding {
	f, err := os.Open(path)
	if err != nil {
		return nil
	}
	defer f.Close()
	var r []knownFinding
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		k := knownFinding{}
		rest := strings.TrimSpace(l[8:])
		for {
			i := strings.IndexByte(rest, '=')
			j := strings.IndexByte(rest, ' ')
			if i < 0 || j < i {
				break
			}
			key, val := rest[:i], rest[i+1:j]
			switch key {
			case "property":
				k.Property = val
			case "scenario":
				k.Scenario = val
			case "label":
				k.Label = val
			case "contains":
				k.Contains = val
			default:
				i = -1
			}
			if i < 0 {
				break
			}
			rest = strings.TrimSpace(rest[j:])
		}
		k.What = rest
		k.ID = k.Property + "/" + k.Scenario + "/" + k.Label + "/" + k.Contains
		if k.Property == prop {
			r = append(r, k)
		}
	}
	return r
}

func atoi(s string, d int64) int64 {
	if s == "" {
		return d
	}
	n, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		return d
	}
	return n
}

func main() {
	prop := flag.String("property", "", "property id")
	tier := flag.String("tier", "", "quick or thorough")
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "verification directory")
	dbg := flag.Bool("debug", false, "panic on engine errors")
	only := flag.String("scenario", "", "only this scenario")
	trace := flag.Bool("trace", false, "trace panics")
	workers := flag.Int("j", runtime.NumCPU(), "workers")
	budget := flag.Int("budget", 0, "seconds for exploration")
	replay := flag.String("replay", "", "replay a recorded counterexample natively")
	noval := flag.Bool("noval", false, "skip validation of sampled paths")
	mirror := flag.Bool("mirror", false, "regenerate the model packages' aliases")
	flag.Parse()
	if *mirror {
		if err := writeMirrors(*repo, *verif); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		return
	}
	debug.SetGCPercent(300)
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	if *replay != "" {
		os.Exit(doReplay(*replay, *repo, *verif))
	}
	os.Exit(check(*prop, *tier, *repo, *verif, *only, *dbg, *trace, *workers, *budget, *noval))
}

func doReplay(path, repo, verif string) int {
	b, err := ioutil.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Println(err)
		return 2
	}
	s, err := buildOverlay(repo, verif, rf.Property, true)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer s.cleanup()
	rf.Vio.multi = len(rf.Sched) > 0
	ok, out := confirm(s, map[bool]string{}, rf.Vio, &rf)
	fmt.Println(out)
	if ok {
		fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, path)
		return 1
	}
	fmt.Println("not reproduced")
	return 0
}

type scenReport struct {
	Name          string           `json:"scenario"`
	Doc           string           `json:"what"`
	Bounds        map[string]int   `json:"bounds"`
	Exhausted     bool             `json:"exhausted_within_bounds"`
	Paths         int64            `json:"paths"`
	Complete      int64            `json:"complete_paths"`
	Infeasible    int64            `json:"assumption_pruned"`
	SleepPruned   int64            `json:"sleep_set_pruned"`
	Unsupported   int64            `json:"unsupported_paths"`
	Unknown       int64            `json:"solver_unknown"`
	Steps         int64            `json:"ssa_instructions"`
	Transitions   int64            `json:"visible_operations"`
	Depth         int              `json:"max_decisions"`
	Threads       int              `json:"max_goroutines"`
	Asserts       map[string]int64 `json:"assertions_reached"`
	Labels        map[string]int64 `json:"cover_labels"`
	Queries       int              `json:"solver_queries"`
	Sat           int              `json:"sat"`
	Unsat         int              `json:"unsat"`
	SolverS       float64          `json:"solver_s"`
	Validated     int              `json:"native_traces_matching"`
	MultiMismatch int              `json:"native_traces_other_schedule"`
	Mismatch      int              `json:"native_traces_different"`
	Races         bool             `json:"data_race_check"`
}

func check(prop, tier, repo, verif, only string, dbg, trace bool, workers, budget int, noval bool) int {
	t0 := time.Now()
	fail := func(f string, a ...interface{}) int {
		fmt.Printf("ERROR: "+f+"\n", a...)
		return 2
	}
	src, err := buildOverlay(repo, verif, prop, false)
	if err != nil {
		return fail("%v", err)
	}
	defer src.cleanup()
	rsrc, err := buildOverlay(repo, verif, prop, true)
	if err != nil {
		return fail("%v", err)
	}
	defer rsrc.cleanup()
	// the native program is compiled while the encoding is built
	type nb struct {
		bin string
		err error
	}
	nch := make(chan nb, 1)
	go func() {
		b, err := rsrc.buildNative(false)
		nch <- nb{b, err}
	}()
	e := &Engine{tier: tier, debug: dbg, repo: repo, maxVio: 1, knownHit: map[string]int{}}
	if err := e.load(src); err != nil {
		<-nch
		return fail("%v", err)
	}
	tLoad := time.Since(t0)
	ms := make([]*Machine, workers)
	errs := make([]error, workers)
	var wg sync.WaitGroup
	for i := range ms {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			m := newMachine(e)
			m.traceOn = trace
			s, err := newSolver()
			if err != nil {
				errs[i] = err
				return
			}
			m.sol = s
			ms[i] = m
			errs[i] = m.runInit()
		}(i)
	}
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			<-nch
			return fail("%v", err)
		}
	}
	defer func() {
		for _, m := range ms {
			m.sol.close()
		}
	}()
	if dbg {
		for k, v := range e.initNotes {
			fmt.Println("init:", k, v)
		}
	}
	tInit := time.Since(t0) - tLoad
	if budget == 0 {
		budget = 420
		if tier == "thorough" {
			budget = 3000
		}
	}
	allKnown := loadKnown(filepath.Join(verif, "known_findings.txt"), prop)
	bins := map[bool]string{}
	native := nb{}
	gotNative := false
	getNative := func() nb {
		if !gotNative {
			native = <-nch
			gotNative = true
			if native.err == nil {
				n := native.bin + "-false"
				os.Rename(native.bin, n)
				native.bin = n
				bins[false] = n
			}
		}
		return native
	}
	var reports []scenReport
	status := 0
	violations := 0
	totalVal, totalStates, totalTrans := 0, 0, 0
	funcs := map[string]bool{}
	var samplesOut []interface{}
	var notes []string
	nsc := 0
	for _, sc := range src.scen {
		if only != "" && sc.name != only {
			continue
		}
		if sc.opts["tier"] != "" && sc.opts["tier"] != tier {
			continue
		}
		nsc++
	}
	left := time.Duration(budget) * time.Second
	for i, sc := range src.scen {
		if only != "" && sc.name != only {
			continue
		}
		if sc.opts["tier"] != "" && sc.opts["tier"] != tier {
			continue
		}
		ts := time.Now()
		e.harness = e.harnessFns[i]
		e.known = nil
		for _, k := range allKnown {
			if k.Scenario == "" || k.Scenario == sc.name {
				e.known = append(e.known, k)
			}
		}
		e.resetScenario(time.Now().Add(left))
		e.checkRaces = sc.opts["norace"] == ""
		for _, m := range ms {
			m.stepLimit = atoi(sc.opts["steps"], 3000000)
		}
		e.explore(ms)
		left -= time.Since(ts)
		if left < 20*time.Second {
			left = 20 * time.Second
		}
		st := e.st
		rep := scenReport{Name: sc.name, Doc: strings.TrimSpace(sc.doc), Bounds: e.bounds, Paths: st.Paths, Complete: st.Complete, Infeasible: st.Assumed,
			SleepPruned: st.Sleep, Unsupported: st.Unsupported, Unknown: st.Unknown, Steps: st.Steps, Transitions: st.Transitions, Depth: st.MaxDepth,
			Threads: st.MaxThreads, Asserts: st.Asserts, Labels: st.Labels, Queries: st.Queries, Sat: st.Sat, Unsat: st.Unsat, SolverS: st.SolverTime.Seconds(), Races: e.checkRaces}
		rep.Exhausted = !e.timedOut && st.Unsupported == 0 && st.Unknown == 0 && len(e.vios) == 0
		for _, f := range e.repoFuncs() {
			funcs[f] = true
		}
		fmt.Printf("%s %s: %d paths (%d complete, %d pruned by assumptions, %d by sleep sets), %d queries, solver %.1fs, %.1fs%s\n", prop, sc.name,
			st.Paths, st.Complete, st.Assumed, st.Sleep, st.Queries, st.SolverTime.Seconds(), time.Since(ts).Seconds(), map[bool]string{true: " TIME BUDGET REACHED"}[e.timedOut])
		if dbg {
			fmt.Println("  labels", st.Labels, "asserts", st.Asserts, "steps", st.Steps, "bounds", e.bounds)
		}
		for msg, n := range st.UnsupMsgs {
			fmt.Printf("  not encodable (%d paths): %s\n", n, msg)
			notes = append(notes, fmt.Sprintf("%s: %d paths not encodable: %s", sc.name, n, strings.SplitN(msg, "\n", 2)[0]))
		}
		for msg, n := range st.StepMsgs {
			fmt.Printf("  step bound reached (%d paths): %s\n", n, msg)
		}
		if e.timedOut {
			notes = append(notes, sc.name+": exploration time budget reached before the bounded space was exhausted")
		}
		if st.Unknown > 0 {
			notes = append(notes, fmt.Sprintf("%s: %d solver queries undecided within 30 s", sc.name, st.Unknown))
		}
		// violations
		for k, v := range e.vios {
			rf := &replayFile{Property: prop, Tier: tier, Scenario: sc.name, Vio: v, Inputs: v.Inputs, Bounds: e.bounds}
			if v.multi || v.Kind == "race" {
				rf.Sched = v.Sched
			}
			if v.Kind != "race" {
				if n := getNative(); n.err != nil {
					return fail("%v", n.err)
				}
			} else {
				getNative()
			}
			ok, out := confirm(rsrc, bins, v, rf)
			if !ok && v.Kind == "nontermination" {
				fmt.Printf("  step bound %d exceeded but the real program terminates: raise the bound (%s)\n", ms[0].stepLimit, out)
				notes = append(notes, sc.name+": step bound exceeded on a terminating path")
				if status == 0 {
					status = 2
				}
				continue
			}
			path := writeReplay(verif, prop, sc.name, k, rf)
			fmt.Printf("  %s: %s%s\n", v.Kind, v.Msg, v.Where)
			ins := []string{}
			for n, x := range v.Inputs {
				ins = append(ins, fmt.Sprintf("%s=%d", n, x))
			}
			sort.Strings(ins)
			fmt.Printf("  inputs: %s\n", strings.Join(ins, " "))
			if len(rf.Sched) > 0 {
				for _, r := range rf.Sched {
					fmt.Printf("    g%d %s %s", r.Thread, r.Op, r.Pos)
					if r.Par >= 0 {
						fmt.Printf(" <-> g%d %s", r.Par, r.ParPos)
					}
					fmt.Println()
				}
			}
			if ok {
				fmt.Printf("  reproduced by the real code: %s\n", strings.TrimSpace(out))
			} else {
				fmt.Printf("  NOT reproduced by the real code (%s)\n", strings.TrimSpace(out))
				if !v.multi && v.Kind != "race" {
					notes = append(notes, sc.name+": counterexample not reproduced natively: "+v.Msg)
					if status == 0 {
						status = 2
					}
					continue
				}
			}
			violations++
			status = 1
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		}
		// vacuity: every declared cover label must be reached
		if len(e.vios) == 0 && sc.opts["cover"] != "" && !e.timedOut {
			for _, l := range strings.Split(sc.opts["cover"], ",") {
				if st.Labels[l] == 0 {
					fmt.Printf("  vacuity: cover point %q of %s not reached\n", l, sc.name)
					if status == 0 && st.Unsupported > 0 {
						status = 2
					}
					notes = append(notes, sc.name+": cover point not reached: "+l)
				}
			}
		}
		if status == 0 && st.Unsupported > 0 && os.Getenv("GOSYM_STRICT") != "" {
			status = 2
		}
		if len(e.vios) == 0 && st.Complete == 0 {
			fmt.Printf("  nothing explored completely in %s\n", sc.name)
			if status == 0 {
				status = 2
			}
		}
		if len(e.vios) == 0 && !noval && len(e.samples) > 0 {
			n := getNative()
			if n.err != nil {
				return fail("%v", n.err)
			}
			max := 12
			if tier == "thorough" {
				max = 40
			}
			if sampleMax > 40 {
				max = sampleMax
			}
			rf := replayFile{Property: prop, Tier: tier, Scenario: sc.name, Bounds: e.bounds}
			ok, mm, bad := validate(rsrc, n.bin, rf, e.samples, max)
			rep.Validated, rep.MultiMismatch, rep.Mismatch = ok, mm, len(bad)
			totalVal += ok
			for k, b := range bad {
				if k < 3 {
					fmt.Printf("  encoding differs from the real program: %s\n", b.text)
				}
			}
			if len(bad) > 0 {
				// what the real program did decides: a failed assertion is a violation, anything else says
				// that the model of some library function is inexact for these inputs
				notes = append(notes, fmt.Sprintf("%s: %d sampled paths differ natively", sc.name, len(bad)))
				for _, b := range bad {
					if b.failed {
						rf.Inputs, rf.Vio = b.smp.Inputs, &Violation{Kind: "assert", Msg: "assertion failed when the real program ran with the inputs of a sampled path", Inputs: b.smp.Inputs}
						path := writeReplay(verif, prop, sc.name, 0, &rf)
						fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
						violations++
						status = 1
						break
					}
				}
				if status == 0 && os.Getenv("GOSYM_STRICT") != "" {
					status = 2
				}
			}
		}
		for k, sm := range e.samples {
			if k < 3 {
				samplesOut = append(samplesOut, map[string]interface{}{"scenario": sc.name, "inputs": sm.Inputs, "observed": clip(sm.Obs, 12), "visible_ops": len(sm.Sched)})
			}
		}
		totalStates += int(st.Paths)
		totalTrans += int(st.Transitions) + st.Queries
		reports = append(reports, rep)
	}
	for _, k := range allKnown {
		if e.knownHit[k.ID] > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.What)
		}
	}
	var fl []string
	for f := range funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	seed := int(atoi(os.Getenv("VERIF_SEED"), 1))
	exh := len(reports) > 0
	for _, r := range reports {
		exh = exh && r.Exhausted
	}
	asm := readAssumptions(filepath.Join(verif, "harness"), prop)
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]interface{}{
			"states": totalStates, "transitions": totalTrans, "traces_validated_against_impl": totalVal,
			"samples": samplesOut, "scenarios": reports, "functions_encoded": fl, "exhaustive": exh, "notes": notes,
			"load_s": tLoad.Seconds(), "init_s": tInit.Seconds(), "solver": solverPath(),
			"explanation": "states = symbolic paths executed over the SSA form of the current source (each stands for every input value satisfying its path condition); transitions = SMT queries plus scheduled visible operations; traces_validated = sampled paths re-run on the compiled program with identical observations",
		},
		"assumptions": asm, "wall_s": time.Since(t0).Seconds(), "violations": violations,
	}
	if samplesOut == nil {
		ev["coverage"].(map[string]interface{})["samples"] = []interface{}{}
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	ioutil.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(b, '\n'), 0644)
	if !gotNative {
		<-nch
	}
	fmt.Printf("%s: exit %d, %.1fs (load %.1fs init %.1fs), %d functions encoded\n", prop, status, time.Since(t0).Seconds(), tLoad.Seconds(), tInit.Seconds(), len(fl))
	return status
}

func clip(s []string, n int) []string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// readAssumptions collects "// ASSUME:" lines of the harness.
func readAssumptions(dir, prop string) []string {
	r := []string{}
	h, _ := filepath.Glob(filepath.Join(dir, strings.ToLower(prop)+"*.go"))
	c, _ := filepath.Glob(filepath.Join(dir, "common*.go"))
	for _, f := range append(h, c...) {
		b, _ := ioutil.ReadFile(f)
		for _, l := range strings.Split(string(b), "\n") {
			l = strings.TrimSpace(l)
			if strings.HasPrefix(l, "// ASSUME:") {
				r = append(r, strings.TrimSpace(l[10:]))
			}
		}
	}
	return r
}

// writeReplay records a counterexample.
func writeReplay(verif, prop, scen string, k int, rf *replayFile) string {
	dir := filepath.Join(verif, "evidence", "replay")
	os.MkdirAll(dir, 0755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", prop, scen, k))
	rf.Note = "replay with: /verif/bin/gosym -replay " + path
	b, _ := json.MarshalIndent(rf, "", " ")
	ioutil.WriteFile(path, b, 0644)
	return path
}
