package main

// Native replay: the same overlay, compiled by the Go toolchain, fed with the solver's values.

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"
)

type replayFile struct {
	Property string            `json:"property"`
	Tier     string            `json:"tier"`
	Scenario string            `json:"scenario"`
	Vio      *Violation        `json:"violation,omitempty"`
	Inputs   map[string]uint64 `json:"inputs"`
	Bounds   map[string]int    `json:"bounds"`
	Sched    []schedRec        `json:"schedule,omitempty"`
	Gap      int               `json:"gap_ms"`
	Note     string            `json:"note,omitempty"`
}

type nativeRun struct {
	exit    int
	timeout bool
	out     string
	log     []string
}

func runNative(bin, dir string, rf *replayFile, timeout time.Duration) (*nativeRun, error) {
	b, _ := json.Marshal(rf)
	in := filepath.Join(dir, "in.json")
	logp := filepath.Join(dir, "log.txt")
	os.Remove(logp)
	if err := ioutil.WriteFile(in, b, 0644); err != nil {
		return nil, err
	}
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	work := filepath.Join(dir, "work")
	os.MkdirAll(work, 0755)
	cmd := exec.CommandContext(ctx, bin)
	cmd.Dir = work
	cmd.Env = append(os.Environ(), "ZZ_REPLAY="+in, "ZZ_LOG="+logp, "TZ=UTC", "GORACE=halt_on_error=0 exitcode=66")
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.WaitDelay = time.Second
	var o bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &o
	err := cmd.Run()
	r := &nativeRun{out: o.String()}
	if ctx.Err() != nil {
		r.timeout = true
	}
	if cmd.ProcessState != nil {
		r.exit = cmd.ProcessState.ExitCode()
	} else if err != nil {
		return nil, err
	}
	if lb, err := ioutil.ReadFile(logp); err == nil {
		for _, l := range strings.Split(string(lb), "\n") {
			if l != "" {
				r.log = append(r.log, l)
			}
		}
	}
	return r, nil
}

// confirms tells whether a native run shows the violation.
func confirms(v *Violation, r *nativeRun) bool {
	switch v.Kind {
	case "assert":
		return r.exit == 3 && strings.Contains(r.out, "ZZ-ASSERT")
	case "panic":
		return r.exit == 2 && (strings.Contains(r.out, "panic:") || strings.Contains(r.out, "fatal error:"))
	case "deadlock":
		return r.timeout || strings.Contains(r.out, "all goroutines are asleep")
	case "nontermination":
		return r.timeout || strings.Contains(r.out, "stack overflow") || strings.Contains(r.out, "out of memory")
	case "race":
		return strings.Contains(r.out, "WARNING: DATA RACE")
	}
	return false
}

// confirm replays a violation against the real code.
func confirm(s *source, bins map[bool]string, v *Violation, rf *replayFile) (bool, string) {
	race := v.Kind == "race"
	bin, ok := bins[race]
	if !ok {
		var err error
		bin, err = s.buildNative(race)
		if err != nil {
			return false, err.Error()
		}
		nb := bin + fmt.Sprintf("-%v", race)
		os.Rename(bin, nb)
		bin = nb
		bins[race] = bin
	}
	to := 20 * time.Second
	if v.Kind == "nontermination" {
		to = 8 * time.Second
	}
	gaps := []int{0}
	if v.multi {
		gaps = []int{8, 20, 40, 8, 20, 0, 0, 60}
		if race {
			gaps = []int{0, 0, 10, 20, 0, 10, 20, 40}
		}
		if v.Kind == "deadlock" {
			to = 12 * time.Second
		}
	}
	last := ""
	for _, g := range gaps {
		rf.Gap = g
		r, err := runNative(bin, s.tmp, rf, to)
		if err != nil {
			return false, err.Error()
		}
		if confirms(v, r) {
			return true, tail(r.out, 1500)
		}
		last = fmt.Sprintf("exit %d timeout %v: %s", r.exit, r.timeout, tail(r.out, 600))
	}
	return false, last
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

// mismatch is a sampled path on which the real program did something else.
type mismatch struct {
	text   string
	failed bool // an assertion of the harness failed
	smp    *sample
}

// validate runs sampled paths natively and compares the observation logs.
func validate(s *source, bin string, rf replayFile, smps []*sample, max int) (ok int, multiMiss int, bad []mismatch) {
	n := 0
	for _, sm := range smps {
		if n >= max {
			break
		}
		n++
		rf.Inputs, rf.Sched = sm.Inputs, sm.Sched
		rf.Gap = 0
		if sm.multi {
			rf.Gap = 4
		}
		if !sm.multi {
			rf.Sched = nil
		}
		r, err := runNative(bin, s.tmp, &rf, 20*time.Second)
		if err != nil {
			bad = append(bad, mismatch{text: err.Error(), smp: sm})
			continue
		}
		agrees := func() bool { return r.exit == 0 && strings.Join(r.log, "\n") == strings.Join(sm.Obs, "\n") }
		if !agrees() && r.exit != 3 && !sm.multi {
			// once more, on a machine that may be busy
			if r2, err := runNative(bin, s.tmp, &rf, 20*time.Second); err == nil {
				r = r2
			}
		}
		if agrees() {
			ok++
			continue
		}
		if sm.multi {
			multiMiss++
			continue
		}
		bad = append(bad, mismatch{smp: sm, failed: r.exit == 3 && strings.Contains(r.out, "ZZ-ASSERT"), text: fmt.Sprintf("inputs %v: exit %d\nnative log:\n  %s\nengine log:\n  %s\noutput: %s", sm.Inputs, r.exit,
			strings.Join(r.log, "\n  "), strings.Join(sm.Obs, "\n  "), tail(r.out, 800))})
	}
	return
}
