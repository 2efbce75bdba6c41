package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type Solver struct {
	cmd      *exec.Cmd
	in       io.WriteCloser
	out      *bufio.Reader
	sb       strings.Builder
	epoch    int32
	declared []*Term
	queries  int
	nsat     int
	nunsat   int
	nunknown int
	dur      time.Duration
	inScope  bool
	bin      string
	// cross-check log: when enabled every discharged assertion is recorded as a script
	log *strings.Builder
}

var solverBin = "z3-new"

func solverPath() string {
	for _, b := range []string{"z3-new", "z3"} {
		if p, err := exec.LookPath(b); err == nil {
			return p
		}
	}
	return "z3"
}

func newSolver() (*Solver, error) {
	s := &Solver{bin: solverPath()}
	return s, s.start()
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.bin, "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.in, s.out = in, bufio.NewReaderSize(out, 1<<16)
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.sb.WriteString("(set-option :print-success false)\n(set-option :timeout 30000)\n(set-logic QF_BV)\n")
	return nil
}

func (s *Solver) close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// beginPath opens a fresh scope.
func (s *Solver) beginPath() {
	if s.inScope {
		s.sb.WriteString("(pop 1)\n")
	}
	s.sb.WriteString("(push 1)\n")
	s.inScope = true
	s.epoch++
	s.declared = s.declared[:0]
}

func (s *Solver) assert(t *Term) {
	t.emit(&s.sb, s.epoch, &s.declared)
	s.sb.WriteString("(assert ")
	s.sb.WriteString(smtName(t))
	s.sb.WriteString(")\n")
}

func (s *Solver) flush() {
	if s.log != nil {
		s.log.WriteString(s.sb.String())
	}
	if _, err := io.WriteString(s.in, s.sb.String()); err != nil {
		panic(engineErr{"solver pipe: " + err.Error()})
	}
	s.sb.Reset()
}

func (s *Solver) readLine() string {
	l, err := s.out.ReadString('\n')
	if err != nil {
		panic(engineErr{"solver died: " + err.Error()})
	}
	return strings.TrimSpace(l)
}

type satRes int

const (
	resUnsat satRes = iota
	resSat
	resUnknown
)

// check decides pc && extra. On sat returns the model of all declared variables.
func (s *Solver) check(extra *Term) (satRes, Model) {
	t0 := time.Now()
	defer func() { s.dur += time.Since(t0) }()
	s.queries++
	if extra != nil {
		// definitions must survive the inner scope, so emit them outside
		extra.emit(&s.sb, s.epoch, &s.declared)
		fmt.Fprintf(&s.sb, "(push 1)\n(assert %s)\n", smtName(extra))
	}
	s.sb.WriteString("(check-sat)\n")
	s.flush()
	l := s.readLine()
	var r satRes
	switch {
	case l == "sat":
		r = resSat
		s.nsat++
	case l == "unsat":
		r = resUnsat
		s.nunsat++
	case l == "unknown" || l == "timeout":
		r = resUnknown
		s.nunknown++
	default:
		panic(engineErr{"solver said: " + l})
	}
	var m Model
	if r == resSat {
		m = Model{}
		if len(s.declared) > 0 {
			s.sb.WriteString("(get-value (")
			for i, v := range s.declared {
				if i > 0 {
					s.sb.WriteByte(' ')
				}
				s.sb.WriteString("|" + v.name + "|")
			}
			s.sb.WriteString("))\n")
			s.flush()
			s.parseModel(m)
		}
	}
	if extra != nil {
		s.sb.WriteString("(pop 1)\n")
	}
	return r, m
}

func (s *Solver) parseModel(m Model) {
	// ((|a| #x00) (|b| true) ...), possibly over several lines
	depth := 0
	var sb strings.Builder
	inBar := false
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			panic(engineErr{"solver died in get-value"})
		}
		if b == '|' {
			inBar = !inBar
		}
		sb.WriteByte(b)
		if !inBar {
			if b == '(' {
				depth++
			} else if b == ')' {
				depth--
				if depth == 0 {
					break
				}
			}
		}
	}
	s.out.ReadString('\n')
	txt := sb.String()
	if strings.HasPrefix(txt, "(error") {
		panic(engineErr{"solver error: " + txt})
	}
	i := 1
	for {
		j := strings.IndexByte(txt[i:], '(')
		if j < 0 {
			return
		}
		i += j + 1
		var name string
		if txt[i] == '|' {
			k := strings.IndexByte(txt[i+1:], '|')
			name = txt[i+1 : i+1+k]
			i += k + 2
		} else {
			k := strings.IndexByte(txt[i:], ' ')
			name = txt[i : i+k]
			i += k
		}
		k := strings.IndexByte(txt[i:], ')')
		v := strings.TrimSpace(txt[i : i+k])
		i += k + 1
		switch {
		case v == "true":
			m[name] = 1
		case v == "false":
			m[name] = 0
		case strings.HasPrefix(v, "#x"):
			n, _ := strconv.ParseUint(v[2:], 16, 64)
			m[name] = n
		case strings.HasPrefix(v, "#b"):
			n, _ := strconv.ParseUint(v[2:], 2, 64)
			m[name] = n
		default:
			panic(engineErr{"cannot parse model value " + v})
		}
	}
}
