package main

// One SMT solver process per worker, spoken to over SMT-LIB 2.

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

type SolverStats struct {
	queries, sat, unsat, unknown atomic.Int64
	nanos                        atomic.Int64
	memoHits                     atomic.Int64
}

type Solver struct {
	cmd      *exec.Cmd
	in       io.WriteCloser
	out      *bufio.Reader
	declared map[string]bool
	stack    []*Expr // asserted, one push level each
	st       *SolverStats
	buf      strings.Builder
}

type Verdict int

const (
	Unknown Verdict = iota
	Sat
	Unsat
)

func NewSolver(st *SolverStats) *Solver {
	s := &Solver{declared: map[string]bool{}, st: st}
	s.cmd = exec.Command("z3", "-in", "-smt2", "-memory:2000")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := s.cmd.Start(); err != nil {
		panic(fatal{"cannot start z3: " + err.Error()})
	}
	s.in, s.out = in, bufio.NewReader(out)
	s.buf.WriteString("(set-option :global-declarations true)\n(set-option :timeout 20000)\n(set-logic QF_BV)\n")
	return s
}

func (s *Solver) Close() {
	s.in.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

func (s *Solver) declare(e *Expr) {
	for _, v := range e.vars {
		if !s.declared[v.name] {
			s.declared[v.name] = true
			fmt.Fprintf(&s.buf, "(declare-const |%s| %s)\n", v.name, smtSort(v.w))
		}
	}
}

func (s *Solver) flush() {
	if _, err := io.WriteString(s.in, s.buf.String()); err != nil {
		panic(fatal{"z3 died: " + err.Error()})
	}
	s.buf.Reset()
}

func (s *Solver) readLine() string {
	l, err := s.out.ReadString('\n')
	if err != nil {
		panic(fatal{"z3 died: " + err.Error()})
	}
	return strings.TrimSpace(l)
}

func (s *Solver) check() Verdict {
	t := time.Now()
	s.buf.WriteString("(check-sat)\n")
	s.flush()
	l := s.readLine()
	s.st.nanos.Add(int64(time.Since(t)))
	s.st.queries.Add(1)
	switch l {
	case "sat":
		s.st.sat.Add(1)
		return Sat
	case "unsat":
		s.st.unsat.Add(1)
		return Unsat
	case "unknown", "timeout":
		s.st.unknown.Add(1)
		return Unknown
	}
	panic(fatal{"z3 said: " + l})
}

// align makes the assertion stack equal cs.
func (s *Solver) align(cs []*Expr) {
	n := 0
	for n < len(s.stack) && n < len(cs) && s.stack[n] == cs[n] {
		n++
	}
	if k := len(s.stack) - n; k > 0 {
		fmt.Fprintf(&s.buf, "(pop %d)\n", k)
		s.stack = s.stack[:n]
	}
	for _, c := range cs[n:] {
		s.declare(c)
		s.buf.WriteString("(push 1)\n(assert " + c.smt() + ")\n")
		s.stack = append(s.stack, c)
	}
}

// CheckWith decides cs AND extra.
func (s *Solver) CheckWith(cs []*Expr, extra *Expr) Verdict {
	s.align(cs)
	if extra == nil {
		return s.check()
	}
	s.declare(extra)
	s.buf.WriteString("(push 1)\n(assert " + extra.smt() + ")\n")
	v := s.check()
	s.buf.WriteString("(pop 1)\n")
	return v
}

// CheckUnary decides v in d AND e.
func (s *Solver) CheckUnary(v *Expr, d Dom, e *Expr) Verdict {
	s.align(nil)
	s.declare(v)
	s.buf.WriteString("(push 1)\n(assert " + d.smt(v) + ")\n(assert " + e.smt() + ")\n")
	r := s.check()
	s.buf.WriteString("(pop 1)\n")
	return r
}

// Model returns values of vars under cs AND extra, or false if not satisfiable.
func (s *Solver) Model(cs []*Expr, extra *Expr, vars []*Expr) (map[*Expr]uint64, bool) {
	s.align(cs)
	for _, v := range vars {
		s.declare(v)
	}
	s.buf.WriteString("(push 1)\n")
	if extra != nil {
		s.declare(extra)
		s.buf.WriteString("(assert " + extra.smt() + ")\n")
	}
	defer s.buf.WriteString("(pop 1)\n")
	if s.check() != Sat {
		return nil, false
	}
	m := map[*Expr]uint64{}
	for _, v := range vars {
		s.buf.WriteString("(get-value (|" + v.name + "|))\n")
		s.flush()
		l := s.readLine()
		i := strings.LastIndexByte(strings.TrimRight(l, ")"), ' ')
		t := strings.TrimRight(l, ")")[i+1:]
		switch {
		case t == "true":
			m[v] = 1
		case t == "false":
			m[v] = 0
		case strings.HasPrefix(t, "#x"):
			n, err := strconv.ParseUint(t[2:], 16, 64)
			if err != nil {
				panic(fatal{"z3 value " + l})
			}
			m[v] = n
		case strings.HasPrefix(t, "#b"):
			n, err := strconv.ParseUint(t[2:], 2, 64)
			if err != nil {
				panic(fatal{"z3 value " + l})
			}
			m[v] = n
		default:
			panic(fatal{"z3 value " + l})
		}
	}
	return m, true
}
