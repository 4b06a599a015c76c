package main

// One z3 process per worker, fed incrementally; every query is
// "path condition ∧ extra" and its verdict is sat / unsat / unknown.

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

type Verdict int

const (
	vUnknown Verdict = iota
	vSat
	vUnsat
)

type Solver struct {
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	gen     uint32
	stack   []*Expr
	vars    []*Expr
	ctx     *Ctx
	queries int64
	sats    int64
	unsats  int64
	unk     int64
	time    time.Duration
	maxT    time.Duration
	log     io.Writer
	tmo     int
	defs    int
	errs    int64
	retries int
	once    []*Expr // asserted for one query only, see Check
}

var solverGen uint32

var solverBin = "z3"

func newSolver(ctx *Ctx, timeoutMs int) *Solver {
	s := &Solver{ctx: ctx, tmo: timeoutMs}
	if p := os.Getenv("GOSYM_SMTLOG"); p != "" {
		f, _ := os.Create(fmt.Sprintf("%s.%d", p, atomic.LoadUint32(&solverGen)))
		s.log = f
	}
	s.start()
	return s
}

func (s *Solver) start() {
	s.gen = atomic.AddUint32(&solverGen, 1)
	s.stack = nil
	s.vars = nil
	s.defs = 0
	s.cmd = exec.Command(solverBin, "-in", "-smt2")
	var err error
	s.in, err = s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	o, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.out = bufio.NewReaderSize(o, 1<<16)
	if err := s.cmd.Start(); err != nil {
		panic(fmt.Sprintf("cannot start %s: %v", solverBin, err))
	}
	s.send(fmt.Sprintf("(set-option :global-declarations true)\n(set-option :produce-models true)\n(set-option :timeout %d)\n(set-logic QF_BV)\n", s.tmo))
}

func (s *Solver) send(t string) {
	if s.log != nil {
		io.WriteString(s.log, t)
	}
	io.WriteString(s.in, t)
}

func (s *Solver) close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) restart() {
	s.close()
	s.start()
}

func (s *Solver) readLine() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

// readSexp reads one balanced s-expression.
func (s *Solver) readSexp() (string, error) {
	var sb strings.Builder
	depth := 0
	started := false
	inBar := false
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			return sb.String(), err
		}
		sb.WriteByte(b)
		if inBar {
			if b == '|' {
				inBar = false
			}
			continue
		}
		switch b {
		case '|':
			inBar = true
		case '(':
			depth++
			started = true
		case ')':
			depth--
		}
		if started && depth == 0 {
			return sb.String(), nil
		}
	}
}

// Check decides pc ∧ extra. On sat it returns a model of all variables known to the solver.
func (s *Solver) Check(pc []*Expr, extra *Expr, wantModel bool) (Verdict, Model) {
	v, m := s.check(pc, extra, wantModel)
	if v != vUnknown || s.retries >= 8 {
		return v, m
	}
	// once more, in a process of its own and all at once, where the solver simplifies more
	s.retries++
	s.restart()
	all := append(append([]*Expr(nil), pc...), extra)
	s.once = all[:len(all)-1]
	v, m = s.check(nil, extra, wantModel)
	s.once = nil
	s.restart()
	if v != vUnknown {
		s.unk--
		s.queries--
	}
	return v, m
}

// Patient decides pc ∧ extra in a fresh process with plenty of time.
func (s *Solver) Patient(pc []*Expr, extra *Expr) (Verdict, Model) {
	tmo := s.tmo
	s.tmo = 60000
	s.restart()
	v, m := s.check(pc, extra, false)
	s.tmo = tmo
	s.restart()
	return v, m
}

func (s *Solver) check(pc []*Expr, extra *Expr, wantModel bool) (Verdict, Model) {
	if s.defs > 200000 {
		s.restart()
	}
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		s.time += d
		if d > s.maxT {
			s.maxT = d
		}
	}()
	s.queries++
	var sb strings.Builder
	// sync stack
	n := 0
	for n < len(s.stack) && n < len(pc) && s.stack[n] == pc[n] {
		n++
	}
	if k := len(s.stack) - n; k > 0 {
		fmt.Fprintf(&sb, "(pop %d)\n", k)
		s.stack = s.stack[:n]
	}
	for _, e := range pc[n:] {
		emit(e, s.gen, &sb, &s.vars)
		fmt.Fprintf(&sb, "(push 1)\n(assert %s)\n", refSMT(e))
		s.stack = append(s.stack, e)
	}
	for _, e := range s.once {
		emit(e, s.gen, &sb, &s.vars)
		fmt.Fprintf(&sb, "(assert %s)\n", refSMT(e))
	}
	emit(extra, s.gen, &sb, &s.vars)
	s.defs += strings.Count(sb.String(), "define-fun")
	if s.once == nil {
		sb.WriteString("(push 1)\n")
	}
	fmt.Fprintf(&sb, "(assert %s)\n(check-sat)\n", refSMT(extra))
	proc := s.cmd.Process
	kill := time.AfterFunc(time.Duration(s.tmo)*3/2*time.Millisecond+time.Second, func() { proc.Kill() })
	defer kill.Stop()
	s.send(sb.String())
	l, err := s.readLine()
	for err == nil && l == "" {
		l, err = s.readLine()
	}
	if err != nil || strings.HasPrefix(l, "(error") {
		if err == nil {
			s.errs++
			fmt.Fprintln(os.Stderr, "solver:", l)
		}
		s.unk++
		s.restart()
		return vUnknown, nil
	}
	switch l {
	case "unsat":
		s.unsats++
		s.pop()
		return vUnsat, nil
	case "sat":
		s.sats++
		var m Model
		if wantModel {
			m = Model{}
			if len(s.vars) > 0 {
				sb.Reset()
				sb.WriteString("(get-value (")
				for _, v := range s.vars {
					sb.WriteString(refSMT(v))
					sb.WriteByte(' ')
				}
				sb.WriteString("))\n")
				s.send(sb.String())
				x, err := s.readSexp()
				if err != nil || strings.HasPrefix(strings.TrimSpace(x), "(error") {
					s.errs++
					s.unk++
					s.restart()
					return vUnknown, nil
				}
				parseModel(x, s.ctx, m)
			}
		}
		s.pop()
		return vSat, m
	}
	s.unk++
	s.restart() // an interrupted solver may have lost an assertion
	return vUnknown, nil
}

func (s *Solver) pop() {
	if s.once == nil {
		s.send("(pop 1)\n")
	}
}

func parseModel(x string, ctx *Ctx, m Model) {
	// ((|name| #x00) (|n2| true) ...)
	for i := 0; i < len(x); {
		j := strings.IndexByte(x[i:], '|')
		if j < 0 {
			// unquoted names
			break
		}
		i += j + 1
		k := strings.IndexByte(x[i:], '|')
		name := x[i : i+k]
		i += k + 1
		e := strings.IndexByte(x[i:], ')')
		val := strings.TrimSpace(x[i : i+e])
		i += e
		v := ctx.vars[name]
		if v == nil {
			continue
		}
		switch {
		case val == "true":
			m[v] = 1
		case val == "false":
			m[v] = 0
		case strings.HasPrefix(val, "#x"):
			u, _ := strconv.ParseUint(val[2:], 16, 64)
			m[v] = u
		case strings.HasPrefix(val, "#b"):
			u, _ := strconv.ParseUint(val[2:], 2, 64)
			m[v] = u
		case strings.HasPrefix(val, "(_ bv"):
			f := strings.Fields(val)
			u, _ := strconv.ParseUint(strings.TrimPrefix(f[1], "bv"), 10, 64)
			m[v] = u
		}
	}
}
