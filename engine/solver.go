package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

// Solver drives one incremental z3 process.  The assertion stack mirrors the
// current path condition; only the differing suffix is popped/pushed.
type Solver struct {
	cmd     *exec.Cmd
	in      *bufio.Writer
	out     *bufio.Reader
	inC     io.WriteCloser
	stack   []*Term
	gen     uint32
	defs    int
	Queries int64
	Sat_    int64
	Unsat_  int64
	Unk     int64
	Time    time.Duration
	Errs    []string
	timeout int
	dead    bool
}

var solverGen uint32

const retryTimeout = 60000

func newSolver() *Solver {
	s := &Solver{timeout: 10000}
	s.start()
	return s
}

func (s *Solver) start() {
	solverGenMu.Lock()
	solverGen++
	s.gen = solverGen
	solverGenMu.Unlock()
	s.cmd = exec.Command(z3Path, "-in", "-smt2")
	in, _ := s.cmd.StdinPipe()
	out, _ := s.cmd.StdoutPipe()
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.inC = in
	var w io.Writer = in
	if d := os.Getenv("SYMGO_LOG"); d != "" {
		f, _ := os.Create(fmt.Sprintf("%s/z3-%d.smt2", d, s.gen))
		w = io.MultiWriter(in, f)
	}
	s.in = bufio.NewWriterSize(w, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.stack = nil
	s.defs = 0
	fmt.Fprintf(s.in, "(set-option :global-declarations true)\n(set-option :timeout %d)\n(set-option :produce-models true)\n", s.timeout)
}

func (s *Solver) close() {
	if s.cmd != nil {
		s.inC.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) restart() {
	s.close()
	s.start()
}

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func (s *Solver) ref(t *Term) string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.val == 1 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", t.val, t.w)
	}
	if t.defd != s.gen {
		s.define(t)
	}
	if t.op == OVar {
		return fmt.Sprintf("v%d", t.val)
	}
	return fmt.Sprintf("t%d", t.id)
}

func (s *Solver) define(t *Term) {
	if t.op == OVar {
		fmt.Fprintf(s.in, "(declare-const v%d %s)\n", t.val, sortName(t.w))
		t.defd = s.gen
		return
	}
	// iterative for deep terms
	var body string
	switch t.op {
	case OZExt:
		body = fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, s.ref(t.a))
	case OSExt:
		body = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, s.ref(t.a))
	case OExtract:
		body = fmt.Sprintf("((_ extract %d 0) %s)", t.w-1, s.ref(t.a))
	default:
		args := s.ref(t.a)
		if t.b != nil {
			args += " " + s.ref(t.b)
		}
		if t.c != nil {
			args += " " + s.ref(t.c)
		}
		body = "(" + opNames[t.op] + " " + args + ")"
	}
	fmt.Fprintf(s.in, "(define-fun t%d () %s %s)\n", t.id, sortName(t.w), body)
	s.defs++
	t.defd = s.gen
}

func (s *Solver) readLine() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

// Check decides pc ∧ extra.  On Sat, a model over vars is returned.
func (s *Solver) Check(pc []*Term, extra *Term, vars []*Term) (Result, Model) {
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	s.Queries++
	// synchronise stack
	n := 0
	for n < len(s.stack) && n < len(pc) && s.stack[n] == pc[n] {
		n++
	}
	if d := len(s.stack) - n; d > 0 {
		fmt.Fprintf(s.in, "(pop %d)\n", d)
		s.stack = s.stack[:n]
	}
	for _, t := range pc[n:] {
		r := s.ref(t)
		fmt.Fprintf(s.in, "(push 1)\n(assert %s)\n", r)
		s.stack = append(s.stack, t)
	}
	if extra != nil {
		r := s.ref(extra)
		fmt.Fprintf(s.in, "(push 1)\n(assert %s)\n", r)
	}
	fmt.Fprintf(s.in, "(check-sat)\n")
	s.in.Flush()
	ans, err := s.readLine()
	for err == nil && strings.HasPrefix(ans, "(error") {
		s.Errs = append(s.Errs, ans)
		ans, err = s.readLine()
	}
	if err != nil {
		s.Errs = append(s.Errs, "solver died")
		s.restart()
		s.Unk++
		return Unknown, nil
	}
	var res Result
	var m Model
	switch ans {
	case "sat":
		res = Sat
		s.Sat_++
		m = s.model(vars)
	case "unsat":
		res = Unsat
		s.Unsat_++
	default:
		if s.timeout < retryTimeout {
			// once more in a fresh solver with more time
			old := s.timeout
			s.timeout = retryTimeout
			s.restart()
			res, m = s.Check(pc, extra, vars)
			s.timeout = old
			s.restart()
			return res, m
		}
		res = Unknown
		s.Unk++
	}
	if extra != nil {
		fmt.Fprintf(s.in, "(pop 1)\n")
	}
	if len(s.Errs) > 0 && res == Unsat {
		res = Unknown
	}
	return res, m
}

func (s *Solver) model(vars []*Term) Model {
	m := Model{}
	var q []*Term
	for _, v := range vars {
		if v.defd == s.gen {
			q = append(q, v)
		}
	}
	if len(q) == 0 {
		return m
	}
	var sb strings.Builder
	sb.WriteString("(get-value (")
	for _, v := range q {
		sb.WriteString(s.ref(v) + " ")
	}
	sb.WriteString("))\n")
	s.in.WriteString(sb.String())
	s.in.Flush()
	depth := 0
	var txt strings.Builder
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return m
		}
		txt.WriteString(l)
		depth += strings.Count(l, "(") - strings.Count(l, ")")
		if depth <= 0 {
			break
		}
	}
	toks := strings.FieldsFunc(txt.String(), func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' })
	vals := map[string]uint64{}
	for i := 0; i+1 < len(toks); i += 2 {
		v := toks[i+1]
		switch {
		case strings.HasPrefix(v, "#x"):
			n, _ := strconv.ParseUint(v[2:], 16, 64)
			vals[toks[i]] = n
		case strings.HasPrefix(v, "#b"):
			n, _ := strconv.ParseUint(v[2:], 2, 64)
			vals[toks[i]] = n
		case v == "true":
			vals[toks[i]] = 1
		case v == "false":
			vals[toks[i]] = 0
		}
	}
	for _, v := range q {
		m[v] = vals[fmt.Sprintf("v%d", v.val)]
	}
	return m
}
