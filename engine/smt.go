package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

type SatRes int

const (
	Unsat SatRes = iota
	Sat
	Unknown
)

type SolverStats struct {
	queries, sat, unsat, unknown, fallback int64
	timeNS                                 int64
}

var gStats SolverStats

// Solver drives one incremental SMT process (z3 -in).
type Solver struct {
	tt        *TermTab
	cmd       *exec.Cmd
	in        *bufio.Writer
	out       *bufio.Reader
	inC       io.WriteCloser
	gen       int
	defs      int
	stack     []*Term // asserted, one level each
	declared  map[string]bool
	timeoutMS int
	name      string
	args      []string
	log       io.Writer
}

var genCounter int64

func NewSolver(tt *TermTab, timeoutMS int) *Solver {
	s := &Solver{tt: tt, timeoutMS: timeoutMS, name: *flagSolver, args: []string{"-in"}}
	if p := os.Getenv("SMTLOG"); p != "" {
		f, _ := os.Create(fmt.Sprintf("%s.%d", p, atomic.AddInt64(&genCounter, 1)))
		s.log = f
	}
	s.start()
	return s
}

func (s *Solver) start() {
	s.gen = int(atomic.AddInt64(&genCounter, 1))
	s.cmd = exec.Command(s.name, s.args...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := s.cmd.Start(); err != nil {
		panic(fmt.Sprintf("cannot start solver: %v", err))
	}
	s.inC = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.stack = nil
	s.defs = 0
	s.declared = map[string]bool{}
	s.send("(set-option :global-declarations true)\n")
	s.send("(set-option :produce-models true)\n")
	s.send(fmt.Sprintf("(set-option :timeout %d)\n", s.timeoutMS))
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.inC.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) restart() {
	s.Close()
	s.start()
}

func (s *Solver) send(str string) {
	if s.log != nil {
		io.WriteString(s.log, str)
	}
	s.in.WriteString(str)
}

func (s *Solver) define(t *Term) {
	switch t.op {
	case OpConst:
		return
	case OpVar:
		if !s.declared[t.name] {
			s.declared[t.name] = true
			s.send(fmt.Sprintf("(declare-fun |%s| () %s)\n", t.name, sortStr(t.w)))
		}
		return
	}
	if t.defTag == s.gen {
		return
	}
	for i := 0; i < t.n; i++ {
		s.define(t.a[i])
	}
	t.defTag = s.gen
	s.defs++
	s.send(fmt.Sprintf("(define-fun t%d () %s %s)\n", t.id, sortStr(t.w), body(t)))
}

func (s *Solver) readLine() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

// sync makes the asserted stack equal to pc.
func (s *Solver) sync(pc []*Term) {
	if s.defs > 60000 {
		s.restart()
	}
	k := 0
	for k < len(pc) && k < len(s.stack) && pc[k] == s.stack[k] {
		k++
	}
	if n := len(s.stack) - k; n > 0 {
		s.send(fmt.Sprintf("(pop %d)\n", n))
		s.stack = s.stack[:k]
	}
	for ; k < len(pc); k++ {
		s.define(pc[k])
		s.send(fmt.Sprintf("(push 1)\n(assert %s)\n", ref(pc[k])))
		s.stack = append(s.stack, pc[k])
	}
}

func collectVars(ts []*Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if t.op == OpConst || seen[t] {
			return
		}
		seen[t] = true
		if t.op == OpVar {
			out = append(out, t)
			return
		}
		for i := 0; i < t.n; i++ {
			walk(t.a[i])
		}
	}
	for _, t := range ts {
		walk(t)
	}
	return out
}

// Check decides pc ∧ extra. With sat it returns a model of the variables.
func (s *Solver) Check(pc []*Term, extra ...*Term) (SatRes, Model) {
	t0 := time.Now()
	atomic.AddInt64(&gStats.queries, 1)
	res, m := s.check1(pc, extra)
	if res == Unknown {
		atomic.AddInt64(&gStats.fallback, 1)
		res, m = s.fallback(pc, extra)
	}
	if d := time.Since(t0); d > 3*time.Second && os.Getenv("SLOWQ") != "" {
		fmt.Fprintf(os.Stderr, "slow query %.1fs res=%d: %s\n", d.Seconds(), res, extra[len(extra)-1].str(7))
	}
	atomic.AddInt64(&gStats.timeNS, int64(time.Since(t0)))
	switch res {
	case Sat:
		atomic.AddInt64(&gStats.sat, 1)
	case Unsat:
		atomic.AddInt64(&gStats.unsat, 1)
	default:
		atomic.AddInt64(&gStats.unknown, 1)
	}
	return res, m
}

func (s *Solver) check1(pc []*Term, extra []*Term) (SatRes, Model) {
	s.sync(pc)
	for _, e := range extra {
		s.define(e)
	}
	s.send("(push 1)\n")
	for _, e := range extra {
		s.send(fmt.Sprintf("(assert %s)\n", ref(e)))
	}
	s.send("(check-sat)\n")
	s.in.Flush()
	l, err := s.readLine()
	if err != nil {
		s.restart()
		return Unknown, nil
	}
	var res SatRes
	var m Model
	switch l {
	case "unsat":
		res = Unsat
	case "sat":
		res = Sat
		vars := collectVars(append(append([]*Term{}, pc...), extra...))
		var ok bool
		m, ok = s.getModel(vars)
		if !ok {
			return Unknown, nil
		}
	default:
		res = Unknown
		if strings.HasPrefix(l, "(error") {
			fmt.Fprintln(os.Stderr, "SOLVER ERROR:", l)
			s.restart()
			return Unknown, nil
		}
	}
	s.send("(pop 1)\n")
	return res, m
}

func (s *Solver) getModel(vars []*Term) (Model, bool) {
	m := Model{}
	if len(vars) == 0 {
		return m, true
	}
	var sb strings.Builder
	sb.WriteString("(get-value (")
	for _, v := range vars {
		sb.WriteString(ref(v))
		sb.WriteByte(' ')
	}
	sb.WriteString("))\n")
	s.send(sb.String())
	s.in.Flush()
	depth := 0
	started := false
	var txt strings.Builder
	for !started || depth > 0 {
		l, err := s.out.ReadString('\n')
		if err != nil {
			s.restart()
			return nil, false
		}
		inBar := false
		for _, c := range l {
			switch c {
			case '|':
				inBar = !inBar
			case '(':
				if !inBar {
					depth++
					started = true
				}
			case ')':
				if !inBar {
					depth--
				}
			}
		}
		txt.WriteString(l)
		if !started && strings.TrimSpace(l) != "" {
			break
		}
	}
	parseModel(txt.String(), m)
	if len(m) < len(vars) {
		fmt.Fprintln(os.Stderr, "SOLVER MODEL PARSE:", txt.String())
		s.restart()
		return nil, false
	}
	return m, true
}

func parseModel(txt string, m Model) {
	// tokens: ((|x| #x..) (y #b..) (z true))
	i := 0
	n := len(txt)
	next := func() string {
		for i < n && (txt[i] == ' ' || txt[i] == '\n' || txt[i] == '(' || txt[i] == ')' || txt[i] == '\t' || txt[i] == '\r') {
			i++
		}
		if i >= n {
			return ""
		}
		j := i
		if txt[i] == '|' {
			j++
			for j < n && txt[j] != '|' {
				j++
			}
			j++
			r := txt[i+1 : j-1]
			i = j
			return r
		}
		for j < n && txt[j] != ' ' && txt[j] != '\n' && txt[j] != '(' && txt[j] != ')' {
			j++
		}
		r := txt[i:j]
		i = j
		return r
	}
	for {
		name := next()
		if name == "" {
			return
		}
		v := next()
		switch {
		case v == "true":
			m[name] = 1
		case v == "false":
			m[name] = 0
		case strings.HasPrefix(v, "#x"):
			u, _ := strconv.ParseUint(v[2:], 16, 64)
			m[name] = u
		case strings.HasPrefix(v, "#b"):
			u, _ := strconv.ParseUint(v[2:], 2, 64)
			m[name] = u
		case v == "_":
			// (_ bvN w)
			bv := next()
			next()
			u, _ := strconv.ParseUint(strings.TrimPrefix(bv, "bv"), 10, 64)
			m[name] = u
		}
	}
}

// script renders a standalone SMT-LIB problem.
func script(ts []*Term, getModel bool) (string, []*Term) {
	var sb strings.Builder
	sb.WriteString("(set-option :produce-models true)\n(set-logic ALL)\n")
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t.op == OpConst || seen[t] {
			return
		}
		seen[t] = true
		if t.op == OpVar {
			fmt.Fprintf(&sb, "(declare-fun |%s| () %s)\n", t.name, sortStr(t.w))
			return
		}
		for i := 0; i < t.n; i++ {
			walk(t.a[i])
		}
		fmt.Fprintf(&sb, "(define-fun t%d () %s %s)\n", t.id, sortStr(t.w), body(t))
	}
	for _, t := range ts {
		walk(t)
		fmt.Fprintf(&sb, "(assert %s)\n", ref(t))
	}
	sb.WriteString("(check-sat)\n")
	vars := collectVars(ts)
	if getModel && len(vars) > 0 {
		sb.WriteString("(get-value (")
		for _, v := range vars {
			sb.WriteString(ref(v) + " ")
		}
		sb.WriteString("))\n")
	}
	return sb.String(), vars
}

type altSolver struct {
	name string
	args []string
	fp   bool
}

// fallback races standalone solver runs on the query.
func (s *Solver) fallback(pc []*Term, extra []*Term) (SatRes, Model) {
	ts := append(append([]*Term{}, pc...), extra...)
	fp := false
	seen := map[*Term]bool{}
	for _, t := range ts {
		if usesFP(t, seen) {
			fp = true
		}
	}
	txt, vars := script(ts, true)
	sec := *flagFallback
	alts := []altSolver{{"z3-new", []string{"-in", fmt.Sprintf("-T:%d", sec)}, true}, {"z3", []string{"-in", fmt.Sprintf("-T:%d", sec)}, true}}
	if !fp {
		alts = append(alts, altSolver{"cvc5", []string{"--lang=smt2", "--produce-models", fmt.Sprintf("--tlimit=%d", sec*1000), "-q"}, false})
		alts = append(alts, altSolver{"cvc5", []string{"--lang=smt2", "--produce-models", "--solve-bv-as-int=sum", fmt.Sprintf("--tlimit=%d", sec*1000), "-q"}, false})
	}
	type rr struct {
		r SatRes
		m Model
	}
	ch := make(chan rr, len(alts))
	var cmds []*exec.Cmd
	for _, a := range alts {
		cmd := exec.Command(a.name, a.args...)
		cmd.Stdin = strings.NewReader(txt)
		cmds = append(cmds, cmd)
		go func(cmd *exec.Cmd) {
			out, _ := cmd.Output()
			str := strings.TrimSpace(string(out))
			switch {
			case strings.Contains(str, "(error") && !strings.HasPrefix(str, "unsat"):
				ch <- rr{Unknown, nil}
			case strings.HasPrefix(str, "unsat"):
				ch <- rr{Unsat, nil}
			case strings.HasPrefix(str, "sat"):
				m := Model{}
				parseModel(str[3:], m)
				if len(m) < len(vars) {
					ch <- rr{Unknown, nil}
				} else {
					ch <- rr{Sat, m}
				}
			default:
				ch <- rr{Unknown, nil}
			}
		}(cmd)
	}
	res := rr{Unknown, nil}
	for range alts {
		r := <-ch
		if r.r != Unknown {
			res = r
			break
		}
	}
	for _, c := range cmds {
		if c.Process != nil {
			c.Process.Kill()
		}
	}
	return res.r, res.m
}
