package main

import (
	"bufio"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"strings"
	"time"
)

// Solver drives one SMT process incrementally.
type Solver struct {
	cmd      *exec.Cmd
	in       *bufio.Writer
	inc      io.WriteCloser
	out      *bufio.Reader
	ts       *TermStore
	stack    []*Term       // asserted, one level each
	defined  map[*Term]int // term -> level at which it was defined
	levelDef [][]*Term
	Queries  int
	Sat      int
	Unsat    int
	Unknown  int
	Time     time.Duration
	MaxTime  time.Duration
	path     string
	timeout  time.Duration
	errors   []string
	log      io.Writer
}

func NewSolver(ts *TermStore, path string, timeout time.Duration) *Solver {
	s := &Solver{ts: ts, path: path, timeout: timeout}
	if f := os.Getenv("GOSYM_SMTLOG"); f != "" {
		w, _ := os.Create(f)
		s.log = w
	}
	s.start()
	return s
}

func (s *Solver) start() {
	s.stack = nil
	s.defined = map[*Term]int{}
	s.levelDef = [][]*Term{nil}
	s.cmd = exec.Command(s.path, "-in", "-smt2")
	inc, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.inc = inc
	s.in = bufio.NewWriterSize(inc, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.send("(set-option :print-success false)\n")
	s.send("(set-option :produce-models true)\n")
	s.send(fmt.Sprintf("(set-option :timeout %d)\n", s.timeout.Milliseconds()))
	s.send("(set-logic QF_BV)\n")
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.inc.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Solver) send(x string) {
	s.in.WriteString(x)
	if s.log != nil {
		io.WriteString(s.log, x)
	}
}

func (s *Solver) ref(t *Term) string {
	switch t.op {
	case OpConst:
		return t.constSMT()
	case OpVar:
		return "|" + t.name + "|"
	}
	return fmt.Sprintf("t%d", t.id)
}

// define emits declarations for t and everything below it at the current level.
func (s *Solver) define(t *Term) {
	if t.op == OpConst {
		return
	}
	if _, ok := s.defined[t]; ok {
		return
	}
	for _, a := range t.a {
		if a != nil {
			s.define(a)
		}
	}
	lvl := len(s.levelDef) - 1
	s.defined[t] = lvl
	s.levelDef[lvl] = append(s.levelDef[lvl], t)
	if t.op == OpVar {
		s.send(fmt.Sprintf("(declare-const |%s| %s)\n", t.name, t.sortName()))
		return
	}
	var body string
	switch t.op {
	case OpExtract:
		body = fmt.Sprintf("((_ extract %d %d) %s)", t.hi, t.lo, s.ref(t.a[0]))
	case OpZext:
		body = fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a[0].w, s.ref(t.a[0]))
	case OpSext:
		body = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a[0].w, s.ref(t.a[0]))
	default:
		body = "(" + opNames[t.op]
		for _, a := range t.a {
			if a != nil {
				body += " " + s.ref(a)
			}
		}
		body += ")"
	}
	s.send(fmt.Sprintf("(define-fun t%d () %s %s)\n", t.id, t.sortName(), body))
}

func (s *Solver) push() {
	s.send("(push 1)\n")
	s.levelDef = append(s.levelDef, nil)
}

func (s *Solver) pop() {
	s.send("(pop 1)\n")
	l := len(s.levelDef) - 1
	for _, t := range s.levelDef[l] {
		delete(s.defined, t)
	}
	s.levelDef = s.levelDef[:l]
}

func (s *Solver) sync(pc []*Term) {
	n := 0
	for n < len(pc) && n < len(s.stack) && pc[n] == s.stack[n] {
		n++
	}
	for len(s.stack) > n {
		s.pop()
		s.stack = s.stack[:len(s.stack)-1]
	}
	for _, t := range pc[n:] {
		s.push()
		s.define(t)
		s.send("(assert " + s.ref(t) + ")\n")
		s.stack = append(s.stack, t)
	}
}

type Result int

const (
	RUnsat Result = iota
	RSat
	RUnknown
)

// Check decides pc ∧ extra; on sat returns a model.
func (s *Solver) Check(pc []*Term, extra *Term) (Result, *Model) {
	t0 := time.Now()
	s.sync(pc)
	s.push()
	if extra != nil {
		s.define(extra)
		s.send("(assert " + s.ref(extra) + ")\n")
	}
	s.send("(check-sat)\n")
	s.in.Flush()
	line, err := s.readLine()
	d := time.Since(t0)
	s.Queries++
	s.Time += d
	if d > s.MaxTime {
		s.MaxTime = d
	}
	if err != nil {
		s.errors = append(s.errors, "solver died: "+err.Error())
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.start()
		s.Unknown++
		return RUnknown, nil
	}
	var res Result
	var m *Model
	switch {
	case line == "sat":
		res = RSat
		s.Sat++
		m = s.model()
	case line == "unsat":
		res = RUnsat
		s.Unsat++
	default:
		res = RUnknown
		s.Unknown++
		if strings.HasPrefix(line, "(error") {
			s.errors = append(s.errors, line)
			s.Close()
			s.start()
			return RUnknown, nil
		}
	}
	s.pop()
	return res, m
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

func (s *Solver) model() *Model {
	m := &Model{vals: map[string]*big.Int{}, memo: map[*Term]*Term{}, ts: s.ts}
	var vars []*Term
	for t := range s.defined {
		if t.op == OpVar {
			vars = append(vars, t)
		}
	}
	if len(vars) == 0 {
		return m
	}
	var sb strings.Builder
	sb.WriteString("(get-value (")
	for _, v := range vars {
		sb.WriteString("|" + v.name + "| ")
	}
	sb.WriteString("))\n")
	s.send(sb.String())
	s.in.Flush()
	// read balanced s-expression
	depth := 0
	started := false
	var buf strings.Builder
	inBar := false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return m
		}
		buf.WriteByte(c)
		if c == '|' {
			inBar = !inBar
		}
		if inBar {
			continue
		}
		if c == '(' {
			depth++
			started = true
		}
		if c == ')' {
			depth--
		}
		if started && depth == 0 {
			break
		}
	}
	txt := buf.String()
	byName := map[string]*Term{}
	for _, v := range vars {
		byName[v.name] = v
	}
	// entries: (|name| value) or (name value)
	i := 0
	next := func() string {
		for i < len(txt) && (txt[i] == ' ' || txt[i] == '\n' || txt[i] == '(' || txt[i] == ')' || txt[i] == '\t' || txt[i] == '\r') {
			i++
		}
		if i >= len(txt) {
			return ""
		}
		st := i
		if txt[i] == '|' {
			i++
			for i < len(txt) && txt[i] != '|' {
				i++
			}
			i++
			return txt[st+1 : i-1]
		}
		for i < len(txt) && txt[i] != ' ' && txt[i] != '\n' && txt[i] != ')' && txt[i] != '(' {
			i++
		}
		return txt[st:i]
	}
	for {
		name := next()
		if name == "" {
			break
		}
		val := next()
		b := new(big.Int)
		switch {
		case val == "true":
			b.SetInt64(1)
		case val == "false":
		case strings.HasPrefix(val, "#x"):
			b.SetString(val[2:], 16)
		case strings.HasPrefix(val, "#b"):
			b.SetString(val[2:], 2)
		default:
			s.errors = append(s.errors, "cannot parse model value "+val)
		}
		m.vals[name] = b
	}
	return m
}
