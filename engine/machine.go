package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Machine symbolically executes one harness.
type Machine struct {
	prog      *Program
	ts        *TermStore
	solver    *Solver
	cache     map[string]*cached
	weak      map[*Term]bool
	derived   []func(*Model)
	CacheHits int
	globals   map[*ssa.Global]*Value
	inited    map[*ssa.Package]bool
	frames    []*Frame
	trail     []undo
	noTrail   int
	nested    int

	pc    []*Term
	model *Model

	// decisions of the instruction being executed
	dec      []decision
	decPos   int
	insTrail int
	insPC    int
	insLog   int
	choices  []*choicePoint

	inputs                  []input // symbolic inputs and choices in call order (trailed by length)
	nfresh                  int
	reached                 map[string]int
	steps                   int64
	pathSteps               int64
	insSteps                int64
	insFresh                int
	forkN, insForkN         int
	forkH, insForkH         uint64
	shardDepth              int
	pathReach               []string // trailed by length
	insReach                int
	pathAsserts, insAsserts int
	otherShard              int
	onPath                  func(m *Machine)
	onCut                   func(m *Machine)
	known                   func(id string) bool
	tier                    string
	finding                 string

	// per-path extension state (trailed)
	hashes []*hashRec
	sigs   []*sigRec
	nextID int

	// results
	Paths        int
	Asserts      int
	AssertVCs    int
	Forks        int
	Ends         map[string]int
	Violations   []*Violation
	Incomplete   map[string]int
	seenViol     map[string]bool
	funcs        map[*ssa.Function]int
	deadline     time.Time
	cut          *atomic.Int64
	maxPaths     int
	assumes      map[string]int
	trace        bool
	covMode      bool
	mapOrder     bool
	mapOrders    map[mapSite][]int
	shard        int
	shards       int
	stop         bool
	lastPos      string
	stdSteps     int64
	typeKeys     map[string]types.Type
	caches       map[string]interface{}
	inInit       bool
	pathNote     []string
	bases        []int
	nextTok      int
	aux          *Term
	nestedResult Value
	initing      map[*ssa.Package]bool
}

type input struct {
	name string
	kind string // int, bytes, bool, choice
	t    []*Term
	v    int
	w    int
}

type undo struct {
	p   *Value
	old Value
	fn  func()
}

type decision struct {
	val    int
	cond   *Term // condition asserted for this decision (nil: none)
	forced bool
	aux    *Term
}

type choicePoint struct {
	trail    int
	frames   []*Frame
	pc       int
	dec      []decision
	model    *Model
	logN     int
	steps    int64
	forkN    int
	forkH    uint64
	reachN   int
	asserts  int
	mapOrder bool
}

type Frame struct {
	fn     *ssa.Function
	info   *fnInfo
	block  *ssa.BasicBlock
	prev   *ssa.BasicBlock
	ip     int
	env    []Value
	fv     []Value
	defers []deferred
	shared bool
	// how to deliver the result to the caller
	retTo     ssa.Value // register of the caller's call instruction (nil: discard)
	noAdv     bool      // do not advance caller (deferred call)
	panicking *panicState
	tag       string
}

type panicState struct {
	v         Value // *Iface
	recovered bool
	where     string
}

type deferred struct {
	fn   *Closure
	args []Value
	nat  func(m *Machine)
}

type GoPanic struct{ v Value }

type pathEnd struct{ why string }

type Violation struct {
	Kind    string     `json:"kind"`
	Msg     string     `json:"msg"`
	Where   string     `json:"where"`
	Inputs  []InputVal `json:"inputs"`
	Notes   []string   `json:"notes,omitempty"`
	Harness string     `json:"harness"`
	Finding string     `json:"finding,omitempty"`
	Stack   []string   `json:"stack,omitempty"`
	Pad     int        `json:"pad,omitempty"`
}

type InputVal struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Val  string `json:"val"` // decimal for ints / choices, hex for bytes
}

type fnInfo struct {
	idx map[ssa.Value]int
	n   int
}

func NewMachine(p *Program, solverPath string, qto time.Duration) *Machine {
	m := &Machine{prog: p, ts: NewTermStore(), globals: map[*ssa.Global]*Value{}, inited: map[*ssa.Package]bool{},
		reached: map[string]int{}, Incomplete: map[string]int{}, seenViol: map[string]bool{}, funcs: map[*ssa.Function]int{},
		assumes: map[string]int{}, Ends: map[string]int{}, mapOrders: map[mapSite][]int{}, caches: map[string]interface{}{}, cache: map[string]*cached{}, weak: map[*Term]bool{}}
	m.solver = NewSolver(m.ts, solverPath, qto)
	m.model = &Model{vals: map[string]*big.Int{}, memo: map[*Term]*Term{}, ts: m.ts}
	return m
}

func (m *Machine) store(p *Value, v Value) {
	if m.noTrail == 0 {
		m.trail = append(m.trail, undo{p: p, old: *p})
	}
	*p = v
}

func (m *Machine) undoable(fn func()) {
	if m.noTrail == 0 {
		m.trail = append(m.trail, undo{fn: fn})
	}
}

func (m *Machine) undoTo(n int) {
	for i := len(m.trail) - 1; i >= n; i-- {
		u := &m.trail[i]
		if u.p != nil {
			*u.p = u.old
		} else {
			u.fn()
		}
		*u = undo{}
	}
	m.trail = m.trail[:n]
}

// storeVal writes v into the cell with value semantics, keeping interior
// pointers of aggregates valid.
func (m *Machine) storeVal(p *Value, v Value) {
	switch nv := v.(type) {
	case *Struct:
		if old, ok := (*p).(*Struct); ok && len(old.f) == len(nv.f) {
			if old == nv {
				return
			}
			// copy first: v may alias
			cp := copyVal(nv).(*Struct)
			for i := range old.f {
				m.storeVal(&old.f[i], cp.f[i])
			}
			return
		}
		m.store(p, copyVal(v))
	case *Array:
		if old, ok := (*p).(*Array); ok && len(old.e) == len(nv.e) {
			if old == nv {
				return
			}
			cp := copyVal(nv).(*Array)
			for i := range old.e {
				m.storeVal(&old.e[i], cp.e[i])
			}
			return
		}
		m.store(p, copyVal(v))
	default:
		m.store(p, v)
	}
}

func (m *Machine) top() *Frame {
	i := len(m.frames) - 1
	f := m.frames[i]
	if f.shared {
		c := *f
		c.shared = false
		c.env = append([]Value(nil), f.env...)
		c.defers = append([]deferred(nil), f.defers...)
		if f.panicking != nil {
			ps := *f.panicking
			c.panicking = &ps
		}
		m.frames[i] = &c
		return &c
	}
	return f
}

func (m *Machine) frameAt(i int) *Frame {
	f := m.frames[i]
	if f.shared {
		c := *f
		c.shared = false
		c.env = append([]Value(nil), f.env...)
		c.defers = append([]deferred(nil), f.defers...)
		if f.panicking != nil {
			ps := *f.panicking
			c.panicking = &ps
		}
		m.frames[i] = &c
		return &c
	}
	return f
}

func (m *Machine) snapshot() *choicePoint {
	if m.nested > 0 {
		unsupported("symbolic choice inside nested (engine-driven) execution")
	}
	fr := make([]*Frame, len(m.frames))
	copy(fr, m.frames)
	for _, f := range fr {
		f.shared = true
	}
	return &choicePoint{trail: m.insTrail, frames: fr, pc: m.insPC, logN: m.insLog, steps: m.insSteps - 1,
		forkN: m.insForkN, forkH: m.insForkH, reachN: m.insReach, asserts: m.insAsserts}
}

func (m *Machine) addPC(c *Term) {
	if c == nil || c.IsTrue() {
		return
	}
	m.pc = append(m.pc, c)
}

func (m *Machine) incomplete(why string) {
	m.Incomplete[why]++
}

// branch decides a symbolic condition, forking when both sides are feasible.
func (m *Machine) branch(c *Term) bool {
	if c.IsConst() {
		return c.v == 1
	}
	if m.nested > 0 {
		unsupported("symbolic branch inside nested execution")
	}
	if m.decPos < len(m.dec) {
		d := m.dec[m.decPos]
		m.decPos++
		if !d.forced {
			m.addPC(d.cond)
			m.noteFork(d.val)
		}
		return d.val == 1
	}
	v := m.model.Eval(c).IsTrue()
	pos, neg := c, m.ts.BNot(c)
	if !v {
		pos, neg = neg, pos
	}
	res, mod := m.query(neg)
	val := 0
	if v {
		val = 1
	}
	if res == RUnknown {
		m.incomplete("solver returned unknown for a branch condition; that side not explored")
	}
	if res == RSat {
		cp := m.snapshot()
		cp.dec = append(append([]decision(nil), m.dec...), decision{val: 1 - val, cond: neg, aux: m.aux})
		cp.model = mod
		m.choices = append(m.choices, cp)
		m.Forks++
		m.dec = append(m.dec, decision{val: val, cond: pos, aux: m.aux})
		m.decPos++
		m.addPC(pos)
		m.noteFork(val)
		return v
	}
	m.dec = append(m.dec, decision{val: val, cond: pos, forced: res == RUnsat, aux: m.aux})
	m.decPos++
	if res == RUnknown {
		m.addPC(pos)
	}
	return v
}

// choose is a free nondeterministic choice among n alternatives.
func (m *Machine) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if m.decPos < len(m.dec) {
		d := m.dec[m.decPos]
		m.decPos++
		m.noteFork(d.val)
		return d.val
	}
	if m.nested > 0 {
		unsupported("choice inside nested execution")
	}
	for i := n - 1; i >= 1; i-- {
		cp := m.snapshot()
		cp.dec = append(append([]decision(nil), m.dec...), decision{val: i})
		cp.model = m.model
		m.choices = append(m.choices, cp)
	}
	m.Forks += n - 1
	m.dec = append(m.dec, decision{val: 0})
	m.decPos++
	m.noteFork(0)
	return 0
}

// noteFork records a taken decision; paths whose first shardDepth decisions
// hash to another shard are left to that shard.
func (m *Machine) noteFork(val int) {
	m.forkN++
	if m.shards <= 1 || m.forkN > m.shardDepth {
		return
	}
	h := m.forkH ^ (uint64(val)+0x9e3779b97f4a7c15)*0xbf58476d1ce4e5b9
	h ^= h >> 29
	h *= 0x94d049bb133111eb
	h ^= h >> 32
	m.forkH = h
	if m.forkN == m.shardDepth && int(h%uint64(m.shards)) != m.shard {
		m.otherShard++
		panic(pathEnd{"other shard"})
	}
}

// assume restricts the path; ends it when unsatisfiable.
func (m *Machine) assume(c *Term) {
	if c.IsTrue() {
		return
	}
	if c.IsFalse() {
		panic(pathEnd{"assume"})
	}
	if m.nested > 0 {
		unsupported("symbolic assumption inside nested execution")
	}
	if m.model.Eval(c).IsTrue() {
		m.addPC(c)
		return
	}
	res, mod := m.query(c)
	switch res {
	case RSat:
		m.addPC(c)
		m.model = mod
	case RUnsat:
		panic(pathEnd{"assume"})
	default:
		m.incomplete("solver returned unknown for an assumption; path dropped")
		panic(pathEnd{"unknown"})
	}
}

// assertTerm checks c on the current path.
func (m *Machine) assertTerm(c *Term, msg string) {
	m.Asserts++
	if c.IsTrue() {
		return
	}
	if c.IsFalse() {
		m.violation("assert", msg, m.model)
		panic(pathEnd{"violated"})
	}
	m.AssertVCs++
	nc := m.ts.BNot(c)
	if m.model.Eval(nc).IsTrue() {
		m.violation("assert", msg, m.model)
	} else {
		res, mod := m.query(nc)
		switch res {
		case RSat:
			m.violation("assert", msg, mod)
		case RUnknown:
			m.incomplete("solver returned unknown for an assertion: " + msg)
		case RUnsat:
			m.addPC(c) // implied, keeps the context strong
			return
		}
	}
	m.assume(c)
}

func (m *Machine) where() string {
	for i := len(m.frames) - 1; i >= 0; i-- {
		f := m.frames[i]
		if f.fn == nil || f.fn.Pkg == nil {
			continue
		}
		if f.ip < len(f.block.Instrs) {
			pos := f.block.Instrs[f.ip].Pos()
			if pos.IsValid() {
				return m.prog.pos(pos)
			}
		}
	}
	return "?"
}

func (m *Machine) stack() []string {
	var r []string
	for i := len(m.frames) - 1; i >= 0 && len(r) < 25; i-- {
		f := m.frames[i]
		p := ""
		if f.block != nil && f.ip < len(f.block.Instrs) {
			if pos := f.block.Instrs[f.ip].Pos(); pos.IsValid() {
				p = m.prog.pos(pos)
			}
		}
		r = append(r, f.fn.String()+" "+p)
	}
	return r
}

func (m *Machine) violation(kind, msg string, mod *Model) {
	key := m.finding + "|" + kind + "|" + msg
	if m.seenViol[key] && len(m.Violations) > 40 {
		return
	}
	n := 0
	for _, v := range m.Violations {
		if v.Finding+"|"+v.Kind+"|"+v.Msg == key {
			n++
		}
	}
	if n >= 6 {
		return
	}
	m.seenViol[key] = true
	v := &Violation{Kind: kind, Msg: msg, Finding: m.finding, Where: m.where(), Stack: m.stack(), Notes: append([]string(nil), m.pathNote...)}
	v.Inputs = m.inputVals(mod)
	m.Violations = append(m.Violations, v)
	if m.cut != nil && (m.finding == "" || m.known == nil || !m.known(m.finding)) {
		// something to report: the rest of the exploration is cut short
		m.cut.CompareAndSwap(0, time.Now().Add(afterViolation).UnixNano())
	}
}

const afterViolation = 60 * time.Second

func (m *Machine) expired() bool {
	now := time.Now()
	if now.After(m.deadline) {
		return true
	}
	if m.cut == nil {
		return false
	}
	c := m.cut.Load()
	return c != 0 && now.UnixNano() > c
}

// inputVals evaluates the inputs of the current path in mod.
func (m *Machine) inputVals(mod *Model) (r []InputVal) {
	for _, in := range m.inputs {
		iv := InputVal{Name: in.name, Kind: in.kind}
		switch in.kind {
		case "choice":
			iv.Val = fmt.Sprint(in.v)
		case "bytes":
			var sb strings.Builder
			for _, t := range in.t {
				fmt.Fprintf(&sb, "%02x", mod.Eval(t).v)
			}
			iv.Val = sb.String()
		case "bool":
			iv.Val = fmt.Sprint(mod.Eval(in.t[0]).v)
		default:
			iv.Val = mod.Eval(in.t[0]).bigVal().String()
		}
		r = append(r, iv)
	}
	return r
}

func (m *Machine) goPanic(msg string) {
	panic(GoPanic{m.runtimeError(msg)})
}

func (m *Machine) runtimeError(msg string) Value {
	t := m.prog.modelType("RuntimeError")
	if t == nil {
		return &Iface{t: types.Typ[types.String], v: str(msg)}
	}
	return &Iface{t: t, v: &Struct{f: []Value{str(msg)}}}
}

// ---------------------------------------------------------------- running

func (m *Machine) pushCall(fn *ssa.Function, fv []Value, args []Value, retTo ssa.Value, noAdv bool) *Frame {
	if fn.Blocks == nil {
		unsupported("external function %s", fn.String())
	}
	if len(m.frames) > 400 {
		unsupported("call depth exceeded in %s", fn.String())
	}
	info := m.prog.infoOf(fn)
	f := &Frame{fn: fn, info: info, block: fn.Blocks[0], env: make([]Value, info.n), fv: fv, retTo: retTo, noAdv: noAdv}
	for i, p := range fn.Params {
		f.env[info.idx[p]] = args[i]
	}
	m.frames = append(m.frames, f)
	m.funcs[fn]++
	return f
}

// Run explores all paths of the harness function.
func (m *Machine) Run(fn *ssa.Function) {
	m.frames = nil
	m.pushCall(fn, nil, nil, nil, false)
	for {
		why := m.runPath()
		if why != "other shard" && !(m.shards > 1 && m.forkN < m.shardDepth && int(m.forkH%uint64(m.shards)) != m.shard) {
			m.Paths++
			m.Ends[endClass(why)]++
			if why == "done" && m.onPath != nil {
				m.onPath(m)
			}
			if m.onCut != nil && (strings.HasPrefix(why, "outside encoded") || strings.HasPrefix(why, "engine error")) {
				m.onCut(m)
			}
		}
		if m.trace {
			fmt.Fprintf(os.Stderr, "path %d end: %s (choices %d) \n", m.Paths, why, len(m.choices))
		}
		if len(m.choices) == 0 {
			return
		}
		if m.expired() {
			m.incomplete(fmt.Sprintf("time budget exhausted with open branches (%d paths explored)", m.Paths))
			return
		}
		if m.maxPaths > 0 && m.Paths >= m.maxPaths {
			m.incomplete(fmt.Sprintf("path budget %d exhausted with open branches", m.maxPaths))
			return
		}
		if m.stop {
			return
		}
		cp := m.choices[len(m.choices)-1]
		m.choices = m.choices[:len(m.choices)-1]
		m.undoTo(cp.trail)
		m.frames = append([]*Frame(nil), cp.frames...)
		m.pc = m.pc[:cp.pc]
		m.inputs = m.inputs[:cp.logN]
		m.forkN, m.forkH = cp.forkN, cp.forkH
		m.pathReach = m.pathReach[:cp.reachN]
		m.pathAsserts = cp.asserts
		m.dec = cp.dec
		m.decPos = 0
		m.model = cp.model
		m.pathSteps = cp.steps
	}
}

func (m *Machine) runPath() (why string) {
	first := true
	for {
		if len(m.frames) == 0 {
			return "done"
		}
		if !first {
			m.dec = m.dec[:0:0]
			m.decPos = 0
		}
		first = false
		m.insTrail = len(m.trail)
		m.insPC = len(m.pc)
		m.insLog = len(m.inputs)
		m.insForkN, m.insForkH = m.forkN, m.forkH
		m.insReach, m.insAsserts = len(m.pathReach), m.pathAsserts
		m.pathSteps++
		m.steps++
		m.insSteps = m.pathSteps
		m.insFresh = 0
		if m.pathSteps&0xffff == 0 && m.expired() {
			m.incomplete("time budget exhausted inside a path")
			return "time"
		}
		end, w := m.stepGuard()
		if end {
			return w
		}
	}
}

func (m *Machine) stepGuard() (end bool, why string) {
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case pathEnd:
				end, why = true, e.why
			case Unsupported:
				w := "outside encoded fragment: " + e.why + " at " + m.where()
				m.incomplete(w)
				if os.Getenv("GOSYM_DEBUG") != "" {
					fmt.Fprintln(os.Stderr, w)
					for _, s := range m.stack() {
						fmt.Fprintln(os.Stderr, "   ", s)
					}
				}
				end, why = true, w
			case GoPanic:
				end, why = m.startPanic(e.v)
			default:
				if os.Getenv("GOSYM_CRASH") != "" {
					for _, s := range m.stack() {
						fmt.Fprintln(os.Stderr, "   ", s)
					}
					panic(r)
				}
				w := fmt.Sprintf("engine error: %v at %s", r, m.where())
				m.incomplete(w)
				end, why = true, w
			}
		}
	}()
	m.step()
	return false, ""
}

// startPanic begins unwinding at the top frame.
func endClass(why string) string {
	if i := strings.Index(why, ":"); i > 0 {
		return why[:i]
	}
	return why
}

func (m *Machine) startPanic(v Value) (bool, string) {
	if len(m.frames) == 0 {
		return true, "panic"
	}
	f := m.top()
	f.panicking = &panicState{v: v, where: m.where()}
	return m.unwind()
}

// unwind continues a panic: runs deferred calls, pops frames.
func (m *Machine) unwind() (bool, string) {
	for {
		if len(m.frames) == 0 {
			return true, "panic"
		}
		f := m.top()
		ps := f.panicking
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			m.invokeDeferred(d)
			return false, ""
		}
		if ps.recovered {
			f.panicking = nil
			// return through the recover block
			if f.fn.Recover != nil {
				f.prev = f.block
				f.block = f.fn.Recover
				f.ip = 0
				return false, ""
			}
			m.doReturn(m.zero(f.fn.Signature.Results()))
			return false, ""
		}
		if len(m.frames) == m.baseDepth()+1 {
			// panic escapes
			msg := m.panicText(ps.v)
			if m.nested > 0 {
				m.frames = m.frames[:len(m.frames)-1]
				panic(GoPanic{ps.v})
			}
			m.Asserts++
			m.frames = m.frames[:0]
			m.violationAt("panic", "unrecovered panic: "+msg, ps.where)
			return true, "panic"
		}
		m.frames = m.frames[:len(m.frames)-1]
		nf := m.top()
		nf.panicking = ps
	}
}

func (m *Machine) violationAt(kind, msg, where string) {
	n := len(m.Violations)
	m.violation(kind, msg, m.model)
	if len(m.Violations) > n {
		m.Violations[n].Where = where
	}
}

func (m *Machine) panicText(v Value) string {
	i, ok := v.(*Iface)
	if !ok || i == nil {
		return "nil"
	}
	switch x := i.v.(type) {
	case *Str:
		if x.Concrete() {
			return x.s
		}
		return "<symbolic string>"
	case *Struct:
		if len(x.f) > 0 {
			if s, ok := x.f[0].(*Str); ok && s.Concrete() {
				return s.s
			}
		}
	}
	// error values: try Error()
	defer func() { recover() }()
	if i.t != nil {
		return fmt.Sprintf("%s: %s", i.t.String(), m.describeErr(i))
	}
	return "value"
}

func (m *Machine) describeErr(i *Iface) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = "?"
		}
	}()
	r := m.callMethodNested(i, "Error")
	if x, ok := r.(*Str); ok && x.Concrete() {
		return x.s
	}
	return "?"
}

func (m *Machine) baseDepth() int {
	if len(m.bases) == 0 {
		return 0
	}
	return m.bases[len(m.bases)-1]
}

func (m *Machine) invokeDeferred(d deferred) {
	if d.nat != nil {
		d.nat(m)
		return
	}
	m.callClosure(d.fn, d.args, nil, true)
}

// doReturn pops the top frame delivering v.
func (m *Machine) doReturn(v Value) {
	f := m.frames[len(m.frames)-1]
	m.frames = m.frames[:len(m.frames)-1]
	if len(m.frames) == 0 {
		return
	}
	if len(m.bases) > 0 && len(m.frames) == m.bases[len(m.bases)-1] {
		m.nestedResult = v
		return
	}
	c := m.top()
	if f.noAdv {
		if c.panicking != nil {
			end, why := m.unwind()
			if end {
				panic(pathEnd{why})
			}
		}
		return
	}
	if f.retTo != nil {
		c.env[c.info.idx[f.retTo]] = v
	}
	c.ip++
}

// callNested runs fn to completion inside the current instruction. No symbolic
// choice may happen inside.
func (m *Machine) callNested(cl *Closure, args []Value) Value {
	base := len(m.frames)
	m.bases = append(m.bases, base)
	m.nested++
	saveDec, savePos, saveT, saveP, saveL := m.dec, m.decPos, m.insTrail, m.insPC, m.insLog
	defer func() {
		m.nested--
		m.bases = m.bases[:len(m.bases)-1]
		m.frames = m.frames[:base]
		m.dec, m.decPos, m.insTrail, m.insPC, m.insLog = saveDec, savePos, saveT, saveP, saveL
	}()
	m.nestedResult = nil
	if r, done := m.callClosureNow(cl, args); done {
		return r
	}
	for len(m.frames) > base {
		m.pathSteps++
		if m.pathSteps&0xffff == 0 && m.expired() {
			unsupported("time budget exhausted in nested execution")
		}
		m.stepNested()
	}
	r := m.nestedResult
	m.nestedResult = nil
	return r
}

func (m *Machine) stepNested() {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(GoPanic); ok && len(m.frames) > m.baseDepth() {
				end, why := m.startPanic(e.v)
				if end {
					panic(pathEnd{why})
				}
				return
			}
			panic(r)
		}
	}()
	m.step()
}

// ---------------------------------------------------------------- operands

func (m *Machine) get(f *Frame, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return m.constVal(x)
	case *ssa.Global:
		return m.global(x)
	case *ssa.Function:
		return m.prog.funcValue(x)
	case *ssa.FreeVar:
		for i, fv := range f.fn.FreeVars {
			if fv == x {
				return f.fv[i]
			}
		}
	case *ssa.Builtin:
		return &Closure{nm: x.Name()}
	}
	i, ok := f.info.idx[v]
	if !ok {
		panic(fmt.Sprintf("no register for %s in %s", v.Name(), f.fn))
	}
	r := f.env[i]
	if p, ok := r.(Poison); ok && !m.inInit {
		unsupported("uses value that package initialisation could not compute: %s", p.why)
	}
	return r
}

func (m *Machine) set(f *Frame, v ssa.Value, x Value) {
	f.env[f.info.idx[v]] = x
}

func (m *Machine) constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return m.zero(c.Type())
	}
	t := c.Type().Underlying()
	if b, ok := t.(*types.Basic); ok {
		switch {
		case b.Kind() == types.String || b.Kind() == types.UntypedString:
			if c.Value.Kind() == constant.String {
				return str(constant.StringVal(c.Value))
			}
			return str(string(rune(c.Int64())))
		case b.Info()&types.IsBoolean != 0:
			return m.ts.Bool(constant.BoolVal(c.Value))
		case b.Info()&types.IsInteger != 0:
			w, _, _ := basicWidth(b)
			v := constant.ToInt(c.Value)
			if u, exact := constant.Uint64Val(v); exact {
				return m.ts.Const(w, u)
			}
			i, _ := constant.Int64Val(v)
			return m.ts.Const(w, uint64(i))
		case b.Kind() == types.Float32:
			fl, _ := constant.Float64Val(c.Value)
			return F32(fl)
		case b.Info()&types.IsFloat != 0:
			fl, _ := constant.Float64Val(c.Value)
			return fl
		case b.Kind() == types.UnsafePointer:
			return (*Value)(nil)
		}
	}
	if _, ok := t.(*types.Interface); ok {
		unsupported("const of interface type")
	}
	panic(Unsupported{"const " + c.String()})
}

func (m *Machine) global(g *ssa.Global) Value {
	if c, ok := m.globals[g]; ok {
		if g.Pkg != nil && !m.inited[g.Pkg] && !m.inInitOf(g.Pkg) {
			m.initPackage(g.Pkg)
		}
		return c
	}
	if v := m.nativeGlobal(g); v != nil {
		c := newCell(v)
		m.globals[g] = c
		return c
	}
	// allocate all globals of the package, then initialise it
	var c *Value
	if g.Pkg != nil {
		for _, mem := range g.Pkg.Members {
			if gg, ok := mem.(*ssa.Global); ok && m.globals[gg] == nil {
				if v := m.nativeGlobal(gg); v != nil {
					m.globals[gg] = newCell(v)
					continue
				}
				m.globals[gg] = newCell(m.zeroSafe(deref(gg.Type())))
			}
		}
		c = m.globals[g]
		m.initPackage(g.Pkg)
	} else {
		c = newCell(m.zeroSafe(deref(g.Type())))
		m.globals[g] = c
	}
	return m.globals[g]
}

func (m *Machine) zeroSafe(t types.Type) (v Value) {
	defer func() {
		if r := recover(); r != nil {
			v = Poison{"zero of " + t.String()}
		}
	}()
	return m.zero(t)
}

func (m *Machine) inInitOf(p *ssa.Package) bool { return m.initing[p] }

// initPackage runs the package-level initialisers of p (not those of its
// imports, which are initialised on first use). Statements that cannot be
// executed poison their result.
func (m *Machine) initPackage(p *ssa.Package) {
	if m.inited[p] || m.initing[p] {
		return
	}
	if m.initing == nil {
		m.initing = map[*ssa.Package]bool{}
	}
	m.initing[p] = true
	for _, mem := range p.Members {
		if gg, ok := mem.(*ssa.Global); ok && m.globals[gg] == nil {
			if v := m.nativeGlobal(gg); v != nil {
				m.globals[gg] = newCell(v)
				continue
			}
			m.globals[gg] = newCell(m.zeroSafe(deref(gg.Type())))
		}
	}
	init := p.Func("init")
	if init == nil || init.Blocks == nil || m.prog.skipInit(p) {
		m.inited[p] = true
		return
	}
	m.noTrail++
	saveInit := m.inInit
	m.inInit = true
	m.runInit(init, p)
	m.inInit = saveInit
	m.noTrail--
	m.inited[p] = true
	delete(m.initing, p)
}

func (m *Machine) runInit(init *ssa.Function, p *ssa.Package) {
	base := len(m.frames)
	m.bases = append(m.bases, base)
	m.nested++
	saveDec, savePos, saveT, saveP, saveL := m.dec, m.decPos, m.insTrail, m.insPC, m.insLog
	defer func() {
		m.nested--
		m.bases = m.bases[:len(m.bases)-1]
		m.frames = m.frames[:base]
		m.dec, m.decPos, m.insTrail, m.insPC, m.insLog = saveDec, savePos, saveT, saveP, saveL
	}()
	m.pushCall(init, nil, nil, nil, false)
	steps := 0
	for len(m.frames) > base {
		steps++
		if steps > 3000000 {
			m.incomplete("package initialisation too long: " + p.Pkg.Path())
			return
		}
		ok, why := m.initStep()
		if !ok {
			// abandon the statement: unwind to the init frame, poison, advance
			for len(m.frames) > base+1 {
				m.frames = m.frames[:len(m.frames)-1]
			}
			if len(m.frames) == base {
				return
			}
			f := m.top()
			f.panicking = nil
			ins := f.block.Instrs[f.ip]
			if os.Getenv("GOSYM_INIT") != "" {
				fmt.Fprintf(os.Stderr, "init %s: %s: %s\n", p.Pkg.Path(), ins, why)
			}
			switch x := ins.(type) {
			case *ssa.If:
				// cannot decide; give up on this package
				m.poisonRest(p, why)
				return
			case *ssa.Jump, *ssa.Return:
				return
			case *ssa.Store:
				if g, ok := x.Addr.(*ssa.Global); ok {
					*m.globals[g] = Poison{why}
				}
			case ssa.Value:
				f.env[f.info.idx[x]] = Poison{why}
			}
			f.ip++
		}
	}
}

func (m *Machine) poisonRest(p *ssa.Package, why string) {}

func (m *Machine) initStep() (ok bool, why string) {
	defer func() {
		if r := recover(); r != nil {
			ok = false
			why = fmt.Sprint(r)
			if g, is := r.(GoPanic); is {
				why = "panic " + m.panicText(g.v)
			}
		}
	}()
	// skip initialisers of imported packages and declared init functions that are denied
	f := m.frames[len(m.frames)-1]
	if len(m.frames) == m.baseDepth()+1 {
		if c, isCall := f.block.Instrs[f.ip].(*ssa.Call); isCall {
			if fn := c.Call.StaticCallee(); fn != nil {
				if fn.Name() == "init" && fn.Synthetic != "" && fn.Pkg != f.fn.Pkg {
					m.top().ip++
					return true, ""
				}
				if strings.HasPrefix(fn.Name(), "init#") && m.prog.skipInitFunc(fn) {
					m.top().ip++
					return true, ""
				}
			}
		}
		ins := f.block.Instrs[f.ip]
		if st, isStore := ins.(*ssa.Store); isStore {
			if g, isG := st.Addr.(*ssa.Global); isG && m.nativeGlobal(g) != nil {
				m.top().ip++ // the variable is modelled
				return true, ""
			}
		}
		// poison propagation
		var ops []*ssa.Value
		for _, op := range ins.Operands(ops) {
			if *op == nil {
				continue
			}
			if i, has := f.info.idx[*op]; has {
				if pz, isP := f.env[i].(Poison); isP {
					return false, pz.why
				}
			}
		}
	}
	m.step()
	return true, ""
}

func (p *Program) pos(pos token.Pos) string {
	ps := p.fset.Position(pos)
	fn := ps.Filename
	fn = strings.TrimPrefix(fn, p.repo+"/")
	return fmt.Sprintf("%s:%d", fn, ps.Line)
}

func sortedKeys(m map[string]int) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
