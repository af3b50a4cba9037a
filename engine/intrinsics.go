package main

import (
	"crypto/sha256"
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"math/big"
	"math/bits"
	"os"
	"reflect"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/crypto/ripemd160" //nolint
	"golang.org/x/tools/go/ssa"
)

// hashRec is one application of an idealised hash function.
type hashRec struct {
	name string
	in   []*Term
	out  []*Term
}

// sigRec is one honestly produced signature.
type sigRec struct {
	pub  []byte
	hash []*Term
	r, s *Term
}

type intrinsic func(m *Machine, args []Value) Value

var intrTab map[string]intrinsic

// pkgIntr handles every function of a package (prefix match on path).
var pkgNoop = []string{"k8s.io/klog/v2", "log"}

type fnPlan struct {
	intr   intrinsic
	target *ssa.Function
	method string // native method name
}

func (p *Program) plan(fn *ssa.Function) *fnPlan {
	if v, ok := p.plans.Load(fn); ok {
		return v.(*fnPlan)
	}
	pl := &fnPlan{target: fn}
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	if in, ok := intrTab[name]; ok {
		pl.intr = in
	} else if r := p.redirects[name]; r != nil {
		pl.target = r
	} else if in := p.msgMethod(fn); in != nil {
		pl.intr = in
	} else if fn.Pkg != nil {
		path := fn.Pkg.Pkg.Path()
		for _, n := range pkgNoop {
			if path == n || strings.HasPrefix(path, n+"/") {
				if strings.HasPrefix(fn.Name(), "Fatal") || strings.HasPrefix(fn.Name(), "Exit") || strings.HasPrefix(fn.Name(), "Panic") {
					pl.intr = func(m *Machine, args []Value) Value {
						m.goPanic("process exit: " + name)
						return nil
					}
				} else {
					res := fn.Signature.Results()
					pl.intr = func(m *Machine, args []Value) Value {
						if res.Len() == 0 {
							return nil
						}
						if res.Len() == 1 {
							return m.zero(res.At(0).Type())
						}
						return m.zero(res)
					}
				}
			}
		}
	}
	if pl.intr == nil && pl.target == fn && fn.Signature.Recv() != nil {
		pl.method = fn.Name()
	}
	p.plans.Store(fn, pl)
	return pl
}

func (m *Machine) redirect(fn *ssa.Function) *ssa.Function { return m.prog.plan(fn).target }

func (m *Machine) intrinsicCall(fn *ssa.Function, args []Value) (Value, bool) {
	pl := m.prog.plan(fn)
	if pl.intr != nil {
		return pl.intr(m, args), true
	}
	if pl.method != "" && len(args) > 0 {
		if n, ok := args[0].(*Native); ok {
			return m.nativeMethod(n, pl.method, fn.Signature, args[1:]), true
		}
	}
	return nil, false
}

// msgMethod models the methods protoc-gen-go generates for messages.
func (p *Program) msgMethod(fn *ssa.Function) intrinsic {
	recv := fn.Signature.Recv()
	if recv == nil {
		return nil
	}
	pt, ok := recv.Type().(*types.Pointer)
	if !ok {
		return p.enumMethod(fn, recv.Type())
	}
	n := namedOf(pt)
	if n == nil {
		return nil
	}
	if !strings.HasSuffix(p.fset.Position(fn.Pos()).Filename, ".pb.go") {
		return nil
	}
	md, isMsg := p.desc.descOf[n]
	switch fn.Name() {
	case "ProtoReflect":
		if !isMsg || isDescriptorPkg(n) {
			return nil
		}
		return func(m *Machine, args []Value) Value {
			if nt, ok := args[0].(*Native); ok {
				return m.nativeMethod(nt, "ProtoReflect", fn.Signature, nil)
			}
			return &Iface{v: &Obj{kind: "prmsg", data: &prMsg{args[0].(*Value), n, md}}}
		}
	case "Reset":
		return func(m *Machine, args []Value) Value {
			c := m.cell(args[0])
			m.storeVal(c, m.zero(n))
			return nil
		}
	case "String":
		return func(m *Machine, args []Value) Value {
			t := &Tok{kind: "text", name: "message text"}
			if p, ok := args[0].(*Value); ok && p != nil && isMsg {
				m.guardPB(func() { t.tree = m.buildTree(*p, n) })
				t.name = "text:" + string(md.FullName())
			}
			return strFromTerms([]*Term{m.tokTerm(t)})
		}
	}
	return nil
}

// enumMethod models the String method protoc-gen-go generates for enums.
func (p *Program) enumMethod(fn *ssa.Function, t types.Type) intrinsic {
	n, ok := t.(*types.Named)
	if !ok || fn.Name() != "String" || !strings.HasSuffix(p.fset.Position(fn.Pos()).Filename, ".pb.go") {
		return nil
	}
	if b, ok := n.Underlying().(*types.Basic); !ok || b.Kind() != types.Int32 {
		return nil
	}
	names := map[int32]string{}
	sc := n.Obj().Pkg().Scope()
	for _, id := range sc.Names() {
		c, ok := sc.Lookup(id).(*types.Const)
		if !ok || !types.Identical(c.Type(), n) {
			continue
		}
		v, _ := constant.Int64Val(c.Val())
		// enums nested in a message are prefixed with its name only
		name := strings.TrimPrefix(id, n.Obj().Name()+"_")
		if name == id {
			if i := strings.LastIndex(n.Obj().Name(), "_"); i >= 0 {
				name = strings.TrimPrefix(id, n.Obj().Name()[:i+1])
			}
		}
		names[int32(v)] = name
	}
	return func(m *Machine, args []Value) Value {
		v := args[0].(*Term)
		if !v.IsConst() {
			unsupported("text of a symbolic enum")
		}
		if s, ok := names[int32(v.v)]; ok {
			return str(s)
		}
		return str(strconv.Itoa(int(int32(v.v))))
	}
}

func isDescriptorPkg(n *types.Named) bool {
	return n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "google.golang.org/protobuf/types/descriptorpb"
}

// ------------------------------------------------------------ fresh variables

func (m *Machine) fresh(prefix string, w int) *Term {
	m.insFresh++
	return m.ts.Var(fmt.Sprintf("%s!%d.%d", prefix, m.insSteps, m.insFresh), w)
}

func (m *Machine) freshBytes(prefix string, n int) []*Term {
	r := make([]*Term, n)
	for i := range r {
		r[i] = m.fresh(prefix, 8)
	}
	return r
}

func (m *Machine) concStr(v Value, what string) string {
	s, ok := v.(*Str)
	if !ok || !s.Concrete() {
		unsupported("symbolic %s", what)
	}
	return s.s
}

func (m *Machine) mkInt(v int64) *Term { return m.ts.Const(64, uint64(v)) }

func (m *Machine) nilIface() Value { return (*Iface)(nil) }

// mkErr builds an error value of the model package.
func (m *Machine) mkErr(typ, msg string) Value {
	t := m.prog.modelType(typ)
	if t == nil {
		unsupported("no model type %s", typ)
	}
	return &Iface{t: types.NewPointer(t), v: newCell(&Struct{f: []Value{str(msg)}})}
}

func parseBig(s string) (*big.Int, bool) { return new(big.Int).SetString(s, 10) }

// ------------------------------------------------------------ table

func init() {
	intrTab = map[string]intrinsic{}
	symIntrinsics()
	stdIntrinsics()
	bigIntrinsics()
	protoIntrinsics()
	cryptoIntrinsics()
	fmtIntrinsics()
	coinIntrinsics()
	dynIntrinsics()
}

const symP = zzPath + "/sym."

func (m *Machine) symInt(name string, w int) Value {
	t := m.fresh(name, w)
	m.inputs = append(m.inputs, input{name: name, kind: "int", t: []*Term{t}, w: w})
	return t
}

func symIntrinsics() {
	reg := func(n string, f intrinsic) { intrTab[symP+n] = f }
	for n, w := range map[string]int{"Uint64": 64, "Int64": 64, "Uint32": 32, "Int32": 32, "Byte": 8, "Uint16": 16} {
		w := w
		reg(n, func(m *Machine, a []Value) Value { return m.symInt(m.concStr(a[0], "name"), w) })
	}
	reg("Bool", func(m *Machine, a []Value) Value {
		n := m.concStr(a[0], "name")
		t := m.fresh(n, 0)
		m.inputs = append(m.inputs, input{name: n, kind: "bool", t: []*Term{t}})
		return t
	})
	symBytes := func(m *Machine, a []Value) []*Term {
		n := m.concStr(a[0], "name")
		t := m.freshBytes(n, m.concInt(a[1], "length"))
		m.inputs = append(m.inputs, input{name: n, kind: "bytes", t: t})
		return t
	}
	reg("Bytes", func(m *Machine, a []Value) Value { return m.mkBytes(symBytes(m, a)) })
	reg("String", func(m *Machine, a []Value) Value { return strFromTerms(symBytes(m, a)) })
	// Dec: decimal rendering of a symbolic unsigned integer of the given width
	reg("Dec", func(m *Machine, a []Value) Value {
		n := m.concStr(a[0], "name")
		w := m.concInt(a[1], "bits")
		t := m.fresh(n, w)
		m.inputs = append(m.inputs, input{name: n, kind: "int", t: []*Term{t}, w: w})
		return strFromTerms([]*Term{m.tokTerm(&Tok{kind: "dec", t: t})})
	})
	reg("Choice", func(m *Machine, a []Value) Value {
		n := m.concStr(a[0], "name")
		k := m.concInt(a[1], "choices")
		v := m.choose(k)
		m.inputs = append(m.inputs, input{name: n, kind: "choice", v: v})
		return m.mkInt(int64(v))
	})
	reg("Assume", func(m *Machine, a []Value) Value { m.assume(a[0].(*Term)); return nil })
	reg("Assert", func(m *Machine, a []Value) Value {
		msg := a[1].(*Str)
		s := "assertion"
		if msg.Concrete() {
			s = msg.s
		}
		m.pathAsserts++
		m.assertTerm(a[0].(*Term), s)
		return nil
	})
	// AssertKnown(finding, region, cond, msg): as Assert, but where region
	// holds and the finding is listed, a failure is that known finding
	reg("AssertKnown", func(m *Machine, a []Value) Value {
		id := m.concStr(a[0], "finding")
		s := m.concStr(a[3], "message")
		in := m.known != nil && m.known(id) && m.branch(a[1].(*Term))
		m.pathAsserts++
		if in {
			m.finding = id
			defer func() { m.finding = "" }()
		}
		m.assertTerm(a[2].(*Term), s)
		return nil
	})
	reg("Bound", func(m *Machine, a []Value) Value {
		if m.tier == "thorough" {
			return a[1]
		}
		return a[0]
	})
	reg("Reach", func(m *Machine, a []Value) Value {
		l := m.concStr(a[0], "label")
		m.reached[l]++
		m.pathReach = append(m.pathReach, l)
		return nil
	})
	// connectives that do not split the path
	reg("And", func(m *Machine, a []Value) Value { return m.ts.BAnd(a[0].(*Term), a[1].(*Term)) })
	reg("Or", func(m *Machine, a []Value) Value { return m.ts.BOr(a[0].(*Term), a[1].(*Term)) })
	reg("Implies", func(m *Machine, a []Value) Value { return m.ts.BOr(m.ts.BNot(a[0].(*Term)), a[1].(*Term)) })
	reg("Symbolic", func(m *Machine, a []Value) Value { return m.ts.True })
	reg("MapOrder", func(m *Machine, a []Value) Value {
		b := a[0].(*Term).IsTrue()
		old := m.mapOrder
		m.undoable(func() { m.mapOrder = old })
		m.mapOrder = b
		return nil
	})
	reg("Note", func(m *Machine, a []Value) Value { return nil })
	reg("Trace", func(m *Machine, a []Value) Value {
		if os.Getenv("GOSYM_TRACE") != "" {
			s := ""
			for _, t := range a {
				s += " " + m.show(t)
			}
			fmt.Fprintln(os.Stderr, "TRACE", s)
		}
		return nil
	})
}

func (m *Machine) show(v Value) string {
	switch x := v.(type) {
	case *Str:
		if x.Concrete() {
			return strconv.Quote(x.s)
		}
		s := ""
		for _, t := range x.b {
			if t.op == OpTok {
				s += "<" + t.tok.describe() + ">"
			} else if t.IsConst() {
				s += string(rune(t.v))
			} else {
				s += "?"
			}
		}
		return s
	case *Term:
		return x.String()
	case *Slice:
		s := "["
		for i := 0; i < x.len; i++ {
			s += m.show(x.a.e[x.off+i]) + ","
		}
		return s + "]"
	case *Iface:
		if x == nil {
			return "nil"
		}
		if x.t != nil {
			return x.t.String() + ":" + m.show(x.v)
		}
		return m.show(x.v)
	case *Value:
		if x == nil {
			return "nil"
		}
		return "&" + m.show(*x)
	case *Struct:
		s := "{"
		for _, f := range x.f {
			s += m.show(f) + ";"
		}
		return s + "}"
	}
	return fmt.Sprintf("%T", v)
}

// ------------------------------------------------------------ standard library

func noop(m *Machine, a []Value) Value { return nil }

func (m *Machine) bytesArg(v Value) []*Term { return m.bytesOf(v) }

// indexByte: position of c in b, forking over symbolic bytes.
func (m *Machine) indexByte(b []*Term, c *Term) int {
	for i, x := range b {
		if x.op == OpTok {
			if m.tokLacks(x.tok, c) {
				continue
			}
			unsupported("search in abstract bytes")
		}
		if m.branch(m.ts.Eq(x, c)) {
			return i
		}
	}
	return -1
}

// tokLacks: the byte c certainly does not occur in the segment.
func (m *Machine) tokLacks(t *Tok, c *Term) bool {
	if !c.IsConst() {
		return false
	}
	switch t.kind {
	case "dec":
		return !(c.v >= '0' && c.v <= '9' || c.v == '-')
	case "ascii":
		return !strings.ContainsRune(t.alphabet, rune(c.v))
	}
	return false
}

func (m *Machine) indexSeq(b, sub []*Term) int {
	if len(sub) == 0 {
		return 0
	}
	if len(sub) == 1 {
		return m.indexByte(b, sub[0])
	}
	for i := 0; i+len(sub) <= len(b); i++ {
		if hasTok(b[i : i+len(sub)]) {
			// a segment can only be skipped when no byte of sub occurs in it
			ok := true
			for _, x := range b[i : i+len(sub)] {
				if x.op == OpTok {
					for _, c := range sub {
						if !m.tokLacks(x.tok, c) {
							ok = false
						}
					}
				}
			}
			if !ok {
				unsupported("search in abstract bytes")
			}
			continue
		}
		r := m.ts.True
		for k := range sub {
			r = m.ts.BAnd(r, m.ts.Eq(b[i+k], sub[k]))
		}
		if m.branch(r) {
			return i
		}
	}
	return -1
}

func stdIntrinsics() {
	reg := func(n string, f intrinsic) { intrTab[n] = f }
	idx := func(m *Machine, a []Value) Value {
		return m.mkInt(int64(m.indexByte(m.bytesArg(a[0]), a[1].(*Term))))
	}
	reg("internal/bytealg.IndexByte", idx)
	reg("internal/bytealg.IndexByteString", idx)
	reg("strings.IndexByte", idx)
	reg("bytes.IndexByte", idx)
	last := func(m *Machine, a []Value) Value {
		b := m.bytesArg(a[0])
		for i := len(b) - 1; i >= 0; i-- {
			if b[i].op == OpTok {
				if m.tokLacks(b[i].tok, a[1].(*Term)) {
					continue
				}
				unsupported("search in abstract bytes")
			}
			if m.branch(m.ts.Eq(b[i], a[1].(*Term))) {
				return m.mkInt(int64(i))
			}
		}
		return m.mkInt(-1)
	}
	reg("internal/bytealg.LastIndexByte", last)
	reg("internal/bytealg.LastIndexByteString", last)
	reg("strings.LastIndexByte", last)
	ind := func(m *Machine, a []Value) Value {
		return m.mkInt(int64(m.indexSeq(m.bytesArg(a[0]), m.bytesArg(a[1]))))
	}
	reg("internal/bytealg.Index", ind)
	reg("internal/bytealg.IndexString", ind)
	reg("strings.Index", ind)
	reg("bytes.Index", ind)
	cnt := func(m *Machine, a []Value) Value {
		b := m.bytesArg(a[0])
		n := int64(0)
		for _, x := range b {
			if x.op == OpTok {
				if m.tokLacks(x.tok, a[1].(*Term)) {
					continue
				}
				unsupported("search in abstract bytes")
			}
			if m.branch(m.ts.Eq(x, a[1].(*Term))) {
				n++
			}
		}
		return m.mkInt(n)
	}
	reg("internal/bytealg.Count", cnt)
	reg("internal/bytealg.CountString", cnt)
	cmp := func(m *Machine, a []Value) Value {
		return m.mkInt(int64(m.cmpTerms(m.bytesArg(a[0]), m.bytesArg(a[1]))))
	}
	reg("internal/bytealg.Compare", cmp)
	reg("internal/bytealg.CompareString", cmp)
	reg("bytes.Compare", cmp)
	reg("strings.Compare", cmp)
	eq := func(m *Machine, a []Value) Value { return m.eqTerms(m.bytesArg(a[0]), m.bytesArg(a[1])) }
	reg("bytes.Equal", eq)
	reg("internal/bytealg.Equal", eq)
	reg("crypto/subtle.ConstantTimeCompare", func(m *Machine, a []Value) Value {
		return m.ts.Ite(m.eqTerms(m.bytesArg(a[0]), m.bytesArg(a[1])), m.mkInt(1), m.mkInt(0))
	})
	reg("internal/bytealg.MakeNoZero", func(m *Machine, a []Value) Value {
		n := m.concInt(a[0], "length")
		return m.makeSlice(types.Typ[types.Uint8], n, n)
	})
	reg("internal/stringslite.HasPrefix", func(m *Machine, a []Value) Value { return m.hasPrefix(a[0], a[1]) })
	reg("strings.HasPrefix", func(m *Machine, a []Value) Value { return m.hasPrefix(a[0], a[1]) })
	reg("bytes.HasPrefix", func(m *Machine, a []Value) Value { return m.hasPrefix(a[0], a[1]) })
	reg("strings.Clone", func(m *Machine, a []Value) Value { return a[0] })
	reg("internal/stringslite.Clone", func(m *Machine, a []Value) Value { return a[0] })
	reg("(*strings.Builder).String", func(m *Machine, a []Value) Value {
		st := (*m.cell(a[0])).(*Struct)
		return strFromTerms(m.bytesOf(st.f[1]))
	})
	reg("(*strings.Builder).copyCheck", noop)
	reg("unicode/utf8.ValidString", func(m *Machine, a []Value) Value { return m.utf8Valid(m.bytesOf(a[0])) })
	reg("unicode/utf8.Valid", func(m *Machine, a []Value) Value { return m.utf8Valid(m.bytesOf(a[0])) })
	reg("unicode/utf8.RuneCountInString", func(m *Machine, a []Value) Value {
		s := a[0].(*Str)
		if s.Concrete() {
			return m.mkInt(int64(utf8.RuneCountInString(s.s)))
		}
		n := 0
		for i := 0; i < len(s.b); n++ {
			if s.b[i].op == OpTok {
				unsupported("rune count of abstract bytes")
			}
			if !s.b[i].IsConst() {
				if !m.branch(m.ts.Cmp(OpUlt, s.b[i], m.ts.Const(8, 0x80))) {
					unsupported("rune count of symbolic non-ASCII string")
				}
				i++
				continue
			}
			// up to four known bytes; one that is not ends the rune if it is
			// below 0x80
			var l []byte
			for j := i; j < len(s.b) && j < i+4; j++ {
				if s.b[j].op == OpTok {
					unsupported("rune count of abstract bytes")
				}
				if !s.b[j].IsConst() {
					if utf8.FullRune(l) {
						break
					}
					if !m.branch(m.ts.Cmp(OpUlt, s.b[j], m.ts.Const(8, 0x80))) {
						unsupported("rune count of symbolic non-ASCII string")
					}
					l = append(l, 0)
					break
				}
				l = append(l, byte(s.b[j].v))
			}
			_, k := utf8.DecodeRune(l)
			i += k
		}
		return m.mkInt(int64(n))
	})
	// locks and atomics: single-threaded execution
	for _, t := range []string{"sync.Mutex", "sync.RWMutex"} {
		for _, f := range []string{"Lock", "Unlock", "RLock", "RUnlock"} {
			reg("(*"+t+")."+f, noop)
		}
		reg("(*"+t+").TryLock", func(m *Machine, a []Value) Value { return m.ts.True })
	}
	for _, f := range []string{"Add", "Done", "Wait"} {
		reg("(*sync.WaitGroup)."+f, noop)
	}
	reg("internal/race.Enable", noop)
	for _, k := range []string{"Int32", "Int64", "Uint32", "Uint64", "Pointer", "Uintptr"} {
		reg("sync/atomic.Load"+k, func(m *Machine, a []Value) Value { return copyVal(*m.cell(a[0])) })
		reg("sync/atomic.Store"+k, func(m *Machine, a []Value) Value { m.storeVal(m.cell(a[0]), a[1]); return nil })
		reg("sync/atomic.Swap"+k, func(m *Machine, a []Value) Value {
			o := copyVal(*m.cell(a[0]))
			m.storeVal(m.cell(a[0]), a[1])
			return o
		})
		reg("sync/atomic.Add"+k, func(m *Machine, a []Value) Value {
			c := m.cell(a[0])
			n := m.ts.Bin(OpAdd, (*c).(*Term), a[1].(*Term))
			m.storeVal(c, n)
			return n
		})
		reg("sync/atomic.CompareAndSwap"+k, func(m *Machine, a []Value) Value {
			c := m.cell(a[0])
			if m.branch(m.eqTerm(*c, a[1])) {
				m.storeVal(c, a[2])
				return m.ts.True
			}
			return m.ts.False
		})
	}
	// strconv on symbolic operands
	fmtInt := func(sg bool) intrinsic {
		return func(m *Machine, a []Value) Value {
			t := a[0].(*Term)
			base := uint64(10)
			if len(a) > 1 {
				base = a[1].(*Term).v
			}
			if t.IsConst() {
				if sg {
					return str(strconv.FormatInt(signed(t.v, t.w), int(base)))
				}
				return str(strconv.FormatUint(t.v, int(base)))
			}
			if base != 10 {
				unsupported("FormatInt of symbolic value in base %d", base)
			}
			return strFromTerms([]*Term{m.tokTerm(&Tok{kind: "dec", t: t, sg: sg})})
		}
	}
	reg("strconv.FormatInt", fmtInt(true))
	reg("strconv.Itoa", fmtInt(true))
	reg("strconv.FormatUint", fmtInt(false))
	reg("strconv.Quote", func(m *Machine, a []Value) Value {
		s := a[0].(*Str)
		if s.Concrete() {
			return str(strconv.Quote(s.s))
		}
		return m.textTok("quoted")
	})
	for n, sg := range map[string]bool{"strconv.ParseUint": false, "strconv.ParseInt": true} {
		sg := sg
		n := n
		reg(n, func(m *Machine, a []Value) Value {
			s := a[0].(*Str)
			base, bs := m.concInt(a[1], "base"), m.concInt(a[2], "bit size")
			if bs == 0 {
				bs = 64
			}
			perr := func(why string) Value { return m.mkErr("TextError", n+": "+why) }
			if s.Concrete() {
				if sg {
					v, err := strconv.ParseInt(s.s, base, bs)
					if err != nil {
						return Tuple{m.mkInt(v), perr(err.Error())}
					}
					return Tuple{m.mkInt(v), m.nilIface()}
				}
				v, err := strconv.ParseUint(s.s, base, bs)
				if err != nil {
					return Tuple{m.ts.Const(64, v), perr(err.Error())}
				}
				return Tuple{m.ts.Const(64, v), m.nilIface()}
			}
			if len(s.b) == 1 && s.b[0].op == OpTok && s.b[0].tok.kind == "dec" && base == 10 {
				t := s.b[0].tok.t
				tsg := s.b[0].tok.sg
				W := t.w + 1
				if W < 66 {
					W = 66
				}
				x := m.ts.Zext(t, W)
				if tsg {
					x = m.ts.Sext(t, W)
				}
				var lo, hi *big.Int
				if sg {
					hi = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(bs-1)), big.NewInt(1))
					lo = new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(1), uint(bs-1)))
				} else {
					hi = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(bs)), big.NewInt(1))
					lo = big.NewInt(0)
				}
				in := m.ts.BAnd(m.ts.Cmp(OpSle, m.ts.BigConst(W, lo), x), m.ts.Cmp(OpSle, x, m.ts.BigConst(W, hi)))
				if m.branch(in) {
					return Tuple{m.ts.Extract(x, 63, 0), m.nilIface()}
				}
				return Tuple{m.mkInt(0), perr("out of range")}
			}
			// symbolic digits: sign and digits by forking
			return m.parseDigits(s, base, bs, sg, perr)
		})
	}
	for _, f := range []string{"Float64bits", "Float32bits", "Float64frombits", "Float32frombits", "IsNaN", "Floor", "Abs"} {
		f := f
		reg("math."+f, func(m *Machine, a []Value) Value {
			switch x := a[0].(type) {
			case float64:
				switch f {
				case "Float64bits":
					return m.ts.Const(64, math.Float64bits(x))
				case "IsNaN":
					return m.ts.Bool(math.IsNaN(x))
				case "Floor":
					return math.Floor(x)
				case "Abs":
					return math.Abs(x)
				}
			case F32:
				return m.ts.Const(32, uint64(math.Float32bits(float32(x))))
			case *SymFloat:
				if f == "Float64bits" || f == "Float32bits" {
					return x.bits
				}
			case *Term:
				if x.IsConst() {
					if f == "Float64frombits" {
						return math.Float64frombits(x.v)
					}
					return F32(math.Float32frombits(uint32(x.v)))
				}
				return &SymFloat{bits: x}
			}
			unsupported("math.%s of %T", f, a[0])
			return nil
		})
	}
	reg("math/bits.Len64", func(m *Machine, a []Value) Value { return m.bitLen(a[0].(*Term)) })
	reg("math/bits.Len32", func(m *Machine, a []Value) Value { return m.bitLen(a[0].(*Term)) })
	reg("math/bits.Len", func(m *Machine, a []Value) Value { return m.bitLen(a[0].(*Term)) })
	reg(zzPath+"/model.sliceLen", func(m *Machine, a []Value) Value { return m.mkInt(int64(a[0].(*Iface).v.(*Slice).len)) })
	reg(zzPath+"/model.sliceSwap", func(m *Machine, a []Value) Value {
		s := a[0].(*Iface).v.(*Slice)
		i, j := m.concInt(a[1], "index"), m.concInt(a[2], "index")
		x, y := copyVal(s.a.e[s.off+i]), copyVal(s.a.e[s.off+j])
		m.storeVal(&s.a.e[s.off+i], y)
		m.storeVal(&s.a.e[s.off+j], x)
		return nil
	})
	// the clock and random numbers are arbitrary
	reg("time.Now", func(m *Machine, a []Value) Value {
		t := m.prog.ssa.ImportedPackage("time").Type("Time").Type()
		v := m.zero(t).(*Struct)
		ns, sec := m.fresh("now", 32), m.fresh("now", 32)
		m.assume(m.ts.Cmp(OpUlt, ns, m.ts.Const(32, 1000000000)))
		v.f[0] = m.ts.Zext(ns, 64)
		v.f[1] = m.ts.Bin(OpAdd, m.ts.Const(64, 62135596800+1600000000), m.ts.Zext(sec, 64))
		return v
	})
	for n, w := range map[string]int{"Int": 63, "Int63": 63, "Int31": 31, "Uint32": 32, "Uint64": 64} {
		w, full := w, 64
		if n == "Int31" || n == "Uint32" {
			full = 32
		}
		rnd := func(m *Machine, a []Value) Value { return m.ts.Zext(m.fresh("random", w), full) }
		reg("math/rand."+n, rnd)
		reg("(*math/rand.Rand)."+n, rnd)
	}
	for _, n := range []string{"Intn", "Int63n", "Int31n"} {
		rnd := func(m *Machine, a []Value) Value {
			n := a[len(a)-1].(*Term)
			x := m.fresh("random", n.w)
			m.assume(m.ts.Cmp(OpUlt, x, n))
			return x
		}
		reg("math/rand."+n, rnd)
		reg("(*math/rand.Rand)."+n, rnd)
	}
	reg("crypto/rand.Read", func(m *Machine, a []Value) Value {
		s := a[0].(*Slice)
		for i := 0; i < s.len; i++ {
			m.storeVal(&s.a.e[s.off+i], m.fresh("random", 8))
		}
		return Tuple{m.mkInt(int64(s.len)), m.nilIface()}
	})
	reg(zzPath+"/model.assignTo", func(m *Machine, a []Value) Value {
		x, target := a[0].(*Iface), a[1].(*Iface)
		pt, ok := target.t.Underlying().(*types.Pointer)
		if !ok {
			m.goPanic("errors: target must be a non-nil pointer")
		}
		c := m.cell(target.v)
		if it, isI := pt.Elem().Underlying().(*types.Interface); isI {
			if !m.implements(x, it) {
				return m.ts.False
			}
			m.storeVal(c, x)
			return m.ts.True
		}
		if x.t == nil || !types.Identical(x.t, pt.Elem()) {
			return m.ts.False
		}
		m.storeVal(c, copyVal(x.v))
		return m.ts.True
	})
	reg("os.Exit", func(m *Machine, a []Value) Value { m.goPanic("process exit"); return nil })
	reg("runtime.Callers", func(m *Machine, a []Value) Value { return m.mkInt(0) })
	reg("os.Getenv", func(m *Machine, a []Value) Value { return emptyStr })
	reg("reflect.TypeOf", func(m *Machine, a []Value) Value {
		i := a[0].(*Iface)
		if i == nil {
			return m.nilIface()
		}
		return &Iface{v: &Obj{kind: "rtype", data: i.t}}
	})
}

// SymFloat is a floating-point value known only by its bit pattern.
type SymFloat struct{ bits *Term }

func (m *Machine) bitLen(t *Term) Value {
	if t.IsConst() {
		return m.mkInt(int64(bits.Len64(t.v)))
	}
	ts := m.ts
	r := m.mkInt(0)
	for i := 0; i < t.w; i++ {
		r = ts.Ite(ts.Eq(ts.Extract(t, i, i), ts.Const(1, 1)), m.mkInt(int64(i+1)), r)
	}
	return r
}

func (m *Machine) parseDigits(s *Str, base, bs int, sg bool, perr func(string) Value) Value {
	ts := m.ts
	if base != 10 && base != 0 {
		unsupported("ParseInt base %d of symbolic string", base)
	}
	if base == 0 {
		unsupported("ParseInt base 0 of symbolic string")
	}
	b := s.Terms(ts)
	if len(b) == 0 {
		return Tuple{m.mkInt(0), perr("invalid syntax")}
	}
	for _, x := range b {
		if x.op == OpTok {
			unsupported("ParseInt of abstract bytes")
		}
	}
	neg := false
	if sg {
		if m.branch(ts.Eq(b[0], ts.Const(8, '-'))) {
			neg = true
			b = b[1:]
		} else if m.branch(ts.Eq(b[0], ts.Const(8, '+'))) {
			b = b[1:]
		}
		if len(b) == 0 {
			return Tuple{m.mkInt(0), perr("invalid syntax")}
		}
	}
	W := 66 + 4*len(b)
	v := ts.Const(64, 0)
	v = ts.Zext(v, W)
	ok := ts.True
	for _, x := range b {
		ok = ts.BAnd(ok, ts.BAnd(ts.Cmp(OpUle, ts.Const(8, '0'), x), ts.Cmp(OpUle, x, ts.Const(8, '9'))))
		v = ts.Bin(OpAdd, ts.Bin(OpMul, v, ts.BigConst(W, big.NewInt(10))), ts.Zext(ts.Bin(OpSub, x, ts.Const(8, '0')), W))
	}
	if !m.branch(ok) {
		return Tuple{m.mkInt(0), perr("invalid syntax")}
	}
	lim := new(big.Int).Lsh(big.NewInt(1), uint(bs))
	if sg {
		lim = new(big.Int).Lsh(big.NewInt(1), uint(bs-1))
		if neg {
			lim.Add(lim, big.NewInt(1))
		}
	}
	if !m.branch(ts.Cmp(OpUlt, v, ts.BigConst(W, lim))) {
		return Tuple{m.mkInt(0), perr("value out of range")}
	}
	r := ts.Extract(v, 63, 0)
	if neg {
		r = ts.Neg(r)
	}
	return Tuple{r, m.nilIface()}
}

func (m *Machine) hasPrefix(a, b Value) Value {
	x, y := m.bytesOf(a), m.bytesOf(b)
	if hasTok(y) {
		unsupported("prefix of abstract bytes")
	}
	if hasTok(x) {
		for i, c := range y {
			if i >= len(x) {
				return m.ts.False
			}
			if x[i].op == OpTok {
				if m.tokLacks(x[i].tok, c) {
					return m.ts.False
				}
				unsupported("prefix of abstract bytes")
			}
			if m.ts.Eq(x[i], c).IsFalse() {
				return m.ts.False
			}
		}
		x = x[:len(y)]
	}
	if len(x) < len(y) {
		return m.ts.False
	}
	return m.eqTerms(x[:len(y)], y)
}

func (m *Machine) textTok(name string) *Str {
	return strFromTerms([]*Term{m.tokTerm(&Tok{kind: "text", name: name})})
}

// ------------------------------------------------------------ math/big

const bigW = 320

func (m *Machine) bigGet(v Value) *Term {
	c := m.cell(v)
	o, ok := (*c).(*Obj)
	if !ok {
		unsupported("big.Int value %T", *c)
	}
	if o.data == nil {
		return m.ts.BigConst(bigW, new(big.Int))
	}
	return o.data.(*Term)
}

func (m *Machine) bigSet(v Value, t *Term) Value {
	m.store(m.cell(v), &Obj{kind: "bigint", data: t})
	return v
}

func (m *Machine) bigConst(b *big.Int) *Term { return m.ts.BigConst(bigW, b) }

func concBig(t *Term) (*big.Int, bool) {
	if !t.IsConst() {
		return nil, false
	}
	return signedBig(t.bigVal(), t.w), true
}

func bigIntrinsics() {
	reg := func(n string, f intrinsic) { intrTab["(*math/big.Int)."+n] = f }
	intrTab["math/big.NewInt"] = func(m *Machine, a []Value) Value {
		return newCell(&Obj{kind: "bigint", data: m.ts.Sext(a[0].(*Term), bigW)})
	}
	for n, op := range map[string]Op{"Add": OpAdd, "Sub": OpSub, "And": OpAnd, "Or": OpOr} {
		op := op
		reg(n, func(m *Machine, a []Value) Value {
			return m.bigSet(a[0], m.ts.Bin(op, m.bigGet(a[1]), m.bigGet(a[2])))
		})
	}
	reg("Mul", func(m *Machine, a []Value) Value {
		x, y := m.bigGet(a[1]), m.bigGet(a[2])
		cx, ok1 := concBig(x)
		cy, ok2 := concBig(y)
		if ok1 && ok2 {
			r := new(big.Int).Mul(cx, cy)
			if r.BitLen() >= bigW {
				unsupported("big.Int product exceeds %d bits", bigW)
			}
			return m.bigSet(a[0], m.bigConst(r))
		}
		if ok1 {
			x, cy = y, cx
		} else if !ok2 {
			unsupported("symbolic big.Int product")
		}
		// the product fits if the symbolic factor is small enough
		lim := new(big.Int).Lsh(big.NewInt(1), uint(bigW-2-cy.BitLen()))
		if !m.branch(m.ts.BAnd(m.ts.Cmp(OpSlt, x, m.bigConst(lim)), m.ts.Cmp(OpSlt, m.bigConst(new(big.Int).Neg(lim)), x))) {
			unsupported("big.Int product exceeds %d bits", bigW)
		}
		return m.bigSet(a[0], m.ts.Bin(OpMul, x, m.bigConst(cy)))
	})
	div := func(op Op, f func(z, x, y *big.Int) *big.Int) intrinsic {
		return func(m *Machine, a []Value) Value {
			if y, ok := concBig(m.bigGet(a[2])); ok && y.Sign() > 0 {
				if x := m.bigGet(a[1]); !x.IsConst() && m.branch(m.ts.Cmp(OpSle, m.bigConst(new(big.Int)), x)) {
					return m.bigSet(a[0], m.ts.Bin(op, x, m.bigConst(y)))
				}
			}
			x, ok1 := concBig(m.bigGet(a[1]))
			y, ok2 := concBig(m.bigGet(a[2]))
			if !ok1 || !ok2 {
				unsupported("symbolic big.Int division")
			}
			if y.Sign() == 0 {
				m.goPanic("division by zero")
			}
			return m.bigSet(a[0], m.bigConst(f(new(big.Int), x, y)))
		}
	}
	reg("Quo", div(OpUDiv, (*big.Int).Quo))
	reg("Div", div(OpUDiv, (*big.Int).Div))
	reg("Rem", div(OpURem, (*big.Int).Rem))
	reg("Mod", div(OpURem, (*big.Int).Mod))
	reg("Neg", func(m *Machine, a []Value) Value { return m.bigSet(a[0], m.ts.Neg(m.bigGet(a[1]))) })
	reg("Abs", func(m *Machine, a []Value) Value {
		x := m.bigGet(a[1])
		return m.bigSet(a[0], m.ts.Ite(m.ts.Cmp(OpSlt, x, m.bigConst(new(big.Int))), m.ts.Neg(x), x))
	})
	reg("Set", func(m *Machine, a []Value) Value { return m.bigSet(a[0], m.bigGet(a[1])) })
	reg("SetInt64", func(m *Machine, a []Value) Value { return m.bigSet(a[0], m.ts.Sext(a[1].(*Term), bigW)) })
	reg("SetUint64", func(m *Machine, a []Value) Value { return m.bigSet(a[0], m.ts.Zext(a[1].(*Term), bigW)) })
	reg("Rsh", func(m *Machine, a []Value) Value {
		n := m.concInt(a[2], "shift")
		return m.bigSet(a[0], m.ts.Bin(OpAShr, m.bigGet(a[1]), m.bigConst(big.NewInt(int64(n)))))
	})
	reg("Lsh", func(m *Machine, a []Value) Value {
		x, ok := concBig(m.bigGet(a[1]))
		if !ok {
			unsupported("symbolic big.Int shift")
		}
		r := new(big.Int).Lsh(x, uint(m.concInt(a[2], "shift")))
		if r.BitLen() >= bigW {
			unsupported("big.Int shift exceeds %d bits", bigW)
		}
		return m.bigSet(a[0], m.bigConst(r))
	})
	reg("Exp", func(m *Machine, a []Value) Value {
		x, ok1 := concBig(m.bigGet(a[1]))
		y, ok2 := concBig(m.bigGet(a[2]))
		if !ok1 || !ok2 || !isNilValue(a[3]) {
			unsupported("symbolic big.Int power")
		}
		r := new(big.Int).Exp(x, y, nil)
		if r.BitLen() >= bigW {
			unsupported("big.Int power exceeds %d bits", bigW)
		}
		return m.bigSet(a[0], m.bigConst(r))
	})
	cmp := func(m *Machine, x, y *Term) Value {
		ts := m.ts
		return ts.Ite(ts.Cmp(OpSlt, x, y), m.mkInt(-1), ts.Ite(ts.Eq(x, y), m.mkInt(0), m.mkInt(1)))
	}
	reg("Cmp", func(m *Machine, a []Value) Value { return cmp(m, m.bigGet(a[0]), m.bigGet(a[1])) })
	reg("Sign", func(m *Machine, a []Value) Value {
		if isNilValue(a[0]) {
			m.goPanic("runtime error: invalid memory address or nil pointer dereference")
		}
		return cmp(m, m.bigGet(a[0]), m.bigConst(new(big.Int)))
	})
	reg("BitLen", func(m *Machine, a []Value) Value {
		x := m.bigGet(a[0])
		if c, ok := concBig(x); ok {
			return m.mkInt(int64(c.BitLen()))
		}
		ts := m.ts
		x = ts.Ite(ts.Cmp(OpSlt, x, m.bigConst(new(big.Int))), ts.Neg(x), x)
		// binary search for the highest set bit
		n := m.mkInt(0)
		W := 512
		y := ts.Zext(x, W)
		for _, k := range []int{256, 128, 64, 32, 16, 8, 4, 2, 1} {
			hi := ts.Extract(y, 2*k-1, k)
			nz := ts.BNot(ts.Eq(hi, ts.BigConst(k, new(big.Int))))
			n = ts.Ite(nz, ts.Bin(OpAdd, n, m.mkInt(int64(k))), n)
			y = ts.Ite(nz, hi, ts.Extract(y, k-1, 0))
		}
		return ts.Bin(OpAdd, n, ts.Zext(y, 64))
	})
	reg("IsInt64", func(m *Machine, a []Value) Value {
		x := m.bigGet(a[0])
		return m.ts.Eq(m.ts.Sext(m.ts.Extract(x, 63, 0), bigW), x)
	})
	reg("IsUint64", func(m *Machine, a []Value) Value {
		x := m.bigGet(a[0])
		return m.ts.Eq(m.ts.Zext(m.ts.Extract(x, 63, 0), bigW), x)
	})
	reg("Int64", func(m *Machine, a []Value) Value { return m.ts.Extract(m.bigGet(a[0]), 63, 0) })
	reg("Uint64", func(m *Machine, a []Value) Value { return m.ts.Extract(m.bigGet(a[0]), 63, 0) })
	toS := func(m *Machine, a []Value) Value {
		if isNilValue(a[0]) {
			return str("<nil>")
		}
		x := m.bigGet(a[0])
		if c, ok := concBig(x); ok {
			return str(c.String())
		}
		return strFromTerms([]*Term{m.tokTerm(&Tok{kind: "dec", t: x, sg: true})})
	}
	reg("String", toS)
	reg("Text", toS)
	reg("SetString", func(m *Machine, a []Value) Value {
		s := a[1].(*Str)
		base := m.concInt(a[2], "base")
		fail := Tuple{(*Value)(nil), m.ts.False}
		if s.Concrete() {
			b, ok := new(big.Int).SetString(s.s, base)
			if !ok {
				return fail
			}
			if b.BitLen() >= bigW {
				unsupported("integer of %d bits", b.BitLen())
			}
			m.bigSet(a[0], m.bigConst(b))
			return Tuple{a[0], m.ts.True}
		}
		if len(s.b) == 1 && s.b[0].op == OpTok && s.b[0].tok.kind == "dec" && (base == 10 || base == 0) {
			m.bigSet(a[0], m.widen(s.b[0].tok))
			return Tuple{a[0], m.ts.True}
		}
		// symbolic digits
		ts := m.ts
		b := s.b
		neg := false
		for _, x := range b {
			if x.op == OpTok {
				unsupported("integer text with abstract bytes")
			}
		}
		if base != 10 {
			unsupported("symbolic integer text in base %d", base)
		}
		if m.branch(ts.Eq(b[0], ts.Const(8, '-'))) {
			neg = true
			b = b[1:]
		} else if m.branch(ts.Eq(b[0], ts.Const(8, '+'))) {
			b = b[1:]
		}
		if len(b) == 0 {
			return fail
		}
		ok := ts.True
		for _, x := range b {
			ok = ts.BAnd(ok, ts.BAnd(ts.Cmp(OpUle, ts.Const(8, '0'), x), ts.Cmp(OpUle, x, ts.Const(8, '9'))))
		}
		v := m.decValue(b)
		if !m.branch(ok) {
			return fail
		}
		if neg {
			v = ts.Neg(v)
		}
		m.bigSet(a[0], v)
		return Tuple{a[0], ts.True}
	})
	reg("SetBytes", func(m *Machine, a []Value) Value {
		b := m.bytesOf(a[1])
		if len(b) > 39 {
			unsupported("big.Int of %d bytes", len(b))
		}
		if len(b) == 0 {
			return m.bigSet(a[0], m.bigConst(new(big.Int)))
		}
		v := b[0]
		for _, x := range b[1:] {
			v = m.ts.Concat(v, x)
		}
		return m.bigSet(a[0], m.ts.Zext(v, bigW))
	})
	reg("Bytes", func(m *Machine, a []Value) Value {
		x := m.bigGet(a[0])
		if c, ok := concBig(x); ok {
			return m.mkConcBytes(c.Bytes())
		}
		ts := m.ts
		if m.branch(ts.Cmp(OpSlt, x, m.bigConst(new(big.Int)))) {
			x = ts.Neg(x)
		}
		n := bigW / 8
		for ; n > 0; n-- {
			if !m.branch(ts.Cmp(OpUlt, x, m.bigConst(new(big.Int).Lsh(big.NewInt(1), uint(8*(n-1)))))) {
				break
			}
		}
		var out []*Term
		for i := n - 1; i >= 0; i-- {
			out = append(out, ts.Extract(x, 8*i+7, 8*i))
		}
		return m.mkBytes(out)
	})
	reg("FillBytes", func(m *Machine, a []Value) Value {
		x := m.bigGet(a[0])
		s := a[1].(*Slice)
		for i := 0; i < s.len; i++ {
			k := (s.len - 1 - i) * 8
			if k+7 < bigW {
				m.store(&s.a.e[s.off+i], m.ts.Extract(x, k+7, k))
			}
		}
		return s
	})
}

// widen gives the integer a decimal token denotes, at big.Int width.
func (m *Machine) widen(t *Tok) *Term {
	if t.t.w == bigW {
		return t.t
	}
	if t.t.w > bigW {
		unsupported("integer wider than %d bits", bigW)
	}
	if t.sg {
		return m.ts.Sext(t.t, bigW)
	}
	return m.ts.Zext(t.t, bigW)
}

// ------------------------------------------------------------ hashes

func (m *Machine) hash(name string, in []*Term, n int, nat func([]byte) []byte) []*Term {
	var out []*Term
	if b, ok := concBytes(in); ok && !hasTok(in) {
		out = m.constTerms(nat(b))
	} else {
		for _, h := range m.hashes {
			if h.name == name && sameTerms(h.in, in) {
				return h.out
			}
		}
		o := m.freshBytes(name, n)
		out = o
		m.derive(func(mod *Model) {
			for i, x := range nat(render(mod, in)) {
				mod.vals[o[i].name] = big.NewInt(int64(x))
			}
		})
	}
	// injectivity and functional consistency against every other application
	for _, h := range m.hashes {
		if h.name != name {
			continue
		}
		e := m.eqTerms(h.in, in)
		o := m.eqTerms(h.out, out)
		if e.IsConst() && o.IsConst() {
			continue
		}
		m.assumes["hash functions are collision-free ("+name+")"]++
		m.assumeWeak(m.ts.Eq(e, o))
	}
	rec := &hashRec{name, in, out}
	l := len(m.hashes)
	m.hashes = append(m.hashes[:l:l], rec)
	m.undoable(func() { m.hashes = m.hashes[:l:l] })
	return out
}

func sameTerms(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (m *Machine) sha256(in []*Term) []*Term {
	return m.hash("sha256", in, 32, func(b []byte) []byte { h := sha256.Sum256(b); return h[:] })
}

func (m *Machine) ripemd(in []*Term) []*Term {
	return m.hash("ripemd160", in, 20, func(b []byte) []byte { h := ripemd160.New(); h.Write(b); return h.Sum(nil) })
}

var _ = reflect.TypeOf
