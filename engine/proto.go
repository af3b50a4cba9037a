package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"math"
	"os"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
	"google.golang.org/protobuf/encoding/protowire"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
	"google.golang.org/protobuf/types/descriptorpb"
)

// Tok is an abstract byte-sequence segment: one "byte" of a symbolic byte
// sequence standing for the whole encoding of the payload.
type Tok struct {
	kind     string // pb: protobuf wire tree; dec: decimal rendering; raw: opaque
	tree     *PBTree
	t        *Term
	sg       bool
	name     string
	id       int
	key      string
	parts    []Value
	alphabet string
}

func (t *Tok) describe() string {
	switch t.kind {
	case "pb":
		return "pb"
	case "dec":
		return "dec " + t.t.String()
	}
	return t.kind + " " + t.name
}

func (m *Machine) tokTerm(t *Tok) *Term {
	m.nextTok++
	t.id = m.nextTok
	return &Term{op: OpTok, w: 8, tok: t, id: -t.id}
}

// PBTree is a protobuf message at wire level with symbolic leaves.
type PBTree struct {
	f map[int]*pbField
	// raw are fields with symbolic tags that the message type does not define
	raw []*Term
}
type pbField struct {
	rep  bool
	pres bool // explicit presence: emitted even when zero
	vals []pbVal
}
type pbVal struct {
	k byte // v varint (64-bit), f fixed64, w fixed32, b bytes, m message
	// seq is the position on the wire
	seq int
	t   *Term
	b   []*Term
	m   *PBTree
}

func (t *PBTree) nums() []int {
	var r []int
	for n := range t.f {
		r = append(r, n)
	}
	sort.Ints(r)
	return r
}

// ------------------------------------------------------------ Go struct metadata

type goField struct {
	idx    int
	num    int
	wire   string
	rep    bool
	packed bool
	name   string
	gt     types.Type
	stdt   bool
}
type goOneof struct {
	idx   int
	iface types.Type
	wraps map[int]*types.Named
	inner map[int]*goField
}
type msgInfo struct {
	named  *types.Named
	st     *types.Struct
	fields map[int]*goField
	nums   []int
	oneofs []*goOneof
	unkIdx int
	v2     bool
}

func parseTag(tag string) (num int, wire string, rep, packed bool, name string, ok bool) {
	t := reflect.StructTag(tag).Get("protobuf")
	if t == "" {
		return
	}
	p := strings.Split(t, ",")
	wire = p[0]
	num, _ = strconv.Atoi(p[1])
	for _, x := range p[2:] {
		switch {
		case x == "rep":
			rep = true
		case x == "packed":
			packed = true
		case strings.HasPrefix(x, "name="):
			name = x[5:]
		}
	}
	ok = true
	return
}

func namedOf(t types.Type) *types.Named {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := t.(*types.Named)
	return n
}

func (p *Program) msgInfo(n *types.Named) *msgInfo {
	p.infoMu.Lock()
	if mi, ok := p.msgInfos[n]; ok {
		p.infoMu.Unlock()
		return mi
	}
	p.infoMu.Unlock()
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		unsupported("protobuf message type %s", n)
	}
	mi := &msgInfo{named: n, st: st, fields: map[int]*goField{}, unkIdx: -1}
	mi.v2 = types.NewMethodSet(types.NewPointer(n)).Lookup(n.Obj().Pkg(), "ProtoReflect") != nil
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if f.Name() == "unknownFields" || f.Name() == "XXX_unrecognized" {
			mi.unkIdx = i
			continue
		}
		tag := st.Tag(i)
		if reflect.StructTag(tag).Get("protobuf_oneof") != "" {
			o := &goOneof{idx: i, iface: f.Type(), wraps: map[int]*types.Named{}, inner: map[int]*goField{}}
			it := f.Type().Underlying().(*types.Interface)
			sc := n.Obj().Pkg().Scope()
			for _, nm := range sc.Names() {
				tn, ok := sc.Lookup(nm).(*types.TypeName)
				if !ok {
					continue
				}
				wn, ok := tn.Type().(*types.Named)
				if !ok {
					continue
				}
				ws, ok := wn.Underlying().(*types.Struct)
				if !ok || ws.NumFields() != 1 || !types.Implements(types.NewPointer(wn), it) {
					continue
				}
				num, wire, rep, packed, name, ok := parseTag(ws.Tag(0))
				if !ok {
					continue
				}
				o.wraps[num] = wn
				o.inner[num] = &goField{idx: 0, num: num, wire: wire, rep: rep, packed: packed, name: name, gt: ws.Field(0).Type()}
			}
			mi.oneofs = append(mi.oneofs, o)
			continue
		}
		num, wire, rep, packed, name, ok := parseTag(tag)
		if !ok {
			continue
		}
		mi.fields[num] = &goField{idx: i, num: num, wire: wire, rep: rep, packed: packed, name: name, gt: f.Type(), stdt: strings.Contains(tag, "stdtime")}
		mi.nums = append(mi.nums, num)
	}
	sort.Ints(mi.nums)
	p.infoMu.Lock()
	p.msgInfos[n] = mi
	p.infoMu.Unlock()
	return mi
}

// ------------------------------------------------------------ struct -> tree

type pbErr struct{ msg string }

func (m *Machine) buildTree(sv Value, n *types.Named) *PBTree {
	mi := m.prog.msgInfo(n)
	s := sv.(*Struct)
	t := &PBTree{f: map[int]*pbField{}}
	for _, num := range mi.nums {
		gf := mi.fields[num]
		if f := m.fieldTree(s.f[gf.idx], gf, mi); f != nil {
			t.f[num] = f
		}
	}
	for _, o := range mi.oneofs {
		i, _ := s.f[o.idx].(*Iface)
		if i == nil {
			continue
		}
		wn := namedOf(i.t)
		for num, w := range o.wraps {
			if types.Identical(w, wn) {
				p := i.v.(*Value)
				if p == nil {
					continue
				}
				f := m.fieldTree((*p).(*Struct).f[0], o.inner[num], mi)
				if f == nil {
					f = &pbField{}
				}
				f.pres = true
				t.f[num] = f
			}
		}
	}
	if mi.unkIdx >= 0 {
		if u, ok := s.f[mi.unkIdx].(*Slice); ok && u.len > 0 {
			b := m.bytesOf(u)
			for _, x := range b {
				if !x.IsConst() && x.op != OpTok {
					t.raw = b
				}
			}
			if t.raw != nil {
				return t
			}
			ut := m.decodeWire(b, nil)
			if ut == nil {
				unsupported("malformed unknown fields")
			}
			for k, v := range ut.f {
				if t.f[k] == nil {
					t.f[k] = &pbField{rep: true, pres: true, vals: v.vals}
				} else {
					unsupported("unknown field number collides")
				}
			}
		}
	}
	return t
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (m *Machine) fieldTree(v Value, gf *goField, mi *msgInfo) *pbField {
	if gf.rep {
		s := v.(*Slice)
		if s.len == 0 {
			return nil
		}
		et := gf.gt.Underlying().(*types.Slice).Elem()
		f := &pbField{rep: true}
		for i := 0; i < s.len; i++ {
			ev, ok := m.scalarVal(s.a.e[s.off+i], et, gf, mi)
			if !ok {
				if _, isPtr := et.(*types.Pointer); isPtr {
					if mi.v2 {
						ev = pbVal{k: 'm', m: &PBTree{f: map[int]*pbField{}}}
					} else {
						panic(pbErr{"proto: repeated field has nil element"})
					}
				}
			}
			f.vals = append(f.vals, ev)
		}
		return f
	}
	if _, ok := gf.gt.Underlying().(*types.Map); ok {
		mp, _ := v.(*Map)
		if mp == nil || mp.n == 0 {
			return nil
		}
		unsupported("protobuf map field")
	}
	pv, ok := m.scalarVal(v, gf.gt, gf, mi)
	if !ok {
		return nil
	}
	return &pbField{vals: []pbVal{pv}, pres: pv.k == 'm'}
}

// scalarVal converts one element; ok=false for nil messages.
func (m *Machine) scalarVal(v Value, t types.Type, gf *goField, mi *msgInfo) (pbVal, bool) {
	ts := m.ts
	if nt, ok := v.(*Native); ok {
		pm, ok := nt.v.Interface().(proto.Message)
		if !ok {
			unsupported("native protobuf field %s", nt.v.Type())
		}
		b, err := proto.MarshalOptions{Deterministic: true}.Marshal(pm)
		if err != nil {
			panic(pbErr{err.Error()})
		}
		return pbVal{k: 'b', b: m.constTerms(b)}, true
	}
	if p, isPtr := t.(*types.Pointer); isPtr {
		n := namedOf(p)
		c, ok := v.(*Value)
		if !ok {
			unsupported("protobuf field value %T", v)
		}
		if n == nil || !isStruct(n) {
			unsupported("proto2 optional scalar")
		}
		if c == nil {
			return pbVal{}, false
		}
		return pbVal{k: 'm', m: m.buildTree(*c, n)}, true
	}
	if gf.stdt {
		return pbVal{k: 'm', m: m.timeTree(v.(*Struct))}, true
	}
	if n, ok := t.(*types.Named); ok && isStruct(n) {
		return pbVal{k: 'm', m: m.buildTree(v, n)}, true
	}
	if isByteSlice(t) {
		return pbVal{k: 'b', b: m.bytesOf(v)}, true
	}
	switch x := v.(type) {
	case *Str:
		b := x.Terms(ts)
		if mi.v2 {
			if !m.branch(m.utf8Valid(b)) {
				panic(pbErr{"string field contains invalid UTF-8"})
			}
		}
		return pbVal{k: 'b', b: b}, true
	case *Term:
		w, sg, _ := intType(t)
		switch gf.wire {
		case "varint":
			if w == 0 {
				return pbVal{k: 'v', t: ts.Ite(x, ts.Const(64, 1), ts.Const(64, 0))}, true
			}
			if sg {
				return pbVal{k: 'v', t: ts.Sext(x, 64)}, true
			}
			return pbVal{k: 'v', t: ts.Zext(x, 64)}, true
		case "zigzag64", "zigzag32":
			y := x
			if w < 64 {
				y = ts.Sext(x, 64)
			}
			z := ts.Bin(OpXor, ts.Bin(OpShl, y, ts.Const(64, 1)), ts.Bin(OpAShr, y, ts.Const(64, 63)))
			return pbVal{k: 'v', t: z}, true
		case "fixed64":
			return pbVal{k: 'f', t: x}, true
		case "fixed32":
			return pbVal{k: 'w', t: x}, true
		}
	case float64:
		return pbVal{k: 'f', t: ts.Const(64, math.Float64bits(x))}, true
	case F32:
		return pbVal{k: 'w', t: ts.Const(32, uint64(math.Float32bits(float32(x))))}, true
	}
	panic(Unsupported{fmt.Sprintf("protobuf field %s value %T", gf.name, v)})
}

func isStruct(t types.Type) bool { _, ok := t.Underlying().(*types.Struct); return ok }

func (m *Machine) constTerms(b []byte) []*Term {
	r := make([]*Term, len(b))
	for i, x := range b {
		r[i] = m.ts.Const(8, uint64(x))
	}
	return r
}

// utf8Valid is the exact condition for a byte sequence to be valid UTF-8.
func (m *Machine) utf8Valid(b []*Term) *Term {
	ts := m.ts
	n := len(b)
	v := make([]*Term, n+1)
	v[n] = ts.True
	in := func(t *Term, lo, hi uint64) *Term {
		return ts.BAnd(ts.Cmp(OpUle, ts.Const(8, lo), t), ts.Cmp(OpUle, t, ts.Const(8, hi)))
	}
	for i := n - 1; i >= 0; i-- {
		if b[i].op == OpTok {
			if b[i].tok.kind == "dec" || b[i].tok.kind == "ascii" {
				v[i] = v[i+1]
				continue
			}
			unsupported("UTF-8 validity of abstract bytes")
		}
		r := ts.BAnd(ts.Cmp(OpUlt, b[i], ts.Const(8, 0x80)), v[i+1])
		tokAhead := false
		for j := i + 1; j < n && j < i+4; j++ {
			if b[j].op == OpTok {
				tokAhead = true
			}
		}
		if b[i].IsConst() && b[i].v < 0x80 || tokAhead {
			v[i] = r
			continue
		}
		if i+1 < n {
			r = ts.BOr(r, ts.BAnd(ts.BAnd(in(b[i], 0xc2, 0xdf), in(b[i+1], 0x80, 0xbf)), v[i+2]))
		}
		if i+2 < n {
			first := ts.BOr(ts.BOr(ts.BAnd(ts.Eq(b[i], ts.Const(8, 0xe0)), in(b[i+1], 0xa0, 0xbf)),
				ts.BAnd(ts.Eq(b[i], ts.Const(8, 0xed)), in(b[i+1], 0x80, 0x9f))),
				ts.BAnd(ts.BOr(in(b[i], 0xe1, 0xec), in(b[i], 0xee, 0xef)), in(b[i+1], 0x80, 0xbf)))
			r = ts.BOr(r, ts.BAnd(ts.BAnd(first, in(b[i+2], 0x80, 0xbf)), v[i+3]))
		}
		if i+3 < n {
			first := ts.BOr(ts.BOr(ts.BAnd(ts.Eq(b[i], ts.Const(8, 0xf0)), in(b[i+1], 0x90, 0xbf)),
				ts.BAnd(ts.Eq(b[i], ts.Const(8, 0xf4)), in(b[i+1], 0x80, 0x8f))),
				ts.BAnd(in(b[i], 0xf1, 0xf3), in(b[i+1], 0x80, 0xbf)))
			r = ts.BOr(r, ts.BAnd(ts.BAnd(first, ts.BAnd(in(b[i+2], 0x80, 0xbf), in(b[i+3], 0x80, 0xbf))), v[i+4]))
		}
		v[i] = r
	}
	return v[0]
}

// ------------------------------------------------------------ tree -> bytes

// marshalTree renders a tree as a byte sequence: real wire bytes when every
// leaf is concrete, one abstract segment otherwise (nothing when it is the
// empty encoding).
func (m *Machine) marshalTree(t *PBTree) []*Term {
	if b, ok := m.encodeTree(t); ok {
		return b
	}
	if m.branch(m.treeEmpty(t)) {
		return nil
	}
	return []*Term{m.tokTerm(&Tok{kind: "pb", tree: t})}
}

func (m *Machine) treeEmpty(t *PBTree) *Term {
	ts := m.ts
	r := ts.True
	if len(t.raw) > 0 {
		return ts.False
	}
	for _, f := range t.f {
		if f.rep && len(f.vals) > 0 || f.pres {
			return ts.False
		}
		for _, v := range f.vals {
			switch v.k {
			case 'v', 'f', 'w':
				r = ts.BAnd(r, ts.Eq(v.t, ts.Const(v.t.w, 0)))
			case 'b':
				if len(v.b) > 0 {
					return ts.False
				}
			case 'm':
				return ts.False
			}
		}
	}
	return r
}

// encodeTree gives the real wire bytes if no symbolic integer leaf prevents it.
func (m *Machine) encodeTree(t *PBTree) ([]*Term, bool) {
	if hasTok(t.raw) {
		return nil, false
	}
	var out []*Term
	for _, n := range t.nums() {
		f := t.f[n]
		packedOK := f.rep && len(f.vals) > 0 && f.vals[0].k != 'b' && f.vals[0].k != 'm' && !f.pres
		if packedOK {
			var body []byte
			for _, v := range f.vals {
				if !v.t.IsConst() {
					return nil, false
				}
				switch v.k {
				case 'v':
					body = protowire.AppendVarint(body, v.t.v)
				case 'f':
					body = protowire.AppendFixed64(body, v.t.v)
				case 'w':
					body = protowire.AppendFixed32(body, uint32(v.t.v))
				}
			}
			h := protowire.AppendTag(nil, protowire.Number(n), protowire.BytesType)
			h = protowire.AppendBytes(h, body)
			out = append(out, m.constTerms(h)...)
			continue
		}
		for _, v := range f.vals {
			switch v.k {
			case 'v', 'f', 'w':
				if !v.t.IsConst() {
					return nil, false
				}
				if v.t.v == 0 && !f.pres && !f.rep {
					continue
				}
				var h []byte
				switch v.k {
				case 'v':
					h = protowire.AppendTag(nil, protowire.Number(n), protowire.VarintType)
					h = protowire.AppendVarint(h, v.t.v)
				case 'f':
					h = protowire.AppendTag(nil, protowire.Number(n), protowire.Fixed64Type)
					h = protowire.AppendFixed64(h, v.t.v)
				case 'w':
					h = protowire.AppendTag(nil, protowire.Number(n), protowire.Fixed32Type)
					h = protowire.AppendFixed32(h, uint32(v.t.v))
				}
				out = append(out, m.constTerms(h)...)
			case 'b', 'm':
				b := v.b
				if v.k == 'm' {
					x, ok := m.encodeTree(v.m)
					if !ok {
						return nil, false
					}
					b = x
				}
				if hasTok(b) {
					return nil, false
				}
				if len(b) == 0 && !f.pres && !f.rep {
					continue
				}
				h := protowire.AppendTag(nil, protowire.Number(n), protowire.BytesType)
				h = protowire.AppendVarint(h, uint64(len(b)))
				out = append(out, m.constTerms(h)...)
				out = append(out, b...)
			}
		}
	}
	out = append(out, t.raw...)
	return out, true
}

// ------------------------------------------------------------ bytes -> tree

// decodeWire parses a byte sequence into field occurrences; nil if malformed.
// Fields that mi does not define are kept raw when their tag is symbolic.
func (m *Machine) decodeWire(b []*Term, mi *msgInfo) *PBTree {
	if len(b) == 1 && b[0].op == OpTok {
		if b[0].tok.kind == "pb" {
			return b[0].tok.tree
		}
		unsupported("parsing abstract %s bytes as protobuf", b[0].tok.kind)
	}
	t := &PBTree{f: map[int]*pbField{}}
	i, seq := 0, 0
	for i < len(b) {
		start := i
		tag, n := m.wireVarint(b[i:], mi == nil)
		if n < 0 {
			return nil
		}
		i += n
		num, wt, ok := m.splitTag(tag, mi)
		if !ok {
			return nil
		}
		v := pbVal{seq: seq}
		seq++
		switch wt {
		case 0:
			x, n := m.wireVarint(b[i:], false)
			if n < 0 {
				return nil
			}
			i += n
			v.k, v.t = 'v', x
		case 1, 5:
			sz := 8
			v.k = 'f'
			if wt == 5 {
				sz = 4
				v.k = 'w'
			}
			if len(b)-i < sz {
				return nil
			}
			for j := sz - 1; j >= 0; j-- {
				if b[i+j].op == OpTok {
					unsupported("parsing abstract bytes")
				}
				if v.t == nil {
					v.t = b[i+j]
				} else {
					v.t = m.ts.Concat(v.t, b[i+j])
				}
			}
			i += sz
		case 2:
			l, n := m.wireLen(b[i:])
			if n < 0 {
				return nil
			}
			i += n
			v.k, v.b = 'b', b[i:i+l]
			i += l
		case 3:
			n := m.skipGroup(b[i:], m.ts.Bin(OpLShr, tag, m.ts.Const(64, 3)), 0)
			if n < 0 {
				return nil
			}
			i += n
			// no message here has groups: a mismatch is kept as unknown
			num = -1
		default:
			return nil
		}
		if num < 0 {
			t.raw = append(t.raw, b[start:i]...)
			continue
		}
		f := t.f[num]
		if f == nil {
			f = &pbField{rep: true, pres: true}
			t.f[num] = f
		}
		f.vals = append(f.vals, v)
	}
	return t
}

// splitTag separates the field number and the wire type of a tag; the number
// is -1 for a symbolic number that mi does not define.
func (m *Machine) splitTag(tag *Term, mi *msgInfo) (num int, wt uint64, ok bool) {
	if tag.IsConst() {
		n := tag.v >> 3
		return int(n), tag.v & 7, n != 0 && n <= 1<<29-1
	}
	ts := m.ts
	n := ts.Bin(OpLShr, tag, ts.Const(64, 3))
	if !m.branch(ts.BAnd(ts.Cmp(OpUlt, ts.Const(64, 0), n), ts.Cmp(OpUlt, n, ts.Const(64, 1<<29)))) {
		return 0, 0, false
	}
	wt = m.concretize(ts.Bin(OpAnd, tag, ts.Const(64, 7)), "wire type").v
	if wt == 4 || wt > 5 {
		return 0, 0, false
	}
	if mi != nil {
		for _, k := range mi.allNums() {
			if m.branch(ts.Eq(n, ts.Const(64, uint64(k)))) {
				return k, wt, true
			}
		}
		return -1, wt, true
	}
	return int(m.concretize(n, "field number").v), wt, true
}

func (mi *msgInfo) allNums() []int {
	l := append([]int(nil), mi.nums...)
	for _, o := range mi.oneofs {
		for n := range o.inner {
			l = append(l, n)
		}
	}
	sort.Ints(l)
	return l
}

// wireLen reads a length that fits the remaining bytes.
func (m *Machine) wireLen(b []*Term) (l, n int) {
	t, n := m.wireVarint(b, false)
	if n < 0 {
		return 0, -1
	}
	rest := len(b) - n
	if hasTok(b[n:]) {
		unsupported("length-delimited field over abstract bytes")
	}
	if !m.branch(m.ts.Cmp(OpUle, t, m.ts.Const(64, uint64(rest)))) {
		return 0, -1
	}
	return int(m.concretize(t, "wire length").v), n
}

// skipGroup skips a group up to its end tag.
func (m *Machine) skipGroup(b []*Term, num *Term, depth int) int {
	if depth > 10000 {
		return -1
	}
	ts := m.ts
	i := 0
	for {
		tag, n := m.wireVarint(b[i:], false)
		if n < 0 {
			return -1
		}
		i += n
		k := ts.Bin(OpLShr, tag, ts.Const(64, 3))
		if !m.branch(ts.BAnd(ts.Cmp(OpUlt, ts.Const(64, 0), k), ts.Cmp(OpUlt, k, ts.Const(64, 1<<29)))) {
			return -1
		}
		switch m.concretize(ts.Bin(OpAnd, tag, ts.Const(64, 7)), "wire type").v {
		case 0:
			_, n = m.wireVarint(b[i:], false)
		case 1:
			n = 8
		case 5:
			n = 4
		case 2:
			var l int
			l, n = m.wireLen(b[i:])
			if n >= 0 {
				n += l
			}
		case 3:
			n = m.skipGroup(b[i:], k, depth+1)
		case 4:
			if m.branch(ts.Eq(k, num)) {
				return i
			}
			return -1
		default:
			return -1
		}
		if n < 0 || n > len(b)-i {
			return -1
		}
		i += n
	}
}

// wireVarint reads a varint; conc forces a concrete result (forking).
func (m *Machine) wireVarint(b []*Term, conc bool) (*Term, int) {
	ts := m.ts
	v := ts.Const(64, 0)
	for i := 0; i < 10; i++ {
		if i >= len(b) {
			return nil, -1
		}
		if b[i].op == OpTok {
			if b[i].tok.kind == "varint" && i == 0 && !conc {
				return b[i].tok.t, 1
			}
			unsupported("parsing abstract bytes")
		}
		x := ts.Zext(b[i], 64)
		if i == 9 {
			if !m.branch(ts.Cmp(OpUlt, b[i], ts.Const(8, 2))) {
				return nil, -1
			}
		}
		v = ts.Bin(OpOr, v, ts.Bin(OpShl, ts.Bin(OpAnd, x, ts.Const(64, 0x7f)), ts.Const(64, uint64(7*i))))
		if m.branch(ts.Cmp(OpUlt, b[i], ts.Const(8, 0x80))) {
			if conc {
				v = m.concretize(v, "wire varint")
			}
			return v, i + 1
		}
	}
	return nil, -1
}

// ------------------------------------------------------------ tree -> struct

func (m *Machine) newStruct(n *types.Named) *Struct { return m.zero(n).(*Struct) }

func (m *Machine) treeToStruct(t *PBTree, n *types.Named) *Struct {
	mi := m.prog.msgInfo(n)
	s := m.newStruct(n)
	m.mergeTree(t, mi, s)
	return s
}

func (m *Machine) mergeTree(t *PBTree, mi *msgInfo, s *Struct) {
	ts := m.ts
	unk := append([]*Term(nil), t.raw...)
	last := map[*goOneof]int{}
	for _, num := range t.nums() {
		f := t.f[num]
		if len(f.vals) == 0 && !f.pres {
			continue
		}
		gf := mi.fields[num]
		var oo *goOneof
		if gf == nil {
			for _, o := range mi.oneofs {
				if o.inner[num] != nil {
					gf, oo = o.inner[num], o
				}
			}
		}
		if gf == nil {
			unk = append(unk, m.unknownBytes(num, f)...)
			continue
		}
		ft := gf.gt
		if gf.rep {
			et := ft.Underlying().(*types.Slice).Elem()
			var add []Value
			for _, v := range f.vals {
				if v.k == 'b' && wireKind(gf, et) != 'b' {
					// packed
					for j := 0; j < len(v.b); {
						switch wireKind(gf, et) {
						case 'v':
							x, n := m.wireVarint(v.b[j:], false)
							if n < 0 {
								panic(pbErr{"proto: cannot parse packed field"})
							}
							j += n
							add = append(add, m.leafToGo(pbVal{k: 'v', t: x}, et, gf, mi))
						default:
							unsupported("packed fixed field")
						}
					}
					continue
				}
				if wrongWire(v, gf, et) {
					unk = append(unk, m.unknownBytes(num, &pbField{rep: true, pres: true, vals: []pbVal{v}})...)
					continue
				}
				add = append(add, m.leafToGo(v, et, gf, mi))
			}
			if len(add) > 0 {
				s.f[gf.idx] = m.appendVals(s.f[gf.idx].(*Slice), add)
			}
			continue
		}
		vals := f.vals
		if len(vals) == 0 {
			// explicit presence with default value
			vals = []pbVal{m.zeroLeaf(gf)}
		}
		for vi, v := range vals {
			if wrongWire(v, gf, ft) {
				unk = append(unk, m.unknownBytes(num, &pbField{rep: true, pres: true, vals: []pbVal{v}})...)
				continue
			}
			if wireKind(gf, ft) == 'b' && isMsg(ft) && (vi > 0 || oo == nil) && oldMsg(s, gf, oo, num) != nil && !isDescriptorPB(namedOf(ft)) {
				if oo != nil && v.seq < last[oo] {
					unsupported("alternating occurrences of the members of a oneof")
				}
				n := namedOf(ft)
				tr := v.m
				if tr == nil {
					tr = m.decodeWire(v.b, m.prog.msgInfo(n))
				}
				if tr == nil {
					panic(pbErr{"proto: cannot parse invalid wire-format data"})
				}
				old := oldMsg(s, gf, oo, num)
				st := copyVal(*old).(*Struct)
				m.mergeTree(tr, m.prog.msgInfo(n), st)
				m.storeVal(old, st)
				if oo != nil {
					last[oo] = v.seq
				}
				continue
			}
			gv := m.leafToGo(v, ft, gf, mi)
			if oo != nil {
				if seq, seen := last[oo]; seen && v.seq < seq {
					continue
				}
				last[oo] = v.seq
				ws := &Struct{f: []Value{gv}}
				s.f[oo.idx] = &Iface{t: types.NewPointer(oo.wraps[num]), v: newCell(ws)}
			} else {
				s.f[gf.idx] = gv
			}
		}
	}
	if len(unk) > 0 && mi.unkIdx >= 0 {
		s.f[mi.unkIdx] = m.mkBytes(unk)
	}
	_ = ts
}

// oldMsg is the message a field was already set to while decoding.
func oldMsg(s *Struct, gf *goField, oo *goOneof, num int) *Value {
	v := s.f[gf.idx]
	if oo != nil {
		i, ok := s.f[oo.idx].(*Iface)
		if !ok || i == nil {
			return nil
		}
		w := *(i.v.(*Value))
		if namedOf(i.t) != oo.wraps[num] {
			return nil
		}
		v = w.(*Struct).f[0]
	}
	p, ok := v.(*Value)
	if !ok || p == nil {
		return nil
	}
	return p
}

func (m *Machine) zeroLeaf(gf *goField) pbVal {
	switch wireKind(gf, gf.gt) {
	case 'v':
		return pbVal{k: 'v', t: m.ts.Const(64, 0)}
	case 'f':
		return pbVal{k: 'f', t: m.ts.Const(64, 0)}
	case 'w':
		return pbVal{k: 'w', t: m.ts.Const(32, 0)}
	}
	return pbVal{k: 'b'}
}

func isMsg(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	return isStruct(t)
}

func wireKind(gf *goField, t types.Type) byte {
	switch gf.wire {
	case "varint", "zigzag32", "zigzag64":
		return 'v'
	case "fixed64":
		return 'f'
	case "fixed32":
		return 'w'
	}
	return 'b'
}

func wrongWire(v pbVal, gf *goField, t types.Type) bool {
	k := wireKind(gf, t)
	vk := v.k
	if vk == 'm' {
		vk = 'b'
	}
	return k != vk
}

func (m *Machine) unknownBytes(num int, f *pbField) []*Term {
	t := &PBTree{f: map[int]*pbField{num: f}}
	if b, ok := m.encodeTree(t); ok {
		return b
	}
	var out []*Term
	vals := f.vals
	for _, v := range vals {
		wt := protowire.BytesType
		switch v.k {
		case 'v':
			wt = protowire.VarintType
		case 'f':
			wt = protowire.Fixed64Type
		case 'w':
			wt = protowire.Fixed32Type
		}
		if v.k == 'v' && !f.pres && !f.rep {
			if m.branch(m.ts.Eq(v.t, m.ts.Const(64, 0))) {
				continue
			}
		}
		if (v.k == 'b') && len(v.b) == 0 && !f.pres && !f.rep {
			continue
		}
		out = append(out, m.constTerms(protowire.AppendTag(nil, protowire.Number(num), wt))...)
		if v.k == 'v' {
			out = append(out, m.tokTerm(&Tok{kind: "varint", t: v.t}))
		} else {
			out = append(out, m.tokTerm(&Tok{kind: "unk", tree: &PBTree{f: map[int]*pbField{num: {rep: true, pres: true, vals: []pbVal{v}}}}}))
		}
	}
	return out
}

func (m *Machine) leafToGo(v pbVal, t types.Type, gf *goField, mi *msgInfo) Value {
	ts := m.ts
	if gf.stdt {
		out := m.zero(t).(*Struct)
		tr := v.m
		if v.k != 'm' {
			if tr = m.decodeWire(v.b, nil); tr == nil {
				panic(pbErr{"proto: cannot parse invalid wire-format data"})
			}
		}
		get := func(n int) *Term {
			if f := tr.f[n]; f != nil && len(f.vals) > 0 {
				return f.vals[len(f.vals)-1].t
			}
			return ts.Const(64, 0)
		}
		out.f[0], out.f[1] = get(2), ts.Bin(OpAdd, get(1), ts.Const(64, yearOne))
		return out
	}
	if isMsg(t) {
		n := namedOf(t)
		if isDescriptorPB(n) {
			b, ok := concBytes(m.valBytes(v))
			if !ok {
				unsupported("symbolic descriptor")
			}
			return nativeDescriptor(n.Obj().Name(), b)
		}
		var tr *PBTree
		if v.k == 'm' {
			tr = v.m
		} else {
			tr = m.decodeWire(v.b, m.prog.msgInfo(n))
			if tr == nil {
				panic(pbErr{"proto: cannot parse invalid wire-format data"})
			}
		}
		st := m.treeToStruct(tr, n)
		if _, isPtr := t.(*types.Pointer); isPtr {
			return newCell(st)
		}
		return st
	}
	switch wireKind(gf, t) {
	case 'b':
		b := m.valBytes(v)
		if isByteSlice(t) {
			return m.mkBytes(b)
		}
		if mi.v2 {
			if !m.branch(m.utf8Valid(b)) {
				panic(pbErr{"string field contains invalid UTF-8"})
			}
		}
		return strFromTerms(b)
	case 'v':
		w, _, _ := intType(t)
		x := v.t
		switch gf.wire {
		case "zigzag32", "zigzag64":
			half := ts.Bin(OpLShr, x, ts.Const(64, 1))
			neg := ts.Neg(ts.Bin(OpAnd, x, ts.Const(64, 1)))
			x = ts.Bin(OpXor, half, neg)
		}
		if w == 0 {
			return ts.BNot(ts.Eq(x, ts.Const(64, 0)))
		}
		if w < 64 {
			return ts.Extract(x, w-1, 0)
		}
		return x
	case 'f', 'w':
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			if !v.t.IsConst() {
				unsupported("symbolic float")
			}
			if v.k == 'f' {
				return math.Float64frombits(v.t.v)
			}
			return F32(math.Float32frombits(uint32(v.t.v)))
		}
		return v.t
	}
	panic("leaf")
}

func (m *Machine) valBytes(v pbVal) []*Term {
	if v.k == 'm' {
		return m.marshalTree(v.m)
	}
	return v.b
}

// ------------------------------------------------------------ equality of abstract bytes

func (m *Machine) eqTokSeq(x, y []*Term) *Term {
	ts := m.ts
	// empty versus abstract
	nonEmpty := func(s []*Term) bool {
		for _, t := range s {
			if t.op != OpTok {
				return true
			}
			if t.tok.kind == "pb" || t.tok.kind == "dec" || t.tok.kind == "ascii" || t.tok.kind == "varint" || t.tok.kind == "unk" {
				return true
			}
		}
		return false
	}
	if len(x) == 0 && nonEmpty(y) || len(y) == 0 && nonEmpty(x) {
		return ts.False
	}
	// strip equal prefixes and suffixes
	r := ts.True
	for len(x) > 0 && len(y) > 0 {
		a, b := x[0], y[0]
		if a.op == OpTok && b.op == OpTok && m.tokComparable(a.tok, b.tok, x[1:], y[1:]) {
			r = ts.BAnd(r, m.eqTok(a.tok, b.tok))
		} else if a.op != OpTok && b.op != OpTok {
			r = ts.BAnd(r, ts.Eq(a, b))
		} else {
			break
		}
		x, y = x[1:], y[1:]
		if r.IsFalse() {
			return r
		}
	}
	if len(x) == 0 && len(y) == 0 {
		return r
	}
	if len(x) == 0 && nonEmpty(y) || len(y) == 0 && nonEmpty(x) {
		return ts.False
	}
	for len(x) > 0 && len(y) > 0 {
		a, b := x[len(x)-1], y[len(y)-1]
		if a.op != OpTok && b.op != OpTok {
			r = ts.BAnd(r, ts.Eq(a, b))
		} else {
			break
		}
		x, y = x[:len(x)-1], y[:len(y)-1]
		if r.IsFalse() {
			return r
		}
	}
	// a lone decimal against plain bytes
	if len(x) == 1 && x[0].op == OpTok && !hasTok(y) {
		return ts.BAnd(r, m.eqTokPlain(x[0].tok, y))
	}
	if len(y) == 1 && y[0].op == OpTok && !hasTok(x) {
		return ts.BAnd(r, m.eqTokPlain(y[0].tok, x))
	}
	if os.Getenv("GOSYM_SHAPES") != "" {
		fmt.Fprintln(os.Stderr, "SHAPES", x, "VS", y)
	}
	unsupported("comparison of differently shaped abstract byte sequences")
	return nil
}

func (m *Machine) tokComparable(a, b *Tok, xr, yr []*Term) bool {
	if a == b {
		return true
	}
	if a.kind != b.kind {
		return false
	}
	// self-delimiting only if nothing follows, or what follows cannot be
	// confused (a non-digit after a decimal)
	if len(xr) == 0 && len(yr) == 0 {
		return true
	}
	if a.kind == "dec" {
		nd := func(r []*Term) bool {
			return len(r) == 0 || (r[0].op != OpTok && r[0].IsConst() && (r[0].v < '0' || r[0].v > '9'))
		}
		return nd(xr) && nd(yr)
	}
	return a.kind == "varint"
}

func (m *Machine) eqTok(a, b *Tok) *Term {
	if a == b {
		return m.ts.True
	}
	switch a.kind {
	case "pb", "unk":
		return m.eqTree(a.tree, b.tree)
	case "dec", "varint":
		return m.ts.Eq(a.t, b.t)
	case "ascii":
		if a.key == b.key {
			return m.ts.True
		}
	}
	if a.tree != nil && b.tree != nil && a.name == b.name {
		return m.eqTree(a.tree, b.tree)
	}
	if a.parts != nil && b.parts != nil && a.name == b.name && len(a.parts) == len(b.parts) {
		r := m.ts.True
		for i := range a.parts {
			r = m.ts.BAnd(r, m.eqTerm(a.parts[i], b.parts[i]))
		}
		return r
	}
	unsupported("comparison of abstract %s", a.kind)
	return nil
}

func (m *Machine) eqTokPlain(a *Tok, y []*Term) *Term {
	ts := m.ts
	switch a.kind {
	case "pb":
		t := m.decodeWire(y, nil)
		if t == nil {
			return ts.False
		}
		return m.eqTree(a.tree, t)
	case "dec":
		// y must be the canonical decimal of a.t
		b, ok := concBytes(y)
		if ok {
			s := string(b)
			n, good := parseBig(s)
			if !good || n.String() != s {
				return ts.False
			}
			if n.Sign() < 0 && !a.sg {
				return ts.False
			}
			if n.BitLen() > a.t.w {
				return ts.False
			}
			return ts.Eq(a.t, ts.BigConst(a.t.w, n))
		}
	}
	if a.parts != nil && a.kind != "text" {
		// structured abstract text (e.g. bech32): plain text differs unless decoded
		return ts.False
	}
	unsupported("comparison of abstract %s with plain bytes", a.kind)
	return nil
}

func (m *Machine) eqTree(a, b *PBTree) *Term {
	ts := m.ts
	if len(a.raw)+len(b.raw) > 0 {
		unsupported("comparison of messages with symbolic unknown fields")
	}
	r := ts.True
	seen := map[int]bool{}
	for n := range a.f {
		seen[n] = true
	}
	for n := range b.f {
		seen[n] = true
	}
	var nums []int
	for n := range seen {
		nums = append(nums, n)
	}
	sort.Ints(nums)
	for _, n := range nums {
		r = ts.BAnd(r, m.eqField(a.f[n], b.f[n]))
		if r.IsFalse() {
			return r
		}
	}
	return r
}

// present gives the values of a field that are emitted and the condition.
func (m *Machine) eqField(x, y *pbField) *Term {
	ts := m.ts
	vx, vy := fieldVals(x), fieldVals(y)
	if len(vx) == 0 && len(vy) == 0 {
		return ts.True
	}
	if len(vx) == 0 || len(vy) == 0 {
		f := x
		if len(vx) == 0 {
			f = y
		}
		if f.rep || f.pres || len(f.vals) != 1 {
			return ts.False
		}
		return m.leafZero(f.vals[0])
	}
	if len(vx) != len(vy) {
		return ts.False
	}
	r := ts.True
	for i := range vx {
		a, b := vx[i], vy[i]
		switch {
		case a.k == 'v' && b.k == 'v' || a.k == 'f' && b.k == 'f' || a.k == 'w' && b.k == 'w':
			r = ts.BAnd(r, ts.Eq(a.t, b.t))
		case a.k == 'm' && b.k == 'm':
			r = ts.BAnd(r, m.eqTree(a.m, b.m))
		case (a.k == 'b' || a.k == 'm') && (b.k == 'b' || b.k == 'm'):
			r = ts.BAnd(r, m.eqTerms(m.valBytes(a), m.valBytes(b)))
		default:
			return ts.False
		}
		if r.IsFalse() {
			return r
		}
	}
	return r
}

func fieldVals(f *pbField) []pbVal {
	if f == nil {
		return nil
	}
	return f.vals
}

func (m *Machine) leafZero(v pbVal) *Term {
	switch v.k {
	case 'v', 'f', 'w':
		return m.ts.Eq(v.t, m.ts.Const(v.t.w, 0))
	case 'b':
		return m.ts.Bool(len(v.b) == 0)
	}
	return m.ts.False
}

func (m *Machine) sliceHasTok(s *Slice) bool {
	for i := 0; i < s.len; i++ {
		if t, ok := s.a.e[s.off+i].(*Term); ok {
			if t.op == OpTok {
				return true
			}
		} else {
			return false
		}
	}
	return false
}

// lenTok: the length of a sequence with abstract segments is a constrained
// symbolic integer (every segment is non-empty).
func (m *Machine) lenTok(b []*Term) *Term {
	ts := m.ts
	n := ts.Const(64, 0)
	for _, t := range b {
		if t.op != OpTok {
			n = ts.Bin(OpAdd, n, ts.Const(64, 1))
			continue
		}
		if t.tok.kind == "varint" {
			n = ts.Bin(OpAdd, n, m.varintLen(t.tok.t))
			continue
		}
		v := ts.Var(fmt.Sprintf("len!%d", t.tok.id), 64)
		c := ts.BAnd(ts.Cmp(OpUlt, ts.Const(64, 0), v), ts.Cmp(OpUle, v, ts.Const(64, tokMaxLen(t.tok))))
		m.assume(c)
		n = ts.Bin(OpAdd, n, v)
	}
	return n
}

// varintLen is the size of the varint encoding of t.
func (m *Machine) varintLen(t *Term) *Term {
	ts := m.ts
	n := ts.Const(64, 1)
	for k := uint(7); k < 64 && k < uint(t.w); k += 7 {
		more := ts.Cmp(OpUle, ts.Const(t.w, 1<<k), t)
		n = ts.Bin(OpAdd, n, ts.Ite(more, ts.Const(64, 1), ts.Const(64, 0)))
	}
	return n
}

// tokMaxLen bounds the size of what an abstract segment stands for.
func tokMaxLen(t *Tok) uint64 {
	switch t.kind {
	case "dec":
		return uint64(t.t.w)/3 + 2
	case "pb", "unk":
		return treeMaxLen(t.tree)
	case "bech32":
		return 256
	}
	return 1<<24 - 1
}

func termsMaxLen(b []*Term) (n uint64) {
	for _, t := range b {
		if t.op == OpTok {
			n += tokMaxLen(t.tok)
		} else {
			n++
		}
	}
	return
}

func treeMaxLen(t *PBTree) uint64 {
	n := termsMaxLen(t.raw)
	for _, f := range t.f {
		for _, v := range f.vals {
			n += 20 + termsMaxLen(v.b)
			if v.m != nil {
				n += treeMaxLen(v.m)
			}
		}
	}
	return n
}

// ------------------------------------------------------------ descriptors

type descPool struct {
	files    *protoregistry.Files
	byName   map[string]*types.Named // message full name -> Go type
	descOf   map[*types.Named]protoreflect.MessageDescriptor
	goPkg    map[string]string
	exts     map[string]protoreflect.ExtensionDescriptor // pkgpath.extTypesVar[index]
	enums    map[string]protoreflect.EnumDescriptor
	fileVars map[string]protoreflect.FileDescriptor      // pkgpath.File_x
	extVars  map[string]protoreflect.ExtensionDescriptor // pkgpath.E_x
}

func goCamel(s string) string {
	var b []byte
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '.' && i+1 < len(s) && isLower(s[i+1]):
		case c == '.':
			b = append(b, '_')
		case c == '_' && (i == 0 || s[i-1] == '.'):
			b = append(b, 'X')
		case c == '_' && i+1 < len(s) && isLower(s[i+1]):
		case '0' <= c && c <= '9':
			b = append(b, c)
		default:
			if isLower(c) {
				c -= 'a' - 'A'
			}
			b = append(b, c)
			for ; i+1 < len(s) && isLower(s[i+1]); i++ {
				b = append(b, s[i+1])
			}
		}
	}
	return string(b)
}
func isLower(c byte) bool { return 'a' <= c && c <= 'z' }

// buildDescs reads the raw descriptors embedded in the generated Go code.
func (p *Program) buildDescs() {
	d := &descPool{files: new(protoregistry.Files), byName: map[string]*types.Named{}, descOf: map[*types.Named]protoreflect.MessageDescriptor{},
		goPkg: map[string]string{}, exts: map[string]protoreflect.ExtensionDescriptor{}, enums: map[string]protoreflect.EnumDescriptor{},
		fileVars: map[string]protoreflect.FileDescriptor{}, extVars: map[string]protoreflect.ExtensionDescriptor{}}
	p.desc = d
	p.msgInfos = map[*types.Named]*msgInfo{}
	type ent struct {
		fdp *descriptorpb.FileDescriptorProto
		pkg string
		vr  string
	}
	ents := map[string]*ent{}
	var names []string
	for path, q := range p.byPath {
		for _, f := range q.Syntax {
			fn := p.fset.Position(f.Pos()).Filename
			if !strings.HasSuffix(fn, ".pb.go") {
				continue
			}
			for _, dd := range f.Decls {
				gd, ok := dd.(*ast.GenDecl)
				if !ok || gd.Tok != token.VAR {
					continue
				}
				for _, sp := range gd.Specs {
					vs := sp.(*ast.ValueSpec)
					if len(vs.Names) != 1 || !strings.HasSuffix(vs.Names[0].Name, "_rawDesc") || len(vs.Values) != 1 {
						continue
					}
					cl, ok := vs.Values[0].(*ast.CompositeLit)
					if !ok {
						continue
					}
					raw := make([]byte, 0, len(cl.Elts))
					for _, e := range cl.Elts {
						if bl, ok := e.(*ast.BasicLit); ok {
							x, _ := strconv.ParseUint(bl.Value, 0, 8)
							raw = append(raw, byte(x))
						}
					}
					fdp := new(descriptorpb.FileDescriptorProto)
					if err := proto.Unmarshal(raw, fdp); err != nil {
						continue
					}
					ents[fdp.GetName()] = &ent{fdp, path, strings.TrimSuffix(vs.Names[0].Name, "_rawDesc")}
					names = append(names, fdp.GetName())
				}
			}
		}
	}
	sort.Strings(names)
	done := map[string]bool{}
	var add func(n string)
	add = func(n string) {
		if done[n] {
			return
		}
		done[n] = true
		e := ents[n]
		if e == nil {
			return
		}
		for _, dep := range e.fdp.Dependency {
			add(dep)
		}
		fd, err := protodesc.FileOptions{AllowUnresolvable: true}.New(e.fdp, d.files)
		if err != nil {
			return
		}
		if err := d.files.RegisterFile(fd); err != nil {
			return
		}
		var walk func(mds protoreflect.MessageDescriptors)
		walk = func(mds protoreflect.MessageDescriptors) {
			for i := 0; i < mds.Len(); i++ {
				md := mds.Get(i)
				rel := strings.TrimPrefix(strings.TrimPrefix(string(md.FullName()), string(fd.Package())), ".")
				parts := strings.Split(rel, ".")
				for k := range parts {
					parts[k] = goCamel(parts[k])
				}
				gn := strings.Join(parts, "_")
				if tn, ok := p.byPath[e.pkg].Types.Scope().Lookup(gn).(*types.TypeName); ok {
					if nt, ok := tn.Type().(*types.Named); ok {
						d.byName[string(md.FullName())] = nt
						d.descOf[nt] = md
					}
				}
				walk(md.Messages())
			}
		}
		walk(fd.Messages())
		for i := 0; i < fd.Extensions().Len(); i++ {
			d.extVars[e.pkg+".E_"+goCamel(string(fd.Extensions().Get(i).Name()))] = fd.Extensions().Get(i)
		}
		d.fileVars[e.pkg+".F"+strings.TrimPrefix(e.vr, "f")] = fd
	}
	for _, n := range names {
		add(n)
	}
}

func isDescriptorPB(n *types.Named) bool {
	return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "google.golang.org/protobuf/types/descriptorpb"
}

func nativeDescriptor(name string, b []byte) *Native {
	var pm proto.Message
	switch name {
	case "FileDescriptorProto":
		pm = new(descriptorpb.FileDescriptorProto)
	default:
		unsupported("descriptor type %s", name)
	}
	if err := proto.Unmarshal(b, pm); err != nil {
		unsupported("descriptor bytes: %v", err)
	}
	return &Native{reflect.ValueOf(pm)}
}

var _ = ssa.NewProgram

// yearOne is the number of seconds from the year 1 to 1970.
const yearOne = 62135596800

// timeTree is the google.protobuf.Timestamp of a time.Time.
func (m *Machine) timeTree(v *Struct) *PBTree {
	ts := m.ts
	wall, sec := v.f[0].(*Term), v.f[1].(*Term)
	if m.branch(ts.Cmp(OpUle, ts.Const(64, 1<<63), wall)) { // has a monotonic clock
		n := ts.Bin(OpLShr, ts.Bin(OpShl, wall, ts.Const(64, 1)), ts.Const(64, 31))
		sec = ts.Bin(OpAdd, n, ts.Const(64, (1884*365+1884/4-1884/100+1884/400)*86400))
	}
	sec = ts.Bin(OpSub, sec, ts.Const(64, yearOne))
	ns := ts.Bin(OpAnd, wall, ts.Const(64, 1<<30-1))
	lo, hi := ts.Const(64, uint64(0xfffffff1886e0900)), ts.Const(64, 253402300800)
	if !m.branch(ts.BAnd(ts.Cmp(OpSle, lo, sec), ts.Cmp(OpSlt, sec, hi))) {
		panic(pbErr{"timestamp: out of range"})
	}
	return &PBTree{f: map[int]*pbField{1: {vals: []pbVal{{k: 'v', t: sec}}}, 2: {vals: []pbVal{{k: 'v', t: ns}}}}}
}
