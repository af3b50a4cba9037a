package desc

import (
	"github.com/fdymylja/tmos/pkg/protoutils/desc"
	"github.com/fdymylja/tmos/zz_verif/sym"
	"google.golang.org/protobuf/reflect/protoreflect"
)

// A file with an arbitrary import list.
type file struct {
	protoreflect.FileDescriptor
	path string
	deps *imports
}

type imports struct {
	protoreflect.FileImports
	l []*file
}

func (f *file) Path() string                      { return f.path }
func (f *file) Imports() protoreflect.FileImports { return f.deps }
func (i *imports) Len() int                       { return len(i.l) }
func (i *imports) Get(k int) protoreflect.FileImport {
	return protoreflect.FileImport{FileDescriptor: i.l[k]}
}

var names = []string{"a.proto", "b.proto", "c.proto", "d.proto", "e.proto"}

// HDependencies: the dependencies of the last file of an arbitrary acyclic
// import graph.
func HDependencies() {
	n := sym.Bound(4, 5)
	var fs []*file
	for i := 0; i < n; i++ {
		f := &file{path: names[i], deps: &imports{}}
		rev := sym.Choice("import order", 2) == 1
		for j := 0; j < i; j++ {
			t := fs[j]
			if rev {
				t = fs[i-1-j]
			}
			if sym.Bool("imports") {
				f.deps.l = append(f.deps.l, t)
			}
		}
		fs = append(fs, f)
	}
	root := fs[n-1]
	need := map[string]bool{}
	var walk func(f *file)
	walk = func(f *file) {
		for _, d := range f.deps.l {
			need[d.path] = true
			walk(d)
		}
	}
	walk(root)
	got := desc.Dependencies(root)
	pos := map[string]int{}
	for i, d := range got {
		_, dup := pos[d.Path()]
		sym.Assert(!dup, "a dependency is listed once")
		sym.Assert(need[d.Path()], "only dependencies are listed")
		for k := 0; k < d.Imports().Len(); k++ {
			_, before := pos[d.Imports().Get(k).Path()]
			sym.Assert(before, "a file comes after its dependencies")
		}
		pos[d.Path()] = i
	}
	sym.Assert(len(got) == len(need), "all dependencies are listed")
	if len(got) > 1 {
		sym.Reach("some")
	} else {
		sym.Reach("few")
	}
}

// A message with arbitrary fields, chosen when first looked at.
type msg struct {
	protoreflect.MessageDescriptor
	name protoreflect.FullName
	f    *fields
	all  []*msg
}

type fields struct {
	protoreflect.FieldDescriptors
	m      *msg
	chosen bool
	l      []*field
}

type field struct {
	protoreflect.FieldDescriptor
	kind protoreflect.Kind
	isM  bool
	m    *msg
	key  *field
	val  *field
}

func (m *msg) FullName() protoreflect.FullName       { return m.name }
func (m *msg) Fields() protoreflect.FieldDescriptors { return m.f }
func (f *fields) Len() int {
	if !f.chosen {
		f.chosen = true
		for n := sym.Choice("fields", 3); len(f.l) < n; {
			switch sym.Choice("field", 3) {
			case 0:
				f.l = append(f.l, &field{kind: protoreflect.StringKind})
			case 1:
				f.l = append(f.l, &field{kind: protoreflect.MessageKind, m: f.m.all[sym.Choice("target", len(f.m.all))]})
			case 2:
				f.l = append(f.l, &field{kind: protoreflect.MessageKind, isM: true, m: f.m.all[0],
					key: &field{kind: protoreflect.StringKind}, val: &field{kind: protoreflect.Int64Kind}})
			}
		}
	}
	return len(f.l)
}
func (f *fields) Get(i int) protoreflect.FieldDescriptor {
	f.Len()
	return f.l[i]
}
func (f *field) IsMap() bool                             { return f.isM }
func (f *field) IsList() bool                            { return false }
func (f *field) Kind() protoreflect.Kind                 { return f.kind }
func (f *field) Message() protoreflect.MessageDescriptor { return f.m }
func (f *field) MapKey() protoreflect.FieldDescriptor    { return f.key }
func (f *field) MapValue() protoreflect.FieldDescriptor  { return f.val }

func graph(n int) []*msg {
	var ms []*msg
	for i := 0; i < n; i++ {
		ms = append(ms, &msg{name: protoreflect.FullName(names[i])})
	}
	for _, m := range ms {
		m.f = &fields{m: m}
		m.all = ms
	}
	return ms
}

// mapIn looks for a map in what is reachable; with seenOnly it looks only at
// messages the code under test looked at.
func mapIn(m *msg, seenOnly bool, seen map[string]bool) bool {
	if seen[string(m.name)] || seenOnly && !m.f.chosen {
		return false
	}
	seen[string(m.name)] = true
	m.f.Len()
	for _, f := range m.f.l {
		if f.isM || f.kind == protoreflect.MessageKind && mapIn(f.m, seenOnly, seen) {
			return true
		}
	}
	return false
}

// HHasMap: a map is found wherever it is, also in recursive types.
func HHasMap() {
	ms := graph(sym.Bound(3, 4))
	for _, m := range ms {
		if desc.HasMap(m) {
			sym.Assert(mapIn(m, true, map[string]bool{}), "a map is reported only if there is one")
			sym.Reach("has map")
		} else {
			sym.Assert(!mapIn(m, false, map[string]bool{}), "a map field is found at any depth")
			sym.Reach("no map")
		}
	}
}

// HHasKinds: the kinds of a message's own fields and of its map entries.
func HHasKinds() {
	kinds := []protoreflect.Kind{protoreflect.StringKind, protoreflect.Int64Kind, protoreflect.FloatKind}
	m := &msg{name: "m", f: &fields{chosen: true}}
	has := map[protoreflect.Kind]bool{}
	for n := sym.Choice("fields", 3); len(m.f.l) < n; {
		k := kinds[sym.Choice("kind", len(kinds))]
		has[k] = true
		if sym.Choice("map", 2) == 1 {
			m.f.l = append(m.f.l, &field{kind: protoreflect.MessageKind, isM: true, key: &field{kind: protoreflect.StringKind}, val: &field{kind: k}})
			has[protoreflect.StringKind] = true
		} else {
			m.f.l = append(m.f.l, &field{kind: k})
		}
	}
	for _, k := range []protoreflect.Kind{protoreflect.StringKind, protoreflect.Int64Kind, protoreflect.FloatKind, protoreflect.BytesKind} {
		sym.Assert(desc.HasKind(m, k) == has[k], "a kind is found iff a field or map entry has it")
		sym.Assert(desc.HasKinds(m, protoreflect.BoolKind, k) == has[k], "one of several kinds is found")
	}
	sym.Assert(!desc.HasKinds(m), "no kinds are never found")
	sym.Reach("kinds")
}
