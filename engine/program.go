package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the SSA form of /repo (plus harness and model packages), built
// from the current working tree on every run.
type Program struct {
	ssa       *ssa.Program
	fset      *token.FileSet
	repo      string
	pkgs      map[string]*ssa.Package
	byPath    map[string]*packages.Package
	redirects map[string]*ssa.Function
	infoMu    sync.Mutex
	infos     map[*ssa.Function]*fnInfo
	fvals     sync.Map
	methMu    sync.Mutex
	meths     map[string]*ssa.Function
	plans     sync.Map
	model     *ssa.Package
	LoadTime  time.Duration
	Errors    []string
	desc      *descPool
	msgInfos  map[*types.Named]*msgInfo
}

const modPath = "github.com/fdymylja/tmos"
const zzPath = modPath + "/zz_verif"

// overlayFiles maps <repo>/zz_verif/... to the files under /verif/harness.
func overlayFiles(repo, root string) map[string]string {
	ov := map[string]string{}
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		if strings.HasPrefix(rel, "replay"+string(filepath.Separator)) {
			return nil // native-only files
		}
		ov[filepath.Join(repo, "zz_verif", rel)] = p
		return nil
	})
	return ov
}

func goEnv() []string {
	root := os.Getenv("GOSYM_GOROOT")
	if root == "" {
		root = "/opt/veriftools/go1.23.12"
	}
	env := []string{}
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOROOT", "PATH", "GOFLAGS", "GOTOOLCHAIN", "GOPROXY", "GOWORK", "GOENV", "CGO_ENABLED", "GO111MODULE":
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOROOT="+root, "PATH="+root+"/bin:"+os.Getenv("PATH"), "GOFLAGS=-mod=mod", "GOTOOLCHAIN=local",
		"GOPROXY=off", "GOWORK=off", "GOENV=off", "CGO_ENABLED=0")
}

func LoadProgram(repo, harnessRoot string, patterns []string) (*Program, error) {
	t0 := time.Now()
	ovf := overlayFiles(repo, harnessRoot)
	ov := map[string][]byte{}
	for dst, src := range ovf {
		b, err := os.ReadFile(src)
		if err != nil {
			return nil, err
		}
		ov[dst] = b
	}
	root := ""
	for _, e := range goEnv() {
		if strings.HasPrefix(e, "PATH=") {
			root = e
		}
	}
	_ = root
	// go/packages locates the go command through PATH of this process
	for _, e := range goEnv() {
		kv := strings.SplitN(e, "=", 2)
		os.Setenv(kv[0], kv[1])
	}
	if _, err := exec.LookPath("go"); err != nil {
		return nil, err
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Env: goEnv(), Overlay: ov, Fset: token.NewFileSet()}
	pats := append([]string{"./zz_verif/model", "./zz_verif/sym"}, patterns...)
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	p := &Program{fset: cfg.Fset, repo: repo, pkgs: map[string]*ssa.Package{}, byPath: map[string]*packages.Package{},
		redirects: map[string]*ssa.Function{}, infos: map[*ssa.Function]*fnInfo{}, meths: map[string]*ssa.Function{}}
	packages.Visit(ps, nil, func(q *packages.Package) {
		p.byPath[q.PkgPath] = q
		for _, e := range q.Errors {
			if strings.Contains(q.PkgPath, "tmos") {
				p.Errors = append(p.Errors, q.PkgPath+": "+e.Error())
			}
		}
	})
	if len(p.Errors) > 0 {
		sort.Strings(p.Errors)
		return p, fmt.Errorf("the tree does not type-check: %s", p.Errors[0])
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	p.ssa = prog
	for _, q := range prog.AllPackages() {
		p.pkgs[q.Pkg.Path()] = q
	}
	p.model = p.pkgs[zzPath+"/model"]
	p.loadRedirects()
	p.buildDescs()
	p.LoadTime = time.Since(t0)
	return p, nil
}

// loadRedirects reads //gosym:replace <full function name> directives of the
// model package.
func (p *Program) loadRedirects() {
	q := p.byPath[zzPath+"/model"]
	for _, f := range q.Syntax {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Doc == nil {
				continue
			}
			for _, c := range fd.Doc.List {
				if strings.HasPrefix(c.Text, "//gosym:replace ") {
					name := strings.TrimSpace(strings.TrimPrefix(c.Text, "//gosym:replace "))
					p.redirects[name] = p.model.Func(fd.Name.Name)
				}
			}
		}
	}
}

func (p *Program) modelType(name string) types.Type {
	if p.model == nil {
		return nil
	}
	if t := p.model.Type(name); t != nil {
		return t.Type()
	}
	return nil
}

func (p *Program) infoOf(fn *ssa.Function) *fnInfo {
	p.infoMu.Lock()
	defer p.infoMu.Unlock()
	if i, ok := p.infos[fn]; ok {
		return i
	}
	i := &fnInfo{idx: map[ssa.Value]int{}}
	add := func(v ssa.Value) {
		i.idx[v] = i.n
		i.n++
	}
	for _, a := range fn.Params {
		add(a)
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if v, ok := ins.(ssa.Value); ok {
				add(v)
			}
		}
	}
	p.infos[fn] = i
	return i
}

func (p *Program) funcValue(fn *ssa.Function) *Closure {
	if c, ok := p.fvals.Load(fn); ok {
		return c.(*Closure)
	}
	c, _ := p.fvals.LoadOrStore(fn, &Closure{fn: fn})
	return c.(*Closure)
}

func (p *Program) lookupMethod(t types.Type, meth *types.Func) *ssa.Function {
	key := fmt.Sprintf("%p|%s|%s", t, t.String(), meth.Id())
	p.methMu.Lock()
	defer p.methMu.Unlock()
	if f, ok := p.meths[key]; ok {
		return f
	}
	f := p.ssa.LookupMethod(t, meth.Pkg(), meth.Name())
	p.meths[key] = f
	return f
}

// skipInit: packages whose initialisation is never run (their variables stay
// zero); they are only reached through engine models.
func (p *Program) skipInit(q *ssa.Package) bool {
	path := q.Pkg.Path()
	for _, pre := range []string{"google.golang.org/protobuf", "github.com/gogo/protobuf", "github.com/golang/protobuf", "google.golang.org/grpc",
		"google.golang.org/genproto", "net/http", "net", "os", "runtime", "syscall", "log", "time", "reflect", "internal/", "crypto/", "testing"} {
		if path == pre || strings.HasPrefix(path, pre+"/") || (strings.HasSuffix(pre, "/") && strings.HasPrefix(path, pre)) {
			return true
		}
	}
	return false
}

// skipInitFunc: declared init() functions that are not executed (protobuf
// registration, which the descriptor model replaces).
func (p *Program) skipInitFunc(fn *ssa.Function) bool {
	f := p.fset.Position(fn.Pos()).Filename
	if strings.HasSuffix(f, ".pb.go") || strings.HasSuffix(f, ".pb.gw.go") {
		return true
	}
	if strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath) {
		return false
	}
	return true
}
