package main

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Spec is one entry of checks.json.
type Spec struct {
	ID          string   `json:"id"`
	Area        string   `json:"area"`
	Harnesses   []HSpec  `json:"harnesses"`
	Assumptions []string `json:"assumptions"`
	Bounds      string   `json:"bounds"`
	Outside     string   `json:"outside"`
}

type HSpec struct {
	Fn     string   `json:"fn"`
	Shards int      `json:"shards"`
	Depth  int      `json:"depth"`
	Tier   string   `json:"tier"`   // only in this tier
	Reach  []string `json:"reach"`  // labels that must be reached
	Repeat int      `json:"repeat"` // native replays of one counterexample (map order)
}

type KnownFinding struct {
	ID       string `json:"id"`
	Property string `json:"property"`
	What     string `json:"what"`
	Status   string `json:"status"` // open | fixed
}

type config struct {
	repo, verif, solver string
}

func cfgFromEnv() config {
	c := config{repo: "/repo", verif: "/verif", solver: "z3"}
	if v := os.Getenv("GOSYM_REPO"); v != "" {
		c.repo = v
	}
	if v := os.Getenv("GOSYM_VERIF"); v != "" {
		c.verif = v
	}
	if v := os.Getenv("GOSYM_SOLVER"); v != "" {
		c.solver = v
	}
	return c
}

func loadSpecs(c config) (map[string]*Spec, error) {
	b, err := os.ReadFile(filepath.Join(c.verif, "checks.json"))
	if err != nil {
		return nil, err
	}
	var l []*Spec
	if err := json.Unmarshal(b, &l); err != nil {
		return nil, err
	}
	r := map[string]*Spec{}
	for _, s := range l {
		r[s.ID] = s
	}
	return r, nil
}

func loadKnown(c config) (r []KnownFinding, err error) {
	b, err := os.ReadFile(filepath.Join(c.verif, "known_findings.json"))
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	err = json.Unmarshal(b, &r)
	return
}

// unitResult aggregates the machines of one harness.
type unitResult struct {
	Harness    string
	Paths      int
	Ends       map[string]int
	Steps      int64
	Forks      int
	Asserts    int
	VCs        int
	Queries    int
	Sat, Unsat int
	Unknown    int
	SolverTime time.Duration
	MaxQuery   time.Duration
	Violations []*Violation
	Incomplete map[string]int
	Reached    map[string]int
	Assumes    map[string]int
	Funcs      map[string]int
	Samples    []pathSample
	Cut        []pathSample
	Wall       time.Duration
}

type pathSample struct {
	Inputs  []InputVal
	Reach   []string
	Asserts int
}

type runner struct {
	cfg     config
	prog    *Program
	tier    string
	known   map[string]bool
	dl      time.Time
	qto     time.Duration
	nsamp   int
	verbose bool
	cut     atomic.Int64 // when to stop once there is a violation
}

func (r *runner) machine(fn *ssa.Function, shard, shards, depth int) *unitResult {
	t0 := time.Now()
	m := NewMachine(r.prog, r.cfg.solver, r.qto)
	defer m.solver.Close()
	m.deadline = r.dl
	m.cut = &r.cut
	m.shard, m.shards, m.shardDepth = shard, shards, depth
	m.tier = r.tier
	m.known = func(id string) bool { return r.known[id] }
	if os.Getenv("GOSYM_PATHS") != "" {
		m.trace = true
	}
	u := &unitResult{Harness: fn.Name()}
	seen := 0
	next := 1
	cutAt := 1
	cutN := 0
	m.onCut = func(m *Machine) {
		cutN++
		if len(u.Cut) < 4*r.nsamp && cutN == cutAt {
			cutAt = cutAt*2 + 1
			u.Cut = append(u.Cut, pathSample{Inputs: m.inputVals(m.model)})
		}
	}
	m.onPath = func(m *Machine) {
		seen++
		// sample paths at growing distances plus every new set of labels
		if len(u.Samples) < r.nsamp && seen == next {
			next = next*2 + 1
			u.Samples = append(u.Samples, pathSample{m.inputVals(m.model), append([]string(nil), m.pathReach...), m.pathAsserts})
		}
	}
	func() {
		defer func() {
			if e := recover(); e != nil {
				if os.Getenv("GOSYM_CRASH") != "" {
					panic(e)
				}
				m.incomplete(fmt.Sprintf("engine error: %v", e))
				if os.Getenv("GOSYM_DEBUG") != "" {
					debug.PrintStack()
				}
			}
		}()
		m.Run(fn)
	}()
	u.Paths, u.Ends, u.Steps, u.Forks, u.Asserts, u.VCs = m.Paths, m.Ends, m.steps, m.Forks, m.Asserts, m.AssertVCs
	u.Queries, u.Sat, u.Unsat, u.Unknown, u.SolverTime, u.MaxQuery = m.solver.Queries, m.solver.Sat, m.solver.Unsat, m.solver.Unknown, m.solver.Time, m.solver.MaxTime
	u.Violations, u.Incomplete, u.Reached, u.Assumes = m.Violations, m.Incomplete, m.reached, m.assumes
	for _, e := range m.solver.errors {
		u.Incomplete["solver error: "+e]++
	}
	u.Funcs = map[string]int{}
	for f, n := range m.funcs {
		u.Funcs[f.String()] += n
	}
	for _, v := range u.Violations {
		v.Harness = fn.Name()
	}
	u.Wall = time.Since(t0)
	return u
}

func (u *unitResult) merge(o *unitResult) {
	u.Paths += o.Paths
	u.Steps += o.Steps
	u.Forks += o.Forks
	u.Asserts += o.Asserts
	u.VCs += o.VCs
	u.Queries += o.Queries
	u.Sat += o.Sat
	u.Unsat += o.Unsat
	u.Unknown += o.Unknown
	u.SolverTime += o.SolverTime
	if o.MaxQuery > u.MaxQuery {
		u.MaxQuery = o.MaxQuery
	}
	if o.Wall > u.Wall {
		u.Wall = o.Wall
	}
	u.Violations = append(u.Violations, o.Violations...)
	u.Samples = append(u.Samples, o.Samples...)
	u.Cut = append(u.Cut, o.Cut...)
	for _, p := range []struct{ d, s map[string]int }{{u.Ends, o.Ends}, {u.Incomplete, o.Incomplete}, {u.Reached, o.Reached}, {u.Assumes, o.Assumes}, {u.Funcs, o.Funcs}} {
		for k, v := range p.s {
			p.d[k] += v
		}
	}
}

func newUnit(fn string) *unitResult {
	return &unitResult{Harness: fn, Ends: map[string]int{}, Incomplete: map[string]int{}, Reached: map[string]int{}, Assumes: map[string]int{}, Funcs: map[string]int{}}
}

func envInt(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}

func cmdRun(args []string) int {
	start := time.Now()
	cfg := cfgFromEnv()
	if len(args) < 2 {
		fmt.Println("usage: gosym run ID quick|thorough")
		return 2
	}
	id, tier := args[0], args[1]
	specs, err := loadSpecs(cfg)
	if err != nil {
		fmt.Println("checks.json:", err)
		return 2
	}
	sp := specs[id]
	if sp == nil {
		fmt.Println("unknown property", id)
		return 2
	}
	known, err := loadKnown(cfg)
	if err != nil {
		fmt.Println("known_findings.json:", err)
		return 2
	}
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(20 << 30)
	r := &runner{cfg: cfg, tier: tier, known: map[string]bool{}, nsamp: 2}
	for _, k := range known {
		if k.Status == "open" && k.Property == id {
			r.known[k.ID] = true
		}
	}
	budget := time.Duration(envInt("GOSYM_BUDGET", 480)) * time.Second
	r.qto = 20 * time.Second
	if tier == "thorough" {
		budget = time.Duration(envInt("GOSYM_BUDGET", 2400)) * time.Second
		r.qto = 60 * time.Second
		r.nsamp = 5
	}
	ev := &evidence{spec: sp, tier: tier, start: start, cfg: cfg}
	prog, err := LoadProgram(cfg.repo, filepath.Join(cfg.verif, "harness"), []string{"./zz_verif/" + sp.Area})
	if err != nil {
		fmt.Println("cannot encode:", err)
		ev.incomplete = append(ev.incomplete, "the harness does not apply to this tree: "+err.Error())
		ev.write()
		return 0
	}
	r.prog = prog
	pkg := prog.pkgs[zzPath+"/"+sp.Area]
	// native build for replay, in parallel with the exploration
	nat := startNative(cfg, sp)
	defer nat.cleanup()
	r.dl = start.Add(budget)
	type job struct {
		u    *unitResult
		fn   *ssa.Function
		h    HSpec
		s, n int
	}
	var jobs []job
	var units []*unitResult
	workers := runtime.NumCPU()
	if workers > 8 {
		workers = 8
	}
	for _, h := range sp.Harnesses {
		if h.Tier != "" && h.Tier != tier {
			continue
		}
		fn := pkg.Func(h.Fn)
		u := newUnit(h.Fn)
		units = append(units, u)
		if fn == nil {
			u.Incomplete["no such harness"]++
			continue
		}
		n := h.Shards
		if n < 1 {
			n = 1
		}
		for i := 0; i < n; i++ {
			jobs = append(jobs, job{u, fn, h, i, n})
		}
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	ch := make(chan job)
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				d := j.h.Depth
				if d == 0 {
					d = 8
				}
				x := r.machine(j.fn, j.s, j.n, d)
				mu.Lock()
				j.u.merge(x)
				mu.Unlock()
			}
		}()
	}
	for _, j := range jobs {
		ch <- j
	}
	close(ch)
	wg.Wait()
	ev.units = units
	return finish(cfg, sp, tier, units, nat, ev, known, r)
}

// finish replays counterexamples and sampled paths natively and reports.
func finish(cfg config, sp *Spec, tier string, units []*unitResult, nat *native, ev *evidence, known []KnownFinding, r *runner) int {
	outDir := filepath.Join(cfg.verif, "out", "replay")
	os.MkdirAll(outDir, 0o755)
	type vio struct{ line, path string }
	var confirmed []vio
	knownHit := map[string]bool{}
	reachNeed := map[string][]string{}
	repeat := map[string]int{}
	for _, h := range sp.Harnesses {
		reachNeed[h.Fn] = h.Reach
		repeat[h.Fn] = h.Repeat
	}
	for _, u := range units {
		done := map[string]bool{}
		tried := map[string]int{}
		sort.SliceStable(u.Violations, func(i, j int) bool { return len(u.Violations[i].Inputs) < len(u.Violations[j].Inputs) })
		for _, v := range u.Violations {
			key := v.Finding + "|" + v.Kind + "|" + v.Msg
			if done[key] || tried[key] >= 6 {
				continue
			}
			tried[key]++
			res := nat.replay(v.Harness, v.Inputs, tier, repeat[v.Harness])
			if res.violated == "" {
				u.Incomplete[fmt.Sprintf("counterexample to %q (%s) not reproduced by the real code: %s", v.Msg, v.Where, res.describe())]++
				ev.notReproduced = append(ev.notReproduced, v)
				continue
			}
			done[key] = true
			if res.finding != "" && r.known[res.finding] {
				knownHit[res.finding] = true
				continue
			}
			p := filepath.Join(outDir, fmt.Sprintf("%s-%s-%d.json", sp.ID, v.Harness, len(confirmed)))
			writeReplay(p, sp, v, tier, res)
			confirmed = append(confirmed, vio{fmt.Sprintf("%s: %s: %s (%s)", v.Harness, res.violated, v.Kind, v.Where), p})
			ev.violations = append(ev.violations, v)
		}
		// sampled passing paths: the real code must agree
		for _, s := range u.Samples {
			res := nat.replay(u.Harness, s.Inputs, tier, 1)
			ev.diffs++
			switch {
			case res.violated != "":
				if res.finding != "" && r.known[res.finding] {
					knownHit[res.finding] = true
					continue
				}
				v := &Violation{Kind: "replay", Msg: res.violated, Harness: u.Harness, Inputs: s.Inputs, Where: "native run of a sampled path"}
				if done["native|"+res.violated] {
					continue
				}
				done["native|"+res.violated] = true
				p := filepath.Join(outDir, fmt.Sprintf("%s-%s-%d.json", sp.ID, u.Harness, len(confirmed)))
				writeReplay(p, sp, v, tier, res)
				confirmed = append(confirmed, vio{fmt.Sprintf("%s: %s (native run of a symbolically explored path)", u.Harness, res.violated), p})
				ev.violations = append(ev.violations, v)
			case res.ok && strings.Join(res.reach, ";") == strings.Join(s.Reach, ";") && res.asserts == s.Asserts:
				ev.agreed++
				if len(ev.samples) < 6 {
					ev.samples = append(ev.samples, map[string]interface{}{"harness": u.Harness, "inputs": s.Inputs, "reached": s.Reach, "assertions": s.Asserts})
				}
			default:
				u.Incomplete[fmt.Sprintf("native run of a sampled path differs: engine reach=%v asserts=%d, native %s", s.Reach, s.Asserts, res.describe())]++
			}
		}
		// paths that left the encoded fragment are not decided; the real code
		// is at least run on some of them, with drawn values for what follows
		until := time.Now().Add(60 * time.Second)
		for pad := 1; pad <= 16 && len(u.Cut) > 0; pad++ {
			for _, s := range u.Cut {
				if time.Now().After(until) || done["cut"] {
					break
				}
				res := nat.padded(u.Harness, s.Inputs, tier, 1, pad)
				if res.violated == "" || res.finding != "" && r.known[res.finding] {
					continue
				}
				done["cut"] = true
				v := &Violation{Kind: "replay", Msg: res.violated, Harness: u.Harness, Inputs: s.Inputs, Pad: pad, Where: "native run of a path outside the encoded fragment"}
				p := filepath.Join(outDir, fmt.Sprintf("%s-%s-%d.json", sp.ID, u.Harness, len(confirmed)))
				writeReplay(p, sp, v, tier, res)
				confirmed = append(confirmed, vio{fmt.Sprintf("%s: %s (native run of a path outside the encoded fragment)", u.Harness, res.violated), p})
				ev.violations = append(ev.violations, v)
			}
		}
		for _, l := range reachNeed[u.Harness] {
			if u.Reached[l] == 0 && len(u.Violations) == 0 {
				u.Incomplete["vacuity guard: label never reached: "+l]++
			}
		}
	}
	ev.write()
	for _, u := range units {
		fmt.Printf("%s: %d paths, %d steps, %d forks, %d assertions (%d VCs), %d queries (%d sat, %d unsat, %d unknown), solver %.1fs (max %.1fs), wall %.1fs\n", u.Harness, u.Paths, u.Steps, u.Forks, u.Asserts, u.VCs,
			u.Queries, u.Sat, u.Unsat, u.Unknown, u.SolverTime.Seconds(), u.MaxQuery.Seconds(), u.Wall.Seconds())
		for _, k := range sortedKeys(u.Ends) {
			if k != "done" {
				fmt.Printf("  paths ending in %s: %d\n", k, u.Ends[k])
			}
		}
		for _, k := range sortedKeys(u.Reached) {
			fmt.Printf("  reached %s: %d\n", k, u.Reached[k])
		}
		for _, k := range sortedKeys(u.Incomplete) {
			fmt.Printf("  INCOMPLETE %s (%d)\n", k, u.Incomplete[k])
		}
	}
	for _, k := range known {
		if k.Property == sp.ID && k.Status == "open" {
			if knownHit[k.ID] {
				fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", sp.ID, k.ID, k.What)
			} else {
				fmt.Printf("note: listed finding %s was not observed in this run\n", k.ID)
			}
		}
	}
	if len(confirmed) > 0 {
		for _, v := range confirmed {
			fmt.Println(v.line)
			fmt.Printf("VIOLATION property=%s replay=%s\n", sp.ID, v.path)
		}
		return 1
	}
	return 0
}

func writeReplay(p string, sp *Spec, v *Violation, tier string, res replayResult) {
	b, _ := json.MarshalIndent(map[string]interface{}{
		"property": sp.ID, "area": sp.Area, "harness": v.Harness, "tier": tier, "kind": v.Kind, "message": v.Msg, "where": v.Where,
		"inputs": v.Inputs, "pad": v.Pad, "stack": v.Stack, "native": res.violated, "how": "bash /verif/replay.sh " + p,
	}, "", " ")
	os.WriteFile(p, b, 0o644)
}

// ------------------------------------------------------------ native replay

type native struct {
	cfg  config
	sp   *Spec
	dir  string
	bin  string
	done chan struct{}
	err  error
}

type replayResult struct {
	violated string
	finding  string
	ok       bool
	reach    []string
	asserts  int
	diverged string
	out      string
}

func (r replayResult) describe() string {
	switch {
	case r.violated != "":
		return "violated: " + r.violated
	case r.diverged != "":
		return "left the recorded path: " + r.diverged
	case r.ok:
		return fmt.Sprintf("completed, reach=%v asserts=%d", r.reach, r.asserts)
	}
	o := r.out
	if len(o) > 300 {
		o = o[len(o)-300:]
	}
	return "no verdict: " + o
}

func startNative(cfg config, sp *Spec) *native {
	n := &native{cfg: cfg, sp: sp, done: make(chan struct{})}
	dir, err := os.MkdirTemp("", "gosym-native-")
	if err != nil {
		n.err = err
		close(n.done)
		return n
	}
	n.dir = dir
	n.bin = filepath.Join(dir, "replay")
	go func() {
		defer close(n.done)
		n.err = n.build()
	}()
	return n
}

func (n *native) build() error {
	hr := filepath.Join(n.cfg.verif, "harness")
	ov := overlayFiles(n.cfg.repo, hr)
	rep := map[string]string{}
	for dst, src := range ov {
		rel, _ := filepath.Rel(hr, src)
		if alt := filepath.Join(hr, "replay", rel); exists(alt) {
			src = alt
		}
		if strings.HasPrefix(rel, "model"+string(filepath.Separator)) {
			continue
		}
		rep[dst] = src
	}
	var sb strings.Builder
	sb.WriteString("package main\n\nimport (\n\t\"encoding/json\"\n\t\"fmt\"\n\t\"os\"\n\n\tarea \"" + zzPath + "/" + n.sp.Area + "\"\n\t\"" + zzPath + "/sym\"\n)\n\nvar table = map[string]func(){\n")
	seen := map[string]bool{}
	for _, h := range n.sp.Harnesses {
		if !seen[h.Fn] {
			seen[h.Fn] = true
			fmt.Fprintf(&sb, "\t%q: area.%s,\n", h.Fn, h.Fn)
		}
	}
	sb.WriteString(`}

func main() {
	sym.Load(os.Args[2])
	defer func() {
		if r := recover(); r != nil {
			b, _ := json.Marshal(map[string]interface{}{"violated": fmt.Sprintf("unrecovered panic: %v", r)})
			fmt.Println("REPLAY " + string(b))
			os.Exit(3)
		}
	}()
	table[os.Args[1]]()
	fmt.Println("REPLAY " + sym.Summary())
}
`)
	mainSrc := filepath.Join(n.dir, "main.go")
	if err := os.WriteFile(mainSrc, []byte(sb.String()), 0o644); err != nil {
		return err
	}
	rep[filepath.Join(n.cfg.repo, "zz_verif", "zzmain", "main.go")] = mainSrc
	b, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	ovf := filepath.Join(n.dir, "overlay.json")
	if err := os.WriteFile(ovf, b, 0o644); err != nil {
		return err
	}
	root := os.Getenv("GOSYM_GOROOT")
	if root == "" {
		root = "/opt/veriftools/go1.23.12"
	}
	cmd := exec.Command(filepath.Join(root, "bin", "go"), "build", "-overlay", ovf, "-o", n.bin, "./zz_verif/zzmain")
	cmd.Dir = n.cfg.repo
	cmd.Env = nativeEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("native build: %v: %s", err, out)
	}
	return nil
}

func exists(p string) bool { _, err := os.Stat(p); return err == nil }

func nativeEnv() []string {
	var r []string
	for _, e := range goEnv() {
		if !strings.HasPrefix(e, "CGO_ENABLED=") {
			r = append(r, e)
		}
	}
	return append(r, "CGO_ENABLED=1")
}

func (n *native) cleanup() {
	<-n.done
	if n.dir != "" {
		os.RemoveAll(n.dir)
	}
}

func (n *native) replay(harness string, inputs []InputVal, tier string, repeat int) replayResult {
	return n.padded(harness, inputs, tier, repeat, 0)
}

// padded also draws inputs that were not recorded, from a seed.
func (n *native) padded(harness string, inputs []InputVal, tier string, repeat, pad int) replayResult {
	<-n.done
	if n.err != nil {
		return replayResult{out: n.err.Error()}
	}
	f := filepath.Join(n.dir, "in.json")
	b, _ := json.Marshal(map[string]interface{}{"Inputs": inputs, "Tier": tier, "Pad": pad})
	os.WriteFile(f, b, 0o644)
	if repeat < 1 {
		repeat = 1
	}
	var res replayResult
	for i := 0; i < repeat; i++ {
		res = n.once(harness, f)
		if res.violated != "" {
			return res
		}
	}
	return res
}

func (n *native) once(harness, f string) (res replayResult) {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	wd := filepath.Join(n.dir, "wd")
	os.MkdirAll(wd, 0o755)
	cmd := exec.CommandContext(ctx, n.bin, harness, f)
	cmd.Dir = wd
	cmd.Env = append(os.Environ(), "HOME="+wd, "GOTRACEBACK=single")
	out, err := cmd.CombinedOutput()
	res.out = string(out)
	verdict := false
	for _, l := range strings.Split(string(out), "\n") {
		if i := strings.Index(l, "REPLAY {"); i >= 0 {
			var o struct {
				Violated, Finding, Diverged string
				Reach                       []string
				Asserts                     int
			}
			if json.Unmarshal([]byte(l[i+7:]), &o) == nil {
				verdict = true
				res.violated, res.finding, res.diverged, res.reach, res.asserts = o.Violated, o.Finding, o.Diverged, o.Reach, o.Asserts
				res.ok = o.Violated == "" && o.Diverged == ""
			}
		}
	}
	if !verdict && err != nil && ctx.Err() == nil && strings.Contains(res.out, "goroutine ") {
		// fatal error or process exit from the code under test
		line := ""
		for _, l := range strings.Split(res.out, "\n") {
			if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "F") {
				line = l
				break
			}
		}
		res.violated = "process crashed: " + line
	}
	return
}

func cmdReplay(args []string) int {
	cfg := cfgFromEnv()
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var f struct {
		Property, Area, Harness, Tier string
		Inputs                        []InputVal
		Pad                           int
	}
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Println(err)
		return 2
	}
	n := startNative(cfg, &Spec{ID: f.Property, Area: f.Area, Harnesses: []HSpec{{Fn: f.Harness}}})
	defer n.cleanup()
	res := n.padded(f.Harness, f.Inputs, f.Tier, 20, f.Pad)
	fmt.Println(res.out)
	fmt.Println(res.describe())
	if res.violated != "" {
		return 1
	}
	return 0
}

// cmdOne runs one harness (debugging): gosym one AREA FN [tier]
func cmdOne(args []string) int {
	cfg := cfgFromEnv()
	t0 := time.Now()
	tier := "quick"
	if len(args) > 2 {
		tier = args[2]
	}
	prog, err := LoadProgram(cfg.repo, filepath.Join(cfg.verif, "harness"), []string{"./zz_verif/" + args[0]})
	if err != nil {
		fmt.Println(err)
		return 2
	}
	fmt.Printf("loaded in %.1fs\n", time.Since(t0).Seconds())
	r := &runner{cfg: cfg, prog: prog, tier: tier, known: map[string]bool{}, nsamp: 3, qto: 20 * time.Second}
	ks, _ := loadKnown(cfg)
	for _, k := range ks {
		if k.Status == "open" {
			r.known[k.ID] = true
		}
	}
	r.dl = time.Now().Add(time.Duration(envInt("GOSYM_BUDGET", 120)) * time.Second)
	pkg := prog.pkgs[zzPath+"/"+args[0]]
	sp := &Spec{ID: "X00", Area: args[0], Harnesses: []HSpec{{Fn: args[1], Repeat: 10}}}
	nat := startNative(cfg, sp)
	defer nat.cleanup()
	fn := pkg.Func(args[1])
	if fn == nil {
		fmt.Println("no such harness")
		return 2
	}
	u := newUnit(args[1])
	u.merge(r.machine(fn, 0, 1, 0))
	for i, v := range u.Violations {
		if i < 12 {
			fmt.Printf("CEX %s %s at %s inputs %v\n", v.Kind, v.Msg, v.Where, v.Inputs)
		}
	}
	ev := &evidence{spec: sp, tier: tier, start: t0, cfg: cfg, units: []*unitResult{u}, nowrite: true}
	return finish(cfg, sp, tier, []*unitResult{u}, nat, ev, nil, r)
}

func cmdExt(args []string) {
	p, err := LoadProgram("/repo", "/verif/harness", args)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	fmt.Println("load", p.LoadTime, "descs", len(p.desc.byName))
	out := map[string][]string{}
	for fn := range ssautil.AllFunctions(p.ssa) {
		if fn.Pkg == nil || !strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath) {
			continue
		}
		pf := p.fset.Position(fn.Pos()).Filename
		if strings.HasSuffix(pf, ".pb.go") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				n := ""
				if cc := c.Common(); cc.IsInvoke() {
					if cc.Method.Pkg() != nil && !strings.HasPrefix(cc.Method.Pkg().Path(), modPath) {
						n = "I " + cc.Method.FullName()
					}
				} else if f := cc.StaticCallee(); f != nil && f.Pkg != nil && !strings.HasPrefix(f.Pkg.Pkg.Path(), modPath) {
					n = f.String()
				}
				if n != "" {
					out[n] = append(out[n], strings.TrimPrefix(fn.String(), modPath))
				}
			}
		}
	}
	var ks []string
	for k := range out {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Println(k, len(out[k]), strings.Replace(out[k][0], modPath, "", -1))
	}
}
