package main

import (
	"encoding/json"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

type evidence struct {
	spec          *Spec
	tier          string
	cfg           config
	start         time.Time
	units         []*unitResult
	violations    []*Violation
	notReproduced []*Violation
	incomplete    []string
	samples       []interface{}
	diffs, agreed int
	nowrite       bool
}

func (e *evidence) write() {
	if e.nowrite {
		return
	}
	paths, forks, asserts, vcs, q, sat, unsat, unk := 0, 0, 0, 0, 0, 0, 0, 0
	var steps int64
	var st time.Duration
	funcs := map[string]int{}
	assumes := map[string]int{}
	inc := append([]string(nil), e.incomplete...)
	var hs []interface{}
	for _, u := range e.units {
		paths += u.Paths
		forks += u.Forks
		asserts += u.Asserts
		vcs += u.VCs
		q += u.Queries
		sat += u.Sat
		unsat += u.Unsat
		unk += u.Unknown
		steps += u.Steps
		st += u.SolverTime
		for f, n := range u.Funcs {
			funcs[f] += n
		}
		for a, n := range u.Assumes {
			assumes[a] += n
		}
		for _, k := range sortedKeys(u.Incomplete) {
			inc = append(inc, u.Harness+": "+k)
		}
		hs = append(hs, map[string]interface{}{"harness": u.Harness, "paths": u.Paths, "path_ends": u.Ends, "assertions": u.Asserts, "assertion_vcs": u.VCs, "solver_queries": u.Queries, "unsat": u.Unsat, "sat": u.Sat, "unknown": u.Unknown, "reached": u.Reached, "wall_s": u.Wall.Seconds()})
	}
	var repoF, depF []string
	for f := range funcs {
		switch {
		case strings.Contains(f, "/zz_verif/"):
		case strings.Contains(f, modPath):
			repoF = append(repoF, strings.Replace(f, modPath+"/", "", -1))
		default:
			depF = append(depF, f)
		}
	}
	sort.Strings(repoF)
	sort.Strings(depF)
	if len(depF) > 60 {
		depF = append(depF[:60], "...")
	}
	as := append([]string{}, e.spec.Assumptions...)
	for _, k := range sortedKeys(assumes) {
		as = append(as, k)
	}
	if len(e.samples) == 0 {
		e.samples = []interface{}{"no path sample agreed natively in this run"}
	}
	seed := envInt("VERIF_SEED", 1)
	exhaustive := len(inc) == 0
	doc := map[string]interface{}{
		"property": e.spec.ID, "tier": e.tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]interface{}{
			"states": paths + forks, "transitions": steps, "traces_validated_against_impl": e.agreed, "samples": e.samples,
			"explanation":         "bounded symbolic execution of the SSA form of the current source; states = path segments (forks + completed paths), transitions = SSA instructions executed symbolically, traces_validated_against_impl = sampled symbolic paths whose native run reached the same labels and assertions",
			"exhaustive":          exhaustive,
			"paths":               paths,
			"assertions_checked":  asserts,
			"assertion_queries":   vcs,
			"solver":              e.cfg.solver,
			"solver_queries":      q,
			"solver_sat":          sat,
			"solver_unsat":        unsat,
			"solver_unknown":      unk,
			"solver_time_s":       st.Seconds(),
			"harnesses":           hs,
			"bounds":              e.spec.Bounds,
			"outside_the_bounds":  e.spec.Outside,
			"incomplete":          inc,
			"functions_encoded":   repoF,
			"library_functions":   depF,
			"not_reproduced":      e.notReproduced,
			"sampled_paths_rerun": e.diffs,
		},
		"assumptions": as,
		"wall_s":      time.Since(e.start).Seconds(),
		"violations":  len(e.violations),
	}
	b, _ := json.MarshalIndent(doc, "", " ")
	os.MkdirAll(filepath.Join(e.cfg.verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(e.cfg.verif, "evidence", e.spec.ID+".json"), b, 0o644)
}
