package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

type evidence struct {
	Property, Tier, Level string
	Seed                  int
	start                 time.Time
	cfg                   *Config
	notes                 []string
	unrep                 []string
	mismatch              []string
	known                 []string
	validated             int
	violations            int
	cov                   map[string]any
}

func (e *evidence) note(s string) { e.notes = append(e.notes, s) }

func (e *evidence) fill(r *Run, names []string, eps []entryPoint, loadT, exploreT time.Duration) {
	states, trans, infeas, incon, asserts, symAsserts, unk := 0, 0, 0, 0, 0, 0, 0
	var samples []string
	perH := map[string]any{}
	docs := map[string]string{}
	for _, ep := range eps {
		docs[ep.Name] = ep.Doc
	}
	for _, n := range names {
		st := r.stats[n]
		states += st.paths
		trans += st.branches
		infeas += st.infeasible
		incon += st.inconclusive + st.dropped
		asserts += st.asserts
		symAsserts += st.symAsserts
		unk += st.unk
		h := map[string]any{"paths": st.paths, "infeasible": st.infeasible, "asserts": st.asserts, "solver_asserts": st.symAsserts, "steps": st.steps, "reached": st.reached, "what": docs[n], "complete": st.inconclusive+st.dropped == 0}
		if len(st.reasons) > 0 {
			h["inconclusive_reasons"] = st.reasons
		}
		if st.dropped > 0 {
			h["paths_not_explored"] = st.dropped
		}
		perH[n] = h
		for i, s := range st.samples {
			if i >= 2 || len(samples) > 40 {
				break
			}
			var parts []string
			for _, in := range s {
				parts = append(parts, in.Name+"="+in.Val)
			}
			samples = append(samples, n+": "+strings.Join(parts, " "))
		}
	}
	if samples == nil {
		samples = []string{"(no inputs)"}
	}
	var funcs []string
	r.eng.encoded.Range(func(k, v any) bool { funcs = append(funcs, k.(string)); return true })
	sort.Strings(funcs)
	if trans == 0 {
		trans = states
	}
	e.cov = map[string]any{
		"states": states, "transitions": trans, "traces_validated_against_impl": e.validated, "samples": samples,
		"paths": states, "infeasible_paths": infeas, "inconclusive_paths": incon, "assertions_checked": asserts, "assertions_with_a_residual_condition": symAsserts,
		"how_assertions_are_decided": "the branches of an assertion's condition are decided by solver queries (queries_sat, queries_unsat: is the failing side feasible); a condition left over is a query of its own; equalities of group elements are polynomial identities, decided by normal form and put to the solver once each (identity_queries); conflicting accesses are ordering queries (race_queries)",
		"functions_encoded": funcs, "bounds": e.cfg.Bounds, "harnesses": perH,
		"queries": r.queries + r.confirmN + r.raceQ, "queries_sat": r.qsat, "queries_unsat": r.qunsat, "queries_unknown": r.qunk,
		"identity_queries": r.confirmN, "identity_unknown": r.confirmUnk, "race_queries": r.raceQ, "race_pairs": r.racePairs,
		"solver_time_s": (r.qtime + r.confirmT).Seconds(), "load_s": loadT.Seconds(), "explore_s": exploreT.Seconds(), "unknown_branches": unk,
		"complete": incon == 0 && unk == 0, "solver": "z3-new",
	}
}

func (e *evidence) write() {
	if e.cov == nil {
		e.cov = map[string]any{"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []string{"(none)"}}
	}
	if len(e.notes) > 0 {
		e.cov["notes"] = e.notes
	}
	if len(e.unrep) > 0 {
		e.cov["unreproduced_counterexamples"] = e.unrep
	}
	if len(e.mismatch) > 0 {
		e.cov["model_mismatches"] = e.mismatch
	}
	if len(e.known) > 0 {
		e.cov["known_findings_seen"] = e.known
	}
	as := []string{"elements of the group are modelled as polynomials over fresh indeterminates; distinct indeterminates are independent and non-zero (no discrete-log relations, no hash or random collisions)"}
	if e.cfg != nil {
		as = append(as, e.cfg.Assume...)
	}
	out := map[string]any{"property": e.Property, "tier": e.Tier, "seed": e.Seed, "level": e.Level, "coverage": e.cov, "assumptions": as,
		"wall_s": time.Since(e.start).Seconds(), "violations": e.violations}
	b, _ := json.MarshalIndent(out, "", " ")
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0o755)
	os.WriteFile(filepath.Join(dir, e.Property+".json"), b, 0o644)
}

func (e *evidence) summary(r *Run, names []string) {
	for _, n := range names {
		st := r.stats[n]
		fmt.Printf("%-44s paths=%d infeasible=%d inconclusive=%d dropped=%d asserts=%d/%d viol=%d steps=%d %.1fs\n", n, st.paths, st.infeasible, st.inconclusive, st.dropped, st.symAsserts, st.asserts, st.viol, st.steps, st.elapsed.Seconds())
		for _, k := range sortedKeys(st.reasons) {
			s := k
			if len(s) > 700 {
				s = s[:700]
			}
			fmt.Printf("    inconclusive (%d): %s\n", st.reasons[k], s)
		}
	}
	for _, s := range e.unrep {
		fmt.Println("NOTE counterexample not reproduced natively:", s)
	}
	for _, s := range e.mismatch {
		fmt.Println("NOTE model/native mismatch:", s)
	}
	fmt.Printf("%s %s: queries=%d solver=%.1fs identities=%d natively validated=%d violations=%d wall=%.1fs\n", e.Property, e.Tier, r.queries, (r.qtime + r.confirmT).Seconds(), r.confirmN, e.validated, e.violations, time.Since(e.start).Seconds())
}
