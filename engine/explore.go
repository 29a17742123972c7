package main

import (
	"crypto/sha256"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Run struct {
	eng      *Engine
	maxSteps int
	tier     int
	deadline time.Time
	workers  int

	mu         sync.Mutex
	cond       *sync.Cond
	queue      []job
	active     int
	stats      map[string]*entryStats
	confirmed  map[[32]byte]bool
	confirmN   int
	confirmUnk int
	confirmT   time.Duration
	queries    int
	qsat, qunsat, qunk int
	qtime      time.Duration
	raceQ      int
	racePairs  int
	stopEntry  map[string]bool
}

const stepBound = "step bound exceeded"

type job struct {
	entry  string
	fn     *ssa.Function
	prefix []dec
}

type entryStats struct {
	paths, infeasible, viol, inconclusive int
	steps                                 int
	asserts, symAsserts                   int
	branches                              int
	unk                                   int
	reached                               map[string]int
	reasons                               map[string]int
	viols                                 []violation
	samples                               [][]inputRec
	dropped                               int
	elapsed                               time.Duration
}

func (r *Run) expired() bool { return time.Now().After(r.deadline) }

func (r *Run) explore(fns map[string]*ssa.Function, names []string) {
	r.cond = sync.NewCond(&r.mu)
	r.stats = map[string]*entryStats{}
	r.confirmed = map[[32]byte]bool{}
	r.stopEntry = map[string]bool{}
	for i := len(names) - 1; i >= 0; i-- {
		n := names[i]
		r.stats[n] = &entryStats{reached: map[string]int{}, reasons: map[string]int{}}
		r.queue = append(r.queue, job{n, fns[n], nil})
	}
	var wg sync.WaitGroup
	for w := 0; w < r.workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sol := newSolver(r.eng.cfg.Solver)
			defer sol.close()
			for {
				r.mu.Lock()
				for len(r.queue) == 0 && r.active > 0 {
					r.cond.Wait()
				}
				if len(r.queue) == 0 {
					r.mu.Unlock()
					r.cond.Broadcast()
					break
				}
				j := r.queue[len(r.queue)-1]
				r.queue = r.queue[:len(r.queue)-1]
				if r.stopEntry[j.entry] || r.expired() {
					r.stats[j.entry].dropped++
					if r.expired() {
						r.stats[j.entry].reasons["time budget"]++
					}
					r.mu.Unlock()
					continue
				}
				r.active++
				r.mu.Unlock()
				r.one(sol, j)
				r.mu.Lock()
				r.active--
				r.mu.Unlock()
				r.cond.Broadcast()
			}
			r.mu.Lock()
			r.queries += sol.queries
			r.qsat += sol.nsat
			r.qunsat += sol.nunsat
			r.qunk += sol.nunk
			r.qtime += sol.time
			r.mu.Unlock()
		}()
	}
	wg.Wait()
}

func (r *Run) one(sol *Solver, j job) {
	t0 := time.Now()
	p := r.newPath(sol, j.prefix)
	p.entry = j.entry
	var ferr any
	func() {
		defer func() {
			if e := recover(); e != nil {
				ferr = e
			}
		}()
		p.execute(j.fn)
	}()
	end := p.endReason
	if ferr != nil {
		end = ferr
	}
	incon := ""
	infeasible := false
	switch e := end.(type) {
	case nil:
	case pathEnd:
		switch e.reason {
		case "assume", "infeasible":
			infeasible = true
		case "violation":
		case stepBound:
			incon = e.reason
			if in, ok := p.modelInputs(); ok {
				p.viols = append(p.viols, violation{Harness: j.entry, Kind: "hang", Msg: "does not terminate (step bound exceeded)", Inputs: in, Trace: append([]dec(nil), p.trace...)})
			}
		default:
			incon = e.reason
		}
	case unsupported:
		incon = "unsupported: " + e.msg
	case engineError:
		incon = "engine: " + e.msg
	case targetPanic, exitPanic:
		v := violation{Harness: j.entry, Kind: "panic", Trace: append([]dec(nil), p.trace...), Sched: p.schedLevel()}
		if tp, ok := e.(targetPanic); ok {
			v.Msg = "panic: " + tp.rt
			v.Where = tp.pos
			if tp.rt == "" {
				v.Msg = "panic: " + p.panicText(tp.v)
			}
			if strings.Contains(tp.rt, "deadlock") {
				v.Kind = "deadlock"
			}
		} else {
			v.Kind = "exit"
			v.Msg = "process exit"
		}
		in, ok := p.modelInputs()
		if in == nil && !ok {
			infeasible = true
		} else {
			v.Inputs = in
			p.viols = append(p.viols, v)
		}
	default:
		incon = fmt.Sprintf("engine panic: %v", e)
		if p.endStack != "" {
			incon += "\n" + p.endStack
		} else {
			b := make([]byte, 3000)
			incon += "\n" + string(b[:runtime.Stack(b, false)])
		}
	}
	// data races
	if end == nil && p.race != nil {
		func() {
			defer func() {
				if e := recover(); e != nil {
					incon = fmt.Sprintf("race analysis: %v", e)
				}
			}()
			found, q, pairs := p.race.check(400)
			r.mu.Lock()
			r.raceQ += q
			r.racePairs += pairs
			r.mu.Unlock()
			for _, f := range found {
				in, _ := p.modelInputs()
				p.viols = append(p.viols, violation{Harness: j.entry, Kind: "race", Msg: "data race: " + f.a + " / " + f.b, Inputs: in, Trace: p.trace})
			}
		}()
	}
	// confirm the algebraic identities used on this path with the solver
	if !infeasible && incon == "" {
		r.confirm(sol, p)
	}
	var sample []inputRec
	r.mu.Lock()
	st := r.stats[j.entry]
	wantSample := len(st.samples) < 6 || st.paths < 200 && st.paths%20 == 0
	r.mu.Unlock()
	if end == nil && incon == "" && len(p.viols) == 0 && wantSample {
		if in, ok := p.modelInputs(); ok {
			sample = in
		}
	}
	if dbg && incon != "" {
		fmt.Println("INCONCLUSIVE", j.entry, incon, "at", p.whereGs())
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	st.steps += p.steps
	st.asserts += p.asserts
	st.symAsserts += p.assertsSym
	st.branches += len(p.trace)
	st.unk += p.unk
	st.elapsed += time.Since(t0)
	for k, n := range p.reached {
		st.reached[k] += n
	}
	for _, n := range p.notes {
		st.reasons[n]++
	}
	switch {
	case infeasible:
		st.infeasible++
	case incon != "":
		st.inconclusive++
		st.reasons[incon]++
	default:
		st.paths++
	}
	if sample != nil {
		st.samples = append(st.samples, sample)
	}
	for _, v := range p.viols {
		st.viol++
		dup := false
		for _, o := range st.viols {
			if o.Msg == v.Msg && o.Kind == v.Kind {
				dup = true
			}
		}
		if !dup || st.viol < 8 {
			st.viols = append(st.viols, v)
		}
		if len(st.viols) >= 6 {
			r.stopEntry[j.entry] = true
		}
	}
	for _, a := range p.alts {
		r.queue = append(r.queue, job{j.entry, j.fn, a})
	}
}

func (p *Path) whereGs() string {
	var out []string
	for _, g := range p.gs {
		if !g.done && g.what != "" && len(out) < 6 {
			out = append(out, fmt.Sprintf("g%d:%s", g.id, g.what))
		}
	}
	return strings.Join(out, "; ")
}

func (p *Path) panicText(v value) (s string) {
	defer func() {
		if recover() != nil {
			s = "value"
		}
	}()
	if it, ok := v.(iface); ok {
		if c, ok := it.v.(*value); ok && c != nil {
			if st, ok := (*c).(structure); ok && len(st) == 1 {
				return fmt.Sprint(st[0])
			}
		}
		switch x := it.v.(type) {
		case string:
			return x
		case structure:
			return fmt.Sprint(it.t)
		}
		return fmt.Sprint(it.t)
	}
	return fmt.Sprint(v)
}

func (r *Run) confirm(sol *Solver, p *Path) {
	qs := p.ec.confirmQueries(12)
	for _, q := range qs {
		h := sha256.Sum256([]byte(q))
		r.mu.Lock()
		seen := r.confirmed[h]
		r.confirmed[h] = true
		over := r.confirmT > 60*time.Second || len(q) > 200000
		r.mu.Unlock()
		if seen || over {
			continue
		}
		t := time.Now()
		res := sol.rawCheck(q)
		r.mu.Lock()
		r.confirmN++
		r.confirmT += time.Since(t)
		if res == "unknown" {
			r.confirmUnk++
		}
		r.mu.Unlock()
		if res == "sat" {
			panic(engineError{"solver refutes an algebraic identity used by the engine: " + q})
		}
	}
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
