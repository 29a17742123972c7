package main

import (
	"fmt"
	"sort"
	"strings"
)

// Predictive race analysis. While the path runs, memory accesses and
// synchronisation operations of all goroutines are recorded. Afterwards every
// conflicting pair is a solver query: is there an order of the events,
// respecting program order, fork/join, WaitGroup, channel and lock semantics,
// in which the two accesses are adjacent?

type rev struct {
	g     int
	idx   int
	kind  byte // 'r','w' access; 'L','U' lock; 'R','A' release/acquire; 'F' fork; 'X' exit; 'D' wg done; 'W' wg wait return
	cell  *value
	obj   any
	other int
	site  string
	seq   int
	lock  int // matching index for U
}

type Race struct {
	p      *Path
	events []*rev
	perG   map[int]int
	n      int
	skip   int
	on     bool
}

func newRace(p *Path) *Race { return &Race{p: p, perG: map[int]int{}, on: true} }

func (r *Race) add(g *G, e *rev) {
	if !r.on {
		return
	}
	e.g = g.id
	e.idx = r.perG[g.id]
	r.perG[g.id]++
	e.seq = len(r.events)
	r.events = append(r.events, e)
	if len(r.events) > 3000000 {
		unsup("race trace too long")
	}
}

func siteOf(fr *frame) string {
	for f := fr; f != nil; f = f.caller {
		if f.info == nil || f.info.fn == nil {
			continue
		}
		if f.info.isRepo {
			s := f.info.name
			if f.block != nil && f.prev < len(f.block.pos) {
				ps := fr.p.eng.prog.Fset.Position(f.block.pos[f.prev])
				fn := ps.Filename
				if i := strings.LastIndex(fn, "/"); i >= 0 {
					fn = fn[i+1:]
				}
				s += fmt.Sprintf(" (%s:%d)", fn, ps.Line)
			}
			return s
		}
	}
	return "harness"
}

// ideal tells whether the frame belongs to an ideal functionality, which keeps
// books that the real code does not have.
func ideal(fr *frame) bool {
	if fr == nil || fr.info == nil || fr.info.fn == nil || fr.info.fn.Pkg == nil {
		return false
	}
	p := fr.info.fn.Pkg.Pkg.Path()
	return p == "go.dedis.ch/kyber/v3/proof" || p == "go.dedis.ch/kyber/v3/shuffle" || p == "go.dedis.ch/onet/v3" || strings.HasPrefix(p, "go.dedis.ch/onet/v3/")
}

func (r *Race) access(fr *frame, c *value, w bool) {
	if !r.on || ideal(fr) {
		return
	}
	k := byte('r')
	if w {
		k = 'w'
	}
	r.add(fr.g, &rev{kind: k, cell: c, site: siteOf(fr)})
	// an access to an aggregate touches its parts
	switch s := (*c).(type) {
	case structure:
		for i := range s {
			r.access(fr, &s[i], w)
		}
	case array:
		if len(s) <= 64 {
			for i := range s {
				r.access(fr, &s[i], w)
			}
		}
	}
}

func (r *Race) rangeAccess(fr *frame, s []value, w bool) {
	for i := range s {
		r.access(fr, &s[i], w)
	}
}

func (r *Race) fork(parent, child *G)      { r.add(parent, &rev{kind: 'F', other: child.id}) }
func (r *Race) exit(g *G)                  { r.add(g, &rev{kind: 'X'}) }
func (r *Race) release(g *G, o any)        { r.add(g, &rev{kind: 'R', obj: o}) }
func (r *Race) acquire(g *G, o any)        { r.add(g, &rev{kind: 'A', obj: o}) }
func (r *Race) lock(g *G, o any, rd bool)  { r.add(g, &rev{kind: 'L', obj: o}) }
func (r *Race) unlock(g *G, o any, b bool) { r.add(g, &rev{kind: 'U', obj: o}) }

type raceReport struct{ a, b string }

// check returns the conflicting pairs that the solver can order adjacently.
func (r *Race) check(maxQueries int) (found []raceReport, queries int, pairs int) {
	r.on = false
	// cells with conflicting accesses from different goroutines
	type acc struct {
		e *rev
	}
	byCell := map[*value][]*rev{}
	for _, e := range r.events {
		if e.kind == 'r' || e.kind == 'w' {
			byCell[e.cell] = append(byCell[e.cell], e)
		}
	}
	// hard happens-before by vector clocks (everything but locks)
	vcs := r.clocks()
	type pk struct{ a, b string }
	seen := map[pk]int{}
	type pair struct{ a, b *rev }
	var cands []pair
	cells := make([]*value, 0, len(byCell))
	for c := range byCell {
		cells = append(cells, c)
	}
	sort.Slice(cells, func(i, j int) bool { return byCell[cells[i]][0].seq < byCell[cells[j]][0].seq })
	for _, c := range cells {
		evs := byCell[c]
		multi, wr := false, false
		for _, e := range evs {
			if e.g != evs[0].g {
				multi = true
			}
			if e.kind == 'w' {
				wr = true
			}
		}
		if !multi || !wr {
			continue
		}
		for i, a := range evs {
			for _, b := range evs[i+1:] {
				if a.g == b.g || a.kind == 'r' && b.kind == 'r' {
					continue
				}
				pairs++
				if a.idx < vcs[b.seq][a.g] { // a happens before b
					continue
				}
				if b.idx < vcs[a.seq][b.g] {
					continue
				}
				k := pk{a.site, b.site}
				if seen[k] >= 3 {
					continue
				}
				seen[k]++
				cands = append(cands, pair{a, b})
			}
		}
	}
	for _, c := range cands {
		if queries >= maxQueries {
			break
		}
		queries++
		if r.query(c.a, c.b) == "sat" {
			found = append(found, raceReport{c.a.site, c.b.site})
		}
	}
	return
}

// clocks computes vector clocks over program order, fork/exit, channel and
// WaitGroup edges. The component of the goroutine itself is left out; the
// snapshots are shared between events.
func (r *Race) clocks() []map[int]int {
	cur := map[int]map[int]int{}
	objs := map[any]map[int]int{}
	// join returns a with b's components (and one more); it never changes a
	// map that was handed out
	join := func(a, b map[int]int, g, n int) map[int]int {
		need := g >= 0 && a[g] < n
		for k, v := range b {
			if a[k] < v {
				need = true
				break
			}
		}
		if !need {
			return a
		}
		c := make(map[int]int, len(a)+len(b))
		for k, v := range a {
			c[k] = v
		}
		for k, v := range b {
			if c[k] < v {
				c[k] = v
			}
		}
		if g >= 0 && c[g] < n {
			c[g] = n
		}
		return c
	}
	// objects are only read through join: they can be updated in place
	into := func(a, b map[int]int, g, n int) map[int]int {
		if a == nil {
			a = map[int]int{}
		}
		for k, v := range b {
			if a[k] < v {
				a[k] = v
			}
		}
		if a[g] < n {
			a[g] = n
		}
		return a
	}
	out := make([]map[int]int, len(r.events))
	for i, e := range r.events {
		switch e.kind {
		case 'F':
			cur[e.other] = join(cur[e.other], cur[e.g], e.g, e.idx+1)
		case 'R', 'D':
			objs[e.obj] = into(objs[e.obj], cur[e.g], e.g, e.idx+1)
		case 'A', 'W':
			if o := objs[e.obj]; o != nil {
				cur[e.g] = join(cur[e.g], o, -1, 0)
			}
		case 'r', 'w':
			out[i] = cur[e.g]
		}
	}
	return out
}

// query builds the ordering problem for one pair.
func (r *Race) query(a, b *rev) string {
	var sb strings.Builder
	// only synchronisation events and the two accesses matter
	byG := map[int][]*rev{}
	var evs []*rev
	for _, e := range r.events {
		if e.kind == 'r' || e.kind == 'w' {
			if e != a && e != b {
				continue
			}
		}
		evs = append(evs, e)
		byG[e.g] = append(byG[e.g], e)
	}
	if len(evs) > 4000 {
		return "unknown"
	}
	name := func(e *rev) string { return fmt.Sprintf("o%d", e.seq) }
	for _, e := range evs {
		fmt.Fprintf(&sb, "(declare-const %s Int)\n", name(e))
	}
	for _, l := range byG {
		for i := 1; i < len(l); i++ {
			fmt.Fprintf(&sb, "(assert (< %s %s))\n", name(l[i-1]), name(l[i]))
		}
	}
	rel := map[any][]*rev{}
	type sec struct{ l, u *rev }
	secs := map[any][]sec{}
	open := map[string]*rev{}
	for _, e := range evs {
		switch e.kind {
		case 'F':
			if l := byG[e.other]; len(l) > 0 {
				fmt.Fprintf(&sb, "(assert (< %s %s))\n", name(e), name(l[0]))
			}
		case 'R', 'D':
			rel[e.obj] = append(rel[e.obj], e)
		case 'A', 'W':
			for _, x := range rel[e.obj] {
				fmt.Fprintf(&sb, "(assert (< %s %s))\n", name(x), name(e))
			}
		case 'L':
			open[fmt.Sprintf("%d/%p", e.g, e.obj)] = e
		case 'U':
			k := fmt.Sprintf("%d/%p", e.g, e.obj)
			if l := open[k]; l != nil {
				secs[e.obj] = append(secs[e.obj], sec{l, e})
				delete(open, k)
			}
		}
	}
	for _, ss := range secs {
		for i := range ss {
			for j := i + 1; j < len(ss); j++ {
				if ss[i].l.g == ss[j].l.g {
					continue
				}
				fmt.Fprintf(&sb, "(assert (or (< %s %s) (< %s %s)))\n", name(ss[i].u), name(ss[j].l), name(ss[j].u), name(ss[i].l))
			}
		}
	}
	fmt.Fprintf(&sb, "(assert (= %s %s))\n", name(a), name(b))
	return r.p.sol.rawCheck(sb.String())
}
