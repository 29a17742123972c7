package main

import (
	"fmt"
	"math/big"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type ssaFunction = ssa.Function

// dec is one recorded decision: a branch (b=0/1) or an n-way choice.
type dec struct {
	b int
	v int64 // concretisation: the value offered
	k byte  // 'b' branch, 'c' choice, 'v' concretise
}

type inputRec struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	T    *Term  `json:"-"`
	Val  string `json:"value"`
}

type violation struct {
	Harness string
	Msg     string
	Where   string
	Inputs  []inputRec
	Kind    string // assert | panic | deadlock | steps | race
	Trace   []dec
	Detail  string
	Sched   int // goroutines met (1) or interrupted one another (2)
}

type Path struct {
	eng      *Engine
	run      *Run
	sol      *Solver
	tc       *TermCtx
	ec       *EltCtx
	prefix   []dec
	trace    []dec
	alts     [][]dec
	steps    int
	nblk     int
	finIDs   map[string]int
	maxSteps int

	globals  map[*ssa.Global]*value
	initDone map[string]int
	decMemo  map[*Term][]value
	seenFn   map[*fnInfo]bool
	race     *Race
	mapOrder int
	nchan    int
	nfresh   map[string]int
	facts    map[*Term]bool  // decided on this path
	known    map[*Term]int64 // concretized on this path
	inputs   []inputRec
	relQ     int
	fixed    map[string]string // concrete replay in the engine (unused inputs symbolic)

	gs          []*G
	curG        *G
	alive       int
	over        bool
	doneCh      chan struct{}
	endReason   any
	endStack    string
	hostWG      sync.WaitGroup
	timers      []*timer
	timersFired int
	now         int64
	schedForks  int
	preempts    int // preemptions left
	preempted   int
	randLeft    int // random draws still explored
	randFixed   bool
	randMin     int64 // only draws out of at least that many values are explored
	randDraws   int64
	noFork      int
	selForks    bool

	opqs      map[string]*OpqSrc
	nopq      int
	syncState map[*value]any
	files     map[string]*memFile
	tmpDirs int
	hostMap   map[string]value

	asserts    int
	assertsSym int
	reached    map[string]int
	viols      []violation
	notes      []string
	unk        int
	assumeFail bool
	entry      string
	randRead   int
}

func (r *Run) newPath(sol *Solver, prefix []dec) *Path {
	p := &Path{eng: r.eng, run: r, sol: sol, prefix: prefix,
		globals: map[*ssa.Global]*value{}, initDone: map[string]int{}, decMemo: map[*Term][]value{},
		seenFn: map[*fnInfo]bool{}, facts: map[*Term]bool{}, known: map[*Term]int64{}, nfresh: map[string]int{}, doneCh: make(chan struct{}),
		opqs: map[string]*OpqSrc{}, syncState: map[*value]any{}, files: map[string]*memFile{}, hostMap: map[string]value{},
		reached: map[string]int{}, maxSteps: r.maxSteps}
	p.tc = newTermCtx()
	p.ec = newEltCtx(p.tc)
	sol.reset()
	return p
}

func (p *Path) assume(t *Term) {
	if t == p.tc.T {
		return
	}
	p.sol.assert(t)
}

// branch decides a condition, forking when both outcomes are feasible.
func (p *Path) branch(c *Term) bool {
	if c == p.tc.T {
		return true
	}
	if c == p.tc.F {
		return false
	}
	if b, ok := p.facts[c]; ok {
		return b
	}
	b := p.decide(c)
	p.facts[c] = b
	p.facts[p.tc.Not(c)] = !b
	return b
}

func (p *Path) decide(c *Term) bool {
	if n := len(p.trace); n < len(p.prefix) {
		d := p.prefix[n]
		if d.k != 'b' {
			panic(engineError{fmt.Sprintf("replay divergence: wanted branch, have %c", d.k)})
		}
		p.trace = append(p.trace, d)
		if d.b == 1 {
			p.assume(c)
			return true
		}
		p.assume(p.tc.Not(c))
		return false
	}
	p.checkBudget()
	r1, _ := p.sol.check([]*Term{c}, nil)
	if r1 == "unsat" {
		p.trace = append(p.trace, dec{b: 0, k: 'b'})
		p.assume(p.tc.Not(c))
		return false
	}
	r2, _ := p.sol.check([]*Term{p.tc.Not(c)}, nil)
	if r1 == "unknown" || r2 == "unknown" {
		p.unk++
	}
	if r2 != "unsat" {
		alt := append(append([]dec(nil), p.trace...), dec{b: 0, k: 'b'})
		p.alts = append(p.alts, alt)
	}
	p.trace = append(p.trace, dec{b: 1, k: 'b'})
	p.assume(c)
	return true
}

// choose forks over n alternatives, all taken to be feasible.
func (p *Path) choose(n int, what string) int {
	if n <= 1 {
		return 0
	}
	if m := len(p.trace); m < len(p.prefix) {
		d := p.prefix[m]
		if d.k != 'c' {
			panic(engineError{"replay divergence: wanted choice (" + what + ")"})
		}
		p.trace = append(p.trace, d)
		return d.b
	}
	p.checkBudget()
	for i := n - 1; i >= 1; i-- {
		p.alts = append(p.alts, append(append([]dec(nil), p.trace...), dec{b: i, k: 'c'}))
	}
	p.trace = append(p.trace, dec{b: 0, k: 'c'})
	return 0
}

// concretize forks over the feasible values of t.
func (p *Path) concretize(t *Term, what string) int64 {
	if t.op == OpConst {
		return fromTerm(t).(int64)
	}
	if v, ok := p.known[t]; ok {
		return v
	}
	v := p.pickValue(t, what)
	p.known[t] = v
	return v
}

func (p *Path) pickValue(t *Term, what string) int64 {
	for tries := 0; ; tries++ {
		if tries > 300 {
			unsup("more than 300 values for %s", what)
		}
		var v int64
		if n := len(p.trace); n < len(p.prefix) {
			d := p.prefix[n]
			if d.k != 'v' {
				panic(engineError{"replay divergence: wanted value (" + what + ")"})
			}
			p.trace = append(p.trace, d)
			eq := p.tc.Eq(t, p.tc.Int(d.v))
			if d.b == 1 {
				p.assume(eq)
				return d.v
			}
			p.assume(p.tc.Not(eq))
			continue
		}
		p.checkBudget()
		aux := p.tc.Var(fmt.Sprintf("conc!%d", t.id), t.lo, t.hi)
		r, m := p.sol.check([]*Term{p.tc.Eq(aux, t)}, []*Term{aux})
		if r == "unsat" {
			panic(pathEnd{"infeasible"})
		}
		if r != "sat" || m[aux.name] == nil {
			unsup("solver gave no value for %s", what)
		}
		if !m[aux.name].IsInt64() {
			unsup("value out of range for %s", what)
		}
		v = m[aux.name].Int64()
		eq := p.tc.Eq(t, p.tc.Int(v))
		r2, _ := p.sol.check([]*Term{p.tc.Not(eq)}, nil)
		if r2 != "unsat" {
			p.alts = append(p.alts, append(append([]dec(nil), p.trace...), dec{b: 0, v: v, k: 'v'}))
		}
		p.trace = append(p.trace, dec{b: 1, v: v, k: 'v'})
		p.assume(eq)
		return v
	}
}

func (p *Path) checkBudget() {
	if p.run.expired() {
		panic(pathEnd{"time budget"})
	}
}

func (p *Path) fresh(prefix string) string {
	n := p.nfresh[prefix]
	p.nfresh[prefix] = n + 1
	if n == 0 && !strings.HasSuffix(prefix, "!") {
		return prefix
	}
	return fmt.Sprintf("%s#%d", prefix, n)
}

func (p *Path) freshInt(prefix string, lo, hi int64) *Term {
	return p.tc.Var(p.fresh(prefix+"!"), big.NewInt(lo), big.NewInt(hi))
}

// modelInputs fills in the values of the inputs from a model of the path
// condition plus extra.
func (p *Path) modelInputs(extra ...*Term) ([]inputRec, bool) {
	var want []*Term
	for _, in := range p.inputs {
		if in.T != nil && in.T.op == OpVar {
			want = append(want, in.T)
		}
	}
	r, m := p.sol.check(extra, want)
	if r == "unsat" {
		return nil, false
	}
	out := append([]inputRec{}, p.inputs...)
	for i := range out {
		if out[i].T == nil {
			continue
		}
		if v, ok := m[out[i].T.name]; ok {
			out[i].Val = v.String()
		} else if out[i].Val == "" {
			out[i].Val = "0"
		}
	}
	return out, r == "sat"
}

func (p *Path) assert(fr *frame, c *Term, msg string) {
	p.asserts++
	p.reached["assert:"+msg]++
	if c == p.tc.T {
		return
	}
	p.assertsSym++
	in, ok := p.modelInputs(p.tc.Not(c))
	if in == nil {
		return // unsat: holds on this path
	}
	if !ok {
		p.unk++
		p.notes = append(p.notes, "solver gave no answer for: "+msg)
		return
	}
	p.viols = append(p.viols, violation{Harness: p.entry, Msg: msg, Where: p.where(fr), Inputs: in, Kind: "assert", Trace: append([]dec(nil), p.trace...), Sched: p.schedLevel()})
	panic(pathEnd{"violation"})
}

func (p *Path) global(g *ssa.Global) value {
	if c, ok := p.globals[g]; ok {
		return c
	}
	v := p.zero(deref(g.Type()))
	c := &v
	p.globals[g] = c
	if g.Pkg != nil && !p.eng.initByPath(g.Pkg.Pkg.Path()) && g.Name() != "init$guard" {
		p.lazyInit(g.Pkg)
	}
	return c
}

// lazyInit runs a standard library package's initialiser on first use of one
// of its globals.
func (p *Path) lazyInit(pkg *ssa.Package) {
	path := pkg.Pkg.Path()
	if p.initDone[path] != 0 {
		return
	}
	p.initDone[path] = 1
	if special, ok := specialInit[path]; ok {
		special(p, pkg)
		return
	}
	if deniedPkg(path) {
		return
	}
	p.eng.buildMu.Lock()
	pkg.Build()
	p.eng.buildMu.Unlock()
	f := pkg.Func("init")
	if f == nil {
		return
	}
	g := p.curG
	if g == nil {
		g = p.gs[0]
	}
	fr := &frame{p: p, g: g}
	inf := p.eng.info(f)
	if inf.blocks == nil {
		return
	}
	// run the body directly (bypassing the skip in callSSA)
	r := p.race
	p.race = nil
	steps := p.steps
	fr2 := &frame{p: p, g: g, caller: fr, info: inf, regs: make([]value, inf.nslots), block: inf.blocks[0]}
	fr2.run()
	p.steps = steps
	p.race = r
}

func (e *Engine) initByPath(path string) bool {
	// packages whose init is executed eagerly, in order, on each path
	i := strings.IndexByte(path, '/')
	first := path
	if i >= 0 {
		first = path[:i]
	}
	return strings.Contains(first, ".")
}

// execute runs entry to completion and returns when the path is over.
func (p *Path) execute(entry *ssa.Function) {
	p.entry = entry.Name()
	g := &G{id: 0, wake: make(chan struct{}, 1), name: "main"}
	p.gs = append(p.gs, g)
	p.curG = g
	p.alive = 1
	p.hostWG.Add(1)
	go func() {
		defer p.hostWG.Done()
		p.runG(g, func() {
			fr := &frame{p: p, g: g}
			initf := entry.Pkg.Func("init")
			fr.call(initf, nil)
			p.steps = 0
			fr.call(entry, nil)
			p.finish(nil, g)
		})
	}()
	<-p.doneCh
	p.killAll()
}
