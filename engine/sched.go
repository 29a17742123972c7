package main

import (
	"fmt"
	"runtime"
	"strings"
	"time"
)

// Interpreted goroutines run on host goroutines that pass a baton: exactly one
// runs at any time.

type G struct {
	id      int
	wake    chan struct{}
	ready   func() bool // nil = runnable
	what    string
	done    bool
	killed  bool
	depth   int
	quiesce int // >0: wants to run only when nothing else can (lower first)
	vc      []int
	cur     *frame
	name    string
}

type waiter struct {
	g     *G
	v     value
	ok    bool
	fired *bool
	idx   int
	which *int
	sel   *selState
}

type selState struct {
	done  bool
	which int
	v     value
	ok    bool
}

type timer struct {
	at    int64
	f     func()
	dead  bool
	order int
}

func (p *Path) spawn(fr *frame, fn value, args []value) {
	g := &G{id: len(p.gs), wake: make(chan struct{}, 1)}
	g.name = fmt.Sprintf("g%d", g.id)
	p.gs = append(p.gs, g)
	p.alive++
	if p.alive > 5000 {
		unsup("too many goroutines")
	}
	if p.race != nil {
		p.race.fork(fr.g, g)
	}
	p.hostWG.Add(1)
	go func() {
		defer p.hostWG.Done()
		<-g.wake
		if g.killed || p.over {
			return
		}
		p.runG(g, func() {
			base := &frame{p: p, g: g}
			switch f := fn.(type) {
			case *ssaFunction:
				p.callSSA(g, base, f, args, nil)
			default:
				base.call(fn, args)
			}
		})
		if p.over {
			return
		}
		g.done = true
		p.alive--
		if p.race != nil {
			p.race.exit(g)
		}
		p.passBaton(g)
	}()
}

// runG runs f and turns abnormal ends into the end of the path.
func (p *Path) runG(g *G, f func()) {
	defer func() {
		if g.killed {
			return
		}
		if r := recover(); r != nil {
			p.finish(r, g)
		}
	}()
	f()
}

func (p *Path) finish(r any, g *G) {
	if p.over {
		return
	}
	p.over = true
	p.endReason = r
	if re, ok := r.(runtime.Error); ok {
		buf := make([]byte, 6000)
		n := runtime.Stack(buf, false)
		p.endStack = re.Error() + "\n" + string(buf[:n])
	}
	close(p.doneCh)
}

// passBaton hands control to another goroutine; the caller must not run target
// code until woken.
func (p *Path) passBaton(from *G) {
	g := p.pick(from)
	if g == nil {
		return
	}
	if g == from {
		return
	}
	p.curG = g
	g.wake <- struct{}{}
}

func (p *Path) pick(from *G) *G {
	for {
		// round robin from the current goroutine
		n := len(p.gs)
		start := 0
		if from != nil {
			start = from.id + 1
		}
		var cands []*G
		for i := 0; i < n; i++ {
			g := p.gs[(start+i)%n]
			if g.done || g.quiesce > 0 {
				continue
			}
			if g.ready == nil || g.ready() {
				if p.schedForks <= 0 || p.noFork > 0 {
					return g
				}
				cands = append(cands, g)
			}
		}
		if len(cands) > 1 {
			p.schedForks--
			k := p.choose(len(cands), "sched")
			if k > 0 {
				p.preempted++
			}
			return cands[k]
		}
		if len(cands) == 1 {
			return cands[0]
		}
		// quiescent: lowest quiesce level first
		var best *G
		for _, g := range p.gs {
			if !g.done && g.quiesce > 0 && (g.ready == nil || g.ready()) {
				if best == nil || g.quiesce < best.quiesce {
					best = g
				}
			}
		}
		if best != nil {
			best.quiesce = 0
			return best
		}
		// timers
		var bt *timer
		for _, t := range p.timers {
			if !t.dead && (bt == nil || t.at < bt.at || t.at == bt.at && t.order < bt.order) {
				bt = t
			}
		}
		if bt != nil {
			bt.dead = true
			if bt.at > p.now {
				p.now = bt.at
			}
			p.timersFired++
			bt.f()
			continue
		}
		// deadlock
		desc := ""
		for _, g := range p.gs {
			if !g.done && len(desc) < 400 {
				desc += fmt.Sprintf(" [g%d %s]", g.id, g.what)
			}
		}
		p.finish(targetPanic{rt: "all goroutines are asleep - deadlock!", pos: desc}, from)
		return nil
	}
}

// block suspends the current goroutine until ready() holds.
func (p *Path) block(fr *frame, what string, ready func() bool) {
	g := fr.g
	if ready != nil && ready() {
		return
	}
	g.ready = ready
	g.what = what + " at " + p.where(fr)
	p.noFork++
	p.noFork--
	next := p.pick(g)
	if next == nil {
		p.park(g)
	}
	if next != g {
		p.curG = next
		next.wake <- struct{}{}
		p.park(g)
	}
	g.ready = nil
	g.what = ""
}

// preempt explores interrupting the current goroutine before an operation that
// synchronises.
func (p *Path) preempt(fr *frame) {
	if p.preempts <= 0 || p.noFork > 0 || len(p.gs) < 2 || !preemptible(fr) {
		return
	}
	g := fr.g
	var cands []*G
	for _, o := range p.gs {
		if o != g && !o.done && o.quiesce == 0 && (o.ready == nil || o.ready()) {
			cands = append(cands, o)
		}
	}
	if len(cands) == 0 {
		return
	}
	k := p.choose(len(cands)+1, "preempt")
	if k == 0 {
		return
	}
	p.preempts--
	p.preempted++
	next := cands[k-1]
	g.what = "preempted at " + p.where(fr)
	p.curG = next
	next.wake <- struct{}{}
	p.park(g)
	g.what = ""
}

// schedLevel tells how much the path depends on the schedule.
func (p *Path) schedLevel() int {
	if p.preempted > 0 {
		return 2
	}
	if len(p.gs) > 1 {
		return 1
	}
	return 0
}

// preemptible tells whether an operation is one of the code under test, also
// through the map package it uses.
func preemptible(fr *frame) bool {
	for f := fr; f != nil; f = f.caller {
		if f.info == nil || f.info.fn == nil {
			continue
		}
		fn := f.info.fn
		for fn.Parent() != nil {
			fn = fn.Parent()
		}
		pkg := fn.Pkg
		if pkg == nil {
			return false
		}
		path := pkg.Pkg.Path()
		if f == fr && (path == "sync" || path == "sync/atomic") || strings.HasPrefix(path, "github.com/fanliao/go-concurrentMap") {
			continue
		}
		return strings.HasPrefix(path, modPath) && !strings.HasPrefix(path, modPath+"/zz_verif")
	}
	return false
}

// yieldTo gives other goroutines a chance to run.
func (p *Path) gosched(fr *frame) {
	g := fr.g
	next := p.pick(g)
	if next != nil && next != g {
		p.curG = next
		next.wake <- struct{}{}
		p.park(g)
	}
}

func (p *Path) waitQuiescent(fr *frame, level int) {
	g := fr.g
	g.quiesce = level
	g.what = "waiting for quiescence"
	next := p.pick(g)
	if next == nil {
		p.park(g)
	}
	if next != g {
		p.curG = next
		next.wake <- struct{}{}
		p.park(g)
	}
	g.quiesce = 0
	g.what = ""
}

func (p *Path) park(g *G) {
	<-g.wake
	if p.over || g.killed {
		g.killed = true
		runtime.Goexit()
	}
	p.curG = g
}

// killAll ends every parked host goroutine after the path is over.
func (p *Path) killAll() {
	for _, g := range p.gs {
		if !g.done {
			g.killed = true
			select {
			case g.wake <- struct{}{}:
			default:
			}
		}
	}
	ch := make(chan struct{})
	go func() { p.hostWG.Wait(); close(ch) }()
	select {
	case <-ch:
	case <-time.After(5 * time.Second):
	}
}

// ---- channels

func (p *Path) chanSend(fr *frame, c *Chan, v value) {
	p.preempt(fr)
	if c == nil {
		p.block(fr, "send on nil channel", func() bool { return false })
	}
	if c.closed {
		panic(targetPanic{rt: "send on closed channel", pos: p.where(fr)})
	}
	if p.race != nil {
		p.race.release(fr.g, c)
	}
	// waiting receiver
	for len(c.recvq) > 0 {
		w := c.recvq[0]
		c.recvq = c.recvq[1:]
		if w.sel.done {
			continue
		}
		w.sel.done, w.sel.which, w.sel.v, w.sel.ok = true, w.idx, v, true
		return
	}
	if len(c.buf) < c.cap {
		c.buf = append(c.buf, v)
		return
	}
	s := &selState{}
	c.sendq = append(c.sendq, &waiter{g: fr.g, v: v, sel: s})
	p.block(fr, "chan send", func() bool { return s.done || c.closed })
	if !s.done && c.closed {
		panic(targetPanic{rt: "send on closed channel", pos: p.where(fr)})
	}
	if p.race != nil && c.cap == 0 {
		p.race.acquire(fr.g, c)
	}
}

func (p *Path) takeFrom(c *Chan) (value, bool, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = c.buf[1:]
		for len(c.sendq) > 0 && len(c.buf) < c.cap {
			w := c.sendq[0]
			c.sendq = c.sendq[1:]
			if w.sel.done {
				continue
			}
			w.sel.done, w.sel.which = true, w.idx
			c.buf = append(c.buf, w.v)
		}
		return v, true, true
	}
	for len(c.sendq) > 0 {
		w := c.sendq[0]
		c.sendq = c.sendq[1:]
		if w.sel.done {
			continue
		}
		w.sel.done, w.sel.which = true, w.idx
		return w.v, true, true
	}
	if c.closed {
		return nil, false, true
	}
	return nil, false, false
}

func (p *Path) chanRecv(fr *frame, c *Chan) (value, bool) {
	p.preempt(fr)
	if c == nil {
		p.block(fr, "receive on nil channel", func() bool { return false })
	}
	if p.race != nil && c.cap == 0 {
		p.race.release(fr.g, c)
	}
	v, ok, got := p.takeFrom(c)
	if !got {
		s := &selState{}
		c.recvq = append(c.recvq, &waiter{g: fr.g, sel: s})
		p.block(fr, "chan receive", func() bool { return s.done || c.closed })
		if !s.done {
			s.done = true
			v, ok = nil, false
		} else {
			v, ok = s.v, s.ok
		}
	}
	if p.race != nil {
		p.race.acquire(fr.g, c)
	}
	return v, ok
}

func (p *Path) chanClose(fr *frame, c *Chan) {
	if c == nil {
		panic(targetPanic{rt: "close of nil channel", pos: p.where(fr)})
	}
	if c.closed {
		panic(targetPanic{rt: "close of closed channel", pos: p.where(fr)})
	}
	c.closed = true
	if p.race != nil {
		p.race.release(fr.g, c)
	}
}

type selCase struct {
	send bool
	c    *Chan
	v    value
}

func (p *Path) selectOp(fr *frame, cs []selCase, blocking bool) (int, value, bool) {
	live := func(q []*waiter) bool {
		for _, w := range q {
			if !w.sel.done {
				return true
			}
		}
		return false
	}
	readyIdx := func() []int {
		var r []int
		for i, c := range cs {
			if c.c == nil {
				continue
			}
			if c.send {
				if c.c.closed || len(c.c.buf) < c.c.cap || live(c.c.recvq) {
					r = append(r, i)
				}
			} else if len(c.c.buf) > 0 || c.c.closed || live(c.c.sendq) {
				r = append(r, i)
			}
		}
		return r
	}
	do := func(i int) (int, value, bool) {
		c := cs[i]
		if c.send {
			p.chanSend(fr, c.c, c.v)
			return i, nil, false
		}
		v, ok := p.chanRecv(fr, c.c)
		return i, v, ok
	}
	if r := readyIdx(); len(r) > 0 {
		k := 0
		if len(r) > 1 && p.selForks {
			k = p.choose(len(r), "select")
		}
		return do(r[k])
	}
	if !blocking {
		return -1, nil, false
	}
	s := &selState{}
	for i, c := range cs {
		if c.c == nil {
			continue
		}
		w := &waiter{g: fr.g, v: c.v, idx: i, sel: s}
		if c.send {
			c.c.sendq = append(c.c.sendq, w)
		} else {
			if p.race != nil && c.c.cap == 0 {
				p.race.release(fr.g, c.c)
			}
			c.c.recvq = append(c.c.recvq, w)
		}
	}
	closedIdx := func() int {
		for i, c := range cs {
			if c.c != nil && c.c.closed {
				return i
			}
		}
		return -1
	}
	p.block(fr, "select", func() bool { return s.done || closedIdx() >= 0 })
	if !s.done {
		i := closedIdx()
		s.done = true
		if cs[i].send {
			panic(targetPanic{rt: "send on closed channel", pos: p.where(fr)})
		}
		if p.race != nil {
			p.race.acquire(fr.g, cs[i].c)
		}
		return i, nil, false
	}
	if p.race != nil {
		p.race.acquire(fr.g, cs[s.which].c)
	}
	if cs[s.which].send {
		return s.which, nil, false
	}
	return s.which, s.v, s.ok
}
