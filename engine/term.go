package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Hash-consed SMT terms over Bool and Int (mathematical integers).

type Op uint8

const (
	OpConst Op = iota // Int constant
	OpVar             // Int or Bool variable
	OpLin             // k + sum coef_i*arg_i
	OpMul             // nonlinear product
	OpDiv             // floor division by positive constant k
	OpMod             // modulo positive constant k
	OpIte             // Int ite
	OpTrue
	OpFalse
	OpEq0 // arg0 = 0
	OpGe0 // arg0 >= 0
	OpNot
	OpAnd
	OpOr
	OpBvOp // bitwise op on non-negative ints, name = bvand/bvor/bvxor, k = width
)

type Term struct {
	op    Op
	bool_ bool // sort is Bool
	args  []*Term
	coefs []*big.Int
	k     *big.Int
	name  string
	lo    *big.Int // nil = unbounded
	hi    *big.Int
	id    int
	rnd   bool
}

type TermCtx struct {
	tab  map[string]*Term
	all  []*Term
	vars []*Term
	T, F *Term
}

func newTermCtx() *TermCtx {
	c := &TermCtx{tab: map[string]*Term{}}
	c.T = c.mk(&Term{op: OpTrue, bool_: true})
	c.F = c.mk(&Term{op: OpFalse, bool_: true})
	return c
}

func (c *TermCtx) mk(t *Term) *Term {
	var b strings.Builder
	fmt.Fprintf(&b, "%d|", t.op)
	if t.k != nil {
		b.WriteString(t.k.String())
	}
	b.WriteByte('|')
	b.WriteString(t.name)
	for i, a := range t.args {
		fmt.Fprintf(&b, "|%d", a.id)
		if t.coefs != nil {
			b.WriteByte('*')
			b.WriteString(t.coefs[i].String())
		}
	}
	key := b.String()
	if o, ok := c.tab[key]; ok {
		return o
	}
	t.id = len(c.all)
	c.all = append(c.all, t)
	c.tab[key] = t
	if t.op == OpVar {
		c.vars = append(c.vars, t)
	}
	return t
}

var bigZero = big.NewInt(0)
var bigOne = big.NewInt(1)

func (c *TermCtx) Big(k *big.Int) *Term {
	return c.mk(&Term{op: OpConst, k: k, lo: k, hi: k})
}
func (c *TermCtx) Int(k int64) *Term { return c.Big(big.NewInt(k)) }
func (c *TermCtx) Bool(b bool) *Term {
	if b {
		return c.T
	}
	return c.F
}
func (c *TermCtx) Var(name string, lo, hi *big.Int) *Term {
	return c.mk(&Term{op: OpVar, name: name, lo: lo, hi: hi})
}
func (c *TermCtx) BoolVar(name string) *Term {
	return c.mk(&Term{op: OpVar, name: name, bool_: true})
}

type lin struct {
	k  *big.Int
	m  map[*Term]*big.Int
}

func (c *TermCtx) toLin(t *Term) lin {
	l := lin{k: new(big.Int), m: map[*Term]*big.Int{}}
	c.addLin(&l, t, bigOne)
	return l
}
func (c *TermCtx) addLin(l *lin, t *Term, f *big.Int) {
	switch t.op {
	case OpConst:
		l.k.Add(l.k, new(big.Int).Mul(t.k, f))
	case OpLin:
		l.k.Add(l.k, new(big.Int).Mul(t.k, f))
		for i, a := range t.args {
			c.addAtom(l, a, new(big.Int).Mul(t.coefs[i], f))
		}
	default:
		c.addAtom(l, t, f)
	}
}
func (c *TermCtx) addAtom(l *lin, a *Term, f *big.Int) {
	if o, ok := l.m[a]; ok {
		s := new(big.Int).Add(o, f)
		if s.Sign() == 0 {
			delete(l.m, a)
		} else {
			l.m[a] = s
		}
		return
	}
	if f.Sign() != 0 {
		l.m[a] = new(big.Int).Set(f)
	}
}
func (c *TermCtx) fromLin(l lin) *Term {
	if len(l.m) == 0 {
		return c.Big(l.k)
	}
	atoms := make([]*Term, 0, len(l.m))
	for a := range l.m {
		atoms = append(atoms, a)
	}
	sort.Slice(atoms, func(i, j int) bool { return atoms[i].id < atoms[j].id })
	if len(atoms) == 1 && l.k.Sign() == 0 && l.m[atoms[0]].Cmp(bigOne) == 0 {
		return atoms[0]
	}
	t := &Term{op: OpLin, k: l.k, args: atoms}
	lo, hi := new(big.Int).Set(l.k), new(big.Int).Set(l.k)
	for _, a := range atoms {
		f := l.m[a]
		t.coefs = append(t.coefs, f)
		al, ah := a.lo, a.hi
		if f.Sign() < 0 {
			al, ah = ah, al
		}
		if lo != nil {
			if al == nil {
				lo = nil
			} else {
				lo.Add(lo, new(big.Int).Mul(al, f))
			}
		}
		if hi != nil {
			if ah == nil {
				hi = nil
			} else {
				hi.Add(hi, new(big.Int).Mul(ah, f))
			}
		}
	}
	t.lo, t.hi = lo, hi
	return c.mk(t)
}

func (c *TermCtx) Add(a, b *Term) *Term {
	l := c.toLin(a)
	c.addLin(&l, b, bigOne)
	return c.fromLin(l)
}
func (c *TermCtx) Sub(a, b *Term) *Term {
	l := c.toLin(a)
	c.addLin(&l, b, big.NewInt(-1))
	return c.fromLin(l)
}
func (c *TermCtx) Scale(a *Term, f *big.Int) *Term {
	l := lin{k: new(big.Int), m: map[*Term]*big.Int{}}
	c.addLin(&l, a, f)
	return c.fromLin(l)
}
func (c *TermCtx) Neg(a *Term) *Term { return c.Scale(a, big.NewInt(-1)) }
func (c *TermCtx) Mul(a, b *Term) *Term {
	if a.op == OpConst {
		return c.Scale(b, a.k)
	}
	if b.op == OpConst {
		return c.Scale(a, b.k)
	}
	if a.id > b.id {
		a, b = b, a
	}
	t := &Term{op: OpMul, args: []*Term{a, b}}
	if a.lo != nil && a.hi != nil && b.lo != nil && b.hi != nil {
		for _, x := range []*big.Int{a.lo, a.hi} {
			for _, y := range []*big.Int{b.lo, b.hi} {
				p := new(big.Int).Mul(x, y)
				if t.lo == nil || p.Cmp(t.lo) < 0 {
					t.lo = p
				}
				if t.hi == nil || p.Cmp(t.hi) > 0 {
					t.hi = p
				}
			}
		}
	}
	return c.mk(t)
}

func floorDiv(a, k *big.Int) *big.Int { q, _ := new(big.Int).DivMod(a, k, new(big.Int)); return q } // k>0: Euclid = floor

func (c *TermCtx) Div(a *Term, k *big.Int) *Term {
	if k.Cmp(bigOne) == 0 {
		return a
	}
	if a.op == OpConst {
		return c.Big(floorDiv(a.k, k))
	}
	// split divisible part
	if a.op == OpLin {
		rest := lin{k: new(big.Int), m: map[*Term]*big.Int{}}
		q := lin{k: new(big.Int), m: map[*Term]*big.Int{}}
		for i, x := range a.args {
			if new(big.Int).Mod(a.coefs[i], k).Sign() == 0 {
				q.m[x] = new(big.Int).Div(a.coefs[i], k)
			} else {
				rest.m[x] = a.coefs[i]
			}
		}
		if len(q.m) > 0 {
			rest.k = new(big.Int).Mod(a.k, k)
			q.k = floorDiv(a.k, k)
			return c.Add(c.fromLin(q), c.Div(c.fromLin(rest), k))
		}
	}
	if a.op == OpDiv {
		return c.Div(a.args[0], new(big.Int).Mul(a.k, k))
	}
	t := &Term{op: OpDiv, args: []*Term{a}, k: k}
	if a.lo != nil {
		t.lo = floorDiv(a.lo, k)
	}
	if a.hi != nil {
		t.hi = floorDiv(a.hi, k)
	}
	if t.lo != nil && t.hi != nil && t.lo.Cmp(t.hi) == 0 {
		return c.Big(t.lo)
	}
	return c.mk(t)
}

func (c *TermCtx) Mod(a *Term, k *big.Int) *Term {
	if a.op == OpConst {
		return c.Big(new(big.Int).Mod(a.k, k))
	}
	if a.op == OpLin {
		l := lin{k: new(big.Int).Mod(a.k, k), m: map[*Term]*big.Int{}}
		ch := l.k.Cmp(a.k) != 0
		for i, x := range a.args {
			if new(big.Int).Mod(a.coefs[i], k).Sign() == 0 {
				ch = true
			} else {
				l.m[x] = a.coefs[i]
			}
		}
		if ch {
			// only profitable when it removes atoms or the const
			b := c.fromLin(l)
			if b != a && len(l.m) < len(a.args) {
				return c.Mod(b, k)
			}
		}
	}
	if a.lo != nil && a.hi != nil {
		ql, qh := floorDiv(a.lo, k), floorDiv(a.hi, k)
		if ql.Cmp(qh) == 0 {
			return c.Sub(a, c.Big(new(big.Int).Mul(ql, k)))
		}
	}
	if a.op == OpMod && new(big.Int).Mod(a.k, k).Sign() == 0 {
		return c.Mod(a.args[0], k)
	}
	t := &Term{op: OpMod, args: []*Term{a}, k: k, lo: bigZero, hi: new(big.Int).Sub(k, bigOne)}
	return c.mk(t)
}

func minB(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func maxB(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}

func (c *TermCtx) Ite(cond, a, b *Term) *Term {
	if cond == c.T {
		return a
	}
	if cond == c.F {
		return b
	}
	if a == b {
		return a
	}
	if a.bool_ {
		return c.Or(c.And(cond, a), c.And(c.Not(cond), b))
	}
	return c.mk(&Term{op: OpIte, args: []*Term{cond, a, b}, lo: minB(a.lo, b.lo), hi: maxB(a.hi, b.hi)})
}

func (c *TermCtx) eq0(d *Term) *Term {
	if d.op == OpConst {
		return c.Bool(d.k.Sign() == 0)
	}
	if d.lo != nil && d.lo.Sign() > 0 || d.hi != nil && d.hi.Sign() < 0 {
		return c.F
	}
	if d.op == OpLin {
		// gcd test and sign normalisation
		g := new(big.Int)
		for _, f := range d.coefs {
			g.GCD(nil, nil, g, new(big.Int).Abs(f))
		}
		if g.Sign() != 0 && new(big.Int).Mod(d.k, g).Sign() != 0 {
			return c.F
		}
		if g.Cmp(bigOne) > 0 || d.coefs[0].Sign() < 0 {
			if d.coefs[0].Sign() < 0 {
				g = new(big.Int).Neg(g)
			}
			l := lin{k: new(big.Int).Quo(d.k, g), m: map[*Term]*big.Int{}}
			for i, a := range d.args {
				l.m[a] = new(big.Int).Quo(d.coefs[i], g)
			}
			return c.eq0(c.fromLin(l))
		}
	}
	return c.mk(&Term{op: OpEq0, bool_: true, args: []*Term{d}})
}
func (c *TermCtx) Eq(a, b *Term) *Term {
	if a == b {
		return c.T
	}
	if a.bool_ {
		return c.Or(c.And(a, b), c.And(c.Not(a), c.Not(b)))
	}
	return c.eq0(c.Sub(a, b))
}
func (c *TermCtx) ge0(d *Term) *Term {
	if d.op == OpConst {
		return c.Bool(d.k.Sign() >= 0)
	}
	if d.lo != nil && d.lo.Sign() >= 0 {
		return c.T
	}
	if d.hi != nil && d.hi.Sign() < 0 {
		return c.F
	}
	return c.mk(&Term{op: OpGe0, bool_: true, args: []*Term{d}})
}
func (c *TermCtx) Le(a, b *Term) *Term { return c.ge0(c.Sub(b, a)) }
func (c *TermCtx) Lt(a, b *Term) *Term { return c.ge0(c.Sub(c.Sub(b, a), c.Int(1))) }
func (c *TermCtx) Not(a *Term) *Term {
	switch a.op {
	case OpTrue:
		return c.F
	case OpFalse:
		return c.T
	case OpNot:
		return a.args[0]
	case OpGe0: // not(d>=0) = -d-1>=0
		return c.ge0(c.Sub(c.Neg(a.args[0]), c.Int(1)))
	}
	return c.mk(&Term{op: OpNot, bool_: true, args: []*Term{a}})
}
func (c *TermCtx) nary(op Op, unit, zero *Term, xs []*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == unit || seen[t] {
			return true
		}
		if t == zero {
			return false
		}
		if t.op == op {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[c.Not(t)] {
			return false
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk(&Term{op: op, bool_: true, args: out})
}
func (c *TermCtx) And(xs ...*Term) *Term { return c.nary(OpAnd, c.T, c.F, xs) }
func (c *TermCtx) Or(xs ...*Term) *Term  { return c.nary(OpOr, c.F, c.T, xs) }
func (c *TermCtx) Bv(name string, w int, a, b *Term) *Term {
	k := big.NewInt(int64(w))
	return c.mk(&Term{op: OpBvOp, name: name, k: k, args: []*Term{a, b}, lo: bigZero, hi: new(big.Int).Sub(new(big.Int).Lsh(bigOne, uint(w)), bigOne)})
}

// tz returns the number of low bits known to be zero.
func (t *Term) tz() uint {
	switch t.op {
	case OpConst:
		if t.k.Sign() == 0 {
			return 64
		}
		return t.k.TrailingZeroBits()
	case OpLin:
		m := uint(64)
		if t.k.Sign() != 0 {
			m = t.k.TrailingZeroBits()
		}
		for i, a := range t.args {
			z := t.coefs[i].TrailingZeroBits() + a.tz()
			if z < m {
				m = z
			}
		}
		return m
	}
	return 0
}

// smt text

func smtInt(k *big.Int) string {
	if k.Sign() < 0 {
		return "(- " + new(big.Int).Neg(k).String() + ")"
	}
	return k.String()
}

// Emitter writes definitions for terms not yet emitted to w.
type Emitter struct {
	done map[*Term]bool
	out  *strings.Builder
}

func (t *Term) ref() string {
	switch t.op {
	case OpConst:
		return smtInt(t.k)
	case OpVar:
		return "|" + t.name + "|"
	case OpTrue:
		return "true"
	case OpFalse:
		return "false"
	}
	return fmt.Sprintf("t%d", t.id)
}

func (e *Emitter) emit(t *Term) {
	if e.done[t] {
		return
	}
	e.done[t] = true
	for _, a := range t.args {
		e.emit(a)
	}
	sort := "Int"
	if t.bool_ {
		sort = "Bool"
	}
	var body string
	switch t.op {
	case OpConst, OpTrue, OpFalse:
		return
	case OpVar:
		fmt.Fprintf(e.out, "(declare-const |%s| %s)\n", t.name, sort)
		if !t.bool_ {
			if t.lo != nil {
				fmt.Fprintf(e.out, "(assert (>= |%s| %s))\n", t.name, smtInt(t.lo))
			}
			if t.hi != nil {
				fmt.Fprintf(e.out, "(assert (<= |%s| %s))\n", t.name, smtInt(t.hi))
			}
		}
		return
	case OpLin:
		var b strings.Builder
		b.WriteString("(+ ")
		b.WriteString(smtInt(t.k))
		for i, a := range t.args {
			if t.coefs[i].Cmp(bigOne) == 0 {
				b.WriteString(" " + a.ref())
			} else {
				fmt.Fprintf(&b, " (* %s %s)", smtInt(t.coefs[i]), a.ref())
			}
		}
		b.WriteString(")")
		body = b.String()
	case OpMul:
		body = "(* " + t.args[0].ref() + " " + t.args[1].ref() + ")"
	case OpDiv:
		body = "(div " + t.args[0].ref() + " " + smtInt(t.k) + ")"
	case OpMod:
		body = "(mod " + t.args[0].ref() + " " + smtInt(t.k) + ")"
	case OpIte:
		body = "(ite " + t.args[0].ref() + " " + t.args[1].ref() + " " + t.args[2].ref() + ")"
	case OpEq0:
		body = "(= " + t.args[0].ref() + " 0)"
	case OpGe0:
		body = "(>= " + t.args[0].ref() + " 0)"
	case OpNot:
		body = "(not " + t.args[0].ref() + ")"
	case OpAnd, OpOr:
		var b strings.Builder
		if t.op == OpAnd {
			b.WriteString("(and")
		} else {
			b.WriteString("(or")
		}
		for _, a := range t.args {
			b.WriteString(" " + a.ref())
		}
		b.WriteString(")")
		body = b.String()
	case OpBvOp:
		w := t.k.String()
		body = "(bv2nat (" + t.name + " ((_ int2bv " + w + ") " + t.args[0].ref() + ") ((_ int2bv " + w + ") " + t.args[1].ref() + ")))"
	}
	fmt.Fprintf(e.out, "(define-fun t%d () %s %s)\n", t.id, sort, body)
}
